#pragma once
#include_next "mlir/Interfaces/FunctionImplementation.h"
namespace mlir::call_interface_impl { using function_interface_impl::addArgAndResultAttrs; }
