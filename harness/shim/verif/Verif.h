// A dialect of the harness, with operations storing the properties under test.
#pragma once

#include "marco/Dialect/Modeling/IR/Properties.h"
#include "mlir/Bytecode/BytecodeOpInterface.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/OpDefinition.h"
#include "mlir/IR/OpImplementation.h"

#include "verif/Dialect.h.inc"

#define GET_OP_CLASSES
#include "verif/Ops.h.inc"
