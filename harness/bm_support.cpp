// Members that the installed MLIR requires from the types of the dialect.
#include "marco/Dialect/BaseModelica/IR/Dialect.h"
using namespace mlir;
namespace mlir::bmodelica {
#define P(T) uint64_t T::getPreferredAlignment(const DataLayout &l, DataLayoutEntryListRef p) const { return getABIAlignment(l, p); }
P(BooleanType) P(IntegerType) P(RealType)
}
