// The dialect of the harness storing index sets and lists of index sets.
#include "verif/Verif.h"
#include "mlir/IR/DialectImplementation.h"

using namespace ::mlir::modeling;

#include "verif/Dialect.cpp.inc"

namespace {
bool parseSet(mlir::OpAsmParser &parser, IndexSet &prop) {
  return mlir::failed(::mlir::modeling::parse(parser, prop));
}

void printSet(mlir::OpAsmPrinter &printer, mlir::Operation *, const IndexSet &prop) {
  ::mlir::modeling::print(printer, prop);
}

bool parseList(mlir::OpAsmParser &parser, IndexSetsList &prop) {
  return mlir::failed(::mlir::modeling::parse(parser, prop));
}

void printList(mlir::OpAsmPrinter &printer, mlir::Operation *, const IndexSetsList &prop) {
  ::mlir::modeling::print(printer, prop);
}
} // namespace

#define GET_OP_CLASSES
#include "verif/Ops.cpp.inc"

namespace verif {
void VerifDialect::initialize() {
  addOperations<
#define GET_OP_LIST
#include "verif/Ops.cpp.inc"
      >();
}
} // namespace verif
