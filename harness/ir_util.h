// Shared helpers of the harnesses of the intermediate representation.
#pragma once

#include "mlir/Bytecode/BytecodeWriter.h"
#include "mlir/IR/AsmState.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/OperationSupport.h"
#include "mlir/IR/OwningOpRef.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "pbt.h"
#include <memory>
#include <string>
#include <vector>

#define REQUIRE(cond) PBT_REQUIRE(g, cond, "")

namespace ir {
using ModuleRef = mlir::OwningOpRef<mlir::ModuleOp>;

/// A context without threads, kept for a number of cases.
template <typename... Dialects>
mlir::MLIRContext &context() {
  static std::unique_ptr<mlir::MLIRContext> ctx;
  static unsigned uses = 0;
  if (!ctx || ++uses > 500) {
    ctx = std::make_unique<mlir::MLIRContext>(mlir::MLIRContext::Threading::DISABLED);
    (ctx->loadDialect<Dialects>(), ...);
    uses = 0;
  }
  return *ctx;
}

/// Collects the diagnostics emitted during its life.
struct Diagnostics {
  std::vector<std::string> errors;
  mlir::ScopedDiagnosticHandler handler;

  explicit Diagnostics(mlir::MLIRContext *ctx)
      : handler(ctx, [this](mlir::Diagnostic &d) {
          if (d.getSeverity() == mlir::DiagnosticSeverity::Error)
            errors.push_back(d.str());
          return mlir::success();
        }) {}

  std::string text() const {
    std::string s;
    for (auto &e : errors)
      s += "\n  error: " + e;
    return s;
  }
};

inline std::string print(mlir::Operation *op, bool generic = false, bool locations = false) {
  std::string s;
  llvm::raw_string_ostream os(s);
  mlir::OpPrintingFlags flags;
  if (generic)
    flags.printGenericOpForm();
  if (locations)
    flags.enableDebugInfo();
  op->print(os, flags);
  return s;
}

template <typename T>
std::string str(T t) {
  std::string s;
  llvm::raw_string_ostream os(s);
  t.print(os);
  return s;
}

inline ModuleRef parse(mlir::MLIRContext &ctx, llvm::StringRef text) {
  mlir::ParserConfig config(&ctx);
  return mlir::parseSourceString<mlir::ModuleOp>(text, config);
}

inline std::string bytecode(mlir::Operation *op) {
  std::string s;
  llvm::raw_string_ostream os(s);
  if (mlir::failed(mlir::writeBytecodeToFile(op, os)))
    return "";
  return s;
}

/// Reads an operation through every external form and requires an operation
/// equal to the written one.
/// The same set can be printed as different boxes: `sameText` is false if the
/// module contains sets.
inline void roundTrips(pbt::G &g, mlir::ModuleOp module, bool sameText = true) {
  mlir::MLIRContext &ctx = *module.getContext();
  Diagnostics diags(&ctx);
  if (mlir::failed(mlir::verify(module)))
    g.fail("the built operations do not verify" + diags.text() + "\n" + print(module, true));
  for (int form = 0; form < 3; ++form) {
    static const char *names[] = {"custom form", "generic form", "bytecode"};
    std::string text = form == 2 ? bytecode(module) : print(module, form == 1);
    if (text.empty())
      g.fail(std::string("no ") + names[form]);
    ModuleRef again = parse(ctx, text);
    std::string shown = form == 2 ? print(module) : text;
    if (!again)
      g.fail(std::string("the ") + names[form] + " is not read back" + diags.text() + "\n" + shown);
    if (!diags.errors.empty())
      g.fail(std::string("errors while reading the ") + names[form] + diags.text() + "\n" + shown);
    for (int f = 0; sameText && f < 2; ++f) {
      std::string a = print(module, f), b = print(*again, f);
      if (a != b)
        g.fail(std::string("the ") + names[form] + " is read differently:\n" + a + "\n" + b);
    }
    if (!mlir::OperationEquivalence::isEquivalentTo(
            module, *again, mlir::OperationEquivalence::Flags::IgnoreLocations))
      g.fail(std::string("the operation read from the ") + names[form] +
             " is not equal to the written one\n" + shown + "\n" + print(*again, true));
  }
}
} // namespace ir
