// The sources under test are written for a later version of clang, where the
// options of the diagnostics are passed by reference. This header adapts the
// two classes whose constructors changed, and records the diagnostics.
#pragma once
#include_next "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/SourceManager.h"
#include "llvm/ADT/SmallString.h"
#include <string>
#include <vector>

namespace shim {
struct Diagnostic {
  bool error = false;
  bool located = false;
  unsigned line = 0, column = 0;
  std::string message;
};

inline std::vector<Diagnostic> diagnostics;
} // namespace shim

namespace clang {
class RecordingDiagnosticPrinter : public DiagnosticConsumer {
public:
  RecordingDiagnosticPrinter(llvm::raw_ostream &, DiagnosticOptions &) {}

  void HandleDiagnostic(DiagnosticsEngine::Level level,
                        const Diagnostic &info) override {
    DiagnosticConsumer::HandleDiagnostic(level, info);
    shim::Diagnostic d;
    d.error = level >= DiagnosticsEngine::Error;
    llvm::SmallString<64> message;
    info.FormatDiagnostic(message);
    d.message = message.str().str();
    if (info.getLocation().isValid() && info.hasSourceManager()) {
      auto p = info.getSourceManager().getPresumedLoc(info.getLocation());
      d.located = p.isValid();
      if (p.isValid()) {
        d.line = p.getLine();
        d.column = p.getColumn();
      }
    }
    shim::diagnostics.push_back(d);
  }
};

class ReferencedDiagnosticsEngine : public DiagnosticsEngine {
public:
  ReferencedDiagnosticsEngine(llvm::IntrusiveRefCntPtr<DiagnosticIDs> ids,
                              DiagnosticOptions &options,
                              DiagnosticConsumer *client)
      : DiagnosticsEngine(
            ids,
            llvm::IntrusiveRefCntPtr<DiagnosticOptions>(
                new DiagnosticOptions(options)),
            client) {}
};
} // namespace clang

#define TextDiagnosticPrinter RecordingDiagnosticPrinter
#define DiagnosticsEngine ReferencedDiagnosticsEngine
