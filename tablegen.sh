#!/bin/bash
# tablegen.sh REPO OUT SHIM: generate the tablegen output of every dialect and pass list.
set -euo pipefail
S=$1/include; G=$2; SH=$3
T="/usr/lib/llvm-20/bin/mlir-tblgen -I$SH -I$S -I/usr/lib/llvm-20/include"
g() { mkdir -p "$G/$1"; echo "$T $2 -I$S/$1 $S/$1/$3 -o $G/$1/$4"; }
has() { [ -f "$S/$1" ]; }
{
for d in BaseModelica:bmodelica Runtime:runtime Modeling:modeling IDA:ida KINSOL:kinsol SUNDIALS:sundials Modelica:modelica; do
  n=${d%%:*}; k=${d##*:}; D=marco/Dialect/$n/IR
  for f in Attributes:attrdef Ops:op Enums:enum; do
    b=${f%%:*}; x=${f##*:}
    if has $D/$b.td; then g $D -gen-$x-decls $b.td $b.h.inc; g $D -gen-$x-defs $b.td $b.cpp.inc; fi
  done
  if has $D/Types.td; then
    g $D "-gen-typedef-decls -typedefs-dialect=$k" Types.td Types.h.inc
    g $D "-gen-typedef-defs -typedefs-dialect=$k" Types.td Types.cpp.inc
  fi
  for f in AttrInterfaces:attr TypeInterfaces:type OpInterfaces:op; do
    b=${f%%:*}; x=${f##*:}
    if has $D/$b.td; then g $D -gen-$x-interface-decls $b.td $b.h.inc; g $D -gen-$x-interface-defs $b.td $b.cpp.inc; fi
  done
  g $D "-gen-dialect-decls -dialect=$k" Dialect.td Dialect.h.inc
  g $D "-gen-dialect-defs -dialect=$k" Dialect.td Dialect.cpp.inc
done
v() { mkdir -p "$G/verif"; echo "$T $1 $SH/verif/Verif.td -o $G/verif/$2"; }
v "-gen-dialect-decls -dialect=verif" Dialect.h.inc
v "-gen-dialect-defs -dialect=verif" Dialect.cpp.inc
v -gen-op-decls Ops.h.inc
v -gen-op-defs Ops.cpp.inc
g marco/Dialect/BaseModelica/Transforms "-gen-pass-decls -name BaseModelica" Passes.td Passes.h.inc
g marco/Codegen/Transforms "-gen-pass-decls -name Transforms" Passes.td Passes.h.inc
g marco/Codegen/Conversion "-gen-pass-decls -name Conversion" Passes.td Passes.h.inc
g marco/Frontend "-gen-pass-decls -name Frontend" Passes.td Passes.h.inc
} | xargs -P8 -I{} sh -c '{}'
# Headers of the LLVM installed here, with the members that newer versions have.
python3 - "$G" <<'P'
import os, sys
inc, out = "/usr/lib/llvm-20/include/", sys.argv[1] + "/"
def patch(name, cls, before, text):
    s = open(inc + name).read()
    if text.split("(")[0].split()[-1] + "(" not in s:
        i = s.index("class " + cls + " {")
        j = s.index(before, i)
        s = s[:j] + text + s[j:]
    os.makedirs(os.path.dirname(out + name), exist_ok=True)
    open(out + name, "w").write(s)
patch("mlir/IR/SymbolTable.h", "SymbolTableCollection", "private:",
      "  void invalidateSymbolTable(Operation *op) { symbolTables.erase(op); }\n\n")
patch("mlir/Transforms/GreedyPatternRewriteDriver.h", "GreedyRewriteConfig", "  /// ", """
  GreedyRewriteConfig &enableFolding(bool e = true) { fold = e; return *this; }
  GreedyRewriteConfig &setListener(RewriterBase::Listener *l) { listener = l; return *this; }
  GreedyRewriteConfig &setMaxIterations(int64_t n) { maxIterations = n; return *this; }
  GreedyRewriteConfig &setUseTopDownTraversal(bool u = true) { useTopDownTraversal = u; return *this; }
  GreedyRewriteConfig &setStrictness(GreedyRewriteStrictness m) { strictMode = m; return *this; }
  GreedyRewriteConfig &enableConstantCSE(bool e = true) { cseConstants = e; return *this; }

""")
P
