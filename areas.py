"""What each check compiles: the areas of /repo and the harness sources."""

SAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]

AREAS = {
    "modeling": {
        "sources": ["lib/Modeling/*.cpp"],
        "flags": SAN,
        "libs": ["-lMLIR", "-lLLVM"],
    },
    "lexer": {
        "sources": ["lib/Lexer/*.cpp", "lib/Parser/BaseModelica/StateMachine.cpp", "lib/Parser/BaseModelica/Token.cpp"],
        "flags": SAN,
        "libs": ["-lLLVM"],
    },
    "parser": {
        "sources": ["lib/Lexer/*.cpp", "lib/Parser/BaseModelica/*.cpp", "lib/AST/ASTNode.cpp", "lib/AST/BaseModelica/*.cpp"],
        "flags": SAN,
        "libs": ["-l:libclang-cpp.so.20.1", "-lLLVM"],
    },
    "filter": {
        "sources": ["lib/Lexer/*.cpp", "lib/VariableFilter/*.cpp"],
        "shim": "shim_filter",
        "flags": SAN,
        "libs": ["-l:libclang-cpp.so.20.1", "-lLLVM"],
    },
    "io": {
        "sources": ["lib/IO/*.cpp"],
        "flags": SAN,
        "libs": ["-lLLVM"],
    },
    "dialects": {
        "sources": ["lib/Modeling/*.cpp", "lib/Dialect/Modeling/IR/*.cpp", "lib/Dialect/SUNDIALS/IR/*.cpp",
                    "lib/Dialect/IDA/IR/*.cpp", "lib/Dialect/KINSOL/IR/*.cpp", "lib/Dialect/Runtime/IR/*.cpp"],
        "shim": "shim",
        "tablegen": True,
        "support": ["verif_dialect.cpp"],
        "flags": SAN,
        "libs": ["-lMLIR", "-lLLVM"],
    },
    "bmodelica": {
        "sources": ["lib/Modeling/*.cpp", "lib/Dialect/Modeling/IR/*.cpp", "lib/Dialect/BaseModelica/IR/*.cpp",
                    "lib/Dialect/BaseModelica/Transforms/ClassInterfaceImpl.cpp",
                    "lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp"],
        "shim": "shim",
        "tablegen": True,
        "support": ["bm_support.cpp"],
        "flags": ["-O0", "-g0", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
        "libs": ["-lMLIR", "-lLLVM"],
    },
    "rewriting": {
        "sources": ["lib/Modeling/*.cpp", "lib/Dialect/Modeling/IR/*.cpp", "lib/Dialect/BaseModelica/IR/*.cpp",
                    "lib/Dialect/BaseModelica/Transforms/ClassInterfaceImpl.cpp",
                    "lib/Dialect/BaseModelica/Transforms/ConstantMaterializableTypeInterfaceImpl.cpp",
                    "lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp",
                    "lib/Dialect/BaseModelica/Transforms/InvertibleOpInterfaceImpl.cpp",
                    "lib/Dialect/BaseModelica/Analysis/VariableAccessAnalysis.cpp",
                    "lib/Dialect/BaseModelica/Transforms/Modeling/*.cpp",
                    "lib/Dialect/BaseModelica/Transforms/EquationAccessSplit.cpp",
                    "lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp",
                    "lib/Dialect/BaseModelica/Transforms/ScalarRangesEquationSplit.cpp",
                    "lib/Dialect/BaseModelica/Transforms/ViewAccessFolding.cpp",
                    "lib/Dialect/BaseModelica/Transforms/SCCSolvingBySubstitution.cpp"],
        "shim": "shim",
        "tablegen": True,
        "support": ["bm_support.cpp"],
        "flags": ["-O0", "-g0", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
        "libs": ["-lMLIR", "-lLLVM"],
    },
    "derivatives": {
        "sources": ["lib/Modeling/*.cpp", "lib/Dialect/Modeling/IR/*.cpp", "lib/Dialect/BaseModelica/IR/*.cpp",
                    "lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/*.cpp",
                    "lib/Dialect/BaseModelica/Transforms/ClassInterfaceImpl.cpp",
                    "lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp",
                    "lib/Dialect/BaseModelica/Transforms/DerivableTypeInterfaceImpl.cpp",
                    "lib/Dialect/BaseModelica/Transforms/DerivativeChainRule.cpp",
                    "lib/Dialect/BaseModelica/Transforms/ConstantMaterializableTypeInterfaceImpl.cpp"],
        "shim": "shim",
        "tablegen": True,
        "support": ["bm_support.cpp"],
        "flags": ["-O0", "-g0", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
        "libs": ["-lMLIR", "-lLLVM"],
    },
}

CHECKS = {
    "C01": {"area": "modeling", "harness": ["boxes.cpp"],
            "note": "Random search over small boxes and points near each other (also at large coordinates), compared with "
                    "enumerated sets of tuples. Trusts the enumeration in the harness."},
    "C02": {"area": "modeling", "harness": ["indexsets.cpp"], "note": "Random histories of set operations (stateful) against enumerated sets of tuples, including results used in place, moved, masks and iteration order. Trusts the enumeration."},
    "C03": {"area": "modeling", "harness": ["indexsets.cpp"], "note": "The same point set is built along different histories (ranges, points, set operations, trees) and equality, hash and canonical form are compared. Trusts the enumeration."},
    "C04": {"area": "modeling", "harness": ["rtree.cpp"], "note": "Random insert/remove/search histories on the spatial index against a list, with its structural invariants examined after each step."},
    "C05": {"area": "modeling", "harness": ["access.cpp"], "note": "Random access expressions, evaluated by an independent interpreter on every point of small index sets, against all the representations of access functions."},
    "C06": {"area": "modeling", "harness": ["access.cpp"], "note": "Compositions, copies, rebuilt and widened access functions evaluated against the interpreter applied twice."},
    "C07": {"area": "modeling", "harness": ["access.cpp"], "note": "Inverses and inverse images compared with the enumeration of the iteration space."},
    "C08": {"area": "modeling", "harness": ["mcim.cpp"], "note": "Random histories on matrices against an explicit boolean matrix, for all the kinds of groups."},
    "C09": {"area": "modeling", "harness": ["mcim.cpp"], "note": "The alternatives of functions and matrices are enumerated and compared with all the one-to-one selections covering the access."},
    "C10": {"area": "modeling", "harness": ["matching.cpp"], "note": "Random systems (planted, perturbed and thinned) are matched; results and the bookkeeping of the graphs are compared with the scalar accesses."},
    "C11": {"area": "modeling", "harness": ["matching.cpp"], "note": "The verdict of the array matching is compared with a scalar maximum bipartite matching of the same system, under all the options."},
    "C13": {"area": "modeling", "harness": ["dependency.cpp"], "note": "Components and cycles of random matched systems against the components found on the scalar equations."},
    "C14": {"area": "modeling", "harness": ["scheduling.cpp"], "note": "Schedules of random matched systems are executed on the scalar equations, in all the ways the directions allow, checking that what is read has been computed."},
    "C17": {"area": "lexer", "harness": ["lexer.cpp"], "note": "Random numerals (any number of digits, signs, exponents) scanned and accumulated, compared with strtod and exact integers. Trusts the C library's correctly rounded conversion."},
    "C18": {"area": "lexer", "harness": ["lexer.cpp"], "note": "Random token sequences laid out with random white space and comments are scanned back with kinds, values and positions; random bytes for termination and faithful ranges."},
    "C19": {"area": "parser", "harness": ["parser.cpp"], "note": "Random tokens of the grammar, random bytes, mutated valid classes and nested constructs are parsed under AddressSanitizer with a time limit; a null module must come with a diagnostic and the other way round."},
    "C20": {"area": "parser", "harness": ["parser.cpp"], "note": "Random expression trees written with minimal, redundant or no parentheses are parsed back and the tree found by the accessors compared with the generated one; chains which the grammar refuses must be diagnosed."},
    "C21": {"area": "parser", "harness": ["parser.cpp"], "note": "Random classes with every kind of declaration, equation, statement and annotation are written, parsed and compared member by member, in order."},
    "C22": {"area": "parser", "harness": ["parser.cpp"], "note": "The same token sequence laid out differently (white space, comments, redundant parentheses), valid or not, must give the same tree, or the same error at the same token."},
    "C23": {"area": "parser", "harness": ["parser.cpp"], "note": "For random parsed trees, the JSON export is compared with a walk by the accessors, and clones must be equal, disjoint and independent."},
    "C24": {"area": "parser", "harness": ["parser.cpp"], "note": "For random sources with known token positions, the locations of the nodes and of the diagnostics are compared with the tokens they were written from."},
    "C25": {"area": "filter", "harness": ["filter.cpp"], "note": "Random filters (names, subscripts, regular expressions, derivatives), parsed or built by calls, are queried for many names, ranks and elements and compared with a direct reading of the entries. Regular expressions are judged by the C library."},
    "C26": {"area": "filter", "harness": ["filter.cpp"], "note": "Random token sequences and bytes are parsed and compared with a reference recogniser of the grammar, with the position of the error; written entries must come back in order."},
    "C27": {"area": "io", "harness": ["io.cpp"], "note": "Random paths are classified and compared with the extension of their last component; random argument lists are received by a child process of the harness."},
    "C28": {"area": "dialects", "harness": ["sets_ir.cpp"], "note": "Random sets, lists and attributes are stored in operations, printed, parsed, written as bytecode and converted to attributes, and their points compared; texts changed at random are judged by a reference recogniser. Trusts the MLIR library installed here."},
    "C29": {"area": "dialects", "harness": ["solver_ir.cpp"], "note": "Random modules of all the operations of the solvers and of the run time are written in the custom, generic and binary forms and read back; the groups of arguments of the functions are compared with the signature in the documentation; changed texts must be refused with a diagnostic or round-trip. Trusts the MLIR library installed here."},
    "C30": {"area": "bmodelica", "harness": ["fold.cpp"], "note": "Random straight-line programs of the operations on scalars, ranges, tensors and arrays, with constant and unknown operands, are simplified; all the results are evaluated before and after by an interpreter written in the harness. Empty ranges and undefined values are not compared. Trusts the interpreter and the MLIR library installed here."},
    "C31": {"area": "bmodelica", "harness": ["bm_roundtrip.cpp"], "note": "Random modules over the operations, types and attributes of the modelling dialect, built by the C++ interface, are verified, written in the custom, generic and binary forms and read back, and compared with the written ones. Trusts the MLIR library installed here."},
    "C33": {"area": "rewriting", "harness": ["rewrite.cpp"], "note": "Random equations over arrays, with one or more accesses to the matched variable, are made explicit, and accesses are replaced by the expressions of other equations; equations are split by access and by scalar range; cycles are solved by substitution; the sides of the equations are evaluated before and after, at the index points and random values, by an interpreter written in the harness. Trusts the interpreter and the MLIR library installed here."},
    "C32": {"area": "derivatives", "harness": ["derivatives.cpp"], "note": "Random functions (statements, loops, calls, reductions, vectors and matrices, dynamic sizes) and expressions are derived in time to the first and second order, by their inputs to the first and second order, and by the chain rule; the derivatives are executed by an interpreter written in the harness and compared with finite differences of the original. Points where the finite differences can not be trusted or the branches change are discarded. Calls inside time derivatives are not implemented by the compiler and not generated."},
    "C16": {"area": "modeling", "harness": ["matching.cpp", "dependency.cpp", "scheduling.cpp"],
            "flags": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
            "retries": 30,
            "note": "Random systems are matched, split into components and scheduled repeatedly, with other analyses and allocations in between, and the results compared; the same with threads, under ThreadSanitizer, checking verdict, components and validity. Schedules of the threads are those the operating system gives. Trusts ThreadSanitizer."},
    "C35": {"area": "parser", "harness": ["attributes.cpp"], "note": "Random sources with the attributes written in all the orders and forms; the answers of the declarations, types, functions, annotations and constants are compared with the written elements. Trusts that the structure of the trees is right, which is what C20-C24 check."},
    "C15": {"area": "modeling", "harness": ["pantelides.cpp"], "note": "Random systems with existing derivatives are reduced and the number of derivatives of every scalar equation and variable is compared with the scalar Pantelides algorithm."},
    "C12": {"area": "modeling", "harness": ["graph.cpp"], "note": "Random histories on directed and undirected graphs against explicit lists; iterators, filters, printed diagrams."},
}

_PLANNED = "Planned; its check is not built yet."
NOT_APPLICABLE = {i: _PLANNED for i in ["C%02d" % n for n in range(1, 36)]}
NOT_APPLICABLE["C34"] = ("The compiler driver does not build against the LLVM installed here, so no simulation "
                         "can be produced to compare with.")

