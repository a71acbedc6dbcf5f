#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one entry per property)."""
import json, os
P = []

def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

M = "include/marco/Modeling/"; L = "lib/Modeling/"

p("C01", "Interval, box and point algebra is exact set algebra",
  "Integer intervals, multidimensional boxes and points behave as the sets of integer tuples they denote: membership, containment, overlap, intersection, merging, difference, size, slicing and enumeration all give exactly the answer that enumerating the tuples gives. Equality and the ordering relations agree with each other and form a strict total order, and a difference is returned as disjoint pieces.",
  ["inputs"], "every pair of intervals/boxes/points of equal rank (1..4), any bounds including negative ones and touching or nested ones",
  "Range/MultidimensionalRange unit tests use a handful of fixed 1-D and 2-D pairs; corner relations (touching, nested, partially equal, higher rank) are combinatorial.",
  [L+"Range.cpp", L+"MultidimensionalRange.cpp", L+"Point.cpp", M+"Range.h", M+"MultidimensionalRange.h", M+"Point.h"],
  [("interval subtraction and merging", "Range::subtract / Range::merge"), ("dimension-wise box subtraction", "MultidimensionalRange::subtract"), ("lexicographic comparison", "Range::compare, MultidimensionalRange::compare")],
  ["return values of the public operations", "enumeration through the iterators"])

p("C02", "Index sets are faithful sets of points under any operation history",
  "After any sequence of insertions, removals, unions, intersections, complements, slices and concatenations of points, boxes and other sets, an index set contains exactly the tuples that the same sequence yields on a plain mathematical set. Size, emptiness, membership, containment and overlap queries agree with that set, every tuple is enumerated exactly once, and the boxes it is reported to consist of are pairwise disjoint.",
  ["histories", "inputs"], "every finite history of index-set operations over ranks 1..4 from any starting set, including bulk construction from lists of overlapping boxes",
  "The unit tests replay a few fixed insert/remove sequences; loss or duplication of points depends on the history that shaped the internal tree.",
  [L+"IndexSet.cpp", M+"IndexSet.h", M+"RTree.h"],
  [("overlap removal before insertion", "IndexSet::Impl::add / setFromRanges"), ("removal and tree condensation", "IndexSet::remove, RTreeCRTP::remove"), ("complement", "IndexSet::complement")],
  ["IndexSet queries and iterators after each operation"],
  [("root", "R-tree of pairwise disjoint boxes", L+"IndexSet.cpp")])

p("C03", "Index-set identity depends only on the points, not on history",
  "Two index sets that contain the same points compare equal, hash equally and have the same canonical representation, whatever history built them, and canonicalising or compacting a set never changes its points. The comparison used to order them is a consistent total order on canonical sets.",
  ["histories", "inputs"], "every pair of construction histories that reach the same, or a different, point set",
  "Tests compare sets built once in one way; independence from history quantifies over pairs of histories.",
  [L+"IndexSet.cpp", M+"IndexSet.h"],
  [("canonicalisation", "IndexSet::getCanonicalRepresentation"), ("mutual containment equality", "IndexSet::operator=="), ("compaction", "IndexSet::getCompactRanges")],
  ["operator==, compare, hash_value, getCanonicalRepresentation, getCompactRanges"])

p("C04", "The spatial index answers box queries exactly and stays well formed",
  "After any history of insertions and removals of boxed objects, a containment query and an overlap enumeration return exactly the stored objects that a linear scan returns. The tree stays well formed: every node's bounding box is the minimal one around what it holds, all leaves are at the same depth, and node occupancy stays within the configured bounds.",
  ["histories"], "every history of single and bulk insertions and removals, for tree node capacities allowed by the constructor",
  "Unit tests insert fixed objects and one random sequence without checking the balance or query exactness after removals.",
  [M+"RTree.h", L+"RTree.cpp"],
  [("node choice and split", "RTreeCRTP::chooseDestinationNode / splitNode"), ("propagation of bounding boxes", "RTreeCRTP::adjustTree"), ("condense after removal", "RTreeCRTP::remove")],
  ["object enumeration, overlap enumeration, root structure"],
  [("root", "balanced tree of minimal bounding boxes", M+"RTree.h")])

p("C05", "Applying an access function to a point or set is exact",
  "Evaluating an access function on a point gives the tuple its expression denotes, and evaluating it on an index set gives exactly the set of images of the points in that set. The specialised representations chosen for the same function (constant, translated/permuted dimensions, general affine, general) never change these results.",
  ["inputs"], "every access function built from dimensions, constants, sums, differences, products, divisions, ranges and index sets, applied to every point and to every index set of the matching rank",
  "Unit tests apply three or four fixed functions to one point or box.",
  [L+"AccessFunction.cpp", L+"AccessFunctionRotoTranslation.cpp", L+"AccessFunctionConstant.cpp", L+"AccessFunctionAffineMap.cpp", L+"AccessFunctionAffineConstant.cpp", L+"AccessFunctionGeneric.cpp", L+"DimensionAccess.cpp"],
  [("factory choosing the representation", "AccessFunction::build"), ("per-class map()", "AccessFunction*::map")],
  ["AccessFunction::map on points and index sets"])

p("C06", "Composition and copying of access functions preserve meaning",
  "Composing two access functions yields a function that maps every point to what applying the first and then the second gives, whatever representations are involved. Copies and equality are faithful: a clone equals its origin and maps alike, and functions reported equal map every point alike.",
  ["inputs"], "every composable pair of access functions and every point of the first one's domain",
  "Tests check one composition of two offset accesses.",
  [L+"AccessFunction.cpp", L+"AccessFunctionRotoTranslation.cpp", L+"AccessFunctionAffineMap.cpp", L+"AccessFunctionGeneric.cpp"],
  [("composition", "AccessFunction::combine"), ("cloning", "AccessFunction::clone"), ("structural equality", "AccessFunction::operator==")],
  ["combine(...)->map(p)", "clone()", "operator=="])

p("C07", "Inverse accesses recover exactly the originating indices",
  "When an access function is reported invertible, its inverse composed with it is the identity on every point. Mapping a set of accessed elements back within a given iteration space returns only iterations whose accesses hit the set, and every such iteration when the access is a permutation/translation or constant.",
  ["inputs"], "every access function, iteration space and set of accessed elements",
  "Tests invert two fixed functions.",
  [L+"AccessFunctionRotoTranslation.cpp", L+"AccessFunctionConstant.cpp", L+"AccessFunction.cpp"],
  [("inverse", "AccessFunctionRotoTranslation::inverse"), ("preimage", "AccessFunction::inverseMap")],
  ["isInvertible, inverse, inverseMap"])

p("C08", "Incidence matrices are exact boolean matrices in compressed form",
  "A compressed incidence matrix holds exactly the equation/variable index pairs that the same operations would leave in an explicit boolean matrix: setting and clearing cells, applying access functions, adding, subtracting, filtering rows or columns and flattening rows or columns agree cell by cell. Equality and emptiness agree with the explicit matrix.",
  ["histories", "inputs"], "every history of matrix operations over any equation and variable index spaces (including equal, smaller and larger ranks)",
  "Tests set fixed patterns on three shapes and apply a single operation.",
  [L+"MCIM.cpp", L+"MCIMGroup.cpp", L+"MCIMGroupAffineConstant.cpp", L+"MCIMGroupGeneric.cpp", M+"MCIM.h"],
  [("delta groups", "MCIM::Impl / MCIMGroup"), ("flatten / filter", "MCIM::flattenRows, flattenColumns, filterRows, filterColumns")],
  ["get(), iteration over indices, operator==, flatten/filter results"])

p("C09", "Local matching alternatives are valid, and complete for one access",
  "For every equation/variable access pattern the enumerated local matching alternatives are finite in number and as many as announced, each alternative is a subset of the incidence pattern in which no scalar equation and no scalar variable appears twice. For patterns described by access functions the alternatives taken together cover every incident pair that the access functions describe.",
  ["inputs"], "every set of access functions or incidence matrix, and every equation and variable index space",
  "Eleven fixed instances are tested.",
  [L+"LocalMatchingSolutionsVAF.cpp", L+"LocalMatchingSolutionsMCIM.cpp", L+"LocalMatchingSolutions.cpp"],
  [("solution generators", "VAFSolutions::fetchNext"), ("per-group solutions", "MCIMSolutions")],
  ["the list of alternatives"])

p("C10", "A matching never assigns an equation or variable element twice",
  "After matching, every scalar equation is paired with at most one scalar variable and every scalar variable with at most one scalar equation, each pair is a real access of that equation, and the two sides' bookkeeping of matched elements agree. When matching reports success, every scalar equation and every scalar variable is covered exactly once by the extracted solution, whose indices, variables and access paths are those of the original equations.",
  ["inputs", "configurations"], "every system of array equations and array variables with any accesses, with and without the preliminary simplification step and its limits, with or without multithreading",
  "The unit tests contain no matching test at all; the end-to-end tests are not runnable here and sample a few models.",
  [M+"Matching.h", L+"Matching.cpp", M+"MCIM.h", M+"LocalMatchingSolutions.h"],
  [("simplification", "MatchingGraph::simplify"), ("augmenting paths", "MatchingGraph::match / getAugmentingPaths / applyPath"), ("extraction", "MatchingGraph::getMatch")],
  ["match() result, getMatch() solutions"],
  [("matchMatrix", "matched cells of each edge", M+"Matching.h"), ("matched indices", "per equation and variable", M+"Matching.h")])

p("C11", "Matching succeeds whenever a perfect scalar matching exists",
  "For every system in which the scalarised equations and variables admit a perfect matching, array matching reports success; for every system that admits none, it reports failure. Neither the simplification step nor its limits changes that verdict.",
  ["inputs", "configurations"], "every balanced or unbalanced system of array equations and variables, every option combination",
  "Completeness quantifies over all systems; no test runs the matching.",
  [M+"Matching.h", L+"Matching.cpp"],
  [("breadth-first augmenting path search", "MatchingGraph::getAugmentingPaths"), ("forced assignments", "MatchingGraph::simplify")],
  ["match() verdict against a scalar maximum-matching oracle"])

p("C12", "Graphs hold exactly the vertices and edges put into them",
  "After any history of vertex and edge additions and removals, a directed or undirected graph reports exactly the vertices, edges, incoming, outgoing and linked edges, filtered views and property values that a plain list-based model reports. Removing a vertex removes exactly its incident edges and leaves everything else, including descriptors held by the caller, intact. The diagram of a graph shows each vertex once, under an identifier of its own, and each edge once between its ends.",
  ["histories"], "every history of additions, removals and queries on directed and undirected graphs",
  "Tests add a few vertices and edges once and never remove one.",
  [M+"Graph.h", L+"Graph.cpp"],
  [("vertex and edge ownership", "Graph::addVertex, addEdge, removeVertex"), ("edge iterators", "Graph.h iterators")],
  ["iteration ranges and operator[]"])

p("C13", "Strongly connected components of equations are exactly the real ones",
  "The dependency analysis over array equations reports, taken over the scalar equations, a partition: each scalar equation belongs to exactly one component, two scalar equations are in the same component whenever they depend on each other cyclically, and blocks of equations that do not depend on each other, as blocks, are never grouped. Cycles that are reported go through several array equations along real reads of matched variables, and whenever there is a loop of scalar equations going across array equations it is reported.",
  ["inputs"], "every set of matched array equations with any affine reads and writes",
  "A few fixed cycles of two or three equations are tested.",
  [M+"DependencyGraph.h", M+"Dependency.h", M+"ArrayVariablesDependencyGraph.h", M+"ScalarEquationsDependencyGraph.h", M+"ArrayEquationsDependencyGraph.h", M+"SCC.h", L+"SCC.cpp"],
  [("vector components", "ArrayVariablesDependencyGraph::getSCCs"), ("cycle extraction", "DependencyGraph.h"), ("scalar split", "ScalarVariablesDependencyGraph")],
  ["list of components and their equations' iteration sets"])

p("C14", "Schedules compute every value before it is used",
  "Executing the scheduled equation blocks in order, each along its scheduled directions, computes every scalar variable exactly once and never reads a scalar variable before the equation that defines it has run, except within a block flagged as cyclic. Every scalar equation of the input is scheduled exactly once, and directions flagged as free may be run either way.",
  ["inputs"], "every set of matched and cycle-split array equations with any affine reads",
  "No scheduling unit test exists.",
  [M+"Scheduling.h", L+"Scheduling.cpp", M+"SCCsDependencyGraph.h", M+"ScalarVariablesDependencyGraph.h"],
  [("block order", "Scheduler::schedule"), ("direction inference", "Scheduling.h getSchedulingDirection")],
  ["schedule list: equations, indices, directions"])

p("C15", "Index reduction yields a structurally solvable system",
  "For every higher-index system that can be made solvable by differentiating equations, index reduction terminates and returns derivative chains such that the differentiated system admits a matching of all equations to the highest-order derivatives. Derivative relations it reports are consistent: each scalar equation is differentiated exactly as many times as the scalar index-reduction algorithm on the same system requires, each derivative is reported for exactly the indices where it was introduced, and systems that are already solvable are left unchanged.",
  ["inputs"], "every system of array equations, variables and existing derivative relations",
  "No index-reduction unit test exists.",
  [M+"Pantelides.h", L+"Pantelides.cpp"],
  [("Pantelides loop", "PantelidesGraph::pantelides"), ("augmenting path", "PantelidesGraph::augmentPath")],
  ["variable and equation derivative assignments"])

p("C16", "Structural analysis is deterministic and independent of threading",
  "Without multithreading, repeating matching, component detection or scheduling on the same system gives the same result every time: the addresses of the objects, earlier allocations and other analyses running in between do not change the output. With multithreading enabled the parallel loops have no data race, and the outcome is equally right under every interleaving: the same verdict on whether the system can be matched, a result that is valid, and the same scalar equations and variables in the result.",
  ["schedules", "configurations", "inputs"], "every input system, every thread interleaving of the parallel loops, every memory layout",
  "Tests run each algorithm once, single layout, without multithreading.",
  [M+"Matching.h", M+"Scheduling.h", M+"DependencyGraph.h", M+"ArrayEquationsDependencyGraph.h", M+"ScalarEquationsDependencyGraph.h"],
  [("parallel edge/vertex processing", "mlir::parallelForEach in Matching.h, DependencyGraph.h, ArrayEquationsDependencyGraph.h, ScalarEquationsDependencyGraph.h"), ("ordered containers", "Modeling headers"), ("locks", "Matching.h MCIM queue and MatchingGraph mutexes")],
  ["serialised results of repeated runs", "memory accesses under ThreadSanitizer"])

p("C17", "Numeric literals denote their mathematical value",
  "Every unsigned integer literal that fits 64 bits and every real literal accepted by the scanner is read as the number written: integers exactly and reals to within a few units in the last place, whatever the number of digits before or after the point and the exponent's sign or spelling; an integer that does not fit is rejected rather than read as another number. Reading a literal always terminates.",
  ["inputs"], "every literal of the grammar UNSIGNED-NUMBER with any number of digits",
  "Tests use five literals with few digits.",
  ["include/marco/Lexer/FloatLexer.h", "include/marco/Lexer/IntegerLexer.h", "lib/Parser/BaseModelica/StateMachine.cpp"],
  [("digit accumulation", "FloatLexer::addUpper/addLower/addExponential, IntegerLexer::operator+="), ("number states", "StateMachine::scan")],
  ["token kind and value"])

p("C18", "Scanning text yields exactly the tokens written, with their positions",
  "For any sequence of tokens written out with any separating white space and comments, scanning returns the same kinds and values in the same order, followed by end of file, and each token's reported source range is exactly the text it was written as. Keywords are recognised only as whole words, the longest operator is taken, and string and quoted-identifier contents are preserved including escapes.",
  ["inputs"], "every token sequence and every layout",
  "Tests scan single tokens, mostly isolated.",
  ["lib/Parser/BaseModelica/StateMachine.cpp", "include/marco/Lexer/Lexer.h", "lib/Lexer/Location.cpp", "lib/Parser/BaseModelica/Token.cpp"],
  [("scanner state machine", "StateMachine::step / scan"), ("position tracking", "StateMachine::advance, Lexer::scan")],
  ["token stream"])

p("C19", "Any input text is either parsed or rejected with a diagnostic",
  "For every byte string given as Base Modelica source the parser terminates without crashing, corrupting memory or hanging, and either returns a tree or reports at least one error located inside the source. Constructs nested up to a few hundred levels are included. A returned tree can be exported and copied without crashing.",
  ["inputs"], "every finite byte string",
  "Parser tests are not even built here and use well-formed inputs.",
  ["lib/Parser/BaseModelica/Parser.cpp", "lib/Parser/BaseModelica/StateMachine.cpp", "lib/AST/BaseModelica/*.cpp"],
  [("recursive descent with look-ahead", "Parser::parse*"), ("diagnostics", "Parser::emitUnexpectedTokenError")],
  ["process outcome, diagnostics count, returned tree"])

p("C20", "Expressions parse to the tree the language defines",
  "Any expression tree written out with the grammar's precedence and associativity, with minimal or redundant parentheses, parses back to the same operators, operands, literals, references, subscripts, calls, arrays and tuples. Operator chains group as the grammar says (left associative for additive and multiplicative operators; chains of relations or powers need parentheses and are refused without).",
  ["inputs"], "every expression tree over all operators and primaries, and every admissible parenthesisation",
  "Hand-written tests cover single operators.",
  ["lib/Parser/BaseModelica/Parser.cpp", "lib/AST/BaseModelica/Operation.cpp"],
  [("precedence climbing by grammar level", "Parser::parseLogicalExpression ... parsePrimary")],
  ["exported tree"])

p("C21", "Classes, declarations, equations and statements parse faithfully",
  "Any model, function, record, package or operator record written from a tree of declarations, prefixes, dimensions, modifications, annotations, equations and algorithm statements parses back to a tree with the same members in the same order and the same contents. Nothing written is lost, duplicated, reordered or moved between branches, sections or nested classes.",
  ["inputs"], "every class tree over the supported grammar",
  "A few handwritten models; nested conditionals and mixed sections are not sampled.",
  ["lib/Parser/BaseModelica/Parser.cpp", "lib/AST/BaseModelica/Class.cpp", "lib/AST/BaseModelica/IfEquation.cpp", "lib/AST/BaseModelica/WhenEquation.cpp"],
  [("class body parsing", "Parser::parseClassDefinition"), ("equation and statement parsing", "Parser::parseEquation, parseStatement")],
  ["exported tree"])

p("C22", "White space, comments and redundant parentheses never change the parse",
  "Changing only layout between tokens (blanks, line breaks, line and block comments) leaves the parse result unchanged except for source positions, and leaves acceptance unchanged for both valid and invalid sources: an invalid source is refused with the same error at the same token.",
  ["inputs"], "every source text and every token-preserving re-layout of it",
  "Metamorphic relation over pairs of inputs; tests sample single layouts.",
  ["lib/Parser/BaseModelica/StateMachine.cpp", "lib/Parser/BaseModelica/Parser.cpp"],
  [("comment and blank skipping", "StateMachine::scan"), ("look-ahead buffer", "Parser::advance")],
  ["acceptance, exported tree without positions"])

p("C23", "Copies and exports of the syntax tree are complete and independent",
  "A copy of any syntax tree exports to exactly the same document as its origin, and remains intact and correctly linked after the origin is destroyed or modified. The export contains every child exactly once under the right kind and every parent link of the tree refers to the actual parent.",
  ["inputs", "histories"], "every syntax tree that parsing or programmatic construction can produce",
  "No test copies or exports a tree.",
  ["lib/AST/BaseModelica/*.cpp", "include/marco/AST/BaseModelica/*.h"],
  [("copy constructors", "lib/AST/BaseModelica/*"), ("export", "toJSON")],
  ["toJSON() of origin and copy, getParent()"])

p("C24", "Source ranges in the tree and diagnostics point at the right text",
  "The source range of every syntax-tree node lies inside the source, begins no later than it ends, begins where its first token begins (for a class, the range goes from its keyword to its name; for a member, it is its name), and nodes lie inside the range of the equation, statement or expression that contains them. Error positions lie inside the source text or at its end, at the token that is not expected.",
  ["inputs"], "every accepted or rejected source text",
  "Locations are checked for tokens only, in few tests.",
  ["lib/Parser/BaseModelica/Parser.cpp", "lib/Lexer/Location.cpp", "include/marco/Parser/Location.h"],
  [("location bookkeeping", "SourceRange / Parser loc variables")],
  ["getLocation() of nodes, diagnostic locations"])

p("C25", "Variable filters select exactly the requested variables and elements",
  "For any filter made of names, regular expressions (searched, not anchored), derivative requests and array subscripts, a variable is kept exactly when some entry names it or matches it, and the kept elements are exactly the union of the index ranges written for it ('$' meaning unbounded, ranges cut or extended to the rank of the variable); a regular expression keeps the whole variables that no entry names. Derivatives are kept only when requested by an entry or matched as der(name); an empty or absent filter keeps all the variables and no derivative.",
  ["inputs"], "every filter string of the grammar and every variable name, rank and order of derivative",
  "No unit test for the filter is built here.",
  ["lib/VariableFilter/VariableFilter.cpp", "lib/VariableFilter/Parser.cpp", "lib/VariableFilter/LexerStateMachine.cpp", "lib/VariableFilter/Tracker.cpp"],
  [("lookup", "VariableFilter::getVariableInfo / getVariableDerInfo"), ("grammar", "vf::Parser")],
  ["visibility and ranges of the queried variable"])

p("C26", "Any filter text is accepted or rejected with a diagnostic",
  "For every byte string given as variable filter the parser terminates without crashing or hanging and returns a filter or an error located at the offending token; accepted filters contain one entry per written name, regular expression or derivative in the same order with the written subscripts, and integers which cannot be represented are refused.",
  ["inputs"], "every finite byte string, and every filter written from a tree",
  "Not tested here.",
  ["lib/VariableFilter/Parser.cpp", "lib/VariableFilter/LexerStateMachine.cpp", "lib/VariableFilter/AST.cpp"],
  [("recursive descent parser", "vf::Parser"), ("scanner", "vf::LexerStateMachine")],
  ["parser result"])

p("C27", "Input files are classified by true kind and commands keep their arguments",
  "An input file's kind (language and format) is decided by the extension of the last component of its path, for every path, never depending on directory names that merely look like extensions. A command passes on exactly the non-empty arguments appended, in order, and reports the exit code of its program.",
  ["inputs"], "every file name, extension and argument list",
  "Not tested here.",
  ["lib/IO/InputFile.cpp", "lib/IO/Command.cpp"],
  [("extension lookup", "InputKind::getFromFullFileName"), ("argument list", "Command::appendArg")],
  ["returned kind; arguments received by the child process"])

p("C28", "Index attributes and properties survive printing, parsing and bytecode",
  "Every interval, box, index set, list of index sets and list of printable indices stored in the intermediate representation is unchanged by printing and re-parsing, by conversion to a generic attribute and back (replacing what was stored before), and by writing and reading bytecode; equal sets make equal operations with equal hashes. Malformed text or attributes (wrong syntax or kinds, inverted or unrepresentable bounds, mixed ranks) are rejected with a diagnostic rather than a crash or a different value.",
  ["inputs"], "every interval, box, index set and list of index sets, and every mutated text",
  "Not tested (lit tests cannot run here).",
  ["lib/Dialect/Modeling/IR/Attributes.cpp", "lib/Dialect/Modeling/IR/Properties.cpp"],
  [("text form", "FieldParser / AsmPrinter overloads, parse/print"), ("bytecode", "readFromMlirBytecode / writeToMlirBytecode"), ("attribute form", "getPropertiesAsAttribute / setPropertiesFromAttribute")],
  ["re-parsed value"])

p("C29", "Solver-interface operations round-trip and expose their arguments as built",
  "Every operation of the solver-interface dialects (differential-algebraic, nonlinear and common solver support) prints to text that parses back to an equal operation. Function-like operations built for given ranks expose disjoint, complete argument groups (time, equation indices, variable indices, coefficients, memory pool, seeds) in the documented order and types.",
  ["inputs"], "every such operation with any attributes, names, ranks and seed counts",
  "Not tested (lit tests cannot run here).",
  ["lib/Dialect/IDA/IR/Ops.cpp", "lib/Dialect/KINSOL/IR/Ops.cpp", "lib/Dialect/SUNDIALS/IR/Ops.cpp", "include/marco/Dialect/IDA/IR/Ops.td", "include/marco/Dialect/KINSOL/IR/Ops.td", "include/marco/Dialect/SUNDIALS/IR/Ops.td"],
  [("argument slicing", "getEquationIndices, getVariableIndices, getADSeeds ..."), ("function printing/parsing", "parse/print of function ops")],
  ["printed IR, accessor results"])

p("C30", "Constant folding of the modelling operations equals evaluation",
  "Folding an operation of the modelling dialect on constant operands gives the value the operation has at run time: integer, real and boolean arithmetic, comparisons, logic and mathematical functions agree with direct evaluation for every operand values and type combination, and an operation that has no value for its operands is left unfolded.",
  ["inputs"], "every foldable operation, every mix of operand types and every constant",
  "The fold tests are lit tests that sample one value pair each and cannot run here.",
  ["lib/Dialect/BaseModelica/IR/Ops.cpp", "lib/Dialect/BaseModelica/IR/Attributes.cpp"],
  [("folders", "*Op::fold")],
  ["folded attribute"])

p("C31", "The modelling representation survives printing and parsing",
  "Every module over the operations, types and attributes of the modelling dialect is read back equal to what was written, and without errors, from its custom assembly, its generic form and its bytecode: types (shapes, variability, causality, memory space, nested types), attributes of any value (integers and reals of the whole range, dense lists of any length), symbols of any spelling, optional parts that are absent or empty, lists of variables, matches, schedules, derivatives, index sets, empty and nested regions, attributes attached to the operations. Out of it: the inverse functions attribute, whose reading is documented as not implemented, and the attributes attached to the assignments of variables, for which the custom assembly has no place.",
  ["programs"], "every module generated over the dialect's operations",
  "lit tests cover fixed modules and cannot run here.",
  ["lib/Dialect/BaseModelica/IR/Ops.cpp", "lib/Dialect/BaseModelica/IR/Types.cpp", "lib/Dialect/BaseModelica/IR/Attributes.cpp", "lib/Dialect/BaseModelica/IR/Properties.cpp"],
  [("custom assembly", "parse/print methods")],
  ["printed IR"])

p("C32", "Symbolic derivatives equal numerical derivatives",
  "The derivatives the compiler generates are the derivatives of the program: the function generated for the time derivative of a function of any order gives the variation of its outputs when the inputs vary in time with the given derivatives, the function generated for its partial derivatives by any sequence of scalar inputs gives the partial derivatives of its outputs, and a der() of an expression is expanded to the derivative of the expression, at every point where the function can be derived; the original function and expression keep their value, and what is generated is valid.",
  ["programs", "inputs"], "every function body and expression over the derivable operations, every direction and order of differentiation, every evaluation point in the domain",
  "lit tests compare text of single operations and cannot run here.",
  ["lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp", "lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation", "lib/Dialect/BaseModelica/Transforms/DerivativeChainRule.cpp"],
  [("per-operation derivative", "DerivableOpInterface implementations")],
  ["evaluation of generated derivative"])

p("C33", "Equation rewriting preserves the solutions of the equations",
  "Making an equation explicit with respect to its matched elements, grouping the several accesses to them, replacing an access by the expression another equation defines for it, splitting equations by access or by scalar range, eliminating the inductions of a single value and solving the cycles of equations by substitution leave the set of solutions unchanged: what satisfies the equations before satisfies them after, and every matched element keeps exactly one equation. Linear equations over invertible operations are made explicit.",
  ["programs", "inputs"], "every equation over invertible operations, every access path, every set of indices and every cycle of unambiguously matched equations",
  "lit tests compare text for single cases and cannot run here.",
  ["lib/Dialect/BaseModelica/IR/Ops.cpp", "lib/Dialect/BaseModelica/Transforms/InvertibleOpInterfaceImpl.cpp", "lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp", "lib/Dialect/BaseModelica/Transforms/EquationAccessSplit.cpp", "lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp", "lib/Dialect/BaseModelica/Transforms/ScalarRangesEquationSplit.cpp", "lib/Dialect/BaseModelica/Transforms/SCCSolvingBySubstitution.cpp"],
  [("explicitation", "EquationTemplateOp::explicitate / InvertibleOpInterface"), ("grouping of the accesses", "EquationTemplateOp::groupLeftHandSide"), ("access replacement", "EquationTemplateOp::cloneWithReplacedAccess"), ("substitution in cycles", "SCCSolvingBySubstitutionPass")],
  ["evaluation of both sides before and after", "matched elements of the resulting equations"])

p("C34", "Compiled simulations compute what the model means",
  "The program generated for any supported model computes, up to numerical tolerance, the trajectories that the model's equations define.",
  ["programs"], "every supported model, solver and option",
  "End-to-end tests cannot run here.",
  ["lib/Codegen", "lib/Frontend", "lib/JIT", "tool"],
  [("lowering pipeline", "lib/Frontend/FrontendActions.cpp, lib/Codegen")],
  ["simulation output"])

A = "lib/AST/BaseModelica/"
p("C35", "The attributes read from the declarations are the written ones",
  "What the compiler reads from a declaration is what the source says, whatever else the declaration states and in whichever order: variability, causality, visibility, type, rank, constant shape and subscripted type, binding, start value, whether the start value is marked with `each`, whether the variable is fixed (including uniform arrays and fill calls; a value that is not known uniformly is reported as such), and for the functions purity, inlining, types of arguments and results, derivative with its order, and inverses. References give their written name, only references and their subscriptions can be assigned, and constants keep their value when read as another type. An attribute written without a value, or with a value that has no meaning, is treated as not given and never crashes the compiler. Copied declarations give the same answers.",
  ["programs"], "every declaration, attribute list and function annotation the grammar allows",
  "The tests parse a handful of declarations with one attribute each.",
  [A+"Modification.cpp", A+"Member.cpp", A+"Annotation.cpp", A+"Function.cpp", A+"Type.cpp", A+"ArrayDimension.cpp", A+"ComponentReference.cpp", A+"Operation.cpp", "include/marco/AST/BaseModelica/Constant.h"],
  [("predefined properties", "ClassModification::getStartExpression / getFixedProperty / getEachProperty"), ("function annotations", "Annotation::getInlineProperty / getDerivativeAnnotation / getInverseFunctionAnnotation"), ("signature", "StandardFunction::getType"), ("conversions of the constants", "Constant::as")],
  ["answers of the queries of the nodes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        f.write(json.dumps(e) + "\n")
