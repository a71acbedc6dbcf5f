// Reading of the parser's trees through their public accessors, into the model
// of the syntax trees, and reading of the exported documents.
#pragma once
#include "marco/AST/BaseModelica/AST.h"
#include "marco/AST/BaseModelica/Reduction.h"
#include "marco/Parser/BaseModelica/Parser.h"
#include "syntax.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/DiagnosticOptions.h"
#include "clang/Basic/FileManager.h"
#include "clang/Basic/SourceManager.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/VirtualFileSystem.h"

namespace walk {
using namespace marco::ast::bmodelica;
using Node = marco::ast::ASTNode;
using syn::T;
using syn::V;

inline std::string operatorName(OperationKind k) {
  switch (k) {
  case OperationKind::unknown: return "unknown";
  case OperationKind::negate: return "negate";
  case OperationKind::add: return "add";
  case OperationKind::addEW: return "add_ew";
  case OperationKind::subtract: return "subtract";
  case OperationKind::subtractEW: return "subtract_ew";
  case OperationKind::multiply: return "multiply";
  case OperationKind::multiplyEW: return "multiply_ew";
  case OperationKind::divide: return "divide";
  case OperationKind::divideEW: return "divide_ew";
  case OperationKind::ifelse: return "if_else";
  case OperationKind::greater: return "greater";
  case OperationKind::greaterEqual: return "greater_equal";
  case OperationKind::equal: return "equal";
  case OperationKind::different: return "different";
  case OperationKind::lessEqual: return "less_equal";
  case OperationKind::less: return "less";
  case OperationKind::land: return "land";
  case OperationKind::lor: return "lor";
  case OperationKind::lnot: return "lnot";
  case OperationKind::subscription: return "subscription";
  case OperationKind::powerOf: return "power_of";
  case OperationKind::powerOfEW: return "power_of_ew";
  case OperationKind::range: return "range";
  }
  return "?";
}

/// Reads trees; collects the nodes and the wrong parent links.
struct Walker {
  std::vector<const Node *> nodes;
  std::string badParent;

  T list(const std::vector<const Node *> &ns, const Node *parent) {
    T t("#list");
    std::vector<T> k;
    for (auto *n : ns)
      k.push_back(read(n, parent));
    t.all("", std::move(k));
    return t;
  }

  T read(const Node *n, const Node *parent) {
    nodes.push_back(n);
    if (parent && n->getParent() != parent && badParent.empty())
      badParent = "the parent of a node of kind " + std::to_string(n->getKind<int32_t>()) + " within one of kind " +
                  std::to_string(parent->getKind<int32_t>());
    T t;
    t.node = n;
    fill(n, t);
    return t;
  }

  template <typename R>
  void many(T &t, const char *name, const Node *n, const R &range) {
    std::vector<T> k;
    for (auto &x : range)
      k.push_back(read(&*x, n));
    t.all(name, std::move(k));
  }

  template <typename F>
  void indexed(T &t, const char *name, const Node *n, size_t count, F get) {
    std::vector<T> k;
    for (size_t i = 0; i < count; ++i)
      k.push_back(read(get(i), n));
    t.all(name, std::move(k));
  }

  void cls(const Class *c, T &t) {
    t.set("name", V::of(c->getName().str()));
    many(t, "variables", c, c->getVariables());
    many(t, "equation_sections", c, c->getEquationSections());
    many(t, "algorithms", c, c->getAlgorithms());
    many(t, "inner_classes", c, c->getInnerClasses());
    t.set("external", V::of(c->isExternal()));
    if (c->isExternal()) {
      t.set("external_language", V::of(c->getExternalLanguage().str()));
      if (c->hasExternalFunctionCall())
        t.one("external_function_call", read(c->getExternalFunctionCall(), c));
      if (c->hasExternalAnnotation())
        t.one("external_annotation", read(c->getExternalAnnotation(), c));
    }
    if (c->hasAnnotation())
      t.one("annotation", read(c->getAnnotation(), c));
  }

  void type(const VariableType *y, T &t) { many(t, "dimensions", y, y->getDimensions()); }

  void fill(const Node *n, T &t) {
    switch (n->getKind<ASTNodeKind>()) {
    case ASTNodeKind::Root:
      t.kind = "root";
      many(t, "inner_classes", n, n->cast<Root>()->getInnerClasses());
      return;
    case ASTNodeKind::Algorithm: {
      auto *x = const_cast<Algorithm *>(n->cast<Algorithm>());
      t.kind = "algorithm";
      t.set("initial", V::of(x->isInitial()));
      many(t, "statements", n, x->getStatements());
      return;
    }
    case ASTNodeKind::Annotation:
      t.kind = "annotation";
      t.one("properties", read(n->cast<Annotation>()->getProperties(), n));
      return;
    case ASTNodeKind::Argument_ElementModification: {
      auto *x = n->cast<ElementModification>();
      t.kind = "element_modification";
      t.set("each", V::of(x->hasEachProperty()));
      t.set("final", V::of(x->hasFinalProperty()));
      t.set("name", V::of(x->getName().str()));
      if (x->hasModification())
        t.one("modification", read(x->getModification(), n));
      return;
    }
    case ASTNodeKind::Argument_ElementRedeclaration:
      t.kind = "element_redeclaration";
      return;
    case ASTNodeKind::Argument_ElementReplaceable:
      t.kind = "element_replaceable";
      return;
    case ASTNodeKind::ArrayDimension: {
      auto *x = n->cast<ArrayDimension>();
      t.kind = "array_dimension";
      if (x->hasExpression())
        t.one("size", read(x->getExpression(), n));
      else
        t.set("size", V::ofInt(x->getNumericSize()));
      return;
    }
    case ASTNodeKind::Class_Function_PartialDerFunction: {
      auto *x = n->cast<PartialDerFunction>();
      t.kind = "partial_der_function";
      cls(x, t);
      t.one("derived_function", read(x->getDerivedFunction(), n));
      many(t, "independent_variables", n, x->getIndependentVariables());
      return;
    }
    case ASTNodeKind::Class_Function_StandardFunction:
      t.kind = "standard_function";
      cls(n->cast<Class>(), t);
      t.set("pure", V::of(n->cast<StandardFunction>()->isPure()));
      return;
    case ASTNodeKind::Class_Model:
      t.kind = "model";
      return cls(n->cast<Class>(), t);
    case ASTNodeKind::Class_Package:
      t.kind = "package";
      return cls(n->cast<Class>(), t);
    case ASTNodeKind::Class_Record:
      t.kind = "record";
      return cls(n->cast<Class>(), t);
    case ASTNodeKind::ClassModification:
      t.kind = "class_modification";
      many(t, "arguments", n, n->cast<ClassModification>()->getArguments());
      return;
    case ASTNodeKind::ComponentReferenceEntry: {
      auto *x = n->cast<ComponentReferenceEntry>();
      t.kind = "component_reference_entry";
      t.set("name", V::of(x->getName().str()));
      indexed(t, "subscripts", n, x->getNumOfSubscripts(), [&](size_t i) { return x->getSubscript(i); });
      return;
    }
    case ASTNodeKind::Equation_Equality: {
      auto *x = n->cast<EqualityEquation>();
      t.kind = "equation_equality";
      t.one("lhs", read(x->getLhsExpression(), n));
      t.one("rhs", read(x->getRhsExpression(), n));
      return;
    }
    case ASTNodeKind::Equation_For: {
      auto *x = n->cast<ForEquation>();
      t.kind = "equation_for";
      indexed(t, "for_indices", n, x->getNumOfForIndices(), [&](size_t i) { return x->getForIndex(i); });
      indexed(t, "equations", n, x->getNumOfEquations(), [&](size_t i) { return x->getEquation(i); });
      return;
    }
    case ASTNodeKind::Equation_If: {
      auto *x = n->cast<IfEquation>();
      t.kind = "equation_if";
      t.one("if_condition", read(x->getIfCondition(), n));
      indexed(t, "if_equations", n, x->getNumOfIfEquations(), [&](size_t i) { return x->getIfEquation(i); });
      indexed(t, "else_if_conditions", n, x->getNumOfElseIfConditions(), [&](size_t i) { return x->getElseIfCondition(i); });
      std::vector<T> l;
      for (size_t c = 0; c < x->getNumOfElseIfConditions(); ++c) {
        T k("#list");
        indexed(k, "", n, x->getNumOfElseIfEquations(c), [&](size_t i) { return x->getElseIfEquation(c, i); });
        l.push_back(std::move(k));
      }
      t.all("else_if_equations", std::move(l));
      indexed(t, "else_equations", n, x->getNumOfElseEquations(), [&](size_t i) { return x->getElseEquation(i); });
      if (x->hasElseEquations() != (x->getNumOfElseEquations() > 0))
        t.set("else_query", V::of(false));
      return;
    }
    case ASTNodeKind::Equation_When: {
      auto *x = n->cast<WhenEquation>();
      t.kind = "equation_when";
      t.one("when_condition", read(x->getWhenCondition(), n));
      indexed(t, "when_equations", n, x->getNumOfWhenEquations(), [&](size_t i) { return x->getWhenEquation(i); });
      indexed(t, "else_when_conditions", n, x->getNumOfElseWhenConditions(), [&](size_t i) { return x->getElseWhenCondition(i); });
      std::vector<T> l;
      for (size_t c = 0; c < x->getNumOfElseWhenConditions(); ++c) {
        T k("#list");
        indexed(k, "", n, x->getNumOfElseWhenEquations(c), [&](size_t i) { return x->getElseWhenEquation(c, i); });
        l.push_back(std::move(k));
      }
      t.all("else_when_equations", std::move(l));
      indexed(t, "else_equations", n, x->getNumOfElseEquations(), [&](size_t i) { return x->getElseEquation(i); });
      return;
    }
    case ASTNodeKind::EquationSection: {
      auto *x = const_cast<EquationSection *>(n->cast<EquationSection>());
      t.kind = "equation_section";
      t.set("initial", V::of(x->isInitial()));
      many(t, "equations", n, x->getEquations());
      return;
    }
    case ASTNodeKind::Expression_ArrayGenerator_ArrayConstant: {
      auto *x = n->cast<ArrayConstant>();
      t.kind = "array_constant";
      indexed(t, "values", n, x->size(), [&](size_t i) { return (*x)[i]; });
      return;
    }
    case ASTNodeKind::Expression_ArrayGenerator_ArrayForGenerator: {
      auto *x = n->cast<ArrayForGenerator>();
      t.kind = "array_for_generator";
      t.one("values", read(x->getValue(), n));
      indexed(t, "indices", n, x->getNumIndices(), [&](size_t i) { return x->getIndex(i); });
      return;
    }
    case ASTNodeKind::Expression_Call: {
      auto *x = n->cast<Call>();
      t.kind = "call";
      t.one("callee", read(x->getCallee(), n));
      many(t, "args", n, x->getArguments());
      return;
    }
    case ASTNodeKind::Expression_ComponentReference: {
      auto *x = n->cast<ComponentReference>();
      t.kind = "component_reference";
      t.set("dummy", V::of(x->isDummy()));
      t.set("global_lookup", V::of(x->isGlobalLookup()));
      indexed(t, "path", n, x->getPathLength(), [&](size_t i) { return x->getElement(i); });
      return;
    }
    case ASTNodeKind::Expression_Constant: {
      t.kind = "constant";
      n->cast<Constant>()->visit([&](const auto &v) {
        using X = std::decay_t<decltype(v)>;
        if constexpr (std::is_same_v<X, bool>)
          t.set("value", V::of(v));
        else if constexpr (std::is_same_v<X, int64_t>)
          t.set("value", V::ofInt(v));
        else if constexpr (std::is_same_v<X, double>)
          t.set("value", V::ofReal(v));
        else
          t.set("value", V::of(std::string(v)));
      });
      return;
    }
    case ASTNodeKind::Expression_Operation: {
      auto *x = n->cast<Operation>();
      t.kind = "operation";
      t.set("operation_kind", V::of(operatorName(x->getOperationKind())));
      many(t, "args", n, x->getArguments());
      return;
    }
    case ASTNodeKind::Expression_Reduction: {
      auto *x = n->cast<Reduction>();
      t.kind = "reduction";
      t.one("callee", read(x->getCallee(), n));
      t.one("expression", read(x->getExpression(), n));
      many(t, "iterators", n, x->getIterators());
      return;
    }
    case ASTNodeKind::Expression_Subscript: {
      auto *x = n->cast<Subscript>();
      t.kind = "subscript";
      t.set("unbounded", V::of(x->isUnbounded()));
      if (!x->isUnbounded())
        t.one("expression", read(x->getExpression(), n));
      return;
    }
    case ASTNodeKind::Expression_Tuple: {
      auto *x = n->cast<Tuple>();
      t.kind = "tuple";
      indexed(t, "expressions", n, x->size(), [&](size_t i) { return x->getExpression(i); });
      return;
    }
    case ASTNodeKind::ExternalFunctionCall: {
      auto *x = n->cast<ExternalFunctionCall>();
      t.kind = "external_function_call";
      if (x->hasDestination())
        t.one("destination", read(x->getDestination(), n));
      t.set("callee", V::of(x->getCallee().str()));
      many(t, "args", n, x->getArguments());
      return;
    }
    case ASTNodeKind::ForIndex: {
      auto *x = n->cast<ForIndex>();
      t.kind = "for_index";
      t.set("name", V::of(x->getName().str()));
      if (x->hasExpression())
        t.one("expression", read(x->getExpression(), n));
      return;
    }
    case ASTNodeKind::FunctionArgument_Expression:
      t.kind = "function_argument_expression";
      t.one("expression", read(n->cast<ExpressionFunctionArgument>()->getExpression(), n));
      return;
    case ASTNodeKind::FunctionArgument_Named: {
      auto *x = n->cast<NamedFunctionArgument>();
      t.kind = "function_argument_named";
      t.set("name", V::of(x->getName().str()));
      t.one("value", read(x->getValue(), n));
      return;
    }
    case ASTNodeKind::FunctionArgument_Reduction: {
      auto *x = n->cast<ReductionFunctionArgument>();
      t.kind = "function_argument_reduction";
      t.one("expression", read(x->getExpression(), n));
      many(t, "iterators", n, x->getForIndices());
      return;
    }
    case ASTNodeKind::Member: {
      auto *x = n->cast<Member>();
      t.kind = "member";
      t.set("name", V::of(x->getName().str()));
      t.set("public", V::of(x->isPublic()));
      t.one("type", read(x->getType(), n));
      t.one("type_prefix", read(x->getTypePrefix(), n));
      if (x->hasModification())
        t.one("modification", read(x->getModification(), n));
      return;
    }
    case ASTNodeKind::Modification: {
      auto *x = n->cast<Modification>();
      t.kind = "modification";
      if (x->hasClassModification())
        t.one("class_modification", read(x->getClassModification(), n));
      if (x->hasExpression())
        t.one("expression", read(x->getExpression(), n));
      return;
    }
    case ASTNodeKind::Statement_Assignment: {
      auto *x = n->cast<AssignmentStatement>();
      t.kind = "assignment_statement";
      t.one("destinations", read(x->getDestinations(), n));
      t.one("expression", read(x->getExpression(), n));
      return;
    }
    case ASTNodeKind::Statement_Break:
      t.kind = "break_statement";
      return;
    case ASTNodeKind::Statement_Return:
      t.kind = "return_statement";
      return;
    case ASTNodeKind::Statement_Call:
      t.kind = "call_statement";
      t.one("call", read(n->cast<CallStatement>()->getCall(), n));
      return;
    case ASTNodeKind::Statement_For: {
      auto *x = n->cast<ForStatement>();
      t.kind = "for_statement";
      many(t, "for_indices", n, x->getForIndices());
      many(t, "statements", n, x->getStatements());
      return;
    }
    case ASTNodeKind::Statement_If: {
      auto *x = n->cast<IfStatement>();
      t.kind = "if_statement";
      t.one("if_condition", read(x->getIfCondition(), n));
      t.one("if_block", read(x->getIfBlock(), n));
      indexed(t, "else_if_conditions", n, x->getNumOfElseIfBlocks(), [&](size_t i) { return x->getElseIfCondition(i); });
      indexed(t, "else_if_blocks", n, x->getNumOfElseIfBlocks(), [&](size_t i) { return x->getElseIfBlock(i); });
      if (x->hasElseBlock())
        t.one("else_block", read(x->getElseBlock(), n));
      if (x->hasElseIfBlocks() != (x->getNumOfElseIfBlocks() > 0))
        t.set("else_if_query", V::of(false));
      return;
    }
    case ASTNodeKind::Statement_When: {
      auto *x = n->cast<WhenStatement>();
      t.kind = "when_statement";
      t.one("condition", read(x->getCondition(), n));
      many(t, "statements", n, x->getStatements());
      return;
    }
    case ASTNodeKind::Statement_While: {
      auto *x = n->cast<WhileStatement>();
      t.kind = "while_statement";
      t.one("condition", read(x->getCondition(), n));
      many(t, "statements", n, x->getStatements());
      return;
    }
    case ASTNodeKind::StatementsBlock: {
      auto *x = n->cast<StatementsBlock>();
      t.kind = "statements_block";
      indexed(t, "statements", n, x->size(), [&](size_t i) { return (*x)[i]; });
      return;
    }
    case ASTNodeKind::TypePrefix: {
      auto *x = n->cast<TypePrefix>();
      t.kind = "type_prefix";
      t.set("variability", V::of(std::string(x->isDiscrete() ? "discrete" : x->isParameter() ? "parameter" : x->isConstant() ? "constant" : "none")));
      t.set("io", V::of(std::string(x->isInput() ? "input" : x->isOutput() ? "output" : "none")));
      return;
    }
    case ASTNodeKind::VariableType_BuiltIn: {
      auto *x = n->cast<BuiltInType>();
      t.kind = "builtin_type";
      static const char *names[] = {"Boolean", "Integer", "Real", "String"};
      t.set("type", V::of(std::string(names[(int)x->getBuiltInTypeKind()])));
      return type(x, t);
    }
    case ASTNodeKind::VariableType_UserDefined: {
      auto *x = n->cast<UserDefinedType>();
      t.kind = "user_defined_type";
      t.set("global_lookup", V::of(x->isGlobalLookup()));
      std::vector<std::string> path;
      for (size_t i = 0; i < x->getPathLength(); ++i)
        path.push_back(x->getElement(i).str());
      t.set("path", V::ofList(path));
      return type(x, t);
    }
    default:
      t.kind = "#unknown" + std::to_string(n->getKind<int32_t>());
    }
  }
};

/// Reads an exported document.
inline T readJSON(const llvm::json::Value &v) {
  T t("#list");
  if (auto *a = v.getAsArray()) {
    std::vector<T> k;
    for (auto &x : *a)
      k.push_back(readJSON(x));
    t.all("", std::move(k));
    return t;
  }
  auto *o = v.getAsObject();
  if (!o) {
    t.kind = "#scalar";
    return t;
  }
  t.kind = "#nokind";
  for (auto &f : *o) {
    std::string name = std::string(f.first.str());
    const llvm::json::Value &x = f.second;
    if (name == "kind" && x.getAsString()) {
      t.kind = x.getAsString()->str();
    } else if (auto s = x.getAsString()) {
      t.set(name, V::of(s->str()));
    } else if (auto b = x.getAsBoolean()) {
      t.set(name, V::of(*b));
    } else if (x.getAsObject()) {
      t.one(name, readJSON(x));
    } else if (auto *a = x.getAsArray()) {
      bool strings = !a->empty();
      for (auto &y : *a)
        strings = strings && y.getAsString();
      if (strings) {
        std::vector<std::string> l;
        for (auto &y : *a)
          l.push_back(y.getAsString()->str());
        t.set(name, V::ofList(l));
      } else {
        T k = readJSON(x);
        t.all(name, std::move(k.kids("")));
      }
    } else {
      // Number: keep its text.
      std::string text;
      llvm::raw_string_ostream os(text);
      os << x;
      os.flush();
      if (text.find_first_of(".eEn") == std::string::npos)
        t.set(name, V::ofInt(strtoll(text.c_str(), nullptr, 10)));
      else
        t.set(name, V::ofReal(strtod(text.c_str(), nullptr)));
    }
  }
  return t;
}

/// The tree as a document is expected to show it: texts are valid UTF-8, and
/// integral reals are printed as integers.
inline T exported(T t) {
  for (auto &p : t.props) {
    V &v = p.second;
    if (v.type == 's')
      v.s = llvm::json::fixUTF8(v.s);
    for (auto &s : v.l)
      s = llvm::json::fixUTF8(s);
    if (v.type == 'd') {
      std::string text;
      llvm::raw_string_ostream os(text);
      os << llvm::json::Value(v.d);
      os.flush();
      if (text.find_first_of(".eEn") == std::string::npos)
        v = V::ofInt(strtoll(text.c_str(), nullptr, 10));
    }
  }
  for (auto &g : t.groups)
    for (auto &k : g.second.kids)
      k = exported(std::move(k));
  return t;
}

inline std::string dump(const Node &n) {
  std::string text;
  llvm::raw_string_ostream os(text);
  os << n.toJSON();
  os.flush();
  return text;
}

// ---------------------------------------------------------------------------

struct Diag {
  std::string message;
  bool valid;
  uint64_t offset;
};

class Collector : public clang::DiagnosticConsumer {
public:
  std::vector<Diag> errors;
  void HandleDiagnostic(clang::DiagnosticsEngine::Level level, const clang::Diagnostic &info) override {
    if (level < clang::DiagnosticsEngine::Error)
      return;
    llvm::SmallString<64> text;
    info.FormatDiagnostic(text);
    Diag d{text.str().str(), info.getLocation().isValid() && info.hasSourceManager(), 0};
    if (d.valid) {
      auto &sm = info.getSourceManager();
      d.valid = sm.getFileID(info.getLocation()) == sm.getMainFileID();
      d.offset = sm.getFileOffset(info.getLocation());
    }
    errors.push_back(d);
  }
};

/// One parsing of a text.
struct Parsing {
  std::string text;
  Collector diags;
  llvm::IntrusiveRefCntPtr<llvm::vfs::InMemoryFileSystem> fs;
  std::unique_ptr<clang::FileManager> files;
  std::unique_ptr<clang::DiagnosticsEngine> engine;
  std::unique_ptr<clang::SourceManager> sources;
  std::unique_ptr<llvm::MemoryBuffer> buffer;
  std::shared_ptr<marco::SourceFile> file;
  std::unique_ptr<Node> root;

  explicit Parsing(std::string source) : text(std::move(source)) {
    fs = llvm::makeIntrusiveRefCnt<llvm::vfs::InMemoryFileSystem>();
    fs->addFile("t.mo", 0, llvm::MemoryBuffer::getMemBufferCopy(text, "t.mo"));
    files = std::make_unique<clang::FileManager>(clang::FileSystemOptions(), fs);
    engine = std::make_unique<clang::DiagnosticsEngine>(new clang::DiagnosticIDs(), new clang::DiagnosticOptions(), &diags, false);
    sources = std::make_unique<clang::SourceManager>(*engine, *files);
    auto ref = files->getFileRef("t.mo", true);
    auto id = sources->createFileID(*ref, clang::SourceLocation(), clang::SrcMgr::C_User);
    sources->setMainFileID(id);
    engine->setSourceManager(sources.get());
    buffer = std::move(*files->getBufferForFile(*ref));
    file = std::make_shared<marco::SourceFile>("t.mo");
    file->setMemoryBuffer(buffer.get());
    marco::parser::bmodelica::Parser parser(*engine, *sources, file);
    auto result = parser.parseRoot();
    if (result.has_value())
      root = std::move(*result);
  }
};
} // namespace walk
