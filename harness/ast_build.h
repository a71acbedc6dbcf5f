// Construction of the parser's trees through their public constructors and
// setters, from the model of the syntax trees.
#pragma once
#include "ast_walk.h"

namespace walk {
using Owned = std::unique_ptr<Node>;

struct Builder {
  marco::SourceRange where = marco::SourceRange::unknown();

  std::vector<Owned> many(const T &t, const char *name) {
    std::vector<Owned> r;
    auto it = t.groups.find(name);
    if (it != t.groups.end())
      for (auto &k : it->second.kids)
        r.push_back(build(k));
    return r;
  }
  Owned one(const T &t, const char *name) { return build(t.kid(name)); }

  template <typename X>
  std::unique_ptr<X> make() { return std::make_unique<X>(where); }

  static OperationKind operation(const std::string &name) {
    for (int i = 0; i <= (int)OperationKind::range + 8; ++i)
      if (operatorName((OperationKind)i) == name)
        return (OperationKind)i;
    return OperationKind::unknown;
  }

  template <typename X>
  Owned cls(const T &t, std::unique_ptr<X> x) {
    x->setName(t.str("name"));
    x->setVariables(many(t, "variables"));
    x->setEquationSections(many(t, "equation_sections"));
    x->setAlgorithms(many(t, "algorithms"));
    x->setInnerClasses(many(t, "inner_classes"));
    x->setExternal(t.flag("external"));
    if (t.props.count("external_language"))
      x->setExternalLanguage(t.str("external_language"));
    if (t.has("external_function_call"))
      x->setExternalFunctionCall(one(t, "external_function_call"));
    if (t.has("external_annotation"))
      x->setExternalAnnotation(one(t, "external_annotation"));
    if (t.has("annotation"))
      x->setAnnotation(one(t, "annotation"));
    return x;
  }

  Owned build(const T &t) {
    const std::string &k = t.kind;
    if (k == "root") {
      auto x = make<Root>();
      x->setInnerClasses(many(t, "inner_classes"));
      return x;
    }
    if (k == "algorithm") {
      auto x = make<Algorithm>();
      x->setInitial(t.flag("initial"));
      x->setStatements(many(t, "statements"));
      return x;
    }
    if (k == "annotation") {
      auto x = make<Annotation>();
      x->setProperties(one(t, "properties"));
      return x;
    }
    if (k == "element_modification") {
      auto x = make<ElementModification>();
      x->setEachProperty(t.flag("each"));
      x->setFinalProperty(t.flag("final"));
      x->setName(t.str("name"));
      if (t.has("modification"))
        x->setModification(one(t, "modification"));
      return x;
    }
    if (k == "element_redeclaration")
      return make<ElementRedeclaration>();
    if (k == "element_replaceable")
      return make<ElementReplaceable>();
    if (k == "array_dimension") {
      auto x = make<ArrayDimension>();
      if (t.has("size"))
        x->setSize(one(t, "size"));
      else
        x->setSize(t.props.at("size").i);
      return x;
    }
    if (k == "partial_der_function") {
      auto x = make<PartialDerFunction>();
      x->setDerivedFunction(one(t, "derived_function"));
      x->setIndependentVariables(many(t, "independent_variables"));
      return cls(t, std::move(x));
    }
    if (k == "standard_function") {
      auto x = make<StandardFunction>();
      x->setPure(t.flag("pure"));
      return cls(t, std::move(x));
    }
    if (k == "model")
      return cls(t, make<Model>());
    if (k == "package")
      return cls(t, make<Package>());
    if (k == "record")
      return cls(t, make<Record>());
    if (k == "class_modification") {
      auto x = make<ClassModification>();
      x->setArguments(many(t, "arguments"));
      return x;
    }
    if (k == "component_reference_entry") {
      auto x = make<ComponentReferenceEntry>();
      x->setName(t.str("name"));
      x->setSubscripts(many(t, "subscripts"));
      return x;
    }
    if (k == "equation_equality") {
      auto x = make<EqualityEquation>();
      x->setLhsExpression(one(t, "lhs"));
      x->setRhsExpression(one(t, "rhs"));
      return x;
    }
    if (k == "equation_for") {
      auto x = make<ForEquation>();
      x->setForIndices(many(t, "for_indices"));
      x->setEquations(many(t, "equations"));
      return x;
    }
    if (k == "equation_if") {
      auto x = make<IfEquation>();
      x->setIfCondition(one(t, "if_condition"));
      x->setIfEquations(many(t, "if_equations"));
      x->setElseIfConditions(many(t, "else_if_conditions"));
      if (t.has("else_if_equations"))
        for (size_t i = 0; i < t.groups.at("else_if_equations").kids.size(); ++i)
          x->setElseIfEquations(i, many(t.kid("else_if_equations", i), ""));
      x->setElseEquations(many(t, "else_equations"));
      return x;
    }
    if (k == "equation_when") {
      auto x = make<WhenEquation>();
      x->setWhenCondition(one(t, "when_condition"));
      x->setWhenEquations(many(t, "when_equations"));
      x->setElseWhenConditions(many(t, "else_when_conditions"));
      if (t.has("else_when_equations"))
        for (size_t i = 0; i < t.groups.at("else_when_equations").kids.size(); ++i)
          x->setElseWhenEquations(i, many(t.kid("else_when_equations", i), ""));
      x->setElseEquations(many(t, "else_equations"));
      return x;
    }
    if (k == "equation_section") {
      auto x = make<EquationSection>();
      x->setInitial(t.flag("initial"));
      x->setEquations(many(t, "equations"));
      return x;
    }
    if (k == "array_constant") {
      auto x = make<ArrayConstant>();
      x->setValues(many(t, "values"));
      return x;
    }
    if (k == "array_for_generator") {
      auto x = make<ArrayForGenerator>();
      x->setValue(one(t, "values"));
      x->setIndices(many(t, "indices"));
      return x;
    }
    if (k == "call") {
      auto x = make<Call>();
      x->setCallee(one(t, "callee"));
      x->setArguments(many(t, "args"));
      return x;
    }
    if (k == "component_reference") {
      auto x = make<ComponentReference>();
      x->setDummy(t.flag("dummy"));
      x->setGlobalLookup(t.flag("global_lookup"));
      x->setPath(many(t, "path"));
      return x;
    }
    if (k == "constant") {
      auto x = make<Constant>();
      const V &v = t.props.at("value");
      switch (v.type) {
      case 'b': x->setValue(v.b); break;
      case 'i': x->setValue(v.i); break;
      case 'd': x->setValue(v.d); break;
      default: x->setValue(v.s);
      }
      return x;
    }
    if (k == "operation") {
      auto x = make<Operation>();
      x->setOperationKind(operation(t.str("operation_kind")));
      x->setArguments(many(t, "args"));
      return x;
    }
    if (k == "reduction") {
      auto x = make<Reduction>();
      x->setCallee(one(t, "callee"));
      x->setExpression(one(t, "expression"));
      x->setIterators(many(t, "iterators"));
      return x;
    }
    if (k == "subscript") {
      auto x = make<Subscript>();
      if (t.has("expression"))
        x->setExpression(one(t, "expression"));
      return x;
    }
    if (k == "tuple") {
      auto x = make<Tuple>();
      x->setExpressions(many(t, "expressions"));
      return x;
    }
    if (k == "external_function_call") {
      auto x = make<ExternalFunctionCall>();
      if (t.has("destination"))
        x->setDestination(one(t, "destination"));
      x->setCallee(t.str("callee"));
      x->setArguments(many(t, "args"));
      return x;
    }
    if (k == "for_index") {
      auto x = make<ForIndex>();
      x->setName(t.str("name"));
      if (t.has("expression"))
        x->setExpression(one(t, "expression"));
      return x;
    }
    if (k == "function_argument_expression") {
      auto x = make<ExpressionFunctionArgument>();
      x->setExpression(one(t, "expression"));
      return x;
    }
    if (k == "function_argument_named") {
      auto x = make<NamedFunctionArgument>();
      x->setName(t.str("name"));
      x->setValue(one(t, "value"));
      return x;
    }
    if (k == "function_argument_reduction") {
      auto x = make<ReductionFunctionArgument>();
      x->setExpression(one(t, "expression"));
      x->setForIndices(many(t, "iterators"));
      return x;
    }
    if (k == "member") {
      auto x = make<Member>();
      x->setName(t.str("name"));
      x->setPublic(t.flag("public"));
      x->setType(one(t, "type"));
      x->setTypePrefix(one(t, "type_prefix"));
      if (t.has("modification"))
        x->setModification(one(t, "modification"));
      return x;
    }
    if (k == "modification") {
      auto x = make<Modification>();
      if (t.has("class_modification"))
        x->setClassModification(one(t, "class_modification"));
      if (t.has("expression"))
        x->setExpression(one(t, "expression"));
      return x;
    }
    if (k == "assignment_statement") {
      auto x = make<AssignmentStatement>();
      x->setDestinations(one(t, "destinations"));
      x->setExpression(one(t, "expression"));
      return x;
    }
    if (k == "break_statement")
      return make<BreakStatement>();
    if (k == "return_statement")
      return make<ReturnStatement>();
    if (k == "call_statement") {
      auto x = make<CallStatement>();
      x->setCall(one(t, "call"));
      return x;
    }
    if (k == "for_statement") {
      auto x = make<ForStatement>();
      x->setForIndices(many(t, "for_indices"));
      x->setStatements(many(t, "statements"));
      return x;
    }
    if (k == "if_statement") {
      auto x = make<IfStatement>();
      x->setIfCondition(one(t, "if_condition"));
      x->setIfBlock(one(t, "if_block"));
      x->setElseIfConditions(many(t, "else_if_conditions"));
      x->setElseIfBlocks(many(t, "else_if_blocks"));
      if (t.has("else_block"))
        x->setElseBlock(one(t, "else_block"));
      return x;
    }
    if (k == "when_statement") {
      auto x = make<WhenStatement>();
      x->setCondition(one(t, "condition"));
      x->setStatements(many(t, "statements"));
      return x;
    }
    if (k == "while_statement") {
      auto x = make<WhileStatement>();
      x->setCondition(one(t, "condition"));
      x->setStatements(many(t, "statements"));
      return x;
    }
    if (k == "statements_block") {
      auto x = make<StatementsBlock>();
      x->setBody(many(t, "statements"));
      return x;
    }
    if (k == "type_prefix") {
      auto x = make<TypePrefix>();
      const std::string &v = t.str("variability"), &io = t.str("io");
      x->setVariabilityQualifier(v == "discrete" ? VariabilityQualifier::discrete : v == "parameter" ? VariabilityQualifier::parameter : v == "constant" ? VariabilityQualifier::constant : VariabilityQualifier::none);
      x->setIOQualifier(io == "input" ? IOQualifier::input : io == "output" ? IOQualifier::output : IOQualifier::none);
      return x;
    }
    if (k == "builtin_type") {
      auto x = make<BuiltInType>();
      const std::string &y = t.str("type");
      x->setBuiltInTypeKind(y == "Boolean" ? BuiltInType::Kind::Boolean : y == "Integer" ? BuiltInType::Kind::Integer : y == "Real" ? BuiltInType::Kind::Real : BuiltInType::Kind::String);
      x->setDimensions(many(t, "dimensions"));
      return x;
    }
    if (k == "user_defined_type") {
      auto x = make<UserDefinedType>();
      x->setGlobalLookup(t.flag("global_lookup"));
      x->setPath(t.props.at("path").l);
      x->setDimensions(many(t, "dimensions"));
      return x;
    }
    return nullptr;
  }
};
} // namespace walk
