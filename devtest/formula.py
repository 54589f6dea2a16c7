F = "src/formula.cc"
H = "include/symbolic/formula.h"
B = "bad:C07"
AND_L = '''    for (const FormulaFunction<T>& P : subformulas) {
      if (!P(state, arguments)) return false;
    }
    return true;
'''
OR_L = '''    for (const FormulaFunction<T>& P : subformulas) {
      if (P(state, arguments)) return true;
    }
    return false;
'''
SUBS = '''  for (const VAL::goal* goal : *goals) {
    NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, parameters);
    subformulas.push_back(std::move(P_str.first));

    ss << " " << P_str.second;
  }
  ss << ")";
'''
FA_L = '''    for (const std::vector<Object>& forall_objs : gen) {
      // Create forall arguments
      std::vector<Object> forall_args = arguments;
      forall_args.insert(forall_args.end(), forall_objs.begin(),
                         forall_objs.end());

      if (!P(state, forall_args)) return false;
    }
    return true;
'''
EX_L = '''    for (const std::vector<Object>& exists_objs : gen) {
      // Create exists arguments
      std::vector<Object> exists_args = arguments;
      exists_args.insert(exists_args.end(), exists_objs.begin(),
                         exists_objs.end());

      if (P(state, exists_args)) return true;
    }
    return false;
'''
FA_P = '''  std::vector<Object> forall_params = parameters;
  std::vector<Object> types = Object::CreateList(pddl, symbol->getVars());
  forall_params.insert(forall_params.end(), types.begin(), types.end());
'''
EX_P = FA_P.replace("forall", "exists")
CAF = '''    for (size_t j = 0; j < action_params.size(); j++) {
      if (prop_params[i] == action_params[j]) {
        idx_params.emplace_back(i, j);
      }
    }
'''
APPLY = '''    for (const std::pair<size_t, size_t>& idx_prop_action : idx_params) {
      const size_t idx_prop = idx_prop_action.first;
      const size_t idx_action = idx_prop_action.second;
      prop_args[idx_prop] = action_args[idx_action];
    }
'''
TYPE = "return prop_args[0].type().IsSubtype(name_predicate);"
EQ = "return prop_args[0] == prop_args[1];"
CONT = "    return state.contains(P);\n"
MAP = "if (pddl.object_map().find(name_predicate) != pddl.object_map().end()) {"
SW = '''      case VAL::quantifier::E_FORALL:
        return CreateForall<T>(pddl, qfied_goal, parameters);
      case VAL::quantifier::E_EXISTS:
        return CreateExists<T>(pddl, qfied_goal, parameters);
'''
UNK = '''    return PP_(state, arguments);
  } catch (const PartialState::UnknownEvaluation& e) {
    return {};
'''
CTOR = '''      P_(CreateFormula<State>(pddl, symbol, parameters).first) {'''
EDITS = [
    # bad
    ("f-and-first", B, F, [(AND_L, "    for (const FormulaFunction<T>& P : subformulas) {\n      return P(state, arguments);\n    }\n    return true;\n")]),
    ("f-and-empty", B, F, [(AND_L, AND_L.replace("return true", "return !subformulas.empty()"))]),
    ("f-and-skip1", B, F, [(AND_L, "    for (size_t i = 1; i < subformulas.size(); i++) {\n      if (!subformulas[i](state, arguments)) return false;\n    }\n    return true;\n")]),
    ("f-and-last", B, F, [(AND_L, "    bool r = true;\n    for (const FormulaFunction<T>& P : subformulas) r = P(state, arguments);\n    return r;\n")]),
    ("f-and-or", B, F, [(AND_L, "    bool r = true;\n    for (const FormulaFunction<T>& P : subformulas) r = r || P(state, arguments);\n    return r;\n")]),
    ("f-or-true", B, F, [(OR_L, OR_L.replace("return false;", "return true;"))]),
    ("f-or-empty", B, F, [(OR_L, "    if (subformulas.empty()) return true;\n" + OR_L)]),
    ("f-or-xor", B, F, [(OR_L, "    bool r = false;\n    for (const FormulaFunction<T>& P : subformulas) r ^= P(state, arguments);\n    return r;\n")]),
    ("f-or-neg", B, F, [(OR_L, OR_L.replace("if (P(", "if (!P("))]),
    ("f-subs-front", B, F, [(SUBS, SUBS.replace("CreateFormula<T>(pddl, goal, parameters)", "CreateFormula<T>(pddl, goals->front(), parameters)"))]),
    ("f-subs-params", B, F, [(SUBS, SUBS.replace("CreateFormula<T>(pddl, goal, parameters)", "CreateFormula<T>(pddl, goal, {})"))]),
    ("f-subs-cond", B, F, [(SUBS, SUBS.replace("    subformulas.push_back(std::move(P_str.first));", "    if (subformulas.size() < 8) subformulas.push_back(std::move(P_str.first));"))]),
    ("f-neg-none", B, F, [("    return !P(state, arguments);\n  };\n\n  return {std::move(F), \"(not", "    return P(state, arguments);\n  };\n\n  return {std::move(F), \"(not")]),
    ("f-neg-partial", B, F, [("        return state.does_not_contain(P);", "        return state.contains(P);")]),
    ("f-neg-partial2", B, F, [("        return state.does_not_contain(P);", "        return !state.does_not_contain(P);")]),
    ("f-neg-type", B, F, [('    if (name_predicate != "=" &&\n        pddl.object_map().find(name_predicate) == pddl.object_map().end()) {', '    if (name_predicate != "=") {')]),
    ("f-neg-eq", B, F, [('    if (name_predicate != "=" &&\n        pddl.object_map().find(name_predicate) == pddl.object_map().end()) {', '    if (pddl.object_map().find(name_predicate) == pddl.object_map().end()) {')]),
    ("f-fa-first", B, F, [(FA_L, FA_L.replace("if (!P(state, forall_args)) return false;", "return P(state, forall_args);"))]),
    ("f-fa-args", B, F, [(FA_L, FA_L.replace("forall_args.end(), forall_objs", "forall_args.begin(), forall_objs"))]),
    ("f-fa-noargs", B, F, [(FA_L, FA_L.replace("std::vector<Object> forall_args = arguments;", "std::vector<Object> forall_args;"))]),
    ("f-fa-noobjs", B, F, [(FA_L, FA_L.replace("P(state, forall_args)", "P(state, arguments)"))]),
    ("f-fa-params", B, F, [(FA_P, FA_P.replace("forall_params.end(), types", "forall_params.begin(), types"))]),
    ("f-fa-params-unused", B, F, [("CreateFormula<T>(pddl, goal, forall_params)", "CreateFormula<T>(pddl, goal, types)")]),
    ("f-fa-gen", B, F, [("[gen = ParameterGenerator(pddl, types),", "[gen = ParameterGenerator(pddl, forall_params),")]),
    ("f-fa-exists", B, F, [(FA_L, FA_L.replace("if (!P(state, forall_args)) return false;", "if (P(state, forall_args)) return true;").replace("return true;\n", "return true;\n", 1))]),
    ("f-fa-both", B, F, [(FA_P, FA_P.replace("forall_params.end(), types", "forall_params.begin(), types")), (FA_L, FA_L.replace("forall_args.end(), forall_objs", "forall_args.begin(), forall_objs"))]),
    ("f-ex-all", B, F, [(EX_L, EX_L.replace("if (P(", "if (!P(").replace("return true", "return X").replace("return false", "return true").replace("return X", "return false"))]),
    ("f-ex-shared", B, F, [(EX_L, EX_L.replace("      std::vector<Object> exists_args = arguments;\n", "").replace("    for (const", "    std::vector<Object> exists_args = arguments;\n    for (const"))]),
    ("f-switch", B, F, [(SW, SW.replace("CreateForall", "X").replace("CreateExists", "CreateForall").replace("X<", "CreateExists<"))]),
    ("f-switch-fall", B, F, [(SW, SW.replace("        return CreateForall<T>(pddl, qfied_goal, parameters);\n", ""))]),
    ("f-disj-conj", B, F, [("    return CreateDisjunction<T>(pddl, disj_goal, parameters);", '    throw std::runtime_error("disjunctive preconditions");')]),
    ("f-eq-neq", B, F, [(EQ, "return prop_args[0] != prop_args[1];")]),
    ("f-eq-self", B, F, [(EQ, "return prop_args[1] == prop_args[1];")]),
    ("f-eq-type", B, F, [(EQ, "return prop_args[0].type() == prop_args[1].type();")]),
    ("f-type-exact", B, F, [(TYPE, "return prop_args[0].type().name() == name_predicate;")]),
    ("f-type-arg", B, F, [(TYPE, "return prop_params[0].type().IsSubtype(name_predicate);"), ("FormulaFunction<T> F = [name_predicate, Apply = std::move(Apply)]", "FormulaFunction<T> F = [name_predicate, prop_params, Apply = std::move(Apply)]")]),
    ("f-map-neg", B, F, [(MAP, MAP.replace("!=", "=="))]),
    ("f-map-none", B, F, [(MAP, "if (false) {")]),
    ("f-cont-neg", B, F, [(CONT, "    return !state.contains(P);\n")]),
    ("f-cont-args", B, F, [("    const PropositionRef P(ptr_name_predicate, &Apply(arguments),\n                           predicate_hash);\n    return state.contains(P);", "    const PropositionRef P(ptr_name_predicate, &arguments,\n                           predicate_hash);\n    return state.contains(P);")]),
    ("f-caf-break", B, F, [(CAF, CAF.replace("idx_params.emplace_back(i, j);", "idx_params.emplace_back(i, j);\n        break;"))]),
    ("f-caf-swap", B, F, [(CAF, CAF.replace("emplace_back(i, j)", "emplace_back(j, i)"))]),
    ("f-caf-first", B, F, [(CAF, CAF.replace("size_t j = 0", "size_t j = 1"))]),
    ("f-caf-short", B, F, [("  for (size_t i = 0; i < prop_params.size(); i++) {\n    // Const", "  for (size_t i = 0; i + 1 < prop_params.size(); i++) {\n    // Const")]),
    ("f-caf-rev", B, F, [(CAF, CAF.replace("size_t j = 0; j < action_params.size(); j++", "size_t j = action_params.size(); j-- > 0;").replace(" j-- > 0;)", " j-- > 0;)"))]),
    ("f-apply-swap", B, F, [(APPLY, APPLY.replace("action_args[idx_action]", "action_args[idx_prop]"))]),
    ("f-apply-start", B, F, [("std::make_shared<std::vector<Object>>(prop_params)", "std::make_shared<std::vector<Object>>(action_params)")]),
    ("f-unknown-true", B, F, [(UNK, UNK.replace("return {};", "return true;"))]),
    ("f-unknown-false", B, F, [(UNK, UNK.replace("return {};", "return false;"))]),
    ("f-eval-neg", B, F, [(UNK, UNK.replace("return PP_(state, arguments);", "return !PP_(state, arguments);"))]),
    ("f-eval-args", B, F, [(UNK, UNK.replace("PP_(state, arguments)", "PP_(state, {})"))]),
    ("f-ctor-params", B, F, [(CTOR, CTOR.replace("parameters", "{}"))]),
    ("f-header-args", B, H, [("return P_(state, arguments);", "return P_(state, {});")]),
    # good
    ("g-and-all_of", "good", F, [(AND_L, "    return std::all_of(subformulas.begin(), subformulas.end(), [&](const FormulaFunction<T>& P) { return P(state, arguments); });\n"), ("#include <cassert>", "#include <algorithm>\n#include <cassert>")]),
    ("g-and-flag", "good", F, [(AND_L, "    bool all = true;\n    for (const FormulaFunction<T>& P : subformulas) {\n      all = all && P(state, arguments);\n    }\n    return all;\n")]),
    ("g-and-flag-break", "good", F, [(AND_L, "    bool all = true;\n    for (size_t i = 0; i < subformulas.size(); i++) {\n      if (!subformulas[i](state, arguments)) {\n        all = false;\n        break;\n      }\n    }\n    return all;\n")]),
    ("g-and-cond", "good", F, [(AND_L, "    bool all = true;\n    for (size_t i = 0; all && i < subformulas.size(); i++) {\n      all = subformulas[i](state, arguments);\n    }\n    return all;\n")]),
    ("g-or-any_of", "good", F, [(OR_L, "    return std::any_of(subformulas.begin(), subformulas.end(), [&](const auto& P) { return P(state, arguments); });\n"), ("#include <cassert>", "#include <algorithm>\n#include <cassert>")]),
    ("g-or-not-none", "good", F, [(OR_L, "    const bool none = std::none_of(subformulas.begin(), subformulas.end(), [&](const auto& P) { return P(state, arguments); });\n    return !none;\n"), ("#include <cassert>", "#include <algorithm>\n#include <cassert>")]),
    ("g-or-find", "good", F, [(OR_L, "    const auto it = std::find_if(subformulas.begin(), subformulas.end(), [&](const auto& P) { return P(state, arguments); });\n    return it != subformulas.end();\n"), ("#include <cassert>", "#include <algorithm>\n#include <cassert>")]),
    ("g-or-count", "good", F, [(OR_L, "    size_t n = 0;\n    for (const FormulaFunction<T>& P : subformulas) {\n      if (P(state, arguments)) n++;\n    }\n    return n > 0;\n")]),
    ("g-helper-subs", "good", F, [(SUBS, "  for (const VAL::goal* goal : *goals) {\n    AddSub<T>(pddl, goal, parameters, subformulas, ss);\n  }\n  ss << \")\";\n", "all"), ("template <typename T>\nNamedFormulaFunction<T> CreateProposition(", '''template <typename T>
void AddSub(const Pddl& pddl, const VAL::goal* goal, const std::vector<Object>& parameters, std::vector<FormulaFunction<T>>& subformulas, std::stringstream& ss) {
  NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, parameters);
  subformulas.push_back(std::move(P_str.first));
  ss << " " << P_str.second;
}

template <typename T>
NamedFormulaFunction<T> CreateProposition(''')]),
    ("g-helper-both", "good", F, [("  std::vector<FormulaFunction<T>> subformulas;\n  const VAL::goal_list* goals = symbol->getGoals();\n  subformulas.reserve(goals->size());\n" + SUBS, "  std::vector<FormulaFunction<T>> subformulas = Subs<T>(pddl, *symbol->getGoals(), parameters, ss);\n", "all"), ("template <typename T>\nNamedFormulaFunction<T> CreateProposition(", '''template <typename T>
std::vector<FormulaFunction<T>> Subs(const Pddl& pddl, const VAL::goal_list& goals, const std::vector<Object>& parameters, std::stringstream& ss) {
  std::vector<FormulaFunction<T>> subformulas;
  for (const VAL::goal* goal : goals) {
    auto P_str = CreateFormula<T>(pddl, goal, parameters);
    ss << " " << P_str.second;
    subformulas.emplace_back(std::move(P_str.first));
  }
  ss << ")";
  return subformulas;
}

template <typename T>
NamedFormulaFunction<T> CreateProposition(''')]),
    ("g-fa-reserve", "good", F, [(FA_L, FA_L.replace("      std::vector<Object> forall_args = arguments;\n", "      std::vector<Object> forall_args;\n      forall_args.reserve(arguments.size() + forall_objs.size());\n      forall_args.insert(forall_args.end(), arguments.begin(), arguments.end());\n"))]),
    ("g-fa-push", "good", F, [(FA_L, FA_L.replace("      forall_args.insert(forall_args.end(), forall_objs.begin(),\n                         forall_objs.end());\n", "      for (const Object& o : forall_objs) forall_args.push_back(o);\n"))]),
    ("g-fa-flag", "good", F, [(FA_L, FA_L.replace("    for (const", "    bool ok = true;\n    for (const").replace("if (!P(state, forall_args)) return false;", "ok = P(state, forall_args);\n      if (!ok) break;").replace("return true", "return ok"))]),
    ("g-fa-helper", "good", F, [(FA_L, FA_L.replace('''      std::vector<Object> forall_args = arguments;
      forall_args.insert(forall_args.end(), forall_objs.begin(),
                         forall_objs.end());
''', "      const std::vector<Object> forall_args = Concat(arguments, forall_objs);\n")), (FA_P, "  std::vector<Object> types = Object::CreateList(pddl, symbol->getVars());\n  const std::vector<Object> forall_params = Concat(parameters, types);\n"), ("template <typename T>\nNamedFormulaFunction<T> CreateProposition(", '''std::vector<Object> Concat(const std::vector<Object>& a, const std::vector<Object>& b) {
  std::vector<Object> c = a;
  c.insert(c.end(), b.begin(), b.end());
  return c;
}

template <typename T>
NamedFormulaFunction<T> CreateProposition(''')]),
    ("g-ex-nottypes", "good", F, [("[gen = ParameterGenerator(pddl, types),\n                          types = std::move(types), P = std::move(P_str.first)](", "[gen = ParameterGenerator(pddl, types), P = std::move(P_str.first)](", "all")]),
    ("g-quant-if", "good", F, [('''    switch (qfied_goal->getQuantifier()) {
''' + SW + "    }\n", '''    if (qfied_goal->getQuantifier() == VAL::quantifier::E_EXISTS) {
      return CreateExists<T>(pddl, qfied_goal, parameters);
    }
    return CreateForall<T>(pddl, qfied_goal, parameters);
''')]),
    ("g-dispatch-order", "good", F, [('''  // Disjunction
  const auto* disj_goal = dynamic_cast<const VAL::disj_goal*>(symbol);
  if (disj_goal != nullptr) {
    return CreateDisjunction<T>(pddl, disj_goal, parameters);
  }
''', ""), ("  // Proposition\n  const auto* simple_goal", '''  if (const auto* disj_goal = dynamic_cast<const VAL::disj_goal*>(symbol)) {
    return CreateDisjunction<T>(pddl, disj_goal, parameters);
  }
  // Proposition
  const auto* simple_goal''')]),
    ("g-count-map", "good", F, [(MAP, "if (pddl.object_map().count(name_predicate) > 0) {")]),
    ("g-istype-helper", "good", F, [(MAP, "if (IsTypeName(pddl, name_predicate)) {"), ("pddl.object_map().find(name_predicate) == pddl.object_map().end()) {", "!IsTypeName(pddl, name_predicate)) {"), ("template <typename T>\nNamedFormulaFunction<T> CreateProposition(", '''bool IsTypeName(const Pddl& pddl, const std::string& name) {
  return pddl.object_map().find(name) != pddl.object_map().end();
}

template <typename T>
NamedFormulaFunction<T> CreateProposition(''')]),
    ("g-cont-inline", "good", F, [("    const PropositionRef P(ptr_name_predicate, &Apply(arguments),\n                           predicate_hash);\n    return state.contains(P);", "    return state.contains(PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));")]),
    ("g-neg-neg", "good", F, [("        return state.does_not_contain(P);", "        return !state.contains(P);")]),
    ("g-neg-flat", "good", F, [("    return !P(state, arguments);\n  };\n\n  return {std::move(F), \"(not", "    if (P(state, arguments)) return false;\n    return true;\n  };\n\n  return {std::move(F), \"(not")]),
    ("g-caf-outer", "good", F, [(CAF, "    for (size_t j = action_params.size(); j > 0; j--) {\n      if (prop_params[i] == action_params[j - 1]) {\n        idx_params.emplace_back(i, j - 1);\n        break;\n      }\n    }\n")]),
    ("g-caf-push", "good", F, [(CAF, CAF.replace("idx_params.emplace_back(i, j)", "idx_params.push_back({i, j})"))]),
    ("g-caf-neq", "good", F, [(CAF, CAF.replace("      if (prop_params[i] == action_params[j]) {\n        idx_params.emplace_back(i, j);\n      }", "      if (prop_params[i] != action_params[j]) continue;\n      idx_params.emplace_back(i, j);"))]),
    ("g-caf-symbol", "good", F, [(CAF, CAF.replace("prop_params[i] == action_params[j]", "prop_params[i].symbol() == action_params[j].symbol()"))]),
    ("g-apply-index", "good", F, [(APPLY, "    for (size_t k = 0; k < idx_params.size(); k++) {\n      prop_args[idx_params[k].first] = action_args[idx_params[k].second];\n    }\n")]),
    ("g-apply-binding", "good", F, [(APPLY, "    for (const auto& [idx_prop, idx_action] : idx_params) {\n      prop_args[idx_prop] = action_args[idx_action];\n    }\n")]),
    ("g-eval-delegate", "good", F, [("std::optional<bool> Formula::operator()(const PartialState& state) const {\n  try {\n    return PP_(state, {});\n  } catch (const PartialState::UnknownEvaluation& e) {\n    return {};\n  }\n};", "std::optional<bool> Formula::operator()(const PartialState& state) const {\n  return (*this)(state, {});\n}")]),
    ("g-eval-nullopt", "good", F, [(UNK, UNK.replace("return {};", "return std::nullopt;"))]),
    ("g-eval-local", "good", F, [(UNK, UNK.replace("return PP_(state, arguments);", "const bool value = PP_(state, arguments);\n    return value;"))]),
    ("g-ctor-init", "good", F, [(CTOR, "      P_(CreateFormula<State>(pddl, symbol, parameters).first),\n      PP_(CreateFormula<PartialState>(pddl, symbol, parameters).first),\n      str_formula_(CreateFormula<PartialState>(pddl, symbol, parameters).second) {"), ('''  NamedFormulaFunction<PartialState> pp_str =
      CreateFormula<PartialState>(pddl, symbol, parameters);
  PP_ = pp_str.first;
  str_formula_ = pp_str.second;
''', "")]),
    ("g-rename", "good", F, [("CreateFormula", "MakeEvaluator", "all")]),
]
