F = "src/normal_form.cc"
H = "include/symbolic/normal_form.h"
B = "bad:C18"
G = "good"
EDITS = [
 # literals and simplification
 ("n-eval-equals-neg", B, [(F, "                               : Negate(EvaluateEquals(*formula.neg().begin()));", "                               : EvaluateEquals(*formula.neg().begin());")]),
 ("n-eval-type-neg", B, [(F, "             : Negate(EvaluateType(pddl, *formula.neg().begin()));", "             : EvaluateType(pddl, *formula.neg().begin());")]),
 ("n-eval-type-always", B, [(F, "  return prop.arguments()[0].type().IsSubtype(prop.name());", "  return true;")]),
 ("n-eval-equals-mixed", B, [(F, "    // argument (parameter_symbol)\n    return {};", "    // argument (parameter_symbol)\n    return false;")]),
 ("n-eval-size", B, [(F, "  if (conj.size() == 1) {\n    std", "  if (conj.size() >= 1) {\n    std")]),
 ("n-eval-size-ok", G, [(F, "  if (conj.size() == 1) {\n    std", "  if (!(conj.size() != 1)) {\n    std")]),
 ("n-eval-skip-consistent", B, [(F, "  if (!conj.IsConsistent()) return false;", "  if (apply_axioms && !conj.IsConsistent()) return false;")]),
 ("n-eval-consistent-true", B, [(F, "  if (!conj.IsConsistent()) return false;", "  if (!conj.IsConsistent()) return true;")]),
 ("n-eval-axioms-always", B, [(F, "  if (apply_axioms && !Axiom::IsConsistent(pddl.axioms(), conj)) return false;", "  if (!Axiom::IsConsistent(pddl.axioms(), conj)) return false;")]),
 ("n-eval-axioms-never", B, [(F, "  if (apply_axioms && !Axiom::IsConsistent(pddl.axioms(), conj)) return false;", "  (void)apply_axioms;")]),
 ("n-eval-order", G, [(F, "    std::optional<bool> eval = EvaluateEquals(conj);\n    if (eval.has_value()) return eval;\n    eval = EvaluateType(pddl, conj);", "    std::optional<bool> eval = EvaluateType(pddl, conj);\n    if (eval.has_value()) return eval;\n    eval = EvaluateEquals(conj);")]),
 ("n-subset-size", G, [(F, "  if (sub.size() > super.size()) return false;", "  if (sub.size() >= super.size()) return false;")]),
 ("n-subset-nosize", G, [(F, "  if (sub.size() > super.size()) return false;\n", "")]),
 ("n-subset-nosize2", G, [(F, "  if (sub.size() > super.size()) return false;\n", "  if (super.size() < sub.size()) return false;\n")]),
 ("n-subset-noneg", B, [(F, "    if (!super.neg().contains(prop)) return false;\n", "    if (!super.neg().contains(prop)) continue;\n")]),
 ("n-subset-negpos", B, [(F, "    if (!super.neg().contains(prop)) return false;\n", "    if (!super.neg().contains(prop) && !super.pos().contains(prop)) return false;\n")]),
 ("n-subset-all-of", G, [(F, "  for (const Proposition& prop : sub.neg()) {\n    if (!super.neg().contains(prop)) return false;\n  }\n  return true;", "  bool all = true;\n  for (const Proposition& prop : sub.neg()) {\n    all = all && super.neg().contains(prop);\n  }\n  return all;")]),
 ("n-try-swapped", B, [(F, "    if (IsSubset(conj_i, conj)) return true;", "    if (IsSubset(conj, conj_i)) return true;")]),
 ("n-try-nosort", G, [(F, "  if (is_subset) {\n    SortUnique(conjunctions);\n  }\n", "")]),
 ("n-try-noreplace", B, [(F, "      is_subset = true;\n      conj_i = conj;\n", "      is_subset = true;\n")]),
 ("n-try-first-only", B, [(F, "      is_subset = true;\n      conj_i = conj;\n", "      is_subset = true;\n      conj_i = conj;\n      break;\n")]),
 ("n-try-false", G, [(F, "  return is_subset;\n}", "  return false;\n}")]),
 ("n-try-erase", G, [(F, """  bool is_subset = false;
  for (DisjunctiveFormula::Conjunction& conj_i : *conjunctions) {
    // Current conjunction is a subset: replace previous one
    if (IsSubset(conj, conj_i)) {
      is_subset = true;
      conj_i = conj;
    }
  }

  if (is_subset) {
    SortUnique(conjunctions);
  }

  return is_subset;""", """  std::vector<DisjunctiveFormula::Conjunction> kept;
  for (const DisjunctiveFormula::Conjunction& conj_i : *conjunctions) {
    if (!IsSubset(conj, conj_i)) kept.push_back(conj_i);
  }
  *conjunctions = std::move(kept);
  return false;""")]),
 ("n-simplify-true-ignored", B, [(F, "    } else if (*is_true) {\n      // Conjunction is true: short-circuit disjunction and return empty formula\n      ret.conjunctions.clear();\n      return std::move(ret);\n    }", "    }")]),
 ("n-simplify-noclear", B, [(F, "      ret.conjunctions.clear();\n", "")]),
 ("n-simplify-false-true", B, [(F, "  if (ret.empty()) return {};\n\n  // Sort", "  if (ret.empty()) return ret;\n\n  // Sort")]),
 ("n-simplify-nosort", B, [(F, "  // Sort conjunctions\n  SortUnique(&ret.conjunctions);\n", "")]),
 ("n-simplify-fresh", G, [(F, "      ret.conjunctions.clear();\n      return std::move(ret);\n    }", "      return DisjunctiveFormula();\n    }")]),
 ("n-simplify-index", G, [(F, "  for (DisjunctiveFormula::Conjunction& conj : dnf.conjunctions) {\n    // Apply derived", "  for (size_t i = 0; i < dnf.conjunctions.size(); i++) {\n    DisjunctiveFormula::Conjunction& conj = dnf.conjunctions[i];\n    // Apply derived")]),
 # disjoin, conjoin
 ("n-disjoin-true-dropped", B, [(F, "    if (dnf.empty()) return DisjunctiveFormula();\n    disj", "    if (dnf.empty()) continue;\n    disj")]),
 ("n-disjoin-empty-true", B, [(F, "  if (disj.empty()) return {};\n  return Simplify", "  return Simplify")]),
 ("n-disjoin-first", B, [(F, "                             std::make_move_iterator(dnf.conjunctions.end()));", "                             std::make_move_iterator(dnf.conjunctions.begin() + 1));")]),
 ("n-disjoin-push", G, [(F, """    disj.conjunctions.insert(disj.conjunctions.end(),
                             std::make_move_iterator(dnf.conjunctions.begin()),
                             std::make_move_iterator(dnf.conjunctions.end()));""", """    for (DisjunctiveFormula::Conjunction& conj : dnf.conjunctions) {
      disj.conjunctions.push_back(std::move(conj));
    }""")]),
 ("n-conjoin-true-kept", G, [(F, "    if (dnf.empty()) continue;\n    conjunctions.push_back(&dnf.conjunctions);", "    if (!dnf.empty()) conjunctions.push_back(&dnf.conjunctions);")]),
 ("n-conjoin-true-noskip", B, [(F, "    if (dnf.empty()) continue;\n    conjunctions", "    conjunctions")]),
 ("n-conjoin-empty-false", B, [(F, "  if (conjunctions.empty()) return conj;", "  if (conjunctions.empty()) return {};")]),
 ("n-conjoin-neg-lost", B, [(F, "      neg.insert(term_i.neg().begin(), term_i.neg().end());\n", "      if (neg.empty()) neg.insert(term_i.neg().begin(), term_i.neg().end());\n")]),
 ("n-conjoin-outer", B, [(F, "  for (const std::vector<DisjunctiveFormula::Conjunction>& combo : gen) {\n    State pos;\n    State neg;", "  State neg;\n  for (const std::vector<DisjunctiveFormula::Conjunction>& combo : gen) {\n    State pos;"), (F, "    conj.conjunctions.emplace_back(std::move(pos), std::move(neg));", "    conj.conjunctions.emplace_back(std::move(pos), State(neg));")]),
 ("n-conjoin-swapped", B, [(F, "    conj.conjunctions.emplace_back(std::move(pos), std::move(neg));", "    conj.conjunctions.emplace_back(std::move(neg), std::move(pos));")]),
 ("n-conjoin-partial", G, [(F, "    conj.conjunctions.emplace_back(std::move(pos), std::move(neg));", "    conj.conjunctions.push_back(PartialState(std::move(pos), std::move(neg)));")]),
 ("n-conjoin-loop", G, [(F, "      pos.insert(term_i.pos().begin(), term_i.pos().end());\n", "      for (const Proposition& prop : term_i.pos()) pos.insert(prop);\n")]),
 ("n-conjoin-axioms", B, [(F, "  return Simplify(pddl, std::move(conj), apply_axioms);", "  return Simplify(pddl, std::move(conj), false);")]),
 ("n-convert-neg", B, [(F, "      dnf.conjunctions.push_back(PartialState({}, {std::move(prop)}));", "      dnf.conjunctions.push_back(PartialState({std::move(prop)}, {}));")]),
 ("n-convert-one", B, [(F, "    dnfs.push_back(std::move(dnf));\n  }\n  return dnfs;", "    dnfs.push_back(std::move(dnf));\n    if (dnfs.size() > 1 && dnfs.back() == dnfs.front()) break;\n  }\n  return dnfs;")]),
 ("n-convert-emplace", G, [(F, "      dnf.conjunctions.push_back(PartialState({}, {std::move(prop)}));", "      dnf.conjunctions.emplace_back(PartialState({}, {prop}));")]),
 ("n-flip-inline", G, [(F, "  ConjunctiveFormula cnf = Flip(std::move(dnf));\n", "  ConjunctiveFormula cnf;\n  cnf.disjunctions = std::move(dnf.conjunctions);\n")]),
 ("n-negate-noswap", B, [(F, "    std::swap(conj.pos(), conj.neg());", "    if (conj.neg().empty()) std::swap(conj.pos(), conj.neg());")]),
 ("n-negate-tmp", G, [(F, "    std::swap(conj.pos(), conj.neg());", "    conj = PartialState(State(conj.neg()), State(conj.pos()));")]),
 ("n-negate-swapmove", G, [(F, "    std::swap(conj.pos(), conj.neg());", "    State pos = std::move(conj.pos());\n    conj.pos() = std::move(conj.neg());\n    conj.neg() = std::move(pos);")]),
 ("n-negate-true", B, [(F, "  if (dnf.empty()) return {};\n\n  // ((!a", "  // ((!a")]),
 ("n-negate-conjoin", G, [(F, "  return DisjunctiveFormula::Create(pddl, std::move(cnf));", "  return Conjoin(pddl, Convert(std::move(cnf)), false);")]),
 # goals
 ("n-goal-args", B, [(F, "        {PartialState({Proposition(name_predicate, Apply(arguments))}, {})}};", "        {PartialState({Proposition(name_predicate, prop_params)}, {})}};")]),
 ("n-goal-neg", B, [(F, "        {PartialState({Proposition(name_predicate, Apply(arguments))}, {})}};", "        {PartialState({}, {Proposition(name_predicate, Apply(arguments))})}};")]),
 ("n-goal-params", B, [(F, "        Formula::CreateApplicationFunction(parameters, prop_params);\n    return", "        Formula::CreateApplicationFunction(prop_params, prop_params);\n    return")]),
 ("n-goal-local", G, [(F, "    return {\n        {PartialState({Proposition(name_predicate, Apply(arguments))}, {})}};", "    DisjunctiveFormula dnf;\n    dnf.conjunctions.push_back(\n        PartialState({Proposition(name_predicate, Apply(arguments))}, {}));\n    return dnf;")]),
 ("n-conj-false-skip", B, [(F, "      if (!conj.has_value()) return {};\n      conj_terms", "      if (!conj.has_value()) continue;\n      conj_terms")]),
 ("n-conj-true-skip", G, [(F, "      if (!conj.has_value()) return {};\n      conj_terms", "      if (!conj.has_value()) return {};\n      if (conj->empty()) continue;\n      conj_terms")]),
 ("n-disj-false-return", B, [(F, "      if (!disj.has_value()) continue;\n      disj_terms", "      if (!disj.has_value()) return {};\n      disj_terms")]),
 ("n-disj-conjoin", B, [(F, "    return Disjoin(pddl, std::move(disj_terms), apply_axioms);", "    return disj_terms.size() == 1 ? Conjoin(pddl, disj_terms, apply_axioms) : Conjoin(pddl, disj_terms, apply_axioms);")]),
 ("n-disj-single", G, [(F, "    return Disjoin(pddl, std::move(disj_terms), apply_axioms);", "    if (disj_terms.size() == 1) return Conjoin(pddl, disj_terms, apply_axioms);\n    return Disjoin(pddl, std::move(disj_terms), apply_axioms);")]),
 ("n-neg-false", B, [(F, "    if (!neg.has_value()) return DisjunctiveFormula();\n", "    if (!neg.has_value()) return {};\n")]),
 ("n-neg-same", B, [(F, "    return Negate(pddl, std::move(*neg));\n  }\n\n  // Forall", "    if (neg->conjunctions.size() > 1) return neg;\n    return Negate(pddl, std::move(*neg));\n  }\n\n  // Forall")]),
 ("n-qfied-swap", B, [(F, "          case VAL::quantifier::E_FORALL:\n            return {};\n          case VAL::quantifier::E_EXISTS:\n            continue;", "          case VAL::quantifier::E_EXISTS:\n            return {};\n          case VAL::quantifier::E_FORALL:\n            continue;")]),
 ("n-qfied-result", B, [(F, "      case VAL::quantifier::E_EXISTS:\n        return Disjoin(pddl, std::move(qfied_terms), apply_axioms);", "      case VAL::quantifier::E_EXISTS:\n        return Conjoin(pddl, qfied_terms, apply_axioms);")]),
 ("n-qfied-args", B, [(F, "      qfied_args.insert(qfied_args.end(), qfied_objs.begin(), qfied_objs.end());", "      qfied_args.insert(qfied_args.begin(), qfied_objs.begin(), qfied_objs.end());")]),
 ("n-qfied-params", B, [(F, "          Create(pddl, goal, qfied_params, qfied_args);", "          Create(pddl, goal, types, qfied_args);")]),
 ("n-qfied-args-shared", B, [(F, "    ParameterGenerator gen(pddl, types);\n    for (const std::vector<Object>& qfied_objs : gen) {\n      // Create qfied arguments\n      std::vector<Object> qfied_args = arguments;\n", "    ParameterGenerator gen(pddl, types);\n    std::vector<Object> qfied_args = arguments;\n    for (const std::vector<Object>& qfied_objs : gen) {\n")]),
 ("n-qfied-if", G, [(F, """        switch (qfied_goal->getQuantifier()) {
          case VAL::quantifier::E_FORALL:
            return {};
          case VAL::quantifier::E_EXISTS:
            continue;
        }""", """        if (qfied_goal->getQuantifier() == VAL::quantifier::E_FORALL) return {};
        continue;""")]),
 # effects
 ("n-eff-forall-skip", B, [(F, "      if (!dnf.has_value()) return {};\n      dnfs.push_back(std::move(*dnf));", "      if (!dnf.has_value()) continue;\n      dnfs.push_back(std::move(*dnf));")]),
 ("n-eff-forall-args", B, [(F, "          Create(pddl, effect->getEffects(), forall_params, forall_args);", "          Create(pddl, effect->getEffects(), forall_params, arguments);")]),
 ("n-eff-del-pos", B, [(F, "    neg.emplace(name_predicate, Apply(arguments));", "    pos.emplace(name_predicate, Apply(arguments));")]),
 ("n-eff-no-del-alone", B, [(F, "  if (!pos.empty() || !neg.empty()) {", "  if (!pos.empty()) {")]),
 ("n-eff-split", G, [(F, "  if (!pos.empty() || !neg.empty()) {\n    dnfs.push_back({PartialState(std::move(pos), std::move(neg))});\n  }", "  if (!pos.empty()) {\n    dnfs.push_back({PartialState(std::move(pos), State())});\n  }\n  if (!neg.empty()) {\n    dnfs.push_back({PartialState(State(), std::move(neg))});\n  }")]),
 ("n-eff-cond-noneg", B, [(F, "    condition = Negate(pddl, std::move(*condition));\n\n    if", "    if")]),
 ("n-eff-cond-conj", B, [(F, "    condition = Disjoin(pddl, {std::move(*condition), std::move(*result)},\n                        apply_axioms);", "    condition = Conjoin(pddl, {std::move(*condition), std::move(*result)},\n                        apply_axioms);")]),
 ("n-eff-cond-false-ret", B, [(F, "    if (!condition.has_value()) continue;  // Condition always false", "    if (!condition.has_value()) return {};  // Condition always false")]),
 ("n-eff-cond-false-dropped", B, [(F, "      // Result always false, so return neg condition\n      dnfs.push_back(std::move(*condition));\n", "      // Result always false\n")]),
 ("n-eff-cond-true-break", B, [(F, "      dnfs.push_back(std::move(*result));\n      continue;", "      dnfs.push_back(std::move(*result));\n      break;")]),
 ("n-eff-cond-empty", B, [(F, "    if (!condition.has_value()) {\n      // Condition always true", "    if (!condition.has_value() || result->empty()) {\n      // Condition always true")]),
 ("n-eff-result-true", G, [(F, "    condition = Negate(pddl, std::move(*condition));\n\n", "    if (result.has_value() && result->empty()) continue;\n    condition = Negate(pddl, std::move(*condition));\n\n")]),
 ("n-eff-last", B, [(F, "  return Conjoin(pddl, dnfs, apply_axioms);\n}\n\nstd::optional<std::pair", "  return Disjoin(pddl, std::move(dnfs), apply_axioms);\n}\n\nstd::optional<std::pair")]),
 # public
 ("n-cond-swapped", B, [(F, "  return std::make_pair(std::move(*pre), std::move(*post));", "  return std::make_pair(std::move(*post), std::move(*pre));")]),
 ("n-cond-axioms-post", B, [(F, "      conj_post.push_back(pddl.ConsistentState(conj));\n    }\n    return", "      conj_post.push_back(conj);\n    }\n    return")]),
 ("n-cond-pre-for-post", B, [(F, "    for (const DisjunctiveFormula::Conjunction& conj : post->conjunctions) {\n      conj_post.push_back(pddl.ConsistentState(conj));\n    }\n    return", "    for (const DisjunctiveFormula::Conjunction& conj : pre->conjunctions) {\n      conj_post.push_back(pddl.ConsistentState(conj));\n    }\n    return")]),
 ("n-pre-args", B, [(F, "                                 aa.first.parameters(), aa.second);\n  if (!pre.has_value()) return pre;", "                                 aa.first.parameters(), aa.first.parameters());\n  if (!pre.has_value()) return pre;")]),
 ("n-post-axioms-ignored", B, [(F, "  if (!post.has_value()) return post;\n\n  if (apply_axioms) {", "  if (!post.has_value()) return post;\n\n  if (apply_axioms && post->conjunctions.size() == 1) {")]),
 ("n-goal-axioms-first", B, [(F, "      conj_goal.push_back(pddl.ConsistentState(conj));\n", "      conj_goal.push_back(conj_goal.empty() ? pddl.ConsistentState(conj) : conj);\n")]),
 ("n-goal-inplace", G, [(F, "    std::vector<DisjunctiveFormula::Conjunction> conj_goal;\n    conj_goal.reserve(goal->conjunctions.size());\n    for (const DisjunctiveFormula::Conjunction& conj : goal->conjunctions) {\n      conj_goal.push_back(pddl.ConsistentState(conj));\n    }\n    goal = DisjunctiveFormula(std::move(conj_goal));", "    for (DisjunctiveFormula::Conjunction& conj : goal->conjunctions) {\n      conj = pddl.ConsistentState(conj);\n    }")]),
 ("n-header-args", B, [(H, "    return Create(pddl, formula.symbol(), parameters, arguments, apply_axioms);", "    return Create(pddl, formula.symbol(), parameters, parameters, apply_axioms);")]),
 ("n-pre-helper", G, [(F, "  if (apply_axioms) {\n    std::vector<DisjunctiveFormula::Conjunction> conj_pre;\n    conj_pre.reserve(pre->conjunctions.size());\n    for (const DisjunctiveFormula::Conjunction& conj : pre->conjunctions) {\n      conj_pre.push_back(pddl.ConsistentState(conj));\n    }\n    pre = DisjunctiveFormula(std::move(conj_pre));\n  }\n  return pre;", "  if (apply_axioms) return Close(pddl, *pre);\n  return pre;"), (F, "std::optional<DisjunctiveFormula> DisjunctiveFormula::NormalizePreconditions(", "static DisjunctiveFormula Close(const Pddl& pddl, const DisjunctiveFormula& dnf) {\n  DisjunctiveFormula out;\n  for (const DisjunctiveFormula::Conjunction& conj : dnf.conjunctions) {\n    out.conjunctions.push_back(pddl.ConsistentState(conj));\n  }\n  return out;\n}\n\nstd::optional<DisjunctiveFormula> DisjunctiveFormula::NormalizePreconditions(")]),
]
EDITS = [(e[0], e[1], sorted({x[0] for x in e[2]}) if len({x[0] for x in e[2]}) > 1 else e[2][0][0], [x[1:] for x in e[2]]) for e in EDITS]
