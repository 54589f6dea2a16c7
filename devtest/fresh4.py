PL = "src/planning/planner.cc"
PH = "include/symbolic/planning/planner.h"
SH = "include/symbolic/state.h"
SC = "src/state.cc"
EDITS = [
 ("k-root-noaxioms", "bad:C10", PH, [("pddl.ConsistentState(state),", "state,")]),
 ("k-root-noderived", "bad:C10", PH, [("      : root_(pddl, DerivedPredicate::Apply(pddl.ConsistentState(state),\n                                            pddl.derived_predicates())) {}", "      : root_(pddl, pddl.ConsistentState(state)) {}")]),
 ("k-root-order", "bad:C10", PH, [("DerivedPredicate::Apply(pddl.ConsistentState(state),\n                                            pddl.derived_predicates())", "pddl.ConsistentState(DerivedPredicate::Apply(\n                         state, pddl.derived_predicates()))")]),
 ("k-root-derivedstate", "good", PH, [("DerivedPredicate::Apply(pddl.ConsistentState(state),\n                                            pddl.derived_predicates())", "pddl.DerivedState(pddl.ConsistentState(state))")]),
 ("k-root-initial", "bad:C10", PH, [("pddl.ConsistentState(state),", "pddl.ConsistentState(pddl.initial_state()),")]),
 ("k-goal-not", "bad:C10", PL, [("  return impl_->pddl_.goal()(impl_->state_);", "  return impl_->depth_ > 0 && impl_->pddl_.goal()(impl_->state_);")]),
 ("k-print-good", "good", PL, [("  for (size_t i = 0; i < node.depth(); i++) {\n    os << \"-\";\n  }\n", "  os << std::string(node.depth(), '-');\n")]),
 ("k-dec-nocheck", "bad:C10", PL, [("      if (ancestors->count(child_) == 0) break;\n    }\n  }\n\n  return *this;\n}\n\nbool", "      break;\n    }\n  }\n\n  return *this;\n}\n\nbool")]),
 ("k-eq-any", "good", PL, [("  return it_action_ == other.it_action_ && it_action_ == pddl_.actions().end();", "  return it_action_ == other.it_action_;")]),
 ("k-si-deref-stale", "bad:C14", SH, [("    reference operator*() const {\n      prop_ = state_index_->GetProposition(idx_);", "    reference operator*() const {\n      if (prop_.name().empty()) prop_ = state_index_->GetProposition(idx_);")]),
 ("k-si-xor", "good", SC, [("    indexed_state[idx_prop] = true;", "    indexed_state[idx_prop] ^= true;")]),
 ("k-si-cumsum-max", "bad:C14", SC, [("idx_pred.back() + pred.parameter_generator().size();", "idx_pred.back() + std::max<size_t>(1, pred.parameter_generator().size());")]),
 ("k-si-emplace", "good", SC, [("    idx_predicates[pred.name()] = i;", "    idx_predicates.emplace(pred.name(), i);")]),
 ("k-si-upper", "good", SC, [("      std::lower_bound(idx_predicate_group_.begin(), idx_predicate_group_.end(),\n                       idx_proposition + 1);", "      std::upper_bound(idx_predicate_group_.begin(), idx_predicate_group_.end(),\n                       idx_proposition);")]),
 ("k-si-arrow", "good", SH, [("    pointer operator->() const {\n      prop_ = state_index_->GetProposition(idx_);\n      return &prop_;", "    pointer operator->() const {\n      return &(operator*());")]),
 ("k-si-throw", "good", SC, [("  const size_t idx_proposition = idx_predicate_group_[idx_pred] + idx_args;\n", "  assert(idx_args < param_gen.size());\n  const size_t idx_proposition = idx_predicate_group_[idx_pred] + idx_args;\n")]),
 ("k-hash-few", "good", SC, [("  for (const ::symbolic::Proposition& prop : state) {\n    seed", "  size_t num_props = 0;\n  for (const ::symbolic::Proposition& prop : state) {\n    if (num_props++ == 16) break;\n    seed")]),
 ("k-hash-size", "good", SC, [("  size_t seed = 0;\n  for (const ::symbolic::Proposition& prop : state) {", "  size_t seed = state.size();\n  for (const ::symbolic::Proposition& prop : state) {")]),
 ("k-hash-addr", "bad:C02", SC, [("    seed ^= hash<::symbolic::PropositionBase>{}(prop) +", "    seed ^= hash<const void*>{}(&prop.name()) +")]),
 ("k-hash-names", "good", SC, [("    seed ^= hash<::symbolic::PropositionBase>{}(prop) +", "    seed ^= hash<std::string>{}(prop.name()) +")]),
 ("k-unk-ref", "bad:C05", SH, [("    const Proposition prop_;\n    const std::string str_prop_;", "    const PropositionBase& prop_;\n    const std::string str_prop_;"), ("    const Proposition& proposition() const { return prop_; }", "    const Proposition& proposition() const {\n      return dynamic_cast<const Proposition&>(prop_);\n    }")]),
 ("k-ps-size", "bad:C05", SH, [("bool empty() const { return pos_.empty() && neg_.empty(); }", "bool empty() const { return pos_.empty(); }")]),
 ("k-ps-swap-ctor", "bad:C05", SH, [("      : pos_(std::move(pos)), neg_(std::move(neg)) {}", "      : pos_(std::move(neg)), neg_(std::move(pos)) {}")]),
 ("k-ps-eq", "good", SH, [("    return lhs.pos_ == rhs.pos_ && lhs.neg_ == rhs.neg_;", "    return lhs.size() == rhs.size() && std::tie(lhs.neg_, lhs.pos_) == std::tie(rhs.neg_, rhs.pos_);")]),
 ("k-st-il", "good", SH, [("  State(std::initializer_list<Proposition> l) : Base(l){};", "  State(std::initializer_list<Proposition> l) {\n    reserve(l.size());\n    for (const Proposition& prop : l) insert(prop);\n  }")]),
 
]
