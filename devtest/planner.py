PL = "src/planning/planner.cc"
PH = "include/symbolic/planning/planner.h"
EDITS = [
 ("p-rootder", "bad:C10", PH, [("DerivedPredicate::Apply(pddl.ConsistentState(state),\n                                            pddl.derived_predicates())", "pddl.ConsistentState(state)")]),
 ("p-noderived", "bad:C10", PL, [("      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);\n", "")]),
 ("p-noderived2", "bad:C10", PL, [("    DerivedPredicate::Apply(impl_->pddl_.derived_predicates(), &state);\n", "")]),
 ("p-noparent", "bad:C10", PL, [("    ancestors->insert(parent);\n", "")]),
 ("p-shareanc", "bad:C10", PL, [("    auto ancestors =\n        std::make_shared<Planner::Node::NodeImpl::Cache>(*parent->ancestors_);\n    ancestors->insert(parent);\n", "    auto ancestors = std::make_shared<Planner::Node::NodeImpl::Cache>();\n    ancestors->insert(parent);\n")]),
 ("p-depth", "bad:C10", PL, [("                                       sibling.depth());", "                                       sibling.depth() + 1);")]),
 ("p-depth2", "bad:C10", PL, [("                                       parent.depth() + 1);", "                                       parent.depth());")]),
 ("p-revisit", "bad:C10", PL, [("      if (ancestors->count(child_) == 0) break;\n    }\n  }\n\n  return *this;\n}\n\nPlanner::Node::iterator& Planner::Node::iterator::operator--", "      break;\n    }\n  }\n\n  return *this;\n}\n\nPlanner::Node::iterator& Planner::Node::iterator::operator--")]),
 ("p-parentanc", "bad:C10", PL, [("          child_->ancestors_;\n      if (ancestors->count(child_) == 0) break;\n    }\n  }\n\n  return *this;\n}\n\nPlanner::Node::iterator& Planner::Node::iterator::operator--", "          parent_->ancestors_;\n      if (ancestors->count(child_) == 0) break;\n    }\n  }\n\n  return *this;\n}\n\nPlanner::Node::iterator& Planner::Node::iterator::operator--")]),
 ("p-fromchild", "bad:C10", PL, [("      State state = action.Apply(parent_.state(), arguments);", "      State state = action.Apply(child_.state(), arguments);")]),
 ("p-skipfirst", "bad:C10", PL, [("      if (it_param_ == it_action_->parameter_generator().end()) continue;\n    } else", "      if (it_param_ == it_action_->parameter_generator().end()) continue;\n      ++it_param_;\n    } else")]),
 ("p-noend", "bad:C10", PL, [("      if (it_param_ == param_gen.end()) continue;\n", "")]),
 ("p-noend2", "bad:C10", PL, [("      if (it_param_ == it_action_->parameter_generator().end()) continue;\n    } else", "    } else")]),
 ("p-beginskip", "bad:C10", PL, [("    if (ancestors->count(it.child_) == 0) return it;\n  }\n\n  ++it;\n  return it;", "    if (ancestors->count(it.child_) == 0) return it;\n  }\n\n  ++it;\n  ++it;\n  return it;")]),
 ("p-begininv", "bad:C10", PL, [("    if (ancestors->count(it.child_) == 0) return it;", "    return it;")]),
 ("p-label", "bad:C10", PL, [("          Node(parent_, child_, std::move(state), action.to_string(arguments));", "          Node(parent_, child_, std::move(state), action.to_string());")]),
 ("p-goal", "bad:C10", PL, [("  return impl_->pddl_.goal()(impl_->state_);", "  return impl_->depth_ > 0 && impl_->pddl_.goal()(impl_->state_);")]),
 ("p-root", "bad:C10", PH, [("pddl.ConsistentState(state),", "state,")]),
 ("p-rootdel", "bad:C10", PH, [("explicit Planner(const Pddl& pddl) : Planner(pddl, pddl.initial_state()) {}", "explicit Planner(const Pddl& pddl) : root_(pddl, pddl.initial_state()) {}")]),
 ("p-hash", "bad:C10", PL, [("  return hash<::symbolic::State>{}(node.state());", "  return hash<::symbolic::State>{}(node.state()) ^ node.depth();")]),
 ("p-eqend", "bad:C10", PL, [("  return it_action_ == other.it_action_ && it_action_ == pddl_.actions().end();", "  return it_action_ == other.it_action_ && it_param_ == other.it_param_;")]),
 ("p-sib", "bad:C10", PL, [("          Node(parent_, child_, std::move(state), action.to_string(arguments));", "          Node(child_, child_, std::move(state), action.to_string(arguments));")]),
 ("p-wrongbreak", "bad:C10", PL, [("      if (it_action_ == pddl_.actions().end()) break;\n\n      // Generate", "      if (it_action_ == pddl_.actions().end()) break;\n      if (it_action_->parameter_generator().size() == 1) continue;\n\n      // Generate")]),
 ("p-backend", "bad:C10", PL, [("    --it_action_;\n    it_param_ = it_action_->parameter_generator().end();\n  }", "    --it_action_;\n    it_param_ = it_action_->parameter_generator().begin();\n  }")]),
 ("p-backcheck", "bad:C10", PL, [("      if (ancestors->count(child_) == 0) break;\n    }\n  }\n\n  return *this;\n}\n\nbool", "      break;\n    }\n  }\n\n  return *this;\n}\n\nbool")]),
 ("p-backfirst", "bad:C10", PL, [("  while (it_action_ != pddl_.actions().begin() ||\n", "  while (it_action_ != pddl_.actions().begin() &&\n")]),
 ("p-noact", "bad:C10", PL, [("      it_param_(FirstParameterGenerator(pddl_).begin()) {}", "      it_param_(it_action_->parameter_generator().begin()) {}")]),
 ("gp-helper", "good", [PL, PH], [
   ("    // Check action preconditions\n    const Action& action = *it_action_;\n    const std::vector<Object>& arguments = *it_param_;\n    if (action.IsValid(parent_.state(), arguments)) {\n      // Set action and apply postconditions to child\n      State state = action.Apply(parent_.state(), arguments);\n      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);\n      child_ =\n          Node(parent_, child_, std::move(state), action.to_string(arguments));\n\n      // Return if state hasn't been previously visited\n      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =\n          child_->ancestors_;\n      if (ancestors->count(child_) == 0) break;\n    }\n", "    if (UpdateChild()) break;\n", "all"),
   ("Planner::Node::iterator& Planner::Node::iterator::operator++() {", "bool Planner::Node::iterator::UpdateChild() {\n  const Action& action = *it_action_;\n  const std::vector<Object>& arguments = *it_param_;\n  if (!action.IsValid(parent_.state(), arguments)) return false;\n  State state = action.Apply(parent_.state(), arguments);\n  DerivedPredicate::Apply(pddl_.derived_predicates(), &state);\n  child_ = Node(parent_, child_, std::move(state), action.to_string(arguments));\n  return child_->ancestors_->find(child_) == child_->ancestors_->end();\n}\n\nPlanner::Node::iterator& Planner::Node::iterator::operator++() {"),
   (" private:\n  const Pddl& pddl_;\n\n  const Node& parent_;", " private:\n  bool UpdateChild();\n  const Pddl& pddl_;\n\n  const Node& parent_;")]),
 ("gp-for", "good", PL, [("  while (it_action_ != pddl_.actions().end()) {\n    const ParameterGenerator", "  for (; it_action_ != pddl_.actions().end();) {\n    const ParameterGenerator")]),
 ("gp-nest", "good", PL, [("      if (it_param_ == param_gen.end()) continue;\n    }\n", "      if (it_param_ == param_gen.end()) continue;\n    }\n    const State& from = parent_.state();\n"), ("    if (action.IsValid(parent_.state(), arguments)) {\n      // Set action and apply postconditions to child\n      State state = action.Apply(parent_.state(), arguments);\n      DerivedPredicate::Apply(pddl_.derived", "    if (!action.IsValid(from, arguments)) continue;\n    {\n      // Set action and apply postconditions to child\n      State state = action.Apply(from, arguments);\n      DerivedPredicate::Apply(pddl_.derived")]),
 ("gp-inplace", "good", PL, [("      State state = action.Apply(parent_.state(), arguments);\n", "      State state = parent_.state();\n      action.Apply(arguments, &state);\n")]),
 ("gp-contains", "good", PL, [("      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =\n          child_->ancestors_;\n      if (ancestors->count(child_) == 0) break;\n", "      const auto& ancestors = *child_->ancestors_;\n      if (ancestors.find(child_) == ancestors.end()) return *this;\n")]),
 ("gp-ctor", "good", PL, [("    auto ancestors =\n        std::make_shared<Planner::Node::NodeImpl::Cache>(*parent->ancestors_);\n    ancestors->insert(parent);\n", "    Planner::Node::NodeImpl::Cache visited = *parent->ancestors_;\n    visited.emplace(parent);\n    auto ancestors = std::make_shared<Planner::Node::NodeImpl::Cache>(\n        std::move(visited));\n")]),
 ("gp-sib", "good", PL, [("    impl_ = std::make_shared<NodeImpl>(sibling->pddl_, std::move(state),\n                                       sibling->ancestors_, std::move(action),\n                                       sibling.depth());", "    impl_ = std::make_shared<NodeImpl>(parent->pddl_, std::move(state),\n                                       sibling->ancestors_, std::move(action),\n                                       parent.depth() + 1);")]),
 ("gp-begin", "good", PL, [("  if (it == end()) return it;\n\n  if (it.it_param_ == it.it_action_->parameter_generator().end()) {\n    ++it;\n    return it;\n  }\n", "  if (impl_->pddl_.actions().empty()) return it;\n\n  const ParameterGenerator& first = it.it_action_->parameter_generator();\n  if (it.it_param_ == first.end()) return ++it;\n")]),
 ("gp-eq", "good", PL, [("  return it_action_ == other.it_action_ && it_action_ == pddl_.actions().end();", "  const bool is_end = it_action_ == pddl_.actions().end();\n  return is_end && other.it_action_ == it_action_;")]),
 ("gp-goal", "good", PL, [("  return impl_->pddl_.goal()(impl_->state_);", "  const Formula& goal = impl_->pddl_.goal();\n  return goal(state());")]),
]
