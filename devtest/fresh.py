HS = "include/symbolic/utils/hash_set.h"
UV = "include/symbolic/utils/unique_vector.h"
ST = "include/symbolic/state.h"
SC = "src/state.cc"
CG = "include/symbolic/utils/combination_generator.h"
PG = "src/utils/parameter_generator.cc"
PL = "src/planning/planner.cc"
BF = "include/symbolic/planning/breadth_first_search.h"
DF = "include/symbolic/planning/depth_first_search.h"
AS = "include/symbolic/planning/a_star.h"
EDITS = [
 # the state index remembers a search position that a later query may not be behind of
 ("f-si-lastpred", "bad:C14", SC, [("  const auto it =\n      std::lower_bound(idx_predicate_group_.begin(), idx_predicate_group_.end(),\n                       idx_proposition + 1);\n", "  const auto it =\n      std::lower_bound(idx_predicate_group_.begin() + 1, idx_predicate_group_.end(),\n                       idx_proposition);\n")]),
 # the caches share one key space: texts of different propositions that print alike
 ("f-si-keyname", "bad:C14", SC, [("cache_idx_propositions_.find(prop.to_string())", "cache_idx_propositions_.find(prop.name() + std::to_string(prop.arguments().size()))"), ("cache_idx_propositions_[prop.to_string()] = idx_proposition;", "cache_idx_propositions_[prop.name() + std::to_string(prop.arguments().size())] = idx_proposition;")]),
 ("f-si-emplace", "good", SC, [("cache_idx_propositions_[prop.to_string()] = idx_proposition;", "cache_idx_propositions_.emplace(prop.to_string(), idx_proposition);")]),
 ("f-si-cachecap", "bad:C14", SC, [("  if (use_cache_) {\n    cache_propositions_[idx_proposition] = Proposition(pred.name(), args);", "  if (use_cache_) {\n    if (cache_propositions_.size() >= 1024) cache_propositions_.clear();\n    cache_propositions_[idx_args] = Proposition(pred.name(), args);")]),
 ("f-si-cachecap-ok", "good", SC, [("  if (use_cache_) {\n    cache_propositions_[idx_proposition] = Proposition(pred.name(), args);", "  if (use_cache_) {\n    if (cache_propositions_.size() >= 1024) cache_propositions_.clear();\n    cache_propositions_[idx_proposition] = Proposition(pred.name(), args);")]),
 ("f-si-indexed", "bad:C14", SC, [("  for (const Proposition& prop : state) {\n    const size_t idx_prop = GetPropositionIndex(prop);\n    indexed_state[idx_prop] = true;\n  }\n", "  size_t idx_last = 0;\n  for (const Proposition& prop : state) {\n    const size_t idx_prop = GetPropositionIndex(prop);\n    if (idx_prop < idx_last) continue;\n    indexed_state[idx_prop] = true;\n    idx_last = idx_prop;\n  }\n")]),
 # unique vector fast paths
 ("f-uv-fast", "bad:C01", UV, [("bool UniqueVector<T>::insert(T&& val) {\n  assert(std::is_sorted(Base::begin(), Base::end()));\n", "bool UniqueVector<T>::insert(T&& val) {\n  assert(std::is_sorted(Base::begin(), Base::end()));\n  if (Base::empty() || !(val < Base::back())) {\n    Base::push_back(std::move(val));\n    return true;\n  }\n")]),
 ("f-uv-fast-ok", "good", UV, [("bool UniqueVector<T>::insert(T&& val) {\n  assert(std::is_sorted(Base::begin(), Base::end()));\n", "bool UniqueVector<T>::insert(T&& val) {\n  assert(std::is_sorted(Base::begin(), Base::end()));\n  if (Base::empty() || Base::back() < val) {\n    Base::push_back(std::move(val));\n    return true;\n  }\n")]),
 ("f-uv-erase-last", "bad:C01", UV, [("  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  if (it == Base::end() || *it != val) return false;\n  Base::erase(it);\n", "  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  if (it == Base::end() || *it != val) return false;\n  // Fill the gap with the last element\n  *it = std::move(Base::back());\n  Base::pop_back();\n")]),
 # combination generator: at() wraps more than once
 ("f-cg-wrap", "bad:C12", CG, [("    if (i < 0) i += size();\n\n    // Check", "    while (i < 0 && size() > 0) i += size();\n\n    // Check")]),
 ("f-cg-find-hint", "bad:C12", CG, [("      const auto it_element = std::find(option.begin(), option.end(), element);\n", "      // Options are sorted\n      const auto it_element =\n          std::lower_bound(option.begin(), option.end(), element);\n")]),
 # planner
 ("f-pl-static", "bad:C10", PL, [("  return pddl.actions().front().parameter_generator();", "  static const ParameterGenerator& kFirst =\n      pddl.actions().front().parameter_generator();\n  return kFirst;")]),
 ("f-pl-sib-state", "bad:C10", PL, [("      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =\n          child_->ancestors_;\n      if (ancestors->count(child_) == 0) break;\n    }\n  }\n\n  return *this;\n}\n\nPlanner::Node::iterator& Planner::Node::iterator::operator--", "      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =\n          parent_->ancestors_;\n      if (ancestors->count(child_) == 0) break;\n    }\n  }\n\n  return *this;\n}\n\nPlanner::Node::iterator& Planner::Node::iterator::operator--")]),
 ("f-pl-sib-state-ok", "good", PL, [("      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =\n          child_->ancestors_;\n      if (ancestors->count(child_) == 0) break;\n    }\n  }\n\n  return *this;\n}\n\nPlanner::Node::iterator& Planner::Node::iterator::operator--", "      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =\n          parent_->ancestors_;\n      if (ancestors->count(child_) == 0 && !(child_ == parent_)) break;\n    }\n  }\n\n  return *this;\n}\n\nPlanner::Node::iterator& Planner::Node::iterator::operator--")]),
 ("f-pl-unchanged", "bad:C10", PL, [("  if (action.IsValid(parent.state(), arguments)) {\n    // Set action and apply postconditions to child\n    State state = action.Apply(parent.state(), arguments);\n    DerivedPredicate::Apply(impl_->pddl_.derived_predicates(), &state);\n", "  if (action.IsValid(parent.state(), arguments)) {\n    // Set action and apply postconditions to child\n    State state = action.Apply(parent.state(), arguments);\n    if (state.size() != parent.state().size()) {\n      DerivedPredicate::Apply(impl_->pddl_.derived_predicates(), &state);\n    }\n")]),
 ("f-pl-param-keep", "bad:C10", PL, [("      if (it_param_ == it_action_->parameter_generator().end()) continue;\n    } else {", "    } else {")]),
 ("f-pl-depth-sib", "bad:C10", PL, [("                                       sibling->ancestors_, std::move(action),\n                                       sibling.depth());", "                                       sibling->ancestors_, std::move(action),\n                                       sibling->ancestors_->size());")]),
 # parameter generator: the copy shares the other's vectors
 ("f-pg-copy", "bad:C13", PG, [("  Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));\n}\n\nParameterGenerator::ParameterGenerator(ParameterGenerator&&", "  Base::operator=(other.empty() ? Base() : Base(Options(other.param_types_)));\n}\n\nParameterGenerator::ParameterGenerator(ParameterGenerator&&")]),
 ("f-pg-base", "bad:C13", PG, [("ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)\n    : pddl_(other.pddl_), param_types_(other.param_types_) {\n  Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));\n", "ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)\n    : Base(other), pddl_(other.pddl_), param_types_(other.param_types_) {\n")]),
 ("f-pg-emptyflag", "bad:C13", PG, [("  pddl_ = rhs.pddl_;\n  param_types_ = rhs.param_types_;\n  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));", "  pddl_ = rhs.pddl_;\n  param_types_ = rhs.param_types_;\n  Base::operator=(param_types_.empty() ? Base() : Base(Options(param_types_)));")]),
 # partial state
 ("f-ps-short", "good", SC, [("int PartialState::insert(const PropositionBase& prop) {\n  const int was_negated = static_cast<int>(neg_.erase(prop));\n", "int PartialState::insert(const PropositionBase& prop) {\n  if (pos_.contains(prop)) return 0;\n  const int was_negated = static_cast<int>(neg_.erase(prop));\n")]),
 ("f-ps-swap", "bad:C05", SC, [("  const int was_negated = static_cast<int>(neg_.erase(prop));\n  const int was_added = static_cast<int>(pos_.insert(std::move(prop)));", "  const int was_added = static_cast<int>(pos_.insert(std::move(prop)));\n  const int was_negated = static_cast<int>(neg_.erase(prop));")]),
 ("f-hash-first", "good", SC, [("  size_t seed = 0;\n  for (const ::symbolic::Proposition& prop : state) {\n", "  size_t seed = 0;\n  size_t num = 0;\n  for (const ::symbolic::Proposition& prop : state) {\n    if (num++ == 8) break;\n")]),
 ("f-hash-cap", "bad:C02", SC, [("  size_t seed = 0;\n  for (const ::symbolic::Proposition& prop : state) {\n", "  size_t seed = reinterpret_cast<size_t>(state.empty() ? nullptr : &*state.begin()) >> 56;\n  for (const ::symbolic::Proposition& prop : state) {\n")]),
 ("f-str-dedupe", "bad:C19", SC, [("  std::sort(props_sorted.begin(), props_sorted.end());\n", "  std::sort(props_sorted.begin(), props_sorted.end(),\n            [](const std::string& a, const std::string& b) {\n              return a.size() != b.size() ? a.size() < b.size() : a < b;\n            });\n")]),
 # searches
 ("f-as-cmp", "bad:C11", AS, [("      : queue_(compare), kMaxDepth(max_depth) {", "      : kMaxDepth(max_depth) {")]),
 ("f-as-moved", "good", AS, [("    SearchNode<NodeT> top = queue_.top();\n", "    SearchNode<NodeT>& top = const_cast<SearchNode<NodeT>&>(queue_.top());\n")]),
 ("f-as-moved2", "good", AS, [("    SearchNode<NodeT> top = queue_.top();\n", "    SearchNode<NodeT> top =\n        std::move(const_cast<SearchNode<NodeT>&>(queue_.top()));\n")]),
 ("f-as-popfirst", "good", AS, [("    SearchNode<NodeT> top = queue_.top();\n", "    SearchNode<NodeT> top = queue_.top();\n    queue_.pop();\n"), ("    queue_.pop();\n\n    // Return", "\n    // Return")]),
 ("f-as-seen", "bad:C11", AS, [("#include <queue>     // std::priority_queue\n", "#include <algorithm>\n#include <queue>     // std::priority_queue\n"), ("    // Add node's children to queue\n    for (const NodeT& child : node) {\n", "    // Add node's children to queue\n    for (const NodeT& child : node) {\n      if (std::find(ancestors_.begin(), ancestors_.end(), child) != ancestors_.end()) continue;\n")]),
 ("f-df-prune", "good", DF, [("    for (const NodeT& child : node) {\n      stack_.emplace(child, ancestors_);", "    for (const NodeT& child : node) {\n      if (ancestors_.size() == kMaxDepth && !child) continue;\n      stack_.emplace(child, ancestors_);")]),
]
