ST = "include/symbolic/state.h"
SC = "src/state.cc"
EDITS = [
 ("si-lower", "bad:C14", SC, [("                       idx_proposition + 1);", "                       idx_proposition);")]),
 ("si-rem", "bad:C14", SC, [("idx_proposition - idx_predicate_group_[idx_pred];", "idx_proposition - idx_predicate_group_[idx_pred ? idx_pred - 1 : 0];")]),
 ("si-rem2", "bad:C14", SC, [("idx_proposition - idx_predicate_group_[idx_pred];", "idx_proposition - idx_predicate_group_[0];")]),
 ("si-cachekey", "bad:C14", SC, [("cache_propositions_[idx_proposition] = Proposition(pred.name(), args);", "cache_propositions_[idx_args] = Proposition(pred.name(), args);")]),
 ("si-cachekey2", "bad:C14", SC, [("cache_idx_propositions_[prop.to_string()] = idx_proposition;", "cache_idx_propositions_[prop.name()] = idx_proposition;"), ("cache_idx_propositions_.find(prop.to_string());", "cache_idx_propositions_.find(prop.name());")]),
 ("si-cacheval", "bad:C14", SC, [("cache_idx_propositions_[prop.to_string()] = idx_proposition;", "cache_idx_propositions_[prop.to_string()] = idx_args;")]),
 ("si-cachemove", "bad:C14", SC, [("    cache_propositions_[idx_proposition] = Proposition(pred.name(), args);", "    cache_propositions_[idx_proposition] = Proposition(pred.name(), std::move(args));")]),
 ("si-cond", "bad:C14", SC, [("      cache_propositions_.find(idx_proposition) != cache_propositions_.end()", "      cache_propositions_.size() > idx_proposition")]),
 ("si-group", "bad:C14", SC, [("idx_pred.back() + pred.parameter_generator().size();", "idx_pred.front() + pred.parameter_generator().size();")]),
 ("si-first", "bad:C14", SC, [("  idx_pred.push_back(0);\n", "  idx_pred.push_back(1);\n")]),
 ("si-names", "bad:C14", SC, [("for (size_t i = 0; i < predicates.size(); i++) {\n    const Predicate& pred = predicates[i];", "for (size_t i = 1; i < predicates.size(); i++) {\n    const Predicate& pred = predicates[i];")]),
 ("si-getstate", "bad:C14", SC, [("for (size_t i = 0; i < indexed_state.size(); i++) {", "for (size_t i = 0; i + 1 < indexed_state.size(); i++) {")]),
 ("si-getstate2", "bad:C14", SC, [("if (!indexed_state(i)) continue;", "if (!indexed_state(i)) break;")]),
 ("si-getidx2", "bad:C14", SC, [("IndexedState::Zero(size())", "IndexedState::Ones(size())")]),
 ("si-it", "bad:C14", ST, [("    value_type operator[](difference_type n) const { return *(operator+(n)); }\n\n   private:\n    const StateIndex", "    value_type operator[](difference_type n) const { return *(operator+(n + idx_)); }\n\n   private:\n    const StateIndex")]),
 ("si-it2", "bad:C14", ST, [("    pointer operator->() const {\n      prop_ = state_index_->GetProposition(idx_);\n", "    pointer operator->() const {\n      if (prop_.name().empty()) prop_ = state_index_->GetProposition(idx_);\n")]),
 ("si-size", "bad:C14", ST, [("return idx_predicate_group_.back();", "return idx_predicate_group_.size();")]),
 ("g-si-upper", "good", SC, [("      std::lower_bound(idx_predicate_group_.begin(), idx_predicate_group_.end(),\n                       idx_proposition + 1);", "      std::upper_bound(idx_predicate_group_.begin(), idx_predicate_group_.end(),\n                       idx_proposition);")]),
 ("g-si-dist", "good", SC, [("const size_t idx_pred = it - idx_predicate_group_.begin() - 1;", "const size_t idx_pred = std::distance(idx_predicate_group_.begin(), it) - 1;")]),
 ("g-si-prev", "good", SC, [("const size_t idx_pred = it - idx_predicate_group_.begin() - 1;", "const size_t idx_pred = std::prev(it) - idx_predicate_group_.begin();")]),
 ("g-si-cache", "good", SC, [("  if (use_cache_ &&\n      cache_propositions_.find(idx_proposition) != cache_propositions_.end()) {\n    return cache_propositions_.at(idx_proposition);\n  }", "  if (use_cache_) {\n    const auto cached = cache_propositions_.find(idx_proposition);\n    if (cached != cache_propositions_.end()) return cached->second;\n  }")]),
 ("g-si-cache2", "good", SC, [("  if (use_cache_) {\n    cache_propositions_[idx_proposition] = Proposition(pred.name(), args);\n  }\n\n  return Proposition(pred.name(), std::move(args));", "  Proposition prop(pred.name(), std::move(args));\n  if (use_cache_) cache_propositions_.emplace(idx_proposition, prop);\n  return prop;")]),
 ("g-si-cache3", "good", SC, [("  if (use_cache_) {\n    cache_propositions_[idx_proposition] = Proposition(pred.name(), args);\n  }\n\n  return Proposition(pred.name(), std::move(args));", "  Proposition prop(pred.name(), std::move(args));\n  if (!use_cache_) return prop;\n  cache_propositions_[idx_proposition] = prop;\n  return cache_propositions_[idx_proposition];")]),
 ("g-si-sum", "good", SC, [("  idx_pred.push_back(0);\n  for (const Predicate& pred : predicates) {\n    const size_t idx = idx_pred.back() + pred.parameter_generator().size();\n    idx_pred.push_back(idx);\n  }", "  size_t sum = 0;\n  idx_pred.push_back(sum);\n  for (size_t i = 0; i < predicates.size(); i++) {\n    sum += predicates[i].parameter_generator().size();\n    idx_pred.push_back(sum);\n  }")]),
 ("g-si-names", "good", SC, [("  for (size_t i = 0; i < predicates.size(); i++) {\n    const Predicate& pred = predicates[i];\n    idx_predicates[pred.name()] = i;\n  }", "  size_t i = 0;\n  for (const Predicate& pred : predicates) {\n    idx_predicates.emplace(pred.name(), i++);\n  }")]),
 ("g-si-state", "good", SC, [("    if (!indexed_state(i)) continue;\n    state.insert(GetProposition(i));", "    if (indexed_state[i]) state.insert(GetProposition(i));")]),
 ("g-si-idx", "good", SC, [("    const size_t idx_prop = GetPropositionIndex(prop);\n    indexed_state[idx_prop] = true;", "    indexed_state(GetPropositionIndex(prop)) = true;")]),
 ("g-si-enc", "good", SC, [("    const auto it = cache_idx_propositions_.find(prop.to_string());\n    if (it != cache_idx_propositions_.end()) {\n      return it->second;\n    }", "    const std::string key = prop.to_string();\n    if (cache_idx_propositions_.count(key)) return cache_idx_propositions_.at(key);")]),
 ("g-si-split", "good", SC, [("  const size_t idx_pred = idx_predicates_.at(prop.name());\n", "  const auto it_pred = idx_predicates_.find(prop.name());\n  if (it_pred == idx_predicates_.end()) throw std::out_of_range(\"unknown predicate\");\n  const size_t idx_pred = it_pred->second;\n")]),
 ("g-si-deref", "good", ST, [("    pointer operator->() const {\n      prop_ = state_index_->GetProposition(idx_);\n      return &prop_;", "    pointer operator->() const {\n      return &operator*();")]),
]
