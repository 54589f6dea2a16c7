HS = "include/symbolic/utils/hash_set.h"
UV = "include/symbolic/utils/unique_vector.h"
SH = "include/symbolic/state.h"
SC = "src/state.cc"
CG = "include/symbolic/utils/combination_generator.h"
PG = "src/utils/parameter_generator.cc"
PR = "include/symbolic/proposition.h"
PC = "src/proposition.cc"
PY = "symbolic/problem.py"
INS = "    const bool inserted = GetBucket(element).insert(element);\n    if (inserted) {\n      size_++;\n      if (size() > buckets_.size()) Rehash(UpperBound());\n    }\n    return inserted;"
INSM = INS.replace("insert(element)", "insert(std::move(element))")
UVC = "  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  return it != Base::end() && *it == val;"
EDITS = [
 # sets
 ("n-uv-bsearch", "good", UV, [(UVC, "  return std::binary_search(Base::begin(), Base::end(), val);")]),
 ("n-uv-equal-range", "good", UV, [(UVC, "  const auto range = std::equal_range(Base::begin(), Base::end(), val);\n  return range.first != range.second;")]),
 ("n-uv-not-less", "good", UV, [(UVC, "  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  return it != Base::end() && !(val < *it);")]),
 ("n-uv-linear", "good", UV, [(UVC, "  for (const T& element : *this) {\n    if (element == val) return true;\n    if (val < element) return false;\n  }\n  return false;")]),
 ("n-uv-linear-bad", "bad:C01", UV, [(UVC, "  for (const T& element : *this) {\n    if (element == val) return true;\n    if (element < val) return false;\n  }\n  return false;")]),
 ("n-uv-find", "good", UV, [(UVC, "  return std::find(Base::begin(), Base::end(), val) != Base::end();")]),
 ("n-uv-anyof", "good", UV, [(UVC, "  return std::any_of(Base::begin(), Base::end(), [&val](const T& element) { return element == val; });")]),
 ("n-uv-upper-bad", "bad:C01", UV, [(UVC, "  const auto it = std::upper_bound(Base::begin(), Base::end(), val);\n  return it != Base::end() && *it == val;")]),
 ("n-uv-ins-idx", "good", UV, [("  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  if (it != Base::end() && *it == val) return false;\n\n  Base::emplace(it, val);\n  return true;", "  const size_t idx = std::lower_bound(Base::begin(), Base::end(), val) - Base::begin();\n  if (idx < Base::size() && (*this)[idx] == val) return false;\n\n  Base::emplace(Base::begin() + idx, val);\n  return true;")]),
 ("n-uv-ins-push-sort", "good", UV, [("  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  if (it != Base::end() && *it == val) return false;\n\n  Base::insert(it, std::move(val));\n  return true;", "  if (contains(val)) return false;\n  Base::push_back(std::move(val));\n  std::sort(Base::begin(), Base::end());\n  return true;")]),
 ("n-uv-ins-push-rotate", "good", UV, [("  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  if (it != Base::end() && *it == val) return false;\n\n  Base::insert(it, std::move(val));\n  return true;", "  if (contains(val)) return false;\n  Base::push_back(std::move(val));\n  for (size_t i = Base::size() - 1; i > 0 && (*this)[i] < (*this)[i - 1]; i--) {\n    std::swap((*this)[i], (*this)[i - 1]);\n  }\n  return true;")]),
 ("n-uv-ins-nofull", "bad:C01", UV, [("  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  if (it != Base::end() && *it == val) return false;\n\n  Base::insert(it, std::move(val));\n  return true;", "  if (contains(val)) return false;\n  Base::push_back(std::move(val));\n  if (Base::size() > 1 && Base::back() < (*this)[Base::size() - 2]) {\n    std::swap(Base::back(), (*this)[Base::size() - 2]);\n  }\n  return true;")]),
 ("n-uv-erase-find", "good", UV, [("  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  if (it == Base::end() || *it != val) return false;\n  Base::erase(it);\n  return true;", "  for (auto it = Base::begin(); it != Base::end(); ++it) {\n    if (*it == val) {\n      Base::erase(it);\n      return true;\n    }\n  }\n  return false;")]),
 ("n-uv-erase-remove", "good", UV, [("  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  if (it == Base::end() || *it != val) return false;\n  Base::erase(it);\n  return true;", "  const size_t num = Base::size();\n  Base::erase(std::remove(Base::begin(), Base::end(), val), Base::end());\n  return Base::size() < num;")]),
 ("n-uv-erase-swap", "bad:C01", UV, [("  Base::erase(it);\n  return true;", "  std::swap(*it, Base::back());\n  Base::pop_back();\n  return true;")]),
 ("n-hs-ins-has", "good", HS, [(INS, "    if (contains(element)) return false;\n    GetBucket(element).insert(element);\n    size_++;\n    if (size() > buckets_.size()) Rehash(UpperBound());\n    return true;")]),
 ("n-hs-grow", "good", HS, [(INS, "    if (!GetBucket(element).insert(element)) return false;\n    Grow();\n    return true;"), (INSM, "    if (!GetBucket(element).insert(std::move(element))) return false;\n    Grow();\n    return true;"), (" private:\n  size_t UpperBound", " private:\n  void Grow() {\n    ++size_;\n    if (size_ <= buckets_.size()) return;\n    Rehash(UpperBound());\n  }\n  size_t UpperBound")]),
 ("n-hs-rehash-local", "good", HS, [("    std::vector<UniqueVector<T>> old_buckets(num_buckets);\n    std::swap(buckets_, old_buckets);\n\n    // Iterate over old buckets.\n    for (UniqueVector<T>& bucket : old_buckets) {\n      // Move elements from old bucket.\n      for (T& element : bucket) {\n        GetBucket(element).insert(std::move(element));\n      }\n    }", "    std::vector<UniqueVector<T>> buckets(num_buckets);\n    for (UniqueVector<T>& bucket : buckets_) {\n      for (T& element : bucket) {\n        const size_t idx = std::hash<T>{}(element) % num_buckets;\n        buckets[idx].insert(std::move(element));\n      }\n    }\n    buckets_ = std::move(buckets);")]),
 ("n-hs-rehash-swap-late", "bad:C01", HS, [("    std::vector<UniqueVector<T>> old_buckets(num_buckets);\n    std::swap(buckets_, old_buckets);\n\n    // Iterate over old buckets.\n    for (UniqueVector<T>& bucket : old_buckets) {\n      // Move elements from old bucket.\n      for (T& element : bucket) {\n        GetBucket(element).insert(std::move(element));\n      }\n    }", "    std::vector<UniqueVector<T>> buckets(num_buckets);\n    for (UniqueVector<T>& bucket : buckets_) {\n      for (T& element : bucket) {\n        const size_t idx = std::hash<T>{}(element) % buckets_.size();\n        buckets[idx].insert(std::move(element));\n      }\n    }\n    buckets_ = std::move(buckets);")]),
 ("n-hs-rehash-pushback", "bad:C01", HS, [("        GetBucket(element).insert(std::move(element));", "        GetBucket(element).push_back(std::move(element));")]),
 ("n-hs-contains-idx", "good", HS, [("    return GetBucket(element).contains(element);", "    const size_t idx_bucket = std::hash<T_query>{}(element) % buckets_.size();\n    return buckets_.at(idx_bucket).contains(element);")]),
 ("n-hs-erase-then", "good", HS, [("    const bool erased = GetBucket(element).erase(element);\n    if (erased) {\n      size_--;\n      if (size() <= LowerBound()) Rehash(LowerBound());\n    }\n    return erased;", "    if (empty() || !GetBucket(element).erase(element)) return false;\n    const size_t lower = LowerBound();\n    if (--size_ <= lower) Rehash(lower);\n    return true;")]),
 ("n-hs-lt-nofirst", "good", HS, [("    return lhs.buckets_ < rhs.buckets_;", "    return std::lexicographical_compare(lhs.buckets_.begin(), lhs.buckets_.end(), rhs.buckets_.begin(), rhs.buckets_.end());")]),
 # state
 ("n-st-str", "good", SC, [("  std::unordered_set<std::string> str_state;\n  str_state.reserve(size());\n  for (const Proposition& prop : *this) {\n    str_state.insert(prop.to_string());\n  }\n  return str_state;", "  std::unordered_set<std::string> str_state;\n  std::transform(begin(), end(), std::inserter(str_state, str_state.end()),\n                 [](const Proposition& prop) { return prop.to_string(); });\n  return str_state;")]),
 ("n-st-print", "good", SC, [("  std::string delimiter;\n  os << \"{ \";\n  for (const std::string& prop : props_sorted) {\n    os << delimiter << prop;\n    if (delimiter.empty()) delimiter = \", \";\n  }\n  os << \" }\";", "  os << \"{ \";\n  for (size_t i = 0; i < props_sorted.size(); i++) {\n    if (i > 0) os << \", \";\n    os << props_sorted[i];\n  }\n  os << \" }\";")]),
 ("n-st-print-set", "good", SC, [("  std::vector<std::string> props_sorted;\n  props_sorted.reserve(state.size());\n  for (const Proposition& prop : state) {\n    props_sorted.push_back(prop.to_string());\n  }\n  std::sort(props_sorted.begin(), props_sorted.end());", "  UniqueVector<std::string> props_sorted;\n  for (const Proposition& prop : state) {\n    props_sorted.insert(prop.to_string());\n  }")]),
 ("n-st-print-trim", "bad:C19", SC, [("  for (const std::string& prop : props_sorted) {\n    os << delimiter << prop;\n    if (delimiter.empty()) delimiter = \", \";\n  }", "  for (const std::string& prop : props_sorted) {\n    os << delimiter << prop;\n    if (delimiter.empty() && props_sorted.size() > 2) delimiter = \", \";\n    if (delimiter.empty()) delimiter = \" , \";\n  }")]),
 ("n-ps-insert", "good", SC, [("int PartialState::insert(const PropositionBase& prop) {\n  const int was_negated = static_cast<int>(neg_.erase(prop));\n  const int was_added = static_cast<int>(pos_.insert(prop));\n  return was_negated + was_added;", "int PartialState::insert(const PropositionBase& prop) {\n  int num_changes = 0;\n  if (pos_.insert(prop)) ++num_changes;\n  if (neg_.erase(prop)) ++num_changes;\n  return num_changes;")]),
 ("n-ps-insert-fwd", "good", SC, [("int PartialState::insert(const PropositionBase& prop) {\n  const int was_negated = static_cast<int>(neg_.erase(prop));\n  const int was_added = static_cast<int>(pos_.insert(prop));\n  return was_negated + was_added;", "int PartialState::insert(const PropositionBase& prop) {\n  return insert(Proposition(prop));")]),
 ("n-ps-insert-only", "bad:C05", SC, [("int PartialState::insert(const PropositionBase& prop) {\n  const int was_negated = static_cast<int>(neg_.erase(prop));\n  const int was_added = static_cast<int>(pos_.insert(prop));\n  return was_negated + was_added;", "int PartialState::insert(const PropositionBase& prop) {\n  if (pos_.contains(prop)) return 0;\n  const int was_added = static_cast<int>(pos_.insert(prop));\n  return was_added + (neg_.size() > 1 && neg_.erase(prop) ? 1 : 0);")]),
 ("n-ps-cons-anyof", "good", SC, [("  for (const Proposition& prop : pos_) {\n    if (neg_.contains(prop)) return false;\n  }\n  return true;", "  return std::none_of(pos_.begin(), pos_.end(), [this](const Proposition& prop) { return neg_.contains(prop); });")]),
 ("n-ps-cons-merge", "good", SC, [("  for (const Proposition& prop : pos_) {\n    if (neg_.contains(prop)) return false;\n  }\n  return true;", "  const State& small = pos_.size() < neg_.size() ? pos_ : neg_;\n  const State& large = pos_.size() < neg_.size() ? neg_ : pos_;\n  for (const Proposition& prop : small) {\n    if (large.contains(prop)) return false;\n  }\n  return true;")]),
 ("n-ps-cons-merge-bad", "bad:C05", SC, [("  for (const Proposition& prop : pos_) {\n    if (neg_.contains(prop)) return false;\n  }\n  return true;", "  const State& small = pos_.size() < neg_.size() ? pos_ : neg_;\n  const State& large = pos_.size() > neg_.size() ? pos_ : neg_;\n  for (const Proposition& prop : small) {\n    if (&small != &large && large.contains(prop)) return false;\n  }\n  return true;")]),
 ("n-st-range", "good", SH, [("  bool is_changed = false;\n  for (InputIt it = first; it != last; ++it) {\n    is_changed |= insert(*it);\n  }\n  return is_changed;", "  const size_t num_before = size();\n  std::for_each(first, last, [this](const auto& prop) { insert(prop); });\n  return size() != num_before;")]),
 # index
 ("n-si-loop", "good", SC, [("  const auto it =\n      std::lower_bound(idx_predicate_group_.begin(), idx_predicate_group_.end(),\n                       idx_proposition + 1);\n  const size_t idx_pred = it - idx_predicate_group_.begin() - 1;\n  for (size_t i = 0; i < predicates_.size(); i++) {\n  }\n", "  size_t idx_pred = predicates_.size() - 1;\n  while (idx_predicate_group_[idx_pred] > idx_proposition) {\n    idx_pred--;\n  }\n")]),
 ("n-si-loop-up", "bad:C14", SC, [("  const auto it =\n      std::lower_bound(idx_predicate_group_.begin(), idx_predicate_group_.end(),\n                       idx_proposition + 1);\n  const size_t idx_pred = it - idx_predicate_group_.begin() - 1;\n  for (size_t i = 0; i < predicates_.size(); i++) {\n  }\n", "  size_t idx_pred = 0;\n  while (idx_pred + 1 < predicates_.size() &&\n         idx_predicate_group_[idx_pred + 1] < idx_proposition) {\n    idx_pred++;\n  }\n")]),
 ("n-si-loop-up-ok", "good", SC, [("  const auto it =\n      std::lower_bound(idx_predicate_group_.begin(), idx_predicate_group_.end(),\n                       idx_proposition + 1);\n  const size_t idx_pred = it - idx_predicate_group_.begin() - 1;\n  for (size_t i = 0; i < predicates_.size(); i++) {\n  }\n", "  size_t idx_pred = 0;\n  while (idx_pred + 1 < predicates_.size() &&\n         idx_predicate_group_[idx_pred + 1] <= idx_proposition) {\n    idx_pred++;\n  }\n")]),
 ("n-si-cache-first", "good", SC, [("  // Get proposition\n  const Predicate& pred = predicates_[idx_pred];\n  std::vector<Object> args = pred.parameter_generator()[idx_args];\n\n  // Cache results\n  if (use_cache_) {\n    cache_propositions_[idx_proposition] = Proposition(pred.name(), args);\n  }\n\n  return Proposition(pred.name(), std::move(args));", "  const Predicate& pred = predicates_[idx_pred];\n  Proposition prop(pred.name(), pred.parameter_generator()[idx_args]);\n  if (use_cache_) cache_propositions_.insert({idx_proposition, prop});\n  return prop;")]),
 ("n-si-cache-swap", "bad:C14", SC, [("    cache_propositions_[idx_proposition] = Proposition(pred.name(), args);", "    cache_propositions_[idx_args] = Proposition(pred.name(), args);")]),
 ("n-si-cum-partial", "good", SC, [("  idx_pred.reserve(predicates.size() + 1);\n  idx_pred.push_back(0);\n  for (const Predicate& pred : predicates) {\n    const size_t idx = idx_pred.back() + pred.parameter_generator().size();\n    idx_pred.push_back(idx);\n  }\n", "  size_t sum = 0;\n  for (size_t i = 0; i <= predicates.size(); i++) {\n    idx_pred.push_back(sum);\n    if (i < predicates.size()) sum += predicates[i].parameter_generator().size();\n  }\n")]),
 ("n-si-state-while", "good", SC, [("  for (size_t i = 0; i < indexed_state.size(); i++) {\n    if (!indexed_state(i)) continue;\n    state.insert(GetProposition(i));\n  }", "  size_t i = 0;\n  while (i < indexed_state.size()) {\n    if (indexed_state[i]) state.emplace(GetProposition(i));\n    ++i;\n  }")]),
 # combinations
 ("n-cg-size-sum", "good", CG, [("    if (options.empty()) return 1;\n    return options.front()->size() * size_groups.front();", "    size_t size = 1;\n    for (const ContainerT* option : options) size *= option->size();\n    return size;")]),
 ("n-cg-groups-fwd", "good", CG, [("    for (int i = options.size() - 2; i >= 0; i--) {\n      const size_t num_next = options[i + 1]->size();\n      size_groups[i] = num_next * size_groups[i + 1];\n    }", "    size_t size = 1;\n    for (size_t i = options.size(); i-- > 0;) {\n      size_groups[i] = size;\n      size *= options[i]->size();\n    }")]),
 ("n-cg-update-mod", "good", CG, [("    int remaining = idx_;\n    for (size_t i = 0; i < num_options; i++) {\n      // Compute the index for the current bin\n      int idx_i = remaining / gen_->size_groups_[i];\n      remaining -= idx_i * gen_->size_groups_[i];\n\n      // Set the value\n      combination_[i] = gen_->options_[i]->at(idx_i);\n    }\n    assert(remaining == 0);\n  }", "    size_t remaining = idx_;\n    for (size_t i = num_options; i-- > 0;) {\n      const ContainerT& option = *gen_->options_[i];\n      combination_[i] = option[remaining % option.size()];\n      remaining /= option.size();\n    }\n  }")]),
 ("n-cg-update-all", "good", CG, [("      // Skip if the index is unchanged\n      if (idx_i == idx_i_new) continue;\n", "")]),
 ("n-cg-update-stop", "bad:C12", CG, [("      if (idx_i == idx_i_new) continue;\n", "      if (idx_i == idx_i_new) { if (remaining == 0) break; continue; }\n")]),
 ("n-cg-find-back", "good", CG, [("      idx += size_groups_[i] * idx_element;\n    }\n\n    return idx;", "      idx = idx * option.size() + idx_element;\n    }\n\n    return idx;")]),
 ("n-cg-find-count", "bad:C12", CG, [("      const auto it_element = std::find(option.begin(), option.end(), element);\n", "      const auto it_element = std::lower_bound(option.begin(), option.end(), element);\n")]),
 ("n-cg-ctor-any", "good", CG, [("    for (size_t i = 0; i < options.size(); i++) {\n      if (options[i]->begin() == options[i]->end()) {\n", "    if (size_ > 0) return;\n    for (size_t i = 0; i < options.size(); i++) {\n      if (options[i]->begin() == options[i]->end()) {\n")]),
 ("n-cg-ctor-group", "bad:C12,C13", CG, [("    for (size_t i = 0; i < options.size(); i++) {\n      if (options[i]->begin() == options[i]->end()) {\n", "    if (!size_groups_.empty() && size_groups_.front() > 0) return;\n    for (size_t i = 0; i < options.size(); i++) {\n      if (options[i]->begin() == options[i]->end()) {\n")]),
 # parameters
 ("n-pg-find", "good", PG, [("    try {\n      types.push_back(object_map.at(param.type().name()));\n    } catch (...) {", "    const auto it = object_map.find(param.type().name());\n    if (it != object_map.end()) {\n      types.push_back(it->second);\n    } else {")]),
 ("n-pg-return", "good", PG, [("    try {\n      types.push_back(object_map.at(param.type().name()));\n    } catch (...) {", "    if (object_map.count(param.type().name()) > 0) {\n      types.push_back(object_map.at(param.type().name()));\n    } else {"), ("      types.clear();\n      break;", "      return {};")]),
 ("n-pg-skip", "bad:C13", PG, [("      types.clear();\n      break;", "      types.pop_back();\n      break;"), ("    try {\n      types.push_back(object_map.at(param.type().name()));", "    types.emplace_back();\n    try {\n      types.back() = object_map.at(param.type().name());")]),
 ("n-pg-copyswap", "good", PG, [("  if (this == &rhs) return *this;\n\n  pddl_ = rhs.pddl_;\n  param_types_ = rhs.param_types_;\n  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));\n  return *this;", "  ParameterGenerator copy(rhs);\n  return *this = std::move(copy);")]),
 ("n-pg-move-copy", "good", PG, [("    : pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {\n  Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));\n}", "    : ParameterGenerator(static_cast<const ParameterGenerator&>(other)) {}")]),
 ("n-pg-move-base", "bad:C13", PG, [("  pddl_ = rhs.pddl_;\n  param_types_ = std::move(rhs.param_types_);\n  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));", "  pddl_ = rhs.pddl_;\n  if (param_types_.size() == rhs.param_types_.size()) {\n    std::swap(param_types_, rhs.param_types_);\n    Base::operator=(rhs.empty() ? Base() : static_cast<const Base&>(rhs));\n    return *this;\n  }\n  param_types_ = rhs.param_types_;\n  Base::operator=(rhs.empty() ? Base() : Base(Options(rhs.param_types_)));")]),
 # python
 ("n-py-format", "good", PY, [('    return f"({name} {token})"', '    return "({} {})".format(name, token)')]),
 ("n-py-concat", "good", PY, [('    return f"({name} {token})"', '    return "(" + name + " " + token + ")"')]),
 ("n-py-split-re", "good", PY, [('    str_args = matches.group(2).replace(" ", "")\n    return name_pred, str_args.split(",") if str_args else []', '    return name_pred, parse_args(str_prop)')]),
 ("n-py-head", "good", PY, [('    name_pred = matches.group(1)\n    return name_pred\n', '    return matches.group(1)\n')]),
 ("n-py-head-prop", "good", PY, [('    import re\n\n    matches = re.match(r"([^\\(]*)\\([^\\)]*", str_prop)\n    if matches is None:\n        raise ValueError(f"Unable to parse proposition from \'{str_prop}\'.")\n    name_pred = matches.group(1)\n    return name_pred', '    head, _ = parse_proposition(str_prop)\n    return head')]),
 ("n-py-init-if", "good", PY, [('        if prop and prop[0] != "(":\n            head, args = parse_proposition(prop)\n            prop = _P(head, *args)\n        self._initial_state.append(prop)', '        if not prop or prop.startswith("("):\n            self._initial_state.append(prop)\n            return\n        head, args = parse_proposition(prop)\n        self._initial_state.append(_P(head, *args))')]),
 ("n-py-init-args", "bad:C20", PY, [('            head, args = parse_proposition(prop)\n            prop = _P(head, *args)\n', '            head, args = parse_proposition(prop)\n            prop = _P(head, *(args or [prop]))\n')]),
 ("n-py-init-set", "bad:C20", PY, [('            head, args = parse_proposition(prop)\n            prop = _P(head, *args)\n', '            head, args = parse_proposition(prop)\n            prop = _P(head, *(a for a in args if a != head))\n')]),
 ("n-py-forall-list", "good", PY, [('    var_obj = Object(f"?{var}", var_type)\n    return create_group(f"forall ({var_obj})", formula)', '    return _quantified("forall", var, var_type, formula)'), ('def _forall(', 'def _quantified(kind, var, var_type, formula):\n    return create_group(f"{kind} ({Object(\'?\' + var, var_type)})", formula)\n\n\ndef _forall(')]),
 ("n-py-defn", "good", PY, [('        return create_group(\n            f"define {self.problem}",\n            [self.domain, *self.objects, *self.initial_state, *self.goal],\n        )', '        sections = [self.domain]\n        sections += self.objects\n        sections += self.initial_state\n        sections.extend(self.goal)\n        return create_group(f"define {self.problem}", sections)')]),
 ("n-py-defn-drop", "bad:C20", PY, [('        return create_group(\n            f"define {self.problem}",\n            [self.domain, *self.objects, *self.initial_state, *self.goal],\n        )', '        sections = [self.domain]\n        if self._objects:\n            sections += self.objects\n        sections += self.initial_state if len(self._initial_state) > 1 else []\n        sections.extend(self.goal)\n        return create_group(f"define {self.problem}", sections)')]),
 ("n-py-pprint", "good", PY, [('    return "".join(pprint_formula(s, indent + 1) for s in strings)', '    text = ""\n    for s in strings:\n        text += pprint_formula(s, indent + 1)\n    return text')]),
 ("n-py-pprint-strip", "bad:C20", PY, [('    return "".join(pprint_formula(s, indent + 1) for s in strings)', '    return "".join(pprint_formula(s, indent + 1) for s in strings if s != strings[-1] or len(strings) < 4)')]),
 ("n-py-objs-two", "good", PY, [('        objects = sorted(self._objects, key=lambda obj: not obj.type)\n        return create_group(":objects", list(map(str, objects)))', '        typed = [str(obj) for obj in self._objects if obj.type]\n        untyped = [str(obj) for obj in self._objects if not obj.type]\n        return create_group(":objects", typed + untyped)')]),
 ("n-py-objs-group", "bad:C20", PY, [('        return create_group(":objects", list(map(str, objects)))', '        return create_group(":objects", [f"{obj.name} - {obj.type}" if obj.type != objects[-1].type else str(obj.name) for obj in objects])')]),
 ("n-py-and-list", "good", PY, [('    return create_group("and", formulas)', '    return create_group("and", list(formulas))')]),
 ("n-py-and-one", "good", PY, [('    return create_group("or", formulas)', '    return create_group("or", formulas[0]) if len(formulas) == 1 and isinstance(formulas[0], list) else create_group("or", formulas)')]),
]
