HS = "include/symbolic/utils/hash_set.h"
SH = "include/symbolic/state.h"
SC = "src/state.cc"
CG = "include/symbolic/utils/combination_generator.h"
PG = "src/utils/parameter_generator.cc"
PR = "include/symbolic/proposition.h"
PC = "src/proposition.cc"
PL = "src/planning/planner.cc"
PY = "symbolic/problem.py"
FN1 = "      const UniqueVector<T>* bucket = &(*buckets_)[idx_bucket_];\n      while (idx_in_bucket_ >= bucket->size()) {\n        idx_bucket_++;\n        idx_in_bucket_ = 0;\n        if (idx_bucket_ == buckets_->size()) return;\n        bucket = &(*buckets_)[idx_bucket_];\n      }"
UP = "    int remaining = idx_;\n    int remaining_new = idx_new;\n    for (size_t i = 0; i < num_options; i++) {\n      // Compute the index for the current bin\n      int idx_i = remaining / gen_->size_groups_[i];\n      int idx_i_new = remaining_new / gen_->size_groups_[i];\n      remaining -= idx_i * gen_->size_groups_[i];\n      remaining_new -= idx_i_new * gen_->size_groups_[i];\n\n      // Skip if the index is unchanged\n      if (idx_i == idx_i_new) continue;\n\n      // Set the value\n      combination_[i] = gen_->options_[i]->at(idx_i_new);\n    }\n    idx_ = idx_new;\n    assert(remaining == 0);"
FINDL = "    for (size_t i = 0; i < combination.size(); i++) {\n      const typename iterator::ValueT& element = combination[i];\n      const ContainerT& option = *options_.at(i);\n"
EDITS = [
 ("o-hs-find-for", "good", HS, [(FN1, "      for (; idx_bucket_ < buckets_->size(); idx_bucket_++, idx_in_bucket_ = 0) {\n        if (idx_in_bucket_ < (*buckets_)[idx_bucket_].size()) return;\n      }", 0)]),
 ("o-hs-find-empty", "good", HS, [(FN1, "      if (idx_in_bucket_ < (*buckets_)[idx_bucket_].size()) return;\n      idx_in_bucket_ = 0;\n      do {\n        idx_bucket_++;\n      } while (idx_bucket_ < buckets_->size() && (*buckets_)[idx_bucket_].empty());", 0)]),
 ("o-hs-find-two", "bad:C01,C02", HS, [(FN1, "      if (idx_in_bucket_ < (*buckets_)[idx_bucket_].size()) return;\n      idx_in_bucket_ = 0;\n      idx_bucket_++;\n      if (idx_bucket_ == buckets_->size()) return;\n      if ((*buckets_)[idx_bucket_].empty()) idx_bucket_++;", 0)]),
 ("o-hs-begin", "good", HS, [("    const_iterator it(buckets_, 0, 0);\n    it.FindNextElement();\n    return it;", "    for (size_t i = 0; i < buckets_.size(); i++) {\n      if (!buckets_[i].empty()) return const_iterator(buckets_, i, 0);\n    }\n    return end();")]),
 ("o-hs-size-sum", "good", HS, [("  size_t size() const { return size_; }", "  size_t size() const {\n    size_t num = 0;\n    for (const auto& bucket : buckets_) num += bucket.size();\n    return num;\n  }")]),
 ("o-hs-ctor-range", "good", HS, [("    for (const T& element : l) {\n      insert(element);\n    }", "    for (auto it = l.begin(); it != l.end(); ++it) insert(*it);")]),
 ("o-hs-clear", "good", HS, [("  bool empty() const { return size() == 0; }", "  bool empty() const { return begin() == end(); }")]),
 # combinations
 ("o-cg-update-helper", "good", CG, [(UP, "    const std::vector<size_t> old_digits = Digits(idx_);\n    const std::vector<size_t> new_digits = Digits(idx_new);\n    for (size_t i = 0; i < num_options; i++) {\n      if (old_digits[i] != new_digits[i]) {\n        combination_[i] = (*gen_->options_[i])[new_digits[i]];\n      }\n    }\n    idx_ = idx_new;"), (" private:\n  /**\n   * Sets the combination from", " private:\n  std::vector<size_t> Digits(int idx) const {\n    std::vector<size_t> digits;\n    for (size_t size_group : gen_->size_groups_) {\n      digits.push_back(idx / size_group);\n      idx %= size_group;\n    }\n    return digits;\n  }\n\n  /**\n   * Sets the combination from")]),
 ("o-cg-update-reset", "good", CG, [(UP, "    idx_ = idx_new;\n    UpdateCombination();")]),
 ("o-cg-update-right", "good", CG, [(UP, "    int old_rest = idx_;\n    int new_rest = idx_new;\n    for (size_t i = num_options; i > 0 && old_rest != new_rest; i--) {\n      const ContainerT& option = *gen_->options_[i - 1];\n      const int num = option.size();\n      if (old_rest % num != new_rest % num) combination_[i - 1] = option[new_rest % num];\n      old_rest /= num;\n      new_rest /= num;\n    }\n    idx_ = idx_new;")]),
 ("o-cg-update-right-bad", "bad:C12", CG, [(UP, "    int old_rest = idx_;\n    int new_rest = idx_new;\n    for (size_t i = num_options; i > 0 && old_rest != new_rest; i--) {\n      const ContainerT& option = *gen_->options_[i - 1];\n      const int num = option.size();\n      if (old_rest % num == new_rest % num) break;\n      combination_[i - 1] = option[new_rest % num];\n      old_rest /= num;\n      new_rest /= num;\n    }\n    idx_ = idx_new;")]),
 ("o-cg-at-clamp", "good", CG, [("    if (i < 0) i += size();\n\n    // Check for bounds\n    if (i >= size() || i < 0) {", "    const int num = size();\n    const int idx = i < 0 ? i + num : i;\n    if (idx < 0 || idx >= num) {"), ("    return operator[](i);", "    return (*this)[i < 0 ? i + static_cast<int>(size()) : i];")]),
 ("o-cg-at-mod", "bad:C12", CG, [("    if (i < 0) i += size();\n\n    // Check for bounds\n    if (i >= size() || i < 0) {", "    const int num = size();\n    if (i < 0 && num > 0) i = num - 1 - (-i - 1) % num;\n\n    if (i >= num || i < 0) {")]),
 ("o-cg-find-lambda", "good", CG, [(FINDL, "    const auto digit = [](const ContainerT& option, const auto& element) {\n      return std::find(option.begin(), option.end(), element) - option.begin();\n    };\n    for (size_t i = 0; i < combination.size(); i++) {\n      const typename iterator::ValueT& element = combination[i];\n      const ContainerT& option = *options_.at(i);\n"), ("      const auto it_element = std::find(option.begin(), option.end(), element);\n      if (it_element == option.end()) {", "      const size_t idx_element = digit(option, element);\n      if (idx_element == option.size()) {"), ("      // Get index of element\n      const size_t idx_element = it_element - option.begin();\n", "")]),
 ("o-cg-find-scan", "good", CG, [("      const auto it_element = std::find(option.begin(), option.end(), element);\n      if (it_element == option.end()) {", "      size_t idx_element = 0;\n      while (idx_element < option.size() && !(option[idx_element] == element)) {\n        idx_element++;\n      }\n      if (idx_element == option.size()) {"), ("      // Get index of element\n      const size_t idx_element = it_element - option.begin();\n", "")]),
 ("o-cg-find-scan-bad", "bad:C12", CG, [("      const auto it_element = std::find(option.begin(), option.end(), element);\n      if (it_element == option.end()) {", "      size_t idx_element = option.size();\n      for (size_t j = 0; j < option.size(); j++) {\n        if (option[j] == element || (j > 2 && idx_element == option.size())) idx_element = j;\n      }\n      if (idx_element == option.size()) {"), ("      // Get index of element\n      const size_t idx_element = it_element - option.begin();\n", "")]),
 ("o-cg-it-plus", "good", CG, [("  Iterator operator+(difference_type n) const {\n    Iterator temp = *this;\n    return temp += n;\n  }", "  Iterator operator+(difference_type n) const {\n    return Iterator(gen_, idx_ + n);\n  }")]),
 ("o-cg-it-gen", "good", CG, [("  bool operator!=(const Iterator& rhs) const { return !(*this == rhs); }", "  bool operator!=(const Iterator& rhs) const {\n    return gen_ != rhs.gen_ || idx_ != rhs.idx_;\n  }")]),
 ("o-cg-it-ne-bad", "bad:C12", CG, [("  bool operator!=(const Iterator& rhs) const { return !(*this == rhs); }", "  bool operator!=(const Iterator& rhs) const {\n    return gen_ != rhs.gen_ || idx_ < rhs.idx_;\n  }")]),
 ("o-cg-post", "good", CG, [("  Iterator operator++(int) {\n    Iterator it = *this;\n    operator++();\n    return it;\n  }", "  Iterator operator++(int) {\n    Iterator it(*this);\n    *this += 1;\n    return it;\n  }")]),
 ("o-cg-rev-minus", "good", CG, [("  difference_type operator-(const ReverseIterator& rhs) const {\n    return rhs.it_ - it_;\n  }", "  difference_type operator-(const ReverseIterator& rhs) const {\n    return -(it_ - rhs.it_);\n  }")]),
 ("o-cg-size-one", "bad:C12", CG, [("    if (options.empty()) return 1;\n    return options.front()->size() * size_groups.front();", "    if (options.empty()) return 1;\n    if (options.size() == 1) return size_groups.back();\n    return options.front()->size() * size_groups.front();")]),
 # state index
 ("o-si-it-cmp", "good", SH, [("    bool operator<=(const iterator& rhs) const {\n      return state_index_ == rhs.state_index_ && idx_ <= rhs.idx_;\n    }", "    bool operator<=(const iterator& rhs) const {\n      return *this < rhs || *this == rhs;\n    }")]),
 ("o-si-it-ge-bad", "good", SH, [("    bool operator>=(const iterator& rhs) const { return rhs <= *this; };\n\n    iterator& operator+=", "    bool operator>=(const iterator& rhs) const { return !(*this < rhs); };\n\n    iterator& operator+=")]),
 ("o-si-it-deref", "good", SH, [("    reference operator*() const {\n      prop_ = state_index_->GetProposition(idx_);\n      return prop_;\n    };", "    reference operator*() const { return *operator->(); };")]),
 ("o-si-find-try", "good", SC, [("  if (use_cache_ &&\n      cache_propositions_.find(idx_proposition) != cache_propositions_.end()) {\n    return cache_propositions_.at(idx_proposition);\n  }", "  if (use_cache_) {\n    const auto it_cache = cache_propositions_.find(idx_proposition);\n    if (it_cache != cache_propositions_.end()) return it_cache->second;\n  }")]),
 ("o-si-idx-helper", "good", SC, [("  const size_t idx_pred = idx_predicates_.at(prop.name());\n\n  // Get predicate\n  const Predicate& pred = predicates_[idx_pred];\n  const ParameterGenerator& param_gen = pred.parameter_generator();\n\n  // Get arguments\n  const size_t idx_args = param_gen.find(prop.arguments());\n\n  const size_t idx_proposition = idx_predicate_group_[idx_pred] + idx_args;\n\n  // Cache results\n  if (use_cache_) {\n    cache_idx_propositions_[prop.to_string()] = idx_proposition;\n  }\n  return idx_proposition;", "  const auto it_pred = idx_predicates_.find(prop.name());\n  if (it_pred == idx_predicates_.end()) {\n    throw std::out_of_range(\"StateIndex: unknown predicate \" + prop.name());\n  }\n  const size_t idx_proposition =\n      idx_predicate_group_[it_pred->second] +\n      predicates_[it_pred->second].parameter_generator().find(prop.arguments());\n  if (use_cache_) cache_idx_propositions_.emplace(prop.to_string(), idx_proposition);\n  return idx_proposition;")]),
 # propositions
 ("o-pr-ctor-deleg", "good", PR, [("              const std::vector<Object>& arguments)\n      : name_(name_predicate), arguments_(arguments) {\n    PrecomputeHash();\n  }", "              const std::vector<Object>& arguments)\n      : Proposition(name_predicate, std::vector<Object>(arguments)) {}")]),
 ("o-pr-copy-hash", "good", PR, [("  explicit Proposition(const PropositionBase& other)\n      : PropositionBase(other),\n        name_(other.name()),\n        arguments_(other.arguments()) {}", "  explicit Proposition(const PropositionBase& other)\n      : Proposition(other.name(), other.arguments()) {}")]),
 ("o-pr-parse-head", "good", PR, [("    return atom.substr(0, atom.find_first_of('('));", "    return atom.substr(0, atom.find('('));")]),
 ("o-pr-parse-head-last", "good", PR, [("    return atom.substr(0, atom.find_first_of('('));", "    return atom.substr(0, atom.find_last_of('('));")]),
 ("o-pr-lt-if", "good", PR, [("    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());", "    if (lhs.name() < rhs.name()) return true;\n    if (rhs.name() < lhs.name()) return false;\n    return lhs.arguments() < rhs.arguments();")]),
 ("o-pr-hash-idx", "good", PC, [("  for (const Object& arg : prop.arguments()) {\n    seed ^=", "  const std::vector<Object>& args = prop.arguments();\n  for (size_t i = 0; i < args.size(); i++) {\n    const Object& arg = args[i];\n    seed ^=")]),
 ("o-pr-str", "good", PC, [("  os << P.name() << \"(\";\n  std::string separator;\n  for (const Object& arg : P.arguments()) {\n    os << separator << arg;\n    if (separator.empty()) separator = \", \";\n  }\n  os << \")\";", "  os << P.name() << \"(\";\n  bool first = true;\n  for (const Object& arg : P.arguments()) {\n    if (!first) os << \", \";\n    first = false;\n    os << arg;\n  }\n  os << \")\";")]),
 ("o-pr-str-ternary", "good", PC, [("  std::string separator;\n  for (const Object& arg : P.arguments()) {\n    os << separator << arg;\n    if (separator.empty()) separator = \", \";\n  }\n  os << \")\";", "  const std::vector<Object>& args = P.arguments();\n  for (auto it = args.begin(); it != args.end(); ++it) {\n    os << (it == args.begin() ? \"\" : \", \") << *it;\n  }\n  os << \")\";")]),
 ("o-pr-pddl-bad", "bad:C19", PC, [("  ss << \"(\" << name();\n  for (const Object& arg : arguments()) {\n    ss << \" \" << arg;\n  }\n  ss << \")\";", "  ss << \"(\" << name();\n  std::string prev;\n  for (const Object& arg : arguments()) {\n    if (arg.name() == prev) continue;\n    ss << \" \" << arg;\n    prev = arg.name();\n  }\n  ss << \")\";")]),
 # planner
 ("o-pl-visited", "good", PL, [("    const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =\n        it.child_->ancestors_;\n    if (ancestors->count(it.child_) == 0) return it;", "    const auto& ancestors = *it.child_->ancestors_;\n    if (ancestors.find(it.child_) == ancestors.end()) return it;", 0)]),
 ("o-pl-bool", "good", PL, [("  return impl_->pddl_.goal()(impl_->state_);", "  const Formula& goal = impl_->pddl_.goal();\n  return goal(state());")]),
 ("o-pl-init", "good", PL, [("    auto ancestors =\n        std::make_shared<Planner::Node::NodeImpl::Cache>(*parent->ancestors_);\n    ancestors->insert(parent);", "    auto ancestors = std::make_shared<Planner::Node::NodeImpl::Cache>();\n    ancestors->insert(parent->ancestors_->begin(), parent->ancestors_->end());\n    ancestors->emplace(parent);")]),
 ("o-pl-init-copyloop", "good", PL, [("    auto ancestors =\n        std::make_shared<Planner::Node::NodeImpl::Cache>(*parent->ancestors_);\n    ancestors->insert(parent);", "    auto ancestors = std::make_shared<Planner::Node::NodeImpl::Cache>();\n    for (const Node& ancestor : *parent->ancestors_) ancestors->insert(ancestor);\n    ancestors->insert(parent);")]),
 ("o-pl-init-depth", "bad:C10", PL, [("    auto ancestors =\n        std::make_shared<Planner::Node::NodeImpl::Cache>(*parent->ancestors_);\n    ancestors->insert(parent);", "    auto ancestors = std::make_shared<Planner::Node::NodeImpl::Cache>();\n    for (const Node& ancestor : *parent->ancestors_) {\n      if (ancestor.depth() > 0 || parent.depth() < 3) ancestors->insert(ancestor);\n    }\n    ancestors->insert(parent);")]),
 ("o-pl-eq", "good", PL, [("  return impl_->state_ == rhs->state_;", "  return impl_ == rhs.impl_ || impl_->state_ == rhs->state_;")]),
 ("o-pl-eq-bad", "bad:C04,C10", PL, [("  return impl_->state_ == rhs->state_;", "  return impl_->state_ == rhs->state_ && impl_->ancestors_ == rhs->ancestors_;")]),
 # python
 ("o-py-and-empty", "bad:C20", PY, [('    return create_group("and", formulas)', '    return create_group("and", formulas) if formulas else "(and )"')]),
 ("o-py-when-kw", "good", PY, [('    return create_group("when", (condition, implies))', '    return create_group("when", [condition, implies])')]),
 ("o-py-when-flip", "bad:C20", PY, [('    return create_group("when", (condition, implies))', '    return create_group("when", sorted((condition, implies), key=lambda f: not isinstance(f, str)))')]),
 ("o-py-repr", "good", PY, [('        return f"{self.name} - {self.type}" if self.type else self.name', '        if not self.type:\n            return self.name\n        return " - ".join((self.name, self.type))')]),
 ("o-py-pprint-else", "good", PY, [('    if isinstance(strings, str):\n        return "\\t" * (indent - 1) + strings + "\\n"\n    return "".join(pprint_formula(s, indent + 1) for s in strings)', '    if not isinstance(strings, str):\n        return "".join([pprint_formula(s, indent + 1) for s in strings])\n    return "\\t" * (indent - 1) + strings + "\\n"')]),
 ("o-py-regex", "good", PY, [('    matches = re.match(r"([^\\(]*)\\(([^\\)]*)", str_prop)', '    matches = re.match(r"([^(]*)\\(([^)]*)", str_prop)')]),
 ("o-py-regex-compiled", "good", PY, [('    import re\n\n    matches = re.match(r"([^\\(]*)\\(([^\\)]*)", str_prop)', '    import re\n\n    pattern = re.compile(r"([^\\(]*)\\(([^\\)]*)")\n    matches = pattern.match(str_prop)')]),
 ("o-py-partition", "good", PY, [('    import re\n\n    matches = re.match(r"([^\\(]*)\\([^\\)]*", str_prop)\n    if matches is None:\n        raise ValueError(f"Unable to parse proposition from \'{str_prop}\'.")\n    name_pred = matches.group(1)\n    return name_pred', '    if "(" not in str_prop:\n        raise ValueError(f"Unable to parse proposition from \'{str_prop}\'.")\n    return str_prop.split("(")[0]')]),
 ("o-py-partition-r", "bad:C20", PY, [('    import re\n\n    matches = re.match(r"([^\\(]*)\\([^\\)]*", str_prop)\n    if matches is None:\n        raise ValueError(f"Unable to parse proposition from \'{str_prop}\'.")\n    name_pred = matches.group(1)\n    return name_pred', '    head, sep, _ = str_prop.rpartition("(")\n    if not sep:\n        raise ValueError(f"Unable to parse proposition from \'{str_prop}\'.")\n    return head')]),
 ("o-py-extend", "good", PY, [('        for prop in state:\n            self.add_initial_prop(prop)', '        for prop in sorted(state):\n            self.add_initial_prop(prop)')]),
 ("o-py-extend-raw", "bad:C20", PY, [('        for prop in state:\n            self.add_initial_prop(prop)', '        self._initial_state.extend(state)')]),
 ("o-py-goal", "good", PY, [('        if isinstance(self._goal, str):\n            return [create_inline_group(":goal", self._goal)]\n        return create_group(":goal", self._goal)', '        goal = self._goal\n        return (\n            [create_inline_group(":goal", goal)]\n            if isinstance(goal, str)\n            else create_group(":goal", goal)\n        )')]),
 ('o-py-args-part', 'good', PY, [('    import re\n\n    matches = re.match(r"[^\\(]*\\(([^\\)]*)", str_prop)\n    if matches is None:\n        raise ValueError(f"Unable to parse objects from \'{str_prop}\'.")\n    str_args = matches.group(1).replace(" ", "")\n', '    _, paren, rest = str_prop.partition("(")\n    if not paren:\n        raise ValueError(f"Unable to parse objects from \'{str_prop}\'.")\n    str_args = rest.partition(")")[0].replace(" ", "")\n')]),
 ('o-py-args-part-bad', 'bad:C20', PY, [('    import re\n\n    matches = re.match(r"[^\\(]*\\(([^\\)]*)", str_prop)\n    if matches is None:\n        raise ValueError(f"Unable to parse objects from \'{str_prop}\'.")\n    str_args = matches.group(1).replace(" ", "")\n', '    _, paren, rest = str_prop.partition("(")\n    if not paren:\n        raise ValueError(f"Unable to parse objects from \'{str_prop}\'.")\n    str_args = rest.rpartition(")")[0].replace(" ", "")\n')]),
 ('o-py-args-part-bad2', 'bad:C20', PY, [('    import re\n\n    matches = re.match(r"[^\\(]*\\(([^\\)]*)", str_prop)\n    if matches is None:\n        raise ValueError(f"Unable to parse objects from \'{str_prop}\'.")\n    str_args = matches.group(1).replace(" ", "")\n', '    _, paren, rest = str_prop.partition("(")\n    if not paren:\n        raise ValueError(f"Unable to parse objects from \'{str_prop}\'.")\n    str_args = rest.rstrip(")").replace(" ", "")\n')]),
 ('o-py-args-part-bad3', 'bad:C20', PY, [('    import re\n\n    matches = re.match(r"[^\\(]*\\(([^\\)]*)", str_prop)\n    if matches is None:\n        raise ValueError(f"Unable to parse objects from \'{str_prop}\'.")\n    str_args = matches.group(1).replace(" ", "")\n', '    _, paren, rest = str_prop.partition("(")\n    str_args = rest.partition(")")[0].replace(" ", "")\n')]),
]
