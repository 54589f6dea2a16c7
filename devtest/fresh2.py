HS = "include/symbolic/utils/hash_set.h"
UV = "include/symbolic/utils/unique_vector.h"
PR = "include/symbolic/proposition.h"
PC = "src/proposition.cc"
OB = "include/symbolic/object.h"
SC = "src/state.cc"
CG = "include/symbolic/utils/combination_generator.h"
PG = "src/utils/parameter_generator.cc"
PL = "src/planning/planner.cc"
BF = "include/symbolic/planning/breadth_first_search.h"
DF = "include/symbolic/planning/depth_first_search.h"
AS = "include/symbolic/planning/a_star.h"
PY = "symbolic/problem.py"
EDITS = [
 # --- sets
 ("h-hs-stale", "bad:C01", HS, [("    const bool inserted = GetBucket(element).insert(element);\n    if (inserted) {\n      size_++;\n      if (size() > buckets_.size()) Rehash(UpperBound());\n    }\n    return inserted;", "    UniqueVector<T>& bucket = GetBucket(element);\n    if (bucket.contains(element)) return false;\n    size_++;\n    if (size() > buckets_.size()) Rehash(UpperBound());\n    return bucket.insert(element);")]),
 ("h-hs-reserve-first", "good", HS, [("    const bool inserted = GetBucket(element).insert(element);\n    if (inserted) {\n      size_++;\n      if (size() > buckets_.size()) Rehash(UpperBound());\n    }\n    return inserted;", "    if (GetBucket(element).contains(element)) return false;\n    size_++;\n    if (size() > buckets_.size()) Rehash(UpperBound());\n    return GetBucket(element).insert(element);")]),
 ("h-hs-newbuckets", "bad:C01", HS, [("    std::vector<UniqueVector<T>> old_buckets(num_buckets);\n    std::swap(buckets_, old_buckets);\n\n    // Iterate over old buckets.\n    for (UniqueVector<T>& bucket : old_buckets) {\n      // Move elements from old bucket.\n      for (T& element : bucket) {\n        GetBucket(element).insert(std::move(element));\n      }\n    }\n", "    std::vector<UniqueVector<T>> new_buckets(num_buckets);\n    for (UniqueVector<T>& bucket : buckets_) {\n      for (T& element : bucket) {\n        const size_t idx = std::hash<T>{}(element) % buckets_.size();\n        new_buckets[idx % num_buckets].insert(std::move(element));\n      }\n    }\n    buckets_ = std::move(new_buckets);\n")]),
 ("h-hs-newbuckets-ok", "good", HS, [("    std::vector<UniqueVector<T>> old_buckets(num_buckets);\n    std::swap(buckets_, old_buckets);\n\n    // Iterate over old buckets.\n    for (UniqueVector<T>& bucket : old_buckets) {\n      // Move elements from old bucket.\n      for (T& element : bucket) {\n        GetBucket(element).insert(std::move(element));\n      }\n    }\n", "    std::vector<UniqueVector<T>> new_buckets(num_buckets);\n    for (UniqueVector<T>& bucket : buckets_) {\n      for (T& element : bucket) {\n        const size_t idx = std::hash<T>{}(element) % num_buckets;\n        new_buckets[idx].insert(std::move(element));\n      }\n    }\n    buckets_ = std::move(new_buckets);\n")]),
 ("h-hs-eq-iter", "bad:C02,C04", HS, [("    return lhs.buckets_ == rhs.buckets_;", "    return std::equal(lhs.begin(), lhs.end(), rhs.begin());")]),
 ("h-hs-eq-size", "good", HS, [("    return lhs.buckets_ == rhs.buckets_;", "    return lhs.size() == rhs.size() && lhs.buckets_ == rhs.buckets_;")]),
 ("h-hs-eq-subset", "bad:C02,C04", HS, [("    return lhs.buckets_ == rhs.buckets_;", "    if (lhs.buckets_.size() != rhs.buckets_.size()) return false;\n    for (const T& element : lhs) {\n      if (!rhs.contains(element)) return false;\n    }\n    return true;")]),
 ("h-hs-eq-subset-ok", "good", HS, [("    return lhs.buckets_ == rhs.buckets_;", "    if (lhs.size() != rhs.size()) return false;\n    for (const T& element : lhs) {\n      if (!rhs.contains(element)) return false;\n    }\n    return true;")]),
 ("h-hs-lt-size", "good", HS, [("    return lhs.buckets_ < rhs.buckets_;", "    if (lhs.size() != rhs.size()) return lhs.size() < rhs.size();\n    return lhs.buckets_ < rhs.buckets_;")]),
 ("h-hs-lt-lex", "good", HS, [("    return lhs.buckets_ < rhs.buckets_;", "    return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(),\n                                        rhs.end());")]),
 ("h-hs-lower", "bad:C01,C02", HS, [("      if (size() <= LowerBound()) Rehash(LowerBound());", "      if (size() < LowerBound()) Rehash(LowerBound());")]),
 ("h-hs-erase-bucket", "good", HS, [("    const bool erased = GetBucket(element).erase(element);\n    if (erased) {\n      size_--;\n      if (size() <= LowerBound()) Rehash(LowerBound());\n    }\n    return erased;", "    if (empty() || !GetBucket(element).erase(element)) return false;\n    --size_;\n    if (size() <= LowerBound()) Rehash(LowerBound());\n    return true;")]),
 # --- propositions
 ("h-pr-sign-hash", "bad:C03", PR, [("template <>\nstruct hash<symbolic::PropositionRef> {", "template <>\nstruct hash<symbolic::SignedProposition> {\n  size_t operator()(const symbolic::SignedProposition& prop) const noexcept {\n    return prop.hash() ^ static_cast<size_t>(prop.is_pos());\n  }\n};\n\ntemplate <>\nstruct hash<symbolic::PropositionRef> {")]),
 ("h-pr-empty-hash", "bad:C03", PC, [("  return Hash(prop, std::hash<std::string>{}(prop.name()));", "  if (prop.arguments().empty()) return 0;\n  return Hash(prop, std::hash<std::string>{}(prop.name()));")]),
 ("h-pr-empty-hash-ok", "good", PC, [("  size_t seed = predicate_hash;\n", "  size_t seed = predicate_hash;\n  if (prop.arguments().empty()) return seed;\n")]),
 ("h-pr-copy", "good", PR, [("        arguments_(other.arguments()) {}\n\n  const std::string& name() const override { return name_; }", "        arguments_(other.arguments()) {\n    PrecomputeHash();\n  }\n\n  const std::string& name() const override { return name_; }")]),
 ("h-pr-eq-hash", "bad:C03,C04", PR, [("    return std::tie(lhs.hash_, lhs.name(), lhs.arguments()) ==\n           std::tie(rhs.hash_, rhs.name(), rhs.arguments());", "    return lhs.hash_ == rhs.hash_ && lhs.name() == rhs.name() &&\n           lhs.arguments().size() == rhs.arguments().size();")]),
 ("h-pr-eq-first", "good", PR, [("    return std::tie(lhs.hash_, lhs.name(), lhs.arguments()) ==\n           std::tie(rhs.hash_, rhs.name(), rhs.arguments());", "    if (&lhs == &rhs) return true;\n    if (lhs.hash_ != rhs.hash_) return false;\n    return lhs.name() == rhs.name() && lhs.arguments() == rhs.arguments();")]),
 ("h-pr-lt-hash", "good", PR, [("    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());", "    return std::tie(lhs.hash_, lhs.name(), lhs.arguments()) <\n           std::tie(rhs.hash_, rhs.name(), rhs.arguments());")]),
 ("h-pr-lt-hash-only", "bad:C04", PR, [("    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());", "    return lhs.hash_ < rhs.hash_;")]),
 ("h-pr-lt-compare", "good", PR, [("    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());", "    const int order = lhs.name().compare(rhs.name());\n    if (order != 0) return order < 0;\n    return lhs.arguments() < rhs.arguments();")]),
 ("h-pr-lt-compare-bad", "bad:C04", PR, [("    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());", "    const int order = lhs.name().compare(rhs.name());\n    if (order < 0) return true;\n    return lhs.arguments() < rhs.arguments();")]),
 ("h-pr-sep", "bad:C19", PC, [("    if (separator.empty()) separator = \", \";", "    if (separator.empty()) separator = P.arguments().size() > 2 ? \",\" : \", \";")]),
 # --- python
 ("h-py-strip", "bad:C20", PY, [('    str_args = matches.group(1).replace(" ", "")\n    return str_args.split(",") if str_args else []', '    return [arg.strip() for arg in matches.group(1).split(",")]')]),
 ("h-py-strip-ok", "good", PY, [('    str_args = matches.group(2).replace(" ", "")\n    return name_pred, str_args.split(",") if str_args else []', '    str_args = matches.group(2).replace(" ", "")\n    if not str_args:\n        return name_pred, []\n    return name_pred, str_args.split(",")')]),
 ("h-py-greedy", "bad:C20", PY, [('r"([^\\(]*)\\(([^\\)]*)", str_prop', 'r"([^\\(]*)\\((.*)\\)", str_prop')]),
 ("h-py-rstrip", "bad:C20", PY, [('    matches = re.match(r"([^\\(]*)\\([^\\)]*", str_prop)', '    matches = re.match(r"(\\w*)\\([^\\)]*", str_prop)')]),
 ("h-py-when", "bad:C20", PY, [('create_group("when", (condition, implies))', 'create_group("when", [condition] + list(implies))')]),
 ("h-py-sort", "good", PY, [("key=lambda obj: not obj.type)", "key=lambda obj: obj.type, reverse=True)")]),
 ("h-py-sort-partition", "good", PY, [("        objects = sorted(self._objects, key=lambda obj: not obj.type)\n", "        typed = [obj for obj in self._objects if obj.type]\n        objects = typed + [obj for obj in self._objects if not obj.type]\n")]),
 ("h-py-mutable", "bad:C20", PY, [('    def __init__(self, name: str, domain: str = ""):\n        self._name = name\n        self._domain = domain\n\n        self._objects: List[Object] = []\n', '    def __init__(self, name: str, domain: str = "", objects: List[Object] = []):\n        self._name = name\n        self._domain = domain\n\n        self._objects = objects\n')]),
 ("h-py-dedupe", "bad:C20", PY, [("        self._initial_state.append(prop)", "        if prop.lower() not in self._initial_state:\n            self._initial_state.append(prop)")]),
 ("h-py-not", "bad:C20", PY, [('    if isinstance(formulas, str):\n        return create_inline_group("not", formulas)\n    return create_group("not", formulas)', '    if isinstance(formulas, str):\n        return create_inline_group("not", formulas)\n    return create_group("not", formulas[-1:])')]),
 ("h-py-and-flat", "bad:C20", PY, [('    return create_group("or", formulas)', '    return formulas[0] if len(formulas) == 1 and not formulas[0] else create_group("or", sorted(formulas, key=str))')]),
 ("h-py-indent", "good", PY, [('        return "\\t" * (indent - 1) + strings + "\\n"', '        prefix = "\\t" * (indent - 1)\n        return f"{prefix}{strings}\\n"')]),
 ("h-py-forall-var", "bad:C20", PY, [('    var_obj = Object(f"?{var}", var_type)\n    return create_group(f"exists', '    var_obj = Object(f"?{var.lstrip(\'?\')}", var_type.lower())\n    return create_group(f"exists')]),
 ("h-py-p", "bad:C20", PY, [('    return create_inline_group(predicate, " ".join(arguments))', '    return create_inline_group(predicate, " ".join(filter(None, dict.fromkeys(arguments))))')]),
 # --- searches
 ("h-bf-timeout", "bad:C11", BF, [("      std::queue<std::pair<NodeT, std::shared_ptr<std::vector<NodeT>>>> empty;\n      std::swap(queue_, empty);\n      break;", "      return *this;")]),
 ("h-bf-share", "bad:C11", BF, [("    ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);\n", "    ancestors_ = front.second.use_count() > 2\n                     ? std::make_shared<std::vector<NodeT>>(*front.second)\n                     : front.second;\n")]),
 ("h-df-rev", "good", DF, [("      stack_.emplace(child, ancestors_);", "      stack_.push({child, ancestors_});")]),
 ("h-as-copy", "good", AS, [("    ancestors_.swap(top.ancestors);\n    ancestors_.push_back(std::move(top.node));\n    queue_.pop();", "    queue_.pop();\n    ancestors_ = std::move(top.ancestors);\n    ancestors_.push_back(std::move(top.node));")]),
 ("h-as-goal-child", "bad:C11", AS, [("    for (const NodeT& child : node) {\n      queue_.emplace(child, ancestors_);", "    for (const NodeT& child : node) {\n      if (child && ancestors_.size() == kMaxDepth) continue;\n      queue_.emplace(child, ancestors_);")]),
 # --- generators
 ("h-cg-lt", "bad:C12", CG, [("    return gen_ == rhs.gen_ && idx_ <= rhs.idx_;", "    return gen_ == rhs.gen_ && combination_ <= rhs.combination_;")]),
 ("h-cg-resize", "bad:C12", CG, [("    if (combination_.empty()) combination_.resize(num_options);", "    combination_.reserve(num_options);\n    if (combination_.size() != num_options && idx_ == 0) combination_.resize(num_options);")]),
 ("h-cg-divmod", "good", CG, [("      int idx_i = remaining / gen_->size_groups_[i];\n      remaining -= idx_i * gen_->size_groups_[i];\n\n      // Set the value\n      combination_[i] = gen_->options_[i]->at(idx_i);\n    }\n    assert(remaining == 0);", "      const int idx_i = remaining / gen_->size_groups_[i];\n      remaining %= gen_->size_groups_[i];\n\n      // Set the value\n      combination_[i] = gen_->options_[i]->at(idx_i);\n    }\n    assert(remaining == 0);")]),
 ("h-cg-empty", "bad:C12", CG, [("      if (options[i]->begin() == options[i]->end()) {", "      if (i > 0 && options[i]->begin() == options[i]->end()) {")]),
 ("h-pg-types", "bad:C13", PG, [("      types.push_back(object_map.at(param.type().name()));", "      const std::vector<Object>& objects = object_map.at(param.type().name());\n      if (objects.empty()) continue;\n      types.push_back(objects);")]),
 ("h-pg-cache", "bad:C13", PG, [("  param_types_ = rhs.param_types_;\n", "  if (param_types_.size() != rhs.param_types_.size()) param_types_ = rhs.param_types_;\n")]),
 ("h-pg-nothrow", "good", PG, [("    try {\n      types.push_back(object_map.at(param.type().name()));\n    } catch (...) {", "    const auto it = object_map.find(param.type().name());\n    if (it != object_map.end()) {\n      types.push_back(it->second);\n    } else {")]),
 # --- planner
 ("h-pl-goal", "bad:C10", PL, [("Planner::Node::operator bool() const {\n", "Planner::Node::operator bool() const {\n  if (depth() == 0 && impl_->pddl_.actions().empty()) return false;\n")]),
 ("h-pl-eq", "bad:C04", PL, [("bool Planner::Node::operator==(const Node& rhs) const {\n", "bool Planner::Node::operator==(const Node& rhs) const {\n  if (depth() != rhs.depth()) return false;\n")]),
 ("h-pl-eq-ok", "good", PL, [("bool Planner::Node::operator==(const Node& rhs) const {\n", "bool Planner::Node::operator==(const Node& rhs) const {\n  if (impl_ == rhs.impl_) return true;\n")]),
]
