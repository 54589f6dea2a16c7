UV = "include/symbolic/utils/unique_vector.h"
HS = "include/symbolic/utils/hash_set.h"
ST = "include/symbolic/state.h"
SC = "src/state.cc"
EDITS = [
 ("uv-upper", "bad:C01", UV, [("const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  return", "const auto it = std::upper_bound(Base::begin(), Base::end(), val);\n  return")]),
 ("uv-noend", "bad:C01", UV, [("return it != Base::end() && *it == val;", "return *it == val;")]),
 ("uv-insdup", "bad:C01", UV, [("if (it != Base::end() && *it == val) return false;\n\n  Base::insert", "if (it != Base::end() && val < *it) return false;\n\n  Base::insert")]),
 ("uv-push", "bad:C01", UV, [("Base::insert(it, std::move(val));", "Base::push_back(std::move(val));")]),
 ("uv-erase-rest", "bad:C01", UV, [("Base::erase(it);\n", "Base::erase(it, Base::end());\n")]),
 ("uv-erase-ret", "bad:C01", UV, [("Base::erase(it);\n  return true;", "Base::erase(it);\n  return !Base::empty();")]),
 ("uv-ctor-nosort", "bad:C01", UV, [("  std::sort(Base::begin(), Base::end());\n", "")]),
 ("uv-ctor-nouniq", "bad:C01", UV, [("  Base::erase(last, Base::end());\n", "")]),
 ("hs-rehash-late", "bad:C01,C02", HS, [("      size_--;\n      if (size() <= LowerBound()) Rehash(LowerBound());", "      if (size() <= LowerBound()) Rehash(LowerBound());\n      size_--;")]),
 ("hs-lower", "bad:C02", HS, [("if (size() <= LowerBound()) Rehash(LowerBound());", "if (size() < LowerBound()) Rehash(LowerBound());")]),
 ("hs-upper", "bad:C02", HS, [("return 2 * buckets_.size() + 1;", "return 2 * buckets_.size() + 3;")]),
 ("hs-upper-one", "bad:C02", HS, [("if (size() > buckets_.size()) Rehash(UpperBound());", "if (size() >= buckets_.size()) Rehash(UpperBound());", 1)]),
 ("hs-noshrink", "bad:C02", HS, [("      if (size() <= LowerBound()) Rehash(LowerBound());\n", "")]),
 ("hs-nogrow-move", "bad:C02", HS, [("      if (size() > buckets_.size()) Rehash(UpperBound());\n    }\n    return inserted;\n  }\n\n  template", "    }\n    return inserted;\n  }\n\n  template")]),
 ("hs-lb2", "bad:C02", HS, [("(static_cast<int>(buckets_.size()) - 1) / 2", "static_cast<int>(buckets_.size()) / 2 - 1")]),
 ("hs-count", "bad:C01", HS, [("    if (erased) {\n      size_--;", "    if (erased) {\n      if (size_ > 1) size_--;")]),
 ("hs-count2", "bad:C01", HS, [("const bool inserted = GetBucket(element).insert(std::move(element));\n    if (inserted) {\n      size_++;", "const bool inserted = GetBucket(element).insert(std::move(element));\n    size_++;\n    if (inserted) {")]),
 ("hs-rehash-drop", "bad:C01", HS, [("        GetBucket(element).insert(std::move(element));", "        if (&element != &bucket.front() || bucket.size() == 1) GetBucket(element).insert(std::move(element));")]),
 ("hs-rehash-break", "bad:C01", HS, [("for (UniqueVector<T>& bucket : old_buckets) {", "for (UniqueVector<T>& bucket : old_buckets) {\n      if (bucket.empty()) break;")]),
 ("hs-bucket-const", "bad:C01", HS, [("const size_t idx_bucket = std::hash<T_query>{}(element) % buckets_.size();", "const size_t idx_bucket = (std::hash<T_query>{}(element) >> 1) % buckets_.size();", 1)]),
 ("it-next-if", "bad:C01", HS, [("while (idx_in_bucket_ >= bucket->size()) {", "if (idx_in_bucket_ >= bucket->size()) {", 0)]),
 ("it-next-gt", "bad:C01", HS, [("while (idx_in_bucket_ >= bucket->size()) {", "while (idx_in_bucket_ > bucket->size()) {", 1)]),
 ("it-prev-start", "bad:C01", HS, [("idx_in_bucket_ = bucket.size() - 1;", "idx_in_bucket_ = 0;", 0)]),
 ("it-eq", "bad:C01", HS, [("return idx_bucket_ == rhs.idx_bucket_ &&\n             idx_in_bucket_ == rhs.idx_in_bucket_;", "return idx_bucket_ == rhs.idx_bucket_;", 0)]),
 ("hs-begin", "bad:C01", HS, [("    const_iterator it(buckets_, 0, 0);\n    it.FindNextElement();", "    const_iterator it(buckets_, 0, 0);\n    if (!empty() && buckets_.size() > 1) it.FindNextElement();")]),
 ("hs-eqsize", "bad:C02", HS, [("return lhs.buckets_ == rhs.buckets_;", "return lhs.size_ == rhs.size_ && std::equal(lhs.buckets_.begin(), lhs.buckets_.end(), rhs.buckets_.begin());")]),
 ("st-range", "bad:C01", ST, [("is_changed |= insert(*it);", "is_changed = insert(*it);")]),
 ("st-range-short", "bad:C01", ST, [("is_changed |= insert(*it);", "is_changed = is_changed || insert(*it);")]),
 ("st-hash-size", "bad:C02", SC, [("  size_t seed = 0;\n  for (const ::symbolic::Prop", "  size_t seed = reinterpret_cast<size_t>(&state);\n  for (const ::symbolic::Prop")]),
 ("ps-eq", "bad:C02", ST, [("return lhs.pos_ == rhs.pos_ && lhs.neg_ == rhs.neg_;", "return lhs.pos_ == rhs.pos_ && lhs.neg_.size() == rhs.neg_.size();")]),
 ("ps-neq", "bad:C02", ST, [("return lhs.pos_ != rhs.pos_ || lhs.neg_ != rhs.neg_;", "return lhs.pos_ != rhs.pos_ && lhs.neg_ != rhs.neg_;")]),
 # behaviour-preserving
 ("g-uv-helper", "good", UV, [("  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  return it != Base::end() && *it == val;", "  const auto it = LowerBound(val);\n  return it != Base::end() && !(*it != val);"),
     (" private:\n  using Base = std::vector<T>;", " private:\n  using Base = std::vector<T>;\n  template <typename Q>\n  typename Base::const_iterator LowerBound(const Q& val) const {\n    return std::lower_bound(this->begin(), this->end(), val);\n  }")]),
 ("g-uv-loop", "good", UV, [("  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  return it != Base::end() && *it == val;", "  auto it = Base::begin();\n  while (it != Base::end() && *it < val) ++it;\n  return it != Base::end() && *it == val;")]),
 ("g-uv-nest", "good", UV, [("  if (it == Base::end() || *it != val) return false;\n  Base::erase(it);\n  return true;", "  if (it != Base::end()) {\n    if (*it == val) {\n      Base::erase(it);\n      return true;\n    }\n  }\n  return false;")]),
 ("g-hs-early", "good", HS, [("    if (erased) {\n      size_--;\n      if (size() <= LowerBound()) Rehash(LowerBound());\n    }\n    return erased;", "    if (!erased) return false;\n    --size_;\n    const size_t lower = LowerBound();\n    if (size_ <= lower) Rehash(lower);\n    return true;")]),
 ("g-hs-helper", "good", HS, [("    if (inserted) {\n      size_++;\n      if (size() > buckets_.size()) Rehash(UpperBound());\n    }\n    return inserted;", "    if (inserted) OnInsert();\n    return inserted;", "all"), (" private:\n  size_t UpperBound", " private:\n  void OnInsert() {\n    ++size_;\n    if (buckets_.size() < size_) Rehash(UpperBound());\n  }\n  size_t UpperBound")]),
 ("g-hs-rehash-idx", "good", HS, [("    for (UniqueVector<T>& bucket : old_buckets) {\n      // Move elements from old bucket.\n      for (T& element : bucket) {\n        GetBucket(element).insert(std::move(element));\n      }\n    }", "    for (size_t i = 0; i < old_buckets.size(); i++) {\n      for (size_t j = 0; j < old_buckets[i].size(); j++) {\n        T& element = old_buckets[i][j];\n        GetBucket(element).insert(std::move(element));\n      }\n    }")]),
 ("g-hs-rehash-new", "good", HS, [("    std::vector<UniqueVector<T>> old_buckets(num_buckets);\n    std::swap(buckets_, old_buckets);", "    std::vector<UniqueVector<T>> old_buckets = std::move(buckets_);\n    buckets_ = std::vector<UniqueVector<T>>(num_buckets);")]),
 ("g-hs-rehash-fresh", "good", HS, [("    std::vector<UniqueVector<T>> old_buckets(num_buckets);\n    std::swap(buckets_, old_buckets);", "    std::vector<UniqueVector<T>> buckets(num_buckets);"),("    for (UniqueVector<T>& bucket : old_buckets) {\n      // Move elements from old bucket.\n      for (T& element : bucket) {\n        GetBucket(element).insert(std::move(element));\n      }\n    }", "    for (UniqueVector<T>& bucket : buckets_) {\n      for (T& element : bucket) {\n        const size_t idx = std::hash<T>{}(element) % num_buckets;\n        buckets[idx].insert(std::move(element));\n      }\n    }\n    buckets_ = std::move(buckets);")]),
 ("g-hs-idx", "good", HS, [("    const size_t idx_bucket = std::hash<T_query>{}(element) % buckets_.size();\n    return buckets_[idx_bucket];", "    return buckets_[BucketIndex(element)];", "all"), (" private:\n  size_t UpperBound", " private:\n  template <typename Q>\n  size_t BucketIndex(const Q& q) const { return std::hash<Q>{}(q) % bucket_count(); }\n  size_t UpperBound")]),
 ("g-it-for", "good", HS, [("      const UniqueVector<T>* bucket = &(*buckets_)[idx_bucket_];\n      while (idx_in_bucket_ >= bucket->size()) {\n        idx_bucket_++;\n        idx_in_bucket_ = 0;\n        if (idx_bucket_ == buckets_->size()) return;\n        bucket = &(*buckets_)[idx_bucket_];\n      }", "      while (idx_bucket_ < buckets_->size() &&\n             idx_in_bucket_ >= (*buckets_)[idx_bucket_].size()) {\n        idx_bucket_++;\n        idx_in_bucket_ = 0;\n      }", "all")]),
 ("g-it-forever", "good", HS, [("      const UniqueVector<T>* bucket = &(*buckets_)[idx_bucket_];\n      while (idx_in_bucket_ >= bucket->size()) {\n        idx_bucket_++;\n        idx_in_bucket_ = 0;\n        if (idx_bucket_ == buckets_->size()) return;\n        bucket = &(*buckets_)[idx_bucket_];\n      }", "      for (;;) {\n        if (idx_in_bucket_ < (*buckets_)[idx_bucket_].size()) return;\n        idx_in_bucket_ = 0;\n        if (++idx_bucket_ == buckets_->size()) return;\n      }", "all")]),
 ("g-it-prev", "good", HS, [("      while (idx_in_bucket_ < 0) {\n        idx_bucket_--;\n        if (idx_bucket_ < 0) return;\n        const UniqueVector<T>& bucket = (*buckets_)[idx_bucket_];\n        idx_in_bucket_ = bucket.size() - 1;\n      }", "      for (; idx_in_bucket_ < 0;) {\n        if (--idx_bucket_ < 0) break;\n        idx_in_bucket_ = static_cast<int>((*buckets_)[idx_bucket_].size()) - 1;\n      }", "all")]),
 ("g-st-range", "good", ST, [("  for (InputIt it = first; it != last; ++it) {\n    is_changed |= insert(*it);\n  }", "  while (first != last) {\n    const bool changed = insert(*first);\n    if (changed) is_changed = true;\n    ++first;\n  }")]),
 ("g-st-hash", "good", SC, [("  size_t seed = 0;\n  for (const ::symbolic::Proposition& prop : state) {\n    seed ^=", "  size_t seed = 0;\n  for (auto it = state.begin(); it != state.end(); ++it) {\n    const ::symbolic::Proposition& prop = *it;\n    seed ^=")]),
 ("g-eq", "good", HS, [("return lhs.buckets_ == rhs.buckets_;", "if (lhs.size_ != rhs.size_) return false;\n    return std::equal(lhs.buckets_.begin(), lhs.buckets_.end(), rhs.buckets_.begin(), rhs.buckets_.end());")]),
 ("g-ps-eq", "good", ST, [("return lhs.pos_ != rhs.pos_ || lhs.neg_ != rhs.neg_;", "return !(lhs == rhs);")]),
 ("g-copy", "good", HS, [(" private:\n  size_t UpperBound", "  HashSet(const HashSet& o) : buckets_(o.buckets_), size_(o.size_) {}\n  HashSet& operator=(const HashSet& o) {\n    if (this != &o) {\n      size_ = o.size_;\n      buckets_ = o.buckets_;\n    }\n    return *this;\n  }\n private:\n  size_t UpperBound")]),
 ("copy-size", "bad:C01", HS, [(" private:\n  size_t UpperBound", "  HashSet(const HashSet& o) : buckets_(o.buckets_) {}\n  HashSet& operator=(const HashSet& o) {\n    buckets_ = o.buckets_;\n    return *this;\n  }\n private:\n  size_t UpperBound")]),
]
