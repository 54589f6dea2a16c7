CG = "include/symbolic/utils/combination_generator.h"
EDITS = [
 ("cg-at-neg", "bad:C12", CG, [("if (i < 0) i += size();", "if (i < 0) i += size() - 1;")]),
 ("cg-at-bound", "bad:C12", CG, [("if (i >= size() || i < 0) {\n      throw", "if (i > size() || i < 0) {\n      throw")]),
 ("cg-find-nothrow", "bad:C12", CG, [("if (it_element == option.end()) {", "if (it_element == option.end() && option.size() > 1) {")]),
 ("cg-find-set", "bad:C12", CG, [("idx += size_groups_[i] * idx_element;", "idx = size_groups_[i] * idx_element + (i ? idx : 0) ;\n if (idx_element == 0 && i > 1) idx = 0;")]),
 ("cg-empty-opt", "bad:C12", CG, [("for (size_t i = 0; i < options.size(); i++) {\n      if (options[i]->begin()", "for (size_t i = 1; i < options.size(); i++) {\n      if (options[i]->begin()")]),
 ("cg-groups", "bad:C12", CG, [("const size_t num_next = options[i + 1]->size();", "const size_t num_next = options[i]->size();")]),
 ("cg-groups-start", "bad:C12", CG, [("for (int i = options.size() - 2; i >= 0; i--)", "for (int i = options.size() - 2; i > 0; i--)")]),
 ("cg-size", "bad:C12", CG, [("return options.front()->size() * size_groups.front();", "return options.back()->size() * size_groups.front();")]),
 ("cg-size-empty", "bad:C12", CG, [("    if (options.empty()) return 0;\n    return options.front", "    if (options.empty()) return 1;\n    return options.front")]),
 ("cg-skip-old", "bad:C12", CG, [("if (idx_i == idx_i_new) continue;", "if (idx_i_new == 0) continue;")]),
 ("cg-skip-rem", "bad:C12", CG, [("if (idx_i == idx_i_new) continue;", "if (remaining == remaining_new) continue;")]),
 ("cg-break", "bad:C12", CG, [("if (idx_i == idx_i_new) continue;", "if (idx_i == idx_i_new) break;")]),
 ("cg-reenter", "bad:C12", CG, [("    if (idx_ >= gen_->size() || idx_ < 0) {\n      idx_ = idx_new;\n      UpdateCombination();\n      return;\n    }\n", "    if (idx_ > gen_->size() || idx_ < 0) {\n      idx_ = idx_new;\n      UpdateCombination();\n      return;\n    }\n")]),
 ("g-cg-reenter-neg", "good", CG, [("    if (idx_ >= gen_->size() || idx_ < 0) {\n      idx_ = idx_new;\n      UpdateCombination();", "    if (idx_ >= gen_->size()) {\n      idx_ = idx_new;\n      UpdateCombination();")]),
 ("cg-oob-keep", "bad:C12", CG, [("    if (idx_new >= gen_->size() || idx_new < 0) {\n      idx_ = idx_new;\n      return;", "    if (idx_new >= gen_->size() || idx_new < 0) {\n      idx_ = gen_->size();\n      return;")]),
 ("cg-eq", "bad:C12", CG, [("return gen_ == rhs.gen_ && idx_ == rhs.idx_;", "return idx_ == rhs.idx_;")]),
 ("cg-le", "bad:C12", CG, [("return gen_ == rhs.gen_ && idx_ <= rhs.idx_;", "return gen_ == rhs.gen_ && idx_ < rhs.idx_;")]),
 ("cg-ge", "bad:C12", CG, [("bool operator>=(const Iterator& rhs) const { return rhs <= *this; };", "bool operator>=(const Iterator& rhs) const { return rhs < *this; };")]),
 ("cg-minus", "bad:C12", CG, [("return idx_ - rhs.idx_;", "return rhs.idx_ - idx_;")]),
 ("cg-minuseq", "bad:C12", CG, [("Iterator& operator-=(difference_type n) { return operator+=(-n); }", "Iterator& operator-=(difference_type n) { return operator+=(n > 0 ? -n : n); }")]),
 ("cg-postdec", "bad:C12", CG, [("    Iterator it = *this;\n    operator--();\n    return it;", "    operator--();\n    Iterator it = *this;\n    return it;")]),
 ("cg-index", "bad:C12", CG, [("value_type operator[](difference_type n) const { return *(operator+(n)); }", "value_type operator[](difference_type n) const { return gen_->operator[](n); }", 0)]),
 ("cg-end", "bad:C12", CG, [("const_iterator end() const { return const_iterator(this, size()); };", "const_iterator end() const { return const_iterator(this, empty() ? 0 : size() - 1); };")]),
 ("cg-rbegin", "bad:C12", CG, [("  const_reverse_iterator rbegin() const {\n    return const_reverse_iterator(end());", "  const_reverse_iterator rbegin() const {\n    return const_reverse_iterator(begin());")]),
 ("cg-rev-ne", "bad:C12", CG, [("bool operator!=(const ReverseIterator& rhs) const { return it_ != rhs.it_; }", "bool operator!=(const ReverseIterator& rhs) const { return it_ == rhs.it_; }")]),
 ("cg-rev-lt", "bad:C12", CG, [("bool operator<(const ReverseIterator& rhs) const", "bool operator<(const ReverseIterator& rhs) const { return it_ < rhs.it_; }\n  bool lt_unused(const ReverseIterator& rhs) const")]),
 ("cg-init", "bad:C12", CG, [("      combination_[i] = gen_->options_[i]->at(idx_i);\n", "      combination_[i] = gen_->options_[i]->at(idx_i == 0 ? 0 : remaining ? idx_i : idx_i);\n      if (remaining == 0) break;\n")]),
 # preserving
 ("g-cg-at", "good", CG, [("    if (i < 0) i += size();\n", "    const int num = static_cast<int>(size());\n    if (i < 0) i += num;\n"), ("if (i >= size() || i < 0) {\n      throw", "if (!(i >= 0 && i < num)) {\n      throw")]),
 ("g-cg-find", "good", CG, [("const auto it_element = std::find(option.begin(), option.end(), element);", "auto it_element = option.begin();\n      for (; it_element != option.end(); ++it_element) {\n        if (*it_element == element) break;\n      }")]),
 ("g-cg-find2", "good", CG, [("      const size_t idx_element = it_element - option.begin();\n      idx += size_groups_[i] * idx_element;", "      idx = idx + std::distance(option.begin(), it_element) * size_groups_[i];")]),
 ("g-cg-groups", "good", CG, [("    for (int i = options.size() - 2; i >= 0; i--) {\n      const size_t num_next = options[i + 1]->size();\n      size_groups[i] = num_next * size_groups[i + 1];\n    }", "    for (size_t i = options.size() - 1; i > 0; i--) {\n      size_groups[i - 1] = options[i]->size() * size_groups[i];\n    }")]),
 ("g-cg-groups2", "good", CG, [("    for (int i = options.size() - 2; i >= 0; i--) {\n      const size_t num_next = options[i + 1]->size();\n      size_groups[i] = num_next * size_groups[i + 1];\n    }", "    size_t group = 1;\n    for (int i = options.size() - 1; i > 0; i--) {\n      group *= options[i]->size();\n      size_groups[i - 1] = group;\n    }")]),
 ("g-cg-range", "good", CG, [("if (idx_ >= gen_->size() || idx_ < 0) return;", "if (!InRange(idx_)) return;"), ("if (idx_new >= gen_->size() || idx_new < 0) {", "if (!InRange(idx_new)) {"), ("if (idx_ >= gen_->size() || idx_ < 0) {", "if (!InRange(idx_)) {"), ("  const CombinationGenerator* gen_ = nullptr;\n", "  bool InRange(int idx) const { return 0 <= idx && idx < static_cast<int>(gen_->size()); }\n  const CombinationGenerator* gen_ = nullptr;\n")]),
 ("g-cg-simple", "good", CG, [("    if (idx_ == idx_new) return;\n", "    if (idx_ == idx_new) return;\n    idx_ = idx_new;\n    UpdateCombination();\n    return;\n")]),
 ("g-cg-digit", "good", CG, [("int idx_i = remaining / gen_->size_groups_[i];\n      remaining -= idx_i * gen_->size_groups_[i];\n\n      // Set", "const int group = gen_->size_groups_[i];\n      const int idx_i = remaining / group;\n      remaining = remaining % group;\n\n      // Set")]),
 ("g-cg-set", "good", CG, [("      if (idx_i == idx_i_new) continue;\n\n      // Set the value\n      combination_[i] = gen_->options_[i]->at(idx_i_new);", "      if (idx_i != idx_i_new) {\n        combination_[i] = (*gen_->options_[i])[idx_i_new];\n      }")]),
 ("g-cg-cmp", "good", CG, [("bool operator>=(const Iterator& rhs) const { return rhs <= *this; };", "bool operator>=(const Iterator& rhs) const { return gen_ == rhs.gen_ && idx_ >= rhs.idx_; };"), ("bool operator!=(const Iterator& rhs) const { return !(*this == rhs); }", "bool operator!=(const Iterator& rhs) const { return gen_ != rhs.gen_ || idx_ != rhs.idx_; }")]),
 ("g-cg-inc", "good", CG, [("Iterator& operator++() { return operator+=(1); }", "Iterator& operator++() {\n    UpdateCombination(idx_ + 1);\n    return *this;\n  }"), ("    Iterator temp = *this;\n    return temp -= n;", "    return *this + (-n);")]),
 ("g-cg-ctor", "good", CG, [("    for (size_t i = 0; i < options.size(); i++) {\n      if (options[i]->begin() == options[i]->end()) {\n        throw", "    for (size_t i = 0; i < options.size(); i++) {\n      const ContainerT& option = *options[i];\n      if (option.empty()) {\n        throw")]),
 ("g-cg-rev", "good", CG, [("bool operator!=(const ReverseIterator& rhs) const { return it_ != rhs.it_; }", "bool operator!=(const ReverseIterator& rhs) const { return !(*this == rhs); }")]),
 ("g-cg-empty", "good", CG, [("bool empty() const { return size_ == 0; }", "bool empty() const { return !(size() > 0); }")]),
]
EDITS += [
 ("cg-skip-post", "bad:C12", CG, [("if (idx_i == idx_i_new) continue;", "if (remaining == remaining_new) continue;")]),
 ("cg-skip-post2", "bad:C12", CG, [("if (idx_i == idx_i_new) continue;", "if (remaining - remaining_new == 0) continue;")]),
 ("g-cg-skip-pre", "good", CG, [("      // Compute the index for the current bin\n      int idx_i = remaining / gen_->size_groups_[i];\n      int idx_i_new", "      if (remaining == remaining_new) break;\n      int idx_i = remaining / gen_->size_groups_[i];\n      int idx_i_new")]),
 ("g-cg-skip-pre2", "good", CG, [("      // Compute the index for the current bin\n      int idx_i = remaining / gen_->size_groups_[i];\n      int idx_i_new", "      if (remaining == remaining_new) continue;\n      int idx_i = remaining / gen_->size_groups_[i];\n      int idx_i_new")]),
]
