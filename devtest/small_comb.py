G="include/symbolic/utils/combination_generator.h"
B="include/symbolic/planning/breadth_first_search.h"
D="include/symbolic/planning/depth_first_search.h"
A="include/symbolic/planning/a_star.h"
P="src/utils/parameter_generator.cc"
EDITS=[
("x1","bad:C12",G,[("if (options[i]->begin() == options[i]->end()) {","if (options[i]->begin() == options[i]->begin()) {")]),
("x2","bad:C12",G,[("for (size_t i = 0; i < combination.size(); i++)","for (size_t i = 0; i > combination.size(); i++)")]),
("x3","bad:C12",G,[("if (it_element == option.end())","if (it_element == option.begin())")]),
("x4","bad:C12",G,[("    if (options.empty()) return size_groups;\n","")]),
("x5","bad:C12",G,[("    size_groups.back() = 1;\n","")]),
("x6","bad:C12",G,[("return rhs < *this;","return rhs > *this;")]),
("x7","bad:C12",G,[("    for (size_t i = 0; i < num_options; i++) {","    for (size_t i = 0; i < num_options; i--) {",1)]),
("x8","bad:C12",G,[("idx_new >= gen_->size() || idx_new < 0","idx_new >= gen_->size() && idx_new < 0")]),
("x10","good",G,[("    if (combination_.empty()) combination_.resize(num_options);\n","",1)]),
("x11","bad:C12",G,[("remaining_new / gen_->size_groups_[i]","remaining_new * gen_->size_groups_[i]")]),
("x12","good",G,[("      if (idx_i == idx_i_new) continue;\n","")]),
("x13","bad:C12",G,[("size_t i = 0; i < combination.size(); i++","size_t i = 1; i < combination.size(); i++")]),
("p3","bad:C13",P,[("Base::operator=(Base(Options(param_types_)));","")]),
("b1","bad:C11",B,[("    if (node) {","    if (true) {")]),
("b2","bad:C11",B,[("    ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);\n","")]),
("b3","bad:C11",B,[("return !(*this == other)","return !(*this != other)")]),
("d1","bad:C11",D,[("    if (node) return *this;","    if (true) return *this;")]),
("d2","bad:C11",D,[("    ancestors_.push_back(std::move(top.first));\n    stack_.pop();","    stack_.pop();\n    ancestors_.push_back(std::move(top.first));")]),
("a1","bad:C11",A,[("    if (node) return *this;","    if (true) return *this;")]),
("a2","bad:C11",A,[("if (ancestors_.size() > kMaxDepth) continue;","if (ancestors_.size() >= kMaxDepth) continue;")]),
]
EDITS+=[("n1","bad:C12",G,[("  friend Iterator operator+(difference_type n, const Iterator& it) {\n    return it + n;","  friend Iterator operator+(difference_type n, const Iterator& it) {\n    return it - n;")]),
("g1","good",G,[("idx_new >= gen_->size() || idx_new < 0","idx_new >= gen_->size()")]),
]
