B = "include/symbolic/planning/breadth_first_search.h"
D = "include/symbolic/planning/depth_first_search.h"
A = "include/symbolic/planning/a_star.h"
EDITS = [
 ("s-bdepth", "bad:C11", B, [("ancestors_->size() > bfs_->max_depth_) continue", "ancestors_->size() >= bfs_->max_depth_) continue")]),
 ("s-bdepth2", "bad:C11", B, [("ancestors_->size() > bfs_->max_depth_) continue", "ancestors_->size() > bfs_->max_depth_ + 1) continue")]),
 ("s-bdepth3", "bad:C11", B, [("ancestors_->size() > bfs_->max_depth_) continue", "bfs_->max_depth_ > 0 && ancestors_->size() > bfs_->max_depth_) continue")]),
 ("s-bdepthfirst", "bad:C11", B, [("    // Return if node evaluates to true\n", "    if (ancestors_->size() > bfs_->max_depth_) continue;\n    // Return if node evaluates to true\n")]),
 ("s-bshare", "bad:C11", B, [("    ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);\n", "    ancestors_ = front.second;\n")]),
 ("s-bshare1", "bad:C11", B, [("    ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);\n", "    ancestors_ = queue_.size() > 1 ? std::make_shared<std::vector<NodeT>>(*front.second) : front.second;\n")]),
 ("s-bshareuc", "bad:C11", B, [("    ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);\n", "    if (front.second.use_count() == 1) {\n      ancestors_ = front.second;\n    } else {\n      ancestors_ = std::make_shared<std::vector<NodeT>>();\n    }\n")]),
 ("s-bparent", "bad:C11", B, [("queue_.emplace(child, ancestors_);", "queue_.emplace(child, bfs_->verbose_ ? ancestors_ : std::make_shared<std::vector<NodeT>>(ancestors_->begin(), ancestors_->end() - 1));")]),
 ("s-bfin", "bad:C11", B, [("return queue_.empty() && !ancestors_;", "return queue_.empty();")]),
 ("s-beq", "bad:C11", B, [("return IsFinished() && other.IsFinished();", "return IsFinished() || other.IsFinished();")]),
 ("s-bnoreset", "bad:C11", B, [("  ancestors_.reset();\n", "")]),
 ("s-bgoalonly", "bad:C11", B, [("    if (node) {\n      if", "    if (node && ancestors_->size() > 1) {\n      if")]),
 ("s-btimeout", "bad:C11", B, [("bfs_->timeout_.count() > 0 &&", "bfs_->timeout_.count() >= 0 &&")]),
 ("s-btimeout2", "bad:C11", B, [("- t_start > bfs_->timeout_)", "- t_start < bfs_->timeout_)")]),
 ("s-btimeoutq", "bad:C11", B, [("      std::swap(queue_, empty);\n", "")]),
 ("s-bstack", "bad:C11", B, [("std::queue<", "std::stack<", "all"), ("queue_.front()", "queue_.top()"), ("#include <queue> ", "#include <stack> ")]),
 ("s-bbegin", "bad:C11", B, [("    return ++it;\n", "    return it;\n")]),
 ("s-bfirst", "bad:C11", B, [("      queue_.emplace(child, ancestors_);\n", "      queue_.emplace(child, ancestors_);\n      if (child) break;\n")]),
 ("s-bverb", "bad:C11", B, [("      // Print node\n      if (bfs_->verbose_) {\n        std::cout << child << std::endl << std::endl;\n      }\n\n      queue_.emplace(child, ancestors_);", "      if (bfs_->verbose_) {\n        std::cout << child << std::endl << std::endl;\n        continue;\n      }\n      queue_.emplace(child, ancestors_);")]),
 ("s-bcontinue", "bad:C11", B, [("        std::cout << \"Goal state reached: \" << node << std::endl;\n      }\n      return *this;", "        std::cout << \"Goal state reached: \" << node << std::endl;\n        return *this;\n      }\n      break;")]),
 ("s-bgoalexp", "bad:C11", B, [("      queue_.emplace(child, ancestors_);\n", "      if (ancestors_->size() == bfs_->max_depth_ && !child) continue;\n      queue_.emplace(child, ancestors_);\n      queue_.emplace(child, ancestors_);\n")]),
 ("s-bqlimit", "bad:C11", B, [("      queue_.emplace(child, ancestors_);\n", "      if (queue_.size() < 1000000) queue_.emplace(child, ancestors_);\n")]),
 ("s-dfin", "bad:C11", D, [("stack_.empty() && ancestors_.empty(); }", "stack_.empty(); }")]),
 ("s-dclear", "bad:C11", D, [("  ancestors_.clear();\n", "")]),
 ("s-dbreak", "bad:C11", D, [("if (node) return *this;", "if (node) break;")]),
 ("s-ddepth", "bad:C11", D, [("if (ancestors_.size() > kMaxDepth) continue;", "if (ancestors_.size() >= kMaxDepth) continue;")]),
 ("gs-dstale", "good", D, [("    ancestors_.swap(top.second);\n", "    if (ancestors_.size() != top.second.size()) ancestors_.swap(top.second);\n")]),
 ("gs-dstale2", "good", D, [("    ancestors_.swap(top.second);\n", "    if (!top.second.empty()) ancestors_.swap(top.second);\n")]),
 ("s-dmove", "bad:C11", D, [("      stack_.emplace(child, ancestors_);", "      stack_.emplace(child, std::move(ancestors_));")]),
 ("s-dlimit", "bad:C11", D, [("iterator it(root_, kMaxDepth); return ++it;", "iterator it(root_, kMaxDepth + 1); return ++it;")]),
 ("s-done", "bad:C11", D, [("      stack_.emplace(child, ancestors_);\n", "      stack_.emplace(child, ancestors_);\n      if (ancestors_.size() == kMaxDepth) break;\n")]),
 ("s-dgoalpop", "bad:C11", D, [("    stack_.pop();\n\n    // Return if node evaluates to true\n    const NodeT& node = ancestors_.back();\n    if (node) return *this;\n", "    const NodeT& node = ancestors_.back();\n    if (node) return *this;\n    stack_.pop();\n")]),
 ("s-areftop", "bad:C11", A, [("SearchNode<NodeT> top = queue_.top();", "SearchNode<NodeT>& top = const_cast<SearchNode<NodeT>&>(queue_.top());\n    queue_.pop();"), ("    queue_.pop();\n\n    // Return", "\n    // Return")]),
 ("s-anofin", "bad:C11", A, [("queue_.empty() && ancestors_.empty(); }", "queue_.empty(); }")]),
 ("s-acmp", "bad:C11", A, [("explicit iterator(const Compare& compare) : queue_(compare) {}\n  iterator(const Compare& compare, const NodeT& root, size_t max_depth)\n      : queue_(compare), kMaxDepth(max_depth) {", "explicit iterator(const Compare& compare) : queue_(compare) {}\n  iterator(const Compare& compare, const NodeT& root, size_t max_depth)\n      : kMaxDepth(max_depth) {")]),
 ("s-adepth", "bad:C11", A, [("if (ancestors_.size() > kMaxDepth) continue;", "if (ancestors_.size() > kMaxDepth) break;")]),
 ("s-askip", "bad:C11", A, [("    for (const NodeT& child : node) {\n      queue_", "    for (const NodeT& child : node) {\n      if (!child && ancestors_.size() + 1 == kMaxDepth) continue;\n      queue_")]),
 ("s-agoalchild", "bad:C11", A, [("    if (node) return *this;\n", "    if (node && queue_.empty()) return *this;\n")]),
 ("s-bkeep", "bad:C11", B, [("      : max_depth_(max_depth),", "      : max_depth_(max_depth > 0 ? max_depth : 1),")]),
 ("gs-bref", "good", B, [("    std::pair<NodeT, std::shared_ptr<std::vector<NodeT>>>& front =\n        queue_.front();\n", "    auto front = std::move(queue_.front());\n    queue_.pop();\n"), ("    ancestors_->push_back(std::move(front.first));\n    queue_.pop();\n", "    ancestors_->emplace_back(std::move(front.first));\n")]),
 ("gs-bhelper", "good", B, [("    for (const NodeT& child : node) {\n      // Print node\n      if (bfs_->verbose_) {\n        std::cout << child << std::endl << std::endl;\n      }\n\n      queue_.emplace(child, ancestors_);\n    }\n", "    Expand(node);\n"), (" private:\n  const BreadthFirstSearch<NodeT>* bfs_", " private:\n  void Expand(const NodeT& node) {\n    for (const NodeT& child : node) {\n      if (bfs_->verbose_) {\n        std::cout << child << std::endl << std::endl;\n      }\n      queue_.push({child, ancestors_});\n    }\n  }\n  const BreadthFirstSearch<NodeT>* bfs_")]),
 ("gs-bnest", "good", B, [("    if (ancestors_->size() > bfs_->max_depth_) continue;\n", "    const size_t steps = ancestors_->size() - 1;\n    if (steps >= bfs_->max_depth_) continue;\n")]),
 ("gs-bif", "good", B, [("    if (ancestors_->size() > bfs_->max_depth_) continue;\n", ""), ("    for (const NodeT& child : node) {\n      // Print node", "    if (ancestors_->size() <= bfs_->max_depth_) for (const NodeT& child : node) {\n      // Print node")]),
 ("gs-bfor", "good", B, [("    for (const NodeT& child : node) {\n      // Print node\n", "    for (auto it = node.begin(); it != node.end(); ++it) {\n      const NodeT& child = *it;\n      // Print node\n")]),
 ("gs-btime", "good", B, [("    // Abort on timeout.\n    if (bfs_->timeout_.count() > 0 &&\n        std::chrono::high_resolution_clock::now() - t_start > bfs_->timeout_) {", "    const auto elapsed = std::chrono::high_resolution_clock::now() - t_start;\n    if (bfs_->timeout_.count() > 0 && elapsed > bfs_->timeout_) {")]),
 ("gs-btime2", "good", B, [("      std::queue<std::pair<NodeT, std::shared_ptr<std::vector<NodeT>>>> empty;\n      std::swap(queue_, empty);\n      break;\n", "      queue_ = {};\n      ancestors_ = nullptr;\n      return *this;\n")]),
 ("gs-bplan", "good", B, [("    ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);\n    ancestors_->push_back(std::move(front.first));\n    queue_.pop();\n", "    auto plan = std::make_shared<std::vector<NodeT>>();\n    plan->reserve(front.second->size() + 1);\n    *plan = *front.second;\n    plan->push_back(front.first);\n    queue_.pop();\n    ancestors_ = plan;\n")]),
 ("gs-bfin", "good", B, [("return queue_.empty() && !ancestors_;", "return ancestors_ == nullptr && queue_.size() == 0;")]),
 ("gs-bgoal", "good", B, [("    const NodeT& node = ancestors_->back();\n", "    const NodeT& node = *(ancestors_->end() - 1);\n    const bool is_goal = static_cast<bool>(node);\n"), ("    if (node) {\n      if", "    if (is_goal) {\n      if")]),
 ("gs-bwhile", "good", B, [("  while (!queue_.empty()) {", "  for (; queue_.size() > 0;) {")]),
 ("gs-dswap", "good", D, [("    std::pair<NodeT, std::vector<NodeT>>& top = stack_.top();\n\n    // Take ancestors list and append current node\n    ancestors_.swap(top.second);\n    ancestors_.push_back(std::move(top.first));\n    stack_.pop();\n", "    std::pair<NodeT, std::vector<NodeT>> top = std::move(stack_.top());\n    stack_.pop();\n    ancestors_ = std::move(top.second);\n    ancestors_.push_back(top.first);\n")]),
 ("gs-dmove", "good", D, [("    ancestors_.swap(top.second);\n", "    ancestors_ = top.second;\n")]),
 ("gs-dbreak", "good", D, [("    if (ancestors_.size() > kMaxDepth) continue;\n", "    if (!(ancestors_.size() <= kMaxDepth)) continue;\n")]),
 ("gs-dnull", "good", D, [("  ancestors_.clear();\n", "  ancestors_ = std::vector<NodeT>();\n")]),
 ("gs-acopy", "good", A, [("    ancestors_.swap(top.ancestors);\n    ancestors_.push_back(std::move(top.node));\n    queue_.pop();\n", "    queue_.pop();\n    ancestors_ = std::move(top.ancestors);\n    ancestors_.push_back(std::move(top.node));\n")]),
 ("gs-aprune", "good", A, [("    for (const NodeT& child : node) {\n      queue_", "    for (const NodeT& child : node) {\n      if (!child && ancestors_.size() == kMaxDepth) continue;\n      queue_")]),
 ("gs-bunique", "good", B, [("    ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);\n", "    if (front.second.use_count() == 1) {\n      ancestors_ = std::move(front.second);\n    } else {\n      ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);\n    }\n")]),
 ("gs-apush", "good", A, [("      queue_.emplace(child, ancestors_);\n", "      queue_.push(SearchNode<NodeT>(child, ancestors_));\n")]),
 ("gs-ashape", "good", A, [("    if (ancestors_.size() > kMaxDepth) continue;\n\n    // Add node's children to queue\n    for (const NodeT& child : node) {\n      queue_.emplace(child, ancestors_);\n    }\n", "    const bool expand = ancestors_.size() <= kMaxDepth;\n    if (expand) {\n      for (const NodeT& child : node) queue_.emplace(child, ancestors_);\n    }\n")]),
]
