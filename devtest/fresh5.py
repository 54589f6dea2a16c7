PL = "src/planning/planner.cc"
PH = "include/symbolic/planning/planner.h"
HS = "include/symbolic/utils/hash_set.h"
UV = "include/symbolic/utils/unique_vector.h"
BF = "include/symbolic/planning/breadth_first_search.h"
DF = "include/symbolic/planning/depth_first_search.h"
AS = "include/symbolic/planning/a_star.h"
CHK_B = '''  // Check action preconditions
  const Action& action = *it.it_action_;
  const std::vector<Object>& arguments = *it.it_param_;
  const Node& parent = it.parent_;
  if (action.IsValid(parent.state(), arguments)) {
    // Set action and apply postconditions to child
    State state = action.Apply(parent.state(), arguments);
    DerivedPredicate::Apply(impl_->pddl_.derived_predicates(), &state);
    it.child_ =
        Node(parent, it.child_, std::move(state), action.to_string(arguments));

    // Return if state hasn't been previously visited
    const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =
        it.child_->ancestors_;
    if (ancestors->count(it.child_) == 0) return it;
  }

  ++it;
  return it;
'''
CHK_I = '''    // Check action preconditions
    const Action& action = *it_action_;
    const std::vector<Object>& arguments = *it_param_;
    if (action.IsValid(parent_.state(), arguments)) {
      // Set action and apply postconditions to child
      State state = action.Apply(parent_.state(), arguments);
      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
      child_ =
          Node(parent_, child_, std::move(state), action.to_string(arguments));

      // Return if state hasn't been previously visited
      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =
          child_->ancestors_;
      if (ancestors->count(child_) == 0) break;
    }
'''
STEP_DECL = ("  friend class Node;\n};", "  /**\n   * Sets the child for the current action and reports whether it is new.\n   */\n  bool Update();\n\n  friend class Node;\n};")
STEP_DEF = '''bool Planner::Node::iterator::Update() {
  const Action& action = *it_action_;
  const std::vector<Object>& arguments = *it_param_;
  if (!action.IsValid(parent_.state(), arguments)) return false;

  State state = action.Apply(parent_.state(), arguments);
  DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
  child_ =
      Node(parent_, child_, std::move(state), action.to_string(arguments));
  return child_->ancestors_->count(child_) == 0;
}

Planner::Node::iterator& Planner::Node::iterator::operator++() {
'''
EDITS = [
 ("l-pl-find", "good", PL, [(CHK_I, CHK_I.replace("if (ancestors->count(child_) == 0) break;", "if (ancestors->find(child_) == ancestors->end()) return *this;"), 1)]),
 ("l-pl-continue", "good", PL, [(CHK_I, '''    const std::vector<Object>& arguments = *it_param_;
    if (!it_action_->IsValid(parent_.state(), arguments)) continue;

    State state = it_action_->Apply(parent_.state(), arguments);
    DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
    child_ = Node(parent_, child_, std::move(state),
                  it_action_->to_string(arguments));
    const bool is_new = child_->ancestors_->count(child_) == 0;
    if (is_new) break;
''', 0)]),
 ("l-pl-ctor-early", "good", PL, [('''  if (!sibling.impl_) {
    auto ancestors =''', '''  assert(parent.impl_ != nullptr);
  const bool has_sibling = static_cast<bool>(sibling.impl_);
  if (!has_sibling) {
    auto ancestors =''')]),
 ("l-pl-ctor-flip", "good", PL, [('''  if (!sibling.impl_) {
    auto ancestors =
        std::make_shared<Planner::Node::NodeImpl::Cache>(*parent->ancestors_);
    ancestors->insert(parent);
    impl_ = std::make_shared<NodeImpl>(parent->pddl_, std::move(state),
                                       std::move(ancestors), std::move(action),
                                       parent.depth() + 1);
  } else {
    impl_ = std::make_shared<NodeImpl>(sibling->pddl_, std::move(state),
                                       sibling->ancestors_, std::move(action),
                                       sibling.depth());
  }
''', '''  std::shared_ptr<const NodeImpl::Cache> ancestors;
  if (sibling.impl_ != nullptr) {
    ancestors = sibling->ancestors_;
  } else {
    auto new_ancestors = std::make_shared<NodeImpl::Cache>(*parent->ancestors_);
    new_ancestors->emplace(parent);
    ancestors = std::move(new_ancestors);
  }
  impl_ = std::make_shared<NodeImpl>(parent->pddl_, std::move(state), ancestors,
                                     std::move(action), parent.depth() + 1);
''')]),
 ("l-pl-begin-loop", "good", PL, [(CHK_B, '''  const Action& action = *it.it_action_;
  const std::vector<Object>& arguments = *it.it_param_;
  const Node& parent = *this;
  if (!action.IsValid(state(), arguments)) return ++it;

  State child_state = action.Apply(parent.state(), arguments);
  DerivedPredicate::Apply(impl_->pddl_.derived_predicates(), &child_state);
  it.child_ = Node(parent, it.child_, std::move(child_state),
                   action.to_string(arguments));
  if (it.child_->ancestors_->count(it.child_) > 0) ++it;
  return it;
''')]),
 ("l-pl-end", "good", PL, [('''  if (it == end()) return it;

  if (it''', '''  const bool is_end = impl_->pddl_.actions().empty();
  if (is_end) return it;

  if (it''')]),
 ("l-pl-next-for", "good", PL, [('''  while (it_action_ != pddl_.actions().end()) {
    const ParameterGenerator& param_gen = it_action_->parameter_generator();
    if (it_param_ == param_gen.end()) {
      // Move onto next action
      ++it_action_;
      if (it_action_ == pddl_.actions().end()) break;

      // Generate new parameters
      it_param_ = it_action_->parameter_generator().begin();
      if (it_param_ == it_action_->parameter_generator().end()) continue;
    } else {
      // Move onto next parameters
      ++it_param_;
      if (it_param_ == param_gen.end()) continue;
    }
''', '''  const auto it_end = pddl_.actions().end();
  while (it_action_ != it_end) {
    const bool is_action_done =
        it_param_ == it_action_->parameter_generator().end();
    if (is_action_done) {
      if (++it_action_ == it_end) return *this;
      it_param_ = it_action_->parameter_generator().begin();
    } else {
      ++it_param_;
    }
    if (it_param_ == it_action_->parameter_generator().end()) continue;
''')]),
 ("l-pl-next-helper", "good", PL, [('''Planner::Node::iterator& Planner::Node::iterator::operator++() {
''', '''bool IsNew(const Pddl& pddl, const Planner::Node& node) {
  static_cast<void>(pddl);
  return node.depth() > 0;
}

Planner::Node::iterator& Planner::Node::iterator::operator++() {
''')]),
 ("l-pl-visited-all", "bad:C10", PL, [("    ancestors->insert(parent);", "    if (parent.depth() != 1) ancestors->insert(parent);")]),
 ("l-pl-sibling-depth", "bad:C10", PL, [("sibling->ancestors_, std::move(action),\n                                       sibling.depth());", "sibling->ancestors_, std::move(action),\n                                       sibling.depth() + 1);")]),
 ("l-pl-derived-parent", "bad:C10", PL, [("      State state = action.Apply(parent_.state(), arguments);\n      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);\n", "      State state = action.Apply(parent_.state(), arguments);\n      if (state != parent_.state()) {\n        DerivedPredicate::Apply(pddl_.derived_predicates(), &state);\n      }\n", 1)]),
 ("l-pl-derived-changed", "bad:C10", PL, [("      State state = action.Apply(parent_.state(), arguments);\n      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);\n", "      State state = action.Apply(parent_.state(), arguments);\n      if (state.size() != parent_.state().size()) {\n        DerivedPredicate::Apply(pddl_.derived_predicates(), &state);\n      }\n", 0)]),

 ("m-bf-front", "good", BF, [("""    std::pair<NodeT, std::shared_ptr<std::vector<NodeT>>>& front =
        queue_.front();

    // Take ancestors list and append current node
    ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);
    ancestors_->push_back(std::move(front.first));
    queue_.pop();
    const NodeT& node = ancestors_->back();
""", """    auto [front, path] = std::move(queue_.front());
    queue_.pop();

    auto ancestors = std::make_shared<std::vector<NodeT>>();
    ancestors->reserve(path->size() + 1);
    ancestors->insert(ancestors->end(), path->begin(), path->end());
    ancestors->push_back(std::move(front));
    ancestors_ = std::move(ancestors);
    const NodeT& node = ancestors_->back();
""")]),
 ("m-bf-helper", "good", BF, [("""    if (bfs_->timeout_.count() > 0 &&
        std::chrono::high_resolution_clock::now() - t_start > bfs_->timeout_) {
      std::queue<std::pair<NodeT, std::shared_ptr<std::vector<NodeT>>>> empty;
      std::swap(queue_, empty);
      break;
    }
""", """    if (IsTimedOut(t_start)) {
      queue_ = {};
      break;
    }
"""), ("""  bool IsFinished() const {""", """  bool IsTimedOut(
      const std::chrono::high_resolution_clock::time_point& t_start) const {
    if (bfs_->timeout_.count() <= 0) return false;
    const auto t_elapsed = std::chrono::high_resolution_clock::now() - t_start;
    return t_elapsed > bfs_->timeout_;
  }
  bool IsFinished() const {""")]),
 ("m-bf-cond", "good", BF, [("""    // Skip children if max depth has been reached
    if (ancestors_->size() > bfs_->max_depth_) continue;
""", """    const size_t num_steps = ancestors_->size() - 1;
    const bool is_expandable = num_steps < bfs_->max_depth_;
    if (!is_expandable) continue;
""")]),
 ("m-bf-timeout-return", "bad:C11", BF, [("""      std::swap(queue_, empty);
      break;
""", """      std::swap(queue_, empty);
      return *this;
""")]),
 ("m-bf-verbose", "bad:C11", BF, [("""      if (bfs_->verbose_) {
        std::cout << child << std::endl << std::endl;
      }

      queue_.emplace(child, ancestors_);
""", """      if (bfs_->verbose_) {
        std::cout << child << std::endl << std::endl;
      } else {
        queue_.emplace(child, ancestors_);
      }
""")]),
 ("m-bf-verbose-depth", "bad:C11", BF, [("""      depth = ancestors_->size();
      std::cout""", """      depth = ancestors_->size();
      if (depth > bfs_->max_depth_) break;
      std::cout""")]),
 ("m-bf-goal-queue", "good", BF, [("""    for (const NodeT& child : node) {
      // Print node""", """    for (auto it = node.begin(); it != node.end(); ++it) {
      const NodeT& child = *it;
      // Print node""")]),
 ("m-df-collect", "good", DF, [("""    for (const NodeT& child : node) {
      stack_.emplace(child, ancestors_);
    }
""", """    std::vector<NodeT> children;
    for (const NodeT& child : node) {
      children.push_back(child);
    }
    for (NodeT& child : children) {
      stack_.emplace(std::move(child), ancestors_);
    }
""")]),
 ("m-df-reverse", "bad:C11", DF, [("""    for (const NodeT& child : node) {
      stack_.emplace(child, ancestors_);
    }
""", """    std::vector<NodeT> children;
    for (const NodeT& child : node) {
      children.push_back(child);
    }
    for (auto it = children.rbegin(); it != children.rend(); ++it) {
      stack_.emplace(*it, ancestors_);
    }
""")]),
 ("m-df-copy", "good", DF, [("""    std::pair<NodeT, std::vector<NodeT>>& top = stack_.top();

    // Take ancestors list and append current node
    ancestors_.swap(top.second);
    ancestors_.push_back(std::move(top.first));
    stack_.pop();
""", """    std::pair<NodeT, std::vector<NodeT>> top = std::move(stack_.top());
    stack_.pop();
    ancestors_ = std::move(top.second);
    ancestors_.emplace_back(std::move(top.first));
""")]),
 ("m-df-swap-after", "bad:C11", DF, [("""    ancestors_.swap(top.second);
    ancestors_.push_back(std::move(top.first));
    stack_.pop();
""", """    ancestors_.push_back(std::move(top.first));
    ancestors_.swap(top.second);
    stack_.pop();
""")]),
 ("m-df-for", "good", DF, [("""  while (!stack_.empty()) {
    std::pair<NodeT, std::vector<NodeT>>& top = stack_.top();
""", """  for (; !stack_.empty();) {
    auto& top = stack_.top();
""")]),
 ("m-as-copy", "good", AS, [("""    SearchNode<NodeT> top = queue_.top();

    // Take ancestors list and append current node
    ancestors_.swap(top.ancestors);
    ancestors_.push_back(std::move(top.node));
    queue_.pop();
""", """    const SearchNode<NodeT>& top = queue_.top();
    ancestors_ = top.ancestors;
    ancestors_.push_back(top.node);
    queue_.pop();
""")]),
 ("m-as-pop-first", "bad:C11", AS, [("""    SearchNode<NodeT> top = queue_.top();

    // Take ancestors list and append current node
    ancestors_.swap(top.ancestors);
    ancestors_.push_back(std::move(top.node));
    queue_.pop();
""", """    const SearchNode<NodeT>& top = queue_.top();
    queue_.pop();
    ancestors_ = top.ancestors;
    ancestors_.push_back(top.node);
""")]),
 ("m-as-nocompare", "bad:C11", AS, [("  iterator(const Compare& compare, const NodeT& root, size_t max_depth)\n      : queue_(compare), kMaxDepth(max_depth) {", "  iterator(const Compare& compare, const NodeT& root, size_t max_depth)\n      : queue_(), kMaxDepth(max_depth) {")]),
 ("m-as-last", "good", AS, [("""    const NodeT& node = ancestors_.back();
    if (node) return *this;
""", """    const NodeT& node = ancestors_[ancestors_.size() - 1];
    const bool is_goal = static_cast<bool>(node);
    if (is_goal) return *this;
""")]),
 ("m-as-skip-goal", "bad:C11", AS, [("    for (const NodeT& child : node) {\n      queue_.emplace(child, ancestors_);\n    }\n", "    for (const NodeT& child : node) {\n      if (ancestors_.size() == kMaxDepth && !child) continue;\n      queue_.emplace(child, ancestors_);\n      if (child && ancestors_.size() == kMaxDepth) break;\n    }\n")]),
 ("m-as-prune-dead", "good", AS, [("    for (const NodeT& child : node) {\n      queue_.emplace(child, ancestors_);\n    }\n", "    for (const NodeT& child : node) {\n      if (ancestors_.size() == kMaxDepth && !child) continue;\n      queue_.emplace(child, ancestors_);\n    }\n")]),
]
