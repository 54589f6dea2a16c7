From 0ace653ad8e0cc5e0e8a039466386e3b93af3596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 01/22] fix: ReverseIterator::operator-(n) subtracts from a
 reverse iterator

---
 include/symbolic/utils/combination_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 94d0f99..0b7dedf 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -437,7 +437,7 @@ class CombinationGenerator<ContainerT>::ReverseIterator {
   ReverseIterator& operator-=(difference_type n) { return operator+=(-n); }
 
   ReverseIterator operator-(difference_type n) const {
-    Iterator temp = *this;
+    ReverseIterator temp = *this;
     return temp -= n;
   }
 
-- 
2.43.0


From b11441c1a0d3879397e0ff2c70b4f978bb7ceadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 02/22] fix: set the whole combination when an iterator
 re-enters the valid range

---
 include/symbolic/utils/combination_generator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 0b7dedf..8e696db 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -333,6 +333,14 @@ class CombinationGenerator<ContainerT>::Iterator {
       return;
     }
 
+    // If the current index is outside the bounds, the stored combination does
+    // not correspond to it, so every element needs to be set
+    if (idx_ >= gen_->size() || idx_ < 0) {
+      idx_ = idx_new;
+      UpdateCombination();
+      return;
+    }
+
     // Preallocate combination if it hasn't been already
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
-- 
2.43.0


From d40a7defe9fcbea651089c8f0ea1df91d04f5773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 03/22] fix: give a default-constructed proposition the hash of
 its name and arguments

---
 include/symbolic/proposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/symbolic/proposition.h b/include/symbolic/proposition.h
index a08acb5..0a30bf8 100644
--- a/include/symbolic/proposition.h
+++ b/include/symbolic/proposition.h
@@ -66,7 +66,7 @@ class PropositionBase {
 
 class Proposition : public PropositionBase {
  public:
-  Proposition() = default;
+  Proposition() { PrecomputeHash(); }
 
   Proposition(const std::string& name_predicate,
               std::vector<Object>&& arguments)
-- 
2.43.0


From a0a617631902c8171fcac063c0f6e1f35de6e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 04/22] fix: step search nodes' children backwards over actions
 without parameter choices

---
 src/planning/planner.cc | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/src/planning/planner.cc b/src/planning/planner.cc
index 9cc9e63..ad89b5f 100644
--- a/src/planning/planner.cc
+++ b/src/planning/planner.cc
@@ -185,40 +185,21 @@ Planner::Node::iterator& Planner::Node::iterator::operator++() {
 Planner::Node::iterator& Planner::Node::iterator::operator--() {
   if (it_action_ == pddl_.actions().end()) {
     --it_action_;
-    const Action& action = *it_action_;
     it_param_ = it_action_->parameter_generator().end();
-    --it_param_;
-
-    // Check action preconditions
-    const std::vector<Object>& arguments = *it_param_;
-    if (action.IsValid(parent_.state(), arguments)) {
-      // Set action and apply postconditions to child
-      State state = action.Apply(parent_.state(), arguments);
-      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
-      child_ =
-          Node(parent_, child_, std::move(state), action.to_string(arguments));
-
-      // Return if state hasn't been previously visited
-      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =
-          child_->ancestors_;
-      if (ancestors->count(child_) == 0) return *this;
-    }
   }
 
   while (it_action_ != pddl_.actions().begin() ||
          it_param_ != it_action_->parameter_generator().begin()) {
     if (it_param_ == it_action_->parameter_generator().begin()) {
-      // Move onto next action
+      // Move onto next action, which might not have any parameters
       --it_action_;
-
-      // Generate new parameters
       it_param_ = it_action_->parameter_generator().end();
-      --it_param_;
-    } else {
-      // Move onto next parameters
-      --it_param_;
+      continue;
     }
 
+    // Move onto next parameters
+    --it_param_;
+
     // Check action preconditions
     const Action& action = *it_action_;
     const std::vector<Object>& arguments = *it_param_;
-- 
2.43.0


From 4769ff1ff36360f9270828a4290b850b6f002596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 05/22] fix: do not read the first action of a domain without
 actions

---
 src/planning/planner.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/planning/planner.cc b/src/planning/planner.cc
index ad89b5f..05bf91d 100644
--- a/src/planning/planner.cc
+++ b/src/planning/planner.cc
@@ -139,11 +139,17 @@ std::ostream& operator<<(std::ostream& os, const Planner::Node& node) {
   return os;
 }
 
+const ParameterGenerator& FirstParameterGenerator(const Pddl& pddl) {
+  static const ParameterGenerator kNoParameters;
+  if (pddl.actions().empty()) return kNoParameters;
+  return pddl.actions().front().parameter_generator();
+}
+
 Planner::Node::iterator::iterator(const Node& parent)
     : pddl_(parent->pddl_),
       parent_(parent),
       it_action_(pddl_.actions().begin()),
-      it_param_(it_action_->parameter_generator().begin()) {}
+      it_param_(FirstParameterGenerator(pddl_).begin()) {}
 
 Planner::Node::iterator& Planner::Node::iterator::operator++() {
   while (it_action_ != pddl_.actions().end()) {
-- 
2.43.0


From 8327c1de1b7baccdb58bff04e6d94717b6f02009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 06/22] fix: compute the derived predicates of a planner's root
 state

---
 include/symbolic/planning/planner.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/symbolic/planning/planner.h b/include/symbolic/planning/planner.h
index 2336f41..e51f9cf 100644
--- a/include/symbolic/planning/planner.h
+++ b/include/symbolic/planning/planner.h
@@ -77,7 +77,8 @@ class Planner {
    * @seepython{symbolic.Planner,__init__}
    */
   Planner(const Pddl& pddl, const State& state)
-      : root_(pddl, pddl.ConsistentState(state)) {}
+      : root_(pddl, DerivedPredicate::Apply(pddl.ConsistentState(state),
+                                            pddl.derived_predicates())) {}
 
   const Node& root() const { return root_; }
 
-- 
2.43.0


From eb2eb41ad222e9e261356d057aed4e23b8dc0ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 07/22] fix: report the last plan of depth-first and best-first
 search

The iterators compared equal to the end as soon as their frontier was empty,
so a plan whose goal node was the last one taken was never reported.
---
 include/symbolic/planning/a_star.h             | 8 ++++++--
 include/symbolic/planning/depth_first_search.h | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/symbolic/planning/a_star.h b/include/symbolic/planning/a_star.h
index 2c62ab7..825c792 100644
--- a/include/symbolic/planning/a_star.h
+++ b/include/symbolic/planning/a_star.h
@@ -67,12 +67,15 @@ class AStar<NodeT, Compare>::iterator {
 
   iterator& operator++();
   bool operator==(const iterator& other) const {
-    return queue_.empty() && other.queue_.empty();
+    return IsFinished() && other.IsFinished();
   }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
+  // The last plan may be found while taking the last node from the queue
+  bool IsFinished() const { return queue_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::priority_queue<SearchNode<NodeT>, std::vector<SearchNode<NodeT>>,
@@ -94,7 +97,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -104,6 +107,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
       queue_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
diff --git a/include/symbolic/planning/depth_first_search.h b/include/symbolic/planning/depth_first_search.h
index 711b1f2..42a48a6 100644
--- a/include/symbolic/planning/depth_first_search.h
+++ b/include/symbolic/planning/depth_first_search.h
@@ -54,12 +54,15 @@ class DepthFirstSearch<NodeT>::iterator {
       : stack_({{root, std::vector<NodeT>()}}), kMaxDepth(max_depth) {}
 
   iterator& operator++();
-  bool operator==(const iterator& other) const { return stack_.empty() && other.stack_.empty(); }
+  bool operator==(const iterator& other) const { return IsFinished() && other.IsFinished(); }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
 
+  // The last plan may be found while taking the last node from the stack
+  bool IsFinished() const { return stack_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::stack<std::pair<NodeT, std::vector<NodeT>>> stack_;
@@ -79,7 +82,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -90,6 +93,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
       stack_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
-- 
2.43.0


From bca482b9c3e69232e23ddbe63cd871a6a11cd052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 08/22] fix: enumerate the empty tuple for parameterless
 actions and predicates

The product of no option lists was empty, so the planner never applied an
action without parameters and the state index had no number for a proposition
without arguments.
---
 include/symbolic/utils/combination_generator.h |  3 ++-
 src/utils/parameter_generator.cc               | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 8e696db..0663bc9 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -194,7 +194,8 @@ class CombinationGenerator {
    */
   static size_t ComputeSize(const std::vector<ContainerT*>& options,
                             const std::vector<size_t>& size_groups) {
-    if (options.empty()) return 0;
+    // The only combination of no options is the empty one
+    if (options.empty()) return 1;
     return options.front()->size() * size_groups.front();
   }
 
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 2972bb1..93f9f96 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -58,18 +58,20 @@ namespace symbolic {
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
     : param_types_(ParamTypes(pddl.object_map(), params)) {
+  // There are no combinations if a parameter has no objects of its type
+  if (param_types_.size() != params.size()) return;
   Base::operator=(Base(Options(param_types_)));
 }
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
     : param_types_(other.param_types_) {
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
     : param_types_(std::move(other.param_types_)) {
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));
 }
 
 ParameterGenerator& ParameterGenerator::operator=(
@@ -78,7 +80,7 @@ ParameterGenerator& ParameterGenerator::operator=(
 
   pddl_ = rhs.pddl_;
   param_types_ = rhs.param_types_;
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));
   return *this;
 }
 
@@ -86,7 +88,7 @@ ParameterGenerator& ParameterGenerator::operator=(
     ParameterGenerator&& rhs) noexcept {
   pddl_ = rhs.pddl_;
   param_types_ = std::move(rhs.param_types_);
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));
   return *this;
 }
 
-- 
2.43.0


From aadf0bd271408939141e1c63b7e37121df132502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 09/22] fix: remember the Pddl a parameter generator was made
 for

Only assignment copied the pointer; every constructor left it null, so
pddl() dereferenced a null pointer.
---
 src/utils/parameter_generator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 93f9f96..f23122c 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -57,7 +57,7 @@ namespace symbolic {
 
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
-    : param_types_(ParamTypes(pddl.object_map(), params)) {
+    : pddl_(&pddl), param_types_(ParamTypes(pddl.object_map(), params)) {
   // There are no combinations if a parameter has no objects of its type
   if (param_types_.size() != params.size()) return;
   Base::operator=(Base(Options(param_types_)));
@@ -65,12 +65,12 @@ ParameterGenerator::ParameterGenerator(const Pddl& pddl,
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
-    : param_types_(other.param_types_) {
+    : pddl_(other.pddl_), param_types_(other.param_types_) {
   Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
-    : param_types_(std::move(other.param_types_)) {
+    : pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {
   Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));
 }
 
-- 
2.43.0


From 21b935782946ee2d4c6ff75ea32e1141dc96a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 10/22] fix: put the variable of problem.py's quantifiers in
 parentheses

---
 symbolic/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 518dee6..5b24968 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -41,12 +41,12 @@ def _not(formulas: Formula):
 
 def _forall(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"forall {var_obj}", formula)
+    return create_group(f"forall ({var_obj})", formula)
 
 
 def _exists(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"exists {var_obj}", formula)
+    return create_group(f"exists ({var_obj})", formula)
 
 
 def _when(condition: Formula, implies: Formula):
-- 
2.43.0


From c309004fbbea9f2614cad58d37069c7620ce7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 11/22] fix: parse no arguments from propositions without
 arguments

---
 symbolic/problem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 5b24968..2164e82 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -64,8 +64,8 @@ def parse_proposition(str_prop: str) -> Tuple[str, List[str]]:
     if matches is None:
         raise ValueError(f"Unable to parse proposition from '{str_prop}'.")
     name_pred = matches.group(1)
-    str_args = matches.group(2).replace(" ", "").split(",")
-    return name_pred, str_args
+    str_args = matches.group(2).replace(" ", "")
+    return name_pred, str_args.split(",") if str_args else []
 
 
 def parse_head(str_prop: str) -> str:
@@ -86,8 +86,8 @@ def parse_args(str_prop: str) -> List[str]:
     matches = re.match(r"[^\(]*\(([^\)]*)", str_prop)
     if matches is None:
         raise ValueError(f"Unable to parse objects from '{str_prop}'.")
-    str_args = matches.group(1).replace(" ", "").split(",")
-    return str_args
+    str_args = matches.group(1).replace(" ", "")
+    return str_args.split(",") if str_args else []
 
 
 def pprint_formula(strings: Union[str, List], indent: int = 0) -> str:
-- 
2.43.0


From 118e8bb62968ae99d6abd6000ad0a6a9d6d3784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 12/22] fix: list a problem's untyped objects after the typed
 ones

---
 symbolic/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 2164e82..ab0c68d 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -131,7 +131,9 @@ class Problem:
 
     @property
     def objects(self) -> List[Union[str, Sequence[str]]]:
-        return create_group(":objects", list(map(str, self._objects)))
+        # Untyped objects come last: PDDL gives a type to all names before it.
+        objects = sorted(self._objects, key=lambda obj: not obj.type)
+        return create_group(":objects", list(map(str, objects)))
 
     @property
     def initial_state(self) -> List[Union[str, Sequence[str]]]:
-- 
2.43.0


From 0bba7d7dc17ff6818b4bdadbe605afd2c91d84a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 13/22] fix: keep constants that have the name of a parameter

---
 src/formula.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/formula.cc b/src/formula.cc
index 6299073..90ee09d 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -384,6 +384,11 @@ ApplicationFunction Formula::CreateApplicationFunction(
   // List of (prop parameter index, action parameter index) pairs.
   std::vector<std::pair<size_t, size_t>> idx_params;
   for (size_t i = 0; i < prop_params.size(); i++) {
+    // Constants are not replaced, even if a parameter has the same name.
+    if (dynamic_cast<const VAL::var_symbol*>(prop_params[i].symbol()) ==
+        nullptr) {
+      continue;
+    }
     for (size_t j = 0; j < action_params.size(); j++) {
       if (prop_params[i] == action_params[j]) {
         idx_params.emplace_back(i, j);
-- 
2.43.0


From 4044fc6287392977366fb7eef533a28f67a410c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 14/22] fix: initial states and plans start with their derived
 predicates

---
 src/pddl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 9c220bf..dbd6e9e 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -277,6 +277,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
   if (apply_axioms) {
     initial_state_ = ConsistentState(initial_state_);
   }
+  initial_state_ = DerivedState(initial_state_);
 }
 
 Pddl::Pddl(const std::string& domain_pddl)
@@ -454,7 +455,7 @@ bool Pddl::IsGoalSatisfied(const std::set<std::string>& str_state) const {
 }
 
 bool Pddl::IsValidPlan(const std::vector<std::string>& action_skeleton) const {
-  State state = initial_state_;
+  State state = DerivedState(initial_state_);
   for (const std::string& action_call : action_skeleton) {
     // Parse strings
     std::pair<Action, std::vector<Object>> action_args =
-- 
2.43.0


From c71d9919f6deaf0fa77b29e2da21fcef6fc92621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 15/22] fix: contradictions of axioms applied by an effect are
 reported

---
 src/action.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index 68d42b5..c31337d 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -157,7 +157,7 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
 
       // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
+      status = std::max<int>(status, axiom.Action::Apply(*axiom_args, state));
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
@@ -246,7 +246,7 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
 
       // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
+      status = std::max<int>(status, axiom.Action::Apply(*axiom_args, state));
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
-- 
2.43.0


From e763e6fd01220c7166d7a7bad5d662bbc5ccafaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 16/22] fix: match axiom contexts to the innermost parameters
 and keep constants

---
 src/axiom.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index 60b511d..e8b2f66 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -102,6 +102,19 @@ SignedProposition ExtractContextPredicate(const Pddl& pddl,
   return SignedProposition(name_predicate, std::move(args), is_pos);
 }
 
+/**
+ * Finds the innermost parameter a variable refers to. Returns the number of
+ * parameters for constants, even if a parameter has the same name.
+ */
+size_t FindParameter(const std::vector<Object>& params, const Object& arg) {
+  if (dynamic_cast<const VAL::var_symbol*>(arg.symbol()) != nullptr) {
+    for (size_t i = params.size(); i > 0; i--) {
+      if (params[i - 1] == arg) return i - 1;
+    }
+  }
+  return params.size();
+}
+
 }  // namespace
 
 namespace symbolic {
@@ -248,18 +261,12 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
     // Check if axiom prop param has corresponding axiom param.
     const Object& axiom_prop_param = axiom_prop_params[idx_prop];
-    size_t i = 0;
-    for (; i < axiom_params.size(); i++) {
-      if (axiom_params[i] == axiom_prop_param) break;
-    }
+    const size_t i = FindParameter(axiom_params, axiom_prop_param);
     const bool is_axiom_prop_arg = i == axiom_params.size();
 
     // Check if action prop param has corresponding action param.
     const Object& action_prop_param = action_prop_params[idx_prop];
-    size_t j = 0;
-    for (; j < action_params.size(); j++) {
-      if (action_params[j] == action_prop_param) break;
-    }
+    const size_t j = FindParameter(action_params, action_prop_param);
     const bool is_action_prop_arg = j == action_params.size();
 
     if (is_axiom_prop_arg && is_action_prop_arg) {
-- 
2.43.0


From 97954993d11c2ebdf6a6e3c6511e25d536847c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 17/22] fix: apply axioms only to arguments that fit their
 context and types

---
 src/axiom.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index e8b2f66..65fa109 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -257,6 +257,7 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   // Check unmatched axiom prop param equal action param.
   std::vector<std::pair<size_t, size_t>> idx_params;
   auto axiom_args = std::make_shared<std::vector<Object>>(axiom_params);
+  std::vector<std::pair<size_t, Object>> fixed_axiom_args;
   std::vector<std::pair<size_t, Object>> future_action_args;
   for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
     // Check if axiom prop param has corresponding axiom param.
@@ -278,6 +279,7 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
     } else if (is_action_prop_arg) {
       // Instantiate axiom prop param with action prop arg.
       (*axiom_args)[i] = action_prop_param;
+      fixed_axiom_args.emplace_back(i, action_prop_param);
     } else {
       // Match axiom prop param and action prop param.
       idx_params.emplace_back(i, j);
@@ -285,8 +287,9 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   }
 
   // TODO(tmigimatsu): shared_ptr makes this not thread-safe.
-  return [ptr_axiom_args = std::move(axiom_args),
+  return [axiom_params, ptr_axiom_args = std::move(axiom_args),
           idx_params = std::move(idx_params),
+          fixed_axiom_args = std::move(fixed_axiom_args),
           future_action_args = std::move(future_action_args)](
              const std::vector<Object>& action_args)
              -> const std::vector<Object>* {
@@ -304,6 +307,22 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
       const size_t idx_action = idx_axiom_action.second;
       axiom_args[idx_axiom] = action_args[idx_action];
     }
+
+    // Check that axiom params used more than once were given equal args.
+    for (const std::pair<size_t, size_t>& idx_axiom_action : idx_params) {
+      const Object& action_arg = action_args[idx_axiom_action.second];
+      if (axiom_args[idx_axiom_action.first] != action_arg) return nullptr;
+    }
+    for (const std::pair<size_t, Object>& idx_argument : fixed_axiom_args) {
+      if (axiom_args[idx_argument.first] != idx_argument.second) return nullptr;
+    }
+
+    // Check that axiom args have the types of the axiom params.
+    for (size_t i = 0; i < axiom_params.size(); i++) {
+      if (!axiom_args[i].type().IsSubtype(axiom_params[i].type())) {
+        return nullptr;
+      }
+    }
     return &axiom_args;
   };
 }
-- 
2.43.0


From 81eafc9c31647ad3baa8d00e38f26590f0505f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 18/22] fix: keep the arguments of an axiom while its effects
 apply it again

---
 src/action.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index c31337d..18d0cc6 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -157,7 +157,9 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
 
       // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      status = std::max<int>(status, axiom.Action::Apply(*axiom_args, state));
+      // Copy the arguments, since this axiom may be applied again meanwhile.
+      const std::vector<Object> args = *axiom_args;
+      status = std::max<int>(status, axiom.Action::Apply(args, state));
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
@@ -246,7 +248,9 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
 
       // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      status = std::max<int>(status, axiom.Action::Apply(*axiom_args, state));
+      // Copy the arguments, since this axiom may be applied again meanwhile.
+      const std::vector<Object> args = *axiom_args;
+      status = std::max<int>(status, axiom.Action::Apply(args, state));
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
-- 
2.43.0


From a49ec3eb3bca8498332c8419f91c39cf2fdb70d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:50 +0000
Subject: [PATCH 19/22] fix: keep the constants of a domain loaded without a
 problem

---
 src/pddl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pddl.cc b/src/pddl.cc
index dbd6e9e..c70868e 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -283,6 +283,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
 Pddl::Pddl(const std::string& domain_pddl)
     : analysis_(ParsePddl(domain_pddl, "")),
       domain_pddl_(domain_pddl),
+      constants_(GetObjects(*analysis_->the_domain)),
       objects_(GetObjects(*analysis_->the_domain)),
       object_map_(CreateObjectTypeMap(objects_)),
       axioms_(GetAxioms(*this, *analysis_->the_domain)),
-- 
2.43.0


From 1e380a0ba7db630ce7459580428544b2e3ba4aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 20/22] fix: normal forms of disjunctions with true terms or
 without terms

---
 src/normal_form.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index f178b0c..2960870 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -191,10 +191,14 @@ std::optional<DisjunctiveFormula> Disjoin(
     bool apply_axioms) {
   DisjunctiveFormula disj;
   for (DisjunctiveFormula& dnf : dnfs) {
+    // An empty formula is true, and so is any disjunction with it.
+    if (dnf.empty()) return DisjunctiveFormula();
     disj.conjunctions.insert(disj.conjunctions.end(),
                              std::make_move_iterator(dnf.conjunctions.begin()),
                              std::make_move_iterator(dnf.conjunctions.end()));
   }
+  // A disjunction of nothing is false.
+  if (disj.empty()) return {};
   return Simplify(pddl, std::move(disj), apply_axioms);
 }
 
-- 
2.43.0


From 41edcfe420192bb78de90c6f78b8b66e95b74204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 21/22] fix: normal forms of empty conjunctions and of their
 negations

---
 src/normal_form.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 2960870..2e16cb6 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -216,6 +216,9 @@ std::optional<DisjunctiveFormula> Conjoin(
     if (dnf.empty()) continue;
     conjunctions.push_back(&dnf.conjunctions);
   }
+  // A conjunction of nothing is true.
+  if (conjunctions.empty()) return conj;
+
   CombinationGenerator<const std::vector<DisjunctiveFormula::Conjunction>> gen(
       conjunctions);
 
@@ -267,6 +270,9 @@ std::optional<DisjunctiveFormula> Negate(const Pddl& pddl,
                                          DisjunctiveFormula&& dnf) {
   // !((a & b) | (c & d) | (e & f))
 
+  // An empty formula is true, so its negation is false.
+  if (dnf.empty()) return {};
+
   // ((!a & !b) | (!c & !d) | (!e & !f))
   for (DisjunctiveFormula::Conjunction& conj : dnf.conjunctions) {
     std::swap(conj.pos(), conj.neg());
-- 
2.43.0


From 1dbfd4ff1e10ff7b0974f8eb06c6cb26bc6a9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 22/22] fix: keep effects whose condition is always true in
 normal forms

---
 src/normal_form.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 2e16cb6..5621f0f 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -454,7 +454,9 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
     std::optional<DisjunctiveFormula> result =
         Create(pddl, effect->getEffects(), parameters, arguments);
 
-    if (condition->empty()) {
+    condition = Negate(pddl, std::move(*condition));
+
+    if (!condition.has_value()) {
       // Condition always true
       if (!result.has_value()) {
         // Result always false
@@ -466,9 +468,6 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
       continue;
     }
 
-    condition = Negate(pddl, std::move(*condition));
-    if (!condition.has_value()) continue;  // Axiom violated
-
     if (!result.has_value()) {
       // Result always false, so return neg condition
       dnfs.push_back(std::move(*condition));
-- 
2.43.0

