// lib
// Successors of search nodes, recomputed independently, and the plans found by the searches.
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <string>
#include <vector>
#include "symbolic/pddl.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/planner.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s\n", __LINE__, #x); return 1; } } while (0)
using namespace symbolic;
static const char* kDomain =
    "(define (domain d) (:requirements :typing)\n (:types thing - object ghost - object switch - object)\n"
    " (:predicates (held ?a - thing) (on ?a - thing ?b - thing) (busy ?a - thing) (lit ?a - thing) (down ?s - switch))\n"
    " (:action pick :parameters (?a - thing) :precondition (not (held ?a)) :effect (held ?a))\n"
    " (:action haunt :parameters (?g - ghost ?a - thing) :precondition (held ?a) :effect (not (held ?a)))\n"
    " (:action drop :parameters (?a - thing) :precondition (held ?a) :effect (not (held ?a)))\n"
    " (:action press :parameters (?s - switch) :precondition (not (down ?s)) :effect (down ?s))\n"
    " (:action light :parameters (?a - thing ?b - thing) :precondition (held ?a) :effect (lit ?b))\n"
    " (:action spook :parameters (?g - ghost) :precondition (and) :effect (and))\n"
    " (:action put :parameters (?a - thing ?b - thing) :precondition (and (held ?a) (not (on ?a ?b))) :effect (and (on ?a ?b) (not (held ?a))))\n"
    " (:derived (busy ?a - thing) (held ?a)))\n";
static const char* kProblem =
    "(define (problem p) (:domain d) (:objects x - thing y - thing w - switch)\n (:init (on x y)) (:goal (and (on y x) (lit y) (held x))))\n";
struct Child { std::string action; State state; };
static std::vector<Child> Expect(const Pddl& pddl, const State& s, const std::vector<State>& seen) {
  std::vector<Child> out;
  for (const Action& a : pddl.actions()) {
    const ParameterGenerator& g = a.parameter_generator();
    for (size_t i = 0; i < g.size(); i++) {
      const std::vector<Object> args = g.at(i);
      if (!a.IsValid(s, args)) continue;
      State t = a.Apply(s, args);
      DerivedPredicate::Apply(pddl.derived_predicates(), &t);
      if (std::find(seen.begin(), seen.end(), t) != seen.end()) continue;
      out.push_back({a.to_string(args), t});
    }
  }
  return out;
}
static int Walk(const Pddl& pddl, const Planner::Node& n, std::vector<State> seen, size_t depth) {
  CHECK(n.depth() == seen.size());
  seen.push_back(n.state());
  const std::vector<Child> want = Expect(pddl, n.state(), seen);
  std::vector<Planner::Node> got;
  for (const Planner::Node& c : n) got.push_back(c);
  CHECK(got.size() == want.size());
  for (size_t i = 0; i < got.size(); i++) {
    CHECK(got[i].action() == want[i].action);
    CHECK(got[i].state() == want[i].state);
    CHECK(got[i].depth() == seen.size());
    CHECK(std::hash<Planner::Node>{}(got[i]) == std::hash<State>{}(want[i].state));
    CHECK(static_cast<bool>(got[i]) == pddl.goal()(want[i].state));
  }
  auto it = n.end();
  for (size_t i = got.size(); i-- > 0;) {
    --it;
    CHECK((*it).action() == want[i].action && (*it).state() == want[i].state);
  }
  if (seen.size() < depth) {
    for (const Planner::Node& c : got) if (Walk(pddl, c, seen, depth)) return 1;
  }
  return 0;
}
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  if (!mkdtemp(dir)) return 1;
  const std::string d = std::string(dir) + "/d.pddl", p = std::string(dir) + "/p.pddl";
  std::ofstream(d) << kDomain;
  std::ofstream(p) << kProblem;
  int rc = [&]() -> int {
    const Pddl pddl(d, p);
    State start = pddl.initial_state();
    start.insert(Proposition(pddl, "held(x)"));
    const Planner planner(pddl, start);
    CHECK(planner.root().state().contains(Proposition(pddl, "busy(x)")));
    if (Walk(pddl, planner.root(), {}, 4)) return 1;
    const Planner fresh(pddl);
    CHECK(fresh.root().state() == pddl.ConsistentState(pddl.initial_state()));
    BreadthFirstSearch<Planner::Node> bfs(planner.root(), 5);
    size_t last = 0, plans = 0;
    for (const auto& plan : bfs) {
      CHECK(plan.size() >= last && static_cast<bool>(plan.back()));
      State s = planner.root().state();
      for (size_t i = 1; i < plan.size(); i++) {
        CHECK(pddl.IsValidAction(s, plan[i].action()));
        s = pddl.NextState(s, plan[i].action());
        CHECK(s == plan[i].state());
      }
      last = plan.size();
      if (++plans == 3) break;
    }
    CHECK(plans > 0);
    return 0;
  }();
  unlink(d.c_str()); unlink(p.c_str()); rmdir(dir);
  return rc;
}
