// lib
// The planning interface against its definitions over actions, derived predicates, axioms and the goal.
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <set>
#include <string>
#include <vector>
#include "symbolic/pddl.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s\n", __LINE__, #x); return 1; } } while (0)
using namespace symbolic;
static const char* kDomain =
    "(define (domain d) (:requirements :typing)\n (:types box - thing thing - object)\n (:constants c - thing)\n"
    " (:predicates (held ?a - thing) (free ?a - thing) (on ?a - thing ?b - thing) (near ?a - thing ?b - thing) (busy ?a - thing) (hot ?a - thing) (warm ?a - thing))\n"
    " (:action pick :parameters (?a - box) :precondition (not (busy ?a)) :effect (held ?a))\n"
    " (:action put :parameters (?a - box ?b - thing) :precondition (and (busy ?a) (not (on ?a ?b))) :effect (and (on ?a ?b) (not (held ?a))))\n"
    " (:action wait :parameters () :precondition (exists (?a - thing) (busy ?a)) :effect (hot c))\n"
    " (:axiom :vars (?a - thing) :context (hot ?a) :implies (warm ?a))\n"
    " (:axiom :vars (?a - thing) :context (warm ?a) :implies (not (free ?a)))\n"
    " (:derived (busy ?a - thing) (held ?a)))\n";
static std::string Problem(const std::string& init, const std::string& goal) {
  return "(define (problem p) (:domain d) (:objects x - box y - box)\n (:init " + init + ") (:goal " + goal + "))\n";
}
static State Step(const Pddl& pddl, const State& s, const Action& a, const std::vector<Object>& args) {
  State t = a.Apply(s, args);
  DerivedPredicate::Apply(pddl.derived_predicates(), &t);
  return t;
}
static bool Valid(const Pddl& pddl, const std::string& call, const State& s) {
  const auto aa = Action::Parse(pddl, call);
  return aa.first.IsValid(s, aa.second);
}
static int Run(const std::string& dom) {
  {
    const Pddl pddl(dom, Problem("(held x) (free y) (hot y) (free c)", "(and (on x y) (on y x))"));
    // the initial state is consistent and has its derived predicates
    State init;
    for (const char* s : {"held(x)", "free(c)", "hot(y)", "warm(y)", "busy(x)"}) init.emplace(pddl, s);
    CHECK(pddl.initial_state() == init);
    CHECK(pddl.IsValidState(init));
    State bad = init;
    bad.emplace(pddl, "free(y)");
    CHECK(!pddl.IsValidState(bad));
    bad.erase(Proposition(pddl, "hot(y)"));
    CHECK(!pddl.IsValidState(bad));
    bad.erase(Proposition(pddl, "warm(y)"));
    CHECK(pddl.IsValidState(bad));
    CHECK(pddl.ConsistentState(bad) == bad);
    // all states reachable in a few steps
    std::vector<State> todo = {pddl.initial_state()};
    for (size_t n = 0; n < todo.size() && n < 60; n++) {
      const State s = todo[n];
      std::set<std::string> str = Stringify(s);
      std::vector<std::string> want;
      for (const Action& a : pddl.actions()) {
        std::vector<std::vector<Object>> args;
        for (const std::vector<Object>& g : a.parameter_generator()) {
          if (a.IsValid(s, g)) args.push_back(g);
          const std::string call = a.to_string(g);
          CHECK(pddl.IsValidAction(s, call) == a.IsValid(s, g));
          const State t = Step(pddl, s, a, g);
          CHECK(pddl.NextState(s, call) == t);
          CHECK(pddl.ApplyActions(s, {call}) == t);
          CHECK(pddl.ApplyActions(s, {call, "pick(y)"}) == pddl.NextState(t, "pick(y)"));
          CHECK(pddl.IsValidTuple(s, call, t) == a.IsValid(s, g));
          CHECK(pddl.IsValidTuple(str, call, Stringify(t)) == a.IsValid(s, g));
          State u = t;
          if (u.contains(Proposition(pddl, "near(x, y)"))) u.erase(Proposition(pddl, "near(x, y)")); else u.emplace(pddl, "near(x, y)");
          CHECK(!pddl.IsValidTuple(s, call, u));
          CHECK(!pddl.IsValidTuple(str, call, Stringify(u)));
          if (a.IsValid(s, g)) {
            want.push_back(call);
            if (std::find(todo.begin(), todo.end(), t) == todo.end()) todo.push_back(t);
          }
        }
        std::vector<std::vector<Object>> got = pddl.ListValidArguments(s, a);
        std::vector<std::vector<std::string>> names = pddl.ListValidArguments(str, a.name());
        CHECK(got.size() == args.size() && names.size() == args.size());
        for (const std::vector<Object>& g : args) {
          CHECK(std::find(got.begin(), got.end(), g) != got.end());
          CHECK(std::find(names.begin(), names.end(), Stringify(g)) != names.end());
        }
      }
      std::vector<std::string> got = pddl.ListValidActions(s), got2 = pddl.ListValidActions(str);
      std::sort(got.begin(), got.end());
      std::sort(got2.begin(), got2.end());
      std::sort(want.begin(), want.end());
      CHECK(got == want && got2 == want);
      CHECK(pddl.IsGoalSatisfied(s) == pddl.goal()(s));
      CHECK(pddl.IsGoalSatisfied(str) == pddl.goal()(s));
      CHECK(pddl.DerivedState(s) == s);
    }
    CHECK(todo.size() > 8);
    CHECK(pddl.ApplyActions(init, {}) == init);
    // plans
    const std::vector<std::vector<std::string>> plans = {
        {}, {"put(x, y)"}, {"put(x, y)", "pick(y)", "put(y, x)"}, {"pick(y)", "put(y, x)", "put(x, y)"},
        {"put(y, x)", "put(x, y)"}, {"pick(x)", "put(x, y)", "pick(y)", "put(y, x)"},
        {"put(x, y)", "pick(y)", "put(y, x)", "put(y, x)"}, {"put(x, y)", "pick(y)", "put(y, x)", "pick(x)"}};
    int good = 0;
    for (const std::vector<std::string>& plan : plans) {
      State s = pddl.initial_state();
      bool ok = true;
      for (const std::string& call : plan) {
        ok = ok && Valid(pddl, call, s);
        s = pddl.NextState(s, call);
      }
      ok = ok && pddl.goal()(s);
      good += ok;
      CHECK(pddl.IsValidPlan(plan) == ok);
    }
    CHECK(good == 3);
  }
  {
    const Pddl pddl(dom, Problem("", "(and)"));
    CHECK(pddl.IsValidPlan({}));
    CHECK(!pddl.IsValidPlan({"put(x, y)"}));
  }
  {
    // partial states: consequences of what is known, and contradictions
    const Pddl pddl(dom, Problem("", "(and)"));
    State pos, neg;
    pos.emplace(pddl, "hot(x)");
    PartialState ps(std::move(pos), std::move(neg));
    const PartialState done = pddl.ConsistentState(ps);
    CHECK(done.contains(Proposition(pddl, "warm(x)")));
    CHECK(done.does_not_contain(Proposition(pddl, "free(x)")));
    CHECK(pddl.IsValidState(done));
    PartialState wrong = ps;
    wrong.insert(Proposition(pddl, "free(x)"));
    CHECK(!pddl.IsValidState(wrong));
    bool thrown = false;
    try { pddl.ConsistentState(wrong); } catch (const std::exception&) { thrown = true; }
    CHECK(thrown);
  }
  return 0;
}
int main() {
  char dir[] = "/tmp/pddl-XXXXXX";
  if (!mkdtemp(dir)) return 2;
  const std::string dom = std::string(dir) + "/domain.pddl";
  { std::ofstream f(dom); f << kDomain; }
  int r = 1;
  try { r = Run(dom); } catch (const std::exception& e) { std::printf("exception %s\n", e.what()); }
  unlink(dom.c_str());
  rmdir(dir);
  if (r == 0) std::puts("ok");
  return r;
}
