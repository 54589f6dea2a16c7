// lib
// Effects of every kind against their meaning on all small states (effects that conflict with each other left out), and calls.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include "symbolic/pddl.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s (%s)\n", __LINE__, #x, now.c_str()); return 1; } } while (0)
using namespace symbolic;
static std::string now;
static const char* kDomain =
    "(define (domain d) (:requirements :typing)\n (:types block - thing ghost - thing thing - object)\n (:constants c - block)\n"
    " (:predicates (p ?a - thing) (q ?a - thing) (r ?a - thing ?b - thing) (u ?a - thing))\n"
    " (:axiom :vars (?v - thing) :context (u ?v) :implies (q ?v))\n"
    " (:action a0 :parameters (?x - thing) :precondition (p ?x) :effect (p ?x))\n"
    " (:action a1 :parameters (?x - thing) :precondition (p ?x) :effect (not (p ?x)))\n"
    " (:action a2 :parameters (?x - thing ?y - thing) :precondition (p ?x) :effect (and (r ?y ?x) (p c) (not (q ?x)) (not (u ?y))))\n"
    " (:action a3 :parameters (?x - thing) :precondition (p ?x) :effect (when (p ?x) (and (q ?x) (not (u ?x)))))\n"
    " (:action a4 :parameters (?x - thing) :precondition (p ?x) :effect (forall (?y - block) (and (r ?y ?x) (not (q ?y)))))\n"
    " (:action a5 :parameters (?x - thing) :precondition (p ?x) :effect (forall (?g - ghost) (q ?g)))\n"
    " (:action a6 :parameters (?x - thing) :precondition (p ?x) :effect (forall (?y - thing) (when (r ?x ?y) (q ?y))))\n"
    " (:action a7 :parameters (?x - thing) :precondition (p ?x) :effect (forall (?x - block) (not (p ?x))))\n"
    " (:action a8 :parameters (?x - thing ?y - thing) :precondition (p ?x) :effect (and (= ?x ?y) (p ?x)))\n"
    " (:action a9 :parameters (?x - thing) :precondition (p ?x) :effect (block ?x))\n"
    " (:action b0 :parameters (?x - thing ?y - thing) :precondition (p ?x) :effect (and (p ?x) (not (= ?x ?y))))\n"
    " (:action b1 :parameters (?x - thing) :precondition (p ?x) :effect (and (p ?x) (not (block ?x))))\n"
    " (:action b2 :parameters () :precondition (p c) :effect (and))\n"
    " (:action b3 :parameters (?x - block ?y - thing) :precondition (p ?x) :effect (u ?y))\n"
    " (:action b4 :parameters (?x - thing) :precondition (p ?x) :effect (when (not (q ?x)) (r ?x ?x))))\n";
static const char* kProblem =
    "(define (problem p) (:domain d) (:objects b - block t - thing)\n (:init (p b)) (:goal (p b)))\n";
using Set = std::set<std::string>;
using V = std::vector<std::string>;
using M = std::function<bool(Set*, const V&)>;
template <typename F> static bool Throws(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  CHECK(mkdtemp(dir));
  const std::string d = std::string(dir) + "/d.pddl", pf = std::string(dir) + "/p.pddl";
  std::ofstream(d) << kDomain;
  std::ofstream(pf) << kProblem;
  const Pddl pddl(d, pf, false);
  unlink(d.c_str()); unlink(pf.c_str()); rmdir(dir);
  const V all = {"c", "b", "t"}, blocks = {"c", "b"};
  const auto f1 = [](const char* n, const std::string& x) { return std::string(n) + "(" + x + ")"; };
  const auto r = [](const std::string& x, const std::string& y) { return "r(" + x + ", " + y + ")"; };
  std::map<std::string, M> mean;
  mean["a0"] = [&](Set* s, const V& a) { s->insert(f1("p", a[0])); return true; };
  mean["a1"] = [&](Set* s, const V& a) { s->erase(f1("p", a[0])); return true; };
  mean["a2"] = [&](Set* s, const V& a) {
    s->erase(f1("q", a[0])); s->erase(f1("u", a[1])); s->insert(r(a[1], a[0])); s->insert("p(c)"); return true; };
  mean["a3"] = [&](Set* s, const V& a) { if (s->count(f1("p", a[0]))) { s->insert(f1("q", a[0])); s->erase(f1("u", a[0])); } return true; };
  mean["a4"] = [&](Set* s, const V& a) { for (const auto& y : blocks) { s->insert(r(y, a[0])); s->erase(f1("q", y)); } return true; };
  mean["a5"] = [&](Set* s, const V& a) { return true; };
  mean["a6"] = [&](Set* s, const V& a) { for (const auto& y : all) if (s->count(r(a[0], y))) s->insert(f1("q", y)); return true; };
  mean["a7"] = [&](Set* s, const V& a) { for (const auto& y : blocks) s->erase(f1("p", y)); return true; };
  mean["a8"] = [&](Set* s, const V& a) { s->insert(f1("p", a[0])); return a[0] == a[1]; };
  mean["a9"] = [&](Set* s, const V& a) { return a[0] != "t"; };
  mean["b0"] = [&](Set* s, const V& a) { s->insert(f1("p", a[0])); return a[0] != a[1]; };
  mean["b1"] = [&](Set* s, const V& a) { s->insert(f1("p", a[0])); return a[0] == "t"; };
  mean["b2"] = [&](Set* s, const V& a) { return true; };
  mean["b3"] = [&](Set* s, const V& a) { if (s->insert(f1("u", a[1])).second) s->insert(f1("q", a[1])); return true; };
  mean["b4"] = [&](Set* s, const V& a) { if (!s->count(f1("q", a[0]))) s->insert(r(a[0], a[0])); return true; };
  V props;
  for (const auto& x : all) for (const char* n : {"p", "q", "u"}) props.push_back(f1(n, x));
  for (const auto& x : all) for (const auto& y : all) props.push_back(r(x, y));
  unsigned seed = 7;
  const auto rnd = [&seed]() { seed = seed * 1103515245u + 12345u; return seed >> 8; };
  const auto text = [](const State& s) { Set t; for (const Proposition& q : s) t.insert(q.to_string()); return t; };
  for (int k = 0; k < 300; k++) {
    const unsigned bits = k == 0 ? 0 : k == 1 ? ~0u : rnd();
    State state, neg;
    for (size_t i = 0; i < props.size(); i++) {
      const Proposition q(pddl, props[i]);
      if (bits >> i & 1) state.insert(q); else neg.insert(q);
    }
    const Set before = text(state);
    for (const Action& action : pddl.actions()) {
      const M& m = mean.at(action.name());
      for (const std::vector<Object>& args : action.parameter_generator()) {
        V a;
        for (const Object& o : args) a.push_back(o.name());
        now = action.to_string(args);
        Set want = before;
        State in_place = state;
        const PartialState part(state, neg), open(State{}, State{});
        PartialState part_in = part;
        CHECK(action.IsValid(state, args) == (bool)before.count(action.parameters().empty() ? "p(c)" : f1("p", a[0])));
        if (!m(&want, a)) {
          CHECK(Throws([&]() { action.Apply(state, args); }));
          CHECK(Throws([&]() { action.Apply(part, args); }));
          continue;
        }
        CHECK(text(action.Apply(state, args)) == want);
        CHECK(text(state) == before);
        CHECK(action.Apply(args, &in_place) == (want != before));
        CHECK(text(in_place) == want);
        CHECK(text(action.Apply(part, args).pos()) == want);
        CHECK(action.Apply(args, &part_in) == (want != before ? 2 : 0));
        CHECK(text(part_in.pos()) == want && part_in.neg().size() == props.size() - want.size());
        PartialState made = open;
        const int n = action.Apply(args, &made);
        CHECK(n == (made == open ? 0 : 1));
      }
    }
  }
  now = "calls";
  const std::pair<Action, std::vector<Object>> call = Action::Parse(pddl, "b3(c, t)");
  CHECK(call.first.name() == "b3" && call.second.size() == 2 && call.second[0].name() == "c" && call.second[1].name() == "t");
  CHECK(Throws([&]() { Action::Parse(pddl, "b3(t, c)"); }));
  CHECK(Throws([&]() { Action::Parse(pddl, "b3(c)"); }));
  CHECK(Throws([&]() { Action::Parse(pddl, "b3(c, t, t)"); }));
  CHECK(Throws([&]() { Action::Parse(pddl, "zz(c, t)"); }));
  CHECK(Throws([&]() { Action(pddl, "zz"); }));
  CHECK(Action(pddl, "b3(c, t)") == Action(pddl, "b3") && Action(pddl, "a2").parameters().size() == 2 && &Action(pddl, "a2").pddl() == &pddl);
  return 0;
}
