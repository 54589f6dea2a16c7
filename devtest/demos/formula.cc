// lib
// Preconditions of every kind of goal against their meaning, on all small states; partial values against all completions.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include "symbolic/pddl.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s (%s)\n", __LINE__, #x, now.c_str()); return 1; } } while (0)
using namespace symbolic;
static std::string now;
static const char* kDomain =
    "(define (domain d) (:requirements :typing)\n (:types block - thing ghost - thing thing - object)\n (:constants c - block)\n"
    " (:predicates (p ?a - thing) (r ?a - thing ?b - thing))\n"
    " (:action a0 :parameters (?x - thing) :precondition (p ?x) :effect (p c))\n"
    " (:action a1 :parameters (?x - thing) :precondition (not (p ?x)) :effect (p c))\n"
    " (:action a2 :parameters (?x - thing ?y - thing) :precondition (and (p ?x) (r ?x ?y) (p ?y)) :effect (p c))\n"
    " (:action a3 :parameters (?x - thing ?y - thing) :precondition (or (p ?x) (r ?x ?y) (p ?y)) :effect (p c))\n"
    " (:action a4 :parameters (?x - thing ?y - thing) :precondition (and (= ?x ?y)) :effect (p c))\n"
    " (:action a5 :parameters (?x - thing ?y - thing) :precondition (not (= ?y ?x)) :effect (p c))\n"
    " (:action a6 :parameters (?x - thing) :precondition (block ?x) :effect (p c))\n"
    " (:action a7 :parameters (?x - thing) :precondition (not (thing ?x)) :effect (p c))\n"
    " (:action a8 :parameters () :precondition (and) :effect (p c))\n"
    " (:action a9 :parameters () :precondition (or) :effect (p c))\n"
    " (:action b0 :parameters (?x - thing) :precondition (forall (?y - block) (r ?x ?y)) :effect (p c))\n"
    " (:action b1 :parameters (?x - thing) :precondition (exists (?y - block) (r ?y ?x)) :effect (p c))\n"
    " (:action b2 :parameters (?x - thing) :precondition (forall (?g - ghost) (p ?g)) :effect (p c))\n"
    " (:action b3 :parameters (?x - thing) :precondition (exists (?g - ghost) (p ?g)) :effect (p c))\n"
    " (:action b4 :parameters (?x - thing) :precondition (exists (?y - thing) (forall (?x - block) (r ?x ?y))) :effect (p c))\n"
    " (:action b5 :parameters (?x - thing) :precondition (not (and (p c) (not (or (p ?x) (r ?x c))))) :effect (p c))\n"
    " (:action b6 :parameters (?c - thing) :precondition (r ?c c) :effect (p c))\n"
    " (:action b7 :parameters (?x - thing) :precondition (forall (?y - block ?z - block) (or (= ?y ?z) (r ?y ?z) (p ?x))) :effect (p c)))\n";
static const char* kProblem =
    "(define (problem p) (:domain d) (:objects b - block t - thing)\n (:init (p b)) (:goal (and (p b) (not (r t c)) (exists (?y - thing) (r ?y ?y)))))\n";
using Bits = std::function<bool(const std::string&)>;
using V = std::vector<std::string>;
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  CHECK(mkdtemp(dir));
  const std::string d = std::string(dir) + "/d.pddl", pf = std::string(dir) + "/p.pddl";
  std::ofstream(d) << kDomain;
  std::ofstream(pf) << kProblem;
  const Pddl pddl(d, pf, false);
  unlink(d.c_str()); unlink(pf.c_str()); rmdir(dir);
  const V all = {"c", "b", "t"}, blocks = {"c", "b"};
  const auto in = [](const V& v, const std::string& s) { for (const auto& x : v) if (x == s) return true; return false; };
  using M = std::function<bool(const Bits&, const V&)>;
  const auto p = [](const std::string& x) { return "p(" + x + ")"; };
  const auto r = [](const std::string& x, const std::string& y) { return "r(" + x + ", " + y + ")"; };
  std::map<std::string, M> mean;
  mean["a0"] = [&](const Bits& s, const V& a) { return s(p(a[0])); };
  mean["a1"] = [&](const Bits& s, const V& a) { return !s(p(a[0])); };
  mean["a2"] = [&](const Bits& s, const V& a) { return s(p(a[0])) && s(r(a[0], a[1])) && s(p(a[1])); };
  mean["a3"] = [&](const Bits& s, const V& a) { return s(p(a[0])) || s(r(a[0], a[1])) || s(p(a[1])); };
  mean["a4"] = [&](const Bits& s, const V& a) { return a[0] == a[1]; };
  mean["a5"] = [&](const Bits& s, const V& a) { return a[0] != a[1]; };
  mean["a6"] = [&](const Bits& s, const V& a) { return in(blocks, a[0]); };
  mean["a7"] = [&](const Bits& s, const V& a) { return false; };
  mean["a8"] = [&](const Bits& s, const V& a) { return true; };
  mean["a9"] = [&](const Bits& s, const V& a) { return false; };
  mean["b0"] = [&](const Bits& s, const V& a) { for (const auto& y : blocks) if (!s(r(a[0], y))) return false; return true; };
  mean["b1"] = [&](const Bits& s, const V& a) { for (const auto& y : blocks) if (s(r(y, a[0]))) return true; return false; };
  mean["b2"] = [&](const Bits& s, const V& a) { return true; };
  mean["b3"] = [&](const Bits& s, const V& a) { return false; };
  mean["b4"] = [&](const Bits& s, const V& a) {
    for (const auto& y : all) { bool f = true; for (const auto& x : blocks) f = f && s(r(x, y)); if (f) return true; }
    return false; };
  mean["b5"] = [&](const Bits& s, const V& a) { return !(s(p("c")) && !(s(p(a[0])) || s(r(a[0], "c")))); };
  mean["b6"] = [&](const Bits& s, const V& a) { return s(r(a[0], "c")); };
  mean["b7"] = [&](const Bits& s, const V& a) {
    for (const auto& y : blocks) for (const auto& z : blocks) if (!(y == z || s(r(y, z)) || s(p(a[0])))) return false;
    return true; };
  V props;
  for (const auto& x : all) props.push_back(p(x));
  for (const auto& x : all) for (const auto& y : all) props.push_back(r(x, y));
  const int n = props.size();
  unsigned seed = 7;
  const auto rnd = [&seed]() { seed = seed * 1103515245u + 12345u; return seed >> 8; };
  for (int k = 0; k < 400; k++) {
    const unsigned bits = k == 0 ? 0 : k == 1 ? ~0u : rnd(), known = k % 3 == 0 ? ~0u : rnd() | rnd();
    State state, neg, pos;
    for (int i = 0; i < n; i++) {
      const Proposition q(pddl, props[i]);
      if (bits >> i & 1) state.insert(q);
      if (known >> i & 1) { if (bits >> i & 1) pos.insert(q); else neg.insert(q); }
    }
    const PartialState part(pos, neg);
    const auto bit = [&](unsigned b) -> Bits {
      return [&props, b, n](const std::string& q) { for (int i = 0; i < n; i++) if (props[i] == q) return bool(b >> i & 1); return false; }; };
    for (const Action& action : pddl.actions()) {
      const M& m = mean.at(action.name());
      for (const std::vector<Object>& args : action.parameter_generator()) {
        V a;
        for (const Object& o : args) a.push_back(o.name());
        now = action.to_string(args);
        CHECK(action.IsValid(state, args) == m(bit(bits), a));
        const std::optional<bool> val = action.preconditions()(part, args);
        if (known == ~0u) CHECK(val.has_value());
        if (!val.has_value()) continue;
        for (int t = 0; t < 12; t++) {
          const unsigned b = (bits & known) | (rnd() & ~known);
          CHECK(*val == m(bit(b), a));
        }
      }
    }
    now = "goal";
    const Bits s = bit(bits);
    CHECK(pddl.IsGoalSatisfied(state) == (s("p(b)") && !s("r(t, c)") && (s("r(c, c)") || s("r(b, b)") || s("r(t, t)"))));
  }
  return 0;
}
