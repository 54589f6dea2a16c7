// lib
// Normal forms against the formulas and effects they stand for, on every small state.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
#include "symbolic/normal_form.h"
#include "symbolic/pddl.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s (%s)\n", __LINE__, #x, now.c_str()); return 1; } } while (0)
using namespace symbolic;
static std::string now;
static std::string dir;
static std::string Write(const std::string& name, const std::string& text) {
  const std::string f = dir + "/" + name;
  std::ofstream(f) << text;
  return f;
}
static bool Literal(const Proposition& p, const State& s) {
  if (p.name() == "=") return p.arguments()[0] == p.arguments()[1];
  if (p.name() == "thing" || p.name() == "box") return p.arguments()[0].type().IsSubtype(p.name());
  return s.contains(p);
}
static bool Holds(const std::optional<DisjunctiveFormula>& f, const State& s) {
  if (!f.has_value()) return false;
  if (f->empty()) return true;
  for (const DisjunctiveFormula::Conjunction& c : f->conjunctions) {
    bool all = true;
    for (const Proposition& p : c.pos()) all = all && Literal(p, s);
    for (const Proposition& p : c.neg()) all = all && !Literal(p, s);
    if (all) return true;
  }
  return false;
}
static std::vector<State> States(const Pddl& pddl) {
  std::vector<State> out;
  const char* atoms[] = {"p(a)", "p(b)", "q(a, b)", "q(b, b)"};
  for (int m = 0; m < 16; m++) {
    State s;
    for (int i = 0; i < 4; i++) if (m >> i & 1) s.emplace(pddl, atoms[i]);
    out.push_back(s);
  }
  return out;
}
// The shape of a result: minimal conjunctions, each consistent, in strict order.
static int Shape(const DisjunctiveFormula& f) {
  for (size_t i = 0; i < f.conjunctions.size(); i++) {
    for (const Proposition& p : f.conjunctions[i].pos()) CHECK(!f.conjunctions[i].neg().contains(p));
    if (i > 0) CHECK(f.conjunctions[i - 1] < f.conjunctions[i]);
    for (size_t j = 0; j < f.conjunctions.size(); j++) {
      bool sub = i != j;
      for (const Proposition& p : f.conjunctions[i].pos()) sub = sub && f.conjunctions[j].pos().contains(p);
      for (const Proposition& p : f.conjunctions[i].neg()) sub = sub && f.conjunctions[j].neg().contains(p);
      CHECK(!sub);
    }
  }
  return 0;
}
static const char* kHead =
    "(define (domain d) (:requirements :typing)\n (:types thing - object box - thing ghost - object)\n"
    " (:predicates (p ?x - thing) (q ?x - thing ?y - thing))\n";
static const char* kProblem = "(define (problem p) (:domain d) (:objects a - box b - thing)\n (:init) (:goal ";
static int Goals() {
  const std::string d = Write("d.pddl", std::string(kHead) + " (:action go :parameters (?x - thing) :precondition (p ?x) :effect (p ?x)))\n");
  const std::vector<std::string> atoms = {"(p a)", "(p b)", "(q a b)", "(and)", "(or)", "(= a b)", "(= a a)", "(box a)", "(box b)",
                                          "(not (p a))", "(not (= a b))", "(not (box a))", "(and (p a) (not (p a)))"};
  std::vector<std::string> goals = atoms;
  for (const std::string& x : atoms) {
    goals.push_back("(not " + x + ")");
    goals.push_back("(and " + x + ")");
    goals.push_back("(or " + x + ")");
    for (const std::string& y : atoms) {
      goals.push_back("(and " + x + " " + y + ")");
      goals.push_back("(or " + x + " " + y + ")");
      goals.push_back("(not (and " + x + " " + y + "))");
      goals.push_back("(not (or " + x + " " + y + "))");
      goals.push_back("(or (and " + x + " (q b b)) " + y + ")");
      goals.push_back("(and (or " + x + " (q b b)) (or " + y + " (p b)))");
      goals.push_back("(not (and (or " + x + " (q b b)) (or (not " + y + ") (p b))))");
    }
  }
  for (const char* qf : {"forall", "exists"}) {
    for (const char* t : {"thing", "box", "ghost"}) {
      for (const char* b : {"(p ?v)", "(not (p ?v))", "(q ?v b)", "(or (p ?v) (q ?v b))", "(and (p ?v) (not (q ?v b)))", "(= ?v a)", "(box ?v)",
                            "(and (p ?v) (not (p ?v)))", "(or (p ?v) (not (p ?v)))", "(exists (?w - thing) (q ?w ?v))", "(forall (?v - box) (p ?v))", "(and)", "(or)"}) {
        const std::string g = std::string("(") + qf + " (?v - " + t + ") " + b + ")";
        goals.push_back(g);
        goals.push_back("(not " + g + ")");
        goals.push_back("(and (p b) " + g + ")");
        goals.push_back("(or (p b) " + g + ")");
      }
    }
  }
  for (const std::string& g : goals) {
    now = g;
    const Pddl pddl(d, std::string(kProblem) + g + "))");
    std::optional<DisjunctiveFormula> f = DisjunctiveFormula::NormalizeGoal(pddl);
    if (f.has_value() && Shape(*f)) return 1;
    for (const State& s : States(pddl)) {
      now = g + " at " + [&] { std::string t; for (const Proposition& p : s) t += p.to_string() + " "; return t; }();
      CHECK(Holds(f, s) == pddl.goal()(s));
    }
    if (f.has_value()) {
      const DisjunctiveFormula g0 = *f;
      const std::optional<DisjunctiveFormula> n = Negate(pddl, std::move(*f));
      for (const State& s : States(pddl)) CHECK(Holds(n, s) == !Holds(g0, s));
    }
  }
  return 0;
}
struct Effect {
  const char* text;
  bool (*holds)(bool pa, bool pb, bool ab, bool bb);
};
static int Effects() {
  const std::vector<Effect> effects = {
      {"(p a)", [](bool pa, bool, bool, bool) { return pa; }},
      {"(and (p a) (not (q a b)))", [](bool pa, bool, bool ab, bool) { return pa && !ab; }},
      {"(forall (?v - thing) (p ?v))", [](bool pa, bool pb, bool, bool) { return pa && pb; }},
      {"(forall (?v - ghost) (p ?v))", [](bool, bool, bool, bool) { return true; }},
      {"(when (p a) (q a b))", [](bool pa, bool, bool ab, bool) { return !pa || ab; }},
      {"(when (= a b) (q a b))", [](bool, bool, bool, bool) { return true; }},
      {"(when (= a a) (q a b))", [](bool, bool, bool ab, bool) { return ab; }},
      {"(when (and) (q a b))", [](bool, bool, bool ab, bool) { return ab; }},
      {"(when (or (p a) (not (p a))) (q a b))", [](bool, bool, bool ab, bool) { return ab; }},
      {"(when (and (p a) (not (p a))) (q a b))", [](bool, bool, bool, bool) { return true; }},
      {"(and (p b) (when (or (p a) (q b b)) (not (q a b))))", [](bool pa, bool pb, bool ab, bool bb) { return pb && (!(pa || bb) || !ab); }},
      {"(forall (?v - thing) (when (p ?v) (q ?v b)))", [](bool pa, bool pb, bool ab, bool bb) { return (!pa || ab) && (!pb || bb); }},
      {"(when (p a) (and (q a b) (not (p b))))", [](bool pa, bool pb, bool ab, bool) { return !pa || (ab && !pb); }},
  };
  for (const Effect& e : effects) {
    now = e.text;
    const std::string d = Write("e.pddl", std::string(kHead) + " (:constants a - box b - thing)\n (:action go :parameters () :precondition (p a) :effect " + e.text + "))\n");
    const Pddl pddl(d, "(define (problem p) (:domain d) (:objects) (:init) (:goal (p a)))");
    const auto f = DisjunctiveFormula::NormalizePostconditions(pddl, "go()");
    const auto c = DisjunctiveFormula::NormalizeConditions(pddl, "go()");
    CHECK(c.has_value() == f.has_value());
    for (const State& s : States(pddl)) {
      const auto has = [&](const char* p) { return s.contains(Proposition(pddl, p)); };
      const bool want = e.holds(has("p(a)"), has("p(b)"), has("q(a, b)"), has("q(b, b)"));
      CHECK(Holds(f, s) == want);
      CHECK(Holds(c->second, s) == want && Holds(c->first, s) == has("p(a)"));
    }
  }
  return 0;
}
int main() {
  char tmp[] = "/tmp/demoXXXXXX";
  if (!mkdtemp(tmp)) return 1;
  dir = tmp;
  int rc = 1;
  try {
    rc = Goals() || Effects();
  } catch (const std::exception& e) {
    std::printf("failed: %s (%s)\n", e.what(), now.c_str());
  }
  unlink((dir + "/d.pddl").c_str()); unlink((dir + "/e.pddl").c_str()); rmdir(tmp);
  return rc;
}
