// lib
// What a loaded model holds against the text of the domain and the problem.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "symbolic/pddl.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s\n", __LINE__, #x); return 1; } } while (0)
using namespace symbolic;
using Names = std::vector<std::string>;
static const char* kDomain =
    "(define (domain d) (:requirements :typing)\n (:types box - thing thing - object person - object)\n"
    " (:constants c - thing k - box)\n"
    " (:predicates (held ?a - thing) (free ?a - thing) (on ?a - thing ?b - thing) (warm ?a - thing) (busy ?a - thing) (done))\n"
    " (:action pick :parameters (?a - box) :precondition (free ?a) :effect (held ?a))\n"
    " (:axiom :vars (?a - thing) :context (held ?a) :implies (not (free ?a)))\n"
    " (:axiom :vars (?a - thing) :context (not (warm ?a)) :implies (free ?a))\n"
    " (:action put :parameters (?a - box ?b - thing) :precondition (held ?a) :effect (on ?a ?b))\n"
    " (:axiom :vars (?a - thing) :context (held ?a) :implies (warm ?a))\n"
    " (:derived (busy ?a - thing) (warm ?a))\n"
    " (:derived (done) (busy c)))\n";
static const char* kProblem =
    "(define (problem p) (:domain d) (:objects y - box x - box h - person)\n"
    " (:init (held x) (on k x) (done)) (:goal (and (held x) (exists (?b - box) (on ?b x)))))";
static Names text(const std::vector<Object>& os) {
  Names out;
  for (const Object& o : os) out.push_back(o.name());
  return out;
}
static int Model(const Pddl& pddl, bool problem) {
  const Names constants = {"c", "k"};
  Names objects = constants;
  if (problem) for (const char* o : {"y", "x", "h"}) objects.push_back(o);
  CHECK(text(pddl.constants()) == constants);
  CHECK(text(pddl.objects()) == objects);
  std::map<std::string, Names> types;
  for (const auto& kv : pddl.object_map()) if (!kv.second.empty()) types[kv.first] = text(kv.second);
  std::map<std::string, Names> want = {{"object", objects}, {"thing", {"c", "k"}}, {"box", {"k"}}};
  if (problem) {
    want["thing"] = {"c", "k", "y", "x"};
    want["box"] = {"k", "y", "x"};
    want["person"] = {"h"};
  }
  CHECK(types == want);
  Names actions;
  for (const Action& a : pddl.actions()) actions.push_back(a.name());
  CHECK((actions == Names{"pick", "put"}));
  Names preds;
  for (const Predicate& p : pddl.predicates()) preds.push_back(p.name());
  CHECK((preds == Names{"held", "free", "on", "warm", "busy", "done"}));
  Names drvs;
  for (const DerivedPredicate& p : pddl.derived_predicates()) drvs.push_back(p.name());
  CHECK((drvs == Names{"busy", "done"}));
  CHECK(pddl.axioms().size() == 3);
  const Names contexts = {"held", "!warm", "held"};
  std::map<std::string, std::vector<const Axiom*>> map;
  for (size_t i = 0; i < 3; i++) {
    const Axiom& a = *pddl.axioms()[i];
    CHECK(a.context().name() == contexts[i].substr(contexts[i][0] == (char)33));
    CHECK(a.context().is_pos() == (contexts[i][0] != (char)33));
    map[a.context().sign() + a.context().name()].push_back(&a);
  }
  std::map<std::string, std::vector<const Axiom*>> got;
  for (const auto& kv : pddl.axiom_map()) for (const auto& w : kv.second) {
    const std::shared_ptr<Axiom> a = w.lock();
    CHECK(a != nullptr);
    got[kv.first].push_back(a.get());
  }
  CHECK(got == map);
  size_t n = 0;
  for (const Predicate& p : pddl.predicates()) {
    size_t k = 1;
    for (const Object& a : p.parameters()) k *= pddl.object_map().count(a.type().name()) ? pddl.object_map().at(a.type().name()).size() : 0;
    n += k;
  }
  CHECK(pddl.state_index().size() == n);
  return 0;
}
static bool Fails(const std::string& d, const std::string& p) {
  try {
    const Pddl pddl(d, p);
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
static int Run(const std::string& dom, const std::string& file, const std::string& paren) {
  for (const std::string& text : {std::string(kProblem), std::string(kProblem) + "\n", std::string(kProblem) + " \t\r\n ", file, paren}) {
    for (const bool apply : {false, true}) {
      const Pddl pddl(dom, text, apply);
      if (Model(pddl, true)) return 1;
      CHECK(pddl.domain_pddl() == dom && pddl.problem_pddl() == text);
      // axioms settle first, what is derived follows from their result
      State want;
      for (const char* s : {"held(x)", "on(k, x)", "done()"}) want.emplace(pddl, s);
      if (apply) {
        want = State();
        for (const char* s : {"held(x)", "on(k, x)", "warm(x)", "busy(x)", "free(c)", "free(k)", "free(y)"}) want.emplace(pddl, s);
        State base;
        for (const char* s : {"held(x)", "on(k, x)", "done()"}) base.emplace(pddl, s);
        want = pddl.DerivedState(pddl.ConsistentState(base));
      } else {
        want = pddl.DerivedState(want);
      }
      CHECK(pddl.initial_state() == want);
      CHECK(pddl.initial_state().contains(Proposition(pddl, "warm(x)")) == apply);
      CHECK(pddl.initial_state().contains(Proposition(pddl, "busy(x)")) == apply);
      // the goal
      State s;
      CHECK(!pddl.goal()(s));
      s.emplace(pddl, "held(x)");
      CHECK(!pddl.goal()(s));
      s.emplace(pddl, "on(y, x)");
      CHECK(pddl.goal()(s));
      // an axiom's consequences follow an action's effects, and those of other axioms
      State t;
      t.emplace(pddl, "free(y)");
      const State next = pddl.NextState(t, "pick(y)");
      CHECK(next.contains(Proposition(pddl, "held(y)")) && next.contains(Proposition(pddl, "warm(y)")));
      CHECK(!next.contains(Proposition(pddl, "free(y)")) && next.contains(Proposition(pddl, "busy(y)")));
    }
  }
  const Pddl only(dom);
  if (Model(only, false)) return 1;
  CHECK(only.domain_pddl() == dom);
  CHECK(Fails(dom + ".missing", kProblem));
  CHECK(Fails(dom, file + ".missing"));
  return 0;
}
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  CHECK(mkdtemp(dir));
  const std::string d = std::string(dir) + "/d.pddl", p = std::string(dir) + "/p(1)x", q = std::string(dir) + "/p.pddl";
  std::ofstream(d) << kDomain;
  std::ofstream(p) << kProblem << "\n";
  std::ofstream(q) << kProblem << "\n";
  int rc = 1;
  try {
    rc = Run(d, q, p);
  } catch (const std::exception& e) {
    std::printf("failed: %s\n", e.what());
  }
  unlink(d.c_str()); unlink(p.c_str()); unlink(q.c_str()); rmdir(dir);
  return rc;
}
