// lib
// Equality, order and hashes of propositions, objects, actions and states.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <string>
#include <vector>
#include "symbolic/pddl.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s\n", __LINE__, #x); return 1; } } while (0)
using namespace symbolic;
static const char* kDomain =
    "(define (domain d) (:requirements :typing)\n (:types thing - object)\n (:predicates (p ?a - thing ?b - thing) (q ?a - thing) (r ?a - thing ?b - thing))\n"
    " (:action act :parameters (?a - thing) :precondition (q ?a) :effect (p ?a ?a))\n"
    " (:action bet :parameters (?a - thing) :precondition (q ?a) :effect (p ?a ?a)))\n";
static const char* kProblem =
    "(define (problem p) (:domain d) (:objects x - thing y - thing z - thing) (:init (q x)) (:goal (q y)))\n";
template <typename T>
static int Order(const std::vector<T>& v) {
  for (const T& a : v) {
    CHECK(a == a && !(a < a));
    for (const T& b : v) {
      CHECK((a == b) == (b == a));
      CHECK((a < b) + (b < a) + (a == b) == 1);
      for (const T& c : v) CHECK(!(a < b && b < c) || a < c);
    }
  }
  return 0;
}
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  if (!mkdtemp(dir)) return 1;
  const std::string d = std::string(dir) + "/d.pddl", p = std::string(dir) + "/p.pddl";
  std::ofstream(d) << kDomain;
  std::ofstream(p) << kProblem;
  int rc = [&]() -> int {
    const Pddl pddl(d, p);
    std::vector<Proposition> props;
    std::vector<SignedProposition> sgn;
    for (const Predicate& f : pddl.predicates()) {
      for (const auto& args : f.parameter_generator()) {
        const std::string name = f.name();
        const Proposition a(name, args), b(name, std::vector<Object>(args)), c(pddl, a.to_string());
        const PropositionRef r(&a.name(), &a.arguments(), std::hash<std::string>{}(name));
        const PropositionRef q(&name, &args, std::hash<std::string>{}(name));
        const SignedProposition s(name, std::vector<Object>(args), true);
        Proposition m(b), n;
        n = std::move(m);
        for (size_t h : {b.hash(), c.hash(), r.hash(), q.hash(), s.hash(), n.hash(), std::hash<Proposition>{}(a), std::hash<PropositionRef>{}(r),
                         std::hash<PropositionRef>{}(q)})
          CHECK(h == a.hash());
        CHECK(a == b && a == c && a == r && a == q && a == n);
        props.push_back(a);
      }
    }
    CHECK(!Order(props));
    std::vector<Object> objs(pddl.objects());
    for (const Object& o : pddl.objects()) {
      CHECK(Object(pddl, o.name()) == o && std::hash<Object>{}(Object(pddl, o.name())) == std::hash<Object>{}(o));
    }
    CHECK(!Order(objs));
    CHECK(!Order(pddl.actions()));
    std::vector<State> states;
    for (size_t i = 0; i + 2 < props.size(); i++) {
      State s;
      s.insert(props[i]);
      states.push_back(s);
      s.insert(props[i + 2]);
      states.push_back(s);
    }
    for (const State& a : states) for (const State& b : states) CHECK((a == b) != (a != b) && (!(a == b) || std::hash<State>{}(a) == std::hash<State>{}(b)));
    State full, none;
    for (const Proposition& a : props) {
      State s;
      s.insert(a);
      for (const auto& f : pddl.actions()) {
        const auto& g = f.parameter_generator();
        for (const auto& args : g) {
          const bool want = a.name() == "q" && a.arguments() == args;
          CHECK(f.IsValid(s, args) == want);
        }
      }
    }
    return 0;
  }();
  unlink(d.c_str()); unlink(p.c_str()); rmdir(dir);
  return rc;
}
