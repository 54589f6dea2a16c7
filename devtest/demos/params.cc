// lib
// Parameter tuples of actions, recomputed from the objects and their types, also after copies and assignments.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "symbolic/pddl.h"
#include "symbolic/utils/parameter_generator.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s\n", __LINE__, #x); return 1; } } while (0)
using namespace symbolic;
static const char* kDomain =
    "(define (domain d) (:requirements :typing)\n (:types thing - object ghost - object switch - object)\n"
    " (:predicates (held ?a - thing) (down ?s - switch))\n"
    " (:action one :parameters (?a - thing) :precondition (and) :effect (held ?a))\n"
    " (:action press :parameters (?s - switch) :precondition (and) :effect (down ?s))\n"
    " (:action two :parameters (?a - thing ?s - switch) :precondition (and) :effect (held ?a))\n"
    " (:action same :parameters (?a - thing ?b - thing) :precondition (and) :effect (held ?a))\n"
    " (:action ghosts :parameters (?a - thing ?g - ghost ?s - switch) :precondition (and) :effect (held ?a))\n"
    " (:action ghost :parameters (?g - ghost) :precondition (and) :effect (and))\n"
    " (:action zero :parameters () :precondition (and) :effect (and)))\n";
static const char* kProblem =
    "(define (problem p) (:domain d) (:objects x - thing y - thing z - thing w - switch v - switch u - switch)\n (:init (held x)) (:goal (held x)))\n";
using Tuples = std::vector<std::vector<std::string>>;
static Tuples All(const ParameterGenerator& g) {
  Tuples out;
  for (const std::vector<Object>& t : g) {
    out.emplace_back();
    for (const Object& o : t) out.back().push_back(o.name());
  }
  return out;
}
static Tuples Expect(const Pddl& pddl, const std::vector<Object>& params) {
  Tuples out = {{}};
  for (const Object& p : params) {
    Tuples next;
    for (const auto& t : out)
      for (const Object& o : pddl.objects())
        if (o.type().name() == p.type().name()) {
          next.push_back(t);
          next.back().push_back(o.name());
        }
    out = next;
  }
  return out;
}
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  CHECK(mkdtemp(dir));
  const std::string d = std::string(dir) + "/d.pddl", p = std::string(dir) + "/p.pddl";
  std::ofstream(d) << kDomain;
  std::ofstream(p) << kProblem;
  const Pddl pddl(d, p, false);
  unlink(d.c_str()); unlink(p.c_str()); rmdir(dir);
  CHECK(pddl.actions().size() == 7);
  for (const Action& a : pddl.actions()) {
    const Tuples want = Expect(pddl, a.parameters());
    CHECK(All(a.parameter_generator()) == want);
    auto orig = std::make_unique<ParameterGenerator>(pddl, a.parameters());
    CHECK(All(*orig) == want);
    CHECK(&orig->pddl() == &pddl);
    for (const Action& b : pddl.actions()) {
      auto other = std::make_unique<ParameterGenerator>(pddl, b.parameters());
      ParameterGenerator x(*other), y(*other), z(*other);
      x = *orig;
      x = *&x;
      CHECK(All(x) == want);
      y = ParameterGenerator(*orig);
      other.reset();
      CHECK(All(x) == want);
      CHECK(All(y) == want);
      CHECK(&y.pddl() == &pddl);
      CHECK(All(z) == Expect(pddl, b.parameters()));
    }
    ParameterGenerator c(*orig), m(std::move(*orig));
    orig.reset();
    CHECK(All(c) == want);
    CHECK(All(m) == want);
    std::vector<ParameterGenerator> many(5, c);
    many.reserve(100);
    for (const auto& g : many) CHECK(All(g) == want);
  }
  return 0;
}
