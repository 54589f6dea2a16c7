// lib
// The state index of a small domain: numbering and lookup invert each other.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <random>
#include <set>
#include <string>
#include "symbolic/pddl.h"
#include "symbolic/state.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s\n", __LINE__, #x); return 1; } } while (0)
using namespace symbolic;
static const char* kDomain =
    "(define (domain d) (:requirements :typing)\n (:types thing - object box - thing tool - thing)\n (:constants table - thing)\n"
    " (:predicates (held ?a - tool) (on ?a - thing ?b - thing) (in ?a - thing ?b - box))\n"
    " (:action pick :parameters (?a - tool) :precondition (on ?a table) :effect (and (held ?a) (not (on ?a table)))))\n";
static const char* kProblem =
    "(define (problem p) (:domain d) (:objects hook - tool rake - tool crate - box)\n"
    " (:init (on hook table) (in rake crate)) (:goal (held hook)))\n";
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  if (!mkdtemp(dir)) return 1;
  const std::string d = std::string(dir) + "/d.pddl", p = std::string(dir) + "/p.pddl";
  std::ofstream(d) << kDomain;
  std::ofstream(p) << kProblem;
  int rc = [&]() -> int {
    Pddl pddl(d, p);
    for (int cached = 0; cached < 2; cached++) {
      const StateIndex index(pddl.predicates(), cached);
      std::set<std::string> seen;
      std::vector<Proposition> all;
      size_t total = 0;
      for (const Predicate& pred : pddl.predicates()) total += pred.parameter_generator().size();
      CHECK(index.size() == total);
      for (size_t i = 0; i < total; i++) {
        all.push_back(index.GetProposition(i));
        seen.insert(all.back().to_string());
      }
      CHECK(seen.size() == total);
      for (int rep = 0; rep < 3; rep++) {
        for (size_t k = 0; k < total; k++) {
          const size_t i = (k * 7 + rep) % total;
          CHECK(index.GetProposition(i) == all[i]);
          CHECK(index.GetPropositionIndex(all[i]) == i);
        }
      }
      std::mt19937 g(1);
      for (int rep = 0; rep < 20; rep++) {
        State s;
        for (const Proposition& q : all) if (g() % 3 == 0) s.insert(q);
        const auto v = index.GetIndexedState(s);
        for (size_t i = 0; i < total; i++) CHECK(static_cast<bool>(v(i)) == s.contains(all[i]));
        CHECK(index.GetState(v) == s);
      }
    }
    return 0;
  }();
  unlink(d.c_str()); unlink(p.c_str()); rmdir(dir);
  return rc;
}
