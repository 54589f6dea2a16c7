// Shows the recorded defect of C08: effects change the state one after another. Fails (1) as long as it is there.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <string>
#include "symbolic/pddl.h"
using namespace symbolic;
static const char* kDomain =
    "(define (domain d) (:requirements :typing)\n (:types block - object)\n (:predicates (at ?a - block) (q ?a - block))\n"
    " (:action move :parameters (?x - block ?y - block) :precondition (at ?x) :effect (and (at ?y) (not (at ?x))))\n"
    " (:action swap :parameters (?x - block) :precondition (at ?x) :effect (and (when (at ?x) (not (at ?x))) (when (at ?x) (q ?x)))))\n";
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  mkdtemp(dir);
  const std::string d = std::string(dir) + "/d.pddl", pf = std::string(dir) + "/p.pddl";
  std::ofstream(d) << kDomain;
  std::ofstream(pf) << "(define (problem p) (:domain d) (:objects b - block) (:init (at b)) (:goal (at b)))\n";
  const Pddl pddl(d, pf, false);
  unlink(d.c_str()); unlink(pf.c_str()); rmdir(dir);
  const State s = pddl.initial_state();
  const State moved = pddl.NextState(s, "move(b, b)"), swapped = pddl.NextState(s, "swap(b)");
  std::printf("move(b, b): at(b) %s (PDDL: kept, adds win over deletes)\n", moved.contains(Proposition(pddl, "at(b)")) ? "kept" : "lost");
  std::printf("swap(b): q(b) %s (PDDL: added, at(b) held before)\n", swapped.contains(Proposition(pddl, "q(b)")) ? "added" : "not added");
  return moved.contains(Proposition(pddl, "at(b)")) && swapped.contains(Proposition(pddl, "q(b)")) ? 0 : 1;
}
