// lib
// Known finding (C17 bind.free): fails while the finding stands.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <iostream>
#include "symbolic/pddl.h"
using namespace symbolic;
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  if (!mkdtemp(dir)) return 2;
  const std::string d = std::string(dir) + "/d.pddl", pf = std::string(dir) + "/p.pddl";
  std::ofstream(d) << "(define (domain d) (:requirements :typing)\n (:types thing - object)\n"
      " (:predicates (p ?a - thing) (q ?a - thing) (t ?a - thing ?b - thing))\n"
      " (:axiom :vars (?v - thing ?w - thing) :context (q ?v) :implies (t ?v ?w))\n"
      " (:action act :parameters (?x - thing) :precondition (p ?x) :effect (q ?x)))\n";
  std::ofstream(pf) << "(define (problem p) (:domain d) (:objects a b - thing)\n (:init ) (:goal (p b)))\n";
  const Pddl pddl(d, pf, false);
  unlink(d.c_str()); unlink(pf.c_str()); rmdir(dir);
  const State s = pddl.NextState(State(), "act(a)");
  std::cout << s << "\n";
  return s.contains(Proposition(pddl, "t(a, a)")) && s.contains(Proposition(pddl, "t(a, b)")) ? 0 : 1;
}
