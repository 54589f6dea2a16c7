// lib
// Types of objects against the declared hierarchy, with and without declared types.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "symbolic/pddl.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s (%s)\n", __LINE__, #x, now.c_str()); return 1; } } while (0)
using namespace symbolic;
static std::string now;
static int world(const std::string& types, std::map<std::string, std::string> up, const std::string& constants,
                 const std::string& objects, std::map<std::string, std::string> of) {
  char dir[] = "/tmp/demoXXXXXX";
  now = types;
  CHECK(mkdtemp(dir));
  const std::string d = std::string(dir) + "/d.pddl", pf = std::string(dir) + "/p.pddl";
  std::ofstream(d) << "(define (domain d) (:requirements :typing)\n" << types << constants
                   << " (:predicates (p ?a) (q ?a ?b))\n (:action go :parameters (?a) :precondition (p ?a) :effect (p ?a)))\n";
  std::ofstream(pf) << "(define (problem p) (:domain d)\n" << objects << " (:init) (:goal (and)))\n";
  const Pddl pddl(d, pf);
  unlink(d.c_str()); unlink(pf.c_str()); rmdir(dir);
  std::set<std::string> all = {"object", "other"};
  for (const auto& t : up) all.insert(t.first);
  CHECK(pddl.objects().size() == of.size());
  for (const auto& kv : of) {
    now = kv.first + " - " + kv.second;
    const Object o(pddl, kv.first);
    CHECK(o.name() == kv.first);
    const Object* listed = nullptr;
    for (const Object& x : pddl.objects()) if (x.name() == kv.first) listed = &x;
    CHECK(listed != nullptr);
    CHECK(o == *listed && o.hash() == listed->hash());
    std::vector<std::string> chain;
    for (std::string t = kv.second; !t.empty(); t = up.count(t) ? up.at(t) : "") chain.push_back(t);
    if (chain.empty() || chain.back() != "object") chain.push_back("object");
    const std::string own = kv.second.empty() ? "object" : kv.second;
    for (const Object* x : {&o, listed}) {
      CHECK(x->type().name() == own);
      CHECK(x->type().ListTypes() == chain);
      for (const auto& t : all) {
        now = kv.first + " - " + kv.second + " / " + t;
        const bool is = std::set<std::string>(chain.begin(), chain.end()).count(t) > 0;
        CHECK(x->type().IsSubtype(t) == is);
        for (const Object& y : pddl.objects()) {
          if (y.type().name() == t) CHECK(x->type().IsSubtype(y.type()) == is);
        }
      }
    }
  }
  for (const Object& x : pddl.objects()) for (const Object& y : pddl.objects()) {
    CHECK((x.type() == y.type()) == (x.type().name() == y.type().name()));
    CHECK((x.type() < y.type()) == (x.type().name() < y.type().name()));
  }
  now = "zz";
  bool got = true;
  try { Object(pddl, "zz"); } catch (const std::exception&) { got = false; }
  CHECK(!got);
  return 0;
}
int main() {
  using M = std::map<std::string, std::string>;
  const M deep = {{"a", "object"}, {"b", "a"}, {"c", "b"}, {"e", "c"}, {"f", "object"}, {"object", ""}};
  int rc = world(" (:types a f - object b - a c - b e - c)\n", deep, " (:constants k1 - c k2)\n",
                 " (:objects o1 - a o2 - b o3 - c o4 - e o5 - f o6)\n",
                 M{{"k1", "c"}, {"k2", ""}, {"o1", "a"}, {"o2", "b"}, {"o3", "c"}, {"o4", "e"}, {"o5", "f"}, {"o6", ""}});
  if (rc) return rc;
  rc = world(" (:types a b)\n", M{{"a", ""}, {"b", ""}}, "", " (:objects o1 - a o2 - b o3)\n", M{{"o1", "a"}, {"o2", "b"}, {"o3", ""}});
  if (rc) return rc;
  return world("", M{}, " (:constants k1)\n", " (:objects o1 o2)\n", M{{"k1", ""}, {"o1", ""}, {"o2", ""}});
}
