// lib
// The texts of propositions, states and calls, written and read back.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "symbolic/pddl.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s (%s)\n", __LINE__, #x, now.c_str()); return 1; } } while (0)
using namespace symbolic;
static std::string now;
static const char* kDomain =
    "(define (domain d) (:requirements :typing)\n (:types item - object box - item place - object)\n"
    " (:predicates (idle) (p ?a - item) (on ?a - item ?b - place) (tri ?a - item ?b - item ?c - place))\n"
    " (:action go :parameters () :precondition (idle) :effect (not (idle)))\n"
    " (:action put :parameters (?a - item ?b - place) :precondition (p ?a) :effect (on ?a ?b))\n"
    " (:action putall :parameters (?a - box ?b - item ?c - place) :precondition (p ?a) :effect (tri ?a ?b ?c)))\n";
static const char* kProblem = "(define (problem p) (:domain d) (:objects i1 i2 - item b1 - box k1 k2 - place)\n (:init (idle)) (:goal (idle)))\n";
static std::string join(const std::vector<std::string>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + v[i];
  return s;
}
template <typename T> static std::string shown(const T& x) { std::stringstream ss; ss << x; return ss.str(); }
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  CHECK(mkdtemp(dir));
  const std::string d = std::string(dir) + "/d.pddl", pf = std::string(dir) + "/p.pddl";
  std::ofstream(d) << kDomain;
  std::ofstream(pf) << kProblem;
  const Pddl pddl(d, pf);
  unlink(d.c_str()); unlink(pf.c_str()); rmdir(dir);
  const std::vector<std::string> names = {"i1", "i2", "b1", "k1", "k2"};
  // Every tuple of at most three objects.
  std::vector<std::vector<std::string>> tuples = {{}};
  for (size_t i = 0; i < tuples.size(); i++) {
    if (tuples[i].size() == 3) break;
    const auto t = tuples[i];
    for (const auto& n : names) { auto u = t; u.push_back(n); tuples.push_back(u); }
  }
  for (const auto& t : tuples) {
    const std::string want = "pred(" + join(t) + ")";
    now = want;
    for (const std::string& spelled : {want, [&] { std::string s = "pred("; for (size_t i = 0; i < t.size(); i++) s += (i ? "," : "") + t[i]; return s + ")"; }(),
                                       [&] { std::string s = "pred( "; for (const auto& x : t) s += x + " "; return s + ")"; }()}) {
      now = spelled;
      const Proposition P(pddl, spelled);
      CHECK(P.name() == "pred");
      CHECK(P.arguments().size() == t.size());
      for (size_t i = 0; i < t.size(); i++) CHECK(P.arguments()[i].name() == t[i]);
      CHECK(P.to_string() == want);
      CHECK(shown(P) == want);
      std::string lisp = "(pred";
      for (const auto& x : t) lisp += " " + x;
      CHECK(P.to_pddl() == lisp + ")");
      CHECK(shown(P.arguments()) == join(t));
      CHECK(Proposition(pddl, P.to_string()) == P);
    }
  }
  now = "pred";
  CHECK(Proposition::ParseHead("pred") == "pred");
  // States.
  const std::vector<std::string> props = {"tri(i1, b1, k1)", "idle()", "on(i2, k2)", "p(i1)", "on(b1, k1)"};
  for (unsigned m = 0; m < 32; m++) {
    std::set<std::string> in;
    State s;
    for (int i = 0; i < 5; i++) if (m >> i & 1) { in.insert(props[i]); s.insert(Proposition(pddl, props[i])); }
    now = join(std::vector<std::string>(in.begin(), in.end()));
    CHECK(shown(s) == "{ " + now + " }");
    CHECK(Stringify(s) == in);
    const auto un = s.Stringify();
    CHECK(std::set<std::string>(un.begin(), un.end()) == in && un.size() == in.size());
    CHECK(State(pddl, un) == s);
    for (unsigned k = 0; k < 32; k += 7) {
      State neg;
      std::set<std::string> nin;
      for (int i = 0; i < 5; i++) if ((k & ~m) >> i & 1) { nin.insert(props[i]); neg.insert(Proposition(pddl, props[i])); }
      const PartialState ps{State(s), State(neg)};
      const auto two = Stringify(ps);
      CHECK(two.first == in && two.second == nin);
      const auto un2 = ps.Stringify();
      CHECK(std::set<std::string>(un2.first.begin(), un2.first.end()) == in);
      CHECK(std::set<std::string>(un2.second.begin(), un2.second.end()) == nin);
    }
  }
  // Calls.
  const std::vector<std::vector<std::string>> params = {{}, {"item", "place"}, {"box", "item", "place"}};
  const auto fits = [](const std::string& o, const std::string& t) {
    const std::string own = o[0] == 'i' ? "item" : o[0] == 'b' ? "box" : "place";
    return own == t || (own == "box" && t == "item");
  };
  const std::vector<std::string> acts = {"go", "put", "putall"};
  for (int a = 0; a < 3; a++) {
    for (const auto& t : tuples) {
      const std::string call = acts[a] + "(" + join(t) + ")";
      now = call;
      bool ok = t.size() == params[a].size();
      for (size_t i = 0; ok && i < t.size(); i++) ok = fits(t[i], params[a][i]);
      bool got = true;
      try {
        const auto aa = Action::Parse(pddl, call);
        CHECK(aa.first.name() == acts[a] && aa.second.size() == t.size());
        for (size_t i = 0; i < t.size(); i++) CHECK(aa.second[i].name() == t[i]);
        CHECK(aa.first.to_string(aa.second) == call);
      } catch (const std::exception&) { got = false; }
      CHECK(got == ok);
    }
  }
  for (const char* bad : {"pu(i1, k1)", "puta(i1, k1)", "go2()", "put(i1, zz)", "on(i1, k1)"}) {
    now = bad;
    bool got = true;
    try { Action::Parse(pddl, bad); } catch (const std::exception&) { got = false; }
    CHECK(!got);
  }
  now = "lists";
  CHECK(Stringify(pddl.actions()) == acts);
  CHECK(Stringify(pddl.objects()) == names);
  for (const auto& p : pddl.predicates()) {
    now = p.name();
    CHECK(p.to_string(Object::ParseArguments(pddl, "x(i1, k1)")) == p.name() + "(i1, k1)");
    CHECK(p.to_string({}) == p.name() + "()");
  }
  return 0;
}
