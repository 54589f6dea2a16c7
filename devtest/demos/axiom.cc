// lib
// Axioms and derived predicates against the implications and rules they stand for, on all small states.
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "symbolic/pddl.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s (%s)\n", __LINE__, #x, now.c_str()); return 1; } } while (0)
using namespace symbolic;
static std::string now;
static const char* kDomain =
    "(define (domain d) (:requirements :typing)\n (:types thing - object)\n"
    " (:predicates (p ?a - thing) (q ?a - thing) (u ?a - thing) (m ?a - thing) (e ?a - thing ?b - thing) (path ?a - thing ?b - thing) (far ?a - thing ?b - thing))\n"
    " (:axiom :vars (?v - thing) :context (q ?v) :implies (and (u ?v) (not (m ?v))))\n"
    " (:axiom :vars (?v - thing) :context (p ?v) :implies (q ?v))\n"
    " (:axiom :vars (?v - thing) :context (not (u ?v)) :implies (m ?v))\n"
    " (:derived (far ?x - thing ?y - thing) (and (path ?x ?y) (not (e ?x ?y))))\n"
    " (:derived (path ?x - thing ?y - thing) (or (e ?x ?y) (exists (?z - thing) (and (path ?z ?y) (e ?x ?z)))))\n"
    " (:action noop :parameters (?x - thing) :precondition (p ?x) :effect (p ?x)))\n";
static const char* kProblem = "(define (problem p) (:domain d) (:objects a b c - thing)\n (:init) (:goal (p b)))\n";
// Implications that only follow in another round.
static const char* kRounds =
    "(define (domain d) (:requirements :typing)\n (:types thing - object)\n"
    " (:predicates (p ?a - thing) (k ?a - thing) (j ?a - thing) (g ?a - thing) (h ?a - thing) (s ?a - thing ?b - thing))\n"
    " (:axiom :vars (?v - thing) :context (p ?v) :implies (and (when (k ?v) (j ?v)) (forall (?y - thing) (when (s ?v ?y) (k ?y)))))\n"
    " (:axiom :vars (?v - thing) :context (g ?v) :implies (k ?v))\n"
    " (:axiom :vars (?v - thing) :context (h ?v) :implies (h ?v))\n"
    " (:action noop :parameters (?x - thing) :precondition (p ?x) :effect (p ?x)))\n";
using S = std::set<std::string>;
static const std::vector<std::string> kObj = {"a", "b", "c"};
static S text(const State& s) { S out; for (const Proposition& p : s) out.insert(p.to_string()); return out; }
static std::string at(const std::string& n, const std::string& o) { return n + "(" + o + ")"; }
// Implied literals of axiom k for object o: (context, is positive), [(proposition, is positive)].
static std::pair<std::string, bool> context(int k, const std::string& o) {
  return k == 0 ? std::make_pair(at("q", o), true) : k == 1 ? std::make_pair(at("p", o), true) : std::make_pair(at("u", o), false);
}
static std::vector<std::pair<std::string, bool>> implied(int k, const std::string& o, bool has_q) {
  if (k == 0) return {{at("u", o), true}, {at("m", o), false}};
  // A newly implied proposition that is the context of another axiom brings its implications along.
  if (k == 1 && has_q) return {{at("q", o), true}};
  if (k == 1) return {{at("q", o), true}, {at("u", o), true}, {at("m", o), false}};
  return {{at("m", o), true}};
}
static int rounds() {
  char dir[] = "/tmp/demoXXXXXX";
  CHECK(mkdtemp(dir));
  const std::string d = std::string(dir) + "/d.pddl", pf = std::string(dir) + "/p.pddl";
  std::ofstream(d) << kRounds;
  std::ofstream(pf) << kProblem;
  const Pddl pddl(d, pf, false);
  unlink(d.c_str()); unlink(pf.c_str()); rmdir(dir);
  std::vector<std::string> names;
  for (const char* n : {"p", "k", "j", "g", "h"}) for (const auto& o : kObj) names.push_back(at(n, o));
  for (const auto& o : kObj) for (const auto& q : kObj) names.push_back("s(" + o + ", " + q + ")");
  using M = std::map<std::string, bool>;
  // One round of one axiom: 0 nothing, 1 learned, 2 contradicted.
  const auto sweep = [](int k, M* m) {
    const auto is = [m](const std::string& x) { const auto f = m->find(x); return f == m->end() ? -1 : int(f->second); };
    int r = 0;
    for (const auto& o : kObj) {
      S add;
      if (k == 0 && is(at("p", o)) == 1) {
        if (is(at("k", o)) == 1) add.insert(at("j", o));
        for (const auto& q : kObj) if (is("s(" + o + ", " + q + ")") == 1) add.insert(at("k", q));
      }
      if (k == 1 && is(at("g", o)) == 1) add.insert(at("k", o));
      for (const auto& x : add) {
        const int was = is(x);
        if (was != 1) { (*m)[x] = true; r = std::max(r, was < 0 ? 1 : 2); }
      }
    }
    return r;
  };
  unsigned seed = 11;
  const auto rnd = [&seed]() { seed = seed * 1103515245u + 12345u; return seed >> 8; };
  for (int c = 0; c < 4000; c++) {
    now = "rounds " + std::to_string(c);
    M is;
    for (const auto& n : names) { const unsigned v = rnd() % 8; if (v < 3) is[n] = true; else if (n[0] == 'j' && v < 6) is[n] = false; }
    State pos, neg;
    for (const auto& x : is) { if (x.second) pos.insert(Proposition(pddl, x.first)); else neg.insert(Proposition(pddl, x.first)); }
    const PartialState ps(pos, neg);
    for (int k = 0; k < 2; k++) {
      M m = is;
      int r;
      while ((r = sweep(k, &m)) == 1) {}
      CHECK(pddl.axioms()[k]->IsConsistent(ps) == (r == 0));
    }
    M m = is;
    bool good = true, more = true;
    while (good && more) {
      more = false;
      for (int k = 0; k < 2 && good; k++) { const int r = sweep(k, &m); good = r < 2; more = more || r == 1; }
    }
    CHECK(Axiom::IsConsistent(pddl.axioms(), ps) == good);
  }
  return 0;
}
int main() {
  char dir[] = "/tmp/demoXXXXXX";
  CHECK(mkdtemp(dir));
  const std::string d = std::string(dir) + "/d.pddl", pf = std::string(dir) + "/p.pddl";
  std::ofstream(d) << kDomain;
  std::ofstream(pf) << kProblem;
  const Pddl pddl(d, pf, false);
  unlink(d.c_str()); unlink(pf.c_str()); rmdir(dir);
  CHECK(pddl.axioms().size() == 3);
  std::vector<std::string> names;
  for (const char* n : {"p", "q", "u", "m"}) for (const auto& o : kObj) names.push_back(at(n, o));
  // Complete states.
  for (unsigned bits = 0; bits < (1u << names.size()); bits++) {
    State s;
    for (size_t i = 0; i < names.size(); i++) if (bits >> i & 1) s.insert(Proposition(pddl, names[i]));
    const S is = text(s);
    now = "state " + std::to_string(bits);
    for (int k = 0; k < 3; k++) {
      const Axiom& ax = *pddl.axioms()[k];
      S to = is;
      bool good = true;
      for (const auto& o : kObj) {
        const auto c = context(k, o);
        if ((is.count(c.first) > 0) != c.second) continue;
        for (const auto& w : implied(k, o, is.count(at("q", o)) > 0)) {
          good = good && (is.count(w.first) > 0) == w.second;
          if (w.second) to.insert(w.first); else to.erase(w.first);
        }
      }
      CHECK(ax.IsConsistent(s) == good);
      CHECK(text(ax.Apply(s)) == to);
      State t = s;
      CHECK(ax.Apply(&t) == (to != is));
      CHECK(text(t) == to);
      CHECK(text(s) == is);
    }
  }
  // Partial states over two objects, the third one fixed.
  std::vector<std::string> part;
  for (const char* n : {"p", "q", "u", "m"}) for (const char* o : {"a", "c"}) part.push_back(at(n, o));
  unsigned total = 1;
  for (size_t i = 0; i < part.size(); i++) total *= 3;
  for (unsigned code = 0; code < total; code++) {
    std::map<std::string, bool> is;
    is[at("p", "b")] = true; is[at("q", "b")] = true; is[at("u", "b")] = true; is[at("m", "b")] = false;
    unsigned c = code;
    for (const auto& n : part) { if (c % 3) is[n] = c % 3 == 1; c /= 3; }
    State pos, neg;
    for (const auto& x : is) { if (x.second) pos.insert(Proposition(pddl, x.first)); else neg.insert(Proposition(pddl, x.first)); }
    const PartialState ps(pos, neg);
    now = "partial state " + std::to_string(code);
    const auto same = [](const PartialState& g, const std::map<std::string, bool>& w) {
      S a, b;
      for (const auto& x : w) (x.second ? a : b).insert(x.first);
      return text(g.pos()) == a && text(g.neg()) == b;
    };
    const auto sweep = [](int k, std::map<std::string, bool>* m) {   // 0 nothing, 1 learned, 2 contradicted
      int r = 0;
      for (const auto& o : kObj) {
        const auto c = context(k, o);
        const auto f = m->find(c.first);
        if (f == m->end() || f->second != c.second) continue;
        const auto q = m->find(at("q", o));
        for (const auto& w : implied(k, o, q != m->end() && q->second)) {
          const auto g = m->find(w.first);
          if (g == m->end()) { r = std::max(r, 1); (*m)[w.first] = w.second; }
          else if (g->second != w.second) { r = 2; g->second = w.second; }
        }
      }
      return r;
    };
    for (int k = 0; k < 3; k++) {
      const Axiom& ax = *pddl.axioms()[k];
      auto m = is;
      PartialState t = ps;
      const int r = sweep(k, &m);
      CHECK(ax.Apply(&t) == r);
      CHECK(same(t, m));
      CHECK(same(ax.Apply(ps), m));
      CHECK(same(ps, is));
      auto f = is;
      int x;
      while ((x = sweep(k, &f)) == 1) {}
      CHECK(ax.IsConsistent(ps) == (x == 0));
    }
    auto f = is;
    bool good = true, more = true;
    while (good && more) {
      more = false;
      for (int k = 0; k < 3 && good; k++) {
        const int r = sweep(k, &f);
        good = r < 2;
        more = more || r == 1;
      }
    }
    CHECK(Axiom::IsConsistent(pddl.axioms(), ps) == good);
  }
  // Derived predicates: all graphs on three nodes, with stale derived propositions.
  for (unsigned bits = 0; bits < 512; bits++) {
    bool e[3][3], w[3][3];
    State s;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
      w[i][j] = e[i][j] = bits >> (3 * i + j) & 1;
      if (e[i][j]) s.insert(Proposition(pddl, "e(" + kObj[i] + ", " + kObj[j] + ")"));
    }
    for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) w[i][j] = w[i][j] || (w[i][k] && w[k][j]);
    if (bits % 5 == 0) s.insert(Proposition(pddl, "far(a, b)"));
    now = "graph " + std::to_string(bits);
    S want = text(s);
    want.erase("far(a, b)");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
      const std::string a = "(" + kObj[i] + ", " + kObj[j] + ")";
      if (w[i][j]) want.insert("path" + a);
      if (w[i][j] && !e[i][j]) want.insert("far" + a);
    }
    const S was = text(s);
    CHECK(text(DerivedPredicate::Apply(s, pddl.derived_predicates())) == want);
    State t = s;
    CHECK(DerivedPredicate::Apply(pddl.derived_predicates(), &t) == (want != was));
    CHECK(text(t) == want);
    CHECK(!DerivedPredicate::Apply(pddl.derived_predicates(), &t));
    CHECK(text(s) == was);
  }
  return rounds();
}
