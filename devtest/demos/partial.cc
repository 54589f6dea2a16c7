// lib
// Random histories of a partial state against a three-valued map.
#include <cstdio>
#include <map>
#include <random>
#include <string>
#include <vector>
#include "symbolic/state.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s\n", __LINE__, #x); return 1; } } while (0)
using namespace symbolic;
int main() {
  std::mt19937 g(1);
  std::vector<Proposition> props;
  for (int i = 0; i < 12; i++) props.emplace_back("a-rather-long-predicate-name-" + std::to_string(i), std::vector<Object>{});
  for (int run = 0; run < 200; run++) {
    PartialState s;
    std::map<int, int> m;  // 0 unknown, 1 true, 2 false
    for (int step = 0; step < 100; step++) {
      const int i = g() % 12, op = g() % 4;
      const int was = m[i];
      int r;
      if (op == 0) { Proposition p = props[i]; r = static_cast<int>(s.insert(std::move(p))); m[i] = 1; }
      else if (op == 1) { r = static_cast<int>(s.insert(props[i])); m[i] = 1; }
      else if (op == 2) { Proposition p = props[i]; r = static_cast<int>(s.erase(std::move(p))); m[i] = 2; }
      else { r = static_cast<int>(s.erase(props[i])); m[i] = 2; }
      CHECK(r == (was == m[i] ? 0 : was == 0 ? 1 : 2));
      bool any = false, incons = false;
      for (int k = 0; k < 12; k++) {
        CHECK(s.pos().contains(props[k]) == (m[k] == 1));
        CHECK(s.neg().contains(props[k]) == (m[k] == 2));
        any |= m[k] != 0;
        int v = 0;
        try { v = s.contains(props[k]) ? 1 : 2; } catch (const PartialState::UnknownEvaluation&) { v = 0; }
        CHECK(v == m[k]);
        if (m[k]) CHECK(s.does_not_contain(props[k]) == (m[k] == 2));
      }
      CHECK(s.empty() == !any);
      CHECK(s.IsConsistent() && !incons);
      PartialState t(State(s.pos()), State(s.neg()));
      CHECK(t == s && !(t != s));
    }
  }
  return 0;
}
