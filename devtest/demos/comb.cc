// Combination generator against nested loops.
#include <cstdio>
#include <random>
#include <stdexcept>
#include <vector>
#include "symbolic/utils/combination_generator.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s\n", __LINE__, #x); return 1; } } while (0)
using V = std::vector<int>;
int main() {
  std::mt19937 g(1);
  for (int run = 0; run < 300; run++) {
    const size_t n = 1 + g() % 4;
    std::vector<V> o(n);
    bool empty = false;
    for (V& v : o) {
      const size_t k = run % 9 == 0 ? g() % 3 : 1 + g() % 4;
      for (size_t i = 0; i < k; i++) v.push_back(static_cast<int>(10 * (&v - &o[0]) + i));
      empty |= k == 0;
    }
    std::vector<const V*> p;
    for (const V& v : o) p.push_back(&v);
    std::vector<V> all(1);
    for (const V& v : o) {
      std::vector<V> next;
      for (const V& a : all) for (int x : v) { V b = a; b.push_back(x); next.push_back(b); }
      all = next;
    }
    if (empty) {
      bool refused = false;
      try { symbolic::CombinationGenerator<const V> bad(p); } catch (const std::invalid_argument&) { refused = true; }
      CHECK(refused);
      continue;
    }
    symbolic::CombinationGenerator<const V> gen(p);
    const symbolic::CombinationGenerator<const V>& cg = gen;
    const int N = static_cast<int>(all.size());
    CHECK(static_cast<int>(cg.size()) == N);
    if (empty) continue;
    for (int i = 0; i < N; i++) {
      CHECK(cg.at(i) == all[i]);
      CHECK(cg.at(i - N) == all[i]);
      CHECK(cg[i] == all[i]);
      CHECK(cg.find(all[i]) == i);
    }
    V missing = all[0];
    missing.back() = 999;
    bool none = false;
    try { cg.find(missing); } catch (const std::out_of_range&) { none = true; }
    CHECK(none);
    for (int i : {N, N + 1, -N - 1}) {
      bool thrown = false;
      try { cg.at(i); } catch (const std::out_of_range&) { thrown = true; }
      CHECK(thrown);
    }
    auto it = cg.begin();
    int pos = 0;
    for (int s = 0; s < 60; s++) {
      const int to = static_cast<int>(g() % (N + 4)) - 2;
      switch (g() % 6) {
        case 0: it += to - pos; pos = to; break;
        case 1: it -= pos - to; pos = to; break;
        case 2: ++it; pos++; break;
        case 3: --it; pos--; break;
        case 4: { auto old = it++; CHECK(it - old == 1); pos++; break; }
        default: { auto old = it--; CHECK(old - it == 1); pos--; break; }
      }
      CHECK(it - cg.begin() == pos);
      if (pos >= 0 && pos < N) CHECK(*it == all[pos]);
    }
    int i = N;
    for (auto r = cg.rbegin(); r != cg.rend(); ++r) CHECK(*r == all[--i]);
    CHECK(i == 0);
    for (int a = 0; a < N; a++) {
      auto r = cg.rbegin() + a;
      CHECK(*r == all[N - 1 - a] && r - cg.rbegin() == a && (r >= cg.rbegin()) && (cg.rbegin() <= r));
      CHECK((cg.begin() + a) <= (cg.begin() + a) && (cg.begin() + a) >= (cg.begin() + a) && !((cg.begin() + a) < (cg.begin() + a)));
    }
  }
  return 0;
}
