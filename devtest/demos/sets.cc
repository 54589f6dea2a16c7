// Random histories of a set against std::set.
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <random>
#include <set>
#include <vector>
struct K {
  int v;
  bool operator==(const K& o) const { return v == o.v; }
  bool operator!=(const K& o) const { return v != o.v; }
  bool operator<(const K& o) const { return v < o.v; }
};
namespace std {
template <>
struct hash<K> {
  size_t operator()(const K& k) const { return static_cast<size_t>(k.v / 4) * 5; }
};
}  // namespace std
#include "symbolic/utils/hash_set.h"
#define CHECK(x) do { if (!(x)) { std::printf("failed line %d: %s\n", __LINE__, #x); return 1; } } while (0)
using Set = symbolic::HashSet<K>;
static std::vector<int> list(const Set& s) {
  std::vector<int> r;
  size_t n = 0;
  for (const K& k : s) {
    r.push_back(k.v);
    if (++n > 1000) break;
  }
  return r;
}
int main() {
  std::mt19937 g(1);
  for (int run = 0; run < 400; run++) {
    Set s;
    std::set<int> m;
    const int range = 1 + g() % 40;
    for (int step = 0; step < 150; step++) {
      const K k{static_cast<int>(g() % range)};
      const K& ck = k;
      switch (g() % 5) {
        case 0: CHECK(s.insert(K{k.v}) == m.insert(k.v).second); break;
        case 1: CHECK(s.insert(ck) == m.insert(k.v).second); break;
        case 2: CHECK(s.insert(ck) == m.insert(k.v).second); break;
        default: CHECK(s.erase(k) == (m.erase(k.v) > 0)); break;
      }
      CHECK(s.size() == m.size());
      CHECK(s.empty() == m.empty());
      for (int i = 0; i < range; i++) CHECK(s.contains(K{i}) == (m.count(i) > 0));
      const std::vector<int> l = list(s);
      CHECK(std::set<int>(l.begin(), l.end()) == m && l.size() == m.size());
      std::vector<int> back;
      for (auto it = s.end(); it != s.begin() && back.size() < 1000;) back.push_back((*--it).v);
      CHECK(std::vector<int>(back.rbegin(), back.rend()) == l);
      if (step % 5 == 0) {
        // The same members, built in another order and with a different peak.
        Set t;
        for (auto it = m.rbegin(); it != m.rend(); ++it) CHECK(t.insert(K{*it}));
        CHECK(t == s && !(t != s) && list(t) == l);
        Set u;
        for (int i = 0; i < range + 7; i++) u.insert(K{i});
        for (int i = 0; i < range + 7; i++) if (!m.count(i)) u.erase(K{i});
        CHECK(u == s && list(u) == l);
        if (!m.empty()) {
          u.erase(K{*m.begin()});
          CHECK(u != s && !(u == s));
        }
      }
    }
  }
  return 0;
}
