// Instantiates the set templates, so that every member function body is
// type-checked with resolved callees.  Only the analyser reads this; it is
// never compiled to code or run.
#include <algorithm>
#include <string>
#include <utility>
#include <vector>

#include "symbolic/state.h"

namespace symbolic {

template class UniqueVector<Proposition>;
template class HashSet<Proposition>;

}  // namespace symbolic

namespace verif_force {

using symbolic::HashSet;
using symbolic::Proposition;
using symbolic::PropositionBase;
using symbolic::UniqueVector;

template <typename Set>
void UseSet(Set& s, const Set& cs, const PropositionBase& q, Proposition&& p) {
  s.contains(q);
  s.insert(q);
  s.erase(q);
  s.insert(std::move(p));
}

template <typename It>
void UseBidirectional(It a, const It& b) {
  ++a;
  a++;
  --a;
  a--;
  (void)(a == b);
  (void)(a != b);
  (void)*a;
  (void)a.operator->();
}

void UseSets(HashSet<Proposition>& h, UniqueVector<Proposition>& u, const PropositionBase& q, Proposition& p) {
  UseSet<HashSet<Proposition>>(h, h, q, std::move(p));
  UseSet<UniqueVector<Proposition>>(u, u, q, std::move(p));
  u.emplace(p);
  const HashSet<Proposition>& ch = h;
  UseBidirectional(h.begin(), h.end());
  UseBidirectional(ch.begin(), ch.end());
  (void)(h == ch);
  (void)(h != ch);
  (void)(h < ch);
  (void)h.empty();
}

void UseState(symbolic::State& s, const symbolic::State& cs, symbolic::PartialState& q, const Proposition& p) {
  s.emplace(std::string("p"), std::vector<symbolic::Object>{});
  q.emplace(std::string("p"), std::vector<symbolic::Object>{});
  s.insert(cs.begin(), cs.end());
  (void)(s == cs);
  (void)(s != cs);
  (void)(s < cs);
  (void)(q == q);
  (void)(q != q);
  (void)(q < q);
}

void UseIndex(const symbolic::StateIndex& si, symbolic::StateIndex::iterator it, ptrdiff_t n) {
  auto e = si.end();
  UseBidirectional(it, e);
  (void)(it < e);
  (void)(it > e);
  (void)(it <= e);
  (void)(it >= e);
  it += n;
  it -= n;
  (void)(it + n);
  (void)(n + it);
  (void)(it - n);
  (void)(it - e);
  (void)it[n];
}

}  // namespace verif_force
