// Instantiates the combination generator; see sets.cc.
#include <algorithm>
#include <string>
#include <utility>
#include <vector>

#include "symbolic/utils/combination_generator.h"
#include "symbolic/utils/parameter_generator.h"

namespace symbolic {
template class CombinationGenerator<const std::vector<Object>>;
template class CombinationGenerator<std::vector<Object>>;
}  // namespace symbolic

namespace verif_force {

template <typename It>
void UseRandom(It it, const It& e, ptrdiff_t n) {
  ++it;
  it++;
  --it;
  it--;
  (void)(it == e);
  (void)(it != e);
  (void)*it;
  (void)it.operator->();
  (void)(it < e);
  (void)(it > e);
  (void)(it <= e);
  (void)(it >= e);
  it += n;
  it -= n;
  (void)(it + n);
  (void)(n + it);
  (void)(it - n);
  (void)(it - e);
  (void)it[n];
}

template <typename Gen>
void UseGen(Gen& g, const Gen& c) {
  UseRandom(g.begin(), g.end(), 1);
  UseRandom(c.begin(), c.end(), 1);
  UseRandom(g.rbegin(), g.rend(), 1);
  UseRandom(c.rbegin(), c.rend(), 1);
  c.cbegin();
  c.cend();
  c.crbegin();
  c.crend();
  c.at(0);
  c[0];
  c.find(*c.begin());
  c.empty();
}

void UseGens(symbolic::CombinationGenerator<const std::vector<symbolic::Object>>& a,
             symbolic::CombinationGenerator<std::vector<symbolic::Object>>& b) {
  UseGen(a, a);
  UseGen(b, b);
}

}  // namespace verif_force
