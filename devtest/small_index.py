H="src/state.cc"
S="include/symbolic/state.h"
EDITS=[
("s1","bad:C14",H,[("    idx_pred.push_back(idx);\n","")]),
("s2","bad:C14",H,[("i < predicates.size(); i++","i > predicates.size(); i++")]),
("s3","bad:C14",H,[("cache_propositions_.find(idx_proposition) != cache_propositions_.end()","cache_propositions_.find(idx_proposition) != cache_propositions_.begin()")]),
("s4","bad:C14",H,[("it != cache_idx_propositions_.end()","it != cache_idx_propositions_.begin()")]),
("s5","bad:C14",H,[("i < indexed_state.size(); i++","i < indexed_state.size(); i--")]),
("s6","bad:C14",H,[("if (!indexed_state(i)) continue;","if (true) continue;")]),
("s7","bad:C14",H,[("    if (!indexed_state(i)) continue;\n    state.insert(GetProposition(i));","    state.insert(GetProposition(i));\n    if (!indexed_state(i)) continue;")]),
("s8","bad:C14",H,[("    indexed_state[idx_prop] = true;\n","")]),
("s9","bad:C14",H,[("idx_proposition + 1);","idx_proposition);")]),
("s10","bad:C14",H,[("                       idx_proposition + 1);\n  const size_t idx_pred = it - idx_predicate_group_.begin() - 1;","                       idx_proposition);\n  const size_t idx_pred = it - idx_predicate_group_.begin() - (*it > idx_proposition);")]),
("g1","good",H,[("      std::lower_bound(idx_predicate_group_.begin(), idx_predicate_group_.end(),\n                       idx_proposition + 1);","      std::upper_bound(idx_predicate_group_.begin(), idx_predicate_group_.end(),\n                       idx_proposition);")]),
("s14","bad:C14",S,[("return it + n;","return it - n;")]),
("s15","bad:C14",S,[("bool operator>(const iterator& rhs) const { return rhs < *this; };","bool operator>(const iterator& rhs) const { return *this > rhs; };")]),
("p52","bad:C03,C04","include/symbolic/proposition.h",[("return !(lhs == rhs);","return !(lhs != rhs);")]),
]
