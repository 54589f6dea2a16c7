SC = "src/state.cc"
UV = "include/symbolic/utils/unique_vector.h"
HS = "include/symbolic/utils/hash_set.h"
EDITS = [
 ("st-count", "bad:C14", SC, [("size_t StateIndex::GetPropositionIndex(const Proposition& prop) const {\n", "size_t StateIndex::GetPropositionIndex(const Proposition& prop) const {\n  static std::unordered_map<std::string, size_t> seen;\n  const auto it_seen = seen.find(prop.to_string());\n  if (it_seen != seen.end()) return it_seen->second;\n"), ("  }\n  return idx_proposition;\n}\n", "  }\n  seen[prop.to_string()] = idx_proposition;\n  return idx_proposition;\n}\n")]),
 ("st-const", "good", SC, [("  // Iterate over propositions in state\n", "  static const bool kTrue = true;\n"), ("indexed_state[idx_prop] = true;", "indexed_state[idx_prop] = kTrue;")]),
 ("st-empty", "good", SC, [("StateIndex::IndexedState StateIndex::GetIndexedState(const State& state) const {\n", "StateIndex::IndexedState StateIndex::GetIndexedState(const State& state) const {\n  static size_t num_calls = 0;\n  num_calls++;\n")]),
]
