ST = "include/symbolic/state.h"
SC = "src/state.cc"
INS = "  const int was_negated = static_cast<int>(neg_.erase(prop));\n  const int was_added = static_cast<int>(pos_.insert(prop));\n  return was_negated + was_added;"
INSM = "  const int was_negated = static_cast<int>(neg_.erase(prop));\n  const int was_added = static_cast<int>(pos_.insert(std::move(prop)));\n  return was_negated + was_added;"
EDITS = [
 ("ps-order", "bad:C05", SC, [("  if (pos_.contains(prop)) return false;\n  if (neg_.contains(prop)) return true;\n  throw", "  if (!pos_.contains(prop)) return true;\n  if (neg_.contains(prop)) return true;\n  if (!neg_.contains(prop)) return false;\n throw")]),
 ("ps-unknown", "bad:C05", SC, [("  if (neg_.contains(prop)) return false;\n  throw UnknownEvaluation(prop);", "  return false;")]),
 ("ps-unknown2", "bad:C05", SC, [("  if (neg_.contains(prop)) return false;\n  throw UnknownEvaluation(prop);", "  if (neg_.empty() || neg_.contains(prop)) return false;\n  throw UnknownEvaluation(prop);")]),
 ("ps-exc", "bad:C05", SC, [("  if (neg_.contains(prop)) return false;\n  throw UnknownEvaluation(prop);", "  if (neg_.contains(prop)) return false;\n  throw std::out_of_range(\"x\");")]),
 ("ps-ins-short", "bad:C05", SC, [(INS, "  if (neg_.erase(prop)) return 2;\n  return pos_.insert(prop);")]),
 ("ps-ins-code", "bad:C05", SC, [(INSM, "  const bool was_added = pos_.insert(prop);\n  return was_added ? 1 + neg_.empty() : 0;")]),
 ("ps-move", "bad:C05", SC, [(INSM, "  const int was_added = static_cast<int>(pos_.insert(std::move(prop)));\n  const int was_negated = static_cast<int>(neg_.erase(prop));\n  return was_negated + was_added;")]),
 ("ps-erase", "bad:C05", SC, [("  const int was_negated = static_cast<int>(pos_.erase(prop));\n  const int was_erased = static_cast<int>(neg_.insert(prop));\n  return was_negated + was_erased;", "  const int was_negated = static_cast<int>(pos_.erase(prop));\n  if (was_negated) return 1;\n  const int was_erased = static_cast<int>(neg_.insert(prop));\n  return was_negated + was_erased;")]),
 ("ps-cons", "bad:C05", SC, [("    if (neg_.contains(prop)) return false;\n  }\n  return true;", "    if (!neg_.contains(prop)) return true;\n  }\n  return pos_.empty();")]),
 ("ps-cons2", "bad:C05", SC, [("    if (neg_.contains(prop)) return false;\n  }\n  return true;", "    if (pos_.contains(prop)) return false;\n  }\n  return true;")]),
 ("ps-empty", "bad:C05", ST, [("return pos_.empty() && neg_.empty();", "return pos_.empty() || neg_.empty();")]),
 ("ps-ctor", "bad:C05", ST, [(": pos_(std::move(pos)), neg_(std::move(neg)) {}", ": pos_(std::move(neg)), neg_(std::move(pos)) {}")]),
 ("ps-ctor3", "bad:C05", ST, [(": pos_(pddl, str_pos), neg_(pddl, str_neg) {}", ": pos_(pddl, str_pos), neg_(pddl, str_pos) {}")]),
 ("g-ps-if", "good", SC, [(INS, "  if (neg_.erase(prop)) {\n    pos_.insert(prop);\n    return 2;\n  }\n  return pos_.insert(prop) ? 1 : 0;")]),
 ("g-ps-ord", "good", SC, [(INS, "  const bool was_added = pos_.insert(prop);\n  const bool was_negated = neg_.erase(prop);\n  int num = 0;\n  if (was_added) num++;\n  if (was_negated) ++num;\n  return num;")]),
 ("g-ps-help", "good", SC, [(INS, "  return Transfer(prop, neg_, pos_);"), ("  const int was_negated = static_cast<int>(pos_.erase(prop));\n  const int was_erased = static_cast<int>(neg_.insert(prop));\n  return was_negated + was_erased;", "  return Transfer(prop, pos_, neg_);"), ("std::vector<size_t> PredicateCumSum", "int Transfer(const symbolic::PropositionBase& p, symbolic::State& from, symbolic::State& to) {\n  const int a = from.erase(p);\n  const int b = to.insert(p);\n  return a + b;\n}\n\nstd::vector<size_t> PredicateCumSum")]),
 ("g-ps-fwd", "good", SC, [(INS, "  return insert(Proposition(prop));")]),
 ("g-ps-noterase", "good", SC, [("  if (pos_.contains(prop)) return false;\n  if (neg_.contains(prop)) return true;\n  throw UnknownEvaluation(prop);", "  return !contains(prop);")]),
 ("g-ps-cont", "good", SC, [("  if (pos_.contains(prop)) return true;\n  if (neg_.contains(prop)) return false;\n  throw UnknownEvaluation(prop);", "  const bool is_pos = pos_.contains(prop);\n  const bool is_neg = neg_.contains(prop);\n  if (!is_pos && !is_neg) throw UnknownEvaluation(prop);\n  return is_pos;")]),
 ("g-ps-cons", "good", SC, [("  for (const Proposition& prop : pos_) {\n    if (neg_.contains(prop)) return false;\n  }\n  return true;", "  bool ok = true;\n  for (const Proposition& prop : neg_) {\n    if (pos_.contains(prop)) ok = false;\n  }\n  return ok;")]),
 ("g-ps-cons2", "good", SC, [("  for (const Proposition& prop : pos_) {\n    if (neg_.contains(prop)) return false;\n  }\n  return true;", "  return std::none_of(pos_.begin(), pos_.end(), [this](const Proposition& p) { return neg_.contains(p); });")]),
 ("g-ps-cons3", "good", SC, [("  for (const Proposition& prop : pos_) {\n    if (neg_.contains(prop)) return false;\n  }\n  return true;", "  for (auto it = pos_.begin(); it != pos_.end(); ++it) {\n    if (neg_.contains(*it)) return false;\n  }\n  return true;")]),
 ("g-ps-contempty", "good", SC, [("  for (const Proposition& prop : pos_) {\n    if (neg_.contains(prop)) return false;\n  }\n  return true;", "  if (neg_.empty()) return true;\n  for (const Proposition& prop : pos_) {\n    if (neg_.contains(prop)) return false;\n  }\n  return true;")]),
]
