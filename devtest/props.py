PH = "include/symbolic/proposition.h"
PC = "src/proposition.cc"
OH = "include/symbolic/object.h"
OC = "src/object.cc"
AH = "include/symbolic/action.h"
FC = "src/formula.cc"
AC = "src/action.cc"
PL = "src/planning/planner.cc"
ST = "include/symbolic/state.h"
EDITS = [
 ("h-order", "bad:C03", PH, [("      : name_(name_predicate), arguments_(arguments) {\n    PrecomputeHash();\n  }\n\n  Proposition(const Pddl", "      : name_(name_predicate) {\n    PrecomputeHash();\n    arguments_ = arguments;\n  }\n\n  Proposition(const Pddl")]),
 ("h-nohash", "bad:C03", PH, [("        arguments_(Object::ParseArguments(pddl, str_prop)) {\n    PrecomputeHash();\n  }", "        arguments_(Object::ParseArguments(pddl, str_prop)) {\n    PrecomputeHash(0);\n  }")]),
 ("h-ref", "bad:C03", PH, [("    PrecomputeHash(predicate_hash);\n  }", "    hash_ = predicate_hash;\n  }")]),
 ("h-hashnoarg", "bad:C03", PC, [("size_t PropositionBase::Hash(const PropositionBase& prop) {\n  return Hash(prop, std::hash<std::string>{}(prop.name()));\n}", "size_t PropositionBase::Hash(const PropositionBase& prop) {\n  size_t seed = std::hash<std::string>{}(prop.name());\n  const std::vector<Object>& args = prop.arguments();\n  for (auto it = args.rbegin(); it != args.rend(); ++it) {\n    seed ^= std::hash<Object>{}(*it) + kHashOffset + (seed << kHashL) + (seed >> kHashR);\n  }\n  return seed;\n}")]),
 ("h-spec", "bad:C03", PH, [("  size_t operator()(const symbolic::PropositionRef& prop) const noexcept {\n    return prop.hash();", "  size_t operator()(const symbolic::PropositionRef& prop) const noexcept {\n    return prop.hash() ^ prop.arguments().size();")]),
 ("h-spec2", "bad:C03", PH, [("  size_t operator()(const symbolic::PropositionRef& prop) const noexcept {\n    return prop.hash();", "  size_t operator()(const symbolic::PropositionRef& prop) const noexcept {\n    return std::hash<std::string>{}(prop.name());")]),
 ("h-obj", "bad:C03", OC, [("      type_(GetTypeSymbol(types, symbol->type)),\n      hash_(std::hash<std::string>{}(name())) {}", "      type_(GetTypeSymbol(types, symbol->type)),\n      hash_(std::hash<const void*>{}(symbol)) {}")]),
 ("h-obj2", "bad:C03", OC, [("      type_(GetTypeSymbol(types, symbol->type)),\n      hash_(std::hash<std::string>{}(name())) {}", "      type_(GetTypeSymbol(types, symbol->type)),\n      hash_(std::hash<std::string>{}(type_.name())) {}")]),
 ("h-eq", "bad:C03,C04", PH, [("    return std::tie(lhs.hash_, lhs.name(), lhs.arguments()) ==\n           std::tie(rhs.hash_, rhs.name(), rhs.arguments());", "    return lhs.hash_ == rhs.hash_ && lhs.name() == rhs.name();")]),
 ("h-eq2", "bad:C03,C04", PH, [("    return std::tie(lhs.hash_, lhs.name(), lhs.arguments()) ==\n           std::tie(rhs.hash_, rhs.name(), rhs.arguments());", "    return lhs.hash_ == rhs.hash_;")]),
 ("h-eq3", "bad:C04", OH, [("    return &lhs.name() == &rhs.name() ||\n           std::tie(lhs.hash_, lhs.name()) == std::tie(rhs.hash_, rhs.name());", "    return &lhs.name() == &rhs.name();")]),
 ("h-lt", "bad:C04", PH, [("    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());", "    return lhs.name() < rhs.name() || lhs.arguments() < rhs.arguments();")]),
 ("h-lt2", "bad:C04", PH, [("    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());", "    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), lhs.arguments());")]),
 ("h-lt3", "bad:C04", PH, [("    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());", "    return lhs.hash_ < rhs.hash_;")]),
 ("h-lt4", "bad:C04", OH, [("return &lhs.name() != &rhs.name() && lhs.name() < rhs.name();", "return &lhs.name() != &rhs.name() && lhs.name() <= rhs.name();")]),
 ("h-lt5", "bad:C04", OH, [("return &lhs.name() != &rhs.name() && lhs.name() < rhs.name();", "return &lhs.name() < &rhs.name();")]),
 ("h-lt6", "bad:C04", ST, [("return std::tie(lhs.pos_, lhs.neg_) < std::tie(rhs.pos_, rhs.neg_);", "return lhs.pos_ < rhs.pos_ || lhs.neg_ < rhs.neg_;")]),
 ("h-lt7", "bad:C04", PH, [("    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());", "    if (lhs.name() < rhs.name()) return true;\n    return lhs.name() == rhs.name() && lhs.arguments().size() < rhs.arguments().size();")]),
 ("h-act", "bad:C04", AH, [("    return lhs.name() < rhs.name();\n  }", "    return lhs.name() <= rhs.name();\n  }")]),
 ("h-node", "bad:C04", PL, [("  return impl_->state_ == rhs->state_;", "  return impl_->state_ == rhs->state_ && impl_->depth_ == rhs->depth_;")]),
 ("h-node2", "bad:C04", PL, [("  return impl_->state_ < rhs->state_;", "  return impl_->depth_ < rhs->depth_ || (impl_->depth_ == rhs->depth_ && impl_->state_ < rhs->state_);")]),
 ("h-form", "bad:C03", FC, [("  const size_t predicate_hash = std::hash<std::string>{}(name_predicate);\n  FormulaFunction<T> F = [", "  const size_t predicate_hash = 0;\n  FormulaFunction<T> F = [")]),
 ("h-act2", "bad:C03", AC, [("  const size_t predicate_hash = std::hash<std::string>{}(name_predicate);\n  return [", "  const size_t predicate_hash = std::hash<std::string>{}(name_predicate + \" \");\n  return [", 0)]),
 ("g-eq", "good", PH, [("    return std::tie(lhs.hash_, lhs.name(), lhs.arguments()) ==\n           std::tie(rhs.hash_, rhs.name(), rhs.arguments());", "    if (lhs.hash() != rhs.hash()) return false;\n    return lhs.name() == rhs.name() && lhs.arguments() == rhs.arguments();")]),
 ("g-eq2", "good", PH, [("    return std::tie(lhs.hash_, lhs.name(), lhs.arguments()) ==\n           std::tie(rhs.hash_, rhs.name(), rhs.arguments());", "    return lhs.name() == rhs.name() && lhs.arguments() == rhs.arguments();")]),
 ("g-lt", "good", PH, [("    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());", "    if (lhs.name() != rhs.name()) return lhs.name() < rhs.name();\n    return lhs.arguments() < rhs.arguments();")]),
 ("g-lt2", "good", PH, [("    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());", "    const int c = lhs.name().compare(rhs.name());\n    return c < 0 || (c == 0 && lhs.arguments() < rhs.arguments());")]),
 ("g-obj", "good", OH, [("return &lhs.name() != &rhs.name() && lhs.name() < rhs.name();", "return lhs.name() < rhs.name();")]),
 ("g-obj2", "good", OH, [("    return &lhs.name() == &rhs.name() ||\n           std::tie(lhs.hash_, lhs.name()) == std::tie(rhs.hash_, rhs.name());", "    if (&lhs.name() == &rhs.name()) return true;\n    if (lhs.hash_ != rhs.hash_) return false;\n    return lhs.name() == rhs.name();")]),
 ("g-hash", "good", PC, [("size_t PropositionBase::Hash(const PropositionBase& prop) {\n  return Hash(prop, std::hash<std::string>{}(prop.name()));\n}", "size_t PropositionBase::Hash(const PropositionBase& prop) {\n  const size_t predicate_hash = std::hash<std::string>{}(prop.name());\n  return Hash(prop, predicate_hash);\n}")]),
 ("g-hash2", "good", PC, [("  for (const Object& arg : prop.arguments()) {\n    seed ^= std::hash<Object>{}(arg) + kHashOffset + (seed << kHashL) +\n            (seed >> kHashR);\n  }", "  const std::vector<Object>& args = prop.arguments();\n  for (size_t i = 0; i < args.size(); i++) {\n    seed = Mix(seed, args[i].hash());\n  }"), ("constexpr size_t kHashR = 2;\n", "constexpr size_t kHashR = 2;\n\nsize_t Mix(size_t seed, size_t h) {\n  return seed ^ (h + kHashOffset + (seed << kHashL) + (seed >> kHashR));\n}\n")]),
 ("g-hash3", "good", PC, [("    seed ^= std::hash<Object>{}(arg) + kHashOffset + (seed << kHashL) +\n            (seed >> kHashR);", "    seed = 31 * seed + std::hash<Object>{}(arg);")]),
 ("g-ctor", "good", PH, [("      : name_(name_predicate), arguments_(arguments) {\n    PrecomputeHash();\n  }\n\n  Proposition(const Pddl", "      : Proposition(name_predicate, std::vector<Object>(arguments)) {}\n\n  Proposition(const Pddl")]),
 ("g-ctor2", "good", PH, [("      : name_(name_predicate), arguments_(arguments) {\n    PrecomputeHash();\n  }\n\n  Proposition(const Pddl", "      {\n    name_ = name_predicate;\n    arguments_ = arguments;\n    hash_ = Hash(*this, std::hash<std::string>{}(name_));\n  }\n\n  Proposition(const Pddl")]),
 ("g-ctor3", "good", PH, [("      : PropositionBase(other),\n        name_(other.name()),\n        arguments_(other.arguments()) {}", "      : name_(other.name()),\n        arguments_(other.arguments()) {\n    hash_ = other.hash();\n  }")]),
 ("g-ctor4", "good", PH, [("      : PropositionBase(other),\n        name_(other.name()),\n        arguments_(other.arguments()) {}", "      : name_(other.name()),\n        arguments_(other.arguments()) {\n    PrecomputeHash();\n  }")]),
 ("g-objctor", "good", OC, [("      type_(GetTypeSymbol(types, symbol->type)),\n      hash_(std::hash<std::string>{}(name())) {}", "      type_(GetTypeSymbol(types, symbol->type)),\n      hash_(std::hash<std::string>{}(symbol->getNameRef())) {}")]),
 ("g-spec", "good", PH, [("  size_t operator()(const symbolic::PropositionRef& prop) const noexcept {\n    return prop.hash();", "  size_t operator()(const symbolic::PropositionRef& prop) const noexcept {\n    return hash<symbolic::PropositionBase>{}(prop);")]),
 ("g-node", "good", PL, [("  return impl_->state_ == rhs->state_;", "  return impl_ == rhs.impl_ || impl_->state_ == rhs->state_;")]),
 ("g-pslt", "good", ST, [("return std::tie(lhs.pos_, lhs.neg_) < std::tie(rhs.pos_, rhs.neg_);", "if (lhs.pos_ < rhs.pos_) return true;\n    if (rhs.pos_ < lhs.pos_) return false;\n    return lhs.neg_ < rhs.neg_;")]),
]
