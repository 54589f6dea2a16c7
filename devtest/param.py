P = "src/utils/parameter_generator.cc"
H = "include/symbolic/utils/parameter_generator.h"
CTOR = "  if (param_types_.size() != params.size()) return;\n  Base::operator=(Base(Options(param_types_)));\n"
CC = "    : pddl_(other.pddl_), param_types_(other.param_types_) {\n  Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));\n"
CA = "  pddl_ = rhs.pddl_;\n  param_types_ = rhs.param_types_;\n  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));\n"
MC = "    : pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {\n  Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));\n"
MA = "  param_types_ = std::move(rhs.param_types_);\n  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));\n"
LOOP = "  for (const Object& param : params) {\n    try {\n"
CATCH = """    try {
      types.push_back(object_map.at(param.type().name()));
    } catch (...) {
      // std::cerr << "ParameterGenerator(): parameter type '"
      //           << param.type().name() << " not found in object map."
      //           << std::endl;
      types.clear();
      break;
      // throw std::runtime_error("ParameterGenerator(): parameter type '" +
      //                          param.type().name() +
      //                          "' not found in object map.");
    }
"""
OPT = "  for (const std::vector<Object>& option : param_types) {\n    options.push_back(&option);\n  }\n"
EDITS = [
 ("p-name", "bad:C13", P, [("object_map.at(param.type().name())", "object_map.at(param.name())")]),
 ("p-front", "bad:C13", P, [("object_map.at(param.type().name())", "object_map.at(params.front().type().name())")]),
 ("p-contin", "bad:C13", P, [("      types.clear();\n      break;\n", "      continue;\n"), ("  if (param_types_.size() != params.size()) return;\n", "")]),
 ("p-contin2", "bad:C13", P, [("      types.clear();\n      break;\n", "      continue;\n"), ("  if (param_types_.size() != params.size()) return;\n", "  if (param_types_.empty() && !params.empty()) return;\n")]),
 ("p-noclear", "bad:C13", P, [("      types.clear();\n      break;\n", "      break;\n"), ("  if (param_types_.size() != params.size()) return;\n", "")]),
 ("p-noguard", "bad:C13", P, [("  if (param_types_.size() != params.size()) return;\n", "")]),
 ("p-guardempty", "bad:C13", P, [("  if (param_types_.size() != params.size()) return;\n", "  if (param_types_.empty()) return;\n")]),
 ("p-guardless", "bad:C13", P, [("  if (param_types_.size() != params.size()) return;\n", "  if (param_types_.size() == params.size()) return;\n")]),
 ("p-emptylist", "bad:C13", P, [("      types.clear();\n      break;\n", "      types.emplace_back();\n")]),
 ("p-reverse", "bad:C13", P, [(OPT, "  for (auto it = param_types.rbegin(); it != param_types.rend(); ++it) {\n    options.push_back(&*it);\n  }\n")]),
 ("p-skipfirst", "bad:C13", P, [(OPT, "  for (size_t i = 1; i < param_types.size(); i++) {\n    options.push_back(&param_types[i]);\n  }\n")]),
 ("p-sameopt", "bad:C13", P, [(OPT, "  for (size_t i = 0; i < param_types.size(); i++) {\n    options.push_back(&param_types[0]);\n  }\n")]),
 ("p-byvalue", "bad:C13", P, [("const std::vector<std::vector<Object>>& param_types) {", "std::vector<std::vector<Object>> param_types) {")]),
 ("p-ccother", "bad:C13", P, [(CC, CC.replace("Options(param_types_)", "Options(other.param_types_)"))]),
 ("p-ccbase", "bad:C13", P, [(CC, "    : Base(other), pddl_(other.pddl_), param_types_(other.param_types_) {\n")]),
 ("p-ccnotypes", "bad:C13", P, [(CC, CC.replace(", param_types_(other.param_types_)", ""))]),
 ("p-ccnopddl", "bad:C13", P, [(CC, CC.replace("pddl_(other.pddl_), ", ""))]),
 ("p-ccalways", "bad:C13", P, [(CC, CC.replace("other.empty() ? Base() : Base(Options(param_types_))", "Base(Options(param_types_))"))]),
 ("p-ccnever", "bad:C13", P, [(CC, CC.replace("  Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));\n", ""))]),
 ("p-ccinv", "bad:C13", P, [(CC, CC.replace("other.empty() ? Base() : Base(Options(param_types_))", "!other.empty() ? Base() : Base(Options(param_types_))"))]),
 ("p-cctypes", "bad:C13", P, [(CC, CC.replace("other.empty() ?", "other.param_types_.empty() ?"))]),
 ("p-caorder", "bad:C13", P, [(CA, "  pddl_ = rhs.pddl_;\n  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));\n  param_types_ = rhs.param_types_;\n")]),
 ("p-cabase", "bad:C13", P, [(CA, "  pddl_ = rhs.pddl_;\n  param_types_ = rhs.param_types_;\n  Base::operator=(rhs);\n")]),
 ("p-canobase", "bad:C13", P, [(CA, "  pddl_ = rhs.pddl_;\n  param_types_ = rhs.param_types_;\n")]),
 ("p-canopddl", "bad:C13", P, [(CA, CA.replace("  pddl_ = rhs.pddl_;\n", ""))]),
 ("p-canotypes", "bad:C13", P, [(CA, CA.replace("  param_types_ = rhs.param_types_;\n", ""))]),
 ("p-caself", "bad:C13", P, [("if (this == &rhs) return *this;", "if (this != &rhs) return *this;")]),
 ("p-casame", "bad:C13", P, [("if (this == &rhs) return *this;", "if (pddl_ == rhs.pddl_) return *this;")]),
 ("p-casize", "bad:C13", P, [("if (this == &rhs) return *this;", "if (size() == rhs.size()) return *this;")]),
 ("p-maother", "bad:C13", P, [(MA, MA.replace("Options(param_types_)", "Options(rhs.param_types_)"))]),
 ("p-mcother", "bad:C13", P, [(MC, MC.replace("Options(param_types_)", "Options(other.param_types_)"))]),
 ("p-mccopybase", "bad:C13", P, [(MC, "    : Base(other), pddl_(other.pddl_), param_types_(other.param_types_) {\n")]),
 ("p-manobase", "bad:C13", P, [(MA, "  param_types_ = std::move(rhs.param_types_);\n")]),
 ("p-default", "bad:C13", [H, P], [("  ParameterGenerator(const ParameterGenerator& other);\n", "  ParameterGenerator(const ParameterGenerator& other) = default;\n"), ("ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)\n" + CC + "}\n", "")]),
 ("p-nopddl", "bad:C13", P, [("    : pddl_(&pddl), param_types_", "    : param_types_")]),
 ("p-two", "bad:C13", P, [("      types.push_back(object_map.at(param.type().name()));\n", "      types.push_back(object_map.at(param.type().name()));\n      if (types.size() > 1 && types.back() == types[0]) types.pop_back();\n")]),
 ("p-sorted", "bad:C13", P, [("  return types;\n", "  if (types.size() > 1) types.pop_back();\n  return types;\n")]),
 # good
 ("p-gidx", "good", P, [(OPT, "  for (size_t i = 0; i < param_types.size(); i++) {\n    options.push_back(&param_types[i]);\n  }\n")]),
 ("p-gsized", "good", P, [("  std::vector<const std::vector<Object>*> options;\n  options.reserve(param_types.size());\n" + OPT, "  std::vector<const std::vector<Object>*> options(param_types.size());\n  for (size_t i = 0; i < param_types.size(); i++) {\n    options[i] = &param_types[i];\n  }\n")]),
 ("p-gfind", "good", P, [(CATCH, "    const auto it = object_map.find(param.type().name());\n    if (it == object_map.end()) return {};\n    types.push_back(it->second);\n")]),
 ("p-gfind2", "good", P, [(CATCH, "    const auto it = object_map.find(param.type().name());\n    if (it == object_map.end()) {\n      types.clear();\n      break;\n    }\n    types.push_back(it->second);\n")]),
 ("p-gnoclear", "good", P, [("      types.clear();\n      break;\n", "      break;\n")]),
 ("p-gtryout", "good", P, [(LOOP, "  try {\n  for (const Object& param : params) {\n    {\n"), ("    } catch (...) {", "    }\n  }\n  } catch (...) {"), ("      types.clear();\n      break;\n", "      types.clear();\n"), ("not found in object map.\");\n    }\n  }\n", "not found in object map.\");\n    }\n")]),
 ("p-ghelper", "good", P, [("}  // namespace\n", "ParameterGenerator::Base MakeBase(const ParameterGenerator& other, const std::vector<std::vector<Object>>& types) {\n  if (other.empty()) return {};\n  return ParameterGenerator::Base(Options(types));\n}\n\n}  // namespace\n"), ("Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));", "Base::operator=(MakeBase(rhs, param_types_));", "all"), ("Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));", "Base::operator=(MakeBase(other, param_types_));", "all")]),
 ("p-gstatic", "good", P, [("Base::operator=(other.empty() ? Base() : Base(Options(param_types_)));", "if (!other.empty()) static_cast<Base&>(*this) = Base(Options(param_types_));", "all")]),
 ("p-gsize", "good", P, [("other.empty()", "other.size() == 0", "all")]),
 ("p-gnoself", "good", P, [("  if (this == &rhs) return *this;\n\n", "")]),
 ("p-gselfinv", "good", P, [("  if (this == &rhs) return *this;\n\n", "  if (this != &rhs) {\n"), (CA, CA + "  }\n")]),
 ("p-gmvbase", "good", P, [(MC, "    : Base(std::move(other)), pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {\n")]),
 ("p-gorder", "good", P, [(CA, "  param_types_ = rhs.param_types_;\n  pddl_ = rhs.pddl_;\n  const bool none = rhs.empty();\n  const auto options = Options(param_types_);\n  Base::operator=(none ? Base() : Base(options));\n")]),
 ("p-gif", "good", P, [(CTOR, "  const bool complete = param_types_.size() == params.size();\n  if (complete) {\n    Base::operator=(Base(Options(param_types_)));\n  }\n")]),
 ("p-gcas", "good", P, [("  if (this == &rhs) return *this;\n\n" + CA + "  return *this;\n", "  return *this = ParameterGenerator(rhs);\n")]),
 ("p-gtransform", "good", P, [(OPT, "  std::transform(param_types.begin(), param_types.end(), std::back_inserter(options),\n                 [](const std::vector<Object>& o) { return &o; });\n"), ("#include <exception>  ", "#include <algorithm>\n#include <iterator>\n#include <exception>  ")]),
 ("p-gcount", "good", P, [(CATCH, "    if (object_map.count(param.type().name()) == 0) return {};\n    types.push_back(object_map.at(param.type().name()));\n")]),
 ("p-gctorbody", "good", P, [("    : pddl_(&pddl), param_types_(ParamTypes(pddl.object_map(), params)) {\n", "{\n  pddl_ = &pddl;\n  param_types_ = ParamTypes(pddl.object_map(), params);\n")]),
]
