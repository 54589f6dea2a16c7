O = "src/object.cc"
H = "include/symbolic/object.h"
GT = '''  if (symbol != nullptr) return symbol;
  if (types == nullptr) return nullptr;
  // Iterate over domain types
  for (const VAL::pddl_type* type : *types) {
    // Iterate over ancestors of current type
    for (; type != nullptr; type = type->type) {
      if (type->type == nullptr && type->getName() == "object") return type;
    }
  }
  return nullptr;'''
CONS = '''    for (const VAL::const_symbol* obj : *pddl.symbol()->the_domain->constants) {
      if (obj == nullptr) continue;
      if (obj->getName() == name_object) return obj;
    }
'''
PROB = '''    for (const VAL::const_symbol* obj : *pddl.symbol()->the_problem->objects) {
      if (obj == nullptr) continue;
      if (obj->getName() == name_object) return obj;
    }
'''
SUB = '''  if (type == kDefaultType) return true;
  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;
       curr = curr->type) {
    if (curr->getName() == type) return true;
  }
  return false;'''
LST = '''  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;
       curr = curr->type) {
    types.push_back(curr->getName());
  }
  if (types.empty() || types.back() != kDefaultType) {
    types.push_back(kDefaultType);
  }
  return types;'''
NAM = '''  if (symbol_ == nullptr) return kDefaultType;
  return symbol_->getNameRef();'''
C1 = '''      type_(GetTypeSymbol(pddl.symbol()->the_domain->types, symbol->type)),'''
C2 = '''      type_(GetTypeSymbol(types, symbol->type)),'''
C3 = '''      type_(GetTypeSymbol(pddl.symbol()->the_domain->types, symbol_->type)),'''
TEQ = "      return lhs.name() == rhs.name();"
TLT = "      return lhs.name() < rhs.name();"
SUBT = "bool IsSubtype(const Type& type) const { return IsSubtype(type.name()); }"
CL = '''  std::vector<Object> objects;
  if (symbols == nullptr) return objects;
  objects.reserve(symbols->size());
  for (const T* symbol : *symbols) {
    objects.emplace_back(pddl, symbol);
  }
  return objects;'''
CL2 = CL.replace("(pddl,", "(types,")
EDITS = [
 ("b_sub_parent", "bad:C15", [(O, SUB, SUB.replace("curr = symbol_; curr != nullptr;", "curr = symbol_; curr != nullptr && curr->type != nullptr;"))]),
 ("b_sub_one", "bad:C15", [(O, SUB, SUB.replace("  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;\n       curr = curr->type) {\n    if (curr->getName() == type) return true;\n  }\n", "  if (symbol_ != nullptr && symbol_->getName() == type) return true;\n  if (symbol_ != nullptr && symbol_->type != nullptr && symbol_->type->getName() == type) return true;\n"))]),
 ("b_sub_skip", "bad:C15", [(O, SUB, SUB.replace("curr = symbol_;", "curr = symbol_ == nullptr ? nullptr : symbol_->type;"))]),
 ("b_sub_default", "bad:C15", [(O, SUB, SUB.replace("  if (type == kDefaultType) return true;\n", ""))]),
 ("b_sub_default2", "bad:C15", [(O, SUB, SUB.replace("  if (type == kDefaultType) return true;\n", "  if (type == kDefaultType) return symbol_ != nullptr;\n"))]),
 ("b_sub_null", "bad:C15", [(O, SUB, SUB.replace("  if (type == kDefaultType) return true;\n", "  if (type == kDefaultType || symbol_ == nullptr) return true;\n"))]),
 ("b_sub_step", "bad:C15", [(O, SUB, SUB.replace("curr = curr->type)", "curr = curr->type == nullptr ? nullptr : curr->type->type)"))]),
 ("b_sub_prefix", "bad:C15", [(O, SUB, SUB.replace("curr->getName() == type", "curr->getName().find(type) == 0"))]),
 ("b_sub_type", "bad:C15", [(H, SUBT, "bool IsSubtype(const Type& type) const { return type.IsSubtype(name()); }")]),
 ("b_sub_type2", "bad:C15", [(H, SUBT, "bool IsSubtype(const Type& type) const { return symbol_ == type.symbol_ || (symbol_ != nullptr && symbol_->type == type.symbol_); }"), (H, "  class Type;\n", "  class Type;  // x\n"), (H, "#include <vector>", "#include <vector>\n#include <VAL/ptree.h>")]),
 ("b_lst_rev", "bad:C15", [(O, LST, LST.replace("types.push_back(curr->getName());", "types.insert(types.begin(), curr->getName());"))]),
 ("b_lst_dup", "bad:C15", [(O, LST, LST.replace("types.empty() || types.back() != kDefaultType", "true"))]),
 ("b_lst_nodef", "bad:C15", [(O, LST, LST.replace("types.empty() || types.back() != kDefaultType", "types.empty()"))]),
 ("b_lst_one", "bad:C15", [(O, LST, LST.replace("types.push_back(curr->getName());\n", "types.push_back(curr->getName());\n    if (types.size() == 2) break;\n"))]),
 ("b_lst_front", "bad:C15", [(O, LST, LST.replace("types.back() != kDefaultType", "types.front() != kDefaultType"))]),
 ("b_name_root", "bad:C15", [(O, NAM, NAM.replace("symbol_ == nullptr", "symbol_ == nullptr || symbol_->type == nullptr"))]),
 ("b_name_parent", "bad:C15", [(O, NAM, NAM.replace("return symbol_->getNameRef();", "return symbol_->type == nullptr ? symbol_->getNameRef() : symbol_->type->getNameRef();"))]),
 ("b_gt_first", "bad:C15", [(O, GT, GT.replace('type->type == nullptr && type->getName() == "object"', 'type->type == nullptr'))]),
 ("b_gt_any", "bad:C15", [(O, GT, GT.replace('type->type == nullptr && type->getName() == "object"', 'type->getName() == "object" || type->type != nullptr'))]),
 ("b_gt_null", "bad:C15", [(O, GT, GT.replace("  if (types == nullptr) return nullptr;\n", ""))]),
 ("b_gt_decl", "bad:C15", [(O, GT, GT.replace("  if (symbol != nullptr) return symbol;\n", "  if (symbol != nullptr && symbol->type != nullptr) return symbol;\n"))]),
 ("b_gt_onelevel", "bad:C15", [(O, GT, GT.replace("for (; type != nullptr; type = type->type) {", "if (type != nullptr) {"))]),
 ("b_cons_stop", "bad:C15", [(O, CONS, CONS.replace("      if (obj == nullptr) continue;", "      if (obj == nullptr) break;"))]),
 ("b_cons_nonull", "bad:C15", [(O, CONS, CONS.replace("      if (obj == nullptr) continue;\n", ""))]),
 ("b_prob_nonull", "bad:C15", [(O, PROB, PROB.replace("      if (obj == nullptr) continue;\n", ""))]),
 ("b_prob_first", "bad:C15", [(O, PROB, PROB.replace("if (obj->getName() == name_object) return obj;", "return obj;"))]),
 ("b_lookup_nothrow", "bad:C15", [(O, '''  throw std::runtime_error("Object::Object(): Could not find object symbol " +
                           name_object + ".");
''', "")]),
 ("b_lookup_order", "bad:C15", [(O, "  if (pddl.symbol()->the_problem != nullptr) {\n", "  if (pddl.symbol()->the_problem != nullptr && pddl.symbol()->the_domain->constants == nullptr) {\n")]),
 ("b_cons_guard", "bad:C15", [(O, "  if (pddl.symbol()->the_domain->constants != nullptr) {\n", "  if (true) {\n")]),
 ("b_prob_guard", "bad:C15", [(O, "  if (pddl.symbol()->the_problem != nullptr) {\n", "  if (true) {\n")]),
 ("b_c1", "bad:C15", [(O, C1, "      type_(symbol->type),")]),
 ("b_c2", "bad:C15", [(O, C2, "      type_(symbol->type),")]),
 ("b_c3", "bad:C15", [(O, C3, "      type_(symbol_->type),")]),
 ("b_c2none", "bad:C15", [(O, C2, "      type_(GetTypeSymbol(types)),")]),
 ("b_hash", "bad:C15", [(O, "      hash_(std::hash<std::string>{}(name())) {}\n\nObject::Object(const VAL", "      hash_(std::hash<std::string>{}(type_.name())) {}\n\nObject::Object(const VAL")]),
 ("b_teq", "bad:C15", [(H, TEQ, "      return lhs.symbol() == rhs.symbol();")]),
 ("b_tlt", "bad:C15", [(H, TLT, "      return lhs.name() <= rhs.name();")]),
 ("b_tlt2", "bad:C15", [(H, TLT, "      return lhs.symbol() < rhs.symbol();")]),
 ("b_cl_null", "bad:C15", [(H, CL, CL.replace("  if (symbols == nullptr) return objects;\n", ""))]),
 ("b_cl_first", "bad:C15", [(H, CL, CL.replace("(pddl, symbol)", "(pddl, *symbols->begin())"))]),
 ("b_cl_rev", "bad:C15", [(H, CL2, CL2.replace("objects.emplace_back(types, symbol)", "objects.insert(objects.begin(), Object(types, symbol))"))]),
 ("b_cl_skip", "bad:C15", [(H, CL2, CL2.replace("    objects.emplace_back(types, symbol);", "    if (symbol->type == nullptr) continue;\n    objects.emplace_back(types, symbol);"))]),
 # good
 ("g_sub_while", "good", [(O, SUB, SUB.replace("  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;\n       curr = curr->type) {\n    if (curr->getName() == type) return true;\n  }\n  return false;", "  const VAL::pddl_type* curr = symbol_;\n  while (curr != nullptr && curr->getName() != type) curr = curr->type;\n  return curr != nullptr;"))]),
 ("g_sub_list", "good", [(O, SUB, "  for (const std::string& t : ListTypes()) {\n    if (t == type) return true;\n  }\n  return false;")]),
 ("g_sub_find", "good", [(O, SUB, "  const std::vector<std::string> types = ListTypes();\n  return std::find(types.begin(), types.end(), type) != types.end();")]),
 ("g_sub_last", "good", [(O, SUB, SUB.replace("  if (type == kDefaultType) return true;\n", "").replace("return false;", "return type == kDefaultType;"))]),
 ("g_sub_ref", "good", [(O, SUB, SUB.replace("getName()", "getNameRef()"))]),
 ("g_sub_type", "good", [(H, SUBT, "bool IsSubtype(const Type& type) const {\n      const std::string& n = type.name();\n      return IsSubtype(n);\n    }")]),
 ("g_lst_flag", "good", [(O, LST, LST.replace("  if (types.empty() || types.back() != kDefaultType) {\n    types.push_back(kDefaultType);\n  }", "  const bool rooted = !types.empty() && types.back() == kDefaultType;\n  if (!rooted) types.emplace_back(kDefaultType);"))]),
 ("g_lst_while", "good", [(O, LST, LST.replace("  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;\n       curr = curr->type) {\n    types.push_back(curr->getName());\n  }", "  const VAL::pddl_type* curr = symbol_;\n  while (curr) {\n    types.emplace_back(curr->getNameRef());\n    curr = curr->type;\n  }"))]),
 ("g_name", "good", [(O, NAM, "  return symbol_ != nullptr ? symbol_->getNameRef() : kDefaultType;")]),
 ("g_gt_while", "good", [(O, GT, GT.replace('''    for (; type != nullptr; type = type->type) {
      if (type->type == nullptr && type->getName() == "object") return type;
    }''', '''    if (type == nullptr) continue;
    const VAL::pddl_type* root = type;
    while (root->type != nullptr) root = root->type;
    if (root->getName() == kDefaultType) return root;''')), (O, '''static const std::string kDefaultType = "object";

}  // namespace
''', "}  // namespace\n"), (O, "using ::symbolic::Pddl;\n", "using ::symbolic::Pddl;\n\nstatic const std::string kDefaultType = \"object\";\n")]),
 ("g_gt_split", "good", [(O, GT, GT.replace('      if (type->type == nullptr && type->getName() == "object") return type;', '      if (type->type != nullptr) continue;\n      if (type->getName() == "object") return type;'))]),
 ("g_lookup_helper", "good", [(O, CONS, "    const VAL::const_symbol* obj = FindSymbol(*pddl.symbol()->the_domain->constants, name_object);\n    if (obj != nullptr) return obj;\n"), (O, PROB, "    const VAL::const_symbol* obj = FindSymbol(*pddl.symbol()->the_problem->objects, name_object);\n    if (obj != nullptr) return obj;\n"), (O, "const VAL::const_symbol* GetSymbol(", '''const VAL::const_symbol* FindSymbol(const VAL::const_symbol_list& symbols, const std::string& name) {
  for (const VAL::const_symbol* symbol : symbols) {
    if (symbol != nullptr && symbol->getName() == name) return symbol;
  }
  return nullptr;
}

const VAL::const_symbol* GetSymbol(''')]),
 ("g_lookup_if", "good", [(O, CONS, CONS.replace("      if (obj == nullptr) continue;\n      if (obj->getName() == name_object) return obj;", "      if (obj && obj->getNameRef() == name_object) return obj;"))]),
 ("g_lookup_iter", "good", [(O, CONS, '''    const auto& constants = *pddl.symbol()->the_domain->constants;
    for (auto it = constants.begin(); it != constants.end(); ++it) {
      if (*it == nullptr) continue;
      if ((*it)->getName() == name_object) return *it;
    }
''')]),
 ("g_c1", "good", [(O, "Object::Object(const Pddl& pddl, const VAL::pddl_typed_symbol* symbol)\n    : symbol_(symbol),\n" + C1 + "\n      hash_(std::hash<std::string>{}(name())) {}", "Object::Object(const Pddl& pddl, const VAL::pddl_typed_symbol* symbol)\n    : Object(pddl.symbol()->the_domain->types, symbol) {}")]),
 ("g_c3", "good", [(O, "    : symbol_(GetSymbol(pddl, name_object)),\n" + C3 + "\n      hash_(std::hash<std::string>{}(name())) {}", "    : Object(pddl, GetSymbol(pddl, name_object)) {}")]),
 ("g_body", "good", [(O, "    : symbol_(symbol),\n" + C2 + "\n      hash_(std::hash<std::string>{}(name())) {}", "    : symbol_(symbol) {\n  type_ = Type(GetTypeSymbol(types, symbol->type));\n  hash_ = std::hash<std::string>()(symbol_->getNameRef());\n}")]),
 ("g_teq", "good", [(H, TEQ, "      return lhs.symbol() == rhs.symbol() || lhs.name() == rhs.name();")]),
 ("g_tlt", "good", [(H, TLT, "      return lhs.name().compare(rhs.name()) < 0;")]),
 ("g_cl_idx", "good", [(H, CL, CL.replace("objects.emplace_back(pddl, symbol)", "objects.push_back(Object(pddl, symbol))"))]),
 ("g_cl_if", "good", [(H, CL2, '''  std::vector<Object> objects;
  if (symbols != nullptr) {
    objects.reserve(symbols->size());
    for (auto it = symbols->begin(); it != symbols->end(); ++it) {
      objects.emplace_back(types, *it);
    }
  }
  return objects;''')]),
 ("g_comment", "good", [(O, SUB, "  (void)type;\n" + SUB)]),
]
EDITS = [(e[0], e[1], sorted({x[0] for x in e[2]}) if len({x[0] for x in e[2]}) > 1 else e[2][0][0], [x[1:] for x in e[2]]) for e in EDITS]
