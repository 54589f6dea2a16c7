PC = "src/proposition.cc"
PH = "include/symbolic/proposition.h"
SC = "src/state.cc"
OC = "src/object.cc"
OH = "include/symbolic/object.h"
AC = "src/action.cc"
QC = "src/predicate.cc"
DC = "src/pddl.cc"
PPRINT = '''  os << P.name() << "(";
  std::string separator;
  for (const Object& arg : P.arguments()) {
    os << separator << arg;
    if (separator.empty()) separator = ", ";
  }
  os << ")";
  return os;'''
PPDDL = '''  std::stringstream ss;
  ss << "(" << name();
  for (const Object& arg : arguments()) {
    ss << " " << arg;
  }
  ss << ")";
  return ss.str();'''
PSTR = '''  std::stringstream ss;
  ss << *this;
  return ss.str();'''
SSTR = '''  for (const Proposition& prop : *this) {
    str_state.insert(prop.to_string());
  }
  return str_state;'''
SCOL = '''  for (const Proposition& prop : state) {
    props_sorted.push_back(prop.to_string());
  }'''
SSORT = '''  std::sort(props_sorted.begin(), props_sorted.end());
'''
SOUT = '''  std::string delimiter;
  os << "{ ";
  for (const std::string& prop : props_sorted) {
    os << delimiter << prop;
    if (delimiter.empty()) delimiter = ", ";
  }
  os << " }";
  return os;'''
HEAD = "    return atom.substr(0, atom.find_first_of('('));"
TOK = '''  const size_t idx_start = proposition.find_first_of('(') + 1;
  const size_t idx_end =
      std::min(proposition.size(), proposition.find_last_of(')')) - idx_start;
  std::string str_args = proposition.substr(idx_start, idx_end);
  std::replace(str_args.begin(), str_args.end(), ',', ' ');
  std::stringstream ss(str_args);

  std::string arg;
  std::vector<std::string> args;
  while (ss >> arg) {
    args.emplace_back(std::move(arg));
  }
  return args;'''
PARGS = '''  for (const std::string& name_arg : name_args) {
    args.emplace_back(pddl, name_arg);
  }
  return args;'''
OLIST = '''  if (objects.empty()) return os;
  os << objects.front();
  for (size_t i = 1; i < objects.size(); i++) {
    os << ", " << objects[i];
  }
  return os;'''
ACALL = '''  ss << name_ << "(";
  std::string separator;
  for (const Object& arg : arguments) {
    ss << separator << arg;
    if (separator.empty()) separator = ", ";
  }
  ss << ")";
  return ss.str();'''
NARG = "  if (action.parameters().size() != args.size()) {"
TARG = "    if (!arg.type().IsSubtype(param.type())) {"
TLOOP = "  for (size_t i = 0; i < action.parameters().size(); i++) {\n    const Object& param = action.parameters()[i];\n    const Object& arg = args[i];\n"
PST = "  return {pos_.Stringify(), neg_.Stringify()};"
PARSEST = '''  for (const std::string& str_prop : str_state) {
    state.emplace(pddl, str_prop);
  }
  return state;'''
GETSYM = "    if (op->name->getNameRef() == name_action) return op;"
EDITS = [
 # writing a proposition
 ("b_sep", "bad:C19", [(PC, PPRINT, PPRINT.replace('", "', '","'))]),
 ("b_lastsep", "bad:C19", [(PC, PPRINT, PPRINT.replace("os << separator << arg;\n    if (separator.empty()) separator = \", \";", "os << arg << \", \";"))]),
 ("b_sepsize", "bad:C19", [(PC, PPRINT, PPRINT.replace("  std::string separator;\n", "  std::string separator;\n  const size_t n = P.arguments().size();\n").replace("if (separator.empty())", "if (n > 2)"))]),
 ("b_noparen", "bad:C19", [(PC, PPRINT, '  if (P.arguments().empty()) return os << P.name();\n' + PPRINT)]),
 ("b_first", "bad:C19", [(PC, PPRINT, PPRINT.replace("os << separator << arg;", "os << separator << P.arguments().front();"))]),
 ("b_pddl_name", "bad:C19", [(PC, PPDDL, PPDDL.replace('ss << " " << arg;', 'ss << arg << " ";'))]),
 ("b_pddl_par", "bad:C19", [(PC, PPDDL, PPDDL.replace('ss << "(" << name();', 'ss << name() << "(";'))]),
 ("b_rev", "bad:C19", [(PC, PPRINT, PPRINT.replace("  for (const Object& arg : P.arguments()) {\n", "  for (size_t i = P.arguments().size(); i-- > 0;) {\n    const Object& arg = P.arguments()[i];\n"))]),
 ("b_two", "bad:C19", [(PC, PPRINT, PPRINT.replace("for (const Object& arg : P.arguments()) {\n", "for (size_t i = 0; i < std::min<size_t>(P.arguments().size(), 2); i++) {\n    const Object& arg = P.arguments()[i];\n"))]),
 # states
 ("b_nosort", "bad:C19", [(SC, SSORT, "")]),
 ("b_rsort", "bad:C19", [(SC, SSORT, "  std::sort(props_sorted.rbegin(), props_sorted.rend());\n")]),
 ("b_partsort", "bad:C19", [(SC, SSORT, "  std::sort(props_sorted.begin(), props_sorted.begin() + props_sorted.size() / 2);\n")]),
 ("b_delim", "bad:C19", [(SC, SOUT, SOUT.replace('", "', '" "'))]),
 ("b_empty", "bad:C19", [(SC, SOUT, '  if (props_sorted.empty()) return os << "{}";\n' + SOUT)]),
 ("b_skip", "bad:C19", [(SC, SCOL, SCOL.replace("    props_sorted", "    if (prop.arguments().empty()) continue;\n    props_sorted"))]),
 ("b_str_pddl", "bad:C19", [(SC, SSTR, SSTR.replace("to_string", "to_pddl"))]),
 ("b_str_name", "bad:C19", [(SC, SSTR, SSTR.replace("prop.to_string()", "prop.name()"))]),
 ("b_str_first", "bad:C19", [(SC, SSTR, SSTR.replace("to_string());\n", "to_string());\n    if (str_state.size() > 1) break;\n"))]),
 ("b_part_swap", "bad:C19", [(SC, PST, "  return {neg_.Stringify(), pos_.Stringify()};")]),
 ("b_part_pos", "bad:C19", [(SC, PST, "  return {pos_.Stringify(), pos_.Stringify()};")]),
 # reading
 ("b_head_incl", "bad:C19", [(PH, HEAD, "    return atom.substr(0, atom.find_first_of('(') + 1);")]),
 ("b_head_last", "bad:C19", [(PH, HEAD, "    return atom.substr(0, atom.find_first_of(' '));")]),
 ("b_head_m1", "bad:C19", [(PH, HEAD, "    return atom.substr(0, atom.find_first_of('(') - 1);")]),
 ("b_head_bare", "bad:C19", [(PH, HEAD, "    const size_t i = atom.find('(');\n    return i == std::string::npos ? std::string() : atom.substr(0, i);")]),
 ("b_tok_start", "bad:C19", [(OC, TOK, TOK.replace("find_first_of('(') + 1", "find_first_of('(')"))]),
 ("b_tok_end", "bad:C19", [(OC, TOK, TOK.replace(" - idx_start;", " - idx_start - 1;"))]),
 ("b_tok_len", "bad:C19", [(OC, TOK, TOK.replace(" - idx_start;", ";"))]),
 ("b_tok_comma", "bad:C19", [(OC, TOK, TOK.replace("  std::replace(str_args.begin(), str_args.end(), ',', ' ');\n", ""))]),
 ("b_tok_getline", "bad:C19", [(OC, TOK, TOK.replace("while (ss >> arg)", "while (std::getline(ss, arg, ' '))"))]),
 ("b_tok_if", "bad:C19", [(OC, TOK, TOK.replace("while (ss >> arg) {", "if (ss >> arg) {"))]),
 ("b_tok_do", "bad:C19", [(OC, TOK, TOK.replace("  while (ss >> arg) {\n    args.emplace_back(std::move(arg));\n  }", "  do {\n    ss >> arg;\n    args.emplace_back(arg);\n  } while (ss);"))]),
 ("b_tok_eof", "bad:C19", [(OC, TOK, TOK.replace("  while (ss >> arg) {\n    args.emplace_back(std::move(arg));\n  }", "  while (!ss.eof()) {\n    ss >> arg;\n    args.emplace_back(arg);\n  }"))]),
 ("b_pargs_rev", "bad:C19", [(OC, PARGS, "  for (auto it = name_args.rbegin(); it != name_args.rend(); ++it) {\n    args.emplace_back(pddl, *it);\n  }\n  return args;")]),
 ("b_pargs_last", "bad:C19", [(OC, PARGS, PARGS.replace("name_args) {\n    args.emplace_back(pddl, name_arg);", "name_args) {\n    args.emplace_back(pddl, name_args.back());"))]),
 ("b_olist", "bad:C19", [(OC, OLIST, OLIST.replace("size_t i = 1; i < objects.size()", "size_t i = 1; i + 1 < objects.size()"))]),
 ("b_olist0", "bad:C19", [(OC, OLIST, OLIST.replace("size_t i = 1", "size_t i = 0"))]),
 # calls
 ("b_acall_params", "bad:C19", [(AC, ACALL, ACALL.replace(": arguments)", ": parameters_)"))]),
 ("b_acall_sep", "bad:C19", [(AC, ACALL, ACALL.replace("separator = \", \"", "separator = \" \""))]),
 ("b_qcall", "bad:C19", [(QC, ACALL, ACALL.replace("ss << separator << arg;", "ss << arg << separator;"))]),
 ("b_nargs_lt", "bad:C19", [(AC, NARG, "  if (action.parameters().size() > args.size()) {")]),
 ("b_nargs_gt", "bad:C19", [(AC, NARG, "  if (action.parameters().size() < args.size()) {")]),
 ("b_types_swap", "bad:C19", [(AC, TARG, "    if (!param.type().IsSubtype(arg.type())) {")]),
 ("b_types_from1", "bad:C19", [(AC, TLOOP, TLOOP.replace("size_t i = 0", "size_t i = 1"))]),
 ("b_types_one", "bad:C19", [(AC, TLOOP, TLOOP.replace("i < action.parameters().size()", "i < 1"))]),
 ("b_types_idx", "bad:C19", [(AC, TLOOP, TLOOP.replace("args[i]", "args[0]"))]),
 ("b_types_last", "bad:C19", [(AC, TLOOP, TLOOP.replace("args[i]", "args.back()"))]),
 ("b_op_ne", "bad:C19", [(AC, GETSYM, "    if (op->name->getNameRef().find(name_action) == 0) return op;")]),
 ("b_op_first", "bad:C19", [(AC, GETSYM, "    return op;")]),
 ("b_op_null", "bad:C19", [(AC, '''  throw std::runtime_error("Action::Action(): Could not find action symbol " +
                           name_action + ".");
''', "")]),
 ("b_parsest_skip", "bad:C19", [(DC, PARSEST, PARSEST.replace("    state", "    if (state.size() >= 8) break;\n    state"))]),
 ("b_parsest_pair", "bad:C19", [(DC, "  return PartialState(ParseState(pddl, str_state_pos),\n                      ParseState(pddl, str_state_neg));", "  return PartialState(ParseState(pddl, str_state_neg),\n                      ParseState(pddl, str_state_pos));")]),
 ("b_prop_swap", "bad:C19", [(PH, "      : name_(ParseHead(str_prop)),\n        arguments_(Object::ParseArguments(pddl, str_prop)) {\n    PrecomputeHash();", "      : name_(str_prop),\n        arguments_(Object::ParseArguments(pddl, str_prop)) {\n    PrecomputeHash();", 0)]),
 ("b_statector", "bad:C19", [(SC, "  for (const std::string& str_prop : str_state) {\n    emplace(pddl, str_prop);\n  }", "  for (const std::string& str_prop : str_state) {\n    if (str_prop.empty() || size() > 3) continue;\n    emplace(pddl, str_prop);\n  }")]),
 # good
 ("g_idx", "good", [(PC, PPRINT, PPRINT.replace("  std::string separator;\n  for (const Object& arg : P.arguments()) {\n    os << separator << arg;\n    if (separator.empty()) separator = \", \";\n  }", "  for (size_t i = 0; i < P.arguments().size(); i++) {\n    if (i > 0) os << \", \";\n    os << P.arguments()[i];\n  }"))]),
 ("g_list", "good", [(PC, PPRINT, "  return os << P.name() << \"(\" << P.arguments() << \")\";")]),
 ("g_first", "good", [(PC, PPRINT, PPRINT.replace("std::string separator;", "bool first = true;").replace("os << separator << arg;\n    if (separator.empty()) separator = \", \";", "if (!first) os << \", \";\n    first = false;\n    os << arg;"))]),
 ("g_ptr", "good", [(PC, PPRINT, PPRINT.replace("std::string separator;", "const char* separator = \"\";").replace("    if (separator.empty()) separator", "    separator"))]),
 ("g_concat", "good", [(PC, PSTR, "  std::string s = name() + \"(\";\n  for (size_t i = 0; i < arguments().size(); i++) {\n    if (i != 0) s += \", \";\n    s += arguments()[i].name();\n  }\n  return s + \")\";")]),
 ("g_append", "good", [(PC, PSTR, "  std::string s;\n  s.append(name());\n  s.push_back('(');\n  bool first = true;\n  for (const Object& arg : arguments()) {\n    if (!first) s.append(\", \");\n    s.append(arg.name());\n    first = false;\n  }\n  s += ')';\n  return s;")]),
 ("g_oss", "good", [(PC, PSTR, PSTR.replace("std::stringstream", "std::ostringstream"))]),
 ("g_pddl_concat", "good", [(PC, PPDDL, "  std::string s = \"(\" + name();\n  for (const Object& arg : arguments()) {\n    s += \" \" + arg.name();\n  }\n  s += \")\";\n  return s;")]),
 ("g_iter", "good", [(PC, PPRINT, PPRINT.replace("for (const Object& arg : P.arguments()) {\n    os << separator << arg;", "for (auto it = P.arguments().begin(); it != P.arguments().end(); ++it) {\n    os << separator << *it;"))]),
 ("g_helper", "good", [(PC, PPRINT, "  os << P.name() << \"(\";\n  WriteArguments(os, P.arguments());\n  os << \")\";\n  return os;"), (PC, "std::ostream& operator<<(std::ostream& os, const PropositionBase& P) {", "static void WriteArguments(std::ostream& os, const std::vector<Object>& args) {\n  std::string separator;\n  for (const Object& arg : args) {\n    os << separator << arg;\n    separator = \", \";\n  }\n}\n\nstd::ostream& operator<<(std::ostream& os, const PropositionBase& P) {")]),
 ("g_sset", "good", [(SC, SCOL, ""), (SC, SSORT, ""), (SC, "  std::vector<std::string> props_sorted;\n  props_sorted.reserve(state.size());\n", "  std::set<std::string> props_sorted;\n  for (const Proposition& prop : state) {\n    props_sorted.insert(prop.to_string());\n  }\n"), (SC, "#include <algorithm>", "#include <set>\n#include <algorithm>")]),
 ("g_scopy", "good", [(SC, SCOL, ""), (SC, "  std::vector<std::string> props_sorted;\n  props_sorted.reserve(state.size());\n", "  const auto strs = state.Stringify();\n  std::vector<std::string> props_sorted(strs.begin(), strs.end());\n")]),
 ("g_sout_idx", "good", [(SC, SOUT, "  os << \"{ \";\n  for (size_t i = 0; i < props_sorted.size(); ++i) {\n    if (i > 0) os << \", \";\n    os << props_sorted[i];\n  }\n  return os << \" }\";")]),
 ("g_semplace", "good", [(SC, SCOL, SCOL.replace("push_back", "emplace_back"))]),
 ("g_sless", "good", [(SC, SSORT, "  std::sort(props_sorted.begin(), props_sorted.end(), [](const std::string& a, const std::string& b) { return a < b; });\n")]),
 ("g_stransform", "good", [(SC, SCOL, "  std::transform(state.begin(), state.end(), std::back_inserter(props_sorted), [](const Proposition& p) { return p.to_string(); });\n"), (SC, "#include <algorithm>", "#include <iterator>\n#include <algorithm>")]),
 ("g_semp2", "good", [(SC, SSTR, SSTR.replace("insert", "emplace"))]),
 ("g_pst", "good", [(SC, PST, "  return std::make_pair(pos().Stringify(), neg().Stringify());")]),
 ("g_head_find", "good", [(PH, HEAD, "    return atom.substr(0, atom.find('('));")]),
 ("g_head_if", "good", [(PH, HEAD, "    const size_t idx = atom.find('(');\n    if (idx == std::string::npos) return atom;\n    return atom.substr(0, idx);")]),
 ("g_head_loop", "good", [(PH, HEAD, "    std::string head;\n    for (char c : atom) {\n      if (c == '(') break;\n      head.push_back(c);\n    }\n    return head;")]),
 ("g_head_it", "good", [(PH, HEAD, "    return std::string(atom.begin(), std::find(atom.begin(), atom.end(), '('));"), (PH, "#include <functional>", "#include <algorithm>\n#include <functional>")]),
 ("g_tok_find", "good", [(OC, TOK, TOK.replace("find_first_of('(')", "find('(')").replace("find_last_of(')')", "rfind(')')"))]),
 ("g_tok_end", "good", [(OC, TOK, TOK.replace("""  const size_t idx_end =
      std::min(proposition.size(), proposition.find_last_of(')')) - idx_start;
  std::string str_args = proposition.substr(idx_start, idx_end);""", """  const size_t idx_end = std::min(proposition.size(), proposition.find_last_of(')'));
  std::string str_args = proposition.substr(idx_start, idx_end - idx_start);"""))]),
 ("g_tok_push", "good", [(OC, TOK, TOK.replace("emplace_back(std::move(arg))", "push_back(arg)"))]),
 ("g_tok_iss", "good", [(OC, TOK, TOK.replace("std::stringstream", "std::istringstream"))]),
 ("g_tok_replace", "good", [(OC, TOK, TOK.replace("  std::replace(str_args.begin(), str_args.end(), ',', ' ');\n", "  for (char& c : str_args) {\n    if (c == ',') c = ' ';\n  }\n"))]),
 ("g_tok_for", "good", [(OC, TOK, TOK.replace("  std::string arg;\n  std::vector<std::string> args;\n  while (ss >> arg) {", "  std::vector<std::string> args;\n  for (std::string arg; ss >> arg;) {"))]),
 ("g_tok_isit", "good", [(OC, TOK, TOK.replace("""  std::string arg;
  std::vector<std::string> args;
  while (ss >> arg) {
    args.emplace_back(std::move(arg));
  }
  return args;""", "  return {std::istream_iterator<std::string>(ss), std::istream_iterator<std::string>()};")), (OC, "#include <algorithm>", "#include <iterator>\n#include <algorithm>")]),
 ("g_pargs_del", "good", [(OC, PARGS, "  return ParseArguments(pddl, name_args);"), (OC, "  std::vector<Object> args;\n  args.reserve(name_args.size());\n", "")]),
 ("g_pargs_idx", "good", [(OC, PARGS, "  for (size_t i = 0; i < name_args.size(); i++) {\n    args.push_back(Object(pddl, name_args[i]));\n  }\n  return args;")]),
 ("g_olist", "good", [(OC, OLIST, "  std::string separator;\n  for (const Object& object : objects) {\n    os << separator << object;\n    separator = \", \";\n  }\n  return os;")]),
 ("g_olist_it", "good", [(OC, OLIST, OLIST.replace("  for (size_t i = 1; i < objects.size(); i++) {\n    os << \", \" << objects[i];\n  }", "  for (auto it = objects.begin() + 1; it != objects.end(); ++it) {\n    os << \", \" << *it;\n  }"))]),
 ("g_acall_list", "good", [(AC, ACALL, "  ss << name_ << \"(\" << arguments << \")\";\n  return ss.str();")]),
 ("g_acall_prop", "good", [(AC, "  std::stringstream ss;\n" + ACALL, "  return Proposition(name_, arguments).to_string();")]),
 ("g_nargs", "good", [(AC, NARG, "  const size_t num_params = action.parameters().size();\n  if (args.size() != num_params) {")]),
 ("g_types_str", "good", [(AC, TARG, "    if (!arg.type().IsSubtype(param.type().name())) {")]),
 ("g_types_if", "good", [(AC, TLOOP, "  size_t i = 0;\n  for (const Object& param : action.parameters()) {\n    const Object& arg = args[i++];\n")]),
 ("g_parse_pair", "good", [(AC, """  auto aa = std::make_pair(Action(pddl, action_call),
                           Object::ParseArguments(pddl, action_call));
  const Action& action = aa.first;
  const std::vector<Object>& args = aa.second;
""", """  std::pair<Action, std::vector<Object>> aa(Action(pddl, action_call), Object::ParseArguments(pddl, action_call));
  const auto& [action, args] = aa;
""")]),
 ("g_op_auto", "good", [(AC, GETSYM, "    const std::string& name = op->name->getNameRef();\n    if (name_action == name) return op;")]),
 ("g_parsest", "good", [(DC, PARSEST, PARSEST.replace("state.emplace(pddl, str_prop)", "state.insert(Proposition(pddl, str_prop))"))]),
 ("g_parsest_it", "good", [(DC, PARSEST, "  for (auto it = str_state.begin(); it != str_state.end(); ++it) {\n    state.emplace(pddl, *it);\n  }\n  return state;")]),
 ("g_parsest_pair", "good", [(DC, "  return PartialState(ParseState(pddl, str_state_pos),\n                      ParseState(pddl, str_state_neg));", "  State pos = ParseState(pddl, str_state_pos);\n  State neg = ParseState(pddl, str_state_neg);\n  return PartialState(std::move(pos), std::move(neg));")]),
 ("g_prop_body", "good", [(PH, "      : name_(ParseHead(str_prop)),\n        arguments_(Object::ParseArguments(pddl, str_prop)) {\n    PrecomputeHash();\n  }\n\n  // ex", "      : Proposition(ParseHead(str_prop), Object::ParseArguments(pddl, str_prop)) {}\n\n  // ex")]),
 ("g_comment", "good", [(PC, PPRINT, "  (void)P;\n" + PPRINT), (SC, SOUT, "  (void)state;\n" + SOUT)]),
]
EDITS = [(e[0], e[1], sorted({x[0] for x in e[2]}) if len({x[0] for x in e[2]}) > 1 else e[2][0][0], [x[1:] for x in e[2]]) for e in EDITS]
