AC, OB, PR, PD, FO = "src/action.cc", "src/object.cc", "include/symbolic/proposition.h", "src/pddl.cc", "src/formula.cc"
GOOD = "good"
DELEQ = '''      if (prop_args[0] == prop_args[1]) {
        std::stringstream ss;
        ss << "Action::Apply(): Cannot delete effect: "
           << Proposition("=", prop_args) << ".";
        throw std::runtime_error(ss.str());
      }
      return false;'''
ADDEQ = DELEQ.replace("[0] == ", "[0] != ").replace("delete", "add")
FA = '''    for (const std::vector<Object>& forall_objs : gen) {
      // Create forall arguments
      std::vector<Object> forall_args = arguments;
      forall_args.insert(forall_args.end(), forall_objs.begin(),
                         forall_objs.end());

      is_state_changed =
          std::max(is_state_changed, ForallEffects(forall_args, state));
    }
    return is_state_changed;'''
CE = '''    int is_state_changed = 0;
    for (const EffectsFunction<T>& Effect : effect_functions) {
      is_state_changed = std::max(is_state_changed, Effect(arguments, state));
    }
    return is_state_changed;'''
COND = '''        if (EvaluateCondition(Condition(*state, arguments))) {
          return CondEffects(arguments, state);
        }
        return false;'''
TYPES = '''  for (size_t i = 0; i < action.parameters().size(); i++) {
    const Object& param = action.parameters()[i];
    const Object& arg = args[i];
    if (!arg.type().IsSubtype(param.type())) {'''
TOK = '''  const size_t idx_start = proposition.find_first_of('(') + 1;
  const size_t idx_end =
      std::min(proposition.size(), proposition.find_last_of(')')) - idx_start;
  std::string str_args = proposition.substr(idx_start, idx_end);
  std::replace(str_args.begin(), str_args.end(), ',', ' ');
  std::stringstream ss(str_args);

  std::string arg;
  std::vector<std::string> args;
  while (ss >> arg) {
    args.emplace_back(std::move(arg));
  }
  return args;'''
SUB = '''  if (type == kDefaultType) return true;
  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;
       curr = curr->type) {
    if (curr->getName() == type) return true;
  }
  return false;'''
LT = '''  std::vector<std::string> types;
  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;
       curr = curr->type) {
    types.push_back(curr->getName());
  }
  if (types.empty() || types.back() != kDefaultType) {
    types.push_back(kDefaultType);
  }
  return types;'''
GS = '''  if (pddl.symbol()->the_domain->constants != nullptr) {
    for (const VAL::const_symbol* obj : *pddl.symbol()->the_domain->constants) {
      if (obj == nullptr) continue;
      if (obj->getName() == name_object) return obj;
    }
  }
'''
PRT = '''  if (objects.empty()) return os;
  os << objects.front();
  for (size_t i = 1; i < objects.size(); i++) {
    os << ", " << objects[i];
  }
  return os;'''
EDITS = [
 ("p-ac-eq-flip", GOOD, AC, [(ADDEQ, ADDEQ.replace("if (prop_args[0] != prop_args[1]) {", "if (prop_args[0] == prop_args[1]) return 0;\n").replace("      }\n      return false;", "").replace("ss.str());\n", "ss.str());"))]),
 ("p-ac-eq-name", "bad:C08", AC, [(DELEQ, DELEQ.replace("prop_args[0] == prop_args[1]", "prop_args[0].type() == prop_args[1].type()"))]),
 ("p-ac-fa-reuse", GOOD, AC, [(FA, '''    std::vector<Object> forall_args;
    for (const std::vector<Object>& forall_objs : gen) {
      forall_args = arguments;
      for (const Object& obj : forall_objs) forall_args.push_back(obj);
      const int is_changed = ForallEffects(forall_args, state);
      if (is_changed > is_state_changed) is_state_changed = is_changed;
    }
    return is_state_changed;''')]),
 ("p-ac-fa-truncate", GOOD, AC, [(FA, '''    std::vector<Object> forall_args = arguments;
    const size_t n = arguments.size();
    for (const std::vector<Object>& forall_objs : gen) {
      forall_args.resize(n);
      forall_args.insert(forall_args.end(), forall_objs.begin(), forall_objs.end());
      is_state_changed = std::max(is_state_changed, ForallEffects(forall_args, state));
    }
    return is_state_changed;''')]),
 ("p-ac-fa-grow", "bad:C08", AC, [(FA, '''    std::vector<Object> forall_args = arguments;
    for (const std::vector<Object>& forall_objs : gen) {
      forall_args.insert(forall_args.end(), forall_objs.begin(), forall_objs.end());
      is_state_changed = std::max(is_state_changed, ForallEffects(forall_args, state));
    }
    return is_state_changed;''')]),
 ("p-ac-fa-stop", "bad:C08", AC, [(FA, FA.replace('''          std::max(is_state_changed, ForallEffects(forall_args, state));
''', '''          std::max(is_state_changed, ForallEffects(forall_args, state));
      if (is_state_changed == 2) break;
'''))]),
 ("p-ac-ce-idx", GOOD, AC, [(CE, '''    int result = 0;
    for (size_t i = 0; i < effect_functions.size(); ++i) {
      const int changed = effect_functions[i](arguments, state);
      result = changed > result ? changed : result;
    }
    return result;''')]),
 ("p-ac-ce-last", "bad:C08", AC, [(CE, CE.replace("std::max(is_state_changed, Effect(arguments, state))", "Effect(arguments, state)"))]),
 ("p-ac-ce-short", "bad:C08", AC, [(CE, CE.replace("is_state_changed = std::max(is_state_changed, Effect(arguments, state));", "if (is_state_changed < 2) is_state_changed = std::max(is_state_changed, Effect(arguments, state));"))]),
 ("p-ac-cond-var", GOOD, AC, [(COND, '''        const bool holds = EvaluateCondition(Condition(*state, arguments));
        if (!holds) return 0;
        return CondEffects(arguments, state);''')]),
 ("p-ac-cond-tern", GOOD, AC, [(COND, '''        return EvaluateCondition(Condition(*state, arguments)) ? CondEffects(arguments, state) : 0;''')]),
 ("p-ac-cond-unknown", "bad:C08", AC, [("  return cond ? *cond : false;", "  return cond.value_or(true);")]),
 ("p-ac-cond-unknown-ok", GOOD, AC, [("  return cond ? *cond : false;", "  return cond.value_or(false);")]),
 ("p-ac-cond-has", GOOD, AC, [("  return cond ? *cond : false;", "  return cond.has_value() && cond.value();")]),
 ("p-ac-parse-iter", GOOD, AC, [(TYPES, '''  auto it_arg = args.begin();
  for (const Object& param : action.parameters()) {
    const Object& arg = *it_arg++;
    if (!arg.type().IsSubtype(param.type())) {''')]),
 ("p-ac-parse-allof", GOOD, AC, [(TYPES, '''  const auto& params = action.parameters();
  const size_t num_params = params.size();
  for (size_t i = 0; i != num_params; ++i) {
    const Object &param = params.at(i), &arg = args.at(i);
    if (arg.type().IsSubtype(param.type())) continue;
    {''')]),
 ("p-ac-parse-flip", "bad:C19", AC, [(TYPES, TYPES.replace("!arg.type().IsSubtype(param.type())", "!param.type().IsSubtype(arg.type())"))]),
 ("p-ac-parse-equal", "bad:C19", AC, [(TYPES, TYPES.replace("!arg.type().IsSubtype(param.type())", "arg.type().name() != param.type().name()"))]),
 ("p-ac-parse-first", "bad:C19", AC, [(TYPES, TYPES.replace("i < action.parameters().size()", "i + 1 < action.parameters().size()"))]),
 ("p-ac-str-idx", GOOD, AC, [('''  std::string separator;
  for (const Object& arg : arguments) {
    ss << separator << arg;
    if (separator.empty()) separator = ", ";
  }
  ss << ")";
  return ss.str();''', '''  for (size_t i = 0; i < arguments.size(); i++) {
    if (i != 0) ss << ", ";
    ss << arguments[i];
  }
  ss << ")";
  return ss.str();''')]),
 ("p-ac-str-vec", GOOD, AC, [('''  std::string separator;
  for (const Object& arg : arguments) {
    ss << separator << arg;
    if (separator.empty()) separator = ", ";
  }
  ss << ")";
  return ss.str();''', '''  ss << arguments << ")";
  return ss.str();''')]),
 ("p-ac-apply-move", GOOD, AC, [('''  State next_state(state);
  Apply_(arguments, &next_state);
  return next_state;''', '''  State next_state = state;
  const int changed = Apply(arguments, &next_state);
  (void)changed;
  return next_state;''')]),
 ("p-ac-get-find", GOOD, AC, [('''  for (const VAL::operator_* op : *pddl.symbol()->the_domain->ops) {
    assert(op != nullptr && op->name != nullptr);
    if (op->name->getNameRef() == name_action) return op;
  }
''', '''  const auto& ops = *pddl.symbol()->the_domain->ops;
  const auto it = std::find_if(ops.begin(), ops.end(), [&name_action](const VAL::operator_* op) {
    return op->name->getNameRef() == name_action;
  });
  if (it != ops.end()) return *it;
''')]),
 ("p-ac-get-prefix", "bad:C19,C09,C16", AC, [("op->name->getNameRef() == name_action", "op->name->getNameRef().compare(0, name_action.size(), name_action) == 0")]),
 ("p-ob-tok-range", GOOD, OB, [(TOK, TOK.replace("std::replace(str_args.begin(), str_args.end(), ',', ' ');", "for (char& c : str_args) {\n    if (c == ',') c = ' ';\n  }"))]),
 ("p-ob-tok-iter", GOOD, OB, [(TOK, TOK.replace('''  std::string arg;
  std::vector<std::string> args;
  while (ss >> arg) {
    args.emplace_back(std::move(arg));
  }
  return args;''', '''  return std::vector<std::string>{std::istream_iterator<std::string>(ss), std::istream_iterator<std::string>()};''')), ("#include <sstream>    // std::stringstream", "#include <iterator>\n#include <sstream>    // std::stringstream")]),
 ("p-ob-tok-getline", "bad:C19", OB, [(TOK, TOK.replace("  std::replace(str_args.begin(), str_args.end(), ',', ' ');\n", "").replace("while (ss >> arg)", "while (std::getline(ss, arg, ','))"))]),
 ("p-ob-tok-firstclose", GOOD, OB, [(TOK, TOK.replace("find_last_of(')')", "find_first_of(')')"))]),
 ("p-ob-tok-tab", "bad:C19", OB, [(TOK, TOK.replace("',', ' ');", "',', '_');"))]),
 ("p-ob-sub-list", GOOD, OB, [(SUB, '''  const std::vector<std::string> types = ListTypes();
  return std::find(types.begin(), types.end(), type) != types.end();''')]),
 ("p-ob-sub-do", GOOD, OB, [(SUB, '''  const VAL::pddl_type* curr = symbol_;
  while (curr != nullptr && curr->getName() != type) curr = curr->type;
  return curr != nullptr || type == kDefaultType;''')]),
 ("p-ob-sub-two", "bad:C15", OB, [(SUB, '''  if (type == kDefaultType) return true;
  if (symbol_ == nullptr) return false;
  if (symbol_->getName() == type) return true;
  return symbol_->type != nullptr && symbol_->type->getName() == type;''')]),
 ("p-ob-sub-rec", GOOD, OB, [(SUB, '''  if (type == kDefaultType) return true;
  if (symbol_ == nullptr) return false;
  if (symbol_->getName() == type) return true;
  return Type(symbol_->type).IsSubtype(type);''')]),
 ("p-ob-list-obj", "bad:C15", OB, [(LT, LT.replace("types.empty() || types.back() != kDefaultType", "types.empty()"))]),
 ("p-ob-list-find", GOOD, OB, [(LT, LT.replace("types.empty() || types.back() != kDefaultType", "std::find(types.begin(), types.end(), kDefaultType) == types.end()"))]),
 ("p-ob-list-while", GOOD, OB, [(LT, '''  std::vector<std::string> types;
  const VAL::pddl_type* curr = symbol_;
  while (curr != nullptr) {
    types.emplace_back(curr->getName());
    curr = curr->type;
  }
  const bool has_object = !types.empty() && types.back() == kDefaultType;
  if (!has_object) types.emplace_back(kDefaultType);
  return types;''')]),
 ("p-ob-list-rev", "bad:C15", OB, [(LT, LT.replace("types.push_back(curr->getName());", "types.insert(types.begin(), curr->getName());"))]),
 ("p-ob-gs-find", GOOD, OB, [(GS, '''  const auto* constants = pddl.symbol()->the_domain->constants;
  if (constants != nullptr) {
    for (auto it = constants->begin(); it != constants->end(); ++it) {
      const VAL::const_symbol* obj = *it;
      if (obj != nullptr && obj->getName() == name_object) return obj;
    }
  }
''')]),
 ("p-ob-print-first", GOOD, OB, [(PRT, '''  bool is_first = true;
  for (const Object& object : objects) {
    if (!is_first) os << ", ";
    is_first = false;
    os << object;
  }
  return os;''')]),
 ("p-ob-print-back", GOOD, OB, [(PRT, '''  for (size_t i = 0; i < objects.size(); i++) {
    os << objects[i];
    if (i + 1 < objects.size()) os << ", ";
  }
  return os;''')]),
 ("p-ob-pargs-tr", GOOD, OB, [('''  std::vector<Object> args;
  args.reserve(str_args.size());
  for (const std::string& str_arg : str_args) {
    args.emplace_back(pddl, str_arg);
  }
  return args;''', '''  std::vector<Object> args;
  std::transform(str_args.begin(), str_args.end(), std::back_inserter(args),
                 [&pddl](const std::string& str_arg) { return Object(pddl, str_arg); });
  return args;'''), ("#include <sstream>    // std::stringstream", "#include <iterator>\n#include <sstream>    // std::stringstream")]),
 ("p-ob-pargs-deleg", GOOD, OB, [('''  const std::vector<std::string> name_args = TokenizeArguments(atom);
  std::vector<Object> args;
  args.reserve(name_args.size());
  for (const std::string& name_arg : name_args) {
    args.emplace_back(pddl, name_arg);
  }
  return args;''', '''  return ParseArguments(pddl, TokenizeArguments(atom));''')]),
 ("p-ob-pargs-uniq", "bad:C19", OB, [('''  for (const std::string& name_arg : name_args) {
    args.emplace_back(pddl, name_arg);
  }''', '''  for (size_t i = 0; i < name_args.size(); i++) {
    if (i > 0 && name_args[i] == name_args[i - 1]) continue;
    args.emplace_back(pddl, name_args[i]);
  }''')]),
 ("p-ob-hash-type", "bad:C03", OB, [("      type_(GetTypeSymbol(pddl.symbol()->the_domain->types, symbol_->type)),\n      hash_(std::hash<std::string>{}(name())) {}", "      type_(GetTypeSymbol(pddl.symbol()->the_domain->types, symbol_->type)),\n      hash_(std::hash<std::string>{}(name() + type_.name())) {}")]),
]
EDITS += [
 ("p-fo-eq-name", "good", "src/formula.cc", [("prop_args[0] == prop_args[1]", "prop_args[0].name() == prop_args[1].name()")]),
 ("p-fo-eq-type", "bad:C07", "src/formula.cc", [("prop_args[0] == prop_args[1]", "prop_args[0].type() == prop_args[1].type()")]),
 ("p-fo-eq-hash", "good", "src/formula.cc", [("prop_args[0] == prop_args[1]", "prop_args[1] == prop_args[0]")]),
]
