A = "src/action.cc"
X = "src/axiom.cc"
F = "src/formula.cc"
D = "src/pddl.cc"
O = "src/object.cc"
PREP = '''  std::vector<std::pair<std::weak_ptr<Axiom>, AxiomApplicationFunction>> axioms;
  if (pddl.axiom_map().count(axiom_context) > 0) {
    for (const std::weak_ptr<Axiom>& ptr_axiom :
         pddl.axiom_map().at(axiom_context)) {
      const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
      std::optional<AxiomApplicationFunction> AxiomApply =
          Axiom::CreateApplicationFunction(parameters, effect_params,
                                           axiom->parameters(),
                                           axiom->context().arguments());
      if (!AxiomApply.has_value()) continue;

      axioms.emplace_back(axiom, std::move(*AxiomApply));
    }
  }
'''
PREP_FN = '''using AxiomList =
    std::vector<std::pair<std::weak_ptr<Axiom>, AxiomApplicationFunction>>;

AxiomList PrepareAxioms(const Pddl& pddl, const std::string& axiom_context,
                        const std::vector<Object>& parameters,
                        const std::vector<Object>& effect_params) {
''' + PREP + '''  return axioms;
}

template <typename T>
EffectsFunction<T> CreateForall('''
HEAD = '''template <typename T>
EffectsFunction<T> CreateForall('''
PREP_CALL = '''  const AxiomList axioms =
      PrepareAxioms(pddl, axiom_context, parameters, effect_params);
'''
def run(sign):
    return '''    for (const auto& axiom_apply : axioms) {
      const Axiom& axiom = *axiom_apply.first.lock();
      const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
      const std::vector<Object>* axiom_args = AxiomApply(arguments);

      // std::cout << axiom << std::endl;
      if (axiom_args == nullptr) continue;

      // std::cout << "%s" << *name_predicate << ": " << *axiom_args <<
      // std::endl; std::cout << "[" << *state << std::endl;
      // Copy the arguments, since this axiom may be applied again meanwhile.
      const std::vector<Object> args = *axiom_args;
      status = std::max<int>(status, axiom.Action::Apply(args, state));
      // std::cout << "]" << *state << std::endl << std::endl;
    }
    return status;
''' % sign
RUN_FN = '''template <typename T>
int ApplyAxioms(const std::vector<std::pair<std::weak_ptr<Axiom>,
                                            AxiomApplicationFunction>>& axioms,
                const std::vector<Object>& arguments, int status, T* state) {
  for (const auto& [weak_axiom, AxiomApply] : axioms) {
    const std::vector<Object>* axiom_args = AxiomApply(arguments);
    if (!axiom_args) continue;
    const std::vector<Object> args = *axiom_args;
    const int changed = weak_axiom.lock()->Action::Apply(args, state);
    if (changed > status) status = changed;
  }
  return status;
}

''' + HEAD
THROW = lambda eq, verb, name: '''        std::stringstream ss;
        ss << "Action::Apply(): Cannot %s effect: "
           << Proposition(%s, prop_args) << ".";
        throw std::runtime_error(ss.str());
''' % (verb, name)
THROW_FN = '''[[noreturn]] void ThrowEffect(const char* verb, const std::string& name,
                              const std::vector<Object>& args) {
  std::stringstream ss;
  ss << "Action::Apply(): Cannot " << verb
     << " effect: " << Proposition(name, args) << ".";
  throw std::runtime_error(ss.str());
}

''' + HEAD
LOOPS = '''  for (const VAL::forall_effect* effect : effects->forall_effects) {
    effect_functions.emplace_back(CreateForall<T>(pddl, effect, parameters));
  }
'''
CHK = '''  // Check argument types
  for (size_t i = 0; i < action.parameters().size(); i++) {
    const Object& param = action.parameters()[i];
    const Object& arg = args[i];
    if (!arg.type().IsSubtype(param.type())) {
'''
AP = lambda T, f: '''  %s next_state(state);
  %s(arguments, &next_state);
  return next_state;
''' % (T, f)
FAC = '''  // Create forall parameters
  std::vector<Object> forall_params = parameters;
  const std::vector<Object> types =
      Object::CreateList(pddl, effect->getVarsList());
  forall_params.insert(forall_params.end(), types.begin(), types.end());
'''
FIX1 = '''  // Keep testing axioms until state doesn't change for a full iteration
  bool is_changed = true;
  while (is_changed) {
    is_changed = false;
    for (const std::shared_ptr<Axiom>& axiom : axioms) {
      if (!axiom->IsConsistent(&test_state, &is_changed)) return false;
    }
  }
  return true;
'''
EDITS = [
 ("j-ac-prep", "good", A, [(HEAD, PREP_FN), (PREP, PREP_CALL, 1), (PREP, PREP_CALL, 1)]),
 ("j-ac-run", "good", A, [(HEAD, RUN_FN), (run("+"), "    return ApplyAxioms(axioms, arguments, status, state);\n"), (run("-"), "    return ApplyAxioms(axioms, arguments, status, state);\n")]),
 ("j-ac-throw", "good", A, [(HEAD, THROW_FN)] + [(THROW(0, v, n), '        ThrowEffect("%s", %s, prop_args);\n' % (v, n)) for v in ("add", "delete") for n in ('"="', "name_predicate")]),
 ("j-ac-transform", "good", A, [(LOOPS, '''  std::transform(effects->forall_effects.begin(), effects->forall_effects.end(),
                 std::back_inserter(effect_functions),
                 [&](const VAL::forall_effect* effect) {
                   return CreateForall<T>(pddl, effect, parameters);
                 });
'''), ("#include <exception>", "#include <iterator>\n#include <exception>")]),
 ("j-ac-check", "good", A, [(CHK, '''  // Check argument types
  size_t i = 0;
  for (const Object& param : action.parameters()) {
    const Object& arg = args[i++];
    const bool is_type = arg.type().IsSubtype(param.type());
    if (!is_type) {
''')]),
 ("j-ac-apply", "good", A, [(AP("State", "Apply_"), "  return Applied(Apply_, arguments, state);\n"), (AP("PartialState", "ApplyPartial_"), "  return Applied(ApplyPartial_, arguments, state);\n"),
   (HEAD, '''template <typename T>
T Applied(const EffectsFunction<T>& Effects,
          const std::vector<Object>& arguments, T state) {
  Effects(arguments, &state);
  return state;
}

''' + HEAD)]),
 ("j-ac-forall", "good", A, [(FAC, '''  const std::vector<Object> types =
      Object::CreateList(pddl, effect->getVarsList());
  std::vector<Object> forall_params;
  forall_params.reserve(parameters.size() + types.size());
  forall_params.insert(forall_params.end(), parameters.begin(),
                       parameters.end());
  forall_params.insert(forall_params.end(), types.begin(), types.end());
''')]),
 ("j-ac-forall-rev", "bad:C08", A, [(FAC, '''  const std::vector<Object> types =
      Object::CreateList(pddl, effect->getVarsList());
  std::vector<Object> forall_params = types;
  forall_params.insert(forall_params.end(), parameters.begin(),
                       parameters.end());
''')]),
 ("j-ac-delkind", "good", A, [('''EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
                             const std::vector<Object>& parameters) {
''', '''EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
                             const std::vector<Object>& parameters) {
  assert(effect != nullptr);
''')]),
 ("j-ax-fix", "good", X, [(FIX1, '''  // Keep testing axioms until state doesn't change for a full iteration
  for (bool is_changed = true; is_changed;) {
    is_changed = false;
    const bool is_consistent = std::all_of(
        axioms.begin(), axioms.end(),
        [&test_state, &is_changed](const std::shared_ptr<Axiom>& axiom) {
          return axiom->IsConsistent(&test_state, &is_changed);
        });
    if (!is_consistent) return false;
  }
  return true;
''')]),
 ("j-ax-fix-any", "bad:C17", X, [(FIX1, '''  bool is_changed = true;
  while (is_changed) {
    for (const std::shared_ptr<Axiom>& axiom : axioms) {
      is_changed = false;
      if (!axiom->IsConsistent(&test_state, &is_changed)) return false;
    }
  }
  return true;
''')]),
 ("j-ax-valid", "good", X, [("    const std::optional<bool> is_valid = IsValid(*state, args);\n    if (!is_valid || !*is_valid) continue;\n", "    if (!IsValid(*state, args).value_or(false)) continue;\n")]),
 ("j-ax-valid2", "good", X, [("        const std::optional<bool> is_valid = IsValid(*state, args);\n        if (!is_valid || !*is_valid) return true;\n", "        if (IsValid(*state, args) != true) return true;\n")]),
 ("j-ax-copyapply", "good", X, [('''  State state_next = state;
  Apply(&state_next);
  return state_next;
''', '''  State state_next(state);
  const bool is_changed = Apply(&state_next);
  static_cast<void>(is_changed);
  return state_next;
''')]),
 ("j-ax-prep", "good", X, [('''    const std::optional<DisjunctiveFormula> dnf =
        DisjunctiveFormula::Create(pddl, preconditions, parameters, args);
    if (!dnf.has_value()) continue;
    arguments.push_back(args);
''', '''    if (DisjunctiveFormula::Create(pddl, preconditions, parameters, args)) {
      arguments.emplace_back(args);
    }
''')]),
 ("j-ax-context", "good", X, [('''  if (simple_goal == nullptr) {
    const auto* neg_goal = dynamic_cast<const VAL::neg_goal*>(goal);
    if (neg_goal != nullptr) {
      is_pos = false;
      simple_goal = dynamic_cast<const VAL::simple_goal*>(neg_goal->getGoal());
    }
  }
''', '''  if (const auto* neg_goal = dynamic_cast<const VAL::neg_goal*>(goal)) {
    is_pos = false;
    simple_goal = dynamic_cast<const VAL::simple_goal*>(neg_goal->getGoal());
  }
''')]),
 ("j-ax-find", "good", X, [('''  if (dynamic_cast<const VAL::var_symbol*>(arg.symbol()) != nullptr) {
    for (size_t i = params.size(); i > 0; i--) {
      if (params[i - 1] == arg) return i - 1;
    }
  }
  return params.size();
''', '''  const bool is_variable =
      dynamic_cast<const VAL::var_symbol*>(arg.symbol()) != nullptr;
  if (!is_variable) return params.size();
  size_t found = params.size();
  for (size_t i = 0; i < params.size(); i++) {
    if (params[i] == arg) found = i;
  }
  return found;
''')]),
 ("j-ax-cases", "good", X, [('''    if (is_axiom_prop_arg && is_action_prop_arg) {
      // Make sure axiom prop arg and action prop arg are equal.
      if (axiom_prop_param != action_prop_param) return {};
    } else if (is_axiom_prop_arg) {
      // Make sure axiom prop arg and future action prop arg are equal.
      future_action_args.emplace_back(j, axiom_prop_param);
    } else if (is_action_prop_arg) {
      // Instantiate axiom prop param with action prop arg.
      (*axiom_args)[i] = action_prop_param;
      fixed_axiom_args.emplace_back(i, action_prop_param);
    } else {
      // Match axiom prop param and action prop param.
      idx_params.emplace_back(i, j);
    }
''', '''    if (is_axiom_prop_arg) {
      if (!is_action_prop_arg) {
        future_action_args.emplace_back(j, axiom_prop_param);
        continue;
      }
      if (axiom_prop_param == action_prop_param) continue;
      return std::nullopt;
    }
    if (!is_action_prop_arg) {
      idx_params.emplace_back(i, j);
      continue;
    }
    fixed_axiom_args.emplace_back(i, action_prop_param);
    axiom_args->at(i) = action_prop_param;
''')]),
 ("j-ax-mapcheck", "good", X, [('''    for (const std::pair<size_t, size_t>& idx_axiom_action : idx_params) {
      const Object& action_arg = action_args[idx_axiom_action.second];
      if (axiom_args[idx_axiom_action.first] != action_arg) return nullptr;
    }
    for (const std::pair<size_t, Object>& idx_argument : fixed_axiom_args) {
      if (axiom_args[idx_argument.first] != idx_argument.second) return nullptr;
    }
''', '''    for (const auto& [idx_axiom, fixed_arg] : fixed_axiom_args) {
      if (axiom_args[idx_axiom] != fixed_arg) return nullptr;
    }
    for (const auto& [idx_axiom, idx_action] : idx_params) {
      if (!(axiom_args[idx_axiom] == action_args[idx_action])) return nullptr;
    }
''')]),
 ("j-ax-print", "good", X, [('''  os << "axiom(";
  std::string separator;
  for (const Object& param : axiom.parameters()) {
    os << separator << param;
    if (separator.empty()) separator = ", ";
  }
  os << "): " << axiom.formula_;
''', '''  os << "axiom(";
  const std::vector<Object>& params = axiom.parameters();
  for (size_t i = 0; i < params.size(); ++i) {
    if (i > 0) os << ", ";
    os << params[i];
  }
  os << "): " << axiom.formula_;
''')]),
 # formula.cc
 ("j-fo-create", "good", F, [('''  // Proposition
  const auto* simple_goal = dynamic_cast<const VAL::simple_goal*>(symbol);
  if (simple_goal != nullptr) {
    return CreateProposition<T>(pddl, simple_goal, parameters);
  }

  // Conjunction
  const auto* conj_goal = dynamic_cast<const VAL::conj_goal*>(symbol);
  if (conj_goal != nullptr) {
    return CreateConjunction<T>(pddl, conj_goal, parameters);
  }
''', '''  if (const auto* conj_goal = dynamic_cast<const VAL::conj_goal*>(symbol)) {
    return CreateConjunction<T>(pddl, conj_goal, parameters);
  }
  if (const auto* simple_goal = dynamic_cast<const VAL::simple_goal*>(symbol);
      simple_goal != nullptr) {
    return CreateProposition<T>(pddl, simple_goal, parameters);
  }
''')]),
 ("j-fo-eval", "good", F, [('''  try {
    return PP_(state, {});
  } catch (const PartialState::UnknownEvaluation& e) {
    return {};
  }
''', '''  const std::vector<Object> no_arguments;
  return (*this)(state, no_arguments);
''')]),
 ("j-fo-bind", "good", F, [('''    for (const std::pair<size_t, size_t>& idx_prop_action : idx_params) {
      const size_t idx_prop = idx_prop_action.first;
      const size_t idx_action = idx_prop_action.second;
      prop_args[idx_prop] = action_args[idx_action];
    }
    return prop_args;
''', '''    std::for_each(idx_params.begin(), idx_params.end(),
                  [&](const std::pair<size_t, size_t>& idx) {
                    prop_args.at(idx.first) = action_args.at(idx.second);
                  });
    return *ptr_prop_args;
'''), ("#include <cassert> ", "#include <algorithm>\n#include <cassert> ")]),
 ("j-fo-args", "good", F, [('''      std::vector<Object> forall_args = arguments;
      forall_args.insert(forall_args.end(), forall_objs.begin(),
                         forall_objs.end());

      if (!P(state, forall_args)) return false;
    }
    return true;
''', '''      if (!P(state, Concatenate(arguments, forall_objs))) return false;
    }
    return true;
'''), ('''template <typename T>
NamedFormulaFunction<T> CreateForall(''', '''std::vector<Object> Concatenate(std::vector<Object> lhs,
                                const std::vector<Object>& rhs) {
  std::copy(rhs.begin(), rhs.end(), std::back_inserter(lhs));
  return lhs;
}

template <typename T>
NamedFormulaFunction<T> CreateForall('''), ("#include <cassert> ", "#include <algorithm>\n#include <iterator>\n#include <cassert> ")]),
 ("j-fo-hoist", "good", F, [('''    for (const std::vector<Object>& exists_objs : gen) {
      // Create exists arguments
      std::vector<Object> exists_args = arguments;
      exists_args.insert(exists_args.end(), exists_objs.begin(),
                         exists_objs.end());

      if (P(state, exists_args)) return true;
    }
    return false;
''', '''    std::vector<Object> exists_args;
    for (const std::vector<Object>& exists_objs : gen) {
      // Create exists arguments
      exists_args = arguments;
      exists_args.insert(exists_args.end(), exists_objs.begin(),
                         exists_objs.end());

      if (P(state, exists_args)) return true;
    }
    return false;
''')]),
 ("j-fo-hoist-bad", "bad:C07", F, [('''    for (const std::vector<Object>& exists_objs : gen) {
      // Create exists arguments
      std::vector<Object> exists_args = arguments;
      exists_args.insert(exists_args.end(), exists_objs.begin(),
                         exists_objs.end());
''', '''    std::vector<Object> exists_args = arguments;
    for (const std::vector<Object>& exists_objs : gen) {
      // Create exists arguments
      exists_args.insert(exists_args.end(), exists_objs.begin(),
                         exists_objs.end());
''')]),
 ("j-fo-types", "good", F, [('''  std::vector<Object> exists_params = parameters;
  std::vector<Object> types = Object::CreateList(pddl, symbol->getVars());
  exists_params.insert(exists_params.end(), types.begin(), types.end());
''', '''  std::vector<Object> types = Object::CreateList(pddl, symbol->getVars());
  std::vector<Object> exists_params(parameters);
  for (const Object& type : types) exists_params.push_back(type);
''')]),

 # pddl.cc
 ("j-pd-parse", "good", D, [("""  const std::pair<Action, std::vector<Object>> action_args =
      Action::Parse(*this, action_call);
  const Action& action = action_args.first;
  const std::vector<Object>& arguments = action_args.second;

  return action.IsValid(state, arguments) &&
         Apply(state, action, arguments, derived_predicates()) == next_state;
""", """  const auto [action, arguments] = Action::Parse(*this, action_call);
  if (!action.IsValid(state, arguments)) return false;
  State result(state);
  Apply(action, arguments, derived_predicates(), &result);
  return result == next_state;
""")]),
 ("j-pd-tuple-nostate", "bad:C09", D, [("""  return action.IsValid(state, arguments) &&
         Apply(state, action, arguments, derived_predicates()) == next_state;
""", """  if (!action.IsValid(state, arguments)) return state == next_state;
  return Apply(state, action, arguments, derived_predicates()) == next_state;
""")]),
 ("j-pd-plan", "good", D, [("""  State state = DerivedState(initial_state_);
  for (const std::string& action_call : action_skeleton) {
    // Parse strings
    std::pair<Action, std::vector<Object>> action_args =
        Action::Parse(*this, action_call);
    const Action& action = action_args.first;
    const std::vector<Object>& arguments = action_args.second;

    if (!action.IsValid(state, arguments)) return false;
    Apply(action, arguments, derived_predicates(), &state);
  }
  return goal_(state);
""", """  State state = DerivedState(initial_state());
  const bool is_valid = std::all_of(
      action_skeleton.begin(), action_skeleton.end(),
      [this, &state](const std::string& action_call) {
        const auto action_args = Action::Parse(*this, action_call);
        const Action& action = action_args.first;
        const std::vector<Object>& arguments = action_args.second;
        if (!action.IsValid(state, arguments)) return false;
        state = Apply(state, action, arguments, derived_predicates());
        return true;
      });
  return is_valid && goal()(state);
""")]),
 ("j-pd-valid-args", "good", D, [("""  std::vector<std::vector<Object>> arguments;
  ParameterGenerator param_gen(*this, action.parameters());
  for (const std::vector<Object>& args : param_gen) {
    if (action.IsValid(state, args)) arguments.push_back(args);
  }
  return arguments;
""", """  std::vector<std::vector<Object>> arguments;
  const ParameterGenerator& param_gen = action.parameter_generator();
  std::copy_if(param_gen.begin(), param_gen.end(),
               std::back_inserter(arguments),
               [&](const std::vector<Object>& args) {
                 return action.IsValid(state, args);
               });
  return arguments;
""")]),
 ("j-pd-types", "good", D, [("""    std::vector<std::string> types = object.type().ListTypes();
    for (const std::string& type : types) {
      object_map[type].push_back(object);
    }
""", """    for (const std::string& type : object.type().ListTypes()) {
      std::vector<Object>& typed_objects = object_map[type];
      typed_objects.emplace_back(object);
    }
""")]),
 ("j-pd-types-own", "bad:C16", D, [("""    std::vector<std::string> types = object.type().ListTypes();
    for (const std::string& type : types) {
      object_map[type].push_back(object);
    }
""", """    object_map[object.type().name()].push_back(object);
    object_map["object"].push_back(object);
""")]),
 ("j-pd-ctor-setup", "good", D, [("""  axiom_map_ = CreateAxiomContextMap(axioms());

  // Recreate axioms with updated axiom map. Axioms need to be pointers so
  // that they can be updated and remain usable from Action::Apply() lambdas
  // while handling axiom loops.
  UpdateAxioms(*this, &axioms_);
""", """  axiom_map_ = CreateAxiomContextMap(axioms_);
  for (std::shared_ptr<Axiom>& axiom : axioms_) {
    *axiom = Axiom(*this, axiom->symbol());
  }
""", 1)]),
 ("j-pd-initial", "good", D, [("""  if (apply_axioms) {
    initial_state_ = ConsistentState(initial_state_);
  }
  initial_state_ = DerivedState(initial_state_);
""", """  initial_state_ = DerivedState(
      apply_axioms ? ConsistentState(initial_state_) : initial_state_);
""")]),
 ("j-pd-initial-order", "bad:C16", D, [("""  if (apply_axioms) {
    initial_state_ = ConsistentState(initial_state_);
  }
  initial_state_ = DerivedState(initial_state_);
""", """  initial_state_ = DerivedState(initial_state_);
  if (apply_axioms) {
    initial_state_ = ConsistentState(initial_state_);
  }
""")]),
 ("j-pd-acts", "good", D, [("""  std::vector<std::string> actions;
  for (const Action& action : actions_) {
    const std::vector<std::vector<Object>> arguments =
        ListValidArguments(state, action);
    for (const std::vector<Object>& args : arguments) {
      actions.emplace_back(action.to_string(args));
    }
  }
  return actions;
""", """  std::vector<std::string> names;
  for (const Action& action : actions()) {
    for (const std::vector<Object>& args : ListValidArguments(state, action)) {
      std::string name = action.to_string(args);
      names.push_back(std::move(name));
    }
  }
  return names;
""")]),
 ("j-pd-getactions", "good", D, [("""    const auto* a = dynamic_cast<const VAL::action*>(op);
    if (a == nullptr) continue;
    actions.emplace_back(pddl, op);
""", """    if (dynamic_cast<const VAL::action*>(op) != nullptr) {
      Action action(pddl, op);
      actions.push_back(std::move(action));
    }
""")]),
 ("j-pd-fix", "good", D, [("""  State next_state = state;
  bool is_changed = true;
  while (is_changed) {
    is_changed = false;
    for (const std::shared_ptr<Axiom>& axiom : axioms()) {
      is_changed |= axiom->Apply(&next_state);
    }
  }
  return next_state;
""", """  State next_state = state;
  size_t num_changes = 0;
  do {
    num_changes = 0;
    for (const auto& axiom : axioms_) {
      if (axiom->Apply(&next_state)) ++num_changes;
    }
  } while (num_changes > 0);
  return next_state;
""")]),
 ("j-pd-src", "good", D, [("""  const size_t idx_last_char = problem.find_last_not_of(" \\t\\n\\r");
  std::shared_ptr<std::istream> input_problem;
  if (idx_last_char != std::string::npos && problem[idx_last_char] == ')') {
""", """  const size_t idx_last_char = problem.find_last_not_of(" \\t\\n\\r");
  const bool is_pddl_string =
      idx_last_char != std::string::npos && problem.at(idx_last_char) == ')';
  std::shared_ptr<std::istream> input_problem;
  if (is_pddl_string) {
""")]),
 ("j-pd-str", "good", D, [("""  std::vector<std::string> str_objects;
  str_objects.reserve(objects.size());
  for (const Object& object : objects) {
    str_objects.emplace_back(object.name());
  }
  return str_objects;
""", """  std::vector<std::string> names(objects.size());
  std::transform(objects.begin(), objects.end(), names.begin(),
                 [](const Object& object) { return object.name(); });
  return names;
""")]),
 # object.cc
 ("j-ob-sub", "good", O, [("""  if (type == kDefaultType) return true;
  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;
       curr = curr->type) {
    if (curr->getName() == type) return true;
  }
  return false;
""", """  const std::vector<std::string> types = ListTypes();
  return std::find(types.begin(), types.end(), type) != types.end();
""")]),
 ("j-ob-sub-while", "good", O, [("""  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;
       curr = curr->type) {
    if (curr->getName() == type) return true;
  }
  return false;
""", """  const VAL::pddl_type* curr = symbol_;
  while (curr != nullptr && curr->getName() != type) {
    curr = curr->type;
  }
  return curr != nullptr;
""")]),
 ("j-ob-sub-parent", "bad:C15", O, [("""  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;
       curr = curr->type) {
    if (curr->getName() == type) return true;
  }
  return false;
""", """  const VAL::pddl_type* curr = symbol_;
  while (curr != nullptr && curr->type != nullptr && curr->getName() != type) {
    curr = curr->type;
  }
  return curr != nullptr && curr->type != nullptr;
""")]),
 ("j-ob-sym", "good", O, [("""    for (const VAL::const_symbol* obj : *pddl.symbol()->the_domain->constants) {
      if (obj == nullptr) continue;
      if (obj->getName() == name_object) return obj;
    }
""", """    const auto& constants = *pddl.symbol()->the_domain->constants;
    const auto it = std::find_if(constants.begin(), constants.end(),
                                 [&name_object](const VAL::const_symbol* obj) {
                                   return obj != nullptr &&
                                          obj->getName() == name_object;
                                 });
    if (it != constants.end()) return *it;
""")]),
 ("j-ob-tok", "good", O, [("""  std::string str_args = proposition.substr(idx_start, idx_end);
  std::replace(str_args.begin(), str_args.end(), ',', ' ');
  std::stringstream ss(str_args);

  std::string arg;
  std::vector<std::string> args;
  while (ss >> arg) {
    args.emplace_back(std::move(arg));
  }
  return args;
""", """  std::string str_args = proposition.substr(idx_start, idx_end);
  for (char& c : str_args) {
    if (c == ',') c = ' ';
  }
  std::stringstream ss(str_args);
  return std::vector<std::string>(std::istream_iterator<std::string>(ss),
                                  std::istream_iterator<std::string>());
""")]),
 ("j-ob-parse", "good", O, [("""  const std::vector<std::string> name_args = TokenizeArguments(atom);
  std::vector<Object> args;
  args.reserve(name_args.size());
  for (const std::string& name_arg : name_args) {
    args.emplace_back(pddl, name_arg);
  }
  return args;
""", """  return ParseArguments(pddl, TokenizeArguments(atom));
""")]),
 ("j-ob-print", "good", O, [("""  if (objects.empty()) return os;
  os << objects.front();
  for (size_t i = 1; i < objects.size(); i++) {
    os << ", " << objects[i];
  }
  return os;
""", """  const char* separator = "";
  for (const Object& object : objects) {
    os << separator << object;
    separator = ", ";
  }
  return os;
""")]),
]
