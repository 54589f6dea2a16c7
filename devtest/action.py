F = "src/action.cc"
H = "include/symbolic/action.h"
B = "bad:C08"
ADD_RET = '''    int status = state->insert(
        PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
'''
DEL_RET = ADD_RET.replace("insert", "erase")
LOOP = '''    for (const EffectsFunction<T>& Effect : effect_functions) {
      is_state_changed = std::max(is_state_changed, Effect(arguments, state));
    }
    return is_state_changed;
'''
FA_LOOP = '''    for (const std::vector<Object>& forall_objs : gen) {
      // Create forall arguments
      std::vector<Object> forall_args = arguments;
      forall_args.insert(forall_args.end(), forall_objs.begin(),
                         forall_objs.end());

      is_state_changed =
          std::max(is_state_changed, ForallEffects(forall_args, state));
    }
    return is_state_changed;
'''
COND = '''        if (EvaluateCondition(Condition(*state, arguments))) {
          return CondEffects(arguments, state);
        }
        return false;
'''
AX_A = '''      if (axiom_args == nullptr) continue;

      // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
      // std::endl; std::cout << "[" << *state << std::endl;
      // Copy the arguments, since this axiom may be applied again meanwhile.
      const std::vector<Object> args = *axiom_args;
      status = std::max<int>(status, axiom.Action::Apply(args, state));
'''
AX_D = AX_A.replace('"+"', '"-"')
TYPES = '''  for (size_t i = 0; i < action.parameters().size(); i++) {
    const Object& param = action.parameters()[i];
    const Object& arg = args[i];
    if (!arg.type().IsSubtype(param.type())) {
'''
COUNT = "  if (action.parameters().size() != args.size()) {\n"
CTX_A = '''  const std::string axiom_context =
      SignedProposition::Sign(true) + name_predicate;
'''
CTX_D = CTX_A.replace("true", "false")
ADDS = '''  for (const VAL::simple_effect* effect : effects->add_effects) {
    effect_functions.emplace_back(CreateAdd<T>(pddl, effect, parameters));
  }
'''
DELS = '''  for (const VAL::simple_effect* effect : effects->del_effects) {
    effect_functions.emplace_back(CreateDel<T>(pddl, effect, parameters));
  }
'''
CONDS = '''  for (const VAL::cond_effect* effect : effects->cond_effects) {
    effect_functions.emplace_back(CreateCond<T>(pddl, effect, parameters));
  }
'''
FAS = '''  for (const VAL::forall_effect* effect : effects->forall_effects) {
    effect_functions.emplace_back(CreateForall<T>(pddl, effect, parameters));
  }
'''
AX_LOOP = '''    for (const std::weak_ptr<Axiom>& ptr_axiom :
         pddl.axiom_map().at(axiom_context)) {
      const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
      std::optional<AxiomApplicationFunction> AxiomApply =
          Axiom::CreateApplicationFunction(parameters, effect_params,
                                           axiom->parameters(),
                                           axiom->context().arguments());
      if (!AxiomApply.has_value()) continue;

      axioms.emplace_back(axiom, std::move(*AxiomApply));
    }
'''
EDITS = [
    # bad
    ("add_erases", B, [(F, ADD_RET, DEL_RET)]),
    ("del_inserts", B, [(F, DEL_RET, ADD_RET)]),
    ("eq_add_neg", B, [(F, "      if (prop_args[0] != prop_args[1]) {", "      if (prop_args[0] == prop_args[1]) {")]),
    ("eq_del_neg", B, [(F, "      if (prop_args[0] == prop_args[1]) {", "      if (prop_args[0] != prop_args[1]) {")]),
    ("eq_del_never", B, [(F, "      if (prop_args[0] == prop_args[1]) {", "      if (prop_args[0] == prop_args[1] && false) {")]),
    ("type_add_neg", B, [(F, "      if (!prop_args[0].type().IsSubtype(name_predicate)) {", "      if (prop_args[0].type().IsSubtype(name_predicate)) {")]),
    ("type_del_neg", B, [(F, "      if (prop_args[0].type().IsSubtype(name_predicate)) {", "      if (!prop_args[0].type().IsSubtype(name_predicate)) {")]),
    ("status_true", B, [(F, ADD_RET, ADD_RET + "    status = 1;\n")]),
    ("status_dropped", B, [(F, "    return status;\n  };\n}\n\nbool EvaluateCondition(bool", "    return 0;\n  };\n}\n\nbool EvaluateCondition(bool")]),
    ("no_adds", B, [(F, ADDS, "")]),
    ("no_dels", B, [(F, DELS, "")]),
    ("no_conds", B, [(F, CONDS, "")]),
    ("no_foralls", B, [(F, FAS, "")]),
    ("adds_twice", B, [(F, ADDS, ADDS + ADDS)]),
    ("dels_as_adds", B, [(F, DELS, DELS.replace("CreateDel", "CreateAdd"))]),
    ("adds_of_dels", B, [(F, ADDS, ADDS.replace("effects->add_effects", "effects->del_effects"))]),
    ("forall_last", B, [(F, FAS, ""), (F, CONDS, CONDS + FAS)]),
    ("forall_after_add", B, [(F, FAS, ""), (F, ADDS, ADDS + FAS)]),
    ("short_circuit", B, [(F, LOOP, LOOP.replace("is_state_changed = std::max(is_state_changed, Effect(arguments, state));",
                                                 "is_state_changed = is_state_changed ? is_state_changed : Effect(arguments, state);"))]),
    ("stop_first", B, [(F, LOOP, LOOP.replace("state));\n    }", "state));\n      if (is_state_changed) break;\n    }"))]),
    ("last_status", B, [(F, LOOP, LOOP.replace("std::max(is_state_changed, Effect(arguments, state))", "Effect(arguments, state)"))]),
    ("min_status", B, [(F, LOOP, LOOP.replace("std::max", "std::min"))]),
    ("or_status", B, [(F, LOOP, LOOP.replace("is_state_changed = std::max(is_state_changed, Effect(arguments, state))", "is_state_changed |= Effect(arguments, state)"))]),
    ("status_one", B, [(F, LOOP, "    int is_changed = 1;\n" + LOOP.replace("is_state_changed", "is_changed")), (F, "  return [effect_functions = std::move(effect_functions)](\n             const std::vector<Object>& arguments, T* state) -> int {\n    int is_state_changed = 0;\n", "  return [effect_functions = std::move(effect_functions)](\n             const std::vector<Object>& arguments, T* state) -> int {\n")]),
    ("skip_first", B, [(F, LOOP, "    for (size_t i = 1; i < effect_functions.size(); i++) {\n      is_state_changed = std::max(is_state_changed, effect_functions[i](arguments, state));\n    }\n    return is_state_changed;\n")]),
    ("cond_neg", B, [(F, COND, COND.replace("if (Eval", "if (!Eval"))]),
    ("cond_always", B, [(F, COND, "        return CondEffects(arguments, state);\n")]),
    ("cond_unknown", B, [(F, "  return cond ? *cond : false;", "  return cond ? *cond : true;")]),
    ("cond_status", B, [(F, COND, COND.replace("          return CondEffects(arguments, state);", "          CondEffects(arguments, state);\n          return false;"))]),
    ("cond_true_status", B, [(F, COND, COND.replace("        return false;", "        return true;"))]),
    ("cond_twice", B, [(F, COND, COND.replace("          return CondEffects(arguments, state);", "          CondEffects(arguments, state);\n          return CondEffects(arguments, state);"))]),
    ("forall_scope", B, [(F, "CreateEffectsFunction<T>(pddl, effect->getEffects(), forall_params)", "CreateEffectsFunction<T>(pddl, effect->getEffects(), parameters)")]),
    ("forall_order", B, [(F, "  forall_params.insert(forall_params.end(), types", "  forall_params.insert(forall_params.begin(), types")]),
    ("forall_args_order", B, [(F, "      forall_args.insert(forall_args.end(), forall", "      forall_args.insert(forall_args.begin(), forall")]),
    ("forall_both_first", B, [(F, "  forall_params.insert(forall_params.end(), types", "  forall_params.insert(forall_params.begin(), types"), (F, "      forall_args.insert(forall_args.end(), forall", "      forall_args.insert(forall_args.begin(), forall")]),
    ("forall_keeps", B, [(F, "      std::vector<Object> forall_args = arguments;\n", ""), (F, "    int is_state_changed = 0;\n    for (const std::vector<Object>& forall_objs : gen) {", "    int is_state_changed = 0;\n    std::vector<Object> forall_args = arguments;\n    for (const std::vector<Object>& forall_objs : gen) {")]),
    ("forall_first", B, [(F, FA_LOOP, FA_LOOP.replace("state));\n    }", "state));\n      if (is_state_changed) return is_state_changed;\n    }"))]),
    ("forall_all_params", B, [(F, "gen = ParameterGenerator(pddl, types)", "gen = ParameterGenerator(pddl, forall_params)")]),
    ("forall_status", B, [(F, FA_LOOP, FA_LOOP.replace("          std::max(is_state_changed, ForallEffects(forall_args, state));", "          ForallEffects(forall_args, state);"))]),
    ("axioms_unchanged", B, [(F, "    if (status == 0) return status;\n", "")]),
    ("axioms_never", B, [(F, "    if (status == 0) return status;\n", "    if (status == 0 || !axioms.empty()) return status;\n")]),
    ("axioms_flipped", B, [(F, "    if (status == 0) return status;\n", "    if (status != 0) return status;\n")]),
    ("axiom_sign", B, [(F, CTX_A, CTX_D)]),
    ("axiom_sign_d", B, [(F, CTX_D, CTX_A)]),
    ("axiom_args", B, [(F, AX_A, AX_A.replace("Apply(args", "Apply(arguments"))]),
    ("axiom_break", B, [(F, AX_D, AX_D.replace("continue;", "break;"))]),
    ("axiom_status", B, [(F, AX_A, AX_A.replace("status = std::max<int>(status, axiom.Action::Apply(args, state));", "axiom.Action::Apply(args, state);"))]),
    ("axiom_status_last", B, [(F, AX_D, AX_D.replace("std::max<int>(status, axiom.Action::Apply(args, state))", "axiom.Action::Apply(args, state)"))]),
    ("axiom_status_min", B, [(F, AX_D, AX_D.replace("std::max", "std::min"))]),
    ("g_axiom_status_if", "good", [(F, AX_D, AX_D.replace("status = std::max<int>(status, axiom.Action::Apply(args, state));", "const int s = axiom.Action::Apply(args, state);\n      if (s > status) status = s;"))]),
    ("axiom_alias", B, [(F, AX_A, AX_A.replace("const std::vector<Object> args", "const std::vector<Object>& args"))]),
    ("axiom_alias_d", B, [(F, AX_D, AX_D.replace("      const std::vector<Object> args = *axiom_args;\n", "").replace("Apply(args", "Apply(*axiom_args"))]),
    ("axiom_skip", B, [(F, AX_LOOP, AX_LOOP.replace("      if (!AxiomApply.has_value()) continue;", "      if (AxiomApply.has_value()) continue;\n      if (!AxiomApply.has_value()) continue;"))]),
    ("copy_unapplied", B, [(F, "  State next_state(state);\n  Apply_(arguments, &next_state);", "  State next_state(state);")]),
    ("apply_bool", B, [(H, "    return static_cast<bool>(Apply_(arguments, state));", "    Apply_(arguments, state);\n    return true;")]),
    ("apply_not", B, [(H, "    return static_cast<bool>(Apply_(arguments, state));", "    return !static_cast<bool>(Apply_(arguments, state));")]),
    ("partial_bool", B, [(H, "    return ApplyPartial_(arguments, state);", "    return static_cast<bool>(ApplyPartial_(arguments, state));")]),
    ("apply_twice", B, [(H, "    return ApplyPartial_(arguments, state);", "    ApplyPartial_(arguments, state);\n    return ApplyPartial_(arguments, state);")]),
    ("valid_not", B, [(H, "  bool IsValid(const State& state, const std::vector<Object>& arguments) const {\n    return Pre", "  bool IsValid(const State& state, const std::vector<Object>& arguments) const {\n    return !Pre")]),
    ("ctor_pre", B, [(F, "Preconditions_(pddl, symbol_->precondition, parameters_)", "Preconditions_(pddl, symbol_->precondition, {})")]),
    ("ctor_partial", B, [(F, "CreateEffectsFunction<PartialState>(pddl, symbol_->effects,\n                                                        parameters_)", "nullptr")]),
    ("parse_count_less", B, [(F, COUNT, COUNT.replace("!=", "<"))]),
    ("parse_count_more", B, [(F, COUNT, COUNT.replace("!=", ">"))]),
    ("parse_no_count", B, [(F, COUNT, COUNT.replace("!=", "!= args.size() && args.size() !="))]),
    ("parse_first_ok", B, [(F, TYPES, TYPES.replace("size_t i = 0", "size_t i = 1"))]),
    ("parse_neg", B, [(F, TYPES, TYPES.replace("!arg.type", "arg.type"))]),
    ("parse_reverse", B, [(F, TYPES, TYPES.replace("!arg.type().IsSubtype(param.type())", "!param.type().IsSubtype(arg.type())"))]),
    ("parse_index", B, [(F, TYPES, TYPES.replace("args[i]", "args[0]"))]),
    ("parse_break", B, [(F, "      throw std::invalid_argument(ss.str());\n    }\n  }\n\n  return aa;", "      throw std::invalid_argument(ss.str());\n    }\n    break;\n  }\n\n  return aa;")]),
    ("symbol_neq", B, [(F, "    if (op->name->getNameRef() == name_action) return op;", "    if (op->name->getNameRef() != name_action) return op;")]),
    ("symbol_any", B, [(F, "    if (op->name->getNameRef() == name_action) return op;", "    return op;")]),
    ("symbol_null", B, [(F, "    if (op->name->getNameRef() == name_action) return op;", "    if (op->name->getNameRef() == name_action) return op;\n    break;")]),
    ("name_call", B, [(F, "GetSymbol(pddl, Proposition::ParseHead(action_call))", "GetSymbol(pddl, action_call)")]),
    # good
    ("g_plain_loop", "good", [(F, LOOP, LOOP.replace("for (const EffectsFunction<T>& Effect : effect_functions) {", "for (size_t k = 0; k < effect_functions.size(); ++k) {\n      const EffectsFunction<T>& Effect = effect_functions[k];"))]),
    ("g_if_max", "good", [(F, LOOP, LOOP.replace("      is_state_changed = std::max(is_state_changed, Effect(arguments, state));", "      const int changed = Effect(arguments, state);\n      if (changed > is_state_changed) is_state_changed = changed;"))]),
    ("g_iter", "good", [(F, LOOP, LOOP.replace("for (const EffectsFunction<T>& Effect : effect_functions) {", "for (auto it = effect_functions.begin(); it != effect_functions.end(); ++it) {\n      const EffectsFunction<T>& Effect = *it;"))]),
    ("g_reserve", "good", [(F, FAS, "  effect_functions.reserve(effects->forall_effects.size() + effects->add_effects.size());\n" + FAS)]),
    ("g_push", "good", [(F, ADDS, ADDS.replace("emplace_back(", "push_back("))]),
    ("g_cond_flip", "good", [(F, COND, "        if (!EvaluateCondition(Condition(*state, arguments))) return 0;\n        return CondEffects(arguments, state);\n")]),
    ("g_cond_tern", "good", [(F, COND, "        const bool holds = EvaluateCondition(Condition(*state, arguments));\n        return holds ? CondEffects(arguments, state) : 0;\n")]),
    ("g_value_or", "good", [(F, "  return cond ? *cond : false;", "  return cond.value_or(false);")]),
    ("g_has", "good", [(F, "  return cond ? *cond : false;", "  return cond.has_value() && *cond;")]),
    ("g_status_block", "good", [(F, ADD_RET, ADD_RET.replace("    int status = state->insert(\n        ", "    const PropositionRef P = ").replace("predicate_hash));", "predicate_hash);\n    int status = state->insert(P);"))]),
    ("g_neg_status", "good", [(F, "    if (status == 0) return status;\n", "    if (!status) return 0;\n")]),
    ("g_axiom_if", "good", [(F, AX_A, "      if (axiom_args != nullptr) status = std::max<int>(status, axiom.Action::Apply(std::vector<Object>(*axiom_args), state));\n")]),
    ("g_axiom_ptr", "good", [(F, AX_D, AX_D.replace("      if (axiom_args == nullptr) continue;", "      if (!axiom_args) continue;"))]),
    ("g_axiom_find", "good", [(F, "  if (pddl.axiom_map().count(axiom_context) > 0) {\n    for (const std::weak_ptr<Axiom>& ptr_axiom :\n         pddl.axiom_map().at(axiom_context)) {", "  const auto it_ax = pddl.axiom_map().find(axiom_context);\n  if (it_ax != pddl.axiom_map().end()) {\n    for (const std::weak_ptr<Axiom>& ptr_axiom : it_ax->second) {")]),
    ("g_axiom_if2", "good", [(F, AX_LOOP, AX_LOOP.replace("      if (!AxiomApply.has_value()) continue;\n\n      axioms.emplace_back(axiom, std::move(*AxiomApply));", "      if (AxiomApply) axioms.emplace_back(axiom, std::move(*AxiomApply));"))]),
    ("g_forall_insert", "good", [(F, "      forall_args.insert(forall_args.end(), forall_objs.begin(),\n                         forall_objs.end());", "      for (const Object& o : forall_objs) forall_args.push_back(o);")]),
    ("g_forall_local", "good", [(F, "      is_state_changed =\n          std::max(is_state_changed, ForallEffects(forall_args, state));", "      const int changed = ForallEffects(forall_args, state);\n      is_state_changed = std::max(changed, is_state_changed);")]),
    ("g_apply_local", "good", [(F, "  State next_state(state);\n  Apply_(arguments, &next_state);\n  return next_state;", "  State result = state;\n  const Action& self = *this;\n  self.Apply_(arguments, &result);\n  return result;")]),
    ("g_apply_neq", "good", [(H, "    return static_cast<bool>(Apply_(arguments, state));", "    return Apply_(arguments, state) != 0;")]),
    ("g_apply_via", "good", [(F, "  State next_state(state);\n  Apply_(arguments, &next_state);\n  return next_state;", "  State next_state(state);\n  Apply(arguments, &next_state);\n  return next_state;")]),
    ("g_parse_vars", "good", [(F, TYPES, "  const size_t n = args.size();\n" + TYPES.replace("i < action.parameters().size()", "i < n"))]),
    ("g_parse_names", "good", [(F, TYPES, TYPES.replace("!arg.type().IsSubtype(param.type())", "const bool fits = arg.type().IsSubtype(param.type()); !fits"))]),
    ("g_symbol_find", "good", [(F, "  for (const VAL::operator_* op : *pddl.symbol()->the_domain->ops) {\n    assert(op != nullptr && op->name != nullptr);\n    if (op->name->getNameRef() == name_action) return op;\n  }", "  const auto& ops = *pddl.symbol()->the_domain->ops;\n  const auto it = std::find_if(ops.begin(), ops.end(), [&](const VAL::operator_* op) { return name_action == op->name->getNameRef(); });\n  if (it != ops.end()) return *it;")]),
    ("g_symbol_continue", "good", [(F, "    if (op->name->getNameRef() == name_action) return op;", "    if (op->name->getNameRef() != name_action) continue;\n    return op;")]),
    ("g_eq_msg", "good", [(F, "      if (prop_args[0] != prop_args[1]) {", "      if (!(prop_args[0] == prop_args[1])) {")]),
    ("g_eq_early", "good", [(F, "      if (prop_args[0] == prop_args[1]) {", "      if (prop_args[0] != prop_args[1]) return 0;\n      {")]),
    ("g_type_has", "good", [(F, "pddl.object_map().count(name_predicate) > 0", "pddl.object_map().find(name_predicate) != pddl.object_map().end()")]),
    ("g_helper_status", "good", [(F, "bool EvaluateCondition(bool cond) { return cond; }", "int Larger(int a, int b) { return a < b ? b : a; }\n\nbool EvaluateCondition(bool cond) { return cond; }"), (F, LOOP, LOOP.replace("std::max(", "Larger("))]),
    ("g_comment", "good", [(F, LOOP, "    // nothing\n    (void)state;\n" + LOOP)]),
]
EDITS = [(e[0], e[1], sorted({x[0] for x in e[2]}) if len({x[0] for x in e[2]}) > 1 else e[2][0][0], [x[1:] for x in e[2]]) for e in EDITS]
