"""Edits of the planning interface."""
F = "src/pddl.cc"
B = "bad:C09"
NEXT = "  return Apply(state, action, arguments, derived_predicates());\n}\n\nTEST"
APPLY1 = '''  State next_state = action.Apply(state, arguments);
  DerivedPredicate::Apply(predicates, &next_state);
  return next_state;'''
APPLY2 = '''  bool is_changed = action.Apply(arguments, state);
  is_changed |= DerivedPredicate::Apply(predicates, state);
  return is_changed;'''
ACTIONS = "    Apply(action, arguments, derived_predicates(), &next_state);\n"
PLANCHK = "    if (!action.IsValid(state, arguments)) return false;\n    Apply(action, arguments, derived_predicates(), &state);\n"
PLANEND = "    Apply(action, arguments, derived_predicates(), &state);\n  }\n  return goal_(state);"
PLAN0 = "  State state = DerivedState(initial_state_);\n"
TUPLE = '''  return action.IsValid(state, arguments) &&
         Apply(state, action, arguments, derived_predicates()) == next_state;'''
FIX = '''    is_changed = false;
    for (const std::shared_ptr<Axiom>& axiom : axioms()) {
      is_changed |= axiom->Apply(&next_state);
    }
'''
CHK = "    if (!axiom->IsConsistent(state)) return false;\n  }\n  return true;"
PFIX = "      const int axiom_change = axiom->Apply(&next_state);\n      is_changed |= axiom_change > 0;\n"
ARGS = "    if (action.IsValid(state, args)) arguments.push_back(args);\n"
ACTS = '''    const std::vector<std::vector<Object>> arguments =
        ListValidArguments(state, action);
    for (const std::vector<Object>& args : arguments) {
      actions.emplace_back(action.to_string(args));
    }
'''
PARSE = '''  for (const std::string& str_prop : str_state) {
    state.emplace(pddl, str_prop);
  }
'''
EDITS = [
    ("next_noderived", B, [(F, NEXT, "  return action.Apply(state, arguments);\n}\n\nTEST")]),
    ("next_initial", B, [(F, NEXT, NEXT.replace("Apply(state,", "Apply(initial_state_,"))]),
    ("apply_derive_first", B, [(F, APPLY1, '''  State next_state = state;
  DerivedPredicate::Apply(predicates, &next_state);
  return action.Apply(next_state, arguments);''')]),
    ("apply_twice", B, [(F, APPLY1, APPLY1.replace("  return", "  action.Apply(arguments, &next_state);\n  return"))]),
    ("apply_no_derived", B, [(F, APPLY1, "  (void)predicates;\n  return action.Apply(state, arguments);")]),
    ("apply2_no_derived", B, [(F, APPLY2, "  (void)predicates;\n  return action.Apply(arguments, state);")]),
    ("apply2_short", B, [(F, APPLY2, "  return action.Apply(arguments, state) && DerivedPredicate::Apply(predicates, state);")]),
    ("apply2_order", B, [(F, APPLY2, "  bool is_changed = DerivedPredicate::Apply(predicates, state);\n  is_changed |= action.Apply(arguments, state);\n  return is_changed;")]),
    ("actions_restart", B, [(F, ACTIONS, "    next_state = Apply(state, action, arguments, derived_predicates());\n")]),
    ("actions_valid_only", B, [(F, ACTIONS, "    if (!action.IsValid(next_state, arguments)) break;\n" + ACTIONS)]),
    ("fix_forever_set", B, [(F, "  bool is_changed = true;\n  while (is_changed) {\n" + FIX + "  }\n", "  while (true) {\n    bool is_changed = false;\n    for (const std::shared_ptr<Axiom>& axiom : axioms()) {\n      is_changed = axiom->Apply(&next_state);\n    }\n    if (!is_changed) break;\n  }\n")]),
    ("plan_empty_true", B, [(F, PLAN0, PLAN0 + "  if (action_skeleton.empty()) return !goal_(state);\n")]),
    ("actions_skip", B, [(F, ACTIONS, "    if (!action.IsValid(next_state, arguments)) continue;\n" + ACTIONS)]),
    ("actions_result", B, [(F, ACTIONS + "  }\n  return next_state;", ACTIONS + "  }\n  return state;")]),
    ("actions_initial", B, [(F, "  State next_state(state);\n", "  State next_state(initial_state_);\n")]),
    ("derived_none", B, [(F, "  return DerivedPredicate::Apply(state, derived_predicates());", "  return state;")]),
    ("fix_once", B, [(F, "  while (is_changed) {\n" + FIX + "  }\n", FIX)]),
    ("fix_assign", B, [(F, FIX, FIX.replace("|=", "="))]),
    ("fix_and", B, [(F, FIX, FIX.replace("|=", "&="))]),
    ("fix_or_short", B, [(F, FIX, FIX.replace("is_changed |= axiom->Apply(&next_state);", "is_changed = is_changed || axiom->Apply(&next_state);"))]),
    ("fix_break", B, [(F, FIX, FIX.replace("is_changed |= axiom->Apply(&next_state);", "is_changed |= axiom->Apply(&next_state);\n      if (!is_changed) break;"))]),
    ("fix_never", B, [(F, "  bool is_changed = true;\n  while (is_changed) {\n" + FIX, "  bool is_changed = false;\n  while (is_changed) {\n" + FIX)]),
    ("fix_result", B, [(F, FIX + "  }\n  return next_state;", FIX + "  }\n  return state;")]),
    ("fix_initial", B, [(F, "  State next_state = state;\n  bool is_changed = true;\n", "  State next_state = initial_state_;\n  bool is_changed = true;\n")]),
    ("pfix_quiet", B, [(F, "      if (axiom_change == 2) {", "      if (axiom_change == 3) {")]),
    ("pfix_one", B, [(F, "      if (axiom_change == 2) {", "      if (axiom_change >= 1) {")]),
    ("pfix_last", B, [(F, PFIX, PFIX.replace("|=", "="))]),
    ("pfix_ge1", B, [(F, PFIX, PFIX.replace("axiom_change > 0", "axiom_change > 1"))]),
    ("valid_not", B, [(F, "  return action.IsValid(state, arguments);\n}", "  return !action.IsValid(state, arguments);\n}")]),
    ("valid_init", B, [(F, "  return action.IsValid(state, arguments);\n}", "  return action.IsValid(initial_state_, arguments);\n}")]),
    ("state_any", B, [(F, CHK, "    if (axiom->IsConsistent(state)) return true;\n  }\n  return false;")]),
    ("state_first", B, [(F, CHK, "    return axiom->IsConsistent(state);\n  }\n  return true;")]),
    ("state_last", B, [(F, "  for (const std::shared_ptr<Axiom>& axiom : axioms()) {\n" + CHK, "  bool ok = true;\n  for (const std::shared_ptr<Axiom>& axiom : axioms()) {\n    ok = axiom->IsConsistent(state);\n  }\n  return ok;")]),
    ("pstate_true", B, [(F, "  return Axiom::IsConsistent(axioms(), state);", "  return Axiom::IsConsistent(axioms(), PartialState(initial_state_, State()));")]),
    ("tuple_or", B, [(F, TUPLE, TUPLE.replace("&&", "||"))]),
    ("tuple_unchecked", B, [(F, TUPLE, "  return Apply(state, action, arguments, derived_predicates()) == next_state;")]),
    ("tuple_neq", B, [(F, TUPLE, TUPLE.replace("==", "!="))]),
    ("tuple_post", B, [(F, TUPLE, TUPLE.replace("IsValid(state", "IsValid(next_state"))]),
    ("tuple_underived", B, [(F, TUPLE, TUPLE.replace("Apply(state, action, arguments, derived_predicates())", "action.Apply(state, arguments)"))]),
    ("tuple_swapped", B, [(F, "  return IsValidTuple(state, action_call, next_state);", "  return IsValidTuple(next_state, action_call, state);")]),
    ("tuple_same", B, [(F, "  const State next_state = ParseState(*this, str_next_state);", "  const State next_state = ParseState(*this, str_state);\n  (void)str_next_state;")]),
    ("goal_not", B, [(F, "  const State state = ParseState(*this, str_state);\n\n  return goal_(state);", "  const State state = ParseState(*this, str_state);\n\n  return !goal_(state);")]),
    ("goal_init", B, [(F, "  const State state = ParseState(*this, str_state);\n\n  return goal_(state);", "  const State state = ParseState(*this, str_state);\n\n  return goal_(initial_state_);")]),
    ("plan_unchecked", B, [(F, PLANCHK, "    Apply(action, arguments, derived_predicates(), &state);\n")]),
    ("plan_late", B, [(F, PLANCHK, "    Apply(action, arguments, derived_predicates(), &state);\n    if (!action.IsValid(state, arguments)) return false;\n")]),
    ("plan_init_check", B, [(F, PLANCHK, PLANCHK.replace("IsValid(state", "IsValid(initial_state_"))]),
    ("plan_true", B, [(F, PLANEND, PLANEND.replace("return goal_(state)", "return true"))]),
    ("plan_goal_any", B, [(F, PLANEND, PLANEND.replace("&state);\n  }", "&state);\n    if (goal_(state)) return true;\n  }"))]),
    ("plan_break", B, [(F, PLANCHK, PLANCHK.replace("return false", "break"))]),
    ("plan_continue", B, [(F, PLANCHK, PLANCHK.replace("return false", "continue"))]),
    ("plan_goal_init", B, [(F, PLANEND, PLANEND.replace("goal_(state)", "goal_(initial_state_)"))]),
    ("plan_undervied0", B, [(F, PLAN0, "  State state = initial_state_;\n")]),
    ("plan_no_derived", B, [(F, PLANCHK, PLANCHK.replace("    Apply(action, arguments, derived_predicates(), &state);", "    action.Apply(arguments, &state);"))]),
    ("args_all", B, [(F, ARGS, "    (void)state;\n    arguments.push_back(args);\n")]),
    ("args_invalid", B, [(F, ARGS, ARGS.replace("if (", "if (!"))]),
    ("args_first", B, [(F, ARGS, "    if (action.IsValid(state, args)) {\n      arguments.push_back(args);\n      break;\n    }\n")]),
    ("args_stop", B, [(F, ARGS, "    if (!action.IsValid(state, args)) break;\n    arguments.push_back(args);\n")]),
    ("args_init", B, [(F, ARGS, ARGS.replace("IsValid(state", "IsValid(initial_state_"))]),
    ("acts_all", B, [(F, ACTS, "    for (const std::vector<Object>& args : action.parameter_generator()) {\n      actions.emplace_back(action.to_string(args));\n    }\n")]),
    ("acts_one", B, [(F, ACTS, ACTS.replace("to_string(args));\n", "to_string(args));\n      break;\n"))]),
    ("acts_name", B, [(F, ACTS, ACTS.replace("action.to_string(args)", "action.name()"))]),
    ("acts_init", B, [(F, ACTS, ACTS.replace("(state, action)", "(initial_state_, action)"))]),
    ("parse_one", B, [(F, PARSE, PARSE.replace("str_prop);\n", "str_prop);\n    break;\n"))]),
    ("parse_none", B, [(F, PARSE, "  (void)pddl;\n")]),

    ("g_next_via", "good", [(F, NEXT, "  return ApplyActions(state, {action_call});\n}\n\nTEST")]),
    ("g_next_copy", "good", [(F, NEXT, "  State next = state;\n  action.Apply(arguments, &next);\n  DerivedPredicate::Apply(derived_predicates(), &next);\n  return next;\n}\n\nTEST")]),
    ("g_apply_static", "good", [(F, APPLY1, "  return DerivedPredicate::Apply(action.Apply(state, arguments), predicates);")]),
    ("g_apply2_block", "good", [(F, APPLY2, "  const bool a = action.Apply(arguments, state);\n  const bool b = DerivedPredicate::Apply(predicates, state);\n  return a || b;")]),
    ("g_actions_next", "good", [(F, ACTIONS, "    next_state = Apply(next_state, action, arguments, derived_predicates());\n")]),
    ("g_actions_index", "good", [(F, "  for (const std::string& action_call : action_calls) {\n", "  for (size_t i = 0; i < action_calls.size(); i++) {\n    const std::string& action_call = action_calls[i];\n")]),
    ("g_plan_flag", "good", [(F, "    if (!action.IsValid(state, arguments)) return false;\n    Apply(action, arguments, derived_predicates(), &state);\n  }\n  return goal_(state);",
                              "    if (!action.IsValid(state, arguments)) {\n      ok = false;\n      break;\n    }\n    Apply(action, arguments, derived_predicates(), &state);\n  }\n  return ok && goal_(state);"),
                             (F, PLAN0, PLAN0 + "  bool ok = true;\n")]),
    ("g_plan_next", "good", [(F, PLANCHK, "    if (!IsValidAction(state, action_call)) return false;\n    state = NextState(state, action_call);\n")]),
    ("g_plan_empty", "good", [(F, PLAN0, PLAN0 + "  if (action_skeleton.empty()) return goal_(state);\n")]),
    ("g_tuple_if", "good", [(F, TUPLE, "  if (!action.IsValid(state, arguments)) return false;\n  const State result = Apply(state, action, arguments, derived_predicates());\n  return result == next_state;")]),
    ("g_tuple_next", "good", [(F, TUPLE, "  return IsValidAction(state, action_call) && next_state == NextState(state, action_call);")]),
    ("g_fix_do", "good", [(F, "  bool is_changed = true;\n  while (is_changed) {\n" + FIX + "  }\n", "  bool is_changed;\n  do {\n" + FIX + "  } while (is_changed);\n")]),
    ("g_fix_forever", "good", [(F, "  bool is_changed = true;\n  while (is_changed) {\n" + FIX + "  }\n", "  while (true) {\n    bool is_changed = false;\n    for (const std::shared_ptr<Axiom>& axiom : axioms()) {\n      if (axiom->Apply(&next_state)) is_changed = true;\n    }\n    if (!is_changed) break;\n  }\n")]),
    ("g_fix_order", "good", [(F, FIX, FIX.replace("is_changed |= axiom->Apply(&next_state);", "is_changed = axiom->Apply(&next_state) || is_changed;"))]),
    ("g_pfix_if", "good", [(F, PFIX, PFIX.replace("is_changed |= axiom_change > 0;", "if (axiom_change > 0) is_changed = true;"))]),
    ("g_state_all", "good", [(F, "  for (const std::shared_ptr<Axiom>& axiom : axioms()) {\n" + CHK, "  return std::all_of(axioms().begin(), axioms().end(), [&state](const std::shared_ptr<Axiom>& axiom) {\n    return axiom->IsConsistent(state);\n  });")]),
    ("g_state_flag", "good", [(F, "  for (const std::shared_ptr<Axiom>& axiom : axioms()) {\n" + CHK, "  bool ok = true;\n  for (const std::shared_ptr<Axiom>& axiom : axioms()) {\n    ok = ok && axiom->IsConsistent(state);\n  }\n  return ok;")]),
    ("g_args_gen", "good", [(F, "  ParameterGenerator param_gen(*this, action.parameters());\n  for (const std::vector<Object>& args : param_gen) {", "  for (const std::vector<Object>& args : action.parameter_generator()) {")]),
    ("g_args_continue", "good", [(F, ARGS, "    if (!action.IsValid(state, args)) continue;\n    arguments.push_back(args);\n")]),
    ("g_acts_nested", "good", [(F, ACTS, "    for (const std::vector<Object>& args : action.parameter_generator()) {\n      if (!action.IsValid(state, args)) continue;\n      actions.push_back(action.to_string(args));\n    }\n")]),
    ("g_acts_direct", "good", [(F, ACTS, "    for (const std::vector<Object>& args : ListValidArguments(state, action)) {\n      std::string call = action.to_string(args);\n      actions.push_back(std::move(call));\n    }\n")]),
    ("g_parse_prop", "good", [(F, PARSE, PARSE.replace("state.emplace(pddl, str_prop);", "state.insert(Proposition(pddl, str_prop));"))]),
    ("g_parse_noreserve", "good", [(F, "  state.reserve(str_state.size());\n", "")]),
    ("g_comment", "good", [(F, PLAN0, "  // nothing\n  (void)action_skeleton.size();\n" + PLAN0)]),
    ("g_goal_via", "good", [(F, "  const State state = ParseState(*this, str_state);\n\n  return goal_(state);", "  return IsGoalSatisfied(ParseState(*this, str_state));")]),
    ("g_skip_derived", "good", [(F, APPLY1, APPLY1.replace("  DerivedPredicate::Apply", "  if (!predicates.empty()) DerivedPredicate::Apply"))]),
]
EDITS = [(e[0], e[1], sorted({x[0] for x in e[2]}) if len({x[0] for x in e[2]}) > 1 else e[2][0][0], [x[1:] for x in e[2]]) for e in EDITS]
