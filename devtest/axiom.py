F = "src/axiom.cc"
D = "src/derived_predicate.cc"
B = "bad:C17"
C1 = '''  State test_state = state;
  for (const std::vector<Object>& args : arguments_) {
    // Test if context is valid
    if (!IsValid(state, args)) continue;

    // Test if implies is valid (state shouldn't change)
    try {
      if (Action::Apply(args, &test_state)) return false;
    } catch (const std::exception& e) {
      // std::cerr << e.what() << std::endl;
      return false;
    }
  }
  return true;
'''
C2 = '''        // Test if context is valid
        const std::optional<bool> is_valid = IsValid(*state, args);
        if (!is_valid || !*is_valid) return true;

        // Test if implies is valid (state shouldn't change)
        try {
          const int changed = Action::Apply(args, state);

          // Return false if proposition was negated.
          if (changed > 1) return false;

          *is_changed |= changed > 0;
        } catch (const std::exception& e) {
          // std::cerr << e.what() << std::endl;
          return false;
        }
        return true;
'''
C2ALL = '''  return std::all_of(
      arguments_.begin(), arguments_.end(),
      [state, is_changed, this](const std::vector<Object>& args) {
''' + C2 + "      });\n"
C3 = '''  bool is_changed = true;
  while (is_changed) {
    is_changed = false;
    if (!IsConsistent(&test_state, &is_changed)) return false;
  }
  return true;
'''
C4 = '''  bool is_changed = true;
  while (is_changed) {
    is_changed = false;
    for (const std::shared_ptr<Axiom>& axiom : axioms) {
      if (!axiom->IsConsistent(&test_state, &is_changed)) return false;
    }
  }
  return true;
'''
A1 = '''  bool changed = false;
  for (const std::vector<Object>& args : arguments_) {
    // Test if context is valid
    if (!IsValid(*state, args)) continue;

    // Apply implies
    changed |= Action::Apply(args, state);
  }
  return changed;
'''
A2 = '''  int changed = 0;
  for (const std::vector<Object>& args : arguments_) {
    // Test if context is valid
    const std::optional<bool> is_valid = IsValid(*state, args);
    if (!is_valid || !*is_valid) continue;

    // Apply implies
    changed = std::max(changed, Action::Apply(args, state));
  }
  return changed;
'''
D1 = '''    for (const std::vector<Object>& arguments : parameter_generator()) {
      is_iter_changed |= IsValid(*state, arguments)
                             ? state->emplace(name(), arguments)
                             : state->erase(Proposition(name(), arguments));
    }
    is_changed |= is_iter_changed;
  }
  return is_changed;
'''
D1P = '''  bool is_changed = false;
  bool is_iter_changed = true;
  while (is_iter_changed) {
    // Keep iterating until predicate converges
    is_iter_changed = false;
'''
D2 = '''    for (const DerivedPredicate& pred : predicates) {
      is_iter_changed |= pred.Apply(state);
    }
    is_changed |= is_iter_changed;
  }
  return is_changed;
'''
D2P = D1P.replace("predicate converges", "predicates converge")
EDITS = [
    ("c1_or", B, [(F, C1, C1.replace("if (!IsValid(state, args)) continue;", "if (!IsValid(state, args)) return true;"))]),
    ("c1_noctx", B, [(F, C1, C1.replace("    if (!IsValid(state, args)) continue;\n", ""))]),
    ("c1_neg", B, [(F, C1, C1.replace("if (Action::Apply(args, &test_state)) return", "if (!Action::Apply(args, &test_state)) return"))]),
    ("c1_nocatch", B, [(F, C1, C1.replace("    try {\n", "    {\n").replace(" catch (const std::exception& e) {\n      // std::cerr << e.what() << std::endl;\n      return false;\n    }", ""))]),
    ("c1_catchtrue", B, [(F, C1, C1.replace("std::endl;\n      return false;", "std::endl;\n      continue;"))]),
    ("c1_break", B, [(F, C1, C1.replace("      if (Action::Apply(args, &test_state)) return false;", "      if (Action::Apply(args, &test_state)) return false;\n      break;"))]),
    ("c1_true", B, [(F, C1, C1.replace("  }\n  return true;", "  }\n  return false;"))]),
    ("c1_apply_ignored", B, [(F, C1, C1.replace("if (Action::Apply(args, &test_state)) return false;", "Action::Apply(args, &test_state);"))]),
    ("c2_unknown_bad", B, [(F, C2, C2.replace("if (!is_valid || !*is_valid) return true;", "if (!is_valid || !*is_valid) return false;"))]),
    ("c2_unknown_apply", B, [(F, C2, C2.replace("if (!is_valid || !*is_valid) return true;", "if (is_valid && !*is_valid) return true;"))]),
    ("c2_gt0", B, [(F, C2, C2.replace("changed > 1", "changed > 0"))]),
    ("c2_never", B, [(F, C2, C2.replace("changed > 1", "changed > 2"))]),
    ("c2_flag_assign", B, [(F, C2, C2.replace("*is_changed |= changed", "*is_changed = changed"))]),
    ("c2_noflag", B, [(F, C2, C2.replace("          *is_changed |= changed > 0;\n", ""))]),
    ("c2_catchtrue", B, [(F, C2, C2.replace("std::endl;\n          return false;", "std::endl;\n          return true;"))]),
    ("c2_any", B, [(F, C2ALL, C2ALL.replace("all_of", "any_of"))]),
    ("c2_copy", B, [(F, C2ALL, C2ALL.replace("  return std::all_of", "  PartialState copy = *state;\n  return std::all_of").replace("[state,", "[state, &copy,").replace("Action::Apply(args, state)", "Action::Apply(args, &copy)"))]),
    ("c3_once", B, [(F, C3, "  bool is_changed = false;\n  return IsConsistent(&test_state, &is_changed);\n")]),
    ("c3_skip", B, [(F, C3, C3.replace("bool is_changed = true", "bool is_changed = false"))]),
    ("c3_noreset", B, [(F, C3, C3.replace("    is_changed = false;\n", ""))]),
    ("c3_true", B, [(F, C3, C3.replace("return false", "break"))]),
    ("c3_copy", B, [(F, C3, C3.replace("    is_changed = false;\n", "    is_changed = false;\n    PartialState test_state = state;\n"))]),
    ("c4_once", B, [(F, C4, C4.replace("  while (is_changed) {\n    is_changed = false;", "  {\n    is_changed = false;"))]),
    ("c4_reset_inner", B, [(F, C4, C4.replace("axiom : axioms) {\n", "axiom : axioms) {\n      is_changed = false;\n"))]),
    ("g_c4_first", "good", [(F, C4, C4.replace("&is_changed)) return false;", "&is_changed)) return false;\n      if (is_changed) break;")), ]),
    ("c4_skipfirst", B, [(F, C4, C4.replace("for (const std::shared_ptr<Axiom>& axiom : axioms) {\n      if (!axiom->", "for (size_t i = 1; i < axioms.size(); i++) {\n      if (!axioms[i]->"))]),
    ("c4_continue", B, [(F, C4, C4.replace("return false", "continue"))]),
    ("a1_init", B, [(F, A1, "  const State before = *state;\n" + A1.replace("IsValid(*state", "IsValid(before"))]),
    ("a1_all", B, [(F, A1, A1.replace("    if (!IsValid(*state, args)) continue;\n", ""))]),
    ("a1_neg", B, [(F, A1, A1.replace("if (!IsValid", "if (IsValid"))]),
    ("a1_assign", B, [(F, A1, A1.replace("changed |=", "changed ="))]),
    ("a1_short", B, [(F, A1, A1.replace("changed |= Action::Apply(args, state);", "changed = changed || Action::Apply(args, state);"))]),
    ("a1_first", B, [(F, A1, A1.replace("    changed |= Action::Apply(args, state);", "    changed |= Action::Apply(args, state);\n    if (changed) break;"))]),
    ("a1_break", B, [(F, A1, A1.replace("args)) continue;", "args)) break;"))]),
    ("a1_true", B, [(F, A1, A1.replace("return changed", "return true"))]),
    ("a2_unknown", B, [(F, A2, A2.replace("if (!is_valid || !*is_valid) continue;", "if (is_valid && !*is_valid) continue;"))]),
    ("a2_last", B, [(F, A2, A2.replace("std::max(changed, Action::Apply(args, state))", "Action::Apply(args, state)"))]),
    ("a2_min", B, [(F, A2, A2.replace("std::max", "std::min"))]),
    ("a2_bool", B, [(F, A2, A2.replace("int changed = 0", "bool changed = false").replace("changed = std::max(changed, Action::Apply(args, state))", "changed |= Action::Apply(args, state) > 0"))]),
    ("a_copy", B, [(F, "State Axiom::Apply(const State& state) const {\n  State state_next = state;\n  Apply(&state_next);", "State Axiom::Apply(const State& state) const {\n  State state_next = state;")]),
    ("d1_once", B, [(D, D1P + D1, D1P.replace("while (is_iter_changed) {", "{") + D1)]),
    ("d1_noerase", B, [(D, D1, D1.replace("state->erase(Proposition(name(), arguments))", "false"))]),
    ("d1_swapped", B, [(D, D1, D1.replace("IsValid(", "!IsValid("))]),
    ("d1_assign", B, [(D, D1, D1.replace("is_iter_changed |=", "is_iter_changed ="))]),
    ("d1_last", B, [(D, D1, D1.replace("is_changed |= is_iter_changed;", "is_changed = is_iter_changed;"))]),
    ("d1_before", B, [(D, D1, D1.replace("    for (const", "    const State before = *state;\n    for (const").replace("IsValid(*state", "IsValid(before")), ]),
    ("d1_flip", B, [(D, D1, D1.replace("return is_changed;", "return !is_changed;"))]),
    ("d1_until_first", B, [(D, D1, D1.replace("arguments));\n    }\n", "arguments));\n      if (is_iter_changed) break;\n    }\n    if (is_iter_changed) return true;\n"))]),
    ("d2_once", B, [(D, D2P + D2, D2P.replace("while (is_iter_changed) {", "{") + D2)]),
    ("g_d2_short", "good", [(D, D2, D2.replace("is_iter_changed |= pred.Apply(state)", "is_iter_changed = is_iter_changed || pred.Apply(state)")), ]),
    ("d2_assign", B, [(D, D2, D2.replace("is_iter_changed |=", "is_iter_changed ="))]),
    ("d2_ret", B, [(D, D2, D2.replace("is_changed |= is_iter_changed;", "is_changed = is_iter_changed;"))]),
    ("d2_skip", B, [(D, D2P, D2P.replace("bool is_iter_changed = true", "bool is_iter_changed = false"))]),
    ("d3_none", B, [(D, "  Apply(predicates, &next_state);\n", "  (void)predicates;\n")]),
    ("g_c1_ref", "good", [(F, C1, C1.replace("IsValid(state, args)", "IsValid(test_state, args)"))]),
    ("g_c1_pre", "good", [(F, C1, C1.replace("IsValid(state, args)", "preconditions()(state, args)"))]),
    ("g_c1_block", "good", [(F, C1, C1.replace("if (!IsValid(state, args)) continue;", "const bool is_valid = IsValid(state, args);\n    if (!is_valid) continue;").replace("if (Action::Apply(args, &test_state)) return false;", "const bool changed = Action::Apply(args, &test_state);\n      if (changed) return false;"))]),
    ("g_c1_all", "good", [(F, C1, "  State test_state = state;\n  return std::all_of(arguments_.begin(), arguments_.end(), [&](const std::vector<Object>& args) {\n    if (!IsValid(state, args)) return true;\n    try {\n      return !Action::Apply(args, &test_state);\n    } catch (const std::exception& e) {\n      return false;\n    }\n  });\n")]),
    ("g_c1_flag", "good", [(F, C1, C1.replace("  for (const", "  bool ok = true;\n  for (const").replace("return false;\n    } catch", "ok = false;\n    } catch").replace("std::endl;\n      return false;", "std::endl;\n      ok = false;").replace("  }\n  return true", "    if (!ok) break;\n  }\n  return ok"))]),
    ("g_c2_loop", "good", [(F, C2ALL, "  for (const std::vector<Object>& args : arguments_) {\n" + C2.replace("return true;\n\n", "continue;\n\n").replace("        return true;\n", "") + "  }\n  return true;\n")]),
    ("g_c2_val", "good", [(F, C2, C2.replace("if (!is_valid || !*is_valid) return true;", "if (!is_valid.value_or(false)) return true;"))]),
    ("g_c2_if", "good", [(F, C2, C2.replace("*is_changed |= changed > 0;", "if (changed == 1) *is_changed = true;"))]),
    ("g_c2_in", "good", [(F, C2, C2.replace("if (!is_valid || !*is_valid) return true;", "if (!(is_valid && *is_valid)) return true;"))]),
    ("g_c3_do", "good", [(F, C3, "  bool is_changed;\n  do {\n    is_changed = false;\n    if (!IsConsistent(&test_state, &is_changed)) return false;\n  } while (is_changed);\n  return true;\n")]),
    ("g_c3_forever", "good", [(F, C3, "  while (true) {\n    bool is_changed = false;\n    if (!IsConsistent(&test_state, &is_changed)) return false;\n    if (!is_changed) return true;\n  }\n")]),
    ("g_c4_index", "good", [(F, C4, C4.replace("for (const std::shared_ptr<Axiom>& axiom : axioms) {\n      if (!axiom->", "for (size_t i = 0; i < axioms.size(); i++) {\n      if (!axioms[i]->"))]),
    ("g_c4_break", "good", [(F, C4, C4.replace("  while (is_changed) {\n    is_changed = false;", "  while (true) {\n    is_changed = false;").replace("    }\n  }\n  return", "    }\n    if (!is_changed) break;\n  }\n  return"))]),
    ("g_c4_two", "good", [(F, C4, C4.replace("      if (!axiom->IsConsistent(&test_state, &is_changed)) return false;", "      bool c = false;\n      const bool ok = axiom->IsConsistent(&test_state, &c);\n      if (!ok) return false;\n      is_changed = is_changed || c;"))]),
    ("g_a1_if", "good", [(F, A1, A1.replace("    if (!IsValid(*state, args)) continue;\n", "").replace("    changed |= Action::Apply(args, state);", "    if (IsValid(*state, args)) {\n      if (Action::Apply(args, state)) changed = true;\n    }"))]),
    ("g_a1_gen", "good", [(F, A1, A1.replace(": arguments_", ": parameter_generator()"))]),
    ("g_a1_count", "good", [(F, A1, A1.replace("bool changed = false", "int changed = 0").replace("changed |= Action::Apply(args, state);", "if (Action::Apply(args, state)) changed = 1;").replace("return changed", "return changed > 0"))]),
    ("g_a2_if", "good", [(F, A2, A2.replace("changed = std::max(changed, Action::Apply(args, state));", "const int c = Action::Apply(args, state);\n    if (c > changed) changed = c;"))]),
    ("g_d1_if", "good", [(D, D1, D1.replace('''      is_iter_changed |= IsValid(*state, arguments)
                             ? state->emplace(name(), arguments)
                             : state->erase(Proposition(name(), arguments));
''', '''      if (IsValid(*state, arguments)) {
        if (state->insert(Proposition(name(), arguments))) is_iter_changed = true;
      } else if (state->erase(Proposition(name(), arguments))) {
        is_iter_changed = true;
      }
'''))]),
    ("g_d1_prop", "good", [(D, D1, D1.replace('''      is_iter_changed |= IsValid(*state, arguments)
                             ? state->emplace(name(), arguments)
                             : state->erase(Proposition(name(), arguments));
''', '''      const Proposition prop(name(), arguments);
      const bool holds = IsValid(*state, arguments);
      if (holds == state->contains(prop)) continue;
      if (holds) state->insert(prop); else state->erase(prop);
      is_iter_changed = true;
'''))]),
    ("g_d1_do", "good", [(D, D1P + D1, D1P.replace("bool is_iter_changed = true;\n  while (is_iter_changed) {", "bool is_iter_changed;\n  do {") + D1.replace("  }\n  return", "  } while (is_iter_changed);\n  return"))]),
    ("g_d1_ret", "good", [(D, D1, D1.replace("is_changed |= is_iter_changed;", "if (!is_iter_changed) break;\n    is_changed = true;"))]),
    ("g_d2_if", "good", [(D, D2, D2.replace("is_iter_changed |= pred.Apply(state);", "if (pred.Apply(state)) is_iter_changed = true;"))]),
    ("g_d2_int", "good", [(D, D2, D2.replace("is_iter_changed |= pred.Apply(state);", "const bool c = pred.Apply(state);\n      is_iter_changed = c || is_iter_changed;"))]),
    ("g_comment", "good", [(D, D2, "    // x\n    (void)predicates.size();\n" + D2)]),
]
# binding, construction
FP = "size_t FindParameter"
EDITS += [
    ("u_noconst", B, [(F, "if (axiom_prop_param != action_prop_param) return {};", "")]),
    ("u_constneg", B, [(F, "if (axiom_prop_param != action_prop_param) return {};", "if (axiom_prop_param == action_prop_param) return {};")]),
    ("u_nofuture", B, [(F, "      future_action_args.emplace_back(j, axiom_prop_param);\n", "")]),
    ("u_future_i", B, [(F, "future_action_args.emplace_back(j, axiom_prop_param);", "future_action_args.emplace_back(j, action_prop_param);")]),
    ("u_nofixed", B, [(F, "      fixed_axiom_args.emplace_back(i, action_prop_param);\n", "")]),
    ("u_noinst", B, [(F, "      (*axiom_args)[i] = action_prop_param;\n", "")]),
    ("u_inst_wrong", B, [(F, "      (*axiom_args)[i] = action_prop_param;\n", "      (*axiom_args)[i] = axiom_prop_param;\n")]),
    ("u_nopairs", B, [(F, "      idx_params.emplace_back(i, j);\n", "")]),
    ("u_pairs_swap", B, [(F, "      idx_params.emplace_back(i, j);\n", "      idx_params.emplace_back(j, i);\n")]),
    ("u_novar", B, [(F, "  if (dynamic_cast<const VAL::var_symbol*>(arg.symbol()) != nullptr) {\n    for (size_t i = params.size(); i > 0; i--) {\n      if (params[i - 1] == arg) return i - 1;\n    }\n  }\n",
                     "  for (size_t i = params.size(); i > 0; i--) {\n    if (params[i - 1] == arg) return i - 1;\n  }\n")]),
    ("u_outer", B, [(F, "    for (size_t i = params.size(); i > 0; i--) {\n      if (params[i - 1] == arg) return i - 1;\n", "    for (size_t i = 0; i < params.size(); i++) {\n      if (params[i] == arg) return i;\n")]),
    ("u_c_future", B, [(F, "if (action_args[idx_arg] != expected_arg) return nullptr;", "")]),
    ("u_c_future_neg", B, [(F, "if (action_args[idx_arg] != expected_arg) return nullptr;", "if (action_args[idx_arg] == expected_arg) return nullptr;")]),
    ("u_c_assign", B, [(F, "axiom_args[idx_axiom] = action_args[idx_action];", "axiom_args[idx_action] = action_args[idx_axiom];")]),
    ("u_c_noassign", B, [(F, "axiom_args[idx_axiom] = action_args[idx_action];", "")]),
    ("u_c_again", B, [(F, "      if (axiom_args[idx_axiom_action.first] != action_arg) return nullptr;\n", "")]),
    ("u_c_fixed", B, [(F, "      if (axiom_args[idx_argument.first] != idx_argument.second) return nullptr;\n", "")]),
    ("u_c_types", B, [(F, "i < axiom_params.size(); i++) {\n      if", "i + 1 < axiom_params.size(); i++) {\n      if")]),
    ("u_c_types_swap", B, [(F, "!axiom_args[i].type().IsSubtype(axiom_params[i].type())", "!axiom_params[i].type().IsSubtype(axiom_args[i].type())")]),
    ("u_c_types_gone", B, [(F, "      if (!axiom_args[i].type().IsSubtype(axiom_params[i].type())) {\n        return nullptr;\n      }\n", "")]),
    ("u_break", B, [(F, "      idx_params.emplace_back(i, j);\n", "      idx_params.emplace_back(i, j);\n      break;\n")]),
    ("u_start", B, [(F, "std::make_shared<std::vector<Object>>(axiom_params)", "std::make_shared<std::vector<Object>>(axiom_prop_params)")]),
    ("u_from1", B, [(F, "size_t idx_prop = 0; idx_prop", "size_t idx_prop = 1; idx_prop")]),
    ("k_sign", B, [(F, "      is_pos = false;\n", "")]),
    ("k_sign2", B, [(F, "bool is_pos = true;", "bool is_pos = false;")]),
    ("k_nothrow", B, [(F, "    const auto* neg_goal = dynamic_cast<const VAL::neg_goal*>(goal);\n    if (neg_goal != nullptr) {", "    const auto* neg_goal = dynamic_cast<const VAL::neg_goal*>(goal);\n    if (neg_goal == nullptr) {")]),
    ("k_skip", B, [(F, "if (!dnf.has_value()) continue;", "if (dnf.has_value()) continue;")]),
    ("k_break", B, [(F, "if (!dnf.has_value()) continue;", "if (!dnf.has_value()) break;")]),
    ("k_none", B, [(F, "    arguments.push_back(args);\n", "")]),
    ("g_u_braces", "good", [(F, "if (axiom_prop_param != action_prop_param) return {};", "if (axiom_prop_param == action_prop_param) continue;\n      return {};")]),
    ("g_u_push", "good", [(F, "idx_params.emplace_back(i, j);", "idx_params.push_back({i, j});")]),
    ("g_u_loop", "good", [(F, "    for (const std::pair<size_t, Object>& idx_argument : future_action_args) {\n      const size_t idx_arg = idx_argument.first;\n      const Object& expected_arg = idx_argument.second;\n",
                           "    for (size_t k = 0; k < future_action_args.size(); k++) {\n      const size_t idx_arg = future_action_args[k].first;\n      const Object& expected_arg = future_action_args[k].second;\n")]),
    ("g_u_allof", "good", [(F, "    for (const std::pair<size_t, Object>& idx_argument : fixed_axiom_args) {\n      if (axiom_args[idx_argument.first] != idx_argument.second) return nullptr;\n    }\n",
                            "    const bool fits = std::all_of(fixed_axiom_args.begin(), fixed_axiom_args.end(), [&axiom_args](const std::pair<size_t, Object>& x) { return axiom_args[x.first] == x.second; });\n    if (!fits) return nullptr;\n")]),
    ("g_u_early", "good", [(F, "    if (is_axiom_prop_arg && is_action_prop_arg) {\n", "    if (is_axiom_prop_arg && is_action_prop_arg && axiom_prop_param == action_prop_param) continue;\n    if (is_axiom_prop_arg && is_action_prop_arg) {\n")]),
    ("g_u_order", "good", [(F, "      (*axiom_args)[i] = action_prop_param;\n      fixed_axiom_args.emplace_back(i, action_prop_param);\n", "      fixed_axiom_args.emplace_back(i, action_prop_param);\n      axiom_args->at(i) = action_prop_param;\n")]),
    ("g_u_find", "good", [(F, "  if (dynamic_cast<const VAL::var_symbol*>(arg.symbol()) != nullptr) {\n", "  const auto* var = dynamic_cast<const VAL::var_symbol*>(arg.symbol());\n  if (var == nullptr) return params.size();\n  {\n")]),
    ("g_u_last", "good", [(F, "    for (size_t i = params.size(); i > 0; i--) {\n      if (params[i - 1] == arg) return i - 1;\n    }\n", "    size_t idx = params.size();\n    for (size_t i = 0; i < params.size(); i++) {\n      if (params[i] == arg) idx = i;\n    }\n    return idx;\n")]),
    ("g_k_if", "good", [(F, "    if (!dnf.has_value()) continue;\n    arguments.push_back(args);\n", "    if (dnf) arguments.push_back(args);\n")]),
    ("g_k_copy", "good", [(F, "  return SignedProposition(name_predicate, std::move(args), is_pos);", "  SignedProposition context(name_predicate, std::move(args), is_pos);\n  return context;")]),
]
EDITS = [(e[0], e[1], sorted({x[0] for x in e[2]}) if len({x[0] for x in e[2]}) > 1 else e[2][0][0], [x[1:] for x in e[2]]) for e in EDITS]
