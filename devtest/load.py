P = "src/pddl.cc"
H = "include/symbolic/pddl.h"
GO = '''  // Extract problem objects.
  const std::vector<Object> objects_2 =
      Object::CreateList(domain.types, problem->objects);
  objects.insert(objects.end(), objects_2.begin(), objects_2.end());

  return objects;
}'''
OM = '''    std::vector<std::string> types = object.type().ListTypes();
    for (const std::string& type : types) {
      object_map[type].push_back(object);
    }
'''
GA = '''    const auto* a = dynamic_cast<const VAL::action*>(op);
    if (a == nullptr) continue;
    actions.emplace_back(pddl, op);
'''
GX = '''    const auto* a = dynamic_cast<const VAL::axiom*>(op);
    if (a == nullptr) continue;
    axioms.push_back(std::make_shared<Axiom>(pddl, op));
'''
GP = '''  for (const VAL::pred_decl* pred : *domain.predicates) {
    predicates.emplace_back(pddl, pred);
  }
'''
GD = '''  for (const VAL::derivation_rule* drv : *domain.drvs) {
    predicates.emplace_back(pddl, drv);
  }
'''
AM = '''    axiom_map[axiom->context().sign() + axiom->context().name()].emplace_back(
        axiom);
'''
UP = '''  for (std::shared_ptr<Axiom>& axiom : *axioms) {
    *axiom = Axiom(pddl, axiom->symbol());
  }
'''
IS = '''    std::vector<Object> arguments;
    arguments.reserve(effect->prop->args->size());
    for (const VAL::parameter_symbol* arg : *effect->prop->args) {
      arguments.emplace_back(domain.types, arg);
    }
    initial_state.emplace(effect->prop->head->getName(), std::move(arguments));
'''
C3A = '''      goal_(*this, analysis_->the_problem->the_goal) {
  // Create axiom map after initialization list to avoid conflicts with
  // GetAxioms(), which accesses the axiom map during the construction of DNFs.
  axiom_map_ = CreateAxiomContextMap(axioms());

  // Recreate axioms with updated axiom map. Axioms need to be pointers so
  // that they can be updated and remain usable from Action::Apply() lambdas
  // while handling axiom loops.
  UpdateAxioms(*this, &axioms_);

  // Create actions after all axioms have settled.
  actions_ = GetActions(*this, *analysis_->the_domain);

  if (apply_axioms) {
    initial_state_ = ConsistentState(initial_state_);
  }
  initial_state_ = DerivedState(initial_state_);
}'''
C1A = '''      state_index_(predicates_) {
  // Create axiom map after initialization list to avoid conflicts with
  // GetAxioms(), which accesses the axiom map during the construction of DNFs.
  axiom_map_ = CreateAxiomContextMap(axioms());

  // Recreate axioms with updated axiom map. Axioms need to be pointers so
  // that they can be updated and remain usable from Action::Apply() lambdas
  // while handling axiom loops.
  UpdateAxioms(*this, &axioms_);
'''
LAST = '''  const size_t idx_last_char = problem.find_last_not_of(" \\t\\n\\r");'''
DISP = '''  if (idx_last_char != std::string::npos && problem[idx_last_char] == ')') {'''
PF = '''  yyparse();
  if (analysis->the_problem == nullptr) {
    analysis->error_list.report();
    throw std::runtime_error("ParsePddl(): Unable to parse problem from: " +
                             problem);
  }
'''
B = "bad:C16"
EDITS = [
 ("go-overwrite", B, [(P, GO, GO.replace("objects.insert(objects.end(), objects_2.begin(), objects_2.end());", "objects = objects_2;"))]),
 ("go-front", B, [(P, GO, GO.replace("objects.insert(objects.end(), objects_2.begin(), objects_2.end());", "objects.insert(objects.begin(), objects_2.begin(), objects_2.end());"))]),
 ("go-nofirst", B, [(P, GO, GO.replace("objects.insert(objects.end(), objects_2.begin(), objects_2.end());", "if (objects.empty()) objects.insert(objects.end(), objects_2.begin(), objects_2.end());"))]),
 ("go-constants-again", B, [(P, GO, GO.replace("problem->objects", "domain.constants"))]),
 ("om-first-type", B, [(P, OM, '''    object_map[object.type().ListTypes().front()].push_back(object);
''')]),
 ("om-noroot", B, [(P, OM, OM.replace("object_map[type]", 'if (type != "object" || types.size() == 1) object_map[type]'))]),
 ("om-front", B, [(P, OM, OM.replace("object_map[type].push_back(object);", "object_map[type].insert(object_map[type].begin(), object);"))]),
 ("om-break", B, [(P, OM, OM.replace("object_map[type].push_back(object);", "object_map[type].push_back(object);\n      if (object_map[type].size() > 2) break;"))]),
 ("om-once", B, [(P, OM, OM.replace("object_map[type].push_back(object);", "object_map[type] = {object};"))]),
 ("om-constants", B, [(P, "      object_map_(CreateObjectTypeMap(objects_)),\n      axioms_(GetAxioms(*this, *analysis_->the_domain)),\n      predicates_(GetPredicates(*this, *analysis_->the_domain)),\n      derived_predicates_(GetDerivedPredicates(*this, *analysis_->the_domain)),\n      state_index_(predicates_),\n", "      object_map_(CreateObjectTypeMap(constants_)),\n      axioms_(GetAxioms(*this, *analysis_->the_domain)),\n      predicates_(GetPredicates(*this, *analysis_->the_domain)),\n      derived_predicates_(GetDerivedPredicates(*this, *analysis_->the_domain)),\n      state_index_(predicates_),\n")]),
 ("ga-axioms-too", B, [(P, GA, '''    actions.emplace_back(pddl, op);
''')]),
 ("ga-not-axiom", B, [(P, GA, GA.replace("const VAL::action*", "const VAL::axiom*").replace("a == nullptr", "a != nullptr"))]),
 ("ga-break", B, [(P, GA, GA.replace("continue", "break"))]),
 ("ga-front", B, [(P, GA, GA.replace("actions.emplace_back(pddl, op);", "actions.insert(actions.begin(), Action(pddl, op));"))]),
 ("gx-action", B, [(P, GX, GX.replace("const VAL::axiom*", "const VAL::action*"))]),
 ("gx-break", B, [(P, GX, GX.replace("continue", "break"))]),
 ("gx-first", B, [(P, GX, GX.replace("axioms.push_back", "if (axioms.size() < 2) axioms.push_back"))]),
 ("gx-twice", B, [(P, GX, GX + "    if (axioms.size() == 1) axioms.push_back(axioms.back());\n")]),
 ("gp-skip", B, [(P, GP, GP.replace("predicates.emplace_back", "if (predicates.size() < 1) predicates.emplace_back"))]),
 ("gp-front", B, [(P, GP, GP.replace("predicates.emplace_back(pddl, pred);", "predicates.insert(predicates.begin(), Predicate(pddl, pred));"))]),
 ("gd-skip", B, [(P, GD, GD.replace("    predicates.emplace_back", "    if (drv == domain.drvs->front() && domain.drvs->size() > 1) continue;\n    predicates.emplace_back"))]),
 ("am-nosign", B, [(P, AM, AM.replace("axiom->context().sign() + axiom->context().name()", "axiom->context().name()"))]),
 ("am-replace", B, [(P, AM, '''    axiom_map[axiom->context().sign() + axiom->context().name()] = {axiom};
''')]),
 ("am-suffix", B, [(P, AM, AM.replace("axiom->context().sign() + axiom->context().name()", "axiom->context().name() + axiom->context().sign()"))]),
 ("am-symbol", B, [(P, AM, AM.replace("axiom->context().sign() + axiom->context().name()", "axiom->symbol()->name->getName()"))]),
 ("up-none", B, [(P, UP, UP.replace("*axiom = Axiom(pddl, axiom->symbol());", "(void)pddl;"))]),
 ("up-new", B, [(P, UP, UP.replace("*axiom = Axiom(pddl, axiom->symbol());", "axiom = std::make_shared<Axiom>(pddl, axiom->symbol());"))]),
 ("up-first", B, [(P, UP, UP.replace("*axiom = Axiom(pddl, axiom->symbol());", "*axiom = Axiom(pddl, axioms->front()->symbol());"))]),
 ("is-head", B, [(P, IS, IS.replace("arguments.emplace_back(domain.types, arg);", "arguments.emplace_back(domain.types, effect->prop->args->front());"))]),
 ("is-front", B, [(P, IS, IS.replace("arguments.emplace_back(domain.types, arg);", "arguments.insert(arguments.begin(), Object(domain.types, arg));"))]),
 ("is-skip-empty", B, [(P, IS, "    if (effect->prop->args->empty()) continue;\n" + IS)]),
 ("is-one", B, [(P, IS, IS + "    if (initial_state.size() > 1) break;\n")]),
 ("is-notypes", B, [(P, IS, IS.replace("domain.types, arg", "static_cast<const VAL::pddl_type_list*>(nullptr), arg"))]),
 ("ctor-noapply", B, [(P, C3A, C3A.replace('''  if (apply_axioms) {
    initial_state_ = ConsistentState(initial_state_);
  }
''', "  (void)apply_axioms;\n"))]),
 ("ctor-inverted", B, [(P, C3A, C3A.replace("if (apply_axioms)", "if (!apply_axioms)"))]),
 ("ctor-always", B, [(P, C3A, C3A.replace("  if (apply_axioms) {\n    initial_state_ = ConsistentState(initial_state_);\n  }\n", "  (void)apply_axioms;\n  initial_state_ = ConsistentState(initial_state_);\n"))]),
 ("ctor-noderived", B, [(P, C3A, C3A.replace("  initial_state_ = DerivedState(initial_state_);\n", ""))]),
 ("ctor-derived-first", B, [(P, C3A, C3A.replace('''  if (apply_axioms) {
    initial_state_ = ConsistentState(initial_state_);
  }
  initial_state_ = DerivedState(initial_state_);
''', '''  initial_state_ = DerivedState(initial_state_);
  if (apply_axioms) {
    initial_state_ = ConsistentState(initial_state_);
  }
'''))]),
 ("ctor-derived-else", B, [(P, C3A, C3A.replace("  initial_state_ = DerivedState(initial_state_);\n", "  if (!apply_axioms) initial_state_ = DerivedState(initial_state_);\n"))]),
 ("ctor-actions-early", B, [(P, C3A, C3A.replace("  actions_ = GetActions(*this, *analysis_->the_domain);\n", "").replace("  axiom_map_ = Create", "  actions_ = GetActions(*this, *analysis_->the_domain);\n  axiom_map_ = Create"))]),
 ("ctor-map-late", B, [(P, C3A, C3A.replace("  axiom_map_ = CreateAxiomContextMap(axioms());\n", "").replace("  // Create actions after", "  axiom_map_ = CreateAxiomContextMap(axioms());\n  // Create actions after"))]),
 ("ctor-no-map", B, [(P, C3A, C3A.replace("  axiom_map_ = CreateAxiomContextMap(axioms());\n", ""))]),
 ("ctor-no-update", B, [(P, C3A, C3A.replace("  UpdateAxioms(*this, &axioms_);\n", ""))]),
 ("ctor1-no-update", B, [(P, C1A, C1A.replace("  UpdateAxioms(*this, &axioms_);\n", ""))]),
 ("ctor1-no-map", B, [(P, C1A, C1A.replace("  axiom_map_ = CreateAxiomContextMap(axioms());\n", ""))]),
 ("ctor1-no-constants", B, [(P, '''      constants_(GetObjects(*analysis_->the_domain)),
      objects_(GetObjects(*analysis_->the_domain)),
''', '''      objects_(GetObjects(*analysis_->the_domain)),
''')]),
 ("ctor-constants-all", B, [(P, "      constants_(GetObjects(*analysis_->the_domain)),\n      objects_(GetObjects(*analysis_->the_domain, analysis_->the_problem)),", "      constants_(GetObjects(*analysis_->the_domain, analysis_->the_problem)),\n      objects_(constants_),")]),
 ("members-order", B, [(H, '''  std::vector<Object> objects_;
  ObjectTypeMap object_map_;

  AxiomContextMap axiom_map_;
  std::vector<Action> actions_;
  std::vector<std::shared_ptr<Axiom>> axioms_;
''', '''  std::vector<Object> objects_;
  std::vector<std::shared_ptr<Axiom>> axioms_;
  ObjectTypeMap object_map_;

  AxiomContextMap axiom_map_;
  std::vector<Action> actions_;
''')]),
 ("members-goal", B, [(H, '''  State initial_state_;
  Formula goal_;
};''', '''  State initial_state_;
};'''), (H, "  std::vector<Object> constants_;\n  std::vector<Object> objects_;", "  Formula goal_;\n\n  std::vector<Object> constants_;\n  std::vector<Object> objects_;")]),
 ("index-early", B, [(H, "  StateIndex state_index_;\n\n", ""), (H, "  std::vector<Predicate> predicates_;\n", "  StateIndex state_index_;\n  std::vector<Predicate> predicates_;\n")]),
 ("parse-domain-null", B, [(P, "  if (analysis->the_domain == nullptr) {", "  if (analysis->the_domain == nullptr && problem.empty()) {")]),
 ("parse-problem-null", B, [(P, PF, PF.replace("analysis->the_problem == nullptr", "analysis->the_domain == nullptr"))]),
 ("parse-nothrow", B, [(P, PF, "  yyparse();\n  if (analysis->the_problem == nullptr) analysis->error_list.report();\n")]),
 ("dispatch-back", B, [(P, DISP, "  if (idx_last_char != std::string::npos && problem.back() == ')') {")]),
 ("dispatch-front", B, [(P, DISP, "  if (idx_last_char != std::string::npos && problem.front() == '(') {")]),
 ("dispatch-newline", B, [(P, LAST, LAST.replace('" \\t\\n\\r"', '" \\t"'))]),
 ("dispatch-find", B, [(P, DISP, "  if (idx_last_char != std::string::npos && problem.find(')') != std::string::npos) {")]),
 # good
 ("g-go-loop", "good", [(P, GO, GO.replace("objects.insert(objects.end(), objects_2.begin(), objects_2.end());", "for (const Object& o : objects_2) objects.push_back(o);"))]),
 ("g-om-direct", "good", [(P, OM, '''    for (const std::string& type : object.type().ListTypes()) {
      std::vector<Object>& objs = object_map[type];
      objs.push_back(object);
    }
''')]),
 ("g-om-emplace", "good", [(P, OM, OM.replace("push_back", "emplace_back"))]),
 ("g-ga-if", "good", [(P, GA, '''    if (dynamic_cast<const VAL::action*>(op) != nullptr) {
      actions.emplace_back(pddl, op);
    }
''')]),
 ("g-ga-push", "good", [(P, GA, GA.replace("actions.emplace_back(pddl, op);", "actions.push_back(Action(pddl, op));"))]),
 ("g-ga-reserve", "good", [(P, "  std::vector<Action> actions;\n  for (const VAL::operator_* op", "  std::vector<Action> actions;\n  actions.reserve(domain.ops->size());\n  for (const VAL::operator_* op")]),
 ("g-gx-emplace", "good", [(P, GX, GX.replace("push_back", "emplace_back"))]),
 ("g-gx-local", "good", [(P, GX, GX.replace("axioms.push_back(std::make_shared<Axiom>(pddl, op));", "auto axiom = std::make_shared<Axiom>(pddl, op);\n    axioms.push_back(axiom);"))]),
 ("g-gx-new", "good", [(P, GX, GX.replace("std::make_shared<Axiom>(pddl, op)", "std::shared_ptr<Axiom>(new Axiom(pddl, op))"))]),
 ("g-am-local", "good", [(P, AM, '''    const std::string key =
        axiom->context().sign() + axiom->context().name();
    axiom_map[key].push_back(axiom);
''')]),
 ("g-am-find", "good", [(P, AM, '''    const std::string key =
        axiom->context().sign() + axiom->context().name();
    auto& bucket = axiom_map[key];
    bucket.emplace_back(axiom);
''')]),
 ("g-up-index", "good", [(P, UP, '''  for (size_t i = 0; i < axioms->size(); i++) {
    *(*axioms)[i] = Axiom(pddl, (*axioms)[i]->symbol());
  }
''')]),
 ("g-up-local", "good", [(P, UP, UP.replace("*axiom = Axiom(pddl, axiom->symbol());", "Axiom updated(pddl, axiom->symbol());\n    *axiom = std::move(updated);"))]),
 ("g-is-helper", "good", [(P, IS, '''    initial_state.emplace(effect->prop->head->getName(),
                          EffectArguments(domain, *effect));
'''), (P, "State GetInitialState(", '''std::vector<Object> EffectArguments(const VAL::domain& domain,
                                    const VAL::simple_effect& effect) {
  std::vector<Object> arguments;
  for (const VAL::parameter_symbol* arg : *effect.prop->args) {
    arguments.emplace_back(domain.types, arg);
  }
  return arguments;
}

State GetInitialState(''')]),
 ("g-is-insert", "good", [(P, IS, IS.replace("initial_state.emplace(effect->prop->head->getName(), std::move(arguments));", "initial_state.insert(Proposition(effect->prop->head->getName(), std::move(arguments)));"))]),
 ("g-ctor-state-local", "good", [(P, C3A, C3A.replace('''  if (apply_axioms) {
    initial_state_ = ConsistentState(initial_state_);
  }
  initial_state_ = DerivedState(initial_state_);
''', '''  const State base =
      apply_axioms ? ConsistentState(initial_state_) : initial_state_;
  initial_state_ = DerivedState(base);
'''))]),
 ("g-ctor-goal-body", "good", [(P, C3A, C3A.replace("  actions_ = Get", "  goal_ = Formula(*this, analysis_->the_problem->the_goal);\n  actions_ = Get"))]),
 ("g-ctor-settle", "good", [(P, C3A, C3A.replace('''  axiom_map_ = CreateAxiomContextMap(axioms());
''', "  SettleAxioms();\n").replace("  UpdateAxioms(*this, &axioms_);\n", "")), (H, " private:\n  std::shared_ptr<VAL::analysis> analysis_;", " private:\n  void SettleAxioms();\n  std::shared_ptr<VAL::analysis> analysis_;"), (P, "bool Pddl::IsValid(bool verbose", '''void Pddl::SettleAxioms() {
  axiom_map_ = CreateAxiomContextMap(axioms_);
  UpdateAxioms(*this, &axioms_);
}

bool Pddl::IsValid(bool verbose''')]),
 ("g-members", "good", [(H, '''  std::vector<Predicate> predicates_;
  std::vector<DerivedPredicate> derived_predicates_;
''', '''  std::vector<DerivedPredicate> derived_predicates_;
  std::vector<Predicate> predicates_;
''')]),
 ("g-dispatch-helper", "good", [(P, DISP, "  if (IsPddlText(problem)) {"), (P, "std::unique_ptr<VAL::analysis> ParsePddl(", '''bool IsPddlText(const std::string& text) {
  const size_t idx = text.find_last_not_of(" \\t\\n\\r");
  return idx != std::string::npos && text[idx] == ')';
}

std::unique_ptr<VAL::analysis> ParsePddl('''), (P, LAST + "\n", "")]),
 ("g-dispatch-swap", "good", [(P, DISP, "  const bool is_text =\n      idx_last_char != std::string::npos && problem[idx_last_char] == ')';\n  if (is_text) {")]),
 ("g-parse-early", "good", [(P, "  if (problem.empty()) return analysis;", "  if (problem.size() == 0) {\n    return analysis;\n  }")]),
 ("g-analysis-new", "good", [(P, "std::make_unique<VAL::analysis>();", "std::unique_ptr<VAL::analysis>(new VAL::analysis());")]),
 ("g-gp-iter", "good", [(P, GP, '''  for (auto it = domain.predicates->begin(); it != domain.predicates->end(); ++it) {
    predicates.emplace_back(pddl, *it);
  }
''')]),
]
EDITS = [(e[0], e[1], sorted({x[0] for x in e[2]}) if len({x[0] for x in e[2]}) > 1 else e[2][0][0], [x[1:] for x in e[2]]) for e in EDITS]
