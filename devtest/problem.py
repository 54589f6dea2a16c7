F = "symbolic/problem.py"
GI = '    return f"({name} {token})"\n'
GG = '    return [f"({name}", tokens, ")"]\n'
NOT = '''    if isinstance(formulas, str):
        return create_inline_group("not", formulas)
    return create_group("not", formulas)
'''
FA = 'return create_group(f"forall ({var_obj})", formula)'
EX = 'return create_group(f"exists ({var_obj})", formula)'
WH = 'return create_group("when", (condition, implies))'
OBJ = 'objects = sorted(self._objects, key=lambda obj: not obj.type)\n        return create_group(":objects", list(map(str, objects)))'
PP = '''    matches = re.match(r"([^\\(]*)\\(([^\\)]*)", str_prop)
    if matches is None:
        raise ValueError(f"Unable to parse proposition from '{str_prop}'.")
    name_pred = matches.group(1)
    str_args = matches.group(2).replace(" ", "")
    return name_pred, str_args.split(",") if str_args else []
'''
PA = '''    str_args = matches.group(1).replace(" ", "")
    return str_args.split(",") if str_args else []
'''
PH = 'matches = re.match(r"([^\\(]*)\\([^\\)]*", str_prop)'
AIP = '''        if prop and prop[0] != "(":
            head, args = parse_proposition(prop)
            prop = _P(head, *args)
        self._initial_state.append(prop)
'''
SIS = '''        for prop in state:
            self.add_initial_prop(prop)
'''
DEF = '''        return create_group(
            f"define {self.problem}",
            [self.domain, *self.objects, *self.initial_state, *self.goal],
        )
'''
PPR = '''    if isinstance(strings, str):
        return "\\t" * (indent - 1) + strings + "\\n"
    return "".join(pprint_formula(s, indent + 1) for s in strings)
'''
GOAL = '''        if isinstance(self._goal, str):
            return [create_inline_group(":goal", self._goal)]
        return create_group(":goal", self._goal)
'''
REPR = 'return f"{self.name} - {self.type}" if self.type else self.name'
B, G = "bad:C20", "good"
EDITS = [
 ("q-paren", B, F, [(FA, 'return create_group(f"forall {var_obj}", formula)')]),
 ("q-paren2", B, F, [(EX, 'return create_group(f"exists {var_obj}", formula)')]),
 ("q-swap", B, F, [(EX, 'return create_group(f"forall ({var_obj})", formula)')]),
 ("q-mark", B, F, [('var_obj = Object(f"?{var}", var_type)\n    ' + EX, 'var_obj = Object(f"{var}", var_type)\n    ' + EX)]),
 ("q-mark2", B, F, [('var_obj = Object(f"?{var}", var_type)\n    ' + EX, 'var_obj = Object(f"? {var}", var_type)\n    ' + EX)]),
 ("q-type", B, F, [('var_obj = Object(f"?{var}", var_type)\n    ' + FA, 'var_obj = Object(f"?{var}")\n    ' + FA)]),
 ("q-args", B, F, [('var_obj = Object(f"?{var}", var_type)\n    ' + FA, 'var_obj = Object(f"?{var_type}", var)\n    ' + FA)]),
 ("q-str", B, F, [(FA, 'return create_inline_group(f"forall ({var})", formula)')]),
 ("f-and", B, F, [('return create_group("or", formulas)', 'return create_group("and", formulas)')]),
 ("f-and2", B, F, [('return create_group("and", formulas)', 'return create_group("and", formulas[1:])')]),
 ("f-and1", B, F, [('return create_group("and", formulas)', 'return formulas[0] if len(formulas) == 1 else create_group("or", formulas)')]),
 ("f-not", B, F, [(NOT, NOT.replace('return create_inline_group("not", formulas)', 'return formulas'))]),
 ("f-not2", B, F, [(NOT, NOT.replace('create_group("not", formulas)', 'create_group("not", formulas[0])'))]),
 ("f-not3", B, F, [(NOT, NOT.replace('create_group("not", formulas)', 'formulas'))]),
 ("f-when", B, F, [(WH, 'return create_group("when", (implies, condition))')]),
 ("f-when2", B, F, [(WH, 'return create_group("when", (condition,))')]),
 ("f-when3", B, F, [(WH, 'return create_group("imply", (condition, implies))')]),
 ("f-group", B, F, [(GG, '    return [f"({name}", tokens]\n')]),
 ("f-group2", B, F, [(GG, '    return [f"{name}(", tokens, ")"]\n')]),
 ("f-group3", B, F, [(GG, '    return [f"({name}", tokens, ")"] if tokens else []\n')]),
 ("f-inline", B, F, [(GI, '    return f"({name}{token})"\n')]),
 ("f-inline2", B, F, [(GI, '    return f"{name} {token}"\n')]),
 ("f-P", B, F, [('return create_inline_group(predicate, " ".join(arguments))', 'return create_inline_group(predicate, ", ".join(arguments))')]),
 ("f-P2", B, F, [('return create_inline_group(predicate, " ".join(arguments))', 'return create_inline_group(predicate, "".join(arguments))')]),
 ("f-P3", B, F, [('return create_inline_group(predicate, " ".join(arguments))', 'return create_inline_group(predicate, " ".join(reversed(arguments)))')]),
 ("f-P4", B, F, [('return create_inline_group(predicate, " ".join(arguments))', 'return create_inline_group(predicate, " ".join(sorted(arguments)))')]),
 ("f-P5", B, F, [('return create_inline_group(predicate, " ".join(arguments))', 'return create_inline_group(predicate, " ".join(set(arguments)))')]),
 ("p-pat", B, F, [(PP, PP.replace('([^\\)]*)"', '(.*)"'))]),
 ("p-pat2", B, F, [(PP, PP.replace('([^\\(]*)', '(\\w*)'))]),
 ("p-pat3", B, F, [(PP, PP.replace('([^\\(]*)', '(.*)'))]),
 ("p-swap", B, F, [(PP, PP.replace("group(1)", "group(3)").replace("group(2)", "group(1)").replace("group(3)", "group(2)"))]),
 ("p-none", B, F, [(PP, PP.replace("if matches is None:\n        raise ValueError(f\"Unable to parse proposition from '{str_prop}'.\")", "if matches is None:\n        return str_prop, []"))]),
 ("p-noneall", B, F, [(PP, PP.replace("    if matches is None:\n        raise ValueError(f\"Unable to parse proposition from '{str_prop}'.\")\n", ""))]),
 ("p-split", B, F, [(PP, PP.replace('split(",")', 'split(" ")'))]),
 ("p-split2", B, F, [(PP, PP.replace('split(",")', 'split()'))]),
 ("p-blank", B, F, [(PP, PP.replace('.replace(" ", "")', '.strip()'))]),
 ("p-blank2", B, F, [(PA, PA.replace('.replace(" ", "")', ''))]),
 ("p-blank3", B, F, [(PA, PA.replace('.replace(" ", "")', '.replace(",", "")'))]),
 ("p-blank4", B, F, [(PA, PA.replace('.replace(" ", "")', '.lower().replace(" ", "")'))]),
 ("p-empty", B, F, [(PA, PA.replace(' if str_args else []', ''))]),
 ("p-order", B, F, [(PA, PA.replace('return str_args.split(",")', 'return sorted(str_args.split(","))'))]),
 ("p-rev", B, F, [(PA, PA.replace('return str_args.split(",")', 'return str_args.split(",")[::-1]'))]),
 ("p-max", B, F, [(PA, PA.replace('split(",")', 'split(",", 1)'))]),
 ("p-drop", B, F, [(PA, PA.replace('return str_args.split(",")', 'return str_args.split(",")[:2]'))]),
 ("p-set", B, F, [(PA, PA.replace('return str_args.split(",")', 'return list(set(str_args.split(",")))'))]),
 ("p-headpat2", B, F, [(PH, 'matches = re.match(r"([a-z]*)\\([^\\)]*", str_prop)')]),
 ("p-headpat3", B, F, [(PH, 'matches = re.match(r"([^\\(]*)", str_prop)')]),
 ("p-headgrp", B, F, [("    name_pred = matches.group(1)\n    return name_pred\n", "    name_pred = matches.group(0)\n    return name_pred\n")]),
 ("a-obj", B, F, [("self._objects.append(Object(name, object_type))", "self._objects.append(Object(name))")]),
 ("a-obj2", B, F, [("self._objects.append(Object(name, object_type))", "self._objects = [Object(name, object_type)]")]),
 ("a-obj3", B, F, [("self._objects.append(Object(name, object_type))", "self._objects.append(Object(object_type, name))")]),
 ("a-obj4", B, F, [("self._objects.append(Object(name, object_type))", "if object_type:\n            self._objects.append(Object(name, object_type))")]),
 ("a-obj5", B, F, [("self._objects.append(Object(name, object_type))", "if all(o.type != object_type for o in self._objects):\n            self._objects.append(Object(name, object_type))")]),
 ("a-obj6", G, F, [("self._objects.append(Object(name, object_type))", "self._objects.insert(0, Object(name, object_type))")]),
 ("a-repr", B, F, [(REPR, 'return f"{self.name} {self.type}" if self.type else self.name')]),
 ("a-repr2", B, F, [(REPR, 'return f"{self.name} - {self.type}"')]),
 ("a-repr3", B, F, [(REPR, 'return f"{self.name}-{self.type}" if self.type else self.name')]),
 ("a-repr4", B, F, [(REPR, 'return self.name')]),
 ("i-cond", B, F, [('if prop and prop[0] != "(":', 'if prop and prop[0] == "(":')]),
 ("i-cond2", B, F, [('if prop and prop[0] != "(":', 'if prop and prop[-1] != ")":')]),
 ("i-cond3", B, F, [('if prop and prop[0] != "(":', 'if "(" not in prop:')]),
 ("i-head", B, F, [("prop = _P(head, *args)", "prop = _P(head)")]),
 ("i-drop", B, F, [(AIP, AIP.replace("        self._initial_state.append(prop)", "            self._initial_state.append(prop)"))]),
 ("i-twice", B, F, [(AIP, AIP.replace("prop = _P(head, *args)", "self._initial_state.append(_P(head, *args))"))]),
 ("i-lost", B, F, [(AIP, AIP.replace("self._initial_state.append(prop)", "if prop not in self._initial_state[-1:]:\n            self._initial_state = [prop]"))]),
 ("i-set", B, F, [(SIS, SIS.replace("in state", "in list(state)[1:]"))]),
 ("i-set2", B, F, [(SIS, "        self._initial_state.extend(state)\n")]),
 ("i-set3", B, F, [(SIS, SIS.replace("            self.", "            if prop.startswith('('):\n                self."))]),
 ("i-set4", B, F, [(SIS, "        for prop in state:\n            pass\n        self.add_initial_prop(prop)\n")]),
 ("g-set", B, F, [("self._goal = goal", "self._goal = self._goal or goal")]),
 ("g-set2", B, F, [("        self._goal = goal\n", "        if isinstance(goal, str):\n            self._goal = goal\n")]),
 ("g-str", B, F, [(GOAL, GOAL.replace("        return create_group(", "        return create_group(").replace('create_inline_group(":goal", self._goal)', 'self._goal'))]),
 ("g-colon", B, F, [(GOAL, GOAL.replace('create_group(":goal"', 'create_group("goal"'))]),
 ("g-chars", B, F, [(GOAL, '        return create_group(":goal", list(self._goal))\n')]),
 ("d-order", B, F, [(DEF, DEF.replace("*self.objects, *self.initial_state, *self.goal", "*self.initial_state, *self.objects, *self.goal"))]),
 ("d-nogoal", B, F, [(DEF, DEF.replace(", *self.goal", ""))]),
 ("d-noobj", B, F, [(DEF, DEF.replace(" *self.objects,", ""))]),
 ("d-name", B, F, [('create_inline_group("problem", self._name)', 'create_inline_group("problem", self._domain)')]),
 ("d-domain", B, F, [('create_inline_group(":domain", self._domain)', 'create_inline_group("domain", self._domain)')]),
 ("d-define", B, F, [(DEF, DEF.replace("define {self.problem}", "define {self._name}"))]),
 ("d-init", B, F, [('create_group(":init", self._initial_state)', 'create_group(":init", self._initial_state[:1])')]),
 ("d-initset", B, F, [('create_group(":init", self._initial_state)', 'create_group(":init", [p for p in self._initial_state if p.startswith("(")])')]),
 ("o-unsorted", B, F, [(OBJ, 'return create_group(":objects", list(map(str, self._objects)))')]),
 ("o-wrong", B, F, [(OBJ, OBJ.replace("not obj.type", "bool(obj.type)"))]),
 ("o-wrong2", B, F, [(OBJ, OBJ.replace("not obj.type", "obj.type"))]),
 ("o-rev", B, F, [(OBJ, OBJ.replace("not obj.type", "not obj.type, reverse=True"))]),
 ("o-names", B, F, [(OBJ, OBJ.replace("list(map(str, objects))", "[o.name for o in objects]"))]),
 ("o-typed", B, F, [(OBJ, OBJ.replace("list(map(str, objects))", "[str(o) for o in objects if o.type]"))]),
 ("n-goal", B, F, [('self._goal: Formula = "(and)"', 'self._goal: Formula = "(or)"')]),
 ("n-goal2", B, F, [('self._goal: Formula = "(and)"', 'self._goal: Formula = ""')]),
 ("n-domain", B, F, [('self._domain = domain', 'self._domain = domain or name')]),
 ("n-domain2", B, F, [('self._domain = domain', 'self._domain = name')]),
 ("n-shared", B, F, [('        self._objects: List[Object] = []\n', ''), ('class Problem:\n', 'class Problem:\n    _objects: List[Object] = []\n\n')]),
 ("n-default", B, F, [('def __init__(self, name: str, domain: str = ""):', 'def __init__(self, name: str, domain: str = "", objects=[]):'), ('self._objects: List[Object] = []', 'self._objects: List[Object] = objects')]),
 ("t-nosep", B, F, [(PPR, PPR.replace(' + "\\n"', '').replace('"\\t" * (indent - 1) + ', ''))]),
 ("t-sepfirst", B, F, [(PPR, PPR.replace(' + "\\n"', ''))]),
 ("t-skip", B, F, [(PPR, PPR.replace("for s in strings", "for s in strings[1:]"))]),
 ("t-if", B, F, [(PPR, PPR.replace("for s in strings", "for s in strings if isinstance(s, str)"))]),
 ("t-rev", B, F, [(PPR, PPR.replace("for s in strings", "for s in reversed(strings)"))]),
 ("t-twice", B, F, [(PPR, PPR.replace("strings + ", "strings * indent + "))]),
 ("t-strip", B, F, [(PPR, PPR.replace("strings + ", "strings.strip('()') + "))]),
 # same behaviour
 ("k-format", G, F, [(GI, '    return "({} {})".format(name, token)\n')]),
 ("k-concat", G, F, [(GI, '    return "(" + name + " " + token + ")"\n')]),
 ("k-percent", G, F, [(GI, '    return "(%s %s)" % (name, token)\n')]),
 ("k-group", G, F, [(GG, '    group: List[Formula] = ["(" + name]\n    group.append(tokens)\n    group.append(")")\n    return group\n')]),
 ("k-quant", G, F, [(FA, 'return _quantifier("forall", var_obj, formula)'), (EX, 'return _quantifier("exists", var_obj, formula)'), ("def _forall", 'def _quantifier(kind: str, var_obj: Object, formula: Formula):\n    return create_group(f"{kind} ({var_obj})", formula)\n\n\ndef _forall')]),
 ("k-quant2", G, F, [('    var_obj = Object(f"?{var}", var_type)\n    ' + FA, '    return _quantified("forall", var, var_type, formula)'), ('    var_obj = Object(f"?{var}", var_type)\n    ' + EX, '    return _quantified("exists", var, var_type, formula)'), ("def _forall", 'def _quantified(kind, var, var_type, formula):\n    var_obj = Object("?" + var, var_type)\n    return create_group("{} ({})".format(kind, var_obj), formula)\n\n\ndef _forall')]),
 ("k-not", G, F, [(NOT, '    group = create_inline_group if isinstance(formulas, str) else create_group\n    return group("not", formulas)\n')]),
 ("k-not2", G, F, [(NOT, '    if not isinstance(formulas, str):\n        return create_group("not", formulas)\n    return create_inline_group("not", formulas)\n')]),
 ("k-pp", G, F, [(PP, '    return parse_head(str_prop), parse_args(str_prop)\n')]),
 ("k-pp2", G, F, [(PP, PP.replace('name_pred = matches.group(1)\n    str_args = matches.group(2).replace', 'name_pred, str_args = matches.groups()\n    str_args = str_args.replace'))]),
 ("k-pp3", G, F, [(PP, PP.replace("if matches is None", "if not matches"))]),
 ("k-pp4", G, F, [(PP, PP.replace('    return name_pred, str_args.split(",") if str_args else []', '    if not str_args:\n        return name_pred, []\n    return name_pred, str_args.split(",")'))]),
 ("k-pp5", G, F, [(PP, PP.replace('    return name_pred, str_args.split(",") if str_args else []', '    return name_pred, _split_args(str_args)')), (PA, '    str_args = matches.group(1).replace(" ", "")\n    return _split_args(str_args)\n'), ("def parse_proposition", 'def _split_args(str_args: str) -> List[str]:\n    if str_args == "":\n        return []\n    return str_args.split(",")\n\n\ndef parse_proposition')]),
 ("k-pp6", G, F, [(PP, PP.replace('r"([^\\(]*)\\(([^\\)]*)"', 'r"([^(]*)[(]([^)]*)"'))]),
 ("k-pp7", G, F, [(PP, PP.replace('str_args = matches.group(2).replace(" ", "")', 'args_text = matches[2]\n    str_args = args_text.replace(" ", "")'))]),
 ("k-pp8", G, F, [(PP, PP.replace('matches = re.match(r"([^\\(]*)\\(([^\\)]*)", str_prop)', 'matches = PROP_RE.match(str_prop)').replace("matches", "m")), ("Formula = Union", 'import re\n\nPROP_RE = re.compile(r"([^\\(]*)\\(([^\\)]*)")\n\nFormula = Union')]),
 ("k-import", G, F, [("    import re\n\n", "", "all"), ("from typing", "import re\nfrom typing")]),
 ("k-comp", G, F, [(PA, '    str_args = matches.group(1).replace(" ", "")\n    return [arg for arg in str_args.split(",")] if str_args else []\n')]),
 ("k-comp2", G, F, [(PA, '    str_args = matches.group(1).replace(" ", "")\n    args = []\n    if str_args:\n        args = str_args.split(",")\n    return args\n')]),
 ("k-comp3", G, F, [(PA, '    str_args = matches.group(1)\n    str_args = "".join(c for c in str_args if c != " ")\n    return str_args.split(",") if str_args else []\n')]),
 ("k-comp4", G, F, [(PA, '    str_args = "".join(matches.group(1).split(" "))\n    return str_args.split(",") if str_args else []\n')]),
 ("k-addobj", G, F, [("self._objects.append(Object(name, object_type))", "self._objects += [Object(name, object_type)]")]),
 ("k-addobj2", G, F, [("self._objects.append(Object(name, object_type))", "obj = Object(name, object_type=object_type)\n        self._objects.append(obj)")]),
 ("k-repr", G, F, [(REPR, 'if not self.type:\n            return self.name\n        return self.name + " - " + self.type')]),
 ("k-repr2", G, F, [(REPR, 'suffix = f" - {self.type}" if self.type else ""\n        return f"{self.name}{suffix}"')]),
 ("k-repr3", G, F, [(REPR, 'return " - ".join([self.name, self.type]) if self.type else self.name')]),
 ("k-repr4", G, F, [(REPR, 'return " - ".join(x for x in (self.name, self.type) if x)')]),
 ("k-aip", G, F, [(AIP, '        self._initial_state.append(self._to_pddl(prop))\n\n    @staticmethod\n    def _to_pddl(prop: str) -> str:\n        if not prop or prop[0] == "(":\n            return prop\n        head, args = parse_proposition(prop)\n        return _P(head, *args)\n')]),
 ("k-aip2", G, F, [('if prop and prop[0] != "(":', 'if prop and not prop.startswith("("):')]),
 ("k-aip3", G, F, [('head, args = parse_proposition(prop)\n            prop = _P(head, *args)', 'parsed = parse_proposition(prop)\n            prop = _P(parsed[0], *parsed[1])')]),
 ("k-sis", G, F, [(SIS, '        for prop in sorted(state):\n            self.add_initial_prop(prop)\n')]),
 ("k-sis2", G, F, [(SIS, '        list(map(self.add_initial_prop, state))\n')]),
 ("k-obj", G, F, [(OBJ, OBJ.replace("list(map(str, objects))", "[str(obj) for obj in objects]"))]),
 ("k-obj2", G, F, [(OBJ, 'typed = [obj for obj in self._objects if obj.type]\n        untyped = [obj for obj in self._objects if not obj.type]\n        return create_group(":objects", [str(obj) for obj in typed + untyped])')]),
 ("k-obj3", G, F, [(OBJ, OBJ.replace("lambda obj: not obj.type", 'lambda obj: obj.type == ""'))]),
 ("k-obj4", G, F, [(OBJ, 'lines = []\n        for obj in sorted(self._objects, key=lambda obj: 0 if obj.type else 1):\n            lines.append(repr(obj))\n        return create_group(":objects", lines)')]),
 ("k-obj5", G, F, [(OBJ, 'typed = [str(o) for o in self._objects if o.type]\n        untyped = [str(o) for o in self._objects if not o.type]\n        return create_group(":objects", typed + untyped)')]),
 ("k-obj6", G, F, [(OBJ, 'objects = list(self._objects)\n        objects.sort(key=lambda obj: not obj.type)\n        return create_group(":objects", list(map(str, objects)))')]),
 ("k-goal", G, F, [(GOAL, '        goal = self._goal\n        if not isinstance(goal, str):\n            return create_group(":goal", goal)\n        return [create_inline_group(":goal", goal)]\n')]),
 ("k-def", G, F, [(DEF, '        body = [self.domain]\n        body.extend(self.objects)\n        body.extend(self.initial_state)\n        body.extend(self.goal)\n        return create_group(f"define {self.problem}", body)\n')]),
 ("k-def2", G, F, [(DEF, '        body = [self.domain] + self.objects + self.initial_state + self.goal\n        return create_group("define " + self.problem, body)\n')]),
 ("k-def3", G, F, [(DEF, '        body = [self.domain]\n        for section in (self.objects, self.initial_state, self.goal):\n            body += section\n        return create_group(f"define {self.problem}", body)\n')]),
 ("k-pprint", G, F, [(PPR, '    if isinstance(strings, str):\n        return "\\t" * (indent - 1) + strings + "\\n"\n    result = ""\n    for s in strings:\n        result += pprint_formula(s, indent + 1)\n    return result\n')]),
 ("k-pprint2", G, F, [(PPR, '    if not isinstance(strings, str):\n        return "".join([pprint_formula(s, indent=indent + 1) for s in strings])\n    prefix = "\\t" * (indent - 1)\n    return f"{prefix}{strings}\\n"\n')]),
 ("k-pprint3", G, F, [(PPR, '    if isinstance(strings, str):\n        return "\\t" * (indent - 1) + strings + "\\n"\n    lines = []\n    for s in strings:\n        lines.append(pprint_formula(s, indent + 1))\n    return "".join(lines)\n')]),
 ("k-rename", G, F, [("_objects", "_object_list", "all")]),
 ("k-rename2", G, F, [("_initial_state", "_init", "all"), ("set_init(", "set_initial_state(")]),
 ("k-pprintname", G, F, [("pprint_formula", "format_formula", "all")]),
]
EDITS += [
 ("s-hyphen", B, F, [('r"([^\\(]*)\\(([^\\)]*)"', 'r"(\\w*)\\(([^\\)]*)"'), ("Unable to parse proposition from '{str_prop}'", "Unable to parse proposition '{str_prop}'")]),
 ("s-splat", B, F, [(GG, '    return [f"({name}", *tokens, ")"]\n')]),
 ("s-strip", B, F, [('matches.group(1).replace(" ", "")', 'matches.group(1).strip()')]),
]
