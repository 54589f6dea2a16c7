import importlib.util, re, sys
spec = importlib.util.spec_from_file_location("problem", "/repo/symbolic/problem.py")
p = importlib.util.module_from_spec(spec)
spec.loader.exec_module(p)


def toks(f):
    return re.findall(r"[()]|[^\s()]+", p.pprint_formula(f))


def lex(s):
    return re.findall(r"[()]|[^\s()]+", s)


def check(ok, what):
    if not ok:
        print("FAIL", what)
        sys.exit(1)


a, b = p._P("on", "?x", "table"), p._P("arm-empty")
for f, want in [
    (a, "(on ?x table)"), (b, "(arm-empty)"),
    (p._and(a, b), "(and (on ?x table) (arm-empty))"), (p._and(), "(and)"),
    (p._or(a, p._and(b, a)), "(or (on ?x table) (and (arm-empty) (on ?x table)))"),
    (p._not(a), "(not (on ?x table))"), (p._not(p._or(a, b)), "(not (or (on ?x table) (arm-empty)))"),
    (p._forall("x", "box", a), "(forall (?x - box) (on ?x table))"),
    (p._forall("x", "", p._not(p._and(a, b))), "(forall (?x) (not (and (on ?x table) (arm-empty))))"),
    (p._exists("y", "hook", p._and(a, b)), "(exists (?y - hook) (and (on ?x table) (arm-empty)))"),
    (p._when(p._and(a), b), "(when (and (on ?x table)) (arm-empty))"),
]:
    check(toks(f) == lex(want), "formula %s: %s" % (want, toks(f)))

for s, h, args in [("on(a, b)", "on", ["a", "b"]), ("on-top-of( hook-1 , shelf_2,c )", "on-top-of", ["hook-1", "shelf_2", "c"]),
                   ("empty()", "empty", []), ("f(x) ) y", "f", ["x"])]:
    check(p.parse_head(s) == h, "head of " + s)
    check(list(p.parse_args(s)) == args, "args of " + s)
    check(tuple(map(lambda x: x if isinstance(x, str) else list(x), p.parse_proposition(s))) == (h, args), "parts of " + s)
for g in (p.parse_head, p.parse_args, p.parse_proposition):
    try:
        g("no-parenthesis")
        check(False, "accepted text without a parenthesis")
    except ValueError:
        pass

q = p.Problem("prob-1", "dom")
for n, t in [("floor", ""), ("box1", "box"), ("sky", ""), ("hook1", "hook"), ("box2", "box")]:
    q.add_object(n, t)
q.add_initial_prop("(on box1 floor)")
q.add_initial_prop("on(hook1, box2)")
q.set_initial_state({"clear(box1)", "(clear box2)"})
q.set_goal(p._and(a, p._not(b)))
t = re.findall(r"[()]|[^\s()]+", repr(q))
s = " ".join(t)
check(s.startswith("( define ( problem prob-1 ) ( :domain dom ) ( :objects "), "header " + s)
objs, rest = s.split(":objects ")[1].split(" )", 1)
objs = objs.split()
typed, untyped, i = {}, [], 0
while i < len(objs):
    group = []
    while i < len(objs) and objs[i] != "-":
        group.append(objs[i])
        i += 1
    if i < len(objs):
        for n in group:
            typed[n] = objs[i + 1]
        i += 2
    else:
        untyped += group
check(typed == {"box1": "box", "hook1": "hook", "box2": "box"} and sorted(untyped) == ["floor", "sky"], "objects %s %s" % (typed, untyped))
init, rest = rest.split("( :init ")[1].split(" ) ( :goal ")
props = re.findall(r"\(([^()]*)\)", init)
check(sorted(" ".join(x.split()) for x in props) == ["clear box1", "clear box2", "on box1 floor", "on hook1 box2"], "init %s" % props)
check(rest == "( and ( on ?x table ) ( not ( arm-empty ) ) ) ) )", "goal " + rest)
check(" ".join(re.findall(r"[()]|[^\s()]+", repr(p.Problem("a", "b")))) ==
      "( define ( problem a ) ( :domain b ) ( :objects ) ( :init ) ( :goal ( and ) ) )", "empty problem")
q2 = p.Problem("x", "y")
q2.set_goal("(done)")
check("( :goal ( done ) )" in " ".join(re.findall(r"[()]|[^\s()]+", repr(q2))), "string goal")
