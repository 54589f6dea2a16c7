"""C16: what a loaded model contains is what the domain and the problem declare."""
from rules.summ import *

LEVEL = "other"
EXPLAIN = ("Path summaries of the constructors of the model, with every helper they call inlined, are interpreted over "
           "small parsed domains: missing and short tables of constants and objects, operators of both kinds in mixed "
           "order, predicates, derived predicates, initial facts and axioms with equal and different contexts. Every "
           "member is compared with the declarations, and every part built from the model is checked to be built after "
           "the members it reads. Nothing is executed.")

P = "symbolic::Pddl::"
PRIM = ["symbolic::Action::*", "symbolic::Axiom::*", "symbolic::Formula::*", "symbolic::DerivedPredicate::*",
        "symbolic::Predicate::*", "symbolic::StateIndex::*", "symbolic::Object::Object", "symbolic::Object::Type::*",
        "symbolic::Object::type", "symbolic::Pddl::ConsistentState", "symbolic::Pddl::DerivedState", "symbolic::State::*",
        "symbolic::HashSet*", "symbolic::Proposition*", "symbolic::SignedProposition::*", "symbolic::Object::name"]
MEMBERS = ["constants", "objects", "object_map", "axioms", "axiom_map", "actions", "predicates", "derived_predicates",
           "state_index", "initial_state", "goal", "symbol", "domain_pddl", "problem_pddl"]
U = "src/pddl.cc"


def run(ctx):
    SPECIAL.add("!")           # no name contains the sign of a negated context
    W = World(ctx)
    prog = W.prog(U)
    W.f = {m: field_of(prog, P + m) for m in MEMBERS}
    missing = [m for m in MEMBERS if W.f[m] is None]
    if missing:
        raise AnalysisError("accessors: %s" % ", ".join(missing))
    for g in (both, domain_only, failures, sources):
        ctx.group(g.__name__.rstrip("_"), g, ctx, W)


# ---- the parsed domain -------------------------------------------------
def sym(n, *types):
    w = word(n)
    return Rec("symbol " + n, getName=w, getNameRef=w, sym=True, types=Items([Text(t) if t == "object" else word(t) for t in types]))


def op(n, kind, sign="", context=None):
    w = word(n)
    r = Rec("operator " + n, **{"class": ["VAL::" + kind], "name": Rec("name", getName=w, getNameRef=w), "kind": kind, "n": n})
    r.f["sign"] = Text(sign) if sign else Text()
    r.f["context"] = word(context) if context else None
    return r


def effect(p, args):
    w = word(p)
    head = Rec("head " + p, getName=w, getNameRef=w)
    return Rec("effect " + p, prop=Rec("fact " + p, head=head, args=Items(args)))


class Model:
    def __init__(self, tag, constants=None, objects=None, ops=(), preds=(), drvs=(), facts=(), problem=True, domain=True):
        self.tag = tag
        null = lambda xs: NULLP if xs is None else Items(xs)
        self.types = Items([Rec("type")])
        self.constants, self.objects = list(constants or ()), list(objects or ())
        self.ops, self.preds, self.drvs, self.facts = list(ops), list(preds), list(drvs), list(facts)
        self.goal = Rec("goal")
        self.snaps = []
        d = Rec("domain", types=self.types, constants=null(constants), ops=Items(self.ops), predicates=Items(self.preds),
                drvs=Items(self.drvs), name=word("domain"))
        self.has_problem = problem
        q = Rec("problem", objects=null(objects), the_goal=self.goal,
                initial_state=Rec("effects", add_effects=Items(self.facts)))
        self.analysis = Rec("analysis", the_domain=d if domain else NULLP, the_problem=q if problem else NULLP,
                            error_list=Rec("errors"))


def models():
    c1, c2 = sym("c1", "t1", "object"), sym("c2", "object")
    o1, o2, o3 = sym("o1", "t2", "t1", "object"), sym("o2", "t1", "object"), sym("o3", "t3", "object")
    a1, a2 = op("a1", "action"), op("a2", "action")
    x1, x2, x3, x4 = (op("x1", "axiom", "", "p"), op("x2", "axiom", "", "p"), op("x3", "axiom", "!", "p"),
                      op("x4", "axiom", "", "q"))
    d1, d2 = op("d1", "durative_action"), op("e1", "event")
    p1, p2 = Rec("predicate p"), Rec("predicate q")
    v1, v2 = Rec("rule v"), Rec("rule w")
    yield Model("full", [c1, c2], [o1, o2, o3], [a1, x1, a2, x2, x3, x4], [p1, p2], [v1, v2],
                [effect("p", [o1]), effect("q", [c1, o2]), effect("r", [])])
    yield Model("empty")
    yield Model("constants", [c1, c2], None, [x1, x4], [p1], [], [effect("p", [c1])])
    yield Model("objects", None, [o3, o1], [a2, a1], [p2, p1], [v2], [])
    yield Model("lists", [], [], [x3, a1, x1, x2], [], [v1], [effect("r", [])])
    yield Model("kinds", [c2], [o1], [d1, a1, d2, x1], [p1], [], [effect("p", [o1, o1])])
    yield Model("last", [c1], [o2], [a1, a2, x1], [p1, p2], [v1, v2], [effect("q", [o2]), effect("p", [c1])])


def base_sym(x):
    """The symbol and the types an object was made from."""
    if isinstance(x, Rec) and "obj" in x.f:
        return x.f["obj"], x.f["of"]
    if isinstance(x, Made) and len(x.args) == 2 and isinstance(x.args[1], Rec) and "sym" in x.args[1].f:
        return x.args[1], x.args[0]
    return None, None


def hooks(m):
    def made(run, t):
        cls = t[1]
        if cls == "VAL::analysis":
            return m.analysis
        if cls == "symbolic::Object" and len(t) == 4:
            ty, s = run.eval(t[2]), run.eval(t[3])
            if isinstance(s, Rec) and "sym" in s.f:
                return Rec("object of " + s.what, obj=s, of=ty)
        if cls == "symbolic::Axiom" and len(t) == 4:
            pd, o = run.eval(t[2]), run.eval(t[3])
            if isinstance(o, Text):
                hit = [x for x in m.ops if x.f["name"].f["getName"] == o]
                o = hit[0] if hit else None
            if isinstance(o, Rec) and o.f.get("kind") == "axiom":
                m.snaps.append(pd)
                return Rec("axiom of " + o.what, axiom=o, pddl=pd, symbol=o,
                           context=Rec("context", sign=o.f["sign"], name=o.f["context"]))
            raise Unknown("an axiom of something else")
        if cls.split("<")[0] in ("std::weak_ptr", "std::shared_ptr") and len(t) == 3:
            v = run.eval(t[2])
            if isinstance(v, Rec) and "heap" in v.f:
                return v
        if cls.startswith("symbolic::") and cls.split("::")[-1] == "State" and len(t) == 2:
            return Items()
        return NotImplemented

    def method(run, t):
        if t[0] in ("call", "ret", "refto") and t[1] == "symbolic::Object::type":
            s, ty = base_sym(run.eval(t[2]))
            if s is not None:
                return Rec("type", ListTypes=s.f["types"], name=s.f["types"].v[0])
        if t[0] in ("call", "ret") and t[1] in (P + "DerivedState", P + "ConsistentState") and len(t) == 4:
            return Rec(t[1].split("::")[-1], model=run.eval(t[2]), state=run.eval(t[3]), step=t[1].split("::")[-1])
        if t[0] in ("call", "ret") and "shared_ptr" in t[1]:
            pass
        return NotImplemented
    return made, method


# ---- the obligations -----------------------------------------------------
def parts(W, o, m, f):
    return o.run.eval(final(o.path, ("fld", THIS, W.f[f])))


def obj_list(v, want, types):
    if not isinstance(v, Items):
        return None
    got = [base_sym(x) for x in v.v]
    if any(s is None for s, _ in got):
        return None
    if any(t is not types and t != types for _, t in got):
        return "holds an object made without the types of the domain"
    a, b = [s.what for s, _ in got], [s.what for s in want]
    if [id(s) for s, _ in got] == [id(s) for s in want]:
        return True
    return "holds %s where %s are declared" % (a, b)


def seen(W, snap, f):
    """What a member of the model held when something was built from it."""
    if not isinstance(snap, Rec) or W.f[f] not in snap.f:
        return None
    v = snap.f[W.f[f]]
    return None if isinstance(v, Opaque) else v


def built_from(W, o, m, snap, need, what):
    """Whether what is read from the model was there when `what` was built."""
    if not isinstance(snap, Built) and snap is not NEW:
        return None
    for f in need:
        if W.f[f] not in snap.f:
            return "%s is built before %s is set" % (what, f)
        v = seen(W, snap, f)
        if v is None:
            return None
        if f == "symbol":
            if o.run.target(v) is not m.analysis:
                return "%s is built before the parsed domain is kept" % what
            continue
        w = parts(W, o, m, f)
        if not alike(v, w):
            return "%s is built when %s is not yet complete" % (what, f)
    return True


def alike(a, b):
    if a is b:
        return True
    if isinstance(a, Items) and isinstance(b, Items):
        return len(a.v) == len(b.v) and all(alike(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, Made) and isinstance(b, Made):
        return len(a.args) == len(b.args) and all(alike(x, y) for x, y in zip(a.args, b.args))
    sa, ta = base_sym(a)
    if sa is not None:
        return sa is base_sym(b)[0]
    if isinstance(a, Rec) and isinstance(b, Rec):
        if isinstance(a, Built) and isinstance(b, Built):
            return True
        if "axiom" in a.f and "axiom" in b.f:
            return a.f["axiom"] is b.f["axiom"]
        if "heap" in a.f and "heap" in b.f:
            return alike(a.f["heap"], b.f["heap"])
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def made_of(v, want, n=None):
    """Values built from the model and one declaration each: [(model, declaration)] or None."""
    if not isinstance(v, Items):
        return None, None
    out = []
    for x in v.v:
        if isinstance(x, Made) and len(x.args) == 2:
            out.append((x.args[0], x.args[1]))
        elif isinstance(x, Rec) and "axiom" in x.f:
            out.append((x.f["pddl"], x.f["axiom"]))
        elif isinstance(x, Rec) and "heap" in x.f and isinstance(x.f["heap"], Rec) and "axiom" in x.f["heap"].f:
            out.append((x.f["heap"].f["pddl"], x.f["heap"].f["axiom"]))
        else:
            return None, None
    got = [d for _, d in out]
    if any(not isinstance(d, Rec) for d in got):
        return None, None
    if [id(d) for d in got] != [id(d) for d in want]:
        return "holds %s where %s are declared" % ([d.what for d in got], [d.what for d in want]), None
    return True, [p for p, _ in out]


NEW = Rec("a model without members")


def first_bad(rs):
    for r in rs:
        if r is not True:
            return r
    return True


def list_of(W, m, f, want, need):
    def chk(o):
        if o.kind == "throw":
            return "throws"
        if f == "axioms":
            for s in m.snaps:
                if (isinstance(s, Built) or s is NEW) and W.f["object_map"] not in s.f:
                    return "an axiom is built before object_map is set"
        r, snaps = made_of(parts(W, o, m, f), want)
        if r is not True:
            return r
        return first_bad([built_from(W, o, m, s, need, "an element of " + f) for s in snaps])
    return chk


def axiom_map(W, m):
    def chk(o):
        if o.kind == "throw":
            return "throws"
        v = parts(W, o, m, "axiom_map")
        if not isinstance(v, Items) or v.v and v.kind != "map":
            return None
        want = {}
        for x in m.ops:
            if x.f["kind"] == "axiom":
                want.setdefault(repr(Text(x.f["sign"], x.f["context"])), []).append(x)
        got = {}
        held = parts(W, o, m, "axioms")
        for k, xs in v.v:
            if not isinstance(xs, Items):
                return None
            for x in xs.v:
                if not isinstance(x, Rec) or "heap" not in x.f:
                    return None
                if not any(x is y for y in held.v):
                    return "holds an axiom that is not among the axioms"
            got[repr(k)] = [x.f["heap"].f["axiom"] for x in xs.v]
        a = {k: [x.what for x in xs] for k, xs in got.items()}
        b = {k: [x.what for x in xs] for k, xs in want.items()}
        return True if a == b else "is %s where %s was expected" % (a, b)
    return chk


def object_map(W, m, objs):
    def chk(o):
        if o.kind == "throw":
            return "throws"
        v = parts(W, o, m, "object_map")
        if not isinstance(v, Items) or v.v and v.kind != "map":
            return None
        want = {}
        for s in objs:
            for t in s.f["types"].v:
                want.setdefault(repr(t), []).append(s.what)
        got = {}
        for k, xs in v.v:
            if not isinstance(xs, Items):
                return None
            ss = [base_sym(x)[0] for x in xs.v]
            if any(s is None for s in ss):
                return None
            got[repr(k)] = [s.what for s in ss]
        return True if got == want else "is %s where %s was expected" % (got, want)
    return chk


def initial(W, m, apply):
    def chk(o):
        if o.kind == "throw":
            return "throws"
        v = parts(W, o, m, "initial_state")
        steps = []
        while isinstance(v, Rec) and "step" in v.f:
            steps.append(v)
            v = v.f["state"]
        if not isinstance(v, Items):
            return None
        want = ["ConsistentState", "DerivedState"] if apply else ["DerivedState"]
        got = [s.f["step"] for s in reversed(steps)]
        fx = []
        for x in v.v:
            if not isinstance(x, Made) or len(x.args) != 2 or not isinstance(x.args[1], Items):
                return None
            ss = [base_sym(y) for y in x.args[1].v]
            if any(s is None for s, _ in ss):
                return None
            if any(t is not m.types for _, t in ss):
                return "holds an object made without the types of the domain"
            ss = [s for s, _ in ss]
            fx.append((repr(x.args[0]), [s.what for s in ss]))
        wf = [(repr(e.f["prop"].f["head"].f["getName"]), [s.what for s in e.f["prop"].f["args"].v]) for e in m.facts]
        if sorted(fx) != sorted(wf):
            return "holds %s where %s are declared" % (fx, wf)
        if got != want:
            return "is closed by %s where %s was expected" % (got, want)
        need = {"ConsistentState": ["axioms"], "DerivedState": ["derived_predicates"]}
        return first_bad([built_from(W, o, m, s.f["model"], need[s.f["step"]], "the initial state") for s in steps])
    return chk


def goal(W, m):
    def chk(o):
        if o.kind == "throw":
            return "throws"
        v = parts(W, o, m, "goal")
        if not isinstance(v, Made) or len(v.args) < 2:
            return None
        if v.args[1] is not m.goal:
            return None if not isinstance(v.args[1], Rec) else "is built from %r" % v.args[1]
        return built_from(W, o, m, v.args[0], ["object_map", "symbol"], "the goal")
    return chk


def index(W, m):
    def chk(o):
        if o.kind == "throw":
            return "throws"
        v = parts(W, o, m, "state_index")
        if isinstance(v, Made) and v.args and isinstance(v.args[0], Opaque) and \
                v.args[0].t == ("init", ("fld", THIS, W.f["predicates"])):
            return "is built before the predicates are set"
        if not isinstance(v, Made) or not v.args or not isinstance(v.args[0], Items):
            return None
        return True if alike(v.args[0], parts(W, o, m, "predicates")) else "covers other predicates than the domain's"
    return chk


def objects_member(W, m, f, want):
    def chk(o):
        if o.kind == "throw":
            return "throws"
        return obj_list(parts(W, o, m, f), want, m.types)
    return chk


def kept(W, m, f, want):
    def chk(o):
        if o.kind == "throw":
            return "throws"
        v = parts(W, o, m, f)
        return True if v == want else (None if isinstance(v, Opaque) else "is %r" % v)
    return chk


def members(ctx, W, fn, m, tag, params, problem, apply=False):
    made, method = hooks(m)
    objs = m.constants + (m.objects if problem else [])
    acts = [x for x in m.ops if x.f["kind"] == "action"]
    axs = [x for x in m.ops if x.f["kind"] == "axiom"]
    obl = [("constants", objects_member(W, m, "constants", m.constants), "the constants"),
           ("objects", objects_member(W, m, "objects", objs), "the objects"),
           ("object_map", object_map(W, m, objs), "the objects of each type"),
           ("axioms", list_of(W, m, "axioms", axs, ["object_map", "symbol", "axiom_map"]), "the axioms"),
           ("axiom_map", axiom_map(W, m), "the axioms of each context"),
           ("actions", list_of(W, m, "actions", acts, ["object_map", "symbol", "axiom_map", "axioms"]), "the actions"),
           ("predicates", list_of(W, m, "predicates", m.preds, ["object_map", "symbol"]), "the predicates"),
           ("derived", list_of(W, m, "derived_predicates", m.drvs, ["object_map", "symbol"]), "the derived predicates"),
           ("index", index(W, m), "the state index"),
           ("domain-name", kept(W, m, "domain_pddl", word("domain file")), "the name of the domain file")]
    if problem:
        obl += [("initial", initial(W, m, apply), "the initial state"), ("goal", goal(W, m), "the goal"),
                ("problem-text", kept(W, m, "problem_pddl", params[1]), "the text of the problem")]
    for name, want, what in obl:
        W.eval("%s.%s.%s" % (tag, m.tag, name), fn, PRIM, params, NEW, want,
               "%s of the model '%s' (%s)" % (what, m.tag, tag), made=made, method=method)


def ctors(W, n):
    return [fn for fn in W.find(U, P + "Pddl") if len(fn.f["p"]) == n and
            "string" in fn.tu.type(fn.f["p"][0]["t"]).s]


def both(ctx, W):
    for fn in ctors(W, 3):
        for m in models():
            for apply in (False, True):
                members(ctx, W, fn, m, "problem" + (".axioms" if apply else ""),
                        {0: word("domain file"), 1: Text("(", word("problem"), ")", "\n"), 2: apply}, True, apply)
        m = next(iter(models()))
        members(ctx, W, fn, m, "problem.file", {0: word("domain file"), 1: Text(word("problem file"), ".", "p"), 2: False}, True)


def domain_only(ctx, W):
    for fn in ctors(W, 1):
        for m in models():
            members(ctx, W, fn, m, "domain", {0: word("domain file")}, False)


def failures(ctx, W):
    def throws(o):
        return True if o.kind == "throw" else "is loaded"
    for fn in ctors(W, 3):
        for text, name in ((Text("(", word("p"), ")"), "text"), (Text(word("p"), ".", "p"), "file")):
            m = Model("no domain", domain=False)
            made, method = hooks(m)
            W.eval("failure.domain." + name, fn, PRIM, {0: word("d"), 1: text, 2: False}, None, throws,
                   "a domain that cannot be read", made=made, method=method)
            m = Model("no problem", problem=False)
            made, method = hooks(m)
            W.eval("failure.problem." + name, fn, PRIM, {0: word("d"), 1: text, 2: False}, None, throws,
                   "a problem that cannot be read", made=made, method=method)
    for fn in ctors(W, 1):
        m = Model("no domain", domain=False)
        made, method = hooks(m)
        W.eval("failure.only-domain", fn, PRIM, {0: word("d")}, None, throws, "a domain that cannot be read",
               made=made, method=method)


def sources(ctx, W):
    """A problem that ends with a closing parenthesis is parsed itself; any other text names a file."""
    texts = [("text", ("(", word("p"), ")"), True), ("text-blank", ("(", word("p"), ")", "\n", " "), True),
             ("text-tab", ("(", word("p"), ")", "\t", "\r"), True),
             ("file", (word("p"), ".", "p"), False), ("file-blank", (word("p"), ".", "p", "\n"), False),
             ("file-paren", ("(", word("p"), ")", "p"), False)]
    m = next(iter(models()))
    made, method = hooks(m)

    def check(literal):
        def chk(o):
            if o.kind == "throw":
                return "throws"
            reads = [e for e in all_events(o.path.ev) if e.k == "call" and last(str(e.qn)) == "switch_streams"]
            parses = [e for e in all_events(o.path.ev) if e.k == "call" and last(str(e.qn)) == "yyparse"]
            if len(reads) != 2 or not reads[1].args:
                return None
            if len(parses) != 2:
                return "is parsed %d times" % len(parses)
            t = reads[1].args[0]
            if t[0] != "addr" or t[1][0] != "heap":
                return None
            cls = t[1][2]
            v = o.path.S.store.get(t[1])
            while isinstance(v, tuple) and v[0] in ("mut", "new") and len(v) > 2:
                v = v[2]
            if v != ("init", ("param", 1)):
                return None
            if "ifstream" in cls and "istringstream" not in cls:
                return "is opened as a file" if literal else True
            if "stringstream" in cls:
                return True if literal else "is parsed as the problem itself"
            return None
        return chk
    for fn in ctors(W, 3):
        for n, t, literal in texts:
            W.eval("source." + n, fn, PRIM, {0: word("domain file"), 1: Text(*t), 2: False}, None, check(literal),
                   "a problem given as " + n, made=made, method=method)
