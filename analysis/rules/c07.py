"""C07: formulas are evaluated by the semantics of PDDL."""
from common import *
from rules.seqs import *

LEVEL = "other"
EXPLAIN = ("The creator of evaluation functions is summarised path by path for states and for partial states, and so is every "
           "evaluation function it returns, with sub-formulas opaque. For each kind of goal the function must be the PDDL "
           "meaning over the sub-formulas' values: equality and type tests for all argument values, membership of the "
           "proposition for the others, folds over all sub-goals or over all objects of the quantified types with the "
           "variables in scope. By induction over the goal every formula of every depth is evaluated right. Nothing is executed.")

NS = "(anonymous namespace)::"
CAF = "symbolic::Formula::CreateApplicationFunction"
PRIM = ["symbolic::Object::*", "symbolic::Formula::*", "symbolic::Proposition::*", "symbolic::PropositionBase::*",
        "symbolic::Pddl::*", "symbolic::State::*", "symbolic::PartialState::*", "symbolic::PropositionRef::*",
        "symbolic::ParameterGenerator::*", "symbolic::CombinationGenerator<*", "symbolic::operator=="]
KINDS = [("simple", "VAL::simple_goal"), ("conj", "VAL::conj_goal"), ("disj", "VAL::disj_goal"), ("neg", "VAL::neg_goal"),
         ("quant", "VAL::qfied_goal")]
WHAT = {"simple": "a proposition", "conj": "a conjunction", "disj": "a disjunction", "neg": "a negation",
        "forall": "a forall", "exists": "an exists"}
STATE, ARGS = ("param", 100), ("param", 101)


def run(ctx):
    prog = ctx.program(["src/formula.cc"], [])
    M = {}
    ctx.group("formula", entry, ctx, prog, M)
    for fn in M.get("creators", []):
        ctx.group("meaning", creator, ctx, prog, fn)
    ctx.group("evaluate", evaluate, ctx, prog, M)
    ctx.group("bind", binding, ctx, prog)


def is_partial(s):
    return "PartialState" in s


# ---- terms ----------------------------------------------------------------------

def nrm(t):
    """A term without the difference between an object and a pointer or reference to it."""
    if not isinstance(t, tuple):
        return t
    t = tuple(nrm(x) if isinstance(x, tuple) else x for x in t)
    if t and t[0] == "dyncast":
        return t[2]
    if t and t[0] == "init" and t[1][0] == "deref":
        return t[1][1]
    if t and t[0] == "refto":
        return ("call",) + t[1:]
    if t and t[0] == "addr":
        return t[1]
    if t and t[0] == "init":
        return t[1]
    if t and t[0] == "deref":
        return t[1]
    if t and t[0] == "elem":
        return ("idx",) + t[1:]
    return t


def is_hash_of(t, name):
    return t[0] == "call" and "hash" in t[1] and nrm(t[-1]) == name


KNOWN = ("VAL::", "symbolic::Object::CreateList", "symbolic::Object::type", "symbolic::Object::name", "symbolic::Object::hash",
         "symbolic::Object::Type::", CAF, "symbolic::operator==", "symbolic::State::contains", "symbolic::PartialState::contains",
         "symbolic::PartialState::does_not_contain", "symbolic::Pddl::object_map", NS, "symbolic::PropositionRef",
         "symbolic::Proposition", "symbolic::ParameterGenerator", "std::")


def closed(t):
    """A term over the goal, the arguments and the state through functions whose meaning is known."""
    for x in walk(t):
        if x[0] in ("call", "refto", "new"):
            if not x[1].startswith(KNOWN) and "hash" not in x[1]:
                return False
        elif x[0] in ("ret", "phi", "heap", "sym", "mut", "cap", "itr", "ite"):
            return False
    return True


class Goal:
    """The terms a goal of the creator's parameter is made of."""

    def __init__(self, fn, gi, pi, ppi):
        self.fn = fn
        self.goal = ("init", ("param", gi))
        self.params, self.pddl = ("init", ("param", ppi)), ("param", pi)

    def prop(self, simple):
        return ("call", "VAL::simple_goal::getProp", simple)

    def name(self, simple):
        return ("call", "VAL::symbol::getNameRef", ("fld", self.prop(simple), "head"))

    def alt_names(self, simple):
        return (self.name(simple), ("call", "VAL::symbol::getName", ("fld", self.prop(simple), "head")))

    def is_name(self, t, simple):
        return nrm(t) in self.alt_names(nrm(simple))

    def applied(self, simple):
        simple = nrm(simple)
        lst = ("call", "symbolic::Object::CreateList", nrm(self.pddl), ("fld", self.prop(simple), "args"))
        return ("apply", ("call", CAF, nrm(self.params), lst), ARGS)


def atom_simple(G, t, simple):
    """('same'|'type'|'in', polarity) of a condition on the applied proposition of a simple goal."""
    ap = G.applied(simple)
    if t[0] in ("call", "eq") and (t[0] == "eq" or t[1] == "symbolic::operator==") and len(t) >= 3:
        a, b = nrm(t[-2]), nrm(t[-1])
        if {a, b} == {("idx", ap, I(0)), ("idx", ap, I(1))}:
            return "same", True
        pair = {("idx", ap, I(0)), ("idx", ap, I(1))}
        for part, what in (("symbolic::Object::type", "kin"), ("symbolic::Object::name", "same")):
            if a[0] in ("call", "refto") and b[0] == a[0] and a[1] == b[1] == part and {a[-1], b[-1]} == pair:
                return what, True
    if t[0] == "call" and t[1] == "symbolic::Object::Type::IsSubtype" and len(t) == 4:
        ty = nrm(t[2])
        if ty == ("call", "symbolic::Object::type", ("idx", ap, I(0))) and G.is_name(t[3], simple):
            return "type", True
    if t[0] == "call" and t[1] in ("symbolic::State::contains", "symbolic::PartialState::contains",
                                   "symbolic::PartialState::does_not_contain") and len(t) == 4:
        if nrm(t[2]) == STATE and is_prop(G, t[3], simple, ap):
            return "in", not t[1].endswith("does_not_contain")
    return None


def is_prop(G, t, simple, ap):
    if t[0] in ("addr",):
        t = t[1]
    if t[0] != "new" or not t[1].startswith("symbolic::Proposition"):
        return False
    a = [x for x in t[2:]]
    if len(a) < 2 or not G.is_name(a[0], simple) or nrm(a[1]) != ap:
        return False
    return len(a) == 2 or len(a) == 3 and any(is_hash_of(a[2], n) for n in G.alt_names(nrm(simple)))


def atom_name(G, t, simple):
    """('eq'|'istype', polarity) of a condition on a simple goal's predicate."""
    if t[0] == "eq":
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if b == ("str", "=") and G.is_name(a, simple):
                return "eq", True
            if b[0] == "itr" and b[2] == "end" and a[0] == "itr" and a[1] == b[1] and a[2][0] in ("find",) and \
                    is_map(G, ("init", b[1])) and G.is_name(a[2][2], simple):
                return "istype", False
    if t[0] in ("haskey", "member") and is_map(G, t[1] if t[0] == "haskey" else t[1]) and G.is_name(t[2], simple):
        return "istype", True
    if t[0] in ("pos", "eq0") and t[1][0] in ("call", "count") and is_map(G, t[1][-2]) and G.is_name(t[1][-1], simple):
        return "istype", t[0] == "pos"
    return None


def is_map(G, t):
    return nrm(t) == ("call", "symbolic::Pddl::object_map", nrm(G.pddl))


# ---- Formula ----------------------------------------------------------------------

def entry(ctx, prog, M):
    P = field_by_type(prog, "symbolic::Formula", lambda t: t.cls == "std::function" and not is_partial(t.s))
    PP = field_by_type(prog, "symbolic::Formula", lambda t: t.cls == "std::function" and is_partial(t.s))
    if len(P) != 1 or len(PP) != 1:
        raise AnalysisError("Formula: evaluation functions not found")
    M["P"], M["PP"] = ("fld", ("this",), P[0]), ("fld", ("this",), PP[0])
    names = set()
    for fn in prog.find("symbolic::Formula::Formula"):
        if len(fn.f["p"]) != 3:
            if len(fn.f["p"]) == 2:
                top(ctx, prog, fn)
            continue
        ts = [fn.tu.type(x["t"]) for x in fn.f["p"]]
        order = [("init", ("param", i)) if t.ptr else ("param", i) for i, t in enumerate(ts)]
        for p in ctx.run(prog, fn, PRIM + [NS + "*"]):
            if p.kind != "return":
                ctx.expect("formula.throws", None, "construction fails", last_loc(p, fn), fn.qn)
                continue
            for q in ("P", "PP"):
                v = final(p, M[q])
                c = v[1] if v[0] == "get" and v[2] == "first" else v
                if c[0] != "call" or not c[1].startswith(NS):
                    if v[0] == "init" or v[0] == "new" and len(v) == 2:
                        ctx.expect("formula.set", False, "%s: an evaluation function is never set" % fn.qn, fn.loc, fn.qn)
                    else:
                        ctx.expect("formula.set", None, "evaluation function not recognised", fn.loc, fn.qn)
                    continue
                names.add(c[1])
                got = [nrm(x) for x in c[2:]]
                want = [nrm(x) for x in order]
                ok = sorted(map(repr, got)) == sorted(map(repr, want))
                ctx.expect("formula.set", True if ok else False if all(closed(x) for x in c[2:]) else None,
                           "%s: the formula is not made of the goal, parameters and Pddl given" % fn.qn, fn.loc, fn.qn)
            sym = field_by_type(prog, "symbolic::Formula", lambda t: t.ptr and "goal" in t.s)
            if len(sym) == 1:
                s = final(p, ("fld", ("this",), sym[0]))
                ctx.expect("formula.symbol", True if nrm(s) in [nrm(x) for x in order] else None,
                           "the goal is not remembered", fn.loc, fn.qn)
    done, out = set(), []
    for n in sorted(names):
        for fn in prog.find(n):
            out.append(fn)
    M["creators"] = out
    if not out:
        ctx.undecide("formula.creators", "no creator found")


def top(ctx, prog, fn):
    pass


def evaluate(ctx, prog, M):
    for fn in prog.find("symbolic::Formula::operator()"):
        ps = fn.f["p"]
        part = is_partial(fn.tu.type(ps[0]["t"]).s)
        f = ("init", M["PP" if part else "P"])
        args = ("param", 1) if len(ps) == 2 else None
        oid = "evaluate." + ("partial" if part else "state")
        for p in ctx.run(prog, fn, [x for x in PRIM if x != "symbolic::Formula::*"] + [NS + "*"]):
            caught = any(e.k == "catch" for e in p.ev)
            if p.kind != "return":
                # Other failures may pass.
                continue
            v = p.value
            if isinstance(v, L):
                ctx.expect(oid, None, "result not recognised", fn.loc, fn.qn)
                continue
            if part and caught:
                ctx.expect(oid + ".unknown", True if v == NONE else (False if v[0] == "some" and closed(v) else None),
                           "%s: an unknown value is not reported as unknown" % fn.qn, last_loc(p, fn), fn.qn)
                continue
            if part and v[0] == "some":
                v = v[1]
            elif part:
                ctx.expect(oid, None if v != NONE else (None if p.facts else False),
                           "%s: a known value is reported as unknown" % fn.qn, fn.loc, fn.qn)
                continue
            ok = v[0] == "apply" and v[1] == f and nrm(v[2]) == ("param", 0) and (
                nrm(v[3]) == args if args else v[3] in (("list",), ("emptyc",)) or v[3][0] == "new" and len(v[3]) == 2)
            own = {("init", M["P"]), ("init", M["PP"])}
            bad = v[0] == "bool" and not p.facts or v[0] == "not" and v[1][0] == "apply" and v[1][1] in own or \
                v[0] == "apply" and v[1] in own and not ok and closed(v)
            ctx.expect(oid, True if ok else False if bad and not p.facts else None,
                       "%s: the result is not the formula's value on the state and arguments" % fn.qn, fn.loc, fn.qn)


# ---- creators -----------------------------------------------------------------------

def creator(ctx, prog, fn):
    ts = [fn.tu.type(x["t"]) for x in fn.f["p"]]
    gi = [i for i, t in enumerate(ts) if t.ptr and "goal" in t.s]
    pi = [i for i, t in enumerate(ts) if "Pddl" in t.s]
    vi = [i for i, t in enumerate(ts) if "vector" in t.s]
    if len(gi) != 1 or len(pi) != 1 or len(vi) != 1:
        ctx.undecide("meaning.creator", "parameters of %s not recognised" % fn.qn)
        return
    G = Goal(fn, gi[0], pi[0], vi[0])
    G.order = (pi[0], gi[0], vi[0])
    part = is_partial(fn.tu.type(fn.f["ret"]).s if "ret" in fn.f else fn.decl.ret.s)
    G.tag = "partial" if part else "state"
    rows = {}
    for p in ctx.run(prog, fn, PRIM):
        k, extra, dead = kind_of(G, p)
        if dead:
            continue
        rows.setdefault(k, []).append((p, extra))
    G.last = ctx.last
    for k in ("simple", "conj", "disj", "neg", "forall", "exists"):
        oid = "meaning.%s.%s" % (G.tag, k)
        if k not in rows:
            ctx.undecide(oid, "no path for %s" % WHAT[k])
            continue
        ctx.group(oid, one_kind, ctx, prog, G, k, rows[k], oid)
    for p, extra in rows.get("other", []):
        ctx.expect("meaning.%s.other" % G.tag, True if p.kind == "throw" else None,
                   "unknown goals are evaluated", last_loc(p, fn), fn.qn)


def kind_of(G, p):
    """(kind, facts that are not about the kind, infeasible)."""
    kinds, quant, extra = {}, {}, []
    g = nrm(G.goal)
    for a, v in p.facts:
        a, pol = strip(a)
        v = v == pol
        if a[0] == "isnull" and a[1][0] == "dyncast" and nrm(a[1][2]) == g:
            k = [n for n, c in KINDS if c == a[1][1]]
            if k:
                kinds[k[0]] = not v
                continue
        if a[0] == "eq" and any(nrm(x) == ("call", "VAL::qfied_goal::getQuantifier", g) for x in a[1:]):
            e = [x for x in a[1:] if x[0] == "enum"]
            if e:
                quant[e[0][1].rsplit("::", 1)[-1]] = v
                continue
        extra.append((a, v))
    yes = [k for k, v in kinds.items() if v]
    if len(yes) > 1:
        return None, extra, True
    if not yes:
        return ("other" if len(kinds) == 5 else None), extra, False
    k = yes[0]
    if k == "quant":
        if quant.get("E_FORALL") or quant.get("E_EXISTS") is False and not quant.get("E_FORALL", True) is False:
            k = "forall"
        elif quant.get("E_EXISTS") or quant.get("E_FORALL") is False and quant.get("E_EXISTS", True) is not False:
            k = "exists"
        elif quant.get("E_EXISTS") is False and quant.get("E_FORALL") is False:
            return "other", extra, True
        else:
            k = None
        if quant.get("E_FORALL") and quant.get("E_EXISTS"):
            return None, extra, True
    return k, extra, False


def closures(G, p):
    """The evaluation function a path returns: (paths, None) or (None, why)."""
    v = p.value
    if isinstance(v, L):
        v = p.S.store.get(v.p, ("init", v.p))
    f = engine.project(v, "first")
    if f[0] == "get":
        f = v
    if f[0] != "lam":
        return None, f
    return G.last.run_closure(f, args=[L(STATE), L(ARGS)]), f


def recursive(G, goal, params_ok):
    """Test for the value of a sub-formula: goal(t) and params_ok(t) recognise its parts."""
    def f(t):
        if t[0] != "apply" or len(t) != 4:
            return False
        c = t[1]
        if c[0] == "get" and c[2] == "first":
            c = c[1]
        if c[0] != "call" or not c[1] == G.fn.qn or len(c) != 5:
            return False
        a = c[2:]
        return nrm(a[G.order[0]]) == nrm(G.pddl) and goal(a[G.order[1]]) and params_ok(a[G.order[2]]) and \
            nrm(t[2]) == STATE
    return f


def one_kind(ctx, prog, G, k, rows, oid):
    fn = G.fn
    cases = []      # (facts, closure path, outer path)
    for p, extra in rows:
        if p.kind == "throw":
            # A goal of a known kind must be evaluated.
            ctx.expect(oid, False if not extra else None, "%s: %s is not evaluated" % (fn.qn, WHAT[k]), last_loc(p, fn), fn.qn)
            continue
        qs, f = closures(G, p)
        if qs is None:
            whole = f[0] == "get" and f[2] == "first" and f[1][0] == "call" and f[1][1] == fn.qn
            ctx.expect(oid, False if whole and not extra and closed(f) else None,
                       "%s: the function for %s is not recognised" % (fn.qn, WHAT[k]), last_loc(p, fn), fn.qn)
            continue
        cases.append((p, extra, qs))
    if not cases:
        return
    if k in ("simple", "neg"):
        leafs(ctx, G, k, cases, oid)
    elif k in ("conj", "disj"):
        for p, extra, qs in cases:
            junction(ctx, G, k, p, extra, qs, oid)
    else:
        for p, extra, qs in cases:
            quantifier(ctx, G, k, p, extra, qs, oid)


class Case:
    def __init__(self, facts, value, path):
        self.facts, self.value, self.kind, self.ev = facts, value, "return", path.ev


def same_args(t):
    return nrm(t) == ARGS


def leafs(ctx, G, k, cases, oid):
    goal = G.goal
    if k == "neg":
        inner = ("call", "VAL::neg_goal::getGoal", nrm(goal))
        simple = inner
        rec = recursive(G, lambda t: nrm(t) == inner, lambda t: nrm(t) == nrm(G.params))
    else:
        simple, rec = goal, None
    paths = []
    for p, extra, qs in cases:
        for q in qs:
            if q.kind != "return" or isinstance(q.value, L):
                ctx.undecide(oid, "an evaluation that may fail")
                continue
            if any(e.k in ("catch", "loop") for e in all_events(q.ev)):
                ctx.undecide(oid, "an evaluation with loops or caught failures")
                continue
            paths.append(Case(extra + [f for f in q.facts if f not in extra], q.value, q if q.ev else p))

    def leaf(env, t):
        a = atom_simple(G, t, simple) or atom_name(G, t, simple)
        if a is not None and a[0] == "kin":
            return env["same"] or env["kin"]
        if a is not None:
            return env[a[0]] == a[1]
        if rec is not None and rec(t) and same_args(t[3]):
            return env["sub"]
        if k == "neg" and t[0] == "isnull" and t[1] == ("dyncast", "VAL::simple_goal", t[1][-1]) and nrm(t[1]) == simple:
            return not env["isimple"]
        return None

    def want(env):
        w = env["same"] if env["eq"] else env["type"] if env["istype"] else env["in"]
        if k == "neg":
            return not env["sub"]
        return w

    envs = []
    names = ["eq", "istype", "same", "type", "in", "kin"] + (["isimple", "sub"] if k == "neg" else [])
    for bits in itertools.product((True, False), repeat=len(names)):
        e = dict(zip(names, bits))
        if k == "neg" and e["isimple"]:
            w = e["same"] if e["eq"] else e["type"] if e["istype"] else e["in"]
            if e["sub"] != w:
                continue
        envs.append(e)

    def outcome(env, c):
        got = value_of(c.value, lambda t: leaf(env, t))
        if got is None:
            return (False if closed(c.value) else None), "the result is not %s" % meaning(env, k)
        return bool(got) == want(env), "the result is not %s" % meaning(env, k)

    def name(env):
        if k == "neg" and not env["isimple"]:
            return "a goal is negated"
        w = "the predicate is =" if env["eq"] else "the predicate is a type" if env["istype"] else "the predicate is ordinary"
        return w + (" and negated" if k == "neg" else "")

    class F:
        qn, loc = G.fn.qn, G.fn.loc
    if paths:
        by_cases(ctx, oid, F, paths, envs, leaf, outcome, name)


def meaning(env, k):
    if k == "neg" and not env["isimple"]:
        return "the opposite of the sub-goal's"
    w = "whether the two arguments are equal" if env["eq"] else \
        "whether the argument is of the type" if env["istype"] else "whether the state contains the proposition"
    return w if k != "neg" else "the opposite of " + w


def bad_or_none(ctx, oid, fold, paths, G, what):
    r = fold.verdict(paths)
    ctx.expect(oid, r, "%s: %s: %s" % (G.fn.qn, what, fold.why), fold.loc or G.fn.loc, G.fn.qn)


def junction(ctx, G, k, p, extra, qs, oid):
    cls = "VAL::%s_goal" % k
    goals = ("call", cls + "::getGoals", nrm(G.goal))
    if any(a[0] != "more" and not linear_atom(a) and not about_size(a, goals) for a, v in extra):
        ctx.undecide(oid, "an unrecognised condition on the goal")
        return
    whole = lambda v: nrm(v) == goals

    def sub_formulas(v):
        """Whether a collection holds the sub-goals' functions: True, False or None."""
        s = sequence(p, v, whole)
        if s is None:
            return None
        if not s:
            return False
        if len(s) != 1 or not isinstance(s[0], Each):
            return None
        e = s[0]
        c = None
        for o in e.lp.over:
            if nrm(o) == goals:
                c = covers(e.lp, o)
                if c is False and e.lp.dir == "desc":
                    c = True if covers_any(e.lp, o) else None
        if c is not True:
            return c
        if e.done is not True:
            return False if e.done is False else None
        for ip, items in e.rows:
            if ip.flow is not None or items is None:
                return None
            known = all(a[0] == "more" or bound(a, e.lp) or linear_atom(a) and all(
                x[0] == "phi" and x[2] == v[2] for y in walk(a) if y[0] == "size" for x in walk(y) if x[0] == "phi")
                for a, _ in ip.facts)
            if len(items) != 1:
                return False if not items and (known or all(closed(a) or a[0] == "more" for a, _ in ip.facts)) else None
            rec = recursive(G, lambda t: nrm(t) in [("idx", goals, i) for i in its(e.lp)], lambda t: nrm(t) == nrm(G.params))
            if not rec(("apply", items[0], STATE, ARGS)):
                return False if closed(items[0]) and known and wrong_sub(items[0]) else None
        return True

    def wrong_sub(t):
        return any(x[0] == "call" and x[1] == G.fn.qn for x in walk(t))

    colls = {}

    def coll(lp):
        for o in candidates(lp):
            if o not in colls:
                colls[o] = sub_formulas(o)
            c = colls[o]
            if c is None:
                continue
            if c is False:
                return False
            r = covers(lp, o)
            if r is False and lp.dir == "desc" and covers_any(lp, o):
                r = True
            return r
        return None

    def elem(t, lp):
        if t[0] == "apply" and len(t) == 4 and nrm(t[2]) == STATE and same_args(t[3]):
            for o in candidates(lp):
                if t[1] in elems(lp, o):
                    return True
        return None

    def size(t):
        return t[0] == "size" and (nrm(t[1]) == goals or sub_formulas(t[1]) is True)

    f = Fold("all" if k == "conj" else "any", elem, coll, size, closed)
    bad_or_none(ctx, oid, f, qs, G, WHAT[k])


def covers_any(lp, o):
    """A backwards loop over everything."""
    return lp.dir == "desc" and (o in lp.over)


def about_size(a, goals):
    return any(x[0] == "size" and nrm(x[1]) == goals for x in walk(a)) and linear_atom(a)


def quantifier(ctx, G, k, p, extra, qs, oid):
    g = nrm(G.goal)
    vars_ = ("call", "symbolic::Object::CreateList", nrm(G.pddl), ("call", "VAL::qfied_goal::getVars", g))
    body = ("call", "VAL::qfied_goal::getGoal", g)
    params = nrm(G.params)
    if any(a[0] != "more" and not linear_atom(a) and not text_only(a) for a, v in extra):
        ctx.undecide(oid, "an unrecognised condition on the goal")
        return
    wh = lambda v: nrm(v) in (params, vars_)

    def scope(v):
        s = parts(p, v, wh)
        return None if s is None else [nrm(x[1]) if x[0] == "all" else x for x in s]

    scopes = []

    def in_scope(v):
        s = scope(v)
        scopes.append(s)
        return s == [params, vars_]

    rec = recursive(G, lambda t: nrm(t) == body, in_scope)

    def gen(o):
        """The types a collection enumerates the objects of: True, False or None."""
        if o[0] == "new" and o[1] == "symbolic::ParameterGenerator" and len(o) == 4:
            ty = [x for x in o[2:] if nrm(x) != nrm(G.pddl)]
            if len(ty) != 1:
                return None
            s = scope(ty[0])
            if s == [vars_]:
                return True
            return False if s is not None and all(x in (params, vars_) for x in s) else None
        return None

    def coll(lp):
        for o in lp.over:
            c = gen(o)
            if c is None:
                continue
            if c is False:
                return False
            return covers(lp, o) if lp.dir != "desc" else True
        return None

    def elem(t, lp):
        if t[0] != "apply" or len(t) != 4:
            return None
        combos = [o for o in lp.over if gen(o)]
        if not combos or not rec(t):
            return None
        el = [nrm(x) for o in combos for x in elems(lp, o)]

        class P2:
            ev = [e for q in qs for e in q.ev]
        s = parts(P2, t[3], lambda v: nrm(v) == ARGS or nrm(v) in el)
        if s is None or len(s) != 2 or any(x[0] != "all" for x in s):
            return None
        return True if nrm(s[0][1]) == ARGS and nrm(s[1][1]) in el else None

    f = Fold("all" if k == "forall" else "any", elem, coll, lambda t: False, closed)
    r = f.verdict(qs)
    if r is None and "unrecognised" in f.why:
        w = wrong_scope(G, p, qs, rec, body, scopes, params, vars_, gen)
        if w:
            r, f.why = False, w
    ctx.expect(oid, r, "%s: %s: %s" % (G.fn.qn, WHAT[k], f.why), f.loc or G.fn.loc, G.fn.qn)


def text_only(a):
    """A condition on the list of parameters or on a string being built."""
    return all(x[0] not in ("apply",) for x in walk(a)) and not any(
        x[0] == "call" and x[1].startswith(("VAL::", "symbolic::Object::Type")) for x in walk(a))


def wrong_scope(G, p, qs, rec, body, scopes, params, vars_, gen):
    """Why the sub-goal is evaluated with the wrong variables, if that is certain."""
    for q in qs:
        for e in q.ev:
            if e.k != "loop":
                continue
            lp = e.loop
            for ip in lp.paths:
                for a, v in ip.facts:
                    a = strip(a)[0]
                    if a[0] != "apply" or len(a) != 4 or nrm(a[2]) != STATE:
                        continue
                    c = a[1][1] if a[1][0] == "get" else a[1]
                    if c[0] != "call" or c[1] != G.fn.qn:
                        continue
                    gl, pr = nrm(c[2:][G.order[1]]), c[2:][G.order[2]]
                    if gl != body:
                        continue
                    s = parts(p, pr, lambda v: nrm(v) in (params, vars_))
                    s = None if s is None else [nrm(x[1]) if x[0] == "all" else x for x in s]
                    if s is None or any(x not in (params, vars_) for x in s):
                        continue
                    if s != [params, vars_] and s != [vars_, params]:
                        return "the sub-goal does not know all its variables"
                    el = [nrm(x) for o in lp.over for x in elems(lp, o)]

                    class P2:
                        ev = [x for q2 in qs for x in q2.ev]
                    t = a[3]
                    if t[0] == "mut" and t[1] == "append" and t[2][:2] == ("phi", lp.id) and \
                            ip.S.store.get(t[2][2]) == t and t[3][0] == "range" and nrm(t[3][1]) in el:
                        return "the values of earlier objects are kept"
                    t = parts(P2, a[3], lambda v: nrm(v) == ARGS or nrm(v) in el)
                    if t is None or any(x[0] != "all" for x in t):
                        continue
                    t = [nrm(x[1]) for x in t]
                    names = ["params" if x == params else "vars" for x in s]
                    vals = ["params" if x == ARGS else "vars" for x in t]
                    if names != vals:
                        return "the sub-goal's variables do not get their own values"
                    if s == [vars_, params]:
                        return "an inner variable is shadowed by an outer one"
    return None


# ---- binding ------------------------------------------------------------------------

def binding(ctx, prog):
    for fn in prog.find(CAF):
        for p in ctx.run(prog, fn, PRIM):
            bind_path(ctx, prog, fn, p)


def bind_path(ctx, prog, fn, p):
    oid = "bind"
    if p.kind != "return" or isinstance(p.value, L) or p.value[0] != "lam":
        ctx.expect(oid, None, "the function is not recognised", fn.loc, fn.qn)
        return
    acts, props = ("param", 0), ("param", 1)
    it = ctx.last
    for q in it.run_closure(p.value, args=[L(ARGS)]):
        loops = [e.loop for e in q.ev if e.k == "loop"]
        if q.kind != "return":
            ctx.expect(oid, None, "an application that may fail", fn.loc, fn.qn)
            continue
        lv = q.value.p if isinstance(q.value, L) else None
        if lv is None:
            ctx.expect(oid, None, "the applied arguments are not recognised", fn.loc, fn.qn)
            continue
        if any(a[0] != "more" and not any(bound(a, l) for l in loops) for a, v in q.facts):
            ctx.expect(oid, None, "a condition that is not recognised", fn.loc, fn.qn)
            continue
        if root(lv)[0] in ("var", "tmp"):
            ctx.expect(oid, None, "the result may be gone", fn.loc, fn.qn)
            continue
        start = p.S.store.get(lv)
        got = q.S.store.get(lv, ("init", lv))
        if start is None:
            ctx.expect(oid, None, "the arguments' start is not recognised", fn.loc, fn.qn)
            continue
        s0 = nrm(start)
        ok = s0 == props or s0[0] == "new" and len(s0) == 3 and s0[2] == props
        if not ok:
            ctx.expect(oid + ".start", False if s0 in (acts, ("list",), ("emptyc",)) else None,
                       "%s: constants are not kept" % fn.qn, fn.loc, fn.qn)
            continue
        if not loops:
            ctx.expect(oid, False if got in (("init", lv), start) and not q.facts else None,
                       "%s: no parameter is replaced by its argument" % fn.qn, fn.loc, fn.qn)
            continue
        if len(loops) != 1:
            ctx.expect(oid, None, "the replacement is not recognised", fn.loc, fn.qn)
            continue
        replacement(ctx, fn, p, q, loops[0], lv, oid, acts, props)


def replacement(ctx, fn, p, q, lp, lv, oid, acts, props):
    pairs = None
    for o in lp.over:
        s = sequence(p, o)
        if s is not None and len(s) == 1 and isinstance(s[0], Each):
            pairs = (o, s[0])
    if pairs is None:
        ctx.expect(oid, None, "the list of replacements is not recognised", lp.loc, fn.qn)
        return
    o, e = pairs
    back = lp.dir == "desc"
    if not (covers(lp, o) is True or back):
        ctx.expect(oid, covers(lp, o), "%s: not every replacement is made" % fn.qn, lp.loc, fn.qn)
        return
    for ip in lp.paths:
        if ip.flow is not None or any(a[0] != "more" and not bound(a, lp) for a, v in ip.facts):
            ctx.expect(oid, None, "a replacement that is not recognised", lp.loc, fn.qn)
            return
        w = ip.S.store.get(lv)
        el = elems(lp, o)
        first = [engine.project(x, "first") for x in el]
        second = [engine.project(x, "second") for x in el]
        ok = w is not None and w[0] == "mut" and w[1] == "[]=" and w[2] == ("phi", lp.id, lv) and w[3] in first and \
            nrm(w[4]) in [("idx", ARGS, nrm(x)) for x in second]
        swapped = w is not None and w[0] == "mut" and w[1] == "[]=" and w[3] in second and \
            nrm(w[4]) in [("idx", ARGS, nrm(x)) for x in first]
        if not ok and not swapped:
            mixed = w is not None and w[0] == "mut" and w[1] == "[]=" and w[3] in first + second and \
                nrm(w[4]) in [("idx", ARGS, nrm(x)) for x in first + second]
            ctx.expect(oid, False if mixed else None, "a replacement that is not recognised", lp.loc, fn.qn)
            return
        pair_list(ctx, fn, p, e, oid, acts, props, swapped, back)


def pair_list(ctx, fn, p, e, oid, acts, props, swapped, back):
    """The pairs (proposition index, parameter index) are those of equal objects, the last parameter winning."""
    lp = e.lp
    if e.done is not True:
        ctx.expect(oid, False if e.done is False else None, "%s: the search for parameters stops early" % fn.qn, lp.loc, fn.qn)
        return

    def rng(l):
        for x in (props, acts):
            c = None
            if ("init", x) in candidates(l):
                c = covers(l, ("init", x))
                if l.dir == "desc":
                    c = True if ("init", x) in l.over else None
                if c is True:
                    return x
        return None

    def partial(l):
        return any(("init", x) in candidates(l) and covers(l, ("init", x)) is False for x in (props, acts)) and \
            l.dir != "desc"

    outer = rng(lp)
    if outer is None:
        ctx.expect(oid, False if partial(lp) else None, "%s: not every argument is looked at" % fn.qn, lp.loc, fn.qn)
        return
    for ip, items in e.rows:
        inner = [x.loop for x in ip.events if x.k == "loop"]
        oi = ("idx", outer, ("iter", lp.id))
        ovar = [w for w in (is_variable(a, v, oi) for a, v in ip.facts) if w is not None] if outer == props else []
        if False in ovar and not inner and items == [] and ip.flow is None:
            continue
        if ip.flow is not None or len(inner) != 1:
            ctx.expect(oid, None, "the search for parameters is not recognised", lp.loc, fn.qn)
            return
        il = inner[0]
        ri = rng(il)
        if ri is None or {ri, outer} != {props, acts}:
            ctx.expect(oid, False if partial(il) else None, "%s: not every parameter is looked at" % fn.qn, il.loc, fn.qn)
            return
        left = [x.extra != "exit" for x in ip.events if x.k == "loop"][0]
        ol, nl = its(lp)[lp.dir == "desc"], its(il)[il.dir == "desc"]
        pi, ai = (ol, nl) if outer == props else (nl, ol)
        al = lp if outer == acts else il
        # What one pair of indices adds: in the inner loop, or on the way out of it.
        if left:
            facts = [f for f in ip.facts if f not in [g for jp in il.paths if jp.flow is None for g in jp.facts] or
                     matches(f[0], pi, ai, acts, props)]
            steps = [(facts, [pushed_pair(x) for x in items] if items is not None else [None], True)]
        else:
            steps = []
        for jp in il.paths:
            pushed = []
            for lv, w in jp.S.store.items():
                while w[0] == "mut" and w[1] in ("emplace_back", "push_back"):
                    pushed.append(pushed_pair(w[3] if len(w) == 4 else ("args",) + w[3:]))
                    w = w[2]
            if jp.flow is None or pushed:
                steps.append((jp.facts, pushed, jp.flow is not None))
        for facts, pushed, stop in steps:
            same, unknown, how = None, [], None
            var = ovar[0] if ovar else None
            for a, v in facts:
                if a[0] == "more" or bound(a, il) or bound(a, lp):
                    continue
                w = is_variable(a, v, ("idx", props, pi))
                if w is not None:
                    var = w
                    continue
                m = matches(a, pi, ai, acts, props)
                if m is None:
                    unknown.append(a)
                else:
                    how, v2 = m
                    same = v == v2
            if None in pushed or len(pushed) > 1:
                ctx.expect(oid, None, "the list of replacements is not recognised", il.loc, fn.qn)
                return
            want = (ai, pi) if swapped else (pi, ai)
            if unknown:
                ctx.expect(oid, None, "%s: a condition that is not recognised: %s" % (fn.qn, show(unknown[0])[:120]),
                           il.loc, fn.qn)
                return
            if pushed and pushed[0] != want:
                ctx.expect(oid, False if pushed[0] == want[::-1] else None,
                           "%s: arguments and parameters are confused" % fn.qn, il.loc, fn.qn)
                return
            if same is None and not pushed and var is False:
                continue
            if same is True and var is False and how == "name":
                ctx.expect("bind.constants", not pushed, "%s: a constant is replaced by an argument" % fn.qn, il.loc, fn.qn)
                continue
            if bool(pushed) != (same is True):
                ctx.expect(oid, False, "%s: an argument that is %s is %s" % (
                    fn.qn, "no parameter" if pushed else "a parameter", "replaced" if pushed else "not replaced"),
                    il.loc, fn.qn)
                return
            if stop and not (pushed and al is il):
                ctx.expect(oid, False if not pushed and al is il else None,
                           "%s: the search for parameters stops before the parameter is found" % fn.qn, il.loc, fn.qn)
                return
            if stop and al.dir != "desc" or not stop and pushed and (al.dir == "desc") != back:
                ctx.expect(oid, False, "%s: an outer variable hides an inner one of the same name" % fn.qn, il.loc, fn.qn)
                return
            if pushed and how == "name" and var is not True:
                ctx.expect("bind.constants", False,
                           "%s: a constant is replaced by the argument of a variable of the same name" % fn.qn, il.loc, fn.qn)
    ctx.ok(oid)


def pushed_pair(t):
    return (t[1], t[2]) if t[0] in ("pair", "args") and len(t) == 3 else None


def is_variable(a, v, x):
    """What a fact says about whether an object is a variable."""
    a, pol = strip(a)
    if a[0] == "isnull" and a[1][0] == "dyncast" and nrm(a[1]) == ("call", "symbolic::Object::symbol", x):
        if a[1][1] in ("VAL::var_symbol", "const VAL::var_symbol"):
            return v != pol
        if a[1][1] in ("VAL::const_symbol",):
            return v == pol
    return None


def matches(a, pi, ai, acts, props):
    """How a condition says that the proposition's argument is the parameter: ('name'|'symbol', polarity)."""
    x, y = ("idx", props, pi), ("idx", acts, ai)
    if a[0] == "call" and a[1] == "symbolic::operator==" and {nrm(a[2]), nrm(a[3])} == {x, y}:
        return "name", True
    if a[0] == "eq":
        s = {nrm(a[1]), nrm(a[2])}
        if s == {x, y}:
            return "name", True
        for f, how in (("symbol", "symbol"), ("name", "name")):
            if s == {("call", "symbolic::Object::" + f, x), ("call", "symbolic::Object::" + f, y)}:
                return how, True
    return None


def root(lv):
    while lv[0] in ("fld", "idx"):
        lv = lv[1]
    return lv
