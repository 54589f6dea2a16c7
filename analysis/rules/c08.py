"""C08: applying an action has exactly its PDDL effects."""
from common import *
from rules.seqs import *
from rules import c07
from rules.c07 import nrm, NS, CAF, STATE, ARGS, PRIM as FPRIM, is_partial, atom_simple, atom_name, is_prop

LEVEL = "other"
EXPLAIN = ("The creator of effect functions is summarised for states and for partial states, and so is every function it collects. For "
           "each kind of effect the function must change the state as PDDL says: add and delete exactly the proposition bound to the "
           "arguments (or fail for contradictory equalities and types), conditional effects exactly when the condition is true, "
           "quantified ones for all objects; all effects listed are applied, each once. By induction over the nesting every effect "
           "is applied right. Nothing is executed.")

PRIM = [x for x in FPRIM if x != "symbolic::operator=="] + ["symbolic::operator==", "symbolic::Axiom::*", "symbolic::Action::*"]
KINDS = ["forall", "add", "del", "cond"]
LIST = {k + "_effects": k for k in KINDS}
A = "symbolic::Action"
SP = ("init", ("param", 100))


def run(ctx):
    prog = ctx.program(["src/action.cc"], [])
    M = {}
    ctx.group("action", construct, ctx, prog, M)
    for fn in M.get("creators", []):
        ctx.group("effects", creator, ctx, prog, fn)
    ctx.group("apply", methods, ctx, prog, M)
    ctx.group("parse", parse, ctx, prog, M)


KNOWN = c07.KNOWN + ("symbolic::Formula", A + "::", "symbolic::Axiom::", "symbolic::Pddl::", "symbolic::State::", "symbolic::PartialState::")


def closed(t):
    for x in walk(t):
        if x[0] in ("call", "refto", "new"):
            if not x[1].startswith(KNOWN) and "hash" not in x[1]:
                return False
        elif x[0] in ("phi", "heap", "sym", "cap", "itr", "ite"):
            return False
    return True


# ---- Action -------------------------------------------------------------------------

def fields(prog, M):
    P = field_by_type(prog, A, lambda t: t.cls == "std::function" and not is_partial(t.s))
    PP = field_by_type(prog, A, lambda t: t.cls == "std::function" and is_partial(t.s))
    F = field_by_type(prog, A, lambda t: t.cls == "symbolic::Formula")
    if len(P) != 1 or len(PP) != 1 or len(F) != 1:
        raise AnalysisError("Action: effect functions not found")
    f = lambda n: ("fld", ("this",), n)
    M["apply"], M["partial"], M["pre"] = f(P[0]), f(PP[0]), f(F[0])


def construct(ctx, prog, M):
    fields(prog, M)
    names = set()
    for fn in prog.find(A + "::Action"):
        ts = [fn.tu.type(x["t"]) for x in fn.f["p"]]
        if len(ts) != 2:
            continue
        op = [i for i, t in enumerate(ts) if t.ptr and "operator_" in t.s]
        pd = [i for i, t in enumerate(ts) if "Pddl" in t.s]
        if len(pd) != 1:
            continue
        pddl = ("param", pd[0])
        if not op:
            by_name(ctx, prog, fn, pddl, [i for i in (0, 1) if i != pd[0]][0])
            continue
        sym = ("param", op[0])
        params = ("call", "symbolic::Object::CreateList", pddl, ("fld", sym, "parameters"))
        for p in ctx.run(prog, fn, [x for x in PRIM if x != A + "::*"] + [NS + "*"]):
            if p.kind != "return":
                ctx.expect("action.throws", None, "construction fails", last_loc(p, fn), fn.qn)
                continue
            me = lambda lv: final(p, lv)
            known = not p.facts
            bad = lambda v: False if known and closed(v) else None
            for q in ("apply", "partial"):
                v = me(M[q])
                if v[0] != "call" or not v[1].startswith(NS):
                    unset = v[0] in ("init", "null") or v[0] == "new" and len(v) == 2
                    ctx.expect("action." + q, False if unset and known else None, "%s: the effects are not set" % fn.qn, fn.loc, fn.qn)
                    continue
                names.add(v[1])
                got, want = sorted(repr(nrm(x)) for x in v[2:]), sorted(map(repr, (pddl, ("fld", sym, "effects"), params)))
                ctx.expect("action." + q, True if got == want else bad(v),
                           "%s: the effects are not those of the operator over its parameters" % fn.qn, fn.loc, fn.qn)
            v = me(M["pre"])
            want = [pddl, ("fld", sym, "precondition"), params]
            ok = v[0] == "new" and v[1] == "symbolic::Formula" and [nrm(x) for x in v[2:]] == want
            ctx.expect("action.precondition", True if ok else bad(v),
                       "%s: the precondition is not that of the operator over its parameters" % fn.qn, fn.loc, fn.qn)
            for what, getter, want in (("name", A + "::name", ("call", "VAL::symbol::getNameRef", ("fld", sym, "name"))),
                                       ("parameters", A + "::parameters", params), ("symbol", A + "::symbol", sym),
                                       ("pddl", A + "::pddl", pddl)):
                g = getter_field(prog, getter)
                if not g:
                    ctx.undecide("action." + what, "accessor not found")
                    continue
                while g[0] in ("deref", "init"):
                    g = g[1]
                v = me(g)
                got = nrm(v)
                alt = ("call", "VAL::symbol::getName", ("fld", sym, "name"))
                ctx.expect("action." + what, True if got == want or what == "name" and got == alt else bad(v),
                           "%s: the %s is not the operator's" % (fn.qn, what), fn.loc, fn.qn)
    done = []
    for n in sorted(names):
        done += prog.find(n)
    M["creators"] = done
    if not done:
        ctx.undecide("action.creators", "no creator found")


def by_name(ctx, prog, fn, pddl, si):
    """The operator found is one with the name of the call, and it is an error when there is none."""
    oid = "action.named"
    head = ("call", "symbolic::PropositionBase::ParseHead", ("param", si))
    dom = ("fld", ("call", "symbolic::Pddl::symbol", pddl), "the_domain")
    ops = ("fld", dom, "ops")

    def named(lp, a, v):
        """What a fact says about the visited operator having the name of the call."""
        if a[0] != "eq":
            return None
        e = [nrm(x) for o in lp.over for x in elems(lp, o)]
        for x, y in ((nrm(a[1]), nrm(a[2])), (nrm(a[2]), nrm(a[1]))):
            if y[0] == "call" and y[1].startswith("VAL::symbol::getName") and y[2] in [("fld", z, "name") for z in e]:
                if x == head:
                    return v
                if x == ("param", si):
                    return "whole"
        return None

    paths = ctx.run(prog, fn, PRIM + [NS + "Create*"])
    search(ctx, oid, fn, paths, lambda o: nrm(o) == ops, named, "operator")


def search(ctx, oid, fn, paths, is_list, named, what):
    """The function goes on with the first element that is named, and fails when there is none."""
    for p in paths:
        loops = [e for e in p.ev if e.k == "loop" and any(is_list(o) for o in e.loop.over)]
        if len(loops) != 1:
            ctx.undecide(oid, "a search that is not recognised")
            return
        lp, how = loops[0].loop, loops[0].extra
        o = [o for o in lp.over if is_list(o)][0]
        if covers(lp, o) is not True and lp.dir != "desc":
            ctx.expect(oid, covers(lp, o), "%s: not every %s is looked at" % (fn.qn, what), lp.loc, fn.qn)
            return
        for ip in lp.paths:
            name, other = None, []
            for a, v in ip.facts:
                a, pol = strip(a)
                n = named(lp, a, v == pol)
                if n == "whole":
                    ctx.expect(oid, False, "%s: the %s is sought by the whole call" % (fn.qn, what), lp.loc, fn.qn)
                    return
                if n is not None:
                    name = n
                elif a[0] not in ("more", "isnull") and not bound(a, lp):
                    other.append(a)
            leaves = ip.flow not in (None, "continue")
            if leaves != (name is True):
                ctx.expect(oid, None if other else False, "%s: %s" % (
                    fn.qn, "the search stops at an %s without the name" % what if leaves else "an %s with the name is passed over" % what),
                    lp.loc, fn.qn)
                return
            if other:
                ctx.undecide(oid, "a search that is not recognised")
                return
        if p.kind == "throw" and how != "exit" or p.kind == "return" and how == "exit":
            ctx.expect(oid, False, "%s: %s" % (fn.qn, "the %s that was found is rejected" % what if p.kind == "throw" else
                                               "it is no error that there is no such %s" % what), last_loc(p, fn), fn.qn)
            return
    ctx.ok(oid)


# ---- effects ------------------------------------------------------------------------

class Effect(c07.Goal):
    """The terms an effect list's creator is about."""

    def __init__(self, fn, ei, pi, vi):
        c07.Goal.__init__(self, fn, ei, pi, vi)
        self.effects = ("param", ei)
        self.order = (pi, ei, vi)

    def prop(self, simple):
        return ("fld", simple, "prop")


def creator(ctx, prog, fn):
    ts = [fn.tu.type(x["t"]) for x in fn.f["p"]]
    ei = [i for i, t in enumerate(ts) if t.ptr and "effect_lists" in t.s]
    pi = [i for i, t in enumerate(ts) if "Pddl" in t.s]
    vi = [i for i, t in enumerate(ts) if "vector" in t.s]
    if len(ei) != 1 or len(pi) != 1 or len(vi) != 1:
        ctx.undecide("effects.creator", "parameters of %s not recognised" % fn.qn)
        return
    G = Effect(fn, ei[0], pi[0], vi[0])
    part = is_partial(fn.tu.type(fn.f["ret"]).s if "ret" in fn.f else fn.decl.ret.s)
    G.tag, G.part = "partial" if part else "state", part
    for p in ctx.run(prog, fn, PRIM):
        if p.kind != "return":
            ctx.expect("effects.%s" % G.tag, None, "effects that fail", last_loc(p, fn), fn.qn)
            continue
        G.last = ctx.last
        f = p.value
        if isinstance(f, L):
            f = p.S.store.get(f.p, ("init", f.p))
        if f[0] != "lam" or any(a[0] != "more" and not empty_list(G, a) for a, v in p.facts):
            ctx.undecide("effects.%s" % G.tag, "the effect function is not recognised")
            continue
        for q in closure(G, f):
            whole(ctx, G, p, q)


def empty_list(G, a):
    return any(x[0] == "fld" and x[2] in LIST for x in walk(nrm(a))) and linear_atom(a)


def closure(G, f):
    """Paths of an effect function: (arguments, state pointer) in either order."""
    fn = G.last.lam_fns[f[1]]
    args = [SP if fn.tu.type(x["t"]).ptr else L(ARGS) for x in fn.f["p"]]
    return G.last.run_closure(f, args=args)


SLV = ("deref", SP)


def unwind(v, lvs=(SLV,)):
    """The changes made to the state, oldest first; 'start' or ('loop', id) below them."""
    out = []
    while v is not None and v[0] == "mut":
        out.append(v)
        v = v[2]
    return v, out[::-1]


def trace(q):
    """The changes a function makes to the state in order: [('op', mut term) | ('loop', event)], or None."""
    v = q.S.store.get(SLV, ("init", SLV))
    out = []
    for _ in range(50):
        base, ops = unwind(v)
        out = [("op", o) for o in ops] + out
        if base == ("init", SLV):
            return out
        if base is None or base[0] != "phi" or base[2] != SLV:
            return None
        ev = [e for e in q.ev if e.k == "loop" and e.loop.id == base[1]]
        if len(ev) != 1:
            return None
        out = [("loop", ev[0])] + out
        v = ev[0].loop.init.get(SLV, ("init", SLV))
    return None


def is_apply(op):
    """(function, arguments) of a change made by calling an effect function."""
    if op[1] == "apply" and len(op) == 5:
        return op[3], op[4]
    return None


def whole(ctx, G, p, q):
    """The function for a list of effects applies the function of every effect once."""
    oid = "effects.%s.all" % G.tag
    fn = G.fn
    if q.kind != "return":
        ctx.expect(oid, None, "effects that fail", last_loc(q, fn), fn.qn)
        return
    tr = trace(q)
    if tr is None or any(k == "op" for k, _ in tr):
        ctx.undecide(oid, "changes of the state that are not recognised")
        return
    order, seen = [], {}
    for _, ev in tr:
        lp = ev.loop
        src = None
        for o in candidates(lp):
            s = sequence(p, o)
            if s is not None and all(isinstance(x, Each) for x in s):
                src = (o, s)
        if src is None:
            ctx.undecide(oid, "the list of effect functions is not recognised")
            return
        o, s = src
        c = covers(lp, o)
        if c is False and lp.dir == "desc" and o in lp.over:
            s, c = s[::-1], True
        if c is not True:
            ctx.expect(oid, c, "%s: not every effect is applied" % fn.qn, lp.loc, fn.qn)
            return
        for ip in lp.paths:
            base, ops = unwind(ip.S.store.get(SLV, ("phi", lp.id, SLV)))
            if ip.flow not in (None, "continue"):
                early(ctx, oid, fn, lp, ip, "not every effect is applied")
                return
            if base != ("phi", lp.id, SLV):
                ctx.undecide(oid, "an application that is not recognised")
                return
            fs = [is_apply(x) for x in ops]
            if None in fs or any(f[0] not in elems(lp, o) for f in fs):
                ctx.undecide(oid, "an application that is not recognised")
                return
            conds = [a for a, v in ip.facts if a[0] != "more" and not bound(a, lp)]
            if len(fs) != 1:
                ctx.expect(oid, False if not conds or all(own_flag(a) for a in conds) else None,
                           "%s: an effect is applied %s" % (fn.qn, "more than once" if fs else "only under a condition on earlier ones"),
                           lp.loc, fn.qn)
                return
            if nrm(fs[0][1]) != ARGS:
                ctx.expect(oid, None, "an application that is not recognised", lp.loc, fn.qn)
                return
        status(ctx, G, q, lp, o)
        for e in s:
            k = [LIST[nrm(x)[2]] for x in candidates(e.lp) if nrm(x)[0] == "fld" and nrm(x)[1] == G.effects and nrm(x)[2] in LIST]
            if len(k) != 1:
                ctx.undecide(oid, "a list of effects that is not recognised")
                return
            k = k[0]
            seen[k] = seen.get(k, 0) + 1
            order.append(k)
            ctx.group("effects.%s.%s" % (G.tag, k), one_list, ctx, G, p, e, k)
    for k in KINDS:
        ctx.expect(oid, seen.get(k, 0) == 1, "%s: the %s effects are applied %d times" % (fn.qn, k, seen.get(k, 0)), fn.loc, fn.qn)
    for i, x in enumerate(order):
        for y in order[i + 1:]:
            if y == "add" or x == y:
                continue
            why = "conditions see the changes of" if y == "cond" or y == "forall" and x == "del" else "what is deleted may just have been added by"
            order_finding(ctx, "order.%s-%s" % (x, y), "%s: %s effects run after %s effects, so %s effects listed before" % (
                fn.qn, y, x, why), fn.loc, fn.qn)
        if x in ("cond", "forall") and order.index(x) == i:
            order_finding(ctx, "order.%s-%s" % (x, x),
                       "%s: %s effects change the state one after another, so conditions see the changes of effects listed before" % (
                           fn.qn, x), fn.loc, fn.qn)


def order_finding(ctx, oid, *a):
    if not any(f.key == oid for f in ctx.findings):
        ctx.expect(oid, False, *a)


def early(ctx, oid, fn, lp, ip, why):
    """A loop over effects stops before its end."""
    if ip.flow == "throw":
        ctx.undecide(oid, "an effect that fails")
        return
    sure = all(a[0] == "more" or bound(a, lp) or own_flag(a) for a, _ in ip.facts)
    ctx.expect(oid, False if sure else None, "%s: %s" % (fn.qn, why), lp.loc, fn.qn)


def own_flag(a):
    """A condition on nothing but the changes reported so far."""
    if not any(x[0] in ("phi", "apply") for x in walk(a)):
        return False
    return value_of(a, lambda t: 1 if t[0] == "apply" or t[0] == "phi" and t[2][0] == "var" else None) is not None


def status(ctx, G, q, lp, o):
    """The result is the largest change made."""
    oid = "effects.%s.changed" % G.tag
    fn = G.fn
    v = q.value
    if isinstance(v, L):
        ctx.undecide(oid, "the result is not recognised")
        return
    lv = None
    for x in walk(v):
        if x[0] == "phi" and x[1] == lp.id and x[2] != SLV:
            lv = x
    if lv is None:
        ctx.expect(oid, False if v[0] in ("int", "bool") else None, "%s: the result does not say whether anything changed" % fn.qn, fn.loc, fn.qn)
        return
    dom = (0, 1, 2) if G.part else (0, 1)
    for a in dom:
        if value_of(v, lambda t: a if t == lv else None) != a:
            ctx.undecide(oid, "the result is not recognised")
            return
    init = value_of(lp.init.get(lv[2], ("none",)), lambda t: None)
    if init is None or int(init) != 0:
        ctx.expect(oid, None if init is None else False, "%s: a change is reported although nothing changed" % fn.qn, lp.loc, fn.qn)
        return
    for a in dom:
        for b in dom:
            leaf = lambda t: a if t == lv else b if t[0] == "apply" and t[1] in elems(lp, o) else None
            for ip in lp.paths:
                h, unk = holds_in(ip.facts, leaf, lambda x: x[0] == "more" or bound(x, lp))
                if h is False:
                    continue
                w = value_of(ip.S.store.get(lv[2], lv), leaf)
                if h is None or w is None:
                    ctx.undecide(oid, "the result is not recognised")
                    return
                if int(w) != max(a, b):
                    ctx.expect(oid, False, "%s: with changes %d and %d the result is %d" % (fn.qn, a, b, int(w)), lp.loc, fn.qn)
                    return
    ctx.ok(oid)


def one_list(ctx, G, p, e, k):
    oid = "effects.%s.%s" % (G.tag, k)
    fn, lp = G.fn, e.lp
    lst = [x for x in candidates(lp) if nrm(x)[0] == "fld" and nrm(x)[1] == G.effects and nrm(x)[2] in LIST][0]
    c = covers(lp, lst)
    if c is False and lp.dir == "desc" and lst in lp.over:
        c = True
    if c is not True or e.done is not True:
        ctx.expect(oid, False if c is False or e.done is False else None, "%s: not every %s effect is known" % (fn.qn, k), lp.loc, fn.qn)
        return
    el = [nrm(x) for x in elems(lp, lst)]
    cases = []
    for ip, items in e.rows:
        if ip.flow == "throw":
            continue
        if items is None or ip.flow not in (None, "continue") or len(items) > 1:
            ctx.undecide(oid, "an effect that is not recognised")
            return
        facts = [f for f in ip.facts if f[0][0] != "more" and not bound(f[0], lp)]
        if not items:
            cases.append((facts, None, ip))
            continue
        f = items[0]
        if f[0] != "lam":
            ctx.undecide(oid, "an effect that is not recognised")
            return
        for q in closure(G, f):
            cases.append((facts, q, ip))
    if k in ("add", "del"):
        simple_effect(ctx, G, k, el[0], cases, oid)
    elif k == "cond":
        conditional(ctx, G, el[0], cases, oid)
    else:
        forall(ctx, G, p, el[0], cases, oid)


class Case:
    def __init__(self, facts, q, ip):
        self.facts = facts + [f for f in (q.facts if q else []) if f not in facts]
        self.q, self.ip = q, ip
        self.kind = q.kind if q else "return"
        self.value = q.value if q else None
        self.ev = q.ev if q and q.ev else getattr(ip, "events", None) or []


# ---- add and delete -------------------------------------------------------------------

def simple_effect(ctx, G, k, el, cases, oid):
    fn = G.fn
    pos = k == "add"
    cls = "symbolic::PartialState::" if G.part else "symbolic::State::"
    op = cls + ("insert" if pos else "erase")
    ap = G.applied(el)
    sign = "+" if pos else "-"
    amap = ("call", "symbolic::Pddl::axiom_map", nrm(G.pddl))

    def is_key(t, s=sign):
        t = nrm(t)
        return t[0] == "call" and t[1].endswith("operator+") and len(t) == 4 and G.is_name(t[3], el) and t[2] == ("str", s)

    def mine(t):
        """A change of the state by the proposition of the effect: True/False/None."""
        if t[0] not in ("mut", "ret") or not str(t[1]).startswith(cls):
            return None
        if not any(is_prop(G, x, el, ap) for x in t[3:]):
            return None
        return t[1] == op

    def leaf(env, t):
        if t[0] in ("eq", "call", "haskey", "member", "pos", "eq0", "has"):
            a = atom_simple(G, t, el) or atom_name(G, t, el)
            if a is not None and a[0] in ("same", "type", "eq", "istype"):
                return env[a[0]] == a[1]
            if a is not None and a[0] == "kin":
                return env["same"] or env["kin"]
        if t[0] == "pos" and t[1][0] == "member" and nrm(t[1][1]) == amap:
            if is_key(t[1][2]):
                return env["axioms"]
            if is_key(t[1][2], "-" if pos else "+"):
                return env["opposite"]
        if t[0] == "eq" and t[1][0] == "itr" and t[2][0] == "itr":
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if y[2] == "end" and x[2][0] == "find" and nrm(("init", x[1])) == amap and is_key(x[2][2]):
                    return not env["axioms"]
        if t[0] == "ret" and mine(t) is not None:
            return env["changed"]
        return None

    def spec(env):
        if env["eq"]:
            return "none" if env["same"] == pos else "throw"
        if env["istype"]:
            return "none" if env["type"] == pos else "throw"
        return "change"

    dom = (0, 1, 2) if G.part else (0, 1)
    envs = []
    for eq, ty, same, istype, ax, op_, kin in itertools.product((True, False), repeat=7):
        if kin and (same or not eq):
            continue
        for ch in dom:
            e = dict(kin=kin, eq=eq, istype=ty, same=same, type=istype, axioms=ax, opposite=op_, changed=ch)
            envs.append(e)

    def ignore(a):
        return a[0] == "more" or a[0] in ("pos", "eq0") and a[1][0] == "size" and any(x[0] == "phi" for x in walk(a)) or any(x[0] == "apply" and x[1][0] == "get" for x in walk(a)) or about_axiom(G, a)

    def outcome(env, c):
        w = spec(env)
        if c.kind == "throw":
            if w == "throw":
                return True, ""
            return False, "the effect fails"
        if w == "throw":
            return False, "the effect does not fail"
        if c.q is None:
            return (True, "") if w == "none" else (False, "there is no effect")
        tr = trace(c.q)
        if tr is None:
            return None, "the changes of the state are not recognised"
        v = c.value
        if isinstance(v, L):
            return None, "the result is not recognised"
        if w == "none":
            if tr:
                return (False if all(k == "op" for k, _ in tr) else None), "the state is changed"
            x = value_of(v, lambda t: leaf(env, t))
            return (None if x is None else int(x) == 0), "a change is reported"
        ops = [(i, o) for i, (kk, o) in enumerate(tr) if kk == "op"]
        if not tr:
            return False, "the state is not changed"
        if tr[0][0] != "op" or mine(tr[0][1]) is None:
            if tr[0][0] == "op" and tr[0][1][1] in (cls + "insert", cls + "erase") and closed(tr[0][1][-1]) and \
                    not any(x[0] == "mut" for x in walk(tr[0][1][3])):
                return False, "another proposition is changed"
            return None, "the changes of the state are not recognised"
        if mine(tr[0][1]) is False:
            return False, "the proposition is not %s" % ("added" if pos else "deleted")
        x = value_of(v, lambda t: leaf(env, t))
        if x is None:
            x = with_axioms(v, c, lambda t: leaf(env, t), G.part)
            if isinstance(x, tuple):
                return x
        elif G.part and env["axioms"] and env["changed"] and any(kk == "loop" and applies(o.loop) for kk, o in tr):
            return False, "contradictions of the axioms applied are not reported"
        if x is None:
            return None, "the result is not recognised"
        if int(x) != env["changed"]:
            return False, "the change reported is %d instead of %d" % (int(x), env["changed"])
        rest = tr[1:]
        loops = [o for kk, o in rest if kk == "loop"]
        if any(kk == "op" for kk, o in rest):
            return None, "the changes of the state are not recognised"
        if not env["changed"]:
            if loops and any(applies(lp.loop) for lp in loops) and env["axioms"]:
                return False, "axioms are applied although nothing changed, which need not end"
            return True, ""
        if env["axioms"]:
            if not loops:
                # Nothing may have been collected.
                none = [v == (a[0] != "pos") for a, v in c.facts if a[0] in ("pos", "eq0", "isempty") and
                        (a[0] == "isempty" or a[1][0] == "size") and any(x[0] == "phi" for x in walk(a))]
                return (None if True in none else False), "the axioms for this change are not applied"
            if len(loops) != 1:
                return None, "the axioms are not recognised"
            return axiom_loop(G, c, loops[0], el, ap, amap, is_key)
        return True, ""

    def name(env):
        if env["eq"]:
            return "the predicate is = and the arguments are %s" % ("equal" if env["same"] else "not equal")
        if env["istype"]:
            return "the predicate is a type and the argument is %sof it" % ("" if env["type"] else "not ")
        return "the proposition %s%s" % ("changes" if env["changed"] else "does not change", " and has axioms" if env["axioms"] else "")

    class F:
        qn, loc = fn.qn, fn.loc
    live = [c for c in (Case(*x) for x in cases)]
    by_cases(ctx, oid, F, live, envs, leaf, outcome, name, ignore)


def about_axiom(G, a):
    return a[0] in ("has", "isnull", "eq0", "pos") and any(x[0] == "call" and x[1].startswith("symbolic::Axiom::") for x in walk(a))


def applies(lp):
    return any(op[1].startswith("symbolic::") for ip in lp.paths
               for op in unwind(ip.S.store.get(SLV, ("phi", lp.id, SLV)))[1])


def with_axioms(v, c, leaf, part):
    """The value before the axioms were applied of a result that becomes the largest status of theirs."""
    if v[0] != "phi":
        return None
    ev = [e for e in c.q.ev if e.k == "loop" and e.loop.id == v[1]]
    if len(ev) != 1 or v[2] not in ev[0].loop.init or not applies(ev[0].loop):
        return None
    lp = ev[0].loop
    for ip in lp.paths:
        w = ip.S.store.get(v[2], v)
        did = applied_once(ip, lp)
        for a in (0, 1, 2):
            for r in (0, 1, 2):
                f = lambda t: a if t == v else r if t[0] in ("call", "ret") and t[1] == A + "::Apply" else None
                h, _ = holds_in(ip.facts, f, lambda t: t[0] == "more" or bound(t, lp) or strip(t)[0][0] == "isnull")
                if h is False:
                    continue
                x = value_of(w, f)
                if x is None:
                    return None
                want = max(a, r) if did else a
                if int(x) != want and (part or bool(x) != bool(want)):
                    return (False if h is True else None), "the status of the axioms applied is not joined to the change reported"
    return value_of(lp.init[v[2]], leaf)


def applied_once(ip, lp):
    return any(op[1].startswith(A) for op in unwind(ip.S.store.get(SLV, ("phi", lp.id, SLV)))[1])


def axiom_loop(G, c, ev, el, ap, amap, is_key):
    """Every axiom for the change is applied to the arguments it is bound to."""
    lp = ev.loop
    lst = None

    class P:
        ev = c.ip.events
    for o in lp.over:
        s = sequence(P, o)
        if s is not None:
            lst = (o, s)
    if lst is None:
        return None, "the list of axioms is not recognised"
    o, s = lst
    if covers(lp, o) is not True and not (lp.dir == "desc" and o in lp.over):
        return (False if covers(lp, o) is False else None), "not every axiom is applied"
    if ev.extra != "exit":
        early = [ip for ip in lp.paths if ip.flow not in (None, "continue", "throw")]
        sure = early and all(a[0] == "more" or bound(a, lp) or a[0] == "isnull" and a[1][0] == "apply" or
                             a[0] in ("eq0", "pos") and any(x[0] == "ret" for x in walk(a))
                             for ip in early for a, _ in ip.facts)
        return (False if sure else None), "not every axiom is applied"
    if len(s) != 1 or not isinstance(s[0], Each):
        return (False if s == [] else None), "the axioms for this change are not collected"
    e = s[0]
    src = [x for x in e.lp.over if nrm(x)[0] == "idx" and nrm(x)[1] == amap or nrm(x)[0] == "call" and nrm(x)[1].startswith("symbolic::Pddl::")]
    if len(src) != 1:
        return None, "the axioms of the domain are not recognised"
    n = nrm(src[0])
    if n[0] != "idx" or not is_key(n[2]):
        wrong = n[0] == "idx" and closed(n[2])
        return (False if wrong else None), "the axioms collected are not those for this change"
    if covers(e.lp, src[0]) is not True or e.done is not True:
        return (False if covers(e.lp, src[0]) is False or e.done is False else None), "not every axiom is collected"
    axs = [nrm(x) for x in elems(e.lp, src[0])]
    params = ("call", "symbolic::Object::CreateList", nrm(G.pddl), ("fld", G.prop(el), "args"))

    def is_fn(t):
        t = nrm(t)
        if t[0] in ("optval", "at_opt"):
            t = t[1]
        return t[0] == "call" and t[1] == "symbolic::Axiom::CreateApplicationFunction" and len(t) == 6 and \
            t[2] == nrm(G.params) and t[3] == params and \
            t[4] in [("call", "symbolic::Action::parameters", a) for a in axs] and \
            t[5] in [(("call", "symbolic::PropositionBase::arguments", ("call", "symbolic::Axiom::context", a))) for a in axs] + \
            [(("call", "symbolic::Proposition::arguments", ("call", "symbolic::Axiom::context", a))) for a in axs]

    for ip, items in e.rows:
        if items is None or ip.flow not in (None, "continue"):
            return None, "the axioms collected are not recognised"
        has = [v == strip(a)[1] for a, v in ip.facts if strip(a)[0][0] == "has" and is_fn(strip(a)[0][1])]
        other = [a for a, v in ip.facts if a[0] != "more" and not (strip(a)[0][0] == "has" and is_fn(strip(a)[0][1]))]
        if not items:
            if has == [False] or other:
                continue
            return False, "an axiom that matches is not collected"
        if len(items) != 1 or items[0][0] not in ("pair", "args") or len(items[0]) != 3:
            return None, "the axioms collected are not recognised"
        if nrm(items[0][1]) not in axs or not is_fn(items[0][2]):
            return None, "the axioms collected are not recognised"
        if has == [False]:
            return False, "an axiom that does not match is collected"
    els = elems(lp, o)
    for ip in lp.paths:
        base, ops = unwind(ip.S.store.get(SLV, ("phi", lp.id, SLV)))
        if base != ("phi", lp.id, SLV):
            return None, "the application of an axiom is not recognised"
        if ip.flow not in (None, "continue"):
            continue
        call = [("apply", engine.project(x, "second"), ARGS) for x in els]
        null = None
        other = []
        for a, v in ip.facts:
            s2, pol = strip(a)
            if s2[0] == "isnull" and nrm(s2[1]) in [nrm(x) for x in call]:
                null = v == pol
            elif s2[0] != "more" and not bound(s2, lp):
                other.append(a)
        if not ops:
            if null is True or other:
                continue
            return False, "an axiom that matches is not applied"
        if other or len(ops) != 1 or not ops[0][1].startswith("symbolic::Action::Apply"):
            return None, "the application of an axiom is not recognised"
        if nrm(ops[0][3]) not in [nrm(x) for x in call]:
            return (False if nrm(ops[0][3]) == ARGS else None), "an axiom is applied to the wrong arguments"
        if null is not False:
            return False, "an axiom that does not match is applied"
        refs = [l for e in ip.events if e.k == "call" and e.qn == A + "::Apply" for l in e.lvs or [] if l and l[0] == "deref"]
        if any(nrm(l[1]) in [nrm(x) for x in call] for l in refs):
            return False, "the arguments of an axiom change when its own effects apply it again"
    return True, ""


# ---- conditional and quantified effects ----------------------------------------------

def inner(G, t, goal, scope_ok):
    """A term is the effect function of the nested effects."""
    if t[0] != "call" or t[1] != G.fn.qn or len(t) != 5:
        return False
    a = t[2:]
    return nrm(a[G.order[0]]) == nrm(G.pddl) and nrm(a[G.order[1]]) == goal and scope_ok(a[G.order[2]])


def conditional(ctx, G, el, cases, oid):
    fn = G.fn
    cond = ("new", "symbolic::Formula", nrm(G.pddl), ("call", "VAL::cond_effect::getCondition", el), nrm(G.params))
    eff = ("call", "VAL::cond_effect::getEffects", el)
    same = lambda t: nrm(t) == nrm(G.params)

    def is_cond(t):
        return t[0] == "call" and t[1] == "symbolic::Formula::operator()" and len(t) == 5 and nrm(t[2]) == cond and \
            nrm(t[3]) == STATE and nrm(t[4]) == ARGS

    def leaf(env, t):
        if not G.part and is_cond(t):
            return env["cond"]
        if t[0] == "has" and is_cond(t[1]):
            return env["cond"] is not None
        if t[0] == "optval" and is_cond(t[1]):
            return bool(env["cond"])
        if t[0] == "eq" and any(is_cond(x) for x in t[1:]):
            o = [x for x in t[1:] if not is_cond(x)]
            if len(o) == 1 and o[0][0] in ("bool", "some"):
                b = o[0][1] if o[0][0] == "bool" else value_of(o[0][1], lambda t: None)
                return env["cond"] == b
        if t[0] == "apply" and inner(G, t[1], eff, same):
            return env["changed"]
        return None

    def outcome(env, c):
        if c.kind == "throw":
            return None, "the effect fails"
        if c.q is None:
            return False, "there is no effect"
        tr = trace(c.q)
        if tr is None or any(k != "op" for k, _ in tr) or isinstance(c.value, L):
            return None, "the changes of the state are not recognised"
        fs = [is_apply(o) for _, o in tr]
        if None in fs or any(not inner(G, f[0], eff, same) or nrm(f[1]) != ARGS for f in fs):
            wrong = len(fs) == 1 and fs[0] and closed(fs[0][0]) and fs[0][0][0] == "call" and fs[0][0][1] == fn.qn
            return (False if wrong else None), "other effects are applied"
        x = value_of(c.value, lambda t: leaf(env, t))
        if env["cond"]:
            if len(fs) != 1:
                return False, "the effects are applied %d times" % len(fs)
            return (None if x is None else int(x) == env["changed"]), "the change is not reported"
        if fs:
            return False, "the effects are applied"
        return (None if x is None else int(x) == 0), "a change is reported"

    envs = [dict(cond=c, changed=ch) for c in ((True, False, None) if G.part else (True, False)) for ch in ((0, 1, 2) if G.part else (0, 1))]

    class F:
        qn, loc = fn.qn, fn.loc
    live = [Case(*x) for x in cases]
    if wrong_condition(ctx, G, live, cond, is_cond, oid):
        return
    by_cases(ctx, oid, F, live, envs, leaf, outcome,
             lambda e: "the condition is %s" % ("unknown" if e["cond"] is None else str(e["cond"]).lower()))


def wrong_condition(ctx, G, live, cond, is_cond, oid):
    for c in live:
        for a, v in c.facts:
            for t in walk(a):
                if t[0] == "call" and t[1] == "symbolic::Formula::operator()" and not is_cond(t) and len(t) == 5 and closed(t):
                    ctx.expect(oid, False, "%s: another condition is tested" % G.fn.qn, last_loc(c, G.fn) if c.ev else G.fn.loc, G.fn.qn)
                    return True
    return False


def forall(ctx, G, p, el, cases, oid):
    fn = G.fn
    vars_ = ("call", "symbolic::Object::CreateList", nrm(G.pddl), ("call", "VAL::forall_effect::getVarsList", el))
    eff = ("call", "VAL::forall_effect::getEffects", el)
    params = nrm(G.params)

    class P0:
        pass
    for facts, q, ip in cases:
        P0.ev = (ip.events or []) + [e for e in p.ev]
        if q is None:
            ctx.expect(oid, False if not facts else None, "%s: a quantified effect has no effect" % fn.qn, fn.loc, fn.qn)
            return
        if q.kind == "throw" or isinstance(q.value, L):
            ctx.undecide(oid, "an effect that may fail")
            return
        if any(a[0] != "more" for a, _ in facts) or any(a[0] != "more" and not linear_atom(a) for a, _ in q.facts):
            ctx.undecide(oid, "an unrecognised condition")
            return
        wh = lambda v: nrm(v) in (params, vars_)

        def scope(v):
            s = parts(P0, v, wh)
            return None if s is None else [nrm(x[1]) if x[0] == "all" else x for x in s]

        def gen(o):
            if o[0] == "new" and o[1] == "symbolic::ParameterGenerator" and len(o) == 4:
                ty = [x for x in o[2:] if nrm(x) != nrm(G.pddl)]
                s = scope(ty[0]) if len(ty) == 1 else None
                if s == [vars_]:
                    return True
                return False if s is not None and all(x in (params, vars_) for x in s) else None
            return None

        tr = trace(q)
        if tr is None or any(k != "loop" for k, _ in tr):
            ctx.undecide(oid, "the changes of the state are not recognised")
            return
        if len(tr) != 1:
            ctx.expect(oid, False if not tr and not q.facts else None, "%s: a quantified effect has no effect" % fn.qn, fn.loc, fn.qn)
            return
        ev = tr[0][1]
        lp = ev.loop
        src = [(o, gen(o)) for o in lp.over if gen(o) is not None]
        if len(src) != 1:
            ctx.undecide(oid, "the objects are not recognised")
            return
        if src[0][1] is False:
            ctx.expect(oid, False, "%s: the effect does not range over the objects of its variables" % fn.qn, lp.loc, fn.qn)
            return
        o = src[0][0]
        if covers(lp, o) is not True and lp.dir != "desc":
            ctx.expect(oid, covers(lp, o),
                       "%s: not all objects are affected" % fn.qn, lp.loc, fn.qn)
            return
        e_ = [nrm(x) for x in elems(lp, o)]
        for ip2 in lp.paths:
            base, ops = unwind(ip2.S.store.get(SLV, ("phi", lp.id, SLV)))
            conds = [a for a, v in ip2.facts if a[0] != "more" and not bound(a, lp)]
            fs = [is_apply(x) for x in ops]
            if ip2.flow not in (None, "continue"):
                early(ctx, oid, fn, lp, ip2, "not all objects are affected")
                return
            if base != ("phi", lp.id, SLV) or None in fs:
                ctx.undecide(oid, "an application that is not recognised")
                return
            if len(fs) != 1:
                ctx.expect(oid, False if all(own_flag(a) for a in conds) else None, "%s: not all objects are affected" % fn.qn, lp.loc, fn.qn)
                return
            f, a = fs[0]
            if not (f[0] == "call" and f[1] == fn.qn and len(f) == 5 and nrm(f[2:][G.order[0]]) == nrm(G.pddl)):
                ctx.undecide(oid, "an application that is not recognised")
                return
            if nrm(f[2:][G.order[1]]) != eff:
                ctx.expect(oid, None, "other effects are applied", lp.loc, fn.qn)
                return
            s = scope(f[2:][G.order[2]])

            class P2:
                ev = [x for x in ip2.events] + [x for x in q.ev]
            if a[0] == "mut" and a[1] == "append" and a[2][:2] == ("phi", lp.id) and nrm(a[3][1]) in e_ and \
                    ip2.S.store.get(a[2][2]) == a:
                ctx.expect(oid, False, "%s: the values of earlier objects are kept" % fn.qn, lp.loc, fn.qn)
                return
            t = parts(P2, a, lambda v: nrm(v) == ARGS or nrm(v) in e_)
            if s is None or t is None or any(x not in (params, vars_) for x in s) or any(x[0] != "all" for x in t):
                ctx.undecide(oid, "the variables are not recognised")
                return
            names = ["params" if x == params else "vars" for x in s]
            vals = ["params" if nrm(x[1]) == ARGS else "vars" for x in t]
            ctx.expect(oid, names == vals and sorted(names) == ["params", "vars"],
                       "%s: the effect's variables do not get their own values" % fn.qn, lp.loc, fn.qn)
            ctx.expect(oid + ".inner", names != ["vars", "params"] or names != vals,
                       "%s: an inner variable is hidden by an outer one" % fn.qn, lp.loc, fn.qn)
        status_simple(ctx, G, q, lp, oid)


def status_simple(ctx, G, q, lp, oid):
    class O:
        pass
    lv = None
    for x in walk(q.value):
        if x[0] == "phi" and x[1] == lp.id and x[2] != SLV:
            lv = x
    oid += ".changed"
    if lv is None:
        ctx.expect(oid, False if q.value[0] in ("int", "bool") else None,
                   "%s: the result does not say whether anything changed" % G.fn.qn, lp.loc, G.fn.qn)
        return
    dom = (0, 1, 2) if G.part else (0, 1)
    init = value_of(lp.init.get(lv[2], ("none",)), lambda t: None)
    if init is None or int(init) != 0 or q.value != lv:
        ctx.expect(oid, None if init is None or q.value != lv else False,
                   "%s: a change is reported although nothing changed" % G.fn.qn, lp.loc, G.fn.qn)
        return
    for a in dom:
        for b in dom:
            leaf = lambda t: a if t == lv else b if t[0] == "apply" else None
            for ip in lp.paths:
                h, _ = holds_in(ip.facts, leaf, lambda x: x[0] == "more" or bound(x, lp))
                if h is False:
                    continue
                w = value_of(ip.S.store.get(lv[2], lv), leaf)
                if h is None or w is None:
                    ctx.undecide(oid, "the result is not recognised")
                    return
                if int(w) != max(a, b):
                    ctx.expect(oid, False, "%s: with changes %d and %d the result is %d" % (G.fn.qn, a, b, int(w)), lp.loc, G.fn.qn)
                    return
    ctx.ok(oid)


# ---- Action's methods -------------------------------------------------------------------

def methods(ctx, prog, M):
    if "apply" not in M:
        return
    for fn in prog.find(A + "::Apply"):
        ts = [fn.tu.type(x["t"]) for x in fn.f["p"]]
        if len(ts) != 2:
            continue
        si = [i for i, t in enumerate(ts) if "State" in t.s]
        if len(si) != 1:
            continue
        si = si[0]
        part, ptr = is_partial(ts[si].s), ts[si].ptr
        f = ("init", M["partial" if part else "apply"])
        args = ("init", ("param", 1 - si))
        oid = "apply.%s.%s" % ("partial" if part else "state", "inplace" if ptr else "copy")
        for p in ctx.run(prog, fn, [x for x in PRIM if x != A + "::*"] + [NS + "*"]):
            if p.kind != "return" or p.facts:
                ctx.expect(oid, None, "an application that may fail", last_loc(p, fn), fn.qn)
                continue
            slv = ("deref", ("init", ("param", si))) if ptr else ("param", si)
            start = ("init", slv)
            v = p.value
            got = p.S.store.get(slv, start) if ptr else v
            if not ptr and isinstance(v, L):
                got = p.S.store.get(v.p, ("init", v.p))
            ok = got[0] == "mut" and got[1] == "apply" and got[2] == start and got[3] == f and nrm(got[4]) == nrm(args)
            ctx.expect(oid, True if ok else False if not isinstance(got, L) and (got == start or mine_only(got, M)) else None,
                       "%s: the state is not the given one with the effects applied" % fn.qn, fn.loc, fn.qn)
            if not ptr:
                ctx.expect(oid + ".kept", ("param", si) not in p.S.store or p.S.store[("param", si)] == start,
                           "%s: the given state is changed" % fn.qn, fn.loc, fn.qn)
                continue
            if isinstance(v, L):
                ctx.undecide(oid + ".changed", "the result is not recognised")
                continue
            for n in (0, 1, 2) if part else (0, 1):
                x = value_of(v, lambda t: n if t[0] == "apply" and t[1] == f else None)
                ctx.expect(oid + ".changed", None if x is None else int(x) == n,
                           "%s: the change is not reported" % fn.qn, fn.loc, fn.qn)
    for fn in prog.find(A + "::IsValid"):
        ts = [fn.tu.type(x["t"]) for x in fn.f["p"]]
        si = [i for i, t in enumerate(ts) if "State" in t.s]
        if len(si) != 1 or len(ts) != 2:
            continue
        oid = "valid.%s" % ("partial" if is_partial(ts[si[0]].s) else "state")
        want = ("call", "symbolic::Formula::operator()", ("init", M["pre"]), ("init", ("param", si[0])), ("init", ("param", 1 - si[0])))
        for p in ctx.run(prog, fn, [x for x in PRIM if x != A + "::*"] + [NS + "*"]):
            v = p.value
            if p.kind != "return" or isinstance(v, L):
                ctx.expect(oid, None, "the result is not recognised", fn.loc, fn.qn)
                continue
            ok = nrm(v) == nrm(want)
            x = v[1] if v[0] == "not" else v
            bad = (nrm(x) == nrm(want) or v[0] == "bool" or x[0] == "call" and x[1] == "symbolic::Formula::operator()" and closed(x)) and not p.facts
            ctx.expect(oid, True if ok else False if bad else None, "%s: the result is not the precondition's value" % fn.qn, fn.loc, fn.qn)


def mine_only(t, M):
    fs = [("init", M["apply"]), ("init", M["partial"])]
    return t[0] == "mut" and t[1] == "apply" and t[3] in fs and not any(x[0] == "sym" for x in walk(t))


def parse(ctx, prog, M):
    """A call is accepted exactly when every argument is of its parameter's type, and gives its action and arguments."""
    for fn in prog.find(A + "::Parse"):
        ts = [fn.tu.type(x["t"]) for x in fn.f["p"]]
        pi = [i for i, t in enumerate(ts) if "Pddl" in t.s]
        if len(pi) != 1 or len(ts) != 2:
            continue
        pddl, call = ("param", pi[0]), ("param", 1 - pi[0])
        act = ("new", A, pddl, call)
        args = ("call", "symbolic::Object::ParseArguments", pddl, call)
        params = ("call", "symbolic::Action::parameters", act)
        np, na = ("size", params), ("size", args)

        def size_leaf(t, n, m):
            x = nrm(t)
            return n if x == np else m if x == na else None

        paths = ctx.run(prog, fn, PRIM + [A + "::Action", "symbolic::operator<<"])
        good = []
        for p in paths:
            if p.kind == "return":
                v = p.value
                if isinstance(v, L):
                    v = p.S.store.get(v.p, ("init", v.p))
                a, b = engine.project(v, "first"), engine.project(v, "second")
                ok = nrm(a) == act and nrm(b) == args
                ctx.expect("parse.result", True if ok else False if closed(v) else None,
                           "%s: the result is not the action and arguments of the call" % fn.qn, fn.loc, fn.qn)
        for n in range(3):
            for m in range(3):
                for p in paths:
                    h, unk = holds_in(p.facts, lambda t: size_leaf(t, n, m))
                    if h is False:
                        continue
                    if n != m and p.kind == "return":
                        sure = all(a[0] == "more" or type_atom(a) or linear_atom(a) for a in unk)
                        bad = sure and reaches(p, unk, n, m, np, na)
                        ctx.expect("parse.count", False if bad else None,
                                   "%s: %d arguments for %d parameters are accepted" % (fn.qn, m, n), last_loc(p, fn), fn.qn)
                        break
                    if n == m == 0 and p.kind == "throw" and h is True:
                        ctx.expect("parse.count", False, "%s: a right number of arguments is rejected" % fn.qn, last_loc(p, fn), fn.qn)
        ctx.ok("parse.count")
        # The types, when the numbers are right.
        live = []
        for p in paths:
            h = [holds_in(p.facts, lambda t: size_leaf(t, n, n))[0] for n in range(1, 4)]
            if all(x is False for x in h):
                continue
            q = Case([], None, p)
            q.facts = [f for f in p.facts if not about_sizes(f[0], np, na)]
            q.kind, q.value, q.ev, q.S = "return", ("bool", p.kind == "return"), p.ev, p.S
            live.append(q)

        def coll(lp):
            for o in candidates(lp):
                if nrm(o) in (params, args):
                    return covers(lp, o) if lp.dir != "desc" else (True if o in lp.over else None)
            if lp.hi is not None and lp.lo is not None:
                h = nrm(lp.hi)
                if lp.dir != "desc" and h in (np, na):
                    return True if lp.lo == I(0) else False if is_int(lp.lo) else None
            return None

        def elem(t, lp):
            if t[0] == "call" and t[1] == "symbolic::Object::Type::IsSubtype" and len(t) == 4:
                for i in its(lp):
                    x = ("call", "symbolic::Object::type", ("idx", args, i))
                    y = ("call", "symbolic::Object::type", ("idx", params, i))
                    if nrm(t[2]) == x and (nrm(t[3]) == y or nrm(t[3]) == ("call", "symbolic::Object::Type::name", y)):
                        return True
            return None

        f = Fold("all", elem, coll, lambda t: nrm(t) in (np, na), closed)
        r = f.verdict([q for q in live if not only_print(q)])
        if r is None and wrong_way(live, params, args):
            r, f.why = False, "the wrong types are tested"
        ctx.expect("parse.types", r, "%s: %s" % (fn.qn, f.why), f.loc or fn.loc, fn.qn)


def about_sizes(a, np, na):
    s = strip(a)[0]
    t = nrm(s)
    return all(x in (np, na) for x in walk(t) if x[0] == "size") and any(x[0] == "size" for x in walk(t)) and \
        not any(x[0] in ("iter", "phi") for x in walk(t)) and linear_or_eq(t)


def linear_or_eq(t):
    return t[0] in ("eq", "pos", "eq0", "lin", "not")


def only_print(q):
    return False


def type_atom(a):
    return a[0] == "call" and a[1] == "symbolic::Object::Type::IsSubtype"


def reaches(p, unk, n, m, np, na):
    """The path is taken for these numbers of arguments, whatever the types are."""
    for e in p.ev:
        if e.k == "loop" and e.extra != "exit":
            return False
    for a in unk:
        if linear_atom(a) and not any(x[0] == "iter" for x in walk(a)):
            return False
    return True


def wrong_way(live, params, args):
    """The parameter and argument tested are certainly not those of the same position."""
    ty = lambda x: ("call", "symbolic::Object::type", x)
    for q in live:
        for e in all_events(q.ev):
            if e.k != "loop":
                continue
            for ip in e.loop.paths:
                for a, v in ip.facts:
                    t = strip(a)[0]
                    if type_atom(t) and len(t) == 4:
                        x, y = nrm(t[2]), nrm(t[3])
                        if x[0] == y[0] == "call" and x[1] == y[1] == "symbolic::Object::type" and x[2][0] == y[2][0] == "idx":
                            x, y = x[2], y[2]
                            simple = all(z[2][0] in ("int", "iter", "lin") for z in (x, y))
                            if (x[1], y[1]) == (params, args) and simple or (x[1], y[1]) == (args, params) and x[2] != y[2] and simple:
                                return True
    return False
