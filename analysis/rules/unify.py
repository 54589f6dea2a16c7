"""The function that finds an axiom's arguments from the arguments of an action whose effect matches the axiom's context."""
from common import *
from rules.seqs import *
from rules.c07 import nrm, is_variable, pushed_pair, root
import engine

PRIM = ["symbolic::Object::*", "symbolic::operator==", "symbolic::operator!="]
ACTS, APROPS, PARAMS, PROPS = [("param", i) for i in range(4)]
ARGS = ("param", 101)


TYPE = "symbolic::Object::type"


def typed(t, obj):
    """The type of an object."""
    while t[0] in ("init", "deref", "addr", "refto") and len(t) == 2:
        t = t[1]
    return t[0] in ("call", "refto") and t[1] == TYPE and len(t) == 3 and obj(t[2])


class Off(Exception):
    def __init__(self, verdict, msg, loc=None):
        self.verdict, self.msg, self.loc = verdict, msg, loc


def bad(msg, loc=None):
    raise Off(False, msg, loc)


def unk(msg, loc=None):
    raise Off(None, msg, loc)


def binding(ctx, prog, qn):
    oid = "bind"
    fns = prog.find(qn)
    if len(fns) != 1:
        ctx.undecide(oid, "the function was not found")
        return
    fn = fns[0]
    try:
        check(ctx, prog, fn)
    except Off as o:
        if o.verdict is None:
            ctx.undecide(oid, "%s: %s" % (fn.qn, o.msg))
        else:
            ctx.expect(oid, False, "%s: %s" % (fn.qn, o.msg), o.loc or fn.loc, fn.qn)


def check(ctx, prog, fn):
    paths = [p for p in ctx.run(prog, fn, PRIM) if p.kind != "throw"]
    it = ctx.last
    loops = {}
    for p in paths:
        for e in p.ev:
            if e.k == "loop" and {nrm(o) for o in candidates(e.loop)} & {PROPS, APROPS}:
                loops[e.loop.id] = e.loop
    if len(loops) != 1:
        unk("the loop over the arguments of the proposition is not recognised")
    lp = list(loops.values())[0]
    c = [covers(lp, ("init", x)) for x in (PROPS, APROPS) if ("init", x) in candidates(lp)]
    if lp.dir == "desc" and any(("init", x) in lp.over for x in (PROPS, APROPS)):
        c = [True]
    if True not in c:
        (bad if False in c else unk)("not all arguments of the proposition are looked at", lp.loc)
    some = [p for p in paths if p.value[0] == "some"]
    if not some or any(p.value[1][0] != "lam" for p in some):
        unk("the function is not recognised")
    whole = [p for p in some if all(e.extra == "exit" for e in p.ev if e.k == "loop" and e.loop.id == lp.id)]
    if len(whole) != len(some) or not whole:
        bad("not all arguments of the proposition are looked at", lp.loc)
    made = whole[0]
    if any(p.value != made.value for p in some):
        unk("the function is not recognised")
    C = closure(ctx, fn, it, made)
    rows(ctx, fn, lp, paths, C)
    ctx.ok("bind")
    # Parameters that the context does not mention keep their start: themselves, not objects.
    ctx.expect("bind.free", False, "%s: a parameter that the context does not mention is not given an object" % fn.qn, fn.loc, fn.qn)


# ---- the collected lists ------------------------------------------------------------------

def rows(ctx, fn, lp, paths, C):
    i = ("iter", lp.id) if lp.dir != "desc" else ("iter", lp.id, "desc")
    px, pa = ("idx", PROPS, i), ("idx", APROPS, i)
    seen = set()
    for ip in lp.paths:
        if ip.flow == "throw":
            continue
        extra = []
        # The iterations that return early are decided by the facts of the paths returning from them.
        x, a = side(ip, px, PARAMS, lp), side(ip, pa, ACTS, lp)
        if x == "no" or a == "no":
            continue
        eq = None
        unknown = []
        for f, v in ip.facts:
            f0, pol = strip(f)
            if f0[0] == "more" or bound(f0, lp):
                continue
            s = {nrm(y) for y in f0[2:]} if f0[0] == "call" and len(f0) == 4 else {nrm(y) for y in f0[1:]} if f0[0] == "eq" else ()
            if s == {px, pa}:
                e = (v == pol)
                eq = e != (f0[0] == "call" and f0[1].endswith("operator!="))
                continue
            if known(f0, ip, px, pa, x, a):
                continue
            unknown.append(f0)
        if unknown:
            unk("a condition that is not recognised: %s" % show(unknown[0])[:120], lp.loc)
        pushes = {}
        for q in lp.mod:
            w = ip.S.store.get(q, ("phi", lp.id, q))
            while w != ("phi", lp.id, q):
                if w[0] == "mut" and w[1] in ("emplace_back", "push_back"):
                    pushes.setdefault(q, []).append(pushed_pair(w[3] if len(w) == 4 else ("args",) + w[3:]))
                    w = w[2]
                elif w[0] == "mut" and w[1] == "[]=" and len(w) == 5:
                    pushes.setdefault(q, []).append((w[3], w[4]))
                    w = w[2]
                elif q in C.used:
                    unk("a list that is not recognised", lp.loc)
                else:
                    break
        got = {q: [(nrm(y[0]), nrm(y[1])) if y is not None else None for y in v] for q, v in pushes.items() if q in C.used}
        left = ip.flow not in (None, "continue")
        if x is None or a is None:
            # Decided without looking at a side.
            if left:
                bad("an action is never matched although its arguments could be", lp.loc) if x in ("const", None) and a is None and eq is None else unk("an early result", lp.loc)
            if x is None and a is None and not got and not unknown:
                bad("an argument of the proposition is not looked at", lp.loc)
            unk("whether an argument is a variable is not recognised", lp.loc)
        kx, ka = x == "const", a == "const"
        if kx and ka:
            if eq is None:
                # Different constants must not be matched.
                bad("different constants are matched" if not left else "equal constants are not matched", lp.loc)
            if eq and left:
                bad("equal constants are not matched", lp.loc)
            if not eq and not left:
                bad("different constants are matched", lp.loc)
            if left:
                none_result(paths, lp)
            if got:
                bad("a constant is replaced", lp.loc)
            seen.add("cc")
            continue
        if left:
            bad("an axiom is never applied although its context can match", lp.loc)
        if kx:
            want = {C.future: (a, nrm(px))}
            seen.add("cv")
            what = "an argument given to a constant of the context is not compared"
        elif ka:
            want = {C.lv: (x, nrm(pa)), C.fixed: (x, nrm(pa))}
            seen.add("vc")
            what = "a constant of the effect is not given to the axiom"
        else:
            want = {C.pairs: (x, a)}
            seen.add("vv")
            what = "an argument of the action is not given to the axiom"
        if None in want:
            bad(what, lp.loc)
        for q, w in want.items():
            g = got.pop(q, [])
            if w in g and len(set(g)) == 1:
                continue
            bad(what if not g else "%s (another one is)" % what, lp.loc) if None not in g else unk("a list that is not recognised", lp.loc)
        if got:
            q, g = list(got.items())[0]
            unk("an argument is recorded in a list it is not expected in", lp.loc)
    for k, w in (("cc", "constants of context and effect are not compared"), ("cv", "a constant of the context is never compared with an argument"),
                 ("vc", "constants of the effect are not given to the axiom"), ("vv", "arguments of the action are not given to the axiom")):
        if k not in seen:
            unk(w, lp.loc)


def none_result(paths, lp):
    for p in paths:
        for e in p.ev:
            if e.k == "loop" and e.loop.id == lp.id and e.extra != "exit" and p.kind == "return":
                if p.value[0] == "some":
                    bad("different constants are matched", lp.loc)


def side(ip, prop, params, lp):
    """('const'), the index of the parameter, None (not looked at), or 'no' (cannot happen)."""
    var = None
    for f, v in ip.facts:
        w = is_variable(f, v, prop)
        if w is not None:
            if var is not None and var != w:
                return "no"
            var = w
    found = None
    for e in ip.events:
        if e.k != "loop" or nrm_over(e.loop) != params:
            continue
        il = e.loop
        js = its(il)[::-1]
        if e.extra == "exit":
            # A search that remembers the index found.
            found = found or remembered(ip, il, prop, params)
            if found is None:
                found = "absent"
            continue
        hit = None
        for f, v in ip.facts:
            for j in js:
                m = same(f, ("idx", params, j), prop)
                if m is not None and m == v:
                    hit = j
        if hit is None:
            w = [is_variable(f, v, prop) for f, v in ip.facts]
            return "const" if False in w else None
        if params == ACTS and hit == js[1] and il.dir != "desc":
            bad("an outer variable hides an inner one of the same name", il.loc)
        for f, v in ip.facts:
            if f[0] == "eq" and v and set(f[1:]) == {hit, ("size", ("init", params))}:
                return "no"
        found = hit
    if var is False:
        if found not in (None, "absent"):
            return "const"
        return "const"
    if found is None:
        return None
    if found == "absent":
        return "const"
    if var is None:
        bad("a constant is taken for the variable of the same name", lp.loc)
    return found


def remembered(ip, il, prop, params):
    return None


def nrm_over(il):
    for o in candidates(il):
        o = nrm(o)
        if o in (ACTS, PARAMS):
            return o
    return None


def same(f, x, y):
    f0, pol = strip(f)
    if f0[0] == "call" and len(f0) == 4 and {nrm(f0[2]), nrm(f0[3])} == {x, y}:
        if f0[1].endswith("operator=="):
            return pol
        if f0[1].endswith("operator!="):
            return not pol
    if f0[0] == "eq" and {nrm(f0[1]), nrm(f0[2])} in ({("call", "symbolic::Object::" + k, x), ("call", "symbolic::Object::" + k, y)} for k in ("name", "symbol")):
        return pol
    return None


def known(f, ip, px, pa, x, a):
    if is_variable(f, True, px) is not None or is_variable(f, True, pa) is not None:
        return True
    for e in ip.events:
        if e.k == "loop":
            q = nrm_over(e.loop)
            if q is None:
                continue
            if bound(f, e.loop) or f[0] == "pos" and any(j in set(walk(f)) for j in its(e.loop)):
                return True
            for j in its(e.loop):
                if same(f, ("idx", q, j), px if q == PARAMS else pa) is not None:
                    return True
                if f[0] == "eq" and set(f[1:]) == {j, ("size", ("init", q))}:
                    return True
    return False


# ---- the closure ---------------------------------------------------------------------------

class Made:
    lv = future = fixed = pairs = None

    @property
    def used(self):
        return [x for x in (self.lv, self.future, self.fixed, self.pairs) if x is not None]


def closure(ctx, fn, it, made):
    C = Made()
    qs = list(it.run_closure(made.value[1], args=[L(ARGS)]))
    oks = []
    for q in qs:
        if q.kind != "return":
            unk("an application that may fail")
        v = q.value.p if isinstance(q.value, L) else q.value
        if v[0] == "null":
            continue
        oks.append((q, v))
    if not oks:
        bad("no arguments are ever found")
    lvs = {v for _, v in oks}
    if len(lvs) != 1:
        unk("the result is not recognised")
    v = list(lvs)[0]
    lv = v[1] if v[0] == "addr" else v
    if root(lv)[0] in ("var", "tmp"):
        bad("the arguments returned are gone") if root(lv)[0] == "tmp" else unk("the arguments returned may be gone")
    C.lv = lv
    start = starts(made, lv)
    if start is None:
        unk("the start of the arguments is not recognised")
    s0 = nrm(start)
    if not (s0 == PARAMS or s0[0] == "new" and len(s0) == 3 and s0[2] == PARAMS):
        (bad if s0 in (ACTS, PROPS, ("list",), ("emptyc",)) else unk)("arguments that the context does not mention are not kept")
    # Every path that returns the arguments has gone through the comparisons.
    lists = {}
    for q in qs:
        for e in q.ev:
            if e.k == "loop":
                lists.setdefault(e.loop.id, e.loop)
    roles = {}
    for lid, l in lists.items():
        roles[lid] = role(l, C, made, qs)
    for q in qs:
        for f, _ in q.facts:
            f0 = strip(f)[0]
            if f0[0] == "more" or any(bound(f0, l) or f0[0] == "pos" and any(j in set(walk(f0)) for j in its(l)) for l in lists.values()):
                continue
            if any(any(j in set(walk(f0)) for j in its(l)) for l in lists.values()):
                continue
            unk("a condition that is not recognised: %s" % show(f0)[:100])
    for q, _ in oks:
        have = [(roles[e.loop.id], e.extra) for e in q.ev if e.k == "loop"]
        for r, x in have:
            if x != "exit":
                bad("arguments that do not match are accepted", fn.loc)
        order = [r for r, _ in have]
        kinds = [r[0] for r in order]
        for k, what in (("assign", "no argument of the action is given to the axiom"), ("future", "an argument given to a constant of the context is not compared"),
                        ("again", "arguments given to a repeated variable are not compared"), ("fixed", "constants given to a repeated variable are not compared"),
                        ("types", "arguments that do not have the types of the axiom's parameters are accepted")):
            if k not in kinds:
                (bad if "?" not in kinds else unk)(what, fn.loc)
        for k in ("again", "fixed", "types"):
            if kinds.index("assign") > kinds.index(k):
                bad("the arguments are compared before they are given to the axiom", fn.loc)
        if q.S.store.get(C.lv) is None:
            unk("the arguments are not recognised")
    for r in roles.values():
        k = r[0]
        cur = {"assign": "pairs", "again": "pairs", "future": "future", "fixed": "fixed"}.get(k)
        if cur:
            if getattr(C, cur) not in (None, r[1]):
                unk("a list that is not recognised")
            setattr(C, cur, r[1])
    return C


def is_out(q, l):
    """A variable that outlives an iteration other than the loop's own index."""
    i = l.init.get(q)
    if i is not None and (is_int(i) or i[0] == "itr"):
        return any(ip.S.store.get(q) not in (None, add(x, I(1)), ("phi", l.id, q)) for ip in l.paths for x in its(l)[:1])
    return root(q)[0] not in ("var", "tmp") or q in l.init


def starts(made, lv):
    for e in made.ev:
        if e.k == "loop" and lv in e.loop.init:
            return e.loop.init[lv]
    return made.S.store.get(lv)


def role(l, C, made, qs):
    """What a loop of the closure does: (kind, list)."""
    lst = None
    if not any(is_out(q, l) for q in l.mod) and all(ip.flow in (None, "continue") for ip in l.paths):
        return ("nothing", None)
    if any(o[0] in ("emptyc", "list") and len(o) == 1 or o[0] == "new" and len(o) == 2 for o in candidates(l)):
        return ("nothing", None)
    for o in l.over:
        if o[0] == "phi":
            lst = (o, o[2])
        elif nrm(o) == PARAMS:
            lst = (o, None)
        elif nrm(o) == C.lv or o == ("init", C.lv) or o[0] == "phi" and o[2] == C.lv:
            lst = (o, None)
    if lst is None:
        for o in candidates(l):
            if nrm(o) == PARAMS or o == ("init", C.lv) or o[0] == "phi" and o[2] == C.lv:
                lst = (o, None)
    if lst is None:
        return ("?", None)
    o, q = lst
    full = covers(l, o) is True or l.dir == "desc" and o in l.over
    if not full:
        return ("?", None) if covers(l, o) is None else bad("not all arguments are compared", l.loc)
    el = elems(l, o)
    first = [nrm(engine.project(x, "first")) for x in el]
    second = [nrm(engine.project(x, "second")) for x in el]
    cur = lambda t: nrm(t) == C.lv or t == ("init", C.lv) or t[0] == "phi" and t[2] == C.lv
    kinds = set()
    for ip in l.paths:
        if C.lv in l.mod:
            w = ip.S.store.get(C.lv)
            if ip.flow is not None or any(f[0] != "more" and not bound(f, l) for f, _ in ip.facts):
                unk("an argument given under a condition", l.loc)
            if w is None or w[0] != "mut" or w[1] != "[]=" or w[2] != ("phi", l.id, C.lv):
                unk("the arguments are not recognised", l.loc)
            at, what = nrm(w[3]), nrm(w[4])
            if at in first and what in [("idx", ARGS, x) for x in second]:
                kinds.add(("assign", q))
                continue
            if at in second and what in [("idx", ARGS, x) for x in first]:
                bad("arguments of action and axiom are confused", l.loc)
            (bad if at in first + second and what in [("idx", ARGS, x) for x in first + second] else unk)("an argument is not the one matched", l.loc)
        conds = []
        for f, v in ip.facts:
            f0, pol = strip(f)
            if f0[0] == "more" or bound(f0, l):
                continue
            conds.append((f0, v == pol))
        if len(conds) != 1:
            if not conds and ip.flow is None:
                return ("?", None)
            unk("a comparison that is not recognised", l.loc)
        (f, v), = conds
        k = compare(f, first, second, l, el, o, C)
        if k is None:
            unk("a comparison that is not recognised: %s" % show(f)[:120], l.loc)
        kind, pol = k
        good = v == pol
        if kind == "types!":
            bad("the types of parameters and arguments are confused", l.loc)
        if good and ip.flow is not None:
            bad("arguments that match are refused", l.loc)
        if not good and ip.flow is None:
            bad("arguments that do not match are accepted", l.loc)
        if not good:
            res = [p for p in qs for e in p.ev if e.k == "loop" and e.loop.id == l.id and e.extra != "exit"]
            if any((p.value.p if isinstance(p.value, L) else p.value)[0] != "null" for p in res):
                bad("arguments that do not match are accepted", l.loc)
        kinds.add((kind, q))
    if len(kinds) != 1:
        unk("a loop that is not recognised", l.loc)
    return kinds.pop()


def compare(f, first, second, l, el, o, C):
    js = its(l)

    def at(t, ixs):
        while t[0] in ("init", "deref", "addr") and len(t) == 2:
            t = t[1]
        if t[0] not in ("elem", "idx") or len(t) != 3 or nrm(t[2]) not in ixs:
            return False
        o = t[1]
        return o == C.lv or o == ("init", C.lv) or o[0] == "phi" and o[2] == C.lv or nrm(o) == nrm(C.lv)

    def mine(t):
        return at(t, first)
    if f[0] == "call" and len(f) == 4 and f[1].rsplit("::", 1)[-1] in ("operator==", "operator!=") or f[0] == "eq":
        pol = not (f[0] == "call" and f[1].endswith("!="))
        a, b = f[2:] if f[0] == "call" else f[1:]
        for x, y in ((a, b), (b, a)):
            nx, ny = nrm(x), nrm(y)
            if nx in [("idx", ARGS, z) for z in first] and ny in second:
                return "future", pol
            if mine(x) and ny in second:
                return "fixed", pol
            if mine(x) and ny in [("idx", ARGS, z) for z in second]:
                return "again", pol
        return None
    if f[0] == "call" and f[1].endswith("::IsSubtype") and len(f) == 4:
        pa = [("call", TYPE, ("idx", PARAMS, j)) for j in js]
        own = [typed(t, lambda x: at(x, js)) for t in f[2:]]
        par = [nrm(t) in pa or typed(t, lambda x: nrm(x) in [("idx", PARAMS, j) for j in js]) for t in f[2:]]
        if own[0] and par[1]:
            return "types", True
        if par[0] and own[1]:
            return "types!", True
    return None
