"""C17: axioms and derived predicates mean their implications and rules."""
from common import *
from rules.seqs import *
from rules.comps import comp, want
from rules.c07 import nrm, is_variable
from rules.fix import Fix, Wrong, Undecided
from rules.unify import binding
import engine

LEVEL = "other"
EXPLAIN = ("Path summaries of the axiom and derived predicate operations with formulas, effects and states opaque: every step of a loop over "
           "argument tuples is tabulated over (context holds, effect changes / contradicts / fails); loops that repeat until nothing changes are "
           "explored as finite automata over their flags; the binding of an axiom to an effect's arguments is read off the lists it collects and "
           "compared with unification of the two propositions. Nothing is executed.")

AX, DP, ACT = "symbolic::Axiom", "symbolic::DerivedPredicate", "symbolic::Action"
PRIM = ["symbolic::State::*", "symbolic::PartialState::*", "symbolic::operator==", "symbolic::Proposition::*", "symbolic::PropositionBase::*",
        "symbolic::PropositionRef::*", "symbolic::Object::*", "symbolic::ParameterGenerator::*", "symbolic::CombinationGenerator<*", "symbolic::Formula::*",
        "symbolic::Pddl::*", "symbolic::DisjunctiveFormula::*", ACT + "::Apply", "symbolic::SignedProposition::*"]
T = ("this",)
ARGS = ("param", 101)


def run(ctx):
    prog = ctx.program(["src/axiom.cc", "src/derived_predicate.cc"], [])
    K = Kit(prog)
    ctx.group("axiom", construct, ctx, prog, K)
    ctx.group("axiom", axioms, ctx, prog, K)
    ctx.group("bind", binding, ctx, prog, AX + "::CreateApplicationFunction")
    ctx.group("derived", derived, ctx, prog, K)


class Kit:
    def __init__(self, prog):
        tuples = field_by_type(prog, AX, lambda t: "vector<std::vector<" in t.s.replace("class ", "") or "vector<vector<" in t.s)
        self.gen = nrm(getter_field(prog, ACT + "::parameter_generator"))
        self.pre = nrm(getter_field(prog, ACT + "::preconditions"))
        self.params = nrm(getter_field(prog, ACT + "::parameters"))
        self.name = nrm(getter_field(prog, ACT + "::name"))
        self.tuples = [("fld", T, n) for n in tuples]
        if len(self.tuples) != 1:
            raise AnalysisError("Axiom: list of arguments not found")
        sw = [f for f in prog.fns.values() if f.decl.cls == AX and len(f.f["p"]) == 2 and not f.decl.static and
              [pk(f.tu.type(x["t"])) for x in f.f["p"]] == ["partial*", "bool*"]]
        self.sweep = sw[0].qn if len(sw) == 1 else None


def pk(t):
    """Kind of a parameter type."""
    s = t.s
    b = "partial" if "PartialState" in s else "state" if "State" in s else "bool" if "bool" in s else \
        "axioms" if "Axiom" in s and "vector" in s else "derived" if "DerivedPredicate" in s and "vector" in s else "args" if "vector" in s else "?"
    return b + ("*" if t.ptr else "")


def base(t):
    """A class's terms seen through the derived class or a captured this."""
    return nrm(t)


# ---- axioms ------------------------------------------------------------------------

def axioms(ctx, prog, K):
    n = 0
    for fn in sorted((f for f in prog.fns.values() if f.decl.cls == AX), key=lambda f: f.loc):
        kinds = [pk(fn.tu.type(x["t"])) for x in fn.f["p"]]
        nm = fn.qn.rsplit("::", 1)[-1]
        if nm == "IsConsistent" and kinds in (["state"], ["partial*", "bool*"]):
            consistent(ctx, prog, K, fn, kinds)
        elif nm == "IsConsistent" and kinds == ["partial"]:
            until(ctx, prog, K, fn, "consistent.partial", ("init", ("param", 0)), None)
        elif nm == "IsConsistent" and kinds == ["axioms", "partial"]:
            until(ctx, prog, K, fn, "consistent.all", ("init", ("param", 1)), ("param", 0))
        elif nm == "Apply" and kinds in (["state*"], ["partial*"]):
            apply_in_place(ctx, prog, K, fn, kinds[0] == "partial*")
        elif nm == "Apply" and kinds in (["state"], ["partial"]):
            apply_copy(ctx, prog, K, fn, kinds[0] == "partial")
        else:
            continue
        n += 1
    for k in (["state"], ["partial"], ["axioms", "partial"]):
        pass
    if n < 7:
        ctx.undecide("axiom", "an operation was not found")


def tuples_loop(K, lp):
    for o in candidates(lp):
        if nrm(o) in K.tuples + [K.gen]:
            return o
    return None


def valid_of(K, t, el):
    """The state a term tests the axiom's context in for the arguments visited, or None."""
    if t[0] == "call" and t[1] == "symbolic::Formula::operator()" and len(t) == 5 and nrm(t[2]) == K.pre and nrm(t[4]) in el:
        return t[3]
    return None


def apply_of(t, el):
    if t[0] in ("call", "ret") and t[1] == ACT + "::Apply" and len(t) >= 5 and nrm(t[2]) == T and nrm(t[3]) in el:
        return True
    return False


def the_loop(ctx, K, fn, p, oid):
    lps = [e for e in p.ev if e.k == "loop"]
    if not lps:
        ctx.expect(oid, False if not p.facts else None, "%s: the arguments are not looked at" % fn.qn, last_loc(p, fn), fn.qn)
        return None
    if len(lps) != 1 or tuples_loop(K, lps[0].loop) is None:
        ctx.undecide(oid, "the loop over the arguments is not recognised")
        return None
    lp = lps[0].loop
    o = tuples_loop(K, lp)
    c = True if lp.dir == "desc" and o in lp.over else covers(lp, o)
    if c is not True:
        ctx.expect(oid, c, "%s: not all arguments are looked at" % fn.qn, lp.loc, fn.qn)
        return None
    return lps[0], [nrm(x) for x in elems(lp, o)]


def state_of(lp, fn, copy, arg, paths):
    """The variable holding the state being changed, when its start is right: (lv, verdict)."""
    out = []
    for q in lp.mod:
        t = ("phi", lp.id, q)
        for ip in lp.paths:
            w = ip.S.store.get(q, t)
            if w[0] == "mut" and w[1].startswith(ACT + "::Apply#") and (q, w) not in out:
                out.append((q, w))
    return sorted({q for q, _ in out}, key=repr)


def same_state(t, phi, start, lp):
    """A term is the state as far as changed (phi), or the start when nothing has changed."""
    return t == phi or nrm(t) == nrm(phi)


def consistent(ctx, prog, K, fn, kinds):
    part = kinds[0] == "partial*"
    oid = "consistent.step" if part else "consistent.state"
    paths = ctx.run(prog, fn, PRIM)
    start = ("init", ("deref", ("init", ("param", 0)))) if part else ("init", ("param", 0))
    loops = {}
    for p in paths:
        if p.kind == "throw":
            continue
        r = the_loop(ctx, K, fn, p, oid)
        if r is None:
            return
        loops[r[0].loop.id] = r
    if len(loops) != 1:
        ctx.undecide(oid, "the loop over the arguments is not recognised")
        return
    (ev, el), = loops.values()
    lp = ev.loop
    sv = state_of(lp, fn, not part, start, paths)
    fresh = not sv
    if fresh:
        # A copy for each tuple?
        cp = [e for ip in lp.paths for e in ip.events if e.k == "call" and e.qn == ACT + "::Apply"]
        if not cp:
            ctx.expect(oid, False if all(strip(a)[0][0] == "more" or any(valid_of(K, x, el) is not None for x in walk(a)) for ip in lp.paths for a, _ in ip.facts)
                       else None, "%s: the implication is not looked at" % fn.qn, lp.loc, fn.qn)
            return
    elif len(sv) != 1:
        ctx.undecide(oid, "the state is not recognised")
        return
    else:
        q = sv[0]
        phi = ("phi", lp.id, q)
        i = lp.init.get(q)
        if i is None or copy_of(i) != start:
            ctx.expect(oid + ".start", None, "%s: the state changed is not recognised" % fn.qn, lp.loc, fn.qn)
            return
        if part and q != start[1]:
            ctx.expect(oid + ".start", False, "%s: what follows from the axiom is not kept in the state" % fn.qn, lp.loc, fn.qn)
            return
    valid_in = lambda s: s == start and not part or (not fresh and (s == phi or s == start and not part)) or fresh and copy_of(s) == start
    flag = ("deref", ("init", ("param", 1))) if part else None
    fphi = ("phi", lp.id, flag) if part else None
    bad = False
    caught = False
    tested_elsewhere = False
    envs = [dict(valid=v, r=r, throws=x, f=f) for v in (True, False) + ((None,) if part else ()) for r in ((0, 1, 2) if part else (0, 1))
            for x in (False, True) for f in ((0, 1) if part else (0,))]

    def leaf(env):
        def f(t):
            s = valid_of(K, t, el)
            if s is not None and valid_in(s):
                return None if part else env["valid"]
            if part and t[0] in ("has", "optval") and valid_of(K, t[1], el) is not None and valid_in(valid_of(K, t[1], el)):
                return env["valid"] is not None if t[0] == "has" else bool(env["valid"])
            if part and t[0] == "valueor" and valid_of(K, t[1], el) is not None:
                return bool(env["valid"]) if env["valid"] is not None else value_of(t[2], f)
            if apply_of(t, el):
                return env["r"]
            if part and t == fphi:
                return env["f"]
            return None
        return f
    for env in envs:
        lf = leaf(env)
        hit = False
        for ip in lp.paths:
            h, unk = holds_in(ip.facts, lf, lambda a: strip(a)[0][0] == "more" or bound(a, lp))
            if h is False:
                continue
            has_catch = any(e.k == "catch" for e in ip.events)
            did = [e for e in ip.events if e.k == "call" and e.qn == ACT + "::Apply"]
            if env["throws"] and env["valid"]:
                if not has_catch:
                    continue
            elif has_catch or ip.flow == "throw":
                continue
            if h is None:
                wrong = [x for a in unk for x in walk(a) if valid_of(K, x, el) is not None]
                ctx.undecide(oid, "%s: a condition that is not recognised" % fn.qn)
                return
            if did and any(nrm(e.args[0]) not in el or nrm(e.objv if e.objv is not None else T) != T and e.obj != T for e in did):
                ctx.expect(oid, None, "%s: the implication is not recognised" % fn.qn, lp.loc, fn.qn)
                return
            hit = True
            out = ip.flow in (None, "continue")
            val = None
            if isinstance(ip.flow, tuple):
                val = ip.flow[1]
            elif ip.flow == "break":
                val = after_break(lp, paths, lf)
            if not out:
                x = value_of(val, lf) if val is not None else None
                if x is None or x:
                    ctx.expect(oid, False if x else None, "%s: the remaining arguments are not looked at" % fn.qn, lp.loc, fn.qn)
                    return
            if env["valid"] and env["throws"]:
                ok, msg = not out, "effects that cannot hold are not a contradiction"
            elif env["valid"] and (env["r"] > 1 if part else env["r"]):
                ok, msg = not out, "the axiom is not violated although the context holds and its implication does not"
            else:
                ok, msg = out, "the axiom is violated although %s" % (
                    "its context does not hold" if env["valid"] is False else "its context is not known to hold" if env["valid"] is None else "its implication holds")
            ctx.expect(oid, ok, "%s: %s" % (fn.qn, msg), lp.loc, fn.qn)
            bad |= not ok
            if out and part:
                if env["valid"]:
                    ctx.expect(oid, True if did else False, "%s: the implication is not applied" % fn.qn, lp.loc, fn.qn)
                elif did:
                    ctx.expect(oid, False, "%s: the implication is applied although the context does not hold" % fn.qn, lp.loc, fn.qn)
                w = ip.S.store.get(flag, fphi) if flag in lp.mod else fphi
                x = value_of(w, lf)
                e = bool(env["f"]) or bool(env["valid"] and env["r"])
                ctx.expect(oid + ".flag", None if x is None else bool(x) == e, "%s: whether the state changed is not reported" % fn.qn, lp.loc, fn.qn)
            elif out and env["valid"] is False and did:
                ctx.expect(oid, False, "%s: the implication is applied although the context does not hold" % fn.qn, lp.loc, fn.qn)
        if not hit and env["valid"] and env["throws"]:
            ctx.expect(oid, False, "%s: effects that cannot hold make the test fail" % fn.qn, lp.loc, fn.qn)
            bad = True
        if bad:
            return
    for p in paths:
        if p.kind == "throw":
            continue
        for e in p.ev:
            if e.k == "loop" and e.loop.id == lp.id and e.extra == "exit":
                x = value_of(p.value, lambda t: None)
                ctx.expect(oid, None if x is None else bool(x), "%s: not consistent although no axiom is violated" % fn.qn, last_loc(p, fn), fn.qn)


def after_break(lp, paths, lf):
    vals = []
    for p in paths:
        for e in p.ev:
            if e.k == "loop" and e.loop.id == lp.id and e.extra == "break" and p.kind == "return":
                h, unk = holds_in(p.facts, lf, lambda a: strip(a)[0][0] == "more" or bound(a, lp))
                if h is not False:
                    vals.append(p.value)
    return vals[0] if len(set(vals)) == 1 else None


def copy_of(t):
    """What a term is a copy of."""
    while t[0] == "new" and t[1] in ("symbolic::State", "symbolic::PartialState") and len(t) == 3:
        t = t[2]
    return t


def until(ctx, prog, K, fn, oid, start, coll):
    """Sweeps until nothing changes; false at a contradiction."""
    prim = PRIM + ([K.sweep] if K.sweep else []) + [AX + "::Apply"]
    paths = [p for p in ctx.run(prog, fn, prim) if p.kind != "throw"]

    def is_coll(t):
        if t is None:
            return coll is None
        return coll is not None and nrm(t) == coll
    objs = [T]

    def leaf(env, t):
        if t[0] == "call" and t[1] == K.sweep and len(t) >= 5:
            return env["ok"]
        if t[0] == "mut" and t[1] == "%s#1" % K.sweep:
            x = value_of(t[2], lambda u: leaf(env, u) if fx.cur is None else fx.cur(u))
            return None if x is None else int(bool(x) or env["r"])
        return None
    envs = [dict(ok=True, r=0), dict(ok=True, r=1), dict(ok=False, r=0), dict(ok=False, r=1)]

    def result(p, lf, ever):
        x = value_of(p.value, lf)
        return None if x is None else bool(x)
    fx = Cur(paths[0], is_coll, envs, leaf, lambda e: e["r"], lambda e: not e["ok"], fail_value=False, result=result, what="axiom")
    if not any(e.k == "loop" for p in paths for e in p.ev):
        once = all(strip(a)[0][0] == "call" and strip(a)[0][1] == K.sweep for p in paths for a, _ in p.facts) and any(
            e.k == "call" and e.qn == K.sweep for p in paths for e in p.ev)
        ctx.expect(oid, False if once else None, "%s: not repeated until nothing changes" % fn.qn, fn.loc, fn.qn)
        return
    try:
        fx.check(paths)
        step_state(K, fx, start, fn)
    except Wrong as w:
        ctx.expect(oid, False, "%s: %s" % (fn.qn, w.msg), w.loc or fn.loc, fn.qn)
    except Undecided as u:
        ctx.undecide(oid, str(u))
    else:
        ctx.ok(oid)


class Cur(Fix):
    """Lets leaf() look at the flags of the iteration evaluated."""
    cur = None

    def phis(self, lp, f, more=None, env=None):
        def lf(t):
            if t[0] == "phi" and t[1] == lp.id and t[2] in f:
                return f[t[2]]
            if more is not None:
                x = more(t)
                if x is not None:
                    return x
            if env is None:
                return None
            old, self.cur = self.cur, lf
            try:
                return self.leaf(env, t)
            finally:
                self.cur = old
        return lf


def step_state(K, fx, start, fn):
    """Every step tests the element visited in one copy of the state that keeps what follows."""
    lp = fx.inner or fx.outer
    el = [nrm(x) for x in elems(lp, fx.coll)] if fx.inner is not None else [T]
    sv = set()
    for ip in lp.paths:
        cs = [e for e in ip.events if e.k == "call" and e.qn == K.sweep]
        if not cs and ip.flow in (None, "continue"):
            raise Wrong("an axiom is not looked at", lp.loc)
        for e in cs:
            o = nrm(e.obj) if e.obj is not None else None
            ob = {o, nrm(e.objv) if e.objv is not None else None, strip_ptr(o)}
            if not ob & set(el):
                raise Undecided("the axiom tested is not recognised")
            a = e.args[0]
            if a[0] != "addr" and a[0] != "init":
                raise Undecided("the state tested is not recognised")
            sv.add(a)
    if len(sv) != 1:
        raise Undecided("the state tested is not recognised")
    a, = sv
    lv = a[1] if a[0] == "addr" else ("deref", a)
    if lv not in fx.outer.mod:
        raise Wrong("what follows from the axioms is not kept for the next round", lp.loc)
    i = fx.outer.init.get(lv)
    if i is None or copy_of(i) != start:
        raise Wrong("another state is tested", lp.loc) if i is not None and copy_of(i)[0] in ("new", "init") else Undecided("the state tested is not recognised")
    if fx.inner is not None and fx.inner.init.get(lv) != ("phi", fx.outer.id, lv):
        raise Wrong("what follows from the axioms is not kept for the next round", lp.loc) \
            if copy_of(fx.inner.init.get(lv, ("x",))) == start else Undecided("the state tested is not recognised")


def strip_ptr(t):
    while t is not None and t[0] in ("deref", "init"):
        t = t[1]
    return t


def apply_in_place(ctx, prog, K, fn, part):
    oid = "apply.partial" if part else "apply.state"
    paths = ctx.run(prog, fn, PRIM)
    slv = ("deref", ("init", ("param", 0)))
    for p in paths:
        if p.kind == "throw":
            continue
        r = the_loop(ctx, K, fn, p, oid)
        if r is None:
            continue
        ev, el = r
        lp = ev.loop
        if ev.extra != "exit":
            early = [ip for ip in lp.paths if ip.flow not in (None, "continue", "throw")]
            sure = all(strip(a)[0][0] == "more" or bound(a, lp) or any(valid_of(K, x, el) is not None or apply_of(x, el) for x in walk(a)) or
                       strip(a)[0][0] == "phi" for ip in early for a, _ in ip.facts)
            ctx.expect(oid, False if sure else None, "%s: the axiom is not applied to the remaining arguments" % fn.qn, lp.loc, fn.qn)
            continue
        sphi = ("phi", lp.id, slv)
        rv = p.value
        if rv[0] not in ("phi", "bool", "int", "not", "pos", "eq0"):
            ctx.undecide(oid, "the result is not recognised")
            continue
        flags = [q for q in lp.mod if q != slv and any(x == ("phi", lp.id, q) for x in walk(rv))]
        if not flags:
            ctx.expect(oid + ".flag", False if value_of(rv, lambda t: None) is not None else None, "%s: whether the state changed is not reported" % fn.qn, last_loc(p, fn), fn.qn)
            continue
        if len(flags) != 1:
            ctx.undecide(oid, "the result is not recognised")
            continue
        fq = flags[0]
        fphi = ("phi", lp.id, fq)
        f0 = value_of(lp.init.get(fq, ("none",)), lambda t: None)
        if f0 is None:
            ctx.undecide(oid, "the result is not recognised")
            continue
        v0 = value_of(rv, lambda t: f0 if t == fphi else None)
        ctx.expect(oid + ".flag", None if v0 is None else int(v0) == 0, "%s: a change is reported although there is none" % fn.qn, lp.loc, fn.qn)
        # flag values by abstract status: follow from f0
        dom = (0, 1, 2) if part else (0, 1)
        seen, todo = set(), [(int(f0), 0)]
        ok = True
        while todo and ok is True:
            f, best = todo.pop()
            if (f, best) in seen:
                continue
            seen.add((f, best))
            x = value_of(rv, lambda t: f if t == fphi else None)
            ctx.expect(oid + ".flag", None if x is None else (int(x) if part else bool(x)) == (best if part else bool(best)), "%s: whether the state changed is not reported" % fn.qn, last_loc(p, fn), fn.qn)
            if x is None or (int(x) if part else bool(x)) != (best if part else bool(best)):
                break
            for v in (True, False) + ((None,) if part else ()):
                for r in dom:
                    def lf(t):
                        s = valid_of(K, t, el)
                        if s is not None and s == sphi:
                            return None if part else v
                        if part and t[0] in ("has", "optval") and valid_of(K, t[1], el) == sphi:
                            return v is not None if t[0] == "has" else bool(v)
                        if apply_of(t, el):
                            return r
                        if t == fphi:
                            return f
                        return None
                    for ip in lp.paths:
                        if ip.flow == "throw":
                            continue
                        h, unk = holds_in(ip.facts, lf, lambda a: strip(a)[0][0] == "more" or bound(a, lp))
                        if h is False:
                            continue
                        if h is None:
                            late = [x for a in unk for x in walk(a) if valid_of(K, x, el) is not None and valid_of(K, x, el)[0] == "init"]
                            ctx.expect(oid, False if late else None, "%s: the context is not tested in the state reached so far" % fn.qn, lp.loc, fn.qn)
                            ok = None
                            break
                        w = ip.S.store.get(slv, sphi)
                        did = w != sphi
                        if did and not (w[0] == "mut" and w[1].startswith(ACT + "::Apply#") and w[2] == sphi and any(nrm(y) in el for y in w[3:])):
                            ctx.undecide(oid, "the change of the state is not recognised")
                            ok = None
                            break
                        if did != bool(v):
                            ctx.expect(oid, False, "%s: the implication is %s" % (fn.qn, "applied although the context does not hold" if did else "not applied although the context holds"), lp.loc, fn.qn)
                            ok = False
                            break
                        ctx.ok(oid)
                        g = value_of(ip.S.store.get(fq, fphi), lf)
                        if g is None:
                            ctx.undecide(oid, "the result is not recognised")
                            ok = None
                            break
                        todo.append((int(g), max(best, r) if v else best))
                    if ok is not True:
                        break
                if ok is not True:
                    break
        got = p.S.store.get(slv)
        ctx.expect(oid, True if got == sphi else None, "the state", last_loc(p, fn), fn.qn)


def apply_copy(ctx, prog, K, fn, part):
    oid = "apply.copy"
    q = AX + "::Apply"
    for p in ctx.run(prog, fn, PRIM + [q]):
        if p.kind != "return":
            continue
        v = p.value
        s = ("init", ("param", 0))
        ok = v[0] == "mut" and v[1].startswith(q + "#") and copy_of(v[2]) == s
        wrong = copy_of(v) == s
        ctx.expect(oid, True if ok else False if wrong and not p.facts else None, "%s: the axiom is not applied" % fn.qn, last_loc(p, fn), fn.qn)


# ---- construction ------------------------------------------------------------------

def construct(ctx, prog, K):
    oid = "axiom.ctor"
    fns = [f for f in prog.find(AX + "::Axiom") if len(f.f["p"]) == 2 and any("operator" in f.tu.type(x["t"]).s for x in f.f["p"])]
    cx = getter_field(prog, AX + "::context")
    if len(fns) != 1:
        ctx.undecide(oid, "the constructor was not found")
        return
    fn = fns[0]
    pre = None
    for p in ctx.run(prog, fn, PRIM):
        act = [x for v in p.S.store.values() for x in walk(v) if x[0] == "new" and x[1] == ACT]
        if not act:
            ctx.undecide(oid, "the action is not recognised")
            return
        act = act[0]
        g = lambda f: ("get", act, f[2])
        gen, prec, params = g(K.gen), g(K.pre), g(K.params)
        whole = ("call", "symbolic::Formula::symbol", prec)
        inner = None
        kind = {}
        unknown = []
        for a, v in p.facts:
            a0, pol = strip(a)
            if a0[0] == "more" or a0[0] == "has":
                continue
            if a0[0] == "isnull" and a0[1][0] == "dyncast":
                n = a0[1][1].replace("const ", "")
                x = nrm(a0[1][2])
                if x == nrm(whole):
                    kind[n] = v != pol
                    continue
                if x[0] == "call" and x[1] == "VAL::neg_goal::getGoal" and set(walk(x)) >= {nrm(whole)}:
                    kind["in:" + n] = v != pol
                    continue
            unknown.append(a0)
        simple, neg, ins = kind.get("VAL::simple_goal"), kind.get("VAL::neg_goal"), kind.get("in:VAL::simple_goal")
        if unknown and p.kind == "throw":
            ctx.expect(oid + ".context", None, "a condition that is not recognised", fn.loc, fn.qn)
            continue
        if p.kind == "throw":
            ctx.expect(oid + ".context", simple is not True and not (neg and ins), "%s: a context that is a proposition is refused" % fn.qn, fn.loc, fn.qn)
            continue
        c = p.S.store.get(("fld", T, cx[-1]) if isinstance(cx, tuple) else cx, ("none",))
        if simple:
            want, sign = nrm(("dyncast", "VAL::simple_goal", whole)), True
        elif neg and ins:
            want, sign = nrm(("dyncast", "VAL::simple_goal", ("call", "VAL::neg_goal::getGoal", ("dyncast", "VAL::neg_goal", whole)))), False
        elif False in (simple,) and (neg is False or ins is False):
            ctx.expect(oid + ".context", False, "%s: a context that is no proposition is accepted" % fn.qn, fn.loc, fn.qn)
            continue
        else:
            ctx.undecide(oid + ".context", "the kind of context is not recognised")
            continue
        if c[0] != "new" or len(c) not in (4, 5):
            ctx.undecide(oid + ".context", "the context is not recognised")
            continue
        s = value_of(c[4], lambda t: None) if len(c) == 5 else True
        prop = ("call", "VAL::simple_goal::getProp", want)
        names = [("call", "VAL::symbol::" + m, ("fld", prop, "head")) for m in ("getName", "getNameRef")]
        args = ("call", "symbolic::Object::CreateList", nrm(("init", ("param", 0))), ("fld", prop, "args"))
        okp = nrm(c[2]) in [nrm(x) for x in names] and nrm(c[3]) == nrm(args)
        if not okp:
            ctx.expect(oid + ".context", None, "the context is not recognised", fn.loc, fn.qn)
            continue
        ctx.expect(oid + ".context", None if s is None else bool(s) == sign, "%s: a %s context is taken for a %s one" % (
            (fn.qn,) + (("positive", "negative") if sign else ("negative", "positive"))), fn.loc, fn.qn)
        tuples(ctx, K, fn, p, gen, prec, oid + ".tuples")


def tuples(ctx, K, fn, p, gen, prec, oid):
    """No tuple of the right types is left out unless the context cannot hold for it."""
    v = p.S.store.get(K.tuples[0], ("none",))
    s = sequence(p, v, lambda x: nrm(x) == nrm(gen))
    if s is not None and not s:
        ctx.expect(oid, False, "%s: no arguments" % fn.qn, fn.loc, fn.qn)
        return
    if s is None or len(s) != 1:
        ctx.undecide(oid, "the arguments are not recognised")
        return
    if not isinstance(s[0], Each):
        ctx.expect(oid, s[0][0] == "all" or None, "the arguments", fn.loc, fn.qn)
        return
    e = s[0]
    o = [x for x in candidates(e.lp) if nrm(x) == nrm(gen)]
    if not o or e.done is None:
        ctx.undecide(oid, "the arguments are not recognised")
        return
    ctx.expect(oid, covers(e.lp, o[0]) if e.done else False, "%s: not all arguments are kept" % fn.qn, e.lp.loc, fn.qn)
    for ip, items in e.rows:
        has = [v == strip(a)[1] for a, v in ip.facts if strip(a)[0][0] == "has" and strip(a)[0][1][0] == "call" and strip(a)[0][1][1].endswith("DisjunctiveFormula::Create")
               and any(nrm(x) == nrm(prec) for x in strip(a)[0][1][2:]) and any(x in elems(e.lp, o[0]) for x in strip(a)[0][1][2:])]
        rest = [a for a, v in ip.facts if strip(a)[0][0] not in ("more", "has") and not bound(a, e.lp)]
        if ip.flow == "throw":
            continue
        if ip.flow not in (None, "continue"):
            ctx.expect(oid, False if has and not rest else None, "%s: not all arguments are kept" % fn.qn, e.lp.loc, fn.qn)
            continue
        if items is None or any(x not in elems(e.lp, o[0]) for x in items):
            ctx.undecide(oid, "the arguments are not recognised")
        elif not items and has != [False]:
            ctx.expect(oid, False if not rest else None, "%s: arguments for which the context can hold are left out" % fn.qn, e.lp.loc, fn.qn)
        else:
            ctx.ok(oid)


# ---- derived predicates --------------------------------------------------------------

def prop_of(K, t, el):
    """Whether a term is the derived proposition for the arguments visited."""
    x = t
    if x[0] == "new" and x[1] in ("symbolic::Proposition", "symbolic::PropositionRef"):
        x = ("args",) + x[2:]
    if x[0] != "args" or len(x) < 3:
        return None
    a = [nrm(y) for y in x[1:]]
    a = [y[1] if y[0] == "addr" else y for y in a]
    return a[0] == K.name and a[1] in el


def state_op(K, t, el):
    """(kind, base state, is the right proposition) of a state change."""
    if t[0] in ("mut", "ret") and t[1] in ("symbolic::State::emplace", "symbolic::State::insert", "symbolic::State::erase"):
        k = "del" if t[1].endswith("erase") else "add"
        x = ("args",) + t[3:] if t[1].endswith("emplace") and len(t) > 4 else t[3]
        return k, t[2], prop_of(K, x, el)
    return None


def derived(ctx, prog, K):
    fns = prog.find(DP + "::Apply")
    for fn in fns:
        kinds = [pk(fn.tu.type(x["t"])) for x in fn.f["p"]]
        if kinds == ["state*"]:
            derive_one(ctx, prog, K, fn)
        elif kinds == ["derived", "state*"]:
            derive_all(ctx, prog, K, fn)
        elif kinds == ["state", "derived"]:
            derive_copy(ctx, prog, K, fn)
    if len(fns) < 3:
        ctx.undecide("derived", "an operation was not found")
    for fn in prog.find(DP + "::DerivedPredicate"):
        if any("derivation_rule" in fn.tu.type(x["t"]).s for x in fn.f["p"]):
            derive_ctor(ctx, prog, K, fn)


def derive_one(ctx, prog, K, fn):
    oid = "derived.one"
    paths = [p for p in ctx.run(prog, fn, PRIM) if p.kind != "throw"]
    slv = ("deref", ("init", ("param", 0)))
    is_coll = lambda t: t is not None and nrm(t) == K.gen
    envs = [dict(valid=v, inn=i) for v in (True, False) for i in (True, False)]
    st = {}

    def leaf(env, t):
        lp = fx.inner
        if lp is None:
            return None
        el = st.setdefault(lp.id, [nrm(x) for x in elems(lp, fx.coll)])
        sphi = ("phi", lp.id, slv)
        if valid_of(K, t, el) == sphi:
            return env["valid"]
        if t[0] in ("call", "member") and len(t) >= 3:
            if t[0] == "call" and t[1] == "symbolic::State::contains" and t[2] == sphi and prop_of(K, t[3], el):
                return env["inn"]
        if t[0] == "ret":
            o = state_op(K, t, el)
            if o is not None and o[1] == sphi and o[2]:
                return (o[0] == "add") != env["inn"]
        return None

    def result(p, lf, ever):
        x = value_of(p.value, lf)
        return None if x is None else bool(x) == bool(ever)
    fx = Cur(paths[0], is_coll, envs, leaf, lambda e: e["valid"] != e["inn"], result=result, what="argument list")
    try:
        if not any(e.k == "loop" for p in paths for e in p.ev):
            raise Undecided("the loop is not recognised")
        fx.shape(paths)
        lp = fx.inner
        el = [nrm(x) for x in elems(lp, fx.coll)]
        sphi = ("phi", lp.id, slv)
        fx.coll = fx.coll
        for ip in lp.paths:
            for a, _ in ip.facts:
                for x in walk(a):
                    s = valid_of(K, x, el)
                    if s is not None and s != sphi:
                        raise Wrong("the rule is not tested in the state reached so far", lp.loc) if not any(
                            y[0] == "mut" for y in walk(s)) else Undecided("the state tested is not recognised")
        for env in envs:
            lf = fx.phis(lp, {}, env=env)
            for ip in lp.paths:
                h, unk = holds_in(ip.facts, lf, lambda a: strip(a)[0][0] == "more" or bound(a, lp))
                if h is False:
                    continue
                known = [x for a, _ in ip.facts for x in walk(a) if value_of(x, lf) is not None]
                w = ip.S.store.get(slv, sphi)
                inn = env["inn"]
                ops = []
                while w != sphi:
                    o = state_op(K, w, el)
                    if o is None or o[2] is None:
                        raise Undecided("the change of the state is not recognised")
                    if not o[2]:
                        raise Wrong("another proposition is changed", lp.loc)
                    ops.append(o[0])
                    w = o[1]
                if ops:
                    inn = ops[0] == "add"
                if inn != env["valid"] and ip.flow in (None, "continue"):
                    if h is None:
                        raise Undecided("a condition that is not recognised")
                    raise Wrong("the proposition is %s the state although its rule %s" % ("in" if inn else "not in", "holds" if env["valid"] else "does not hold"), lp.loc)
        fx.check(paths)
        if slv not in fx.outer.mod or fx.outer.init.get(slv) != ("init", slv) or lp.init.get(slv) != ("phi", fx.outer.id, slv):
            raise Undecided("the state is not recognised")
    except Wrong as w:
        ctx.expect(oid, False, "%s: %s" % (fn.qn, w.msg), w.loc or fn.loc, fn.qn)
    except Undecided as u:
        ctx.undecide(oid, str(u))
    else:
        ctx.ok(oid)


def derive_all(ctx, prog, K, fn):
    oid = "derived.all"
    q = DP + "::Apply"
    paths = [p for p in ctx.run(prog, fn, PRIM + [q]) if p.kind != "throw"]
    slv = ("deref", ("init", ("param", 1)))
    is_coll = lambda t: t is not None and nrm(t) == ("param", 0)
    envs = [dict(r=0), dict(r=1)]

    def leaf(env, t):
        if t[0] in ("call", "ret") and t[1] == q and fx.inner is not None:
            el = [nrm(x) for x in elems(fx.inner, fx.coll)]
            if nrm(t[2]) in el:
                return env["r"]
        return None

    def result(p, lf, ever):
        x = value_of(p.value, lf)
        return None if x is None else bool(x) == bool(ever)
    fx = Cur(paths[0], is_coll, envs, leaf, lambda e: e["r"], result=result, what="derived predicate")
    try:
        if not any(e.k == "loop" for p in paths for e in p.ev):
            raise Undecided("the loop is not recognised")
        fx.check(paths)
        lp = fx.inner
        sphi = ("phi", lp.id, slv)
        for ip in lp.paths:
            w = ip.S.store.get(slv, sphi)
            if w == sphi and ip.flow in (None, "continue"):
                if holds_in(ip.facts, lambda t: False if t[0] == "phi" and t[1] == lp.id else None, lambda a: strip(a)[0][0] == "more" or bound(a, lp))[0] is False:
                    continue        # only in a round that is not the last
                raise Wrong("a derived predicate is not computed", lp.loc)
            if not (w[0] == "mut" and w[1].startswith(q + "#") and w[2] == sphi):
                raise Undecided("the change of the state is not recognised")
    except Wrong as w:
        ctx.expect(oid, False, "%s: %s" % (fn.qn, w.msg), w.loc or fn.loc, fn.qn)
    except Undecided as u:
        ctx.undecide(oid, str(u))
    else:
        ctx.ok(oid)


def derive_copy(ctx, prog, K, fn):
    oid = "derived.copy"
    q = DP + "::Apply"
    for p in ctx.run(prog, fn, PRIM + [q]):
        if p.kind != "return":
            continue
        v = p.value
        s = ("init", ("param", 0))
        ok = v[0] == "mut" and v[1].startswith(q + "#") and copy_of(v[2]) == s and any(nrm(x) == ("param", 1) for x in v[3:])
        ctx.expect(oid, True if ok else False if copy_of(v) == s and not p.facts else None,
                   "%s: the derived predicates are not computed" % fn.qn, last_loc(p, fn), fn.qn)


def derive_ctor(ctx, prog, K, fn):
    oid = "derived.rule"
    sym = ("param", [i for i, x in enumerate(fn.f["p"]) if "derivation_rule" in fn.tu.type(x["t"]).s][0])
    pd = ("param", [i for i, x in enumerate(fn.f["p"]) if "Pddl" in fn.tu.type(x["t"]).s][0])
    head = ("call", "VAL::derivation_rule::get_head", sym)
    params = ("call", "symbolic::Object::CreateList", pd, ("fld", head, "args"))
    for p in ctx.run(prog, fn, PRIM):
        if p.kind == "throw":
            continue
        get = lambda f: nrm(p.S.store.get(f, ("none",)))
        exp = {"params": (K.params, [params]),
               "name": (K.name, [("call", "VAL::symbol::getName", ("fld", head, "head")), ("call", "VAL::symbol::getNameRef", ("fld", head, "head"))]),
               "rule": (K.pre, [("new", "symbolic::Formula", pd, ("call", "VAL::derivation_rule::get_body", sym), params)])}
        for n, (f, ws) in exp.items():
            g = get(f)
            ctx.expect(oid + "." + n, True if g in ws else None, "%s: %s" % (fn.qn, n), fn.loc, fn.qn)
        g = get(K.gen)
        w = ("new", "symbolic::ParameterGenerator", pd, params)
        ctx.expect(oid + ".tuples", True if w in list(walk(g)) else None, "tuples", fn.loc, fn.qn)
