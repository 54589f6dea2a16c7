"""C05: partial states are three-valued, consistent, and report their changes."""
from common import *
from rules import small
from rules.sets import HashSetModel

LEVEL = "other"
EXPLAIN = ("Path summaries of every partial-state operation, over the positive and negative sets as abstract sets, are "
           "evaluated for every combination of membership of the proposition (true, false, unknown): resulting "
           "membership on both sides, untouched other members, returned code, the exception for unknown propositions "
           "and use of moved-from arguments. Nothing is executed.")

PS = "symbolic::PartialState"
THIS = ("this",)
ARG = ("init", ("param", 0))
PRIM = ["symbolic::State::contains", "symbolic::State::insert", "symbolic::State::erase", "symbolic::State::emplace",
        "symbolic::State::State", "symbolic::State::empty", "symbolic::State::size", "symbolic::State::Stringify",
        "symbolic::Proposition::Proposition", "symbolic::PartialState::UnknownEvaluation::UnknownEvaluation"]


def run(ctx):
    prog = ctx.program(["src/state.cc"], ["sets"])
    P = ctx_fields(ctx, prog)
    ctx.group("queries", queries, ctx, prog, P)
    ctx.group("updates", updates, ctx, prog, P)
    ctx.group("consistent", consistent_, ctx, prog, P)
    ctx.group("parts", parts, ctx, prog, P)
    ctx.group("unknown", unknown_owned, ctx, prog)
    ctx.group("small", lambda: small.partial_states(ctx, prog, HashSetModel(ctx, prog), P.pos, P.neg))


def unknown_owned(ctx, prog):
    """What the exception says about the proposition outlives the proposition asked for."""
    for c in prog.cls(PS + "::UnknownEvaluation"):
        for n in c.fields:
            t = c.ftype(n)
            oid = "unknown.%s" % n
            about = t.cls or ""
            if (t.ref or t.ptr) and "Proposition" in (t.s or "") or about == "symbolic::PropositionRef" or about.startswith("std::basic_string_view"):
                fn = [f for f in prog.find(PS + "::UnknownEvaluation::UnknownEvaluation")][:1]
                ctx.violation(oid, "%s: the exception refers to the proposition asked for instead of keeping it" % c.qn,
                              fn[0].loc if fn else "", c.qn)
            else:
                ctx.ok(oid)


class Parts:
    pass


def ctx_fields(ctx, prog):
    P = Parts()
    P.pos = getter_field(prog, PS + "::pos")
    P.neg = getter_field(prog, PS + "::neg")
    if P.pos is None or P.neg is None or P.pos == P.neg:
        # Reported by the accessor rule; fall back to the declared order.
        c = prog.cls(PS)[0]
        fs = [n for n in c.fields if c.ftype(n).cls == "symbolic::State"]
        if len(fs) != 2:
            raise AnalysisError("PartialState: positive and negative states not recognised")
        P.pos, P.neg = ("fld", THIS, fs[0]), ("fld", THIS, fs[1])
        P.swapped = True
    else:
        P.swapped = False
    return P


def is_arg(t):
    """The proposition itself, or a copy made from it."""
    if t == ARG or t == ("param", 0):
        return True
    if t[0] == "new" and "Proposition" in str(t[1]):
        return any(is_arg(x) for x in t[2:])
    if t[0] == "with" or t[0] == "init":
        return any(x == ("param", 0) for x in walk(t))
    return False


def member(t, env, P, side=None):
    """Membership of the argument in an abstract set term: (which initial set, value), or None."""
    if t[0] == "init" and t[1] == P.pos:
        return "pos", env["pos"]
    if t[0] == "init" and t[1] == P.neg:
        return "neg", env["neg"]
    if t[0] == "mut" and len(t) >= 4:
        b = member(t[2], env, P)
        n = t[1].split("::")[-1].split("#")[0]
        if b is None or not is_arg(t[3]):
            return None
        if n in ("insert", "emplace"):
            return b[0], True
        if n == "erase":
            return b[0], False
    return None


def leaf_for(P):
    def sized(t):
        if t[0] == "size" and len(t) == 2 or t[0] == "call" and len(t) == 3 and t[1].endswith("State::size"):
            return {("init", P.pos): "pos", ("init", P.neg): "neg"}.get(t[-1])
        return None

    def leaf(env, t):
        if t[0] in ("eq0", "pos"):
            side = sized(t[1])
            if side:
                return env["no " + side] == (t[0] == "eq0")
        if t[0] == "call" and len(t) == 3 and t[1].endswith("State::empty") and t[2] in (("init", P.pos), ("init", P.neg)):
            return env["no " + ("pos" if t[2] == ("init", P.pos) else "neg")]
        if t[0] in ("call", "ret") and len(t) >= 4 and is_arg(t[3]):
            n = t[1].split("::")[-1]
            m = member(t[2], env, P)
            if m is None:
                return None
            if n in ("contains", "erase"):
                return m[1]
            if n in ("insert", "emplace"):
                return not m[1]
        return None
    return leaf


CASES = [{"pos": a, "neg": b, "no pos": c, "no neg": d} for a, b in ((True, False), (False, True), (False, False))
         for c in (True, False) for d in (True, False) if not (a and c) and not (b and d)]


def name(env):
    return "the proposition is %s%s" % ("true" if env["pos"] else "false" if env["neg"] else "unknown",
                                        "".join(" and nothing is " + w for k, w in (("no pos", "true"), ("no neg", "false"))
                                                if env[k]))


def queries(ctx, prog, P):
    leaf = leaf_for(P)
    for fname, want in (("contains", lambda e: e["pos"]), ("does_not_contain", lambda e: e["neg"])):
        for fn in prog.find(PS + "::" + fname):
            def outcome(env, p):
                if touched(p, P.pos) or touched(p, P.neg):
                    return None, "it changes the state"
                if not env["pos"] and not env["neg"]:
                    if p.kind != "throw":
                        return False, "it answers instead of raising the unknown-evaluation error"
                    if is_unknown(p):
                        return True, ""
                    return (None if p.value is None or isinstance(p.value, L) else False), "it raises another exception"
                if p.kind == "throw":
                    return False, "it raises an exception"
                v = value_of(p.value, lambda t: leaf(env, t))
                if v is None:
                    return None, "its result is not recognised"
                return bool(v) == want(env), "it returns %s" % str(bool(v)).lower()
            by_cases(ctx, fname, fn, ctx.run(prog, fn, PRIM), CASES, leaf, outcome, name)


def is_unknown(p):
    v = p.value
    return v is not None and not isinstance(v, L) and any("UnknownEvaluation" in str(x) for x in v[:2])


def updates(ctx, prog, P):
    leaf = leaf_for(P)
    for fname, into in (("insert", "pos"), ("erase", "neg"), ("emplace", "pos")):
        for i, fn in enumerate(prog.find(PS + "::" + fname, required=fname != "emplace")):
            if fname == "emplace":
                # One proposition made from the arguments, passed on to insert.
                for p in ctx.run(prog, fn, PRIM + [PS + "::insert"]):
                    cs = [e for e in p.ev if e.k == "call" and e.qn in (PS + "::insert", PS + "::erase")]
                    good = len(cs) == 1 and cs[0].qn.endswith("::insert") and p.value == cs[0].ret
                    bad = len(cs) == 1 and cs[0].qn.endswith("::erase")
                    ctx.expect("emplace.%d" % i, True if good else False if bad else None,
                               "%s: does not insert the proposition it makes" % fn.qn, fn.loc, fn.qn)
                continue
            other = "neg" if into == "pos" else "pos"

            def outcome(env, p):
                if p.kind == "throw":
                    return False, "it raises an exception"
                for side in ("pos", "neg"):
                    f = final(p, getattr(P, side))
                    m = member(f, env, P)
                    if m is None or m[0] != side:
                        return None, "the %s set changes in an unrecognised way" % side
                    if m[1] != (side == into):
                        return False, "afterwards it is %s the %s set" % ("in" if m[1] else "not in",
                                                                         "positive" if side == "pos" else "negative")
                v = value_of(p.value, lambda t: leaf(env, t))
                if v is None:
                    return None, "its result is not recognised"
                want = 2 if env[other] else 0 if env[into] else 1
                return int(v) == want, "it returns %d instead of %d" % (int(v), want)
            ps = ctx.run(prog, fn, PRIM)
            oid = "%s(%s)" % (fname, ",".join(t.s for t in fn.decl.ptypes))
            late = [l for l in (uses_after_move(p, a) for p in ps for a in (ARG, ("param", 0))) if l]
            if late:
                ctx.violation(oid, "%s: uses the proposition after moving it away" % fn.qn, late[0], fn.qn)
                continue
            by_cases(ctx, oid, fn, ps, CASES, leaf, outcome, name)


def consistent_(ctx, prog, P):
    for fn in prog.find(PS + "::IsConsistent"):
        sets = {("init", P.pos): "pos", ("init", P.neg): "neg"}

        def elem(t):
            if t[0] == "init" and t[1][0] == "idx" and ("init", t[1][1]) in sets:
                return sets[("init", t[1][1])]
            return None

        def shared(a):
            a, pol = strip(a)
            if a[0] == "call" and a[1] == "symbolic::State::contains" and len(a) == 4 and a[2] in sets:
                e = elem(a[3])
                if e is None:
                    return None
                return pol if sets[a[2]] != e else "self"
            return None
        verdict, why, loc = True, "", fn.loc
        for p in ctx.run(prog, fn, PRIM):
            lps = [e for e in p.ev if e.k == "loop"]
            if not lps:
                # e.g. an early answer when one side is empty
                empties = [a for a, v in p.facts if strip(a)[0][0] in ("call", "eq0", "pos") and
                           any(x in sets for x in walk(a))]
                if isinstance(p.value, tuple) and p.value == TRUE and not p.facts:
                    verdict, why = False, "always consistent"
                elif isinstance(p.value, tuple) and p.value == FALSE and not p.facts:
                    verdict, why = False, "never consistent"
                else:
                    verdict, why = (None if verdict else verdict), "no search" if not empties else "early answer"
                continue
            lp = lps[-1].loop
            if len(lps) != 1 or len(lp.over) != 1 or list(lp.over)[0] not in sets or p.kind != "return" or \
                    isinstance(p.value, L):
                verdict, why = (None if verdict else verdict), "search not recognised"
                continue
            found = None
            unk = False
            for a, v in p.facts:
                if a[0] == "more":
                    continue
                s = shared(a)
                if s == "self":
                    verdict, why, loc = False, "a side is compared with itself", lp.loc
                elif s is None:
                    unk = True
                else:
                    found = s == v
            early = lps[-1].extra != "exit"
            if unk:
                verdict, why = (None if verdict else verdict), "unrecognised condition"
                continue
            v = value_of(p.value, lambda t: None)
            if v is None:
                verdict, why = (None if verdict else verdict), "result not recognised"
            elif early and found is True and v:
                verdict, why, loc = False, "a proposition on both sides is accepted", lp.loc
            elif early and found is False:
                verdict, why, loc = False, "it answers before every proposition is checked", lp.loc
            elif early and found is None:
                verdict, why, loc = False, "it answers before any proposition is checked", lp.loc
            elif not early and not v and found is None:
                verdict, why, loc = False, "disjoint sides are rejected", lp.loc
            elif not early:
                for ip in lp.paths:
                    if ip.flow is None:
                        fs = [(shared(a), x) for a, x in ip.facts if a[0] != "more"]
                        if any(s is None for s, _ in fs):
                            verdict, why = (None if verdict else verdict), "unrecognised condition"
                        elif not any(s != x for s, x in fs):
                            verdict, why, loc = False, "a proposition on both sides is accepted", lp.loc
        ctx.expect("IsConsistent", verdict, "%s: %s" % (fn.qn, why), loc, fn.qn)


def parts(ctx, prog, P):
    """Accessors, counts and constructors keep the two sides apart."""
    for side in ("pos", "neg"):
        for fn in prog.find(PS + "::" + side):
            for p in ctx.run(prog, fn, PRIM):
                v = p.value
                lv = v.p if isinstance(v, L) else v[1] if v and v[0] == "init" else None
                want = getattr(P, side)
                ok = None if lv is None else (lv == want and not P.swapped)
                ctx.expect("%s()%s" % (side, " const" if fn.decl.const else ""), ok,
                           "%s: gives the wrong side" % fn.qn, fn.loc, fn.qn)
    E = {("init", P.pos): "pos", ("init", P.neg): "neg"}
    sz = lambda s: ("size", ("init", getattr(P, s)))

    def leaf(env, t):
        if t[0] == "call" and len(t) == 3 and t[2] in E:
            if t[1].endswith("::empty"):
                return env[E[t[2]]] == 0
            if t[1].endswith("::size"):
                return env[E[t[2]]]
        if t[0] == "size" and t[1] in E:
            return env[E[t[1]]]
        return None
    envs = [{"pos": a, "neg": b} for a in (0, 1, 2, 3) for b in (0, 1, 2, 3)]
    nm = lambda e: "%d propositions are true and %d false" % (e["pos"], e["neg"])
    for f, want in (("empty", lambda e: e["pos"] == 0 and e["neg"] == 0), ("size", lambda e: e["pos"] + e["neg"])):
        for fn in prog.find(PS + "::" + f):
            def outcome(env, p):
                v = value_of(p.value, lambda t: leaf(env, t)) if not isinstance(p.value, L) else None
                if v is None:
                    return None, "its result is not recognised"
                return v == want(env), "it returns %s" % v
            by_cases(ctx, f, fn, ctx.run(prog, fn, PRIM), envs, leaf, outcome, nm)
    for fn in prog.find(PS + "::PartialState", required=False):
        n = len(fn.f["p"])
        if n not in (2, 3):
            continue
        for p in ctx.run(prog, fn, PRIM):
            got = {}
            for side in ("pos", "neg"):
                t = final(p, getattr(P, side))
                got[side] = {x[1] for x in walk(t) if x[0] == "param"} - ({0} if n == 3 else set())
            k = 0 if n == 2 else 1
            ok = got["pos"] == {k} and got["neg"] == {k + 1}
            known_ = all(len(g) == 1 for g in got.values())
            ctx.expect("constructor(%s)" % ",".join(t.s for t in fn.decl.ptypes), True if ok else False if known_ else None,
                       "%s: the sides are not the ones given" % fn.qn, fn.loc, fn.qn)
