"""C09: the planning interface computes what actions, axioms, derived predicates and goals mean."""
from common import *
from rules.seqs import *
from rules import comps
from rules.comps import comp, want
from rules.c07 import nrm, PRIM as FPRIM

LEVEL = "other"
EXPLAIN = ("Every function of the planning interface is summarised with actions, formulas, axioms, derived predicates and states opaque; the "
           "terms it computes are read as expressions over parsing, validity, application, derivation and goal and must be the "
           "defining ones; loops over action calls by induction, lists as comprehensions, the consistency loop as a fixed point. Nothing "
           "is executed.")

PRIM = [x for x in FPRIM if x != "symbolic::Pddl::*"] + [
    "symbolic::Axiom::*", "symbolic::Action::*", "symbolic::DerivedPredicate::*", "symbolic::StateIndex::*", "symbolic::Predicate::*"]
P = "symbolic::Pddl"
T = ("this",)


def run(ctx):
    prog = ctx.program(["src/pddl.cc"], [])
    K = Kit(prog)
    for name, f in (("NextState", next_state), ("ApplyActions", apply_actions), ("DerivedState", derived), ("IsValidAction", valid_action),
                    ("IsValidTuple", valid_tuple), ("IsGoalSatisfied", goal), ("IsValidPlan", plan), ("IsValidState", valid_state),
                    ("ConsistentState", consistent_state), ("ListValidArguments", list_arguments), ("ListValidActions", list_actions)):
        ctx.group(name, each, ctx, prog, K, name, f)


def each(ctx, prog, K, name, f):
    fns = prog.find("%s::%s" % (P, name))
    if not fns:
        ctx.undecide(name, "function not found")
    for fn in fns:
        f(ctx, prog, K.over(fn), fn, ctx.run(prog, fn, PRIM))


class Kit:
    """Terms of the class and of the function looked at."""

    def __init__(self, prog):
        g = lambda n: self.plain(getter_field(prog, P + "::" + n))
        self.initial, self.derived, self.axioms, self.goal, self.actions = map(g, (
            "initial_state", "derived_predicates", "axioms", "goal", "actions"))

    def plain(self, t):
        if not t:
            raise AnalysisError("Pddl: accessor not found")
        return nrm(t)

    def over(self, fn):
        k = Kit.__new__(Kit)
        k.__dict__.update(self.__dict__)
        k.fn = fn
        k.states, k.calls, k.sets, k.texts, k.acts = [], [], [], [], []
        for i, prm in enumerate(fn.f["p"]):
            t = fn.tu.type(prm["t"])
            s = t.s
            if "PartialState" in s or s.replace("const ", "").startswith(("symbolic::State", "State")):
                k.states.append(("param", i))
            elif "set<" in s:
                k.sets.append(("param", i))
            elif "vector<" in s:
                k.calls.append(("param", i))
            elif "Action" in s:
                k.acts.append(("param", i))
            elif "string" in s:
                k.texts.append(("param", i))
        k.inputs = [("state", x) for x in k.states] or [("parsed", x) for x in k.sets]
        return k

    def parse(self, call):
        c = ("call", "symbolic::Action::Parse", T, call)
        return ("get", c, "first"), ("get", c, "second")

    def step(self, call, s):
        return ("derive", ("apply",) + self.parse(call) + (s,))

    def S(self, p, t, ev, phis=()):
        """A term as an expression for a state, or None."""
        if t in phis:
            return ("phi", t)
        n = nrm(t)
        if n in self.states:
            return ("state", n)
        if n == self.initial:
            return ("initial",)
        if t[0] == "init" and t[1][0] == "deref" and t[1][1][0] == "refto" or t[0] == "init" and t[1][0] in ("param", "fld"):
            return None
        if t[0] == "call" and t[1] == "symbolic::Action::Apply" and len(t) == 5:
            s = [(i, self.S(p, x, ev, phis)) for i, x in enumerate(t[3:])]
            s = [x for x in s if x[1] is not None]
            if len(s) == 1:
                return ("apply", nrm(t[2]), nrm(t[4 - s[0][0]]), s[0][1])
        if t[0] == "mut" and t[1].startswith("symbolic::Action::Apply#"):
            s = self.S(p, t[2], ev, phis)
            args = [nrm(x) for x in t[3:] if x[0] != "addr"]
            me = {nrm(e.objv if e.objv is not None else e.obj) for e in ev if e.k == "call" and e.qn == "symbolic::Action::Apply"}
            if s is not None and len(args) == 1 and len(me) == 1:
                return ("apply", me.pop(), args[0], s)
        if t[0] == "call" and t[1] == "symbolic::DerivedPredicate::Apply" and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                s = self.S(p, a, ev, phis)
                if s is not None and nrm(b) == self.derived:
                    return ("derive", s)
        if t[0] == "mut" and t[1].startswith("symbolic::DerivedPredicate::Apply#"):
            s = self.S(p, t[2], ev, phis)
            rest = [nrm(x) for x in t[3:] if x[0] != "addr"]
            if s is not None and rest == [self.derived]:
                return ("derive", s)
        if t[0] == "new" and t[1] in ("symbolic::State", "symbolic::PartialState") and len(t) == 3:
            return self.S(p, t[2], ev, phis)
        if t[0] in ("phi", "mut", "new"):
            c = comp(p, t, push=state_push, empty=lambda v: v[0] == "new" and v[1] == "symbolic::State" and len(v) == 2)
            if c is not None:
                for x in self.sets:
                    if c == want([("for", 0, x, [("item", ("args", T, ("x", 0)))])]):
                        return ("parsed", x)
                return ("other", tuple(c))
        return None

    def nothing_derived(self, facts):
        for a, v in facts:
            a, pol = strip(a)
            if a[0] in ("eq0", "pos") and nrm(a[1]) == ("size", self.derived):
                return (a[0] == "eq0") == (v == pol)
        return False


def state_push(v):
    if v[0] == "mut" and v[1] in ("symbolic::State::emplace", "symbolic::State::insert"):
        if len(v) == 5:
            return v[2], ("args", v[3], v[4])
        if len(v) == 4:
            x = v[3]
            return v[2], ("args",) + x[2:] if x[0] == "new" and x[1] == "symbolic::Proposition" else x
    if v[0] == "mut" and v[1] in ("symbolic::State::reserve",):
        return v[2], None
    return None


def plain(t):
    """Without derivation (for paths where nothing is derived)."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "derive":
        return plain(t[1])
    return tuple(plain(x) if isinstance(x, tuple) else x for x in t)


STATUS = ("symbolic::Action::Apply", "symbolic::DerivedPredicate::Apply")


def free(a):
    """A condition on whether something changed, which may be so or not."""
    a, _ = strip(a)
    if a[0] in ("pos", "eq0"):
        a = a[1]
    return a[0] in ("call", "ret") and a[1] in STATUS


def unknown_facts(p, known=lambda a: False):
    """Conditions of a path that are not about loops being over, known or free."""
    loops = [e.loop for e in all_events(p.ev) if e.k == "loop"]
    return [a for a, v in p.facts if not (strip(a)[0][0] == "more" or any(bound(a, lp) for lp in loops) or free(a) or known(a))]


def same(ctx, oid, K, p, got, exp, msg):
    """A state computed is the wanted one."""
    if K.nothing_derived(p.facts):
        got, exp = plain(got) if got else got, plain(exp)
    left = unknown_facts(p, lambda a: K.nothing_derived([(a, True)]) or K.nothing_derived([(a, False)]))
    ctx.expect(oid, True if got == exp else None if got is None or left else False,
               "%s: %s" % (K.fn.qn, msg), last_loc(p, K.fn), K.fn.qn)


def returns(ctx, oid, K, paths):
    out = []
    for p in paths:
        if p.kind != "return" or isinstance(p.value, L):
            ctx.expect(oid, None, "%s may fail" % K.fn.qn, last_loc(p, K.fn), K.fn.qn)
        else:
            out.append(p)
    return out


def next_state(ctx, prog, K, fn, paths):
    for p in returns(ctx, "next", K, paths):
        same(ctx, "next", K, p, K.S(p, p.value, p.ev), K.step(K.texts[0], K.inputs[0]),
             "the result is not the action applied to the state, with derived predicates")


def derived(ctx, prog, K, fn, paths):
    for p in returns(ctx, "derived", K, paths):
        same(ctx, "derived", K, p, K.S(p, p.value, p.ev), ("derive", K.inputs[0]), "the result is not the state with its derived predicates")


# ---- boolean functions ------------------------------------------------------------------

def atoms(K, p, ev, phis=()):
    """Recognisers for validity, equality and goal as a key, or None."""
    def key(t):
        t, pol = strip(t)
        if t[0] == "call" and t[1] == "symbolic::Action::IsValid" and len(t) == 5:
            s = [(i, K.S(p, x, ev, phis)) for i, x in enumerate(t[3:])]
            s = [x for x in s if x[1] is not None]
            if len(s) == 1:
                return ("valid", nrm(t[2]), nrm(t[4 - s[0][0]]), s[0][1])
        if t[0] == "call" and t[1] == "symbolic::operator==" and len(t) == 4:
            s = [K.S(p, x, ev, phis) for x in t[2:]]
            if None not in s:
                return ("same",) + tuple(sorted(s, key=repr))
        if t[0] == "eq" and len(t) == 3:
            s = [K.S(p, x, ev, phis) for x in t[1:]]
            if None not in s:
                return ("same",) + tuple(sorted(s, key=repr))
        if t[0] == "call" and t[1] == "symbolic::Formula::operator()" and len(t) >= 4 and nrm(t[2]) == K.goal:
            s = K.S(p, t[3], ev, phis)
            if s is not None and all(x[0] in ("new", "list", "emptyc") and len(x) <= 3 for x in t[4:]):
                return ("goal", s)
        return None
    return key


def boolean(ctx, oid, K, paths, wanted, spec, names):
    """The result is spec(values of the wanted atoms)."""
    paths = returns(ctx, oid, K, paths)
    keys = list(wanted)
    recs = {}
    for p in paths:
        f = atoms(K, p, all_events(p.ev))
        recs[id(p)] = f
        for t in [x for a, _ in p.facts for x in walk(a)] + list(walk(p.value)):
            k = f(t) if isinstance(t, tuple) and t and t[0] in ("call", "eq") else None
            if k is not None and k not in keys:
                keys.append(k)
    if len(keys) > 6:
        ctx.undecide(oid, "too many conditions")
        return
    envs = []
    for n in range(1 << len(keys)):
        envs.append({k: bool(n >> i & 1) for i, k in enumerate(keys)})
    cur = [None]

    def leaf(env, t):
        if t[0] not in ("call", "eq"):
            return None
        k = cur[0](t)
        return env.get(k) if k is not None else None

    def ignore(a):
        return strip(a)[0][0] == "more"

    bad = {}
    for p in paths:
        cur[0] = recs[id(p)]
        for env in envs:
            h, unk = holds_in(p.facts, lambda t: leaf(env, t), ignore)
            if h is False:
                continue
            x = value_of(p.value, lambda t: leaf(env, t))
            w = spec(*[env[k] for k in wanted])
            if h is None or x is None:
                if x is None or bool(x) != w:
                    ctx.expect(oid, None, "%s: an unrecognised condition" % K.fn.qn, last_loc(p, K.fn), K.fn.qn)
                    return
            elif bool(x) != w:
                ctx.expect(oid, False, "%s: when %s, the result is %s" % (K.fn.qn, ", ".join(
                    "%s%s" % ("" if env[k] else "not ", n) for k, n in zip(wanted, names)), str(bool(x)).lower()),
                    last_loc(p, K.fn), K.fn.qn)
                return
    ctx.ok(oid)


def valid_action(ctx, prog, K, fn, paths):
    boolean(ctx, "valid", K, paths, [("valid",) + K.parse(K.texts[0]) + (K.inputs[0],)], lambda v: v, ["the action is valid"])


def valid_tuple(ctx, prog, K, fn, paths):
    s, n = K.inputs
    a = K.parse(K.texts[0])
    boolean(ctx, "tuple", K, paths, [("valid",) + a + (s,), ("same",) + tuple(sorted((K.step(K.texts[0], s), n), key=repr))],
            lambda v, e: v and e, ["the action is valid", "its result is the next state"])


def goal(ctx, prog, K, fn, paths):
    boolean(ctx, "goal", K, paths, [("goal", K.inputs[0])], lambda g: g, ["the goal holds"])


# ---- sequences of actions ---------------------------------------------------------------

def induct(ctx, oid, K, p, start):
    """(loop event, phi of the state, calls element) of the loop over the action calls, checked by induction; None when not."""
    fn = K.fn
    lps = [e for e in p.ev if e.k == "loop" and any(nrm(o) == K.calls[0] for o in candidates(e.loop))]
    if len(lps) != 1:
        ctx.undecide(oid, "the loop over the actions is not recognised")
        return None
    lp = lps[0].loop
    o = [o for o in candidates(lp) if nrm(o) == K.calls[0]][0]
    c = covers(lp, o)
    if c is not True:
        ctx.expect(oid, c, "%s: the actions are not taken one after another" % fn.qn, lp.loc, fn.qn)
        return None
    st = []
    for q in lp.mod:
        t = ("phi", lp.id, q)
        s = K.S(p, lp.init[q], p.ev) if q in lp.init else None
        if s is not None and any(ip.S.store.get(q, t) != t for ip in lp.paths):
            st.append((q, s))
    if len(st) != 1:
        ctx.undecide(oid, "the state is not recognised")
        return None
    q, s = st[0]
    if s not in start:
        ctx.expect(oid, False if s[0] in ("state", "initial", "derive", "apply") else None, "%s: starts from another state" % fn.qn, lp.loc, fn.qn)
        return None
    return lps[0], o, ("phi", lp.id, q)


def elem_call(K, lp, o):
    for x in elems(lp, o):
        yield nrm(x)


def apply_actions(ctx, prog, K, fn, paths):
    oid = "apply"
    for p in returns(ctx, oid, K, paths):
        if not any(e.k == "loop" for e in p.ev):
            emp = empty_calls(K, p)
            got = K.S(p, p.value, p.ev)
            ctx.expect(oid, True if emp and got == K.inputs[0] else None if got is None or emp is None else False,
                       "%s: not the actions applied to the state" % fn.qn, last_loc(p, fn), fn.qn)
            continue
        r = induct(ctx, oid, K, p, [K.inputs[0]])
        if r is None:
            continue
        e, o, phi = r
        lp = e.loop
        call = nrm(elems(lp, o)[1])
        for ip in lp.paths:
            if ip.flow == "throw":
                ctx.undecide(oid, "an action may fail")
                continue
            if ip.flow not in (None, "continue"):
                is_valid = atoms(K, p, ip.events, (phi,))
                ctx.expect(oid, None if unknown_facts2(ip, lp, lambda a: is_valid(a) is not None) else False,
                           "%s: not all actions are applied" % fn.qn, lp.loc, fn.qn)
                continue
            inductive_step(ctx, oid, K, p, lp, ip, phi, call)
        got = K.S(p, p.value, p.ev, (phi,))
        ctx.expect(oid, True if got == ("phi", phi) else None if got is None else False,
                   "%s: the result is not the state after the last action" % fn.qn, last_loc(p, fn), fn.qn)


def empty_calls(K, p):
    for a, v in p.facts:
        a, pol = strip(a)
        if a[0] in ("eq0", "pos") and nrm(a[1]) == ("size", K.calls[0]):
            return (a[0] == "eq0") == (v == pol)
    return None if unknown_facts(p) else False


def unknown_facts2(ip, lp, known=lambda a: False):
    return [a for a, v in ip.facts if not (strip(a)[0][0] == "more" or bound(a, lp) or free(a) or known(a))]


def inductive_step(ctx, oid, K, p, lp, ip, phi, call):
    fn = K.fn
    got = K.S(p, ip.S.store.get(phi[2], phi), ip.events, (phi,))
    exp = K.step(call, ("phi", phi))
    is_valid = atoms(K, p, ip.events, (phi,))
    none = lambda a: K.nothing_derived([(a, True)]) or K.nothing_derived([(a, False)])
    if K.nothing_derived(ip.facts):
        got, exp = plain(got) if got else got, plain(exp)
    left = unknown_facts2(ip, lp, lambda a: none(a) or is_valid(a) is not None)
    ctx.expect(oid, True if got == exp else None if got is None or left else False,
               "%s: an action is not applied to the state reached so far, with derived predicates" % fn.qn, lp.loc, fn.qn)


def plan(ctx, prog, K, fn, paths):
    oid = "plan"
    start = [("initial",), ("derive", ("initial",))]
    for p in returns(ctx, oid, K, paths):
        lps = [e for e in p.ev if e.k == "loop"]
        if not lps:
            emp = empty_calls(K, p)
            key = atoms(K, p, p.ev)
            t, pol = strip(p.value)
            k = key(t) if t[0] == "call" else None
            if emp and k is not None:
                ctx.expect(oid, k in [("goal", x) for x in start] and pol, "%s: without actions, the result is not whether the goal holds" % fn.qn,
                           last_loc(p, fn), fn.qn)
            else:
                ctx.expect(oid, None if emp is not False else False, "%s: the result does not depend on the actions" % fn.qn, last_loc(p, fn), fn.qn)
            continue
        r = induct(ctx, oid, K, p, start)
        if r is None:
            continue
        e, o, phi = r
        lp = e.loop
        s0 = K.S(p, lp.init[phi[2]], p.ev)
        ctx.expect("plan.start", s0 == start[1] or K.nothing_derived(p.facts),
                   "%s: starts without the derived predicates of the initial state" % fn.qn, lp.loc, fn.qn)
        call = nrm(elems(lp, o)[1])
        key = atoms(K, p, all_events(p.ev), (phi,))
        okay = ("valid",) + K.parse(call) + (("phi", phi),)
        # flags that keep their value while the loop goes on
        keep = {}
        for q in lp.mod:
            v = value_of(lp.init[q], lambda t: None) if q in lp.init else None
            if v is not None and all(ip.S.store.get(q, ("phi", lp.id, q)) in (("phi", lp.id, q), lp.init[q])
                                     for ip in lp.paths if ip.flow in (None, "continue")):
                keep[("phi", lp.id, q)] = v

        def leaf(valid, g):
            def f(t):
                if t in keep:
                    return keep[t]
                if t[0] in ("call", "eq"):
                    k = key(t)
                    if k == okay:
                        return valid
                    if k == ("goal", ("phi", phi)):
                        return g
                return None
            return f
        skip = lambda a: strip(a)[0][0] == "more" or bound(a, lp) or free(a)
        bad = False
        for ip in lp.paths:
            for v in (True, False):
                h, unk = holds_in(ip.facts, leaf(v, None), skip)
                if h is False:
                    continue
                go = ip.flow in (None, "continue")
                if h is None:
                    # another condition decides
                    other = [k for k in map(key, unk) if k is not None]
                    ctx.expect(oid, False if len(other) == len(unk) and go != v else None,
                               "%s: the validity of an action is not decided in the state it is applied to" % fn.qn, lp.loc, fn.qn)
                    bad = True
                    continue
                if ip.flow == "throw":
                    ctx.expect(oid, None, "an action may fail", lp.loc, fn.qn)
                    continue
                if go != v:
                    ctx.expect(oid, False, "%s: %s" % (fn.qn, "the plan goes on after an invalid action" if go else "the plan is left at a valid action"),
                               lp.loc, fn.qn)
                    bad = True
                elif go:
                    inductive_step(ctx, oid, K, p, lp, ip, phi, call)
        if bad:
            continue
        for g in (True, False) if e.extra == "exit" else (None,):
            for v in (True, False) if e.extra != "exit" else (None,):
                h, unk = holds_in(p.facts, leaf(v, g), skip)
                if h is False:
                    continue
                x = value_of(p.value, leaf(v, g))
                w = g if e.extra == "exit" else False
                if x is None:
                    t = strip(p.value)[0]
                    k = key(t) if t[0] == "call" else None
                    ctx.expect(oid, False if k is not None else None, "%s: the result is not whether the goal holds after the last action" % fn.qn,
                               last_loc(p, fn), fn.qn)
                else:
                    ctx.expect(oid, True if bool(x) == w else False if h is True else None,
                               "%s: the result is %s when %s" % (fn.qn, str(bool(x)).lower(), "an action is invalid" if g is None else
                                                                 "the goal %s after the last action" % ("holds" if g else "does not hold")),
                               last_loc(p, fn), fn.qn)


# ---- axioms -----------------------------------------------------------------------------

def valid_state(ctx, prog, K, fn, paths):
    oid = "consistent"
    st = K.states[0]
    if all(p.kind == "return" and not isinstance(p.value, L) and not p.facts for p in paths):
        for p in paths:
            t, pol = strip(p.value)
            if t[0] == "call" and t[1] == "symbolic::Axiom::IsConsistent":
                a = sorted((nrm(x) for x in t[2:]), key=repr)
                ok = a == sorted((K.axioms, st), key=repr) and pol
                ctx.expect(oid, True if ok else False, "%s: the result is not whether the axioms are consistent with the state" % fn.qn, fn.loc, fn.qn)
            else:
                ctx.expect(oid, False if t[0] == "bool" else None, "%s: the result is not whether the axioms are consistent with the state" % fn.qn,
                           fn.loc, fn.qn)
        return

    def elem(t, lp):
        t, pol = strip(t)
        if t[0] == "call" and t[1] == "symbolic::Axiom::IsConsistent" and len(t) == 4 and nrm(t[3]) == st:
            if any(nrm(t[2]) == nrm(x) for o in candidates(lp) for x in elems(lp, o)):
                return pol
        return None

    def coll(lp):
        for o in candidates(lp):
            if nrm(o) == K.axioms:
                return True if lp.dir == "desc" and o in lp.over else covers(lp, o)
        return None
    f = Fold("all", elem, coll, size=lambda t: nrm(t) == K.axioms)
    r = f.verdict(paths)
    if "Partial" in fn.tu.type(fn.f["p"][0]["t"]).s:
        r = r if r is None else None    # axioms may imply each other
    ctx.expect(oid, r, "%s: %s" % (fn.qn, f.why), f.loc or fn.loc, fn.qn)


def consistent_state(ctx, prog, K, fn, paths):
    """The result is reached from the state by applying axioms, and no axiom changes it any more."""
    oid = "fixpoint"
    part = "Partial" in fn.tu.type(fn.f["p"][0]["t"]).s
    for p in paths:
        if p.kind == "throw":
            continue
        loops = [e for e in p.ev if e.k == "loop"]
        if not loops:
            left = unknown_facts(p)
            noax = any(strip(a)[0][0] in ("eq0", "pos") and nrm(strip(a)[0][1]) == ("size", K.axioms) for a in left)
            ctx.expect(oid, None if left else False, "%s: the axioms are not applied until nothing changes" % fn.qn, fn.loc, fn.qn)
            continue
        fixpoint(ctx, oid, K, p, part)


def sweep(K, lp):
    for o in candidates(lp):
        if nrm(o) == K.axioms:
            return o
    return None


def fixpoint(ctx, oid, K, p, part):
    fn = K.fn
    outs = [e for e in p.ev if e.k == "loop"]
    ins = {}
    for e in outs:
        for ip in e.loop.paths:
            for e2 in ip.events:
                if e2.k == "loop" and sweep(K, e2.loop) is not None:
                    ins.setdefault(e2.loop.id, (e, e2.loop))
    if not ins:
        once = [e for e in outs if sweep(K, e.loop) is not None]
        if not once and not unknown_facts(p) and not any(e.k == "call" and e.qn == "symbolic::Axiom::Apply" for e in all_events(p.ev)):
            ctx.expect(oid, False, "%s: no axiom is applied" % fn.qn, fn.loc, fn.qn)
            return
        ctx.expect(oid, False if len(once) == len(outs) == 1 and p.value[0] == "phi" and p.value[1] == once[0].loop.id else None,
                   "%s: the axioms are not applied until nothing changes" % fn.qn, outs[0].loop.loc, fn.qn)
        return
    outs = [e for e in outs if e.loop.id not in ins]
    if len(ins) != 1 or len(outs) != 1:
        ctx.undecide(oid, "the loops are not recognised")
        return
    (out_ev, inner), = ins.values()
    outer = out_ev.loop
    o = sweep(K, inner)
    c = True if inner.dir == "desc" and o in inner.over else covers(inner, o)
    if c is not True:
        ctx.expect(oid, c, "%s: not every axiom is applied" % fn.qn, inner.loc, fn.qn)
        return
    ax = [nrm(x) for x in elems(inner, o)]
    # the state and the flag of the inner loop
    sv, fv = [], []
    for q in inner.mod:
        t = ("phi", inner.id, q)
        ws = [ip.S.store.get(q, t) for ip in inner.paths]
        if any(w[0] == "mut" and w[1].startswith("symbolic::Axiom::Apply#") for w in ws) or \
                any(w[0] == "call" and w[1] == "symbolic::Axiom::Apply" and w[2:] and len(w) == 4 and t in walk(w[3]) for w in ws):
            sv.append(q)
        elif any(w != t for w in ws):
            fv.append(q)
    if len(sv) != 1:
        ctx.undecide(oid, "the state is not recognised")
        return
    sq = sv[0]
    sphi = ("phi", inner.id, sq)

    def ret(t):
        """The change reported for the axiom looked at, in the current state."""
        if t[0] == "call" and t[1] == "symbolic::Axiom::Apply" and nrm(t[2]) in ax:
            return True
        return False

    def applied(w):
        if w[0] == "mut" and w[1].startswith("symbolic::Axiom::Apply#") and w[2] == sphi:
            return True
        return w[0] == "call" and w[1] == "symbolic::Axiom::Apply" and nrm(w[2]) in ax and w[3] == sphi
    flag = None
    use = [q for q in fv if any(ret(x) for ip in inner.paths for x in list(walk(ip.S.store.get(q, ("bool", True)))) + [y for a, _ in ip.facts for y in walk(a)])]
    use = [q for q in use if value_of(inner.init.get(q, ("none",)), lambda t: None) is not None or inner.init.get(q, ("x",))[0] == "phi"]
    if not use and not fv and out_ev.extra == "exit" and all(x[0] != "call" for a, _ in p.facts for x in walk(a)):
        ctx.expect(oid, False, "%s: whether an axiom changed the state is not looked at" % fn.qn, outer.loc, fn.qn)
        return
    if len(use) != 1:
        ctx.undecide(oid, "the flag for a change is not recognised")
        return
    fq = use[0]
    fphi = ("phi", inner.id, fq)
    dom = (0, 1, 2) if part else (0, 1)
    for ip in inner.paths:
        objs = {nrm(e.obj) if e.obj[0] != "init" else nrm(e.obj) for e in ip.events if e.k == "call" and e.qn == "symbolic::Axiom::Apply" and e.obj}
        if objs and not objs <= set(ax):
            ctx.undecide(oid, "another axiom is applied")
            return
        for f in (0, 1):
            for r in dom:
                leaf = lambda t: f if t == fphi else r if ret(t) else None
                h, unk = holds_in(ip.facts, leaf, lambda a: strip(a)[0][0] == "more" or bound(a, inner))
                if h is False:
                    continue
                if ip.flow == "throw":
                    if h is True:
                        ctx.expect(oid, part and r == 2, "%s: fails although no contradiction is signalled" % fn.qn, inner.loc, fn.qn)
                    continue
                if ip.flow not in (None, "continue"):
                    x = value_of(ip.S.store.get(fq, fphi), leaf)
                    ctx.expect(oid, False if ip.flow == "break" and h is True and x is not None and not x and not (part and r == 2) else None,
                               "%s: the remaining axioms are not looked at" % fn.qn, inner.loc, fn.qn)
                    return
                if part and r == 2:
                    ctx.expect(oid, None if unk else False, "%s: a contradiction between axioms is not signalled" % fn.qn, inner.loc, fn.qn)
                    continue
                w = ip.S.store.get(sq, sphi)
                ctx.expect(oid, True if applied(w) else False if w == sphi and h is True else None,
                           "%s: an axiom is not applied to the state" % fn.qn, inner.loc, fn.qn)
                x = value_of(ip.S.store.get(fq, fphi), leaf)
                if x is None:
                    ctx.undecide(oid, "the flag for a change is not recognised")
                    return
                if bool(x) != bool(f or r):
                    ctx.expect(oid, False if h is True else None, "%s: %s" % (
                        fn.qn, "a change is forgotten" if f or r else "a change is recorded although there was none"), inner.loc, fn.qn)
                    return
    # the outer loop
    i0 = value_of(inner.init.get(fq, ("none",)), lambda t: None)
    carried = inner.init.get(fq) == ("phi", outer.id, fq)
    if i0 is None or bool(i0):
        ctx.expect(oid, False if i0 is not None and bool(i0) else None, "%s: the loop goes on although nothing changes" % fn.qn, outer.loc, fn.qn)
        return
    for ip in outer.paths:
        if ip.flow in (None, "continue"):
            w = ip.S.store.get(sq, ("phi", outer.id, sq))
            if w != sphi:
                ctx.undecide(oid, "the state is not recognised")
                return
    if inner.init.get(sq) not in (("phi", outer.id, sq),):
        ctx.expect(oid, None, "the state is not recognised", outer.loc, fn.qn)
        return
    st = K.S(p, outer.init.get(sq, ("none",)), p.ev)
    ctx.expect(oid, True if st == K.inputs[0] else False if st and st[0] in ("initial", "derive") else None,
               "%s: starts from another state" % fn.qn, outer.loc, fn.qn)
    flags = [q for q in outer.mod if any(ip.S.store.get(q) == fphi for ip in outer.paths)] + [fq]
    over = None
    if out_ev.extra == "exit":
        qs = [q for q in flags if any(a == ("phi", outer.id, q) and v is False for a, v in p.facts)]
        for q in qs:
            cont = [ip for ip in outer.paths if ip.flow in (None, "continue")]
            x = value_of(outer.init.get(q, ("none",)), lambda t: None)
            if all(ip.S.store.get(q) == fphi for ip in cont):
                if x is not None and not x:
                    ctx.expect(oid, False, "%s: the axioms are never applied" % fn.qn, outer.loc, fn.qn)
                    return
                over = True if x else None
        val = ("phi", outer.id, sq)
        if over is None and outer.hi is not None and not qs:
            more = [a for a, v in p.facts if "phi" in [x[0] for x in walk(a)]]
            over = False if not more else None
    else:
        done = [a for a, v in p.facts if a == fphi and v is False]
        over = True if done else None
        val = sphi
    ctx.expect(oid, over, "%s: the loop ends although an axiom may still change the state" % fn.qn, outer.loc, fn.qn)
    got = p.value
    ctx.expect(oid, True if got in (val, sphi) else False if K.S(p, got, p.ev) == K.inputs[0] else None,
               "%s: the result is not the state the axioms lead to" % fn.qn, last_loc(p, fn), fn.qn)


# ---- lists ------------------------------------------------------------------------------

def gens(K, act):
    """The tuples of an action's parameters, however obtained."""
    prm = ("call", "symbolic::Action::parameters", act)
    return [("new", "symbolic::ParameterGenerator", T, prm), ("call", "symbolic::Action::parameter_generator", act)]


def listing(ctx, oid, K, p, exps, msg):
    fn = K.fn
    c = Lists(K, p)
    try:
        got = c.norm(c.of(p.value))
    except comps.Unknown:
        got = None
    if got is None:
        ctx.undecide(oid, "%s: the list is not recognised" % fn.qn)
        return
    got = comps.unrev([x for x in got])
    is_valid = atoms(K, p, all_events(p.ev))
    left = unknown_facts(p, lambda a: is_valid(a) is not None)
    exps = [want(e) for e in exps]
    ctx.expect(oid, True if got in exps else False if not left and all(closed(t) for t in comps.terms(got)) else None,
               "%s: %s" % (fn.qn, msg), last_loc(p, fn), fn.qn)


class Lists(comps.Comps):
    """Comprehensions with states read as expressions."""

    def __init__(self, K, p):
        comps.Comps.__init__(self, p)
        self.K = K

    def term(self, t):
        f = atoms(self.K, self.p, all_events(self.p.ev))

        def go(t):
            if not isinstance(t, tuple) or not t:
                return t
            if t[0] == "call" and t[1] == "symbolic::Action::IsValid":
                k = f(t)
                if k is not None:
                    return tuple(go(x) if isinstance(x, tuple) else x for x in k)
            return tuple(go(x) if isinstance(x, tuple) else x for x in t)
        return self.replace(nrm(go(t)))


OPEN = ("phi", "heap", "sym", "mut", "cap", "itr", "other")


def closed(t):
    return not any(x[0] in OPEN or x[0] == "call" and not x[1].startswith(("symbolic::Action", "symbolic::Object::name"))
                   for x in walk(t) if isinstance(x, tuple) and x)


def list_arguments(ctx, prog, K, fn, paths):
    oid = "arguments"
    s = K.inputs[0]
    act = K.acts[0] if K.acts else ("new", "symbolic::Action", T, K.texts[0])
    for p in returns(ctx, oid, K, paths):
        v = lambda lid: ((("valid", act, ("x", lid), s), True),)
        exps = []
        for g in gens(K, act):
            if K.acts:
                exps.append([("for", 1, g, [("if", [(v(1), [("item", ("x", 1))])])])])
            else:
                exps.append([("for", 1, g, [("if", [(v(1), [("item", ("names", ("x", 1)))])])])])
        if not K.acts:
            # the inner lists of names are collections themselves
            names_of(ctx, oid, K, p, exps)
        else:
            listing(ctx, oid, K, p, exps, "not exactly the valid arguments are listed")


def names_of(ctx, oid, K, p, exps):
    """Lists of the names of lists of objects."""
    fn = K.fn
    c = Lists(K, p)
    try:
        raw = c.of(p.value)
        got = fold_names(c, raw)
        got = comps.number(comps.simplify([c.clean(x) for x in got]))
    except comps.Unknown:
        ctx.undecide(oid, "%s: the list is not recognised" % fn.qn)
        return
    left = unknown_facts(p)
    ctx.expect(oid, True if comps.unrev(got) in [want(e) for e in exps] else
               False if not left and all(closed(t) for t in comps.terms(got)) else None,
               "%s: not exactly the names of the valid arguments are listed" % fn.qn, last_loc(p, fn), fn.qn)


def fold_names(c, parts):
    """Items that are lists of the names of x's elements become ('names', x)."""
    out = []
    for x in parts:
        if x[0] == "item" and x[1][0] in ("phi", "mut"):
            n = c.of(x[1])
            n = comps.simplify([c.clean(y) for y in n])
            if len(n) == 1 and n[0][0] == "for" and n[0][3] == [("item", ("call", "symbolic::Object::name", ("x", n[0][1])))]:
                out.append(("item", ("names", n[0][2])))
            else:
                out.append(("item", ("namesnot", tuple(map(repr, n)))))
        elif x[0] == "for":
            out.append(x[:3] + (fold_names(c, x[3]),))
        elif x[0] == "bind":
            out.append((x[0], x[1], fold_names(c, x[2]), fold_names(c, x[3])))
        elif x[0] == "if":
            out.append(("if", [(cc, fold_names(c, ps)) for cc, ps in x[1]]))
        else:
            out.append(x)
    return out


def list_actions(ctx, prog, K, fn, paths):
    oid = "actions"
    s, a, x = K.inputs[0], ("x", 1), ("x", 2)
    row = (((("valid", a, x, s), True),), [("item", ("call", "symbolic::Action::to_string", a, x))])
    for p in returns(ctx, oid, K, paths):
        exps = [[("for", 1, K.actions, [("for", 2, g, [("if", [row])])])] for g in gens(K, a)]
        listing(ctx, oid, K, p, exps, "not exactly the valid actions are listed")
