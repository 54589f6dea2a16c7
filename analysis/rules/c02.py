"""C02: what a state is does not depend on how it was reached."""
from common import *
from rules import small
from rules.sets import *
from terms import _cons as terms_cons

LEVEL = "other"
EXPLAIN = ("Inductive proof over symbolic path summaries: the bucket count is shown to be a function of the element "
           "count alone (growth and shrink steps are substituted into one another as linear arithmetic, for every "
           "chain position), buckets are sorted and duplicate free, equality is equality of the bucket array and the "
           "hash is a fold over the canonical iteration order. Nothing is executed.")

P, K, NN, BB = ("sym", "p"), ("sym", "k"), ("sym", "n"), ("sym", "B")


def run(ctx):
    prog = ctx.program(["src/state.cc"], ["sets"])
    M = HashSetModel(ctx, prog)
    ctx.group("bucket-count", canonical, ctx, prog, M)
    ctx.group("sorted-vector", uv_rules, ctx, prog)
    ctx.group("equality", equality, ctx, prog, M)
    ctx.group("small", small.set_comparisons, ctx, prog, M, ("==", "!="))
    ctx.group("hash", state_hash, ctx, prog, M)
    ctx.group("copies", copies, ctx, prog)


# ---- arithmetic -------------------------------------------------------------

def norm(t, facts):
    """Simplifies integer arithmetic under facts."""
    def f(x):
        return None
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return t
    if t[0] == "lin":
        r = I(t[1])
        for a, c in t[2]:
            r = add(r, mul(I(c), norm(a, facts)))
        return r
    if t[0] in ("sym", "int", "bool", "init"):
        return t
    if t[0] in ("pos", "eq0", "not"):
        a = norm(t[1], facts)
        return {"pos": pos, "eq0": eq0, "not": neg}[t[0]](a)
    if t[0] == "eq":
        a, b = norm(t[1], facts), norm(t[2], facts)
        return eq0(sub(a, b)) if linear(a) and linear(b) else eq(a, b)
    if t[0] in ("and", "or"):
        return (conj if t[0] == "and" else disj)([norm(x, facts) for x in t[1:]])
    if t[0] == "ite":
        c = norm(t[1], facts)
        d = decide(facts, c)
        if d is True:
            return norm(t[2], facts)
        if d is False:
            return norm(t[3], facts)
        return ("ite", c, norm(t[2], facts), norm(t[3], facts))
    if t[0] in ("max", "min") and len(t) == 3:
        a, b = norm(t[1], facts), norm(t[2], facts)
        d = decide(facts, le(b, a))
        if d is None:
            e = decide(facts, le(a, b))
            d = None if e is None else not e
        if d is None:
            return (t[0], a, b)
        return (a if d else b) if t[0] == "max" else (b if d else a)
    if t[0] == "op" and t[1] in ("/", ">>") and len(t) == 4:
        a, b = norm(t[2], facts), norm(t[3], facts)
        if is_int(b) and b[1] > 0:
            k = b[1] if t[1] == "/" else 2 ** b[1]
            c, d = lin_parts(a)
            if all(v % k == 0 for v in d.values()) and decide(facts, le(I(0), a)) is True:
                return mk_lin(c // k, {x: v // k for x, v in d.items()})
        return ("op", t[1], a, b)
    if t[0] == "op" and t[1] == "<<" and len(t) == 4:
        b = norm(t[3], facts)
        if is_int(b):
            return mul(norm(t[2], facts), I(2 ** b[1]))
    return t


def decide(facts, atom):
    return implied(facts, atom)


def shape_of(v, p, M):
    """The number of buckets a final bucket array has, or None."""
    for _ in range(40):
        if v == ("init", M.B):
            return M.NB
        if v[0] == "mut" and v[1] in ("[]=", "sorted"):
            v = v[2]
        elif v[0] == "with":
            v = v[1]
        elif v[0] == "mut" and v[1] == "resize":
            return v[3]
        elif v[0] == "new" and len(v) > 2:
            return v[2]
        elif v[0] == "phi":
            lp = next((e.loop for e in all_events(p.ev) if e.k == "loop" and e.loop.id == v[1]), None)
            if lp is None or v[2] not in lp.init:
                return None
            for ip in lp.paths:
                w = ip.S.store.get(v[2])
                if w is None:
                    continue
                if not keeps_shape(w, v, lp, ip):
                    return None
            v = lp.init[v[2]]
        else:
            return None
    return None


def keeps_shape(w, v, lp, ip):
    """An iteration leaves the number of buckets as it was."""
    for _ in range(40):
        if w == v:
            return True
        if w[0] == "mut" and w[1] == "[]=":
            w = w[2]
        elif w[0] == "with":
            w = w[1]
        elif w[0] == "phi":
            q = next((e.loop for e in all_events(ip.events) if e.k == "loop" and e.loop.id == w[1]), None)
            if q is None or w[2] not in q.init:
                return False
            for jp in q.paths:
                x = jp.S.store.get(w[2])
                if x is not None and not keeps_shape(x, w, q, jp):
                    return False
            w = q.init[w[2]]
        else:
            return False
    return False


def steps(ctx, prog, M, name):
    """(fn, path, arithmetic facts, new bucket count or None) for every path that changed the set."""
    sgn = 1 if name == "insert" else -1
    for fn in prog.find(HS + "::" + name):
        for p in ctx.run(prog, fn, CMP + PROP + UVM):
            if p.kind != "return":
                continue
            es = [e for e in bucket_calls(p, M) if e.name in (name, "emplace") and e.args and mentions_arg(e.args[0])]
            if len(es) != 1:
                yield fn, p, None, None
                continue
            val = [v for a, v in p.facts if a == es[0].ret]
            if val and not val[-1]:
                if shape_of(final(p, M.B), p, M) not in (M.NB,):
                    yield fn, p, "unchanged", shape_of(final(p, M.B), p, M)
                continue

            def f(t):
                if t == ("init", M.size_lv):
                    return NN
                if t == M.NB:
                    return BB
                if t == ("size", final_buckets_before(p, M)):
                    return BB
                if t == es[0].ret:
                    return TRUE if val else None
                return None
            fs = []
            for a, v in p.facts:
                b = subst(a, f)
                leaves = [x for x in walk(b) if x[0] in ("init", "call", "ret", "more", "phi", "elem", "param")]
                if not leaves:
                    fs.append((b, v))
            b = shape_of(final(p, M.B), p, M)
            yield fn, p, fs, None if b is None else subst(b, f)


def final_buckets_before(p, M):
    return ("none",)


def canonical(ctx, prog, M):
    if not M.sizes:
        ctx.undecide("bucket-count", "no element count field")
        return
    # Initial count.
    n0 = set()
    for fn in prog.find(HS + "::HashSet", lambda f: not f.f["p"] or "initializer_list" in f.decl.ptypes[0].s):
        for p in ctx.run(prog, fn, CMP + PROP + UVM + [HS + "::insert"]):
            b = None
            for e in p.ev:
                if e.k == "init" and e.obj == M.B:
                    b = e.args[0]
            if b is None:
                b = p.S.store.get(M.B)
            if b is not None and b[0] == "new" and len(b) > 2 and is_int(b[2]):
                n0.add(b[2][1])
            else:
                n0.add(None)
    n0.discard(None) if len(n0) > 1 else None
    if len(n0) != 1 or None in n0:
        if len(n0) > 1:
            ctx.violation("bucket-count.initial", "the constructors start with different bucket counts %s" % sorted(n0),
                          fn.loc, fn.qn)
        else:
            ctx.undecide("bucket-count.initial", "initial bucket count not recognised")
        return
    n0 = n0.pop()
    ctx.expect("bucket-count.initial", n0 >= 1, "a fresh set has no bucket", fn.loc, fn.qn)
    # Growth: with n+1 elements in B buckets.
    growth = {}
    base = [(le(I(n0), BB), True), (le(I(0), NN), True)]
    ins = list(steps(ctx, prog, M, "insert"))
    for fn, p, fs, b in ins:
        oid = "bucket-count.insert(%s)" % sig(fn)
        if fs == "unchanged":
            ctx.expect(oid + ".absent", None if b is None else False,
                       "%s: the bucket count changes although the set does not" % fn.qn, last_loc(p, fn), fn.qn)
            continue
        if fs is None:
            ctx.undecide(oid, "insertion not recognised")
            continue
        for case, n in (("full", BB), ("room", None)):
            if n is not None:
                S = lambda t: subst(t, lambda x: n if x == NN else None)
                bg = [(le(I(n0), BB), True)]
            else:
                S = lambda t: t
                bg = [(lt(NN, BB), True), (le(I(n0), BB), True), (le(I(0), NN), True)]
            for bg2, unk, nb in cases_of(fs, b, S, bg):
                if nb is None:
                    ctx.undecide(oid, "bucket count after insertion not recognised")
                elif case == "room":
                    ok = True if decide(bg2, eq0(sub(nb, BB))) is True else (None if unk or not linear(nb) else False)
                    ctx.expect(oid + ".room", ok, "%s: the bucket count changes while there is room" % fn.qn,
                               last_loc(p, fn), fn.qn, fact_lines(p))
                else:
                    growth.setdefault(nb, []).append((fn, p, oid, unk))
    if not growth:
        ctx.undecide("bucket-count.growth", "no growing path")
        return
    grow = [g for g in growth if g != BB]
    if BB in growth:
        fn, p, oid, unk = growth[BB][0]
        if grow or any(fs not in (None, "unchanged") for _, _, fs, _ in ins):
            ctx.expect(oid + ".full", None if unk else (False if grow else None),
                       "%s: does not grow when every bucket is in use, unlike the other insertions" % fn.qn,
                       last_loc(p, fn), fn.qn, fact_lines(p))
        return
    if len(grow) > 1:
        fn, p, oid, unk = growth[grow[-1]][0]
        ctx.expect(oid + ".full", None if unk else False, "the insertions grow to different bucket counts: %s" % ", ".join(
            show(g) for g in grow), last_loc(p, fn), fn.qn)
        return
    G = grow[0]
    if any(x not in (BB,) and x[0] == "sym" for x in walk(G)):
        ctx.undecide("bucket-count.growth", show(G))
        return
    ctx.expect("bucket-count.growth", decide([(le(I(n0), BB), True)], lt(BB, G)),
               "growing to %s buckets makes no room" % show(G), growth[G][0][0].loc, growth[G][0][0].qn)
    Gp = subst(G, lambda x: P if x == BB else None)
    # Shrinking, from every canonical position.
    for fn, p, fs, b in steps(ctx, prog, M, "erase"):
        oid = "bucket-count.erase(%s)" % sig(fn)
        if fs == "unchanged":
            ctx.expect(oid + ".absent", None if b is None else False,
                       "%s: the bucket count changes although the set does not" % fn.qn, last_loc(p, fn), fn.qn)
            continue
        if fs is None:
            ctx.undecide(oid, "erasure not recognised")
            continue
        cases = [
            # (what, n before, B before, background, B after)
            ("at the smallest size", NN, I(n0), [(lt(I(0), NN), True), (le(NN, I(n0)), True)], I(n0)),
            ("when the elements fit the previous size", add(P, I(1)), Gp, [(le(I(n0), P), True)], P),
            ("when the elements do not fit the previous size", add(add(P, I(2)), K), Gp,
             [(le(I(n0), P), True), (le(I(0), K), True), (le(add(add(P, I(2)), K), Gp), True)], Gp),
        ]
        for what, n, bb, bg, want in cases:
            S = lambda t: subst(t, lambda x: n if x == NN else bb if x == BB else None)
            for bg2, unk, nb in cases_of(fs, b, S, bg):
                if nb is None:
                    ctx.undecide(oid, "bucket count after erasure not recognised")
                    continue
                want_n = norm(want, bg2)
                if nb == want_n or linear(nb) and decide(bg2, eq0(sub(nb, want_n))) is True:
                    ctx.ok(oid + ": " + what)
                    continue
                ok = False if not unk and linear(nb) else None
                ctx.expect(oid + ": " + what, ok,
                           "%s: after shrinking the bucket count depends on the past: %s, from %s buckets it becomes %s "
                           "where insertion alone gives %s" % (fn.qn, what, show(bb), show(nb), show(want_n)),
                           last_loc(p, fn), fn.qn, fact_lines(p))


def linear(t):
    return all(x[0] in ("lin", "sym", "int") for x in walk(t) if isinstance(x[0], str))


def find_choice(t):
    """An unresolved max/min or conditional in a normalised term, as the comparison to split on."""
    for x in walk(t):
        if isinstance(x[0], str) and x[0] in ("max", "min") and len(x) == 3 and linear(x[1]) and linear(x[2]):
            return le(x[2], x[1])
        if isinstance(x[0], str) and x[0] == "ite" and x[1][0] in ("pos", "eq0") and linear(x[1][1]):
            return x[1]
    return None


def cases_of(fs, b, S, bg, depth=0):
    """(facts assumed, some fact undecided, new bucket count) for every feasible case of a path."""
    bg = list(bg)
    unk = False
    for a, v in fs:
        t = norm(S(a), bg)
        d = decide(bg, t)
        if d is None:
            c = find_choice(t)
            if c is not None and depth < 6:
                return [r for val in (True, False) for r in cases_of(fs, b, S, bg + [(c, val)], depth + 1)
                        if not infeasible_facts(bg + [(c, val)])]
            at, po = strip(t)
            if at[0] in ("pos", "eq0") and linear(at[1]):
                # a genuine case split on the remaining variables
                bg.append((at, v == po))
                if infeasible_facts(bg):
                    return []
                continue
            unk = True
            continue
        if d != v:
            return []
    nb = None if b is None else norm(S(b), bg)
    if nb is not None:
        c = find_choice(nb)
        if c is not None and depth < 6 and decide(bg, c) is None:
            return [r for val in (True, False) for r in cases_of(fs, b, S, bg + [(c, val)], depth + 1)
                    if not infeasible_facts(bg + [(c, val)])]
    return [(bg, unk, nb)]


def infeasible_facts(facts):
    base, alts = [], [[]]
    for t, v in facts:
        c = terms_cons(t, v)
        if c is None:
            continue
        alts = [x + y for x in alts for y in c]
        if len(alts) > 64:
            return False
    return all(infeasible(x) for x in alts)


# ---- equality and hash -------------------------------------------------------

def operands(fn, what):
    n = lambda s: s.replace("const ", "").replace(" &", "").replace("symbolic::", "")
    return [n(t.s) for t in fn.decl.ptypes] == [n(what)] * 2


def element_cmp(d):
    return d.qn in CMP and d.ptypes and any(x in d.ptypes[0].s for x in ("PropositionBase", "Object")) and \
        "HashSet" not in d.ptypes[0].s


def equality(ctx, prog, M):
    a, b = ("init", ("fld", ("param", 0), M.bf)), ("init", ("fld", ("param", 1), M.bf))
    same = eq(a, b)

    def vocab(t):
        if t == same:
            return ("same", True)
        if t[0] == "prefix" and {t[1], t[2]} == {a, b}:
            return ("prefix", True)
        if t[0] == "eq0":
            c, d = lin_parts(t[1])
            if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
                xs = list(d)
                if M.sizes and {x for x in xs} == {("init", ("fld", ("param", i), M.size_lv[2])) for i in (0, 1)}:
                    return ("same-size", True)
                if {x for x in xs} == {("size", a), ("size", b)}:
                    return ("same-count", True)
        if t[0] == "eq" and {t[1], t[2]} == {("init", ("fld", ("param", i), M.size_lv[2])) for i in (0, 1)}:
            return ("same-size", True)
        if t[0] == "eq" and {t[1], t[2]} == {("addr", ("param", 0)), ("addr", ("param", 1))}:
            return ("identical", True)
        return None

    def feas(x):
        if x["identical"] and not x["same"]:
            return False
        if x["prefix"] and x["same-count"] and not x["same"]:
            return False
        return not x["same"] or (x["same-size"] and x["same-count"] and x["prefix"])

    def out(r):
        return r.value == TRUE if r.kind == "return" and r.value in (TRUE, FALSE) else None
    for op, pol in (("==", True), ("!=", False)):
        for cls, name in ((HS, "set"), ("symbolic::State", "state")):
            for fn in prog.find("symbolic::operator" + op, lambda f: operands(f, cls)):
                ps = ctx.run(prog, fn, [], element_cmp)
                t = Table(["same", "same-size", "same-count", "identical", "prefix"], vocab,
                          (lambda x: x["same"]) if pol else (lambda x: not x["same"]), out, feas,
                          lambda o: str(o).lower())
                t.check(ctx, "%s.operator%s" % (name, op), fn, ps)
    for op in ("==", "!="):
        for fn in prog.find("symbolic::operator" + op, lambda f: operands(f, "symbolic::PartialState")):
            ps = ctx.run(prog, fn, [], element_cmp)
            sides = {}

            def voc(t):
                if t[0] == "eq" and t[1][0] == t[2][0] == "init":
                    x, y = t[1][1], t[2][1]
                    if {root(x), root(y)} == {("param", 0), ("param", 1)}:
                        fx, fy = path_names(x), path_names(y)
                        if fx == fy and fx[-1] == M.bf:
                            return ("same " + fx[0], True)
                        if fx == fy and M.sizes and fx[-1] == M.size_lv[2]:
                            return ("size " + fx[0], True)
                if t[0] == "eq0":
                    c, d = lin_parts(t[1])
                    if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1] and M.sizes:
                        x, y = list(d)
                        if x[0] == y[0] == "init" and {root(x[1]), root(y[1])} == {("param", 0), ("param", 1)}:
                            fx, fy = path_names(x[1]), path_names(y[1])
                            if fx == fy and fx[-1] == M.size_lv[2]:
                                return ("size " + fx[0], True)
                return None
            names = set()
            for p in ps:
                for a_, _ in list(p.facts) + [(p.value, 1)]:
                    for x in walk(a_):
                        w = voc(x) if isinstance(x[0], str) else None
                        if w:
                            names.add(w[0])
            fields = [n for n in prog.cls("symbolic::PartialState")[0].fields
                      if "State" in prog.cls("symbolic::PartialState")[0].ftype(n).s]
            names = sorted(names | {"same " + f for f in fields} | {"size " + f for f in fields})
            feas = lambda x: all(x["size " + f] or not x["same " + f] for f in fields)
            both = lambda x: all(x["same " + f] for f in fields)
            t = Table(names, voc, both if op == "==" else (lambda x: not both(x)), out, feas, lambda o: str(o).lower())
            t.check(ctx, "partial-state.operator" + op, fn, ps)


def path_names(lv):
    out = []
    while lv[0] in ("fld", "idx"):
        out.append(lv[2] if lv[0] == "fld" else "[]")
        lv = lv[1]
    return tuple(reversed(out))


def state_hash(ctx, prog, M):
    for fn in prog.find("std::hash<symbolic::State>::operator()"):
        oid = "hash.state"
        for p in ctx.run(prog, fn, PROP):
            if p.kind != "return":
                continue
            loops = [e.loop for e in all_events(p.ev) if e.k == "loop"]
            terms, todo, done = [], [p.value], set()
            while todo:
                t = todo.pop()
                terms.append(t)
                for x in walk(t):
                    if x[0] == "phi" and len(x) == 3 and x not in done:
                        done.add(x)
                        for lp in loops:
                            if lp.id == x[1]:
                                todo += [v for v in [lp.init.get(x[2])] + [ip.S.store.get(x[2]) for ip in lp.paths]
                                         if isinstance(v, tuple)]
            for t in terms:
                for x in walk(t):
                    if x[0] == "addr" and root(x[1]) == ("param", 0):
                        ctx.violation(oid, "%s: the hash depends on the state's address" % fn.qn, fn.loc, fn.qn)
                        return
                    if x[0] == "init" and root(x[1]) not in (("param", 0), THIS) and root(x[1])[0] not in (
                            "var", "const") and not any(y[0] == "idx" for y in walk(x)):
                        r = root(x[1])
                        if r[0] == "global":
                            ctx.violation(oid, "%s: the hash depends on the global %s" % (fn.qn, r[1]), fn.loc, fn.qn)
                            return
            whole = [lp for lp in loops if ("init", ("param", 0)) in lp.over and lp.dir]
            if not whole:
                ctx.undecide(oid, "the fold over the state is not recognised")
                return
            # Each element contributes through a function of its value only.
            lp = whole[0]
            for ip in lp.paths:
                for q in lp.mod:
                    w = ip.S.store.get(q)
                    if w is None:
                        continue
                    for x in walk(w):
                        if x[0] == "addr":
                            ctx.violation(oid, "%s: the hash depends on an element's address" % fn.qn, lp.loc, fn.qn)
                            return
        ctx.ok(oid)
