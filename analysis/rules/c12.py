"""C12: the combination generator enumerates a mixed-radix number system."""
from common import *
from rules import small_comb

LEVEL = "other"
EXPLAIN = ("Inductive invariant over the iterators: whenever the position is in range, the stored combination is the one "
           "whose digits are the position's mixed-radix digits. Every operation's path summaries (all loops generic, "
           "all positions symbolic) are shown to establish it, with the position moved by exactly the amount the "
           "operation promises; the reverse iterator mirrors it; group sizes, total size, bounds checks and the inverse "
           "lookup are compared with their defining equations. Nothing is executed.")

GP = "symbolic::CombinationGenerator<"
THIS = ("this",)
ARG0, ARG1 = ("init", ("param", 0)), ("init", ("param", 1))


def run(ctx):
    prog = ctx.program([], ["comb"])
    gens = sorted({k.rsplit("::", 1)[0] for k in prog.by_qn if k.startswith(GP) and k.endswith("::find")})
    if not gens:
        raise AnalysisError("anchor not found: CombinationGenerator::find")
    for i, g in enumerate(gens):
        G = Gen(prog, g, "g%d" % i)
        ctx.group(G.tag + ".construct", construct, ctx, prog, G)
        ctx.group(G.tag + ".find", find_rule, ctx, prog, G)
        its = sorted({k.rsplit("::", 1)[0] for k in prog.by_qn if k.startswith(g + "::Iterator<") and
                      k.endswith("::operator->")})
        for j, c in enumerate(its):
            ctx.group("%s.iterator%d" % (G.tag, j), iterator, ctx, prog, G, It(prog, c, G), "%s.iterator%d" % (G.tag, j))
        rev = sorted({k[:-len("::operator->")] for k in prog.by_qn if k.startswith(g + "::ReverseIterator<") and
                      k.endswith("::operator->")})
        for j, c in enumerate(rev):
            ctx.group("%s.reverse%d" % (G.tag, j), iterator, ctx, prog, G, Rev(prog, c, G), "%s.reverse%d" % (G.tag, j))
        ctx.group(G.tag + ".access", access, ctx, prog, G)
        ctx.group(G.tag + ".small", small_comb.small, ctx, prog, G, [It(prog, c, G) for c in its], [Rev(prog, c, G) for c in rev])
        ctx.overrule(re.escape(G.tag) + r"\.(?!small\.)", re.escape(G.tag) + r"\.small\.")


class Gen:
    def __init__(self, prog, qn, tag):
        self.qn, self.tag = qn, tag
        self.size_lv = getter_field(prog, qn + "::size")
        if self.size_lv is None:
            raise AnalysisError("CombinationGenerator: the size is not a stored value")
        self.opt = self.groups = None
        for fn in prog.find(qn + "::CombinationGenerator", lambda f: len(f.f["p"]) == 1):
            for p in Interp(prog).run(fn):
                for q, v in p.S.store.items():
                    if q[0] == "fld" and q[1] == THIS:
                        if v == ARG0:
                            self.opt = q
                        elif q != self.size_lv and (v[0] in ("phi", "new", "mut", "list")):
                            self.groups = q
        if self.opt is None or self.groups is None:
            raise AnalysisError("CombinationGenerator: options or group sizes are not stored")

    def size(self, gen):
        return ("init", ("fld", gen, self.size_lv[2]))

    def is_group(self, t, ix):
        return t[0] == "init" and t[1][0] == "idx" and t[1][2] == ix and t[1][1][0] == "fld" and \
            t[1][1][2] == self.groups[2]

    def option_at(self, t, ix):
        """t is options[ix] (a pointer value)."""
        return t[0] == "init" and t[1][0] == "idx" and t[1][2] == ix and t[1][1][0] == "fld" and \
            t[1][1][2] == self.opt[2]


class It:
    """An iterator class: where its generator, index and combination are stored."""
    sgn = 1

    def __init__(self, prog, qn, G):
        c = prog.cls(qn)[0] if qn in prog.classes else None
        if c is None:
            raise AnalysisError("anchor class not found: %s" % qn)
        self.qn = qn
        f = {n: c.ftype(n) for n in c.fields}
        gp = [n for n in f if f[n].s.rstrip().endswith("*") and "CombinationGenerator" in f[n].s]
        cb = [n for n in f if f[n].s.startswith("std::vector")]
        ix = [n for n in f if f[n].s in ("int", "long", "unsigned long", "unsigned int", "ptrdiff_t", "size_t", "std::size_t")]
        if len(gp) != 1 or len(cb) != 1 or len(ix) != 1:
            raise AnalysisError("%s: fields not recognised" % qn)
        self.gen, self.comb, self.idx = gp[0], cb[0], ix[0]
        self.path = ()
        self.start = 0

    def base(self, lv):
        for f in self.path:
            lv = ("fld", lv, f)
        return lv

    def of_value(self, v, f):
        for g in self.path:
            v = engine.project(v, g)
        return engine.project(v, f)

    def of_lv(self, p, lv, f):
        return final(p, ("fld", self.base(lv), f))


class Rev(It):
    sgn = -1

    def __init__(self, prog, qn, G):
        c = prog.cls(qn)[0] if qn in prog.classes else None
        if c is None:
            raise AnalysisError("anchor class not found: %s" % qn)
        inner = [n for n in c.fields if "Iterator<" in c.ftype(n).s and c.ftype(n).cls]
        if len(inner) != 1:
            raise AnalysisError("%s: fields not recognised" % qn)
        t = c.ftype(inner[0]).s
        it = It(prog, [k for k in prog.classes if k.endswith(t) or t.endswith(k)][0] if t not in prog.classes else t, G)
        self.qn, self.gen, self.comb, self.idx, self.path = qn, it.gen, it.comb, it.idx, (inner[0],)


# ---- the invariant -----------------------------------------------------------

class Bad(Exception):
    def __init__(self, msg, loc):
        Exception.__init__(self, msg)
        self.loc = loc


def loop_of(p, lid):
    for e in all_events(p.ev):
        if e.k == "loop" and e.loop.id == lid:
            return e.loop
    return None


def comb_position(t, p, G, bases, facts):
    """The position a combination term is correct for; None if not recognised, 'nothing' if never set.

    bases: {term: position} combinations assumed correct (when their position is in range).
    """
    if t in bases:
        return bases[t]
    if t[0] in ("list", "emptyc") or t[0] == "new" and len(t) > 1:
        return "nothing"
    if t[0] == "mut" and t[1] in ("resize", "reserve"):
        return comb_position(t[2], p, G, bases, facts)
    if t[0] == "mut" and t[1] == "clear":
        return "nothing"
    if t[0] != "phi":
        return None
    lp = loop_of(p, t[1])
    if lp is None or t[2] not in lp.init:
        return None
    base = comb_position(lp.init[t[2]], p, G, bases, facts)
    if base is None:
        return None
    if lp.lo is None or lp.hi is None or lp.dir is None:
        return None
    # Every digit is visited.
    if lp.lo != I(0) or lp.dir != "asc":
        if is_int(lp.lo) and lp.lo[1] > 0:
            raise Bad("the first digits are not set", lp.loc)
        return None
    h = lp.hi
    if not (h[0] == "size" and (field_end(h[1]) in (G.opt[2], G.groups[2]) or h[1] == lp.init[t[2]] or
                                h[1] == ("phi", lp.id, t[2]))):
        c, d = lin_parts(h)
        if c < 0 and len(d) == 1 and list(d)[0][0] == "size":
            raise Bad("the last digits are not set", lp.loc)
        return None
    it = ("iter", lp.id)
    target = None
    for ip in lp.paths:
        if ip.flow == "throw":
            continue
        rest = False
        chains = {}
        for q in lp.mod:
            ph = ("phi", lp.id, q)
            if q in lp.init and lp.init[q][0] not in ("list",):
                chains[ph] = (lp.init[q], ip.S.store.get(q))
        w = ip.S.store.get(t[2])

        def position_of(d):
            """Position whose digit d is."""
            if d[0] != "op" or len(d) != 4:
                return None
            if d[1] == "/" and G.is_group(d[3], it) and d[2] in chains:
                start, step = chains[d[2]]
                if step in (sub(d[2], mul(d, d[3])), ("op", "%", d[2], d[3])):
                    return start
                if step is not None:
                    raise Bad("the remainder is not reduced by the digit", lp.loc)
            if d[1] == "%" and d[2][0] == "op" and d[2][1] == "/" and G.is_group(d[2][3], it) and \
                    d[3][0] == "size" and not any(x[0] == "phi" for x in walk(d[2][2])):
                return d[2][2]
            return None
        if w == t or w is None:
            # Not set: the digit must be known to be the same.
            same = None
            for a, v in ip.facts:
                a, pol = strip(a)
                v = v == pol
                if not v:
                    continue
                x = None
                if a[0] == "eq":
                    x = (a[1], a[2])
                elif a[0] == "eq0":
                    c, d = lin_parts(a[1])
                    if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
                        x = tuple(d)
                if x and x[0] in chains and x[1] in chains and x[0] != x[1]:
                    # What remains of both positions is equal, so are all further digits.
                    same = [chains[x[0]][0], chains[x[1]][0]]
                    rest = True
                elif x:
                    ps = [position_of(x[0]), position_of(x[1])]
                    if None not in ps:
                        same = ps
            if same is None:
                # Skipped under conditions that say nothing about the two digits being the same?
                def piece(x):
                    return is_int(x) or position_of(x) is not None or x in chains or \
                        any(x == st for _, st in chains.values())
                for a, _ in ip.facts:
                    a, _p = strip(a)
                    if a[0] == "pos" and any(x[:2] == it for x in lin_parts(a[1])[1]):
                        continue
                    if a[0] == "eq":
                        xs = a[1:3]
                    elif a[0] in ("eq0", "pos"):
                        c, d = lin_parts(a[1])
                        xs = None
                        for st0, st in chains.values():
                            if st is not None and a[1] in (st, mul(I(-1), st)):
                                xs = (st, I(0))
                        sts = [st for _, st in chains.values() if st is not None]
                        for i1 in sts:
                            for i2 in sts:
                                if i1 != i2 and a[1] == sub(i1, i2):
                                    xs = (i1, i2)
                        if xs is None and len(d) == 1:
                            xs = (list(d)[0], I(0))
                        elif xs is None and c == 0 and len(d) == 2:
                            xs = tuple(d)
                        if xs is not None and all(x in chains for x in xs):
                            xs = None
                    else:
                        xs = None
                    if xs is None or not all(piece(x) for x in xs):
                        return None
                if ip.flow is not None:
                    raise Bad("stops before every digit is set", lp.loc)
                raise Bad("an element is kept although the digit may have changed", lp.loc)
            if ip.flow is not None and not rest:
                raise Bad("stops before every digit is set", lp.loc)
            if base == "nothing":
                raise Bad("an element that was never set is kept", lp.loc)
            if base not in same:
                raise Bad("an element of another position is kept", lp.loc)
            ok = truth(facts, conj([le(I(0), base), lt(base, G.cur_size)]))
            if ok is not True:
                raise Bad("elements are kept although the previous position may be out of range", lp.loc)
            tgt = same[1] if same[0] == base else same[0]
        else:
            if ip.flow is not None:
                raise Bad("stops before every digit is set", lp.loc)
            if w[0] == "mut" and w[1] == "[]=" and w[2] == t:
                if w[3] != it:
                    if is_int(sub(w[3], it)):
                        raise Bad("the wrong element is set", lp.loc)
                    return None
                v = w[4]
                if not (v[0] == "init" and v[1][0] == "idx"):
                    return None
                inner = v[1][1]
                opts = [x for x in walk(inner) if x[0] == "init" and x[1][0] == "idx" and x[1][1][0] == "fld" and
                        x[1][1][2] == G.opt[2]]
                if len(opts) != 1:
                    return None
                if opts[0][1][2] != it:
                    if is_int(sub(opts[0][1][2], it)):
                        raise Bad("the element is taken from another option", lp.loc)
                    return None
                tgt = position_of(v[1][2])
                if tgt is None:
                    d = v[1][2]
                    if is_int(sub(d, I(0))) or [x for x in walk(d) if x[0] == "op"] and any(
                            position_of(x) is not None for x in walk(d) if x[0] == "op"):
                        raise Bad("the element is not the one at the position's digit", lp.loc)
                    return None
            else:
                return None
        if target is not None and tgt != target:
            raise Bad("different digits follow different positions", lp.loc)
        target = tgt
    return target


def field_end(t):
    if t[0] == "init":
        t = t[1]
    return t[2] if t[0] == "fld" else None


def gen_of(p, v):
    """The lvalue a generator pointer points at."""
    return Interp(None).deref(v)


def positioned(ctx, oid, fn, p, G, genv, idx, comb, want, bases):
    """(idx, comb) represent position `want`; returns True/False/None and reports."""
    gen = gen_of(p, genv)
    size = G.size(gen)
    G.cur_size = size
    bg = [(le(I(0), size), True)]
    facts = list(p.facts) + bg
    if not consistent(facts):
        return True
    unknown = [a for a, _ in p.facts if not linear_atom(a)]
    d = truth(facts, eq0(sub(idx, want))) if idx is not None else None
    if d is not True:
        ctx.expect(oid, False if idx is not None and lin_ok(idx) and not unknown else None,
                   "%s: moves to position %s instead of %s" % (fn.qn, show(idx), show(want)), last_loc(p, fn), fn.qn,
                   fact_lines(p))
        return False
    inr = conj([le(I(0), want), lt(want, size)])
    if truth(facts, inr) is False:
        return True
    try:
        at = comb_position(comb, p, G, bases, facts)
    except Bad as e:
        # Unsigned comparisons: a negative position compares greater than the size.
        alt = facts + [(le(I(0), x), True) for x in below_size(facts, size)]
        try:
            comb_position(comb, p, G, bases, alt)
            ctx.undecide(oid, "depends on how a negative position compares")
            return None
        except Bad:
            pass
        ctx.violation(oid, "%s: %s" % (fn.qn, e), e.loc or last_loc(p, fn), fn.qn, fact_lines(p))
        return False
    if at is None:
        ctx.undecide(oid, "the combination is set in an unrecognised way: %s" % show(comb)[:150])
        return None
    facts2 = facts + [(le(I(0), want), True), (lt(want, size), True)]
    if not consistent(facts2 + [(le(I(0), x), True) for x in below_size(facts, size)]):
        return True
    if at == "nothing":
        ctx.expect(oid, False if not unknown else None, "%s: leaves the combination unset at a valid position" % fn.qn,
                   last_loc(p, fn), fn.qn, fact_lines(p))
        return False
    same = truth(facts2, eq0(sub(at, want)))
    if same is True:
        return True
    ctx.expect(oid, False if not unknown else None,
               "%s: the combination is that of position %s, not %s" % (fn.qn, show(at), show(want)), last_loc(p, fn),
               fn.qn, fact_lines(p))
    return False


def below_size(facts, size):
    """Quantities a fact says are below the size."""
    out = []
    for a, v in facts:
        a, pol = strip(a)
        if a[0] == "pos" and v == pol:
            c, d = lin_parts(a[1])
            if d.get(size) == 1:
                d = dict(d)
                d.pop(size)
                if d:
                    out.append(mk_lin(-c, {k: -x for k, x in d.items()}))
    return out


def lin_ok(t):
    c, d = lin_parts(t)
    return all(k[0] in ("init", "size", "sym") for k in d)


# ---- iterators ---------------------------------------------------------------

def iterator(ctx, prog, G, K, tag):
    q = K.qn
    this_idx = ("init", ("fld", K.base(THIS), K.idx))
    this_gen = ("init", ("fld", K.base(THIS), K.gen))
    this_comb = ("init", ("fld", K.base(THIS), K.comb))
    bases = {this_comb: this_idx}
    n = ARG0
    s = lambda t: mul(I(K.sgn), t)
    moves = [("operator++", lambda f: not f.f["p"], s(I(1)), "this"),
             ("operator--", lambda f: not f.f["p"], s(I(-1)), "this"),
             ("operator++", lambda f: f.f["p"], s(I(1)), "old"),
             ("operator--", lambda f: f.f["p"], s(I(-1)), "old"),
             ("operator+=", None, s(n), "this"), ("operator-=", None, mul(I(-1), s(n)), "this"),
             ("operator+", lambda f: f.f["p"], s(n), "new"),
             ("operator-", lambda f: f.f["p"] and "Iterator" not in f.decl.ptypes[0].s, mul(I(-1), s(n)), "new")]
    for name, pred, delta, kind in moves:
        for fn in prog.find(q + "::" + name, pred):
            oid = "%s.%s(%s)" % (tag, name, ",".join(t.s for t in fn.decl.ptypes))
            ps = ctx.run(prog, fn)
            ok = True
            for p in ps:
                if p.kind != "return":
                    continue
                want = add(this_idx, delta)
                v = p.value
                if kind == "new":
                    if isinstance(v, L):
                        ok = None
                        break
                    r = positioned(ctx, oid, fn, p, G, K.of_value(v, K.gen), K.of_value(v, K.idx), K.of_value(v, K.comb),
                                   want, bases)
                    if r is True and K.of_lv(p, THIS, K.idx) != this_idx:
                        ctx.violation(oid, "%s: moves the iterator itself" % fn.qn, last_loc(p, fn), fn.qn)
                        r = False
                else:
                    r = positioned(ctx, oid, fn, p, G, K.of_lv(p, THIS, K.gen), K.of_lv(p, THIS, K.idx),
                                   K.of_lv(p, THIS, K.comb), want, bases)
                    if r is True and kind == "old":
                        r = positioned(ctx, oid, fn, p, G, K.of_value(v, K.gen), K.of_value(v, K.idx),
                                       K.of_value(v, K.comb), this_idx, bases) if not isinstance(v, L) else None
                    if r is True and kind == "this" and isinstance(v, L) and v.p != THIS:
                        r = None
                if r is not True:
                    ok = r
                    break
            if ok is True:
                ctx.ok(oid)
    for fn in prog.find("symbolic::operator+", lambda f: len(f.decl.ptypes) == 2 and
                        norm_t(f.decl.ptypes[1].s) == norm_t(q), required=False):
        oid = tag + ".operator+(n,it)"
        lv = ("param", 1)
        idx = ("init", ("fld", K.base(lv), K.idx))
        ok = True
        for p in ctx.run(prog, fn):
            if p.kind == "return" and not isinstance(p.value, L):
                v = p.value
                ok = positioned(ctx, oid, fn, p, G, K.of_value(v, K.gen), K.of_value(v, K.idx), K.of_value(v, K.comb),
                                add(idx, s(n)), {("init", ("fld", K.base(lv), K.comb)): idx})
                if ok is not True:
                    break
        if ok is True:
            ctx.ok(oid)
    # element access
    for fn in prog.find(q + "::operator[]"):
        oid = tag + ".operator[]"
        ok = True
        for p in ctx.run(prog, fn):
            if p.kind == "return" and not isinstance(p.value, L):
                ok = positioned(ctx, oid, fn, p, G, this_gen, add(this_idx, s(n)), p.value, add(this_idx, s(n)), bases)
                if ok is not True:
                    break
        if ok is True:
            ctx.ok(oid)
    for name in ("operator*", "operator->"):
        for fn in prog.find(q + "::" + name):
            lv = ("fld", K.base(THIS), K.comb)
            for p in ctx.run(prog, fn):
                v = p.value
                if isinstance(v, L):
                    ok = True if v.p == lv else None
                else:
                    ok = True if v in (("addr", lv), ("init", lv)) else None
                ctx.expect(tag + "." + name, ok, "%s: does not give the current combination" % fn.qn, fn.loc, fn.qn)
    # comparisons and distance
    ia, ib = this_idx, ("init", ("fld", K.base(("param", 0)), K.idx))
    g = eq(this_gen, ("init", ("fld", K.base(("param", 0)), K.gen)))

    def sb(t):
        return simplify(subst(t, lambda x: TRUE if x == g else None))
    lt_, gt_ = (lt(ia, ib), lt(ib, ia)) if K.sgn == 1 else (lt(ib, ia), lt(ia, ib))
    cases = [("the position before", [(lt_, True)]), ("the same position", [(eq0(sub(ia, ib)), True)]),
             ("the position after", [(gt_, True)])]
    for op, want in (("==", (0, 1, 0)), ("!=", (1, 0, 1)), ("<", (1, 0, 0)), (">", (0, 0, 1)), ("<=", (1, 1, 0)),
                     (">=", (0, 1, 1))):
        for fn in prog.find(q + "::operator" + op):
            ps = ctx.run(prog, fn)
            linear_cases(ctx, "%s.operator%s" % (tag, op), fn, ps,
                         [(c[0], c[1], bool(w)) for c, w in zip(cases, want)], sb, "comparing with %s")
    for op, want in (("==", False), ("!=", True)):
        # Positions of different generators are different.
        for fn in prog.find(q + "::operator" + op):
            ps = ctx.run(prog, fn)
            linear_cases(ctx, "%s.other-generator.operator%s" % (tag, op), fn, ps, [("another generator", [], want)],
                         lambda t: simplify(subst(t, lambda x: FALSE if x == g else None)), "comparing with %s")
    for fn in prog.find(q + "::operator-", lambda f: f.f["p"] and "Iterator" in f.decl.ptypes[0].s):
        for p in ctx.run(prog, fn):
            want = s(sub(ia, ib))
            v = p.value
            ctx.expect(tag + ".distance", True if v == want else (False if not isinstance(v, L) and lin_ok(v) else None),
                       "%s: the distance is %s instead of %s" % (fn.qn, v if isinstance(v, L) else show(v), show(want)),
                       fn.loc, fn.qn)
    # construction
    nm = q.split("::")[-1].split("<")[0]
    nm = "ReverseIterator" if K.sgn < 0 else "Iterator"
    for fn in prog.find(q + "::" + nm):
        oid = "%s.ctor(%d)" % (tag, len(fn.f["p"]))
        pt = [t.s for t in fn.decl.ptypes]
        if K.sgn > 0 and len(pt) == 2:
            want, bs = ARG1, {}
        elif K.sgn < 0 and len(pt) == 1 and "ReverseIterator<" not in norm_t(pt[0]).split("Iterator<")[0] + "Iterator<":
            i0 = ("init", ("fld", ("param", 0), K.idx))
            want, bs = add(i0, I(-1)), {("init", ("fld", ("param", 0), K.comb)): i0}
        else:
            continue
        ok = True
        for p in ctx.run(prog, fn):
            if p.kind != "return":
                continue
            ok = positioned(ctx, oid, fn, p, G, K.of_lv(p, THIS, K.gen), K.of_lv(p, THIS, K.idx),
                            K.of_lv(p, THIS, K.comb), want, bs)
            if ok is not True:
                break
        if ok is True:
            ctx.ok(oid)


def norm_t(s):
    return s.replace("const ", "").rstrip(" &")


def simplify(t):
    if t[0] == "and":
        return conj([simplify(x) for x in t[1:]])
    if t[0] == "or":
        return disj([simplify(x) for x in t[1:]])
    if t[0] == "not":
        return neg(simplify(t[1]))
    return t


# ---- the generator -----------------------------------------------------------

def access(ctx, prog, G):
    its = {}

    def kind(v):
        """The iterator class of a returned value, by its return type."""
        return None
    size = ("init", G.size_lv)
    for name, pos_, rev in (("begin", I(0), False), ("end", size, False), ("cbegin", I(0), False), ("cend", size, False),
                            ("rbegin", add(size, I(-1)), True), ("rend", I(-1), True),
                            ("crbegin", add(size, I(-1)), True), ("crend", I(-1), True)):
        for fn in prog.find(G.qn + "::" + name):
            t = fn.decl.ret.s
            cq = [k for k in prog.classes if norm_t(k) == norm_t(t)] or [k for k in prog.classes if k.endswith(norm_t(t))]
            oid = "%s.%s%s" % (G.tag, name, " const" if fn.decl.const else "")
            if not cq:
                ctx.undecide(oid, "return type %s" % t)
                continue
            K = (Rev if rev else It)(prog, cq[0], G)
            ok = True
            for p in ctx.run(prog, fn):
                if p.kind != "return" or isinstance(p.value, L):
                    continue
                v = p.value
                gv = K.of_value(v, K.gen)
                if gv != ("addr", THIS):
                    ctx.expect(oid, False if gv[0] == "addr" else None, "%s: iterates over another generator" % fn.qn,
                               fn.loc, fn.qn)
                    ok = False
                    break
                ok = positioned(ctx, oid, fn, p, G, gv, K.of_value(v, K.idx), K.of_value(v, K.comb), pos_, {})
                if ok is not True:
                    break
            if ok is True:
                ctx.ok(oid)
    i = ARG0
    bg0 = [(le(I(0), size), True)]
    # operator[]: for an index in range
    for name in ("operator[]", "at"):
        for fn in prog.find(G.qn + "::" + name):
            oid = "%s.%s" % (G.tag, name)
            ok = True
            for p in ctx.run(prog, fn):
                cases = [("in range", [(le(I(0), i), True), (lt(i, size), True)], i)]
                if name == "at":
                    cases += [("counted from the end", [(lt(i, I(0)), True), (le(I(0), add(i, size)), True)], add(i, size)),
                              ("too large", [(le(size, i), True)], None),
                              ("too small", [(lt(add(i, size), I(0)), True)], None)]
                for what, bg, want in cases:
                    fs = bg0 + bg + list(p.facts)
                    # A negative index compares greater than an unsigned size.
                    alt = fs + [(le(I(0), x), True) for x in below_size(p.facts, size)]
                    if not consistent(fs) or not consistent(alt):
                        continue
                    unknown = [a for a, _ in p.facts if not linear_atom(a)]
                    if want is None:
                        if p.kind != "throw":
                            ctx.expect(oid, False if not unknown else None, "%s: an index that is %s is accepted" % (
                                fn.qn, what), last_loc(p, fn), fn.qn, fact_lines(p))
                            ok = False
                        elif not is_exc(p, "std::out_of_range"):
                            ctx.expect(oid, False, "%s: an index that is %s does not raise out_of_range" % (fn.qn, what),
                                       last_loc(p, fn), fn.qn, fact_lines(p))
                            ok = False
                    elif p.kind == "throw":
                        ctx.expect(oid, False if not unknown else None, "%s: an index %s is rejected" % (fn.qn, what),
                                   last_loc(p, fn), fn.qn, fact_lines(p))
                        ok = False
                    elif p.kind == "return" and not isinstance(p.value, L):
                        p2 = Shadow(p, fs)
                        r = positioned(ctx, oid, fn, p2, G, ("addr", THIS), want, p.value, want, {})
                        if r is not True:
                            ok = r
                    if ok is not True:
                        break
                if ok is not True:
                    break
            if ok is True:
                ctx.ok(oid)
    for fn in prog.find(G.qn + "::empty"):
        ps = ctx.run(prog, fn)
        linear_cases(ctx, G.tag + ".empty", fn, ps, [("empty", [(eq0(size), True)], True),
                                                     ("not empty", [(pos(size), True)], False)], lambda t: t,
                     "a generator that is %s")


class Shadow:
    """A path seen under extra facts."""

    def __init__(self, p, facts):
        self.p, self.facts = p, facts
        self.ev, self.S, self.kind, self.value = p.ev, p.S, p.kind, p.value


def is_exc(p, cls):
    return p.kind == "throw" and any(cls in str(x) for x in [p.value[1] if not isinstance(p.value, L) and len(p.value) > 1 else ""])


def construct(ctx, prog, G):
    for fn in prog.find(G.qn + "::CombinationGenerator", lambda f: len(f.f["p"]) == 1 and "std::vector" in f.decl.ptypes[0].s):
        ps = ctx.run(prog, fn)
        opts = ARG0
        nopt = ("size", opts)
        seen_throw = False
        for p in ps:
            facts = list(p.facts)
            empty = truth(facts, eq0(nopt))
            if empty is None:
                empty = truth(facts, neg(pos(nopt)))
            if p.kind == "throw":
                if not is_exc(p, "std::invalid_argument"):
                    ctx.undecide(G.tag + ".rejects", "throws something else")
                continue
            oid = G.tag + ".total"
            s = final(p, G.size_lv)
            g = final(p, G.groups)
            if final(p, G.opt) != opts:
                ctx.undecide(G.tag + ".options", "options are not stored as given")
            if empty is True:
                ctx.expect(oid + "(none)", True if s == I(1) else (False if is_int(s) else None),
                           "%s: without options there are %s combinations" % (fn.qn, show(s)), fn.loc, fn.qn)
                continue
            # Total size: groups[0] * |options[0]|
            want = mul(engine.index(g, I(0)), osize(I(0)))
            ok = None
            if s == want:
                ok = True
            elif vocab_only(s, g):
                ok = False
            ctx.expect(oid, ok, "%s: the number of combinations is %s" % (fn.qn, show(s)[:120]), fn.loc, fn.qn, fact_lines(p))
            # Group sizes.
            oid = G.tag + ".groups"
            ok, why, loc = groups_ok(p, g, nopt)
            ctx.expect(oid, ok, "%s: %s" % (fn.qn, why), loc or fn.loc, fn.qn, fact_lines(p))
            # Empty options are rejected.
            oid = G.tag + ".rejects"
            ok, why, loc = rejects_ok(p, opts, nopt)
            ctx.expect(oid, ok, "%s: %s" % (fn.qn, why), loc or fn.loc, fn.qn, fact_lines(p))
    for fn in prog.find(G.qn + "::CombinationGenerator", lambda f: not f.f["p"], required=False):
        for p in ctx.run(prog, fn):
            s = final(p, G.size_lv)
            ctx.expect(G.tag + ".default", True if s == I(0) else (False if is_int(s) or s[0] == "uninit" or s == ("init", G.size_lv) else None),
                       "%s: a default generator is not empty" % fn.qn, fn.loc, fn.qn)


def osize(ix):
    return ("size", ("init", Interp(None).deref(("init", ("idx", ("param", 0), ix)))))


def vocab_only(t, g):
    """t is built from integers, group sizes and option sizes."""
    if t[0] == "int":
        return True
    if t[0] == "mul":
        return all(vocab_only(x, g) for x in t[1:])
    if t[0] == "lin":
        return all(vocab_only(a, g) for a, _ in t[2])
    if t[0] == "elem" and t[1] == g:
        return True
    if t[0] == "size":
        return any(x == ("param", 0) for x in walk(t)) or t[1] == g
    return False


def off_start(lp, start, k, it, nopt, same):
    """The first group size written is the last but one."""
    return start is not None and same(add(start, sub(k, it)), sub(nopt, I(2)))


def renorm(t):
    if t[0] == "mul":
        r = I(1)
        for x in t[1:]:
            r = mul(r, renorm(x))
        return r
    return t


def groups_ok(p, g, nopt):
    if g[0] != "phi":
        if g[0] == "mut" and g[1] == "[]=" or g[0] in ("new",):
            return None, "group sizes", None
        return None, "group sizes %s" % show(g)[:80], None
    lp = loop_of(p, g[1])
    if lp is None:
        return None, "group sizes", None
    init = lp.init[g[2]]
    # last group is 1
    last = None
    b = init
    writes = []
    while b[0] == "mut" and b[1] == "[]=":
        writes.append((b[3], b[4]))
        b = b[2]
    if len(writes) != 1 or b[0] != "new":
        return None, "initial group sizes not recognised", lp.loc
    n = engine.size_of(b)
    ix, one = writes[0]
    same = lambda a, c: truth(list(p.facts), eq0(sub(subst(a, lambda x: nopt if x == ("size", b) else None), c))) is True
    if not (same(ix, sub(nopt, I(1))) and one == I(1)):
        if is_int(one) and same(ix, sub(nopt, I(1))):
            return False, "the last group size is %s instead of 1" % show(one), lp.loc
        return None, "initial group sizes not recognised", lp.loc
    if lp.dir != "desc" or lp.lo is None:
        return None, "group sizes are not computed from right to left", lp.loc
    it = [x for ip in lp.paths for v in [ip.S.store.get(g[2])] if v for x in walk(v) if x[0] == "iter" and x[1] == lp.id]
    if not it:
        return None, "group sizes", lp.loc
    it = it[0]
    # range: n-2 .. 0
    start = next((lp.init[q] for q in lp.mod if lp.iterlvs.get(q) == it), None)
    if start is None and lp.iterlvs:
        q, c = next(iter(lp.iterlvs.items()))
        start = sub(lp.init[q], sub(c, it))
    rng = lp.lo == I(0) and start is not None and same(start, sub(nopt, I(2)))
    for ip in lp.paths:
        if ip.flow is not None:
            return (False if ip.flow == "break" else None), "the group sizes are not computed to the end", lp.loc
        w = ip.S.store.get(g[2])
        ph = ("phi", lp.id, g[2])
        if w is None or w[0] != "mut" or w[1] != "[]=" or w[2] != ph:
            return None, "group size update not recognised", lp.loc
        k, v = w[3], w[4]
        if not is_int(sub(k, it)):
            return None, "group size update not recognised", lp.loc
        nxt = add(k, I(1))
        want = mul(("elem", ph, nxt), osize(nxt))
        accs = {x for x in walk(v) if x[0] == "phi" and x != ph}
        for a in accs:
            # A running product: it always is the group size written last.
            if ip.S.store.get(a[2]) == v and lp.init.get(a[2]) == I(1) and off_start(lp, start, k, it, nopt, same):
                v = subst(v, lambda x: ("elem", ph, nxt) if x == a else None)
        v = renorm(v)
        if v != want:
            if any(x[0] == "phi" and x != ph for x in walk(v)):
                return None, "group size [i] is %s" % show(v)[:150], lp.loc
            voc = all(x[0] in ("mul", "lin", "int", "elem", "size", "init", "idx", "deref", "param", "phi", "iter", "fld", "var", "this")
                      for x in walk(v))
            return (False if voc else None), "group size [i] is %s" % show(v)[:150], lp.loc
        # combined range of written indices must be n-2 .. 0
        off = sub(k, it)
        if off != I(0):
            rng = lp.lo is not None and start is not None and same(add(start, off), sub(nopt, I(2))) and \
                truth([], eq0(add(lp.lo, off))) is True
    if not rng:
        known_ = lp.lo is not None and is_int(lp.lo) and start is not None and lin_parts(start)[1].keys() <= {nopt}
        return (False if known_ else None), "not every group size is computed", lp.loc
    return True, "", lp.loc


def rejects_ok(p, opts, nopt):
    """On a completed construction every option was seen to have an element."""
    cand = [e.loop for e in all_events(p.ev) if e.k == "loop" and any(ip.flow == "throw" for ip in e.loop.paths)]
    if not cand:
        if any(e.k == "call" for e in p.ev) or p.facts:
            return None, "options are checked in an unrecognised way", None
        return False, "an option without elements is accepted", None
    lp = cand[0]
    if opts not in lp.over:
        if lp.lo is not None and lp.hi is not None:
            if lp.lo == I(0) and lp.hi == nopt:
                pass
            else:
                return (False if is_int(lp.lo) and lin_parts(lp.hi)[1].keys() <= {nopt} else None), \
                    "not every option is checked for elements", lp.loc
        else:
            return None, "options are checked in an unrecognised way", lp.loc
    for ip in lp.paths:
        f = None
        unk = False
        for a, v in ip.facts:
            if a[0] == "more" or linear_atom(a) and any(x[:2] == ("iter", lp.id) for x in lin_parts(strip(a)[0][1])[1]):
                continue
            e = emptiness(a)
            if e is None:
                unk = True
                continue
            f = v == e
        if ip.flow == "throw":
            if f is False and not unk:
                return False, "an option with elements is rejected", lp.loc
        elif ip.flow is None:
            if f is True:
                return False, "an option without elements is accepted", lp.loc
            if f is None and not unk:
                return None, "options are checked in an unrecognised way", lp.loc
            if f is None:
                return None, "options are checked under an unrecognised condition", lp.loc
        else:
            return False, "stops before every option is checked", lp.loc
    return True, "", lp.loc


def emptiness(a):
    """polarity if a literal says 'this container is empty' (True) or 'is not' (False)."""
    a, pol = strip(a)
    if a[0] == "eq" and a[1][0] == a[2][0] == "itr" and {a[1][2], a[2][2]} == {"begin", "end"} and a[1][1] == a[2][1]:
        return pol
    if a[0] == "eq0" and a[1][0] == "size":
        return pol
    if a[0] == "pos" and a[1][0] == "size":
        return not pol
    return None


def find_rule(ctx, prog, G):
    for fn in prog.find(G.qn + "::find"):
        oid = G.tag + ".find"
        for p in ctx.run(prog, fn, ["symbolic::operator<<", "symbolic::operator=="]):
            loops = [e.loop for e in p.ev if e.k == "loop"]
            if len(loops) != 1:
                ctx.undecide(oid, "not a single loop")
                return
            lp = loops[0]
            n = ("size", ARG0)
            if ARG0 not in lp.over and not (lp.lo == I(0) and lp.hi in (n, ("size", ("init", G.opt)), ("size", ("init", G.groups)))):
                kn = lp.lo is not None and lp.hi is not None and is_int(lp.lo) and \
                    all(k[0] == "size" for k in lin_parts(lp.hi)[1])
                ctx.expect(oid, False if kn else None, "%s: not every digit is looked up" % fn.qn, lp.loc, fn.qn)
                return
            it = ("iter", lp.id)
            for ip in lp.paths:
                acc = [q for q in lp.mod if ("phi", lp.id, q) == p.value or ip.flow == "throw"]
                found = None
                unk = False
                for a, v in ip.facts:
                    a, pol = strip(a)
                    if a[0] == "more":
                        continue
                    if a[0] == "pos" and any(k[:2] == it for k in lin_parts(a[1])[1]):
                        continue
                    if a[0] == "eq" and a[1][0] == a[2][0] == "itr":
                        k = {x[2] if isinstance(x[2], str) else x[2][0] for x in (a[1], a[2])}
                        if k == {"end", "stdfind"}:
                            found = v != pol
                            continue
                    unk = True
                if ip.flow == "throw":
                    if found is True and not unk:
                        ctx.violation(oid, "%s: an element that exists is rejected" % fn.qn, lp.loc, fn.qn)
                        return
                    continue
                if ip.flow is not None:
                    ctx.expect(oid, False if not unk else None, "%s: stops before every digit is looked up" % fn.qn, lp.loc, fn.qn)
                    return
                if found is False:
                    ctx.violation(oid, "%s: a missing element is not rejected" % fn.qn, lp.loc, fn.qn)
                    return
                if p.kind != "return":
                    continue
                v = p.value
                if isinstance(v, L) or v[0] != "phi" or v[1] != lp.id:
                    ctx.undecide(oid, "result not recognised")
                    return
                if lp.init[v[2]] != I(0):
                    ctx.expect(oid, False if is_int(lp.init[v[2]]) else None, "%s: does not count from zero" % fn.qn, lp.loc, fn.qn)
                    return
                w = ip.S.store.get(v[2])
                d = sub(w, v)
                ok = digit_term(d, it, G)
                if ok is False and v in walk(w) and any(x[0] == "mul" and v in walk(x) for x in walk(w)):
                    ok = None           # the digits so far are weighed along: another scheme
                if found is None:
                    # the search result must have been compared with the end
                    if ok and not unk and any(x[0] == "dist" for x in walk(d)):
                        ctx.violation(oid, "%s: a missing element is not rejected" % fn.qn, lp.loc, fn.qn)
                        return
                    ctx.undecide(oid, "search not recognised")
                    return
                if ok is not True:
                    ctx.expect(oid, ok, "%s: a digit contributes %s" % (fn.qn, show(d)[:160]), lp.loc, fn.qn)
                    return
        ctx.ok(oid)


def digit_term(d, it, G):
    """groups[it] * (position of combination[it] in options[it])"""
    if d[0] == "dist":
        parts = [d]
    elif d[0] == "mul":
        parts = list(d[1:])
    elif d[0] == "lin" or d[0] == "int":
        return False if all(x[0] in ("lin", "int", "mul", "dist", "init", "itr", "stdfind", "idx", "fld", "param", "this",
                                     "iter", "deref", "phi", "var", "size", "elem") for x in walk(d)) else None
    else:
        return None
    ds = [x for x in parts if x[0] == "dist"]
    gs = [x for x in parts if x[0] != "dist"]
    if len(ds) != 1:
        return None
    a, b = ds[0][1], ds[0][2]
    if not (a[0] == "itr" and isinstance(a[2], tuple) and a[2][0] == "stdfind" and b[0] == "itr"):
        return None
    good = b[2] == "begin" and a[3] == b[3] and a[1] == b[1]
    cont, val = a[2][1], a[2][2]
    o = [x for x in walk(a[1]) if x[0] == "init" and G.option_at(x, it)]
    if not o:
        other = [x for x in walk(a[1]) if x[0] == "idx" and x[1][0] == "fld" and x[1][2] == G.opt[2]]
        return False if other else None
    if not any(x == ("idx", ("param", 0), it) for x in walk(val)):
        return False if any(x[0] == "idx" and x[1] == ("param", 0) for x in walk(val)) else None
    if len(gs) != 1 or not G.is_group(gs[0], it):
        return False if all(x[0] in ("init", "idx", "fld", "this", "iter", "lin", "int", "size", "deref") for g in gs for x in walk(g)) else None
    return True if good else None
