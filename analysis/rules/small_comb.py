"""The combination generator interpreted over small option lists (C12)."""
from rules.summ import *
from rules.summ import THIS

SHAPES = ((), (1,), (3,), (1, 2), (2, 3), (2, 1, 2), "shared", (5,))
EMPTY = ((0,), (0, 2), (2, 0), (2, 0, 1), (1, 2, 0))
PRIMS = ["symbolic::operator<<", "symbolic::operator==", "symbolic::operator!="]


class El(Rec):
    def __init__(self, s):
        Rec.__init__(self, s)
        self.f["shown"] = word(s)


def norm(s):
    s = s.replace("const ", "").replace("&", "").replace("struct ", "").replace("class ", "").strip()
    return s.split("symbolic::", 1)[-1] if s.startswith("symbolic::") else s


def scattered(run, a, b):
    """Elements in an order of their own, unrelated to where they stand; collections by their elements."""
    if isinstance(a, El) and isinstance(b, El):
        return a.what[::-1] > b.what[::-1] if a.what[1] == "1" else a.what > b.what
    if isinstance(a, Items) and isinstance(b, Items):
        for x, y in zip(a.v, b.v):
            if run.order(x, y) or run.order(y, x):
                return run.order(x, y)
        return len(a.v) < len(b.v)
    raise Unknown("an order")


class Comb(World):
    elements = staticmethod(scattered)

    def __init__(self, ctx, prog, G):
        World.__init__(self, ctx)
        self.G, self.program = G, prog
        self.own = None         # the lists of its own a generator points to

    def prog(self, unit):
        return self.program

    def equal(self, a, b):
        if isinstance(a, Items) and isinstance(b, Items) and (a in self.lists or b in self.lists):
            return a == b
        return None

    def fn(self, f):
        self._progs[id(f)] = self.program
        return f

    def hook(self, params, this, made, method):
        h = World.hook(self, params, this, made, method)

        def g(run, t):
            if t[0] in ("call", "ret", "refto") and last(t[1]) in ("at", "operator[]") and len(t) == 4 and t[1].startswith("std::"):
                v = run.eval(t[2])
                if isinstance(v, Items):
                    return run.index(v, t[3])
            if t[0] in ("call", "ret") and t[1] in ("symbolic::operator==", "symbolic::operator!=") and len(t) == 4:
                a, b = (run.eval(x) for x in t[2:])
                if isinstance(a, El) and isinstance(b, El):
                    return (a is b) == t[1].endswith("==")
            if t[0] == "dist":
                a, b = (run.place_in(run.holder(x[1]), x) for x in t[1:3])
                return Num(a - b)
            if t[0] == "addr" and t[1][0] == "idx" and t[1][1] == self.own and run.top is not None:
                return run.index(run.eval(final(run.top, t[1][1])), t[1][2])
            if t[0] == "mul":
                r = Num(1)
                for x in t[1:]:
                    r = r.times(run.num(x).int())
                return r
            return h(run, t)
        return g


def state(o, K, where):
    """(generator, position, combination) of an iterator a path leaves at a place or yields."""
    if isinstance(where, L):
        where = where.p
        get = lambda f: K.of_lv(o.path, where, f)
    elif where == THIS:
        get = lambda f: K.of_lv(o.path, THIS, f)
    else:
        get = lambda f: K.of_value(where, f)
    return o.run.eval(get(K.gen)), o.run.eval(get(K.idx)), o.run.lazy(get(K.comb))


def small(ctx, prog, G, its, revs):
    W = Comb(ctx, prog, G)
    cls = next((prog.cls(k)[0] for k in prog.classes if norm(k).replace("symbolic::", "") == norm(G.qn).replace("symbolic::", "")), None)
    if cls is None:
        raise AnalysisError("anchor class not found: %s" % G.qn)
    ctors = [f for f in prog.find(G.qn + "::CombinationGenerator") if len(f.f["p"]) == 1 and
             "vector" in f.tu.type(f.f["p"][0]["t"]).s and "Generator" not in f.tu.type(f.f["p"][0]["t"]).s]
    W.lists = []
    for shape in EMPTY:
        opts = Items([Items([El("e%d.%d" % (i, j)) for j in range(n)]) for i, n in enumerate(shape)])
        W.lists = list(opts.v)
        for fn in ctors:
            W.eval("%s.small.empty.%s" % (G.tag, "-".join(map(str, shape))), W.fn(fn), PRIMS, {0: opts}, Rec("new"),
                   lambda o: True if o.kind == "throw" else "is accepted", "options of sizes %s" % (shape,))
    for si, shape in enumerate(SHAPES):
        if shape == "shared":
            l = Items([El("e%d" % j) for j in range(2)])
            opts = Items([l, l])
        else:
            opts = Items([Items([El("e%d.%d" % (i, j)) for j in range(n)]) for i, n in enumerate(shape)])
        W.lists = list(opts.v)
        what = "options of sizes %s" % (tuple(len(l.v) for l in opts.v),)
        tag = "%s.small.%d" % (G.tag, si)
        combs = [()]
        for l in opts.v:
            combs = [c + (e,) for c in combs for e in l.v]
        N = len(combs)
        gen = Rec("generator")
        done = []

        def made(o):
            if o.kind == "throw":
                return "are rejected"
            for n in cls.fields:
                v = o.run.lazy(final(o.path, ("fld", THIS, n)))
                gen.f[n] = v
            s = gen.f.get(G.size_lv[2])
            if not isinstance(s, Num):
                return None
            if s != Num(N):
                return "have %r combinations instead of %d" % (s, N)
            done.append(1)
            return True
        for fn in ctors[:1]:
            W.eval(tag + ".construct", W.fn(fn), PRIMS, {0: opts}, Rec("new"), made, what)
        if not done:
            continue
        other = Rec("another generator")
        other.f.update(gen.f)
        num = lambda v: lambda o: "throws" if o.kind == "throw" else (True if o.value == v or isinstance(v, bool) and
                                  isinstance(o.value, Num) and bool(o.value.c) == v else "is %r instead of %r" % (o.value, v)) \
            if isinstance(o.value, (bool, Num)) else None
        for name, v in (("size", Num(N)), ("empty", N == 0)):
            for fn in prog.find(G.qn + "::" + name):
                W.eval(tag + "." + name, W.fn(fn), PRIMS, {}, gen, num(v), "%s() with %s" % (name, what))

        def is_comb(v, i):
            if not isinstance(v, Items):
                return None
            if len(v.v) != len(combs[i]):
                return "has %d elements" % len(v.v)
            for k, (x, y) in enumerate(zip(v.v, combs[i])):
                if isinstance(x, Made) and not x.args:
                    return "leaves slot %d unset" % k
                if not isinstance(x, El):
                    return None
                if x is not y:
                    return "has %s instead of %s in slot %d" % (x, y, k)
            return True

        def at(K, where, i, g=gen):
            def chk(o):
                if o.kind == "throw":
                    return "throws"
                w = o.path.value if where is None else where
                G_, p, c = state(o, K, w)
                if G_ is not g or not isinstance(p, Num):
                    return None if G_ is g or not isinstance(G_, Rec) else "belongs to another generator"
                if p.int() != i:
                    return "is at %d instead of %d" % (p.int(), i)
                return is_comb(c, i) if 0 <= i < N else True
            return chk

        def both(*cs):
            def chk(o):
                for c in cs:
                    r = c(o)
                    if r is not True:
                        return r
                return True
            return chk

        # the positions the generator gives
        for name, i, rev in (("begin", 0, 0), ("end", N, 0), ("cbegin", 0, 0), ("cend", N, 0), ("rbegin", N - 1, 1),
                             ("rend", -1, 1), ("crbegin", N - 1, 1), ("crend", -1, 1)):
            for fn in prog.find(G.qn + "::" + name):
                K = next((k for k in (revs if rev else its) if norm(k.qn).endswith(norm(fn.decl.ret.s)) or
                          norm(fn.decl.ret.s).endswith(norm(k.qn))), None)
                oid = "%s.%s%s" % (tag, name, "c" if fn.decl.const else "")
                if K is None:
                    ctx.undecide(oid, "the type of %s" % name)
                    continue
                W.eval(oid, W.fn(fn), PRIMS, {}, gen, at(K, None, i), "%s() with %s" % (name, what))
        # access by number and the inverse
        for fn in prog.find(G.qn + "::operator[]"):
            for i in range(N):
                W.eval("%s.index.%d" % (tag, i), W.fn(fn), PRIMS, {0: Num(i)}, gen,
                       lambda o: "throws" if o.kind == "throw" else is_comb(o.value, i), "combination [%d] of %s" % (i, what))
        for fn in prog.find(G.qn + "::at"):
            for i in range(-N - 2, N + 2):
                j = i + N if i < 0 else i
                if 0 <= j < N:
                    c = lambda o: "throws" if o.kind == "throw" else is_comb(o.value, j)
                else:
                    c = lambda o: True if o.kind == "throw" else "is accepted"
                W.eval("%s.at.%d" % (tag, i), W.fn(fn), PRIMS, {0: Num(i)}, gen, c, "at(%d) with %s" % (i, what))
        for fn in prog.find(G.qn + "::find"):
            for i, c in enumerate(combs):
                W.eval("%s.find.%d" % (tag, i), W.fn(fn), PRIMS, {0: Items(c)}, gen, num(Num(i)),
                       "the number of %s with %s" % (list(c), what))
            for k in range(len(opts.v)):
                for i in {0, N - 1}:
                    c = combs[i][:k] + (El("missing"),) + combs[i][k + 1:]
                    W.eval("%s.find.%d.missing.%d" % (tag, i, k), W.fn(fn), PRIMS, {0: Items(c)}, gen,
                           lambda o: True if o.kind == "throw" else "is not rejected", "an element that no option has, in slot %d" % k)
        # the iterators
        stale = {()} | {combs[0], combs[-1]}
        for n_it, K in enumerate(list(its) + list(revs)):
            kt = "%s.%s%d" % (tag, "iterator" if K.sgn > 0 else "reverse", n_it if K.sgn > 0 else n_it - len(its))

            def make(i, c, g=gen):
                r = Rec("iterator", **{K.gen: g, K.idx: Num(i), K.comb: Items(c)})
                for f in reversed(K.path):
                    r = Rec("iterator", **{f: r})
                return r

            def states(i):
                return [make(i, combs[i])] if 0 <= i < N else [make(i, c) for c in sorted(stale, key=len)]
            nm = "ReverseIterator" if K.sgn < 0 else "Iterator"
            for fn in prog.find(K.qn + "::" + nm):
                ts = [t.s for t in fn.decl.ptypes]
                if K.sgn > 0 and len(ts) == 2:
                    for i in range(-1, N + 1):
                        W.eval("%s.new.%d" % (kt, i), W.fn(fn), PRIMS, {0: gen, 1: Num(i)}, Rec("new"), at(K, THIS, i),
                               "a new iterator at %d with %s" % (i, what))
                if K.sgn < 0 and len(ts) == 1 and "ReverseIterator<" not in norm(ts[0]).split("Iterator<")[0] + "Iterator<":
                    inner = K.path
                    for i in range(0, N + 1):
                        for s in states(i):
                            for f in inner:
                                s = s.f[f]
                            W.eval("%s.new.%d" % (kt, i), W.fn(fn), PRIMS, {0: s}, Rec("new"), at(K, THIS, i - 1),
                                   "the reverse of an iterator at %d with %s" % (i, what))
            P = range(-1, N + 1)
            for op, sg in (("operator+=", 1), ("operator-=", -1)):
                for fn in prog.find(K.qn + "::" + op):
                    for i in P:
                        for j in P if sg == 1 else (-1, 0, N - 1, N):
                            n = (j - i) * sg * K.sgn
                            for q, s in enumerate(states(i)):
                                W.eval("%s.%s.%d.%d.%d" % (kt, op, i, j, q), W.fn(fn), PRIMS, {0: Num(n)}, s, at(K, THIS, j),
                                       "%s(%d) at %d with %s" % (op, n, i, what))
            for op, d in (("operator++", 1), ("operator--", -1)):
                for fn in prog.find(K.qn + "::" + op):
                    for i in P:
                        j = i + d * K.sgn
                        if not -1 <= j <= N:
                            continue
                        for q, s in enumerate(states(i)):
                            c = at(K, THIS, j)
                            if fn.f["p"]:
                                c = both(c, at(K, None, i)) if 0 <= i < N else c
                            W.eval("%s.%s%d.%d.%d" % (kt, op, len(fn.f["p"]), i, q), W.fn(fn), PRIMS, {}, s, c,
                                   "%s at %d with %s" % (op, i, what))
            some = (0, N - 1, N, -1)
            for op, sg in (("operator+", 1), ("operator-", -1)):
                for fn in prog.find(K.qn + "::" + op, lambda f: f.f["p"] and "Iterator" not in f.decl.ptypes[0].s):
                    for i in P:
                        for j in some:
                            n = (j - i) * sg * K.sgn
                            s = states(i)[-1]
                            W.eval("%s.%s.%d.%d" % (kt, op, i, j), W.fn(fn), PRIMS, {0: Num(n)}, s,
                                   both(at(K, None, j), at(K, THIS, i)), "%s(%d) at %d with %s" % (op, n, i, what))
            for fn in prog.find("symbolic::operator+", lambda f: len(f.decl.ptypes) == 2 and
                                norm(f.decl.ptypes[1].s) == norm(K.qn), required=False):
                for i in P:
                    for j in some:
                        W.eval("%s.n+.%d.%d" % (kt, i, j), W.fn(fn), PRIMS, {0: Num((j - i) * K.sgn), 1: states(i)[-1]}, None,
                               at(K, None, j), "%d + an iterator at %d with %s" % ((j - i) * K.sgn, i, what))
            for fn in prog.find(K.qn + "::operator[]"):
                for i in P:
                    for j in range(N):
                        n = (j - i) * K.sgn
                        W.eval("%s.[].%d.%d" % (kt, i, j), W.fn(fn), PRIMS, {0: Num(n)}, states(i)[-1],
                               lambda o: "throws" if o.kind == "throw" else is_comb(o.value, j), "[%d] at %d with %s" % (n, i, what))
            for fn in prog.find(K.qn + "::operator*"):
                for i in range(N):
                    W.eval("%s.deref.%d" % (kt, i), W.fn(fn), PRIMS, {}, states(i)[0],
                           lambda o: "throws" if o.kind == "throw" else is_comb(o.value, i), "the combination at %d with %s" % (i, what))
            for op, f in (("==", lambda a, b: a == b), ("!=", lambda a, b: a != b), ("<", lambda a, b: a < b),
                          (">", lambda a, b: a > b), ("<=", lambda a, b: a <= b), (">=", lambda a, b: a >= b)):
                for fn in prog.find(K.qn + "::operator" + op):
                    for i in P:
                        for j in P:
                            W.eval("%s.%s.%d.%d" % (kt, op, i, j), W.fn(fn), PRIMS, {0: states(j)[-1]}, states(i)[0],
                                   num(f(K.sgn * i, K.sgn * j)), "an iterator at %d %s one at %d with %s" % (i, op, j, what))
                        if op in ("==", "!="):
                            W.eval("%s.%s.%d.other" % (kt, op, i), W.fn(fn), PRIMS, {0: make(i, combs[i] if 0 <= i < N else (), other)},
                                   states(i)[0], num(op == "!="), "an iterator at %d %s one of another generator" % (i, op))
            for fn in prog.find(K.qn + "::operator-", lambda f: f.f["p"] and "Iterator" in f.decl.ptypes[0].s):
                for i in P:
                    for j in P:
                        W.eval("%s.dist.%d.%d" % (kt, i, j), W.fn(fn), PRIMS, {0: states(j)[-1]}, states(i)[0],
                               num(Num(K.sgn * (i - j))), "the distance from %d to %d with %s" % (j, i, what))


# ---- the objects of parameters (C13) ---------------------------------------

PG = "symbolic::ParameterGenerator"
PPRIMS = PRIMS + ["symbolic::Pddl::*", "symbolic::Object::name", "symbolic::Object::type", "symbolic::Object::Type::*"]
KINDS = {"a": 2, "b": 1, "c": 3}
PARAMS = ((), ("a",), ("b",), ("c",), ("?",), ("a", "b"), ("b", "a"), ("a", "a"), ("c", "a"), ("c", "c"),
          ("?", "a"), ("a", "?"), ("a", "?", "c"), ("b", "c", "a"), ("a", "b", "?"), ("?", "?"))


def parameters(ctx, prog, F):
    """The parameter generator for small lists of parameters."""
    base = F.base
    W = Comb(ctx, prog, None)
    W.own = F.types
    objs = {k: Items([El("%s%d" % (k, i)) for i in range(n)]) for k, n in KINDS.items()}
    W.lists = list(objs.values())
    names = {k: word(k) for k in list(KINDS) + ["?"]}
    omap = Items([(names[k], objs[k]) for k in KINDS], "map")
    pddl = Rec("pddl", object_map=omap)
    other_pddl = Rec("another pddl", object_map=Items((), "map"))
    fields = list(base.fields) + [F.tname, F.pname]
    sizes = prog.find(PG + "::size", required=False) or prog.find(base.qn + "::size", required=False) or \
        [f for q, fs in prog.by_qn.items() if q.startswith("symbolic::CombinationGenerator<const") and q.endswith(">::size") for f in fs]
    index = [f for q, fs in prog.by_qn.items() if q.startswith("symbolic::CombinationGenerator<const") and q.endswith(">::operator[]")
             and "Iterator" not in q for f in fs]

    def expected(ps):
        combs = [()]
        for k in ps:
            combs = [c + (e,) for c in combs for e in objs.get(k, Items()).v]
        return combs

    def result(o, keep, unset=()):
        """The generator the path leaves in *this."""
        g = Rec("generator")
        for f in fields:
            v = final(o.path, ("fld", THIS, f))
            if v == ("init", ("fld", THIS, f)) and f in unset:
                v = unset[f]
                g.f[f] = v
                continue
            g.f[f] = o.run.lazy(v)
        keep.append(g)
        return True

    def observe(oid, g, ps, what):
        """size() and every combination of a generator record."""
        combs = expected(ps)
        for fn in sizes[:1]:
            W.eval(oid + ".size", W.fn(fn), PPRIMS, {}, g, lambda o: "throws" if o.kind == "throw" else None if not isinstance(
                o.value, Num) else True if o.value == Num(len(combs)) else "has %r combinations instead of %d" % (o.value, len(combs)),
                what)
        for fn in index[:1]:
            for i, c in enumerate(combs):
                W.eval("%s.%d" % (oid, i), W.fn(fn), PPRIMS, {0: Num(i)}, g, lambda o: "throws" if o.kind == "throw" else None if
                       not isinstance(o.value, Items) else True if len(o.value.v) == len(c) and
                       all(x is y for x, y in zip(o.value.v, c)) else "yields %s instead of %s as number %d" % (o.value, list(c), i),
                       what)

    dflt = {}
    for f in fields:
        s = (base.ftype(f) if f in base.fields else prog.cls(PG)[0].ftype(f)).s
        dflt[f] = NULLP if s.endswith("*") else Items() if "vector" in s else Num(0)
    made = {}
    for fn in prog.find(PG + "::ParameterGenerator"):
        ts = [fn.tu.type(x["t"]).s for x in fn.f["p"]]
        if len(ts) != 2:
            continue
        di = 0 if "Pddl" in ts[0] else 1
        for ps in PARAMS:
            keep = []
            oid = "small.construct.%s" % ("-".join(ps) or "none")
            what = "parameters of types %s" % (list(ps),)
            params = Items([Rec("parameter %d" % i, type=Rec("type " + k, name=names[k]), name=word("p%d" % i)) for i, k in enumerate(ps)])
            W.eval(oid, W.fn(fn), PPRIMS, {di: pddl, 1 - di: params}, Rec("new"),
                   lambda o: "throws" if o.kind == "throw" else result(o, keep, dflt), what)
            if keep:
                made[ps] = keep[0]
                if keep[0].f[F.pname] is not pddl:
                    ctx.undecide(oid + ".pddl", "%s: the pddl" % what)
                observe(oid, keep[0], ps, what)
    empty = Rec("generator")
    empty.f.update(dflt)
    for fn in prog.find(PG + "::ParameterGenerator") + prog.find(PG + "::operator=", required=False):
        ts = [fn.tu.type(x["t"]).s for x in fn.f["p"]]
        if len(ts) != 1 or "ParameterGenerator" not in ts[0]:
            continue
        assign = "operator=" in fn.qn
        nm = ("assign" if assign else "copy") + ("-moved" if "&&" in ts[0] else "")
        for ps, g in list(made.items()) + [(None, empty)]:
            for old in ([made.get(("c", "a")), empty, made.get(("?", "a")), g] if assign else [None]):
                if assign and (old is None or "&&" in ts[0] and old is g):
                    continue
                keep = []
                oid = "small.%s.%s.%s" % (nm, "default" if ps is None else "-".join(ps) or "none", old is empty)
                what = "a %s of a generator %s" % (nm, "made by default" if ps is None else "for parameters of types %s" % list(ps))
                this = Rec("new")
                if assign:
                    this = old if old is g else Rec("old", **old.f)
                W.eval(oid, W.fn(fn), PPRIMS, {0: g}, this,
                       lambda o: "throws" if o.kind == "throw" else result(o, keep, dflt if not assign else {}), what)
                if keep:
                    if keep[0].f[F.pname] is not g.f[F.pname]:
                        ctx.undecide(oid + ".pddl", "%s: the pddl" % what)
                    observe(oid, keep[0], ("?",) if ps is None else ps, what)
