"""The state index interpreted over small lists of predicates (C14)."""
from rules.summ import *
from rules.summ import Text as Text_
from common import match

SI = "symbolic::StateIndex"
SHAPES = ((1,), (2,), (3, 1), (0, 2), (2, 0, 3), (1, 1, 1), (0, 0, 2), (2, 0), (4, 2, 3))
PRIMS = ["symbolic::State::*", "symbolic::Proposition::Proposition", "symbolic::CombinationGenerator*",
         "symbolic::ParameterGenerator*", "symbolic::PropositionBase::*", "symbolic::Proposition::*", "symbolic::operator<<",
         "symbolic::operator==", "symbolic::Predicate::*"]


class Pred(Rec):
    def __init__(self, i, n):
        Rec.__init__(self, "predicate %d" % i)
        self.i, self.n = i, n
        self.name = Text_("p%d" % i)
        self.gen = Rec("generator %d" % i)
        self.gen.pred = self


class Args(Rec):
    count = 2           # objects

    def __init__(self, pred, ix):
        Rec.__init__(self, "arguments %d of predicate %d" % (ix, pred.i))
        self.pred, self.ix = pred, ix


class Ground(Rec):
    def __init__(self, pred, ix, given=True):
        Rec.__init__(self, "ground atom %d of predicate %d" % (ix, pred.i))
        self.pred, self.ix = pred, ix
        self.args = Args(pred, ix)
        self.text = Text_("p%d(%s)" % (pred.i, ix))


class Index(World):
    def __init__(self, ctx, prog, M):
        World.__init__(self, ctx)
        self.program, self.M = prog, M

    def prog(self, unit):
        return self.program

    def equal(self, a, b):
        for c in (Args, Ground):
            if isinstance(a, c) and isinstance(b, c):
                return a.pred is b.pred and a.ix == b.ix
        return None

    def own(self, v):
        return v

    def hook(self, params, this, made, method):
        h = World.hook(self, params, this, made, method)

        def g(run, t):
            r = self.op(run, t)
            return h(run, t) if r is NotImplemented else r
        return g

    def val(self, run, t):
        return run.place(t) if t[0] in ("idx", "fld", "var", "tmp", "param", "deref", "this", "base") else run.eval(t)

    def op(self, run, t):
        if t[0] == "init" and t[1][0] == "deref" and t[1][1][0] == "refto":
            return run.eval(t[1][1])
        if t[0] == "dist":
            a, b = (self.place(run, x) for x in t[1:3])
            return Num(a - b)
        if t[0] == "new" and t[1].startswith("Eigen::") and len(t) > 2 and t[2][0] in ("call", "ret") and t[2][1].startswith("Eigen::"):
            nm = last(t[2][1])
            ns = [run.eval(x) for x in t[2][2:]]
            if nm in ("Zero", "Ones", "Constant") and ns and isinstance(ns[0], Num):
                return Items([nm == "Ones" if len(ns) < 2 else ns[1]] * ns[0].int())
            raise Unknown("an array")
        if t[0] == "new" and "Proposition" in t[1] and len(t) == 4:
            n, a = run.eval(t[2]), run.eval(t[3])
            if isinstance(n, Text_) and isinstance(a, Args):
                if n != a.pred.name:
                    raise Raises("the arguments of one predicate are given to another", True)
                return Ground(a.pred, a.ix)
            raise Unknown("a proposition")
        if t[0] == "new" and "Proposition" in t[1] and len(t) == 3:
            v = run.eval(t[2])
            if isinstance(v, Ground):
                return v
        if t[0] in ("call", "ret", "refto"):
            nm = last(t[1])
            if nm in ("name", "parameter_generator", "size", "operator[]", "at", "find", "arguments", "to_string", "operator()", "coeff",
                      "rows", "empty", "GetProposition", "GetPropositionIndex", "hash") and len(t) > 2:
                try:
                    v = self.val(run, t[2])
                except Unknown:
                    return NotImplemented
                if isinstance(v, Pred):
                    if nm in ("name", "parameter_generator"):
                        return v.name if nm == "name" else v.gen
                if isinstance(v, Ground) and nm in ("name", "arguments", "to_string"):
                    return v.pred.name if nm == "name" else v.args if nm == "arguments" else v.text
                if isinstance(v, Rec) and hasattr(v, "pred") and not isinstance(v, (Args, Ground)):
                    if nm == "size":
                        return Num(v.pred.n)
                    if nm == "empty":
                        return v.pred.n == 0
                    if nm in ("operator[]", "at"):
                        i = run.num(t[3]).int()
                        if not 0 <= i < v.pred.n:
                            raise Raises("asks for the arguments %d of %d" % (i, v.pred.n), True)
                        return Args(v.pred, i)
                    if nm == "find":
                        a = run.eval(t[3])
                        if isinstance(a, Args):
                            if a.pred is not v.pred:
                                raise Raises("looks for arguments in another predicate's generator", True)
                            return Num(a.ix)
                if isinstance(v, Args) and nm in ("size", "empty"):
                    return Num(2) if nm == "size" else False
                if isinstance(v, Items) and t[1].startswith("Eigen::"):
                    if nm in ("size", "rows"):
                        return Num(len(v.v))
                    if nm in ("operator()", "operator[]", "coeff"):
                        return run.index(v, t[3])
                if nm == "size" and t[1] == SI + "::size" and v is self.this:
                    return Num(len(self.atoms))
                if nm == "GetPropositionIndex" and v is self.this:
                    g = run.eval(t[3])
                    if isinstance(g, Ground):
                        return Num(next(j for j, x in enumerate(self.atoms) if self.equal(x, g)))
                if nm == "GetProposition" and v is self.this:
                    i = run.num(t[3]).int()
                    if not 0 <= i < len(self.atoms):
                        raise Raises("asks for proposition %d of %d" % (i, len(self.atoms)), True)
                    return self.atoms[i]
        if t[0] == "new" and t[1] == "symbolic::State" and len(t) == 2:
            return Items((), "set")
        if t[0] == "mut" and match(t[1].split("#")[0], "symbolic::State::*") and last(t[1].split("#")[0]) in ("insert", "emplace"):
            v, x = run.eval(t[2]), run.eval(t[3])
            if isinstance(v, Items) and isinstance(x, Ground):
                return run.add(v, x, "insert")
        return NotImplemented

    def place(self, run, t):
        if t[0] != "itr":
            raise Unknown("a position")
        v = run.holder(t[1])
        if not isinstance(v, Items):
            raise Unknown("a position")
        return run.place_in(v, t)


def two(x):
    """The two parts of a map's entry."""
    if isinstance(x, Made) and len(x.args) == 2:
        return x.args
    if not isinstance(x, tuple) or len(x) != 2:
        raise Unknown("an entry")
    return x


def small(ctx, prog, M, GP):
    W = Index(ctx, prog, M)
    c = prog.cls(SI)[0]
    flags = [n for n in c.fields if c.ftype(n).s in ("bool", "const bool")]
    for k, shape in enumerate(SHAPES):
        preds = [Pred(i, n) for i, n in enumerate(shape)]
        offs = [sum(shape[:i]) for i in range(len(shape) + 1)]
        atoms = [Ground(p, i) for p in preds for i in range(p.n)]
        W.atoms = atoms
        what = "predicates of %s ground atoms" % list(shape)
        names = Items([(p.name, Num(p.i)) for p in preds], "map")

        def rep(use=False, known=()):
            f = {M.preds: Items(preds), M.offs: Items([Num(x) for x in offs]), M.names: names}
            for n in flags:
                f[n] = use
            for n in M.caches:
                s = c.ftype(n).s
                if s.endswith("Proposition>") or "symbolic::Proposition" in s.split(",", 1)[1]:
                    f[n] = Items([(Num(i), atoms[i]) for i in known], "map")
                else:
                    f[n] = Items([(atoms[i].text, Num(i)) for i in known], "map")
            return Rec("state index", **f)

        def caches(o):
            """Every entry of a cache is right."""
            for n in M.caches:
                v = o.run.eval(final(o.path, ("fld", THIS, n)))
                if not isinstance(v, Items):
                    raise Unknown("a cache")
                for a, b in map(two, v.v):
                    if isinstance(a, Num) and isinstance(b, Ground):
                        i, g = a.int(), b
                    elif isinstance(b, Num) and isinstance(a, Text_):
                        i = b.int()
                        g = next((x for x in atoms if x.text == a), None)
                        if g is None:
                            raise Unknown("a cache")
                    else:
                        raise Unknown("a cache entry")
                    if not 0 <= i < len(atoms) or not W.equal(atoms[i], g):
                        return "remembers %s as number %d" % (g, i)
            return True

        for fn in prog.find(SI + "::StateIndex"):
            if len(fn.f["p"]) != 2:
                continue
            W._progs[id(fn)] = prog
            W.this = None

            def chk(o):
                if o.kind == "throw":
                    return "throws"
                v = o.run.eval(final(o.path, ("fld", THIS, M.offs)))
                n = o.run.eval(final(o.path, ("fld", THIS, M.names)))
                if not isinstance(v, Items) or any(not isinstance(x, Num) for x in v.v) or not isinstance(n, Items):
                    return None
                got = [x.int() for x in v.v]
                if got != offs:
                    return "the blocks start at %s" % got
                for p in preds:
                    y = [b for a, b in map(two, n.v) if a == p.name]
                    if y != [Num(p.i)]:
                        return "the name of predicate %d leads to %s" % (p.i, y)
                return True
            for use in (True, False):
                W.eval("small.construct.%d.%d" % (k, use), fn, PRIMS, {0: Items(preds), 1: use}, Rec("new"), chk,
                       "an index of " + what)
        variants = [(False, ()), (True, ())]
        for fn in prog.find(SI + "::size"):
            W._progs[id(fn)] = prog
            W.eval("small.size.%d" % k, fn, PRIMS, {}, rep(), lambda o: "throws" if o.kind == "throw" else None if not isinstance(
                o.value, Num) else True if o.value == Num(len(atoms)) else "is %r" % o.value, "the size of an index of " + what)
        for i, g in enumerate(atoms):
            vs = variants + [(True, (i,)), (True, tuple(j for j in range(len(atoms)) if j != i))]
            for n, (use, known) in enumerate(vs):
                for fn in prog.find(SI + "::GetProposition"):
                    W._progs[id(fn)] = prog

                    def chk(o):
                        if o.kind == "throw":
                            return "throws"
                        if o.value is DEFAULT:
                            return "takes an entry the cache does not have"
                        if not isinstance(o.value, Ground):
                            return None
                        if not W.equal(o.value, g):
                            return "is %s" % o.value
                        return caches(o)
                    W.eval("small.decode.%d.%d.%d" % (k, i, n), fn, PRIMS, {0: Num(i)}, rep(use, known), chk,
                           "number %d of an index of %s (%s)" % (i, what, "caching, known: %s" % list(known) if use else "no cache"))
                for fn in prog.find(SI + "::GetPropositionIndex"):
                    W._progs[id(fn)] = prog

                    def chk2(o):
                        if o.kind == "throw":
                            return "throws"
                        if o.value is DEFAULT:
                            return "takes an entry the cache does not have"
                        if not isinstance(o.value, Num):
                            return None
                        if o.value != Num(i):
                            return "is %r" % o.value
                        try:
                            return caches(o)
                        except Unknown:
                            # Keys of its own: what a second query makes of them decides.
                            vs = {n: o.run.eval(final(o.path, ("fld", THIS, n))) for n in M.caches}
                            if not all(isinstance(v, Items) for v in vs.values()):
                                raise
                            later.append(vs)
                            return True
                    later = []
                    W.eval("small.encode.%d.%d.%d" % (k, i, n), fn, PRIMS, {0: Ground(g.pred, g.ix)}, rep(use, known), chk2,
                           "the number of %s in an index of %s (%s)" % (g, what, "caching, known: %s" % list(known) if use else
                                                                        "no cache"))
                    for vs in later:
                        for j, h in enumerate(atoms):
                            me = rep(use)
                            me.f.update(vs)

                            def chk5(o):
                                if o.kind == "throw":
                                    return "throws"
                                return None if not isinstance(o.value, Num) else True if o.value == Num(j) else "is %r" % o.value
                            W.eval("small.encode-again.%d.%d.%d" % (k, i, j), fn, PRIMS, {0: Ground(h.pred, h.ix)}, me, chk5,
                                   "the number of %s after that of %s in an index of %s" % (h, g, what))
        positions(ctx, prog, W, "small.iterator.%d" % k, rep(), atoms, what)
        for fn in prog.find(SI + "::GetIndexedState"):
            W._progs[id(fn)] = prog
            N = len(atoms)
            for m in sorted({0, (1 << N) - 1} | {1 << j for j in range(N)} | {((1 << N) - 1) ^ (1 << j) for j in range(N)}):
                of = [j for j in range(N) if m >> j & 1]
                for n, held in enumerate((of, of[::-1], of[1::2] + of[::2])):
                    me = rep()
                    W.this = me

                    def chk4(o):
                        if o.kind == "throw":
                            return "throws"
                        if not isinstance(o.value, Items) or not all(isinstance(x, (bool, Num)) for x in o.value.v):
                            return None
                        got = [j for j, x in enumerate(o.value.v) if x is True or isinstance(x, Num) and x != Num(0)]
                        return True if got == of and len(o.value.v) == N else "is %s of %d" % (got, len(o.value.v))
                    W.eval("small.indexed.%d.%d.%d" % (k, m, n), fn, PRIMS + [GP, SI + "::size", SI + "::GetPropositionIndex"],
                           {0: Items([atoms[j] for j in held], "set")}, me, chk4,
                           "the bits of the state of %s in an index of %s" % (held, what))
        for fn in prog.find(SI + "::GetState"):
            W._progs[id(fn)] = prog
            N = len(atoms)
            for m in sorted({0, (1 << N) - 1} | {1 << j for j in range(N)} | {((1 << N) - 1) ^ (1 << j) for j in range(N)}):
                bits = [bool(m >> j & 1) for j in range(N)]
                me = rep()
                W.this = me

                def chk3(o):
                    if o.kind == "throw":
                        return "throws"
                    if not isinstance(o.value, Items):
                        return None
                    got = sorted(next(j for j in range(N) if W.equal(atoms[j], x)) for x in o.value.v)
                    return True if got == [j for j in range(N) if bits[j]] else "is %s" % got
                W.eval("small.state.%d.%d" % (k, m), fn, PRIMS + [GP, "symbolic::StateIndex::size"], {0: Items(bits)}, me, chk3,
                       "the state of %s in an index of %s" % ([j for j in range(N) if bits[j]], what))


def positions(ctx, prog, W, tag, me, atoms, what):
    """The iterators over an index: arithmetic, comparisons and what they yield."""
    q = SI + "::iterator"
    c = prog.cls(q)[0]
    f = {n: c.ftype(n).s for n in c.fields}
    own = [n for n in f if f[n].rstrip().endswith("*") and "StateIndex" in f[n]]
    idx = [n for n in f if f[n] in ("int", "long", "unsigned long", "unsigned int")]
    if len(own) != 1 or len(idx) != 1:
        raise AnalysisError("StateIndex::iterator: fields not recognised")
    own, idx = own[0], idx[0]
    N = len(atoms)
    W.this = me
    other = Rec("another index", **me.f)
    prims = PRIMS + [SI + "::GetProposition"]

    def make(i, g=me):
        return Rec("iterator", **dict({n: Rec("cached") for n in f}, **{own: g, idx: Num(i)}))

    def at(where, i):
        def chk(o):
            if o.kind == "throw":
                return "throws"
            w = o.path.value if where is None else where
            get = (lambda n: final(o.path, ("fld", w.p, n))) if isinstance(w, L) else \
                (lambda n: final(o.path, ("fld", THIS, n))) if w == THIS else lambda n: engine.project(w, n)
            a, b = o.run.eval(get(own)), o.run.eval(get(idx))
            if a is not me or not isinstance(b, Num):
                return None if not isinstance(a, Rec) or a is me else "belongs to another index"
            return True if b == Num(i) else "is at %r instead of %d" % (b, i)
        return chk

    def yields(i):
        return lambda o: "throws" if o.kind == "throw" else None if not isinstance(o.value, Ground) else \
            True if W.equal(o.value, atoms[i]) else "is %s" % o.value

    def num(v):
        return lambda o: "throws" if o.kind == "throw" else None if not isinstance(o.value, (bool, Num)) else \
            True if o.value == v else "is %r" % o.value

    def ev(oid, fn, params, this, chk, msg):
        W._progs[id(fn)] = prog
        W.eval("%s.%s" % (tag, oid), fn, prims, params, this, chk, msg)
    for name, i in (("begin", 0), ("end", N)):
        for fn in prog.find(SI + "::" + name):
            ev(name, fn, {}, me, at(None, i), "%s() of an index of %s" % (name, what))
    for i in range(N + 1):
        w = "number %d of an index of %s" % (i, what)
        for op, d in (("operator++", 1), ("operator--", -1)):
            for fn in prog.find(q + "::" + op):
                if not 0 <= i + d <= N:
                    continue
                old = bool(fn.f["p"])
                ev("%s%d.%d" % (op, old, i), fn, {}, make(i), at(THIS, i + d), "%s at %s" % (op, w))
                if old:
                    ev("%s.old.%d" % (op, i), fn, {}, make(i), at(None, i), "%s at %s" % (op, w))
        for j in range(N + 1):
            n = j - i
            for op, s, where in (("operator+=", 1, THIS), ("operator-=", -1, THIS), ("operator+", 1, None), ("operator-", -1, None)):
                for fn in prog.find(q + "::" + op, lambda g: g.f["p"] and "iterator" not in g.decl.ptypes[0].s):
                    ev("%s.%d.%d" % (op, i, j), fn, {0: Num(n * s)}, make(i), at(where, j), "%s(%d) at %s" % (op, n * s, w))
                    if where is None:
                        ev("%s.kept.%d.%d" % (op, i, j), fn, {0: Num(n * s)}, make(i), at(THIS, i), "%s(%d) at %s" % (op, n * s, w))
            for fn in prog.find("symbolic::operator+", lambda g: len(g.decl.ptypes) == 2 and "StateIndex::iterator" in g.decl.ptypes[1].s,
                                required=False):
                ev("n+.%d.%d" % (i, j), fn, {0: Num(n), 1: make(i)}, None, at(None, j), "%d + an iterator at %s" % (n, w))
            for op, v in (("==", i == j), ("!=", i != j), ("<", i < j), (">", i > j), ("<=", i <= j), (">=", i >= j)):
                for fn in prog.find(q + "::operator" + op):
                    ev("%s.%d.%d" % (op, i, j), fn, {0: make(j)}, make(i), num(v), "an iterator at %s %s one at %d" % (w, op, j))
                    if i == j and op in ("==", "!="):
                        ev("%s.%d.other" % (op, i), fn, {0: make(j, other)}, make(i), num(op == "!="),
                           "an iterator at %s %s one of another index" % (w, op))
            for fn in prog.find(q + "::operator-", lambda g: g.f["p"] and "iterator" in g.decl.ptypes[0].s):
                ev("dist.%d.%d" % (i, j), fn, {0: make(j)}, make(i), num(Num(i - j)), "the distance from %d to %s" % (j, w))
            if j < N:
                for fn in prog.find(q + "::operator[]"):
                    ev("[].%d.%d" % (i, j), fn, {0: Num(n)}, make(i), yields(j), "[%d] at %s" % (n, w))
        if i < N:
            for fn in prog.find(q + "::operator*"):
                ev("deref.%d" % i, fn, {}, make(i), yields(i), "the proposition at %s" % w)
