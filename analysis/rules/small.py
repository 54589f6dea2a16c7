"""The set templates interpreted over small sets of opaque members (shared by C01, C02 and C04).

Path summaries of the sorted vector and of the hash set are evaluated for members that are known
only by their order and hash: every operation on every sorted vector of up to four members, on
hash sets of up to six members in one to fifteen buckets, and on every position of an iterator.
"""
from rules.summ import *
from rules.sets import HS, UV, THIS, CMP, PROP, HashSetModel, sig

ST, PS = "symbolic::State", "symbolic::PartialState"


class Elem(Rec):
    """A member: its place in the order and its hash."""

    def __init__(self, rank, h=0):
        Rec.__init__(self, "member %d" % rank + (" of hash %d" % h if h is not None else ""))
        self.rank, self.h = rank, h


class Small(World):
    def __init__(self, ctx, prog):
        World.__init__(self, ctx)
        self.program = prog

    def prog(self, unit):
        return self.program

    def equal(self, a, b):
        if isinstance(a, Elem) and isinstance(b, Elem):
            return a.rank == b.rank
        return None

    def less(self, run, a, b):
        if isinstance(a, Elem) and isinstance(b, Elem):
            return a.rank < b.rank
        if isinstance(a, Items) and isinstance(b, Items):
            for x, y in zip(a.v, b.v):
                if self.less(run, x, y):
                    return True
                if self.less(run, y, x):
                    return False
            return len(a.v) < len(b.v)
        raise Unknown("an order")

    def hook(self, params, this, made, method):
        h = World.hook(self, params, this, made, method)

        def g(run, t):
            k = t[0]
            if k in ("call", "ret") and (t[1].startswith("std::hash<symbolic::") or t[1].endswith("::hash")):
                v = run.eval(t[-1])
                if isinstance(v, Elem):
                    return Num(v.h)
            if k == "call" and t[1].startswith("symbolic::operator") and len(t) == 4:
                a, b = run.eval(t[2]), run.eval(t[3])
                if isinstance(a, Elem) and isinstance(b, Elem):
                    return {"==": a.rank == b.rank, "!=": a.rank != b.rank, "<": a.rank < b.rank, ">": a.rank > b.rank,
                            "<=": a.rank <= b.rank, ">=": a.rank >= b.rank}[t[1][len("symbolic::operator"):]]
            if k == "new" and t[1].startswith("symbolic::Proposition") and len(t) == 3:
                v = run.eval(t[2])
                if isinstance(v, Elem):
                    return v
            return h(run, t)
        return g


def members(v):
    if not isinstance(v, Items) or any(not isinstance(x, Elem) for x in v.v):
        raise Unknown("members %r" % (v,))
    return [x.rank for x in v.v]


def vectors(ctx, prog):
    """Every operation of the sorted vector."""
    W = Small(ctx, prog)
    lists = [c for n in range(5 if ctx.tier == "thorough" else 4) for c in itertools.combinations((1, 3, 5, 7)[:max(n, 3)], n)]
    for name in ("contains", "insert", "erase", "emplace"):
        for fn in prog.find(UV + "::" + name, required=False):
            if len(fn.f["p"]) != 1:
                continue
            W._progs[id(fn)] = prog
            for c in lists:
                for x in sorted({0, 8} | {y + d for y in c for d in (0, 1)} | {c[0] - 1 if c else 2}):
                    here = x in c
                    after = sorted(set(c) | {x}) if name in ("insert", "emplace") else [y for y in c if y != x] if name == "erase" \
                        else list(c)
                    want = here if name in ("contains", "erase") else not here

                    def chk(o, want=want, after=after):
                        if o.kind == "throw":
                            return "throws"
                        if not isinstance(o.value, bool):
                            return None
                        if o.value != want:
                            return "reports %s" % str(o.value).lower()
                        got = members(o.run.eval(final(o.path, THIS)))
                        return True if got == after else "leaves the members %s" % got
                    W.eval("small.vector.%s(%s).%s.%d" % (name, sig(fn), "-".join(map(str, c)), x), fn, CMP + PROP,
                           {0: Elem(x)}, Items([Elem(y) for y in c]), chk,
                           "%s of %d on a sorted vector of %s" % (name, x, list(c)), order=W.less)
    for fn in prog.find(UV + "::UniqueVector"):
        pt = [t.s for t in fn.decl.ptypes]
        if not pt or "initializer_list" not in pt[0]:
            continue
        W._progs[id(fn)] = prog
        for c in ((), (1,), (1, 1), (2, 1), (1, 2), (2, 1, 2), (3, 1, 2), (1, 2, 3), (2, 2, 1, 1, 3), (3, 3, 3)):
            def chk(o, c=c):
                if o.kind == "throw":
                    return "throws"
                got = members(o.run.eval(final(o.path, THIS)))
                return True if got == sorted(set(c)) else "yields %s" % got
            W.eval("small.vector.list.%s" % "-".join(map(str, c)), fn, CMP + PROP, {0: Items([Elem(y) for y in c])}, Items(), chk,
                   "a sorted vector of the list %s" % list(c), order=W.less)


# ---- the hash set ------------------------------------------------------

def uv_hook(run, t):
    """The sorted vector's operations on lists of members (decided by `vectors`)."""
    if t[0] not in ("call", "ret", "mut") or not t[1].split("#")[0].startswith(UV + "::"):
        return NotImplemented
    nm = last(t[1].split("#")[0])
    if nm not in ("contains", "insert", "erase") or len(t) != 4:
        return NotImplemented
    v = run.eval(t[2]) if t[2][0] not in ("idx", "fld", "var", "param", "deref", "this") else run.place(t[2])
    x = run.eval(t[3])
    if not isinstance(v, Items) or not isinstance(x, Elem):
        raise Unknown("a bucket")
    here = any(y.rank == x.rank for y in v.v)
    if t[0] != "mut":
        return not here if nm == "insert" else here
    if nm == "contains" or here == (nm == "insert"):
        return v
    if nm == "insert":
        return Items(sorted(v.v + (x,), key=lambda y: y.rank))
    return Items([y for y in v.v if y.rank != x.rank])


def layout(xs, nb):
    """The buckets of a set."""
    return Items([Items([x for x in sorted(xs, key=lambda y: y.rank) if x.h % nb == i]) for i in range(nb)])


class Sets(Small):
    def __init__(self, ctx, prog, M):
        Small.__init__(self, ctx, prog)
        self.M = M
        self.sf = M.size_lv[2] if M.sizes else None

    def rep(self, xs, nb):
        f = {self.M.bf: layout(xs, nb)}
        if self.sf:
            f[self.sf] = Num(len(xs))
        return Rec("a set of %s in %d buckets" % ([x.rank for x in xs], nb), **f)

    def hook(self, params, this, made, method):
        h = Small.hook(self, params, this, made, method)

        def g(run, t):
            if t[0] == "new" and t[1].startswith("std::vector"):
                a = [x for x in t[2:] if not (x[0] == "new" and "allocator" in x[1])]
                if len(a) == 1 or len(a) == 2 and a[1][0] in ("new", "list", "emptyc"):
                    n = run.lazy(a[0])
                    if isinstance(n, Num):
                        return Items([Items()] * n.int())
            r = uv_hook(run, t)
            return h(run, t) if r is NotImplemented else r
        return g

    def check(self, o):
        """The buckets of the set after the code: a list of members, or what is wrong."""
        b = o.run.eval(final(o.path, self.M.B))
        if not isinstance(b, Items) or any(not isinstance(x, Items) for x in b.v):
            raise Unknown("the buckets %r" % (b,))
        if not b.v:
            return "leaves no buckets"
        for i, x in enumerate(b.v):
            m = members(x)
            if any(y.h % len(b.v) != i for y in x.v):
                return "leaves a member in another bucket than its own"
            if m != sorted(set(m)):
                return "leaves the bucket %s" % m
        xs = sorted(y.rank for x in b.v for y in x.v)
        if self.sf:
            n = o.run.eval(final(o.path, ("fld", THIS, self.sf)))
            if not isinstance(n, Num):
                raise Unknown("the number of members")
            if n != Num(len(xs)):
                return "counts %r members of %d" % (n, len(xs))
        return xs


HASHES = ((0, 0, 0, 0, 0, 0, 0, 0), (0, 1, 2, 3, 4, 5, 6, 7), (9, 4, 9, 2, 7, 2, 0, 5), (3, 6, 3, 13, 6, 10, 10, 3))


def hash_sets(ctx, prog, M):
    """Every operation of the hash set, on sets with and without shared buckets."""
    W = Sets(ctx, prog, M)
    sizes = (0, 1, 2, 3, 7) if ctx.tier == "thorough" else (0, 1, 2, 3)
    for name in ("contains", "insert", "erase"):
        for fn in prog.find(HS + "::" + name):
            if len(fn.f["p"]) != 1:
                continue
            W._progs[id(fn)] = prog
            for nb in (1, 3, 7):
                for n in sizes:
                    if n > nb:
                        continue
                    for hk, hs in enumerate(HASHES):
                        xs = [Elem(2 * i + 1, hs[i]) for i in range(n)]
                        for x in ([Elem(2 * i, hs[7 - i]) for i in range(n + 1)] if n < 3 else [Elem(4, hs[7])]) + [Elem(y.rank, y.h)
                                                                                                          for y in xs]:
                            here = x.rank in [y.rank for y in xs]
                            after = sorted({y.rank for y in xs} | {x.rank} if name == "insert" else
                                           {y.rank for y in xs} - {x.rank} if name == "erase" else {y.rank for y in xs})
                            want = here if name != "insert" else not here

                            def chk(o, want=want, after=after):
                                if o.kind == "throw":
                                    return "throws"
                                if not isinstance(o.value, bool):
                                    return None
                                if o.value != want:
                                    return "reports %s" % str(o.value).lower()
                                got = W.check(o)
                                return got if isinstance(got, str) else True if got == after else "leaves the members %s" % got
                            W.eval("small.set.%s(%s).%d.%d.%d.%d" % (name, sig(fn), nb, n, hk, x.rank), fn, CMP + PROP + UVM_,
                                   {0: x}, W.rep(xs, nb), chk, "%s of %d on a set of %s in %d buckets (hashes %s)" %
                                   (name, x.rank, [y.rank for y in xs], nb, [y.h for y in xs + [x]]), order=W.less)


UVM_ = [UV + "::insert", UV + "::erase", UV + "::contains"]


LAYOUTS = ((), (0,), (1,), (2,), (0, 0), (0, 1), (1, 0), (0, 2, 0), (2, 0, 1), (0, 0, 3), (1, 0, 0, 2), (1, 1, 1), (0, 0, 0, 1, 0))


def positions(shape):
    return [(i, j) for i, n in enumerate(shape) for j in range(n)]


def iterators(ctx, prog, M, it, fields):
    """Where each step of an iterator leads, over sets with and without empty buckets."""
    W = Sets(ctx, prog, M)
    cls = HS + "::" + it
    fb, fi, fj = (f[2] for f in fields)

    def at(o, v=None):
        """The position an iterator has after the code."""
        if v is None:
            i, j = (o.run.eval(final(o.path, ("fld", THIS, f))) for f in (fi, fj))
        else:
            i, j = o.run.get(v, fi), o.run.get(v, fj)
        if not isinstance(i, Num) or not isinstance(j, Num):
            raise Unknown("a position")
        return i.int(), j.int()

    def expect(oid, fn, params, this, want, what, value=False):
        W._progs[id(fn)] = prog

        def chk(o):
            if o.kind == "throw":
                return "throws"
            got = at(o, o.value if value else None)
            return True if got == want else "designates bucket %d, place %d" % got
        W.eval(oid, fn, CMP + PROP, params, this, chk, what, order=W.less)

    for k, shape in enumerate(LAYOUTS):
        if not shape:
            continue
        b = Items([Items([Elem(10 * i + j) for j in range(n)]) for i, n in enumerate(shape)])
        owner = {M.bf: b}
        if W.sf:
            owner[W.sf] = Num(sum(shape))
        ps = positions(shape) + [(len(shape), 0)]
        name = "buckets of %s members" % list(shape)
        for fn in prog.find(HS + "::begin") + prog.find(HS + "::end"):
            if (it == "iterator") == fn.decl.const:
                continue
            expect("small.%s.%s.%d" % (it, fn.decl.name, k), fn, {}, Rec("set", **owner), ps[0 if fn.decl.name == "begin" else -1],
                   "%s of %s" % (fn.decl.name, name), True)
        for n, (i, j) in enumerate(ps):
            me = lambda: Rec("iterator", **{fb: b, fi: Num(i), fj: Num(j)})
            for fn in prog.find(cls + "::operator++") + prog.find(cls + "::operator--"):
                to = n + (1 if "++" in fn.qn else -1)
                if not 0 <= to < len(ps):
                    continue
                oid = "small.%s.%s(%s).%d.%d" % (it, fn.decl.name, sig(fn), k, n)
                what = "%s at bucket %d, place %d of %s" % (fn.decl.name, i, j, name)
                expect(oid, fn, {0: Num(0)} if fn.f["p"] else {}, me(), ps[to], what)
                if fn.f["p"]:
                    expect(oid + ".value", fn, {0: Num(0)}, me(), (i, j), "the value of " + what, True)
            if n + 1 == len(ps):
                continue
            for fn in prog.find(cls + "::operator*"):
                W._progs[id(fn)] = prog
                W.eval("small.%s.operator*.%d.%d" % (it, k, n), fn, CMP + PROP, {}, me(),
                       lambda o: "throws" if o.kind == "throw" else None if not isinstance(o.value, Elem) else
                       True if o.value.rank == 10 * i + j else "designates another member",
                       "operator* at bucket %d, place %d of %s" % (i, j, name), order=W.less)
    for fn in prog.find(cls + "::operator==") + prog.find(cls + "::operator!="):
        W._progs[id(fn)] = prog
        b = Items([Items([Elem(0), Elem(1)]), Items([Elem(10), Elem(11)])])
        for p in positions((2, 2)):
            for q in positions((2, 2)):
                want = (p == q) == (fn.decl.name == "operator==")
                W.eval("small.%s.%s.%d%d%d%d" % ((it, fn.decl.name) + p + q), fn, CMP + PROP,
                       {0: Rec("iterator", **{fb: b, fi: Num(q[0]), fj: Num(q[1])})},
                       Rec("iterator", **{fb: b, fi: Num(p[0]), fj: Num(p[1])}),
                       lambda o: "throws" if o.kind == "throw" else None if not isinstance(o.value, bool) else
                       True if o.value == want else "yields %s" % str(o.value).lower(),
                       "%s of the positions %s and %s" % (fn.decl.name, p, q), order=W.less)


# ---- states ------------------------------------------------------------

class States(Small):
    """Sets of members, each one value: what the operations of the hash set (decided above) make of them."""

    def __init__(self, ctx, prog, M):
        Small.__init__(self, ctx, prog)
        self.bf, self.sf = M.bf, M.size_lv[2] if M.sizes else None

    def state(self, ranks):
        return self.of([x if isinstance(x, Elem) else Elem(x, x * 7 + 3) for x in ranks])

    def of(self, xs):
        xs = sorted(xs, key=lambda x: x.rank)
        f = {self.bf: Items(xs, "set")}
        if self.sf:
            f[self.sf] = Num(len(xs))
        return Rec("the state %s" % [x.rank for x in xs], **f)

    def members(self, v):
        if isinstance(v, Rec) and self.bf in v.f and isinstance(v.f[self.bf], Items):
            v = v.f[self.bf]
        if not isinstance(v, Items) or any(not isinstance(x, Elem) for x in v.v):
            raise Unknown("members %r" % (v,))
        return list(v.v)

    def less(self, run, a, b):
        if isinstance(a, Rec) and isinstance(b, Rec) and self.bf in a.f and self.bf in b.f:
            a, b = Items(self.members(a)), Items(self.members(b))
        return Small.less(self, run, a, b)

    def equal(self, a, b):
        if isinstance(a, Rec) and isinstance(b, Rec) and self.bf in a.f and self.bf in b.f:
            return [x.rank for x in self.members(a)] == [x.rank for x in self.members(b)]
        return Small.equal(self, a, b)

    def hook(self, params, this, made, method):
        h = Small.hook(self, params, this, made, method)

        def g(run, t):
            r = self.op(run, t)
            return h(run, t) if r is NotImplemented else r
        return g

    def lower(self, run, t):
        """A set, an iterator or a proposition an operation is applied to."""
        return run.place(t) if t[0] in ("idx", "fld", "var", "tmp", "param", "deref", "this", "base") else run.eval(t)

    def op(self, run, t):
        if t[0] == "new" and t[1].split("::")[-1].startswith(("HashSet", "State")) and "iterator" not in t[1]:
            a = [run.eval(x) for x in t[2:]]
            if not a:
                return self.state([])
            if len(a) == 1 and isinstance(a[0], Items):
                return self.of({x.rank: x for x in a[0].v}.values())
            if len(a) == 1 and isinstance(a[0], Rec) and self.bf in a[0].f:
                return a[0]
        if t[0] == "range":
            v = run.eval(t[1])
            if isinstance(v, Rec) and self.bf in v.f:
                return Items(self.members(v))
        if t[0] == "more":
            v = run.eval(t[2])
            if isinstance(v, Rec) and self.bf in v.f:
                return run.loop(t[1])["k"] < len(self.members(v))
        if t[0] in ("elem", "idx") and len(t) == 3 and t[0] == "elem":
            v = run.eval(t[1])
            if isinstance(v, Rec) and self.bf in v.f:
                return run.index(Items(self.members(v)), t[2])
        if t[0] == "init" and t[1][0] == "idx" and t[1][1][0] in ("fld", "base", "this", "param", "var", "tmp"):
            v = run.place(t[1][1])
            if isinstance(v, Rec) and self.bf in v.f:
                return run.index(Items(self.members(v)), t[1][2])
        if t[0] in ("tuple", "pair"):
            return Items([run.eval(x) for x in t[1:]])
        if t[0] == "size":
            v = run.eval(t[1])
            if isinstance(v, Rec) and self.bf in v.f:
                return Num(len(self.members(v)))
        if t[0] == "deref" and t[1][0] == "refto":
            return run.target(run.eval(t[1]))
        if t[0] == "init" and t[1][0] == "deref" and t[1][1][0] == "refto":
            return run.eval(t[1][1])
        if t[0] not in ("call", "ret", "mut", "refto"):
            return NotImplemented
        qn = t[1].split("#")[0]
        nm = last(qn)
        if qn.startswith("symbolic::operator") and len(t) == 4:
            a, b = run.eval(t[2]), run.eval(t[3])
            if all(isinstance(x, Rec) and self.bf in x.f for x in (a, b)) or isinstance(a, Elem) and isinstance(b, Elem):
                o = qn[len("symbolic::operator"):]
                return self.equal(a, b) == (o == "==") if o in ("==", "!=") else \
                    self.less(run, a, b) if o == "<" else self.less(run, b, a) if o == ">" else \
                    not self.less(run, b, a) if o == "<=" else not self.less(run, a, b)
        if "iterator::" in qn and qn.startswith(HS):
            it = self.lower(run, t[2])
            if not isinstance(it, It):
                raise Unknown("an iterator")
            if nm in ("operator==", "operator!="):
                o = self.lower(run, t[3])
                if not isinstance(o, It) or o.v is not it.v:
                    raise Unknown("an iterator")
                return (o.pos == it.pos) == (nm == "operator==")
            if nm in ("operator++", "operator--"):
                d = 1 if nm == "operator++" else -1
                if not 0 <= it.pos + d <= len(it.v.v):
                    raise Raises("an iterator moved to place %d of %d" % (it.pos + d, len(it.v.v)), True)
                return it if t[0] == "ret" and len(t) > 3 else It(it.v, it.pos + d)
            if nm in ("operator*", "operator->"):
                return run.target(it)
            return NotImplemented
        if not (qn.startswith(HS + "::") or qn.startswith(ST + "::")) or nm not in (
                "contains", "insert", "erase", "emplace", "begin", "end", "size", "empty"):
            return NotImplemented
        v = self.lower(run, t[2])
        xs = self.members(v)
        if nm in ("begin", "end"):
            return It(Items(xs), 0 if nm == "begin" else len(xs))
        if nm == "size":
            return Num(len(xs))
        if nm == "empty":
            return not xs
        if len(t) != 4:
            if nm == "insert" and len(t) == 5:
                a, b = (self.lower(run, x) for x in t[3:])
                if isinstance(a, It) and isinstance(b, It) and a.v is b.v:
                    new = {x.rank: x for x in xs}
                    for y in a.v.v[a.pos:b.pos]:
                        new.setdefault(y.rank, y)
                    return len(new) != len(xs) if t[0] != "mut" else self.of(new.values())
            raise Unknown("an operation on a set")
        x = self.lower(run, t[3])
        if not isinstance(x, Elem):
            raise Unknown("a proposition %r" % (x,))
        here = x.rank in [y.rank for y in xs]
        if t[0] != "mut":
            return not here if nm in ("insert", "emplace") else here
        if nm == "contains" or here == (nm in ("insert", "emplace")):
            return v
        return self.of(xs + [x] if nm in ("insert", "emplace") else [y for y in xs if y.rank != x.rank])


def states(ctx, prog, M):
    """Operations of the state that the hash set does not have: ranges, emplace and lists."""
    W = States(ctx, prog, M)
    prims = [HS + "::*"] + CMP + PROP

    def after(o):
        v = o.run.eval(final(o.path, ("fld", THIS, W.bf)))
        return [x.rank for x in W.members(v)]
    for fn in prog.find(ST + "::insert", lambda f: len(f.f["p"]) == 2):
        W._progs[id(fn)] = prog
        for have in ((), (1,), (1, 3), (2, 4)):
            for new in ((), (1,), (3,), (1, 3), (3, 1), (2, 2), (1, 5), (5, 1), (5, 3, 1), (1, 3, 1), (4, 2, 6)):
                for skip in (0, 1) if len(new) > 1 else (0,):
                    xs = Items([Elem(x) for x in new])
                    want = sorted(set(have) | set(new[skip:]))

                    def chk(o, want=want, have=have):
                        if o.kind == "throw":
                            return "throws"
                        if not isinstance(o.value, bool):
                            return None
                        if o.value != (want != sorted(have)):
                            return "reports %s" % str(o.value).lower()
                        got = after(o)
                        return True if got == want else "leaves the members %s" % got
                    W.eval("small.state.insert-range.%s.%s.%d" % ("".join(map(str, have)), "".join(map(str, new)), skip), fn, prims,
                           {0: It(xs, skip), 1: It(xs, len(new))}, W.state(have), chk,
                           "inserting the range %s into the state %s" % (list(new[skip:]), list(have)), order=W.less)


PSP = [ST + "::contains", ST + "::insert", ST + "::erase", ST + "::emplace", ST + "::State", ST + "::empty", ST + "::size",
       ST + "::Stringify", "symbolic::Proposition::Proposition",
       "symbolic::PartialState::UnknownEvaluation::UnknownEvaluation"] + CMP


def partial_states(ctx, prog, M, pos, neg):
    """Every operation of the partial state on small states, some of them empty."""
    W = States(ctx, prog, M)
    pf, nf = pos[2], neg[2]
    rep = lambda p, n: Rec("true %s, false %s" % (list(p), list(n)), **{pf: W.state(p), nf: W.state(n)})
    pairs = [(p, n) for p in ((), (1,), (1, 3), (1, 3, 5)) for n in ((), (2,), (2, 4))]

    def side(o, f):
        return [x.rank for x in W.members(o.run.eval(final(o.path, ("fld", THIS, f))))]
    for name in ("contains", "does_not_contain", "insert", "erase", "emplace"):
        for k, fn in enumerate(prog.find(PS + "::" + name, required=False)):
            W._progs[id(fn)] = prog
            if name != "emplace" and len(fn.f["p"]) != 1:
                continue
            for p, n in pairs:
                for x in sorted({0, 7} | set(p) | set(n)):
                    yes, no = x in p, x in n

                    def chk(o, p=p, n=n, x=x, yes=yes, no=no):
                        if name in ("contains", "does_not_contain"):
                            if o.kind == "throw":
                                return True if not yes and not no else "throws"
                            if not yes and not no:
                                return "answers"
                            if not isinstance(o.value, bool):
                                return None
                            return True if o.value == (yes if name == "contains" else no) else "answers %s" % str(o.value).lower()
                        if o.kind == "throw":
                            return "throws"
                        into, out = (p, n) if name != "erase" else (n, p)
                        a, b = sorted(set(into) | {x}), sorted(set(out) - {x})
                        if name == "erase":
                            a, b = b, a
                        if side(o, pf) != a or side(o, nf) != b:
                            return "leaves %s true and %s false" % (side(o, pf), side(o, nf))
                        r = o.value
                        r = Num(int(r)) if isinstance(r, bool) else r
                        if not isinstance(r, Num):
                            return None
                        want = 2 if x in out else 0 if x in into else 1
                        return True if r == Num(want) else "reports %r" % r
                    params = {0: Elem(x)} if name != "emplace" else {}
                    made = None
                    if name == "emplace":
                        made = lambda run, t, x=x: Elem(x) if t[1].startswith("symbolic::Proposition") and len(t) > 3 else NotImplemented
                    W.eval("small.partial.%s.%d.%s.%s.%d" % (name, k, "".join(map(str, p)), "".join(map(str, n)), x), fn, PSP,
                           params, rep(p, n), chk, "%s of %d when %s are true and %s are false" % (name, x, list(p), list(n)),
                           made=made, order=W.less)
    for name in ("empty", "size", "IsConsistent"):
        for fn in prog.find(PS + "::" + name, required=False):
            W._progs[id(fn)] = prog
            for p, n in pairs + ([((1,), (1,)), ((1, 3), (2, 3)), ((3, 5), (3,)), ((2, 5), (2, 4, 5))] if name == "IsConsistent" else []):
                want = len(p) + len(n) if name == "size" else not p and not n if name == "empty" else not set(p) & set(n)

                def chk(o, want=want):
                    if o.kind == "throw":
                        return "throws"
                    v = o.value.int() if isinstance(o.value, Num) else o.value
                    return None if not isinstance(v, (bool, int)) else True if v == want else "yields %s" % v
                W.eval("small.partial.%s.%s.%s" % (name, "".join(map(str, p)), "".join(map(str, n))), fn, PSP, {}, rep(p, n), chk,
                       "%s when %s are true and %s are false" % (name, list(p), list(n)), order=W.less)


def comparisons(ctx, prog, M, fields):
    """== != < of states and partial states whose members are compared one by one."""
    W = States(ctx, prog, M)
    sets = [(), (1,), (3,), (1, 3), (1, 5), (3, 5), (1, 3, 5)]
    if fields is None:
        values = sets
        rep = W.state
        cls = ST
        less = lambda a, b: a < b
    else:
        pf, nf = fields[0][2], fields[1][2]
        values = [(p, n) for p in ((), (1,), (3,), (1, 3)) for n in ((), (1,), (2,), (2, 4))]
        rep = lambda v: Rec("true %s, false %s" % (list(v[0]), list(v[1])), **{pf: W.state(v[0]), nf: W.state(v[1])})
        cls = PS
    for op in ("==", "!=", "<"):
        for fn in prog.find("symbolic::operator" + op, lambda f: len(f.f["p"]) == 2 and f.decl.ptypes[0].cls == cls and
                            f.decl.ptypes[1].cls == cls):
            W._progs[id(fn)] = prog
            seen = {}

            def chk(o, a, b):
                if o.kind == "throw":
                    return "throws"
                if not isinstance(o.value, bool):
                    return None
                seen[a, b] = o.value
                if op != "<":
                    return True if o.value == ((a == b) == (op == "==")) else "yields %s" % str(o.value).lower()
                if a == b:
                    return True if not o.value else "yields true"
                if (b, a) in seen and seen[b, a] == o.value:
                    return "yields %s both ways" % str(o.value).lower()
                return True
            prims = [HS + "::*", "symbolic::operator*"]
            for a in values:
                for b in values:
                    W.eval("small.%s%s.%s.%s" % (last(cls), op, a, b), fn, prims if fields is None else [
                        x for x in prims if True], {0: rep(a), 1: rep(b)}, None, lambda o: chk(o, a, b),
                        "operator%s of %s and %s" % (op, list(a), list(b)), order=W.less)
            if op == "<":
                bad = next(((a, b, c) for a in values for b in values for c in values if seen.get((a, b)) and seen.get((b, c)) and
                            seen.get((a, c)) is False), None)
                ctx.expect("small.%s<.transitive" % last(cls), bad is None, "%s: not transitive: %s" % (fn.qn, bad), fn.loc, fn.qn)


# ---- comparisons of hash sets ---------------------------------------------

class Buckets(States):
    """Hash sets by their buckets, iterated over from the first bucket to the last."""
    NB = 5

    def of(self, xs):
        f = {self.bf: layout(xs, self.NB)}
        if self.sf:
            f[self.sf] = Num(len(xs))
        return Rec("the set %s" % [x.rank for x in xs], **f)

    def members(self, v):
        if isinstance(v, Rec) and self.bf in v.f and isinstance(v.f[self.bf], Items):
            v = v.f[self.bf]
        if isinstance(v, Items) and all(isinstance(b, Items) and all(isinstance(x, Elem) for x in b.v) for b in v.v):
            return [x for b in v.v for x in b.v]
        raise Unknown("members %r" % (v,))

    def op(self, run, t):
        if t[0] == "call" and last(t[1]) == "bucket_count" and len(t) == 3:
            v = self.lower(run, t[2])
            if isinstance(v, Rec) and self.bf in v.f:
                return Num(len(v.f[self.bf].v))
        r = uv_hook(run, t)
        return States.op(self, run, t) if r is NotImplemented else r


def set_comparisons(ctx, prog, M, ops=("==", "!=", "<")):
    """Comparisons of hash sets, with members that share buckets and members that do not."""
    W = Buckets(ctx, prog, M)
    sets = [(), (1,), (3,), (8,), (1, 3), (1, 8), (3, 8), (1, 3, 8), (2, 3, 8), (1, 2, 3, 8)]
    hashes = {1: 4, 2: 0, 3: 4, 8: 2}
    rep = lambda v: W.of([Elem(x, hashes[x]) for x in v])
    prims = [HS + "::contains", HS + "::begin", HS + "::end", HS + "::size", HS + "::empty", HS + "::bucket_count", HS + "::const_iterator*",
             HS + "::iterator*", UV + "::contains"] + CMP
    for op in ops:
        for fn in prog.find("symbolic::operator" + op, lambda f: len(f.f["p"]) == 2 and all(
                (t.cls or t.s).startswith("symbolic::HashSet") and "iterator" not in (t.cls or t.s) for t in f.decl.ptypes)):
            W._progs[id(fn)] = prog
            seen = {}

            def chk(o, a, b):
                if o.kind == "throw":
                    return "throws"
                if not isinstance(o.value, bool):
                    return None
                seen[a, b] = o.value
                if op != "<":
                    return True if o.value == ((a == b) == (op == "==")) else "yields %s" % str(o.value).lower()
                if a == b:
                    return True if not o.value else "yields true"
                if (b, a) in seen and seen[b, a] == o.value:
                    return "yields %s both ways" % str(o.value).lower()
                return True
            for a in sets:
                for b in sets:
                    x = rep(a)
                    W.eval("small.HashSet%s.%s.%s" % (op, "-".join(map(str, a)), "-".join(map(str, b))), fn, prims,
                           {0: x, 1: rep(b)}, None, lambda o: chk(o, a, b), "operator%s of the sets %s and %s" % (op, list(a), list(b)),
                           order=W.less)
            if op == "<" and seen:
                bad = next(((a, b, c) for a in sets for b in sets for c in sets if seen.get((a, b)) and seen.get((b, c)) and
                            seen.get((a, c)) is False), None)
                ctx.expect("small.HashSet<.transitive", bad is None, "%s: not transitive: %s" % (fn.qn, bad), fn.loc, fn.qn)
