"""Decides comparison operators: their results are tabulated over every relation between the compared components."""
import itertools
from common import *

WEAK3 = sorted({tuple(sorted(set(v)).index(x) for x in v) for v in itertools.product(range(3), repeat=3)})


SAME = ("same", False)   # an operand's component compared with itself


class Cmp:
    """One comparison function; sides are the lvalues of its two operands."""

    def __init__(self, ctx, prog, fn, prims, kinds, determined=()):
        self.ctx, self.fn = ctx, fn
        self.method = len(fn.f["p"]) == 1
        self.paths = ctx.run(prog, fn, prims)
        self.l = ("this",) if self.method else ("param", 0)
        self.r = ("param", 0) if self.method else ("param", 1)
        self.kinds = kinds            # f(key) -> component name or None
        self.determined = determined  # [(component, [components that determine it])]
        self.comps = {}               # key -> name
        self.unknown = []
        for p in self.paths:
            for a, _ in p.facts:
                self.scan(a)
            if isinstance(p.value, L) or p.value is None:
                self.unknown.append("result")
            else:
                self.scan(p.value)

    # A term over one operand only, written for the left operand.
    def side(self, t):
        rs = {x for x in walk(t) if x in (self.l, self.r)}
        if self.l in rs and self.r in rs or not rs:
            return None
        if self.l in rs:
            return 0, t
        return 1, subst(t, lambda x: self.l if x == self.r else None)

    def pair(self, a, b):
        """(component key, swapped) when a and b are the same component of the two operands."""
        x, y = self.side(a), self.side(b)
        if a == b:
            return SAME
        if x is None or y is None or x[1] != y[1] or x[0] == y[0]:
            return None
        return x[1], x[0] == 1

    def parts(self, t):
        """Atoms of a boolean term as (op, [(key, swapped)...]) or None."""
        k = t[0]
        if k in ("lt", "eq") and len(t) == 3:
            a, b = t[1], t[2]
            if a[0] in ("tuple", "pair") and b[0] == a[0] and len(a) == len(b):
                ps = [self.pair(x, y) for x, y in zip(a[1:], b[1:])]
            else:
                ps = [self.pair(a, b)]
            return None if None in ps else (k, ps)
        if k in ("eq0", "pos"):
            c, d = lin_parts(t[1])
            if len(d) == 2 and sorted(d.values()) == [-1, 1]:
                hi = [x for x in d if d[x] == 1][0]
                lo = [x for x in d if d[x] == -1][0]
                if k == "eq0" and c == 0:
                    p = self.pair(lo, hi)
                    return None if p is None else ("eq", [p])
                if k == "pos" and c in (0, 1):
                    p = self.pair(lo, hi)
                    return None if p is None else ("lt" if c == 0 else "le", [p])
        return None

    def scan(self, t):
        if t[0] in ("not", "and", "or"):
            for x in t[1:]:
                self.scan(x)
            return
        if t[0] == "bool":
            return
        if t[0] == "ite":
            for x in t[1:]:
                self.scan(x)
            return
        ps = self.parts(t)
        if ps is None:
            self.unknown.append(show(t))
            return
        for k, _ in ps[1]:
            if k == SAME[0]:
                continue
            n = "&" if k == ("addr", self.l) else self.kinds(k)
            if n is None:
                self.unknown.append("component " + show(k))
            self.comps[k] = n

    def value(self, t, rel):
        """rel(component) -> -1, 0, 1: how the left operand's component compares with the right's."""
        def leaf(x):
            ps = self.parts(x) if x[0] in ("lt", "eq", "eq0", "pos") else None
            if ps is None:
                return None
            op, ks = ps
            for k, sw in ks:
                if k == SAME[0]:
                    continue
                r = rel(self.comps[k])
                r = -r if sw else r
                if r != 0:
                    return (op in ("lt", "le")) and r < 0
            return op in ("eq", "le")
        return value_of(t, leaf)

    def result(self, rel):
        res = set()
        for p in self.paths:
            ok = True
            for a, v in p.facts:
                x = self.value(a, rel)
                if x is None:
                    ok = None
                    break
                if x != v:
                    ok = False
                    break
            if ok is None:
                return None
            if ok:
                v = self.value(p.value, rel)
                if v is None:
                    return None
                res.add(bool(v))
        return res.pop() if len(res) == 1 else None

    def names(self):
        return sorted(set(self.comps.values()) | {d for d, _ in self.determined if d in self.comps.values()})

    def feasible(self, rel, names):
        for d, by in self.determined:
            if d in names and all(b in names for b in by) and all(rel[b] == 0 for b in by) and rel[d] != 0:
                return False
        if "&" in names and rel["&"] == 0 and any(rel[n] for n in names):
            return False
        for n in names:
            # Equal addresses hold equal values.
            if n.startswith("&") and n[1:] in names and rel[n] == 0 and rel[n[1:]] != 0:
                return False
        return True


def equality_rule(ctx, oid, c, identity, extra=()):
    """True exactly when every identity component is equal."""
    if c.unknown:
        ctx.undecide(oid, "%s: not recognised: %s" % (c.fn.qn, c.unknown[0][:160]))
        return
    names = sorted(set(c.names()) | set(identity))
    for vals in itertools.product((-1, 0, 1), repeat=len(names)):
        rel = dict(zip(names, vals))
        if not c.feasible(rel, names):
            continue
        got = c.result(lambda n: rel[n])
        want = all(rel[n] == 0 for n in identity)
        if c.fn.qn.endswith("operator!="):
            want = not want
        if got is None:
            ctx.undecide(oid, "%s: not determined" % c.fn.qn)
            return
        if got != want:
            ctx.violation(oid, "%s: gives %s when %s" % (c.fn.qn, str(got).lower(), describe(rel)), c.fn.loc, c.fn.qn)
            return
    ctx.ok(oid)


def describe(rel):
    return ", ".join("%s %s" % (n, {-1: "is less", 0: "is equal", 1: "is greater"}[v]) for n, v in sorted(rel.items()))


def order_rule(ctx, oid, c, identity):
    """A strict weak order (for three operands) under which exactly equal operands are equivalent."""
    if c.unknown:
        ctx.undecide(oid, "%s: not recognised: %s" % (c.fn.qn, c.unknown[0][:160]))
        return
    names = sorted(set(c.names()) | set(identity))
    if len(names) > 4:
        ctx.undecide(oid, "%s: too many components" % c.fn.qn)
        return
    sgn = lambda a, b: (a > b) - (a < b)
    for combo in itertools.product(WEAK3, repeat=len(names)):
        m = {}
        feasible = True
        for i in range(3):
            for j in range(3):
                rel = {n: sgn(v[i], v[j]) for n, v in zip(names, combo)}
                if not c.feasible(rel, names):
                    feasible = False
                m[i, j] = (rel, c.result(lambda n: rel[n])) if feasible else None
        if not feasible:
            continue
        if any(v[1] is None for v in m.values()):
            ctx.undecide(oid, "%s: not determined" % c.fn.qn)
            return
        for (i, j), (rel, r) in m.items():
            back = m[j, i][1]
            same = all(rel[n] == 0 for n in identity)
            why = None
            if i == j and r:
                why = "an operand is less than itself"
            elif r and back:
                why = "each of two operands is less than the other"
            elif same and r:
                why = "one of two equal operands is less"
            elif not same and not r and not back:
                why = "two different operands are equivalent"
            if why:
                ctx.violation(oid, "%s: %s (%s)" % (c.fn.qn, why, describe(rel)), c.fn.loc, c.fn.qn)
                return
            for k in range(3):
                if r and m[j, k][1] and not m[i, k][1]:
                    ctx.violation(oid, "%s: not transitive" % c.fn.qn, c.fn.loc, c.fn.qn)
                    return
    ctx.ok(oid)
