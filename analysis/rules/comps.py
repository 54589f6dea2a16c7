"""Collections built by loops, as comprehensions.

comp() describes a collection as a list of parts: ('item', t), ('for', id, collection, parts) -- once for each element,
written ('x', id) inside -- and ('if', [(conditions, parts), ...]). Terms are normalised (c07.nrm).
"""
from common import *
from rules.seqs import its, candidates, covers, bound
from rules.c07 import nrm


class Unknown(Exception):
    pass


def pushes(v):
    """(rest, item or None) of a term that adds at most one item to a collection, else None."""
    if v[0] != "mut":
        return None
    if v[1] in ("push_back", "emplace_back", "insert", "emplace") and len(v) == 4 and v[3][0] != "itr":
        return v[2], v[3]
    if v[1] == "emplace_back" and len(v) > 4:
        return v[2], ("args",) + v[3:]
    if v[1] == "emplace_back" and len(v) == 3:
        return v[2], ("list",)
    if v[1] in ("reserve", "shrink_to_fit"):
        return v[2], None
    return None


class Comps:
    def __init__(self, p, push=pushes, empty=lambda v: False, ignore=lambda a: False):
        self.loops, self.left = {}, {}
        for e in all_events(p.ev):
            if e.k == "loop":
                self.loops[e.loop.id] = e.loop
                self.left.setdefault(e.loop.id, set()).add(e.extra)
        self.push, self.empty, self.ignore, self.p = push, empty, ignore, p
        self.elements = {}
        self.done = {}

    def of(self, v, base=None):
        """The parts of v beyond base; raises Unknown."""
        if v == base:
            return []
        if self.empty(v):
            return []
        k = v[0]
        if k == "range" and len(v) == 2:
            return self.of(v[1])
        if k == "list":
            return [("item", x) for x in v[1:]]
        if k == "emptyc" or k == "new" and v[1].split("<")[0].split("::")[-1] in (
                "vector", "set", "list", "deque", "unordered_set", "map", "unordered_map") and all(x[0] == "new" for x in v[2:]):
            return []
        if k == "mut" and v[1] == "append" and len(v) == 4:
            return self.of(v[2], base) + self.whole(v[3])
        if k == "mut" and v[1] == "clear":
            return []
        if k == "mut" and v[1] == "insert" and len(v) == 5 and v[3][0] == "itr" and v[4][0] == "range":
            if v[3][2:] == ("end", I(0)):
                return self.of(v[2], base) + self.whole(v[4])
            if v[3][2:] == ("begin", I(0)) and base is None:
                return self.whole(v[4]) + self.of(v[2], base)
        if k == "mut":
            r = self.push(v)
            if r is not None:
                rest = self.of(r[0], base)
                return rest + ([] if r[1] is None else [("item", r[1])])
        if k == "phi" and v[1] in self.loops:
            lp = self.loops[v[1]]
            init = lp.init.get(v[2])
            if init is None:
                raise Unknown("an unknown start")
            if init[0] == "new" and len(init) == 3 and init[2][0] not in ("new", "list") and base is None:
                return [self.loop(lp, v, init[2])]
            return self.of(init, base) + [self.loop(lp, v)]
        if base is None:
            return [("all", v)]
        raise Unknown("an unrecognised collection")

    def whole(self, v):
        if v[0] == "range" and len(v) == 2:
            v = v[1]
        return self.of(v)

    def colls(self, lp):
        for o in candidates(lp):
            if covers(lp, o) is True:
                return o, False
            if lp.dir == "desc" and (o in lp.over or lp.lo == I(0) and lp.hi == ("size", o)):
                return o, True
        raise Unknown("a loop that is not recognised")

    def loop(self, lp, v, sized=None):
        o, rev = self.colls(lp)
        if self.left.get(lp.id, set()) - {"exit", "break", "throw"}:
            raise Unknown("a loop that may be left early")
        rows = []
        for ip in lp.paths:
            if ip.flow == "throw":
                continue
            if ip.flow not in (None, "continue", "break"):
                raise Unknown("a loop that may be left early")
            w = ip.S.store.get(v[2], v)
            if sized is not None:
                if w[0] == "mut" and w[1] == "[]=" and w[2] == v and w[3] in its(lp) and lp.lo == I(0) and lp.hi == sized:
                    parts = [("item", w[4])]
                else:
                    raise Unknown("an unrecognised collection")
            else:
                parts = self.of(w, v)
            if ip.flow == "break":
                parts = parts + [("stop", ("bool", True))]
            conds = [(a, b) for a, b in ip.facts if not self.own(a, lp)]
            rows.append((tuple(conds), parts))
        if len(rows) == 1 and not rows[0][0]:
            body = rows[0][1]
        else:
            body = [("if", rows)]
        src = self.of(o)
        if src == [("all", o)]:
            self.elements[lp.id] = nrm(o)
            return ("for", lp.id, ("rev", nrm(o)) if rev else nrm(o), body)
        self.elements[lp.id] = nrm(o)
        if rev:
            raise Unknown("a collection visited backwards")
        return ("bind", lp.id, src, body)

    def own(self, a, lp):
        a, _ = strip(a)
        if a[0] == "more" or bound(a, lp) or self.ignore(a):
            return True
        return a[0] == "eq" and a[1][0] == "itr" and a[2][0] == "itr" and nrm(a[1][1]) == nrm(a[2][1]) and \
            any(x[2:] == ("end", I(0)) or x[2:] == ("rend", I(0)) for x in a[1:])


    # ---- normal form

    def norm(self, parts):
        return number(simplify([self.clean(x) for x in parts]))

    def clean(self, x):
        k = x[0]
        if k in ("item", "all", "stop"):
            return (k, self.term(x[1]))
        if k == "if":
            return ("if", [(tuple((self.term(a), b) for a, b in c), [self.clean(y) for y in ps]) for c, ps in x[1]])
        if k == "for":
            return ("for", x[1], self.term(x[2]), [self.clean(y) for y in x[3]])
        src = [self.clean(y) for y in x[2]]
        body = [self.clean(y) for y in x[3]]
        return ("seq", bind(src, x[1], body))

    def term(self, t):
        t = nrm(t)
        if not isinstance(t, tuple):
            return t
        t = self.replace(t)
        return t

    def replace(self, t):
        if not isinstance(t, tuple):
            return t
        if len(t) == 3 and t[0] == "idx" and isinstance(t[2], tuple) and t[2] and t[2][0] == "iter" and \
                self.elements.get(t[2][1]) == t[1]:
            return ("x", t[2][1])
        return tuple(self.replace(x) if isinstance(x, tuple) else x for x in t)


def put(t, lid, w):
    """t with ('x', lid) replaced by w."""
    if t == ("x", lid):
        return w
    if not isinstance(t, (tuple, list)):
        return t
    r = [put(x, lid, w) if isinstance(x, (tuple, list)) else x for x in t]
    return tuple(r) if isinstance(t, tuple) else r


def bind(src, lid, body):
    out = []
    for x in src:
        if x[0] == "stop":
            out.append(x)
        elif x[0] == "item":
            out += put(body, lid, x[1])
        elif x[0] == "all":
            out.append(("for", lid, x[1], body))
        elif x[0] == "if":
            out.append(("if", [(c, bind(ps, lid, body)) for c, ps in x[1]]))
        elif x[0] == "for":
            out.append(("for", x[1], x[2], bind(x[3], lid, body)))
        elif x[0] == "seq":
            out += bind(x[1], lid, body)
    return out


def simplify(parts):
    """Flattened, without empty rows, nested conditions joined."""
    out = []
    for x in parts:
        if x[0] == "seq":
            out += simplify(x[1])
        elif x[0] == "for":
            b = simplify(x[3])
            if b == [("item", ("x", x[1]))] and x[2][0] != "rev":
                out.append(("all", x[2]))
            elif b:
                out.append(("for", x[1], x[2], b))
        elif x[0] == "if":
            rows = []
            for c, ps in x[1]:
                ps = simplify(ps)
                if not ps:
                    continue
                if len(ps) == 1 and ps[0][0] == "if":
                    rows += [(tuple(c) + tuple(c2), p2) for c2, p2 in ps[0][1]]
                else:
                    rows.append((tuple(c), ps))
            if rows == [((), rows[0][1])] if rows else False:
                out += rows[0][1]
            elif rows:
                out.append(("if", rows))
        else:
            out.append(x)
    return out


def number(parts, names=None, n=None):
    """Loop names replaced by their order of appearance; conditions sorted."""
    names = {} if names is None else names
    out = []
    for x in parts:
        if x[0] == "for":
            c = rename(x[2], names)
            names = dict(names)
            names[x[1]] = "v%d" % len(names)
            out.append(("for", names[x[1]], c, tuple(number(x[3], names))))
        elif x[0] == "if":
            out.append(("if", tuple(sorted(((tuple(sorted(set((rename(a, names), b) for a, b in c), key=repr)), tuple(number(ps, names)))
                                            for c, ps in x[1]), key=repr))))
        else:
            out.append((x[0], rename(x[1], names)))
    return out


def rename(t, names):
    if not isinstance(t, tuple):
        return t
    if len(t) == 2 and t[0] == "x" and t[1] in names:
        return ("x", names[t[1]])
    return tuple(rename(x, names) if isinstance(x, tuple) else x for x in t)


def want(parts):
    return number(simplify(parts))


def comp(p, v, **kw):
    """Normal form of a collection, or None."""
    c = Comps(p, **kw)
    try:
        return c.norm(c.of(v))
    except Unknown:
        return None


def terms(parts):
    for x in parts:
        if x[0] == "for":
            yield x[2]
            yield from terms(x[3])
        elif x[0] == "if":
            for c, ps in x[1]:
                for a, _ in c:
                    yield a
                yield from terms(ps)
        else:
            yield x[1]


def unrev(parts):
    return [(x[0], x[1], x[2][1] if x[2][0] == "rev" else x[2], tuple(unrev(x[3]))) if x[0] == "for" else
            (x[0], tuple((c, tuple(unrev(ps))) for c, ps in x[1])) if x[0] == "if" else x for x in parts]
