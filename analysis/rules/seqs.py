"""Ordered collections built by loops, and boolean folds over them."""
from common import *


class Each:
    """`for each x of over: push items`, as part of an ordered collection."""

    def __init__(self, lp, done):
        self.lp, self.done = lp, done
        self.rows = []     # (iteration path, pushed items | None)


def sequence(p, v, whole=None):
    """The contents of a collection as a list of items and Each parts, or None.

    whole(v): the collection is opaque and stands for itself, as a part ('all', v).
    """
    if whole is not None and whole(v):
        return [("all", v)]
    if v[0] == "mut" and v[1] == "append" and len(v) == 4:
        s = sequence(p, v[2], whole)
        r = v[3][1] if v[3][0] == "range" and len(v[3]) == 2 else None
        t = sequence(p, r, whole) if r is not None else None
        return None if s is None or t is None else s + t
    if v[0] == "range" and len(v) == 2:
        return sequence(p, v[1], whole)
    if v[0] == "list":
        return list(v[1:])
    if v[0] == "emptyc" or v[0] == "new" and len([x for x in v[2:] if x[0] != "new"]) == 0:
        return []
    if v[0] == "mut" and v[1] in ("push_back", "emplace_back") and len(v) == 4:
        s = sequence(p, v[2], whole)
        return None if s is None else s + [v[3]]
    if v[0] == "mut" and v[1] == "emplace_back" and len(v) == 5:
        s = sequence(p, v[2], whole)
        return None if s is None else s + [("args", v[3], v[4])]
    if v[0] == "mut" and v[1] == "insert" and len(v) == 5 and v[3][0] == "itr" and v[3][2:] == ("begin", I(0)) and \
            v[4][0] == "range" and len(v[4]) == 2:
        s, t = sequence(p, v[2], whole), sequence(p, v[4][1], whole)
        return None if s is None or t is None else t + s
    if v[0] == "mut" and v[1] == "emplace_back" and len(v) == 3:
        s = sequence(p, v[2], whole)
        return None if s is None else s + [("list",)]
    if v[0] == "mut" and v[1] == "pop_back":
        s = sequence(p, v[2], whole)
        return s[:-1] if s and not isinstance(s[-1], Each) else None
    if v[0] == "mut" and v[1] == "clear":
        return []
    if v[0] == "mut" and v[1] in ("reserve", "shrink_to_fit"):
        return sequence(p, v[2], whole)
    if v[0] == "phi":
        lp = loop_of(p, v[1])
        if lp is None:
            return None
        init = lp.init.get(v[2])
        if init is None:
            return None
        sized = init[0] == "new" and len(init) > 2
        s = [] if sized else sequence(p, init, whole)
        if s is None:
            return None
        e = Each(lp, finished(p, lp))
        for ip in lp.paths:
            w = ip.S.store.get(v[2], v)
            items = []
            drop = 0
            while w != v:
                if w[0] == "mut" and w[1] in ("push_back", "emplace_back") and len(w) == 4 and not sized:
                    if drop:
                        drop -= 1
                    else:
                        items.append(w[3])
                    w = w[2]
                elif w[0] == "mut" and w[1] == "emplace_back" and len(w) == 5 and not sized:
                    if drop:
                        drop -= 1
                    else:
                        items.append(("args", w[3], w[4]))
                    w = w[2]
                elif w[0] == "mut" and w[1] == "emplace_back" and len(w) == 3 and not sized:
                    if drop:
                        drop -= 1
                    else:
                        items.append(("list",))
                    w = w[2]
                elif w[0] == "mut" and w[1] == "pop_back" and not sized:
                    drop += 1
                    w = w[2]
                elif w[0] == "mut" and w[1] == "[]=" and sized and w[3] == ("iter", lp.id) and \
                        lp.lo == I(0) and lp.hi == init[2]:
                    items.append(w[4])
                    w = w[2]
                elif w[0] == "mut" and w[1] in ("reserve",):
                    w = w[2]
                else:
                    items = None
                    break
            if drop:
                items = None
            e.rows.append((ip, items and items[::-1] if items is not None else None))
        return s + [e]
    return None


def loop_of(p, lid):
    for e in all_events(p.ev):
        if e.k == "loop" and e.loop.id == lid:
            return e.loop
    return None


def finished(p, lp):
    """Whether a path left the loop because there was nothing more (None: not known)."""
    for e in p.ev:
        if e.k == "loop" and e.loop is lp:
            return e.extra == "exit"
    return None


def its(lp):
    return [("iter", lp.id), ("iter", lp.id, "desc")]


def elems(lp, o):
    """The terms for the element of a collection that a loop visits."""
    return [x for i in its(lp) for x in (("elem", o, i), engine.index(o, i))]


def candidates(lp):
    """The collections a loop's range is about."""
    out = list(lp.over)
    if lp.hi is not None:
        out += [x[1] for x in lin_parts(lp.hi)[1] if x[0] == "size" and x[1] not in out]
    return out


def covers(lp, val):
    """The loop visits every element of `val`, in order."""
    if lp.dir == "desc":
        return False if val in lp.over or lp.lo == I(0) and lp.hi == ("size", val) else None
    if val in lp.over or lp.lo == I(0) and lp.hi == ("size", val):
        return True
    if lp.lo is not None and lp.hi is not None and is_int(lp.lo):
        known = lin_parts(lp.hi)[1].keys() <= {("size", val)}
        return False if known else None
    return None


def elem_of(t, lv, lp):
    """Offset of the element of `lv` a term denotes from the one being visited, or None."""
    for x in walk(t):
        if x[0] == "idx" and x[1] == lv:
            d = sub(x[2], ("iter", lp.id))
            return d
    return None


def parts(p, v, whole):
    """sequence(), with plain copying loops replaced by what they copy."""
    s = sequence(p, v, whole)
    if s is None:
        return None
    out = []
    for x in s:
        if isinstance(x, Each):
            lp = x.lp
            if not (x.done and len(lp.over) >= 1 and len(x.rows) == 1 and x.rows[0][1] is not None and
                    len(x.rows[0][1]) == 1 and covers(lp, lp.over[0]) is True):
                return None
            it = x.rows[0][1][0]
            src = None
            for o in lp.over:
                if it in elems(lp, o):
                    src = o
            if src is None:
                return None
            t = sequence(p, src, whole)
            if t is None:
                return None
            out += t
        else:
            out.append(x)
    return out


# ---- folds --------------------------------------------------------------------

class Fold:
    """A boolean computed from a condition on each element of a collection.

    kind            'all' or 'any'
    elem(t, lp)     polarity of a term as the condition on the element visited by lp, else None
    coll(lp)        True/False/None: the loop visits exactly the collection, in any order
    size(t)         the term is the number of elements
    closed(t)       the term depends on nothing unknown
    """

    def __init__(self, kind, elem, coll, size=lambda t: False, closed=lambda t: True, ignore=lambda a: False):
        self.kind, self.elem, self.coll, self.size, self.closed, self.ignore = kind, elem, coll, size, closed, ignore
        self.why, self.loc = "", None
        self.some = None

    def verdict(self, paths):
        """True, False or None, with .why and .loc set."""
        worst = True
        for p in paths:
            r = self.one(p)
            if r is False:
                return False
            if r is None:
                worst = None
        return worst

    def fail(self, r, why, loc=None):
        self.why, self.loc = why, loc or self.loc
        return r

    def one(self, p):
        unit = self.kind == "all"
        if p.kind != "return":
            return self.fail(None, "the evaluation may fail")
        if any(e.k == "catch" for e in all_events(p.ev)):
            return self.fail(None, "failures are caught")
        loops = [e for e in p.ev if e.k == "loop"]
        if isinstance(p.value, L):
            return self.fail(None, "not a plain result")
        if not loops:
            empty, unknown = None, []
            for a, v in p.facts:
                e = self.empty_fact(a, v)
                if e is None and not self.ignore(a):
                    unknown.append(a)
                elif e is not None:
                    empty = e
            got = value_of(p.value, lambda t: None)
            if got is None:
                return self.fail(False if not unknown and self.closed(p.value) else None,
                                 "the result does not depend on every element")
            if empty is True:
                return True if bool(got) == unit else self.fail(None if unknown else False,
                                                                "the result for no elements must be %s" % str(unit).lower())
            return self.fail(None if unknown else False, "the result does not depend on the elements")
        main = [e for e in loops if self.coll(e.loop) is not None]
        if len(main) != 1:
            return self.fail(None, "the loop over the elements is not recognised", loops[0].loop.loc)
        e = main[0]
        lp = e.loop
        if self.coll(lp) is False:
            return self.fail(False, "not every element is looked at", lp.loc)
        self.loc = lp.loc
        states = self.reach(lp)
        if states is None:
            return None
        for st in states:
            if e.extra == "exit":
                r = self.end(p, lp, st, unit)
                if r is not True:
                    return r
            else:
                for b in (True, False):
                    r = self.leave(p, lp, st, b, unit)
                    if r is not True:
                        return r
        return True

    def empty_fact(self, a, v):
        if a[0] in ("pos", "eq0") and self.size(a[1]):
            return (not v) if a[0] == "pos" else v
        if a[0] == "eq" and I(0) in a[1:] and any(self.size(x) for x in a[1:]):
            return v
        if a[0] == "isempty":
            return v if self.size(("size", a[1])) else None
        return None

    def leaf(self, lp, phis, b):
        def f(t):
            if t in phis:
                return phis[t]
            pol = self.elem(t, lp)
            if pol is not None:
                return None if b is None else (b == pol)
            e = self.empty_fact(t, True)
            if e is not None:
                some = True if b is not None else self.some
                return None if some is None else some != e
            if t[0] == "eq" and b is not None and t[1][0] == "itr" and t[2][0] == "itr" and t[1][1] == t[2][1]:
                for x, y in ((t[1], t[2]), (t[2], t[1])):
                    if x[2] == "begin" and x[3] in its(lp) and y[2:] == ("end", I(0)):
                        return False
            return None
        return f

    def skip(self, lp):
        return lambda a: a[0] == "more" or self.ignore(a) or bound(a, lp)

    def reach(self, lp):
        """States (flag values, decided?) the loop can be in before an iteration."""
        phis0 = {}
        for q in lp.mod:
            v = lp.init.get(q)
            v = value_of(v, lambda t: None) if v is not None else None
            if isinstance(v, bool):
                phis0[("phi", lp.id, q)] = v
        unit = self.kind == "all"
        start = (tuple(sorted(phis0.items(), key=repr)), unit, False)
        seen, todo = {start}, [start]
        while todo:
            ph, acc, _ = todo.pop()
            phis = dict(ph)
            for b in (True, False):
                nacc = (acc and b) if unit else (acc or b)
                hit = False
                for ip in lp.paths:
                    h, unknown = holds_in(ip.facts, self.leaf(lp, phis, b), self.skip(lp))
                    if h is False:
                        continue
                    hit = True
                    if h is None:
                        return self.fail(None, "an unrecognised condition in the loop", lp.loc)
                    if ip.flow is not None and ip.flow != "continue":
                        continue
                    nph = {}
                    for t in phis:
                        w = value_of(ip.S.store.get(t[2], t), self.leaf(lp, phis, b))
                        if w is None:
                            w = "?"
                        nph[t] = w
                    if "?" in nph.values():
                        return self.fail(None, "an unrecognised condition in the loop", lp.loc)
                    n = (tuple(sorted(nph.items(), key=repr)), nacc, True)
                    if n not in seen:
                        seen.add(n)
                        todo.append(n)
        return seen

    def end(self, p, lp, st, unit):
        phis, acc, self.some = dict(st[0]), st[1], st[2]
        h, unknown = holds_in(p.facts, self.leaf(lp, phis, None), self.skip(lp))
        if h is False:
            return True
        if h is None:
            return self.fail(None, "an unrecognised condition after the loop", lp.loc)
        got = value_of(p.value, self.leaf(lp, phis, None))
        if got is None:
            return self.fail(None, "an unrecognised result", lp.loc)
        if bool(got) != acc:
            return self.fail(False, "the result after the last element is %s when %s element was %s" % (
                str(bool(got)).lower(), "no" if acc == unit else "an", "false" if unit else "true"), lp.loc)
        return True

    def leave(self, p, lp, st, b, unit):
        phis, acc = dict(st[0]), st[1]
        h, unknown = holds_in(p.facts, self.leaf(lp, phis, b), self.skip(lp))
        if h is False:
            return True
        if h is None:
            return self.fail(None, "an unrecognised condition in the loop", lp.loc)
        acc = (acc and b) if unit else (acc or b)
        got = value_of(p.value, self.leaf(lp, phis, b))
        if got is None:
            return self.fail(None, "an unrecognised result", lp.loc)
        if acc == unit:
            return self.fail(False, "the loop stops at an element that is %s" % ("true" if unit else "false"), lp.loc)
        if bool(got) != acc:
            return self.fail(False, "the result is %s although an element is %s" % (
                str(bool(got)).lower(), "false" if unit else "true"), lp.loc)
        return True


def bound(a, lp):
    """A loop's own range condition."""
    a, _ = strip(a)
    if a[0] != "pos" or lp.hi is None:
        return False
    if lp.dir == "desc":
        return lp.lo == I(0) and a[1] in (add(its(lp)[1], I(1)),)
    it = its(lp)[0]
    return a[1] in (sub(lp.hi, it), add(sub(it, lp.hi), I(1)))
