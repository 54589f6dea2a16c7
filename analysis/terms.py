"""Value numbers: hash-consed terms and their normal forms.

A term is a tuple whose first item is its kind.  Equal terms denote equal
values; two different terms say nothing.  Integer sums and comparisons have a
linear normal form, so `i + 1 <= n`, `i < n` and `!(i >= n)` are one value
number.
"""

TRUE = ("bool", True)
FALSE = ("bool", False)
NULL = ("null",)
NONE = ("none",)          # empty std::optional
VOID = ("void",)


def I(n):
    return ("int", n)


def is_int(t):
    return t[0] == "int"


def key(t):
    return repr(t)


# ---- linear integer forms -------------------------------------------------

def lin_parts(t):
    """t -> (const, {atom: coeff})"""
    if t[0] == "int":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: key(kv[0]))))


def add(a, b, sb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sb * v
    return mk_lin(ca + sb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if is_int(b):
        a, b = b, a
    if is_int(a):
        if is_int(b):
            return I(a[1] * b[1])
        c, d = lin_parts(b)
        return mk_lin(c * a[1], {k: v * a[1] for k, v in d.items()})
    return ("mul",) + tuple(sorted((a, b), key=key))


def pos(x):
    """x > 0 over the integers, in canonical polarity."""
    c, d = lin_parts(x)
    if not d:
        return TRUE if c > 0 else FALSE
    o = three_way(c, d)
    if o is not None:
        return o
    items = sorted(d.items(), key=lambda kv: key(kv[0]))
    if items[0][1] < 0:
        # x > 0  <=>  not (1 - x > 0)
        return ("not", ("pos", mk_lin(1 - c, {k: -v for k, v in d.items()})))
    return ("pos", mk_lin(c, d))


def three_way(c, d):
    """What the sign of a text comparison's result says, when the condition is only about that sign."""
    if len(d) != 1:
        return None
    (k, v), = d.items()
    if k[0] != "call" or len(k) != 4 or v not in (1, -1) or c not in (0, 1):
        return None
    if not (k[1].startswith("std::") and k[1].split("<")[0].endswith("basic_string") and k[1].endswith("::compare")):
        return None
    a, b = k[2], k[3]
    if v == 1:
        return ("lt", b, a) if c == 0 else neg(("lt", a, b))
    return ("lt", a, b) if c == 0 else neg(("lt", b, a))


def eq0(x):
    c, d = lin_parts(x)
    if not d:
        return TRUE if c == 0 else FALSE
    if c == 0 and three_way(0, d) is not None:
        k, = d
        return eq(k[2], k[3])
    items = sorted(d.items(), key=lambda kv: key(kv[0]))
    if items[0][1] < 0:
        c, d = -c, {k: -v for k, v in d.items()}
    # size(x) == 0  <=>  not size(x) > 0
    if len(d) == 1 and c == 0:
        (k, v), = d.items()
        if k[0] == "size":
            return neg(pos(k))
    return ("eq0", mk_lin(c, d))


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    return pos(add(sub(b, a), I(1)))


def neg(t):
    if t[0] == "bool":
        return FALSE if t[1] else TRUE
    if t[0] == "not":
        return t[1]
    return ("not", t)


def eq(a, b):
    if a == b:
        return TRUE
    if a[0] in ("bool", "int", "str") and b[0] == a[0]:
        return TRUE if a[1] == b[1] else FALSE
    for x, y in ((a, b), (b, a)):
        if x == NULL:
            if y[0] in ("addr", "str", "lam"):
                return FALSE
            return ("isnull", y)
        if x == TRUE:
            return y
        if x == FALSE:
            return neg(y)
    if a[0] == "tuple" and b[0] == "tuple" and len(a) == len(b):
        return conj([eq(x, y) for x, y in zip(a[1:], b[1:])])
    if a[0] in ("lin", "int") or b[0] in ("lin", "int"):
        return eq0(sub(a, b))
    if a[0] == "itr" and b[0] == "itr" and a[1] == b[1] and a[2] == b[2]:
        return eq0(sub(a[3], b[3]))
    if key(b) < key(a):
        a, b = b, a
    return ("eq", a, b)


def conj(ts):
    out = []
    for t in ts:
        if t == FALSE:
            return FALSE
        if t == TRUE or t in out:
            continue
        if t[0] == "and":
            out.extend(x for x in t[1:] if x not in out)
        else:
            out.append(t)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and",) + tuple(out)


def disj(ts):
    out = []
    for t in ts:
        if t == TRUE:
            return TRUE
        if t == FALSE or t in out:
            continue
        if t[0] == "or":
            out.extend(x for x in t[1:] if x not in out)
        else:
            out.append(t)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ("or",) + tuple(out)


def walk(t):
    """All subterms of a term (tuples only)."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, sub_):
    return any(x == sub_ for x in walk(t))


def subst(t, f):
    """Rebuilds t bottom-up; f maps a term to a replacement or None."""
    r = f(t)
    if r is not None:
        return r
    if not isinstance(t, tuple):
        return t
    return tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)


def show(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if depth > 6:
        return "..."
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if k == "int" or k == "bool":
        return str(t[1])
    if k == "str":
        return repr(t[1])
    if k == "lin":
        parts = ["%s%s" % ("" if v == 1 else "-" if v == -1 else "%d*" % v, s(a)) for a, v in t[2]]
        return "(" + " + ".join(parts) + (" + %d" % t[1] if t[1] else "") + ")"
    if k == "pos":
        return "%s > 0" % s(t[1])
    if k == "eq0":
        return "%s == 0" % s(t[1])
    if k == "eq":
        return "%s == %s" % (s(t[1]), s(t[2]))
    if k == "not":
        return "!(%s)" % s(t[1])
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(s(x) for x in t[1:]) + ")"
    if k == "init":
        return s(t[1])
    if k == "var":
        return str(t[3])
    if k == "param":
        return "arg%d" % t[1] if isinstance(t[1], int) else str(t[1])
    if k == "fld":
        return "%s.%s" % (s(t[1]), t[2])
    if k == "deref":
        return "*%s" % s(t[1])
    if k == "addr":
        return "&%s" % s(t[1])
    if k == "idx":
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == "size":
        return "|%s|" % s(t[1])
    if k == "lam":
        return "lambda@%s" % (t[1],)
    if k in ("call", "mut", "ret", "new"):
        return "%s%s(%s)" % ("" if k == "call" else k + " ", str(t[1]).replace("symbolic::", "").replace("std::", ""),
                             ", ".join(s(x) for x in t[2:]))
    return "%s(%s)" % (k, ", ".join(s(x) for x in t[1:]))


# ---- linear arithmetic by Fourier-Motzkin elimination ----------------------

def _cons(t, v):
    """The constraint lists (disjunction of conjunctions of 'lin >= 0') a literal stands for, or None."""
    while t[0] == "not":
        t, v = t[1], not v
    if t[0] == "bool":
        return [[]] if t[1] == v else []
    if t[0] == "pos":
        return [[add(t[1], I(-1))]] if v else [[mul(I(-1), t[1])]]
    x = None
    if t[0] == "eq0":
        x = t[1]
    elif t[0] == "eq" and all(a[0] in ("int", "lin", "size", "init", "sym", "phi", "iter") for a in t[1:]):
        x = sub(t[1], t[2])
    if x is None:
        return None
    if v:
        return [[x, mul(I(-1), x)]]
    return [[add(x, I(-1))], [add(mul(I(-1), x), I(-1))]]


def infeasible(cons, depth=0):
    """No rational solution of all 'lin >= 0'."""
    cs = []
    for c in cons:
        k, d = lin_parts(c)
        d = {a: n for a, n in d.items() if n}
        if not d:
            if k < 0:
                return True
            continue
        cs.append((k, d))
    if not cs or len(cs) > 200:
        return False
    count = {}
    for _, d in cs:
        for a in d:
            count[a] = count.get(a, 0) + 1
    a = min(count, key=lambda x: (count[x], key(x)))
    up = [(k, d) for k, d in cs if d.get(a, 0) < 0]
    lo = [(k, d) for k, d in cs if d.get(a, 0) > 0]
    rest = [mk_lin(k, d) for k, d in cs if not d.get(a)]
    for k1, d1 in lo:
        for k2, d2 in up:
            m1, m2 = -d2[a], d1[a]
            d = {}
            for x, n in d1.items():
                d[x] = d.get(x, 0) + n * m1
            for x, n in d2.items():
                d[x] = d.get(x, 0) + n * m2
            d.pop(a, None)
            rest.append(mk_lin(k1 * m1 + k2 * m2, {x: n for x, n in d.items() if n}))
    return infeasible(rest, depth + 1)


def implied(facts, atom):
    """True/False when linear arithmetic settles the literal under the facts, else None."""
    if atom[0] == "bool":
        return atom[1]
    base = []
    for t, v in facts:
        c = _cons(t, v)
        if c is not None and len(c) == 1:
            base += c[0]
    for want, res in ((False, True), (True, False)):
        alts = _cons(atom, want)
        if alts is None:
            return None
        if all(infeasible(base + alt) for alt in alts):
            return res
    return None
