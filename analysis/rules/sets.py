"""Facts about the set templates shared by C01 and C02."""
from common import *

UV = "symbolic::UniqueVector<symbolic::Proposition>"
HS = "symbolic::HashSet<symbolic::Proposition>"
THIS = ("this",)
ARG = ("init", ("param", 0))

CMP = ["symbolic::operator==", "symbolic::operator!=", "symbolic::operator<", "symbolic::operator>",
       "symbolic::operator<=", "symbolic::operator>="]
PROP = ["symbolic::Proposition::Proposition", "symbolic::PropositionBase::hash", "std::hash<symbolic::*"]


def cmp_call(t):
    """A comparison of two propositions as (op, a, b)."""
    if t[0] == "call" and t[1].startswith("symbolic::operator") and len(t) == 4:
        return t[1][len("symbolic::operator"):], t[2], t[3]
    if t[0] == "eq":
        return "==", t[1], t[2]
    return None


def mentions_arg(t):
    return any(x == ("param", 0) for x in walk(t))


# ---- UniqueVector ----------------------------------------------------------

def uv_vocab(V):
    """Atoms of a sorted-vector operation on V with argument 0."""
    def pos_of(t):
        if t[0] == "itr" and t[1] == THIS and t[3] == I(0) and isinstance(t[2], tuple) and t[2][0] in (
                "lower_bound", "stdfind", "upper_bound") and mentions_arg(t[2][2]) and t[2][1] == V:
            return t[2][0]
        return None

    def elem_of(t):
        for x in walk(t):
            if x[0] == "at" and isinstance(x[1], tuple) and x[1] and x[1][0] in ("lower_bound", "upper_bound", "stdfind") \
                    and len(x) == 2 and x[1][1] == V and mentions_arg(x[1][2]):
                return x[1][0]
        return None

    def is_back(t):
        return any(x[0] == "idx" and x[1] == THIS and x[2] == add(("size", V), I(-1)) for x in walk(t))

    def vocab(t):
        if t[0] in ("eq0", "pos") and t[1][0] in ("size", "lin"):
            pol = t[0] == "eq0"
            if t[1] == ("size", V):
                return ("empty", pol)
            if t[1] in (add(("size", V), I(-1)), sub(I(1), ("size", V))):
                return ("single", True) if pol else None
            if t[1][0] == "size" and t[1][1][0] == "mut" and t[1][1][1] == "erase" and t[1][1][2] == V and \
                    len(t[1][1]) == 4:
                return ("single", pol)
        if t[0] == "bsearch" and t[1] == V and mentions_arg(t[2]):
            return ("present", True)
        if t[0] == "pos" and t[1][0] == "count" and t[1][1] == V:
            return ("present", True)
        c = cmp_call(t)
        if c is None:
            return None
        op, a, b = c
        if a[0] == "itr" or b[0] == "itr":
            for x, y in ((a, b), (b, a)):
                k = pos_of(x)
                if k and y == ("itr", THIS, "end", I(0)):
                    if k == "stdfind":
                        return ("present", False) if op == "==" else None
                    if k == "lower_bound":
                        return ("end", True) if op == "==" else None
                    return ("upper-end", True) if op == "==" else None
                k2 = pos_of(y)
                if k and k2 and {k, k2} == {"lower_bound", "upper_bound"}:
                    return ("present", False)
            return None
        ka, kb = elem_of(a), elem_of(b)
        if is_back(a) != is_back(b) and (mentions_arg(a) or mentions_arg(b)):
            # Compared with the last element: how many are less than the value.
            last = is_back(a)
            return {("<", True): ("end", True), (">", False): ("end", True), (">=", True): ("end", False), ("<=", False): ("end", False),
                    ("<", False): ("upper-end", False), (">", True): ("upper-end", False), ("<=", True): ("upper-end", True),
                    (">=", False): ("upper-end", True)}.get((op, last))
        if bool(ka) == bool(kb):
            return None
        k = ka or kb
        if k == "stdfind":
            return None
        if k == "upper_bound":
            return ("upper-eq", op == "==") if op in ("==", "!=") else None
        other = b if ka else a
        if not mentions_arg(other):
            return None
        if op == "==":
            return ("eq", True)
        if op == "!=":
            return ("eq", False)
        # At the lower bound the element is not less than the value.
        if op == "<" and kb:
            return ("eq", False)
        if op == ">" and ka:
            return ("eq", False)
        if op == "<=" and ka:
            return ("eq", True)
        return None
    return vocab


def uv_feasible(a):
    if a["empty"] and (not a["end"] or a["single"]) or a["upper-eq"] or a["end"] and not a["upper-end"]:
        return False
    if a["end"]:
        return not a["present"]
    return a["present"] == a["eq"]


def uv_mut(p, voc):
    """What a path did to the vector: none | ins | del | bad:<what> | None (unrecognised)."""
    v = final(p, THIS)
    base = ("init", THIS)
    if v == base:
        return "none"
    if v[0] != "mut":
        return None
    k = v[1]
    if k == "sorted" and v[2][0] == "mut" and v[2][1] in ("push_back", "emplace_back") and v[2][2] == base \
            and mentions_arg(v[2][3]):
        return "ins"
    if k in ("push_back", "emplace_back") and v[2] == base and len(v) == 4:
        if not mentions_arg(v[3]):
            return "bad:another value is inserted"
        known = set()
        for a, val in p.facts:
            n, pol = strip(a)
            w = voc(n)
            if w and w != SKIP:
                known.add((w[0], (val == pol) == w[1]))
        if ("end", True) in known or ("empty", True) in known:
            return "ins"
        return "bad:appended without keeping the order"
    if k == "clear" or k == "pop_back":
        return "bad:other elements are removed"
    if k in ("insert", "emplace") and v[2] == base and len(v) == 5:
        it, x = v[3], v[4]
        if not mentions_arg(x):
            return "bad:another value is inserted"
        if it[0] == "itr" and it[1] == THIS:
            if isinstance(it[2], tuple) and it[2][1] == base and mentions_arg(it[2][2]):
                if it[2][0] in ("lower_bound", "upper_bound"):
                    return "ins" if it[3] == I(0) else "bad:inserted away from its sorted position"
                return None
            if it[2] in ("begin", "end") and is_int(it[3]):
                return "bad:inserted away from its sorted position"
        return None
    if k == "erase" and v[2] == base:
        it = v[3]
        if len(v) == 4 and it[0] == "itr" and it[1] == THIS and isinstance(it[2], tuple) and it[2][1] == base:
            if it[2][0] in ("lower_bound", "stdfind"):
                return "del" if it[3] == I(0) else "bad:another element is erased"
            if it[2][0] == "upper_bound":
                return "del" if it[3] == I(-1) else "bad:another element is erased"
        if len(v) == 4 and it[0] == "itr" and it[2] in ("begin", "end") and is_int(it[3]):
            return "bad:another element is erased"
        if len(v) == 5 and it[0] == "itr" and v[4] == ("itr", THIS, "end", I(0)):
            return "bad:every following element is erased too"
        return None
    return None


def uv_rules(ctx, prog):
    voc = uv_vocab(("init", THIS))

    def out(r):
        if r.kind != "return" or r.value not in (TRUE, FALSE):
            return None
        m = uv_mut(r.path, voc)
        return None if m is None else (r.value == TRUE, m)

    spec = {
        "contains": lambda a: (a["present"], "none"),
        "insert": lambda a: (False, "none") if a["present"] else (True, "ins"),
        "erase": lambda a: (True, "del") if a["present"] else (False, "none"),
    }
    for name, sp in spec.items():
        for fn in prog.find(UV + "::" + name):
            ps = ctx.run(prog, fn, CMP + PROP)
            t = Table(["end", "eq", "present", "empty", "single", "upper-eq", "upper-end"], voc, sp, out, uv_feasible,
                      lambda o: "return %s with effect '%s'" % o)
            t.check(ctx, "sorted-vector.%s(%s)" % (name, sig(fn)), fn, ps)
            deref_guard(ctx, "sorted-vector.%s(%s).guard" % (name, sig(fn)), fn, ps, voc)
    for fn in prog.find(UV + "::UniqueVector"):
        pt = [t.s for t in fn.decl.ptypes]
        if pt and "initializer_list" in pt[0]:
            ps = ctx.run(prog, fn, CMP + PROP)
            bad = None
            for p in ps:
                v = final(p, THIS)
                names, c = [], v      # operations, last first
                while c[0] == "mut":
                    names.append(c[1])
                    c = c[2]
                if p.kind != "return":
                    continue
                if v[0] == "new":
                    bad = "the elements are neither sorted nor made unique"
                elif names and names[0] == "sorted" and "unique" in names:
                    pass
                elif v[0] == "mut" and v[1] == "erase" and "unique" in names and "sorted" in names:
                    if "sorted" in names[:names.index("unique")]:
                        bad = "duplicates are removed before sorting"
                    elif not (len(v) == 5 and v[3][0] == "itr" and v[3][2][0] == "unique_end" and v[3][3] == I(0)
                              and v[4] == ("itr", THIS, "end", I(0))):
                        bad = "the leftover duplicates are not erased exactly"
                elif set(names) <= {"sorted", "unique", "erase"}:
                    bad = "the elements are not %s" % ("sorted" if "sorted" not in names else "made unique")
            oid = "sorted-vector.ctor(list)"
            ctx.expect(oid, bad is None, "%s: %s" % (fn.qn, bad), fn.loc, fn.qn)


def deref_guard(ctx, oid, fn, ps, voc):
    """The found position is compared with the value only when it is not the end."""
    for p in ps:
        seen = set()
        for a, v in p.facts:
            n, pol = strip(a)
            w = voc(n)
            if w and w != SKIP:
                if any(x[0] == "idx" and x[1] == THIS and x[2][0] == "lin" for x in walk(n)):
                    # The last element.
                    if "empty" not in seen and "end" not in seen:
                        ctx.violation(oid, "%s reads the last element before excluding an empty vector" % fn.qn, fn.loc, fn.qn, fact_lines(p))
                        return
                    continue
                if w[0] == "eq" and "end" not in seen:
                    ctx.violation(oid, "%s reads the found position before excluding the end" % fn.qn, fn.loc, fn.qn,
                                  fact_lines(p))
                    return
                seen.add(w[0])
    ctx.ok(oid)


def sig(fn):
    return ",".join(t.s.replace("symbolic::", "") for t in fn.decl.ptypes)


# ---- HashSet ---------------------------------------------------------------

class HashSetModel:
    """The private representation, found by type rather than by name."""

    def __init__(self, ctx, prog):
        c = prog.cls(HS)[0]
        b = [n for n in c.fields if c.ftype(n).s.startswith("std::vector<") and "UniqueVector" in c.ftype(n).s]
        if len(b) != 1:
            raise AnalysisError("HashSet: cannot tell which field holds the buckets")
        self.bf = b[0]
        self.B = ("fld", THIS, self.bf)
        self.NB = ("size", ("init", self.B))
        self.size_lv = getter_field(prog, HS + "::size")
        self.sizes = self.size_lv is not None and self.size_lv != self.B

    def hash_arg(self, t):
        """t is H(x): returns x's lvalue."""
        if t[0] == "call" and (t[1].startswith("std::hash<symbolic::") or t[1] == "symbolic::PropositionBase::hash"):
            x = t[-1]
            if x[0] == "init":
                return x[1]
            return x
        return None

    def norm_index(self, ix, nb):
        """Bucket index as a term over H (the element's hash) and N (bucket count)."""
        xs = []

        def f(t):
            h = self.hash_arg(t) if isinstance(t, tuple) and t and isinstance(t[0], str) else None
            if h is not None:
                xs.append(h)
                return ("H",)
            if t == nb:
                return ("N",)
            return None
        return subst(ix, f), xs


UVM = [UV + "::insert", UV + "::erase", UV + "::contains", UV + "::emplace", UV + "::UniqueVector"]


def bucket_calls(p, M, deep=False):
    evs = all_events(p.ev) if deep else p.ev
    for e in evs:
        if e.k == "call" and e.qn.startswith(UV + "::") and e.name in ("insert", "erase", "contains", "emplace"):
            yield e


def copies(ctx, prog):
    """Copies and moves of the set classes carry every field."""
    for cls in (HS, "symbolic::State", "symbolic::PartialState"):
        c = prog.cls(cls)[0]
        fields = list(c.fields)
        nm = cls.split("<")[0].rsplit("::", 1)[1]
        base = cls
        for fn in prog.find(base + "::" + nm, lambda f: len(f.f["p"]) == 1 and
                            f.decl.ptypes[0].s.replace("const ", "").rstrip(" &") in (cls,), required=False) + \
                prog.find(base + "::operator=", required=False):
            for p in ctx.run(prog, fn, ["std::*"]):
                if p.kind != "return":
                    continue
                same_obj = any(v and a == eq(("addr", THIS), ("addr", ("param", 0))) for a, v in p.facts)
                if same_obj:
                    continue
                for f in fields:
                    v = final(p, ("fld", THIS, f))
                    src = ("init", ("fld", ("param", 0), f))
                    got = any(x == src for x in walk(v)) or any(x == ("init", ("param", 0)) for x in walk(v))
                    untouched = v == ("init", ("fld", THIS, f)) or v[0] in ("int", "list") or v == ("new",)
                    ctx.expect("copy.%s.%s" % (nm, f), True if got else (False if untouched else None),
                               "%s: %s is not taken over from the source" % (fn.qn, f), fn.loc, fn.qn)
    ctx.ok("copy.members")
