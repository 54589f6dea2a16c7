"""C13: parameter generators enumerate the objects of each parameter's type."""
from common import *
from rules.seqs import *
from rules import small_comb

LEVEL = "other"
EXPLAIN = ("Every constructor and assignment of the parameter generator is summarised path by path: the stored option lists "
           "must be, per parameter in order, the objects recorded for its type, and the enumerated options must be pointers "
           "to exactly the generator's own stored lists (nothing enumerated when a type has no objects), also in every copy. "
           "Together with C12 this fixes the enumeration. Nothing is executed.")

PG = "symbolic::ParameterGenerator"
CG = "symbolic::CombinationGenerator<"
PRIM = ["symbolic::Pddl::*", "symbolic::Object::*", CG + "*"]
THIS = ("this",)


def run(ctx):
    prog = ctx.program(["src/utils/parameter_generator.cc"], [])
    F = Fields(prog)
    ctx.group("construct", construct, ctx, prog, F)
    ctx.group("copies", copies, ctx, prog, F)
    ctx.group("pddl", getter, ctx, prog, F)
    ctx.group("small", small_comb.parameters, ctx, ctx.program(["src/utils/parameter_generator.cc"], ["comb"]), F)
    ctx.overrule(r"construct\.", r"small\.")


class Fields:
    def __init__(self, prog):
        c = prog.cls(PG)[0]
        ts = field_by_type(prog, PG, lambda t: t.cls == "std::vector" and "std::vector<std::vector<" in t.s.replace(
            "class ", "") and not t.ptr)
        ps = field_by_type(prog, PG, lambda t: t.ptr and "Pddl" in t.s)
        if len(ts) != 1 or len(ps) != 1:
            raise AnalysisError("ParameterGenerator: stored option lists or Pddl not found")
        self.types, self.pddl = ("fld", THIS, ts[0]), ("fld", THIS, ps[0])
        self.tname, self.pname = ts[0], ps[0]
        base = [b.cls for b in c.bases if b.cls and prog.classes.get(b.cls)]
        self.base = prog.cls(base[0])[0]


def base_value(p, F):
    """The value of the base part when a path ends: a term, None when unknown."""
    vs = [final(p, ("fld", THIS, f)) for f in F.base.fields]
    if all(v == ("init", ("fld", THIS, f)) for v, f in zip(vs, F.base.fields)):
        return ("init", THIS)
    srcs = set()
    for v, f in zip(vs, F.base.fields):
        if v[0] == "get" and v[2] == f:
            srcs.add(v[1])
        elif v[0] == "init" and v[1][0] == "fld" and v[1][2] == f:
            srcs.add(("init", v[1][1]))
        else:
            srcs.add(None)
    if len(srcs) == 1:
        return srcs.pop()
    # Every field at its default: the default constructor's value.
    dflt = (("list",), ("emptyc",), I(0), ("bool", False))
    return ("new", F.base.qn) if all(v in dflt for v in vs) else None


def is_new(b):
    return b is not None and b[0] == "new"


def lookup(t):
    """(map, key) of a map lookup."""
    if t[0] == "call" and t[1].endswith("::at") and len(t) == 4:
        return t[2], t[3]
    if t[0] == "get" and t[2] == "second":
        t = t[1]
    if t[0] == "init":
        q = t[1]
        if q[0] == "fld" and q[2] == "second":
            q = q[1]
        if q[0] == "idx":
            k = q[2]
            if k[0] == "found":
                k = k[1]
            if k[0] == "at" and k[1][0] == "find":
                k = k[1][2]
            return ("init", q[1]), k
    return None


def is_object_map(t):
    return any(x[0] in ("call", "refto") and x[1].endswith("Pddl::object_map") for x in walk(t))


def type_name_of(key):
    """The parameter term whose type's name a lookup key is: (term, verdict)."""
    names = [x for x in walk(key) if x[0] in ("call", "refto")]
    tail = [x[1].rsplit("::", 2)[-2:] for x in names]
    if tail == [["Type", "name"], ["Object", "type"]] or tail == [["Object", "name"], ["Object", "type"]]:
        return True
    if all(t[-1] in ("name", "type", "hash", "symbol") for t in tail):
        return False
    return None


def construct(ctx, prog, F):
    for fn in prog.find(PG + "::ParameterGenerator"):
        ps = [fn.tu.type(x["t"]) for x in fn.f["p"]]
        if len(ps) != 2:
            continue
        pi = [i for i, t in enumerate(ps) if "vector" in t.s]
        di = [i for i, t in enumerate(ps) if "Pddl" in t.s]
        if not pi or not di:
            continue
        params = ("init", ("param", pi[0]))
        for p in ctx.run(prog, fn, PRIM):
            if p.kind != "return":
                ctx.expect("construct.throws", None, "constructing fails", last_loc(p, fn), fn.qn)
                continue
            one_construction(ctx, fn, p, F, params, ("param", di[0]))


def sizes(p, facts):
    """Facts with the sizes of completed collections replaced by those of what they cover."""
    out = []
    for a, v in facts:
        for x in list(walk(a)):
            if x[0] == "size" and x[1][0] == "phi":
                s = sequence(p, x[1])
                if s and len(s) == 1 and isinstance(s[0], Each) and s[0].done and len(s[0].lp.over) == 1 and \
                        all(ip.flow is not None or items is not None and len(items) == 1 for ip, items in s[0].rows):
                    a = replace(a, x, ("size", s[0].lp.over[0]))
        out.append((a, v))
    return out


def replace(t, x, y):
    if t == x:
        return y
    if isinstance(t, tuple):
        r = tuple(replace(u, x, y) if isinstance(u, tuple) else u for u in t)
        return renorm(r)
    return t


def renorm(r):
    if r and r[0] == "eq":
        if r[1] == r[2]:
            return TRUE
        return r
    if r and r[0] == "lin":
        d = {}
        for a, n in r[2]:
            d[a] = d.get(a, 0) + n
        return mk_lin(r[1], d)
    return r


def feasible(p, params):
    """False when what a path assumes cannot hold together."""
    facts = sizes(p, p.facts)
    n = ("size", params)
    nonempty = None
    for a, v in facts:
        if a == TRUE and not v or a == FALSE and v:
            return False
        if a[0] == "more" and v and params in [a[2]]:
            nonempty = True
        if a[0] == "pos" and a[1] == n and nonempty and not v:
            return False
        if a[0] == "eq" and nonempty and v and set(a[1:]) == {n, I(0)}:
            return False
        if a[0] == "more" and v and sequence(p, a[2]) == []:
            return False
        if a[0] == "eq" and v and n in a[1:]:
            o = a[1] if a[2] == n else a[2]
            if o[0] == "size" and shorter(p, o[1], params):
                return False
    return consistent(facts)


def shorter(p, v, params):
    """A collection that a loop over the parameters left unfinished is shorter than they are."""
    s = sequence(p, v)
    return bool(s and len(s) == 1 and isinstance(s[0], Each) and s[0].done is False and s[0].lp.over == [params] and all(
        items is not None and len(items) <= (1 if ip.flow is None else 0) for ip, items in s[0].rows))


def one_construction(ctx, fn, p, F, params, pddl):
    if feasible(p, params) is False:
        return
    loc = fn.loc
    types, base = final(p, F.types), base_value(p, F)
    seq = sequence(p, types)
    miss = missing(p)
    got = final(p, F.pddl)
    ctx.expect("construct.pddl", True if got == ("addr", pddl) else False if got[0] in ("null", "init") or got == (
        "nullptr",) else None, "%s: the Pddl given is not remembered" % fn.qn, loc, fn.qn)
    full = None
    if seq is not None and len(seq) == 1 and isinstance(seq[0], Each) and seq[0].done:
        full, why, wl = lists_ok(p, seq[0], params)
        if full is not True:
            ctx.expect("construct.lists", full, "%s: %s" % (fn.qn, why), wl or loc, fn.qn)
            return
        ctx.expect("construct.lists", True, "", loc, fn.qn)
        miss = False if miss is None else miss
    elif seq == []:
        full = False
    if base is None:
        ctx.expect("construct.enumerated", None, "the options enumerated are not recognised", loc, fn.qn)
        return
    if base == ("init", THIS) or is_new(base) and len(base) == 2:
        # Nothing is enumerated.
        if miss is True:
            ctx.expect("construct.enumerated", True, "", loc, fn.qn)
        elif full is True:
            ctx.expect("construct.enumerated", False if not foreign(p, params) else None,
                       "%s: nothing is enumerated although every parameter's type has objects" % fn.qn, loc, fn.qn)
        else:
            none = any(a[0] == "more" and not v and a[2] == params or a == ("pos", ("size", params)) and not v
                       for a, v in p.facts)
            ctx.expect("construct.enumerated", None if not none else False,
                       "%s: nothing is enumerated without parameters" % fn.qn, loc, fn.qn)
        return
    ok, why, wl = options_ok(p, base, F, types)
    if ok is True and miss is True:
        none = seq == []
        ctx.expect("construct.enumerated", False if none or full is not True else None,
                   "%s: tuples are enumerated although a parameter's type has no objects" % fn.qn, loc, fn.qn)
        return
    if ok is True and full is not True:
        ok, why = None, "the stored lists are not recognised"
    ctx.expect("construct.enumerated", ok, "%s: %s" % (fn.qn, why), wl or loc, fn.qn)


def foreign(p, params):
    """Whether a path depends on something unknown."""
    for a, v in p.facts:
        if a[0] == "more":
            continue
        if linear_atom(a):
            continue
        return True
    return False


def missing(p):
    """Whether a path found a type without objects: True, False (found all) or None."""
    for e in all_events(p.ev):
        if e.k == "loop":
            lp = e.loop
            if finished(p, lp) is False:
                # Left in the middle: every way of doing so must be for a missing type.
                brk = [ip for ip in lp.paths if ip.flow is not None]
                if brk and all(iter_missing(ip) for ip in brk):
                    return True
                return None
    for e in p.ev:
        if e.k == "catch" and e.args and caught_lookup(e.args[0]):
            return True
    return None


def caught_lookup(exc):
    return exc is not None and exc[0] == "exc"


def iter_missing(ip):
    for e in ip.events:
        if e.k == "catch":
            return True
    for a, v in ip.facts:
        if a[0] == "eq" and v and any(x[0] == "itr" for x in a[1:]) and any(
                x[0] == "itr" and x[2] == "end" for x in a[1:]):
            return True
        if a[0] in ("member", "haskey") and not v:
            return True
        if a[0] == "pos" and not v and any(x[0] == "call" and x[1].endswith("::count") for x in walk(a)):
            return True
    return False


def closed_in(a):
    """A condition over the parameters, their objects and the collection built so far only."""
    ok = ("param", "this", "iter", "phi", "int", "str", "var", "tmp")
    for x in walk(a):
        if x[0] in ("call", "refto") and not x[1].endswith(("::object_map", "::name", "::type", "::hash", "::at")):
            return False
        if x[0] in ("apply", "ret", "itr", "lam"):
            return False
    return True


def lists_ok(p, e, params):
    lp = e.lp
    c = covers(lp, params)
    if c is not True:
        return c, "not every parameter has an option list, in order", lp.loc
    for ip, items in e.rows:
        if ip.flow is not None:
            continue
        if items is None:
            return None, "option lists not recognised", lp.loc
        if len(items) != 1:
            if iter_missing(ip) and not items:
                return False, "a parameter whose type has no objects is left out", lp.loc
            ext = [a for a, v in ip.facts if a[0] != "more" and not linear_atom(a) and not closed_in(a)]
            return (None if ext and len(items) < 2 else False), "each parameter must have one option list", lp.loc
        t = items[0]
        if iter_missing(ip):
            if t in (("list",), ("emptyc",)) or t[0] == "new" and len(t) == 2:
                return False, "a parameter whose type has no objects gets an empty list, which cannot be enumerated", lp.loc
            return None, "option lists not recognised", lp.loc
        m = lookup(t)
        if m is None or not is_object_map(m[0]):
            return None, "an option list is not a recorded object list", lp.loc
        d = elem_of(m[1], params[1], lp)
        if d is None:
            return None, "the looked-up type is not recognised", lp.loc
        if d != I(0):
            fixed = any(x[0] == "idx" and x[1] == params[1] and is_int(x[2]) for x in walk(m[1]))
            return (False if is_int(d) or fixed else None), "a parameter gets the objects of another parameter's type", lp.loc
        k = type_name_of(m[1])
        if k is not True:
            return k, "a parameter's objects are not looked up by the name of its type", lp.loc
    return True, "", lp.loc


def options_ok(p, base, F, types, moved=None):
    """The base enumerates pointers to the generator's own lists, all of them in order."""
    args = [x for x in base[2:] if not (x[0] == "new" and "allocator" in x[1])]
    if len(args) != 1:
        return None, "the options enumerated are not recognised", None
    seq = sequence(p, args[0])
    if seq is None or len(seq) != 1 or not isinstance(seq[0], Each):
        if seq == []:
            return False, "the stored lists are not enumerated", None
        return None, "the options enumerated are not recognised", None
    e = seq[0]
    lp = e.lp
    if e.done is not True:
        return (False if e.done is False else None), "the enumeration stops before the last parameter", lp.loc
    c = covers(lp, types)
    if c is not True:
        old = ("init", F.types)
        if old != types and (old in lp.over or lp.hi == ("size", old)):
            return False, "the options are taken from the stored lists before they are set", lp.loc
        if c is None and len(lp.over) == 1:
            c = None
        return c, "not every stored list is enumerated, in order", lp.loc
    for ip, items in e.rows:
        if ip.flow is not None:
            return None, "options not recognised", lp.loc
        if items is None:
            return None, "options not recognised", lp.loc
        if len(items) != 1:
            ext = [a for a, v in ip.facts if a[0] != "more"]
            return (None if ext and len(items) < 2 else False), "each parameter must have one option", lp.loc
        t = items[0]
        if t[0] != "addr" or t[1][0] != "idx":
            return None, "options not recognised", lp.loc
        lv, ix = t[1][1], t[1][2]
        if lv != F.types:
            if lv[0] == "fld" and lv[1][0] == "param":
                return False, "the enumerated options belong to the generator that was copied", lp.loc
            if root(lv)[0] in ("var", "tmp"):
                return False, "the enumerated options belong to a list that is gone", lp.loc
            return None, "options not recognised", lp.loc
        if ix != ("iter", lp.id):
            return (False if is_int(sub(ix, ("iter", lp.id))) or is_int(ix) else None), \
                "a parameter enumerates another one's list", lp.loc
    return True, "", lp.loc


def root(lv):
    while lv[0] in ("fld", "idx"):
        lv = lv[1]
    return lv


# ---- copies -------------------------------------------------------------------

def copies(ctx, prog, F):
    c = prog.cls(PG)[0]
    seen = {}
    for qn in (PG + "::ParameterGenerator", PG + "::operator="):
        for fn in prog.find(qn, lambda f: len(f.f["p"]) == 1, required=False):
            k = fn.decl.kind
            if k in ("copy", "move", "copy=", "move="):
                seen[k] = fn
                for p in ctx.run(prog, fn, PRIM):
                    one_copy(ctx, fn, p, F, k)
    for k in ("copy", "copy=", "move", "move="):
        if k in seen:
            continue
        ms = [c.tu.decl(m) for m in c.c["methods"]]
        ms = [d for d in ms if d.kind == k]
        dflt = not ms or all(d.d.get("defaulted") and not d.d.get("deleted") for d in ms)
        plain = F.base.qn.startswith(CG[:-1])
        if k.startswith("move"):
            # Moving keeps the lists' addresses; without a move the copy is used.
            ctx.expect("copies." + k, True if dflt and plain else None, "moving not recognised", fnloc_cls(c), PG)
        else:
            ctx.expect("copies." + k, False if dflt and plain else None,
                       "%s: the implicit copy enumerates the lists of the generator that was copied" % PG, fnloc_cls(c), PG)


def fnloc_cls(c):
    return "%s:%d" % (c.c["file"].split("/repo/")[-1], c.c["l"])


def is_empty_fact(a, v, other):
    """What a fact says about whether the other generator enumerates nothing."""
    if a[0] == "call" and a[1].endswith("::empty") and a[2] == other:
        return v
    n = [x for x in walk(a) if x[0] == "call" and x[1].endswith("::size") and x[2] == other]
    if n:
        if a == ("pos", n[0]):
            return not v
        if a == ("eq0", n[0]) or a[0] == "eq" and set(a[1:]) == {n[0], I(0)}:
            return v
    return None


def one_copy(ctx, fn, p, F, kind):
    oid = "copies." + kind
    other = ("init", ("param", 0))
    if p.kind != "return":
        ctx.expect(oid, None, "copying fails", last_loc(p, fn), fn.qn)
        return
    same = [v for a, v in p.facts if a[0] == "eq" and set(a[1:]) == {("addr", THIS), ("addr", ("param", 0))}]
    if True in same:
        if "=" in kind and not any(touched(p, ("fld", THIS, f)) for f in [F.tname, F.pname] + list(F.base.fields)):
            ctx.expect(oid + ".self", True, "", fn.loc, fn.qn)
        else:
            ctx.expect(oid + ".self", None, "self-assignment changes the generator", fn.loc, fn.qn)
        return
    unknown = [a for a, v in p.facts if a[0] not in ("more", "haskey") and not unrelated(a, F) and not (
        a[0] == "eq" and set(a[1:]) == {("addr", THIS), ("addr", ("param", 0))}) and
        is_empty_fact(a, v, other) is None and not iter_fact(a)]
    bad = None if unknown else False
    got = final(p, F.pddl)
    ctx.expect(oid + ".pddl", True if got == ("init", ("fld", ("param", 0), F.pname)) else
               (bad if got in (("init", F.pddl), ("null",)) or got[0] == "null" else None),
               "%s: the copy does not belong to the same Pddl" % fn.qn, fn.loc, fn.qn)
    src = ("init", ("fld", ("param", 0), F.tname))
    types, base = final(p, F.types), base_value(p, F)
    # Lists that were moved away are gone.
    for e in all_events(p.ev):
        if e.k == "use-after-move":
            ctx.expect(oid + ".lists", bad, "%s: reads lists that were moved away" % fn.qn, e.loc or fn.loc, fn.qn)
            return
    if types != src:
        w = sequence(p, types)
        if w is not None and len(w) == 1 and isinstance(w[0], Each) and w[0].done and covers(w[0].lp, src) is True and all(
                items is not None and len(items) == 1 and items[0] == (
                    "init", ("idx", src[1], ("iter", w[0].lp.id))) for ip, items in w[0].rows if ip.flow is None):
            pass
        else:
            ctx.expect(oid + ".lists", bad if types in (("init", F.types), ("list",), ("emptyc",)) else None,
                       "%s: the copy does not have the lists of the original" % fn.qn, fn.loc, fn.qn)
            return
    ctx.expect(oid + ".lists", True, "", fn.loc, fn.qn)
    none = [w for w in (is_empty_fact(a, v, other) for a, v in p.facts) if w is not None]
    if base is None:
        ctx.expect(oid + ".enumerated", None, "options not recognised", fn.loc, fn.qn)
        return
    if base == other or base == ("init", ("param", 0)):
        ok = True if kind in ("move", "move=") and moved_lists(p, F) else bad
        ctx.expect(oid + ".enumerated", ok, "%s: the copy enumerates the lists of the original, not its own" % fn.qn,
                   fn.loc, fn.qn)
        return
    if base == ("init", THIS) and "=" in kind:
        ctx.expect(oid + ".enumerated", bad, "%s: the assigned generator still enumerates its old options" % fn.qn,
                   fn.loc, fn.qn)
        return
    if base == ("init", THIS) or is_new(base) and len(base) == 2:
        ok = True if True in none else (bad if False in none or not unknown else None)
        ctx.expect(oid + ".enumerated", ok, "%s: the copy of a generator with tuples enumerates none" % fn.qn,
                   fn.loc, fn.qn)
        return
    ok, why, wl = options_ok(p, base, F, types)
    if ok is True and False not in none:
        # Without any lists the original may enumerate nothing or the empty tuple.
        ok = bad
        why = "the copy of a generator without tuples enumerates some"
        if none and False not in none:
            ok = bad
    elif ok is False:
        ok = bad
    ctx.expect(oid + ".enumerated", ok, "%s: %s" % (fn.qn, why), wl or fn.loc, fn.qn)


def unrelated(a, F):
    """A condition on the sizes or the Pddl of the two generators: neither fixes the lists."""
    for x in walk(a):
        if x[0] in ("call", "refto", "ret", "apply", "new", "phi") and not (
                x[0] == "call" and x[1].endswith(("::size", "::empty"))):
            return False
        if x[0] == "fld" and x[2] in F.base.fields:
            return False
    bare = set(walk(a)) - {y for x in walk(a) if x[0] in ("size", "isempty") for y in walk(x)}
    return not any(x[0] == "fld" and x[2] == F.tname for x in bare) and \
        not any(x in (("addr", THIS), ("addr", ("param", 0))) for x in walk(a))


def iter_fact(a):
    return a[0] == "pos" and any(x[0] == "iter" for x in walk(a))


def moved_lists(p, F):
    return any(q == ("fld", ("param", 0), F.tname) or q == ("param", 0) for q in p.S.moved)


def getter(ctx, prog, F):
    for fn in prog.find(PG + "::pddl"):
        for p in ctx.run(prog, fn, PRIM):
            ok = isinstance(p.value, L) and p.value.p == ("deref", ("init", F.pddl))
            ctx.expect("pddl", True if ok else None, "%s: not the Pddl it was made for" % fn.qn, fn.loc, fn.qn)
