"""C15: objects and their types: the hierarchy, names and lists the domain declares."""
from rules.summ import *

LEVEL = "other"
EXPLAIN = ("Path summaries of the functions that build objects, walk type hierarchies and collect objects are interpreted "
           "over a model of the parsed domain: type chains of every short length with opaque names, with and without a "
           "root named 'object', missing type and constant tables, and lists of opaque symbols. Each result is compared "
           "with what the declarations say. Nothing is executed.")

PRIM = ["symbolic::Pddl::*", "symbolic::Object::name"]
O = "symbolic::Object"
T = "symbolic::Object::Type"


def run(ctx):
    W = World(ctx)
    W.sym = field_of(W.prog("src/object.cc"), O + "::symbol")
    W.typ = field_of(W.prog("src/object.cc"), O + "::type")
    W.tsym = field_of(W.prog("src/object.cc"), T + "::symbol")
    W.hash = field_of(W.prog("src/object.cc"), O + "::hash")
    for g in (subtypes, names, ordering, objects_, lookup, collections):
        ctx.group(g.__name__.rstrip("_"), g, ctx, W)


def chain(names, root=None):
    """A pddl_type whose ancestors have the given names; NULLP for none."""
    t = NULLP
    for n in reversed(names):
        nm = Text(n) if n == "object" else word(n)
        t = Rec("type " + n, getName=nm, getNameRef=nm, type=t)
    return t


CHAINS = [[], ["object"], ["t1"], ["t1", "object"], ["t1", "t2"], ["t1", "t2", "object"], ["t1", "t2", "t3"]]


def type_rec(W, names):
    t = chain(names)
    return Rec("type", **{W.tsym: t, "name": Text("object") if not names else t.f["getName"]})


def globs(run, t):
    return NotImplemented


def consts(W):
    """Constants with static storage of the unit, by their initialisers."""
    def m(run, t):
        return NotImplemented
    return m


def subtypes(ctx, W):
    u = "src/object.cc"
    for fn in W.find(u, T + "::IsSubtype"):
        s = fn.tu.type(fn.f["p"][0]["t"]).s
        for c in CHAINS:
            for q in ["object", "t1", "t2", "t3", "other"]:
                want = q == "object" or q in c
                w = Text("object") if q == "object" else word(q)
                if "string" in s:
                    arg = w
                else:
                    arg = Rec("type " + q, **{"name": w, W.tsym: chain([q])})
                    # The default type has no symbol.
                W.eval("subtype.%s.%s.%s" % ("name" if "string" in s else "type", "-".join(c) or "none", q), fn, [],
                       {0: arg}, type_rec(W, c), truth_is(want),
                       "whether a type declared as %s is a subtype of %s" % (" - ".join(c) or "nothing", q))
        if "string" not in s:
            for c in CHAINS:
                W.eval("subtype.type.%s.default" % ("-".join(c) or "none"), fn, [],
                       {0: Rec("type", **{"name": Text("object"), W.tsym: NULLP})}, type_rec(W, c), truth_is(True),
                       "whether a type declared as %s is a subtype of the default type" % (" - ".join(c) or "nothing"))


def truth_is(want):
    def chk(o):
        if o.kind == "throw":
            return "throws"
        if not isinstance(o.value, bool):
            return None
        return True if o.value == want else "yields %s" % str(o.value).lower()
    return chk


def equals(want, what=""):
    def chk(o):
        if o.kind == "throw":
            return "throws"
        return True if o.value == want else "yields %r where %r was expected" % (o.value, want)
    return chk


def names(ctx, W):
    u = "src/object.cc"
    fn = W.one(u, T + "::name")
    ls = W.one(u, T + "::ListTypes")
    for c in CHAINS:
        tag = "-".join(c) or "none"
        rec = type_rec(W, c)
        W.eval("type.name." + tag, fn, [], {}, rec, equals(Text("object") if not c else rec.f["name"]),
               "the name of a type declared as %s" % (" - ".join(c) or "nothing"))
        full = c if c and c[-1] == "object" else c + ["object"]
        W.eval("type.list." + tag, ls, [], {}, rec,
               equals(Items([Text("object") if n == "object" else word(n) for n in full])),
               "the types of an object declared as %s" % (" - ".join(c) or "nothing"))
    nm = W.one(u, O + "::name")
    sym = symbol("a1")
    W.eval("object.name", nm, [], {}, Rec("object", **{W.sym: sym}), equals(word("a1")), "the name of an object")


def symbol(n, type_=NULLP):
    w = word(n)
    return Rec("symbol " + n, getName=w, getNameRef=w, type=type_)


def ordering(ctx, W):
    u = "src/object.cc"

    def by(run, a, b):
        if isinstance(a, Text) and isinstance(b, Text):
            return repr(a) < repr(b)
        raise Unknown("an order")
    for fn in W.find(u, "symbolic::operator==", second("Object::Type")):
        for a in CHAINS[:4]:
            for b in CHAINS[:4]:
                x, y = type_rec(W, a), type_rec(W, b)
                W.eval("type.same.%s.%s" % ("-".join(a), "-".join(b)), fn, [], {0: x, 1: y}, None,
                       truth_is(x.f["name"] == y.f["name"]), "whether two types are the same")
    for fn in W.find(u, "symbolic::operator<", second("Object::Type")):
        for a in (["object"], ["t1"], ["t2"]):
            for b in (["object"], ["t1"], ["t2"]):
                x, y = type_rec(W, a), type_rec(W, b)
                W.eval("type.less.%s.%s" % ("-".join(a), "-".join(b)), fn, [], {0: x, 1: y}, None,
                       truth_is(repr(x.f["name"]) < repr(y.f["name"])), "the order of two types", order=by)


def domain(types=NULLP, constants=NULLP, objects=None):
    d = Rec("domain", types=types, constants=constants)
    p = NULLP if objects is None else Rec("problem", objects=objects)
    a = Rec("analysis", the_domain=d, the_problem=p)
    return Rec("pddl", symbol=a)


def hashed(run, t):
    if t[0] == "call" and ("hash" in t[1]):
        return Made("hash", (run.eval(t[-1]),))
    if t[0] in ("call", "refto") and t[1] == "symbolic::Object::name":
        o = run.eval(t[2])
        for f, v in o.f.items():
            if isinstance(v, Rec) and "getName" in v.f and "type" in v.f:
                return v.f["getName"]
    return NotImplemented


def object_is(W, sym, type_):
    def chk(o):
        if o.kind == "throw":
            return "throws"
        s = o.run.eval(final(o.path, ("fld", THIS, W.sym)))
        if s is not sym:
            return "stands for %r" % s
        t = o.run.eval(final(o.path, ("fld", ("fld", THIS, W.typ), W.tsym)))
        if t is not type_:
            return "has %r where %r was declared" % (t, type_)
        h = o.run.eval(final(o.path, ("fld", THIS, W.hash)))
        return True if h == Made("hash", (sym.f["getName"],)) else "has the hash of something else"
    return chk


def tables():
    """(name, type table, type of an object without a declared type)."""
    r1, r2 = chain(["object"]), chain(["t1", "object"])
    r3, r4 = chain(["t1"]), chain(["t2", "t3"])
    o2 = r2.f["type"]
    return [("none", NULLP, NULLP), ("empty", Items(), NULLP), ("root", Items([r1]), r1), ("chain", Items([r2]), o2),
            ("no-root", Items([r3, r4]), NULLP), ("second", Items([r3, r2]), o2), ("deep", Items([r4, r3, r2]), o2)]


def objects_(ctx, W):
    u = "src/object.cc"
    for fn in W.find(u, O + "::Object"):
        ps = [fn.tu.type(p["t"]).s for p in fn.f["p"]]
        if len(ps) != 2 or "string" in ps[1]:
            continue
        for name, table, root_ in tables():
            for declared in (None, ["t1"], ["t1", "object"], ["t1", "t2"]):
                ty = NULLP if declared is None else chain(declared)
                sym = symbol("a1", ty)
                first = domain(table) if "Pddl" in ps[0] else table
                W.eval("object.%s.%s.%s" % ("pddl" if "Pddl" in ps[0] else "types", name,
                                            "-".join(declared) if declared else "untyped"),
                       fn, PRIM, {0: first, 1: sym}, None, object_is(W, sym, root_ if declared is None else ty),
                       "an object %s, types declared: %s" % (
                           "of type " + " - ".join(declared) if declared else "without a type", name), method=hashed)


def lookup(ctx, W):
    u = "src/object.cc"
    for fn in W.find(u, O + "::Object"):
        ps = [fn.tu.type(p["t"]).s for p in fn.f["p"]]
        if len(ps) != 2 or "string" not in ps[1]:
            continue
        ty = chain(["t1", "object"])
        c1, c2, o1, o2 = symbol("c1", ty), symbol("c2"), symbol("o1", ty), symbol("o2")
        root_ = ty.f["type"]
        table = Items([ty])
        for tag, cs, os2 in (("both", Items([c1, c2]), Items([o1, o2])), ("no-constants", NULLP, Items([o1, o2])),
                             ("no-problem", Items([c1, c2]), None), ("empty", Items(), Items()),
                             ("holes", Items([NULLP, c1, c2]), Items([NULLP, o1, o2]))):
            present = [x for x in (cs.v if cs is not NULLP else ()) if x is not NULLP] + \
                      [x for x in (os2.v if os2 is not None else ()) if x is not NULLP]
            for q in ("c1", "c2", "o1", "o2", "other"):
                hit = [x for x in present if x.f["getName"] == word(q)]
                if hit:
                    t = hit[0].f["type"]
                    want = object_is(W, hit[0], root_ if t is NULLP else t)
                else:
                    want = lambda o: True if o.kind == "throw" else "is accepted"
                W.eval("lookup.%s.%s" % (tag, q), fn, PRIM, {0: domain(table, cs, os2), 1: word(q)}, None, want,
                       "the object named %s (%s)" % (q, "declared" if hit else "not declared"), method=hashed)


def made_of(first, syms):
    want = [Made(None, (first, s)) for s in syms]

    def chk(o):
        if o.kind == "throw":
            return "throws"
        if not isinstance(o.value, Items):
            return None
        return True if list(o.value.v) == want else "yields %d objects: %r" % (
            len(o.value.v), [x.args[-1] if isinstance(x, Made) and x.args else x for x in o.value.v])
    return chk


UNITS = ["src/pddl.cc", "src/action.cc", "src/predicate.cc", "src/axiom.cc", "src/formula.cc"]


def collections(ctx, W):
    seen = set()
    for u in UNITS:
        prog = W.prog(u)
        for fn in prog.find(O + "::CreateList", required=False):
            W._progs[id(fn)] = prog
            ps = [fn.tu.type(p["t"]).s for p in fn.f["p"]]
            if tuple(ps) in seen:
                continue
            seen.add(tuple(ps))
            tag = "%s.%d" % ("pddl" if "Pddl" in ps[0] else "types", len([1 for x in seen if x[0] == ps[0]]))
            first = Rec("first")
            W.eval("list.%s.none" % tag, fn, [O + "::Object"], {0: first, 1: NULLP}, None, made_of(first, []),
                   "the objects of no list")
            for n in range(4):
                syms = [symbol("a%d" % i) for i in range(n)]
                W.eval("list.%s.%d" % (tag, n), fn, [O + "::Object"], {0: first, 1: Items(syms)}, None,
                       made_of(first, syms), "the objects of a list of %d symbols" % n)
