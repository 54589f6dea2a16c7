"""C18: normal forms mean what the formula or the effects they were made from mean."""
from rules.summ import *

LEVEL = "other"
EXPLAIN = ("Path summaries of the conversions to normal form, with simplification, conjunction, disjunction and negation "
           "inlined, are interpreted over small collections of opaque literals: every kind of goal with parts that are "
           "false, true, a literal or a small normal form, effects of every kind, and clauses. The result is compared by "
           "truth table with the combination of the parts, and must list minimal, consistent conjunctions in order. "
           "Nothing is executed.")

U = "src/normal_form.cc"
D = "symbolic::DisjunctiveFormula::"
PRIM = ["symbolic::PartialState::IsConsistent", "symbolic::PartialState::contains", "symbolic::PartialState::insert",
        "symbolic::State::*", "symbolic::HashSet*", "symbolic::Proposition*", "symbolic::Object*", "symbolic::Pddl::*",
        "symbolic::Formula::*", "symbolic::Axiom::*", "symbolic::CombinationGenerator*", "symbolic::ParameterGenerator*",
        "symbolic::Action::*", D + "Create"]


class Forms(World):
    """A world of literals, partial states and normal forms."""

    def fields(self, alias):
        base = World.fields(self, alias)

        def field(run, v, name):
            if isinstance(v, Made) and len(v.args) == 2 and name in (self.pos, self.neg):
                x = v.args[0 if name == self.pos else 1]
                if isinstance(x, Items):
                    return x
            if isinstance(v, Built) and name in (self.pos, self.neg) and name not in v.f:
                return Items((), "set")
            return base(run, v, name)
        return field

    def literals(self, v):
        """The literals of a conjunction: (positive, negative), or None."""
        if isinstance(v, Made) and len(v.args) == 2 and all(isinstance(x, Items) for x in v.args):
            a, b = v.args
        elif isinstance(v, Rec) and (self.pos in v.f or self.neg in v.f):
            a, b = v.f.get(self.pos, Items()), v.f.get(self.neg, Items())
            if not isinstance(a, Items) or not isinstance(b, Items):
                return None
        else:
            return None
        ns = [[self.name(x) for x in s.v] for s in (a, b)]
        if any(x is None for s in ns for x in s):
            return None
        return tuple(tuple(sorted(set(s))) for s in ns)

    def name(self, p):
        if isinstance(p, Made) and len(p.args) == 2 and isinstance(p.args[0], Text):
            a = p.args[1]
            if isinstance(a, Rec) and "applied" in a.f:
                return "%r%s" % (p.args[0], a.what)
            if isinstance(a, Items) and all(isinstance(x, Rec) for x in a.v):
                return "%r(%s)" % (p.args[0], ",".join(x.what for x in a.v))
        return None

    def equal(self, a, b):
        x, y = self.literals(a), self.literals(b)
        if x is not None and y is not None:
            return x == y
        x, y = self.name(a), self.name(b)
        if x is not None and y is not None:
            return x == y
        return None

    def less(self, run, a, b):
        x, y = self.literals(a), self.literals(b)
        if x is None or y is None:
            raise Unknown("an order")
        return x < y

    def partial(self, pos, neg):
        return Rec("conjunction", **{self.pos: Items(pos, "set"), self.neg: Items(neg, "set")})

    def hook(self, params, this, made, method):
        h = World.hook(self, params, this, made, method)

        def g(run, t):
            k = t[0]
            if k == "none":
                return ()
            if k == "apply" and len(t) == 3:
                f = run.eval(t[1])
                if isinstance(f, Rec) and "apply" in f.f:
                    return f.f["apply"](run.eval(t[2]))
            if k == "mut":
                nm = last(t[1].split("#")[0])
                if t[1].startswith(("symbolic::State::", "symbolic::HashSet")):
                    return self.change(run, nm, t)
            if k == "enum" and t[1].split("::")[-1] in QUANT:
                return QUANT[t[1].split("::")[-1]]
            return h(run, t)
        return g

    def change(self, run, nm, t):
        v = run.eval(t[2])
        if not isinstance(v, Items):
            raise Unknown("a state")
        args = t[3:]
        if nm in ("reserve",):
            return v
        if nm == "clear":
            return Items((), "set")
        vs = [run.eval(a) for a in args]
        if nm in ("insert", "emplace") and len(vs) == 2 and all(isinstance(x, It) for x in vs):
            new = vs[0].v.v[vs[0].pos:vs[1].pos] if vs[0].v == vs[1].v else None
            if new is None:
                raise Unknown("a range")
        elif nm in ("insert", "emplace") and len(vs) == 1:
            new = vs[0].v if isinstance(vs[0], Items) else (vs[0],)
        elif nm == "emplace" and len(vs) == 2:
            new = (Made("symbolic::Proposition", vs),)
        elif nm == "erase" and len(vs) == 1 and self.name(vs[0]) is not None:
            return Items([x for x in v.v if self.name(x) != self.name(vs[0])], "set")
        else:
            raise Unknown("a change of a state: %s" % nm)
        return self.union(v.v + tuple(new))

    def union(self, xs):
        out, seen = [], set()
        for x in xs:
            n = self.name(x)
            if n is None:
                raise Unknown("a literal")
            if n not in seen:
                seen.add(n)
                out.append(x)
        return Items(out, "set")


QUANT = {"E_FORALL": Rec("for all"), "E_EXISTS": Rec("there is")}
FIXED = {}          # literals whose value is known: name -> bool


def run(ctx):
    W = Forms(ctx)
    prog = W.prog(U)
    W.pos, W.neg = (field_of(prog, "symbolic::PartialState::" + n) for n in ("pos", "neg"))
    if W.pos is None or W.neg is None or W.pos == W.neg:
        raise AnalysisError("the parts of a partial state")
    creates = W.find(U, D + "Create")

    def one(what):
        r = [fn for fn in creates if what in fn.tu.type(fn.f["p"][1]["t"]).s]
        if len(r) != 1:
            raise AnalysisError("conversion of %s" % what)
        return r[0]
    W.goal, W.effects, W.cnf = one("goal"), one("effect_lists"), one("ConjunctiveFormula")
    W.all = creates
    for g in (literals, parts, negations, quantified, clauses, effects, public):
        ctx.group(g.__name__, g, ctx, W)


# ---- literals and normal forms -----------------------------------------
OBJ = {n: Rec(n, symbol=Rec("object " + n, **{"class": ["VAL::const_symbol"]})) for n in "xyz"}
for n in "pq":
    OBJ[n] = Rec("?" + n, symbol=Rec("parameter " + n, **{"class": ["VAL::var_symbol"]}))
TYPE = word("box")


def kind(n, ok):
    o = OBJ[n]
    o.f["type"] = Rec("type of " + n, boxes=ok)
    o.f["name"] = word("name " + n)
    o.f["hash_"] = Num(ord(n))
    return o


for n in "xyzpq":
    kind(n, n in "xp")


def lit(n):
    """A literal: a letter, or a built-in predicate of objects."""
    if n[0] == "=":
        return Made("symbolic::Proposition", [Text("="), Items([OBJ[n[1]], OBJ[n[2]]])])
    if n[0] == "!":
        return Made("symbolic::Proposition", [TYPE, Items([OBJ[n[1]]])])
    return Made("symbolic::Proposition", [word(n), Items()])


def known(W):
    out = {}
    for a, b in itertools.product("xyz", repeat=2):
        out[W.name(lit("=" + a + b))] = a == b
    for a in "pq":
        out[W.name(lit("=" + a + a))] = True
    for a in "xyzpq":
        out[W.name(lit("!" + a))] = a in "xp"
    return out


def form(W, text):
    """'F', 'T', or conjunctions of literals: 'a -b, c'."""
    if text == "F":
        return ()
    if text == "T":
        return (Rec("true", conjunctions=Items()),)
    cs = []
    for c in text.split(","):
        ls = c.split()
        cs.append(W.partial([lit(x) for x in ls if x[0] != "-"], [lit(x[1:]) for x in ls if x[0] == "-"]))
    return (Rec(text, conjunctions=Items(cs)),)


def clauses_of(W, f):
    """The conjunctions of an optional normal form: None when false, a list, or 'unknown'."""
    if f == ():
        return None
    if not isinstance(f, tuple) or len(f) != 1:
        raise Unknown("a normal form %r" % (f if "f" in dir() else v,))
    return listed(W, f[0])


def listed(W, v, field="conjunctions"):
    if isinstance(v, Rec) and field in v.f:
        v = v.f[field]
    elif isinstance(v, Made) and len(v.args) == 1:
        v = v.args[0]
    elif isinstance(v, Rec) and isinstance(v, Built) and not v.f:
        v = Items()
    if not isinstance(v, Items):
        raise Unknown("a normal form %r" % (f if "f" in dir() else v,))
    out = [W.literals(x) for x in v.v]
    if any(x is None for x in out):
        raise Unknown("a conjunction")
    return out


def atoms(fs):
    return {n for f in fs if f for c in f for s in c for n in s}


def holds(f, val):
    if f is None:
        return False
    return not f or any(all(val[n] for n in c[0]) and all(not val[n] for n in c[1]) for c in f)


def worlds(W, fs):
    fix = known(W)
    names = sorted(atoms(fs))
    free = [n for n in names if n not in fix]
    for bits in itertools.product((False, True), repeat=len(free)):
        v = dict(zip(free, bits))
        v.update({n: fix[n] for n in names if n in fix})
        yield v


def shape(W, f):
    if f is None:
        return True
    for i, c in enumerate(f):
        if set(c[0]) & set(c[1]):
            return "lists a conjunction that contradicts itself: %s" % show_form([c])
        for j, d in enumerate(f):
            if i != j and set(d[0]) <= set(c[0]) and set(d[1]) <= set(c[1]):
                return "lists a redundant conjunction: %s" % show_form(f)
    return True


def show_form(f):
    if f is None:
        return "false"
    if not f:
        return "true"
    return " or ".join("(%s)" % " and ".join(list(c[0]) + ["not " + x for x in c[1]]) for c in f)


def means(W, inputs, combine, result=None, ordered=True):
    """The result is equivalent to combine(values of the inputs)."""
    fs = [clauses_of(W, f) for f in inputs]

    def chk(o):
        if o.kind == "throw":
            return "throws"
        got = clauses_of(W, o.value if result is None else result(o))
        for v in worlds(W, fs + [got]):
            if holds(got, v) != combine([holds(f, v) for f in fs]):
                return "is %s, which differs when %s" % (show_form(got), ", ".join(
                    "%s is %s" % (k, "true" if b else "false") for k, b in sorted(v.items())) or "evaluated")
        r = shape(W, got)
        if r is not True:
            return r
        if ordered and got is not None and got != sorted(got):
            return "is not in order: %s" % show_form(got)
        return True
    return chk


def combined(W, fs, conj):
    """The normal form of a conjunction (disjunction) of normal forms given as lists."""
    if conj:
        cs = [((), ())]
        for f in fs:
            if f is None:
                return None
            if f:
                cs = [tuple(tuple(sorted(set(a[i]) | set(b[i]))) for i in (0, 1)) for a in cs for b in f]
    else:
        cs = []
        for f in fs:
            if f == []:
                return []
            cs += f or []
        if not cs:
            return None
    cs = [c for c in cs if not set(c[0]) & set(c[1])]
    if not cs:
        return None
    if ((), ()) in cs:
        return []
    cs = [c for c in set(cs) if not any(d != c and set(d[0]) <= set(c[0]) and set(d[1]) <= set(c[1]) for d in cs)]
    return sorted(cs)


# ---- goals ---------------------------------------------------------------
PDDL = Rec("model", object_map=Items([(TYPE, Items())], "map"), axioms=Rec("axioms"))
PARAMS = Items([Rec("?a"), Rec("?b")])
ARGS = Items([Rec("o1"), Rec("o2")])


class Node(Rec):
    """A part of a formula: its normal form for every list of arguments it may be given."""

    def __init__(self, what, cls=None, forms=None, **f):
        Rec.__init__(self, what, **f)
        self.f["class"] = [cls or "VAL::goal"]
        self.forms = forms or {}


def leaf(what, f):
    return Node(what, forms={(PARAMS, ARGS): f})


def hooks(W, bad=()):
    def made(run, t):
        cls = t[1].split("<")[0]
        if cls == "symbolic::State":
            if len(t) == 2:
                return Items((), "set")
            vs = [run.eval(x) for x in t[2:] if not (x[0] == "new" and "allocator" in x[1])]
            if len(vs) == 1 and isinstance(vs[0], Items):
                return W.union(vs[0].v)
            if len(vs) == 2 and all(isinstance(x, It) for x in vs):
                return W.union(vs[0].v.v[vs[0].pos:vs[1].pos])
            raise Unknown("a state")
        if cls == "symbolic::CombinationGenerator" and len(t) == 3:
            v = run.eval(t[2])
            if isinstance(v, Items) and all(isinstance(x, Items) for x in v.v):
                return Items([Items(c) for c in itertools.product(*[x.v for x in v.v])])
            raise Unknown("the options of a combination")
        if cls == "symbolic::ParameterGenerator" and len(t) == 4:
            m, v = run.eval(t[2]), run.eval(t[3])
            if m is not PDDL:
                raise Unknown("the objects of another model")
            for k, xs in COMBOS:
                if k == v:
                    return xs
            raise Raises("objects of %r are listed" % (v,), True)
        return NotImplemented

    def method(run, t):
        if t[0] not in ("call", "ret", "refto"):
            return NotImplemented
        qn, nm = t[1], last(t[1])
        if qn == D + "Create":
            vs = [run.eval(x) for x in t[2:]]
            if vs[0] is not PDDL:
                raise Unknown("another model")
            if len(vs) <= 3 and isinstance(vs[1], Rec) and "disjunctions" in vs[1].f:
                ds = listed(W, vs[1], "disjunctions")
                fs = [[((x,), ()) for x in d[0]] + [((), (x,)) for x in d[1]] for d in ds]
                return back(W, combined(W, fs, True))
            node = vs[1]
            if isinstance(node, Rec) and "formula" in node.f:
                node = node.f["formula"]
            if isinstance(node, Node):
                k = (vs[2], vs[3])
                if k in node.forms:
                    return node.forms[k]
                raise Raises("%s is converted with arguments %r for the parameters %r" % (node.what, vs[3], vs[2]), True)
            raise Unknown("a part of a formula")
        if qn.startswith(("symbolic::State::", "symbolic::HashSet")):
            v = run.eval(t[2])
            if nm in ("begin", "cbegin") and isinstance(v, Items):
                return It(v, 0)
            if nm in ("end", "cend") and isinstance(v, Items):
                return It(v, len(v.v))
            if nm in ("contains", "count") and isinstance(v, Items) and len(t) == 4:
                n = W.name(run.eval(t[3]))
                if n is None:
                    raise Unknown("a literal")
                r = n in [W.name(x) for x in v.v]
                return r if nm == "contains" else Num(int(r))
            if nm.startswith("operator*") or nm == "operator->":
                return run.target(v)
            if nm == "operator==" and len(t) == 4:
                w = run.eval(t[3])
                if isinstance(v, Items) and isinstance(w, Items):
                    return {W.name(x) for x in v.v} == {W.name(x) for x in w.v}
                if isinstance(v, It) and isinstance(w, It):
                    return v.pos == w.pos
            return NotImplemented
        if qn.startswith("symbolic::Proposition") and nm in ("name", "arguments"):
            v = run.eval(t[2])
            if isinstance(v, Made) and len(v.args) == 2:
                return v.args[0 if nm == "name" else 1]
        if qn == "symbolic::PartialState::IsConsistent":
            c = W.literals(run.eval(t[2]))
            if c is not None:
                return not set(c[0]) & set(c[1])
        if qn == "symbolic::PartialState::contains":
            c, n = W.literals(run.eval(t[2])), W.name(run.eval(t[3]))
            if c is not None and n is not None:
                return n in c[0]
        if qn == "symbolic::Axiom::IsConsistent" and len(t) == 4:
            c = W.literals(run.eval(t[3]))
            if c is not None and run.eval(t[2]) is PDDL.f["axioms"]:
                return c not in bad
        if nm == "IsSubtype":
            v, n = run.eval(t[2]), run.eval(t[3])
            if isinstance(v, Rec) and "boxes" in v.f and n == TYPE:
                return v.f["boxes"]
        if qn == "symbolic::Object::CreateList":
            m, v = run.eval(t[2]), run.eval(t[3])
            if isinstance(v, Rec) and "list" in v.f:
                return v.f["list"]
        if qn == "symbolic::Formula::CreateApplicationFunction" and len(t) == 4:
            ps, xs = run.eval(t[2]), run.eval(t[3])
            return Rec("application", apply=lambda args: applied(ps, xs, args))
        if qn == "symbolic::Pddl::ConsistentState" and len(t) == 4:
            c = run.eval(t[3])
            ls = W.literals(c)
            if ls is not None and run.eval(t[2]) is PDDL:
                return closed(W, c)
        if qn == "symbolic::Action::Parse" and len(t) == 4:
            if run.eval(t[2]) is PDDL and run.eval(t[3]) == CALL:
                return (ACTION, ARGS)
        return NotImplemented
    return made, method


def back(W, f):
    """The value of a list of conjunctions."""
    if f is None:
        return ()
    mk = lambda n: Named(n)
    return (Rec("form", conjunctions=Items([W.partial([mk(n) for n in c[0]], [mk(n) for n in c[1]]) for c in f])),)


_named = {}


def Named(n):
    return _named[n]


def remember(W):
    for n in ["=" + a + b for a in "xyzpq" for b in "xyzpq"] + ["!" + a for a in "xyzpq"] + list("abcdefgh"):
        p = lit(n)
        _named[W.name(p)] = p


def closed(W, c):
    """Stands for a conjunction closed under the axioms."""
    ls = W.literals(c)
    p = Made("symbolic::Proposition", [word("closure of " + show_form([ls])), Items()])
    _named[W.name(p)] = p
    return W.partial([_named[n] for n in ls[0]] + [p], [_named[n] for n in ls[1]])


COMBOS = []
CALL = Text(word("call"))
ACTION = Rec("action")


def applied(ps, xs, args):
    if isinstance(args, Items) and all(isinstance(x, Rec) for p in (ps, xs, args) for x in p.v):
        k = "(%s of %s = %s)" % tuple(",".join(x.what for x in p.v) for p in (xs, ps, args))
        return Rec(k, applied=True)
    raise Unknown("the arguments of a literal")


def ev(ctx, W, oid, fn, sym, want, what, params=PARAMS, args=ARGS, axioms=False, bad=()):
    if not _named:
        remember(W)
    made, method = hooks(W, bad)
    W.eval(oid, fn, PRIM, {0: PDDL, 1: sym, 2: params, 3: args, 4: axioms}, None, want, what, made=made, method=method,
           order=W.less)


def listing(*xs):
    return Rec("list", list=Items(xs))


def fact(n, *args):
    w = word(n)
    return Rec("fact " + n, head=Rec("head", getName=w, getNameRef=w), args=listing(*args))


def literals(ctx, W):
    for xs in ((), (Rec("?a"),), (Rec("?b"), Rec("o3"))):
        p = fact("h", *xs)
        g = Node("literal", "VAL::simple_goal", getProp=p)
        want = "<h>" + applied(PARAMS, Items(xs), ARGS).what
        def chk(o):
            if o.kind == "throw":
                return "throws"
            got = clauses_of(W, o.value)
            return True if got == [((want,), ())] else "is %s where %s was expected" % (show_form(got), want)
        ev(ctx, W, "literal.%d" % len(xs), W.goal, g, chk, "the normal form of a literal with %d arguments" % len(xs))


POOL = ["F", "T", "a", "-a", "b", "a b", "a,b", "a -b,-a b", "b c,a"]
MORE = ["-a -b", "a,-a", "a b,c", "-a,b -c", "a b,a c,b c"]
BUILTIN = ["=xx", "=xy", "-=xx", "-=xy", "!x", "!y", "-!x", "-!y", "=xp", "=pp", "a =xy", "=pq"]


def tuples(ctx):
    thorough = ctx.tier == "thorough"
    pool = POOL + (MORE if thorough else [])
    yield ()
    for x in POOL + MORE + BUILTIN:
        yield (x,)
    for x, y in itertools.product(pool, repeat=2):
        if thorough or (x in ("F", "T") or y in ("F", "T")) and (len(x) < 2 or len(y) < 2 or x > y) or (
                x not in ("F", "T") and y not in ("F", "T") and (len(x + y) > 4 or x <= y)):
            yield (x, y)
    for x in BUILTIN[:10]:
        yield (x, "a")
        yield ("a b,b c", x)
    three = ["F", "T", "a", "-a", "a b,c", "b"]
    for t in itertools.product(three, repeat=3):
        if thorough or len(set(t)) == 3 and (t[0] > t[1] or "a b,c" in t) or t in (("a", "a", "a"), ("a", "b", "a")):
            yield t
    yield ("a", "b", "c", "d")
    yield ("a b,b c", "b")
    yield ("a b", "b c", "-b", "b")
    yield ("a b,c d", "-a,-c", "b d,-b")


def parts(ctx, W):
    for kind, op, name in (("conj_goal", all, "conjunction"), ("disj_goal", any, "disjunction")):
        for t in tuples(ctx):
            fs = [form(W, x) for x in t]
            g = Node(name, "VAL::" + kind, getGoals=Items([leaf("part %d" % i, f) for i, f in enumerate(fs)]))
            ev(ctx, W, "%s.%s" % (name, "|".join(t) or "none"), W.goal, g, means(W, fs, op),
               "the %s of %s" % (name, "; ".join(t) or "nothing"))
    # Axioms that rule out a conjunction.
    for kind, op, name in (("conj_goal", all, "conjunction"), ("disj_goal", any, "disjunction")):
        for t, bad, left in ((("a,b", "c"), "a c", "b c") if name == "conjunction" else (("a c,b", "c d"), "a c", "b,c d"),
                             (("a", "b"), "a b", "F") if name == "conjunction" else (("a", "b"), "b", "a")):
            fs = [form(W, x) for x in t]
            ls = clauses_of(W, form(W, bad))
            g = Node(name, "VAL::" + kind, getGoals=Items([leaf("part %d" % i, f) for i, f in enumerate(fs)]))
            for axioms in (True, False):
                want = means(W, [form(W, left)], all) if axioms else means(W, fs, op)
                ev(ctx, W, "%s.axioms.%s.%s" % (name, "|".join(t), axioms), W.goal, g, want,
                   "the %s of %s %s the axioms" % (name, "; ".join(t), "under" if axioms else "without"), axioms=axioms,
                   bad=ls)


def negations(ctx, W):
    fn = W.find(U, "symbolic::Negate")
    fn = fn[0] if len(fn) == 1 else None
    for x in POOL + MORE + BUILTIN + ["a b,-a c", "a -a,b", "a b c,d"]:
        f = form(W, x)
        g = Node("negation", "VAL::neg_goal", getGoal=leaf("part", f))
        no = lambda vs: not vs[0]
        ev(ctx, W, "negation." + x, W.goal, g, means(W, [f], no), "the negation of " + x)
        if fn is not None and f != ():
            made, method = hooks(W)
            W.eval("negate." + x, fn, PRIM, {0: PDDL, 1: f[0]}, None, means(W, [f], no), "the negated normal form of " + x,
                   made=made, method=method, order=W.less)


def quantified(ctx, W):
    vs = Items([Rec("?v"), Rec("?w")])
    lists = [[], [("o1", "o2")], [("o1", "o1"), ("o1", "o2")], [("o1", "o1"), ("o1", "o2"), ("o2", "o1")]]
    forms = [(), ("a b,c",), ("F",), ("T",), ("a", "b"), ("F", "a"), ("a", "F"), ("T", "a"), ("a", "T"), ("-a", "a"),
             ("a,b", "b,c"), ("a", "b", "c"), ("a", "F", "b"), ("T", "F", "T")]
    objs = {n: Rec(n) for n in ("o1", "o2")}
    for q, op in (("E_FORALL", all), ("E_EXISTS", any)):
        for t in forms:
            combos = [Items([objs[n] for n in c]) for c in lists[len(t)]]
            fs = [form(W, x) for x in t]
            body = Node("body", forms={(Items(PARAMS.v + vs.v), Items(ARGS.v + c.v)): f for c, f in zip(combos, fs)})
            g = Node("quantified", "VAL::qfied_goal", getGoal=body, getVars=Rec("variables", list=vs),
                     getQuantifier=QUANT[q])
            COMBOS[:] = [(vs, Items(combos))]
            name = "every" if op is all else "some"
            ev(ctx, W, "%s.%s" % (name, "|".join(t) or "none"), W.goal, g, means(W, fs, op),
               "%s of %s" % (name, "; ".join(t) or "nothing"))
    COMBOS[:] = []


def clauses(ctx, W):
    """Clauses: 'a -b' stands for a or not b."""
    for t in ((), ("a",), ("a -b",), ("a", "b"), ("a", "-a"), ("a b", "c"), ("a b", "-a c"), ("a b", "a"), ("a -b", "b -a"),
              ("a b", "b c", "c a"), ("-a", "-b -c", "d"), ("=xy a", "b"), ("=xx", "a"), ("a b", "a b"),
              ("a", "a", "b"), ("a b", "c", "a b", "d")):
        cs = []
        for c in t:
            ls = c.split()
            cs.append(W.partial([lit(x) for x in ls if x[0] != "-"], [lit(x[1:]) for x in ls if x[0] == "-"]))
        fs = [(Rec("clause", conjunctions=Items([W.partial([lit(x)], []) if x[0] != "-" else W.partial([], [lit(x[1:])])
                                                 for x in c.split()])),) for c in t]
        made, method = hooks(W)
        if not _named:
            remember(W)
        W.eval("clauses." + ("|".join(t) or "none"), W.cnf, PRIM, {0: PDDL, 1: Rec("clauses", disjunctions=Items(cs)), 2: False},
               None, means(W, fs, all), "the normal form of the clauses %s" % ("; ".join(t) or "none"), made=made, method=method,
               order=W.less)


# ---- effects -------------------------------------------------------------
def named(n, *xs):
    """A literal an effect sets, with the name the result has for it."""
    p = fact(n, *xs)
    made = Made("symbolic::Proposition", [word(n), applied(PARAMS, Items(xs), ARGS)])
    return Rec("effect " + n, prop=p), made


def effects(ctx, W):
    e = {n: named(n, Rec("?a")) for n in "abc"}
    for _, p in e.values():
        _named[W.name(p)] = p
    name = {n: W.name(p) for n, (_, p) in e.items()}

    def lits(pos, neg):
        return (Rec("literals", conjunctions=Items([W.partial([e[n][1] for n in pos], [e[n][1] for n in neg])])),)
    cases = []
    for add, dele in (("", ""), ("a", ""), ("", "a"), ("a", "b"), ("ab", "c"), ("ab", ""), ("a", "a")):
        cases.append((add, dele, [], []))
    for fa in (["d"], ["d", "e"], ["d,e", "-f"], ["T", "d"], ["d", "-d"], ["F", "d"], ["d", "F"], []):
        cases.append(("a", "b", [fa], []))
        cases.append(("", "", [fa], []))
    cases.append(("a", "", [["d"], ["e", "f"]], []))
    cond = [("d", "e"), ("T", "e"), ("F", "e"), ("d", "T"), ("d", "F"), ("d,f", "e"), ("d f", "e"), ("d", "e f"), ("d", "d"),
            ("d", "-d"), ("-d", "e -f"), ("d,-d", "e"), ("F", "F"), ("T", "T")]
    for c in cond:
        cases.append(("", "", [], [c]))
        cases.append(("a", "b", [], [c]))
    cases += [("", "", [], [("d", "e"), ("-d", "f")]), ("a", "", [], [("d", "e"), ("f", "-e")]),
              ("", "", [], [("d", "e"), ("F", "f"), ("T", "g")]), ("a", "", [["g"]], [("d", "e")]),
              ("", "", [["g", "-g"]], [("d", "e")]), ("", "", [], [("T", "d"), ("T", "e")]),
              ("", "", [], [("d", "F"), ("e", "f")]), ("", "", [], [("d", "T"), ("e", "f")])]
    for add, dele, fas, conds in cases:
        COMBOS[:] = []
        parts_ = []
        if add or dele:
            parts_.append(("lit", lits(add, dele)))
        fs = []
        for i, fa in enumerate(fas):
            vs = Items([Rec("?v%d" % i)])
            combos = [Items([Rec("o%d%d" % (i, j))]) for j in range(len(fa))]
            vals = [form(W, x) for x in fa]
            parts_ += [("lit", v) for v in vals]
            body = Node("effects", forms={(Items(PARAMS.v + vs.v), Items(ARGS.v + c.v)): v for c, v in zip(combos, vals)})
            fs.append(Rec("forall", getVarsList=Rec("variables", list=vs), getEffects=body))
            COMBOS.append((vs, Items(combos)))
        cs = []
        for a, b in conds:
            x, y = form(W, a), form(W, b)
            parts_.append(("cond", x, y))
            cs.append(Rec("cond", getCondition=leaf("condition", x), getEffects=leaf("effects", y)))
        sym = Rec("effects", forall_effects=Items(fs), add_effects=Items([e[n][0] for n in add]),
                  del_effects=Items([e[n][0] for n in dele]), cond_effects=Items(cs))
        ins = [x for p in parts_ for x in p[1:]]
        kinds = [p[0] for p in parts_]

        def combine(vs, kinds=kinds):
            vs = list(vs)
            ok = True
            for k in kinds:
                if k == "lit":
                    ok = vs.pop(0) and ok
                else:
                    c, r = vs.pop(0), vs.pop(0)
                    ok = (not c or r) and ok
            return ok
        what = "; ".join(["add " + add] * bool(add) + ["delete " + dele] * bool(dele) + ["for all " + "/".join(f) for f in fas] +
                         ["when %s: %s" % c for c in conds]) or "none"
        ev(ctx, W, "effects." + what.replace(" ", "_"), W.effects, sym, means(W, ins, combine), "the effects: " + what)
    COMBOS[:] = []


# ---- the public conversions ----------------------------------------------
def public(ctx, W):
    pre, post, goal = Node("precondition"), Node("effects"), Node("goal")
    ACTION.f.update(parameters=PARAMS, preconditions=Rec("formula", symbol=pre, formula=pre), postconditions=post)
    PDDL.f.update(goal=Rec("formula", symbol=goal, formula=goal))
    empty = Items()
    fpairs = [("a b,c", "d"), ("F", "d"), ("a", "F"), ("T", "d"), ("a", "T"), ("a,-a b", "-c,d"), ("F", "F")]

    def same(want, pick, axioms):
        def chk(o):
            if o.kind == "throw":
                return "throws"
            try:
                got = clauses_of(W, pick(o.value))
            except KeyError:
                return "is given for conditions one of which is false"
            w = clauses_of(W, want)
            if axioms and w:
                w = [W.literals(closed(W, c)) for c in want[0].f["conjunctions"].v]
            if (got is None) != (w is None) or got is not None and sorted(got) != sorted(w):
                return "is %s where %s was expected" % (show_form(got), show_form(w))
            return True
        return chk
    made, method = hooks(W)
    for axioms in (False, True):
        for a, b in fpairs:
            x, y = form(W, a), form(W, b)
            pre.forms = {(PARAMS, ARGS): x}
            post.forms = {(PARAMS, ARGS): y}
            goal.forms = {(empty, empty): x}
            tag = "%s|%s%s" % (a, b, ".axioms" if axioms else "")
            for nm, want in (("NormalizePreconditions", x), ("NormalizePostconditions", y)):
                for fn in W.find(U, D + nm):
                    W.eval("%s.%s" % (nm, tag), fn, PRIM, {0: PDDL, 1: CALL, 2: axioms}, None,
                           same(want, lambda v: v, axioms), "%s of %s" % (nm, tag), made=made, method=method, order=W.less)
            for fn in W.find(U, D + "NormalizeGoal"):
                W.eval("NormalizeGoal." + tag, fn, PRIM, {0: PDDL, 1: axioms}, None, same(x, lambda v: v, axioms),
                       "NormalizeGoal of " + tag, made=made, method=method, order=W.less)
            for fn in W.find(U, D + "NormalizeConditions"):
                none = x == () or y == ()

                def chk(o, x=x, y=y, none=none, axioms=axioms):
                    if o.kind == "throw":
                        return "throws"
                    if o.value == ():
                        return True if none else "is missing"
                    if not isinstance(o.value, tuple) or len(o.value) != 1 or not isinstance(o.value[0], tuple):
                        return None
                    if none:
                        return "is given though one condition is false"
                    for i, w in enumerate((x, y)):
                        r = same(w, lambda v: (v[0][i],), axioms)(o)
                        if r is not True:
                            return ("the precondition " if i == 0 else "the postcondition ") + str(r)
                    return True
                W.eval("NormalizeConditions." + tag, fn, PRIM, {0: PDDL, 1: CALL, 2: axioms}, None, chk,
                       "NormalizeConditions of " + tag, made=made, method=method, order=W.less)
    for fn in W.all:
        if "Formula &" in fn.tu.type(fn.f["p"][1]["t"]).s and "Conjunctive" not in fn.tu.type(fn.f["p"][1]["t"]).s:
            for a in ("a b,c", "F", "T"):
                x = form(W, a)
                f = leaf("formula", x)
                W.eval("formula." + a, fn, PRIM, {0: PDDL, 1: Rec("formula", symbol=f, formula=f), 2: PARAMS, 3: ARGS, 4: False},
                       None, same(x, lambda v: v, False), "the normal form of a formula", made=made, method=method, order=W.less)
