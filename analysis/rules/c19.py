"""C19: the texts of calls, propositions and states, and reading them back."""
from rules.summ import *

LEVEL = "other"
EXPLAIN = ("Path summaries of every function that writes or reads the text of a call, a proposition or a state are "
           "interpreted over an abstract domain of texts made of characters and opaque words (unknown length, no blank, "
           "comma or bracket) and of lists whose members are opaque: each written text is compared with the canonical "
           "form, each canonical text is shown to be read back to the words it was written from, and a parsed call to be "
           "accepted exactly when its arguments fit the parameters. Nothing is executed.")

PRIM = ["symbolic::Object::Object", "symbolic::Object::name", "symbolic::Object::type", "symbolic::Object::Type::*",
        "symbolic::PropositionBase::name", "symbolic::PropositionBase::arguments", "symbolic::PropositionBase::Hash",
        "symbolic::Proposition::name", "symbolic::Proposition::arguments", "symbolic::HashSet*", "symbolic::State::*",
        "symbolic::PartialState::pos", "symbolic::PartialState::neg", "symbolic::UniqueVector*",
        "symbolic::Action::Action", "symbolic::Action::name", "symbolic::Action::parameters",
        "symbolic::Predicate::name", "symbolic::Predicate::parameters"]
N = (0, 1, 2, 3)


def run(ctx):
    W = World(ctx)
    for g in (propositions, lists, calls_, predicates, states, heads, arguments, parse, symbols):
        ctx.group(g.__name__.rstrip("_"), g, ctx, W)


def joined(xs, sep=", "):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return Text(*out)


def call_text(head, objs):
    return Text(head, "(", joined([o.f["name"] for o in objs.v]), ")")


def written(want, before=word("before")):
    """The text a function returns or leaves in the stream it was given."""
    def chk(o):
        v = o.value
        if o.kind == "throw":
            return "throws"
        if isinstance(v, Stream):
            if not v.text.s[:1] == before.s:
                return "what was in the stream is changed: %r" % v.text
            v = Text(*v.text.s[1:])
        if isinstance(v, Items) and not v.v:
            v = Text()
        if not isinstance(v, Text):
            return None
        return True if v == want else "yields %r where %r was expected" % (v, want)
    return chk


def os_():
    return Stream(word("before"))


def propositions(ctx, W):
    u = "src/proposition.cc"
    P = "symbolic::PropositionBase::"
    fns = [("to_string", W.one(u, P + "to_string"), 0), ("to_pddl", W.one(u, P + "to_pddl"), 0),
           ("print", W.one(u, "symbolic::operator<<", second("PropositionBase")), 1)]
    for n in list(N) + ["same"]:
        head, args = word("p"), objects(n if n != "same" else 3)
        if n == "same":
            args = Items([args.v[0], args.v[0], args.v[1]])      # an object may occur twice
        rec = Rec("proposition", name=head, arguments=args)
        for name, fn, par in fns:
            want = call_text(head, args)
            if name == "to_pddl":
                want = Text("(", joined([head] + [o.f["name"] for o in args.v], " "), ")")
            params, this = ({0: os_(), 1: rec}, None) if par else ({}, rec)
            W.eval("proposition.%s.%s" % (name, n), fn, PRIM, params, this, written(want),
                   "the text of a proposition with %s arguments" % n)


def lists(ctx, W):
    u = "src/object.cc"
    fn = W.one(u, "symbolic::operator<<", lambda ts: len(ts) == 2 and "vector<symbolic::Object" in ts[1].s)
    for n in N:
        args = objects(n)
        W.eval("objects.print.%d" % n, fn, PRIM, {0: os_(), 1: args}, None,
               written(joined([o.f["name"] for o in args.v])), "the text of %d objects" % n)
    fn = W.one(u, "symbolic::operator<<", second("Object"))
    o = objects(1).v[0]
    W.eval("object.print", fn, PRIM, {0: os_(), 1: o}, None, written(o.f["name"]), "the text of an object")
    fn = W.one(u, "symbolic::operator<<", second("Object::Type"))
    W.eval("type.print", fn, PRIM, {0: os_(), 1: Rec("type", name=word("t"))}, None, written(word("t")),
           "the text of a type")


def callable_(ctx, W, u, C, tag):
    prog = W.prog(u)
    alias = {field_of(prog, C + "::name"): "name", field_of(prog, C + "::parameters"): "parameters"}
    for n in N:
        head, ps = word("f"), objects(n, "x")
        rec = Rec(tag, name=head, parameters=ps)
        for fn in W.find(u, C + "::to_string"):
            if not fn.f["p"]:
                W.eval("%s.to_string.%d" % (tag, n), fn, PRIM, {}, rec, written(call_text(head, ps)),
                       "the text of %s with %d parameters" % (tag, n), alias)
                continue
            for m in N:
                if n == 1:
                    args = objects(m)
                    W.eval("%s.call.%d" % (tag, m), fn, PRIM, {0: args}, rec, written(call_text(head, args)),
                           "the text of a call with %d arguments" % m, alias)
        for fn in W.find(u, "symbolic::operator<<", second(C.split("::")[-1])):
            W.eval("%s.print.%d" % (tag, n), fn, PRIM, {0: os_(), 1: rec}, None, written(call_text(head, ps)),
                   "the text of %s with %d parameters" % (tag, n), alias)


def calls_(ctx, W):
    callable_(ctx, W, "src/action.cc", "symbolic::Action", "action")


def predicates(ctx, W):
    callable_(ctx, W, "src/predicate.cc", "symbolic::Predicate", "predicate")


def props(names):
    """Propositions with texts in the order of their names, and 0, 2, 1 arguments."""
    out = []
    for i, n in enumerate(names):
        k = {"r": 0, "s": 2, "t": 1}[n]
        out.append(Rec(n, to_string=word(n), shown=word(n), name=word("name of " + n), arguments=objects(k),
                       to_pddl=word("pddl of " + n)))
    return out


def by_text(run, a, b):
    if isinstance(a, Text) and isinstance(b, Text):
        return repr(a) < repr(b)
    raise Unknown("an order")


def same_members(got, want):
    if not isinstance(got, Items):
        return None
    if len(got.v) != len(want) or any(got.v.count(w) != want.count(w) for w in want):
        return "yields %r where %r was expected" % (got, Items(want))
    return True


def texts_of(want):
    def chk(o):
        return "throws" if o.kind == "throw" else same_members(o.value, want)
    return chk


def states(ctx, W):
    u = "src/state.cc"
    show_ = W.one(u, "symbolic::operator<<", second("State") if False else
                  (lambda ts: len(ts) == 2 and is_ref(ts[1], "symbolic::State")))
    strs = [W.one(u, "symbolic::State::Stringify")]
    free = W.find("src/pddl.cc", "symbolic::Stringify", lambda ts: len(ts) == 1 and is_ref(ts[0], "symbolic::State"))
    P = PRIM + ["symbolic::PropositionBase::to_string", "symbolic::PropositionBase::to_pddl", "symbolic::operator<<"]
    orders = {0: [[]], 1: [["r"]], 2: [["r", "s"], ["s", "r"]], 3: [["s", "t", "r"]]}
    for n in N:
        for k, names in enumerate(orders[n]):
            ps = props(names)
            st = Items(ps)
            st_rec = st
            W.eval("state.print.%d.%d" % (n, k), show_, P, {0: os_(), 1: st_rec}, None,
                   written(Text("{ ", joined([word(x) for x in sorted(names)]), " }")),
                   "the text of a state with %d propositions" % n, order=by_text)
            for fn in strs:
                W.eval("state.stringify.%d.%d" % (n, k), fn, P, {}, st, texts_of([word(x) for x in names]),
                       "the texts of a state with %d propositions" % n, order=by_text)
            for fn in free:
                W.eval("state.strings.%d.%d" % (n, k), fn, P, {0: st}, None, texts_of([word(x) for x in names]),
                       "the texts of a state with %d propositions" % n, order=by_text)
    # Texts whose lengths are in another order than they are.
    ts = [Text(x) for x in ("b()", "on(a, b)", "on(a)", "aa()", "B(c)", "b(a)")]
    for k, names in enumerate((ts, ts[::-1], ts[2:] + ts[:2])):
        W.eval("state.print.order.%d" % k, show_, P, {0: os_(), 1: Items([Rec(repr(x), to_string=x, shown=x, to_pddl=x) for x in names])},
               None, written(Text("{ ", joined(sorted(ts, key=repr)), " }")), "the text of the state of %s" % names, order=by_text)
    # A partial state: what holds, then what does not.
    pos, neg = Items(props(["r"])), Items(props(["s"]))
    T = [word("r")], [word("s")]
    both = lambda o: "throws" if o.kind == "throw" else None if not isinstance(o.value, tuple) else True if \
        o.value == T else "yields %r" % (o.value,)

    def m(run, t):
        if last(t[1]) == "Stringify" and len(t) == 3:
            return [x.f["to_string"] for x in run.eval(t[2]).v]
        return NotImplemented
    rec = Rec("partial", pos=pos, neg=neg)
    prog = W.prog(u)
    alias = {}
    for g in ("pos", "neg"):
        f = field_of(prog, "symbolic::PartialState::" + g)
        alias[f] = g
    fn = W.one(u, "symbolic::PartialState::Stringify")
    W.eval("partial.stringify", fn, P + ["symbolic::State::Stringify"], {}, rec, both,
           "the texts of a partial state", alias, method=m)
    for fn in W.find("src/pddl.cc", "symbolic::Stringify", lambda ts: len(ts) == 1 and is_ref(ts[0], "PartialState")):
        W.eval("partial.strings", fn, P + ["symbolic::Stringify"], {0: rec}, None, both,
               "the texts of a partial state", alias, method=m)
    # Lists of actions, arguments and objects.
    for fn in W.find("src/pddl.cc", "symbolic::Stringify"):
        s = fn.tu.type(fn.f["p"][0]["t"]).s
        for n in N:
            xs = objects(n)
            arg, want = None, None
            if "vector<std::vector<symbolic::Object" in s:
                arg = Items([xs, objects(1, "b")])
                want = Items([Items([o.f["name"] for o in y.v]) for y in arg.v])
            elif "vector<symbolic::Object" in s or "vector<symbolic::Action" in s:
                arg = xs
                want = Items([o.f["name"] for o in xs.v])
            if arg is None:
                continue
            tag = "arguments" if "vector<std::vector" in s else "objects" if "Object" in s else "actions"
            W.eval("strings.%s.%d" % (tag, n), fn, P, {0: arg}, None,
                   lambda o, want=want: "throws" if o.kind == "throw" else True if o.value == want
                   else "yields %r where %r was expected" % (o.value, want), "the texts of %d %s" % (n, tag),
                   {field_of(W.prog("src/action.cc"), "symbolic::Action::name"): "name"})


TEXTS = [("", []), ("a1", ["a1"]), ("a1, a2", ["a1", "a2"]), ("a1, a2, a3", ["a1", "a2", "a3"]),
         ("a1,a2", ["a1", "a2"]), ("a1 a2", ["a1", "a2"]), (" a1 ,  a2 ", ["a1", "a2"]),
         ("a1, a1", ["a1", "a1"]), ("a1, a2, a1", ["a1", "a2", "a1"])]


def spelled(s):
    """A text from a spelling in which a1, a2, a3 stand for words."""
    out = []
    i = 0
    while i < len(s):
        if s[i] in "ap" and (s[i] == "p" or s[i + 1:i + 2].isdigit()):
            w = s[i] if s[i] == "p" else s[i:i + 2]
            out.append(Word(w))
            i += len(w)
        else:
            out.append(s[i])
            i += 1
    return Text(*out)


def heads(ctx, W):
    fn = W.one("src/proposition.cc", "symbolic::PropositionBase::ParseHead")
    for i, spell in enumerate(["p(%s)" % inner for inner, _ in TEXTS] + ["p"]):
        W.eval("head.%d" % i, fn, [], {0: spelled(spell)}, None, written(word("p")), "the name in '%s'" % spell)


def arguments(ctx, W):
    pddl = Rec("pddl")

    def good(words):
        want = Items([Made(None, (pddl, word(w))) for w in words])
        return lambda o: "throws" if o.kind == "throw" else None if not isinstance(o.value, Items) else \
            True if o.value == want else "reads %r where %r was written" % (
                Items([x.args[-1] if isinstance(x, Made) and x.args else x for x in o.value.v]),
                Items([word(w) for w in words]))
    for fn in W.find("src/object.cc", "symbolic::Object::ParseArguments"):
        s = fn.tu.type(fn.f["p"][1]["t"]).s
        if "vector" in s:
            for n in N:
                ws = ["a%d" % (i + 1) for i in range(n)]
                W.eval("objects.read.%d" % n, fn, PRIM, {0: pddl, 1: Items([word(w) for w in ws])}, None, good(ws),
                       "the objects named in a list of %d names" % n)
            for ws in (["a1", "a1"], ["a2", "a1", "a2"]):
                W.eval("objects.read.%s" % "".join(w[1] for w in ws), fn, PRIM, {0: pddl, 1: Items([word(w) for w in ws])}, None,
                       good(ws), "the objects named in the list %s" % ", ".join(ws))
            continue
        for i, (inner, ws) in enumerate(TEXTS):
            W.eval("arguments.%d" % i, fn, PRIM, {0: pddl, 1: spelled("p(%s)" % inner)}, None, good(ws),
                   "the arguments in 'p(%s)'" % inner)


def parse(ctx, W):
    u = "src/action.cc"
    prog = W.prog(u)
    fn = W.one(u, "symbolic::Action::Parse")
    alias = {field_of(prog, "symbolic::Action::parameters"): "parameters",
             field_of(prog, "symbolic::Action::name"): "name",
             field_of(prog, "symbolic::Object::type"): "type"}
    P = PRIM + ["symbolic::Object::ParseArguments", "symbolic::operator<<", "symbolic::PropositionBase::ParseHead"]
    call = spelled("p(a1)")
    for n in (0, 1, 2):
        for m in (0, 1, 2, 3):
            for bits in itertools.product((True, False), repeat=n if n == m else 0):
                ps, as_ = typed(n, "x"), typed(m, "a")
                act = Rec("action", parameters=ps, name=word("p"), shown=word("p"))
                pddl = Rec("pddl")

                def made(run, t, act=act, pddl=pddl):
                    if t[1].endswith("symbolic::Action"):
                        vs = [run.eval(x) for x in t[2:]]
                        if vs == [pddl, call]:
                            return act
                        raise Unknown("another action")
                    return NotImplemented

                def method(run, t, ps=ps, as_=as_, bits=bits, pddl=pddl):
                    nm = last(t[1])
                    if nm == "ParseArguments":
                        if [run.eval(x) for x in t[2:]] == [pddl, call]:
                            return as_
                        raise Unknown("other arguments")
                    if nm == "IsSubtype":
                        a, b = run.eval(t[2]), run.eval(t[3])
                        if isinstance(b, Text):
                            b = [p.f["type"] for p in ps.v + as_.v if p.f["type"].f["name"] == b][0]
                        ia = [i for i, x in enumerate(as_.v) if x.f["type"] is a]
                        ib = [i for i, x in enumerate(ps.v) if x.f["type"] is b]
                        if ia and ib and ia == ib:
                            return bits[ia[0]] if ia[0] < len(bits) else True
                        if ia and ib:
                            return False       # the types of another position
                        return False
                    return NotImplemented
                ok = n == m and all(bits)

                def want(o, ok=ok, act=act, as_=as_):
                    if o.kind == "throw":
                        return True if not ok else "is refused"
                    if not ok:
                        return "is accepted"
                    if not isinstance(o.value, tuple):
                        return None
                    return True if o.value[0] is act and o.value[1] == as_ else "yields another call"
                W.eval("parse.%d.%d.%s" % (n, m, "".join("ny"[b] for b in bits)), fn, P, {0: pddl, 1: call}, None, want,
                       "a call with %d arguments of an action with %d parameters%s" % (
                           m, n, ", the types %s" % ("fit" if all(bits) else "do not fit") if n == m and n else ""),
                       alias, made, method)


def typed(n, p):
    out = []
    for i in range(n):
        w = word("%s%d" % (p, i + 1))
        ty = Rec("type of %r" % w, name=word("t%s%d" % (p, i + 1)), shown=word("t%s%d" % (p, i + 1)))
        out.append(Rec(repr(w), name=w, shown=w, type=ty))
    return Items(out)


def symbols(ctx, W):
    # The action a call names.
    u = "src/action.cc"
    sym = field_of(W.prog(u), "symbolic::Action::symbol")
    sym = sym or "symbol_"
    P = [x for x in PRIM if x != "symbolic::Action::Action"] + ["symbolic::Pddl::*", "symbolic::Formula::*", "symbolic::Object::*", "symbolic::ParameterGenerator*",
                "symbolic::Proposition::Proposition"]
    for fn in W.find(u, "symbolic::Action::Action"):
        ps = [fn.tu.type(p["t"]).s for p in fn.f["p"]]
        if len(ps) != 2 or "string" not in ps[1]:
            continue
        for n in N:
            ops = [operator("f%d" % (i + 1)) for i in range(n)]
            for q in ("f1", "f2", "f3", "other"):
                pddl = Rec("pddl", symbol=Rec("analysis", the_domain=Rec("domain", ops=Items(ops))))
                hit = [o for o in ops if o.f["name"].f["getName"] == word(q)]

                def want(o, hit=hit):
                    if o.kind == "throw":
                        return "is refused" if hit else True
                    if not hit:
                        return "is accepted"
                    s = o.run.eval(final(o.path, ("fld", THIS, sym)))
                    return True if s is hit[0] else "is the action %r" % s
                W.eval("action.%d.%s" % (n, q), fn, P, {0: pddl, 1: Text(word(q), "(", word("a"), ")")}, None, want,
                       "a call of %s where the domain declares %d actions" % (q, n), made=plain)
    # A proposition from its text.
    u = "src/state.cc"
    P = ["symbolic::PropositionBase::*", "symbolic::Object::*"]
    fs = [field_of(W.prog(u), "symbolic::Proposition::" + g) for g in ("name", "arguments")]
    for fn in W.find(u, "symbolic::Proposition::Proposition"):
        if len(fn.f["p"]) == 2 and "Pddl" in fn.tu.type(fn.f["p"][0]["t"]).s:
            pddl = Rec("pddl")
            for n in N[:3]:
                txt = call_text(word("p"), objects(n))
                objs = objects(n)

                def method(run, t, txt=txt, objs=objs, pddl=pddl):
                    nm = last(t[1])
                    if nm == "ParseHead" and run.eval(t[-1]) == txt:
                        return word("p")
                    if nm == "ParseArguments" and run.eval(t[-1]) == txt and run.eval(t[-2]) is pddl:
                        return objs
                    return NotImplemented

                def want(o, objs=objs):
                    if o.kind == "throw":
                        return "throws"
                    v = [o.run.eval(final(o.path, ("fld", THIS, f))) for f in fs]
                    return True if v[0] == word("p") and v[1] is objs else "is %r %r" % tuple(v)
                W.eval("proposition.read.%d" % n, fn, P, {0: pddl, 1: txt}, None, want,
                       "the proposition read from the text of one with %d arguments" % n, method=method)
    # A state from texts.
    S = ["symbolic::Proposition::*", "symbolic::State::*", "symbolic::HashSet*", "symbolic::PartialState::*"]
    pddl = Rec("pddl")

    def holds(v, strs):
        if isinstance(v, Made) and last(v.cls or "") == "State" and len(v.args) == 2:
            return True if v.args[0] is pddl and v.args[1] == strs else "is read from other texts"
        if not isinstance(v, Items) or not all(isinstance(x, Made) and len(x.args) == 2 for x in v.v):
            return None
        got = [x.args[1] for x in v.v]
        if any(x.args[0] is not pddl for x in v.v):
            return None
        return True if len(got) == len(strs.v) and all(x in got for x in strs.v) else \
            "holds %r where %r was given" % (Items(got), strs)

    big = tuple(range(0, 4)) + (24,)
    for n in big:
        strs = Items([Text(word("p%d" % i), "(", word("a"), ")") for i in range(n)])
        for fn in W.find(u, "symbolic::State::State", lambda ts: len(ts) == 2 and "Pddl" in ts[0].s):
            def want(o, strs=strs):
                if o.kind == "throw":
                    return "throws"
                v = o.path.S.store.get(THIS)
                return None if v is None else holds(o.run.eval(v), strs)
            W.eval("state.read.%d" % n, fn, S, {0: pddl, 1: strs}, Items(), want, "a state read from %d texts" % n,
                   made=plain)
        for fn in W.find("src/pddl.cc", "(anonymous namespace)::ParseState"):
            if len(fn.f["p"]) == 2:
                W.eval("state.parse.%d" % n, fn, S, {0: pddl, 1: strs}, None,
                       lambda o, strs=strs: "throws" if o.kind == "throw" else holds(o.value, strs),
                       "a state read from %d texts" % n, made=plain)
            if len(fn.f["p"]) == 3:
                s2 = Items([Text(word("q%d" % i), "(", word("a"), ")") for i in range(2)])

                def want2(o, strs=strs, s2=s2):
                    if o.kind == "throw":
                        return "throws"
                    v = o.value
                    if not isinstance(v, Made) or len(v.args) != 2:
                        return None
                    r = [holds(v.args[0], strs), holds(v.args[1], s2)]
                    return None if None in r else True if r == [True, True] else [x for x in r if x is not True][0]
                W.eval("partial.parse.%d" % n, fn, S, {0: pddl, 1: strs, 2: s2}, None, want2,
                       "a partial state read from %d and 2 texts" % n, made=plain)


def operator(name):
    nm = Rec("symbol " + name, getName=word(name), getNameRef=word(name))
    eff = Rec("effects", **{k: Items() for k in ("forall_effects", "add_effects", "del_effects", "cond_effects")})
    return Rec("operator " + name, name=nm, parameters=NULLP, precondition=NULLP, effects=eff)


def plain(run, t):
    if t[1].split("<")[0] in ("symbolic::State", "symbolic::PartialState") and len(t) == 2:
        return Items()
    return NotImplemented
