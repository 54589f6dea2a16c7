"""The successors of a search node interpreted over small lists of actions (C10)."""
import itertools
from rules.summ import *
from rules.summ import THIS
from rules.summ import Text as Text_

NODE = "symbolic::Planner::Node"
IT = NODE + "::iterator"
PRIMS = ["symbolic::Action::*", "symbolic::DerivedPredicate::*", "symbolic::CombinationGenerator*", "symbolic::Pddl::*", NODE + "::Node",
         "symbolic::State::*", "symbolic::HashSet*", "symbolic::operator==", "symbolic::operator!="]
SHAPES = ((), (0,), (1,), (2,), (3,), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (2, 1), (1, 2), (0, 0), (0, 1, 0), (1, 0, 1), (0, 0, 1), (1, 0, 0),
          (1, 1, 1), (1, 0, 0, 1), (0, 0, 0))
ROUNDS = 12


class St(Rec):
    """A state."""


class Node(Rec):
    """A search node."""


class Gen(Items):
    """The parameters of an action, in order."""
    __slots__ = ("act",)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Args(Rec):
    def __init__(self, act, j):
        Rec.__init__(self, "arguments %d of action %d" % (j, act.i))
        self.act, self.j = act, j


class Act(Rec):
    """An action; `kinds` says of every combination of arguments what it leads to."""

    def __init__(self, i, kinds, parent, visited, same):
        Rec.__init__(self, "action %d" % i)
        self.i, self.kinds = i, kinds
        self.gen = Gen([Args(self, j) for j in range(len(kinds))])
        self.gen.act = self
        self.raw, self.next, self.name = [], [], []
        for j, k in enumerate(kinds):
            r = St("the effects of action %d with arguments %d" % (i, j))
            r.closed = St("the successor by action %d with arguments %d" % (i, j))
            if k == "visited":
                r.closed = visited[(i + j) % len(visited)]
            elif k == "parent":
                r.closed = parent
            elif same is not None:
                r.closed = same
            r.closed.closed = r.closed
            self.raw.append(r)
            self.next.append(r.closed)
            self.name.append(Text_("a%d(%d)" % (i, j)))


NOGEN = Gen([])


class Steps(World):
    def __init__(self, ctx, prog, F):
        World.__init__(self, ctx)
        self.program, self.F = prog, F

    def prog(self, unit):
        return self.program

    def fn(self, f):
        self._progs[id(f)] = self.program
        return f

    def equal(self, a, b):
        if isinstance(a, It) and isinstance(b, It) and a.v is not b.v and (isinstance(a.v, Gen) or isinstance(b.v, Gen)):
            return False        # positions of two generators are never equal (C12)
        if isinstance(a, Node) and isinstance(b, Node):
            return self.state(a) is self.state(b)
        return None

    def node(self, state, anc, name, depth):
        F = self.F
        impl = Rec("implementation")
        impl.f.update({F.state: state, F.anc: anc, F.name: name, F.depth: depth, F.ipddl: self.pddl})
        n = Node("node of %s" % state)
        n.f[F.impl] = impl
        return n

    def state(self, n):
        i = n.f[self.F.impl]
        if i is NULLP:
            raise Raises("uses a node without a state", True)
        return i.f[self.F.state]

    def hook(self, params, this, made, method):
        h = World.hook(self, params, this, made, method)

        def g(run, t):
            r = self.op(run, t)
            return h(run, t) if r is NotImplemented else r
        return g

    def node_of(self, run, t):
        v = run.place(t) if t[0] in ("this", "fld", "var", "tmp", "deref", "param") else run.eval(t)
        if isinstance(v, Built):
            raise Unknown("a node")
        if not isinstance(v, Node):
            raise Unknown("a node")
        return v

    def val(self, run, t):
        return run.place(t) if t[0] in ("idx", "fld", "var", "tmp", "deref", "this", "base") else run.eval(t)

    def step(self, it, n):
        if it.v is NOGEN:
            raise Raises("steps through the parameters of no action", True)
        p = it.pos + n
        if p < 0 or p > len(it.v.v):
            raise Raises("steps %s" % ("past the end" if p > 0 else "before the beginning"), True)
        return It(it.v, p)

    def deref(self, it):
        if it.v is NOGEN:
            raise Raises("uses the parameters of no action", True)
        if not 0 <= it.pos < len(it.v.v):
            raise Raises("uses the %s at the end of the list" % ("arguments" if isinstance(it.v, Gen) else "action"), True)
        return it.v.v[it.pos]

    def asked(self, run, t):
        """The action, the state and the index of the arguments of a call."""
        a, s, x = self.val(run, t[2]), self.val(run, t[3]), self.val(run, t[4])
        if not isinstance(a, Act) or not isinstance(x, Args) or not isinstance(s, St):
            raise Unknown("a use of an action")
        return a, self.using(a, s, x)

    def using(self, a, s, x):
        if x.act is not a:
            raise Raises("%s is used with %s" % (a, x), True)
        if s is not self.parent:
            raise Raises("%s is applied to %s instead of the state of the node" % (a, s), True)
        return x.j

    def op(self, run, t):
        k = t[0]
        if k == "itr" and isinstance(t[2], tuple) and t[2][0] in ("phi", "init"):
            v = run.eval(t[2])
            if isinstance(v, It):
                return self.step(v, run.num(t[3]).int())
        if k == "init" and t[1][0] == "deref" and t[1][1][0] == "refto":
            return run.eval(t[1][1])
        if k == "new" and t[1] == NODE:
            if len(t) == 2:
                n = Node("no node")
                n.f[self.F.impl] = NULLP
                return n
            if len(t) == 6:
                p, s, st, nm = self.node_of(run, t[2]), self.node_of(run, t[3]), run.eval(t[4]), run.eval(t[5])
                if not isinstance(st, St):
                    raise Unknown("a state")
                pi, si = p.f[self.F.impl], s.f[self.F.impl]
                if si is NULLP:
                    if pi is NULLP:
                        raise Raises("a node is created below no node", True)
                    return self.node(st, Items(pi.f[self.F.anc].v + (p,), "set"), nm, pi.f[self.F.depth].plus(Num(1)))
                return self.node(st, si.f[self.F.anc], nm, si.f[self.F.depth])
            if len(t) == 3:
                v = self.val(run, t[2])
                if isinstance(v, Node):
                    return v
        if k == "mut":
            nm = last(t[1].split("#")[0])
            if nm in ("operator++", "operator--"):
                v = run.eval(t[2])
                if isinstance(v, It):
                    return self.step(v, 1 if nm == "operator++" else -1)
            if nm in ("operator+=", "operator-="):
                v, n = run.eval(t[2]), run.num(t[3]).int()
                if isinstance(v, It):
                    return self.step(v, n if nm == "operator+=" else -n)
            if t[1].startswith("symbolic::DerivedPredicate::Apply"):
                v = run.eval(t[2])
                if isinstance(v, St):
                    return self.derived(run, v, t[3:])
            if t[1].startswith("symbolic::Action::Apply"):
                v, xs = run.eval(t[2]), [self.safe(run, x) for x in t[3:]]
                xs += [self.safe(run, o) for o in self.objects(run, t)]
                a, x = ([y for y in xs if isinstance(y, c)] for c in (Act, Args))
                if isinstance(v, St) and len(a) == len(x) == 1:
                    return a[0].raw[self.using(a[0], v, x[0])]
        if k in ("call", "ret", "refto") and len(t) > 2:
            qn, nm = t[1], last(t[1])
            if qn.startswith("symbolic::CombinationGenerator"):
                if t[2][0] == "with" and any(x[0] == "new" and len(x) == 2 and "Generator" in x[1] for x in walk(t[2])) and \
                        nm in ("begin", "cbegin"):
                    return It(NOGEN, 0)         # the generator of no action
                v = self.val(run, t[2])
                if isinstance(v, Gen):
                    if nm in ("begin", "cbegin"):
                        return It(v, 0)
                    if nm in ("end", "cend"):
                        return It(v, len(v.v))
                    if nm == "size":
                        return Num(len(v.v))
                if isinstance(v, It):
                    if nm in ("operator==", "operator!="):
                        w = self.val(run, t[3])
                        if isinstance(w, It):
                            return run.same(v, w) == (nm == "operator==")
                    if nm in ("operator*", "operator->"):
                        return self.deref(v)
                return NotImplemented
            if "__normal_iterator" in qn and nm in ("operator*", "operator->"):
                v = self.val(run, t[2])
                if isinstance(v, It):
                    return self.deref(v)
            if qn.startswith("symbolic::Action::"):
                a = self.val(run, t[2])
                if isinstance(a, Act):
                    if nm == "parameter_generator":
                        return a.gen
                    if nm == "IsValid" and len(t) == 5:
                        a, j = self.asked(run, t)
                        return a.kinds[j] != "invalid"
                    if nm == "Apply" and len(t) == 5:
                        a, j = self.asked(run, t)
                        return a.raw[j]
                    if nm == "to_string" and len(t) == 4:
                        x = self.val(run, t[3])
                        if isinstance(x, Args):
                            if x.act is not a:
                                raise Raises("%s is named with %s" % (a, x), True)
                            return a.name[x.j]
            if qn == "symbolic::DerivedPredicate::Apply" and len(t) >= 4:
                # Returning the state: the first argument is not an object.
                for x in t[2:]:
                    if x is None:
                        continue
                    v = self.val(run, x)
                    if isinstance(v, St):
                        return self.derived(run, v, t[2:])
            if qn.startswith("symbolic::Pddl::"):
                v = self.val(run, t[2])
                if v is self.pddl:
                    if nm == "actions":
                        return self.actions
                    if nm == "derived_predicates":
                        return self.dp
            if nm in ("operator==", "operator!=") and qn.startswith(("symbolic::operator", "symbolic::HashSet", "symbolic::State")) and len(t) == 4:
                v, w = (self.val(run, x) for x in t[2:])
                if isinstance(v, St) and isinstance(w, St):
                    return (v is w) == (nm == "operator==")
            if nm == "operator->" and NODE in qn:
                return self.node_of(run, t[2]).f[self.F.impl]
        return NotImplemented

    def objects(self, run, t):
        """The objects of the calls that make this change."""
        out, todo = set(), list(run.paths) + [p for lp in run.loops.values() for p in lp.paths]
        for p in todo:
            for e in p.ev:
                if e.k == "call" and e.qn == t[1].split("#")[0] and tuple(e.args) == t[3:] and e.objv is not None:
                    out.add(e.objv)
        return out if len(out) == 1 else ()

    def derived(self, run, v, rest):
        if not any(x is not None and self.safe(run, x) is self.dp for x in rest):
            raise Unknown("derived predicates")
        return v.closed

    def safe(self, run, x):
        try:
            return self.val(run, x)
        except Unknown:
            return None


def scenarios():
    for si, shape in enumerate(SHAPES):
        n = sum(shape)
        for m, kinds in enumerate(itertools.product(("fresh", "invalid", "seen"), repeat=n)):
            ks = ["parent" if k == "seen" and (m + i) % 2 else "visited" if k == "seen" else k for i, k in enumerate(kinds)]
            for same in ((False, True) if kinds.count("fresh") > 1 and m % 3 == 0 else (False,)):
                rows, i = [], 0
                for c in shape:
                    rows.append(ks[i:i + c])
                    i += c
                yield "%d.%d%s" % (si, m, ".same" if same else ""), rows, same


def follow(W, ctx, oid, fns, rows, same, what):
    F = W.F
    W.parent = St("the state of the node")
    W.parent.closed = W.parent
    visited = [St("the state of ancestor %d" % i) for i in range(2)]
    for v in visited:
        v.closed = v
    shared = St("a shared state") if same else None
    if same:
        shared.closed = shared
    acts = [Act(i, r, W.parent, visited, shared) for i, r in enumerate(rows)]
    W.pddl, W.dp, W.actions = Rec("pddl"), Rec("derived predicates"), Items(acts)
    me = W.node(W.parent, Items([W.node(v, Items((), "set"), Text_(), Num(0)) for v in visited], "set"), Text_("up"), Num(2))
    want = [(a.next[j], a.name[j]) for a in acts for j, k in enumerate(a.kinds) if k == "fresh"]

    class Stop(Exception):
        pass

    class Silent:
        def __getattr__(self, n):
            return getattr(ctx, n)

        def ok(self, oid):
            pass

        def undecide(self, oid, msg):
            raise Stop(("undecided", msg, None, None, None))

        def violation(self, oid, msg, loc, fn, facts=()):
            raise Stop(("violation", msg, loc, fn, facts))
    box = {}

    def iterator(o):
        if o.kind == "throw":
            return "throws"
        r = Rec("iterator")
        for f in W.fields_:
            if box["inplace"]:
                v = final(o.path, ("fld", THIS, f))
            elif isinstance(o.path.value, L):
                v = final(o.path, ("fld", o.path.value.p, f))
            else:
                v = engine.project(o.path.value, f)
            if isinstance(v, tuple) and v[0] == "refto":
                v = ("init", ("deref", v))
            r.f[f] = o.run.lazy(v)
        box["v"] = r
        return True

    def value(o):
        if o.kind == "throw":
            return "throws"
        box["v"] = o.value
        return True

    def ev(name, this, params, chk, msg, inplace=False):
        box.clear()
        box["inplace"] = inplace
        W.eval(oid, W.fn(fns[name]), PRIMS, params, this, chk, msg)
        if "v" not in box:
            raise Stop(("undecided", msg, None, None, None))
        return box["v"]

    def finished(cur, end, at):
        d = ev("==", cur, {0: end}, value, "%s: whether %s is the end" % (what, at))
        if not isinstance(d, bool):
            raise Stop(("undecided", "the end test", None, None, None))
        return d

    def child(cur, at):
        v = ev("*", cur, {}, value, "%s: %s" % (what, at))
        if not isinstance(v, Node) or v.f[F.impl] is NULLP:
            if isinstance(v, Node):
                raise Stop(("violation", "%s: %s is no node" % (what, at), fnloc(fns["*"]), fns["*"].qn, ()))
            raise Stop(("undecided", "a successor", None, None, None))
        return v

    def compare(v, w, at, fn):
        i = v.f[F.impl]
        if i.f[F.state] is not w[0]:
            raise Stop(("violation", "%s: %s is %s instead of %s" % (what, at, i.f[F.state], w[0]), fnloc(fns[fn]), fns[fn].qn, ()))
        if isinstance(i.f[F.name], Text_) and i.f[F.name] != w[1]:
            raise Stop(("violation", "%s: %s is named %r instead of %r" % (what, at, i.f[F.name], w[1]), fnloc(fns[fn]), fns[fn].qn, ()))
        d = i.f[F.depth]
        if isinstance(d, Num) and d != Num(3):
            raise Stop(("violation", "%s: %s is at depth %r below a node at depth 2" % (what, at, d), fnloc(fns[fn]), fns[fn].qn, ()))

    W.ctx = Silent()
    try:
        end = ev("end", me, {}, iterator, "end() with %s" % what)
        cur = ev("begin", me, {}, iterator, "begin() with %s" % what)
        for r in range(len(want) + 1):
            fn = "++" if r else "begin"
            done = finished(cur, end, "successor %d" % (r + 1))
            if done != (r == len(want)):
                msg = "%s: %d successors instead of %d" % (what, r, len(want)) if done else \
                    "%s: more than %d successors" % (what, len(want))
                raise Stop(("violation", msg, fnloc(fns[fn]), fns[fn].qn, ()))
            if done:
                break
            compare(child(cur, "successor %d" % (r + 1)), want[r], "successor %d" % (r + 1), fn)
            cur = ev("++", cur, {}, iterator, "after successor %d with %s" % (r + 1, what), True)
        if "--" in fns:
            for start in ((end, cur) if want else (end,))[:2]:
                cur = start
                for r in range(len(want) - 1, -1, -1):
                    cur = ev("--", cur, {}, iterator, "before successor %d with %s" % (r + 2, what), True)
                    compare(child(cur, "going back to successor %d" % (r + 1)), want[r], "going back to successor %d" % (r + 1), "--")
                # Forwards again from the first one.
                if len(want) > 1:
                    cur = ev("++", cur, {}, iterator, "forwards again with %s" % what, True)
                    compare(child(cur, "successor 2, reached from the back,"), want[1], "successor 2, reached from the back,", "++")
        W.ctx = ctx
        ctx.ok(oid)
    except Stop as e:
        W.ctx = ctx
        k, msg, loc, fn, facts = e.args[0]
        if k == "undecided":
            ctx.undecide(oid, msg)
        else:
            ctx.violation(oid, msg, loc, fn, facts or ())
    finally:
        W.ctx = ctx


def made(W, ctx, prog, F):
    """A node made below a parent, with and without a sibling."""
    for fn in prog.find(NODE + "::Node"):
        ts = [t.cls or t.s for t in fn.decl.ptypes]
        if len(ts) != 4 or ts[:2] != [NODE, NODE] or not ts[2].endswith("State") or "basic_string" not in ts[3]:
            continue
        for n in range(4):
            for sibling in (False, True):
                W.pddl = Rec("pddl")
                sp, sc, ss = St("the parent's state"), St("the child's state"), St("the sibling's state")
                ancs = [St("the state of ancestor %d" % i) for i in range(n)]
                name = Text_("act")
                nodes = [W.node(x, Items((), "set"), Text_(), Num(i + 2)) for i, x in enumerate(ancs)]     # a root at depth 2
                anc = Items(nodes, "set")
                par = W.node(sp, anc, Text_("up"), Num(n + 2))
                sib = Node("no node")
                sib.f[F.impl] = NULLP
                if sibling:
                    sib = W.node(ss, Items(tuple(nodes) + (par,), "set"), Text_("other"), Num(n + 3))

                def want(o):
                    if o.kind == "throw":
                        return "throws"
                    i = o.run.eval(final(o.path, ("fld", THIS, F.impl)))
                    i = o.run.target(i)
                    if i is NULLP:
                        return "has no implementation"
                    if not isinstance(i, Rec):
                        return None
                    got = {f: o.run.get(i, f) for f in (F.state, F.anc, F.name, F.depth, F.ipddl)}
                    a = o.run.target(got[F.anc])
                    if got[F.state] is not sc:
                        return "the state is %r" % got[F.state]
                    if got[F.name] != name:
                        return "the action is %r" % got[F.name]
                    if got[F.depth] != Num(n + 3):
                        return "the depth is %r instead of %d" % (got[F.depth], n + 3)
                    if o.run.target(got[F.ipddl]) is not W.pddl:
                        return "the domain is %r" % got[F.ipddl]
                    if not isinstance(a, Items):
                        return None
                    have = {id(W.state(x)) for x in a.v}
                    if have != {id(x) for x in ancs + [sp]}:
                        return "the ancestors are %r" % (a,)
                    return True
                W.eval("small.made.%d.%s" % (n, "sibling" if sibling else "first"), W.fn(fn), [x for x in PRIMS if x != NODE + "::Node"],
                       {0: par, 1: sib, 2: sc, 3: name}, None, want,
                       "the %s node below a node with %d ancestors" % ("next" if sibling else "first", n))


def small(ctx, prog, F):
    W = Steps(ctx, prog, F)
    made(W, ctx, prog, F)
    W.fields_ = prog.cls(IT)[0].fields
    fns = {}
    for nm, qn in (("begin", NODE + "::begin"), ("end", NODE + "::end"), ("++", IT + "::operator++"), ("--", IT + "::operator--"),
                   ("==", IT + "::operator=="), ("*", IT + "::operator*")):
        fs = [f for f in prog.find(qn, required=False) if not (nm in ("++", "--") and f.f["p"])]
        if fs:
            fns[nm] = fs[0]
    if not all(n in fns for n in ("begin", "end", "++", "==", "*")):
        ctx.undecide("small", "the iteration over successors")
        return
    bad = 0
    for name, rows, same in scenarios():
        what = "actions with arguments that are %s" % (["/".join(r) or "none" for r in rows] if rows else "not there (no actions)")
        follow(W, ctx, "small.successors.%s" % name, fns, rows, same, what)
