"""The searches interpreted over small successor graphs (C11)."""
from rules.summ import *
from rules.summ import THIS

NODE = "symbolic::Planner::Node"
PRIMS = [NODE + "::*", NODE + "*", "symbolic::operator<<"]
ROUNDS = 40


class N(Items):
    """A node: its successors are what iterating it yields."""
    __slots__ = ("name", "goal", "f")

    def __init__(self, name, goal=False, kids=()):
        Items.__init__(self, kids)
        self.name, self.goal = name, goal

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return self.name


COUT = Rec("the standard output")


def tree(spec, name="r"):
    """A node from nested lists; a leading "G" marks a goal."""
    goal = bool(spec) and spec[0] == "G"
    kids = spec[1:] if goal else spec
    return N(name + ("!" if goal else ""), goal, [k if isinstance(k, N) else tree(k, "%s%d" % (name, i)) for i, k in enumerate(kids)])


def graphs():
    shared = tree(["G"], "s")
    loop = N("l")
    loop.v = (tree(["G"], "g"), loop)
    return [("a root without successors", tree([])), ("a goal as root", tree(["G"])), ("a goal as root with a goal below", tree(["G", ["G"]])),
            ("a goal below the root", tree([["G"]])), ("two goals below the root", tree([["G"], ["G"]])),
            ("a dead end before a goal", tree([[], ["G"]])), ("a goal before a dead end", tree([["G"], []])),
            ("a chain to a goal", tree([[[["G"]]]])), ("goals at two depths", tree([["G", ["G"]], [["G"], []], [[["G"]]]])),
            ("a goal two ways lead to", tree([[shared], [[shared]]])), ("no goal", tree([[], [[], []]])),
            ("a wide tree", tree([[["G"], [], ["G"]], [[["G"], []], ["G"]], ["G"]])), ("a cycle", loop)]


class Searches(World):
    pick = 0

    def __init__(self, ctx, prog, S):
        World.__init__(self, ctx)
        self.program, self.S = prog, S

    def prog(self, unit):
        return self.program

    def fn(self, f):
        self._progs[id(f)] = self.program
        return f

    def equal(self, a, b):
        if isinstance(a, N) or isinstance(b, N):
            return a is b
        return None

    expired = None      # whether the time is over, None without a limit

    def hook(self, params, this, made, method):
        h = World.hook(self, params, this, made, method)

        def g(run, t):
            r = self.op(run, t)
            return h(run, t) if r is NotImplemented else r
        return g

    def top(self, run, q):
        """The index of the entry taken next."""
        if not q.v:
            raise Raises("the next entry of an empty frontier", True)
        if q.kind == "queue":
            return 0
        if q.kind == "stack":
            return len(q.v) - 1
        sizes = []
        for e in q.v:
            a = self.part(run, e, "ancestors")
            if not isinstance(a, Items):
                raise Unknown("an entry")
            sizes.append(len(a.v))
        best = [i for i, n in enumerate(sizes) if n == min(sizes)]
        return best[-1 if self.pick else 0]

    def part(self, run, e, name):
        if isinstance(e, Made) and len(e.args) == 2:
            return e.args[0 if name == "node" else 1]
        return run.get(e, name)

    def op(self, run, t):
        k = t[0]
        if k in ("init", "phi") and t[-1] == ("glob", "std::cout"):
            return COUT
        if k == "mut":
            nm = last(t[1].split("#")[0])
            if nm.startswith("operator<<") and self.out(t[2]):
                return COUT
            if nm == "pop":
                v = run.eval(self.below(t[2]))
                if isinstance(v, Items):
                    i = self.top(run, v)
                    return Items(v.v[:i] + v.v[i + 1:], v.kind)
            if nm in ("emplace", "push") and len(t) in (4, 5):
                v = run.eval(t[2])
                if isinstance(v, Items) and v.kind in ("queue", "stack", "heap"):
                    xs = [run.eval(x) for x in t[3:]]
                    if v.kind == "heap":
                        x = xs[0] if len(xs) == 1 else Made(None, xs)
                    else:
                        x = xs[0] if len(xs) == 1 else tuple(xs)
                    if isinstance(x, Made) and len(x.args) == 2 and v.kind != "heap":
                        x = tuple(x.args)
                    return Items(v.v + (x,), v.kind)
        if k == "new":
            head = t[1].split("<")[0]
            kind = {"std::queue": "queue", "std::stack": "stack", "std::priority_queue": "heap"}.get(head)
            if kind:
                xs = []
                for a in t[2:]:
                    try:
                        v = run.eval(a)
                    except Unknown:
                        if kind != "heap":
                            raise
                        continue
                    if isinstance(v, Items) and not isinstance(v, N):
                        xs += [tuple(x.args) if isinstance(x, Made) and len(x.args) == 2 and kind != "heap" else x for x in v.v]
                return Items(xs, kind)
            if t[1] in (NODE,) and len(t) == 3:
                return run.eval(t[2])
            if head == "std::pair" and len(t) == 4:
                return (run.eval(t[2]), run.eval(t[3]))
            if head == "std::chrono::duration":
                return Num(1) if self.expired is not None else Num(0)
        if k == "init" and t[1][0] == "val" and isinstance(t[1][1], tuple):
            return run.eval(t[1][1])
        if k == "lt" and any(isinstance(x, tuple) and x[:1] == ("call",) and "chrono" in str(x[1]) for x in walk(t)):
            # Whether the time allowed is less than the time taken.
            now = [any(y[0] == "call" and last(str(y[1])) == "now" for y in walk(x)) for x in t[1:3]]
            if self.expired is not None and now in ([False, True], [True, False]):
                return self.expired == now[1]
        if k in ("call", "ret", "refto"):
            nm = last(t[1])
            if nm == "operator bool" and t[1].startswith(NODE):
                v = run.eval(t[2])
                if isinstance(v, N):
                    return v.goal
            if nm == "count" and "chrono" in t[1]:
                return Num(1000 if self.expired is not None else 0)
            if nm == "empty" and len(t) == 3:
                v = run.eval(t[2])
                if isinstance(v, Items):
                    return not v.v
            if nm in ("begin", "end") and t[1].startswith(NODE):
                raise Unknown("a position among successors")
        if k == "elem" and t[2] in (("str", "#top"), ("str", "#back")) or k == "init" and t[1][0] == "idx" and \
                t[1][2] in (("str", "#top"), ("str", "#back")):
            v = run.eval(t[1]) if k == "elem" else run.place(t[1][1])
            ix = (t if k == "elem" else t[1])[2]
            if isinstance(v, Items):
                if ix[1] == "#back":
                    if not v.v:
                        raise Raises("the last entry of an empty frontier", True)
                    return v.v[-1]
                return v.v[self.top(run, v)]
        if k == "get" or k == "init" and t[1][0] == "fld":
            f = t[2] if k == "get" else t[1][2]
            if f in ("node", "ancestors"):
                try:
                    v = run.eval(t[1]) if k == "get" else run.place(t[1][1])
                except Unknown:
                    return NotImplemented
                if isinstance(v, Made) and len(v.args) == 2:
                    return self.part(run, v, f)
        return NotImplemented

    def below(self, t):
        """The frontier whose next entry was changed before it is removed."""
        while t[0] == "with" and all(tuple(p)[0] in (("int", 0), ("str", "#top")) for p, _ in t[2]):
            t = t[1]
        return t

    def out(self, t):
        while t[0] == "mut":
            t = t[2]
        return t[0] in ("init", "phi") and t[-1] == ("glob", "std::cout")


def expected(kind, root, limit):
    """The plans in the order the search reports them (the order within a depth is open for best-first)."""
    out, front = [], [(root, ())]
    while front:
        if kind == "depth-first":
            n, a = front.pop()
        elif kind == "breadth-first":
            n, a = front.pop(0)
        else:
            i = min(range(len(front)), key=lambda j: len(front[j][1]))
            n, a = front.pop(i)
        p = a + (n,)
        if n.goal:
            out.append(p)
        elif len(a) < limit:
            front += [(c, p) for c in n.v]
    return out


def plans(W, ctx, oid, s, kind, root, limit, what, verbose, expired):
    """Follows an iteration from begin() to end() and compares every plan it reports."""
    prog = W.program
    ft = prog.cls(s.it)[0]
    fields = ft.fields
    me = Rec("search")
    W.expired = expired
    ocls = prog.cls(s.outer.split("<")[0])[0]
    for f in ocls.fields:
        t = ocls.ftype(f).s
        me.f[f] = root if f == s.root else Num(limit) if f == s.obound else verbose if f in s.bools else \
            Num(1000 if expired is not None else 0) if f in s.timeouts else Rec("comparison")

    def iterator(o, where):
        r = Rec("iterator")
        for f in fields:
            if where == THIS:
                v = final(o.path, ("fld", THIS, f))
            elif isinstance(where, L):
                v = final(o.path, ("fld", where.p, f))
            else:
                v = engine.project(where, f)
            r.f[f] = o.run.lazy(v)
        return r
    box = {}

    def value(o):
        if o.kind == "throw":
            return "throws"
        box["v"] = o.value
        return True

    def it(o):
        if o.kind == "throw":
            return "throws"
        box["v"] = iterator(o, THIS if box.get("this") else o.path.value)
        return True

    def one(name):
        for q in (s.outer, s.it):
            fs = prog.find("%s::%s" % (q, name), required=False)
            if fs:
                return fs
        return []

    class Stop(Exception):
        pass

    bad = []

    class Silent:
        """Obligations of the single steps are part of the one of the iteration."""

        def __getattr__(self, n):
            return getattr(ctx, n)

        def ok(self, oid):
            pass

        def undecide(self, oid, msg):
            raise Stop(("undecided", msg, None, None, None))

        def violation(self, oid, msg, loc, fn, facts=()):
            raise Stop(("violation", msg, loc, fn, facts))

    W.ctx = Silent()
    try:
        def ev(f, params, this, chk, msg, inplace=False):
            box.clear()
            box["this"] = inplace
            W.eval(oid, W.fn(f), PRIMS, params, this, chk, msg)
            if "v" not in box:
                raise Stop(("undecided", msg, None, None, None))
            return box["v"]
        got = []
        beg = [f for q, fs in prog.by_qn.items() if q == s.outer + "::begin" for f in fs]
        fin = [f for q, fs in prog.by_qn.items() if q == s.outer + "::end" for f in fs]
        eqs = prog.find(s.it + "::operator==")
        inc = prog.find(s.it + "::operator++", lambda f: not f.f["p"])
        der = prog.find(s.it + "::operator*")
        if not (beg and fin and eqs and inc and der):
            raise Stop(("undecided", "the iteration", None, None, None))
        cur = ev(beg[0], {}, me, it, "begin() with %s" % what)
        stop = ev(fin[0], {}, me, it, "end() with %s" % what)
        want = expected(kind, root, limit)
        if expired:
            want = []
        for r in range(ROUNDS):
            done = ev(eqs[0], {0: stop}, cur, value, "the end test with %s" % what)
            if not isinstance(done, bool):
                raise Stop(("undecided", "the end test", None, None, None))
            if done:
                break
            p = ev(der[0], {}, cur, value, "the plan with %s" % what)
            if isinstance(p, Rec) and "heap" in p.f:
                p = p.f["heap"]
            if not isinstance(p, Items) or any(not isinstance(x, N) for x in p.v):
                raise Stop(("undecided", "a plan", None, None, None))
            got.append(tuple(p.v))
            if len(got) > len(want) + 1:
                break
            cur = ev(inc[0], {}, cur, it, "the next plan with %s" % what, inplace=True)
        loc = fnloc(inc[0])
        same = sorted(map(lambda p: [x.name for x in p], got)) == sorted(map(lambda p: [x.name for x in p], want)) if kind == "best-first" \
            else [[x.name for x in p] for p in got] == [[x.name for x in p] for p in want]
        if kind == "best-first" and same and [len(p) for p in got] != [len(p) for p in want]:
            same = False
        W.ctx = ctx
        if same:
            ctx.ok(oid)
        else:
            ctx.violation(oid, "%s: reports %s instead of %s" % (what, [list(p) for p in got], [list(p) for p in want]), loc, inc[0].qn)
    except Stop as e:
        W.ctx = ctx
        k, msg, loc, fn, facts = e.args[0]
        if k == "undecided":
            ctx.undecide(oid, msg)
        else:
            ctx.violation(oid, msg, loc, fn, facts or ())
    finally:
        W.ctx = ctx
        W.expired = None


def small(ctx, prog, s):
    W = Searches(ctx, prog, s)
    for gi, (name, root) in enumerate(graphs()):
        for limit in range(0, 5):
            if name == "a cycle" and limit > 3:
                continue
            for pick in ((0, 1) if s.kind == "best-first" else (0,)):
                W.pick = pick
                variants = [(False, None)]
                if gi in (4, 8) and s.bools:
                    variants.append((True, None))
                if gi in (4, 8) and s.timeouts:
                    variants += [(False, False), (False, True), (True, True)]
                for verbose, expired in variants:
                    plans(W, ctx, "%s.small.%d.%d.%d.%d.%s" % (s.kind, gi, limit, pick, verbose, expired), s, s.kind, root, limit,
                          "%s search in a graph with %s, at most %d steps%s%s" % (
                              s.kind, name, limit, ", printing" if verbose else "",
                              "" if expired is None else ", out of time" if expired else ", in time"), verbose, expired)
