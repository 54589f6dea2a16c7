"""C11: the searches report exactly the paths to goal nodes within the depth limit, each in full."""
from common import *
from rules import small_search

LEVEL = "other"
EXPLAIN = ("Every path of one step of the breadth-first, depth-first and best-first iterators is summarised and checked for every combination of "
           "(goal or not, number of ancestors against the depth limit, printing on or off, timeout off, running or expired): an entry must be taken "
           "from the right end of the frontier and removed, its plan must be its ancestors followed by the node itself, a goal must be reported with "
           "that plan, a node at the limit must not be expanded, and any other must have every child queued with that plan. The start, the end test "
           "and the reported plan are compared with their definitions. Nothing is executed.")

NODE = "symbolic::Planner::Node"
THIS = ("this",)
PRIM = [NODE + "::*", NODE + "*"]
KINDS = [("breadth-first", "symbolic::BreadthFirstSearch<"), ("depth-first", "symbolic::DepthFirstSearch<"), ("best-first", "symbolic::AStar<")]


def run(ctx):
    prog = ctx.program([], ["search"])
    for kind, pre in KINDS:
        its = [q for q in prog.classes if q.startswith(pre) and q.endswith(">::iterator")]
        if len(its) != 1:
            ctx.undecide(kind, "the search was not found")
            continue
        s = Search(prog, kind, its[0])
        ctx.group(kind + ".ends", ends, ctx, prog, s)
        ctx.group(kind + ".step", step, ctx, prog, s)
        ctx.group(kind + ".begin", begin, ctx, prog, s)
        ctx.group(kind + ".end", end, ctx, prog, s)
        ctx.group(kind + ".plan", plan, ctx, prog, s)
        ctx.group(kind + ".small", small_search.small, ctx, prog, s)


class Search:
    def __init__(self, prog, kind, it):
        self.kind = kind
        self.it = it
        self.outer = it[:-len("::iterator")]
        c = prog.cls(it)[0]
        self.front = self.plan = self.bound = self.owner = None
        for f in c.fields:
            t = c.ftype(f).s
            if self.outer.split("<")[0] in t and t.rstrip().endswith("*"):
                self.owner = f
            elif "queue<" in t or "stack<" in t or t.count(NODE) and "pair<" in t or "SearchNode" in t:
                self.front, self.ftype = f, t
            elif "vector<" in t and NODE in t:
                self.plan, self.shared = f, "_ptr<" in t
            elif "long" in t or "size_t" in t or t.split()[-1] in ("int", "unsigned"):
                self.bound = f
        o = prog.cls(self.outer.split("<")[0])
        self.obound = self.root = self.cmp = None
        self.bools = []
        self.timeouts = []
        for f in o[0].fields if o else ():
            t = o[0].ftype(f).s
            if "chrono" in t:
                self.timeouts.append(f)
            elif t.replace("const", "").strip() == "bool":
                self.bools.append(f)
            elif "long" in t or "size_t" in t or t.split()[-1] in ("int", "unsigned"):
                self.obound = f
            elif NODE in t and "vector" not in t and "<" not in t:
                self.root = f
            else:
                self.cmp = self.cmp or f
        if self.front is None or self.plan is None or self.obound is None or self.root is None:
            raise AnalysisError("%s: the fields of the iterator are not recognised" % it)
        lifo = "std::stack<" in self.ftype
        self.FRONT = ("fld", THIS, self.front)
        self.PLAN = ("fld", THIS, self.plan)
        self.want = {"breadth-first": "std::queue<", "depth-first": "std::stack<", "best-first": "std::priority_queue<"}[kind]
        self.takes = ("int", 0) if self.want == "std::queue<" else ("str", "#top")

    # -- terms --

    def is_bound(self, t):
        return t[0] == "init" and t[1][0] == "fld" and t[1][2] in (self.bound, self.obound) and (
            t[1][1] == THIS or t[1][1] == ("deref", ("init", ("fld", THIS, self.owner))))

    def plan_of(self, v, store):
        """The list of nodes a plan value stands for."""
        if v is not None and v[0] == "addr" and v[1][0] == "heap":
            return store.get(v[1], ("init", v[1]))
        return v

    def no_plan(self, v, store):
        """True when a plan value is null or an empty list, False when it is not, None when unknown."""
        if v == ("null",) or v == ("list",) or v[0] == "new" and len(v) == 2:
            return True
        if v[0] == "addr":
            if not self.shared:
                return None
            return False
        if v[0] == "mut" and v[1].split("::")[-1] in ("clear", "reset"):
            return True
        if v[0] == "mut" and v[1].split("::")[-1] in ("push_back", "emplace_back"):
            return False
        if v[0] in ("phi", "init"):
            return False
        return None


def pops(v):
    """(frontier value below, number of removals) looking through changes to the entry that is removed."""
    if v[0] == "mut" and v[1].split("::")[-1] in ("pop", "pop_front", "pop_back"):
        x = v[2]
        while x[0] == "with":
            ix = {tuple(k)[0] for k, _ in x[2]}
            if len(ix) != 1 or not ix <= {("int", 0), ("str", "#top")}:
                break
            x = x[1]
        return x, 1
    return v, 0


class Entry:
    """The frontier entry taken in one iteration."""

    def __init__(self, s, q0):
        self.s = s
        self.q0 = q0
        self.e = ("elem", q0, s.takes)

    def parts(self, t):
        return t[0] == "get" and t[1] == self.e

    def is_anc(self, t):
        # A new list to which all of another one is appended.
        if t[0] == "mut" and t[1].split("::")[-1] == "append" and len(t) == 4 and (t[2] == ("list",) or t[2][0] == "new" and len(t[2]) == 2) and \
                t[3][0] == "range" and len(t[3]) == 2:
            return self.is_anc(t[3][1])
        if self.s.shared:
            return t[0] == "init" and t[1][0] == "deref" and self.parts(t[1][1])
        return self.parts(t)

    def is_plan(self, t):
        return t[0] == "mut" and t[1].split("::")[-1] in ("push_back", "emplace_back") and len(t) == 4 and self.is_anc(t[2]) and \
            self.parts(t[3]) and t[3] != t[2]

    def is_node(self, t):
        if t[0] == "init" and t[1][0] == "idx":
            return None
        if t[0] == "elem" and self.is_plan(t[1]):
            ix = t[2]
            return ix[0] == "size" and self.is_anc(ix[1]) or ix == ("str", "#back") or \
                ix[0] == "lin" and ix[1] == -1 and ix[2] == ((("size", t[1]), 1),)
        if t[0] == "elem" and t[1][0] == "mut" and t[1][1].split("::")[-1] in ("push_back", "emplace_back") and len(t[1]) == 4 and \
                self.parts(t[1][3]) and t[2] == ("size", t[1][2]):
            return True
        return self.parts(t)

    def anc_size(self, t):
        """Number of ancestors a size term stands for, as an offset to their number."""
        if t[0] == "size":
            if self.is_anc(t[1]):
                return 0
            if self.is_plan(t[1]):
                return 1
        return None

    def closed(self, t):
        """Made of the frontier, its entry and nodes only."""
        for x in walk(t):
            if x[0] in ("call", "refto", "ret") and not x[1].startswith(NODE):
                return False
            if x[0] in ("sym", "lam", "conv", "glob", "var", "heap"):
                return False
            if x[0] == "phi" and x[2] != self.s.FRONT:
                return False
            # How many there are in a list that is not recognised.
            if x[0] == "size" and x[1][0] in ("mut", "new", "with"):
                return False
        return True


def environments():
    for d in (0, 1, 3):
        for n in range(d + 1):
            for goal in (True, False):
                for verbose in (False, True):
                    for timeout in ("off", "running", "expired"):
                        yield {"limit": d, "ancestors": n, "goal": goal, "verbose": verbose, "timeout": timeout}


def describe(env):
    return "the node %s a goal and has %d ancestors (limit %d)%s%s" % (
        "is" if env["goal"] else "is not", env["ancestors"], env["limit"], ", printing" if env["verbose"] else "",
        "" if env["timeout"] == "off" else ", timeout " + env["timeout"])


def leaf_of(s, en, env, empty):
    def chrono(t):
        return any(isinstance(x, tuple) and x and (x[0] in ("call", "ret") and "chrono" in x[1] or x[0] == "fld" and x[2] in s.timeouts) for x in walk(t))

    def leaf(t):
        if s.is_bound(t):
            return env["limit"]
        if t[0] == "size":
            if t[1] == en.q0 and empty:
                return 0
            o = en.anc_size(t)
            if o is not None:
                return env["ancestors"] + o
        if t[0] == "pos" and t[1] == ("size", en.q0):
            return not empty
        if t[0] == "eq0" and t[1] == ("size", en.q0):
            return empty
        if t[0] == "call" and t[1].startswith(NODE) and t[1].endswith("operator bool") and en.is_node(t[2]):
            return env["goal"]
        if t[0] == "init" and t[1][0] == "fld" and t[1][2] in s.bools:
            return env["verbose"]
        if t[0] == "call" and t[1].startswith("std::chrono") and t[1].endswith("::count") and t[2][0] == "init" and t[2][1][0] == "fld" and t[2][1][2] in s.timeouts:
            return 0 if env["timeout"] == "off" else 5
        if t[0] == "lt" and chrono(t):
            def limit(x):
                return x[0] == "init" and x[1][0] == "fld" and x[1][2] in s.timeouts
            if limit(t[1]) and not limit(t[2]) and chrono(t[2]):
                return None if env["timeout"] == "off" else env["timeout"] == "expired"
            if limit(t[2]) and not limit(t[1]) and chrono(t[1]):
                return None if env["timeout"] == "off" else env["timeout"] == "running"
        return None
    leaf.chrono = chrono
    return leaf


def judge(ctx, oid, fn, s, en, facts, env, empty, p, outcome):
    """False when the path is not taken, None when it is right; else (definite, message, wrong)."""
    leaf = leaf_of(s, en, env, empty)
    h, unknown = holds_in(facts, leaf, ignore=lambda a: a[0] == "more")
    if h is False:
        return False
    ok, msg = outcome()
    if ok is True:
        return None
    return ok is False and all(en.closed(a) or leaf.chrono(a) for a in unknown), msg, ok is False


def step(ctx, prog, s):
    for fn in prog.find(s.it + "::operator++"):
        if fn.f["p"]:
            continue
        ps = ctx.run(prog, fn, PRIM)
        if s.want not in s.ftype:
            known = any(w in s.ftype for w in ("std::queue<", "std::stack<", "std::priority_queue<"))
            ctx.expect("%s.order" % s.kind, False if known else None,
                       "%s: a %s search keeps its frontier in a %s" % (fn.qn, s.kind, s.ftype.split("<")[0]), fn.loc, fn.qn)
            return
        ctx.ok("%s.order" % s.kind)
        loops = {}
        for p in ps:
            for e in all_events(p.ev):
                if e.k == "loop" and s.FRONT in e.loop.mod and e.loop.init.get(s.FRONT) == ("init", s.FRONT):
                    loops[e.loop.id] = e.loop
        if len(loops) != 1:
            ctx.undecide("%s.step" % s.kind, "%s: the loop over the frontier is not recognised" % fn.qn)
            continue
        lp = list(loops.values())[0]
        en = Entry(s, ("phi", lp.id, s.FRONT))
        iterations(ctx, fn, s, en, lp)
        results(ctx, fn, s, en, lp, ps)


def entry_lists(S, en):
    """Ancestor lists reachable from the frontier that a path changes."""
    for q, v in S.store.items():
        x = q
        while isinstance(x, tuple) and x and x[0] in ("fld", "idx", "deref", "get"):
            if x[0] == "deref" and any(y == en.q0 or y == en.s.FRONT for y in walk(x[1])) and v != ("init", q):
                return q
            x = x[1]
    return None


def iterations(ctx, fn, s, en, lp):
    """What one iteration that goes round the loop does with the entry it took."""
    bad = vague = None
    for ip in lp.paths:
        if ip.flow is None or ip.flow == "continue":
            q = entry_lists(ip.S, en)
            if q is not None:
                if any("use_count" in repr(a) or "unique" in repr(a) for a, _ in ip.facts):
                    vague = vague or ("whether the list of ancestors is shared is not recognised", next(environments()))
                else:
                    bad = bad or (True, "changes the list of ancestors it shares with the other entries", ip, None)
    for env in environments():
        here = []
        for ip in lp.paths:
            S = ip.S
            back = ip.flow is None or ip.flow == "continue"

            def outcome():
                f = S.store.get(s.FRONT, en.q0)
                if not back:
                    return True, ""
                if env["goal"]:
                    flag = [q for q in lp.mod if q[0] == "var" and S.store.get(q) in (("bool", True), ("bool", False))]
                    return (None if flag else False), "the goal is passed over"
                if f[0] == "with" and f[1] == en.q0:
                    return False, "the entry is not removed from the frontier"
                if env["ancestors"] >= env["limit"]:
                    if pops(f) == (en.q0, 1):
                        return True, ""
                    if f == en.q0:
                        return False, "the entry is not removed from the frontier"
                    if f[0] == "phi":
                        return False, "the node is expanded although it is at the depth limit"
                    return None, "what remains in the frontier is not recognised"
                return expansion(ctx, fn, s, en, ip, f, env)
            r = judge(ctx, "", fn, s, en, ip.facts, env, False, ip, outcome)
            if r is not False:
                here.append((r, ip))
        for r, ip in here:
            if r and (r[0] or r[2] and all(x and x[2] for x, _ in here)) and not bad:
                bad = (True, r[1], ip, env)
            elif r and not vague:
                vague = (r[1], env)
    oid = "%s.iteration" % s.kind
    if bad:
        ctx.violation(oid, "%s: %s%s" % (fn.qn, "when %s, " % describe(bad[3]) if bad[3] else "", bad[1]), lp.loc, fn.qn,
                      [("" if v else "!") + show(a) for a, v in bad[2].facts])
    elif vague:
        ctx.undecide(oid, "%s: when %s, %s" % (fn.qn, describe(vague[1]), vague[0]))
    else:
        ctx.ok(oid)


def expansion(ctx, fn, s, en, ip, f, env):
    """Every child is queued with the plan that leads to it."""
    if pops(f) == (en.q0, 1):
        for e in all_events(ip.events):
            if e.k == "loop" and e.loop.over and en.is_node(e.loop.over[0]) and e.loop.paths and \
                    not any(s.FRONT in x.S.store and x.S.store[s.FRONT] != f for x in e.loop.paths):
                return False, "a child is not queued"
        return False, "no child is queued"
    if f == en.q0:
        return False, "the entry is not removed from the frontier"
    if f[0] != "phi":
        return None, "the frontier after the iteration is not recognised"
    ch = None
    for e in all_events(ip.events):
        if e.k == "loop" and e.loop.id == f[1]:
            ch = e
    if ch is None:
        return None, "the loop over the children is not recognised"
    lp = ch.loop
    start = lp.init.get(s.FRONT)
    if start is None or pops(start) != (en.q0, 1):
        if start == en.q0:
            return None, "the entry is removed later"
        return None, "the frontier before the children is not recognised"
    if lp.kind == "rfor" or lp.over:
        if len(lp.over) != 1 or not en.is_node(lp.over[0]):
            known = len(lp.over) == 1 and en.closed(lp.over[0])
            return (False if known else None), "the children queued are not those of the node"
    else:
        return None, "the loop over the children is not recognised"
    child = ("elem", lp.over[0], ("iter", lp.id))
    phi = ("phi", lp.id, s.FRONT)
    for ip2, goal in [(x, g) for x in lp.paths for g in (True, False)]:
        leaf = leaf_of(s, en, env, False)

        def leaf2(t):
            if t[0] == "call" and t[1].startswith(NODE) and t[1].endswith("operator bool") and t[2] == child:
                return goal
            return leaf(t)
        h, unknown = holds_in(ip2.facts, leaf2, ignore=lambda a: a[0] == "more")
        if h is False:
            continue
        definite = all(en.closed(a) for a in unknown)
        if ip2.flow not in (None, "continue"):
            if ip2.flow == "throw":
                continue
            return (False if definite else None), "the remaining children are dropped"
        g = ip2.S.store.get(s.FRONT, phi)
        if g == phi:
            if not goal and env["ancestors"] + 1 >= env["limit"]:
                continue  # it would neither be reported nor expanded
            return (False if definite else None), "a child is not queued"
        if g[0] != "mut" or g[2] != phi or g[1].split("::")[-1] not in ("emplace", "push", "emplace_back", "push_back"):
            if g[0] == "mut" and g[2][0] == "mut" and g[2][1] == g[1]:
                return False, "a child is queued twice"
            return None, "how a child is queued is not recognised"
        args = list(g[3:])
        if len(args) == 1 and args[0][0] in ("pair", "new", "agg", "list", "with"):
            a = args[0]
            args = [v for _, v in a[2]] if a[0] == "with" else [x for x in a[1:] if isinstance(x, tuple)]
        if len(args) != 2:
            return None, "the entry queued for a child is not recognised"
        if child not in args:
            if any(en.is_node(x) for x in args):
                return False, "the node itself is queued instead of its child"
            return None, "the entry queued for a child is not recognised"
        pl = [x for x in args if x != child]
        if len(pl) != 1:
            return None, "the entry queued for a child is not recognised"
        ok, msg = is_plan(s, en, pl[0], ip2.S.store, ip.S.store)
        if ok is False and "earlier" in msg and not env["ancestors"]:
            ok = None
        if ok is not True:
            return ok, "a child is queued " + msg
    return True, ""


def is_plan(s, en, v, inner, outer):
    """Whether a value is the plan of the node taken, and stays it."""
    for store in (inner, outer):
        if v[0] == "addr" and v[1] not in store:
            if store is outer and v[1] in inner:
                continue  # made for this child alone
            return None, "with a list that is not recognised"
        x = s.plan_of(v, store)
        if not en.is_plan(x):
            if en.is_anc(x) or s.shared and en.parts(x):
                return False, "with the ancestors of the node, without the node itself"
            if s.no_plan(x, store) is True:
                return False, "with an empty list of ancestors"
            if x[0] == "phi":
                return False, "with the plan of an earlier node"
            if x[0] == "mut" and any(en.is_plan(y) for y in walk(x)):
                return False, "with a list that is not the plan of the node"
            if x[0] == "mut" and x[2][0] == "phi" and x[2][2] == s.PLAN:
                return False, "with the plan of an earlier node and the node"
            its = [y for y in walk(x) if y[0] == "itr"]
            if x[0] == "new" and len(its) == 2 and any(y[3] != I(0) for y in its) and all(
                    en.is_plan(inner.get(y[1], outer.get(y[1], ("null",)))) or en.is_plan(y[1]) for y in its):
                return False, "with a part of the plan of the node"
            return None, "with a list that is not recognised"
    return True, ""


def results(ctx, fn, s, en, lp, ps):
    """What is left when the step returns: a goal's plan, or the end."""
    bad = vague = None
    for env in list(environments()) + [{"limit": 1, "ancestors": 0, "goal": False, "verbose": v, "timeout": "off", "empty": True} for v in (False, True)]:
        empty = bool(env.get("empty"))
        for p in ps:
            S = p.S
            leaf = leaf_of(s, en, env, empty)

            def outcome():
                if p.kind == "throw":
                    return None, "an exception is thrown"
                f = final(p, s.FRONT)
                v = final(p, s.PLAN)
                done = s.no_plan(v, S.store)
                if p.value is not None and isinstance(p.value, L) and p.value.p != THIS:
                    return False, "the iterator itself is not returned"
                if empty:
                    if f not in (en.q0, ("init", s.FRONT)):
                        return None, "the frontier is not recognised"
                    return done, "the last plan is still reported" if done is False else "what is reported at the end is not recognised"
                if env["goal"]:
                    if done is True:
                        if env["timeout"] == "expired":
                            return True, ""
                        return False, "the plan of a goal is dropped"
                    x = s.plan_of(v, S.store)
                    if not en.is_plan(x):
                        if en.is_anc(x):
                            return False, "the plan reported lacks the goal node"
                        if x[0] == "phi" or x[0] == "mut" and x[2][0] == "phi" and x[2][2] == s.PLAN:
                            # The root is taken before any other plan is held.
                            return (False if env["ancestors"] else None), "the plan reported is not that of the node"
                        return None, "the plan reported is not recognised"
                    if pops(f) == (en.q0, 1):
                        return True, ""
                    if f == en.q0 or f[0] == "with" and f[1] == en.q0:
                        return False, "the goal stays in the frontier"
                    return None, "the frontier after a goal is not recognised"
                if env["timeout"] == "expired" and any(leaf.chrono(a) for a, _ in p.facts):
                    gone = s.ended(f, v, S.store) if s.end_test else None
                    return gone, "the search stops in a state that is not the end"
                x = s.plan_of(v, S.store)
                if x[0] != "phi" and not en.is_plan(x) and done is None:
                    return None, "the result is not recognised"
                if done:
                    return False, "the search stops although the frontier has entries"
                return False, "the search stops at a node that is not a goal"
            r = judge(ctx, "", fn, s, en, p.facts, env, empty, p, outcome)
            if r and r[0] and not bad:
                bad = (r[1], p, env)
            elif r and not vague:
                vague = (r[1], env)
    oid = "%s.result" % s.kind
    nm = lambda e: "the frontier is exhausted" if e.get("empty") else describe(e)
    if bad:
        ctx.violation(oid, "%s: when %s, %s" % (fn.qn, nm(bad[2]), bad[0]), last_loc(bad[1], fn), fn.qn, fact_lines(bad[1]))
    elif vague:
        ctx.undecide(oid, "%s: when %s, %s" % (fn.qn, nm(vague[1]), vague[0]))
    else:
        ctx.ok(oid)


# ---- the two ends ----------------------------------------------------------------

STATES = {"the end": (True, True), "the last plan": (True, False), "a plan": (False, False)}


def ends(ctx, prog, s):
    """Two iterators are equal exactly when both are at the end."""
    s.end_test = None
    OT = ("param", 0)

    def leaf_for(env):
        def leaf(t):
            for who, base in (("this", THIS), ("other", OT)):
                fe, pe = env[who]
                F, P = ("init", ("fld", base, s.front)), ("init", ("fld", base, s.plan))
                if t == ("size", F):
                    return 0 if fe else 2
                if t == ("size", P):
                    return 0 if pe else 2
                if t == ("isnull", P):
                    return pe
                if t[0] in ("isempty", "empty") and t[1] == F:
                    return fe
            return None
        return leaf

    for op in ("==", "!="):
        for fn in prog.find(s.it + "::operator" + op):
            ps = ctx.run(prog, fn, PRIM)
            bad = vague = None
            for a, fa in STATES.items():
                for b, fb in STATES.items():
                    env = {"this": fa, "other": fb}
                    leaf = leaf_for(env)
                    want = (fa == (True, True) and fb == (True, True)) == (op == "==")
                    if a != "the end" and b != "the end":
                        continue
                    for p in ps:
                        h, unknown = holds_in(p.facts, leaf)
                        if h is False:
                            continue
                        got = value_of(p.value, leaf) if p.kind == "return" and not isinstance(p.value, L) else None
                        if got is None or h is None:
                            vague = vague or "the comparison of %s with %s is not recognised" % (a, b)
                        elif bool(got) != want:
                            bad = bad or ("an iterator at %s %s one at %s" % (a, "equals" if bool(got) == (op == "==") else "differs from", b), p)
            oid = "%s.equal%s" % (s.kind, op)
            if bad:
                ctx.violation(oid, "%s: %s" % (fn.qn, bad[0]), fn.loc, fn.qn, fact_lines(bad[1]))
            elif vague:
                ctx.undecide(oid, "%s: %s" % (fn.qn, vague))
            else:
                ctx.ok(oid)
                if op == "==":
                    s.end_test = True

    def ended(f, v, store):
        """Whether a state left by a step is the end."""
        pn = s.no_plan(v, store)
        fe = f == ("list",) or f[0] == "new" and not any(x[0] in ("list", "pair") and len(x) > 1 for x in walk(f) if isinstance(x, tuple) and x)
        if f[0] == "phi" or f[0] == "mut":
            fe = False
        for fn in prog.find(s.it + "::operator=="):
            leaf = leaf_for({"this": (fe, pn is True), "other": (True, True)})
            for p in ctx.run(prog, fn, PRIM):
                if holds_in(p.facts, leaf)[0]:
                    return bool(value_of(p.value, leaf))
        return None
    s.ended = ended


def begin(ctx, prog, s):
    """The first plan is found from a frontier that holds the root alone."""
    inc = s.it + "::operator++"
    for fn in prog.find(s.outer + "::begin"):
        for p in ctx.run(prog, fn, PRIM + [inc]):
            oid = "%s.begin" % s.kind
            v = p.value
            if p.kind != "return" or v is None or isinstance(v, L):
                ctx.undecide(oid, "%s: the result is not recognised" % fn.qn)
                continue
            n = 0
            while v[0] == "mut" and v[1] == inc:
                n += 1
                v = v[2]
            if v[0] != "with":
                ctx.undecide(oid, "%s: the iterator is not recognised" % fn.qn)
                continue
            fs = {tuple(k)[0]: x for k, x in v[2] if len(k) == 1}
            if n == 0:
                ctx.violation(oid, "%s: the first plan is not looked for" % fn.qn, fn.loc, fn.qn)
            elif n > 1:
                ctx.violation(oid, "%s: the first plan is skipped" % fn.qn, fn.loc, fn.qn)
            else:
                ctx.ok(oid)
            start(ctx, fn, p, s, fs)


def root_of(s, t):
    return t == ("init", ("deref", ("init", ("fld", THIS, s.root)))) or t == ("init", ("fld", THIS, s.root))


def start(ctx, fn, p, s, fs):
    oid = "%s.root" % s.kind
    f = fs.get(s.front)
    entries = []
    if f is not None:
        x = f
        while x[0] == "mut" and x[1].split("::")[-1] in ("emplace", "push"):
            a = x[3:]
            entries.append(a[0] if len(a) == 1 else ("pair",) + tuple(a))
            x = x[2]
        for y in walk(x):
            if y[0] == "list" and len(y) > 1:
                entries += list(y[1:])
                break
    ok = None
    why = "the first entry of the frontier is not recognised"
    if f is not None and not entries:
        ok, why = False, "the frontier starts empty"
    elif len(entries) > 1:
        ok, why = False, "the frontier starts with %d entries" % len(entries)
    elif entries:
        e = entries[0]
        args = [v for _, v in e[2]] if e[0] == "with" else [y for y in e[1:] if isinstance(y, tuple)]
        node = [y for y in args if root_of(s, y)]
        anc = [y for y in args if not root_of(s, y)]
        if len(node) == 1 and len(anc) == 1:
            a = anc[0]
            if a[0] == "addr":
                a = p.S.store.get(a[1], ("init", a[1]))
            ok = s.no_plan(a, p.S.store)
            why = "the root starts with ancestors"
            if a == ("null",) and s.shared:
                ok, why = False, "the root has no list of ancestors"
    ctx.expect(oid, ok, "%s: %s" % (fn.qn, why), fn.loc, fn.qn)
    # The depth limit the iterator uses is the one given to the search.
    oid = "%s.limit" % s.kind
    if s.bound:
        b = fs.get(s.bound)
        ctx.expect(oid, same_number(b, ("init", ("fld", THIS, s.obound))),
                   "%s: the iterator does not use the depth limit of the search" % fn.qn, fn.loc, fn.qn)
    elif s.owner:
        b = fs.get(s.owner)
        ctx.expect(oid, b == ("addr", THIS) or b == THIS or (False if b == ("null",) else None),
                   "%s: the iterator does not refer to the search" % fn.qn, fn.loc, fn.qn)
    if s.kind == "best-first" and s.cmp and f is not None:
        c = ("init", ("deref", ("init", ("fld", THIS, s.cmp))))
        made = any(y[0] == "new" and "priority_queue" in str(y[1]) and len(y) == 2 for y in walk(f)) or not any(
            y[0] in ("new", "call", "ret", "lam") for y in walk(f))
        ctx.expect("best-first.compare", True if any(y in (c, ("init", ("fld", THIS, s.cmp))) for y in walk(f)) else False if made else None,
                   "%s: the frontier is not ordered by the given comparison" % fn.qn, fn.loc, fn.qn)


def same_number(b, want, facts=()):
    """Whether an integer term is the wanted one: compared on a few values when it is written differently."""
    if b is None:
        return None
    if b[0] == "conv":
        b = b[-1]
    if b == want:
        return True
    for n in (0, 1, 2, 7):
        leaf = lambda t: n if t == want else None
        if holds_in(facts, leaf)[0] is not True:
            continue
        x = value_of(b, leaf)
        if x is None:
            return None
        if x != n:
            return False
    return None if not facts else True


def end(ctx, prog, s):
    for fn in prog.find(s.outer + "::end"):
        for p in ctx.run(prog, fn, PRIM):
            oid = "%s.end" % s.kind
            v = p.value
            if p.kind != "return" or v is None or isinstance(v, L) or v[0] != "with":
                ctx.undecide(oid, "%s: the iterator is not recognised" % fn.qn)
                continue
            fs = {tuple(k)[0]: x for k, x in v[2] if len(k) == 1}
            ok = s.ended(fs.get(s.front, ("list",)), fs.get(s.plan, ("null",)), p.S.store)
            ctx.expect(oid, ok, "%s: the iterator is not at the end" % fn.qn, fn.loc, fn.qn)
    # The constructor keeps what it is given.
    for fn in prog.find(s.outer + "::" + s.outer.split("<")[0].split("::")[-1]):
        pt = [t for t in fn.decl.ptypes]
        ints = [i for i, t in enumerate(pt) if t.s.split()[-1] in ("long", "int", "unsigned") or "size_t" in t.s]
        nodes = [i for i, t in enumerate(pt) if t.cls == NODE]
        if len(ints) != 1 or len(nodes) != 1:
            continue
        for p in ctx.run(prog, fn, PRIM):
            b = final(p, ("fld", THIS, s.obound))
            if holds_in(p.facts, lambda t: 0 if t == ("init", ("param", ints[0])) else None)[0] is False and \
                    holds_in(p.facts, lambda t: 3 if t == ("init", ("param", ints[0])) else None)[0] is False:
                continue
            ctx.expect("%s.keeps-limit" % s.kind, same_number(b, ("init", ("param", ints[0])), p.facts),
                       "%s: the depth limit is not the one given" % fn.qn, fn.loc, fn.qn)
            r = final(p, ("fld", THIS, s.root))
            ok = r in (("addr", ("param", nodes[0])), ("init", ("param", nodes[0])), ("addr", ("deref", ("init", ("param", nodes[0])))), ("param", nodes[0]))
            ctx.expect("%s.keeps-root" % s.kind, True if ok else None, "%s: the root is not the one given" % fn.qn, fn.loc, fn.qn)


def plan(ctx, prog, s):
    for fn in prog.find(s.it + "::operator*"):
        for p in ctx.run(prog, fn, PRIM):
            v = p.value.p if isinstance(p.value, L) else p.value
            want = ("deref", ("init", s.PLAN)) if s.shared else s.PLAN
            ctx.expect("%s.plan" % s.kind, True if v in (want, ("init", want)) else None, "%s: does not give the plan" % fn.qn, fn.loc, fn.qn)
