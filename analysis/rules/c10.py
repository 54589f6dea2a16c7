"""C10: the successors of a search node are exactly its valid, unvisited, correctly computed children."""
from common import *
from rules import small_planner

LEVEL = "other"
EXPLAIN = ("Every path of the successor iterator is summarised. Each step of its loops must move to the next (action, parameters) position without "
           "skipping one, may pass over a position only when the precondition is false there or the child was visited, and may stop only on a valid "
           "unvisited child built from the parent's state by that very action with those very parameters followed by the derived predicates, or at "
           "the end. Node construction, the root, the goal test and the node hash are compared with their definitions. Nothing is executed.")

NODE = "symbolic::Planner::Node"
IT = NODE + "::iterator"
THIS = ("this",)
PRIM = ["symbolic::Action::*", "symbolic::DerivedPredicate::*", "symbolic::CombinationGenerator*", "symbolic::Pddl::*", NODE + "::Node"]


def run(ctx):
    prog = ctx.program(["src/planning/planner.cc"], [])
    F = fields(prog)
    ctx.group("forward", stepping, ctx, prog, F, +1)
    ctx.group("backward", stepping, ctx, prog, F, -1)
    ctx.group("begin", begin, ctx, prog, F)
    ctx.group("start", start, ctx, prog, F)
    ctx.group("end", end, ctx, prog, F)
    ctx.group("finished", finished, ctx, prog, F)
    ctx.group("deref", deref, ctx, prog, F)
    ctx.group("child", child_ctor, ctx, prog, F)
    ctx.group("root", root_ctor, ctx, prog, F)
    ctx.group("goal", goal, ctx, prog, F)
    ctx.group("hash", node_hash, ctx, prog, F)
    ctx.group("small", small_planner.small, ctx, prog, F)


class Fields:
    pass


def fields(prog):
    F = Fields()
    c = prog.cls(IT)[0]
    F.act = F.par = F.child = F.parent = F.pddl = None
    for f in c.fields:
        t = c.ftype(f).s
        if "CombinationGenerator" in t:
            F.par = f
        elif "normal_iterator" in t or "Action" in t:
            F.act = f
        elif t.startswith("const") and t.rstrip(" &*").endswith(NODE):
            F.parent = f
        elif t.rstrip(" &*").endswith(NODE):
            F.child = f
        elif "Pddl" in t:
            F.pddl = f
    n = prog.cls(NODE)[0]
    F.impl = ([f for f in n.fields if "shared_ptr" in n.ftype(f).s] or [None])[0]
    i = prog.cls(NODE + "::NodeImpl")[0]
    F.state = F.anc = F.name = F.depth = F.ipddl = None
    for f in i.fields:
        t = i.ftype(f).s
        if "shared_ptr" in t:
            F.anc = f
        elif "basic_string" in t:
            F.name = f
        elif "State" in t:
            F.state = f
        elif "Pddl" in t:
            F.ipddl = f
        else:
            F.depth = f
    if None in (F.act, F.par, F.child, F.parent, F.impl, F.state, F.anc, F.name, F.depth, F.ipddl):
        import ir
        raise ir.AnalysisError("search node fields not recognised")
    return F


# ---- reading terms --------------------------------------------------------------

def unwrap(t):
    while t[0] == "init" and t[1][0] in ("deref",) and t[1][1][0] in ("refto", "addr"):
        t = t[1][1] if t[1][1][0] == "refto" else ("init", t[1][1][1])
    return t


class Reader:
    """Reads action and parameter positions relative to the values at a point (entry)."""

    def __init__(self, F, a0, p0):
        self.F, self.a0, self.p0 = F, a0, p0

    def act(self, t):
        """('cur'|'begin'|'end', offset)"""
        if t == self.a0:
            return ("cur", 0)
        if t[0] == "itr" and "actions" in repr(t[1]):
            k = t[2]
            if k in ("begin", "end") and is_int(t[3]):
                return (k, t[3][1])
            return None
        if t[0] == "mut" and t[1].endswith("::operator++") or t[0] == "call" and t[1].split("::")[-1] == "next" and len(t) == 3:
            x = self.act(t[2])
            return x and (x[0], x[1] + 1)
        if t[0] == "mut" and t[1].endswith("::operator--") or t[0] == "call" and t[1].split("::")[-1] == "prev" and len(t) == 3:
            x = self.act(t[2])
            return x and (x[0], x[1] - 1)
        if t[0] == "init" and t[1][0] == "fld" and t[1][2] == self.F.act:
            return ("cur", 0)
        return None

    def action_at(self, t):
        """Position of an action object or pointer."""
        if t[0] == "init":
            t = t[1]
        if t[0] == "deref":
            t = t[1]
        if t[0] == "addr":
            return self.action_at(t[1])
        if t[0] in ("call", "refto") and t[1].split("::")[-1] in ("operator->", "operator*"):
            return self.act(t[2])
        if t[0] == "idx" and "actions" in repr(t[1]) and is_int(t[2]):
            return ("begin", t[2][1])
        if t[0] == "deref":
            return self.act(t[1])
        return self.act(t)

    def gen(self, t):
        """Position of the action whose parameter generator t is."""
        t = unwrap(t)
        if t[0] in ("refto", "call") and t[1] == "symbolic::Action::parameter_generator":
            return self.action_at(t[2])
        return None

    def gen_size(self, t):
        if t[0] == "call" and t[1].startswith("symbolic::CombinationGenerator") and t[1].endswith("::size"):
            return self.gen(t[2])
        return None

    def closed(self, t):
        """A condition over the actions, their parameters and the nodes only: it says nothing about being at the end."""
        F = self.F
        for x in walk(t):
            if x[0] in ("call", "refto", "mut"):
                n = x[1].split("::")[-1]
                if not (n in ("IsValid", "parameter_generator", "actions", "size", "operator*", "operator->", "operator++", "operator--", "begin",
                              "end", "Apply", "derived_predicates", "to_string", "depth", "state")):
                    return False
            elif x[0] == "fld" and x[2] not in (F.act, F.par, F.child, F.parent, F.pddl, F.impl, F.state, F.anc, F.name, F.depth, F.ipddl):
                return False
            elif x[0] == "phi" and x not in (self.a0, self.p0, self.c0):
                return False
            elif x[0] in ("sym", "var", "lam", "ret", "conv"):
                return False
        return True

    c0 = None

    def par(self, t):
        """('cur'|'first'|'end', action position, offset)"""
        if t == self.p0:
            return ("cur", None, 0)
        if t[0] == "call" and t[1].startswith("symbolic::CombinationGenerator") and t[1].split("::")[-1] in ("begin", "end", "cbegin", "cend"):
            g = self.gen(t[2])
            if g is None:
                return ("first", "none", 0) if first_of_all(t[2]) and t[1].endswith("begin") else None
            return ("first" if t[1].endswith("begin") else "end", g, 0)
        if t[0] == "mut" and t[1].split("::")[-1] in ("operator++", "operator--"):
            x = self.par(t[2])
            return x and (x[0], x[1], x[2] + (1 if t[1].endswith("++") else -1))
        if t[0] == "init" and t[1][0] == "fld" and t[1][2] == self.F.par:
            return ("cur", None, 0)
        return None

    def args_at(self, t):
        """Position of a combination of parameters."""
        t = unwrap(t)
        if t[0] in ("refto", "call") and t[1].split("::")[-1] in ("operator*", "operator->"):
            return self.par(t[2])
        if t[0] == "init":
            return self.args_at(t[1]) if t[1][0] in ("deref", "init") else None
        if t[0] == "deref":
            return self.args_at(t[1])
        return None

    def parent(self, lv):
        """Whether an lvalue is the parent node."""
        F = self.F
        return lv == ("deref", ("init", ("fld", THIS, F.parent))) or lv == THIS and self.at_node

    at_node = False

    def parent_state(self, t):
        """True for the parent's state, False for another node's, None when unknown."""
        F = self.F
        if t[0] == "init" and t[1][0] == "deref" and t[1][1][0] == "refto" and t[1][1][1] == NODE + "::state":
            o = t[1][1][2]
            return True if o[0] == "init" and self.parent(o[1]) else None
        if t[0] == "init" and t[1][0] == "fld" and t[1][2] == F.state:
            o = t[1][1]
            if o[0] == "deref" and o[1][0] == "init" and o[1][1][0] == "fld" and o[1][1][2] == F.impl:
                return True if self.parent(o[1][1][1]) else False
            if o[0] == "deref" and o[1][0] == "get":
                return False
        return None


def first_of_all(t):
    return False


def strip_state(t, rd, pos):
    """(action position, parameters position, parent?, derived?) of a successor state term, or None."""
    derived = 0
    while t[0] == "mut" and t[1].startswith("symbolic::DerivedPredicate::Apply"):
        derived += 1
        if not any("derived_predicates" in repr(x) for x in t[3:]):
            return None
        t = t[2]
    if t[0] == "conv":
        t = t[-1]
    if t[0] == "call" and t[1] == "symbolic::Action::Apply" and len(t) == 5:
        return rd.action_at(t[2]), rd.args_at(t[4]), rd.parent_state(t[3]), derived
    if t[0] == "mut" and t[1].startswith("symbolic::Action::Apply"):
        rest = [x for x in t[3:]]
        a = g = None
        for x in rest:
            a = a or rd.action_at(x)
            g = g or rd.args_at(x)
        return a, g, rd.parent_state(t[2]), derived
    return None


# ---- one step -------------------------------------------------------------------

class Step:
    """What one path from a position says and does."""

    def __init__(self, rd, facts, A, P, C, c0):
        self.rd = rd
        rd.c0 = c0
        self.A, self.P, self.C, self.c0 = A, P, C, c0
        self.eqs = []          # ((kind, x, y), bool)
        self.valid = None      # (action pos, args pos, parent?, bool)
        self.visited = None    # (set?, node term, bool)
        self.unknown = []
        for a, v in facts:
            self.read(a, v)

    def read(self, a, v):
        rd = self.rd
        while a[0] == "not":
            a, v = a[1], not v
        if a[0] == "bool" or a[0] == "more":
            return
        if a[0] == "and" and v or a[0] == "or" and not v:
            for x in a[1:]:
                self.read(x, v)
            return
        if a[0] == "eq":
            x, y = rd.act(a[1]), rd.act(a[2])
            if x and y:
                self.eqs.append((("act", x, y), v))
                return
            x, y = rd.par(a[1]), rd.par(a[2])
            if x and y:
                self.eqs.append((("par", x, y), v))
                return
        if a[0] == "call" and a[1].split("::")[-1] in ("operator==", "operator!=") and "Iterator" in a[1]:
            x, y = rd.par(a[2]), rd.par(a[3])
            if x and y:
                self.eqs.append((("par", x, y), v == a[1].endswith("==")))
                return
        if a[0] in ("isempty", "empty") or a[0] in ("eq0", "pos") and a[1][0] == "size":
            s = a[1] if a[0] in ("isempty", "empty") else a[1][1]
            if "symbolic::Pddl::actions" in repr(s):
                self.eqs.append((("act", ("begin", 0), ("end", 0)), v == (a[0] != "pos")))
                return
        if a[0] == "call" and a[1] == "symbolic::Action::IsValid":
            if self.valid is None:
                self.valid = (rd.action_at(a[2]), rd.args_at(a[4]), rd.parent_state(a[3]), v)
                return
        m = a
        if m[0] == "eq0":
            m, v = m[1], not v
        elif m[0] == "pos":
            m = m[1]
        if m[0] == "conv":
            m = m[-1]
        if m[0] == "member":
            if self.visited is None:
                self.visited = (m[1], m[2], v)
                return
        if a[0] in ("isnull",):
            return
        g = rd.gen_size(a[1]) if a[0] in ("eq0", "pos") else None
        if g is not None:
            self.eqs.append((("par", ("first", g, 0), ("end", g, 0)), v == (a[0] == "eq0")))
            return
        if not rd.closed(a):
            self.unknown.append(a)

    def dead(self):
        """Whether the path claims and denies one equality."""
        for (k, a, b), v in self.eqs:
            r = (self.act_eq if k == "act" else self.par_eq)(a, b, skip=not v)
            if r is not None and r != v:
                return True
        return False

    # Truth of position equalities known on this path.

    def act_eq(self, x, y, skip=None):
        x, y = self.canon_act(x), self.canon_act(y)
        if x == y:
            return True
        for (k, a, b), v in self.eqs:
            if k == "act":
                a, b = self.canon_act(a), self.canon_act(b)
                if {a, b} == {x, y} and (skip is None or v == skip):
                    return v
        return None

    def canon_act(self, x):
        return x

    def same_act(self, x, y):
        return self.act_eq(x, y) is True

    def par_same(self, x, y):
        if x == y:
            return True
        if x is None or y is None:
            return None
        if x[0] == y[0] and x[2] == y[2] and x[1] is not None and y[1] is not None and self.same_act(x[1], y[1]):
            return True
        return None

    def par_eq(self, x, y, skip=None):
        if self.par_same(x, y):
            return True
        for (k, a, b), v in self.eqs:
            if k == "par" and (skip is None or v == skip) and (self.par_same(a, x) and self.par_same(b, y) or self.par_same(a, y) and self.par_same(b, x)):
                return v
        return None


def judge(st, stop, fwd, start=False):
    """(ok, message): whether passing over (stop=False) or stopping on (stop=True) the final position is right."""
    A, P = st.A, st.P
    if A is None or P is None:
        return None, "the position is not recognised"
    known = not st.unknown
    lim = st.act_eq(A, ("end", 0))
    if lim is True:
        return (True, "") if stop or fwd and not st.visited else (None, "continues at the end")
    empty = st.par_eq(P, ("end", A, 0))
    if P[0] == "first" and P[2] == 0 and P[1] == "none":
        return None, "the position is not recognised"
    if empty is None and P[0] == "end" and P[2] == 0:
        empty = st.same_act(P[1], A) or None
    if empty is True:
        if stop:
            return False, "stops past the last parameters of an action"
        return True, ""
    if st.valid is None:
        if stop:
            return (False if known else None), "stops on a position whose precondition was not evaluated"
        if not fwd and P[0] == "end":
            return True, ""
        return (False if known else None), "passes over a position without evaluating its precondition"
    a, g, par, ok = st.valid
    if a is None or g is None or par is None:
        return None, "the precondition's operands are not recognised"
    if not st.same_act(a, A):
        return (False if st.act_eq(a, A) is False or a != A else None), "evaluates the precondition of another action"
    if not st.par_same(g, P):
        return False, "evaluates the precondition with other parameters"
    if par is not True:
        return False, "evaluates the precondition in another state than the parent's"
    if fwd and empty is None and P[0] != "first" or fwd and empty is None and P[0] == "first" and not start:
        return (False if known else None), "reads parameters without checking for the end"
    if not ok:
        return (False, "stops on an action whose precondition is false") if stop else (True, "")
    c = child_ok(st)
    if c[0] is not True:
        return c
    if st.visited is None:
        if stop:
            return (False if known else None), "stops on a child without looking for its state among the ancestors"
        return (False if known else None), "passes over a valid child that was not visited"
    s, n, seen = st.visited
    who = visited_set(st, s, n)
    if who is None:
        return None, "the visited check is not recognised"
    if who is False:
        return (False if known and not (seen and not stop) else None), "looks for the child in a set that is not its ancestors"
    if seen and stop:
        return False, "stops on a child whose state was visited before"
    if not seen and not stop:
        return False, "passes over a valid child that was not visited"
    return True, ""


def child_ok(st):
    C, rd = st.C, st.rd
    if C == st.c0:
        return False, "does not update the child for a valid action"
    if C[0] != "new" or C[1] != NODE:
        return None, "the child is not recognised"
    args = C[2:]
    if not args:
        return False, "leaves the child empty"
    state = [x for x in args if "symbolic::Action::Apply" in repr(x) or "DerivedPredicate" in repr(x)]
    if len(state) != 1:
        same = [x for x in args if rd.parent_state(x)]
        return (False if same and not state else None), "the child's state is not the result of applying the action"
    r = strip_state(state[0], rd, None)
    if r is None:
        return None, "the child's state is not recognised"
    a, g, par, derived = r
    if a is None or g is None or par is None:
        return None, "the child's state is not recognised"
    if not st.same_act(a, st.A) or not st.par_same(g, st.P):
        return False, "the child is built by another action or other parameters than the current ones"
    if par is not True:
        return False, "the child is built from another state than the parent's"
    if not derived:
        return False, "the child's derived predicates are not computed"
    nodes = ["parent" if x[0] == "init" and rd.parent(x[1]) else "sibling" for x in args
             if x[0] == "init" and rd.parent(x[1]) or x == st.c0 or x == ("new", NODE)]
    if "parent" not in nodes:
        return (False if nodes and len(nodes) + 2 >= len(args) else None), "the child is not attached to the parent"
    if len(nodes) == 2 and nodes != ["parent", "sibling"]:
        return False, "the child is attached to a node that is not the parent"
    label = [x for x in args if x[0] == "call" and x[1] == "symbolic::Action::to_string"]
    if label:
        x = label[0]
        if not st.same_act(rd.action_at(x[2]), st.A) or len(x) < 4 or not st.par_same(rd.args_at(x[3]), st.P):
            la, lg = rd.action_at(x[2]), rd.args_at(x[3]) if len(x) > 3 else None
            return (False if la is not None and (lg is not None or len(x) < 4) else None), "the child's action label is not that of the action applied"
    elif any(x[0] == "str" for x in args) or len(args) > 3 and args[3][0] in ("init", "call") and "name" in repr(args[3])[:80]:
        return False, "the child's action label is not that of the action applied"
    else:
        return None, "the child's action label is not recognised"
    return True, ""


def visited_set(st, s, n):
    """Whether set s is that of the child's ancestors, and n the child."""
    F = st.rd.F
    txt = s
    if n != st.C:
        return None
    # deref of the ancestors pointer of a node.
    x = s
    for _ in range(8):
        if x[0] == "init" or x[0] == "deref":
            x = x[1]
        else:
            break
    if x[0] == "fld" and x[2] == F.anc:
        o = x[1]
        if contains(o, st.C):
            return True
        if o[0] == "deref" and o[1][0] == "init" and o[1][1][0] == "fld" and st.rd.parent(o[1][1][1]):
            return False
        return None
    if x[0] == "get" and x[2] == F.anc and contains(x, st.C):
        return True
    return None


# ---- the rules ------------------------------------------------------------------

def move_ok(st, fwd, stop):
    """Whether the step leads to the neighbouring position."""
    A, P = st.A, st.P
    cur = ("cur", 0)
    if A is None or P is None:
        return None, "the position is not recognised"
    known = not st.unknown
    atlim = st.act_eq(cur, ("end", 0))
    if A == cur:
        if P[0] == "cur" and P[2] == 0:
            if atlim is True:
                return True, ""
            return None, "does not move"
        if fwd:
            if P[0] == "cur" and P[2] == 1:
                e = st.par_eq(("cur", None, 0), ("end", cur, 0))
                if e is True:
                    return False, "steps past the last parameters of an action"
                return (True, "") if e is False else (None, "steps on without checking for the end")
            if P[0] == "cur" and P[2] > 1:
                return False, "skips parameters"
        else:
            if P[0] == "cur" and P[2] == -1:
                e = st.par_eq(("cur", None, 0), ("first", cur, 0))
                if e is True:
                    return False, "steps before the first parameters of an action"
                return (True, "") if e is False else (None, "steps back without checking for the start")
            if P[0] == "cur" and P[2] < -1:
                return False, "skips parameters"
        return None, "the position is not recognised"
    if A == ("cur", 1) and fwd:
        e = st.par_eq(("cur", None, 0), ("end", cur, 0))
        if e is False:
            return False, "leaves an action before its last parameters"
        if e is None:
            return (False if known else None), "leaves an action without having reached its last parameters"
        if st.act_eq(A, ("end", 0)) is True:
            return True, ""
        if P == ("cur", None, 0):
            return (False if known else None), "keeps the parameters of the previous action"
        if P[0] == "first" and P[2] == 0 and P[1] != "none":
            return (True, "") if st.same_act(P[1], A) else (False, "takes the parameters of another action")
        if P[0] == "first" and P[2] > 0 or P[0] == "end":
            return False, "skips parameters of the next action"
        return None, "the position is not recognised"
    if A == ("cur", -1) and not fwd:
        e = st.par_eq(("cur", None, 0), ("first", cur, 0))
        if atlim is not True:
            if e is False:
                return False, "leaves an action before its first parameters"
            if e is None:
                return (False if known else None), "leaves an action without having reached its first parameters"
        if P[0] == "end" and P[2] in (0, -1):
            if not st.same_act(P[1], A):
                return False, "takes the parameters of another action"
            if P[2] == -1:
                nz = st.par_eq(("end", A, 0), ("first", A, 0))
                if nz is not False:
                    return (False if known else None), "steps back into an action that may have no parameters"
            return True, ""
        return None, "the position is not recognised"
    if A[0] == "cur" and abs(A[1]) > 1:
        return False, "skips an action"
    return None, "the position is not recognised"


def stepping(ctx, prog, F, d):
    fwd = d > 0
    qn = IT + ("::operator++" if fwd else "::operator--")
    word = "forward" if fwd else "backward"
    fns = [f for f in prog.find(qn) if not f.f["p"]]
    for fn in fns:
        ps = ctx.run(prog, fn, PRIM)
        lact, lpar, lch = (("fld", THIS, f) for f in (F.act, F.par, F.child))
        loops, bad = [], None
        for p in ps:
            for e in all_events(p.ev):
                if e.k == "loop" and e.loop.id not in [x.id for x in loops] and any(q in e.loop.mod for q in (lact, lpar)):
                    loops.append(e.loop)
        n = 0
        for lp in loops:
            ent = lambda q: lp.entry.get(q) or ("init", q)
            for ip in lp.paths:
                get = lambda q: final(ip, q) if not (ip.S.store.get(q) is None) else ent(q)
                rd = Reader(F, ent(lact), ent(lpar))
                st = Step(rd, ip.facts, rd.act(get(lact)), rd.par(get(lpar)), get(lch), ent(lch))
                stop = ip.flow is not None
                if ip.flow == "throw" or st.dead():
                    continue
                n += 1
                ok, why = move_ok(st, fwd, stop)
                if ok is True and not (not stop and not fwd and st.P[0] == "end" and st.P[2] == 0):
                    ok, why = judge(st, stop, fwd)
                loc = ip.events[-1].loc if ip.events else lp.loc
                ctx.expect("%s.step.%d" % (word, n), ok, "%s: %s" % (fn.qn, why), loc, fn.qn, fact_lines(ip))
        # Before the loop.
        for k, lp in enumerate(loops):
            A, P = lp.init.get(lact, ("init", lact)), lp.init.get(lpar, ("init", lpar))
            rd = Reader(F, ("init", lact), ("init", lpar))
            facts = []
            for p in ps:
                for e in p.ev:
                    if e.k == "loop" and e.loop is lp:
                        facts = p.facts
            st = Step(rd, facts, rd.act(A), rd.par(P), None, None)
            if st.A == ("end", -1) and st.act_eq(("cur", 0), ("end", 0)):
                st.A = ("cur", -1)
            if st.P and st.P[1] == ("end", -1):
                st.P = (st.P[0], ("cur", -1), st.P[2])
            if st.A == ("cur", 0) and st.P == ("cur", None, 0):
                ctx.ok("%s.enter.%d" % (word, k + 1))
                continue
            st.unknown = []
            ok, why = move_ok(st, fwd, False)
            if not fwd and st.A == ("cur", -1) and st.P is not None and st.P[0] == "first" and st.same_act(st.P[1], st.A):
                ok, why = False, "skips the parameters of the last action"
            ctx.expect("%s.enter.%d" % (word, k + 1), ok, "%s: %s" % (fn.qn, why), lp.loc, fn.qn)
        # Leaving the loop by its condition.
        for p in ps:
            exits = [e for e in p.ev if e.k == "loop" and e.extra == "exit" and e.loop in loops]
            if len(exits) != 1:
                continue
            lp = exits[0].loop
            rd = Reader(F, lp.entry.get(lact) or ("init", lact), lp.entry.get(lpar) or ("init", lpar))
            st = Step(rd, p.facts, rd.act(final(p, lact)), rd.par(final(p, lpar)), None, None)
            if st.dead():
                continue
            n += 1
            if fwd:
                ok = True if st.A and st.act_eq(st.A, ("end", 0)) is True else None
                if ok is None and not st.unknown and st.A == ("cur", 0) and not any(k[0] == "act" for k, _ in st.eqs):
                    ok = False
            else:
                ok = True if st.A and st.act_eq(st.A, ("begin", 0)) is True and st.par_eq(("cur", None, 0), ("first", st.A, 0)) is True else None
                if ok is None and not st.unknown and st.A == ("cur", 0):
                    ok = False
            ctx.expect("%s.exhausted" % word, ok, "%s: the search for the %s child ends before the last position" % (
                fn.qn, "next" if fwd else "previous"), lp.loc, fn.qn, fact_lines(p))
        if not loops:
            ctx.undecide("%s.loop" % word, "no stepping loop found")


def obj_field(t, f):
    """Field of an object value."""
    if t[0] == "with":
        for path, v in t[2]:
            if path == (f,):
                return v
        return obj_field(t[1], f)
    return engine.project(t, f)


def begin(ctx, prog, F):
    fn = [f for f in prog.find(NODE + "::begin") if not f.f["p"]][0]
    ps = ctx.run(prog, fn, PRIM + [IT + "::operator++"])
    for i, p in enumerate(ps):
        oid = "begin.path.%d" % (i + 1)
        if p.kind != "return" or isinstance(p.value, L):
            ctx.undecide(oid, "result not recognised")
            continue
        v = p.value
        more = 0
        while v[0] == "mut" and v[1] == IT + "::operator++":
            v, more = v[2], more + 1
        if more > 1:
            ctx.violation(oid, "%s: skips a child" % fn.qn, last_loc(p, fn), fn.qn, fact_lines(p))
            continue
        if v[0] != "with":
            ctx.undecide(oid, "result not recognised")
            continue
        A, P, C = (obj_field(v, f) for f in (F.act, F.par, F.child))
        rd2 = Reader(F, None, None)
        rd2.at_node = True
        st = Step(rd2, p.facts, rd2.act(A), rd2.par(P), C, ("new", NODE))
        if st.dead():
            continue
        if st.A != ("begin", 0) and not (st.A == ("end", 0) or st.A is None):
            ctx.violation(oid, "%s: does not start at the first action" % fn.qn, last_loc(p, fn), fn.qn)
            continue
        if st.A == ("begin", 0) and st.P is None and st.act_eq(("begin", 0), ("end", 0)) is None and not st.unknown:
            pass
        if st.A == ("end", 0) or st.A == ("begin", 0) and st.act_eq(st.A, ("end", 0)) is True:
            ctx.expect(oid, True if st.A == ("begin", 0) or st.act_eq(("begin", 0), ("end", 0)) is True else None,
                       "%s: ends without looking at the actions" % fn.qn, last_loc(p, fn), fn.qn)
            continue
        if st.P is not None and (st.P[0] != "first" or st.P[2] != 0 or not st.same_act(st.P[1], st.A)):
            ctx.violation(oid, "%s: does not start at the first parameters" % fn.qn, last_loc(p, fn), fn.qn)
            continue
        # A delegated step passes over the current position.
        ok, why = judge(st, not more, True)
        ctx.expect(oid, ok, "%s: %s" % (fn.qn, why), last_loc(p, fn), fn.qn, fact_lines(p))


def start(ctx, prog, F):
    for fn in prog.find(IT + "::iterator"):
        if fn.decl.d.get("implicit") or len(fn.f["p"]) != 1 or fn.decl.ptypes[0].cls == IT:
            continue
        for i, p in enumerate(ctx.run(prog, fn, PRIM)):
            oid = "start.path.%d" % (i + 1)
            A, P = final(p, ("fld", THIS, F.act)), final(p, ("fld", THIS, F.par))
            par = final(p, ("fld", THIS, F.parent))
            rd = Reader(F, None, None)
            a, g = rd.act(A), rd.par(P)
            eqs = Step(rd, p.facts, a, g, None, None)
            none = eqs.act_eq(("begin", 0), ("end", 0))
            if eqs.dead():
                continue
            if a is None or g is None and none is not True:
                ctx.undecide(oid, "%s: initial position not recognised" % fn.qn)
                continue
            if a != ("begin", 0):
                ctx.violation(oid, "%s: does not start at the first action" % fn.qn, fn.loc, fn.qn)
            elif none is True:
                ctx.ok(oid)
            elif g[0] != "first" or g[2] != 0 or g[1] != ("begin", 0):
                ctx.violation(oid, "%s: does not start at the first parameters" % fn.qn, fn.loc, fn.qn)
            elif none is None:
                ctx.violation(oid, "%s: reads the first action although there may be none" % fn.qn, fn.loc, fn.qn)
            else:
                ctx.expect(oid, True if par == ("addr", ("param", 0)) else None, "%s: parent not recognised" % fn.qn, fn.loc, fn.qn)


def end(ctx, prog, F):
    fn = [f for f in prog.find(NODE + "::end") if not f.f["p"]][0]
    for p in ctx.run(prog, fn, PRIM):
        v = p.value
        if p.kind != "return" or isinstance(v, L) or v[0] not in ("with", "new", "agg"):
            ctx.undecide("end", "result not recognised")
            continue
        a = Reader(F, None, None).act(obj_field(v, F.act))
        ctx.expect("end", True if a == ("end", 0) else (False if a is not None else None), "%s: not positioned after the last action" % fn.qn,
                   fn.loc, fn.qn)


def finished(ctx, prog, F):
    """An iterator equals the end exactly when it has no action left."""
    for op in ("==", "!="):
        fns = [f for f in prog.find(IT + "::operator" + op) if len(f.f["p"]) == 1]
        for fn in fns:
            ps = ctx.run(prog, fn, PRIM)
            a1, a2 = ("init", ("fld", THIS, F.act)), ("init", ("fld", ("param", 0), F.act))

            def leaf(env, t):
                if t[0] in ("eq", "call") and F.par in repr(t) and len(t) >= 3 and a1 not in t[1:]:
                    ps_ = {("init", ("fld", o, F.par)) for o in (THIS, ("param", 0))}
                    if set(t[-2:]) == ps_:
                        return env["par"] == (t[0] == "eq" or t[1].endswith("=="))
                if t[0] == "eq":
                    ks = [env.get("this") if x == a1 else "end" if x == a2 else "end" if x[0] == "itr" and x[2] == "end" else None for x in t[1:]]
                    if None in ks:
                        return None
                    return ks[0] == ks[1]
                return None

            def outcome(env, p):
                got = value_of(p.value, lambda t: leaf(env, t)) if p.kind == "return" and not isinstance(p.value, L) else None
                if got is None:
                    return None, "the result is not recognised"
                want = (env["this"] == "end") == (op == "==")
                return got == want, "comparing with the end gives %s" % str(got).lower()
            by_cases(ctx, "finished%s" % op, fn, ps, [{"this": k, "par": b} for k in ("end", "more") for b in (True, False)], leaf, outcome,
                     name=lambda e: "the iterator is %s" % ("at the end" if e["this"] == "end" else "not at the end"))


def deref(ctx, prog, F):
    for fn in prog.find(IT + "::operator*"):
        for p in ctx.run(prog, fn, PRIM):
            v = p.value.p if isinstance(p.value, L) else p.value
            ok = v in (("fld", THIS, F.child), ("init", ("fld", THIS, F.child)))
            ctx.expect("current-child", True if ok else None, "%s: does not give the current child" % fn.qn, fn.loc, fn.qn)


def impl_of(p, F):
    """The fields of the node implementation a constructor made, by field."""
    v = final(p, ("fld", THIS, F.impl))
    if v[0] == "addr" and v[1][0] == "heap":
        return {f: final(p, ("fld", v[1], f)) for f in (F.state, F.anc, F.name, F.depth, F.ipddl)}
    return None


def from_node(t, i, f, F):
    """t is field f of the implementation of node parameter i."""
    if t[0] == "addr":
        t = ("init", t[1][1][1]) if t[1][0] == "deref" and t[1][1][0] == "init" else ("init", t[1])
    return t == ("init", ("fld", ("deref", ("init", ("fld", ("param", i), F.impl))), f))


def child_ctor(ctx, prog, F):
    for fn in prog.find(NODE + "::Node"):
        pt = [t.cls for t in fn.decl.ptypes]
        if pt.count(NODE) == 0 or len(pt) < 3:
            continue
        par = pt.index(NODE)
        sib = [i for i, t in enumerate(pt) if t == NODE and i != par]
        st = [i for i, t in enumerate(fn.decl.ptypes) if t.cls and t.cls.endswith("State")][0]
        nm = [i for i, t in enumerate(fn.decl.ptypes) if "basic_string" in t.s][0]
        ps = ctx.run(prog, fn, ["symbolic::Pddl::*", "symbolic::State::*"])
        for k, p in enumerate(ps):
            if p.kind == "throw":
                continue
            m = impl_of(p, F)
            name = "child"
            first = None
            for a, v in p.facts:
                a2, pol = strip(a)
                if a2[0] == "isnull" and sib and ("param", sib[0]) in set(walk(a2)):
                    first = v == pol
            oid = "child.%s" % {True: "first", False: "next", None: "path%d" % k}[first]
            if m is None:
                ctx.undecide(oid, "%s: implementation not recognised" % fn.qn)
                continue
            exp = lambda sub, ok, why: ctx.expect(oid + "." + sub, ok, "%s: %s" % (fn.qn, why), last_loc(p, fn), fn.qn, fact_lines(p))
            s = m[F.state]
            exp("state", True if s == ("init", ("param", st)) else None if s[0] not in ("init",) else False, "the child's state is not the one given")
            n = m[F.name]
            exp("label", True if n == ("init", ("param", nm)) else None if n[0] not in ("init", "str", "new") else False, "the child's action is not the one given")
            pd = m[F.ipddl]
            src = [par] + sib if first is not True else [par]
            exp("pddl", True if any(from_node(pd, i, F.ipddl, F) for i in src) or "pddl" in repr(pd) and "param" in repr(pd) else None,
                "the child's domain is not the parent's")
            d = m[F.depth]
            want = []
            for i, off in [(par, 1)] + [(i, 0) for i in sib]:
                want.append((i, off))
            got = depth_of(d, F)
            exp("depth", None if got is None else True if got in want and (first is not True or got[0] == par) else False,
                "the child's depth is not one more than the parent's")
            anc = m[F.anc]
            exp("ancestors", anc_ok(p, anc, par, sib, first, F), "the child's ancestors are not the parent's with the parent added")


def depth_of(d, F):
    """(node parameter, offset) of a depth."""
    c, parts = lin_parts(d)
    if len(parts) != 1 or list(parts.values()) != [1]:
        return None
    t = list(parts)[0]
    for i in range(4):
        if from_node(t, i, F.depth, F):
            return i, c
    if t[0] == "call" and t[1] == NODE + "::depth" and t[2][0] == "init" and t[2][1][0] == "param":
        return t[2][1][1], c
    return None


def anc_ok(p, anc, par, sib, first, F):
    if any(from_node(anc, i, F.anc, F) for i in sib):
        return False if first is True else True
    if from_node(anc, par, F.anc, F):
        return False
    if anc[0] == "addr" and anc[1][0] == "heap":
        v = final(p, anc[1])
        ins = 0
        added = []
        while v[0] == "mut" and v[1].split("::")[-1] in ("insert", "emplace"):
            added.append(v[3:])
            v = v[2]
        if v[0] in ("insert", "add") and len(v) >= 3:
            return None
        base = v
        whole = [a for a in added if len(a) == 2 and all(x[0] == "itr" and x[3] == I(0) for x in a) and a[0][2] == "begin" and
                 a[1][2] == "end" and a[0][1] == a[1][1] and F.anc in repr(a[0][1]) and ("param", par) in set(walk(a[0][1]))]
        mine = any(x == ("init", ("param", par)) or x == ("param", par) for a in added for x in a)
        if base[0] == "phi":
            lp = next((e.loop for e in all_events(p.ev) if e.k == "loop" and e.loop.id == base[1]), None)
            if lp is None or not any(F.anc in repr(x) and ("param", par) in set(walk(x)) for x in lp.over):
                return None
            for ip in lp.paths:
                w = ip.S.store.get(base[2], base)
                if ip.flow is not None:
                    return False if ip.flow == "break" and not whole else None
                if w == base and not whole:
                    return False        # an ancestor is left out
                if w != base and not (w[0] == "mut" and w[1].split("::")[-1] in ("insert", "emplace") and w[2] == base and
                                      len(w) == 4 and any(x == ("iter", lp.id) for x in walk(w[3]))):
                    return None
            return mine
        if base[0] in ("new", "emptyc", "list") and whole:
            return mine
        for _ in range(4):
            if base[0] in ("init", "deref"):
                base = base[1]
        if not (base[0] == "fld" and base[2] == F.anc and ("param", par) in set(walk(base))):
            src = [i for i in sib if ("param", i) in set(walk(base))]
            if base[0] in ("new", "agg", "empty"):
                return False
            if not src:
                return None
        if not added:
            return False
        ok = [x for a in added for x in a if x == ("init", ("param", par)) or x == ("param", par)]
        if ok:
            return True
        return False if [x for a in added for x in a if x[0] == "init" and x[1][0] == "param"] else None
    return None


def root_ctor(ctx, prog, F):
    for fn in prog.find(NODE + "::Node"):
        pt = [t.cls for t in fn.decl.ptypes]
        if len(pt) < 2 or pt[0] != "symbolic::Pddl":
            continue
        for p in ctx.run(prog, fn, ["symbolic::Pddl::*", "symbolic::State::*"]):
            if p.kind == "throw":
                continue
            m = impl_of(p, F)
            if m is None:
                ctx.undecide("root", "%s: implementation not recognised" % fn.qn)
                continue
            st = [i for i, t in enumerate(pt) if t and t.endswith("State")][0]
            d = [i for i, t in enumerate(pt) if t is None or i not in (0, st)]
            exp = lambda sub, ok, why: ctx.expect("root." + sub, ok, "%s: %s" % (fn.qn, why), last_loc(p, fn), fn.qn)
            exp("state", True if m[F.state] == ("init", ("param", st)) else None, "the node's state is not the one given")
            exp("depth", True if d and m[F.depth] == ("init", ("param", d[0])) or not d and m[F.depth] == I(0) else (
                False if is_int(m[F.depth]) or m[F.depth][0] == "lin" else None), "the node's depth is not the one given")
            a = m[F.anc]
            v = final(p, a[1]) if a[0] == "addr" and a[1][0] == "heap" else None
            exp("ancestors", None if v is None else True if "param" not in repr(v) and not any(x[0] == "mut" for x in walk(v)) else None,
                "a root has no ancestors")
    for fn in prog.find("symbolic::Planner::Planner"):
        pt = [t.cls for t in fn.decl.ptypes]
        if fn.decl.d.get("implicit") or not pt or pt[0] != "symbolic::Pddl":
            continue
        for p in ctx.run(prog, fn, PRIM):
            rf = [f for f in prog.cls("symbolic::Planner")[0].fields][0]
            v = final(p, ("fld", THIS, rf))
            init = ("init", ("deref", ("refto", "symbolic::Pddl::initial_state", ("init", ("param", 0)))))
            if len(pt) == 1 and v[0] == "init":
                continue
            want = ("init", ("param", 1)) if len(pt) > 1 else init
            ok = None
            why = "root node not recognised"
            if v[0] == "new" and v[1] == NODE and len(v) >= 4:
                s, derived = v[3], 0
                while s[0] in ("mut", "call") and s[1].startswith("symbolic::DerivedPredicate::Apply") and "derived_predicates" in repr(s[2:]):
                    derived += 1
                    s = s[2]
                if s[0] == "call" and s[1] == "symbolic::Pddl::DerivedState" and len(s) == 4:
                    derived += 1
                    s = s[3]
                if s[0] == "call" and s[1] == "symbolic::Pddl::ConsistentState":
                    ok = True if s[3] == want else False if s[3] in (init, ("init", ("param", 1))) else None
                    why = "the root is not the given state"
                    t, inner = s[3], 0
                    while t[0] in ("mut", "call") and (t[1].startswith("symbolic::DerivedPredicate::Apply") and
                                                       "derived_predicates" in repr(t[2:]) or t[1] == "symbolic::Pddl::DerivedState"):
                        inner += 1
                        t = t[3] if t[1] == "symbolic::Pddl::DerivedState" else t[2]
                    if inner and t == want:
                        ok = None if derived else False
                        why = "the root's derived predicates are computed before the axioms complete the state"
                    if ok and not derived:
                        ok, why = False, "the root's derived predicates are not computed"
                elif s == want:
                    ok, why = False, "the root state is not completed by the axioms"
                if len(v) > 4 and is_int(v[4]) and v[4] != I(0):
                    ok, why = False, "the root's depth is not zero"
            ctx.expect("planner.root/%d" % len(pt), ok, "%s: %s" % (fn.qn, why), fn.loc, fn.qn)


def goal(ctx, prog, F):
    for fn in prog.find(NODE + "::operator bool"):
        ps = ctx.run(prog, fn, ["symbolic::Pddl::*", "symbolic::Formula::*"])
        for p in ps:
            if p.kind != "return" or isinstance(p.value, L):
                ctx.undecide("goal", "result not recognised")
                continue
            v, pol = strip(p.value)
            ok = None
            if v[0] == "call" and v[1] == "symbolic::Formula::operator()" and len(v) >= 4:
                g = v[2]
                st = ("init", ("fld", ("deref", ("init", ("fld", THIS, F.impl))), F.state))
                isgoal = "symbolic::Pddl::goal" in repr(g)
                if isgoal and v[3] == st:
                    ok = pol
            elif v[0] == "bool":
                ok = False
            ctx.expect("goal", ok, "%s: not the goal evaluated in the node's state" % fn.qn, fn.loc, fn.qn)


def node_hash(ctx, prog, F):
    for fn in prog.find("std::hash<%s>::operator()" % NODE, required=False):
        for p in ctx.run(prog, fn, ["std::hash<symbolic::State>::*"]):
            v = p.value
            txt = set(walk(v)) if v is not None and not isinstance(v, L) else set()
            st = ("init", ("fld", ("deref", ("init", ("fld", ("param", 0), F.impl))), F.state))
            ok = None
            if v is not None and not isinstance(v, L):
                other = [f for f in (F.depth, F.name, F.anc) if ("fld", ("deref", ("init", ("fld", ("param", 0), F.impl))), f) in txt]
                if other or contains(v, ("addr", ("param", 0))):
                    ok = False
                elif st in txt or is_int(v):
                    ok = True
            ctx.expect("hash", ok, "%s: nodes with equal states hash differently" % fn.qn, fn.loc, fn.qn)
