"""Path-sensitive value-numbering dataflow over the exported AST.

For one function the engine enumerates its acyclic path classes.  Every value
is a term (terms.py); every branch adds an atom to the path's facts and a
branch whose atom the facts already decide is not split; a loop is entered once
in a *generic iteration* whose loop-carried locations hold fresh `phi` (or, for
a recognised full traversal, `iter`) values, so what holds there holds in every
iteration.  Calls to functions defined in the repository are inlined unless the
rule names them as primitives; what remains is recorded as an event.  Nothing
is executed and no path is handed to a solver.
"""

from terms import *
from ir import AnalysisError


class L:
    """An lvalue: a path into the abstract store."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "L<%s>" % show(self.p)


class Ev:
    __slots__ = ("k", "qn", "decl", "obj", "objv", "args", "lvs", "ret", "loc", "loops", "nf", "fn", "loop", "extra",
                 "ne")

    def __init__(self, k, **kw):
        self.k = k
        for a in self.__slots__[1:]:
            setattr(self, a, kw.get(a))

    @property
    def name(self):
        return self.qn.rsplit("::", 1)[-1] if self.qn else None

    def __repr__(self):
        if self.k == "loop":
            return "<loop %s>" % self.loop
        return "<%s %s obj=%s args=%s @%s>" % (self.k, self.qn, show(self.obj) if self.obj else None,
                                              [show(a) for a in self.args or []], self.loc)


class Loop:
    def __init__(self, id_, kind, loc):
        self.id = id_
        self.kind = kind
        self.loc = loc
        self.over = []        # container values traversed completely, in order
        self.dir = None       # 'asc' | 'desc'
        self.lo = self.hi = None
        self.iterlv = None
        self.init = {}        # lv -> value before the loop
        self.paths = []       # IterPath of the generic iteration
        self.range_lv = None
        self.depth = 0

    def __repr__(self):
        return "Loop#%s(%s %s over=%s)" % (self.id, self.kind, self.loc, [show(o) for o in self.over])


class IterPath:
    def __init__(self, S, flow, nev, nf, base):
        self.flow = flow                  # None (back edge) | 'break' | ('return', v) | 'throw'
        self.events = S.ev[nev:]
        self.facts = S.facts[nf:]
        self.allfacts = S.facts
        self.S = S
        self.base = base


class S:
    """One abstract path state."""
    __slots__ = ("env", "store", "facts", "ev", "exc", "loops", "stack", "this", "trydepth", "static", "moved")

    def __init__(self):
        self.env = {}
        self.store = {}
        self.facts = []
        self.ev = []
        self.exc = None
        self.loops = ()
        self.stack = ()
        self.this = None
        self.trydepth = 0
        self.moved = {}

    def copy(self):
        n = S()
        n.env = dict(self.env)
        n.store = dict(self.store)
        n.facts = list(self.facts)
        n.ev = list(self.ev)
        n.exc = self.exc
        n.loops = self.loops
        n.stack = self.stack
        n.this = self.this
        n.trydepth = self.trydepth
        n.moved = dict(self.moved)
        return n

    def assume(self, atom, val):
        self.facts.append((atom, val))


class Path:
    def __init__(self, kind, value, S_):
        self.kind = kind      # 'return' | 'throw'
        self.value = value    # term or L
        self.S = S_
        self.facts = S_.facts
        self.ev = S_.ev

    def __repr__(self):
        return "<%s %s | %s>" % (self.kind, show(self.value) if not isinstance(self.value, L) else self.value,
                                 "; ".join(("" if v else "!") + show(a) for a, v in self.facts))


# --------------------------------------------------------------------------
def is_sub(p, q):
    """p strictly below q."""
    while p[0] in ("fld", "idx"):
        p = p[1]
        if p == q:
            return True
    return False


def root(p):
    while p[0] in ("fld", "idx"):
        p = p[1]
    return p


def project(v, f):
    k = v[0]
    if k == "init":
        return ("init", ("fld", v[1], f))
    if k == "pair":
        return v[1] if f == "first" else v[2]
    if k == "with":
        for p, x in v[2]:
            if p == (f,):
                return x
        subs = tuple((p[1:], x) for p, x in v[2] if p[0] == f)
        b = project(v[1], f)
        return ("with", b, subs) if subs else b
    if k == "struct":
        for n, x in v[2]:
            if n == f:
                return x
    return ("get", v, f)


def index(v, i):
    k = v[0]
    if k == "init":
        return ("init", ("idx", v[1], i))
    if k == "mut" and v[1] == "[]=":
        if v[3] == i:
            return v[4]
        if is_int(v[3]) and is_int(i):
            return index(v[2], i)
    if k == "list" and is_int(i) and 0 <= i[1] < len(v) - 1:
        return v[1 + i[1]]
    return ("elem", v, i)


def size_of(v):
    if v[0] == "mut" and v[1] in ("push_back", "emplace_back"):
        return add(size_of(v[2]), I(1))
    if v[0] == "mut" and v[1] == "pop_back":
        return sub(size_of(v[2]), I(1))
    if v[0] == "mut" and v[1] == "[]=":
        return size_of(v[2])
    if v[0] == "mut" and v[1] == "clear":
        return I(0)
    if v[0] == "list":
        return I(len(v) - 1)
    if v[0] == "emptyc":
        return I(0)
    if v[0] == "with":
        return size_of(v[1])
    return ("size", v)


CONTAINERS = {"std::vector", "std::list", "std::deque", "std::set", "std::unordered_set", "std::map",
              "std::unordered_map", "std::basic_string", "std::queue", "std::stack", "std::priority_queue",
              "std::array", "std::initializer_list", "std::multiset", "std::multimap", "std::__cxx11::list",
              "std::__cxx11::basic_string"}
PURE_NOOP = {"reserve", "shrink_to_fit"}
ELEM = {"operator[]", "at", "front", "back", "top"}
SMART = {"std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access"}
PASS = {"std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof"}


READERS = {"find", "find_if", "find_if_not", "find_end", "find_first_of", "adjacent_find", "count", "count_if", "mismatch", "equal", "search", "search_n",
           "lower_bound", "upper_bound", "equal_range", "binary_search", "includes", "max_element", "min_element", "minmax_element", "lexicographical_compare",
           "is_sorted", "is_sorted_until", "is_partitioned", "is_permutation", "all_of", "any_of", "none_of", "accumulate", "inner_product", "reduce",
           "distance", "next", "prev", "advance", "begin", "end", "rbegin", "rend", "make_reverse_iterator", "make_move_iterator", "back_inserter", "front_inserter",
           "inserter", "make_pair", "make_tuple", "tie", "forward", "move", "get", "min", "max", "swap", "size", "empty", "operator-", "operator+", "operator==", "operator!=",
           "operator<", "operator>", "operator<=", "operator>="}
COPIERS = {"copy", "copy_if", "copy_n", "copy_backward", "transform", "partial_sum", "adjacent_difference", "unique_copy", "remove_copy", "remove_copy_if", "replace_copy",
           "replace_copy_if", "reverse_copy", "rotate_copy", "merge", "set_union", "set_intersection", "set_difference", "set_symmetric_difference", "partial_sort_copy"}


def name_of(qn):
    return qn.split("<")[0].rsplit("::", 1)[-1]


class Interp:
    MAX_PATHS = 6000
    MAX_DEPTH = 14

    def __init__(self, prog, primitive=None, inline=None):
        self.prog = prog
        self.primitive = primitive or (lambda d: False)
        self.n = 0
        self.loops = {}
        self.frame = 0
        self.truncated = False
        self.lam_fns = {}
        self.npaths = 0
        self.analysed = set()
        self.depth = 0
        self.whole = {}   # object -> class it is known to be of

    def fresh(self):
        self.n += 1
        return self.n

    # ---- store -----------------------------------------------------------
    def base_value(self, st, p):
        if p in st.store:
            return st.store[p]
        if p[0] == "fld":
            return project(self.base_value(st, p[1]), p[2])
        if p[0] == "idx":
            return index(self.base_value(st, p[1]), p[2])
        return ("init", p)

    def read(self, st, p):
        b = self.base_value(st, p)
        subs = []
        for q, v in st.store.items():
            if len(q) > 1 and is_sub(q, p):
                path = []
                r = q
                while r != p:
                    path.append(r[2])
                    r = r[1]
                subs.append((tuple(reversed(path)), v))
        if subs:
            if b[0] == "with":
                have = dict(b[2])
                have.update(dict(subs))
                return ("with", b[1], tuple(sorted(have.items(), key=repr)))
            return ("with", b, tuple(sorted(subs, key=repr)))
        return b

    def val(self, st, x):
        if isinstance(x, L):
            if st.moved:
                self.use_moved(st, x.p)
            return self.read(st, x.p)
        return x

    # Values that were moved into something else and not set again.
    def consume(self, st, x, fn, line):
        if isinstance(x, L) and x.p[0] not in ("tmp",):
            st.moved[x.p] = self.prog.loc(fn, line)

    def use_moved(self, st, p):
        for q in list(st.moved):
            if p == q or is_sub(p, q):
                e = Ev("usemoved")
                e.obj = p
                e.loc = st.moved[q]
                st.ev.append(e)
                del st.moved[q]

    def write(self, st, p, v):
        if st.moved:
            for q in list(st.moved):
                if q == p or is_sub(q, p):
                    del st.moved[q]
        for q in [q for q in st.store if is_sub(q, p)]:
            del st.store[q]
        if p[0] == "idx":
            old = self.read(st, p[1])
            # An element write is an update of the container value.
            self.write(st, p[1], ("mut", "[]=", old, p[2], v))
            return
        st.store[p] = v

    def lv(self, st, x):
        """An lvalue for x, materialising a temporary when it is a value."""
        if isinstance(x, L):
            return x.p
        p = ("tmp", self.fresh())
        st.store[p] = x
        return p

    def deref(self, v):
        if v[0] == "addr":
            return v[1]
        return ("deref", v)

    # ---- facts -----------------------------------------------------------
    def decide(self, st, atom):
        if atom == TRUE:
            return True
        if atom == FALSE:
            return False
        if atom[0] == "not":
            r = self.decide(st, atom[1])
            return None if r is None else not r
        if atom[0] in ("and", "or"):
            rs = [self.decide(st, a) for a in atom[1:]]
            if atom[0] == "and":
                return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        for a, v in st.facts:
            if a == atom:
                return v
        if atom[0] in ("pos", "eq0"):
            return decide_lin(st.facts, atom)
        if atom[0] == "eq":
            if atom[1][0] == atom[2][0] == "itr" and atom[1][1] == atom[2][1]:
                # The element a loop is at is not the end.
                for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                    if x[2] == "begin" and x[3][0] == "iter" and len(x[3]) == 2 and y[2:] == ("end", ("int", 0)) and any(
                            v and a[:2] == ("more", x[3][1]) for a, v in st.facts):
                        return False
            for a, v in st.facts:
                if v and a[0] == "eq":
                    for x, y in ((a[1], a[2]), (a[2], a[1])):
                        if x == atom[1] and y[0] == atom[2][0] and y[0] in ("str", "enum", "int") and y != atom[2]:
                            return False
                        if x == atom[2] and y[0] == atom[1][0] and y[0] in ("str", "enum", "int") and y != atom[1]:
                            return False
        return None

    def branch(self, st, t):
        """Splits on a boolean term; returns [(state, bool)]."""
        r = self.decide(st, t)
        if r is not None:
            return [(st, r)]
        k = t[0]
        if k == "not":
            return [(s, not b) for s, b in self.branch(st, t[1])]
        if k == "and":
            out = []
            for s, b in self.branch(st, t[1]):
                if not b:
                    out.append((s, False))
                else:
                    out.extend(self.branch(s, conj(t[2:])))
            return out
        if k == "or":
            out = []
            for s, b in self.branch(st, t[1]):
                if b:
                    out.append((s, True))
                else:
                    out.extend(self.branch(s, disj(t[2:])))
            return out
        if k == "ite":
            out = []
            for s, b in self.branch(st, t[1]):
                out.extend(self.branch(s, t[2] if b else t[3]))
            return out
        a, b = st, st.copy()
        a.assume(t, True)
        b.assume(t, False)
        return [(a, True), (b, False)]

    def truth(self, v):
        """A boolean term for a value used as a condition."""
        k = v[0]
        if k in ("bool", "not", "and", "or", "pos", "eq0", "eq", "lt", "isnull", "has", "isinst"):
            return v
        if k == "int":
            return TRUE if v[1] != 0 else FALSE
        if v == NULL:
            return FALSE
        if k == "addr":
            return TRUE
        return v

    def to_bool(self, v, ty=None):
        return self.truth(v)

    # ---- running ---------------------------------------------------------
    def run(self, fn, this=("this",), args=None, st=None, captures=None):
        """Path summaries of a function, entered with opaque arguments."""
        st = st or S()
        d = fn.decl
        th = None
        if d.cls and not d.static and not d.d.get("lam") and this is not None:
            th = this
            self.whole[this] = d.cls
        a = args
        if a is None:
            a = []
            for i, p in enumerate(fn.f["p"]):
                t = fn.tu.type(p["t"])
                if t.ref:
                    a.append(L(("param", i)))
                else:
                    a.append(("init", ("param", i)))
        outs = self.invoke(st, fn, th, a, captures)
        res = []
        for s, v in outs:
            if s.exc is not None:
                res.append(Path("throw", s.exc, s))
            else:
                res.append(Path("return", v, s))
        self.npaths += len(res)
        return res

    def run_closure(self, lam, st=None, args=None):
        """Path summaries of a closure value with opaque arguments."""
        fn, caps, this = self.lam_fns[lam[1]], lam[2], lam[3]
        st = st or S()
        if args is None:
            args = []
            for i, p in enumerate(fn.f["p"]):
                t = fn.tu.type(p["t"])
                args.append(L(("param", i)) if t.ref else ("init", ("param", i)))
        outs = self.invoke(st, fn, this, args, caps)
        return [Path("throw", s.exc, s) if s.exc is not None else Path("return", v, s) for s, v in outs]

    def invoke(self, st, fn, this, args, captures=None):
        self.analysed.add(fn.decl.usr)
        self.frame += 1
        fr = self.frame
        self.depth += 1
        saved = (st.env, st.this, st.stack)
        env = {}
        if captures:
            for cid, c in captures:
                if c[0] == "lvcap":
                    env[cid] = c[1]
                else:
                    p = ("cap", fr, cid)
                    st.store[p] = c[1]
                    env[cid] = p
        st.env = env
        st.this = this
        st.stack = st.stack + (fn.decl.usr,)
        for p, a in zip(fn.f["p"], args):
            t = fn.tu.type(p["t"])
            if t.ref:
                env[p["id"]] = self.lv(st, a)
            else:
                q = ("var", fr, p["id"], p["name"])
                st.store[q] = self.val(st, a)
                env[p["id"]] = q
        self.cur = fn
        states = [(st, None)]
        if "inits" in fn.f:
            states = self.ctor_inits(st, fn)
        out = []
        for s, _ in states:
            if s.exc is not None:
                out.append((s, VOID))
                continue
            if fn.f["b"] is None:
                out.append((s, VOID))
                continue
            self.cur = fn
            for s2, flow in self.stmt(fn.f["b"], s, fn, fr):
                if isinstance(flow, tuple) and flow[0] == "return":
                    v = flow[1]
                    out.append((s2, v))
                else:
                    out.append((s2, VOID))
        if len(out) > self.MAX_PATHS:
            raise AnalysisError("too many paths in %s" % fn.qn)
        for s, _ in out:
            s.env, s.this, s.stack = dict(saved[0]), saved[1], saved[2]
        # By-value result: read now, before locals go away.
        rt = fn.decl.ret
        if not rt.ref:
            out = [(s, self.val(s, v)) for s, v in out]
        self.depth -= 1
        return out

    def ctor_inits(self, st, fn):
        states = [(st, None)]
        cls = fn.decl.cls
        done = set()
        for ini in fn.f["inits"]:
            nxt = []
            for s, _ in states:
                if s.exc is not None:
                    nxt.append((s, None))
                    continue
                if "field" in ini:
                    p = ("fld", s.this, ini["field"])
                    ft = fn.tu.type(ini["t"])
                    for s2, v in self.ev(ini["e"], s, fn):
                        if s2.exc is None:
                            if ft.ref:
                                # A reference member is bound, not copied.
                                self.write(s2, p, ("addr", self.lv(s2, v)))
                            else:
                                self.write(s2, p, self.val(s2, v))
                            if ini["w"]:
                                self.event(s2, "init", fn, ini["l"], obj=p, args=[self.val(s2, v)],
                                           lvs=[v.p if isinstance(v, L) else None])
                        nxt.append((s2, None))
                elif "base" in ini:
                    bt = fn.tu.type(ini["base"])
                    e = ini["e"]
                    if e and e["k"] == "construct":
                        d = fn.tu.decl(e["fn"])
                        if len(e["a"]) == 1 and d.kind in ("copy", "move") and d.d.get("defaulted"):
                            for s2, v in self.ev(e["a"][0], s, fn):
                                self.event(s2, "baseinit", fn, ini["l"], qn=d.qn, decl=d, args=[self.val(s2, v)],
                                           obj=s2.this)
                                if bt.cls in CONTAINERS:
                                    self.write(s2, s2.this, self.val(s2, v))
                                else:
                                    self.write_part(s2, s2.this, self.val(s2, v), bt.cls, True)
                                nxt.append((s2, None))
                            continue
                        target = self.prog.fns.get(d.usr)
                        if target is not None and d.usr not in s.stack and not self.primitive(d):
                            for s2, av in self.evs(e["a"], s, fn):
                                if s2.exc is not None:
                                    nxt.append((s2, None))
                                    continue
                                for s3, _ in self.invoke(s2, target, s2.this, av):
                                    nxt.append((s3, None))
                            continue
                        for s2, av in self.evs(e["a"], s, fn):
                            vals = [self.val(s2, x) for x in av]
                            self.event(s2, "baseinit", fn, ini["l"], qn=d.qn, decl=d, args=vals,
                                       lvs=[x.p if isinstance(x, L) else None for x in av], obj=s2.this)
                            if bt.cls in CONTAINERS:
                                self.write(s2, s2.this, self.construct_value(s2, d, bt, vals, e))
                            elif self.prog.classes.get(d.cls):
                                self.write_part(s2, s2.this, self.construct_value(s2, d, bt, vals, e), d.cls, True)
                            nxt.append((s2, None))
                        continue
                    nxt.append((s, None))
                elif "deleg" in ini:
                    e = ini["e"]
                    d = fn.tu.decl(e["fn"]) if e["k"] == "construct" else None
                    target = self.prog.fns.get(d.usr) if d else None
                    for s2, av in self.evs(e.get("a", []), s, fn):
                        if target is not None and not self.primitive(d):
                            for s3, _ in self.invoke(s2, target, s2.this, av):
                                nxt.append((s3, None))
                        else:
                            self.event(s2, "deleg", fn, ini["l"], qn=d.qn if d else None, decl=d,
                                       args=[self.val(s2, x) for x in av], obj=s2.this)
                            nxt.append((s2, None))
                else:
                    nxt.append((s, None))
            states = nxt
        return states

    def event(self, st, k, fn, line, **kw):
        e = Ev(k, loc=self.prog.loc(fn, line), loops=st.loops, nf=len(st.facts), fn=fn, **kw)
        e.ne = len(st.ev)
        st.ev.append(e)
        return e

    # ---- statements ------------------------------------------------------
    def stmt(self, s, st, fn, fr):
        """-> [(state, flow)]; flow: None | 'break' | 'continue' | ('return', v)"""
        if s is None or st.exc is not None:
            return [(st, None)]
        k = s["s"]
        if k == "block":
            return self.seq(s["b"], st, fn, fr)
        if k == "expr":
            return [(x, None) for x, _ in self.ev(s["e"], st, fn)]
        if k == "decl":
            states = [st]
            for v in s["v"]:
                states = [y for x in states for y in self.declare(v, x, fn, fr)]
            return [(x, None) for x in states]
        if k == "return":
            if s["e"] is None:
                return [(st, ("return", VOID))]
            out = []
            for x, v in self.ev(s["e"], st, fn):
                if x.exc is not None:
                    out.append((x, None))
                    continue
                if isinstance(v, L) and not fn.decl.ret.ref:
                    v = self.val(x, v)
                out.append((x, ("return", v)))
            return out
        if k == "if":
            states = [st]
            if "init" in s:
                states = [x for y in states for x, _ in self.stmt(s["init"], y, fn, fr)]
            if "var" in s:
                states = [x for y in states for x in self.declare(s["var"], y, fn, fr)]
            out = []
            for y in states:
                for x, b in self.cond(s["c"], y, fn):
                    if x.exc is not None:
                        out.append((x, None))
                    else:
                        out.extend(self.stmt(s["t"] if b else s["e"], x, fn, fr))
            return out
        if k in ("for", "while", "do"):
            return self.loop(s, st, fn, fr)
        if k == "rfor":
            return self.rangefor(s, st, fn, fr)
        if k == "break":
            return [(st, "break")]
        if k == "continue":
            return [(st, "continue")]
        if k == "switch":
            return self.switch(s, st, fn, fr)
        if k in ("case", "default"):
            return self.stmt(s["b"], st, fn, fr)
        if k == "try":
            return self.trystmt(s, st, fn, fr)
        if k == "null":
            return [(st, None)]
        if k == "other":
            return [(st, None)]
        raise AnalysisError("statement kind %s" % k)

    def seq(self, stmts, st, fn, fr):
        states = [(st, None)]
        for s in stmts:
            nxt = []
            for x, flow in states:
                if flow is not None or x.exc is not None:
                    nxt.append((x, flow))
                else:
                    nxt.extend(self.stmt(s, x, fn, fr))
            states = nxt
            if len(states) > self.MAX_PATHS:
                raise AnalysisError("too many paths in %s" % fn.qn)
        return states

    def declare(self, v, st, fn, fr):
        t = fn.tu.type(v["t"])
        out = []
        if "init" not in v or v["init"] is None:
            p = ("var", fr, v["id"], v["name"])
            if v.get("static"):
                p = ("glob", "%s in %s" % (v["name"], fn.qn))
            else:
                st.store[p] = ("uninit", v["name"])
            st.env[v["id"]] = p
            return [st]
        for x, val in self.ev(v["init"], st, fn):
            if x.exc is not None:
                out.append(x)
                continue
            if v.get("static"):
                # Evaluated by the first call only.
                w = self.lv(x, val) if t.ref else self.val(x, val)
                if any(isinstance(y, tuple) and y and y[0] in ("param", "this", "iter", "elem", "cbarg") for y in walk(w)):
                    self.event(x, "keeps", fn, v["l"], obj=v["name"], args=(w,))
            if t.ref:
                x.env[v["id"]] = self.lv(x, val)
            elif v.get("static") and not t.s.startswith("const "):
                # Whatever earlier calls left there.
                x.env[v["id"]] = ("glob", "%s in %s" % (v["name"], fn.qn))
            else:
                p = ("var", fr, v["id"], v["name"])
                x.env[v["id"]] = p
                w = self.val(x, val)
                for q in [q for q in x.store if is_sub(q, p)]:
                    del x.store[q]
                x.store[p] = w
            if "bind" in v:
                base = x.env[v["id"]]
                for i, b in enumerate(v["bind"]):
                    x.env[b["id"]] = self.bind_path(x, base, b, i, fn)
            out.append(x)
        return out

    def bind_path(self, st, base, b, i, fn):
        e = b.get("e")
        # std::pair / structs: the binding is a field of the hidden object.
        if e is not None and e["k"] == "field":
            return ("fld", base, e["name"])
        return ("fld", base, ("first", "second")[i] if i < 2 else "#%d" % i)

    def cond(self, e, st, fn):
        """Evaluates a condition, splitting on it: [(state, bool)]."""
        if e is None:
            return [(st, True)]
        out = []
        for x, v in self.ev(e, st, fn, want_bool=True):
            if x.exc is not None:
                out.append((x, True))
                continue
            out.extend(self.branch(x, self.truth(self.val(x, v))))
        return out

    def switch(self, s, st, fn, fr):
        states = [st]
        if "init" in s:
            states = [x for y in states for x, _ in self.stmt(s["init"], y, fn, fr)]
        if "var" in s:
            states = [x for y in states for x in self.declare(s["var"], y, fn, fr)]
        body = s["b"]["b"] if s["b"] and s["b"]["s"] == "block" else [s["b"]]
        # Flatten nested case labels to (label list, statement) in order.
        items = []
        for b in body:
            labels = []
            while b is not None and b["s"] in ("case", "default"):
                labels.append(b)
                b = b["b"]
            items.append((labels, b))
        out = []
        for y in states:
            for x, v in self.ev(s["c"], y, fn):
                if x.exc is not None:
                    out.append((x, None))
                    continue
                v = self.val(x, v)
                pending = x
                default = None
                for i, (labels, _) in enumerate(items):
                    for lab in labels:
                        if lab["s"] == "default":
                            default = i
                            continue
                        if pending is None:
                            continue
                        (_, lv_), = self.ev(lab["e"], pending.copy(), fn)
                        nxt = None
                        for z, b in self.branch(pending, eq(v, self.val(pending, lv_))):
                            if b:
                                out.extend(self.fallthrough(items, i, z, fn, fr))
                            else:
                                nxt = z
                        pending = nxt
                if pending is not None:
                    if default is not None:
                        out.extend(self.fallthrough(items, default, pending, fn, fr))
                    elif not s.get("all"):
                        out.append((pending, None))
        return out

    def fallthrough(self, items, i, st, fn, fr):
        res = []
        for x, flow in self.seq([b for _, b in items[i:]], st, fn, fr):
            res.append((x, None if flow == "break" else flow))
        return res

    def trystmt(self, s, st, fn, fr):
        st.trydepth += 1
        n0 = len(st.ev)
        out = []
        for x, flow in self.stmt(s["b"], st, fn, fr):
            x.trydepth -= 1
            if x.exc is None:
                out.append((x, flow))
                continue
            handled = False
            for h in s["h"]:
                ht = fn.tu.type(h["t"]).cls if "t" in h else None
                exc = x.exc
                may = ht is None or exc[1] == "*" or exc[1] == ht or self.derives(exc[1], ht)
                must = ht is None or exc[1] == ht or self.derives(exc[1], ht)
                if not may:
                    continue
                y = x.copy()
                y.exc = None
                if "id" in h:
                    y.env[h["id"]] = ("exc", self.fresh())
                self.event(y, "catch", fn, h["l"], args=[exc], extra=ht)
                out.extend(self.stmt(h["b"], y, fn, fr))
                if must:
                    handled = True
                    break
            if not handled:
                out.append((x, flow))
        return out

    STD_EXC = {"std::out_of_range": ["std::logic_error"], "std::invalid_argument": ["std::logic_error"],
               "std::domain_error": ["std::logic_error"], "std::runtime_error": ["std::exception"],
               "std::logic_error": ["std::exception"], "std::length_error": ["std::logic_error"],
               "std::range_error": ["std::runtime_error"], "std::bad_alloc": ["std::exception"]}

    def derives(self, a, b):
        if a == b:
            return True
        if a is None or b is None:
            return False
        for x in self.STD_EXC.get(a, []):
            if self.derives(x, b):
                return True
        for c in self.prog.classes.get(a, []):
            for t in c.bases:
                if t.cls and self.derives(t.cls, b):
                    return True
        return False

    # ---- loops -----------------------------------------------------------
    def loop(self, s, st, fn, fr):
        k = s["s"]
        states = [(st, None)]
        if k == "for" and s["init"] is not None:
            states = self.stmt(s["init"], st, fn, fr)
        out = []
        for x, _ in states:
            if x.exc is not None:
                out.append((x, None))
                continue

            def head(y, s=s, fn=fn, fr=fr):
                if k == "do":
                    return [(y, True)]
                ys = [y]
                if "var" in s:
                    ys = [z for w in ys for z in self.declare(s["var"], w, fn, fr)]
                return [r for w in ys for r in self.cond(s["c"], w, fn)]

            def body(y, s=s, fn=fn, fr=fr):
                res = []
                for z, flow in self.stmt(s["b"], y, fn, fr):
                    if z.exc is None and flow in (None, "continue") and k == "for" and "inc" in s:
                        res.extend((w, None) for w, _ in self.ev(s["inc"], z, fn))
                    elif z.exc is None and flow == "continue":
                        res.append((z, None))
                    else:
                        res.append((z, flow))
                if k == "do":
                    r2 = []
                    for z, flow in res:
                        if z.exc is None and flow is None:
                            for w, b in self.cond(s["c"], z, fn):
                                r2.append((w, None if b else "break"))
                        else:
                            r2.append((z, flow))
                    res = r2
                return res

            out.extend(self.generic(x, k, self.prog.loc(fn, s["l"]), head, body, fn))
        return out

    def rangefor(self, s, st, fn, fr):
        out = []
        states = [(st, None)]
        if "init" in s:
            states = self.stmt(s["init"], st, fn, fr)
        for x0, _ in states:
            for x, r in self.ev(s["r"], x0, fn):
                if x.exc is not None:
                    out.append((x, None))
                    continue
                cont = self.lv(x, r)
                cv = self.read(x, cont)
                lid = self.fresh()

                def head(y, cont=cont, cv=cv, lid=lid):
                    # Either some generic element, or the end.
                    a, b = y, y.copy()
                    a.assume(("more", lid, cv), True)
                    b.assume(("more", lid, cv), False)
                    return [(a, True), (b, False)]

                def body(y, cont=cont, lid=lid, s=s):
                    v = s["var"]
                    t = fn.tu.type(v["t"])
                    ep = ("idx", cont, ("iter", lid))
                    if t.ref:
                        y.env[v["id"]] = ep
                    else:
                        p = ("var", fr, v["id"], v["name"])
                        for q in [q for q in y.store if is_sub(q, p)]:
                            del y.store[q]
                        y.store[p] = self.read(y, ep)
                        y.env[v["id"]] = p
                    if "bind" in v:
                        base = y.env[v["id"]]
                        for i, b in enumerate(v["bind"]):
                            y.env[b["id"]] = self.bind_path(y, base, b, i, fn)
                    return [(z, None if flow == "continue" else flow)
                            for z, flow in self.stmt(s["b"], y, fn, fr)]

                out.extend(self.generic(x, "rfor", self.prog.loc(fn, s["l"]), head, body, fn, lid=lid,
                                        over=[cv], cont=cont))
        return out

    def back_edges(self, g, head, body):
        """One generic iteration from g: (back-edge states, other outcomes, exits)."""
        back, other, exits = [], [], []
        for y, b in head(g):
            if y.exc is not None:
                other.append((y, None))
            elif not b:
                exits.append(y)
            else:
                for z, flow in body(y):
                    if z.exc is None and flow is None:
                        back.append(z)
                    else:
                        other.append((z, flow))
        return back, other, exits

    def generic(self, st, kind, loc, head, body, fn, lid=None, over=None, cont=None):
        lid = lid or self.fresh()
        lp = Loop(lid, kind, loc)
        lp.depth = len(st.loops)
        lp.range_lv = cont
        lp.before = dict(st.store)      # what places hold when the loop starts
        if over:
            lp.over, lp.dir = list(over), "asc"
        known = {p for p in st.store} | {root(p) for p in st.store} | set(st.env.values())
        known = {root(p) for p in known}

        def lives(p):
            r = root(p)
            return r in known or r[0] not in ("var", "tmp", "cap")

        mod = {}
        canon = {}
        derived = {}
        order = []
        for _ in range(7):
            g = st.copy()
            g.loops = st.loops + (lid,)
            for p in order:
                self.havoc(g, p, mod[p], lid, canon.get(p, derived.get(p)))
            nfacts = len(g.facts)
            snap = dict(g.store)
            back, other, exits = self.back_edges(g.copy(), head, body)
            new = False
            for z in back:
                for p in set(z.store) | set(snap):
                    if not lives(p) or z.store.get(p) == snap.get(p):
                        continue
                    if p in mod or any(is_sub(p, q) for q in mod):
                        continue
                    if p not in z.store and p not in st.store:
                        continue
                    if p not in z.store and any(q in z.store and is_sub(p, q) for q in z.store):
                        continue
                    mod[p] = self.read(st, p)
                    order.append(p)
                    new = True
            if new:
                # A whole-object havoc subsumes its parts.
                for p in list(order):
                    if any(is_sub(p, q) for q in order):
                        order.remove(p)
                continue
            if not canon and order:
                self.classify(lp, st, g, order, mod, back, exits, nfacts, canon)
                if canon:
                    continue
            if not derived and len(order) > 1 and back:
                self.derive(lid, g, order, mod, back, canon, derived)
                if derived:
                    continue
            break
        lp.init = {p: mod[p] for p in order}
        lp.mod = list(order)
        lp.iterlvs = dict(canon)
        # The real, recorded generic iteration.
        lp.derived = dict(derived)
        g = st.copy()
        g.loops = st.loops + (lid,)
        for p in order:
            self.havoc(g, p, mod[p], lid, canon.get(p, derived.get(p)))
        lp.entry = {p: g.store.get(p) for p in order}
        nev, nf = len(g.ev), len(g.facts)
        g0 = g.copy()
        back, other, exits = self.back_edges(g, head, body)
        self.moved_round(g0, head, body, back, lambda p: lives(p) and ("iter", lid) not in walk(p))
        for z in back:
            lp.paths.append(IterPath(z, None, nev, nf, st))
        for z, flow in other:
            lp.paths.append(IterPath(z, "throw" if z.exc is not None else flow, nev, nf, st))
        self.loops[lid] = lp
        out = []
        for y in exits:
            y.loops = st.loops
            self.hint_exit(y, lp)
            e = self.event(y, "loop", fn, None)
            e.loc = loc
            e.loop = lp
            e.extra = "exit"
            out.append((y, None))
        for z, flow in other:
            z.loops = st.loops
            e = Ev("loop", loc=loc, loops=st.loops, nf=nf, fn=fn, loop=lp, extra=flow or "throw")
            e.ne = nev
            z.ev.insert(nev, e)
            out.append((z, None if flow == "break" else flow))
        return out

    def moved_round(self, g, head, body, back, lives):
        """Uses, in the next iteration, of what every iteration moves away."""
        ps = [p for p in (back[0].moved if back else ()) if p not in g.moved and lives(p) and all(p in z.moved for z in back)]
        if not ps:
            return
        h = g.copy()
        n = len(h.ev)
        for p in ps:
            h.moved[p] = back[0].moved[p]
        seen = set()
        b2, o2, x2 = self.back_edges(h, head, body)
        for z in b2 + [y for y, _ in o2]:
            for e in all_events(z.ev[n:]):
                if e.k == "usemoved" and e.loc not in seen and e.loc in [back[0].moved[p] for p in ps]:
                    seen.add(e.loc)
                    back[0].ev.append(e)

    def derive(self, lid, g, order, mod, back, canon, derived):
        """Finds loop-carried locations that are a function of another one.

        p = F(q) is inductive when it holds on entry and every back edge that
        assumes it re-establishes it; F is read off the entry values.
        """
        for p in order:
            if p in canon:
                continue
            for q in order:
                if q == p or q in derived:
                    continue
                a, b = mod[q], mod[p]
                cur = g.store.get(q)
                if cur is None:
                    continue
                cands = []
                if a[0] not in ("int", "bool", "str", "uninit", "list", "null") and contains(b, a):
                    cands.append(lambda x, a=a, b=b: subst(b, lambda t: x if t == a else None))
                z = back[0]
                if z.store.get(q) is not None and z.store.get(p) is not None and z.store[q] not in (cur,) \
                        and contains(z.store[p], z.store[q]):
                    cands.append(lambda x, a=z.store[q], b=z.store[p]: subst(b, lambda t: x if t == a else None))
                for F in cands:
                    if F(a) != b:
                        continue
                    if all(z.store.get(p) is not None and z.store.get(q) is not None
                           and subst(z.store[p], lambda t: F(cur) if t == ("phi", lid, p) else None) == F(z.store[q])
                           for z in back):
                        derived[p] = F(cur)
                        break
                if p in derived:
                    break

    def hint_exit(self, st, lp):
        pass

    def havoc(self, g, p, init, lid, canon):
        for q in [q for q in g.store if is_sub(q, p)]:
            del g.store[q]
        if canon is not None:
            g.store[p] = canon
        elif init[0] == "itr":
            g.store[p] = ("itr", init[1], ("phi", lid, p), I(0))
        else:
            g.store[p] = ("phi", lid, p)

    def classify(self, lp, st, g, order, mod, back, exits, nfacts, canon):
        """Recognises counting and iterator loops: a traversal of a whole range."""
        if not back:
            return
        lid = lp.id
        for p in order:
            init = mod[p]
            steps = {z.store.get(p) for z in back}
            if len(steps) != 1:
                continue
            step = steps.pop()
            if step is None:
                continue
            it = ("iter", lid)
            if init[0] == "itr":
                ph = ("itr", init[1], ("phi", lid, p), I(0))
                if step[0] != "itr" or step[2] != ph[2] or step[3] != I(1):
                    continue
                ends = [a for z in back[:1] for a, v in z.facts[nfacts:] if not v and a[0] == "eq"]
                for a in ends:
                    pair = (a[1], a[2])
                    if ph in pair:
                        o = pair[0] if pair[1] == ph else pair[1]
                        cv = self.read(st, init[1]) if init[1][0] != "val" else init[1][1]
                        if o[0] == "itr" and o[1] == init[1] and init[2] == "begin" and o[2] == "end":
                            canon[p] = ("itr", init[1], "begin", add(it, init[3]))
                            lp.dir = "asc"
                            lp.lo = init[3]
                            lp.hi = size_of(cv)
                            if init[3] == I(0):
                                lp.over.append(cv)
                            lp.range_lv = init[1]
                        if o[0] == "itr" and o[1] == init[1] and init[2] == "rbegin" and o[2] == "rend":
                            canon[p] = ("itr", init[1], "rbegin", sub(sub(size_of(cv), I(1)), it))
                            lp.dir = "desc"
                            lp.lo = I(0)
                            lp.hi = size_of(cv)
                            if init[3] == I(0):
                                lp.over.append(cv)
                            lp.range_lv = init[1]
                continue
            ph = ("phi", lid, p)
            d = sub(step, ph)
            if d not in (I(1), I(-1)):
                continue
            # The facts the generic iteration learned from the loop condition.
            conds = [(a, v) for z in back[:1] for a, v in z.facts[nfacts:] if a[0] in ("pos", "eq0") and contains(a, ph)]
            for a, v in conds[:1]:
                c, dd = lin_parts(a[1])
                if ph not in dd or abs(dd[ph]) != 1:
                    continue
                rest = dict(dd)
                sg = rest.pop(ph)
                r = mk_lin(c, rest)          # a[1] == sg*ph + r
                if any(contains(r, ("phi", lid, q)) for q in order):
                    continue
                hi = lo = None
                if a[0] == "pos":
                    # v: sg*ph + r > 0 ; not v: sg*ph + r <= 0
                    if v and sg == -1 or (not v and sg == 1):
                        # ph < r   |  ph <= -r
                        hi = r if v else add(mul(I(-1), r), I(1))
                    else:
                        # ph > -r  |  ph >= r
                        lo = mul(I(-1), r) if v else sub(r, I(1))
                elif a[0] == "eq0" and not v:
                    b = mul(I(-sg), r)       # ph != b
                    if d == I(1):
                        hi = b
                    else:
                        lo = b
                if d == I(1) and hi is not None:
                    canon[p] = it
                    lp.dir, lp.lo, lp.hi = "asc", init, hi
                elif d == I(-1) and lo is not None:
                    it = ("iter", lid, "desc")    # may become -1 on exit
                    if lo == I(-1):
                        canon[p] = it
                        lp.dir, lp.lo, lp.hi = "desc", I(0), add(init, I(1))
                    elif lo == I(0):
                        canon[p] = add(it, I(1))
                        lp.dir, lp.lo, lp.hi = "desc", I(0), init
                if p in canon and lp.lo == I(0) and lp.hi is not None and lp.hi[0] == "size":
                    lp.over.append(lp.hi[1])
                if p in canon:
                    break

    # ---- expressions -----------------------------------------------------
    def evs(self, es, st, fn):
        states = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in states:
                if x.exc is not None:
                    nxt.append((x, vs))
                    continue
                for y, v in self.ev(e, x, fn):
                    nxt.append((y, vs + [v]))
            states = nxt
        return states

    def ev(self, e, st, fn, want_bool=False):
        if e is None:
            return [(st, VOID)]
        if st.exc is not None:
            return [(st, VOID)]
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise AnalysisError("expression kind %s" % e["k"])
        return m(e, st, fn)

    def e_int(self, e, st, fn):
        return [(st, I(e["v"]))]

    def e_bool(self, e, st, fn):
        return [(st, TRUE if e["v"] else FALSE)]

    def e_str(self, e, st, fn):
        return [(st, ("str", e["v"]))]

    def e_chr(self, e, st, fn):
        return [(st, I(e["v"]))]

    def e_flt(self, e, st, fn):
        return [(st, ("flt", e["v"]))]

    def e_null(self, e, st, fn):
        return [(st, NULL)]

    def e_enum(self, e, st, fn):
        return [(st, ("enum", e["name"]))]

    def e_zero(self, e, st, fn):
        t = fn.tu.type(e["t"])
        if t.basic == "bool" and not t.ptr:
            return [(st, FALSE)]
        if t.basic in ("int", "uint") and not t.ptr:
            return [(st, I(0))]
        if t.ptr:
            return [(st, NULL)]
        return [(st, ("zero", t.s))]

    def e_this(self, e, st, fn):
        return [(st, ("addr", st.this) if st.this is not None else ("init", ("thisptr",)))]

    def e_fnref(self, e, st, fn):
        return [(st, ("fn", fn.tu.decl(e["fn"]).usr))]

    def e_ref(self, e, st, fn):
        i = e["id"]
        if i in st.env:
            return [(st, L(st.env[i]))]
        if "glob" in e:
            if e.get("init") is not None:
                r = self.ev(e["init"], st.copy(), fn)
                if len(r) == 1 and r[0][0].exc is None and not isinstance(r[0][1], L):
                    return [(st, r[0][1])]
            return [(st, L(("glob", e["glob"])))]
        return [(st, L(("free", i, e["name"])))]

    def e_field(self, e, st, fn):
        out = []
        for x, b in self.ev(e["b"], st, fn):
            if x.exc is not None:
                out.append((x, VOID))
                continue
            t = fn.tu.type(e["t"])
            if e.get("arrow"):
                base = self.deref(self.val(x, b))
            else:
                base = self.lv(x, b)
            p = ("fld", base, e["name"])
            if t.ref:
                # Reference member: designates what it was bound to.
                v = self.base_value(x, p)
                out.append((x, L(self.deref(v) if v[0] == "addr" else ("deref", v))))
            else:
                out.append((x, L(p)))
        return out

    def e_index(self, e, st, fn):
        out = []
        for x, (a, b) in self.evs([e["a"], e["b"]], st, fn):
            out.append((x, L(("idx", self.lv(x, a), self.val(x, b)))))
        return out

    def e_cast(self, e, st, fn):
        out = []
        t = fn.tu.type(e["t"])
        for x, v in self.ev(e["e"], st, fn):
            if x.exc is not None:
                out.append((x, VOID))
                continue
            ck = e["ck"]
            if e.get("dyn"):
                pv = self.val(x, v)
                r = ("dyncast", t.cls, pv) if t.ptr else ("dyncast", t.cls, ("addr", self.lv(x, v)))
                out.append((x, r if t.ptr else L(self.deref(r))))
            elif ck in ("IntegralToBoolean", "FloatingToBoolean"):
                w = self.val(x, v)
                if w[0] in ("bool", "not", "and", "or", "pos", "eq0", "eq", "lt", "isnull", "has"):
                    out.append((x, w))
                else:
                    out.append((x, neg(eq0(w))))
            elif ck == "PointerToBoolean":
                out.append((x, neg(eq(self.val(x, v), NULL))))
            elif ck == "NullToPointer":
                out.append((x, NULL))
            elif ck in ("IntegralCast", "NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived",
                        "LValueToRValue", "ConstructorConversion", "UserDefinedConversion", "BitCast"):
                if t.basic == "bool" and ck == "IntegralCast":
                    out.append((x, neg(eq0(self.val(x, v)))))
                elif ck == "IntegralCast" and not isinstance(v, L):
                    w = v
                    if w[0] == "bool" and t.basic in ("int", "uint"):
                        w = I(1 if w[1] else 0)
                    out.append((x, w))
                else:
                    if ck == "IntegralCast":
                        w = self.val(x, v)
                        if w[0] == "bool":
                            w = I(1 if w[1] else 0)
                        out.append((x, w))
                    else:
                        out.append((x, v))
            elif ck == "ToVoid":
                out.append((x, VOID))
            elif ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast"):
                w = self.val(x, v)
                out.append((x, w if is_int(w) else ("conv", ck, w)))
            else:
                out.append((x, v))
        return out

    def split_value(self, st, t):
        """Splits a boolean value into constant outcomes."""
        return [(x, TRUE if b else FALSE) for x, b in self.branch(st, t)]

    def e_cond(self, e, st, fn):
        out = []
        for x, b in self.cond(e["c"], st, fn):
            if x.exc is not None:
                out.append((x, VOID))
                continue
            out.extend(self.ev(e["a"] if b else e["b"], x, fn))
        return out

    def e_bin(self, e, st, fn):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for x, b in self.cond(e["a"], st, fn):
                if x.exc is not None:
                    out.append((x, VOID))
                elif b == (op == "||"):
                    out.append((x, TRUE if b else FALSE))
                else:
                    for y, v in self.ev(e["b"], x, fn):
                        out.append((y, self.truth(self.val(y, v)) if y.exc is None else VOID))
            return out
        if op == ",":
            out = []
            for x, _ in self.ev(e["a"], st, fn):
                out.extend(self.ev(e["b"], x, fn))
            return out
        out = []
        if op == "=":
            for x, (b, a) in self.evs([e["b"], e["a"]], st, fn):
                if x.exc is not None:
                    out.append((x, VOID))
                    continue
                v = self.val(x, b)
                p = self.lv(x, a)
                self.store_ev(x, p, v, fn, e["l"])
                out.append((x, L(p)))
            return out
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            for x, (b, a) in self.evs([e["b"], e["a"]], st, fn):
                if x.exc is not None:
                    out.append((x, VOID))
                    continue
                p = self.lv(x, a)
                v = self.arith(op[:-1], self.read(x, p), self.val(x, b), fn.tu.type(e["t"]))
                self.store_ev(x, p, v, fn, e["l"])
                out.append((x, L(p)))
            return out
        for x, (a, b) in self.evs([e["a"], e["b"]], st, fn):
            if x.exc is not None:
                out.append((x, VOID))
                continue
            a, b = self.val(x, a), self.val(x, b)
            r = self.arith(op, a, b, fn.tu.type(e["t"]))
            if op in ("<", "<=", ">", ">="):
                # A negative signed operand converted to unsigned compares greater than everything.
                sa, sb = self.unsigned_view(e["a"], fn, a), self.unsigned_view(e["b"], fn, b)
                if sa != sb:
                    low = op in ("<", "<=")
                    v = a if sa else b
                    r = conj([le(I(0), v), r]) if low == sa else disj([lt(v, I(0)), r])
            out.append((x, r))
        return out

    def unsigned_view(self, e, fn, v):
        """Whether expression e converts a possibly negative number v to an unsigned type."""
        while e["k"] == "cast" and e["ck"] == "NoOp":
            e = e["e"]
        if e["k"] != "cast" or e["ck"] != "IntegralCast" or fn.tu.type(e["t"]).basic != "uint":
            return False
        s = e["e"]
        while s["k"] == "cast" and s["ck"] == "NoOp":
            s = s["e"]
        if s["k"] == "cast" and s["ck"] == "IntegralCast" and "t" in s["e"] and fn.tu.type(s["e"]["t"]).basic == "uint":
            return False
        if "t" not in s or fn.tu.type(s["t"]).basic != "int":
            return False
        c, d = lin_parts(v)
        return not (c >= 0 and all(n > 0 and k[0] in ("size", "iter") for k, n in d.items()))

    def store_ev(self, st, p, v, fn, line):
        self.write(st, p, v)
        if root(p)[0] not in ("var", "tmp", "cap"):
            self.event(st, "store", fn, line, obj=p, args=[v])

    def arith(self, op, a, b, t=None):
        isb = t is not None and t.basic == "bool"
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return neg(eq(a, b))
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return le(a, b)
        if op == ">=":
            return le(b, a)
        bools = ("bool", "not", "and", "or", "pos", "eq0", "eq", "lt", "isnull", "has")
        if op == "|" and (isb or a[0] in bools or b[0] in bools):
            if a[0] == "int":
                a = TRUE if a[1] else FALSE
            if b[0] == "int":
                b = TRUE if b[1] else FALSE
            return disj([a, b])
        if op == "&" and (isb or a[0] in bools or b[0] in bools):
            if a[0] == "int":
                a = TRUE if a[1] else FALSE
            if b[0] == "int":
                b = TRUE if b[1] else FALSE
            return conj([a, b])
        if op == "+":
            if a[0] == "itr":
                return ("itr", a[1], a[2], add(a[3], b))
            return add(a, b)
        if op == "-":
            if a[0] == "itr" and b[0] != "itr":
                return ("itr", a[1], a[2], sub(a[3], b))
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        return ("op", op, a, b)

    def e_un(self, e, st, fn):
        op = e["op"]
        out = []
        if op == "!":
            for x, v in self.ev(e["a"], st, fn):
                out.append((x, neg(self.truth(self.val(x, v))) if x.exc is None else VOID))
            return out
        for x, v in self.ev(e["a"], st, fn):
            if x.exc is not None:
                out.append((x, VOID))
                continue
            if op == "&":
                if isinstance(v, L):
                    out.append((x, ("addr", v.p)))
                else:
                    out.append((x, ("addr", self.lv(x, v))))
            elif op == "*":
                out.append((x, L(self.deref(self.val(x, v)))))
            elif op in ("++", "--"):
                p = self.lv(x, v)
                old = self.read(x, p)
                new = self.arith("+" if op == "++" else "-", old, I(1))
                self.store_ev(x, p, new, fn, e["l"])
                out.append((x, old if e.get("post") else L(p)))
            elif op == "-":
                out.append((x, mul(I(-1), self.val(x, v))))
            elif op == "+":
                out.append((x, self.val(x, v)))
            else:
                out.append((x, ("op", op, self.val(x, v))))
        return out

    def e_lambda(self, e, st, fn):
        keyname = "%s:%s" % (fn.tu.name, e["lam"])
        if "fn" in e:
            f = e["fn"]
        elif e.get("specs"):
            f = e["specs"][0]
        else:
            f = None
        if keyname not in self.lam_fns and f is not None:
            from ir import Fn
            self.lam_fns[keyname] = Fn(fn.tu, f)
        states = [(st, [])]
        for c in e["caps"]:
            nxt = []
            for x, caps in states:
                if "this" in c:
                    nxt.append((x, caps))
                    continue
                if "init" in c:
                    for y, v in self.ev(c["init"], x, fn):
                        if c["ref"] and isinstance(v, L):
                            nxt.append((y, caps + [(c["id"], ("lvcap", v.p))]))
                        else:
                            nxt.append((y, caps + [(c["id"], ("valcap", self.val(y, v)))]))
                else:
                    p = x.env.get(c["id"], ("free", c["id"], c["name"]))
                    if c["ref"]:
                        nxt.append((x, caps + [(c["id"], ("lvcap", p))]))
                    else:
                        nxt.append((x, caps + [(c["id"], ("valcap", self.read(x, p)))]))
            states = nxt
        return [(x, ("lam", keyname, tuple(caps), x.this)) for x, caps in states]

    def e_init(self, e, st, fn):
        t = fn.tu.type(e["t"])
        out = []
        for x, vs in self.evs(e["a"], st, fn):
            vals = [self.val(x, v) for v in vs]
            if t.cls:
                out.append((x, ("agg", t.cls) + tuple(vals)))
            elif not vals:
                out.append((x, I(0) if t.basic in ("int", "uint") else FALSE if t.basic == "bool" else ("list",)))
            elif t.basic:
                out.append((x, vals[0]))
            else:
                out.append((x, ("list",) + tuple(vals)))
        return out

    def e_new(self, e, st, fn):
        t = fn.tu.type(e["t"])
        out = []
        for x, v in self.ev(e["e"], st, fn) if e.get("e") else [(st, VOID)]:
            p = ("heap", self.fresh(), t.cls)
            x.store[p] = self.val(x, v)
            self.event(x, "new", fn, e["l"], qn=t.cls, obj=p, args=[self.val(x, v)])
            out.append((x, ("addr", p)))
        return out

    def e_delete(self, e, st, fn):
        out = []
        for x, v in self.ev(e["e"], st, fn):
            self.event(x, "delete", fn, e["l"], args=[self.val(x, v)])
            out.append((x, VOID))
        return out

    def e_throw(self, e, st, fn):
        out = []
        for x, v in self.ev(e["e"], st, fn) if e.get("e") else [(st, VOID)]:
            if x.exc is None:
                t = fn.tu.type(e["t"]).cls if "t" in e else "rethrow"
                val = self.val(x, v)
                self.event(x, "throw", fn, e["l"], qn=t, args=[val])
                x.exc = ("exc", t, val, self.prog.loc(fn, e["l"]))
            out.append((x, VOID))
        return out

    def e_other(self, e, st, fn):
        out = []
        for x, vs in self.evs(e.get("a", []), st, fn):
            out.append((x, ("other", e["n"]) + tuple(self.val(x, v) for v in vs)))
        return out

    def e_construct(self, e, st, fn):
        d = fn.tu.decl(e["fn"])
        t = fn.tu.type(e["t"])
        out = []
        for x, vs in self.evs(e["a"], st, fn):
            if x.exc is not None:
                out.append((x, VOID))
                continue
            if d.kind in ("copy", "move") and len(vs) == 1 and (
                    not d.repo or d.d.get("implicit") or d.d.get("defaulted")):
                if d.kind == "move" and isinstance(vs[0], L):
                    self.event(x, "move", fn, e["l"], obj=vs[0].p, qn=t.cls)
                out.append((x, self.val(x, vs[0])))
                if d.kind == "move":
                    self.consume(x, vs[0], fn, e["l"])
                continue
            target = self.prog.fns.get(d.usr)
            if target is not None and not self.primitive(d) and d.usr not in x.stack and self.depth < self.MAX_DEPTH:
                p = ("tmp", self.fresh())
                for y, _ in self.invoke(x, target, p, vs):
                    out.append((y, self.read(y, p) if y.exc is None else VOID))
                continue
            vals = [self.val(x, v) for v in vs]
            r = self.construct_value(x, d, t, vals, e)
            for v, pt in zip(vs, d.ptypes):
                # A temporary or a named value handed over by an rvalue reference is used up.
                if isinstance(v, L) and pt.s.rstrip().endswith("&&") and (v.p in x.store or v.p[0] in ("var", "param")):
                    self.consume(x, v, fn, e["l"])
            if d.repo:
                self.event(x, "construct", fn, e["l"], qn=d.qn, decl=d, args=vals,
                           lvs=[v.p if isinstance(v, L) else None for v in vs], ret=r)
            if d.repo and x.trydepth:
                y = x.copy()
                y.exc = ("exc", "*", r, self.prog.loc(fn, e["l"]))
                out.append((y, VOID))
            out.append((x, r))
        return out

    def ctor_by_arity(self, cls, vs):
        """The one constructor of a class of the repository that takes these arguments."""
        if not cls:
            return None
        cs = [f for f in self.prog.by_qn.get(cls + "::" + cls.split("::")[-1], [])
              if not f.decl.d.get("implicit") and not f.decl.d.get("defaulted") and f.decl.kind not in ("copy", "move")
              and len(f.f["p"]) >= len(vs) and all("def" in p for p in f.f["p"][len(vs):])]
        cs = list({f.decl.usr: f for f in cs}.values())
        if len(cs) != 1 or len(vs) == 1 and isinstance(vs[0], L) and vs[0].p[0] == "deref" and not cs[0].f["p"]:
            return None
        if len(vs) == 1 and cs[0].decl.ptypes and cs[0].decl.ptypes[0].cls == cls:
            return None
        return cs[0]

    def construct_value(self, st, d, t, vals, e):
        cls = t.cls or ""
        if cls == "std::function" and len(vals) == 1:
            return vals[0]
        if "iterator" in cls and not d.repo and len(vals) == 1 and vals[0][0] == "itr":
            return vals[0]
        if "reverse_iterator" in cls and not d.repo and len(vals) == 1:
            return ("new", cls) + tuple(vals)
        if cls == "std::optional":
            if not vals:
                return NONE
            if len(vals) == 1:
                v = vals[0]
                pt = d.ptypes[0].cls if d.ptypes else None
                if pt == "std::nullopt_t":
                    return NONE
                if pt == "std::optional":
                    return v
                return ("some", v)
        if cls in ("std::pair", "std::tuple") and len(vals) == 2 and cls == "std::pair":
            return ("pair", vals[0], vals[1])
        if cls == "std::tuple":
            return ("tuple",) + tuple(vals)
        if cls in SMART:
            if not vals:
                return NULL
            return vals[0]
        if cls in CONTAINERS:
            if not vals:
                return ("list",)
            if len(vals) == 1 and vals[0][0] in ("list", "str"):
                return vals[0]
            if cls.endswith("basic_string") and vals[0][0] == "str":
                return vals[0]
            return ("new", cls) + tuple(vals)
        if not vals and not d.repo:
            return ("new", cls)
        if cls.endswith("string_view") and len(vals) == 1:
            return vals[0]
        return ("new", cls) + tuple(vals)

    # ---- calls -----------------------------------------------------------
    def e_call(self, e, st, fn):
        out = []
        if "fn" not in e:
            # Call through a pointer or a dependent callee.
            for x, (c, *vs) in self.evs([e["callee"]] + e["a"], st, fn):
                cv = self.val(x, c)
                out.extend(self.apply_value(x, cv, vs, e, fn))
            return out
        d = fn.tu.decl(e["fn"])
        if "obj" in e:
            for x, (o, *vs) in self.evs([e["obj"]] + e["a"], st, fn):
                if x.exc is not None:
                    out.append((x, VOID))
                    continue
                if e.get("arrow"):
                    op = self.deref(self.val(x, o))
                else:
                    op = self.lv(x, o)
                out.extend(self.call(x, d, op, vs, e, fn))
            return out
        for x, vs in self.evs(e["a"], st, fn):
            if x.exc is not None:
                out.append((x, VOID))
                continue
            out.extend(self.call(x, d, None, vs, e, fn))
        return out

    def apply_value(self, st, cv, vs, e, fn, d=None):
        if cv[0] == "lam" and self.lam_fns.get(cv[1]) and self.lam_fns[cv[1]].decl.usr not in st.stack \
                and self.depth < self.MAX_DEPTH:
            return self.invoke(st, self.lam_fns[cv[1]], cv[3], vs, cv[2])
        if cv[0] == "fn" and cv[1] in self.prog.fns and cv[1] not in st.stack and self.depth < self.MAX_DEPTH \
                and not self.primitive(self.prog.fns[cv[1]].decl):
            return self.invoke(st, self.prog.fns[cv[1]], None, vs)
        vals = [self.val(st, v) for v in vs]
        r = ("apply", cv) + tuple(vals)
        ev = self.event(st, "apply", fn, e["l"], qn="<indirect>", objv=cv, args=vals,
                        lvs=[v.p if isinstance(v, L) else None for v in vs])
        t = fn.tu.type(e["t"])
        # A callable may mutate what it is given by pointer.
        for i, v in enumerate(vals):
            pt = d.ptypes[i] if d is not None and i < len(d.ptypes) else None
            if pt is not None and (pt.const if pt.ref or pt.ptr else True):
                continue
            if v[0] == "addr":
                old = self.read(st, v[1])
                r = ("apply", cv) + tuple(("at", a, self.read(st, a[1])) if a[0] == "addr" else a for a in vals)
                self.write(st, v[1], ("mut", "apply", old, cv) + tuple(a for a in vals if a is not v))
            elif v[0] == "init" and v[1][0] == "param" and self.is_mut_ptr(fn, v):
                p = ("deref", v)
                old = self.read(st, p)
                r = ("apply", cv) + tuple(("at", a, old) if a == v else a for a in vals)
                self.write(st, p, ("mut", "apply", old, cv) + tuple(a for a in vals if a != v))
        ev.ret = r
        res = [(st, r)]
        if e.get("lv"):
            res = [(st, L(("deref", r)))]
        if st.trydepth:
            y = st.copy()
            y.exc = ("exc", "*", r, self.prog.loc(fn, e["l"]))
            res.append((y, VOID))
        return res

    def is_mut_ptr(self, fn, v):
        return True

    def call(self, st, d, obj, vs, e, fn):
        if st.moved and obj is not None and d.name not in ("clear", "operator=", "assign", "swap", "reset", "resize"):
            self.use_moved(st, obj)
        if st.moved and d.qn in ("std::operator>>", "std::getline") and len(vs) > 1 and isinstance(vs[1], L):
            # Reading into a text sets it, whatever it was.
            for q in [q for q in st.moved if q == vs[1].p or is_sub(q, vs[1].p)]:
                del st.moved[q]
        r = self.call_(st, d, obj, vs, e, fn)
        if not (d.qn in PASS or self.prog.fns.get(d.usr) is not None and not self.primitive(d)):
            # Rvalue reference parameters of functions not analysed here take the value.
            for v, t in zip(vs, d.ptypes):
                if isinstance(v, L) and t.s.rstrip().endswith("&&") and v.p != obj and d.kind not in ("move=",):
                    for y, _ in r:
                        if y.exc is None and v.p in y.store or v.p[0] in ("var", "param"):
                            self.consume(y, v, fn, e["l"])
        return r

    def call_(self, st, d, obj, vs, e, fn):
        qn, name = d.qn, d.name
        # Closures and std::function objects.
        if name == "operator()" and obj is not None and (d.d.get("lam") is not None or d.cls == "std::function"):
            return self.apply_value(st, self.read(st, obj), vs, e, fn, d)
        if d.repo or d.usr in self.prog.fns:
            target = self.prog.fns.get(d.usr)
            if d.d.get("defaulted") and d.kind in ("copy=", "move="):
                v = self.val(st, vs[0])
                self.event(st, "assign", fn, e["l"], qn=qn, decl=d, obj=obj, args=[v],
                           lvs=[vs[0].p if isinstance(vs[0], L) else None])
                self.write_part(st, obj, v, d.cls)
                if d.kind == "move=" and isinstance(vs[0], L) and vs[0].p != obj:
                    self.consume(st, vs[0], fn, e["l"])
                return [(st, L(obj))]
            if target is not None and not self.primitive(d) and d.usr not in st.stack \
                    and self.depth < self.MAX_DEPTH:
                return self.invoke(st, target, obj if not d.static else None, vs)
            return self.opaque(st, d, obj, vs, e, fn)
        r = self.model(st, d, obj, vs, e, fn)
        if r is not None:
            return r
        return self.opaque(st, d, obj, vs, e, fn)

    def out_pointer(self, v, t):
        """Whether a call may change what an argument points to."""
        return t.ptr and not t.const and (t.cls or v[0] == "addr")

    def opaque(self, st, d, obj, vs, e, fn):
        """A call whose body is not analysed here: an event, with its effects."""
        vals = [self.val(st, v) for v in vs]
        lvs = [v.p if isinstance(v, L) else None for v in vs]
        objv = self.read(st, obj) if obj is not None else None
        inst = obj is not None and not d.static
        head = (objv,) if inst else ()
        tag = qn = d.qn
        # Pointees that the call may change are part of its inputs.
        ptr_in = []
        for v, t in zip(vals, d.ptypes):
            if self.out_pointer(v, t):
                ptr_in.append(self.deref(v))
        extra = tuple(("at", self.read(st, p)) for p in ptr_in)
        r = ("call", qn) + head + tuple(vals) + extra
        ev = self.event(st, "call", fn, e["l"], qn=qn, decl=d, obj=obj if inst else None, objv=objv, args=vals, lvs=lvs)
        mutates = inst and not d.const
        if mutates:
            r = ("ret", qn) + head + tuple(vals) + extra
            self.write_part(st, obj, ("mut", qn) + head + tuple(vals) + extra, d.cls)
        for i, (v, t) in enumerate(zip(vs, d.ptypes)):
            if t.ref == "&" and not t.const and isinstance(v, L):
                old = self.read(st, v.p)
                self.write(st, v.p, ("mut", qn + "#%d" % i, old) + tuple(vals))
                mutates = True
            if self.out_pointer(vals[i], t):
                p = self.deref(vals[i])
                old = self.read(st, p)
                self.write(st, p, ("mut", qn + "#%d" % i, old) + tuple(vals))
        if obj is None and qn.startswith("std::") and not name_of(qn) in READERS:
            # Other algorithms may change what their iterators range over.
            for i, (v, t) in enumerate(zip(vals, d.ptypes)):
                if v[0] == "itr" and "const_iterator" not in t.s and not ("<const " in t.s) and not (i < 2 and name_of(qn) in COPIERS):
                    if not (v[1][0] == "init"):
                        self.write(st, v[1], ("mut", qn + "#%d" % i, self.read(st, v[1])) + tuple(vals))
        ev.ret = r
        # Closures handed to an opaque callee: analyse their bodies as callbacks.
        for v in vals:
            if v[0] == "lam" and self.lam_fns.get(v[1]) and self.lam_fns[v[1]].decl.usr not in st.stack:
                self.callback(st, v, fn, e)
        res = []
        if d.d.get("noreturn"):
            st.exc = ("exc", "noreturn", r, self.prog.loc(fn, e["l"]))
            return [(st, VOID)]
        if e.get("lv"):
            # Returns a reference: `os << x`, `v.f()`.
            if d.ret.ref == "&" and not d.ret.const and vs and isinstance(vs[0], L) and not inst \
                    and d.ptypes and d.ptypes[0].cls == d.ret.cls:
                res.append((st, L(vs[0].p)))
            elif d.ret.ref and inst and d.ret.cls == d.cls and not d.const and d.op:
                res.append((st, L(obj)))
            elif d.ret.ref and inst:
                res.append((st, L(("deref", ("refto",) + r[1:]))))
            else:
                res.append((st, L(("deref", ("refto",) + r[1:]))))
        else:
            res.append((st, r))
        if st.trydepth:
            y = st.copy()
            y.exc = ("exc", "*", r, self.prog.loc(fn, e["l"]))
            res.append((y, VOID))
        return res

    def write_part(self, st, obj, v, cls, base=False):
        """Writes a value of class `cls` over an object that may be of a class derived from it."""
        own = self.whole.get(obj)
        if (base or own is not None) and own != cls and self.prog.classes.get(cls):
            c = self.prog.classes[cls][0]
            for f in c.fields:
                self.write(st, ("fld", obj, f), project(v, f))
            for b in c.bases:
                if b.cls and self.prog.classes.get(b.cls):
                    self.write_part(st, obj, v, b.cls, True)
            return
        self.write(st, obj, v)

    def callback(self, st, lam, fn, e):
        lid = self.fresh()
        lp = Loop(lid, "callback", self.prog.loc(fn, e["l"]))
        g = st.copy()
        g.loops = st.loops + (lid,)
        nev, nf = len(g.ev), len(g.facts)
        f = self.lam_fns[lam[1]]
        args = []
        for i, p in enumerate(f.f["p"]):
            t = f.tu.type(p["t"])
            args.append(L(("cbarg", lid, i)) if t.ref else ("init", ("cbarg", lid, i)))
        for y, v in self.invoke(g, f, lam[3], args, lam[2]):
            lp.paths.append(IterPath(y, "throw" if y.exc is not None else ("return", v), nev, nf, st))
        lp.mod, lp.entry, lp.iterlvs = [], {}, {}
        known = {root(p) for p in st.store} | {root(p) for p in st.env.values()}
        for ip in lp.paths:
            for q, v in ip.S.store.items():
                r = root(q)
                if q not in lp.mod and st.store.get(q) != v and (r in known or r[0] not in ("var", "tmp", "cap")) and \
                        not any(is_sub(q, m) for m in lp.mod) and not any(x[:2] == ("cbarg", lid) for x in walk(q)):
                    lp.mod.append(q)
        self.loops[lid] = lp
        ev = self.event(st, "loop", fn, e["l"])
        ev.loop = lp
        ev.extra = "callback"
        for q in lp.mod:        # changed any number of times
            self.write(st, q, ("mut", "callback", self.read(st, q), lam))

    # ---- models of the standard library -----------------------------------
    def model(self, st, d, obj, vs, e, fn):
        qn, name, cls = d.qn, d.name, d.cls or ""
        V = lambda i: self.val(st, vs[i])
        one = lambda v: [(st, v)]
        if qn in ("std::move", "std::forward", "std::as_const"):
            if qn == "std::move" and isinstance(vs[0], L):
                if st.moved:
                    self.use_moved(st, vs[0].p)
                self.event(st, "move", fn, e["l"], obj=vs[0].p)
            return one(vs[0])
        if qn in ("std::addressof", "std::__addressof"):
            return one(("addr", self.lv(st, vs[0])))
        if qn in ("std::max", "std::min") and len(vs) == 2 and not (vs[0] is None):
            a, b = V(0), V(1)
            if is_int(a) and is_int(b):
                return one(I(max(a[1], b[1]) if name == "max" else min(a[1], b[1])))
            return one((name,) + tuple(sorted((a, b), key=key)) if a != b else a)
        if qn in ("std::max", "std::min") and len(vs) == 1:
            a = V(0)
            if a[0] == "list" and len(a) == 3:
                return one((name,) + tuple(sorted(a[1:], key=key)))
        if qn in ("std::tie", "std::forward_as_tuple", "std::make_tuple"):
            return one(("tuple",) + tuple(V(i) for i in range(len(vs))))
        if qn == "std::make_pair":
            return one(("pair", V(0), V(1)))
        if qn in ("std::make_shared", "std::make_unique"):
            p = ("heap", self.fresh(), d.ret.args[0].cls if d.ret.args else None)
            vals = [self.val(st, v) for v in vs]
            target = self.ctor_by_arity(d.ret.args[0].cls if d.ret.args else None, vs)
            if target is not None and not self.primitive(target.decl) and target.decl.usr not in st.stack and self.depth < self.MAX_DEPTH:
                states = [(st, list(vs))]
                for q in target.f["p"][len(vs):]:
                    states = [(y, have + [v]) for x, have in states for y, v in self.ev(q["def"], x, target)]
                return [(y, ("addr", p) if y.exc is None else VOID) for x, have in states for y, _ in self.invoke(x, target, p, have)]
            if len(vals) == 1 and isinstance(vs[0], L):
                st.store[p] = vals[0]
            else:
                st.store[p] = ("new", d.ret.args[0].cls if d.ret.args else "?") + tuple(vals)
            self.event(st, "construct", fn, e["l"], qn=d.ret.args[0].cls if d.ret.args else None, args=vals,
                       lvs=[v.p if isinstance(v, L) else None for v in vs], obj=p, extra=qn)
            return one(("addr", p))
        if qn in ("std::swap",) and all(isinstance(v, L) for v in vs):
            a, b = V(0), V(1)
            self.event(st, "call", fn, e["l"], qn=qn, decl=d, args=[a, b], lvs=[v.p for v in vs])
            self.write(st, vs[0].p, b)
            self.write(st, vs[1].p, a)
            return one(VOID)
        if qn == "std::exchange" and isinstance(vs[0], L):
            old = V(0)
            self.store_ev(st, vs[0].p, V(1), fn, e["l"])
            return one(old)
        if qn in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::rbegin", "std::rend", "std::size",
                  "std::empty"):
            return self.container(st, d, self.lv(st, vs[0]), [], e, fn, name)
        if qn in ("std::next", "std::prev"):
            n = V(1) if len(vs) > 1 else I(1)
            return one(self.arith("+" if name == "next" else "-", V(0), n))
        if qn == "std::distance":
            return one(self.itdiff(st, V(1), V(0)))
        if qn in ("std::lower_bound", "std::upper_bound", "std::find", "std::binary_search", "std::count",
                  "std::equal_range") and len(vs) == 3:
            c = self.full_range(st, V(0), V(1))
            if c is not None:
                cv, x = self.read(st, c), V(2)
                self.event(st, "search", fn, e["l"], qn=qn, decl=d, obj=c, objv=cv, args=[x])
                if name == "binary_search":
                    return one(("bsearch", cv, x))
                if name == "count":
                    return one(("count", cv, x))
                if name == "equal_range":
                    return one(("pair", ("itr", c, ("lower_bound", cv, x), I(0)), ("itr", c, ("upper_bound", cv, x), I(0))))
                return one(("itr", c, ("stdfind" if name == "find" else name, cv, x), I(0)))
            a, b = V(0), V(1)
            if a[0] == "itr" == b[0] and a[1] == b[1] and name in ("lower_bound", "upper_bound", "find"):
                cv, x = self.read(st, a[1]), V(2)
                self.event(st, "search", fn, e["l"], qn=qn, decl=d, obj=a[1], objv=cv, args=[x], extra=(a, b))
                return one(("itr", a[1], ("bound_in", cv, name, a, b, x), I(0)))
        if qn == "std::equal" and len(vs) in (3, 4):
            a = self.full_range(st, V(0), V(1))
            if len(vs) == 4:
                b = self.full_range(st, V(2), V(3))
                if a is not None and b is not None:
                    return one(eq(self.read(st, a), self.read(st, b)))
            elif a is not None and V(2)[0] == "itr" and V(2)[2] == "begin" and V(2)[3] == I(0):
                return one(("prefix", self.read(st, a), self.read(st, V(2)[1])))
        if qn == "std::lexicographical_compare" and len(vs) == 4:
            a, b = self.full_range(st, V(0), V(1)), self.full_range(st, V(2), V(3))
            if a is not None and b is not None:
                return one(("call", "operator<", self.read(st, a), self.read(st, b)))
        if qn in ("std::sort", "std::stable_sort", "std::unique", "std::reverse") and len(vs) == 2:
            c = self.full_range(st, V(0), V(1))
            if c is not None:
                cv = self.read(st, c)
                nm = "sorted" if "sort" in name else name
                self.event(st, "call", fn, e["l"], qn=qn, decl=d, obj=c, objv=cv, args=[])
                self.write(st, c, ("mut", nm, cv))
                return one(("itr", c, ("unique_end", cv), I(0)) if name == "unique" else VOID)
        if qn == "std::replace" and len(vs) == 4:
            c = self.full_range(st, V(0), V(1))
            if c is not None:
                cv = self.read(st, c)
                self.event(st, "call", fn, e["l"], qn=qn, decl=d, obj=c, objv=cv, args=[V(2), V(3)])
                self.write(st, c, ("mut", "replaced", cv, V(2), V(3)))
                return one(VOID)
        if qn in ("std::all_of", "std::any_of", "std::none_of", "std::find_if", "std::for_each", "std::count_if"):
            return self.algorithm(st, d, vs, e, fn)
        # Comparison operators on library types.
        if d.op in ("==", "!=", "<", ">", "<=", ">=") and (len(vs) + (obj is not None)) == 2:
            a = self.read(st, obj) if obj is not None else V(0)
            b = V(0) if obj is not None else V(1)
            return one(self.libcmp(st, d, a, b))
        if obj is not None:
            if cls in SMART or cls.startswith("std::__shared_ptr"):
                v = self.read(st, obj)
                if name in ("operator*",):
                    return one(L(self.deref(v)))
                if name in ("operator->", "get"):
                    return one(v)
                if name == "operator bool":
                    return one(neg(eq(v, NULL)))
                if name == "operator=" and vs:
                    self.store_ev(st, obj, V(0), fn, e["l"])
                    return one(L(obj))
                if name == "reset":
                    self.store_ev(st, obj, V(0) if vs else NULL, fn, e["l"])
                    return one(VOID)
            if cls in ("std::optional", "std::_Optional_base_impl", "std::_Optional_base"):
                v = self.read(st, obj)
                if name in ("has_value", "operator bool"):
                    return one(TRUE if v[0] == "some" else FALSE if v == NONE else ("has", v))
                if name in ("operator*", "value", "operator->"):
                    if v[0] == "some":
                        x = v[1]
                    else:
                        self.event(st, "optget", fn, e["l"], qn=qn, obj=obj, objv=v)
                        x = ("optval", v)
                    p = ("fld", obj, "*")
                    if p not in st.store:
                        st.store[p] = x
                    if name == "operator->":
                        return one(("addr", p))
                    return one(L(p))
                if name == "value_or":
                    if v[0] == "some":
                        return one(v[1])
                    if v == NONE:
                        return one(V(0))
                    out = []
                    for x, b in self.branch(st, ("has", v)):
                        out.append((x, ("optval", v) if b else self.val(x, vs[0])))
                    return out
                if name == "operator=":
                    w = V(0)
                    pt = d.ptypes[0].cls
                    if pt == "std::nullopt_t":
                        w = NONE
                    elif pt != "std::optional":
                        w = ("some", w)
                    self.store_ev(st, obj, w, fn, e["l"])
                    return one(L(obj))
            if cls.startswith("std::__weak_ptr") or cls == "std::weak_ptr":
                if name == "lock":
                    return one(self.read(st, obj))
            r = self.container(st, d, obj, vs, e, fn, name)
            if r is not None:
                return r
            r = self.iterator(st, d, obj, vs, e, fn, name)
            if r is not None:
                return r
            if name == "operator=" and d.kind in ("copy=", "move=", None) and len(vs) == 1:
                v = V(0)
                self.store_ev(st, obj, v, fn, e["l"])
                if isinstance(vs[0], L) and d.kind == "move=" and vs[0].p != obj:
                    self.consume(st, vs[0], fn, e["l"])
                return one(L(obj))
            if cls == "std::hash" and name == "operator()":
                # The std::hash specialisation is a pure function of its argument.
                return one(("call", "std::hash", d.ptypes[0].cls or d.ptypes[0].s, V(0)))
            if cls == "std::__cxx11::basic_stringstream" and name == "str":
                return one(("call", qn, self.read(st, obj)))
        else:
            r = self.iterator(st, d, None, vs, e, fn, name)
            if r is not None:
                return r
        return None

    def full_range(self, st, a, b):
        """The container whose whole range [a, b) is, or None."""
        if a[0] == "itr" and b[0] == "itr" and a[1] == b[1] and a[2:] == ("begin", I(0)) and b[2:] == ("end", I(0)):
            return a[1]
        return None

    def libcmp(self, st, d, a, b):
        op = d.op
        t = [x.cls or "" for x in ([] if d.static or not d.cls else [d.tu.type(d.d["ct"])]) + d.ptypes]
        if op in ("==", "!="):
            if "std::optional" in t:
                if NONE in (a, b) or ("new", "std::nullopt_t") in (a, b):
                    o = a if b in (NONE, ("new", "std::nullopt_t")) else b
                    r = neg(("has", o)) if o[0] not in ("some", "none") else (TRUE if o == NONE else FALSE)
                else:
                    r = eq(a, b)
            else:
                r = eq(a, b)
            return r if op == "==" else neg(r)
        if any("iterator" in x for x in t):
            if a[0] == "itr" and b[0] == "itr" and a[1] == b[1] and a[2] == b[2]:
                return self.arith(op, a[3], b[3])
        if op == "<":
            return ("lt", a, b)
        if op == ">":
            return ("lt", b, a)
        if op == "<=":
            return neg(("lt", b, a))
        return neg(("lt", a, b))

    def itdiff(self, st, a, b):
        if a[0] == "itr" and b[0] == "itr" and a[1] == b[1]:
            if a[2] == b[2]:
                return sub(a[3], b[3])
            if a[2] == "end" and b[2] == "begin":
                return sub(add(size_of(self.read(st, a[1])), a[3]), b[3])
        return ("dist", a, b)

    def container(self, st, d, obj, vs, e, fn, name):
        cls = d.cls or ""
        if obj is not None and cls.startswith("Eigen::") and name in ("operator[]", "operator()", "coeff", "coeffRef") and len(vs) == 1:
            i = self.val(st, vs[0])
            self.event(st, "subscript", fn, e["l"], qn=d.qn, decl=d, obj=obj, objv=self.read(st, obj), args=[i])
            return [(st, L(("idx", obj, i)))]
        if obj is not None and cls not in CONTAINERS and not cls.startswith("std::") and d.cls:
            return None
        iscont = cls in CONTAINERS or not d.cls
        if not iscont:
            return None
        V = lambda i: self.val(st, vs[i])
        one = lambda v: [(st, v)]
        b = lambda: self.read(st, obj)
        if name in ("begin", "cbegin"):
            return one(("itr", obj, "begin", I(0)))
        if name in ("end", "cend"):
            return one(("itr", obj, "end", I(0)))
        if name in ("rbegin", "crbegin"):
            return one(("itr", obj, "rbegin", I(0)))
        if name in ("rend", "crend"):
            return one(("itr", obj, "rend", I(0)))
        if name in ("size", "length"):
            return one(size_of(b()))
        if name == "empty":
            return one(eq0(size_of(b())))
        if name in PURE_NOOP:
            return one(VOID)
        if name in ("operator[]", "at"):
            i = V(0)
            if cls in ("std::unordered_map", "std::map"):
                self.event(st, "mapget", fn, e["l"], qn=d.qn, decl=d, obj=obj, objv=b(), args=[i])
                p = ("idx", obj, i)
                if name == "at" and st.trydepth:
                    # The handler is reached when there is no such entry.
                    c = b()
                    for a, v in st.facts:
                        if a == ("member", c, i) and v:
                            return one(L(p))
                    y = st.copy()
                    y.facts = list(y.facts) + [(("member", c, i), False)]
                    y.exc = ("exc", "std::out_of_range", ("call", d.qn, c, i), self.prog.loc(fn, e["l"]))
                    st.facts = list(st.facts) + [(("member", c, i), True)]
                    return [(st, L(p)), (y, VOID)]
                return one(L(p))
            if name == "at":
                self.event(st, "at", fn, e["l"], qn=d.qn, decl=d, obj=obj, objv=b(), args=[i])
            else:
                self.event(st, "subscript", fn, e["l"], qn=d.qn, decl=d, obj=obj, objv=b(), args=[i])
            return one(L(("idx", obj, i)))
        if name in ("front", "top") and cls not in ("std::stack", "std::priority_queue"):
            self.event(st, "front", fn, e["l"], qn=d.qn, decl=d, obj=obj, objv=b(), args=[])
            return one(L(("idx", obj, I(0))))
        if name == "back" and cls not in ("std::queue",):
            self.event(st, "back", fn, e["l"], qn=d.qn, decl=d, obj=obj, objv=b(), args=[])
            return one(L(("idx", obj, sub(size_of(b()), I(1)))))
        if name == "top" or (name in ("front", "back") and cls == "std::queue"):
            self.event(st, "top", fn, e["l"], qn=d.qn, decl=d, obj=obj, objv=b(), args=[])
            return one(L(("idx", obj, ("str", "#top" if name != "back" else "#back"))))
        if name in ("push_back", "emplace_back", "push", "emplace", "pop", "pop_back", "clear", "insert", "erase",
                    "resize", "assign", "swap", "push_front", "emplace_front", "pop_front", "append"):
            vals = [self.val(st, v) for v in vs]
            old = b()
            if name == "swap" and isinstance(vs[0], L):
                self.write(st, obj, vals[0])
                self.write(st, vs[0].p, old)
                return one(VOID)
            if name in ("insert", "assign") and len(vals) >= 2 and cls == "std::vector":
                # A whole container given as a range.
                a, z = vals[-2:]
                if a[0] == z[0] == "itr" and a[1] == z[1] and a[2:] == ("begin", I(0)) and z[2:] == ("end", I(0)) and a[1] != obj:
                    rng = ("range", self.read(st, a[1]))
                    vals = (vals[:-2] + [rng]) if name == "insert" else [rng]
                    if len(vals) == 2 and vals[0] == ("itr", obj, "end", I(0)):
                        name, vals = "append", [rng]
            ev = self.event(st, "call", fn, e["l"], qn=d.qn, decl=d, obj=obj, objv=old, args=vals,
                            lvs=[v.p if isinstance(v, L) else None for v in vs])
            nm = {"push": "push", "emplace_back": "emplace_back"}.get(name, name)
            if name == "emplace_back" and len(vals) == 1:
                nm = "push_back"
            new = ("mut", nm, old) + tuple(vals)
            r = ("ret", d.qn, old) + tuple(vals)
            ev.ret = r
            self.write(st, obj, new)
            if cls in ("std::unordered_map", "std::map", "std::set", "std::unordered_set") and name in ("insert", "emplace"):
                return one(("pair", ("itr", obj, r, I(0)), ("inserted", old) + tuple(vals)))
            if name in ("insert", "erase"):
                return one(("itr", obj, r, I(0)))
            if name in ("emplace_back",):
                return one(L(("idx", obj, size_of(old))))
            return one(VOID)
        if name in ("find", "lower_bound", "upper_bound") and cls in (
                "std::unordered_map", "std::map", "std::set", "std::unordered_set"):
            self.event(st, "call", fn, e["l"], qn=d.qn, decl=d, obj=obj, objv=b(), args=[V(0)])
            return one(("itr", obj, (name, b(), V(0)), I(0)))
        if name in ("count", "contains") and cls in ("std::unordered_map", "std::map", "std::set", "std::unordered_set"):
            self.event(st, "call", fn, e["l"], qn=d.qn, decl=d, obj=obj, objv=b(), args=[V(0)])
            return one(("member", b(), V(0)))
        if name == "operator=":
            v = V(0)
            if v[0] == "agg":
                v = ("list",) + v[2:]
            self.store_ev(st, obj, v, fn, e["l"])
            return one(L(obj))
        if name == "operator+=":
            self.write(st, obj, ("mut", "append", b(), V(0)))
            return one(L(obj))
        if name in ("c_str", "data"):
            return one(("call", d.qn, b()))
        return None

    def iterator(self, st, d, obj, vs, e, fn, name):
        one = lambda v: [(st, v)]
        vals = lambda: ([self.read(st, obj)] if obj is not None else []) + [self.val(st, v) for v in vs]
        if not name.startswith("operator"):
            return None
        a = vals()
        if not a or a[0][0] != "itr":
            if len(a) == 2 and a[1][0] == "itr" and name == "operator+":
                a.reverse()
            else:
                return None
        it = a[0]
        if name in ("operator*", "operator->"):
            p = self.itr_path(st, it)
            return one(L(p) if name == "operator*" else ("addr", p))
        if name == "operator[]":
            p = self.itr_path(st, ("itr", it[1], it[2], add(it[3], a[1])))
            return one(L(p))
        if name in ("operator++", "operator--"):
            new = ("itr", it[1], it[2], add(it[3], I(1 if name == "operator++" else -1)))
            self.store_ev(st, obj, new, fn, e["l"])
            return one(it if vs else L(obj))
        if name in ("operator+", "operator-"):
            if len(a) == 2 and a[1][0] == "itr":
                return one(self.itdiff(st, it, a[1]))
            return one(self.arith(name[-1], it, a[1]))
        if name in ("operator+=", "operator-="):
            new = self.arith(name[-2], it, a[1])
            self.store_ev(st, obj, new, fn, e["l"])
            return one(L(obj))
        return None

    def itr_path(self, st, it):
        c, base, off = it[1], it[2], it[3]
        if base == "begin":
            return ("idx", c, off)
        if base == "end":
            return ("idx", c, add(size_of(self.read(st, c)), off))
        if base == "rbegin":
            return ("idx", c, sub(sub(size_of(self.read(st, c)), I(1)), off))
        if isinstance(base, tuple) and base[0] == "find":
            return ("fld", ("idx", c, ("at", base)), "") if False else ("idx", c, ("found", base[2]))
        return ("idx", c, ("at", base, off) if off != I(0) else ("at", base))

    def algorithm(self, st, d, vs, e, fn):
        """all_of & co.: a loop over the range whose body is the predicate."""
        a, b, lam = self.val(st, vs[0]), self.val(st, vs[1]), self.val(st, vs[2])
        if a[0] != "itr" or lam[0] != "lam" or self.lam_fns.get(lam[1]) is None:
            return None
        cont = a[1]
        cv = self.read(st, cont)
        full = a[2] == "begin" and a[3] == I(0) and b == ("itr", cont, "end", I(0))
        lid = self.fresh()
        name = d.name

        def head(y):
            p, q = y, y.copy()
            p.assume(("more", lid, cv), True)
            q.assume(("more", lid, cv), False)
            return [(p, True), (q, False)]

        def body(y):
            res = []
            for z, v in self.apply_value(y, lam, [L(("idx", cont, ("iter", lid)))], e, fn):
                if z.exc is not None:
                    res.append((z, None))
                    continue
                if name in ("for_each", "count_if"):
                    res.append((z, None))
                    continue
                for w, t in self.branch(z, self.truth(self.val(z, v))):
                    if name == "all_of":
                        res.append((w, None if t else ("alg", FALSE)))
                    elif name == "none_of":
                        res.append((w, ("alg", FALSE) if t else None))
                    elif name == "any_of":
                        res.append((w, ("alg", TRUE) if t else None))
                    else:
                        res.append((w, ("alg", ("itr", cont, "begin", ("iter", lid))) if t else None))
            return res

        out = []
        for x, flow in self.generic(st, name, self.prog.loc(fn, e["l"]), head, body, fn, lid=lid,
                                    over=[cv] if full else [], cont=cont):
            if x.exc is not None:
                out.append((x, VOID))
            elif isinstance(flow, tuple) and flow[0] == "alg":
                out.append((x, flow[1]))
            else:
                out.append((x, {"all_of": TRUE, "none_of": TRUE, "any_of": FALSE}.get(
                    name, b if name == "find_if" else VOID)))
        return out


# --------------------------------------------------------------------------
def decide_lin(facts, atom):
    c, d = lin_parts(atom[1])
    lo, hi, ne = None, None, set()
    if len(d) == 1:
        (k, v), = d.items()
        if v == 1 and (k[0] == "size" or k[0] == "iter" and len(k) == 2):
            lo = 0
    for a, val in facts:
        if a[0] not in ("pos", "eq0"):
            continue
        c2, d2 = lin_parts(a[1])
        sg = None
        if d2 == d:
            sg = 1
        elif {k: -v for k, v in d2.items()} == d:
            sg = -1
        if sg is None:
            continue
        # In terms of x = sum(d): a[1] = sg*x + c2
        if a[0] == "pos":
            if sg == 1:
                if val:
                    lo = max(lo, 1 - c2) if lo is not None else 1 - c2
                else:
                    hi = min(hi, -c2) if hi is not None else -c2
            else:
                if val:      # -x + c2 > 0
                    hi = min(hi, c2 - 1) if hi is not None else c2 - 1
                else:
                    lo = max(lo, c2) if lo is not None else c2
        else:
            v0 = -c2 * sg
            if val:
                lo = hi = v0
            else:
                ne.add(v0)
    while lo is not None and lo in ne:
        lo += 1
    while hi is not None and hi in ne:
        hi -= 1
    if atom[0] == "pos":
        if lo is not None and lo + c > 0:
            return True
        if hi is not None and hi + c <= 0:
            return False
        return None
    v0 = -c
    if v0 in ne:
        return False
    if lo is not None and v0 < lo or hi is not None and v0 > hi:
        return False
    if lo is not None and lo == hi == v0:
        return True
    return None


def all_events(events):
    """Events of a path, descending into the generic iterations of its loops."""
    for e in events:
        yield e
        if e.k == "loop" and e.loop is not None:
            for ip in e.loop.paths:
                for x in all_events(ip.events):
                    yield x


def every_event(paths):
    """Events of the paths and of their loops, each loop visited once."""
    seen = set()
    todo = [iter(p.ev) for p in reversed(paths)]
    while todo:
        for e in todo[-1]:
            if id(e) in seen:
                continue
            seen.add(id(e))
            yield e
            if e.k == "loop" and e.loop is not None and id(e.loop) not in seen:
                seen.add(id(e.loop))
                todo += [iter(ip.events) for ip in reversed(e.loop.paths)]
                break
        else:
            todo.pop()
