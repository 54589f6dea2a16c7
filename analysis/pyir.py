"""Path summaries of Python functions over symbolic values, from the syntax tree.

Values are terms: ('str', parts) with parts literal strings or terms, ('list', items) with items
terms or ('each', sequence, id, item, filters) for one item per element, ('sym', name),
('attr', v, name), ('item', v, i), ('elem', seq, id), ('call', name, args...), ('obj', id, cls),
('bool', b), ('int', n), ('none',), ('lam', ...). Facts are (atom, truth) pairs.
"""
import ast, itertools
from ir import AnalysisError


class Unknown(Exception):
    pass


NONE = ("none",)


def lit(s):
    return ("str", (s,) if s else ())


def strcat(*vs):
    parts = []
    for v in vs:
        for p in (v[1] if v[0] == "str" else (v,)):
            if isinstance(p, str) and parts and isinstance(parts[-1], str):
                parts[-1] += p
            elif p != "":
                parts.append(p)
    return ("str", tuple(parts))


def neg(t):
    if t[0] == "not":
        return t[1]
    if t[0] == "bool":
        return ("bool", not t[1])
    return ("not", t)


class State:
    def __init__(self):
        self.env, self.heap, self.facts, self.events = {}, {}, [], []
        self.inplace = []      # attributes whose list was changed in place
        self.flow = None       # None | ('return', v) | ('raise', v) | 'break' | 'continue'

    def copy(self):
        n = State()
        n.env, n.heap = dict(self.env), {k: dict(v) for k, v in self.heap.items()}
        n.inplace = list(self.inplace)
        n.facts, n.events, n.flow = list(self.facts), list(self.events), self.flow
        return n


class Py:
    def __init__(self, path, text, opaque=()):
        self.path = path
        self.tree = ast.parse(text)
        self.fns, self.classes = {}, {}
        self.opaque = set(opaque)
        self.consts = {}
        self.n = 0
        self.depth = 0
        self.npaths = 0
        self.analysed = set()
        for s in self.tree.body:
            if isinstance(s, ast.FunctionDef):
                self.fns[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
                for m in s.body:
                    if isinstance(m, ast.FunctionDef):
                        self.fns[s.name + "." + m.name] = m
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value

    def fresh(self):
        self.n += 1
        return self.n

    def method(self, cls, name):
        """The definition of a method, looking through bases in this file."""
        c = self.classes.get(cls)
        while c is not None:
            if cls + "." + name in self.fns:
                return self.fns[cls + "." + name]
            b = [x.id for x in c.bases if isinstance(x, ast.Name) and x.id in self.classes]
            cls = b[0] if b else None
            c = self.classes.get(cls)
        return None

    def is_property(self, f):
        return any(isinstance(d, ast.Name) and d.id in ("property", "cached_property") for d in f.decorator_list)

    @staticmethod
    def bound(f, o):
        return [] if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list) else [o]

    # ---- running a function ---------------------------------------------------
    def run(self, name, this=None, st=None):
        """[(State)] of a function entered with symbolic arguments."""
        f = self.fns.get(name)
        if f is None:
            raise AnalysisError("anchor not found: %s in %s" % (name, self.path))
        st = st or State()
        a = f.args
        args = []
        names = [x.arg for x in a.posonlyargs + a.args]
        for i, n in enumerate(names):
            args.append(this if i == 0 and this is not None else ("sym", n))
        kw = {x.arg: ("sym", x.arg) for x in a.kwonlyargs}
        if a.vararg:
            kw["*"] = ("sym", a.vararg.arg)
        out = self.invoke(f, args, kw, st, symbolic=True)
        self.npaths += len(out)
        return out

    def invoke(self, f, args, kw, st, symbolic=False):
        self.analysed.add(f.name)
        if self.depth > 12:
            raise Unknown("call depth")
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = list(args)
        for n in names:
            if rest and not (rest[0][0] == "star"):
                env[n] = rest.pop(0)
            elif n in kw:
                env[n] = kw[n]
        # Defaults.
        ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env[x.arg] = kw[x.arg]
            elif d is not None:
                ds[x.arg] = d
        states = [st]
        for n, d in ds.items():
            if n not in env:
                vs = self.ev(d, st)
                env[n] = vs[0][1]
        if a.vararg:
            env[a.vararg.arg] = kw["*"] if "*" in kw else ("list", tuple(x if x[0] != "star" else ("splice", x[1]) for x in rest))
            rest = []
        missing = [n for n in names + [x.arg for x in a.kwonlyargs] if n not in env]
        if missing or rest:
            raise Unknown("arguments of %s" % f.name)
        saved = st.env
        st.env = env
        self.depth += 1
        outs = self.block(f.body, st)
        self.depth -= 1
        for o in outs:
            if o.flow is None:
                o.flow = ("return", NONE)
            if not symbolic:
                o.env = dict(saved)
            else:
                o.final = o.env
        return outs

    # ---- statements --------------------------------------------------------------
    def block(self, body, st):
        states, done = [st], []
        for s in body:
            nxt = []
            for x in states:
                for y in self.stmt(s, x):
                    (nxt if y.flow is None else done).append(y)
            states = nxt
            if len(states) + len(done) > 256:
                raise Unknown("too many paths")
        return states + done

    def stmt(self, s, st):
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass, ast.Global)):
            return [st]
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return [st]
            return [x for x, _ in self.ev(s.value, st)]
        if isinstance(s, ast.Return):
            if s.value is None:
                st.flow = ("return", NONE)
                return [st]
            out = []
            for x, v in self.ev(s.value, st):
                if x.flow is None:
                    x.flow = ("return", v)
                out.append(x)
            return out
        if isinstance(s, ast.Raise):
            out = []
            for x, v in (self.ev(s.exc, st) if s.exc is not None else [(st, NONE)]):
                if x.flow is None:
                    x.flow = ("raise", v)
                out.append(x)
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [st]
            out = []
            for x, v in self.ev(s.value, st):
                if x.flow is None:
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        self.assign(t, v, x)
                out.append(x)
            return out
        if isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.BinOp(self.as_load(s.target), s.op, s.value), s)
            if isinstance(s.op, ast.Add):
                out = []
                for x, v in self.ev(load, st):
                    if x.flow is None:
                        if isinstance(s.target, ast.Attribute) and v[0] == "list":
                            x.inplace.append((self.ev(self.as_load(s.target.value), x)[0][1], s.target.attr))
                        self.assign(s.target, v, x)
                    out.append(x)
                return out
            raise Unknown("augmented assignment")
        if isinstance(s, ast.If):
            out = []
            for x, b in self.cond(s.test, st):
                out += self.block(s.body if b else s.orelse, x) if x.flow is None else [x]
            return out
        if isinstance(s, ast.For):
            return self.loop(s, st)
        if isinstance(s, ast.Continue):
            st.flow = "continue"
            return [st]
        if isinstance(s, ast.Break):
            st.flow = "break"
            return [st]
        if isinstance(s, ast.FunctionDef):
            st.env[s.name] = ("fn", s)
            return [st]
        if isinstance(s, ast.Assert):
            out = []
            for x, b in self.cond(s.test, st):
                if not b:
                    x.flow = ("raise", ("call", "AssertionError"))
                out.append(x)
            return out
        raise Unknown("statement %s" % type(s).__name__)

    @staticmethod
    def as_load(t):
        t = ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)
        return t

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            for x, o in self.ev(t.value, st)[:1]:
                if o[0] == "obj":
                    x.heap[o][t.attr] = v
                else:
                    x.events.append(("setattr", o, t.attr, v))
                    x.heap.setdefault(o, {})[t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    raise Unknown("starred target")
                self.assign(e, self.item(v, i), st)
        else:
            raise Unknown("assignment target")

    def item(self, v, i):
        if v[0] == "list" and isinstance(i, int) and not any(x[0] in ("each", "splice") for x in v[1]) and -len(v[1]) <= i < len(v[1]):
            return v[1][i]
        return ("item", v, ("int", i) if isinstance(i, int) else i)

    def loop(self, s, st):
        out = []
        for x, seq in self.ev(s.iter, st):
            if seq[0] == "list" and not any(i[0] in ("each", "splice") for i in seq[1]):
                states, done = [x], []
                for it in seq[1]:
                    nxt = []
                    for y in states:
                        self.assign(s.target, it, y)
                        for z in self.block(s.body, y):
                            if z.flow == "continue":
                                z.flow = None
                            (nxt if z.flow is None else done).append(z)
                    states = nxt
                for z in done:
                    if z.flow == "break":
                        z.flow = None
                out += states + done
                continue
            lid = self.fresh()
            # One generic iteration; what it appends happens once per element.
            y = x.copy()
            tracked = self.lists(x)
            for k in tracked:
                ph = ("phi", lid, k)
                self.put(y, k, ph if self.get(x, k)[0] == "list" else ("str", (ph,)))
            self.assign(s.target, ("elem", seq, lid), y)
            base = len(y.facts)
            nev = len(y.events)
            paths = self.block(s.body, y)
            if any(p.flow not in (None, "continue") for p in paths):
                raise Unknown("leaving a loop")
            z = x.copy()
            names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
            changed = set()
            for p in paths:
                for n, v in p.env.items():
                    if n not in names and n in x.env and v not in (y_env(x, n, lid, tracked), ("str", (y_env(x, n, lid, tracked),))):
                        changed.add(("env", n))
                for o, fs in p.heap.items():
                    for f, v in fs.items():
                        if x.heap.get(o, {}).get(f) is not None and v not in ((("phi", lid, ("heap", o, f)), ("str", (("phi", lid, ("heap", o, f)),))) if ("heap", o, f) in tracked else (x.heap[o][f],)):
                            changed.add(("heap", o, f))
                        elif f not in x.heap.get(o, {}) and o in x.heap:
                            raise Unknown("attribute set in a loop")
            for k in changed:
                rows = []
                for p in paths:
                    v = self.get(p, k)
                    items = self.appended(v, ("phi", lid, k))
                    if items is None or k not in tracked:
                        raise Unknown("loop over %s" % (k,))
                    rows.append((tuple(p.facts[base:]), items))
                old = self.get(x, k)
                n = max(len(r[1]) for r in rows)
                new = []
                if len(rows) == 1:
                    new = [("each", seq, lid, rows[0][0], rows[0][1])]
                else:
                    new = [("cases", seq, lid, tuple(rows))]
                if old[0] == "str":
                    self.put(z, k, strcat(old, ("join", lit(""), ("list", tuple(new)))))
                else:
                    self.put(z, k, ("list", old[1] + tuple(new)))
            for p in paths:
                for e in p.events[nev:]:
                    z.events.append(("each", seq, lid, tuple(p.facts[base:]), e))
            out.append(z)
        return out

    def lists(self, st):
        ks = [("env", n) for n, v in st.env.items() if v[0] in ("list", "str")]
        ks += [("heap", o, f) for o, fs in st.heap.items() for f, v in fs.items() if v[0] in ("list", "str")]
        return ks

    def get(self, st, k):
        return st.env.get(k[1]) if k[0] == "env" else st.heap[k[1]].get(k[2])

    def put(self, st, k, v):
        if k[0] == "env":
            st.env[k[1]] = v
        else:
            st.heap[k[1]][k[2]] = v

    def appended(self, v, ph):
        if v == ph:
            return ()
        if v is not None and v[0] == "list" and v[1] and v[1][0] == ("splice", ph):
            return v[1][1:]
        if v is not None and v[0] == "str" and v[1] and v[1][0] == ph:
            return (("str", v[1][1:]),) if v[1][1:] else ()
        return None

    # ---- conditions ------------------------------------------------------------------
    def cond(self, e, st):
        """[(state, truth)]"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            todo, out = [st], []
            for i, v in enumerate(e.values):
                nxt = []
                for x in todo:
                    for y, b in self.cond(v, x):
                        if y.flow is not None or b != isand or i == len(e.values) - 1:
                            out.append((y, b))
                        else:
                            nxt.append(y)
                todo = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.cond(e.operand, st)]
        out = []
        for x, v in self.ev(e, st):
            if x.flow is not None:
                out.append((x, True))
                continue
            out += self.split(x, self.truth(v))
        return out

    def split(self, x, t):
        pol = True
        while t[0] == "not":
            t, pol = t[1], not pol
        if t[0] == "bool":
            return [(x, t[1] == pol)]
        for a, v in x.facts:
            if a == t:
                return [(x, v == pol)]
        y = x.copy()
        x.facts.append((t, True))
        y.facts.append((t, False))
        return [(x, pol), (y, not pol)]

    def truth(self, v):
        k = v[0]
        if k in ("bool", "not", "eq", "isnone", "in", "lt", "isinstance", "startswith", "endswith", "truthy"):
            return v
        if k == "none":
            return ("bool", False)
        if k == "int":
            return ("bool", v[1] != 0)
        if k == "str":
            if any(isinstance(p, str) for p in v[1]):
                return ("bool", True)
            if not v[1]:
                return ("bool", False)
            if len(v[1]) == 1:
                return ("truthy", v[1][0])
        if k == "list" and not any(i[0] in ("each", "splice", "cases") for i in v[1]):
            return ("bool", bool(v[1]))
        if k == "list" and len(v[1]) == 1 and v[1][0][0] == "splice":
            return ("truthy", v[1][0][1])
        if k in ("obj", "lam", "fn"):
            return ("bool", True)
        if k == "len":
            return ("truthy", v[1])
        if k == "call" and v[1] == "re.match":
            return neg(("isnone", v))
        return ("truthy", v)

    # ---- expressions --------------------------------------------------------------------
    def evs(self, es, st):
        out = [(st, ())]
        for e in es:
            nxt = []
            for x, vs in out:
                if isinstance(e, ast.Starred):
                    for y, v in self.ev(e.value, x):
                        if v[0] == "list":
                            nxt.append((y, vs + tuple(v[1])))
                        else:
                            nxt.append((y, vs + (("star", v),)))
                else:
                    for y, v in self.ev(e, x):
                        nxt.append((y, vs + (v,)))
            out = nxt
        return out

    def ev(self, e, st):
        if st.flow is not None:
            return [(st, NONE)]
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unknown("expression %s" % type(e).__name__)
        return m(e, st)

    def ev_Constant(self, e, st):
        v = e.value
        if isinstance(v, str):
            return [(st, lit(v))]
        if isinstance(v, bool):
            return [(st, ("bool", v))]
        if isinstance(v, int):
            return [(st, ("int", v))]
        if v is None:
            return [(st, NONE)]
        raise Unknown("constant")

    def ev_Name(self, e, st):
        if e.id in st.env:
            return [(st, st.env[e.id])]
        if e.id in self.consts:
            return self.ev(self.consts[e.id], st)
        return [(st, ("global", e.id))]

    def ev_JoinedStr(self, e, st):
        out = [(st, lit(""))]
        for p in e.values:
            nxt = []
            for x, acc in out:
                if isinstance(p, ast.Constant):
                    nxt.append((x, strcat(acc, lit(p.value))))
                else:
                    if p.format_spec is not None:
                        raise Unknown("format")
                    for y, v in self.ev(p.value, x):
                        for z, s in self.text(v, y, p.conversion == 114):
                            nxt.append((z, strcat(acc, s)))
            out = nxt
        return out

    def text(self, v, st, rep=False):
        """str(v)"""
        if v[0] == "str":
            if rep:
                return [(st, ("call", "repr", v))]
            return [(st, v)]
        c = self.class_of(v)
        if c:
            f = (None if rep else self.method(c, "__str__")) or self.method(c, "__repr__")
            if f is not None:
                return self.returned(self.invoke(f, [v], {}, st))
        if rep:
            return [(st, ("call", "repr", v))]
        return [(st, ("str", (v,)))]

    def returned(self, outs):
        res = []
        for o in outs:
            if o.flow[0] == "return":
                v = o.flow[1]
                o.flow = None
                res.append((o, v))
            else:
                res.append((o, NONE))
        return res

    elem_class = {}

    def class_of(self, v):
        if v[0] == "obj":
            return v[2]
        if v[0] == "elem":
            return self.elem_class.get(self.seq_root(v[1]))
        return None

    def seq_root(self, s):
        while s[0] in ("sorted", "call", "list", "reversed", "filter"):
            if s[0] == "list" and len(s[1]) == 1 and s[1][0][0] in ("splice",):
                s = s[1][0][1]
            elif s[0] == "list" and s[1] and all(i[0] in ("splice", "each", "cases") for i in s[1]):
                roots = set()
                for i in s[1]:
                    rows = [] if i[0] == "splice" else [i[4]] if i[0] == "each" else [r[1] for r in i[3]]
                    roots.add(self.seq_root(i[1]) if all(r in ((), (("elem", i[1], i[2]),)) for r in rows) else None)
                if len(roots) != 1 or None in roots:
                    break
                s = roots.pop()
            elif s[0] in ("sorted", "reversed"):
                s = s[1]
            elif s[0] == "call" and len(s) == 3:
                s = s[2]
            else:
                break
        return s

    def ev_List(self, e, st):
        return [(x, ("list", tuple(("splice", v[1]) if v[0] == "star" else v for v in vs))) for x, vs in self.evs(e.elts, st)]

    ev_Tuple = ev_List

    def ev_IfExp(self, e, st):
        out = []
        for x, b in self.cond(e.test, st):
            out += self.ev(e.body if b else e.orelse, x)
        return out

    def ev_BoolOp(self, e, st):
        # Value of `a or b`: split on the truth of a.
        out, todo = [], [st]
        for i, v in enumerate(e.values):
            nxt = []
            for x in todo:
                for y, val in self.ev(v, x):
                    if i == len(e.values) - 1:
                        out.append((y, val))
                        continue
                    for z, b in self.split(y, self.truth(val)):
                        if b == isinstance(e.op, ast.Or):
                            out.append((z, val))
                        else:
                            nxt.append(z)
            todo = nxt
        return out

    def ev_UnaryOp(self, e, st):
        out = []
        for x, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((x, neg(self.truth(v))))
            elif isinstance(e.op, ast.USub) and v[0] == "int":
                out.append((x, ("int", -v[1])))
            else:
                raise Unknown("operator")
        return out

    def ev_Compare(self, e, st):
        if len(e.ops) != 1:
            raise Unknown("comparison")
        out = []
        op = e.ops[0]
        for x, (a, b) in self.evs([e.left, e.comparators[0]], st):
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                n = isinstance(op, (ast.IsNot, ast.NotEq))
                if NONE in (a, b):
                    o = b if a == NONE else a
                    t = ("bool", True) if o == NONE else ("bool", False) if o[0] in ("str", "list", "obj", "int") else ("isnone", o)
                elif a == b:
                    t = ("bool", True)
                elif a[0] == b[0] == "str" and all(isinstance(p, str) for p in a[1] + b[1]):
                    t = ("bool", a[1] == b[1])
                elif lit("") in (a, b):
                    t = neg(self.truth(b if a == lit("") else a))
                elif ("int", 0) in (a, b) and "len" in (a[0], b[0]):
                    t = neg(("truthy", (b if a == ("int", 0) else a)[1]))
                else:
                    t = ("eq", a, b) if repr(a) < repr(b) else ("eq", b, a)
                out.append((x, neg(t) if n else t))
            elif isinstance(op, (ast.In, ast.NotIn)):
                t = ("in", a, b)
                out.append((x, neg(t) if isinstance(op, ast.NotIn) else t))
            elif isinstance(op, ast.Gt) and a[0] == "len" and b == ("int", 0):
                out.append((x, ("truthy", a[1])))
            elif isinstance(op, (ast.Lt, ast.Gt)):
                out.append((x, ("lt", a, b) if isinstance(op, ast.Lt) else ("lt", b, a)))
            elif isinstance(op, (ast.LtE, ast.GtE)):
                out.append((x, neg(("lt", b, a) if isinstance(op, ast.LtE) else ("lt", a, b))))
            else:
                raise Unknown("comparison")
        return out

    def ev_BinOp(self, e, st):
        out = []
        for x, (a, b) in self.evs([e.left, e.right], st):
            if isinstance(e.op, ast.Add):
                if a[0] == "list" or b[0] == "list":
                    pa = a[1] if a[0] == "list" else (("splice", a),)
                    pb = b[1] if b[0] == "list" else (("splice", b),)
                    out.append((x, ("list", tuple(pa) + tuple(pb))))
                elif a[0] == "int" and b[0] == "int":
                    out.append((x, ("int", a[1] + b[1])))
                elif a[0] == "str" or b[0] == "str" or any(v[0] == "times" and v[1][0] == "str" for v in (a, b)):
                    out.append((x, strcat(a, b)))
                else:
                    out.append((x, ("add", a, b)))
            elif isinstance(e.op, ast.Sub):
                out.append((x, ("int", a[1] - b[1]) if a[0] == b[0] == "int" else ("sub", a, b)))
            elif isinstance(e.op, ast.Mult):
                out.append((x, ("times", a, b) if a[0] in ("str", "list") else ("times", b, a)))
            elif isinstance(e.op, ast.Mod) and a[0] == "str" and all(isinstance(p, str) for p in a[1]):
                f = "".join(a[1])
                vs = list(b[1]) if b[0] == "list" else [b]
                bits = f.split("%s")
                if "%" in "".join(bits) or len(bits) != len(vs) + 1:
                    raise Unknown("format")
                out += self.interleave(bits, vs, x)
            else:
                raise Unknown("operator")
        return out

    def interleave(self, bits, vs, st):
        outs = [(st, lit(bits[0]))]
        for v, b in zip(vs, bits[1:]):
            nxt = []
            for x, acc in outs:
                for y, s in self.text(v, x):
                    nxt.append((y, strcat(acc, s, lit(b))))
            outs = nxt
        return outs

    def ev_Attribute(self, e, st):
        out = []
        for x, o in self.ev(e.value, st):
            if x.flow is not None:
                out.append((x, NONE))
                continue
            if o in x.heap and e.attr in x.heap[o]:
                out.append((x, x.heap[o][e.attr]))
                continue
            c = self.class_of(o)
            f = self.method(c, e.attr) if c else None
            if f is not None and self.is_property(f):
                if c + "." + e.attr in self.opaque:
                    out.append((x, ("prop", o, e.attr)))
                else:
                    out += self.returned(self.invoke(f, [o], {}, x))
            elif f is not None:
                out.append((x, ("method", o, f.name)))
            elif o == NONE:
                x.flow = ("raise", ("call", "AttributeError"))
                out.append((x, NONE))
            else:
                out.append((x, ("attr", o, e.attr)))
        return out

    def ev_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            out = []
            sl = e.slice
            for x, v in self.ev(e.value, st):
                bs = []
                for b in (sl.lower, sl.upper, sl.step):
                    bs.append(self.ev(b, x)[0][1] if b is not None else NONE)
                if all(b == NONE for b in bs):
                    out.append((x, v))
                else:
                    out.append((x, ("slice", v) + tuple(bs)))
            return out
        out = []
        for x, (v, i) in self.evs([e.value, e.slice], st):
            if v[0] == "call" and v[1] == "re.match":
                out.append((x, ("group", v, i)))
            else:
                out.append((x, self.item(v, i[1]) if i[0] == "int" else ("item", v, i)))
        return out

    def ev_Lambda(self, e, st):
        return [(st, ("lam", e, dict_t(st.env)))]

    def comp(self, e, st):
        if len(e.generators) != 1:
            raise Unknown("comprehension")
        g = e.generators[0]
        out = []
        for x, seq in self.ev(g.iter, st):
            if seq[0] == "list" and not any(i[0] in ("each", "splice", "cases") for i in seq[1]):
                states = [(x, ())]
                for it in seq[1]:
                    nxt = []
                    for y, acc in states:
                        saved = dict(y.env)
                        self.assign(g.target, it, y)
                        conds = [(y, True)]
                        for c in g.ifs:
                            conds = [(w, b and bb) for z, b in conds for w, bb in (self.cond(c, z) if b else [(z, False)])]
                        for z, b in conds:
                            if not b:
                                z.env = dict(saved)
                                nxt.append((z, acc))
                                continue
                            for w, v in self.ev(e.elt, z):
                                w.env = dict(saved)
                                nxt.append((w, acc + (v,)))
                    states = nxt
                out += [(y, ("list", acc)) for y, acc in states]
                continue
            if seq[0] == "list" and len(seq[1]) == 1 and seq[1][0][0] == "splice":
                seq = seq[1][0][1]
            lid = self.fresh()
            y = x.copy()
            self.assign(g.target, ("elem", seq, lid), y)
            n, ne = len(y.facts), len(y.events)
            ys = [(y, True)]
            for c in g.ifs:
                ys = [(w, b and bb) for z, b in ys for w, bb in (self.cond(c, z) if b else [(z, False)])]
            rows = []
            for z, b in ys:
                if not b:
                    rows.append((tuple(z.facts[n:]), ()))
                    continue
                for w, v in self.ev(e.elt, z):
                    if w.flow is not None:
                        raise Unknown("exception in a comprehension")
                    rows.append((tuple(w.facts[n:]), (v,)))
                    for ev in w.events[ne:]:
                        x.events.append(("each", seq, lid, tuple(w.facts[n:]), ev))
            if len(rows) == 1:
                out.append((x, ("list", (("each", seq, lid, rows[0][0], rows[0][1]),))))
            else:
                out.append((x, ("list", (("cases", seq, lid, tuple(rows)),))))
        return out

    ev_ListComp = ev_GeneratorExp = comp

    def apply(self, f, args, st):
        if f[0] == "lam":
            e = f[1]
            saved = st.env
            st.env = dict(f[2])
            for p, a in zip(e.args.args, args):
                st.env[p.arg] = a
            out = self.ev(e.body, st)
            for x, _ in out:
                x.env = dict(saved)
            return out
        if f[0] == "fn":
            return self.returned(self.invoke(f[1], list(args), {}, st))
        if f[0] == "method":
            c = self.class_of(f[1])
            if c + "." + f[2] in self.opaque:
                st.events.append(("call", c + "." + f[2], f[1]) + tuple(args))
                return [(st, ("call", c + "." + f[2], f[1]) + tuple(args))]
            return self.returned(self.invoke(self.method(c, f[2]), self.bound(self.method(c, f[2]), f[1]) + list(args), {}, st))
        if f[0] == "global":
            n = f[1]
            if n in self.opaque:
                return [(st, ("call", n) + tuple(args))]
            if n in self.fns:
                return self.returned(self.invoke(self.fns[n], list(args), {}, st))
            if n == "str":
                return self.text(args[0], st) if args else [(st, lit(""))]
            if n == "repr":
                return self.text(args[0], st, True)
        return [(st, ("apply", f) + tuple(args))]

    def map_over(self, f, seq, st):
        lid = self.fresh()
        if seq[0] == "list":
            if not any(i[0] in ("each", "splice", "cases") for i in seq[1]):
                outs = [(st, ())]
                for it in seq[1]:
                    outs = [(z, acc + (v,)) for y, acc in outs for z, v in self.apply(f, [it], y)]
                return [(y, ("list", acc)) for y, acc in outs]
            if len(seq[1]) == 1 and seq[1][0][0] == "splice":
                seq = seq[1][0][1]
        y = st.copy()
        n, ne = len(y.facts), len(y.events)
        rows = []
        for z, v in self.apply(f, [("elem", seq, lid)], y):
            rows.append((tuple(z.facts[n:]), (v,)))
            for e in z.events[ne:]:
                st.events.append(("each", seq, lid, tuple(z.facts[n:]), e))
        if len(rows) == 1:
            return [(st, ("list", (("each", seq, lid) + rows[0],)))]
        return [(st, ("list", (("cases", seq, lid, tuple(rows)),)))]

    def ev_Call(self, e, st):
        out = []
        f = e.func
        kws = [k for k in e.keywords if k.arg]
        if any(k.arg is None for k in e.keywords):
            raise Unknown("keyword arguments")
        if isinstance(f, ast.Name) and f.id not in st.env:
            n = f.id
            if n == "super":
                raise Unknown("super")
            if n == "sorted":
                return self.sorted_(e.args, kws, st)
            for x, vs in self.evs(e.args, st):
                kv = {}
                for k in kws:
                    r = self.ev(k.value, x)
                    if len(r) != 1:
                        raise Unknown("keyword argument")
                    x, kv[k.arg] = r[0]
                if any(v[0] == "star" for v in vs) and n not in self.fns:
                    raise Unknown("starred arguments")
                out += self.call_name(n, vs, kv, x)
            return out
        if isinstance(f, ast.Attribute):
            # Module functions.
            if isinstance(f.value, ast.Name) and f.value.id == "re" and "re" not in st.env:
                for x, vs in self.evs(e.args, st):
                    out.append((x, ("call", "re." + f.attr) + vs))
                return out
            for x, o in self.ev(f.value, st):
                if x.flow is not None:
                    out.append((x, NONE))
                    continue
                if o[0] == "call" and o[1] == "re.compile" and len(o) == 3:
                    for y, vs in self.evs(e.args, x):
                        out.append((y, ("call", "re." + f.attr, o[2]) + vs))
                    continue
                if f.attr == "sort" and not e.args and isinstance(f.value, (ast.Name, ast.Attribute)):
                    for y, v in self.sorted_([f.value], kws, x):
                        self.assign(ast.parse(ast.unparse(f.value), mode="eval").body, ("list", (("splice", v),)), y)
                        out.append((y, NONE))
                    continue
                for y, vs in self.evs(e.args, x):
                    kv = {}
                    for k in kws:
                        r = self.ev(k.value, y)
                        if len(r) != 1:
                            raise Unknown("keyword argument")
                        y, kv[k.arg] = r[0]
                    out += self.call_method(e, f, o, f.attr, vs, kv, y)
            return out
        for x, fv in self.ev(f, st):
            for y, vs in self.evs(e.args, x):
                out += self.apply(fv, list(vs), y)
        return out

    def sorted_(self, args, kws, st):
        out = []
        for x, vs in self.evs(args, st):
            key = rev = None
            for k in kws:
                (x, v), = self.ev(k.value, x)
                if k.arg == "key":
                    key = v
                elif k.arg == "reverse":
                    rev = v
            seq = vs[0]
            if seq[0] == "list" and len(seq[1]) == 1 and seq[1][0][0] == "splice":
                seq = seq[1][0][1]
            lid = self.fresh()
            kb = ("elem", seq, lid)
            rows = ((), kb)
            if key is not None:
                y = x.copy()
                m = len(y.facts)
                rows = tuple((tuple(z.facts[m:]), v) for z, v in self.apply(key, [kb], y))
            out.append((x, ("sorted", seq, lid, rows, rev)))
        return out

    def call_name(self, n, vs, kv, x):
        if n in self.opaque:
            return [(x, ("call", n) + tuple(vs) + tuple(kv.values()))]
        if n in self.classes:
            o = ("obj", self.fresh(), n)
            x.heap[o] = {}
            f = self.method(n, "__init__")
            if f is None:
                return [(x, o)]
            return [(y, o if y.flow is None else NONE) for y, _ in self.returned(self.invoke(f, [o] + list(vs), kv, x))]
        if n in self.fns:
            return self.returned(self.invoke(self.fns[n], list(vs), kv, x))
        if n in ("list", "tuple", "iter"):
            if not vs:
                return [(x, ("list", ()))]
            v = vs[0]
            return [(x, v if v[0] == "list" else ("list", (("splice", v),)))]
        if n == "map" and len(vs) == 2:
            return self.map_over(vs[0], vs[1], x)
        if n == "str":
            return self.text(vs[0], x) if vs else [(x, lit(""))]
        if n == "repr":
            return self.text(vs[0], x, True)
        if n == "len":
            v = vs[0]
            if v[0] == "list" and not any(i[0] in ("each", "splice", "cases") for i in v[1]):
                return [(x, ("int", len(v[1])))]
            return [(x, ("len", v))]
        if n == "bool":
            return [(x, self.truth(vs[0]))]
        if n == "isinstance":
            v, t = vs
            if v[0] == "str":
                return [(x, ("bool", "str" in repr(t)))] if t in (("global", "str"),) else [(x, ("isinstance", v, t))]
            if v[0] == "list" and t == ("global", "str"):
                return [(x, ("bool", False))]
            return [(x, ("isinstance", v, t))]
        if n == "reversed":
            return [(x, ("reversed", vs[0]))]
        if n == "filter" and len(vs) == 2:
            return [(x, ("filterf",) + tuple(vs))]
        return [(x, ("call", n) + tuple(vs) + tuple(kv.values()))]

    def call_method(self, e, f, o, name, vs, kv, x):
        c = self.class_of(o)
        if c and self.method(c, name) is not None:
            if c + "." + name in self.opaque:
                x.events.append(("call", c + "." + name, o) + tuple(vs))
                return [(x, ("call", c + "." + name, o) + tuple(vs))]
            return self.returned(self.invoke(self.method(c, name), self.bound(self.method(c, name), o) + list(vs), kv, x))
        if name in ("append", "extend", "insert", "clear") and isinstance(f.value, (ast.Name, ast.Attribute)):
            old = o
            if old[0] != "list":
                old = ("list", (("splice", old),))
            if name == "append":
                new = ("list", old[1] + (vs[0],))
            elif name == "extend":
                new = ("list", old[1] + (tuple(vs[0][1]) if vs[0][0] == "list" else (("splice", vs[0]),)))
            elif name == "clear":
                new = ("list", ())
            elif vs[0] == ("int", 0):
                new = ("list", (vs[1],) + old[1])
            else:
                raise Unknown("insert")
            t = ast.parse(ast.unparse(f.value), mode="eval").body
            if isinstance(t, ast.Attribute):
                x.inplace.append((self.ev(t.value, x)[0][1], t.attr))
            self.assign(t, new, x)
            return [(x, NONE)]
        if name == "join":
            v = vs[0]
            sep = o
            if v[0] == "list" and not any(i[0] in ("each", "splice", "cases") for i in v[1]):
                acc = lit("")
                for i, it in enumerate(v[1]):
                    acc = strcat(acc, sep if i else lit(""), it)
                return [(x, acc)]
            return [(x, ("str", (("join", sep, v),)))]
        if name == "format" and o[0] == "str" and not kv:
            bits = "".join(p for p in o[1]).split("{}") if all(isinstance(p, str) for p in o[1]) else None
            if bits is None or any("{" in b for b in bits) or len(bits) != len(vs) + 1:
                raise Unknown("format")
            return self.interleave(bits, list(vs), x)
        if name in ("startswith", "endswith"):
            return [(x, (name, o, vs[0]))]
        if name in ("group",):
            return [(x, ("group", o, vs[0] if vs else ("int", 0)))]
        if name == "groups":
            return [(x, ("groups", o))]
        if name in ("strip", "split", "replace", "partition", "lower", "upper", "find", "rstrip", "lstrip", "index",
                    "rpartition", "rsplit", "title", "capitalize"):
            return [(x, ("meth", name, o) + tuple(vs))]
        if name == "sort" and isinstance(f.value, (ast.Name, ast.Attribute)):
            raise Unknown("sort")
        x.events.append(("call", name, o) + tuple(vs))
        return [(x, ("meth", name, o) + tuple(vs))]


def y_env(x, n, lid, tracked):
    return ("phi", lid, ("env", n)) if ("env", n) in tracked else x.env[n]


def dict_t(d):
    return tuple(sorted(d.items(), key=lambda kv: kv[0]))


def tokens(v):
    """A value printed with whitespace between list items, as PDDL tokens."""
    out = []

    def word(buf):
        if buf:
            out.append(buf[0] if len(buf) == 1 else ("glue",) + tuple(buf))

    def walk_(v):
        if v[0] == "list":
            for i in v[1]:
                walk_(i)
        elif v[0] == "str":
            buf = []
            for p in v[1]:
                if isinstance(p, str):
                    w = ""
                    for c in p:
                        if c in "()" or c.isspace():
                            if w:
                                buf.append(w)
                                w = ""
                            word(buf)
                            buf = []
                            if c in "()":
                                out.append(c)
                        else:
                            w += c
                    if w:
                        buf.append(w)
                elif p[0] == "join" and p[1][0] == "str" and "".join(q for q in p[1][1] if isinstance(q, str)).isspace() and \
                        all(isinstance(q, str) for q in p[1][1]):
                    word(buf)
                    buf = []
                    walk_(("splice", p[2]) if p[2][0] != "list" else p[2])
                else:
                    buf.append(p)
            word(buf)
        elif v[0] == "splice":
            out.append(("all", v[1]))
        elif v[0] == "join":
            out.append(v)
        elif v[0] == "each":
            out.append(("each", v[1], v[2], v[3], tuple(t for i in v[4] for t in tokens(i))))
        elif v[0] == "cases":
            out.append(("cases", v[1], v[2], tuple((f, tuple(t for i in its for t in tokens(i))) for f, its in v[3])))
        else:
            out.append(v)
    walk_(v)
    return out
