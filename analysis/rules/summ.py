"""Abstract evaluation of path summaries over texts, lists and pointer chains.

A summary (the paths of a function, with its loops summarised by one generic iteration) is
interpreted over a small abstract domain:

  * texts are sequences of characters and opaque words: a word has an unknown length of at least
    one and contains no blank, comma or bracket, so lengths and positions are linear forms;
  * collections hold a few opaque members, records opaque attributes;
  * a loop is followed round by round: the iteration path whose facts hold is taken.

A fact or value outside the domain raises Unknown: nothing is decided from it.
"""
import functools

from common import *

M = 1 << 64
NPOS = M - 1


class Unknown(Exception):
    pass


class Raises(Exception):
    """The evaluated code itself fails: an exception of the library, or a bad access."""

    def __init__(self, what, bad=False):
        Exception.__init__(self, what)
        self.what, self.bad = what, bad


# --------------------------------------------------------------------------
WORDLEN = [1]           # the length every word has at least


ADDRESSES = [True, False]       # the order of addresses assumed, and whether it mattered


class Num:
    """c + sum of word lengths."""
    __slots__ = ("c", "k")

    def __init__(self, c, k=()):
        self.c, self.k = c, tuple(sorted((w, n) for w, n in dict(k).items() if n))

    def __eq__(self, o):
        return isinstance(o, Num) and (self.c, self.k) == (o.c, o.k)

    def __hash__(self):
        return hash((self.c, self.k))

    def plus(self, o, s=1):
        d = dict(self.k)
        for w, n in o.k:
            d[w] = d.get(w, 0) + s * n
        c = self.c + s * o.c
        r = Num(c, d)
        if not r.k and r.c >= M:
            r = Num(r.c - M)
        elif r.c >= M:
            r = Num(r.c - M, r.k)
        return r

    def times(self, n):
        return Num(self.c * n, {w: m * n for w, m in self.k})

    def sign(self):
        """1 positive, 0 zero, -1 negative; Unknown otherwise."""
        if not self.k:
            return (self.c > 0) - (self.c < 0)
        if self.c > M // 4:
            return 1
        if self.c < -M // 4:
            return -1
        ns = [n for _, n in self.k]
        if all(n > 0 for n in ns) and self.c + WORDLEN[0] * sum(ns) > 0:
            return 1
        if all(n < 0 for n in ns) and self.c + WORDLEN[0] * sum(ns) < 0:
            return -1
        raise Unknown("the sign of a length is not determined")

    def nonneg(self):
        """Whether it is >= 0."""
        if not self.k:
            return self.c >= 0
        ns = [n for _, n in self.k]
        if all(n > 0 for n in ns) and self.c + WORDLEN[0] * sum(ns) >= 0:
            return True
        return self.sign() >= 0

    def int(self):
        if self.k:
            raise Unknown("an index is not a known number")
        return self.c

    def __repr__(self):
        return "+".join([str(self.c)] + ["%d|%s|" % (n, w) for w, n in self.k])


class Word:
    """An opaque word: unknown length, no blank, comma or bracket."""
    __slots__ = ("id",)

    def __init__(self, id_):
        self.id = id_

    def __eq__(self, o):
        return isinstance(o, Word) and o.id == self.id

    def __hash__(self):
        return hash(("word", self.id))

    def __repr__(self):
        return "<%s>" % self.id


BLANK = " \t\n\v\f\r"
SPECIAL = set(" \t\n\v\f\r(),")


class Text:
    __slots__ = ("s",)

    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, Text):
                out.extend(p.s)
            elif isinstance(p, str):
                out.extend(p)
            else:
                out.append(p)
        self.s = tuple(out)

    def __eq__(self, o):
        return isinstance(o, Text) and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return "".join(c if isinstance(c, str) else repr(c) for c in self.s)

    def size(self):
        d = {}
        n = 0
        for c in self.s:
            if isinstance(c, Word):
                d[c.id] = d.get(c.id, 0) + 1
            else:
                n += 1
        return Num(n, d)

    def bounds(self):
        """The positions between the parts."""
        out, cur = [Num(0)], Num(0)
        for c in self.s:
            cur = cur.plus(Num(0, {c.id: 1}) if isinstance(c, Word) else Num(1))
            out.append(cur)
        return out

    def cut(self, pos):
        """The index of the part a position is at, or (index, 'inside')."""
        if not pos.k and pos.c < 0:
            pos = Num(pos.c + M)
        bs = self.bounds()
        for i, b in enumerate(bs):
            if b == pos:
                return i, False
        if bs[-1].plus(pos, -1).sign() < 0:
            return None, False
        for i in range(len(self.s)):
            if pos.plus(bs[i], -1).sign() > 0 and bs[i + 1].plus(pos, -1).sign() > 0:
                return i, True
        raise Unknown("a position in a text")

    def substr(self, pos, n):
        i, inside = self.cut(pos)
        if i is None:
            raise Raises("std::out_of_range", True)
        if not n.k and n.c < 0:
            n = Num(n.c + M)
        if n.c > M // 4:
            j, jin = len(self.s), False
        else:
            end = pos.plus(n)
            try:
                j, jin = self.cut(end)
            except Unknown:
                if end.nonneg():
                    raise
                j, jin = None, False        # a negative length, as unsigned, is everything
            if j is None:
                j, jin = len(self.s), False
        if not inside and not jin:
            return Text(*self.s[i:max(i, j)])
        # Part of a word: differs from every text made of whole words.
        if inside and jin and i == j:
            return Text(Word("part of %s" % self.s[i].id))
        left = [Word("end of %s" % self.s[i].id)] if inside else []
        mid = self.s[i + 1 if inside else i:j]
        right = [Word("start of %s" % self.s[j].id)] if jin else []
        return Text(*(left + list(mid) + right))

    def find(self, chars, last=False, negate=False, start=None):
        bs = self.bounds()
        idx = range(len(self.s))
        if start is not None and not last and not (not start.k and start.c == 0):
            i, inside = self.cut(start)
            if i is None:
                return Num(NPOS)
            if inside:
                raise Unknown("search starts inside a word")
            idx = range(i, len(self.s))
        elif start is not None and last and start != Num(NPOS):
            i, inside = self.cut(start)
            if inside:
                raise Unknown("search starts inside a word")
            if i is not None:
                idx = range(0, min(i + 1, len(self.s)))
        for i in (reversed(idx) if last else idx):
            c = self.s[i]
            if isinstance(c, Word):
                if not chars <= SPECIAL:
                    raise Unknown("searching a word for a letter")
                if negate:
                    return bs[i + 1].plus(Num(1), -1) if last else bs[i]
                continue
            if (c in chars) != negate:
                return bs[i]
        return Num(NPOS)

    def find_text(self, o, last=False):
        n = len(o.s)
        if n == 0:
            return self.size() if last else Num(0)
        idx = range(len(self.s) - n + 1)
        bs = self.bounds()
        if any(isinstance(c, Word) for c in o.s) or not set(o.s) & SPECIAL:
            if n <= len(self.s) and self.s[:n] == o.s and not last:
                return Num(0)
            if len(self.s) == 1 and len(o.s) == 1 and WORDLEN[0] > 1:
                # Some word is the beginning of another.
                return Num(0)
            raise Unknown("searching for a word")
        for i in (reversed(idx) if last else idx):
            if self.s[i:i + n] == o.s:
                return bs[i]
        if set(o.s) <= SPECIAL:
            return Num(NPOS)
        raise Unknown("searching a word for a text")


class Stream:
    """A string stream: everything written, what is left to read, and its state."""
    __slots__ = ("text", "at", "ok")

    def __init__(self, text, at=0, ok=True):
        self.text, self.at, self.ok = text, at, ok

    def key(self):
        return (self.text, self.at, self.ok)

    def __eq__(self, o):
        return isinstance(o, Stream) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def write(self, v):
        return Stream(Text(self.text, v), self.at, self.ok)

    def word(self):
        """Reads one blank-separated word: (stream, word | None)."""
        s = self.text.s
        i = self.at
        if not self.ok:
            return self, None
        while i < len(s) and s[i] in BLANK if not isinstance(s[i] if i < len(s) else " ", Word) else False:
            i += 1
        if i >= len(s):
            return Stream(self.text, i, False), None
        j = i
        while j < len(s) and (isinstance(s[j], Word) or s[j] not in BLANK):
            j += 1
        return Stream(self.text, j, True), Text(*s[i:j])

    def line(self, delim):
        s = self.text.s
        if not self.ok or self.at >= len(s):
            return Stream(self.text, self.at, False), None
        if delim not in SPECIAL:
            raise Unknown("a line separator that may occur in words")
        j = self.at
        while j < len(s) and s[j] != delim:
            j += 1
        t = Text(*s[self.at:j])
        return Stream(self.text, min(j + 1, len(s)), True), t


class Items:
    """A collection: members in the order of the collection."""
    __slots__ = ("v", "kind")

    def __init__(self, v=(), kind="list"):
        self.v, self.kind = tuple(v), kind

    def __eq__(self, o):
        return isinstance(o, Items) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.v))


class Rec:
    """A record; `what` names it, `f` are its attributes."""

    def __init__(self, what, **f):
        self.what, self.f = what, f

    def __repr__(self):
        return self.what


class Built(Rec):
    """An object whose members were set one by one."""

    def __init__(self, run, t, old=None):
        Rec.__init__(self, "object")
        if isinstance(old, Rec) and old is not NULLP and "heap" not in old.f:
            self.f.update(old.f)
        subs = {}
        for path, val in t[2]:
            if len(path) == 1:
                self.f[path[0]] = run.lazy(val)
            else:
                subs.setdefault(path[0], []).append((path[1:], val))
        for n, xs in subs.items():
            self.f[n] = Built(run, ("with", ("none",), tuple(xs)), self.f.get(n))


class Made:
    """A constructed value: the evaluated arguments."""
    __slots__ = ("cls", "args")

    def __init__(self, cls, args):
        self.cls, self.args = cls, tuple(args)

    def __eq__(self, o):
        return isinstance(o, Made) and o.args == self.args and (self.cls is None or o.cls is None or o.cls == self.cls)

    def __hash__(self):
        return hash(self.args)

    def __repr__(self):
        return "%s%r" % (self.cls or "", self.args)


class It:
    """A position in a collection."""

    def __init__(self, v, pos, rev=False):
        self.v, self.pos, self.rev = v, pos, rev

    def __repr__(self):
        return "position %d" % self.pos


class Cmp:
    """The result of comparing two different texts."""


class Opaque:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.t == self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "?"


SEARCH = ("lower_bound", "upper_bound", "stdfind", "bound_in")
NULLP = Rec("null")
DEFAULT = Rec("a value just created by operator[]")
LEFTOVER = Rec("what std::unique leaves behind the end")


class Out:
    def __init__(self, kind, value, path, run):
        self.kind, self.value, self.path, self.run = kind, value, path, run

    def store(self, lv):
        """The value a place holds at the end, or None when it was not written."""
        t = self.path.S.store.get(lv)
        return None if t is None else self.run.eval(t)


# --------------------------------------------------------------------------
def last(qn):
    return qn.split("::")[-1] if "operator" not in qn else "operator" + qn.rsplit("operator", 1)[1]


def strcls(qn):
    return "basic_string<" in qn or "basic_string::" in qn or "std::string" in qn


_events = {}        # id of a list of paths -> the list, its loops and its ordered sets


class Run:
    """One evaluation of a summary for one abstract input.

    hook(run, term): the value of a term the domain does not define, NotImplemented otherwise.
    field(run, record, name): the value of a field of a record.
    """
    LIMIT = 40

    def __init__(self, paths, hook, field=None, order=None, world=None):
        self.paths = paths
        self.world = world
        self.hook = hook
        self.field = field
        self.sort = order
        self.cur = {}
        self.memo = {}
        self.keep = []
        self.heap = {}
        self.top = None
        seen = _events.get(id(paths))
        if seen is None:
            loops, ordered = {}, set()
            for e in every_event(paths):
                if e.k == "loop":
                    loops.setdefault(e.loop.id, e.loop)
                if e.k == "call" and str(getattr(e, "qn", "")).startswith(("std::set<", "std::set::")) and \
                        getattr(e, "obj", None) is not None:
                    ordered.add(e.obj)
            seen = _events[id(paths)] = (paths, loops, ordered, {})
        self.loops, self.ordered, self.stored = seen[1:]
        self.busy = set()
        self.recent = []

    # ---- top level -------------------------------------------------------
    def run(self):
        unknown = None
        hits = []
        for p in self.paths:
            self.reset()
            try:
                if not self.matches(p):
                    continue
                v = p.value.p if isinstance(p.value, L) else p.value
                hits.append((p, v))
            except Unknown as e:
                if os.environ.get("VERIF_DEBUG") == "2":
                    traceback.print_exc()
                unknown = unknown or e
            except Raises as e:
                # Raised on the way: the facts before it hold.
                hits.append((p, e))
        if unknown is not None:
            raise unknown
        rs = [h for h in hits if isinstance(h[1], Raises)]
        if rs:
            return Out("bad" if rs[0][1].bad else "throw", rs[0][1].what, rs[0][0], self)
        if len(hits) != 1:
            raise Unknown("%d paths match" % len(hits))
        p, v = hits[0]
        self.reset()
        self.matches(p)
        try:
            if p.kind == "throw":
                return Out("throw", v, p, self)
            if v is None or v[0] == "void":
                return Out("return", None, p, self)
            if isinstance(p.value, L):
                val = self.eval(p.S.store[v]) if v in p.S.store else self.place(v)
            else:
                val = self.eval(v)
            return Out("return", val, p, self)
        except Raises as e:
            return Out("bad" if e.bad else "throw", e.what, p, self)

    def reset(self):
        self.cur = {}
        self.memo = {}
        self.heap = {}

    def matches(self, p):
        """Whether the facts and loop exits of a path hold."""
        self.top = p
        todo = []
        for e in p.ev:
            if e.k == "loop":
                todo.append((e.nf if e.extra == "exit" else e.nf, e))
        facts = list(p.facts)
        done = set()
        for i in range(len(facts) + 1):
            for nf, e in todo:
                if nf is not None and nf <= i and id(e) not in done:
                    done.add(id(e))
                    if not self.left(e, p):
                        return False
            if i < len(facts):
                a, v = facts[i]
                if self.truth(a) != v:
                    return False
        for nf, e in todo:
            if id(e) not in done and not self.left(e, p):
                return False
        return self.thrown(p.ev)

    def thrown(self, events):
        """Whether every exception these events handle is one that is raised."""
        for e in events:
            if e.k == "catch" and e.args and e.args[0][0] == "exc" and e.args[0][1] == "*":
                try:
                    self.eval(e.args[0][2])
                    return False
                except Raises as x:
                    if x.bad:
                        raise
        return True

    def left(self, e, p):
        if e.loop.kind == "callback" and not e.loop.mod and all(q.flow and q.flow[0] == 'return' for q in e.loop.paths):
            return True         # a function handed to another one, without effects
        c = self.loop(e.loop.id)
        exit_ = c["how"] is None
        return exit_ == (e.extra == "exit")

    # ---- loops -----------------------------------------------------------
    def loop(self, lid):
        c = self.cur.get(lid)
        if c is not None:
            return c
        lp = self.loops.get(lid)
        if lp is None:
            raise Unknown("loop %s" % lid)
        own = [q for q in lp.init if ("iter", lid) in walk(q)]      # a place of the element of the round
        was, self.recent = self.recent, [lp]
        try:
            phi = {q: Opaque(lp.init[q]) if q[0] in ("deref", "heap") or q in own else self.lazy(lp.init[q]) for q in lp.init}
        finally:
            self.recent = was
        for q in phi:
            if q in self.ordered and isinstance(phi[q], Items):
                phi[q] = Items(self.in_order(phi[q].v), "sorted")
        c = {"k": 0, "phi": phi, "how": None, "active": True, "lp": lp, "it": self.start(lp), "hist": {q: [] for q in own}}
        self.cur[lid] = c
        outer = set(self.cur)
        for _ in range(self.LIMIT):
            self.memo = {}
            hit = c["hit"] = None
            for q in own:
                try:
                    phi[q] = self.lazy(lp.init[q])
                except Raises:
                    phi[q] = Opaque(lp.init[q])
            self.memo = {}
            for ip in lp.paths:
                # Inner loops are evaluated afresh for every path.
                ok = True
                for a, v in ip.facts:
                    if self.truth(a) != v:
                        ok = False
                        break
                if ok and not self.thrown(ip.events):
                    ok = False
                if ok and any(e.k == "loop" and (self.loop(e.loop.id)["how"] is None) != (e.extra == "exit")
                              for e in ip.events):
                    ok = False
                if ok:
                    if hit is not None:
                        raise Unknown("two iteration paths match")
                    hit = ip
            if hit is None:
                c["active"] = False
                self.memo = {}
                return c
            if hit.flow is not None:
                c["how"] = hit
                c["active"] = False
                self.memo = {}
                return c
            new = {}
            c["hit"] = hit
            for q in phi:
                t = hit.S.store.get(q, ("phi", lid, q))
                if q[0] == "heap":
                    continue
                new[q] = self.lazy(t) if q[0] == "deref" else self.eval(t)
            for q in [q for q in hit.S.store if q[0] == "deref" and hit.S.store[q][0] != "phi"]:
                # What a pointer refers to is replaced.
                v = self.lazy(q[1])
                if isinstance(v, Rec) and "heap" in v.f:
                    v.f["heap"] = self.eval(hit.S.store[q])
            for q in own:
                c["hist"][q].append((self.num(("iter", lid)).int(), new[q]))
            c["phi"] = phi = new
            c["k"] += 1
            c["it"] = None if c["it"] is None else (c["it"] - 1 if lp.dir == "desc" else c["it"] + 1)
            for k in [k for k in self.cur if k not in outer]:
                del self.cur[k]
        raise Unknown("a loop does not end within %d rounds" % self.LIMIT)

    def lazy(self, t):
        try:
            return self.eval(t)
        except Unknown as e:
            if os.environ.get("VERIF_DEBUG") == "2":
                print("opaque:", e, show(t)[:200])
            return Opaque(t)

    def start(self, lp):
        if lp.dir == "desc":
            try:
                return self.num(lp.hi).int() - 1
            except Unknown:
                return None
        if any(v[0] == "itr" for v in (lp.iterlvs or {}).values()) or not lp.iterlvs:
            return 0
        try:
            return self.num(lp.lo).int() if lp.lo is not None else 0
        except Unknown:
            return None

    # ---- places ----------------------------------------------------------
    def place(self, lv):
        """The value a place holds before the code runs."""
        r = self.hook(self, ("init", lv))
        if r is not NotImplemented:
            return r
        if lv[0] == "fld":
            return self.get(self.place(lv[1]), lv[2])
        if lv[0] == "idx":
            return self.index(self.place(lv[1]), lv[2])
        if lv[0] == "deref":
            return self.target(self.eval(lv[1]))
        if lv[0] == "base":
            return self.place(lv[1])
        if lv[0] == "val":
            return self.eval(lv[1])
        if lv[0] in ("tmp", "var"):
            return self.local(lv)
        raise Unknown("a place: %s" % show(lv)[:60])

    def local(self, lv):
        """The value of a local that is written once."""
        t = self.top.S.store.get(lv) if self.top is not None else None
        b = t
        while b is not None and b[0] == "mut" and last(b[1].split("#")[0]) in ("push_back", "emplace_back"):
            b = b[2]                    # the round that leaves the loop may add to it
        if b is not None and b[0] == "phi" and b[2] == lv and b[1] in self.loops and \
                not (b[1] in self.cur and self.cur[b[1]]["active"]) and \
                not any(c["active"] and lv in c["lp"].mod for c in self.cur.values()):
            return self.eval(t)         # what the loop that builds it left
        mod, vals = self.written(lv, True)
        if mod:
            raise Unknown("a local that changes: %s" % show(lv)[:80])
        if len(vals) != 1:
            raise Unknown("a local: %s" % show(lv)[:60])
        return self.eval(next(iter(vals)))

    def written(self, lv, inside):
        """Whether a loop changes a place, and what the paths (and rounds) leave in it."""
        r = self.stored.get((lv, inside))
        if r is None:
            ps = list(self.paths)
            if inside:
                ps += [p for lp in self.loops.values() for p in lp.paths]
            r = self.stored[(lv, inside)] = (any(lv in lp.mod for lp in self.loops.values()),
                                             {p.S.store[lv] for p in ps if lv in p.S.store})
        return r

    def position(self, t):
        """The value of an iterator term."""
        v = self.holder(t[1], t[3])
        if not isinstance(v, (Items, Text)):
            raise Unknown("a position")
        if isinstance(v, Text) and any(isinstance(c, Word) for c in v.s):
            raise Unknown("a position in a text")
        n = len(v.v if isinstance(v, Items) else v.s)
        k, off = t[2], self.num(t[3]).int()
        if isinstance(k, tuple) and k[0] in ("phi", "init"):
            i = self.eval(k)
            if not isinstance(i, It) or i.v != v:
                raise Unknown("a position in a collection that changed")
            return It(v, i.pos + off, i.rev)
        if isinstance(k, tuple) and k[0] in SEARCH and isinstance(v, Items):
            if self.eval(k[1]) != v:
                raise Unknown("a position in a collection that changed")
            return It(v, self.bound(v, k) + off)
        base = {"begin": off, "end": n + off, "rbegin": n - 1 - off, "rend": -1 - off}
        if isinstance(k, tuple) and k[0] == "find" and isinstance(v, Items) and len(k) == 3:
            return It(v, self.found(v, self.eval(k[2])) + off)
        if k not in base:
            raise Unknown("a position")
        return It(v, base[k], k[0] == "r")

    def bound(self, v, k):
        """The index a search yields: (algorithm, collection, value) or ("bound_in", collection, algorithm, from, to, value)."""
        nm, i, j, x = k[0], 0, len(v.v), k[-1]
        if nm == "bound_in":
            nm = k[2]
            i, j = (self.place_in(v, y) for y in k[3:5])
            if not 0 <= i <= len(v.v) or not 0 <= j <= len(v.v):
                raise Raises("a search from %d to %d in a list of %d" % (i, j, len(v.v)), True)
            if i > j:
                raise Raises("a search in a range that ends before it starts", True)
        x = self.eval(x)
        if nm in ("stdfind", "find"):
            while i < j and not self.same(v.v[i], x):
                i += 1
            return i
        while i < j:
            m = (i + j) // 2
            if self.order(v.v[m], x) if nm == "lower_bound" else not self.order(x, v.v[m]):
                i = m + 1
            else:
                j = m
        return i

    def place_in(self, v, t):
        """The index an iterator into the collection v has."""
        k, off = t[2], self.num(t[3]).int()
        if isinstance(k, tuple):
            if k[0] == "find" and self.eval(k[1]) == v:
                return self.found(v, self.eval(k[2])) + off
            if k[0] not in SEARCH or self.eval(k[1]) != v:
                raise Unknown("a position")
            return self.bound(v, k) + off
        if k not in ("begin", "end"):
            raise Unknown("a position")
        return off if k == "begin" else len(v.v) + off

    def found(self, v, x):
        for i, y in enumerate(v.v):
            if self.same(y[0] if v.kind == "map" else y, x):
                return i
        return len(v.v)

    def holder(self, lv, off=I(0)):
        """The collection an iterator refers to."""
        inner = [c for c in self.cur.values() if c["active"]]
        if not inner:
            inner = [{"lp": self.loops[x[1]]} for x in walk(off) if x[0] == "iter" and len(x) == 2 and x[1] in self.loops][:1]
        if not inner and len(self.recent) == 1:
            inner = [{"lp": self.recent[0]}]
        if inner:
            lp = inner[-1]["lp"]
            t = getattr(lp, "before", {}).get(lv)
            if t is not None and not any(lv == q or is_sub(q, lv) or is_sub(lv, q) for q in lp.mod):
                return self.eval(t)         # as it was when the loop started, and stays
            if t is None and not any(lv == q or is_sub(q, lv) or is_sub(lv, q) for c in inner for q in c["lp"].mod) and \
                    not any(lv in c["lp"].before for c in inner):
                return self.place(lv)
        mod, vals = self.written(lv, False)
        if mod:
            raise Unknown("a collection that changes")
        if not vals:
            return self.place(lv)
        if len(vals) > 1:
            raise Unknown("a collection that changes")
        if lv in self.busy:
            return self.place(lv)       # a position within the value that replaces it
        self.busy.add(lv)
        try:
            return self.eval(next(iter(vals)))
        finally:
            self.busy.discard(lv)

    def allocated(self, lv):
        """The object an allocation yields: one for every round of the loops it is in."""
        for lid in reversed(list(self.cur)):
            c = self.cur[lid]
            if not c["active"] or c.get("hit") is None:
                continue
            t = c["hit"].S.store.get(lv)
            if t is not None and t != ("phi", lid, lv):
                k = (lv, tuple((i, x["k"]) for i, x in self.cur.items() if x["active"]))
                if k not in self.heap:
                    self.heap[k] = Rec("allocated", heap=None)
                    self.heap[k].f["heap"] = self.eval(t)
                return self.heap[k]
        t = self.top.S.store.get(lv) if self.top is not None else None
        if t is None and self.top is not None and not self.loops:
            t = final(self.top, lv)     # set member by member
            if t == ("init", lv):
                t = None
        if t is None or t[0] == "phi":
            raise Unknown("an allocation")
        if lv not in self.heap:
            self.heap[lv] = Rec("allocated", heap=None)
            self.heap[lv].f["heap"] = self.eval(t)
        return self.heap[lv]

    def target(self, v):
        if isinstance(v, Rec) and "heap" in v.f:
            return v.f["heap"]
        if isinstance(v, It):
            xs = v.v.v if isinstance(v.v, Items) else v.v.s
            if not 0 <= v.pos < len(xs):
                raise Raises("element %d of %d" % (v.pos, len(xs)), True)
            return xs[v.pos] if isinstance(v.v, Items) else Text(xs[v.pos])
        if v is NULLP:
            raise Raises("null pointer access", True)
        if isinstance(v, Opaque):
            raise Unknown("a pointer")
        return v

    def get(self, v, name):
        if v is NULLP:
            raise Raises("null pointer access", True)
        if isinstance(v, tuple) and name in ("first", "second"):
            return v[0 if name == "first" else 1]
        if self.field is not None:
            r = self.field(self, v, name)
            if r is not NotImplemented:
                return r
        if isinstance(v, Rec) and name in v.f:
            if isinstance(v.f[name], Opaque):
                raise Unknown("field %s" % name)
            return v.f[name]
        raise Unknown("field %s" % name)

    def index(self, v, ix):
        if ix[0] == "at" and isinstance(v, Items):
            # The element an iterator refers to: ("at", base[, offset]).
            b = ix[1]
            n = self.num(ix[2]).int() if len(ix) > 2 else 0
            if isinstance(b, tuple) and b[0] in ("phi", "init"):
                i = self.eval(b)
                if not isinstance(i, It) or i.v != v:
                    raise Unknown("a position in a collection that changed")
                n += i.pos
            elif isinstance(b, tuple):
                if self.eval(b[1]) != v:
                    raise Unknown("a position in a collection that changed")
                n += self.bound(v, b)
            elif b in ("begin", "end"):
                n += len(v.v) if b == "end" else 0
            else:
                raise Unknown("a position")
            if not 0 <= n < len(v.v):
                raise Raises("element %d of %d" % (n, len(v.v)), True)
            return v.v[n]
        if ix[0] == "found" and isinstance(v, Items):
            # What find() yields: the entry, or the end.
            n = self.found(v, self.eval(ix[1]))
            if n == len(v.v):
                raise Raises("the entry find() yields is read although there is none", True)
            return v.v[n]
        i = self.eval(ix)
        if isinstance(v, Items) and isinstance(i, Num) and v.kind != "map":
            n = i.int()
            if not 0 <= n < len(v.v):
                raise Raises("element %d of %d" % (n, len(v.v)), True)
            return v.v[n]
        if isinstance(v, Text) and isinstance(i, Num):
            k, inside = v.cut(i)
            if k is None or k >= len(v.s):
                raise Raises("character %r of %r" % (i, v), True)
            if inside or isinstance(v.s[k], Word):
                raise Unknown("a letter of a word")
            return Text(v.s[k])
        if isinstance(v, Items) and (v.kind == "map" or not v.v):
            for a, b in v.v:
                if self.same(a, i):
                    return b
            return DEFAULT          # operator[] makes one; at() has thrown by now
        raise Unknown("an element")

    # ---- terms -----------------------------------------------------------
    def eval(self, t):
        k = id(t)
        if k in self.memo:
            return self.memo[k]
        r = self.hook(self, t)
        if r is NotImplemented:
            r = self.ev(t)
        self.memo[k] = r
        self.keep.append(t)
        return r

    def num(self, t):
        v = self.eval(t)
        if isinstance(v, bool):
            return Num(int(v))
        if v is DEFAULT or isinstance(v, Made) and v.cls is None and not v.args:
            return Num(0)       # value-initialised
        if isinstance(v, Rec):
            # The order of addresses is arbitrary.
            ADDRESSES[1] = True
            return Num(0 if v is NULLP else id(v) if ADDRESSES[0] else M // 8 - id(v))
        if isinstance(v, Text) and len(v.s) == 1 and not isinstance(v.s[0], Word):
            return Num(ord(v.s[0]))
        if not isinstance(v, Num):
            raise Unknown("a number: %s" % show(t)[:60])
        return v

    def text(self, t):
        v = self.eval(t)
        if not isinstance(v, Text):
            raise Unknown("a text: %s" % show(t)[:60])
        return v

    def truth(self, t):
        v = self.eval(t)
        if isinstance(v, bool):
            return v
        if isinstance(v, Num):
            return v.sign() != 0
        raise Unknown("a condition: %s" % show(t)[:80])

    def same(self, a, b):
        if self.world is not None and self.world.equal is not None:
            r = self.world.equal(a, b)
            if r is not None:
                return r
        if isinstance(a, Num) and isinstance(b, Num):
            return a.plus(b, -1).sign() == 0
        if isinstance(a, Items) and not a.v and isinstance(b, Text):
            a = Text()              # a default text
        if isinstance(b, Items) and not b.v and isinstance(a, Text):
            b = Text()
        if isinstance(a, Text) and isinstance(b, Text):
            if a == b:
                return True
            # Whole words differ from one another; a word may equal a constant text.
            wa, wb = [x for x in a.s if isinstance(x, Word)], [x for x in b.s if isinstance(x, Word)]
            if not wa and not wb:
                return False
            if len(a.s) == len(b.s) == 1 and wa and wb:
                return False
            if len(a.s) == 1 and wa or len(b.s) == 1 and wb:
                o = b if len(a.s) == 1 and wa else a
                if all(isinstance(c, Word) or c not in SPECIAL for c in o.s) and any(isinstance(c, Word) for c in o.s):
                    raise Unknown("whether two texts are the same")
                return False     # words stand for names no constant of the code equals
            if wa and wb:
                ka = [c for c in a.s if not isinstance(c, Word) and c in SPECIAL]
                kb = [c for c in b.s if not isinstance(c, Word) and c in SPECIAL]
                if ka != kb:
                    return False
            raise Unknown("whether two texts are the same")
        if isinstance(a, Rec) or isinstance(b, Rec):
            if isinstance(a, Rec) and isinstance(b, Rec):
                return a is b
        if isinstance(a, Items) and isinstance(b, Items):
            return len(a.v) == len(b.v) and all(self.same(x, y) for x, y in zip(a.v, b.v))
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, It) and isinstance(b, It) and a.v == b.v and a.rev == b.rev:
            return a.pos == b.pos
        if isinstance(a, (Opaque, Made)) and a == b:
            return True
        raise Unknown("whether two values are the same")

    def ev(self, t):
        k = t[0]
        if k == "bool":
            return t[1]
        if k == "int":
            return Num(t[1])
        if k == "str":
            return Text(t[1]) if isinstance(t[1], str) else Opaque(t)
        if k == "chr":
            return Text(t[1] if isinstance(t[1], str) else chr(t[1]))
        if k == "null":
            return NULLP
        if k == "not":
            return not self.truth(t[1])
        if k == "and":
            return all(self.truth(x) for x in t[1:])
        if k == "or":
            return any(self.truth(x) for x in t[1:])
        if k == "lin":
            r = Num(t[1])
            for x, n in t[2]:
                r = r.plus(self.num(x).times(n))
            return r
        if k == "pos":
            return self.num(t[1]).sign() > 0
        if k == "eq0":
            if isinstance(self.eval(t[1]), Cmp):
                return False
            v = self.num(t[1])
            return v == Num(0) or v.sign() == 0
        if k in ("min", "max"):
            a, b = self.num(t[1]), self.num(t[2])
            less = a != b and b.plus(a, -1).sign() > 0
            return a if (k == "min") == less else b
        if k == "ite":
            return self.eval(t[2] if self.truth(t[1]) else t[3])
        if k == "eq" and t[1][0] == "itr" == t[2][0] and t[1][1] == t[2][1] and any(isinstance(x[2], tuple) and
                                                                                 x[2][0] in SEARCH + ("find",) for x in t[1:]):
            # Two positions, at the time of the search one of them is the result of.
            v = self.eval(next(x[2][1] for x in t[1:] if isinstance(x[2], tuple) and x[2][0] in SEARCH + ("find",)))
            if isinstance(v, Items) and all(x[2] in ("begin", "end") or isinstance(x[2], tuple) for x in t[1:]):
                a, b = (self.place_in(v, x) for x in t[1:])
                if v.kind == "map" and "begin" in (t[1][2], t[2][2]) and len(v.v) > 1 and len(v.v) not in (a, b):
                    raise Unknown("the first entry of a map")
                return a == b
        if k == "eq" and t[1][0] == "itr" == t[2][0]:
            # Two positions in a collection as it was when the loop started that one of them counts the rounds of.
            ls = {x[1]: self.loops[x[1]] for y in t[1:] for x in walk(y[3]) if x[0] == "iter" and len(x) == 2 and x[1] in self.loops}
            old, self.recent = self.recent, list(ls.values())[:1] if len(ls) == 1 else self.recent
            try:
                return self.same(self.eval(t[1]), self.eval(t[2]))
            finally:
                self.recent = old
        if k == "eq":
            return self.same(self.eval(t[1]), self.eval(t[2]))
        if k == "lt":
            return self.order(self.eval(t[1]), self.eval(t[2]))
        if k == "isnull":
            v = self.eval(t[1])
            if v is NULLP:
                return True
            if isinstance(v, (Rec, Items, Text)):
                return False
            raise Unknown("whether a pointer is null")
        if k == "size":
            v = self.eval(t[1])
            if isinstance(v, Text):
                return v.size()
            if isinstance(v, Items):
                return Num(len(v.v))
            if v is DEFAULT:
                return Num(0)
            if isinstance(getattr(v, "count", None), int):
                return Num(v.count)
            raise Unknown("a size")
        if k in ("list", "emptyc"):
            return Items([self.eval(x) for x in t[1:]])
        if k == "agg":
            return Made(t[1], [self.eval(x) for x in t[2:]])
        if k == "pair":
            return (self.eval(t[1]), self.eval(t[2]))
        if k == "some":
            return (self.eval(t[1]),)
        if k == "has":
            v = self.eval(t[1])
            if isinstance(v, tuple) and len(v) < 2:
                return len(v) == 1
            raise Unknown("an optional value")
        if k == "optval":
            v = self.eval(t[1])
            if isinstance(v, tuple) and len(v) == 1:
                return v[0]
            if v == ():
                raise Raises("the value of an empty optional", True)
            raise Unknown("an optional value")
        if k == "iter":
            c = self.loop(t[1])
            if c["it"] is None:
                raise Unknown("a loop counter")
            return Num(c["it"])
        if k == "phi":
            c = self.loop(t[1])
            if t[2][0] == "deref":
                r = self.lazy(t[2][1])
                if isinstance(r, Rec) and "heap" in r.f:
                    return r.f["heap"]
            if t[2] in c["phi"]:
                v = c["phi"][t[2]]
                if isinstance(v, Opaque):
                    raise Unknown("a loop variable")
                return v
            raise Unknown("a loop variable")
        if k == "more":
            c = self.loop(t[1])
            v = self.eval(t[2])
            if isinstance(v, Items):
                return c["k"] < len(v.v)
            if isinstance(v, Text):
                if any(isinstance(x, Word) for x in v.s):
                    raise Unknown("the letters of a word")
                return c["k"] < len(v.s)
            raise Unknown("a range")
        if k == "bsearch":
            c, x = self.eval(t[1]), self.eval(t[2])
            if isinstance(c, Items):
                i = self.bound(c, ("lower_bound", t[1], t[2]))
                return i < len(c.v) and not self.order(x, c.v[i])
        if k == "count" and len(t) == 3:
            c, x = self.eval(t[1]), self.eval(t[2])
            if isinstance(c, Items):
                return Num(sum(1 for y in c.v if self.same(y, x)))
        if k in ("elem", "at"):
            return self.index(self.eval(t[1]), t[2])
        if k == "get":
            return self.get(self.eval(t[1]), t[2])
        if k == "init":
            if t[1] == ("glob", "std::basic_string<char>::npos"):
                return Num(NPOS)
            return self.place(t[1])
        if k == "addr":
            if t[1][0] == "heap":
                return self.allocated(t[1])
            return self.place(t[1])
        if k == "range":
            return self.eval(t[1])
        if k == "itr":
            return self.position(t)
        if k == "deref":
            return self.place(t)
        if k == "fn":
            return Opaque(t)
        if k == "new":
            return self.made(t)
        if k == "mut":
            return self.mut(t)
        if k in ("call", "ret"):
            return self.call(t)
        if k == "refto":
            return self.call(("call",) + t[1:])
        if k == "op" and t[1] in ("%", "/"):
            a, b = self.num(t[2]).int(), self.num(t[3]).int()
            if b == 0:
                raise Raises("division by zero", True)
            return Num(a % b if t[1] == "%" else a // b)
        if k == "member":
            c, v = self.eval(t[1]), self.eval(t[2])
            if isinstance(c, Items):
                return any(self.same(x[0] if c.kind == "map" else x, v) for x in c.v)
        if k == "with":
            try:
                b = self.eval(t[1])
            except Unknown:
                b = None
            if isinstance(b, Items):
                return self.elements(b, t[2])
            if isinstance(b, tuple) and len(b) < 2 and all(path and path[0] == "*" for path, _ in t[2]):
                # An optional whose content is written.
                if not b:
                    raise Raises("the content of an empty optional", True)
                whole = [v for path, v in t[2] if path == ("*",)]
                base = whole[-1] if whole else ("optval", t[1])
                subs = tuple((path[1:], v) for path, v in t[2] if len(path) > 1)
                return (self.eval(("with", base, subs) if subs else base),)
            return Built(self, t, b)
        if k == "dyncast":
            v = self.eval(t[2])
            if v is NULLP:
                return v
            if isinstance(v, Rec) and "class" in v.f:
                return v if t[1] in v.f["class"] else NULLP
            raise Unknown("the class of an object")
        raise Unknown("a term: %s" % show(t)[:80])

    def elements(self, b, parts):
        """A list some of whose elements have members that were set in a loop."""
        for path, val in parts:
            if not (len(path) == 2 and isinstance(path[0], tuple) and path[0][0] == "iter" and val[0] == "phi" and
                    val[1] == path[0][1]):
                return b
        xs = list(b.v)
        for path, val in parts:
            for i, v in self.loop(val[1])["hist"].get(val[2], ()):
                if not 0 <= i < len(xs):
                    raise Unknown("an element")
                if not isinstance(xs[i], Rec):
                    raise Unknown("an element")
                r = Rec(xs[i].what)
                r.f.update(xs[i].f)
                r.f[path[1]] = v
                xs[i] = r
        return Items(xs, b.kind)

    def order(self, a, b):
        if self.world is not None and self.world.equal is not None and self.world.equal(a, b) is not None:
            return self.sort(self, a, b)
        if isinstance(a, Rec) and isinstance(b, Rec):
            # The order of two addresses is arbitrary.
            ADDRESSES[1] = True
            return a is not b and (id(a) < id(b)) == ADDRESSES[0]
        if isinstance(a, Num) and isinstance(b, Num):
            return b.plus(a, -1).sign() > 0
        if self.sort is not None:
            return self.sort(self, a, b)
        raise Unknown("an order")

    def made(self, t):
        cls = t[1]
        args = [x for x in t[2:] if not (x[0] == "new" and "allocator" in x[1])]
        if "basic_stringstream" in cls or "basic_istringstream" in cls or "basic_ostringstream" in cls:
            v = self.lazy(args[0]) if args else Text()
            return Stream(v if isinstance(v, Text) else Text())
        if "basic_string" in cls:
            if not args:
                return Text()
            vs = [self.eval(x) for x in args]
            if len(vs) == 1 and isinstance(vs[0], Text):
                return vs[0]
            if len(vs) == 2 and isinstance(vs[0], Num) and isinstance(vs[1], Text):
                return Text(*[vs[1] for _ in range(vs[0].int())])
            if len(vs) == 3 and isinstance(vs[0], Text) and isinstance(vs[1], Num):
                return vs[0].substr(vs[1], vs[2])
            raise Unknown("a text")
        if cls.startswith("std::") and any(c in cls for c in ("vector", "set", "map", "list", "deque")):
            head = cls.split("<")[0].split("::")[-1]
            kind = "map" if "map" in cls else "sorted" if head == "set" else "list"
            args = [x for x in args if not (x[0] == "new" and x[1].split("<")[0] in ("std::less", "std::hash", "std::equal_to"))]
            if any(x[0] in ("new", "lam") for x in args) and head == "set" or "std::greater" in cls:
                raise Unknown("a comparison")
            if not args:
                return Items((), kind)
            src = None
            if len(args) == 1 and args[0][0] == "range":
                src = self.eval(args[0])
            if len(args) == 2 and all(x[0] == "itr" for x in args):
                a, b = self.eval(args[0]), self.eval(args[1])
                if a.v != b.v or not isinstance(a.v, Items):
                    raise Unknown("a range")
                src = Items(a.v.v[a.pos:b.pos] if not a.rev else tuple(a.v.v[i] for i in range(a.pos, b.pos, -1)))
            if src is not None:
                if kind == "list" and head.startswith("unordered"):
                    out = Items()
                    for x in src.v:
                        out = self.add(out, x, "insert")
                    return out
                if kind == "sorted":
                    out = Items((), kind)
                    for x in src.v:
                        out = self.add(out, x, "insert")
                    return out
                return Items(src.v, kind)
            if len(args) == 1:
                v = self.eval(args[0])
                if isinstance(v, Items):
                    return v
                if isinstance(v, Num) and ("map" in cls or "set" in cls):
                    return Items((), kind)
                if isinstance(v, Num) and "vector" in cls:
                    return Items([Made(None, ())] * v.int())
            raise Unknown("a collection")
        return Made(cls, [self.lazy(x) for x in args])

    def shown(self, v):
        """What writing a value to a stream adds."""
        if isinstance(v, Text):
            return v
        if isinstance(v, Items) and not v.v:
            return Text()
        if isinstance(v, Num):
            return Text(str(v.c)) if not v.k else Text(Word(repr(v)))
        if isinstance(v, bool):
            return Text(str(int(v)))
        if isinstance(v, Rec) and "shown" in v.f:
            return v.f["shown"]
        if isinstance(v, Items) and all(isinstance(x, Rec) and "object" in x.f for x in v.v):
            out = []
            for i, x in enumerate(v.v):
                out += [", "] * (i > 0) + [self.shown(x)]
            return Text(*out)           # what C19 shows lists of objects are written as
        if isinstance(v, Made) and last(v.cls or "") in ("Proposition", "PropositionRef") and len(v.args) >= 2:
            if isinstance(v.args[0], Text) and isinstance(v.args[1], Items):
                return Text(v.args[0], "(", self.shown(v.args[1]), ")")
        raise Unknown("what is written")

    def as_text(self, v):
        if isinstance(v, Items) and not v.v:
            return Text()
        if isinstance(v, Num) and not v.k and 0 < v.c < 128:
            return Text(chr(v.c))
        if not isinstance(v, Text):
            raise Unknown("a text")
        return v

    def mut(self, t):
        op, old = t[1], t[2]
        args = t[3:]
        name = op.split("#")[0]
        nm = last(name)
        if nm in ("operator<<", "put", "write") and (op.endswith("#0") or "basic_ostream" in op):
            o = self.eval(old)
            if not isinstance(o, Stream):
                raise Unknown("a stream")
            a = args[-1]
            if a[0] == "fn":
                if "endl" in a[1]:
                    return o.write("\n")
                if "flush" in a[1] or "boolalpha" in a[1]:
                    return o
                raise Unknown("a stream manipulator")
            if nm == "put":
                return o.write(self.as_text(self.eval(a)))
            v = self.eval(a)
            return o.write(self.shown(v))
        if nm == "operator>>":
            o = self.eval(args[0]) if not op.endswith("#0") else self.eval(old)
            if not isinstance(o, Stream):
                raise Unknown("a stream")
            s, w = o.word()
            if op.endswith("#0"):
                return s
            return w if w is not None else self.eval(old)
        if nm == "getline":
            o = self.eval(args[0]) if not op.endswith("#0") else self.eval(old)
            d = args[2:] if len(args) > 2 else ()
            if not isinstance(o, Stream):
                raise Unknown("a stream")
            delim = self.as_text(self.eval(d[0])).s[0] if d else "\n"
            s, w = o.line(delim)
            if op.endswith("#0"):
                return s
            return w if w is not None else Text()
        if nm in ("reserve", "shrink_to_fit", "rehash"):
            return self.eval(old)
        if nm == "clear":
            v = self.eval(old)
            if isinstance(v, Stream):
                return Stream(v.text, v.at, True)
            return Text() if isinstance(v, Text) else Items((), v.kind if isinstance(v, Items) else "list")
        if nm == "str":
            return Stream(self.text(args[-1]))
        if nm == "resize":
            v = self.eval(old)
            if isinstance(v, Items) and args:
                n = self.num(args[0]).int()
                if not 0 <= n < 1000:
                    raise Raises("a list of %d elements" % n, True)
                x = self.eval(args[1]) if len(args) > 1 else Made(None, ())
                return Items(v.v[:n] + (x,) * (n - len(v.v)), v.kind)
        if op == "replaced":
            v = self.eval(old)
            if isinstance(v, Text):
                a, b = self.as_text(self.eval(args[0])), self.as_text(self.eval(args[1]))
                if a.s[0] not in SPECIAL and any(isinstance(c, Word) for c in v.s):
                    raise Unknown("replacing letters in words")
                return Text(*[b if c == a.s[0] else c for c in v.s])
            raise Unknown("a replacement")
        if op == "sorted":
            v = self.eval(old)
            if isinstance(v, Items):
                return Items(self.in_order(v.v), v.kind)
            raise Unknown("sorting")
        if nm in ("sort", "stable_sort"):
            v = self.eval(old)
            if op.endswith("#1") and old[0] == "mut" and old[1].startswith(name):
                return v
            a, b = args[:2]
            if isinstance(v, Items) and a[0] == b[0] == "itr" and a[1] == b[1] and op.endswith("#0"):
                less = self.less(args[2]) if len(args) > 2 else self.order
                n = len(v.v)
                at = lambda i: {"begin": 0, "end": n, "rbegin": 0, "rend": n}[i[2]] + self.num(i[3]).int()
                rev = a[2][0] == "r"
                xs = v.v[::-1] if rev else v.v
                i, j = at(a), at(b)
                xs = xs[:i] + self.in_order(xs[i:j], less) + xs[j:]
                return Items(xs[::-1] if rev else xs, v.kind)
            raise Unknown("sorting")
        if op == "reversed":
            v = self.eval(old)
            if isinstance(v, Items):
                return Items(v.v[::-1], v.kind)
        if op == "unique":
            v = self.eval(old)
            if isinstance(v, Items):
                xs = []
                for x in v.v:
                    if not xs or not self.same(xs[-1], x):
                        xs.append(x)
                return Items(tuple(xs) + (LEFTOVER,) * (len(v.v) - len(xs)), v.kind)
        if nm == "erase" and len(args) == 2 and all(a[0] == "itr" for a in args) and args[0][1] == args[1][1]:
            v = self.eval(old)
            if isinstance(v, Items):
                def at(a):
                    k = a[2]
                    if isinstance(k, tuple) and k[0] == "unique_end":
                        n = len([x for x in v.v if x is not LEFTOVER])
                    elif k in ("begin", "end"):
                        n = 0 if k == "begin" else len(v.v)
                    else:
                        raise Unknown("a position")
                    return n + self.num(a[3]).int()
                i, j = at(args[0]), at(args[1])
                return Items(v.v[:i] + v.v[j:], v.kind)
        if nm == "erase" and len(args) == 1 and args[0][0] == "itr":
            v = self.eval(old)
            if isinstance(v, Items):
                i = self.place_in(v, args[0])
                if not 0 <= i < len(v.v):
                    raise Raises("erasing element %d of %d" % (i, len(v.v)), True)
                return Items(v.v[:i] + v.v[i + 1:], v.kind)
        if nm == "append" or nm == "operator+=":
            v = self.eval(old)
            if isinstance(v, Items) and args and args[0][0] == "range":
                w = self.eval(args[0])
                return Items(v.v + w.v, v.kind)
            if (isinstance(v, Text) or isinstance(v, Items) and not v.v) and len(args) == 1:
                return Text(self.as_text(v), self.as_text(self.eval(args[0])))
            raise Unknown("appending")
        if nm in ("push_back", "emplace_back", "push", "insert", "emplace"):
            v = self.eval(old)
            if v is DEFAULT:
                v = Items()
            if isinstance(v, Text):
                if nm == "push_back" and len(args) == 1:
                    return Text(v, self.as_text(self.eval(args[0])))
                raise Unknown("changing a text")
            if not isinstance(v, Items):
                raise Unknown("a collection")
            if len(args) == 1:
                x = self.eval(args[0])
                return self.add(v, x, nm)
            if args and args[0][0] == "itr":
                it = args[0]
                if it[2] == "end" and it[3] == I(0) and len(args) == 2 and args[1][0] != "range":
                    return self.add(v, self.eval(args[1]), nm)
                if it[2] == "begin" and is_int(it[3]) and len(args) == 2:
                    x = self.eval(args[1][1]).v if args[1][0] == "range" else (self.eval(args[1]),)
                    return Items(v.v[:it[3][1]] + tuple(x) + v.v[it[3][1]:], v.kind)
                if it[2] in ("begin", "end") and len(args) == 3:
                    a, b = (self.eval(x[2] if x[0] == "call" and last(x[1]) == "make_move_iterator" else x) for x in args[1:])
                    if isinstance(a, It) and isinstance(b, It) and not a.rev and not b.rev and \
                            isinstance(a.v, Items) and a.v is b.v or a.v == b.v:
                        i = (0 if it[2] == "begin" else len(v.v)) + self.num(it[3]).int()
                        return Items(v.v[:i] + a.v.v[a.pos:b.pos] + v.v[i:], v.kind)
                if nm in ("insert", "emplace") and len(args) == 2 and args[1][0] != "range" and v.kind == "list" and \
                        isinstance(it[2], tuple):
                    i = self.place_in(v, it)
                    if not 0 <= i <= len(v.v):
                        raise Raises("inserting before element %d of %d" % (i, len(v.v)), True)
                    return Items(v.v[:i] + (self.eval(args[1]),) + v.v[i:], v.kind)
                raise Unknown("inserting at a place")
            if v.kind == "map" and len(args) == 2 and nm in ("emplace", "try_emplace", "insert"):
                return self.add(v, (self.eval(args[0]), self.eval(args[1])), nm)
            x = Made(None, [self.lazy(a) for a in args])
            return self.add(v, x, nm)
        if nm == "pop_back":
            v = self.eval(old)
            if isinstance(v, Items):
                if not v.v:
                    raise Raises("pop_back of an empty list", True)
                return Items(v.v[:-1], v.kind)
            if isinstance(v, Text):
                if not v.s or isinstance(v.s[-1], Word):
                    raise Unknown("the last letter of a word") if v.s else Raises("pop_back of an empty text", True)
                return Text(*v.s[:-1])
        if op == "[]=":
            v = self.eval(old)
            i = self.eval(args[0])
            if isinstance(v, Items) and (v.kind == "map" or not v.v and not isinstance(i, Num)):
                x = self.eval(args[1])
                ks = [a for a, _ in v.v]
                hit = [a for a in ks if self.same(a, i)]
                if hit:
                    return Items([(a, x if a is hit[0] else b) for a, b in v.v], "map")
                return Items(v.v + ((i, x),), "map")
            if isinstance(v, Items) and isinstance(i, Num):
                n = i.int()
                if not 0 <= n < len(v.v):
                    raise Raises("element %d of %d" % (n, len(v.v)), True)
                return Items(v.v[:n] + (self.eval(args[1]),) + v.v[n + 1:], v.kind)
            if isinstance(v, Text) and isinstance(i, Num):
                k, inside = v.cut(i)
                if k is None or inside or isinstance(v.s[k], Word):
                    raise Unknown("changing a letter of a word")
                return Text(*(v.s[:k] + (self.as_text(self.eval(args[1])),) + v.s[k + 1:]))
        if strcls(op) and nm in ("erase", "replace", "insert", "resize"):
            v = self.eval(old)
            ns = [self.eval(a) for a in args]
            if isinstance(v, Text) and nm == "erase" and ns and all(isinstance(n, Num) for n in ns):
                a = v.substr(Num(0), ns[0])
                n = ns[1] if len(ns) > 1 else Num(NPOS)
                if n == Num(NPOS):
                    return a
                return Text(a, v.substr(ns[0].plus(n), Num(NPOS)))
        raise Unknown("a change: %s" % op)

    def add(self, v, x, nm):
        if v.kind == "map" and isinstance(x, tuple) and len(x) == 2 and any(self.same(k, x[0]) for k, _ in v.v):
            return v
        if v.kind in ("set", "sorted") or nm in ("insert", "emplace") and not isinstance(x, tuple):
            for y in v.v:
                try:
                    if self.same(x, y):
                        return v
                except Unknown:
                    pass
        if v.kind == "sorted":
            return Items(self.in_order(v.v + (x,)), v.kind)
        return Items(v.v + (x,), v.kind)

    def in_order(self, xs, less=None):
        less = less or self.order
        return tuple(sorted(xs, key=functools.cmp_to_key(lambda a, b: -1 if less(a, b) else 1 if less(b, a) else 0)))

    def less(self, t):
        """The comparison a sort was given."""
        if t[0] == "new" and t[1].startswith("std::less"):
            return self.order
        if t[0] == "new" and t[1].startswith("std::greater"):
            return lambda a, b: self.order(b, a)
        if t[0] == "lam" and self.world is not None:
            return lambda a, b: bool(self.world.closure(self, t, [a, b]))
        raise Unknown("a comparison")

    def call(self, t):
        qn = t[1]
        nm = last(qn)
        args = t[2:]
        if "basic_stringstream" in qn and nm == "str" or "basic_ostringstream" in qn and nm == "str":
            s = self.eval(args[0])
            if isinstance(s, Stream):
                return s.text
        if "basic_ios" in qn and nm in ("operator bool", "good", "fail", "operator!", "eof"):
            s = self.eval(args[0])
            if isinstance(s, Stream):
                if nm == "eof":
                    return not s.ok or s.at >= len(s.text.s)
                return s.ok if nm in ("operator bool", "good") else not s.ok
        if strcls(qn):
            s = self.eval(args[0])
            s = self.as_text(s)
            rest = [self.eval(a) for a in args[1:]]
            if nm == "substr":
                pos = rest[0] if rest else Num(0)
                n = rest[1] if len(rest) > 1 else Num(NPOS)
                return s.substr(pos, n)
            if nm in ("find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
                x = self.as_text(rest[0])
                start = rest[1] if len(rest) > 1 and isinstance(rest[1], Num) else None
                return s.find({c for c in x.s}, last="last" in nm, negate="not" in nm, start=start)
            if nm in ("find", "rfind"):
                x = self.as_text(rest[0])
                start = rest[1] if len(rest) > 1 and isinstance(rest[1], Num) else None
                if len(x.s) == 1 and not isinstance(x.s[0], Word):
                    return s.find({x.s[0]}, last=nm == "rfind", start=start)
                if start in (None, Num(0), Num(NPOS)):
                    return s.find_text(x, nm == "rfind")
            if nm == "compare" and len(rest) == 3 and isinstance(rest[2], Text) and isinstance(rest[0], Num) and isinstance(rest[1], Num):
                s, rest = s.substr(rest[0], rest[1]), rest[2:]
            if nm == "compare" and rest and isinstance(rest[0], Text):
                if self.same(s, rest[0]):
                    return Num(0)
                if self.sort is None:
                    return Cmp()
                return Num(-1 if self.order(s, rest[0]) else 1)
            if nm in ("c_str", "data"):
                return s
            if nm in ("size", "length"):
                return s.size()
            if nm == "operator+":
                return Text(s, self.as_text(rest[0]))
        if nm == "operator+" and len(args) == 2:
            return Text(self.as_text(self.eval(args[0])), self.as_text(self.eval(args[1])))
        if qn in ("std::to_string", "std::__cxx11::to_string"):
            return self.shown(self.eval(args[0]))
        if nm in ("isspace",):
            v = self.as_text(self.eval(args[0]))
            return v.s[0] in BLANK
        if nm in ("size", "empty") and len(args) == 1:
            v = self.eval(args[0])
            if isinstance(v, Items):
                return Num(len(v.v)) if nm == "size" else not v.v
        if nm == "to_string" and len(args) == 1:
            v = self.eval(args[0])
            if isinstance(v, Made):
                return self.shown(v)
        if qn in ("std::equal", "std::lexicographical_compare", "std::includes"):
            return self.ranges(last(qn), args)
        raise Unknown("a call: %s" % qn)

    def ranges(self, nm, args):
        """Comparisons of two ranges."""
        its, rest = [], list(args)
        while rest and len(its) < 4:
            v = self.eval(rest[0]) if rest[0][0] != "lam" else None
            if not isinstance(v, It):
                break
            its.append(v)
            rest.pop(0)
        if len(its) not in (3, 4) or any(not isinstance(i.v, Items) or i.rev for i in its) or its[0].v is not its[1].v and \
                its[0].v != its[1].v or len(rest) > 1:
            raise Unknown("ranges")
        a = its[0].v.v[its[0].pos:its[1].pos]
        if nm == "equal":
            same = self.same
            if rest:
                if rest[0][0] != "lam" or self.world is None:
                    raise Unknown("a comparison")
                same = lambda x, y: bool(self.world.closure(self, rest[0], [x, y]))
            b = its[2].v.v[its[2].pos:its[3].pos if len(its) == 4 else None]
            if len(its) == 4 and len(a) != len(b):
                return False
            for i, x in enumerate(a):
                if i == len(b):
                    raise Raises("reads element %d of %d" % (i, len(b)), True)
                if not same(x, b[i]):
                    return False
            return True
        if len(its) != 4:
            raise Unknown("ranges")
        b = its[2].v.v[its[2].pos:its[3].pos]
        less = self.less(rest[0]) if rest else self.order
        if nm == "includes":
            return all(any(not less(x, y) and not less(y, x) for x in a) for y in b)
        for x, y in zip(a, b):
            if less(x, y):
                return True
            if less(y, x):
                return False
        return len(a) < len(b)


# ---- worlds ------------------------------------------------------------
THIS = ("this",)


def word(x):
    return Text(Word(x))


def objects(n, p="a"):
    out = []
    for i in range(n):
        w = word("%s%d" % (p, i + 1))
        out.append(Rec(repr(w), name=w, shown=w, object=True))
    return Items(out)


def field_of(prog, getter):
    """The member an accessor returns, by name."""
    f = getter_field(prog, getter)
    while f is not None and f[0] != "fld":
        f = f[1] if f[0] in ("init", "base") else None
    return f and f[2]


class World:
    """Values of parameters, members and accessors for one evaluation."""

    equal = None

    def __init__(self, ctx):
        self.ctx = ctx

    elements = None     # how the members of collections are ordered, unless a question says otherwise

    def prog(self, unit):
        return self.ctx.program([unit], [])

    def eval(self, oid, fn, prims, params, this, want, what, alias=None, made=None, method=None, order=None):
        """One obligation: for this input, the function yields what `want` accepts.

        want(out) is True, or a description of what is wrong.
        """
        ctx = self.ctx
        judge = want

        def want(o):
            try:
                return judge(o)
            except Raises as e:
                if not e.bad:
                    raise Unknown(e.what)
                return e.what
        try:
            ADDRESSES[:] = [True, False]
            paths = self.paths(fn, prims)
            run = Run(paths, self.hook(params, this, made, method), self.fields(alias or {}), order or self.elements, self)
            run.fn = (id(fn), tuple(prims))
            try:
                o = run.run()
            except Unknown:
                # Undecided for words of every length: a violation for longer words is one.
                WORDLEN[0] = 8
                try:
                    o = run.run()
                    if o.kind != "bad" and want(o) in (True, None):
                        raise
                    what += " (names of 8 letters or more)"
                except Unknown:
                    o = None
                finally:
                    WORDLEN[0] = 1
                if o is None:
                    raise
            if o.kind == "bad":
                ctx.violation(oid, "%s: %s" % (what, o.value), fnloc(fn), fn.qn)
                return
            r = want(o)
            if ADDRESSES[1] and r is True:
                ADDRESSES[0] = False
                o = run.run()
                r = want(o)
                if o.kind == "bad":
                    r = str(o.value)
            ADDRESSES[:] = [True, False]
            if r is None:
                ctx.undecide(oid, "%s: not evaluated" % what)
            elif r is True:
                ctx.ok(oid)
            else:
                ctx.violation(oid, "%s: %s" % (what, r), last_loc(o.path, fn), fn.qn, fact_lines(o.path))
        except Unknown as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            ctx.undecide(oid, "%s: %s" % (what, e))

    _cache = {}

    def paths(self, fn, prims):
        k = (id(fn), tuple(prims))
        if k not in self._cache:
            self._cache[k] = (self.ctx.run(self.prog_of(fn), fn, prims), fn, self.ctx.last)
        return self._cache[k][0]

    def closure(self, run, lam, vals):
        """The value of a closure for these arguments."""
        k = (lam, run.fn)
        if k not in self._cache:
            eng = self._cache[run.fn][2]
            self._cache[k] = (eng.run_closure(lam, args=[L(("param", 900 + i)) for i in range(len(vals))]), lam)

        def hook(r, t):
            if t[0] == "init" and t[1][0] == "param" and 900 <= t[1][1] < 900 + len(vals):
                return vals[t[1][1] - 900]
            return run.hook(r, t)
        sub = Run(self._cache[k][0], hook, run.field, run.sort, self)
        sub.fn = run.fn
        o = sub.run()
        if o.kind != "return":
            raise Unknown("a closure that throws")
        return o.value

    def prog_of(self, fn):
        return self._progs[id(fn)]

    _progs = {}

    def find(self, unit, qn, pred=None):
        prog = self.prog(unit)
        out = []
        for fn in prog.find(qn):
            ts = [fn.tu.type(p["t"]) for p in fn.f["p"]]
            if pred is None or pred(ts):
                self._progs[id(fn)] = prog
                out.append(fn)
        return out

    def one(self, unit, qn, pred=None):
        r = self.find(unit, qn, pred)
        if len(r) != 1:
            raise AnalysisError("%s: %d functions" % (qn, len(r)))
        return r[0]

    def fields(self, alias):
        def field(run, v, name):
            if isinstance(v, Rec):
                n = alias.get(name, name)
                if n in v.f:
                    return v.f[n]
            return NotImplemented
        return field

    def hook(self, params, this, made, method):
        def h(run, t):
            if t[0] == "init":
                lv = t[1]
                if lv[0] == "param" and len(lv) == 2 and lv[1] in params:
                    return params[lv[1]]
                if lv == THIS and this is not None:
                    return this
                if lv[0] == "glob" and lv[1].startswith("symbolic::") and method is not None:
                    return method(run, t)
                return NotImplemented
            if t[0] == "param" and len(t) == 2 and t[1] in params:
                return params[t[1]]
            if t == THIS and this is not None:
                return this
            if t[0] == "new" and made is not None:
                return made(run, t)
            if t[0] in ("call", "ret", "refto") and method is not None:
                r = method(run, t)
                if r is not NotImplemented:
                    return r
            if t[0] in ("call", "ret", "refto") and len(t) > 2 and t[1].startswith("symbolic::"):
                v = run.eval(t[2])
                if isinstance(v, Rec) and last(t[1]) in v.f:
                    return v.f[last(t[1])]
            if t[0] in ("call", "refto") and t[1].startswith("VAL::") and len(t) > 2:
                v = run.eval(t[2])
                if isinstance(v, Rec) and last(t[1]) in v.f:
                    return v.f[last(t[1])]
            return NotImplemented
        return h


def is_ref(t, name):
    return t.s.replace("const ", "").rstrip("& ").endswith(name)


def second(name):
    return lambda ts: len(ts) == 2 and is_ref(ts[1], name)
