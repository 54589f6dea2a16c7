"""Shared machinery of the rules: contexts, obligations and decision tables."""
import itertools
import json
import os
import re
import time
import traceback

import engine
import ir
from engine import L, Interp, all_events, every_event, root, is_sub
from ir import AnalysisError
from terms import *
from terms import _cons


class Finding:
    def __init__(self, key_, msg, loc, fn=None, path=None):
        self.key = key_
        self.msg = msg
        self.loc = loc
        self.fn = fn
        self.path = path or []

    def as_dict(self):
        return {"key": self.key, "message": self.msg, "location": self.loc, "function": self.fn, "path": self.path}


class Late(BaseException):
    """The time of a check is over."""


class Ctx:
    """One run of one rule: collects obligations, findings and what was covered."""

    def __init__(self, prop, tier="quick", seed=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.findings = []
        self.undecided = []
        self.obligations = []     # (id, status)
        self.functions = set()
        self.paths = 0
        self.t0 = time.time()
        self.moved = set()
        self._prog = {}

    def program(self, only=None, drivers=()):
        k = (tuple(only or ()), tuple(drivers or ()))
        if k not in self._prog:
            self._prog[k] = ir.load(only=list(only or []), drivers=list(drivers or []))
        return self._prog[k]

    def ok(self, oid):
        self.obligations.append((oid, "holds"))

    def undecide(self, oid, why):
        self.obligations.append((oid, "undecided"))
        self.undecided.append("%s: %s" % (oid, why))

    def violation(self, oid, msg, loc, fn=None, path=None):
        self.obligations.append((oid, "violated"))
        self.findings.append(Finding(oid, msg, loc, fn, path))

    def expect(self, oid, cond, msg, loc, fn=None, path=None):
        """A three-valued obligation: True holds, False violated, None undecided."""
        if cond is True:
            self.ok(oid)
        elif cond is False:
            self.violation(oid, msg, loc, fn, path)
        else:
            self.undecide(oid, msg)

    def overrule(self, pattern, small):
        """A sufficient condition on the text of the code that is not met, while every small input gives the right result: another
        way of writing it. Neither shows a violation."""
        mine = [st for oid, st in self.obligations if oid and re.match(small, oid)]
        if not mine or any(st != "holds" for st in mine):
            return
        for f in [f for f in self.findings if re.match(pattern, f.key)]:
            self.findings.remove(f)
            self.obligations.remove((f.key, "violated"))
            self.undecide(f.key, "%s (but right for all %d small inputs)" % (f.msg, len(mine)))

    def group(self, name, f, *a, **kw):
        """One part of a rule. A part that cannot be analysed decides nothing."""
        try:
            return f(*a, **kw)
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.undecide("%s.analysis" % name, "%s: %s" % (type(e).__name__, e))

    def interp(self, prog, prims=(), pred=None):
        pats = list(prims)

        def primitive(d):
            if pred is not None and pred(d):
                return True
            return any(match(d.qn, p) for p in pats)
        return Interp(prog, primitive=primitive)

    def run(self, prog, fn, prims=(), pred=None, **kw):
        it = self.interp(prog, [], None)
        base = self.interp(prog, prims, pred).primitive
        it = Interp(prog, primitive=lambda d: base(d) and d.usr != fn.decl.usr)
        ps = it.run(fn, **kw)
        self.functions.add(fn.qn)
        for u in it.analysed:
            if u in prog.fns and prog.fns[u].decl.repo:
                self.functions.add(prog.fns[u].qn)
        self.paths += len(ps)
        self.last = it
        for p in ps:
            for e in every_event([p]):
                if e.k == "usemoved" and e.loc not in self.moved:
                    self.moved.add(e.loc)
                    self.violation("moved-from@" + fn.qn, "%s: %s is used after it was moved away here" % (fn.qn, show(e.obj)),
                                   e.loc, fn.qn, fact_lines(p))
                if e.k == "keeps" and e.loc not in self.moved:
                    self.moved.add(e.loc)
                    self.violation("first-call@" + fn.qn, "%s: %s keeps the value its first call gave it (%s) for every later call" % (
                        fn.qn, e.obj, show(e.args[0])), e.loc, fn.qn, fact_lines(p))
            e = endless(fn, p)
            if e is not None and e.loc not in self.moved:
                self.moved.add(e.loc)
                self.violation("endless@" + fn.qn, "%s: calls itself with its own arguments, so it never returns" % fn.qn, e.loc,
                               fn.qn, fact_lines(p))
        for k, loc, v in keeps_objects(fn, ps):
            if k not in self.moved:
                self.moved.add(k)
                self.violation("shared@" + fn.qn, "%s: %s, shared by the calls for all objects, keeps what belongs to one object (%s) and is "
                               "read by later calls" % (fn.qn, k, show(v)), loc, fn.qn)
        e = calls_itself(fn, ps)
        if e is not None and e.loc not in self.moved:
            self.moved.add(e.loc)
            self.violation("endless@" + fn.qn, "%s: calls itself on every path, so it never returns" % fn.qn, e.loc, fn.qn)
        return ps


def keeps_objects(fn, ps):
    """Function-local statics that some path fills with the object's own data and some path reads."""
    def mine(q):
        return root(q)[0] == "glob" and root(q)[1].endswith(" in " + fn.qn)
    out = []
    if not fn.decl.cls or fn.decl.static:
        return out
    for p in ps:
        for q, v in p.S.store.items():
            if mine(q) and any(x == ("this",) for x in walk((q, v))):
                k = root(q)[1]
                if k not in [x[0] for x in out] and reads(ps, root(q)):
                    out.append((k, last_loc(p, fn), v))
    return out


def reads(ps, g):
    """Some path's result or decisions depend on what was in g."""
    return any(contains((p.value.p if isinstance(p.value, L) else p.value,), g) or any(contains((a,), g) for a, _ in p.facts) for p in ps)


def calls_itself(fn, ps):
    """A call of the function by itself, when every path makes one (whatever the arguments)."""
    if fn.decl.d.get("virtual"):
        return None
    es = []
    for p in ps:
        e = next((e for e in p.ev if e.k == "call" and getattr(e, "decl", None) is not None and e.decl.usr == fn.decl.usr), None)
        if e is None:
            return None
        es.append(e)
    return es[0] if es else None


def endless(fn, p):
    """A call of the function by itself, with the object and arguments it was given and before anything changes."""
    for e in p.ev:
        d = getattr(e, "decl", None)
        if e.k == "call" and d is not None and d.usr == fn.decl.usr:
            own = [("init", ("param", i)) for i in range(len(fn.f["p"]))]
            if list(e.args or []) == own and (d.static or e.obj is None or e.obj == ("this",)):
                return e
            return None
        if e.k == "call" and d is not None and (d.const or d.static or not d.cls):
            continue
        if e.k in ("subscript", "search", "at"):
            continue
        return None
    return None


def match(qn, pat):
    if pat.endswith("*"):
        return qn.startswith(pat[:-1])
    return qn == pat


def fnloc(fn):
    return fn.loc


def last_loc(p, fn):
    """Location of the last event of a path, else of the function."""
    for e in reversed(p.ev):
        if e.loc:
            return e.loc
    return fn.loc


def fact_lines(p):
    return [("" if v else "!") + show(a) for a, v in p.facts]


# ---- decision tables -------------------------------------------------------

class Row:
    """A path, reduced to its facts and an outcome to be interpreted."""
    __slots__ = ("facts", "value", "path", "kind")

    def __init__(self, facts, value, path, kind):
        self.facts, self.value, self.path, self.kind = facts, value, path, kind


def split_rows(paths, is_atom):
    """Splits paths whose value still depends on atoms, until values are constant in them.

    is_atom(term) says whether a boolean term belongs to the vocabulary.
    """
    out = []
    for p in paths:
        todo = [Row(list(p.facts), p.value if not isinstance(p.value, L) else None, p, p.kind)]
        n = 0
        while todo:
            r = todo.pop()
            n += 1
            if n > 256:
                out.append(r)
                continue
            t = None
            if r.value is not None and p.kind == "return":
                t = find_atom(r.value, is_atom)
            if t is None:
                out.append(r)
                continue
            for b in (True, False):
                v = subst_bool(r.value, t, b)
                todo.append(Row(r.facts + [(t, b)], v, p, p.kind))
    return out


def find_atom(v, is_atom):
    if v[0] in ("not",):
        return find_atom(v[1], is_atom)
    if v[0] in ("and", "or"):
        for x in v[1:]:
            a = find_atom(x, is_atom)
            if a is not None:
                return a
        return None
    if v[0] == "lin":
        for a, _ in v[2]:
            if is_atom(a):
                return a
        return None
    if v[0] == "ite":
        a = find_atom(v[1], is_atom)
        if a is not None:
            return a
        return None
    if v[0] in ("bool", "int", "void", "str"):
        return None
    return v if is_atom(v) else None


def subst_bool(v, t, b):
    if v == t:
        return TRUE if b else FALSE
    if v[0] == "not":
        return neg(subst_bool(v[1], t, b))
    if v[0] == "and":
        return conj([subst_bool(x, t, b) for x in v[1:]])
    if v[0] == "or":
        return disj([subst_bool(x, t, b) for x in v[1:]])
    if v[0] == "ite":
        c = subst_bool(v[1], t, b)
        if c == TRUE:
            return subst_bool(v[2], t, b)
        if c == FALSE:
            return subst_bool(v[3], t, b)
        return ("ite", c, v[2], v[3])
    if v[0] == "lin":
        c, d = v[1], {}
        for a, k in v[2]:
            if a == t:
                c += k if b else 0
            else:
                d[a] = d.get(a, 0) + k
        return mk_lin(c, d)
    return v


SKIP = "skip"


class Table:
    """A specification as a decision table over named boolean atoms.

    vocab(term)   -> (name, polarity), SKIP (says nothing) or None (unknown)
    names         -> the atoms
    feasible(a)   -> whether an assignment can occur
    spec(a)       -> the outcome required
    outcome(row)  -> the code's outcome, or None when it is not in the vocabulary
    """

    def __init__(self, names, vocab, spec, outcome, feasible=None, describe=None):
        self.names = list(names)
        self.vocab = vocab
        self.spec = spec
        self.outcome = outcome
        self.feasible = feasible or (lambda a: True)
        self.describe = describe or (lambda o: str(o))

    def check(self, ctx, oid, fn, paths, split=True):
        atom = lambda t: self.vocab(t) not in (None, SKIP)
        rows = split_rows(paths, atom) if split else [Row(p.facts, p.value, p, p.kind) for p in paths]
        status = "holds"
        why = None
        for r in rows:
            known, unknown, dead = {}, [], False
            for a, v in r.facts:
                n, pol = strip(a)
                w = self.vocab(n)
                if w == SKIP:
                    continue
                if w is None:
                    unknown.append((a, v))
                    continue
                name, wp = w
                val = v if (pol == wp) else not v
                if known.get(name, val) != val:
                    dead = True
                known[name] = val
            if dead:
                continue
            free = [n for n in self.names if n not in known]
            comps = []
            for bits in itertools.product((True, False), repeat=len(free)):
                a = dict(known)
                a.update(zip(free, bits))
                if self.feasible(a):
                    comps.append(a)
            if not comps:
                continue
            got = self.outcome(r)
            if got is None:
                status = "undecided" if status == "holds" else status
                why = "a path's outcome is outside the vocabulary at %s" % last_loc(r.path, fn)
                continue
            wants = [self.spec(a) for a in comps]
            bad = [(a, w) for a, w in zip(comps, wants) if not self.same(got, w)]
            if bad and (len(bad) == len(comps) or not unknown):
                a, w = bad[0]
                cond = ", ".join(("" if x else "not ") + n for n, x in a.items())
                ctx.violation(oid, "%s: when %s the result must be %s but is %s" % (
                    fn.qn, cond or "called", self.describe(w), self.describe(got)), last_loc(r.path, fn), fn.qn,
                    fact_lines(r.path))
                return
            if bad:
                status = "undecided" if status == "holds" else status
                why = "a path depends on a condition outside the vocabulary: %s" % show(unknown[0][0])[:200]
        if status == "holds":
            ctx.ok(oid)
        else:
            ctx.undecide(oid, why)

    def same(self, got, want):
        if callable(want):
            return want(got)
        return got == want


def strip(t):
    """(atom, polarity) of a possibly negated term."""
    pol = True
    while t[0] == "not":
        t, pol = t[1], not pol
    return t, pol


def calls(events, name=None, qn=None):
    for e in events:
        if e.k == "call" and (name is None or e.name == name) and (qn is None or match(e.qn, qn)):
            yield e


def stores_below(p, lv):
    """What a path left in the store at or below an lvalue."""
    return {q: v for q, v in p.S.store.items() if q == lv or is_sub(q, lv)}


def final(p, lv):
    """Value of an lvalue when the path ends, ('init', lv) when untouched."""
    S = p.S
    if lv in S.store:
        base = S.store[lv]
    elif lv[0] == "fld":
        base = engine.project(final(p, lv[1]), lv[2])
    elif lv[0] == "idx":
        base = engine.index(final(p, lv[1]), lv[2])
    else:
        base = ("init", lv)
    subs = []
    for q, v in S.store.items():
        if q != lv and is_sub(q, lv):
            path, r = [], q
            while r != lv:
                path.append(r[2])
                r = r[1]
            subs.append((tuple(reversed(path)), v))
    if subs:
        return ("with", base, tuple(sorted(subs, key=repr)))
    return base


def touched(p, lv):
    return any(q == lv or is_sub(q, lv) or is_sub(lv, q) for q in p.S.store)


def field_by_type(prog, cls_qn, pred):
    """Names of the fields of a class whose type satisfies pred."""
    c = prog.cls(cls_qn)[0]
    return [n for n in c.fields if pred(c.ftype(n))]


def getter_field(prog, qn, param_free=True):
    """The field path a trivial const accessor returns, as an lvalue below this."""
    for fn in prog.find(qn, required=False):
        if fn.f["p"] or not fn.decl.const:
            continue
        ps = Interp(prog).run(fn)
        if len(ps) == 1 and ps[0].kind == "return":
            v = ps[0].value
            if isinstance(v, L):
                return v.p
            if v[0] == "init":
                return v[1]
            if v[0] == "size" and v[1][0] == "init":
                return v[1][1]
    return None


# ---- linear cases ----------------------------------------------------------

def linear_atom(a):
    """Whether a literal is an order or equality between integer quantities."""
    a, _ = strip(a)
    if a[0] == "bool":
        return True
    if a[0] in ("pos", "eq0"):
        return all(x[0] in ("init", "size", "iter", "phi", "sym", "param", "this") or x[0] in ("fld", "deref", "idx")
                   for t in lin_parts(a[1])[1] for x in [t])
    return False


def leafy(v):
    """A boolean built from comparisons between stored quantities only."""
    if v[0] in ("not", "and", "or"):
        return all(leafy(x) for x in v[1:])
    if v[0] == "eq":
        return all(x[0] in ("init", "int", "size") for x in v[1:])
    return linear_atom(v)


def simplify_bool(t):
    if t[0] == "and":
        return conj([simplify_bool(x) for x in t[1:]])
    if t[0] == "or":
        return disj([simplify_bool(x) for x in t[1:]])
    if t[0] == "not":
        return neg(simplify_bool(t[1]))
    return t


def truth(facts, v):
    """Truth of a boolean term under linear facts: True, False or None."""
    if v[0] == "bool":
        return v[1]
    if v[0] == "not":
        r = truth(facts, v[1])
        return None if r is None else not r
    if v[0] == "and":
        rs = [truth(facts, x) for x in v[1:]]
        return False if False in rs else None if None in rs else True
    if v[0] == "or":
        rs = [truth(facts, x) for x in v[1:]]
        return True if True in rs else None if None in rs else False
    if v[0] == "ite":
        c = truth(facts, v[1])
        if c is None:
            a, b = truth(facts, v[2]), truth(facts, v[3])
            return a if a == b else None
        return truth(facts, v[2] if c else v[3])
    for a, w in facts:
        if a == v:
            return w
    return implied(facts, v)


def consistent(facts):
    """Whether the linear facts have a common solution (over the rationals)."""
    alts = [[]]
    for t, v in facts:
        c = _cons(t, v)
        if c is None:
            continue
        alts = [x + y for x in alts for y in c]
        if len(alts) > 256:
            return True
    return any(not infeasible(x) for x in alts)


def linear_cases(ctx, oid, fn, paths, cases, sub_, what, known=linear_atom):
    """Boolean results by cases of integer facts: cases = [(name, facts, expected)]."""
    for p in paths:
        if p.kind != "return" or isinstance(p.value, L):
            continue
        v = sub_(p.value)
        facts = [(sub_(a), x) for a, x in p.facts]
        unknown = [a for a, _ in facts if not known(a)]
        for name, bg, want in cases:
            fs = list(bg) + facts
            if not consistent(fs) or any(a == FALSE and x or a == TRUE and not x for a, x in facts):
                continue
            got = truth(fs, v)
            if got is None or got != want:
                bad = got is not None or leafy(v)
                ctx.expect(oid, False if bad and not unknown else None,
                           "%s: %s is %s but must be %s" % (fn.qn, what % name if "%" in what else what,
                                                            "undetermined" if got is None else str(got).lower(),
                                                            str(want).lower()), fn.loc, fn.qn, fact_lines(p))
                return
    ctx.ok(oid)


# ---- finite cases ------------------------------------------------------------

def value_of(t, leaf):
    """Concrete value of a boolean/integer term when leaf(t) gives the atoms, else None."""
    if t is None or isinstance(t, L):
        return None
    v = leaf(t)
    if v is not None:
        return v
    k = t[0]
    if k in ("bool", "int"):
        return t[1]
    if k == "str":
        return t
    if k == "not":
        x = value_of(t[1], leaf)
        return None if x is None else not x
    if k in ("and", "or"):
        xs = [value_of(x, leaf) for x in t[1:]]
        dom = k == "or"
        if any(x is not None and bool(x) == dom for x in xs):
            return dom
        return None if None in xs else not dom
    if k == "ite":
        c = value_of(t[1], leaf)
        if c is None:
            a, b = value_of(t[2], leaf), value_of(t[3], leaf)
            return a if a == b else None
        return value_of(t[2] if c else t[3], leaf)
    if k == "lin":
        s = t[1]
        for a, n in t[2]:
            x = value_of(a, leaf)
            if x is None or isinstance(x, tuple):
                return None
            s += n * int(x)
        return s
    if k in ("eq0", "pos"):
        x = value_of(t[1], leaf)
        if x is None or isinstance(x, tuple):
            return None
        return int(x) == 0 if k == "eq0" else int(x) > 0
    if k == "eq":
        a, b = value_of(t[1], leaf), value_of(t[2], leaf)
        return None if a is None or b is None else a == b
    if k in ("max", "min") and len(t) == 3:
        a, b = value_of(t[1], leaf), value_of(t[2], leaf)
        return None if a is None or b is None else (max if k == "max" else min)(a, b)
    if k == "mul":
        r = 1
        for x in t[1:]:
            v = value_of(x, leaf)
            if v is None or isinstance(v, tuple):
                return None
            r *= int(v)
        return r
    if k == "op" and len(t) == 4:
        a, b = value_of(t[2], leaf), value_of(t[3], leaf)
        if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
            return None
        a, b = int(a), int(b)
        f = {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b,
             "/": lambda: None if b == 0 else int(a / b), "%": lambda: None if b == 0 else a - b * int(a / b)}.get(t[1])
        return f() if f else None
    return None


def holds_in(facts, leaf, ignore=None):
    """True when every fact holds, False when one fails, None when one is unknown; and the unknown ones."""
    unknown = []
    for a, v in facts:
        if ignore is not None and ignore(a):
            continue
        x = value_of(a, leaf)
        if x is None:
            unknown.append(a)
        elif bool(x) != v:
            return False, []
    return (None if unknown else True), unknown


def by_cases(ctx, oid, fn, paths, envs, leaf, outcome, name=str, ignore=None):
    """For every assignment of the atoms, every path it selects must have the right outcome.

    leaf(env, term) -> value of an atom; outcome(env, path) -> (True|False|None, message).
    """
    worst = None
    for env in envs:
        lf = lambda t: leaf(env, t)
        seen = False
        for p in paths:
            h, unknown = holds_in(p.facts, lf, ignore)
            if h is False:
                continue
            seen = True
            ok, msg = outcome(env, p)
            if ok is False and h is True:
                ctx.violation(oid, "%s: when %s, %s" % (fn.qn, name(env), msg), last_loc(p, fn), fn.qn, fact_lines(p))
                return False
            if ok is not True:
                worst = "%s: when %s, %s" % (fn.qn, name(env), msg if ok is None else
                                             "%s under an unrecognised condition %s" % (msg, show(unknown[0])[:160]))
        if not seen:
            worst = worst or "%s: no path when %s" % (fn.qn, name(env))
    if worst:
        ctx.undecide(oid, worst)
        return None
    ctx.ok(oid)
    return True


def uses_after_move(p, term):
    """Location where a parameter's value is used after it was moved into a call, else None."""
    moved = consumed = False
    for e in p.ev:
        if e.k == "move" and e.obj == term:
            if consumed:
                return e.loc
            moved = True
        elif e.k == "call" and e.args:
            inside = any(x == term for a in e.args if isinstance(a, tuple) for x in walk(a)) or e.obj == term
            if consumed and inside:
                return e.loc
            if moved and inside:
                consumed = True
    return None
