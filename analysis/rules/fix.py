"""Loops that repeat sweeps over a collection until nothing changes, as finite automata over their flags.

A step's outcome is an environment (a dict); `leaf(env, t)` gives the value of the terms it decides, `change(env)` whether
it changed something, `fail(env)` whether it must end the function. Values the steps leave open make the verdict None.
"""
from common import *
from rules.seqs import bound, candidates, covers


class Undecided(Exception):
    pass


class Wrong(Exception):
    def __init__(self, msg, loc=None):
        self.msg, self.loc = msg, loc


class Fix:
    def __init__(self, p, is_coll, envs, leaf, change, fail=lambda e: False, free=lambda a: False, fail_value=None, result=None, what="predicate"):
        """is_coll(term): the collection swept (None: a step is one iteration of the outer loop)."""
        self.p, self.is_coll, self.envs, self.leaf, self.change, self.fail = p, is_coll, envs, leaf, change, fail
        self.free, self.fail_value, self.result, self.what = free, fail_value, result, what

    # -- shape ---------------------------------------------------------------------

    def shape(self, paths):
        """The outer loop and, for collections, the inner one."""
        outs, inners = {}, {}
        for p in paths:
            for e in p.ev:
                if e.k != "loop":
                    continue
                outs[e.loop.id] = e.loop
                for ip in e.loop.paths:
                    for e2 in ip.events:
                        if e2.k == "loop" and any(self.is_coll(o) for o in candidates(e2.loop)):
                            inners[e2.loop.id] = (e2.loop, e.loop.id)
        for i in inners:
            outs.pop(i, None)
        if len(outs) == 1 and not inners and not any(l.paths for l in outs.values()):
            raise Wrong("the loop is never entered", [l.loc for l in outs.values()][0])
        if self.is_coll(None):
            inners = {}
            if len(outs) != 1:
                raise Undecided("the loop is not recognised")
            self.outer, = outs.values()
            self.inner = None
            return
        if not inners:
            flat = [l for l in outs.values() if any(self.is_coll(o) for o in candidates(l))]
            if len(flat) == len(outs) == 1:
                raise Wrong("not repeated until nothing changes", flat[0].loc)
            raise Undecided("the loops are not recognised")
        if len(inners) != 1 or len(outs) != 1:
            raise Undecided("the loops are not recognised")
        (self.inner, oid), = inners.values()
        if oid not in outs:
            raise Undecided("the loops are not recognised")
        self.outer = outs[oid]
        o = [o for o in candidates(self.inner) if self.is_coll(o)][0]
        c = True if self.inner.dir == "desc" and o in self.inner.over else covers(self.inner, o)
        if c is not True:
            raise Wrong("not every %s is looked at" % self.what, self.inner.loc) if c is False else Undecided("the loop is not recognised")
        self.coll = o

    # -- flags ---------------------------------------------------------------------

    def flags(self):
        out = []
        for lp in (self.outer, self.inner):
            if lp is None:
                continue
            for q in lp.mod:
                t = ("phi", lp.id, q)
                vals = [lp.init.get(q)] + [ip.S.store.get(q, t) for ip in lp.paths]
                if any(v is not None and self.truthlike(v) for v in vals):
                    out.append(q)
        return sorted(set(out), key=repr)

    def truthlike(self, v):
        return v[0] in ("bool", "or", "and", "not", "int", "pos", "eq0", "eq", "lin", "ite", "max", "min") or \
            any(self.leaf(e, v) is not None for e in self.envs[:1])

    def val(self, t, lf):
        return value_of(t, lf)

    def iterate(self, lp, ips, lf):
        """Feasible iteration paths (path) under lf; raises Undecided on unknown conditions."""
        out = []
        for ip in ips:
            h, unk = holds_in(ip.facts, lf, lambda a: bound(a, lp) or strip(a)[0][0] == "more" or self.free(a))
            if h is False:
                continue
            if h is None:
                raise Undecided("a condition that is not recognised")
            out.append(ip)
        return out

    def step_flags(self, store, lp, lf, base):
        r = {}
        for q in self.fl:
            t = ("phi", lp.id, q)
            v = store.get(q, t) if q in lp.mod else None
            if v is None:
                r[q] = base.get(q)
            else:
                x = self.val(v, lf)
                r[q] = None if x is None else int(x) if not isinstance(x, tuple) else None
        return r

    def key(self, f):
        return tuple(sorted(((repr(k), v) for k, v in f.items())))

    def phis(self, lp, f, more=None, env=None):
        def lf(t):
            if t[0] == "phi" and t[1] == lp.id and t[2] in f:
                return f[t[2]]
            if more is not None:
                x = more(t)
                if x is not None:
                    return x
            return self.leaf(env, t) if env is not None else None
        return lf

    # -- exploration ---------------------------------------------------------------

    def check(self, paths):
        """Raises Wrong or Undecided."""
        self.shape(paths)
        self.fl = self.flags()
        outer = self.outer
        start = {}
        for q in self.fl:
            v = outer.init.get(q)
            x = self.val(v, lambda t: None) if v is not None else None
            start[q] = None if x is None or isinstance(x, tuple) else int(x)
        self.tops = []
        for p in paths:
            for e in p.ev:
                if e.k == "loop" and e.loop.id == outer.id:
                    self.tops.append((p, e.extra))
        # state: flags, last sweep (None before the first; else changed?), ever changed
        seen, todo = {}, [(start, None, 0)]
        while todo:
            f, last, ever = todo.pop()
            k = (self.key(f), last, ever)
            if k in seen:
                continue
            seen[k] = (f, last, ever)
            if len(seen) > 200:
                raise Undecided("too many states")
            self.leave(f, last, ever)
            for f2, c, e2, quiet in self.body(f, ever):
                todo.append((f2, c, e2))
        # A sweep that changes nothing must lead out.
        for f, last, ever in list(seen.values()):
            if last == 0:
                self.drains(f, ever)

    def head_out(self, f):
        """Top-level paths that leave the loop at its head in this state."""
        out = []
        lf = self.phis(self.outer, f)
        for p, x in self.tops:
            if x != "exit":
                continue
            h, unk = holds_in(p.facts, lf, lambda a: self.free(a) or strip(a)[0][0] == "more")
            if h is False:
                continue
            if h is None:
                raise Undecided("the condition of the loop is not recognised")
            out.append(p)
        return out

    def leave(self, f, last, ever):
        for p in self.head_out(f):
            if last is None:
                raise Wrong("the loop may be skipped altogether", self.outer.loc)
            self.ended(p, last == 0, ever, self.phis(self.outer, f))

    def ended(self, p, quiet, ever, lf):
        if not quiet:
            raise Wrong("ends although the last sweep changed something, or was not complete", self.outer.loc)
        if p.kind == "throw":
            raise Wrong("fails although nothing is wrong", self.outer.loc)
        if self.result is not None:
            r = self.result(p, lf, ever)
            if r is None:
                raise Undecided("the result is not recognised")
            if not r:
                raise Wrong("the result is wrong", self.outer.loc)

    def drains(self, f, ever):
        seen = set()
        cur = [f]
        while cur:
            nxt = []
            for g in cur:
                if self.key(g) in seen:
                    raise Wrong("never ends once nothing changes any more", self.outer.loc)
                seen.add(self.key(g))
                outs = self.head_out(g)
                for f2, c, e2, left in self.body(g, ever, quiet_only=True):
                    if not left:
                        nxt.append(f2)
            cur = nxt

    def body(self, f, ever, quiet_only=False):
        """Outer iterations from f: (flags, changed, ever changed, False). Checks what leaves inside."""
        out = []
        outer = self.outer
        if self.inner is None:
            for env in self.envs:
                if quiet_only and (self.change(env) or self.fail(env)):
                    continue
                lf = self.phis(outer, f, env=env)
                for ip in self.iterate(outer, outer.paths, lf):
                    c = int(bool(self.change(env)))
                    r = self.flow(ip, env, lf, c, ever | c, outer, True)
                    if r == "go":
                        out.append((self.step_flags(ip.S.store, outer, lf, f), c, ever | c, False))
            return out
        base = self.phis(outer, f)
        # iterations that do not reach the sweep
        ins, without = [], []
        for ip in outer.paths:
            es = [e for e in ip.events if e.k == "loop" and e.loop.id == self.inner.id]
            (ins if es else without).append((ip, es))
        for ip, _ in without:
            h, unk = holds_in(ip.facts, base, lambda a: bound(a, outer) or self.free(a) or strip(a)[0][0] == "more")
            if h is not False:
                if h is True:
                    raise Wrong("a round without looking at every %s" % self.what, outer.loc)
                raise Undecided("a condition that is not recognised")
        ends = set()
        g0 = {}
        for q in self.fl:
            v = self.inner.init.get(q)
            if q in self.inner.mod and v is not None:
                x = self.val(v, base)
                g0[q] = None if x is None or isinstance(x, tuple) else int(x)
            else:
                g0[q] = f.get(q)
        seen, todo = set(), [(g0, 0, ever)]
        while todo:
            g, c, ev = todo.pop()
            k = (self.key(g), c, ev)
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 400:
                raise Undecided("too many states")
            # the sweep is complete
            out += self.after(ins, "exit", f, g, c, ev, None, True)
            for env in self.envs:
                if quiet_only and (self.change(env) or self.fail(env)):
                    continue
                lf = self.phis(self.inner, g, more=base, env=env)
                for ip in self.iterate(self.inner, self.inner.paths, lf):
                    c2 = int(bool(self.change(env)))
                    if ip.flow in (None, "continue"):
                        if self.fail(env):
                            raise Wrong("goes on after a contradiction", self.inner.loc)
                        todo.append((self.step_flags(ip.S.store, self.inner, lf, g), c | c2, ev | c2))
                    elif ip.flow == "throw":
                        if not self.fail(env):
                            raise Undecided("a step may fail")
                    elif ip.flow == "break":
                        out += self.after(ins, "break", f, g, c | c2, ev | c2, env, False)
                    else:
                        self.returned(ip, env, lf, c | c2)
        return out

    def after(self, ins, how, f, g, c, ev, env, complete):
        """Outer iterations continuing after the inner loop ended in flags g."""
        out = []
        for ip, es in ins:
            if es[0].extra != how:
                continue
            lf = self.phis(self.inner, g, more=self.phis(self.outer, f), env=env)
            h, unk = holds_in(ip.facts, lf, lambda a: bound(a, self.inner) or bound(a, self.outer) or strip(a)[0][0] == "more" or self.free(a))
            if h is False:
                continue
            if h is None:
                raise Undecided("a condition that is not recognised")
            c2 = c if complete else 1
            r = self.flow(ip, env, lf, c2, ev, self.outer, complete)
            if r == "go":
                out.append((self.step_flags(ip.S.store, self.outer, lf, f), c2, ev, False))
        return out

    def returned(self, ip, env, lf, c):
        """A step that returns from within the loop."""
        v = ip.flow[1] if isinstance(ip.flow, tuple) else None
        if self.fail(env):
            if self.fail_value is not None:
                x = value_of(v, lf) if v is not None else None
                if x is None:
                    raise Undecided("the result is not recognised")
                if bool(x) != self.fail_value:
                    raise Wrong("a contradiction is not reported", self.outer.loc)
            return
        raise Wrong("ends before every %s was looked at without a change" % self.what, self.outer.loc)

    def flow(self, ip, env, lf, c, ever, lp, complete):
        if ip.flow in (None, "continue"):
            if env is not None and self.fail(env):
                raise Wrong("goes on after a contradiction", lp.loc)
            return "go"
        if ip.flow == "throw":
            if env is None or not self.fail(env):
                raise Undecided("a step may fail")
            return "out"
        if ip.flow == "break":
            tops = [p for p, x in self.tops if x == "break"]
            if env is not None and self.fail(env):
                if self.fail_value is None:
                    raise Undecided("the loop is left by a contradiction")
                for p in tops:
                    h, unk = holds_in(p.facts, lf, lambda a: True if self.free(a) or strip(a)[0][0] == "more" else
                                      any(bound(a, l) for l in (self.inner, self.outer) if l))
                    if h is False:
                        continue
                    x = value_of(p.value, lf) if p.kind == "return" else None
                    if h is None or x is None:
                        raise Undecided("the result is not recognised")
                    if bool(x) != self.fail_value:
                        raise Wrong("a contradiction is not reported", self.outer.loc)
                return "out"
            used = False
            for p in tops:
                h, unk = holds_in(p.facts, lf, lambda a: True if self.free(a) or strip(a)[0][0] == "more" else
                                  any(bound(a, l) for l in (self.inner, self.outer) if l))
                if h is False:
                    continue
                used = True
                self.ended(p, c == 0 and complete, ever, lf)
            if not used:
                raise Undecided("what follows the loop is not recognised")
            return "out"
        if env is not None and self.fail(env):
            self.returned(ip, env, lf, c)
            return "out"
        if c or not complete:
            raise Wrong("ends although the last sweep changed something, or was not complete", lp.loc)
        if self.result is not None:
            class P:
                kind, value, ev = "return", ip.flow[1] if isinstance(ip.flow, tuple) else None, ip.events
                S = ip.S
            r = self.result(P, lf, ever)
            if r is None:
                raise Undecided("the result is not recognised")
            if not r:
                raise Wrong("the result is wrong", lp.loc)
        return "out"
