"""C01: a state behaves as a set of propositions."""
from common import *
from rules.sets import *
from rules import small

LEVEL = "other"
EXPLAIN = ("Value-numbering dataflow over every path of the set templates, instantiated for propositions, and of the "
           "state's forwarding operations. Each operation's path summaries are compared with a decision table over "
           "'is the value present': result, effect, bucket addressed and element count. Iteration is checked as a "
           "scan with an inductive transfer rule. Nothing is executed.")


def run(ctx):
    prog = ctx.program(["src/state.cc"], ["sets"])
    ctx.group("sorted-vector", uv_rules, ctx, prog)
    M = HashSetModel(ctx, prog)
    ctx.group("hash-set", hs_ops, ctx, prog, M)
    ctx.group("rebuild", rehash_rule, ctx, prog, M)
    for it in ("const_iterator", "iterator"):
        ctx.group(it, iterator_rules, ctx, prog, M, it)
        ctx.group(it + "s", small.iterators, ctx, prog, M, it, iter_fields(prog, HS + "::" + it))
    ctx.group("ctor", ctor_rules, ctx, prog, M)
    ctx.group("state", state_rules, ctx, prog)
    ctx.group("vectors", small.vectors, ctx, prog)
    ctx.group("hash-sets", small.hash_sets, ctx, prog, M)
    ctx.group("states", small.states, ctx, prog, M)
    ctx.group("copies", copies, ctx, prog)
    for it in ("const_iterator", "iterator"):
        ctx.overrule(it + r"\.", r"small\.%s\." % it)


def hs_ops(ctx, prog, M):
    """Each operation works on the element's own bucket and keeps the count."""
    shapes = {}
    for name, meth in (("contains", "contains"), ("insert", "insert"), ("erase", "erase")):
        for fn in prog.find(HS + "::" + name):
            ps = ctx.run(prog, fn, CMP + PROP + UVM)
            oid = "hash-set.%s(%s)" % (name, sig(fn))
            status, why = True, ""
            for p in ps:
                if p.kind != "return":
                    continue
                direct = [e for e in bucket_calls(p, M)]
                mine = [e for e in direct if e.args and mentions_arg(e.args[0])]
                if not mine and not any(e.k == "loop" for e in p.ev):
                    if direct or not p.facts:
                        ctx.violation(oid, "%s: the value is not %s a bucket" % (
                            fn.qn, {"contains": "looked up in", "insert": "inserted into", "erase": "erased from"}[name]),
                            last_loc(p, fn), fn.qn, fact_lines(p))
                        status = False
                        break
                    status, why = None, "no bucket operation on a path"
                    continue
                muts = [e for e in mine if e.name == meth or (meth == "insert" and e.name == "emplace")]
                if len(muts) != 1:
                    status, why = None, "bucket operations %s" % [e.name for e in mine]
                    continue
                e = muts[0]
                # the right bucket
                if e.obj[0] == "idx" and e.obj[1] == M.B:
                    ix = subst(e.obj[2], lambda t: M.NB if t[0] == "size" and t[1][0] == "phi" and t[1][2] == M.B else None)
                    shp, xs = M.norm_index(ix, M.NB)
                    if not any(x == ("H",) for x in walk(shp)) or any(root(x) != ("param", 0) for x in xs):
                        ctx.violation(oid, "%s: the bucket does not depend on the value's hash" % fn.qn, e.loc, fn.qn)
                        status = False
                        break
                    shapes.setdefault(shp, []).append((fn, e.loc))
                else:
                    status, why = None, "bucket selected by an unrecognised expression"
                # the result
                r = e.ret
                changed = [v for a, v in p.facts if a == r]
                asked = any(x is not e and x.name in ("contains", "find") for x in mine)
                val = p.value
                if val == r or (changed and val == (TRUE if changed[-1] else FALSE)):
                    pass
                elif val in (TRUE, FALSE) or val == neg(r):
                    if changed or not p.facts and not asked:
                        ctx.violation(oid, "%s: returns %s although the bucket reports %s" % (
                            fn.qn, show(val), "the opposite" if changed else "otherwise in some cases"),
                            last_loc(p, fn), fn.qn, fact_lines(p))
                        status = False
                        break
                    status, why = None, "result on a path"
                else:
                    status, why = None, "result %s" % show(val)
                # the count
                if M.sizes and name != "contains":
                    n = final(p, M.size_lv)
                    delta = sub(n, ("init", M.size_lv))
                    sgn = 1 if name == "insert" else -1
                    if changed:
                        want = I(sgn if changed[-1] else 0)
                        if delta != want and is_int(delta):
                            ctx.violation(oid, "%s: the element count changes by %d when the set %s" % (
                                fn.qn, delta[1], "changes" if changed[-1] else "does not change"),
                                last_loc(p, fn), fn.qn, fact_lines(p))
                            status = False
                            break
                        if delta != want:
                            status, why = None, "element count"
                    elif delta == mul(I(sgn), r):
                        pass
                    elif is_int(delta) and asked:
                        status, why = None, "element count"
                    elif is_int(delta):
                        ctx.violation(oid, "%s: the element count changes by %d whether or not the set changes" % (
                            fn.qn, delta[1]), last_loc(p, fn), fn.qn, fact_lines(p))
                        status = False
                        break
                    else:
                        status, why = None, "element count"
            if status is True:
                ctx.ok(oid)
            elif status is None:
                ctx.undecide(oid, why)
    M.shapes = shapes
    if len(shapes) > 1:
        least = min(shapes.items(), key=lambda kv: len(kv[1]))
        fn, loc = least[1][0]
        ctx.violation("hash-set.same-bucket", "%s selects the bucket differently (%s) from the other operations" % (
            fn.qn, show(least[0])), loc, fn.qn)
    elif shapes:
        ctx.ok("hash-set.same-bucket")
        shp = next(iter(shapes))
        ctx.expect("hash-set.bucket-in-range", True if shp == ("op", "%", ("H",), ("N",)) else None,
                   "bucket index %s" % show(shp), "")
    # size and emptiness
    for fn in prog.find(HS + "::empty"):
        for p in ctx.run(prog, fn):
            sz = ("init", M.size_lv) if M.size_lv else None
            want = eq0(sz) if M.sizes else None
            v = p.value
            ok = None
            if want is not None:
                if v == want or v == neg(pos(sz)):
                    ok = True
                elif any(e.k == "loop" for e in p.ev) or not set(x for a, _ in p.facts for x in walk(a) if x[0] == "fld") <= {M.size_lv}:
                    pass
                elif v in (TRUE, FALSE, neg(want), pos(sz)) or (v[0] in ("pos", "eq0", "not") and
                                                                  set(x for x in walk(v) if x[0] == "fld") <= {M.size_lv}):
                    ok = False
            ctx.expect("hash-set.empty", ok, "%s: is not 'the element count is zero'" % fn.qn, fn.loc, fn.qn)


def rebuild_loops(p, M):
    for e in p.ev:
        if e.k == "loop" and any(q == M.B or is_sub(q, M.B) or is_sub(M.B, q) for q in e.loop.mod):
            yield e


def rehash_rule(ctx, prog, M):
    """Changing the number of buckets re-inserts every element into its bucket."""
    seen = 0
    for name in ("insert", "erase"):
        for fn in prog.find(HS + "::" + name):
            ps = ctx.run(prog, fn, CMP + PROP + UVM)
            for p in ps:
                if p.kind != "return":
                    continue
                loops = list(rebuild_loops(p, M))
                fin = final(p, M.B)
                oid = "hash-set.rebuild(%s:%s)" % (name, sig(fn))
                if not loops:
                    # The bucket array may only be replaced through a re-insertion.
                    if fin[0] == "new" or fin == ("list",):
                        ctx.violation(oid, "%s replaces the buckets without re-inserting the elements" % fn.qn,
                                      last_loc(p, fn), fn.qn, fact_lines(p))
                        return
                    continue
                seen += 1
                ok, why, loc = rebuild_ok(loops[0].loop, M)
                if len(loops) > 1:
                    ok, why = None, "more than one rebuilding loop"
                ctx.expect(oid, ok, "%s: rebuilding the buckets %s" % (fn.qn, why), loc or last_loc(p, fn), fn.qn,
                           fact_lines(p))
    if not seen:
        ctx.undecide("hash-set.rebuild", "no rebuilding loop recognised")


def rebuild_ok(lp, M):
    init = lp.init.get(M.B)
    if init is None:
        return None, "starts from an unrecognised value", lp.loc
    if init[0] != "new":
        if init[0] in ("init", "mut"):
            return None, "re-inserts into the old buckets", lp.loc
        return None, "starts from an unrecognised value", lp.loc
    if len(lp.over) != 1 or lp.dir is None:
        if lp.lo is not None and lp.hi is not None:
            return False, "does not visit every old bucket", lp.loc
        return None, "visits the old buckets in an unrecognised way", lp.loc
    old = lp.over[0]
    if not any(x == M.B for x in walk(old)):
        return None, "iterates over an unrecognised container", lp.loc
    inner = None
    for ip in lp.paths:
        if ip.flow is not None:
            return False, "leaves early, dropping buckets", lp.loc
        ls = [e for e in ip.events if e.k == "loop"]
        if len(ls) != 1:
            unk = [a for a, v in ip.facts if a[0] != "more"]
            if not ls:
                # an iteration that handles no element: fine only for an empty bucket
                if all(a[0] in ("pos", "eq0") and any(x[0] == "size" for x in walk(a)) for a, v in ip.facts if a[0] != "more") and unk:
                    continue
                return (None if unk else False), "skips buckets", lp.loc
            return None, "has an unrecognised body", lp.loc
        inner = ls[0].loop
        if len(inner.over) != 1:
            if inner.lo is not None and inner.hi is not None:
                return False, "does not visit every element of a bucket", inner.loc
            return None, "visits a bucket in an unrecognised way", inner.loc
        for jp in inner.paths:
            if jp.flow is not None:
                return False, "leaves a bucket early, dropping elements", inner.loc
            ins = [e for e in jp.events if e.k == "call" and e.qn.startswith(UV + "::") and e.name in ("insert", "emplace")]
            facts = [a for a, v in jp.facts if a[0] != "more"]
            if not ins:
                return False, "drops elements", inner.loc
            if len(ins) > 1:
                return None, "inserts more than once", inner.loc
            e = ins[0]
            if e.obj[0] != "idx" or e.obj[1] != M.B:
                return None, "inserts elsewhere", e.loc
            nb = ("size", ("phi", inner.id, M.B))
            nb2 = ("size", ("phi", lp.id, M.B))
            shp, xs = M.norm_index(subst(e.obj[2], lambda t: ("N",) if t in (nb, nb2, size_n(init)) else None), nb)
            if M.shapes and shp not in M.shapes:
                return False, "puts elements into a different bucket than a lookup uses (%s)" % show(shp), e.loc
            # the element inserted is the one visited
            want = ("iter", inner.id)
            if not any(x[:2] == want for x in walk(e.args[0])) or not all(any(y[:2] == want for y in walk(x)) for x in xs):
                return False, "does not re-insert the visited element", e.loc
    return True, "", lp.loc


def size_n(init):
    return init[2] if len(init) > 2 else ("none",)


# ---- iterators -------------------------------------------------------------

def iter_fields(prog, cls):
    """(buckets field, bucket index field, index-in-bucket field) of an iterator class."""
    for fn in prog.find(cls + "::" + cls.rsplit("::", 1)[1]):
        if len(fn.f["p"]) == 3:
            ps = Interp(prog).run(fn)
            if len(ps) != 1:
                continue
            st = ps[0].S.store
            pick = {}
            for q, v in st.items():
                if q[0] == "fld" and q[1] == THIS:
                    for i in (1, 2):
                        if v == ("init", ("param", i)):
                            pick[i] = q
                    if v == ("addr", ("param", 0)):
                        pick[0] = q
            if len(pick) == 3:
                return pick[0], pick[1], pick[2]
    raise AnalysisError("anchor not found: the position constructor of %s" % cls)


def iterator_rules(ctx, prog, M, it):
    cls = HS + "::" + it
    fb, fi, fj = iter_fields(prog, cls)
    b0, i0, j0 = ("init", fb), ("init", fi), ("init", fj)
    bl = ("deref", b0)

    def bucket_size(ix, p=None):
        return ("size", ("init", ("idx", bl, ix)))

    nb = ("size", ("init", bl))
    # forward
    for fn in prog.find(cls + "::operator++"):
        ps = ctx.run(prog, fn)
        scan(ctx, "%s.next(%s)" % (it, sig(fn)), fn, ps, fi, fj, i0, add(j0, I(1)), bucket_size, nb, +1)
        post_rule(ctx, "%s.next(%s).value" % (it, sig(fn)), fn, ps)
    for fn in prog.find(cls + "::operator--"):
        ps = ctx.run(prog, fn)
        scan(ctx, "%s.previous(%s)" % (it, sig(fn)), fn, ps, fi, fj, i0, sub(j0, I(1)), bucket_size, nb, -1)
        post_rule(ctx, "%s.previous(%s).value" % (it, sig(fn)), fn, ps)
    for fn in prog.find(cls + "::operator*") + prog.find(cls + "::operator->"):
        for p in ctx.run(prog, fn):
            want = ("idx", ("idx", bl, i0), j0)
            v = p.value
            if not isinstance(v, L) and v[0] == "addr":
                got = v[1]
            else:
                got = v.p if isinstance(v, L) else None
            ok = True if got == want else (False if got is not None and root(got) == root(want) and got[0] == "idx" else None)
            ctx.expect("%s.%s" % (it, fn.decl.name), ok, "%s: designates another element" % fn.qn, fn.loc, fn.qn)
    for fn in prog.find(cls + "::operator==") + prog.find(cls + "::operator!="):
        a, b = strip(eq(i0, ("init", ("fld", ("param", 0), fi[2]))))[0], strip(eq(j0, ("init", ("fld", ("param", 0), fj[2]))))[0]
        bb = strip(eq(b0, ("init", ("fld", ("param", 0), fb[2]))))[0]

        def voc(t):
            if t == a:
                return ("bucket", True)
            if t == b:
                return ("slot", True)
            if t == bb:
                return ("set", True)
            return None
        sp = lambda x: x["bucket"] and x["slot"] and x["set"]
        t = Table(["bucket", "slot", "set"], voc, sp if fn.decl.name == "operator==" else (lambda x: not sp(x)),
                  lambda r: None if r.value not in (TRUE, FALSE) else r.value == TRUE,
                  feasible=lambda x: x["set"])
        t.check(ctx, "%s.%s" % (it, fn.decl.name), fn, ctx.run(prog, fn))
    # begin / end
    for fn in prog.find(HS + "::begin"):
        if (it == "iterator") == fn.decl.const:
            continue
        ps = ctx.run(prog, fn)
        oid = "%s.begin" % it
        check_begin(ctx, oid, fn, ps, M, fb, fi, fj)
    for fn in prog.find(HS + "::end"):
        if (it == "iterator") == fn.decl.const:
            continue
        for p in ctx.run(prog, fn):
            v = p.value if not isinstance(p.value, L) else None
            bi = v and engine.project(v, fi[2])
            ji = v and engine.project(v, fj[2])
            ok = True if (bi == M.NB and ji == I(0)) else (False if v and all(known_pos(x, M) for x in (bi, ji)) else None)
            ctx.expect("%s.end" % it, ok, "%s: the end is not just past the last bucket" % fn.qn, fn.loc, fn.qn)


def known_pos(x, M):
    return is_int(x) or x == M.NB or (x[0] == "lin" and all(a == M.NB for a, _ in x[2]))


def post_rule(ctx, oid, fn, ps):
    """Pre-increment yields *this; post-increment yields the old value."""
    post = bool(fn.f["p"])
    for p in ps:
        if p.kind != "return":
            continue
        v = p.value
        if post:
            ok = None if isinstance(v, L) else (True if v == ("init", THIS) else False if v[0] in ("with", "init") else None)
        else:
            ok = True if isinstance(v, L) and v.p == THIS else (False if not isinstance(v, L) else None)
        if ok is not True:
            ctx.expect(oid, ok, "%s: returns %s" % (fn.qn, "the new position" if post else "a copy"), fn.loc, fn.qn)
            return
    ctx.ok(oid)


def scan(ctx, oid, fn, ps, fi, fj, b_init, j_init, bucket_size, nb, sgn, S0=None):
    """The position moves to the next (previous) element, skipping exhausted buckets only."""
    it = Interp(None)
    for p in ps:
        if p.kind != "return":
            continue
        bi, ji = final(p, fi), final(p, fj)
        loops = [e for e in p.ev if e.k == "loop" and (fi in e.loop.mod or fj in e.loop.mod)]
        if len(loops) > 1:
            ctx.undecide(oid, "two scanning loops")
            return
        facts = list(p.facts)
        if sgn > 0:
            facts += [(le(I(0), b_init), True), (le(I(0), j_init), True)]
            if not consistent(facts):
                continue
        if loops:
            lp = loops[0].loop
            eb = lp.entry.get(fi, b_init)
            ej = lp.entry.get(fj, j_init)
            ib = lp.init.get(fi, b_init)
            ij = lp.init.get(fj, j_init)
            start_ok = (ib, ij) == (b_init, j_init)
            if not start_ok:
                # The first position may already have been normalised by hand.
                ctx.expect(oid, False if simple(ib) and simple(ij) else None,
                           "%s: the scan starts at the wrong position" % fn.qn, lp.loc, fn.qn, fact_lines(p))
                return
            for ip in lp.paths:
                if ip.flow is not None:
                    continue
                nbv, njv = ip.S.store.get(fi, eb), ip.S.store.get(fj, ej)
                if sgn > 0:
                    good = nbv == add(eb, I(1)) and njv == I(0)
                    # Positions never are negative: the start is a valid position, later ones are 0.
                    fwd = list(ip.allfacts) + [(le(I(0), ej), True), (le(I(0), eb), True)]
                    if not consistent(fwd):
                        continue
                    exhausted = decide(fwd, le(bucket_size(eb), ej))
                else:
                    good = nbv == sub(eb, I(1)) and njv == sub(bucket_size(sub(eb, I(1))), I(1))
                    exhausted = decide(ip.allfacts, lt(ej, I(0)))
                if not good:
                    ctx.expect(oid, False if (simple(nbv) or nbv == eb) and numeric(njv) else None,
                               "%s: the scan does not step to the %s of the %s bucket" % (
                                   fn.qn, "start" if sgn > 0 else "last element", "next" if sgn > 0 else "previous"),
                               lp.loc, fn.qn)
                    return
                if exhausted is not True:
                    ctx.expect(oid, False if all(numeric(a) for a, _ in ip.facts) else None,
                               "%s: a bucket that still has elements may be skipped" % fn.qn, lp.loc, fn.qn,
                               [("" if v else "!") + show(a) for a, v in ip.facts])
                    return
        else:
            lp = None
            if (bi, ji) not in ((b_init, j_init), (b_init, I(0))) and not (sgn < 0):
                ctx.expect(oid, False if simple(bi) and numeric(ji) else None,
                           "%s: moves to the wrong position" % fn.qn, last_loc(p, fn), fn.qn, fact_lines(p))
                return
        if lp is not None and sgn > 0 and not in_bounds(ctx, oid, fn, lp, fi, eb, ib, bucket_size, nb):
            return
        # Where the path ends: a valid element, or past the end.
        if sgn > 0:
            if lp is not None:
                facts += [(le(I(0), eb), True), (le(I(0), ej), True)]
                if not consistent(facts):
                    continue
            valid = decide(facts, lt(ji, bucket_size(bi)))
            atend = decide(facts, le(nb, bi))
            if valid is True:
                continue
            if atend is True:
                if decide(facts, le(nb, b_init)) is True and not lp:
                    continue
                z = ji == I(0)
                if not z and lp is not None and ji == lp.entry.get(fj):
                    z = all(ip.S.store.get(fj) == I(0) for ip in lp.paths if ip.flow is None) or None
                    first = facts + [(eq0(sub(eb, ib)), True), (eq0(sub(ej, ij)), True), (lt(ib, nb), True)]
                    if z is True and ij != I(0) and consistent(first):
                        z = False       # left in the first round, with the slot it started from
                if z is True:
                    # exactly the end position
                    if decide(facts, eq0(sub(bi, nb))) is False:
                        ctx.violation(oid, "%s: stops beyond the end position" % fn.qn, last_loc(p, fn), fn.qn, fact_lines(p))
                        return
                    continue
                ctx.expect(oid, False if z is False and numeric(ji) else None,
                           "%s: the position past the last bucket differs from the end" % fn.qn, last_loc(p, fn), fn.qn,
                           fact_lines(p))
                return
        else:
            valid = decide(facts, le(I(0), ji))
            if valid is True or decide(facts, lt(bi, I(0))) is True:
                continue
        rec = all(numeric(a) for a, _ in facts)
        ctx.expect(oid, False if rec else None, "%s: may stop on a bucket without a next element" % fn.qn,
                   last_loc(p, fn), fn.qn, fact_lines(p))
        return
    ctx.ok(oid)


def in_bounds(ctx, oid, fn, lp, fi, eb, ib, bucket_size, nb):
    """A scan only looks into buckets there are, when it starts at one of them."""
    inside = (lt(eb, nb), True)
    reads = []
    for ip in lp.paths:
        n = next((i for i, (a, _) in enumerate(ip.facts) if bucket_size(eb) in list(walk(a))), None)
        if n is not None:
            before = [f for f in ip.allfacts if f not in ip.facts] + list(ip.facts[:n])
            if consistent(before + [(inside[0], False)]):
                reads.append(ip)
    if not reads:
        return True
    for ip in lp.paths:
        if ip.flow is not None:
            continue
        facts = list(ip.allfacts) + [inside]
        nbv = ip.S.store.get(fi, eb)
        if consistent(facts + [(lt(nbv, nb), False)]):
            ctx.expect(oid, False if all(numeric(a) for a, _ in ip.facts) and simple(nbv) else None,
                       "%s: may look into a bucket past the last one" % fn.qn, lp.loc, fn.qn,
                       [("" if v else "!") + show(a) for a, v in ip.facts])
            return False
    return True


def numeric(a):
    a, _ = strip(a)
    return a[0] in ("pos", "eq0", "int", "lin", "init", "size", "iter", "phi", "more", "bool") and not any(
        x[0] in ("call", "apply", "op", "ret") for x in walk(a))


def simple(t):
    return t[0] in ("int", "lin", "init", "size", "iter", "phi")


def decide(facts, atom):
    st = engine.S()
    st.facts = list(facts)
    return Interp(None).decide(st, atom)


def check_begin(ctx, oid, fn, ps, M, fb, fi, fj):
    """begin() is the scan from bucket 0, slot 0."""
    paths = []
    for p in ps:
        # The iterator under construction is a local: find its lvalue from the store.
        cand = [q for q in p.S.store if q[0] == "fld" and q[2] in (fi[2], fj[2]) and q[1][0] in ("var", "tmp")]
        base = None
        for q in cand:
            base = q[1]
        loops = [e for e in p.ev if e.k == "loop"]
        mods = [q for e in loops for q in e.loop.mod if q[0] == "fld" and q[2] in (fi[2], fj[2])]
        if mods:
            base = mods[0][1]
        v = p.value
        if isinstance(v, L) or v is None:
            ctx.undecide(oid, "begin returns a reference")
            return
        bi, ji = engine.project(v, fi[2]), engine.project(v, fj[2])
        bsz = lambda ix: ("size", ("init", ("idx", M.B, ix)))
        if not loops:
            if not simple(bi):
                ctx.undecide(oid, "begin's value is not recognised")
                return
            valid = decide(p.facts, lt(ji, bsz(bi)))
            atend = decide(p.facts, le(M.NB, bi))
            if valid is True and (bi, ji) == (I(0), I(0)) or atend is True:
                continue
            ctx.expect(oid, False if all(numeric(a) for a, _ in p.facts) else None,
                       "%s: does not look for the first element" % fn.qn, fn.loc, fn.qn, fact_lines(p))
            return
        lp = loops[0].loop
        gi, gj = ("fld", base, fi[2]), ("fld", base, fj[2])
        ib, ij = lp.init.get(gi), lp.init.get(gj)
        if ib is not None and ib != I(0) or ij is not None and ij != I(0):
            ctx.expect(oid, False if simple(ib) and simple(ij or I(0)) else None,
                       "%s: does not start at the first bucket" % fn.qn, fn.loc, fn.qn)
            return
        eb, ej = lp.entry.get(gi, I(0)), lp.entry.get(gj, I(0))
        for ip in lp.paths:
            if ip.flow is not None:
                continue
            fwd = list(ip.allfacts) + [(le(I(0), ej), True), (le(I(0), eb), True)]
            if not consistent(fwd):
                continue
            if decide(fwd, le(bsz(eb), ej)) is not True:
                ctx.expect(oid, False if all(numeric(a) for a, _ in ip.facts) else None,
                           "%s: a bucket that has elements may be skipped" % fn.qn, lp.loc, fn.qn)
                return
        facts = list(p.facts) + [(le(I(0), eb), True), (le(I(0), ej), True)]
        if not consistent(facts):
            continue
        valid = decide(facts, lt(ji, bsz(bi)))
        atend = decide(facts, le(M.NB, bi))
        if valid is not True and atend is not True:
            ctx.expect(oid, False if all(numeric(a) for a, _ in p.facts) else None,
                       "%s: may stop on an empty bucket" % fn.qn, fn.loc, fn.qn, fact_lines(p))
            return
    ctx.ok(oid)


# ---- construction and forwarding ------------------------------------------

def ctor_rules(ctx, prog, M):
    for fn in prog.find(HS + "::HashSet"):
        pt = [t.s for t in fn.decl.ptypes]
        ps = ctx.run(prog, fn, CMP + PROP + UVM + [HS + "::insert"])
        if not pt or "initializer_list" in pt[0]:
            for p in ps:
                b = None
                for e in p.ev:
                    if e.k == "init" and e.obj == M.B:
                        b = e.args[0]
                oid = "hash-set.ctor(%s)" % sig(fn)
                if b is not None and b[0] == "new" and len(b) > 2 and is_int(b[2]):
                    ctx.expect(oid + ".buckets", b[2][1] >= 1, "%s: starts with no bucket" % fn.qn, fn.loc, fn.qn)
                elif b == ("list",):
                    ctx.violation(oid + ".buckets", "%s: starts with no bucket" % fn.qn, fn.loc, fn.qn)
                n = final(p, M.size_lv) if M.sizes else None
                if not pt and n is not None:
                    ctx.expect(oid + ".count", True if n == I(0) else (False if is_int(n) else None),
                               "%s: a fresh set does not count zero elements" % fn.qn, fn.loc, fn.qn)
        if pt and "initializer_list" in pt[0]:
            inserts_all(ctx, "hash-set.ctor(list).all", fn, ps, ("init", ("param", 0)), HS + "::insert", THIS)


def inserts_all(ctx, oid, fn, ps, src, qn, dst, names=("insert", "emplace")):
    """Every element of src is inserted into dst, unconditionally."""
    for p in ps:
        if p.kind != "return":
            continue
        loops = [e for e in p.ev if e.k == "loop" and src in e.loop.over]
        if not loops:
            if any(e.k == "loop" for e in p.ev):
                lp = [e for e in p.ev if e.k == "loop"][0].loop
                part = lp.lo is not None and lp.hi is not None
                ctx.expect(oid, False if part else None, "%s: does not traverse every element" % fn.qn, lp.loc, fn.qn)
            else:
                ctx.expect(oid, None, "%s: inserts the elements in an unrecognised way" % fn.qn, fn.loc, fn.qn)
            return
        lp = loops[0].loop
        for ip in lp.paths:
            if ip.flow not in (None,):
                if ip.flow == "throw":
                    continue
                ctx.violation(oid, "%s: stops before every element is inserted" % fn.qn, lp.loc, fn.qn)
                return
            ins = [e for e in ip.events if e.k == "call" and match(e.qn, qn) and e.obj == dst]
            if not ins:
                unk = [a for a, v in ip.facts if a[0] != "more"]
                ctx.expect(oid, None if unk else False, "%s: skips elements" % fn.qn, lp.loc, fn.qn)
                return
            if not any(x[:2] == ("iter", lp.id) for a in ins[0].args for x in walk(a)):
                ctx.expect(oid, False, "%s: does not insert the visited element" % fn.qn, ins[0].loc, fn.qn)
                return
    ctx.ok(oid)


def delegates(ctx, oid, fn, ps, qn, args, post=None, obj=THIS):
    """The function is exactly one call of qn with these arguments, returning its result."""
    for p in ps:
        if p.kind != "return":
            continue
        es = [e for e in p.ev if e.k == "call" and match(e.qn, qn)]
        if len(es) != 1:
            others = [e for e in p.ev if e.k in ("call", "loop", "apply")]
            v = p.value if not isinstance(p.value, L) else None
            if not es and not others and v is not None and (v[0] in ("bool", "int") or v == VOID):
                ctx.violation(oid, "%s: does not call %s on a path" % (fn.qn, short(qn)), fn.loc, fn.qn, fact_lines(p))
            elif not es and others and all(e.k == "call" and e.qn.startswith(HS) for e in others):
                ctx.violation(oid, "%s: calls %s instead of %s" % (fn.qn, short(others[0].qn), short(qn)), fn.loc, fn.qn)
            else:
                ctx.undecide(oid, "not a single call of %s" % qn)
            return
        e = es[0]
        if args is not None and [a for a in e.args] != list(args):
            if all(simple(a) for a in e.args):
                ctx.violation(oid, "%s: passes another value on" % fn.qn, e.loc, fn.qn)
            else:
                ctx.undecide(oid, "arguments of %s" % qn)
            return
        if post is not None:
            ok = post(p.value, e.ret)
            if ok is not True:
                ctx.expect(oid, ok, "%s: does not return what %s reports" % (fn.qn, short(qn)), e.loc, fn.qn)
                return
    ctx.ok(oid)


def short(qn):
    return qn.replace("symbolic::", "").replace("<Proposition>", "").replace("*", "")


def same_ret(v, r):
    if isinstance(v, L):
        return None
    if v == r:
        return True
    if v in (TRUE, FALSE) or v == neg(r) or v[0] == "int":
        return False
    return None


def state_rules(ctx, prog):
    ST = "symbolic::State"
    prims = [HS + "::*", "symbolic::Proposition::Proposition"]
    for name in ("contains", "insert", "erase", "size", "empty", "begin", "end"):
        for fn in prog.find(ST + "::" + name):
            if len(fn.f["p"]) > 1:
                continue
            ps = ctx.run(prog, fn, prims)
            args = [ARG] if fn.f["p"] else []
            delegates(ctx, "state.%s(%s)%s" % (name, sig(fn), "const" if fn.decl.const else ""), fn, ps,
                      HS + "::" + name, args, same_ret)
    # Range insertion reports a change if any element changed the state.
    for fn in prog.find(ST + "::insert", lambda f: len(f.f["p"]) == 2):
        ps = ctx.run(prog, fn, [HS + "::*"])
        range_insert(ctx, "state.insert(range)", fn, ps)
    for fn in prog.find(ST + "::emplace", required=False):
        ps = ctx.run(prog, fn, [HS + "::*", "symbolic::Proposition::Proposition"])
        delegates(ctx, "state.emplace(%s)" % sig(fn), fn, ps, HS + "::insert", None, same_ret)
    for fn in prog.find(ST + "::State", lambda f: f.f["p"] and "unordered_set" in f.decl.ptypes[-1].s):
        ps = ctx.run(prog, fn, [HS + "::*", "symbolic::Proposition::Proposition"])
        inserts_all(ctx, "state.ctor(strings)", fn, ps, ("init", ("param", 1)), HS + "::insert", THIS)


def range_insert(ctx, oid, fn, ps):
    for p in ps:
        if p.kind != "return":
            continue
        loops = [e.loop for e in p.ev if e.k == "loop"]
        if len(loops) != 1:
            ctx.undecide(oid, "not a single loop")
            return
        lp = loops[0]
        acc = [q for q in lp.mod if lp.init[q] in (FALSE, I(0))]
        for ip in lp.paths:
            if ip.flow is not None:
                if ip.flow != "throw":
                    ctx.violation(oid, "%s: stops before the end of the range" % fn.qn, lp.loc, fn.qn)
                    return
                continue
            ins = [e for e in ip.events if e.k == "call" and match(e.qn, HS + "::insert")]
            if not ins:
                known_ = all(a in [("phi", lp.id, q) for q in acc] or any(x[0] in ("eq", "call", "more") for x in walk(a))
                             for a, v in ip.facts)
                ctx.expect(oid, False if known_ else None,
                           "%s: an element of the range is not inserted on some path" % fn.qn, lp.loc, fn.qn,
                           [("" if v else "!") + show(a) for a, v in ip.facts])
                return
            if len(acc) == 1:
                q = acc[0]
                new, ph, r = ip.S.store.get(q), ("phi", lp.id, q), ins[0].ret
                f = dict(ip.facts)
                ev = lambda t: TRUE if f.get(t) is True else FALSE if f.get(t) is False else t
                want = disj([ev(ph), ev(r)])
                got = new
                if got in (TRUE, FALSE) and want in (TRUE, FALSE):
                    ok = got == want
                else:
                    ok = True if set(flat(got)) == set(flat(want)) else (
                        False if set(flat(got)) <= {ph, r, TRUE, FALSE} else None)
                if ok is not True:
                    ctx.expect(oid, ok, "%s: does not report a change made by some element" % fn.qn, lp.loc, fn.qn)
                    return
        if len(acc) == 1 and p.value != ("phi", lp.id, acc[0]):
            ctx.expect(oid, False if p.value in (TRUE, FALSE) or p.value == neg(("phi", lp.id, acc[0])) else None,
                       "%s: does not return whether the state changed" % fn.qn, fn.loc, fn.qn)
            return
        if len(acc) != 1:
            ctx.undecide(oid, "accumulator")
            return
    ctx.ok(oid)


def flat(t):
    return list(t[1:]) if t[0] == "or" else [t]
