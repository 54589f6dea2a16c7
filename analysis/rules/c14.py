"""C14: the state index is a bijection between propositions and positions."""
from common import *
from rules import small_index

LEVEL = "other"
EXPLAIN = ("Path summaries of the state index over symbolic predicates, propositions and positions: offsets are shown to be "
           "running sums of the predicates' numbers of ground atoms, decoding and encoding to invert each other through "
           "the same offset and generator, every cache entry to equal the value it stands for under a key that "
           "determines it, and the conversions to set exactly the positions of the members. Nothing is executed.")

SI = "symbolic::StateIndex"
THIS = ("this",)
ARG = ("init", ("param", 0))
PRIM = ["symbolic::State::*", "symbolic::Proposition::Proposition", "symbolic::CombinationGenerator*",
        "symbolic::ParameterGenerator*", "symbolic::PropositionBase::*", "symbolic::operator<<"]


def run(ctx):
    prog = ctx.program(["src/state.cc"], [])
    M = Model(ctx, prog)
    ctx.group("construct", construct, ctx, prog, M)
    ctx.group("decode", decode, ctx, prog, M)
    ctx.group("encode", encode, ctx, prog, M)
    ctx.group("convert", convert, ctx, prog, M)
    ctx.group("iterate", iterate, ctx, prog, M)
    ctx.group("small", small_index.small, ctx, prog, M, GP)
    ctx.overrule(r"construct\.", r"small\.")


class Model:
    def __init__(self, ctx, prog):
        c = prog.cls(SI)[0]
        f = {n: c.ftype(n).s for n in c.fields}
        one = lambda pred, what: self.only([n for n in f if pred(f[n])], what)
        self.preds = one(lambda s: s.startswith("std::vector<symbolic::Predicate"), "predicates")
        self.offs = one(lambda s: s.startswith("std::vector<") and "Predicate" not in s and
                        ("long" in s or "size_t" in s or "int" in s), "offsets")
        maps = [n for n in f if s_map(f[n])]
        self.maps = maps
        self.names = None
        self.caches = []
        for fn in prog.find(SI + "::StateIndex"):
            for p in ctx.run(prog, fn, PRIM + ["symbolic::Predicate::*"]):
                for n in maps:
                    v = final(p, ("fld", THIS, n))
                    if v[0] in ("phi", "mut", "call", "new") and v != ("list",):
                        self.names = n if self.names is None else self.names
        if self.names is None:
            # The one map the other functions leave alone.
            left = set(maps)
            for k in ("GetProposition", "GetPropositionIndex"):
                for fn in prog.find(SI + "::" + k):
                    for p in ctx.run(prog, fn, PRIM + ["symbolic::Predicate::*"]):
                        left -= {n for n in maps if final(p, ("fld", THIS, n)) != ("init", ("fld", THIS, n))}
            self.names = left.pop() if len(left) == 1 else None
        if self.names is None:
            raise AnalysisError("StateIndex: no predicate name index")
        self.caches = [n for n in maps if n != self.names]

    @staticmethod
    def only(xs, what):
        if len(xs) != 1:
            raise AnalysisError("StateIndex: %s not recognised" % what)
        return xs[0]

    def occ(self, t, fld):
        """Indices at which a member array is accessed inside a term."""
        out = set()
        for x in walk(t):
            if x[0] == "idx" and x[1] == ("fld", THIS, fld):
                out.add(x[2])
            elif x[0] == "elem" and x[1] == ("init", ("fld", THIS, fld)):
                out.add(x[2])
        return out

    def offset(self, t):
        """ix when t is offsets[ix]."""
        if t[0] == "init" and t[1][0] == "idx" and t[1][1] == ("fld", THIS, self.offs):
            return t[1][2]
        if t[0] == "elem" and t[1] == ("init", ("fld", THIS, self.offs)):
            return t[2]
        return None

    def cached(self, t):
        """(cache, key) when t is an entry of a cache."""
        while t[0] == "get" or t[0] == "init" and t[1][0] == "fld" and t[1][2] == "second":
            t = t[1] if t[0] == "get" else ("init", t[1][1])
        if t[0] == "init" and t[1][0] == "idx" and t[1][1][0] == "fld" and t[1][1][2] in self.maps:
            n, k = t[1][1][2], t[1][2]
        elif t[0] == "elem" and isinstance(t[1], tuple) and t[1][:1] == ("init",) and t[1][1][0] == "fld" and \
                t[1][1][2] in self.maps:
            n, k = t[1][1][2], t[2]
        else:
            return None
        return n, (k[1] if k[0] == "found" else k)


def s_map(s):
    return s.startswith(("std::unordered_map<", "std::map<"))


def found_fact(facts, name, key_):
    """Whether a map is known to hold a key on a path, and the facts that are about something else."""
    res, other = None, []
    for a, v in facts:
        a, pol = strip(a)
        v = v == pol
        if a[0] == "more" or linear_atom(a) or a == ("init", ("fld", THIS, name)):
            continue
        if a[0] == "init" and a[1][0] == "fld":
            continue
        if a[0] == "eq" and a[1][0] == a[2][0] == "itr" and a[1][1] == a[2][1] == ("fld", THIS, name):
            ks = [x[2] for x in a[1:3]]
            if "end" in ks:
                k = [x for x in ks if x != "end"]
                if k and isinstance(k[0], tuple) and k[0][0] == "find" and k[0][2] == key_:
                    res = not v
                    continue
        if a[0] in ("pos", "eq0") and a[1][0] == "count" and a[1][2] == key_:
            res = v == (a[0] == "pos")
            continue
        other.append(a)
    return res, other


def writes_of(p, lv):
    """Entries a path wrote into a map, newest first, or None."""
    t = final(p, lv)
    out = []
    while t != ("init", lv):
        if t[0] == "mut" and t[1] in ("[]=", "insert", "emplace") and len(t) >= 5:
            out.append((t[3], t[4]))
            t = t[2]
        elif t[0] == "mut" and t[1] in ("clear", "erase", "reserve", "rehash"):
            t = t[2]
        else:
            return None
    return out


# ---- construction -------------------------------------------------------------

def construct(ctx, prog, M):
    for fn in prog.find(SI + "::StateIndex"):
        if len(fn.f["p"]) != 2:
            continue
        for p in ctx.run(prog, fn, PRIM + ["symbolic::Predicate::*"]):
            if p.kind != "return":
                continue
            ctx.expect("construct.predicates", True if final(p, ("fld", THIS, M.preds)) == ARG else None,
                       "%s: the predicates are not the ones given" % fn.qn, fn.loc, fn.qn)
            ok, why, loc = offsets_ok(p, final(p, ("fld", THIS, M.offs)))
            ctx.expect("construct.offsets", ok, "%s: %s" % (fn.qn, why), loc or fn.loc, fn.qn)
            ok, why, loc = names_ok(p, final(p, ("fld", THIS, M.names)))
            ctx.expect("construct.names", ok, "%s: %s" % (fn.qn, why), loc or fn.loc, fn.qn)
            for c in M.caches:
                v = final(p, ("fld", THIS, c))
                ctx.expect("construct.cache." + str(M.caches.index(c)), True if v in (("list",), ("emptyc",)) or v[0] == "new" and len(v) == 2 else None,
                           "%s: the cache does not start empty" % fn.qn, fn.loc, fn.qn)
    for fn in prog.find(SI + "::size"):
        for p in ctx.run(prog, fn, PRIM):
            v = p.value if not isinstance(p.value, L) else ("init", p.value.p)
            ix = M.offset(v)
            n = ("size", ("init", ("fld", THIS, M.offs)))
            ok = None
            if ix is not None:
                ok = True if ix == sub(n, I(1)) else False if is_int(ix) or is_int(sub(ix, n)) else None
            elif v == n or v == ("size", ("init", ("fld", THIS, M.preds))):
                ok = False
            ctx.expect("size", ok, "%s: is not the last offset" % fn.qn, fn.loc, fn.qn)


def gen_size(t, item):
    """t is the number of ground atoms of the predicate `item`."""
    return t[0] == "call" and t[1].endswith("::size") and any(x == item for x in walk(t))


def offsets_ok(p, v):
    if v[0] != "phi":
        return None, "offsets not recognised", None
    e = [e for e in all_events(p.ev) if e.k == "loop" and e.loop.id == v[1]]
    if not e:
        return None, "offsets not recognised", None
    lp = e[0].loop
    it = ("iter", lp.id)
    if ARG not in lp.over and not (lp.lo == I(0) and lp.hi == ("size", ARG)):
        kn = lp.lo is not None and lp.hi is not None and is_int(lp.lo) and lin_parts(lp.hi)[1].keys() <= {("size", ARG)} and \
            not any(a[0] != "more" and it in walk(a) for ip in lp.paths for a, _ in ip.facts)
        return (False if kn else None), "not every predicate has an offset", lp.loc
    init = lp.init[v[2]]
    w0, b = [], init
    while b[0] == "mut" and b[1] in ("push_back", "emplace_back", "reserve"):
        if b[1] != "reserve":
            w0.append(b[3])
        b = b[2]
    if b not in (("list",), ("emptyc",)) and not (b[0] == "list"):
        return None, "first offset not recognised", lp.loc
    w0 += list(b[1:]) if b[0] == "list" else []
    item = None
    for x in [x for ip in lp.paths for q, s in ip.S.store.items() if isinstance(s, tuple) for x in walk(s)]:
        if x[0] == "idx" and x[1] == ("param", 0):
            item = x
    for ip in lp.paths:
        if ip.flow is not None:
            return False, "not every predicate has an offset", lp.loc
        if any(a[0] != "more" and not linear_atom(a) for a, _ in ip.facts):
            return None, "offsets depend on a condition", lp.loc
        w = ip.S.store.get(v[2])
        pushed = []
        ph = ("phi", lp.id, v[2])
        while w is not None and w[0] == "mut" and w[1] in ("push_back", "emplace_back"):
            pushed.append(w[3])
            w = w[2]
        if w != ph or len(pushed) != 1:
            return (False if w == ph else None), "each predicate must have one offset", lp.loc
        t = pushed[0]
        if item is None:
            return None, "offsets not recognised", lp.loc
        if item[2] != it:
            return (False if is_int(sub(item[2], it)) else None), "the offset counts another predicate", lp.loc
        c, d = lin_parts(t)
        last = ("elem", ph, add(("size", ph), I(-1)))
        gs = [k for k in d if gen_size(k, item)]
        rest = [k for k in d if k not in gs]
        known_ = all(k == last or k[0] in ("phi",) or k == ("size", ph) or
                     k[0] == "elem" and k[1] == ph and is_int(k[2]) for k in rest)
        if len(gs) == 1 and d[gs[0]] == 1 and c == 0 and rest == [last] and d[last] == 1:
            if w0 != [I(0)]:
                return (False if all(is_int(x) for x in w0) else None), "the first offset is not zero", lp.loc
            continue
        # A running sum kept beside the offsets: pushed before or after adding.
        accs = [k for k in rest if k[0] == "phi" and k[2] != v[2]]
        if len(accs) == 1 and len(rest) == 1 and d[accs[0]] == 1 and c == 0:
            a = accs[0]
            step = ip.S.store.get(a[2])
            if len(gs) == 1 and d[gs[0]] == 1 and step == t and lp.init.get(a[2]) == I(0) and w0 == [I(0)]:
                continue
            return None, "offsets not recognised", lp.loc
        return (False if known_ and len(rest) <= 1 and not accs else None), \
            "an offset is not the previous one plus the predicate's number of ground atoms", lp.loc
    return True, "", lp.loc


def names_ok(p, v):
    if v[0] != "phi":
        return None, "name index not recognised", None
    e = [e for e in all_events(p.ev) if e.k == "loop" and e.loop.id == v[1]]
    if not e:
        return None, "name index not recognised", None
    lp = e[0].loop
    it = ("iter", lp.id)
    if ARG not in lp.over and not (lp.lo == I(0) and lp.hi == ("size", ARG)):
        kn = lp.lo is not None and lp.hi is not None and is_int(lp.lo) and lin_parts(lp.hi)[1].keys() <= {("size", ARG)}
        return (False if kn else None), "not every predicate is indexed by name", lp.loc
    for ip in lp.paths:
        if ip.flow is not None:
            return False, "not every predicate is indexed by name", lp.loc
        w = ip.S.store.get(v[2])
        if w is None or w[0] != "mut" or len(w) < 5 or w[2] != ("phi", lp.id, v[2]):
            return None, "name index not recognised", lp.loc
        k, x = w[3], w[4]
        ks = {y[2] for y in walk(k) if y[0] == "idx" and y[1] == ("param", 0)}
        if ks != {it}:
            return (False if len(ks) == 1 and is_int(sub(list(ks)[0], it)) else None), "a name is indexed for another predicate", lp.loc
        if x != it:
            counter = x[0] == "phi" and lp.init.get(x[2]) == I(0) and ip.S.store.get(x[2]) == add(x, I(1))
            if not counter:
                return (False if is_int(sub(x, it)) else None), "a name is mapped to another predicate", lp.loc
    return True, "", lp.loc


# ---- decoding ----------------------------------------------------------------

def decode(ctx, prog, M):
    for fn in prog.find(SI + "::GetProposition"):
        ps = ctx.run(prog, fn, PRIM)
        ok, why, loc = True, "", None
        for p in ps:
            if p.kind != "return" or isinstance(p.value, L):
                continue
            r = result_ok(p, M, p.value, lambda t: decoded(t, M), lambda k: position_key(k, M))
            if r[0] is not True:
                ok, why, loc = r[0], r[1], last_loc(p, fn)
                if ok is False:
                    break
        ctx.expect("decode", ok, "%s: %s" % (fn.qn, why), loc or fn.loc, fn.qn)


def result_ok(p, M, value, spec, key_ok):
    """A result is the specified value, or a cache entry of it; every entry written is right too."""
    other = []
    for n in M.caches:
        ws = writes_of(p, ("fld", THIS, n))
        if ws is None:
            return None, "the cache is changed in an unrecognised way"
        for k, v in ws:
            ok = key_ok(k)
            if ok is not True:
                return ok, "a result is cached under a key that does not determine it"
            c = M.cached(v)
            if c is not None and c[1] == k:
                continue
            ok, why = spec(v)
            if ok is not True:
                return ok, "an entry of the cache is wrong: " + why
    c = M.cached(value)
    if c is None:
        return spec(value)
    n, k = c
    if n not in M.caches:
        return None, "result not recognised"
    ok = key_ok(k)
    if ok is not True:
        return ok, "a cached result is looked up by a key that does not determine it"
    f, unk = found_fact(p.facts, n, k)
    ws = writes_of(p, ("fld", THIS, n)) or []
    if any(x == k for x, _ in ws):
        return True, ""
    if f is True:
        return True, ""
    if unk:
        return None, "unrecognised condition"
    return False, "the cache is used without holding the entry"


def position_key(k, M):
    """A key that determines the position ARG: True, False or None."""
    if k == ARG:
        return True
    c, d = lin_parts(k)
    if d == {ARG: 1}:
        return None
    if d and all(x == ARG or M.offset(x) is not None or x[0] == "dist" for x in d):
        return False
    return None


def decoded(t, M):
    """t is the proposition at position ARG."""
    if t[0] == "new" and "Proposition" in str(t[1]) and len(t) == 3:
        return decoded(t[2], M)
    if not (t[0] == "new" and "Proposition" in str(t[1]) and len(t) == 4):
        return None, "result not recognised: %s" % show(t)[:100]
    a, b = t[2], t[3]
    ia = M.occ(a, M.preds)
    if not (b[0] == "call" and (b[1].endswith("::operator[]") or b[1].endswith("::at")) and len(b) == 4):
        return None, "arguments not recognised"
    ig = M.occ(b[2], M.preds)
    if len(ia) != 1 or len(ig) != 1:
        return None, "predicate not recognised"
    if ia != ig:
        return False, "the name and the arguments come from different predicates"
    ix = list(ia)[0]
    c, d = lin_parts(b[3])
    offs = {k: M.offset(k) for k in d if M.offset(k) is not None}
    rest = {k: n for k, n in d.items() if k not in offs}
    if len(offs) == 1 and rest == {ARG: 1}:
        k = list(offs)[0]
        if c != 0 or d[k] != -1:
            return False, "the arguments are not counted from the predicate's first position"
        if offs[k] != ix:
            known_ = is_int(sub(offs[k], ix)) or is_int(offs[k]) and pred_index(ix, M)[0] is not None
            return (False if known_ else None), "the arguments are counted from another predicate's position"
    elif not offs and rest == {ARG: 1}:
        return False, "the arguments are not counted from the predicate's first position"
    else:
        return None, "arguments not recognised"
    return pred_index(ix, M)


def pred_index(ix, M):
    """ix is the last predicate whose offset is at most ARG."""
    c, d = lin_parts(ix)
    if len(d) != 1 or list(d.values()) != [1] or list(d)[0][0] != "dist":
        return None, "search for the predicate not recognised"
    x, y = list(d)[0][1:3]
    if not (x[0] == y[0] == "itr" and x[1] == y[1] == ("fld", THIS, M.offs) and isinstance(x[2], tuple) and
            x[2][0] in ("lower_bound", "upper_bound") and x[2][1] == ("init", ("fld", THIS, M.offs)) and is_int(x[3]) and is_int(y[3])):
        return None, "search for the predicate not recognised"
    if y[2] != "begin":
        return None, "search for the predicate not recognised"
    k = sub(x[2][2], ARG)
    if not is_int(k):
        return None, "search for the predicate not recognised"
    k = k[1] + (0 if x[2][0] == "lower_bound" else 1)
    shift = c + x[3][1] - y[3][1]
    if k == 1 and shift == -1:
        return True, ""
    return False, "a position at a predicate's border is given to another predicate"


# ---- encoding ----------------------------------------------------------------

def arg_part(t, what):
    """t is the name/arguments of the proposition given."""
    if t[0] == "init" and t[1][0] == "fld" and t[1][1] == ("param", 0):
        return ("name" in t[1][2]) == (what == "name")
    if t[0] == "init" and t[1][0] == "deref":
        return arg_part(("call",) + t[1][1][1:], what) if t[1][1][0] == "refto" else False
    if t[0] == "call" and len(t) == 3 and t[2] == ARG:
        return t[1].endswith("::" + what)
    return False


def text_key(k):
    """A key that determines the proposition: True, False or None."""
    if k == ARG:
        return True
    if k[0] == "call" and len(k) == 3 and k[2] == ARG:
        n = k[1].split("::")[-1]
        if n in ("to_string", "to_pddl"):
            return True
        if n in ("name", "arguments", "hash"):
            return False
    if arg_part(k, "name"):
        return False
    if k[0] == "init" and k[1][0] == "fld" and k[1][1] == ("param", 0):
        return False
    return None


def encode(ctx, prog, M):
    for fn in prog.find(SI + "::GetPropositionIndex"):
        ok, why, loc = True, "", None
        for p in ctx.run(prog, fn, PRIM):
            if p.kind != "return" or isinstance(p.value, L):
                continue
            r = result_ok(p, M, p.value, lambda t: encoded(t, p, M), text_key)
            if r[0] is not True:
                ok, why, loc = r[0], r[1], last_loc(p, fn)
                if ok is False:
                    break
        ctx.expect("encode", ok, "%s: %s" % (fn.qn, why), loc or fn.loc, fn.qn)


def encoded(t, p, M):
    c, d = lin_parts(t)
    offs = {k: M.offset(k) for k in d if M.offset(k) is not None}
    finds = [k for k in d if k[0] == "call" and k[1].endswith("::find")]
    rest = [k for k in d if k not in offs and k not in finds]
    if rest or len(finds) != 1 or len(offs) > 1:
        return None, "result not recognised"
    f = finds[0]
    if not offs or c != 0 or d[f] != 1 or list(d[k] for k in offs) != [1]:
        return False, "a position is not the predicate's first position plus that of the arguments"
    ix = list(offs.values())[0]
    ig = M.occ(f[2], M.preds)
    if len(ig) != 1:
        return None, "generator not recognised"
    if list(ig)[0] != ix:
        return (False if is_int(sub(list(ig)[0], ix)) else None), "the offset is another predicate's"
    if len(f) < 4 or not arg_part(f[3], "arguments"):
        return None, "arguments not recognised"
    cc = M.cached(ix)
    if cc is None or cc[0] != M.names:
        return (False if is_int(sub(ix, I(0))) else None), "the predicate is not looked up by name"
    if not arg_part(cc[1], "name"):
        return None, "the predicate is not looked up by name"
    return True, ""


# ---- conversions --------------------------------------------------------------

GP, GI = SI + "::GetProposition", SI + "::GetPropositionIndex"


def convert(ctx, prog, M):
    pr = PRIM + [GP, GI]
    for fn in prog.find(SI + "::GetState"):
        for p in ctx.run(prog, fn, pr):
            if p.kind != "return" or isinstance(p.value, L):
                continue
            ok, why, loc = state_of_bits(p, M)
            ctx.expect("GetState", ok, "%s: %s" % (fn.qn, why), loc or fn.loc, fn.qn)
    for fn in prog.find(SI + "::GetIndexedState"):
        for p in ctx.run(prog, fn, pr + [SI + "::size"]):
            if p.kind != "return" or isinstance(p.value, L):
                continue
            ok, why, loc = bits_of_state(p, M)
            ctx.expect("GetIndexedState", ok, "%s: %s" % (fn.qn, why), loc or fn.loc, fn.qn)


def is_bits_size(t):
    return t[0] == "call" and (t[1].endswith("::size") or t[1].endswith("::rows")) or M_size(t)


def M_size(t):
    return t[0] == "init" and t[1][0] == "idx" and t[1][1][0] == "fld" and t[1][1][1] == THIS


def bit_of(a, it):
    """The tested bit index when a literal reads a bit of the argument."""
    if a[0] == "init" and a[1][0] == "idx" and any(x == ("param", 0) for x in walk(a[1][1])):
        return a[1][2]
    return None


def state_of_bits(p, M):
    v = p.value
    if v[0] != "phi":
        return None, "result not recognised", None
    e = [e for e in p.ev if e.k == "loop" and e.loop.id == v[1]]
    if not e:
        return None, "result not recognised", None
    lp = e[0].loop
    it = ("iter", lp.id)
    init = lp.init[v[2]]
    if not (init[0] == "new" and len(init) == 2 or init in (("list",), ("emptyc",))):
        return None, "the state does not start empty", lp.loc
    if lp.lo is None or lp.hi is None:
        return None, "loop not recognised", lp.loc
    if lp.lo != I(0):
        return (False if is_int(lp.lo) else None), "the first positions are skipped", lp.loc
    if not is_bits_size(lp.hi):
        c, d = lin_parts(lp.hi)
        kn = len(d) == 1 and is_bits_size(list(d)[0]) and c < 0
        return (False if kn else None), "the last positions are skipped", lp.loc
    for ip in lp.paths:
        if ip.flow is not None:
            return (False if ip.flow == "break" or isinstance(ip.flow, tuple) else None), "it stops before every position is read", lp.loc
        bit, unk = None, False
        for a, x in ip.facts:
            b, pol = strip(a)
            if linear_atom(b) or b[0] == "pos" and any(k == it for k in lin_parts(b[1])[1]):
                continue
            j = bit_of(b, it)
            if j is None:
                unk = True
            elif j != it:
                return (False if is_int(sub(j, it)) else None), "another position is read", lp.loc
            else:
                bit = x == pol
        w = ip.S.store.get(v[2])
        ph = ("phi", lp.id, v[2])
        if w is None or w == ph:
            if bit is True and not unk:
                return False, "a proposition that is set is left out", lp.loc
            if bit is None:
                return None, "unrecognised condition", lp.loc
            continue
        if not (w[0] == "mut" and w[1].split("::")[-1].split("#")[0] in ("insert", "emplace") and w[2] == ph):
            return None, "the state changes in an unrecognised way", lp.loc
        if bit is not True:
            return (False if not unk else None), "a proposition that is not set is added", lp.loc
        g = w[3]
        if g[0] == "new" and len(g) == 3:
            g = g[2]
        if not (g[0] == "call" and g[1] == GP and len(g) == 4):
            return None, "the proposition added is not recognised", lp.loc
        if g[3] != it:
            return (False if is_int(sub(g[3], it)) else None), "another position's proposition is added", lp.loc
    return True, "", lp.loc


def bits_of_state(p, M):
    v = p.value
    if v[0] == "new" and len(v) == 3:
        v = v[2]
    if v[0] != "phi":
        # Nothing is written into the array after it was made.
        made = v[0] == "new" and "Eigen" in str(v[1]) and not any(x[0] in ("mut", "phi", "with") for x in walk(v)) and \
            not any(x[0] == "call" and (x[1] == GI or not x[1].startswith(("Eigen::", SI + "::size"))) for x in walk(v))
        plain = all(e.k != "call" or e.decl is None or e.decl.const or e.decl.static or e.qn.startswith("Eigen::")
                    for e in every_event([p]))
        return (False if made and plain else None), "a proposition of the state is not set" if made else "result not recognised", None
    e = [e for e in p.ev if e.k == "loop" and e.loop.id == v[1]]
    if not e:
        return None, "result not recognised", None
    lp = e[0].loop
    it = ("iter", lp.id)
    init = lp.init[v[2]]
    zero = [x for x in walk(init) if x[0] == "call" and x[1].startswith("Eigen::")]
    if zero:
        z = zero[-1]
        nm = zero[0][1].split("::")[-1]
        if nm in ("Ones", "Random"):
            return False, "positions start set", lp.loc
        if nm != "Zero":
            return None, "initial value not recognised", lp.loc
        n = zero[0][-1]
        if n != ("call", SI + "::size", ("init", THIS)) and not (n[0] == "call" and n[1] == SI + "::size"):
            c, d = lin_parts(n)
            kn = len(d) == 1 and list(d)[0][0] == "call" and list(d)[0][1] == SI + "::size"
            return (False if kn else None), "the indexed state has another size", lp.loc
    else:
        zs = [e2 for e2 in p.ev if e2.k == "call" and e2.name in ("setZero", "setConstant")]
        return None, "initial value not recognised", lp.loc
    if ARG not in lp.over:
        return None, "loop not recognised", lp.loc
    for ip in lp.paths:
        if ip.flow is not None:
            return (False if ip.flow == "break" or isinstance(ip.flow, tuple) else None), "it stops before every proposition is set", lp.loc
        unk = [a for a, _ in ip.facts if a[0] != "more" and not linear_atom(a)]
        w, ph, sets = ip.S.store.get(v[2]), ("phi", lp.id, v[2]), []
        while w is not None and w[0] == "mut" and w[1] == "[]=" and len(w) == 5:
            sets.append((w[3], w[4]))
            w = w[2]
        if w is not None and w != ph:
            return None, "the bits change in an unrecognised way", lp.loc
        if not sets:
            return (False if not unk else None), "a proposition of the state is not set", lp.loc
        for ix, g in sets:
            if g != TRUE and g != I(1):
                return (False if g in (FALSE, I(0)) else None), "a proposition of the state is cleared", lp.loc
            if not (ix[0] == "call" and ix[1] == GI and len(ix) == 4):
                c, d = lin_parts(ix)
                kn = len(d) == 1 and list(d)[0][0] == "call" and list(d)[0][1] == GI
                return (False if kn else None), "another position is set", lp.loc
            el = ix[3]
            if not (el[0] == "init" and el[1] == ("idx", ("param", 0), it)):
                return None, "the position set is not recognised", lp.loc
    return True, "", lp.loc


# ---- iteration ----------------------------------------------------------------

def iterate(ctx, prog, M):
    q = SI + "::iterator"
    c = prog.cls(q)[0]
    f = {n: c.ftype(n).s for n in c.fields}
    own = M.only([n for n in f if f[n].rstrip().endswith("*") and "StateIndex" in f[n]], "iterator owner")
    idx = M.only([n for n in f if f[n] in ("int", "long", "unsigned long", "unsigned int")], "iterator position")
    F = lambda base, n: ("init", ("fld", base, n))
    here, owner = F(THIS, idx), F(THIS, own)
    owner_lv = ("init", ("deref", owner))
    for name, at in (("begin", I(0)), ("end", None)):
        for fn in prog.find(SI + "::" + name):
            for p in ctx.run(prog, fn, [SI + "::size"]):
                v = p.value
                if isinstance(v, L):
                    continue
                i, o = engine.project(v, idx), engine.project(v, own)
                if at is None:
                    good = i[0] == "call" and i[1] == SI + "::size"
                else:
                    good = i == at
                kn = lin_parts(i)[0] != 0 or is_int(i) or i[0] == "call" and i[1] == SI + "::size"
                ctx.expect(name, True if good and o == ("addr", THIS) else False if kn and not good else None,
                           "%s: starts at the wrong position" % fn.qn, fn.loc, fn.qn)
    n = ARG
    moves = [("operator++", lambda g: not g.f["p"], I(1), "this"), ("operator--", lambda g: not g.f["p"], I(-1), "this"),
             ("operator++", lambda g: g.f["p"], I(1), "old"), ("operator--", lambda g: g.f["p"], I(-1), "old"),
             ("operator+=", None, n, "this"), ("operator-=", None, mul(I(-1), n), "this"),
             ("operator+", None, n, "new"),
             ("operator-", lambda g: "iterator" not in g.decl.ptypes[0].s, mul(I(-1), n), "new")]
    for name, pred, d, kind in moves:
        for fn in prog.find(q + "::" + name, pred):
            oid = "iterator.%s(%s)" % (name, ",".join(t.s for t in fn.decl.ptypes))
            for p in ctx.run(prog, fn, [GP]):
                want = add(here, d)
                after = final(p, ("fld", THIS, idx))
                v = p.value
                got = after
                if kind != "this":
                    if isinstance(v, L):
                        ctx.undecide(oid, "returns a reference")
                        continue
                    got = engine.project(v, idx)
                ok = got == (want if kind != "old" else here) and after == (want if kind != "new" else here)
                kn = not isinstance(got, L) and all(k[0] == "init" for t in (got, after) for k in lin_parts(t)[1])
                ctx.expect(oid, True if ok else False if kn else None, "%s: moves to %s instead of %s" % (
                    fn.qn, show(got), show(want)), fn.loc, fn.qn)
    for name in ("operator*", "operator->", "operator[]"):
        for fn in prog.find(q + "::" + name):
            for p in ctx.run(prog, fn, [GP]):
                v = p.value
                if isinstance(v, L):
                    v = final(p, v.p)
                elif v[0] == "addr":
                    v = final(p, v[1])
                if v[0] == "new" and len(v) == 3:
                    v = v[2]
                want = here if name != "operator[]" else add(here, n)
                ok = None
                if v[0] == "call" and v[1] == GP:
                    ok = v[3] == want and v[2] == owner_lv or (False if v[3] != want else None)
                elif v[0] == "init" and v[1][0] == "fld":
                    ok = False
                ctx.expect("iterator." + name, ok, "%s: is not the proposition at the position" % fn.qn, fn.loc, fn.qn)
    o_ix, o_own = F(("param", 0), idx), F(("param", 0), own)
    g = eq(owner, o_own)

    def sb(t):
        return simplify_bool(subst(t, lambda x: TRUE if x == g else None))
    cases = [("the position before", [(lt(here, o_ix), True)]), ("the same position", [(eq0(sub(here, o_ix)), True)]),
             ("the position after", [(lt(o_ix, here), True)])]
    for op, want in (("==", (0, 1, 0)), ("!=", (1, 0, 1)), ("<", (1, 0, 0)), (">", (0, 0, 1)), ("<=", (1, 1, 0)), (">=", (0, 1, 1))):
        for fn in prog.find(q + "::operator" + op):
            linear_cases(ctx, "iterator.operator" + op, fn, ctx.run(prog, fn, [GP]),
                         [(c_[0], c_[1], bool(w)) for c_, w in zip(cases, want)], sb, "comparing with %s")
    for fn in prog.find(q + "::operator-", lambda g2: "iterator" in g2.decl.ptypes[0].s):
        for p in ctx.run(prog, fn, [GP]):
            v = p.value
            kn = not isinstance(v, L) and all(k[0] == "init" for k in lin_parts(v)[1])
            ctx.expect("iterator.distance", True if v == sub(here, o_ix) else False if kn else None,
                       "%s: the distance is wrong" % fn.qn, fn.loc, fn.qn)
