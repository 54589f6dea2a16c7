"""C03: equal propositions have equal hashes, whatever class holds them and however they were made."""
from common import *

LEVEL = "other"
EXPLAIN = ("Every constructor (and every other member that changes the name or the arguments) of every proposition class is summarised; "
           "the stored hash is brought to a canonical fold over the arguments and must be the same pure function of the final name and final "
           "arguments everywhere. std::hash of every class must return that stored value, equality must imply equal name and arguments, and "
           "every place that builds a reference to a proposition must pass the hash of that same name. Nothing is executed.")

PB = "symbolic::PropositionBase"
THIS = ("this",)
PRIM = ["symbolic::Object::ParseArguments", "symbolic::Object::hash", "symbolic::Object::name",
        "symbolic::PropositionBase::ParseHead", "symbolic::PropositionBase::operator=="]


def run(ctx):
    prog = ctx.program(["src/proposition.cc", "src/object.cc", "src/formula.cc", "src/action.cc", "src/state.cc"], [])
    classes = [c for c in proposition_classes(prog)]
    if PB not in classes or len(classes) < 3:
        raise ir_error("proposition classes not found")
    forms = {}
    for c in classes:
        ctx.group("construct." + c.split("::")[-1], constructors, ctx, prog, c, forms)
    ctx.group("agreement", agreement, ctx, forms)
    ctx.group("objects", objects, ctx, prog)
    ctx.group("std-hash", std_hash, ctx, prog, classes)
    ctx.group("equality", equality, ctx, prog)
    ctx.group("references", references, ctx, prog)


def ir_error(m):
    import ir
    return ir.AnalysisError(m)


def proposition_classes(prog):
    out = [PB]
    changed = True
    names = sorted(prog.classes) if hasattr(prog, "classes") else []
    while changed:
        changed = False
        for n in names:
            if n in out:
                continue
            for c in prog.cls(n):
                if any(b in out for b in bases(c)):
                    out.append(n)
                    changed = True
                    break
    return out


def bases(c):
    return [b.cls if hasattr(b, "cls") else b for b in c.bases]


def data_fields(prog, cls):
    """(name fields, argument fields) over the class and its bases, and the hash field."""
    name, args = [], []
    todo, seen = [cls], set()
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        for c in prog.cls(q)[:1]:
            for f in c.fields:
                t = c.ftype(f).s
                if "basic_string" in t:
                    name.append(f)
                elif "vector" in t and "Object" in t:
                    args.append(f)
            todo += bases(c)
    return name, args


def hash_field(prog):
    q = getter_field(prog, PB + "::hash")
    return q[2] if q is not None and q[0] == "fld" else "hash_"


def is_string_hash(t):
    return t[0] == "call" and t[1].endswith("::operator()") and "str_hash" in repr(t[1:3]) or t[0] == "call" and t[1] == "std::hash" and "basic_string" in repr(t[2])


class Stale(Exception):
    pass


def canon(t, p, names, args, hf, depth=0):
    """The hash term with the object's own name and arguments abstracted, or None."""
    if depth > 60:
        return None
    fin_name = [final(p, ("fld", THIS, f)) for f in names]
    fin_args = [final(p, ("fld", THIS, f)) for f in args]

    def own(x):
        """x reads the object's name or arguments: 'N', 'A', or raises Stale."""
        if x[0] == "init" and x[1][0] == "deref" and x[1][1][0] == "refto":
            q = x[1][1]
            what = q[1].split("::")[-1]
            if what in ("name", "arguments") and len(q) == 3:
                o = q[2]
                fs, fin = (names, fin_name) if what == "name" else (args, fin_args)
                if o == THIS or o == ("init", THIS):
                    # Read before the fields were set.
                    if any(touched(p, ("fld", THIS, f)) for f in fs):
                        raise Stale("name" if what == "name" else "arguments")
                    return "N" if what == "name" else "A"
                if o[0] == "with" and o[1] in (THIS, ("init", THIS)):
                    have = {k: v for k, v in o[2]}
                    for f, w in zip(fs, fin):
                        if have.get((f,), ("init", ("fld", THIS, f))) != w:
                            raise Stale("name" if what == "name" else "arguments")
                    return "N" if what == "name" else "A"
        if x in fin_name:
            return "N"
        if x in fin_args:
            return "A"
        if x[0] == "init" and x[1][0] == "deref" and x[1][1] in fin_name:
            return "N"
        if x[0] == "init" and x[1][0] == "deref" and x[1][1] in fin_args:
            return "A"
        return None

    def go(x, env, d):
        if d > 60:
            return None
        if x in env:
            return env[x]
        o = own(x)
        if o:
            return (o,)
        if x[0] == "int":
            return x
        if x[0] == "init" and x[1][0] == "param":
            return ("P",)
        if is_string_hash(x):
            a = go(x[-1], env, d + 1)
            return ("H", a) if a is not None else None
        if x[0] == "init" and x[1][0] == "fld" and x[1][2] in ("hash_", "hash") or x[0] == "call" and x[1].endswith("Object::hash"):
            # The hash of an argument.
            b = x[1][1] if x[0] == "init" else x[2]
            e = elem(b, env, d)
            return ("EH", e) if e is not None else None
        if x[0] == "phi":
            lp = [e.loop for e in all_events(p.ev) if e.k == "loop" and e.loop.id == x[1]]
            if not lp:
                return None
            return fold(lp[0], x, env, d)
        if x[0] == "lin":
            r = []
            for a, n in x[2]:
                y = go(a, env, d + 1)
                if y is None:
                    return None
                r.append((y, n))
            return ("lin", x[1], tuple(sorted(r, key=repr)))
        if x[0] == "op" and len(x) == 4:
            a, b = go(x[2], env, d + 1), go(x[3], env, d + 1)
            if a is None or b is None:
                return None
            if x[1] in ("^", "|", "&", "+") and repr(b) < repr(a):
                a, b = b, a
            return ("op", x[1], a, b)
        if x[0] == "mul":
            r = [go(a, env, d + 1) for a in x[1:]]
            return None if None in r else ("mul",) + tuple(sorted(r, key=repr))
        if x[0] == "size":
            a = go(x[1], env, d + 1)
            return ("size", a) if a is not None else None
        return None

    def elem(b, env, d):
        """b designates the current argument of an enclosing loop."""
        for k, v in env.items():
            if b == k:
                return v
        if b[0] == "idx":
            src = own(("init", b[1])) or (own(b[1]) if b[1][0] == "init" else None)
            if src == "A" and ("ix", b[2]) in env:
                return ("arg", env[("ix", b[2])])
        if b[0] == "elem":
            if own(b[1]) == "A" and ("ix", b[2]) in env:
                return ("arg", env[("ix", b[2])])
        if b[0] == "init":
            return elem(b[1], env, d)
        return None

    def fold(lp, x, env, d):
        if any(ip.flow is not None for ip in lp.paths):
            return None
        its = [ip for ip in lp.paths]
        if len(its) != 1 or lp.exits_early if hasattr(lp, "exits_early") else len(its) != 1:
            return None
        ip = its[0]
        if any(a[0] != "more" for a, _ in ip.facts) and lp.lo is None:
            return None
        src = [own(o) for o in lp.over]
        if "A" not in src:
            hi = lp.hi
            if not (lp.lo == I(0) and hi is not None and hi[0] == "size" and own(hi[1]) == "A"):
                return None
        init = go(lp.init[x[2]], env, d + 1)
        e2 = dict(env)
        e2[x] = ("ACC", d)
        e2[("ix", ("iter", lp.id))] = lp.dir or "asc"
        step = go(ip.S.store.get(x[2]), e2, d + 1) if ip.S.store.get(x[2]) is not None else None
        if init is None or step is None:
            return None
        return ("fold", init, strip_depth(step))

    def strip_depth(t):
        return subst(t, lambda y: ("ACC",) if isinstance(y, tuple) and y and y[0] == "ACC" else None)

    return go(t, {}, 0)


def constructors(ctx, prog, cls, forms):
    short = cls.split("::")[-1]
    names, args = data_fields(prog, cls)
    hf = ("fld", THIS, hash_field(prog))
    own = {f for c in prog.cls(cls)[:1] for f in c.fields}
    fns = [f for f in prog.by_cls(cls)] if hasattr(prog, "by_cls") else \
        [f for q, fs in prog.by_qn.items() if q.rsplit("::", 1)[0] == cls for f in fs]
    for fn in fns:
        d = fn.decl
        ctor = d.kind in ("ctor", "copy", "move", "default") or fn.qn.split("::")[-1] == short
        if d.static or d.d.get("implicit") or d.d.get("defaulted") and fn.f["p"] or fn.qn.split("::")[-1].startswith("~"):
            continue
        if cls == PB and not names:
            if ctor:
                continue
        ps = ctx.run(prog, fn, PRIM)
        oid = "%s.%s(%s)" % (short, fn.qn.split("::")[-1], ",".join(t.s for t in d.ptypes))
        for p in ps:
            if p.kind == "throw":
                continue
            changed = [f for f in names + args if touched(p, ("fld", THIS, f))]
            base = [e for e in p.ev if e.k == "baseinit"]
            h = final(p, hf)
            if not ctor:
                if not changed:
                    continue
            if ctor and base and not touched(p, hf):
                # Built from another proposition by a defaulted copy or move.
                src = base[-1].args[0] if base[-1].args else None
                if src is None or src[0] != "init" or src[1][0] != "param":
                    ctx.undecide(oid, "base construction not recognised")
                    break
                if names and all(f not in own for f in names + args):
                    continue
                h = ("init", ("fld", src[1], hf[2]))
            elif not touched(p, hf):
                ctx.expect(oid, False if names else None, "%s: the hash is not set from the name and the arguments" % fn.qn, fn.loc, fn.qn)
                break
            if h[0] == "init" and h[1][0] == "fld" and h[1][2] == hf[2] and h[1][1][0] == "param":
                o = h[1][1]
                n = [final(p, ("fld", THIS, f)) for f in names]
                a = [final(p, ("fld", THIS, f)) for f in args]
                same = all(copied(x, o, "name", f) for x, f in zip(n, names)) and all(copied(x, o, "arguments", f) for x, f in zip(a, args))
                ctx.expect(oid, True if same else None, "%s: copies the hash of another name or arguments" % fn.qn, fn.loc, fn.qn)
                break
            try:
                c = canon(h, p, names, args, hf[2])
            except Stale as e:
                ctx.violation(oid, "%s: the hash is computed before the %s is set" % (fn.qn, e), last_loc(p, fn), fn.qn)
                break
            if c is None:
                bad = any(x[0] == "addr" or x == THIS for x in walk(h)) and not any(x[0] in ("call", "phi", "init") for x in walk(h))
                ctx.expect(oid, False if bad or is_int(h) and False else None, "%s: the hash is not recognised: %s" % (fn.qn, show(h)[:120]),
                           fn.loc, fn.qn)
                break
            forms[oid] = (c, fn)
        else:
            if ctor or any(touched(p, ("fld", THIS, f)) for p in ps for f in names + args):
                ctx.ok(oid)


def copied(t, o, what, f):
    if t == ("init", ("fld", o, f)):
        return True
    if t == ("init", ("deref", ("refto", PB + "::" + what, o))) or t[0] == "init" and t[1][0] == "deref" and t[1][1][0] == "refto" and \
            t[1][1][1].endswith("::" + what) and t[1][1][2] in (o, ("init", o)):
        return True
    # A pointer to the other's name.
    if t[0] == "addr":
        return copied(("init", t[1]), o, what, f)
    return False


def agreement(ctx, forms):
    """All constructors fold the arguments alike, starting from the hash of the name or from one given as such."""
    if not forms:
        return
    ref = None
    for oid, (c, fn) in sorted(forms.items(), key=lambda kv: ("Ref" in kv[0], kv[0])):
        if ref is None and "Ref" not in oid:
            ref = c
    for oid, (c, fn) in sorted(forms.items()):
        norm = as_named(c)
        want = as_named(ref) if ref is not None else norm
        k = "agree." + oid
        if norm == want:
            if not any(x == ("A",) or x[0] == "fold" for x in walk(norm)) and not any(x == ("N",) for x in walk(norm)):
                ctx.ok(k)
            else:
                ctx.ok(k)
        else:
            ctx.violation(k, "%s: equal propositions made here and elsewhere get different hashes" % fn.qn, fn.loc, fn.qn,
                          ["here: %s" % (norm,), "elsewhere: %s" % (want,)])


def as_named(c):
    return subst(c, lambda x: ("H", ("N",)) if x == ("P",) else None)


def contains_param(c):
    return any(x == ("P",) for x in walk(c))


# ---- objects -------------------------------------------------------------------

def objects(ctx, prog):
    cls = "symbolic::Object"
    q = getter_field(prog, cls + "::hash")
    hf = ("fld", THIS, q[2] if q is not None and q[0] == "fld" else "hash_")
    sym = [f for f in prog.cls(cls)[0].fields if prog.cls(cls)[0].ftype(f).ptr]
    seen = set()
    for fn in [f for k, fs in prog.by_qn.items() if k.rsplit("::", 1)[0] == cls for f in fs]:
        ctor = fn.qn.endswith("::Object")
        if fn.decl.d.get("implicit") or fn.decl.d.get("defaulted") or fn.decl.static or "::~" in fn.qn:
            continue
        oid = "object.%s(%s)" % (fn.qn.split("::")[-1], ",".join(t.s for t in fn.decl.ptypes))
        ps = ctx.run(prog, fn, ["symbolic::Object::CreateList", "symbolic::Object::ParseArguments", "symbolic::Object::Type::*",
                                "(anonymous namespace)::*"])
        ok, why = None, ""
        for p in ps:
            if p.kind == "throw":
                continue
            if not ctor and not any(touched(p, ("fld", THIS, f)) for f in sym):
                ok = "skip"
                break
            h = final(p, hf)
            if not touched(p, hf):
                ok, why = False, "does not set the hash"
                break
            syms = [final(p, ("fld", THIS, f)) for f in sym]
            if not is_string_hash(h):
                addr = h[0] in ("lin", "conv", "op", "mul") or h in syms or h[0] == "call" and "hash" in h[1]
                ok, why = (False if is_int(h) or addr and any(contains(h, s) for s in syms) or addr and not any(
                    x[0] in ("refto", "sym") for x in walk(h)) else None), "the hash is not that of the name: " + show(h)[:120]
                break
            a = h[-1]
            o = named_by(a)
            if o is not None:
                ok = True if o in syms else False if any(contains(o, s) for s in syms if s != NULL) or \
                    contains(a, THIS) and a[1][1][1].endswith("Type::name") else None
                why = "the name hashed is not the object's"
                if ok is not True:
                    break
            elif a[0] == "init" and a[1][0] == "param":
                # The name given: the object found by that name.
                ok = True if any(contains(s, a) for s in syms) else None
                why = "the name hashed is not recognised"
            else:
                more = a[0] == "call" and a[1].endswith("operator+") and any(
                    x[0] in ("call", "refto") and x[1].endswith("Type::name") for x in walk(a))
                ok, why = (False, "the name hashed is not the object's alone") if more else (None, "the name hashed is not recognised")
                break
        if ok == "skip":
            continue
        ctx.expect(oid, ok, "%s: %s" % (fn.qn, why), fn.loc, fn.qn)


def named_by(a):
    """The symbol whose name a is."""
    while a[0] == "init" and a[1][0] == "deref":
        a = a[1][1]
    if a[0] in ("refto", "call") and a[1].split("::")[-1] in ("getNameRef", "getName", "name") and len(a) == 3:
        o = a[2]
        return o[1] if o[0] == "deref" else o[1][1] if o[0] == "init" and o[1][0] == "deref" else o
    return None


# ---- std::hash -----------------------------------------------------------------

def std_hash(ctx, prog, classes):
    got = {}
    for c in classes + ["symbolic::Object"]:
        for fn in prog.find("std::hash<%s>::operator()" % c, required=False):
            ps = ctx.run(prog, fn)
            vals = {p.value for p in ps if p.kind == "return" and not isinstance(p.value, L)}
            got[c] = (vals, fn, len(ps) == 1)
    need = [PB, "symbolic::Proposition", "symbolic::PropositionRef"]
    hf = hash_field(prog)
    for c, (vals, fn, single) in got.items():
        oid = "std-hash.%s" % c.split("::")[-1]
        want = ("init", ("fld", ("param", 0), hf if c != "symbolic::Object" else (getter_field(prog, "symbolic::Object::hash") or (0, 0, "hash_"))[2]))
        if vals == {want}:
            ctx.ok(oid)
        elif all(others_same(vals, o) for k, (o, _, _) in got.items() if k in need) and c in need:
            ctx.ok(oid)
        else:
            known = single and all(leafish(v) for v in vals)
            ctx.expect(oid, False if known else None, "%s: does not return the hash every other class returns" % fn.qn, fn.loc, fn.qn)


def others_same(a, b):
    return a == b and len(a) == 1


def leafish(v):
    """Made of the stored hash and constants only, hence another function of it."""
    v = subst(v, lambda x: ("call", x[1], x[-1]) if is_string_hash(x) and len(x) > 3 else None)
    return all(x[0] in ("init", "fld", "param", "int", "lin", "op", "mul", "conv", "size", "deref", "refto", "call") for x in walk(v))


# ---- equality ------------------------------------------------------------------

def component(key):
    """Which part of an operand a compared value is."""
    if key[0] == "addr":
        c = component(("init", key[1]))
        return None if c is None else "&" + c
    if key[0] == "init":
        q = key[1]
        if q[0] == "deref" and q[1][0] == "refto":
            n = q[1][1].split("::")[-1]
            return {"name": "name", "arguments": "arguments", "getNameRef": "name", "hash": "hash", "getName": "name"}.get(n)
        if q[0] == "fld":
            n = q[2].strip("_")
            return {"name": "name", "arguments": "arguments", "hash": "hash", "symbol": "&name"}.get(n)
        return None
    if key[0] == "call":
        n = key[1].split("::")[-1]
        return {"name": "name", "arguments": "arguments", "hash": "hash", "getName": "name"}.get(n)
    if key[0] == "size":
        c = component(key[1])
        return None if c is None else "|%s|" % c
    return None


def equality(ctx, prog):
    import rules.order as order
    for cls, ident in ((PB, ["name", "arguments"]), ("symbolic::Object", ["name"])):
        for op in ("==", "!="):
            fns = [f for f in prog.by_qn.get("symbolic::operator" + op, []) + prog.by_qn.get(cls + "::operator" + op, [])
                   if f.decl.ptypes and f.decl.ptypes[-1].cls == cls]
            for fn in fns:
                det = [("hash", ident)] + [("|%s|" % n, [n]) for n in ident]
                c = order.Cmp(ctx, prog, fn, ["symbolic::Object::name"], component, det)
                order.equality_rule(ctx, "%s%s" % (cls.split("::")[-1], op), c, ident)


# ---- references ----------------------------------------------------------------

def references(ctx, prog):
    """Everything that refers to a proposition passes the hash of the very name it refers to."""
    ctor = "symbolic::PropositionRef::PropositionRef"
    n = 0
    hosts = {}
    for fn in list(prog.fns.values()):
        if not fn.decl.repo or fn.decl.qn.startswith("symbolic::PropositionRef"):
            continue
        if builds(fn, ctor):
            hosts[fn.decl.usr] = fn
    for usr, fn in sorted(hosts.items(), key=lambda kv: kv[1].loc):
        oid = "reference.%s" % fn.loc
        name = fn.qn.split("::")[-1]
        ps = ctx.run(prog, fn, ["symbolic::*", "(anonymous namespace)::*", "VAL::*"])
        ev = []
        for p in ps:
            ev += list(all_events(p.ev))
            for lam in lams(p.value):
                ev += [e for q in ctx.last.run_closure(lam) for e in all_events(q.ev)]
        sites = [e for e in ev if e.k == "construct" and e.qn == ctor]
        done = set()
        for e in sites:
            if e.loc in done:
                continue
            if len(e.args) != 3:
                continue
            done.add(e.loc)
            n += 1
            a, h = e.args[0], e.args[2]
            src = ("init", a[1]) if a[0] == "addr" else None
            k = "reference.%s.%s" % (name, len(done))
            if is_string_hash(h) and src is not None:
                ok = h[-1] == src
                same_kind = h[-1][0] in ("init", "str", "call")
                ctx.expect(k, True if ok else (False if same_kind and (h[-1][0] == "str" or root_of(h[-1]) == root_of(src)) else None),
                           "%s: refers to the name %s with the hash of %s" % (fn.qn, show(src)[:80], show(h[-1])[:80]), e.loc, fn.qn)
            elif is_int(h):
                ctx.violation(k, "%s: refers to a name with a constant hash" % fn.qn, e.loc, fn.qn)
            else:
                ctx.undecide(k, "%s: name or hash not recognised" % fn.qn)
    if n:
        ctx.ok("reference.sites-analysed")


def root_of(t):
    for x in walk(t):
        if x[0] in ("param", "this"):
            return x
    return None


def lams(v):
    if isinstance(v, L) or v is None:
        return []
    return [x for x in walk(v) if x[0] == "lam"]


def builds(fn, qn):
    """Whether the function or a closure in it constructs qn."""
    short = qn.split("::")[-1]
    found = [False]

    def go(x):
        if found[0]:
            return
        if isinstance(x, dict):
            if x.get("k") == "construct" and isinstance(x.get("fn"), (int, str)):
                try:
                    if fn.tu.decl(x["fn"]).qn == qn:
                        found[0] = True
                        return
                except Exception:
                    pass
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(fn.f)
    if not found[0]:
        for lam in getattr(fn.tu, "lams", {}).values() if False else []:
            go(lam)
    return found[0]
