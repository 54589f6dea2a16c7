"""Prints the path summaries of functions (a development aid)."""
import sys, time
import ir, engine
from terms import show


def dump_ev(e, ind):
    pad = "  " * ind
    if e.k == "loop":
        lp = e.loop
        print("%sLOOP#%s %s %s over=%s dir=%s lo=%s hi=%s exit=%s" % (pad, lp.id, lp.kind, lp.loc, [show(o) for o in lp.over], lp.dir,
              show(lp.lo) if lp.lo else None, show(lp.hi) if lp.hi else None, e.extra if not isinstance(e.extra, tuple) else (e.extra[0], show(e.extra[1]) if isinstance(e.extra[1], tuple) else e.extra[1])))
        for p in lp.mod:
            print("%s  mod %s : init %s entry %s" % (pad, show(p), show(lp.init[p]), show(lp.entry[p]) if lp.entry.get(p) else None))
        for ip in lp.paths:
            print("%s  iter flow=%s facts=[%s]" % (pad, ip.flow if not isinstance(ip.flow, tuple) else (ip.flow[0], show(ip.flow[1]) if isinstance(ip.flow[1], tuple) else ip.flow[1]),
                                                   "; ".join(("" if v else "!") + show(a) for a, v in ip.facts)))
            for p in lp.mod:
                print("%s    %s := %s" % (pad, show(p), show(ip.S.store.get(p)) if ip.S.store.get(p) else None))
            for x in ip.events:
                dump_ev(x, ind + 3)
    else:
        print("%s%s %s obj=%s args=%s ret=%s @%s" % (pad, e.k, e.qn, show(e.obj) if e.obj else None,
              [show(a) for a in e.args or []], show(e.ret) if e.ret else None, e.loc))


def main():
    prog = ir.load()
    prims = set()
    names = []
    for a in sys.argv[1:]:
        if a.startswith("-p"):
            prims.add(a[2:])
        else:
            names.append(a)
    for n in names:
        fns = [f for q, fs in prog.by_qn.items() for f in fs if q == n or (n.endswith("*") and q.startswith(n[:-1]))]
        for f in fns:
            t = time.time()
            it = engine.Interp(prog, primitive=lambda d: any(d.qn == p or (p.endswith("*") and d.qn.startswith(p[:-1])) for p in prims) and d.usr != f.decl.usr)
            ps = it.run(f)
            print("=== %s %s const=%s params=%s (%d paths, %.2fs)" % (f.qn, f.loc, f.decl.const, [f.tu.type(p["t"]).s for p in f.f["p"]], len(ps), time.time() - t))
            for p in ps:
                print(" PATH", p.kind, p.value if isinstance(p.value, engine.L) else show(p.value), "| facts:", "; ".join(("" if v else "!") + show(a) for a, v in p.facts))
                for e in p.ev:
                    dump_ev(e, 2)
                for q, v in p.S.store.items():
                    if engine.root(q)[0] not in ("var", "tmp", "cap"):
                        print("    store %s = %s" % (show(q), show(v)))


if __name__ == "__main__":
    main()
