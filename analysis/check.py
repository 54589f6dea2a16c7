"""Runs one property's rule: python3 analysis/check.py C01 [--tier quick|thorough]."""
import argparse
import importlib
import json
import os
import shutil
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import common
import ir
from ir import AnalysisError, VERIF

EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=C10 key=<key> <what fails>
                parts = line[7:].split(" ", 2)
                out.append((parts[0].split("=", 1)[1], parts[1].split("=", 1)[1], parts[2] if len(parts) > 2 else ""))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        mod = importlib.import_module("rules." + a.prop.lower())
    except Exception:
        traceback.print_exc()
        return 2
    ctx = common.Ctx(a.prop, a.tier, seed)
    os.makedirs(EVID, exist_ok=True)
    def late(*_):
        raise common.Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(600)
    try:
        mod.run(ctx)
    except common.Late:
        # What was decided before stands; the rest is reported as undecided.
        ctx.undecide("analysis.time", "not finished after 600 seconds")
    except Exception as e:
        if os.environ.get("VERIF_DEBUG") or not isinstance(e, AnalysisError):
            traceback.print_exc()
        gone = isinstance(e, AnalysisError) and str(e).startswith(("anchor", "cannot analyse"))
        if gone and not any(st == "holds" for _, st in ctx.obligations) and not ctx.findings:
            print("ERROR property=%s the analysis cannot proceed: %s" % (a.prop, e))
            return 2
        # What was decided before stands; the rest is reported as undecided.
        ctx.undecide("analysis", "%s: %s" % (type(e).__name__, e))
    signal.alarm(0)
    kn = [(k, w) for p, k, w in known() if p == a.prop]
    new, old = [], []
    for f in ctx.findings:
        hit = [w for k, w in kn if k == f.key]
        (old if hit else new).append((f, hit[0] if hit else None))
    holds = sum(1 for _, s in ctx.obligations if s == "holds")
    if not holds and not new and ctx.undecided:
        print("NOTE property=%s nothing could be decided: %s" % (a.prop, ctx.undecided[0]))
    elif not holds and not new:
        print("ERROR property=%s the rule matched nothing" % a.prop)
        return 2
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "explanation": mod.EXPLAIN,
            "functions_analysed": len(ctx.functions), "paths": ctx.paths,
            "obligations": len(ctx.obligations), "discharged": holds,
            "undecided": ctx.undecided[:50], "rules": sorted({o for o, _ in ctx.obligations})[:400],
            "functions": sorted(ctx.functions)[:400],
            "known_findings": [f.key for f, _ in old],
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    rep = os.path.join(EVID, "replay")
    os.makedirs(rep, exist_ok=True)
    for n in os.listdir(rep):
        if n.startswith(a.prop + "-"):
            os.remove(os.path.join(rep, n))
    for i, (f, _) in enumerate(new):
        path = os.path.join(rep, "%s-%d.json" % (a.prop, i))
        json.dump(f.as_dict(), open(path, "w"), indent=1)
        ev["coverage"].setdefault("violated", []).append({"message": "%s: %s [%s]" % (f.loc, f.msg, f.key), "replay": path})
    json.dump(ev, open(os.path.join(EVID, a.prop + ".json"), "w"), indent=1)
    for f, w in old:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, w))
    for i, (f, _) in enumerate(new):
        print("%s: %s [%s]" % (f.loc, f.msg, f.key))
        print("VIOLATION property=%s replay=%s" % (a.prop, os.path.join(rep, "%s-%d.json" % (a.prop, i))))
    print("%s: %d functions, %d paths, %d obligations, %d hold, %d undecided, %d violated, %.1fs" % (
        a.prop, len(ctx.functions), ctx.paths, len(ctx.obligations), holds, len(ctx.undecided), len(new), time.time() - t0))
    if a.v:
        for o, s in ctx.obligations:
            print("  ", s, o)
        for u in ctx.undecided:
            print("   undecided", u)
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
