"""Development bench: small edits of a copy of /repo, and what the checks say about them.

  python3 devtest/bench.py [-j N] [-k substring] [-p C01,C02] FILE...

Each FILE defines EDITS = [(id, "bad:C01,C02" | "good", path, [(old, new), ...])].
A bad edit must make one of the named checks exit 1; a good edit must leave every
check in the -p list quiet. Not used by the registered checks.
"""
import argparse, concurrent.futures, os, re, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def one(e, props, compile_):
    eid, kind, path, subs = e[0], e[1], e[2], e[3]
    d = tempfile.mkdtemp(prefix="bench-")
    try:
        subprocess.run("cp -r /repo/include /repo/src /repo/apps /repo/tests /repo/lib %s/ 2>/dev/null; for f in /repo/*; do b=$(basename $f); [ -e %s/$b ] || case $b in build*|.git) ;; *) cp -r $f %s/ ;; esac; done" % (d, d, d), shell=True)
        files = path if isinstance(path, list) else [path]
        for f in files:
            s = open(d + "/" + f).read()
            for sub in subs:
                old, new = sub[0], sub[1]
                if len(files) > 1 and old not in s:
                    continue
                n = s.count(old)
                if n == 0:
                    return eid, kind, "BADEDIT: text not found: " + old[:60], ""
                if len(sub) > 2 and sub[2] == "all":
                    s = s.replace(old, new)
                elif len(sub) > 2:
                    parts = s.split(old)
                    i = sub[2]
                    s = old.join(parts[:i + 1]) + new + old.join(parts[i + 1:])
                else:
                    s = s.replace(old, new, 1)
            open(d + "/" + f, "w").write(s)
        want = kind.split(":")[1].split(",") if kind.startswith("bad") else []
        todo = sorted(set(want) | set(props)) if kind == "good" or not want else want
        got, txt = {}, []
        for p in todo:
            r = subprocess.run([sys.executable, VERIF + "/analysis/check.py", p] + (["-v"] if os.environ.get("V") else []), capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVID=d + "/evid"))
            got[p] = r.returncode
            if r.returncode != 0 or os.environ.get("V"):
                txt.append("\n".join(x for x in r.stdout.splitlines() if not x.startswith("   holds"))[-1500:] + r.stderr.strip()[-200:])
        if kind == "good":
            bad = [p for p in got if got[p] != 0]
            res = "ok" if not bad else "FALSE-ALARM/ERR " + ",".join("%s=%d" % (p, got[p]) for p in bad)
        else:
            hit = [p for p in want if got[p] == 1]
            res = "caught " + ",".join(hit) if hit else ("MISSED" if all(got[p] == 0 for p in want) else "ERROR " + str(got))
        return eid, kind, res, "\n".join(txt)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("-k", default="")
    ap.add_argument("-p", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    es = []
    for f in a.files:
        g = runpy.run_path(f)
        es += [e for e in g["EDITS"] if re.search(a.k, e[0])]
    props = [p for p in a.p.split(",") if p]
    n = {}
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        for eid, kind, res, txt in ex.map(lambda e: one(e, props, False), es):
            n[res.split()[0]] = n.get(res.split()[0], 0) + 1
            flag = "" if res.startswith(("ok", "caught")) else "   <<<<"
            print("%-28s %-14s %s%s" % (eid, kind, res, flag))
            if a.v or os.environ.get("V") or flag.strip() and txt:
                print("    " + "\n    ".join(x[:300] for x in txt.splitlines()[:8]))
    print(n)


main()
