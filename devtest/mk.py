"""Materialises one edit of a bench file: mk.py FILE ID DIR."""
import runpy, subprocess, sys
f, k, d = sys.argv[1:]
subprocess.run("rm -rf %s; mkdir -p %s; for x in include src apps tests symbolic; do cp -r /repo/$x %s/; done" % (d, d, d), shell=True)
e = [e for e in runpy.run_path(f)["EDITS"] if e[0] == k][0]
for p in (e[2] if isinstance(e[2], list) else [e[2]]):
    s = open(d + "/" + p).read()
    for sub in e[3]:
        if sub[0] not in s:
            print("not found in", p); continue
        if len(sub) > 2 and sub[2] != "all":
            parts = s.split(sub[0]); i = sub[2]
            s = sub[0].join(parts[:i + 1]) + sub[1] + sub[0].join(parts[i + 1:])
        else:
            s = s.replace(sub[0], sub[1]) if len(sub) > 2 else s.replace(sub[0], sub[1], 1)
    open(d + "/" + p, "w").write(s)
