"""seed.py FILE EDIT ID PROPERTY DEMO NEEDS WHAT: turns a bench edit into /verif/seeded/ID and confirms it.

DEMO is a .cc under devtest/demos; it is linked with all sources when its first line says '// lib'."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
f, k, sid, prop, demo, needs, what = sys.argv[1:]
d = "/tmp/seed-" + sid
out = V + "/seeded/" + sid
r = subprocess.run([sys.executable, H + "/mk.py", f, k, d], capture_output=True, text=True)
assert "not found" not in r.stdout, r.stdout
os.makedirs(out, exist_ok=True)
for x in ("include", "src", "apps", "symbolic"):
    if not os.path.isdir(d + "/" + x): continue
    p = subprocess.run("diff -ruN a/%s b/%s" % (x, x), shell=True, capture_output=True, text=True, cwd=d) if 0 else None
patch = ""
os.makedirs(d + "/ab"); os.symlink("/repo", d + "/ab/a"); os.symlink(d, d + "/ab/b")
for x in ("include", "src", "apps", "symbolic"):
    if os.path.isdir(d + "/" + x):
        patch += subprocess.run("diff -ru a/%s b/%s | grep -v '^diff -ru'" % (x, x), shell=True, capture_output=True, text=True, cwd=d + "/ab").stdout
open(out + "/patch.diff", "w").write(patch)
src = open(H + "/demos/" + demo).read()
shutil.copy(H + "/demos/" + demo, out + "/demo" + os.path.splitext(demo)[1])
if demo.endswith(".py"):
    sh = 'set -e\nH="$(cd "$(dirname "$0")" && pwd)"\npython3 -B "$H/demo.py"\n'
elif src.startswith("// lib"):
    for x in ("build.sh", "mini_val.cc"):
        shutil.copy(V + "/demo_lib/" + x, out + "/")
    if os.path.isdir(out + "/VAL"): shutil.rmtree(out + "/VAL")
    shutil.copytree(V + "/val_stub/VAL", out + "/VAL")
    sh = 'set -e\nH="$(cd "$(dirname "$0")" && pwd)"\nT="$(mktemp -d)"\nbash "$H/build.sh" "$H/demo.cc" "$T/demo"\nrc=0\ntimeout 60 "$T/demo" || rc=$?\nrm -f "$T/demo"\nrmdir "$T"\nexit $rc\n'
else:
    sh = 'set -e\nH="$(cd "$(dirname "$0")" && pwd)"\nT="$(mktemp -d)"\ng++ -std=c++17 -O1 -D_GLIBCXX_ASSERTIONS -I/repo/include "$H/demo.cc" -o "$T/demo"\nrc=0\ntimeout 60 "$T/demo" || rc=$?\nrm -f "$T/demo"\nrmdir "$T"\nexit $rc\n'
open(out + "/demo.sh", "w").write(sh)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(out + "/meta.json", "w"), indent=1)
shutil.rmtree(d)
def sh_(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
a = sh_("cd /repo && bash %s/demo.sh" % out)
print("clean demo", a.returncode, a.stdout[-300:], a.stderr[-300:] if a.returncode else "")
try:
    g = sh_("git -C /repo apply %s/patch.diff" % out); assert g.returncode == 0, g.stderr
    b = sh_("bash /opt/vp/build.sh"); print("build", b.returncode, b.stderr[-300:] if b.returncode else "")
    t = sh_("bash /opt/vp/test.sh /tmp/o.json; cat /tmp/o.json"); print("tests", t.stdout[-200:])
    c = sh_("cd /repo && bash %s/demo.sh" % out); print("patched demo", c.returncode, c.stdout[-200:], c.stderr[-200:])
    e = sh_("cd %s && python3 analysis/check.py %s" % (V, prop)); print("check", e.returncode, e.stdout[-300:])
finally:
    sh_("git -C /repo checkout -- .")
ok = a.returncode == 0 and '"failed": []' in t.stdout and b.returncode == 0 and c.returncode != 0
print("SEED", sid, "OK" if ok else "BAD", "caught" if e.returncode == 1 else "missed")
