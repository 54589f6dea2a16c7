"""Development: random small mutations of one source file, and which checks report them.

  python3 devtest/mutate.py [-j N] [-n COUNT] [-s SEED] FILE...     (paths relative to /repo)

Mutants that do not compile are dropped. The checks run are those whose property names the file.
Prints the mutants that no check reports. Not used by the registered checks.
"""
import argparse, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PROPS = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]


def props_of(f):
    return [p["id"] for p in PROPS if f in json.dumps(p)]


SWAP = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), (" < ", " > "),
        (" + ", " - "), (" - ", " + "), ("++", "--"), ("--", "++"), ("+= ", "-= "), ("-= ", "+= "), ("true", "false"), ("false", "true"),
        ("continue;", "break;"), ("break;", "continue;"), (" + 1", ""), (" - 1", ""), ("!", ""), ("begin()", "end()"), ("end()", "begin()"),
        (".first", ".second"), (".second", ".first"), ("pos()", "neg()"), ("neg()", "pos()"), ("pos_", "neg_"), ("neg_", "pos_"),
        ("front()", "back()"), ("back()", "front()"), ("insert(", "erase("), ("erase(", "insert("), (" 0;", " 1;"), ("(0)", "(1)"), ("= 0", "= 1"),
        (" 1)", " 2)"), (" * ", " + "), (" / ", " * "), (" % ", " / "), ("const auto ", "auto "), ("push_back", "insert_x"), ("lower_bound", "upper_bound"),
        (" and ", " or "), (" or ", " and "), (" not ", " "), (" in ", " not in "), ("return ", "throw 0; return "), ("static ", "static thread_local ")]


def mutants(text, py):
    out = []
    lines = text.split("\n")
    com = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            com = True
        if com:
            com = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "using", "namespace", "template", '"""')):
            continue
        code = re.sub(r"//.*", "", l)
        for a, b in SWAP:
            if a in ("return ", "static ", "const auto ", "push_back"):
                continue
            k = -1
            while True:
                k = code.find(a, k + 1)
                if k < 0:
                    break
                if a == "!" and code[k:k + 2] == "!=":
                    continue
                if code[:k].count('"') % 2:
                    continue
                if a in ("true", "false", "pos_", "neg_") and (code[k - 1:k].isalnum() or code[k - 1:k] == "_"):
                    continue
                out.append((i, [code[:k] + b + code[k + len(a):]], "%s -> %s" % (a.strip(), b.strip())))
        if s.endswith(";") and not py and not s.startswith(("return", "}", "const ", "class", "struct", "friend", "auto ", "virtual", "explicit", "break", "continue")):
            out.append((i, [""], "deleted"))
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\)( \{| return.*| continue;.*|.*;)?)$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            out.append((i, [m.group(1) + "false" + m.group(3)], "if false"))
            out.append((i, [m.group(1) + "true" + m.group(3)], "if true"))
        for m in re.finditer(r"(\w+)\(([\w.*&>\-]+(?:\(\))?), ([\w.*&>\-]+(?:\(\))?)\)", code):
            out.append((i, [code[:m.start(2)] + m.group(3) + ", " + m.group(2) + code[m.end(3):]], "swapped arguments"))
        if s.startswith("return") and s.endswith(";") and i > 0 and lines[i - 1].strip().endswith(("{", ")")):
            pass
    # swapped adjacent statements
    for i in range(len(lines) - 1):
        a, b = lines[i], lines[i + 1]
        if a.strip().endswith(";") and b.strip().endswith(";") and len(a) - len(a.lstrip()) == len(b) - len(b.lstrip()) and not com \
                and not b.strip().startswith("return") and not a.strip().startswith(("return", "//", "using")) and "(" in a + b:
            out.append((i, [b, a], "swapped lines"))
    return out


lock = threading.Lock()
free = []


def tree():
    with lock:
        if free:
            return free.pop()
    d = tempfile.mkdtemp(prefix="mut-")
    for x in os.listdir("/repo"):
        if x.startswith("build") or x == ".git":
            continue
        (shutil.copytree if os.path.isdir("/repo/" + x) else shutil.copy)("/repo/" + x, d + "/" + x)
    return d


def compiles(d, f):
    if f.endswith(".py"):
        return subprocess.run([sys.executable, "-m", "py_compile", d + "/" + f], capture_output=True).returncode == 0
    inc = ["-std=c++17", "-fsyntax-only", "-w", "-I" + d + "/include", "-I" + VERIF + "/val_stub", "-isystem", "/usr/include/eigen3"]
    fs = [f] if f.endswith(".cc") else ["src/normal_form.cc", "src/state.cc", "src/planning/planner.cc", "src/utils/parameter_generator.cc", "apps/pddl.cc", "src/pddl.cc"]
    return all(subprocess.run(["clang++"] + inc + [d + "/" + x], capture_output=True).returncode == 0 for x in fs)


def one(f, text, m, props):
    d = tree()
    try:
        i, new, what = m
        lines = text.split("\n")
        n = len(new) if what == "swapped lines" else 1
        lines[i:i + n] = new
        open(d + "/" + f, "w").write("\n".join(lines))
        if not compiles(d, f):
            return None
        res, und = [], 0
        for p in props:
            r = subprocess.run([sys.executable, VERIF + "/analysis/check.py", p], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVID=d + "/evid"))
            if r.returncode == 1:
                return "caught " + p
            if r.returncode != 0:
                res.append("%s exits %d" % (p, r.returncode))
            u = re.search(r"(\d+) undecided", r.stdout)
            if u and int(u.group(1)):
                res.append("%s undecided %s" % (p, u.group(1)))
        return "MISSED " + ", ".join(res)
    finally:
        open(d + "/" + f, "w").write(text)
        with lock:
            free.append(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-n", type=int, default=60)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-p", default="")
    ap.add_argument("files", nargs="+")
    a = ap.parse_args()
    ex = concurrent.futures.ThreadPoolExecutor(a.j)
    for f in a.files:
        text = open("/repo/" + f).read()
        ms = mutants(text, f.endswith(".py"))
        random.Random(a.s).shuffle(ms)
        ms = sorted(ms[:a.n])
        props = a.p.split(",") if a.p else props_of(f)
        print("#", f, "checks", props, len(ms), "mutants", flush=True)
        rs = list(ex.map(lambda m: one(f, text, m, props), ms))
        L = text.split("\n")
        for m, r in zip(ms, rs):
            if r and r.startswith("MISSED"):
                print("%s:%d %-18s %-60s => %s   [%s]" % (f, m[0] + 1, m[2], L[m[0]].strip()[:70], m[1][0].strip()[:70], r), flush=True)
        print("#", f, "caught", sum(1 for r in rs if r and r[0] == "c"), "missed", sum(1 for r in rs if r and r[0] == "M"),
              "not compiling", sum(1 for r in rs if r is None), flush=True)
    for d in free:
        shutil.rmtree(d, ignore_errors=True)


main()
