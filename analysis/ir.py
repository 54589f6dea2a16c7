"""Loads the exporter's JSON into one program: functions by USR, classes, types."""
import concurrent.futures
import glob
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG_RES = "/usr/lib/llvm-18/lib/clang/18/include"


class AnalysisError(Exception):
    """The analysis itself cannot proceed (vanished anchor, unparsable source)."""


def exporter():
    """Returns the exporter binary, building it when it is missing or stale."""
    src = os.path.join(HERE, "export.cc")
    out = os.path.join(BUILD, "symexport")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so.18.1"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("cannot build the exporter:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def flags():
    return ["-std=c++17", "-I" + REPO + "/include", "-I" + REPO + "/src",
            "-I" + os.path.join(VERIF, "val_stub"), "-isystem", "/usr/include/eigen3",
            "-isystem", CLANG_RES, "-DDOCTEST_CONFIG_DISABLE", "-DNDEBUG", "-w"]


class Decl:
    __slots__ = ("tu", "d", "usr", "qn", "name", "cls")

    def __init__(self, tu, d):
        self.tu = tu
        self.d = d
        self.usr = d["usr"]
        self.qn = d["qn"]
        self.name = d["name"]
        self.cls = d.get("cls")

    @property
    def repo(self):
        return bool(self.d.get("repo"))

    @property
    def const(self):
        return bool(self.d.get("const"))

    @property
    def static(self):
        return bool(self.d.get("static"))

    @property
    def kind(self):
        return self.d.get("kind")

    @property
    def op(self):
        return self.d.get("op")

    @property
    def ret(self):
        return self.tu.type(self.d["ret"])

    @property
    def ptypes(self):
        return [self.tu.type(t) for t in self.d["pt"]]

    @property
    def loc(self):
        return "%s:%d" % (rel(self.d["file"]), self.d["line"])

    def __repr__(self):
        return "<Decl %s>" % self.qn


def rel(path):
    return os.path.relpath(path, REPO) if path.startswith(REPO) else path


class Fn:
    __slots__ = ("tu", "f", "decl", "lam")

    def __init__(self, tu, f):
        self.tu = tu
        self.f = f
        self.decl = tu.decl(f["d"])
        self.lam = None

    @property
    def loc(self):
        return "%s:%d" % (rel(self.f["file"]), self.f["l"])

    @property
    def qn(self):
        return self.decl.qn

    def __repr__(self):
        return "<Fn %s>" % self.decl.qn


class TU:
    def __init__(self, name, data):
        self.name = name
        self.data = data
        self.types = data["types"]
        self._decls = [None] * len(data["decls"])

    def type(self, i):
        return Type(self, i)

    def decl(self, i):
        if self._decls[i] is None:
            self._decls[i] = Decl(self, self.data["decls"][i])
        return self._decls[i]


class Type:
    __slots__ = ("tu", "i", "t")

    def __init__(self, tu, i):
        self.tu = tu
        self.i = i
        self.t = tu.types[i] if i >= 0 else {"s": "?"}

    @property
    def s(self):
        return self.t["s"]

    @property
    def ref(self):
        return self.t.get("r")

    @property
    def ptr(self):
        return bool(self.t.get("p"))

    @property
    def const(self):
        return bool(self.t.get("c"))

    @property
    def cls(self):
        return self.t.get("cls")

    @property
    def basic(self):
        return self.t.get("b")

    @property
    def lam(self):
        return self.t.get("lam")

    @property
    def args(self):
        return [Type(self.tu, a) for a in self.t.get("args", [])]

    def __repr__(self):
        return "<T %s>" % self.s


class Cls:
    def __init__(self, tu, c):
        self.tu = tu
        self.c = c
        self.qn = c["qn"]

    @property
    def fields(self):
        return {f["name"]: f for f in self.c["fields"]}

    def ftype(self, name):
        return self.tu.type(self.fields[name]["t"])

    @property
    def methods(self):
        return [self.tu.decl(m) for m in self.c["methods"]]

    @property
    def friends(self):
        return [self.tu.decl(m) for m in self.c["friends"]]

    @property
    def bases(self):
        return [self.tu.type(b) for b in self.c["bases"]]

    @property
    def loc(self):
        return "%s:%d" % (rel(self.c["file"]), self.c["l"])


class Program:
    def __init__(self):
        self.tus = []
        self.fns = {}      # usr -> Fn
        self.by_qn = {}    # qualified name -> [Fn]
        self.classes = {}  # qualified name -> [Cls]
        self.lams = {}     # (tu name, lambda id) -> Fn
        self.missing = []

    def add(self, tu):
        self.tus.append(tu)
        for f in tu.data["fns"]:
            fn = Fn(tu, f)
            if fn.decl.usr in self.fns:
                continue
            self.fns[fn.decl.usr] = fn
            self.by_qn.setdefault(fn.decl.qn, []).append(fn)
        for c in tu.data["classes"]:
            cl = Cls(tu, c)
            ts = cl.tu.type(cl.c["t"]).s
            for key in {cl.qn, ts}:
                known = self.classes.setdefault(key, [])
                if all(k.tu.type(k.c["t"]).s != ts for k in known):
                    known.append(cl)

    def find(self, qn, pred=None, required=True):
        """All function definitions with this qualified name."""
        out = [f for f in self.by_qn.get(qn, []) if pred is None or pred(f)]
        if not out and required:
            raise AnalysisError("anchor not found: %s" % qn)
        return out

    def cls(self, qn):
        c = self.classes.get(qn)
        if not c:
            raise AnalysisError("anchor class not found: %s" % qn)
        return c

    def loc(self, fn, line):
        return "%s:%d" % (rel(fn.f["file"]), line or fn.f["l"])


DRIVERS = os.path.join(HERE, "drivers")


def _run(exe, src):
    r = subprocess.run([exe, REPO + "/", src, "--"] + flags(), capture_output=True, text=True,
                       cwd=REPO)
    return src, r


def sources():
    out = []
    for p in sorted(glob.glob(REPO + "/src/**/*.cc", recursive=True)):
        base = os.path.relpath(p, REPO)
        if base.startswith("src/python/") or base == "src/utils/doctest.cc":
            continue
        out.append(p)
    return out


def load(only=None, drivers=None):
    """Exports translation units of the current tree and merges the result.

    `only` restricts the library sources (paths relative to the repository) and
    `drivers` the template drivers; None means all.
    """
    exe = exporter()
    srcs = sources()
    if only is not None:
        srcs = [s for s in srcs if os.path.relpath(s, REPO) in only]
    drv = sorted(glob.glob(DRIVERS + "/*.cc"))
    if drivers is not None:
        drv = [d for d in drv if os.path.basename(d)[:-3] in drivers]
    prog = Program()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for src, r in ex.map(lambda s: _run(exe, s), drv + srcs):
            if r.returncode != 0 or not r.stdout.strip():
                raise AnalysisError("cannot analyse %s:\n%s" % (src, r.stderr[-4000:]))
            prog.add(TU(os.path.relpath(src, REPO), json.loads(r.stdout)))
    return prog
