"""C20: problem descriptions written in Python are the PDDL they stand for."""
import ast, os
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre
from common import *
import ir, pyir
from pyir import Py, State, Unknown, tokens, NONE, lit

LEVEL = "other"
EXPLAIN = ("symbolic/problem.py is read as a syntax tree; every public builder is summarised per path over symbolic arguments "
           "(loops and comprehensions as one generic item) and the text it yields is compared, token by token, with the PDDL "
           "production it stands for; the parsers' patterns are compared as sets of characters. Nothing is executed.")
FILE = "symbolic/problem.py"


def run(ctx):
    path = os.path.join(ir.REPO, FILE)
    try:
        text = open(path).read()
        tree = ast.parse(text)
    except (OSError, SyntaxError) as e:
        raise AnalysisError("cannot analyse %s: %s" % (FILE, e))
    m = Py(FILE, text, recursive(tree))
    ctx.py = m
    for f in (formulas, parsers, problem_stores, problem_text, printing):
        for name, g in f(m):
            try:
                for ok, why, line in g():
                    ctx.expect(name, ok, "%s: %s" % (name, why), "%s:%d" % (FILE, line or 1), name)
            except Unknown as e:
                ctx.undecide(name, "not modelled: %s" % e)
            except RecursionError:
                ctx.undecide(name, "not modelled: recursion")
    ctx.functions |= m.analysed
    ctx.paths += m.npaths


def recursive(tree):
    """Names of functions that can call themselves."""
    calls_, names = {}, {}
    def visit(body, cls):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                n = (cls + "." if cls else "") + s.name
                names.setdefault(s.name, set()).add(n)
                calls_[n] = {(False, x.id) for x in ast.walk(s) if isinstance(x, ast.Name)} | \
                            {(True, x.attr) for x in ast.walk(s) if isinstance(x, ast.Attribute)}
            elif isinstance(s, ast.ClassDef):
                visit(s.body, s.name)
    visit(tree.body, "")
    out = set()
    for n in calls_:
        seen, todo = set(), [n]
        while todo:
            for attr, c in calls_[todo.pop()]:
                for k in names.get(c, ()):
                    if ("." in k) != attr:
                        continue
                    if k == n:
                        out.add(n)
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
    return out


def line_of(m, name):
    f = m.fns.get(name)
    return f.lineno if f is not None else 1


def sym(n):
    return ("sym", n)


def param(m, fn, i):
    """The i-th positional parameter's symbol."""
    a = m.fns[fn].args
    names = [x.arg for x in a.posonlyargs + a.args]
    return sym(names[i])


def vararg(m, fn):
    a = m.fns[fn].args
    return sym(a.vararg.arg) if a.vararg else None


def show_(ts):
    def one(t):
        if isinstance(t, str):
            return t
        if t[0] == "sym":
            return "<%s>" % t[1]
        if t[0] == "all":
            return "<each of %s>" % (one(t[1]) if isinstance(t[1], tuple) else t[1])
        if t[0] == "glue":
            return "".join(one(x) for x in t[1:])
        if t[0] == "attr":
            return "<%s>" % t[2]
        if t[0] in ("each",):
            return "<each of %s: %s>" % (one(t[1]), " ".join(one(x) for x in t[4]))
        return "<%s>" % t[0]
    return " ".join(one(t) for t in ts)


def known(ts, ok):
    """Whether a token list consists of literal text and the given symbols only."""
    for t in ts:
        if isinstance(t, str) or t in ok:
            continue
        if t[0] == "all" and t[1] in ok:
            continue
        if t[0] == "glue" and known(t[1:], ok):
            continue
        if t[0] == "join" and t[1][0] == "str" and known(t[1][1], ok) and known(tokens(t[2]), ok):
            continue
        if undistort(t) in ok:
            continue
        if t[0] == "cases" and t[1] in ok:
            el = list(ok) + [("elem", t[1], t[2])]
            if all(known(its, el) and all(closed(a, el) for a, b in fs) for fs, its in t[3]):
                continue
        if t[0] == "each" and t[1] in ok and known(t[4], list(ok) + [("elem", t[1], t[2])]):
            continue
        return False
    return True


def simplify(ts, text=()):
    """`each x of s: x` and `all of s` are s, taken whole, unless s may be text."""
    out = []
    for t in ts:
        if isinstance(t, tuple) and t[0] == "each" and not t[3] and t[4] == (("elem", t[1], t[2]),):
            t = ("all", t[1])
        if isinstance(t, tuple) and t[0] == "all" and t[1] not in text:
            t = t[1]
        out.append(t)
    return out


NEUTRAL = (NONE, ("int", 0), ("int", 1))


def undistort(t):
    """A term without the operations that lose, reorder or repeat items, or change text."""
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return tuple(undistort(x) for x in t) if isinstance(t, tuple) else t
    k = t[0]
    if k == "slice" and any(b[0] not in ("none", "int") or b == NONE for b in t[2:]) and t[2:] != (("int", 0), NONE, NONE):
        return undistort(t[1])
    if k in ("sorted", "reversed"):
        return undistort(t[1])
    if k == "item":
        return undistort(t[1])
    if k == "call" and t[1] in ("set", "frozenset") and len(t) == 3:
        return undistort(t[2])
    if k == "meth" and t[1] == "fromkeys" and len(t) == 4 and t[2] == ("global", "dict"):
        return undistort(t[3])
    if k == "filterf" and t[1] == NONE and undistort(t[2]) != t[2]:
        return undistort(t[2])
    if k == "meth" and t[1] in ("lower", "upper", "title", "capitalize"):
        return undistort(t[2])
    if k == "meth" and t[1] in ("strip", "lstrip", "rstrip") and len(t) == 4:
        return undistort(t[2])
    if k == "splice" and undistort(t[1]) != t[1]:
        return ("splice", undistort(t[1]))
    if k == "list" and len(t[1]) == 1 and t[1][0][0] == "splice" and undistort(t[1][0][1]) != t[1][0][1]:
        return undistort(t[1][0][1])
    return tuple(undistort(x) if isinstance(x, tuple) else x for x in t)


def distorted(got, want):
    """Whether got is want with some operation that changes it."""
    got, want = tuple(got) if isinstance(got, list) else got, tuple(want) if isinstance(want, list) else want
    if got == want:
        return False
    u = undistort(got)
    if isinstance(u, tuple) and u and isinstance(u[0], (tuple, str)) and not (isinstance(u[0], str) and u[0] in ("list", "meth", "call")):
        u2 = tuple(simplify(list(u)))
        return u == want or u2 == want
    return u == want


def reshuffled(ts):
    """The tokens with every displayed list that is sorted by its own items put back as displayed; None if none is."""
    out, some = [], False
    for t in ts:
        if isinstance(t, tuple) and t and t[0] in ("sorted", "reversed") and isinstance(t[1], tuple) and t[1][0] == "list" and len(t[1][1]) > 1 \
                and (t[0] == "reversed" or "'elem'" in repr(t[2:]) or len(t) < 4):
            out += list(t[1][1])
            some = True
        else:
            out.append(t)
    return out if some else None


def formulas(m):
    def builder(name, spec, types=()):
        def go():
            for st in m.run(name):
                if st.flow[0] == "raise":
                    yield None, "fails", line_of(m, name)
                    continue
                v = st.flow[1]
                facts = dict(st.facts)
                want, syms = spec(facts)
                va = vararg(m, name)
                got = simplify(tokens(v), [x for x in syms if x != va and facts.get(("isinstance", x, ("global", "str"))) is not False])
                if got == want:
                    yield True, "", line_of(m, name)
                    continue
                plain = all(closed(a, syms) for a in facts)
                bad = plain and (known(got, syms) or reshuffled(got) == want)
                yield (False if bad else None), "yields `%s` instead of `%s`" % (show_(got), show_(want)), line_of(m, name)
        return name, go

    def p(facts):
        h, a = param(m, "_P", 0), vararg(m, "_P")
        ts = ["(", h, a, ")"]
        return ts, [h, a]

    def nary(name, word):
        def s(facts):
            a = vararg(m, name)
            return ["(", word, a, ")"], [a]
        return s

    def fixed(name, word, n):
        def s(facts):
            ps = [param(m, name, i) for i in range(n)]
            return ["(", word] + ps + [")"], ps
        return s

    def quant(name, word):
        def s(facts):
            v, t, f = (param(m, name, i) for i in range(3))
            typed = facts.get(("truthy", t), True)
            return ["(", word, "(", ("glue", "?", v)] + (["-", t] if typed else []) + [")", f, ")"], [v, t, f]
        return s

    table = [("_P", p), ("_and", nary("_and", "and")), ("_or", nary("_or", "or")), ("_not", fixed("_not", "not", 1)),
             ("_forall", quant("_forall", "forall")), ("_exists", quant("_exists", "exists")), ("_when", fixed("_when", "when", 2))]
    for n, s in table:
        if n not in m.fns:
            raise AnalysisError("anchor not found: %s" % n)
        yield builder(n, s)


def closed(a, syms):
    """A condition on nothing but the given symbols."""
    if a in syms or a == ("global", "str"):
        return True
    if not isinstance(a, tuple):
        return True
    if a and a[0] in ("sym", "attr", "apply", "elem", "global", "prop"):
        return False
    return all(closed(x, syms) for x in a)


# ---- parsers ---------------------------------------------------------------------

class Pattern:
    """A pattern of the shape  head-characters* '(' argument-characters*  with its groups."""

    def __init__(self, text):
        self.ok = False
        try:
            t = list(sre.parse(text))
        except Exception:
            return
        flat = []
        def go(items, grp):
            for op, av in items:
                o = str(op)
                if o == "SUBPATTERN":
                    go(av[-1], av[0])
                elif o in ("MAX_REPEAT",):
                    lo, hi, sub_ = av
                    cs = charset(list(sub_))
                    flat.append(("rep", grp, lo, str(hi) == "MAXREPEAT", cs))
                elif o == "LITERAL":
                    flat.append(("lit", grp, chr(av)))
                else:
                    flat.append(("?", grp, o))
        go(t, None)
        self.flat = flat
        self.ok = all(x[0] != "?" for x in flat)


def charset(items):
    """The characters a one-character pattern does not match; 'some' when it matches a limited set."""
    if len(items) != 1:
        return None
    o, av = str(items[0][0]), items[0][1]
    if o == "NOT_LITERAL":
        return frozenset(chr(av))
    if o == "ANY":
        return frozenset("\n")
    if o == "IN" and str(av[0][0]) == "NEGATE" and all(str(a) == "LITERAL" for a, _ in av[1:]):
        return frozenset(chr(x) for _, x in av[1:])
    if o == "IN" and str(av[0][0]) != "NEGATE" and all(str(a) in ("LITERAL", "RANGE", "CATEGORY") for a, _ in av) and \
            not any(str(a) == "CATEGORY" and "NOT" in str(c) for a, c in av):
        return "some"
    return None


def judge_pattern(v, want):
    """Whether a group of a match is the head or the argument text of its subject."""
    if v[0] == "item" and v[1][0] == "groups" and v[2][0] == "int":
        v = ("group", v[1][1], ("int", v[2][1] + 1))
    if v[0] == "item":
        return judge_cut(v, want)
    if v[0] != "group" or v[1][0] != "call" or v[1][1] not in ("re.match", "re.search") or v[2][0] != "int":
        return None, ""
    pat = v[1][2]
    if pat[0] != "str" or not all(isinstance(p, str) for p in pat[1]):
        return None, ""
    P = Pattern("".join(pat[1]))
    if not P.ok or v[1][1] != "re.match":
        return None, ""
    grp = v[2][1]
    if grp == 0:
        return False, "takes the whole match"
    reps = [x for x in P.flat if x[0] == "rep"]
    # Shape: rep '(' rep, perhaps followed by ')'.
    shape = [x[0] if x[0] == "rep" else x[2] for x in P.flat]
    if shape == ["rep"] and P.flat[0][2] == 0:
        return False, "text without a parenthesis is not rejected"
    if shape not in (["rep", "(", "rep"], ["rep", "(", "rep", ")"]):
        return None, ""
    head, args = reps
    if None in (head[4], args[4]):
        return None, ""
    target = head if want == "head" else args
    if "some" in (head[4], args[4]):
        return False, "some propositions are not recognised"
    if grp not in (head[1], args[1]):
        return None, ""
    if target[1] != grp:
        return False, "takes the other part of the proposition"
    if head[4] != frozenset("(") or not head[3]:
        if head[4] > frozenset("(") or head[4] == frozenset() or "(" not in head[4] or not head[3]:
            return False, "the predicate's name is not all that comes before the first parenthesis"
        return None, ""
    if want == "args":
        if args[4] == frozenset(")") and args[3] and args[2] == 0:
            return (None if shape[-1] == ")" else True), ""
        if ")" not in args[4] and shape[-1] == "rep":
            return False, "the arguments run past the first closing parenthesis"
        return False, "some arguments are not recognised"
    if head[2] != 0 or shape[-1] == ")":
        return None, ""
    return True, ""


def cut(t):
    """(side, which, text, mark) of a text cut at a mark: before/after its first/last occurrence."""
    if t[0] != "item" or t[1][0] != "meth" or t[2][0] != "int" or len(t[1]) < 4 or t[1][3][0] != "str":
        return None
    _, op, s, mark = t[1][:4]
    more, i = t[1][4:], t[2][1]
    if op in ("partition", "rpartition") and not more and i in (0, 1, 2):
        return ("before", "mark", "after")[i], "first" if op == "partition" else "last", s, mark
    if op in ("split", "rsplit") and i == 0 and (op == "split" or not more):
        return "before", "first", s, mark
    if more == (("int", 1),) and i in (0, 1):
        return ("before", "after")[i], "first" if op == "split" else "last", s, mark
    return None


def judge_cut(v, want):
    """Whether a text cut with partition or split is the head or the argument text."""
    c = cut(v)
    if c is None:
        return None, ""
    if want == "head":
        if c[0] == "before" and c[2][0] == "sym" and c[3] == lit("("):
            return (True, "") if c[1] == "first" else (False, "the predicate's name is not all that comes before the first parenthesis")
        return None, ""
    d = cut(c[2])
    if c[0] == "before" and c[3] == lit(")") and d and d[0] == "after" and d[3] == lit("(") and d[2][0] == "sym":
        if d[1] == "last":
            return False, "the arguments do not start at the first parenthesis"
        return (True, "") if c[1] == "first" else (False, "the arguments run past the first closing parenthesis")
    if c[0] == "after" and c[2][0] == "sym" and c[3] == lit("("):
        return False, "the arguments run past the first closing parenthesis"
    return None, ""


def no_match(facts):
    for a, b in facts:
        if a[0] == "in" and a[1] == lit("(") and a[2][0] == "sym":
            return not b
        if a[0] == "truthy" and cut(a[1]) and cut(a[1])[0] == "mark" and cut(a[1])[3] == lit("(") and cut(a[1])[2][0] == "sym":
            return not b
        if a[0] == "isnone" and a[1][0] == "call" and a[1][1].startswith("re."):
            return b
    return None


def args_value(v, facts):
    """Whether a value is the list of arguments in the argument text."""
    ok, why = args_value_(v, facts)
    if ok is None:
        u = undistort(v)
        if u != v and args_value_(u, facts)[0] is True:
            return False, "arguments are lost, changed or reordered"
    return ok, why


def args_value_(v, facts):
    if v[0] == "list" and len(v[1]) == 1 and v[1][0][0] == "splice":
        v = v[1][0][1]
    if v[0] == "list" and len(v[1]) == 1 and v[1][0][0] == "each" and not v[1][0][3] and v[1][0][4] == (("elem",) + v[1][0][1:3],):
        v = v[1][0][1]
    if v[0] == "list" and not v[1]:
        # No arguments: the text must have been empty.
        for a, b in facts:
            if a[0] == "truthy" and not b:
                return squeezed(a[1])
        return None, ""
    if v[0] == "list" and len(v[1]) == 1 and v[1][0][0] == "each" and not v[1][0][3]:
        src = v[1][0][1]
        if src[0] == "meth" and src[1] == "split" and len(src) == 4 and src[3] == lit(",") and \
                not any(a[0] != "isnone" for a, b in facts):
            return False, "a proposition without arguments gets one argument"
    if v[0] == "meth" and v[1] == "split":
        if len(v) == 5 and v[3] == lit(",") and v[4][0] == "int" and v[4][1] >= 0:
            return False, "some arguments are not separated"
        if len(v) != 4:
            return (False if len(v) == 3 else None), "the arguments are not separated at commas"
        if v[3] != lit(","):
            return (False if v[3][0] == "str" else None), "the arguments are not separated at commas"
        ok, why = squeezed(v[2])
        if ok is not True:
            return ok, why
        for a, b in facts:
            if a[0] == "truthy" and b and squeezed(a[1])[0] is True:
                return True, ""
        if any(a[0] not in ("isnone",) for a, b in facts):
            return None, ""
        return False, "a proposition without arguments gets one empty argument"
    return None, ""


def squeezed(t):
    """The argument text without blanks."""
    gone, other, trimmed = set(), False, False
    while True:
        if t[0] == "meth" and t[1] == "replace" and len(t) == 5 and t[4] == lit("") and t[3][0] == "str" and \
                len(t[3][1]) == 1 and isinstance(t[3][1][0], str) and len(t[3][1][0]) == 1:
            gone.add(t[3][1][0])
            t = t[2]
        elif t[0] == "meth" and t[1] in ("strip", "lstrip", "rstrip") and len(t) == 3:
            trimmed = True
            t = t[2]
        elif t[0] == "meth" and t[1] in ("lower", "upper", "title", "capitalize"):
            other = True
            t = t[2]
        elif t[0] == "str" and len(t[1]) == 1 and not isinstance(t[1][0], str):
            t = t[1][0]
        elif t[0] == "join" and t[1] == lit("") and t[2][0] == "meth" and t[2][1] == "split" and len(t[2]) == 4 and \
                t[2][3] == lit(" "):
            gone.add(" ")
            t = t[2][2]
        elif t[0] == "join" and t[1] == lit("") and t[2][0] == "list" and len(t[2][1]) == 1 and t[2][1][0] and \
                t[2][1][0][0] == "splice":
            t = ("join", t[1], t[2][1][0][1])
        else:
            break
    if t[0] == "meth" and t[1] in ("strip", "rstrip") and t[3:] == (lit(")"),):
        t = t[2]  # one bracket at the end is not the first one anywhere
    ok, why = judge_pattern(t, "args")
    if ok is not True:
        return ok, why
    if other or gone - {" "}:
        return False, "the arguments' text is changed"
    if " " not in gone:
        return False, "blanks stay in the arguments"
    return (None if trimmed else True), ""


def parsers(m):
    def common(name, judge):
        def go():
            ln = line_of(m, name)
            if name not in m.fns:
                raise AnalysisError("anchor not found: %s" % name)
            for st in m.run(name):
                nm = no_match(st.facts)
                if nm is True:
                    ok = st.flow[0] == "raise" and st.flow[1][0] == "call" and st.flow[1][1] == "ValueError"
                    yield (True if ok else False), "does not reject text that is not a proposition with a ValueError", ln
                    continue
                if st.flow[0] == "raise":
                    yield (None if nm is None or len(st.facts) > 1 else False), "rejects a proposition", ln
                    continue
                if nm is None and (any(x[0] == "call" and x[1].startswith("re.") for x in walk(st.flow[1])) or
                                   any(x[0] == "item" and cut(x) for x in walk(st.flow[1])) and
                                   all(a[0] == "truthy" and a[1][0] == "meth" and a[1][1] in ("replace", "strip") for a, b in st.facts)):
                    yield False, "does not reject text that is not a proposition with a ValueError", ln
                    continue
                ok, why = judge(st.flow[1], st.facts)
                if ok is None and nm is not None and len(st.facts) == 1:
                    u = undistort(st.flow[1])
                    if u != st.flow[1] and judge(u, st.facts)[0] is True:
                        ok, why = False, "part of the proposition is lost, changed or reordered"
                yield ok, why, ln
        return name, go

    def head(v, facts):
        return judge_pattern(v, "head")

    def both(v, facts):
        if v[0] != "list" or len(v[1]) != 2:
            return None, ""
        a, w1 = judge_pattern(v[1][0], "head")
        b, w2 = args_value(v[1][1], facts)
        if a is False or b is False:
            return False, w1 if a is False else w2
        return (True if a and b else None), ""

    yield common("parse_proposition", both)
    yield common("parse_head", head)
    yield common("parse_args", args_value)


# ---- problems --------------------------------------------------------------------

SELF = ("obj", "self", "Problem")


def fresh_self(m):
    st = State()
    st.heap[SELF] = {}
    return st


def field_lists(st):
    """Lists of the problem that a method changed: name -> appended items."""
    out = {}
    for f, v in st.heap.get(SELF, {}).items():
        old = ("attr", SELF, f)
        if v[0] == "list" and v[1].count(("splice", old)) == 1:
            out[f] = tuple(i for i in v[1] if i != ("splice", old))
        elif v != old:
            out[f] = ("set", v)
    return out


def rewritten(st, fs):
    """A field among fs that is given other items without what it held."""
    for f, v in st.heap.get(SELF, {}).items():
        if f in fs and v[0] == "list" and not any(x == ("attr", SELF, f) for x in walk(v)):
            return f
    return None


class Layout:
    """Which fields hold the objects, the initial propositions and the goal."""

    def __init__(self, m):
        self.objects = self.initial = self.goal = None
        for st in m.run("Problem.add_object", SELF, fresh_self(m)):
            for f, its in field_lists(st).items():
                if its and its[0] != "set" and any(i[0] == "obj" for i in its):
                    self.objects = f
        for st in m.run("Problem.set_goal", SELF, fresh_self(m)):
            for f, its in field_lists(st).items():
                if its[0] == "set" and its[1] == param(m, "Problem.set_goal", 1):
                    self.goal = f
        for st in m.run("Problem.add_initial_prop", SELF, fresh_self(m)):
            for f, its in field_lists(st).items():
                if its and its[0] != "set":
                    self.initial = f
        self.name = self.domain = self.oname = self.otype = None
        st, me = State(), ("obj", "self", "Object")
        st.heap[me] = {}
        for f, v in m.run("Object.__init__", me, st)[0].heap[me].items():
            if v == param(m, "Object.__init__", 1):
                self.oname = f
            if v == param(m, "Object.__init__", 2):
                self.otype = f
        for st in m.run("Problem.__init__", SELF, fresh_self(m)):
            for f, v in st.heap[SELF].items():
                if v == param(m, "Problem.__init__", 1):
                    self.name = f
                if v == param(m, "Problem.__init__", 2):
                    self.domain = f


def class_lists(m, cls):
    """Class attributes that are lists, shared by all objects."""
    out = set()
    for x in m.classes[cls].body:
        if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, (ast.List, ast.Call)):
            for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                if isinstance(t, ast.Name):
                    out.add(t.id)
    return out


def problem_stores(m):
    def init():
        ln = line_of(m, "Problem.__init__")
        L = Layout(m)
        shared = class_lists(m, "Problem")
        mutated = set()
        for n in ("add_object", "add_initial_prop"):
            for st in m.run("Problem." + n, SELF, fresh_self(m)):
                mutated |= {f for o, f in st.inplace if o == SELF}
        a = m.fns["Problem.__init__"].args
        dflt = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        for st in m.run("Problem.__init__", SELF, fresh_self(m)):
            h = st.heap[SELF]
            for f, what in ((L.objects, "objects"), (L.initial, "initial propositions")):
                v = h.get(f)
                ok = True if v == ("list", ()) else None if v is None or v[0] != "list" else False
                if v is None and f in shared and f in mutated:
                    ok = False
                if v is not None and v[0] == "sym" and isinstance(dflt.get(v[1]), (ast.List, ast.Call)) and f in mutated:
                    ok = False
                yield ok, "a new problem does not start without %s of its own" % what, ln
            g = h.get(L.goal)
            yield (True if g is not None and tokens(g) == ["(", "and", ")"] else
                   False if g is not None and g[0] in ("str", "list") and all(isinstance(t, str) for t in tokens(g)) else None), \
                "a new problem's goal is not the empty conjunction", ln

    def add_object():
        n = "Problem.add_object"
        ln = line_of(m, n)
        for st in m.run(n, SELF, fresh_self(m)):
            fl = {f: its for f, its in field_lists(st).items()}
            its = [i for x in fl.values() if x and x[0] != "set" for i in x]
            if dict(st.facts).get(("truthy", param(m, n, 1))) is False:
                continue
            if rewritten(st, fl):
                yield False, "the objects added before are lost", ln
                continue
            if len(its) != 1 or its[0][0] != "obj":
                plain = all(closed(a, [param(m, n, 1), param(m, n, 2)]) for a, b in st.facts) or \
                    not any(x == param(m, n, 1) for a, b in st.facts for x in walk(a))
                yield (False if not its and not fl and plain else None), "the object is not added", ln
                continue
            st = st.copy()
            st.flow = None
            text = m.text(its[0], st)
            nm, ty = param(m, n, 1), param(m, n, 2)
            for y, v in text:
                typed = dict(y.facts).get(("truthy", ty))
                if dict(y.facts).get(("truthy", nm)) is False:
                    continue
                got = tokens(v)
                want = [nm] if typed is False else [nm, "-", ty]
                yield (True if got == want else False if known(got, [nm, ty]) else None), \
                    "the object is written as `%s`" % show_(got), ln

    def add_prop():
        n = "Problem.add_initial_prop"
        ln = line_of(m, n)
        p = param(m, n, 1)
        m2 = Py(m.path, open(os.path.join(ir.REPO, FILE)).read(), set(m.opaque) | {"parse_proposition"})
        for st in m2.run(n, SELF, fresh_self(m2)):
            if st.flow[0] == "raise":
                yield None, "fails", ln
                continue
            starts = None
            empty = None
            for a, b in st.facts:
                if a[0] == "eq" and lit("(") in a[1:] and any(x[0] in ("item", "slice") and x[1] == p for x in a[1:]):
                    starts = b
                elif a == ("startswith", p, lit("(")):
                    starts = b
                elif a == ("truthy", p):
                    empty = not b
                elif a == ("in", lit("("), p):
                    starts = None
            its = [i for x in field_lists(st).values() if x and x[0] != "set" for i in x]
            if empty and not its:
                yield True, "", ln
                continue
            plain = all(closed(a, [p]) for a, b in st.facts)
            if rewritten(st, field_lists(st)):
                yield False, "the propositions added before are lost", ln
                continue
            if not its and not plain:
                # Passed over because of something else than being there already.
                for a, b in st.facts:
                    if a[0] == "in" and b and undistort(a[1]) == p and a[1] != p and \
                            not any(x[0] in ("item", "slice") for x in walk(a[1])):
                        plain = True
            if len(its) != 1:
                yield (False if plain else None), "one proposition is kept %d times" % len(its), ln
                continue
            v = its[0]
            if v == p or v == ("str", (p,)):
                # Conditions that say nothing about how the text begins.
                weak = all(a == ("truthy", p) or a == ("in", lit("("), p) and b or
                           a[0] == "eq" and any(x[0] == "item" and x[1] == p and x[2] == ("int", -1) for x in a[1:]) or
                           a[0] == "endswith" and a[1] == p for a, b in st.facts)
                yield (True if starts is True or empty else False if starts is False or weak else None), \
                    "a proposition written like a call is kept as it is", ln
                continue
            got = simplify(tokens(v))
            pp = ("call", "parse_proposition", p)
            want = ["(", ("item", pp, ("int", 0)), ("item", pp, ("int", 1)), ")"]
            okay = got == want
            if starts is True:
                yield (False if okay else None), "a PDDL proposition is parsed as a call", ln
            elif okay:
                yield (True if starts is False else None), "", ln
            else:
                yield (False if plain and known(got, [("item", pp, ("int", 0)), ("item", pp, ("int", 1)), p]) else None), \
                    "a proposition written like a call is kept as `%s`" % show_(got), ln

    def set_state():
        n = "Problem.set_initial_state"
        ln = line_of(m, n)
        s = param(m, n, 1)
        m2 = Py(m.path, open(os.path.join(ir.REPO, FILE)).read(), set(m.opaque) | {"Problem.add_initial_prop"})
        for st in m2.run(n, SELF, fresh_self(m2)):
            raw = [i for x in field_lists(st).values() if x and x[0] != "set" for i in x]
            if any(i == ("splice", s) for i in raw):
                yield False, "propositions are kept as they are written", ln
                continue
            cs = [e for e in st.events if e[0] == "each" and e[4][0] == "call" and e[4][1] == "Problem.add_initial_prop"]
            if len(cs) == 1:
                e = cs[0]
                arg = e[4][3] if len(e[4]) > 3 else None
                seq = m2.seq_root(e[1])
                if seq == s and arg == ("elem", e[1], e[2]) and not e[3]:
                    yield True, "", ln
                else:
                    el = ("elem", e[1], e[2])
                    u = m2.seq_root(undistort(e[1]))
                    cut = any(x[0] == "slice" for x in walk(e[1])) and u == s
                    some = seq == s and e[3] and all(closed(a, [el]) for a, b in e[3]) and \
                        not all(a == ("truthy", el) and b for a, b in e[3])
                    yield (False if cut or some else None), "not every proposition is added", ln
            elif len(st.events) == 1 and st.events[0][:2] == ("call", "Problem.add_initial_prop"):
                yield False, "only one proposition is added", ln
            elif not st.events and not field_lists(st):
                yield False, "no proposition is added", ln
            else:
                yield None, "", ln

    yield "Problem.__init__", init
    yield "Problem.add_object", add_object
    yield "Problem.add_initial_prop", add_prop
    yield "Problem.set_initial_state", set_state

    def set_goal():
        n = "Problem.set_goal"
        for st in m.run(n, SELF, fresh_self(m)):
            fl = field_lists(st)
            vals = [x[1] for x in fl.values() if x and x[0] == "set"]
            yield (True if vals == [param(m, n, 1)] else False if not fl else None), "the goal is not kept", line_of(m, n)
    yield "Problem.set_goal", set_goal


def problem_text(m):
    def go():
        L = Layout(m)
        ln = line_of(m, "Problem.__repr__")
        objs = ("attr", SELF, L.objects)
        m.elem_class = {objs: "Object"}
        rec = m.opaque
        for st in m.run("Problem.__repr__", SELF, fresh_self(m)):
            if st.flow[0] == "raise":
                yield None, "fails", ln
                continue
            v = st.flow[1]
            if v[0] == "call" and v[1] in rec:
                v = v[2]
            facts = dict(st.facts)
            f = {k: ("attr", SELF, getattr(L, k)) for k in ("initial", "goal")}
            f["name"], f["domain"] = param(m, "Problem.__init__", 1), param(m, "Problem.__init__", 2)
            text_ = [] if facts.get(("isinstance", f["goal"], ("global", "str"))) is False else [f["goal"]]
            got0 = simplify(tokens(v), text_)
            parts = [["(", "define"], ["(", "problem", f["name"], ")"], ["(", ":domain", f["domain"], ")"],
                     None, ["(", ":init", f["initial"], ")"], ["(", ":goal", f["goal"], ")"], [")"]]
            plain = all(closed(a, list(f.values()) + [objs]) for a in facts)
            for init in m.run("Problem.__init__", SELF, fresh_self(m)):
                keep = {("attr", SELF, k): x for k, x in init.heap[SELF].items()
                        if k not in (L.objects, L.initial, L.goal) and not any(y[0] == "attr" for y in walk(x))}
                got = [put(t, keep) for t in got0]
                yield (*judge(got, parts, f, objs, plain, L), ln)

    def put(t, sub_):
        if t in sub_:
            return sub_[t]
        return tuple(put(x, sub_) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t

    def judge(got, parts, f, objs, plain, L):
        i = 0
        for part in parts:
            if part is None:
                j = i
                while j < len(got) and got[j] != ")":
                    j += 1
                ok, why = objects_ok(got[i:j], objs, L)
                if ok is not True:
                    return ok, why
                i = j + 1
                continue
            seg = got[i:i + len(part)]
            if seg != part:
                ok = known(got, list(f.values()) + [objs]) or known(seg, list(f.values()) + [objs])
                return (False if plain and ok else None), "the problem has `%s` instead of `%s`" % (show_(seg), show_(part))
            i += len(part)
        if i != len(got):
            return (False if plain else None), "the problem has text after its end"
        return True, ""

    yield "Problem.__repr__", go


def objects_ok(ts, objs, L):
    """`( :objects` and every object once, untyped ones after all typed ones."""
    if ts[:2] != ["(", ":objects"]:
        return (False if all(isinstance(t, str) for t in ts[:2]) else None), "the objects are not introduced by :objects"
    segs = []      # (seq, typed: emits?, untyped: emits?)
    for t in ts[2:]:
        if not isinstance(t, tuple) or t[0] not in ("each", "cases"):
            return None, "objects not recognised"
        rows = [(t[3], t[4])] if t[0] == "each" else list(t[3])
        el = ("elem", t[1], t[2])
        emits = {}
        for typed in (True, False):
            hit = [its for fs, its in rows if all(fact_holds(a, b, el, typed, L) is not False for a, b in fs)]
            if any(fact_holds(a, b, el, typed, L) is None for fs, _ in rows for a, b in fs) or len(hit) != 1:
                return None, "objects not recognised"
            its = list(hit[0])
            nm = [x for x in its if isinstance(x, tuple) and x[0] == "attr" and x[1] == el]
            if not its:
                emits[typed] = 0
            elif typed and len(its) == 3 and its[1] == "-" and len(nm) == 2 and nm[0] != nm[1]:
                emits[typed] = 1
            elif not typed and len(its) == 1 and nm:
                emits[typed] = 1
            else:
                return (False if known(its, nm) else None), "an object is written as `%s`" % show_(its)
        for o in order_of(t[1], objs, L):
            if o is None:
                return None, "objects not recognised"
            segs.append({k: emits[k] and o[k] for k in emits})
    for k in (True, False):
        if sum(s[k] for s in segs) != 1:
            return False, "%s objects are listed %d times" % ("typed" if k else "untyped", sum(s[k] for s in segs))
    seen = False
    for s in segs:
        if s[True] and (seen or s[False]):
            return False, "an untyped object can come before a typed one, and gets its type"
        seen = seen or s[False]
    return True, ""


def order_of(seq, objs, L):
    """The runs of a sequence over the objects: which of typed / untyped each run holds."""
    if seq == objs:
        return [{True: 1, False: 1}]
    if seq[0] == "list" and len(seq[1]) == 1 and seq[1][0] == ("splice", objs):
        return [{True: 1, False: 1}]
    if seq[0] == "sorted" and (seq[1] == objs):
        el = ("elem", seq[1], seq[2])
        vals = {}
        for typed in (True, False):
            hit = [v for fs, v in seq[3] if isinstance(fs, tuple) and all(fact_holds(a, b, el, typed, L) is True for a, b in fs)] \
                if seq[3] and seq[3][0] != () else []
            if len(hit) != 1:
                return [None]
            vals[typed] = key_value(hit[0], el, typed, L)
        if None in vals.values():
            return [None]
        rev = seq[4] == ("bool", True)
        if seq[4] not in (None, ("bool", False), ("bool", True)):
            return [None]
        a, b = vals[True], vals[False]
        if a == b:
            return [{True: 1, False: 1}]
        first = (a < b) != rev
        return [{True: 1, False: 0}, {True: 0, False: 1}] if first else [{True: 0, False: 1}, {True: 1, False: 0}]
    if seq[0] == "list":
        out = []
        for i in seq[1]:
            if i[0] == "splice":
                out += order_of(i[1], objs, L)
            elif i[0] in ("each", "cases"):
                rows = [(i[3], i[4])] if i[0] == "each" else list(i[3])
                el = ("elem", i[1], i[2])
                r = {}
                for typed in (True, False):
                    hit = [its for fs, its in rows if all(fact_holds(a, b, el, typed, L) is True for a, b in fs)]
                    if len(hit) > 1 or any(its not in ((), (el,)) for its in hit):
                        return [None]
                    r[typed] = len(hit[0]) if hit else 0
                for o in order_of(i[1], objs, L):
                    if o is None:
                        return [None]
                    out.append({k: r[k] and o[k] for k in r})
            else:
                return [None]
        return out
    return [None]


def key_value(v, el, typed, L):
    pol = True
    while v[0] == "not":
        v, pol = v[1], not pol
    if v[0] == "bool":
        return v[1] == pol
    if v[0] in ("int",):
        return v[1]
    if v == ("truthy", ("attr", el, L.otype)):
        return typed == pol
    if v == ("attr", el, L.otype):
        return typed
    return None


def fact_holds(a, b, el, typed, L):
    if a == ("truthy", ("attr", el, L.otype)):
        return b == typed
    if a == ("truthy", ("attr", el, L.oname)):
        return b
    return None


def printing(m):
    """The text of a nested list is its strings, in order, separated by whitespace."""
    def go():
        name = [n for n in m.opaque if "." not in n]
        used = set()
        for st in m.run("Problem.__repr__", SELF, fresh_self(m)):
            for x in walk(st.flow[1]):
                if x[0] == "call" and x[1] in name:
                    used.add(x[1])
        for n in used:
            ln = line_of(m, n)
            s = param(m, n, 0)
            for st in m.run(n):
                if st.flow[0] == "raise":
                    yield None, "fails", ln
                    continue
                v = st.flow[1]
                isstr = [b for a, b in st.facts if a[0] == "isinstance" and a[1] == s and a[2] == ("global", "str")]
                if isstr == [True]:
                    if v[0] != "str":
                        yield (False if v == s or undistort(v) == s else None), "text is not separated by whitespace", ln
                        continue
                    # Padding before, the text, whitespace after.
                    parts = list(v[1])
                    if any(undistort(p) == s and p != s for p in parts if not isinstance(p, str)):
                        yield False, "text is changed", ln
                        continue
                    at = [i for i, p in enumerate(parts) if p == s]
                    if len(at) != 1:
                        yield (False if not at and all(isinstance(p, str) or p[0] == "times" for p in parts) else None), "text is lost or repeated", ln
                        continue
                    before, after = parts[:at[0]], parts[at[0] + 1:]
                    ws = all(blank(p) for p in before + after)
                    ends = bool(after) and isinstance(after[0], str) or bool(before) and isinstance(before[0], str)
                    yield (True if ws and ends else False if all(isinstance(p, str) or p[0] == "times" for p in before + after) else None), \
                        "text is not separated by whitespace", ln
                elif isstr == [False]:
                    ok = None
                    if v[0] == "str" and len(v[1]) == 1 and not isinstance(v[1][0], str) and v[1][0][0] == "join":
                        sep, seq = v[1][0][1], v[1][0][2]
                        if seq[0] == "list" and len(seq[1]) == 1 and seq[1][0][0] in ("each", "cases") and blankv(sep):
                            e = seq[1][0]
                            rows = [(e[3], e[4])] if e[0] == "each" else list(e[3])
                            el = ("elem", e[1], e[2])
                            good = all(len(its) == 1 and its[0][0] == "call" and its[0][1] == n and its[0][2] == el for fs, its in rows)
                            full = e[1] == s and all(its for fs, its in rows)
                            ok = True if good and full else None
                            if e[1][0] == "reversed" or e[1][0] == "slice" or e[1] == s and not all(its for fs, its in rows) and \
                                    all(closed(a, [s, el]) for fs, its in rows for a, b in fs):
                                ok = False
                    yield ok, "a list's items are not all printed, in order", ln
                else:
                    yield None, "", ln
    yield "printing", go


def blank(p):
    if isinstance(p, str):
        return p.isspace() or p == ""
    return p[0] == "times" and blankv(p[1])


def blankv(v):
    return v[0] == "str" and all(isinstance(p, str) and (p.isspace() or p == "") for p in v[1])
