"""C04: every '<' is a strict total order that agrees with its '=='."""
from common import *
import rules.order as order
from rules import small
from rules.sets import HashSetModel

LEVEL = "other"
EXPLAIN = ("The path summaries of every comparison operator are tabulated over all orderings of up to three operands' components "
           "(name, arguments, members, address): '<' must be irreflexive, asymmetric and transitive with exactly the equal operands "
           "equivalent, '==' must hold exactly for equal identities and '!=' must be its negation. Nothing is executed.")

ID = {
    "symbolic::Object": ["name"],
    "symbolic::Object::Type": ["name"],
    "symbolic::PropositionBase": ["name", "arguments"],
    "symbolic::Action": ["name"],
    "symbolic::State": ["members"],
    "symbolic::PartialState": ["true members", "false members"],
    "symbolic::HashSet<symbolic::Proposition>": ["members"],
    "symbolic::Planner::Node": ["members"],
}
PRIM = ["symbolic::Object::name", "symbolic::Object::Type::name", "symbolic::Action::name", "symbolic::Object::hash"]


def component(key):
    if key[0] == "addr":
        c = component(("init", key[1]))
        return None if c is None else "&" + c
    if key[0] == "size":
        c = component(key[1])
        return None if c is None else "|%s|" % c
    q, names = key, []
    if key[0] == "call":
        names = [key[1].split("::")[-1]]
        q = key[2] if len(key) > 2 else key
    while isinstance(q, tuple) and q and q[0] in ("init", "fld", "deref", "refto", "call"):
        if q[0] == "fld":
            names.append(q[2].strip("_"))
            q = q[1]
        elif q[0] == "refto" or q[0] == "call":
            names.append(q[1].split("::")[-1])
            q = q[2] if len(q) > 2 else None
        else:
            q = q[1]
    for n in names:
        if n == "pos":
            return "true members"
        if n == "neg":
            return "false members"
    for n in names:
        if n in ("name", "getNameRef", "getName"):
            return "name"
        if n == "arguments":
            return "arguments"
        if n == "hash":
            return "hash"
        if n == "pos":
            return "true members"
        if n == "neg":
            return "false members"
        if n in ("buckets", "state"):
            return "members"
        if n == "size":
            return "|members|"
        if n in ("depth", "action", "ancestors", "parameters", "is_pos"):
            return n
        if n == "symbol":
            return "&name"
        if n == "impl":
            return "&members"
    if not names and q is not None and q[0] in ("param", "this"):
        return None
    return None


def run(ctx):
    prog = ctx.program(["src/state.cc", "src/object.cc", "src/action.cc", "src/planning/planner.cc"], ["sets"])
    for cls, ident in ID.items():
        tag = cls.split("<")[0].split("::", 1)[1]
        for op in ("<", "==", "!="):
            fns = prog.by_qn.get(cls + "::operator" + op, []) + [
                f for f in prog.by_qn.get("symbolic::operator" + op, []) if f.decl.ptypes and f.decl.ptypes[-1].cls == cls
                and (cls != "symbolic::HashSet<symbolic::Proposition>" or True)]
            if cls.startswith("symbolic::HashSet"):
                fns = [f for f in fns if f.decl.ptypes[-1].s.replace("class ", "").count("Proposition")]
            for fn in fns:
                ctx.group(tag + op, one, ctx, prog, fn, tag + op, ident, op)
    ctx.group("small", small_sets, ctx, prog)


def small_sets(ctx, prog):
    M = HashSetModel(ctx, prog)
    small.set_comparisons(ctx, prog, M)
    small.comparisons(ctx, prog, M, None)
    pos, neg = getter_field(prog, "symbolic::PartialState::pos"), getter_field(prog, "symbolic::PartialState::neg")
    if pos is not None and neg is not None:
        small.comparisons(ctx, prog, M, (pos, neg))


def one(ctx, prog, fn, oid, ident, op):
    det = [("hash", [i for i in ident])] + [("|%s|" % n, [n]) for n in ident]
    c = order.Cmp(ctx, prog, fn, PRIM, component, det)
    if op == "<":
        order.order_rule(ctx, oid, c, ident)
    else:
        order.equality_rule(ctx, oid, c, ident)
