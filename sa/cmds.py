"""Commands of the entities: name, kind and target of every addCommand reached
from a constructor chain."""
from .effects import Ctx, callee_name, walk
from .rules.p02 import literal_tail


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "icast"):
        e = e["e"]
    return e


class Cmd:
    """kind: 'call' (function of the entity), 'set'/'get' (direct access to a
    field), 'class' (Command subclass)"""

    def __init__(self, name, kind, target, via, fn, line):
        self.name, self.kind, self.target, self.via, self.fn, self.line = name, kind, target, via, fn, line

    def where(self):
        return "%s:%d" % (self.fn["rel"], self.line)


def target(P, e, fn, ctx, depth=0):
    """(kind, target, via)"""
    e = strip(e)
    if not isinstance(e, dict) or depth > 6:
        return None
    k = e.get("k")
    if k == "ref":
        ds = ctx.local_defs(fn).get(e["d"], ())
        return target(P, ds[0], fn, ctx, depth + 1) if len(ds) == 1 else None
    if k == "new":
        c = strip(e.get("e") or e.get("c") or e.get("init"))
        if c is None or c.get("k") != "ctor":
            return None
        cls = c["f"]["cls"] if "cls" in c["f"] else ""
        fns = [n["f"]["u"] for n in walk(c["args"]) if n.get("k") == "fn" and n["f"].get("u")]
        if fns:
            return ("call", fns[0], cls)
        ex = [f for f in P.funcs.values() if f.get("n") == "doExecute" and f.get("cls", "").split("<")[0] == cls.split("<")[0]]
        ty = e.get("t", "").replace(" *", "").replace("*", "")
        ex2 = [f for f in ex if f.get("cls") == ty] or ex
        return ("class", ex2[0]["u"], cls) if ex2 else None
    if k == "call":
        nm = callee_name(e["f"])
        fns = [n["f"] for n in walk(e["args"]) if n.get("k") == "fn"]
        if fns:
            return ("call", fns[0].get("u"), nm)
        if nm in ("makeDirectSetter", "makeDirectGetter"):
            a = strip(e["args"][1])
            fl = [n.get("n") or n.get("f") for n in walk(a) if n.get("k") == "mem"]
            return ("set" if nm == "makeDirectSetter" else "get", fl[0] if fl else None, nm)
    return None


def localfn(P, e, fn, ctx, depth=0):
    """the function a local function object or member pointer was bound to"""
    for n in walk(e):
        if n.get("k") == "ref" and depth < 4:
            for d in ctx.local_defs(fn).get(n["d"], ()):
                fns = [x["f"] for x in walk(d) if x.get("k") == "fn" and x["f"].get("u") in P.funcs]
                if fns:
                    return ("call", fns[0]["u"], "bind")
                r = localfn(P, d, fn, ctx, depth + 1)
                if r:
                    return r
    return None


def commands(P, F, ct):
    ctx = Ctx(P, F)
    out = []

    def cb(n, g, ev):
        if n.get("k") in ("mcall", "call") and n.get("f") and callee_name(n["f"]) == "addCommand" and len(n["args"]) >= 2:
            t = target(P, n["args"][1], g, ctx) or localfn(P, n["args"][1], g, ctx)
            nm = literal_tail(n["args"][0], g, ctx)
            cm = Cmd("".join(nm) if None not in nm else None, *(t or (None, None, None)), fn=g, line=n["l"])
            cm.expr = n["args"][1]
            out.append(cm)
        return True
    ctx.visit(ct, {"this": {("this",)}}, cb)
    return out
