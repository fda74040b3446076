"""P02: every owned signal is registered under a unique short name that
announces the right direction."""
from ..effects import (unparsed, array_paths, build_entity, callee_name, ctors, entity_classes, own_field, sigkind, walk)

# signals deliberately not offered to scripts (name says internal, never
# plugged from outside); one line of reason each
INTERNAL = {
    ("ExpMovingAvg", "refresherSINTERN"): "always-ready dummy used only to force recomputation",
    ("GradientAscent", "refresherSINTERN"): "always-ready dummy used only to force recomputation",
    ("SotJointTrajectoryEntity", "refresherSINTERN"): "always-ready dummy used only to force recomputation",
    ("SotJointTrajectoryEntity", "OneStepOfUpdateS"): "internal trigger shared by the four output signals",
    ("Kalman", "gainSINTERN"): "never computed nor read",
    ("Kalman", "innovationSINTERN"): "never computed nor read",
    ("FilterDifferentiator", "m_x_dx_ddxSINNER"): "inner buffer shared by the three outputs",
    ("FeaturePose", "q_faMfb"): "inner value shared by error and Jacobian",
    ("FeaturePose", "q_faMfbDes"): "inner value shared by error and Jacobian",
    ("GripperControlPlugin", "positionReduceSOUT"): "internal plumbing, plugged into positionSIN by the constructor",
    ("GripperControlPlugin", "torqueReduceSOUT"): "internal plumbing, plugged into torqueSIN by the constructor",
    ("GripperControlPlugin", "torqueLimitReduceSOUT"): "internal plumbing, plugged into torqueLimitSIN by the constructor",
    ("FeaturePosture", "error_"): "unused member",
}


def short(F):
    return F.replace("dynamicgraph::sot::", "").split("<")[0].split("::")[-1]


def literal_tail(e, fn, ctx, depth=0):
    """list of pieces (str or None) of a string expression, left to right"""
    if e is None or depth > 30:
        return [None]
    k = e.get("k")
    if k == "str":
        return [e["v"]]
    if k in ("cast", "icast"):
        return literal_tail(e["e"], fn, ctx, depth + 1)
    if k == "ctor" and e["args"]:
        return literal_tail(e["args"][0], fn, ctx, depth + 1)
    if k == "ocall" and e["op"] == "+":
        return literal_tail(e["args"][0], fn, ctx, depth + 1) + literal_tail(e["args"][1], fn, ctx, depth + 1)
    if k == "ref":
        ds = ctx.local_defs(fn).get(e["d"], ())
        if len(ds) == 1:
            return literal_tail(ds[0], fn, ctx, depth + 1)
    return [None]


def shortname(pieces):
    """(short name, direction word) or (None, None)"""
    s = "".join("\0" if p is None else p for p in pieces)
    name = s.split(":")[-1]
    d = None
    for w, v in (("::input(", "in"), ("::output(", "out"), ("::inner(", "inner"), ("::intern(", "inner"), ("::sin(", "in"), ("::sout(", "out")):
        if w in s:
            d = v
    return (None if "\0" in name else name), d


def run(c):
    c.rule("in every constructor chain of every entity class each signal member is passed to signalRegistration (deliberately internal ones are listed); the constant short names of the signals of one object are pairwise distinct; a plug-in signal is not announced as output nor a computed one as input; every signal created with new is registered by the operation that creates it")
    P = c.P
    nc = 0
    for F in entity_classes(P):
        if unparsed(P, F):
            c.notes.append("not decided: " + F)
            continue
        for ct in ctors(P, F):
            nc += 1
            E = build_entity(P, F, ct)
            names = {}
            tag = "%s(%d)" % (short(F), len(ct["params"]))
            for s, (kind, decl, fld) in sorted(E.signals.items()):
                regs = E.registered.get(s)
                if not regs and (short(F), s) not in INTERNAL and (short(decl), s) not in INTERNAL:
                    c.fail("%s does not register %s" % (tag, s), "%s:%d" % (ct["rel"], ct["l"]),
                           "constructor of %s builds signal %s but never registers it: it cannot be reached by name" % (F, s))
                else:
                    c.ok()
                if s in E.names:
                    e, fn, env, ln = E.names[s][-1]
                    nm, d = shortname(literal_tail(e, fn, E.ctx))
                    if nm is not None and regs:
                        if nm in names:
                            c.fail("%s: %s and %s share the name '%s'" % ((short(F),) + tuple(sorted((names[nm], s))) + (nm,)), "%s:%d" % (fn["rel"], ln),
                                   "signals %s and %s of %s are both registered as '%s'" % (names[nm], s, F, nm))
                        else:
                            c.ok("%s.%s registered as %s" % (short(F), s, nm))
                            c.count("constant names")
                        names[nm] = s
                    if d is not None and regs:
                        c.count("announced directions")
                        if kind == "in":
                            c.need(d == "in", "%s.%s direction" % (short(F), s), "%s:%d" % (fn["rel"], ln), "input signal %s of %s is announced as %s" % (s, F, d))
                        elif kind == "out" and s in E.callbacks:
                            c.need(d != "in" or s.endswith("SINTERN"), "%s.%s direction" % (short(F), s), "%s:%d" % (fn["rel"], ln), "computed signal %s of %s is announced as input" % (s, F))
    c.floor("constructors", nc, 130)
    # dynamically created signals
    nnew = 0
    from ..effects import Ctx
    for F in entity_classes(P):
        ctx = Ctx(P, F)
        for b in P.bases(F):
            for f in P.funcs.values():
                if f.get("cls") != b or not f.get("body") or f.get("dtor"):
                    continue
                news = [n for n in walk(f["body"]) if n.get("k") == "new" and sigkind(n.get("t", "").replace(" *", ""))]
                if not news:
                    continue
                ok = []

                def cb(n, g, ev):
                    if n.get("k") == "mcall" and n.get("f") and callee_name(n["f"]) == "signalRegistration":
                        ok.append(n["l"])
                    return True
                ctx.visit(f, {"this": {("this",)}}, cb)
                nnew += len(news)
                key = "%s creates signals without registering them" % f["qs"].replace("dynamicgraph::sot::", "")
                for n in news:
                    c.need(bool(ok), key, "%s:%d" % (f["rel"], n["l"]), "%s creates a signal that no call of signalRegistration in this operation receives" % f["q"])
    c.floor("dynamic creations", nnew, 3)
