"""P04: code, text and detail of the exceptions; distinct names and codes."""
from .. import contracts
from ..model import strip_targs


def literal(e):
    """the string literal an initialiser reduces to"""
    while isinstance(e, dict):
        if e.get("k") == "str":
            return e["v"]
        if e.get("k") in ("ctor", "cast", "icast"):
            a = [x for x in e.get("args", [e.get("e")]) if x and not x.get("dflt")]
            if len(a) != 1:
                return None
            e = a[0]
        else:
            return None


def run(c):
    P = c.P
    c.rule("every constructor and accessor of the exception family computes its reference semantics (spec/p04.cpp)")
    c.rule("the families' code ranges are pairwise disjoint, codes distinct, names distinct")
    contracts.run(c, ["p04"], floor=18)
    root = "dynamicgraph::sot::ExceptionAbstract"
    fam = sorted(P.derived(root))
    c.floor("exception families", len(fam), 6)
    seen = {}
    for F in fam:
        e = P.enums.get(strip_targs(F) + "::ErrorCodeEnum")
        if e is None:
            continue
        c.count("code enumerations")
        for x in e["v"]:
            k = "%s::%s" % (F.split("::")[-1], x["n"])
            if x["v"] in seen:
                c.fail("code %s" % k, "%s:%d" % (e["file"], e["l"]), "%s and %s both have the code %d" % (k, seen[x["v"]], x["v"]))
            else:
                c.ok(k)
            seen.setdefault(x["v"], k)
    names = {}
    for q, g in sorted(P.globals.items()):
        if not q.endswith("::EXCEPTION_NAME"):
            continue
        n = literal(g.get("init"))
        if n is None:
            continue
        c.count("family names")
        if n in names:
            c.fail("name %s" % q.split("::")[-2], "%s:%d" % (g["rel"], g["l"]), "%s reports the name '%s' of %s" % (q.split("::")[-2], n, names[n]))
        else:
            c.ok("name of %s is %s" % (q.split("::")[-2], n))
        names.setdefault(n, q.split("::")[-2])
    c.floor("family names", len(names), 6)
