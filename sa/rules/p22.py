"""Ownership of resources: acquired, released exactly once, never used after."""
from .. import owner
from ..effects import walk


def run(c):
    c.rule("ownership: on every path of every operation a resource that was acquired is stored in an owner or released by the matching operation; "
           "nothing is used, or left in an owner, after its release; destructors release what the object owns")
    P = c.P
    seen = set()

    def rep(kind, f, l, text):
        name = f["q"].split("dynamicgraph::sot::")[-1]
        import re
        base = re.sub(r"<.*?>(?=::)", "", re.sub(r"<[^<>]*(<[^<>]*(<[^<>]*>)*[^<>]*>)*[^<>]*>", "", name))
        key = (base, kind, text)
        if key in seen:
            return
        seen.add(key)
        c.fail("%s: %s" % (base, kind), "%s:%d" % (f["rel"], l), "%s: %s" % (name, text))
    seencount = {}

    def count(what, key=None):
        if key is None:
            c.count(what)
        elif (what, key) not in seencount:
            seencount[(what, key)] = 1
            c.count(what)
    O = owner.Owner(P, rep, count)
    O.nullable = owner.nullables(P, O)
    classes = {}
    for q in O.owning:
        cls = q.rsplit("::", 1)[0]
        if cls in P.records and O.isfield(q):
            classes.setdefault(cls, ([], []))[0].append(q)
    for q in O.containers:
        cls = q.rsplit("::", 1)[0]
        if cls in P.records:
            classes.setdefault(cls, ([], []))[1].append(q)
    helpers = set()
    for f in O.fs:
        for n in walk(f["body"]):
            if n.get("k") in ("mcall", "call") and n.get("f"):
                g = P.funcs.get(n["f"].get("u"))
                if g is not None and g.get("cls") and g["cls"] == f.get("cls") and g["u"] != f["u"] and g.get("acc", 0) != 0:
                    helpers.add(g["u"])
    n = 0
    for f in sorted(O.fs, key=lambda f: f["u"]):
        if f["u"] in helpers or f.get("dtor") and f.get("cls") in classes:
            continue
        rel = f.get("cls") in classes or any(x.get("k") in ("new", "delete") or x.get("k") in ("mem", "glob") and x.get("q") in O.owning or
                                             x.get("k") == "call" and x.get("f") and owner.callee_name(x["f"]) in (set(owner.ACQUIRES) | set(owner.RELEASES))
                                             for i in [f["body"]] + [x.get("e") for x in f.get("inits", ()) or ()] for x in walk(i))
        if not rel:
            continue
        n += 1
        c.count("operations")
        before = len(seen)
        try:
            O.run(f)
        except (OverflowError, RecursionError):
            c.count("operations not decided")
            c.notes.append("%s: too many paths, not decided" % f["q"])
            continue
        if len(seen) == before:
            c.ok()
    for cls, (fields, conts) in sorted(classes.items()):
        c.count("classes owning resources")
        f = [g for g in O.fs if g.get("dtor") and g.get("cls") == cls]
        before = len(seen)
        O.destructor(cls, f[0] if f else None, fields, conts)
        if len(seen) == before:
            c.ok("%s: %s released on destruction" % (cls, ", ".join(x.split("::")[-1] for x in fields + conts)))
    c.sample("owning: " + ", ".join(sorted(O.owning)))
    c.sample("owning containers: " + ", ".join(sorted(O.containers)))
    c.floor("operations", c.counts.get("operations", 0), 200)
    c.floor("resources acquired", c.counts.get("resources acquired", 0), 120)
    c.floor("releases", c.counts.get("releases", 0), 6)
    c.floor("classes owning resources", len(classes), 5)
    return n
