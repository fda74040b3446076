"""P18: factory names, script modules, command names and their targets."""
import json
import os
import re

from ..cmds import commands, localfn, strip, target
from ..effects import Ctx, callee_name, ctors, entity_classes, unparsed, walk
from ..model import load_bindings, strip_targs
from .p02 import literal_tail


def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


def conststr(P, e, depth=0):
    """constant value of a string expression, or None"""
    e = strip(e)
    if not isinstance(e, dict) or depth > 40:
        return None
    k = e.get("k")
    if k == "str":
        return e["v"]
    if k == "ctor" and e["args"]:
        return conststr(P, e["args"][0], depth + 1)
    if k == "ocall" and e["op"] == "+":
        a, b = conststr(P, e["args"][0], depth + 1), conststr(P, e["args"][1], depth + 1)
        return None if a is None or b is None else a + b
    if k in ("call",) and e.get("f") and callee_name(e["f"]) in ("operator+", "move", "forward"):
        s = [conststr(P, a, depth + 1) for a in e["args"]]
        return None if None in s else "".join(s)
    if k == "glob":
        g = P.globals.get(e.get("F") or e.get("q") or e.get("n"))
        return conststr(P, g.get("init"), depth + 1) if g else None
    return None


def registrations(P):
    """[(name, class made, file, line)]"""
    out = []
    for n, g in sorted(P.globals.items()):
        i = g.get("init") or {}
        if not (i.get("k") == "ctor" and callee_name(i["f"]) == "EntityRegisterer" and len(i["args"]) >= 2):
            continue
        nm = conststr(P, i["args"][0])
        fns = [x["f"] for x in walk(i["args"][1]) if x.get("k") == "fn"]
        made = set()
        for f in fns:
            fd = P.funcs.get(f.get("u"))
            for x in walk(fd["body"]) if fd else ():
                if x.get("k") == "new":
                    made.add(x.get("t", "").replace(" *", ""))
        out.append((nm, sorted(made), g["file"], g.get("l", 0), n))
    return out


def mplargs(t):
    out, d, cur = [], 0, ""
    for ch in t[t.index("<") + 1:]:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += ch in "<("
        d -= ch in ">)"
        if d < 0:
            break
        cur += ch
    out.append(cur.strip())
    return [x for x in out if x and not "mpl_::na".startswith(x)]


def methods_of_owner(P, ex):
    """names of the operations a doExecute calls on its entity, or signals it sets"""
    out = set()
    for n in walk(ex.get("body")):
        if n.get("k") == "mcall" and n.get("f"):
            out.add(callee_name(n["f"]))
    return out


def names_reached(P, cm, depth=0):
    """normalised names of what a command reaches: the function, what it
    forwards to, the fields"""
    if cm.kind == "call":
        f = P.funcs.get(cm.target)
        s = {norm(f["n"])} if f else set()
        return s, f
    if cm.kind in ("set", "get"):
        return {norm(cm.target or "")}, None
    if cm.kind == "class":
        f = P.funcs[cm.target]
        return {norm(x) for x in methods_of_owner(P, f)}, f
    return set(), None


def fields(P, f, write, seen=None):
    """own fields an operation may read (write=False) or write, callees included"""
    seen = set() if seen is None else seen
    if f is None or f["u"] in seen or not f.get("body"):
        return set()
    seen.add(f["u"])
    out = set()
    W, R = set(), set()

    def lv(e):
        e0 = e
        while isinstance(e, dict) and e.get("k") in ("cast", "icast", "idx", "mem", "mcall", "ocall"):
            if e["k"] == "mem":
                if e.get("o", {}).get("k") == "this" or e.get("b", {}).get("k") == "this":
                    return e.get("n") or e.get("f")
                e = e.get("o") or e.get("b") or e.get("e")
            elif e["k"] == "idx":
                e = e.get("b") or e.get("e") or e.get("o")
            elif e["k"] == "mcall":
                e = e["o"]
            elif e["k"] == "ocall":
                e = e["args"][0]
            else:
                e = e["e"]
        return None
    for n in walk(f["body"]):
        k = n.get("k")
        if k == "mem":
            nm = lv(n)
            if nm:
                R.add(nm)
        if k == "bin" and n["op"] in ("=", "+=", "-=", "*=", "/="):
            nm = lv(n["l_"] if "l_" in n else n.get("a"))
            if nm:
                W.add(nm)
        elif k == "ocall" and n["op"] in ("=", "+=", "-=", "*=", "/="):
            nm = lv(n["args"][0])
            if nm:
                W.add(nm)
        elif k == "mcall" and n.get("o"):
            nm = lv(n["o"])
            if nm and "const" not in (n.get("ot", "").split() or [""])[0]:
                W.add(nm)
        if k in ("mcall", "call") and n.get("f") and n["f"].get("r"):
            o = n.get("o")
            if k == "call" or (o or {}).get("k") == "this":
                out |= fields(P, P.funcs.get(n["f"].get("u")), write, seen)
    return out | (W if write else R)


def toks(s):
    return {x.lower() for x in re.findall(r"[A-Z]+(?![a-z])|[A-Z]?[a-z]+|[0-9]+", s)}


def sim(a, b):
    a, b = toks(a), toks(b)
    return len(a & b) / float(len(a | b) or 1)


def targetname(P, cm):
    if cm.kind == "call":
        f = P.funcs.get(cm.target)
        return f["n"] if f else None
    return cm.target


def touched(P, cm):
    f = P.funcs.get(cm.target)
    if cm.kind == "class":
        fs = [P.funcs.get(n["f"].get("u")) for n in walk(f["body"]) if n.get("k") == "mcall" and n.get("f") and n["f"].get("r")]
    else:
        fs = [f]
    out = set()
    for g in fs:
        out |= fields(P, g, True) | fields(P, g, False)
    return out


VALTYPES = {"bool": "bool", "int": "int", "dbl": "double", "double": "double"}


def value_indices(fn):
    """for each node using command parameters: how values[i] flows. Returns
    {local id: [indices]} and a resolver"""
    defs = {}
    for n in walk(fn.get("body")):
        if n.get("k") == "decl":
            for v in n["v"]:
                if "init" in v:
                    defs.setdefault(v["d"], []).append(v["init"])

    def isvals(e, depth=0):
        e = strip(e)
        if not isinstance(e, dict) or depth > 8:
            return False
        if e.get("k") == "mcall" and callee_name(e["f"]) == "getParameterValues":
            return True
        if e.get("k") == "ref":
            d = defs.get(e["d"], ())
            return len(d) == 1 and isvals(d[0], depth + 1)
        if e.get("k") == "ctor" and len(e["args"]) == 1:
            return isvals(e["args"][0], depth + 1)
        return False

    def idx(e):
        """constant index if e is values[i]"""
        e = strip(e)
        if isinstance(e, dict) and ((e.get("k") == "ocall" and e["op"] == "[]") or (e.get("k") == "mcall" and callee_name(e["f"]) == "at")):
            b = e["args"][0] if e["k"] == "ocall" else e["o"]
            i = e["args"][1] if e["k"] == "ocall" else e["args"][0]
            i = strip(i)
            if isvals(b) and isinstance(i, dict) and i.get("k") == "int":
                return int(i["v"])
        return None

    def flat(e, depth=0):
        """indices an expression depends on, in evaluation order"""
        out = []
        if depth > 12 or e is None:
            return out
        if isinstance(e, list):
            for x in e:
                out += flat(x, depth)
            return out
        if not isinstance(e, dict):
            return out
        i = idx(e)
        if i is not None:
            return [i]
        if e.get("k") == "ref":
            d = defs.get(e["d"], ())
            return flat(d[0], depth + 1) if len(d) == 1 and not isvals(d[0]) else []
        for key in ("o", "b", "e", "l_", "r_", "c", "args", "a"):
            if isinstance(e.get(key), (dict, list)):
                out += flat(e[key], depth)
        return out
    return idx, flat


def binds(fn, ctx, e, depth=0):
    """placeholder order lists of every boost/std::bind below e (locals inlined)"""
    out = []
    for n in walk(e):
        if n.get("k") == "ref" and depth < 4:
            for d in ctx.local_defs(fn).get(n["d"], ()):
                out += binds(fn, ctx, d, depth + 1)
        if n.get("k") == "call" and n.get("f") and callee_name(n["f"]) == "bind":
            order = []
            for a in n["args"]:
                for x in walk(a):
                    if x.get("k") in ("glob", "ref"):
                        m = re.search(r"(?:^|:)_(\d)$", x.get("F") or x.get("q") or x.get("n") or "")
                        if m:
                            order.append(int(m.group(1)))
            out.append(order)
    return out


def run(c):
    P = c.P
    c.rule("each registered name is unique, equals the name the class reports and is made by a maker of that very class; "
           "each script module lists exactly the classes its plug-in registers; command names are unique along every constructor chain; "
           "a command named like an operation of the entity reaches it and never the one another command is named after; set/get commands "
           "of one quantity share a member; arguments reach the operation in their declared order")
    # ---------------------------------------------------------- factory
    regs = registrations(P)
    byname = {}
    for nm, made, file, l, g in regs:
        c.count("factory registrations")
        where = "%s:%s" % (os.path.relpath(file, "/") if not file.startswith("/repo") else file[6:], l)
        if nm is None or len(made) != 1:
            c.notes.append("not decided: registration " + g)
            continue
        c.need(nm not in byname, "factory name %s registered twice" % nm, where,
               "classes %s and %s are both registered as '%s'" % (byname.get(nm), made[0], nm))
        byname[nm] = made[0]
        F = made[0]
        # the name the objects report: getClassName of the class returns X::CLASS_NAME
        rep = None
        for b in [F] + [x for x in P.bases(F) if x != F]:
            gs = [f for f in P.funcs.values() if f.get("cls") == b and f["n"] == "getClassName" and f.get("body") and not f["params"]]
            if gs:
                rets = [x.get("e") for x in walk(gs[0]["body"]) if x.get("k") == "ret"]
                if len(rets) == 1:
                    rep = conststr(P, rets[0])
                break
        if rep is None:
            g2 = P.globals.get(F + "::CLASS_NAME")
            rep = conststr(P, g2.get("init")) if g2 else None
        if rep is None:
            c.notes.append("not decided: name reported by " + F)
            continue
        c.need(rep == nm, "class registered as %s reports another name" % nm, where,
               "objects made under the factory name '%s' are of class %s, which reports the name '%s'" % (nm, F, rep))
        c.sample({"factory name": nm, "class": F})
    c.floor("factory registrations", c.counts.get("factory registrations", 0), 120)
    makers = {f["u"] for g in P.globals.values() for f in [x["f"] for x in walk(g.get("init")) if x.get("k") == "fn"] if "Registerer" in json.dumps((g.get("init") or {}).get("f", {}))}
    for u, f1, l1, f2, l2 in P.dups:
        if u in makers:
            c.fail("maker %s is defined twice" % u.split("@F@")[-1], "%s:%d" % (f2, l2), "the maker symbol %s is defined at %s:%d and at %s:%d: when both plug-ins are loaded one class is made under the other's name" % (u, f1, l1, f2, l2))
    # ---------------------------------------------------------- consistent families of names
    fam = {}
    for nm, F in byname.items():
        m = re.match(r"(.+?)_of_(.+)$", nm)
        if m:
            fam.setdefault(m.group(1), []).append((nm, F, m.group(2)))
    TY = {"vector": "Eigen::Matrix<double, -1, 1, 0, -1, 1>", "matrix": "Eigen::Matrix<double, -1, -1, 0, -1, -1>", "double": "double",
          "matrixhomo": "Eigen::Transform<double, 3, 2, 0>", "matrixrotation": "Eigen::Matrix<double, 3, 3, 0, 3, 3>",
          "matrixtwist": "Eigen::Matrix<double, 6, 6, 0, 6, 6>", "quaternion": "Eigen::Quaternion<double, 0>", "vectorquaternion": "Eigen::Quaternion<double, 0>"}
    for k, l in sorted(fam.items()):
        for nm, F, suf in l:
            t = TY.get(suf.lower())
            if not t:
                continue
            others = [x for s, x in TY.items() if x != t and x != "double"]
            inner = F[F.index("<") + 1:] if "<" in F else ""
            inner = inner[inner.index("<") + 1:] if "<" in inner and not inner.startswith("Eigen") else inner
            if any(inner.startswith(o) for o in TY.values()):
                c.need(inner.startswith(t), "%s is built for another type" % nm, "factory", "'%s' makes %s, whose values are not of type %s" % (nm, F, suf))
                c.count("typed names")
    # ---------------------------------------------------------- script modules
    mods, errs = load_bindings()
    rel = {}
    for nm, made, file, l, g in regs:
        if len(made) == 1:
            rel.setdefault(re.sub(r"(\.t)?\.cpp$", "", file), set()).add(made[0])
    nmod = 0
    from .. import model
    for m in sorted(mods):
        if m in errs:
            c.notes.append("not decided: script module %s does not parse" % m)
            continue
        fs = mods[m]["functions"]
        if m.endswith("-python.h"):
            stem = m[:-len("-python.h")]
            e = [f for f in fs if f["n"] == "sa_module_entities"]
            if not e:
                continue
            exposed = mplargs(e[0]["params"][0]["t"].rstrip(" *"))
        else:
            stem = re.sub(r"-python-module-py\.cc$", "", m)
            exposed = []
            for f in fs:
                for n in walk(f.get("body")):
                    if n.get("k") == "call" and n.get("f") and callee_name(n["f"]) == "exposeEntity" and n["f"].get("ta"):
                        t = n["f"]["ta"][0]
                        if "type-parameter" not in t and t not in exposed:
                            exposed.append(t)
        nmod += 1
        c.count("script modules")
        want = rel.get(os.path.join(model.REPO, stem), set())
        if m.endswith("python-module.cc"):
            continue
        c.need(len(exposed) == len(set(exposed)), "script module %s lists a class twice" % m, m, "%s" % exposed)
        for t in sorted(want - set(exposed)):
            c.fail("script module %s does not offer %s" % (m, t), m, "the plug-in %s registers %s but its script module does not expose it" % (stem, t))
        for t in sorted(set(exposed) - want):
            c.fail("script module %s offers %s" % (m, t), m, "script module %s exposes %s, which the plug-in %s does not register (it registers %s)" % (m, t, stem, sorted(want)))
        c.ok("%s: %d classes" % (m, len(want)))
        members(c, m, fs)
    c.floor("script modules", nmod, 55)
    for stem, cl in sorted(rel.items()):
        r = os.path.relpath(stem, model.REPO)
        c.need(any(m.startswith(r + "-python") for m in mods), "plug-in %s has no script module" % r, r, "classes %s are registered but no script module exposes them" % sorted(cl))
    # ---------------------------------------------------------- commands
    ncmd = 0
    done, bound = set(), set()
    for F in entity_classes(P):
        if unparsed(P, F):
            c.notes.append("not decided: " + F)
            continue
        for ct in ctors(P, F):
            cs = commands(P, F, ct) 
            check_commands(c, P, F, cs, "%s(%d)" % (strip_targs(F).split("::")[-1], len(ct["params"])), done)
            ncmd += len(cs)
            bound |= {x.target for x in cs if x.kind == "class"}
    c.floor("commands along constructor chains", ncmd, 190)
    # operators register their commands in addSpecificCommands
    nop = 0
    for f in sorted(P.funcs.values(), key=lambda f: f["u"]):
        if f["n"] == "addSpecificCommands" and f.get("body") and f.get("cls"):
            cs = specific(P, f)
            nop += len(cs)
            check_commands(c, P, f["cls"], cs, strip_targs(f["cls"]).split("::")[-1], done)
    c.floor("operator commands", nop, 12)
    # ---------------------------------------------------------- Command subclasses
    nex = 0
    for u in sorted(bound):
        nex += 1
        order(c, P, P.funcs[u])
    c.floor("command classes", nex, 10)


def specific(P, f):
    from ..cmds import Cmd
    ctx = Ctx(P, f["cls"])
    out = []
    for n in walk(f["body"]):
        if n.get("k") in ("call",) and n.get("f") and callee_name(n["f"]) == "make_pair" and len(n["args"]) == 2:
            nm = literal_tail(n["args"][0], f, ctx)
            e = n["args"][1]
            t = target(P, e, f, ctx) or localfn(P, e, f, ctx)
            cm = Cmd("".join(nm) if None not in nm else None, *(t or (None, None, None)), fn=f, line=n.get("l", f["l"]))
            cm.expr = e
            out.append(cm)
    return out


def check_commands(c, P, F, cs, tag, done):
    seen = {}
    named = {}
    for cm in cs:
        if cm.name is None:
            c.notes.append("not decided: command without a constant name at " + cm.where())
            continue
        c.need(cm.name not in seen, "%s: command %s added twice" % (tag, cm.name), cm.where(),
               "a %s adds the command '%s' at %s and at %s" % (tag, cm.name, seen[cm.name].where() if cm.name in seen else "", cm.where()))
        seen.setdefault(cm.name, cm)
        named[norm(cm.name)] = cm
    reached = {}
    for nm, cm in seen.items():
        if cm.kind is None:
            c.notes.append("not decided: target of command %s at %s" % (nm, cm.where()))
            continue
        reached[nm] = names_reached(P, cm)
    ops = {}
    for b in [F] + list(P.bases(F)):
        for f in P.funcs.values():
            if f.get("cls") == b and not f.get("ctor") and not f.get("dtor"):
                ops.setdefault(norm(f["n"]), f)
    for nm, (rs, f) in sorted(reached.items()):
        cm = seen[nm]
        key = (cm.where(), nm)
        if key in done:
            continue
        done.add(key)
        c.count("commands")
        n = norm(nm)
        for o in sorted(rs):
            if o != n and n not in rs and cm.kind in ("call", "class") and not n.startswith(o) and o in named and named[o] is not cm and named[o].fn is cm.fn:
                c.fail("%s: command %s reaches %s" % (tag, nm, o), cm.where(), "command '%s' of %s runs what the command '%s' is named after" % (nm, F, named[o].name))
                break
        else:
            c.ok()
        if n in ops and cm.kind in ("call", "class") and not forwards(P, f, ops[n]["n"]):
            c.need(any(n in r for r in rs), "%s: command %s does not reach %s" % (tag, nm, ops[n]["n"]), cm.where(), "%s has an operation %s but its command '%s' runs %s" % (F, ops[n]["n"], nm, sorted(rs)))
        # two commands on the same target
        for m2 in reached:
            if m2 < nm and seen[m2].kind == cm.kind == "call" and seen[m2].target == cm.target and tname(P, seen[m2]) == tname(P, cm):
                c.fail("%s: commands %s and %s are the same" % (tag, m2, nm), cm.where(), "commands '%s' and '%s' of %s both run %s" % (m2, nm, F, P.funcs[cm.target]["q"] if cm.target in P.funcs else cm.target))
        # type named by the command
        m = re.search(r"(Bool|Int|Dbl|Double)$", nm)
        if m and cm.kind == "call" and f is not None:
            ts = [x["t"] for x in f["params"]] + [f.get("rt", f.get("ret", ""))]
            words = {w for t in ts for w in re.findall(r"\b(bool|int|double)\b", t)} | set(re.findall(r"<(bool|int|double)>", f["q"]))
            if words:
                c.need(VALTYPES[m.group(1).lower()] in words, "%s: command %s handles another type" % (tag, nm), cm.where(), "command '%s' runs %s" % (nm, f["q"]))
        for o in binds(cm.fn, Ctx(P, F), getattr(cm, "expr", None)):
            c.need(o == list(range(1, len(o) + 1)), "%s: command %s permutes its arguments" % (tag, nm), cm.where(), "arguments of command '%s' are passed in the order %s" % (nm, o))
    # getter and setter of one quantity
    for nm in sorted(reached):
        m = re.match(r"set(.+)$", nm)
        if not m:
            continue
        for g in ("get" + m.group(1), "is" + m.group(1)):
            if g not in reached:
                continue
            a, b = seen[nm], seen[g]
            if (a.where(), b.where()) in done:
                continue
            done.add((a.where(), b.where()))
            w = {a.target} if a.kind == "set" else touched(P, a)
            r = {b.target} if b.kind == "get" else touched(P, b)
            c.count("set/get pairs")
            if not w or not r:
                c.notes.append("not decided: %s and %s of %s share a member" % (nm, g, F))
                continue
            c.need(bool(w & r), "%s: %s and %s concern different members" % (tag, nm, g), a.where(), "'%s' of %s touches %s but '%s' reads %s" % (nm, F, sorted(w), g, sorted(r)))
    for nm in sorted(reached):
        m = re.match(r"(enable|disable|is|get)(.+?)(Enabled)?$", nm)
        if m and m.group(1) == "is" and m.group(3) and "enable" + m.group(2) in reached:
            a, b = seen["enable" + m.group(2)], seen[nm]
            if a.kind == "set" and b.kind == "get":
                c.need(a.target == b.target, "%s: %s and %s concern different members" % (tag, a.name, b.name), a.where(), "'%s' writes %s, '%s' reads %s" % (a.name, a.target, b.name, b.target))
    # exchanging the targets of two commands must not fit their names better
    l = sorted(x for x in reached if seen[x].kind in ("call", "set", "get"))
    for i, a in enumerate(l):
        for b in l[i + 1:]:
            A, B = seen[a], seen[b]
            if A.fn is not B.fn or A.kind != B.kind or A.target == B.target or (A.where(), a, b) in done:
                continue
            done.add((A.where(), a, b))
            ta, tb = targetname(P, A), targetname(P, B)
            if not ta or not tb:
                continue
            c.count("pairs of commands")
            c.need(sim(a, tb) + sim(b, ta) <= sim(a, ta) + sim(b, tb) + 1e-9, "%s: %s and %s are exchanged" % (tag, a, b), A.where(),
                   "command '%s' of %s runs %s and '%s' runs %s" % (a, F, ta, b, tb))
    # direct accessors: the member another accessor is named after
    for nm, cm in sorted(seen.items()):
        if cm.kind in ("set", "get") and cm.target:
            q = norm(re.sub(r"^(set|get|is|enable)", "", nm))
            for n2, c2 in seen.items():
                if c2 is not cm and c2.kind == cm.kind and c2.fn is cm.fn:
                    c.need(c2.target != cm.target or n2 > nm, "%s: %s and %s access the same member" % (tag, min(nm, n2), max(nm, n2)), cm.where(), "both commands access %s" % cm.target)


def forwards(P, f, name):
    """the operation of that name is a one line forward to f, or f to it"""
    if f is None:
        return False
    return any(n.get("k") in ("mcall", "call") and n.get("f") and callee_name(n["f"]) == name for n in walk(f.get("body")))


def tname(P, cm):
    return cm.target


def order(c, P, f):
    """the parameters of a command reach its operation in order, each once"""
    cls = f["cls"]
    cts = [g for g in P.funcs.values() if g.get("ctor") and g.get("cls") == cls and not g.get("impl") and g.get("body")]
    idx, flat = value_indices(f)
    used = set()
    for n in walk(f["body"]):
        i = idx(n)
        if i is not None:
            used.add(i)
    n = None
    for g in cts:
        k = 0
        for i in g.get("inits", ()):
            if i.get("base") is not None or "base" in i:
                lists = [x for x in walk(i["e"]) if x.get("k") == "call" and x.get("f") and callee_name(x["f"]) == "list_of"]
                chained = [x for x in walk(i["e"]) if x.get("k") == "ocall" and x["op"] == "()" and "list" in json.dumps(x.get("f", {}))]
                k = len(lists) + len(chained)
                n = k
    key = f["qs"].replace("dynamicgraph::sot::", "")
    c.count("command classes")
    if n is not None:
        bad = sorted(u for u in used if u >= n)
        c.need(not bad, "%s reads a parameter it does not declare" % key, "%s:%d" % (f["rel"], f["l"]), "%s reads parameter %s of %d" % (f["q"], bad, n))
        if used or n:
            c.need(used == set(range(n)), "%s ignores a parameter" % key, "%s:%d" % (f["rel"], f["l"]), "%s declares %d parameters and uses %s" % (f["q"], n, sorted(used)))
    # outermost calls that receive the values
    for st in walk(f["body"]):
        if st.get("k") != "mcall" or not st.get("f") or callee_name(st["f"]) in ("getParameterValues", "value"):
            continue
        o = []
        for a in st["args"]:
            for i in flat(a):
                if i not in o:
                    o.append(i)
        if len(o) > 1:
            c.need(o == sorted(o), "%s permutes its parameters" % key, "%s:%d" % (f["rel"], st["l"]), "%s passes its parameters in the order %s to %s" % (f["q"], o, st["f"]["q"]))


def members(c, m, fs):
    """names under which members are shown in a script class"""
    rows = {}
    for f in fs:
        for n in walk(f.get("body")):
            if n.get("k") != "mcall" or not n.get("f") or callee_name(n["f"]) not in ("def", "def_readonly", "add_property", "def_readwrite"):
                continue
            if not n["args"]:
                continue
            s = [x["v"] for x in walk(n["args"][0]) if x.get("k") == "str"]
            if len(s) != 1:
                continue
            tg = [[x.get("n") or x["f"]["q"].split("::")[-1] if x.get("k") == "mem" else callee_name(x["f"]) for x in walk(a) if x.get("k") in ("fn", "mem") and (x.get("n") or x.get("f"))] for a in n["args"][1:]]
            rows.setdefault(f["u"], []).append((s[0], [t[0] for t in tg if t], n["l"]))
    for u, l in rows.items():
        names = {norm(r[0]) for r in l}
        for nm, tg, ln in l:
            c.count("script members")
            if len(tg) > 1:
                continue
            base = {norm(re.sub(r"SOUT$|SIN$", "", t)) or norm(t) for t in tg} | {norm(t) for t in tg}
            bad = [b for b in base if b in names and b != norm(nm) and norm(nm) not in base]
            c.need(not bad, "%s: %s shows %s" % (m, nm, bad), "%s:%d" % (m, ln), "script attribute '%s' of %s gives access to %s" % (nm, m, tg))
