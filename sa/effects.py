"""Signal-effect analysis: which signals a computation may read, which
dependencies an entity declares, which signals it registers.

Abstract objects are access paths rooted at the analysed object (`this`),
function parameters are bound to the caller's paths (context-sensitive
inlining over the resolved call graph); locals are tracked flow-insensitively.
"""
import re
from .model import Program, strip_targs

SIGBASE = ("dynamicgraph::SignalTimeDependent<", "dynamicgraph::SignalPtr<", "dynamicgraph::Signal<", "dynamicgraph::SignalBase<")
MAXDEPTH = 14


def sigkind(t):
    """'out','in','plain','base' or None for a (possibly pointer/ref) type string"""
    t = t.replace("const ", "").rstrip(" &*").strip()
    if t.startswith("dynamicgraph::SignalTimeDependent<"):
        return "out"
    if t.startswith("dynamicgraph::SignalPtr<"):
        return "in"
    if t.startswith("dynamicgraph::Signal<"):
        return "plain"
    if t.startswith("dynamicgraph::SignalBase<"):
        return "base"
    return None


READ_METHODS = {"access", "accessCopy", "operator()", "recompute"}


def callee_name(f):
    return strip_targs(f["q"]).split("::")[-1]


def walk(n):
    """all nodes of a mini-AST"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))


class Ctx:
    """per (class) analysis context"""

    def __init__(self, prog, cls):
        self.p = prog
        self.cls = cls
        self._locals = {}

    # ------------------------------------------------------------ locals
    def local_defs(self, fn):
        """var id -> list of defining expressions (flow-insensitive)"""
        key = id(fn)
        r = self._locals.get(key)
        if r is None:
            r = {}
            for n in walk(fn.get("body")):
                if n.get("k") == "decl":
                    for v in n["v"]:
                        if "init" in v:
                            r.setdefault(v["d"], []).append(v["init"])
                elif n.get("k") == "rfor":
                    r.setdefault(n["v"]["d"], []).append({"k": "elem", "e": n["r"]})
                elif n.get("k") in ("if", "while") and n.get("cv") and "init" in n["cv"]:
                    r.setdefault(n["cv"]["d"], []).append(n["cv"]["init"])
                elif n.get("k") == "bin" and n.get("op") == "=" and n["a"] and n["a"].get("k") == "ref":
                    r.setdefault(n["a"]["d"], []).append(n["b"])
                elif n.get("k") == "ocall" and n.get("op") == "=" and n["args"] and n["args"][0].get("k") == "ref":
                    r.setdefault(n["args"][0]["d"], []).append(n["args"][1])
            self._locals[key] = r
        return r

    # ------------------------------------------------------------- paths
    def paths(self, e, fn, env, depth=0, seen=()):
        """set of access paths an lvalue / pointer expression may denote"""
        if e is None or depth > MAXDEPTH:
            return set()
        k = e.get("k")
        P = lambda x: self.paths(x, fn, env, depth, seen)
        if k == "this":
            return set(env.get("this", {("this",)}))
        if k == "mem":
            return {p + (e["n"],) for p in P(e["b"])}
        if k == "ref":
            d = e["d"]
            if d in env:
                return set(env[d])
            if d in seen:
                return set()
            out = set()
            for x in self.local_defs(fn).get(d, ()):
                out |= self.paths(x, fn, env, depth, seen + (d,))
            if not out:
                out = {("local:" + e.get("t", "")[:80],)}
            return out
        if k == "glob":
            return {("glob", e.get("q", e["n"]))}
        if k == "elem":
            return {p + ("[]",) for p in P(e["e"])}
        if k == "idx":
            return {p + ("[]",) for p in P(e["b"])}
        if k in ("cast", "icast"):
            return P(e["e"])
        if k == "un" and e["op"] in ("*", "&", "++", "--"):
            return P(e["e"])
        if k == "cond":
            return P(e["ct"]) | P(e["cf"])
        if k == "bin" and e["op"] in ("=", "+", "-"):
            return P(e["a"]) | (P(e["b"]) if e["op"] == "=" else set())
        if k == "bin" and e["op"] == ",":
            return P(e["b"])
        if k == "ctor":
            if len(e["args"]) == 1:
                return P(e["args"][0])
            return {("new:" + e["t"][:60],)}
        if k == "new":
            return {("new:" + e["t"][:60],)}
        if k == "ocall":
            op = e["op"]
            if op in ("*", "->", "++", "--") and e["args"]:
                return P(e["args"][0])
            if op == "[]":
                return {p + ("[]",) for p in P(e["args"][0])}
            if op == "=" and e["args"]:
                return P(e["args"][1])
            if op in ("+", "-") and e["args"]:
                return P(e["args"][0])
        if k in ("call", "mcall", "ocall") and e.get("f"):
            f = e["f"]
            if f.get("r"):
                tgt, tenv = self.bind(e, fn, env, depth)
                if tgt is not None:
                    out = set()
                    for n in walk(tgt.get("body")):
                        if n.get("k") == "ret" and n.get("e"):
                            out |= self.paths(n["e"], tgt, tenv, depth + 1)
                    return out
            name = callee_name(f)
            if k == "mcall":
                base = P(e["o"])
                if name in ("begin", "end", "rbegin", "rend", "front", "back", "at", "find", "top"):
                    return {p + ("[]",) for p in base}
                if name in ("get", "lock", "getPtr", "operator->", "operator*"):
                    return base
                return {p + (name + "()",) for p in base}
            if name in ("move", "forward", "dynamic_pointer_cast", "static_pointer_cast", "ref", "cref") and e["args"]:
                return P(e["args"][0])
            return {("call:" + name,)}
        return set()

    # ------------------------------------------------------------ binding
    def bind(self, e, fn, env, depth):
        """target function and environment of a call to an analysed function"""
        f = e["f"]
        usr = f.get("u")
        k = e["k"]
        tenv = {}
        args = e["args"]
        obj = None
        if k == "mcall":
            obj = e.get("o")
        elif k == "ocall" and e.get("m"):
            obj = args[0]
            args = args[1:]
        if obj is not None:
            op = self.paths(obj, fn, env, depth)
            tenv["this"] = op
            if f.get("v") and not e.get("nv") and op == {("this",)}:
                usr = self.p.resolve_virtual(usr, self.cls)
        tgt = self.p.funcs.get(usr)
        if tgt is None or not tgt.get("body"):
            return None, None
        for prm, a in zip(tgt["params"], args):
            ps = self.paths(a, fn, env, depth + 1)
            tenv[prm["d"]] = ps
        return tgt, tenv

    # -------------------------------------------------------------- visit
    def visit(self, fn, env, cb, depth=0, stack=()):
        """call cb(node, fn, env) on every node of fn and of the analysed
        functions it calls"""
        key = (fn["u"], tuple(sorted((str(k), tuple(sorted(v))) for k, v in env.items())))
        if key in stack or depth > MAXDEPTH:
            return
        stack = stack + (key,)
        roots = [fn.get("body")]
        for i in fn.get("inits", ()):
            roots.append(i["e"])
        for r in roots:
            self._visit(r, fn, env, cb, depth, stack)

    def _visit(self, root, fn, env, cb, depth, stack):
        for n in self._walk_live(root):
            if cb(n, fn, env) is False:
                continue
            k = n.get("k")
            if k in ("call", "mcall", "ocall") and n.get("f") and n["f"].get("r"):
                tgt, tenv = self.bind(n, fn, env, 0)
                if tgt is not None:
                    self.visit(tgt, tenv, cb, depth + 1, stack)
            elif k == "ctor" and n["f"].get("r"):
                tgt = self.p.funcs.get(n["f"].get("u"))
                if tgt is not None and not tgt.get("impl"):
                    tenv = {"this": {("obj:" + n["t"],)}}
                    for prm, a in zip(tgt["params"], n["args"]):
                        tenv[prm["d"]] = self.paths(a, fn, env, 1)
                    self.visit(tgt, tenv, cb, depth + 1, stack)

    def _walk_live(self, n):
        """pre-order walk, in evaluation order where it matters, skipping code
        made dead by constant conditions (disabled trace macros)"""
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                yield from self._walk_live(x)
            return
        if not isinstance(n, dict):
            return
        if n.get("k") == "if":
            v = const_cond(n["c"])
            if v is not None:
                if n.get("i"):
                    yield from self._walk_live(n["i"])
                yield from self._walk_live(n.get("t") if v else n.get("e"))
                return
        if "k" in n:
            yield n
        for key, v in n.items():
            if key in ("f",) and not isinstance(v, list) and isinstance(v, dict) and "q" in v:
                continue
            if isinstance(v, (dict, list)):
                yield from self._walk_live(v)


def const_cond(c):
    if c is None:
        return None
    if c.get("k") == "bool":
        return bool(c["v"])
    if c.get("k") == "int":
        return int(c["v"]) != 0
    if c.get("k") in ("icast", "cast"):
        return const_cond(c["e"])
    if c.get("k") == "un" and c["op"] == "!":
        v = const_cond(c["e"])
        return None if v is None else not v
    if c.get("k") == "bin" and c["op"] == "||":
        a, b = const_cond(c["a"]), const_cond(c["b"])
        if a or b:
            return True
        if a is False and b is False:
            return False
    if c.get("k") == "bin" and c["op"] == "&&":
        a, b = const_cond(c["a"]), const_cond(c["b"])
        if a is False or b is False:
            return False
        if a and b:
            return True
    return None


# ------------------------------------------------------------------ entities
class Entity:
    def __init__(self, prog, cls):
        self.p, self.cls = prog, cls
        self.ctx = Ctx(prog, cls)
        self.signals = {}     # field -> (kind, declaring class, record field)
        for c, f in prog.fields(cls):
            k = sigkind(f["t"])
            if k and "*" not in f["t"].split(">")[-1] and "vector<" not in f["t"]:
                self.signals.setdefault(f["n"], (k, c, f))
        self.callbacks = {}   # field -> (function, env, node line)
        self.deps = {}        # field -> set of path keys
        self.alwaysready = set()
        self.registered = {}  # field -> list of (file,line)
        self.dynregistered = False
        self.names = {}       # field -> expression of the name
        self.dyn = []         # dynamic dependency ops: (op, signal path, dep path, fn, line)


def build_entity(prog, cls, ctor=None):
    """abstractly run one constructor chain of cls"""
    E = Entity(prog, cls)
    run_ctor(E, cls, ctor, {("this",)})
    return E


def ctors(prog, cls):
    return [f for f in prog.funcs.values() if f.get("ctor") and f.get("cls") == cls and not f.get("impl")]


def run_ctor(E, cls, ctor, this, env=None):
    prog, ctx = E.p, E.ctx
    if ctor is None:
        return
    env = dict(env or {})
    env["this"] = this
    for i in ctor.get("inits", ()):
        e = i["e"]
        if i.get("base") is not None or i.get("deleg"):
            c = e
            while c is not None and c.get("k") != "ctor":
                c = c.get("e") if c.get("k") in ("cast", "icast") else None
            if c is not None and c["f"].get("r"):
                tgt = prog.funcs.get(c["f"].get("u"))
                if tgt:
                    tenv = {}
                    for prm, a in zip(tgt["params"], c["args"]):
                        tenv[prm["d"]] = ctx.paths(a, ctor, env)
                    run_ctor(E, tgt["cls"], tgt, this, tenv)
        elif "f" in i:
            fld = i["f"]
            if fld in E.signals:
                init_signal(E, fld, e, ctor, env, i["l"])
            else:
                scan_ops(E, e, ctor, env)
    scan_ops(E, ctor.get("body"), ctor, env, inctor=True)


def sigpaths(ctx, e, fn, env):
    return ctx.paths(e, fn, env)


def array_paths(ctx, e, fn, env, depth=0):
    """signals collected in a SignalArray expression"""
    if e is None or depth > 40:
        return set()
    k = e.get("k")
    if k == "ocall" and e["op"] == "<<":
        return array_paths(ctx, e["args"][0], fn, env, depth + 1) | array_paths(ctx, e["args"][1], fn, env, depth + 1)
    if k == "ctor" and "SignalArray" in e["t"]:
        out = set()
        for a in e["args"]:
            out |= array_paths(ctx, a, fn, env, depth + 1)
        return out
    if k in ("cast", "icast"):
        return array_paths(ctx, e["e"], fn, env, depth + 1)
    if k == "glob":
        return set()
    if k == "cond":
        return array_paths(ctx, e["ct"], fn, env, depth + 1) | array_paths(ctx, e["cf"], fn, env, depth + 1)
    if k == "ref" and "SignalArray" in e.get("t", ""):
        out = set()
        for x in ctx.local_defs(fn).get(e["d"], ()):
            out |= array_paths(ctx, x, fn, env, depth + 1)
        # arr << sig statements
        for n in walk(fn.get("body")):
            if n.get("k") == "ocall" and n.get("op") == "<<" and n["args"][0].get("k") == "ref" and n["args"][0]["d"] == e["d"]:
                out |= array_paths(ctx, n["args"][1], fn, env, depth + 1)
        if e["d"] in env:
            out |= set(env[e["d"]])
        return out
    if k in ("int", "float"):
        return set()
    return ctx.paths(e, fn, env)


def callback_of(ctx, e, fn, env):
    """(function, env) bound by boost::bind / lambda / std::bind expression"""
    for n in walk(e):
        if n.get("k") == "call" and n.get("f") and callee_name(n["f"]) == "bind":
            f0 = n["args"][0] if n["args"] else None
            while f0 is not None and f0.get("k") in ("un", "cast", "icast"):
                f0 = f0["e"]
            if f0 is not None and f0.get("k") == "fn":
                fr = f0["f"]
                usr = fr.get("u")
                obj = ctx.paths(n["args"][1], fn, env) if len(n["args"]) > 1 else set()
                if not obj:
                    obj = {("this",)}
                if fr.get("v") and obj == {("this",)}:
                    usr = ctx.p.resolve_virtual(usr, ctx.cls)
                tgt = ctx.p.funcs.get(usr)
                tenv = {"this": obj}
                if tgt is not None:
                    for prm, a in zip(tgt["params"], n["args"][2:]):
                        if a.get("k") not in ("glob", "ref") or "arg<" not in a.get("t", ""):
                            ps = ctx.paths(a, fn, env)
                            if ps:
                                tenv[prm["d"]] = ps
                return tgt, tenv, fr
        if n.get("k") == "lambda":
            return {"u": "lambda@%s:%s" % (fn["u"], n.get("l")), "body": n.get("body"), "params": n.get("params", []), "rel": fn["rel"], "q": fn["q"] + "::<lambda>", "l": n.get("l", 0)}, dict(env), None
    return None, None, None


def init_signal(E, fld, e, fn, env, line):
    c = e
    while c is not None and c.get("k") in ("cast", "icast"):
        c = c["e"]
    if c is None or c.get("k") != "ctor":
        return
    args = c["args"]
    tgt, tenv, fr = (None, None, None)
    for a in args:
        at = a.get("t", "")
        if a.get("k") == "ctor" and "boost::function" in a.get("t", "") or (a.get("k") in ("call", "lambda")):
            t2, e2, f2 = callback_of(E.ctx, a, fn, env)
            if t2 is not None:
                tgt, tenv, fr = t2, e2, f2
                continue
            if f2 is not None:
                fr = f2
                continue
        if "SignalArray" in (a.get("t") or "") or (a.get("k") == "ocall" and a["op"] == "<<") or sigkind(a.get("t", "")):
            E.deps.setdefault(fld, set()).update(array_paths(E.ctx, a, fn, env))
    if args:
        E.names.setdefault(fld, []).append((args[-1], fn, env, line))
    if E.signals[fld][0] == "out":
        E.deps.setdefault(fld, set())
    if tgt is not None:
        E.callbacks[fld] = (tgt, tenv, line)


def own_field(path):
    return path[1] if len(path) == 2 and path[0] == "this" else None


def scan_ops(E, root, fn, env, inctor=True):
    """signal operations performed by construction code"""
    ctx = E.ctx

    def cb(n, f, ev):
        k = n.get("k")
        if k == "mcall" and n.get("f"):
            name = callee_name(n["f"])
            if name in ("addDependency", "addDependencies", "removeDependency", "clearDependency", "clearDependencies", "setFunction", "setDependencyType", "setNeedUpdateFromAllChildren", "setConstant", "setReference") and not n["f"].get("r"):
                for sp in ctx.paths(n["o"], f, ev):
                    fld = own_field(sp)
                    if fld is None or fld not in E.signals:
                        if name == "addDependency":
                            E.dyn.append((name, sp, ctx.paths(n["args"][0], f, ev), f, n["l"]))
                        continue
                    if name in ("addDependency", "addDependencies"):
                        E.deps.setdefault(fld, set()).update(array_paths(ctx, n["args"][0], f, ev))
                    elif name == "removeDependency":
                        E.deps.setdefault(fld, set()).difference_update(array_paths(ctx, n["args"][0], f, ev))
                    elif name.startswith("clear"):
                        E.deps[fld] = set()
                    elif name == "setFunction":
                        t, te, fr = callback_of(ctx, n["args"][0], f, ev)
                        if t is not None:
                            E.callbacks[fld] = (t, te, n["l"])
                    elif name == "setDependencyType":
                        a = n["args"][0]
                        if a.get("k") == "enum" and a["n"] in ("ALWAYS_READY",):
                            E.alwaysready.add(fld)
            if name == "signalRegistration" and not n["f"].get("r"):
                for sp in array_paths(ctx, n["args"][0], f, ev):
                    fld = own_field(sp)
                    if fld:
                        E.registered.setdefault(fld, []).append((f["rel"], n["l"]))
                    else:
                        E.dynregistered = True
            if name == "signalDeregistration":
                E.dynregistered = True
        return True
    ctx._visit(root, fn, env, cb, 0, ())


def reads_of(E, fn, env):
    """[(path, line, function)] of signals possibly read by fn"""
    ctx = E.ctx
    out = []

    def cb(n, f, ev):
        k = n.get("k")
        if k == "mcall" and n.get("f"):
            name = callee_name(n["f"])
            cls = strip_targs(n["f"].get("cls", ""))
            if name in READ_METHODS or name.startswith("operator const") or (name.startswith("operator ") and "Signal" in cls):
                if sigkind(n.get("ot", "")) or "dynamicgraph::Signal" in cls:
                    for sp in ctx.paths(n["o"], f, ev):
                        out.append((sp, n["l"], f, name, n))
        elif k == "ocall" and n["op"] == "()" and n.get("f") and "dynamicgraph::Signal" in n["f"].get("cls", ""):
            for sp in ctx.paths(n["args"][0], f, ev):
                out.append((sp, n["l"], f, "operator()", n))
        return True
    ctx.visit(fn, env, cb)
    return out


def entity_classes(prog):
    out = []
    for F, r in sorted(prog.records.items()):
        bs = prog.bases(F)
        if "dynamicgraph::Entity" in bs and not r["rel"].startswith("tests"):
            out.append(F)
    return out


def unparsed(P, F):
    """a function of the class, of its bases or beside them did not parse"""
    bf = {f["rel"] for f in P.funcs.values() if f.get("bad")}
    if not bf:
        return False
    bs = set(P.bases(F))
    return any(f.get("cls") in bs and f["rel"] in bf for f in P.funcs.values())
