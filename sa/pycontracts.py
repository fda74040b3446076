"""Scenario contracts of the Python sources.

spec/py/<name>.py holds scenario functions; the parameters' annotations say
which symbolic values they range over.  A scenario is abstracted twice by
py.Py, once with the modules of the repository and once with the reference
modules of spec/py/ref: outcome, result and effects on the opaque objects must
be the same terms (contracts.compare)."""
import ast
import itertools
import os
from fractions import Fraction

from . import terms as t
from .terms import mk, sym, TYPES, TRUE
from . import py
from .py import Py, Ref, Opq, PIte, Ctl, Unsupported
from .contracts import compare, Assume, SAMPLES
from .model import REPO, VERIF, AnalysisError

PKG = "dynamic_graph.sot.core"
SRC = os.path.join(REPO, "src", "dynamic_graph", "sot", "core")
SPEC = os.path.join(VERIF, "spec", "py")


# ------------------------------------------------------------- annotations
def _scalar(ty):
    def mkv(it, name):
        s = sym("py:" + name)
        TYPES[s] = ty
        return s
    return mkv


def real(it, name):
    return _scalar("double")(it, name)


def integer(it, name):
    return _scalar("int")(it, name)


def boolean(it, name):
    s = sym("py:" + name, True)
    return s


def text(it, name):
    return _scalar("std::string")(it, name)


def vec(n):
    return lambda it, name: tuple(real(it, "%s[%d]" % (name, i)) for i in range(n))


def lst(n):
    return lambda it, name: it.alloc("list", vec(n)(it, name))


def rows(r, c):
    return lambda it, name: tuple(vec(c)(it, "%s[%d]" % (name, i)) for i in range(r))


def _flat(n, it, name):
    return [real(it, "%s[%d]" % (name, i)) for i in range(n)]


def nd(*sh):
    def f(it, name):
        k = 1
        for x in sh:
            k *= x
        return it.arr(sh, _flat(k, it, name))
    return f


def mat(r, c):
    return lambda it, name: it.arr((r, c), _flat(r * c, it, name), True)


def ent(cls=None):
    return lambda it, name: Opq(mk("pyname", "<%s>" % name), cls)


def signal(it, name):
    return Opq(mk("pyname", "<%s>" % name), "SignalBase")


def const(v):
    def f(it, name):
        if isinstance(v, list):
            return it.alloc("list", tuple(v))
        return v
    return f


def tup(*fs):
    return lambda it, name: tuple((f if callable(f) else const(f))(it, "%s.%d" % (name, i)) for i, f in enumerate(fs))


def lists(*fs):
    return lambda it, name: it.alloc("list", tup(*fs)(it, name))


class oneof(list):
    def __init__(self, *a):
        list.__init__(self, a)


ENV = {k: v for k, v in list(globals().items()) if not k.startswith("_")}


def cases(node):
    """[(label, {param: builder})]"""
    out = []
    args = node.args.args
    for a in args:
        if a.annotation is None:
            raise AnalysisError("spec/py: %s: parameter %s without annotation" % (node.name, a.arg))
        v = eval(compile(ast.Expression(a.annotation), "spec", "eval"), dict(ENV))
        if isinstance(v, oneof):
            def flat(l):
                for x in l:
                    if isinstance(x, oneof):
                        yield from flat(x)
                    else:
                        yield x
            subs = [ast.unparse(s) for s in a.annotation.args] if isinstance(a.annotation, ast.Call) else []
            vs = list(flat(v))
            out.append([(a.arg, "%s: %s" % (a.arg, subs[i] if i < len(subs) else i), x if callable(x) else const(x)) for i, x in enumerate(vs)])
        else:
            out.append([(a.arg, None, v if callable(v) else const(v))])
    r = []
    for c in itertools.product(*out):
        lab = ", ".join(l for _, l, _ in c if l)
        r.append((lab, [(n, b) for n, _, b in c]))
    return r


class Result:
    pass


def roots(ref):
    r = []
    if ref:
        r.append((PKG, os.path.join(SPEC, "ref")))
        r.append(("spec", SPEC))
        r.append((PKG, _Only(SRC)))
    else:
        r.append((PKG, SRC))
        r.append(("spec", SPEC))
    ext = os.path.join(SPEC, "ext")
    for f in sorted(os.listdir(ext)):
        if f.endswith(".py"):
            r.append((f[:-3], os.path.join(ext, f[:-3])))
    return r


class _Only(str):
    """the reference takes only the package's own list of names from the source"""
    only = ("", "math_small_entities")


_loaded = {}


def loaded(spec, ref, tlimit):
    """interpreter with the modules loaded, and its state then"""
    k = (spec, ref, SRC, tlimit)
    if k not in _loaded:
        it = Py(roots(ref), tlimit)
        try:
            it.module("spec." + spec)
            _loaded[k] = it, (dict(it.heap), dict(it.mods))
        except Ctl:
            _loaded[k] = it, None
    return _loaded[k]


def abstract(spec, fname, case, ref, tlimit):
    r = Result()
    it, snap = loaded(spec, ref, tlimit)
    r.it = it
    if snap is None:
        ex = it.exits[-1]
        if ref:
            raise AnalysisError("spec/py/%s.py: the reference does not load: %s" % (spec, ex[1]))
        r.flat = {("outcome", ()): t.string("import fails: %s" % (ex[1],))}
        return r
    it.heap, it.mods = dict(snap[0]), dict(snap[1])
    it.pc, it.facts, it.rand = TRUE, {}, 0
    it.frames = []
    fn = it.heap[it.mods["spec." + spec].env].get(fname)
    args = [b(it, n) for n, b in case]
    it.deadline = py.time.time() + tlimit
    it.exits = []
    it.funcs = set()
    st = []
    try:
        v = it.callfn(fn, args, {})
        st.append(("ret", v, it.pc, it.heap, it.facts))
    except Ctl:
        pass
    st = [("raise", e[1], e[2], e[3], e[4]) for e in it.exits if e[0] == "raise"] + st
    if not st:
        raise Unsupported("no exit")
    per = []
    for kind, v, pc, heap, _ in st:
        d = {}
        d[("outcome", ())] = t.string("raises" if kind == "raise" else "returns")
        if kind == "ret":
            for p, x in it.flat(v, heap).items():
                d[("result", p)] = x
            for k, e in heap[it.EFF].items():
                for p, x in it.flat(e if k[0] != "source" else e, heap, soft=True).items():
                    d[(k, p)] = x
        per.append((pc, d))
    keys = []
    for _, d in per:
        keys += [k for k in d if k not in keys]
    out = {}
    for k in keys:
        acc = None
        for pc, d in reversed(per):
            x = d.get(k, py.NOTHERE)
            if acc is None:
                acc = x
            else:
                if acc.b != x.b:
                    acc, x = (mk("pyboolv", z) if z.b else z for z in (acc, x))
                acc = t.ite(pc, x, acc)
        out[k] = acc
    r.flat = out
    r.it = it
    r.raises = [(e[1], e[2]) for e in st if e[0] == "raise"]
    return r


def keyname(k):
    k, p = k
    path = "".join("[%s]" % (x,) for x in p)
    if isinstance(k, str):
        return k + path
    if k[0] == "source":
        return "source of %s%s" % (objname(k[1]), path)
    if k[0] == "call":
        return "calls %s%s%s" % (objname(k[1]), "." + k[2] if k[2] else "", path)
    if k[0] == "set":
        return "attribute %s.%s%s" % (objname(k[1]), k[2], path)
    return "%s%s" % (k, path)


def objname(x):
    if isinstance(x, t.T):
        if x.op == "pyattr":
            return "%s.%s" % (objname(x.args[0]), objname(x.args[1]))
        if x.op in ("pyname", "str"):
            return str(x.args[0])
        if x.op == "pynew":
            return "%s(%s)" % (x.args[0], ", ".join(objname(y) for y in x.args[1:]))
        if x.op == "cat":
            return "+".join(objname(y) for y in x.args)
        if x.op == "sym":
            return str(x.args[0])[3:] if str(x.args[0]).startswith("py:") else str(x.args[0])
        if x.op == "pyret":
            return "%s.%s()" % (objname(x.args[0]), x.args[1])
    return t.show(x, 3)


def run(c, names, floor=1):
    n = 0
    files = {}
    funcs = set()
    for nm in names:
        path = os.path.join(SPEC, nm + ".py")
        with open(path) as f:
            tree = ast.parse(f.read())
        for node in tree.body:
            if isinstance(node, ast.FunctionDef) and node.name.startswith("scenario_"):
                for lab, case in cases(node):
                    n += 1
                    check(c, nm, node.name, lab, case, files, funcs)
    c.floor("scenarios", n, floor)
    for p in sorted(files):
        if p.startswith(REPO):
            c.analysed[os.path.relpath(p, REPO)] = "%d functions entered" % len([1 for q, _, _ in funcs if q == p])
    fs = sorted({(os.path.relpath(p, REPO), f) for p, f, _ in funcs if isinstance(p, str) and p.startswith(REPO)})
    c.floor("python_functions_analysed", len(fs), 1)
    c.notes.append("python functions analysed: " + ", ".join("%s:%s" % (os.path.basename(p), f) for p, f in fs))
    c.assumptions.append("reference modules in spec/py/ref; entities outside the repository are identified by class and name; symbolic names contain no ':'")


def check(c, nm, fname, lab, case, files, funcs):
    tl = 20 if c.tier == "quick" else 120
    key = "%s%s" % (fname[len("scenario_"):], "(" + lab + ")" if lab else "")
    try:
        A = abstract(nm, fname, case, True, tl)
        B = abstract(nm, fname, case, False, tl)
    except Unsupported as e:
        c.notes.append("%s: not decided (%s)" % (key, e))
        c.count("scenarios_not_decided")
        return
    except SyntaxError as e:
        raise AnalysisError("%s: %s" % (e.filename, e))
    except (RecursionError, ValueError, KeyError, TypeError, AttributeError, IndexError, AssertionError) as e:
        if os.environ.get("SA_DEBUG"):
            raise
        c.notes.append("%s: not decided (internal: %s %s)" % (key, type(e).__name__, e))
        c.count("scenarios_not_decided")
        return
    ra = A.flat[("outcome", ())]
    if ra.op == "str" and ra.args[0] == "raises" and not ("refused" in fname or "access" in fname or "rotate" in fname):
        raise AnalysisError("spec/py/%s.py: the reference of %s raises %s" % (nm, key, [e[0] for e in A.raises][:3]))
    files.update(B.it.files)
    funcs |= B.it.funcs
    c.count("scenarios_compared")
    bad = []
    for k in list(A.flat) + [k for k in B.flat if k not in A.flat]:
        a, b = A.flat.get(k, py.NOTHERE), B.flat.get(k, py.NOTHERE)
        if a.b != b.b:
            a, b = (mk("pyboolv", z) if z.b else z for z in (a, b))
        try:
            r, d = compare(keyname(k), a, b, {}, SAMPLES[c.tier], c.seed)
        except RecursionError:
            r, d = "unknown", "recursion"
        if r == "equal":
            c.ok("%s: %s" % (key, keyname(k)))
            c.count("observables_equal_by_normal_form")
        elif r == "agree":
            c.ok()
            c.count("observables_not_distinguished")
        elif r == "unknown":
            c.notes.append("%s: %s: not decided (%s)" % (key, keyname(k), d))
            c.count("observables_not_decided")
        else:
            bad.append((k, d, a, b))
    if bad:
        k, d, a, b = bad[0]
        dd, wit, _, _ = d
        s = "scenario %s: %s differs from its reference semantics" % (key, keyname(k))
        if dd is not None:
            lits, x, y = dd
            cs = [("" if v else "not ") + t.show(l, 4) for l, v in lits[:8]]
            s += "\n    when   %s\n    expected %s\n    computed %s" % (" and ".join(cs) if cs else "always", t.show(x, 5)[:400], t.show(y, 5)[:400])
        if k == ("outcome", ()) and getattr(B, "raises", None):
            s += "\n    raised: %s" % ", ".join("%s %s" % e[0] for e in B.raises[:4])
        if len(bad) > 1:
            s += "\n    and %d more: %s" % (len(bad) - 1, ", ".join(keyname(x[0]) for x in bad[1:6]))
        where = sorted({os.path.relpath(p, REPO) for p, f, l in B.it.funcs if isinstance(p, str) and p.startswith(REPO)})
        c.fail(key, ", ".join(where) or "src/dynamic_graph/sot/core", s)
