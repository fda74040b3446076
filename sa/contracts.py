"""Reference semantics: every function of spec/<name>.cpp (namespace spec) is
the specification of the function of the analysed tree with the same class,
name and parameters.  Both are abstracted to value terms by the same
interpreter; the outcome (exception or normal), the returned value and the
final values of the object's fields and of the reference parameters must be
the same terms.  When the normal forms differ, the difference is reported only
if the two terms differ under random interpretation (reval) and the analysed
function uses no uninterpreted operation that the specification does not use."""
import os
import re
import time

from . import terms as t
from .terms import T, TRUE, FALSE, UNDEF, NULL, ZERO, mk, gate, sym, TYPES, and_, not_
from .interp import Interp, mutref, Unsupported, Exit, lastname, tstrip, eigen_dims
from .model import load_spec, strip_targs, AnalysisError, VERIF
from . import reval

SAMPLES = {"quick": 150, "thorough": 1500}


def ptype(p):
    """normalised parameter type: unqualified names"""
    ty = tstrip(p["t"])
    ty = re.sub(r"\b(?:[A-Za-z_]\w*::)+", "", ty)
    return ty.replace("const ", "").replace(" const", "").replace(" ", "")


def clsname(f):
    return lastname(f["cls"]) if f.get("cls") else ""


def fullcls(f):
    """class name with its template arguments, without namespaces"""
    return re.sub(r"\b(?:[A-Za-z_]\w*::)+", "", f["cls"]).replace(" ", "") if f.get("cls") else ""


def fkey(f):
    return (fullcls(f), strip_targs(f["n"]) if not f["n"].startswith("operator") else f["n"], len(f["params"]))


class Pair:
    def __init__(self, spec, impl):
        self.spec, self.impl = spec, impl
        c = fullcls(impl)
        c = re.sub(r"Matrix<double,-1,-1,0,-1,-1>", "Matrix", re.sub(r"Matrix<double,-1,1,0,-1,1>", "Vector", c))
        self.name = (c + "::" if c else "") + impl["n"]
        self.key = self.name + "(" + ",".join(ptype(p) for p in spec["params"]) + ")"
        self.key = self.key.replace("Matrix<double,-1,1,0,-1,1>", "Vector").replace("Matrix<double,-1,-1,0,-1,-1>", "Matrix").replace("basic_string<char,char_traits<char>,allocator<char>>", "string")


def pairs(P, S, skip=()):
    """specification functions and their subjects"""
    idx = {}
    for f in P.funcs.values():
        if f.get("impl") or f["rel"].startswith("/verif") or "/verif/tool" in f["rel"]:
            continue
        idx.setdefault(fkey(f), []).append(f)
    out, missing = [], []
    for f in S.funcs.values():
        if f.get("impl") or f["n"].endswith("_") or not f["q"].startswith("spec::"):
            continue
        if "::helper" in f["q"]:
            continue
        c = idx.get(fkey(f), [])
        if f.get("dtor"):
            c = [x for x in c if x.get("dtor")]
        ts = [ptype(p) for p in f["params"]]
        m = [x for x in c if [ptype(p) for p in x["params"]] == ts]
        if not m:
            m = c if len(c) == 1 else []
        if len(m) > 1:
            m2 = [x for x in m if bool(x.get("const")) == bool(f.get("const"))]
            m = m2 if len(m2) >= 1 else m
        if len(m) < 1:
            missing.append((clsname(f) + "::" if clsname(f) else "") + f["n"])
            continue
        out.append(Pair(f, m[0]))
    return out, missing


class Outcome:
    pass


def run_fn(P, fn, args_types, cls, rename, fields, opaque, tlimit, rettype, keepstate=False, fieldtypes=None, assume=None, opts=None, tag=""):
    it = Interp(P, opaque=opaque, rename=rename, tlimit=tlimit)
    for k, v in (opts or {}).items():
        setattr(it, k, v)
    this = None
    it.thiscls = cls
    it.assumed = []
    it.frames.append(type("F0", (), {"fn": {"params": [], "body": None, "_refs": set()}, "this": None, "cls": None, "id": 0, "refs": {}})())
    if fn.get("cls") and not fn.get("static"):
        root = ("this",)
        it.mem[root] = UNDEF if fn.get("ctor") else sym("this@" + tag)
        this = it.loc(root)
    args, outs = [], []
    for i, (p, ty) in enumerate(zip(fn["params"], args_types)):
        s = sym("p%d@%s" % (i, tag))
        base = tstrip(ty)
        v = it.typed(s, base)
        TYPES.setdefault(s, base)
        if p.get("ref") or p["t"].endswith("&") or mutref(p["t"]):
            root = ("P", i)
            it.mem[root] = v
            args.append(("r", it.loc(root)))
            if p.get("ref") != "c" and not p["t"].startswith("const ") and "&&" not in p["t"]:
                outs.append((i, root))
        elif base.endswith("*"):
            args.append(("v", s))
            it.rootty[("D", s)] = base[:-1]
            outs.append((i, ("D", s)))
        else:
            args.append(("v", v))
    if assume:
        pass
    r = it.call_fn(fn, this, args, cls=cls)
    if isinstance(r, list):
        r = it.addr(r) if fn.get("rr") else it.load(r)
    ex = list(it.exits)
    if not it.dead():
        ex.append(Exit("ret", it.pc, r, it.mem))
    o = Outcome()
    kind = mk("noret")
    obs = {}

    def fold(f):
        """combine the exits' contributions"""
        acc = None
        for x in reversed(ex):
            v = f(x)
            acc = v if acc is None else gate(x.pc, v, acc)
        return acc
    if not ex:
        raise Unsupported("no exit")
    o.kind = fold(lambda x: mk("normal") if x.kind == "ret" else x.val)
    TH = mk("thrown")
    constg = {r for x in ex for r in x.mem if r[0] == "g" and (P.globals.get(r[1]) or {}).get("t", "").startswith("const ") and "init" in P.globals[r[1]]}

    def at(m, root, path=(), ty=None):
        v = m.get(root)
        if v is None:
            v = it.root0(root)
        v = it.getp(v, path)
        if ty:
            v = it.typed(v, ty)
        return boxed(it, v, m)

    def boxed(it, v, m, depth=0):
        """replace addresses of objects made by the function by their contents"""
        sub = {}
        for y in t.subterms(v):
            if y.op == "addr" and (y.args[0][0][0] in ("n", "t", "l") or y.args[0][0] in constg):
                root, st = y.args[0]
                w = m.get(root, UNDEF)
                if depth > 4:
                    raise Unsupported("cyclic heap")
                try:
                    sub[y] = mk("box", boxed(it, it.getp(w, st), m, depth + 1))
                except RecursionError:
                    raise Unsupported("heap")
        return t.subst(v, sub) if sub else v
    if fn.get("rt") != "void" and not fn.get("ctor"):
        def rv(x):
            if x.kind != "ret":
                return TH
            v = x.val if x.val is not None else UNDEF
            if isinstance(v, list):
                v = it.addr(v)
            if fn.get("rr"):
                def val(y):
                    if y.op != "addr":
                        return y
                    root, st = y.args[0]
                    if root == ("this",) and not st:
                        return y
                    if root == ("this",) or root[0] == "P":
                        return at(x.mem, root, st)
                    return y
                v = t._lift(val, [v])
            return boxed(it, v, x.mem)
        obs["return value"] = fold(rv)
    if this is not None and not fn.get("const"):
        for n in fields:
            ty = (fieldtypes or {}).get(n)
            obs["field " + n] = fold(lambda x: at(x.mem, ("this",), (n,), ty) if x.kind == "ret" or keepstate else TH)
    for i, root in outs:
        if root[0] == "D" and not any(root in x.mem for x in ex):
            continue
        obs["argument %d" % i] = fold(lambda x: at(x.mem, root) if x.kind == "ret" or keepstate == "all" else TH)
    roots = set()
    for x in ex:
        roots |= {r for r in x.mem if r[0] in ("g", "D") and r[1] != "world" and not (r[0] == "D" and r in [q for _, q in outs])}
    o.globals = {}
    for r in roots:
        nm = "effects" if r == ("g", "effects") else ("global " + r[1].split("::")[-1]) if r[0] == "g" else "pointee of " + t.show(r[1])
        v = fold(lambda x: at(x.mem, r) if x.kind == "ret" or keepstate else TH)
        if r[0] == "g":
            if v is it.root0(r) or all(x.mem.get(r) is None or x.mem.get(r) is it.root0(r) for x in ex):
                continue
            g = P.globals.get(r[1])
            if g and g["t"].startswith("const "):
                continue
        obs[nm] = v
        o.globals[nm] = (r, it.root0(r))
    o.obs = obs
    o.assumed = it.assumed
    o.unmodelled = it.unmodelled
    return o


STRUCTURAL = {"poly", "ite", "true", "false", "null", "undef", "sym", "lt0", "lt0i", "le0", "eq0", "eq", "den", "str", "struct", "fld", "mat", "arr1", "arr2", "sel", "store",
              "size", "rows", "cols", "bv", "lam", "ix", "idiv", "imod", "sum", "first", "cat", "addr", "exc", "normal", "thrown", "noret", "empty", "has", "band", "bor", "bxor", "shl", "shr",
              "u8", "i8", "trunc", "quatof", "angleaxis", "minv", "resize", "vresize", "push_back", "push_front", "pop_back", "pop_front", "pushall", "catall", "scat", "keyat", "erasek", "inf", "tuple", "fix", "proj",
              "substr", "chr", "tostr", "ceildiv", "inv0", "box", "refto", "erase1", "insert1", "dep", "newobj", "iter", "strfill", "deref", "rd", "strlt", "bigmul", "find", "lambda", "fnptr",
              "pyattr", "pynew", "pyret", "pyname", "pyitem", "pynothere", "pyboolv", "pykw", "pyin", "pyop", "pyarr", "pyfn", "pyinst", "pydict", "pybound", "pyslice", "pytruth", "pyisinst", "pystarts", "pyends", "pyabsent", "pylen", "pynone", "pyhas"}


def foreign(x):
    """names of the uninterpreted operations in a term"""
    out = set()
    for y in t.subterms(x):
        if y.op == "call":
            if y.args[0] in ("sqrt", "sin", "cos", "tan", "atan2", "exp", "log", "floor", "ceil", "pow", "acos", "asin", "atan", "fmod", "round", "str.find", "filetext", "fileok", "scan.val", "scan.pos", "scan.any", "scan.ok", "scan.eof", "tanh", "format", "formatlen", "va", "overrun", "any", "all", "prod", "maxCoeff", "minCoeff", "eulerAngles", "determinant", "pymod", "pystr"):
                continue
            out.add("call " + y.args[0])
        elif y.op in ("mres", "mst", "wst"):
            out.add("%s" % (y.args[0],))
        elif y.op == "out":
            out.add("%s" % (y.args[1],))
        elif y.op == "obj" or y.op == "manip" or y.op == "dyncast":
            out.add(y.op + " %s" % y.args[0])
        elif y.op not in STRUCTURAL:
            out.add(y.op)
    return out


class Assume:
    """preconditions: equations (leaf = term), integer ranges, conditions"""

    def __init__(self, items):
        self.eqs, self.ranges, self.conds, self.elems = {}, {}, [], {}
        for kind, pc, a in items:
            if kind == "_eq" and pc is TRUE:
                self.eqs[a[0]] = t.subst(a[1], self.eqs) if self.eqs else a[1]
            elif kind == "_in" and pc is TRUE:
                self.ranges[a[0]] = (a[1], a[2])
            elif kind == "_elems":
                self.elems[a[0]] = (a[1], a[2])
            elif kind == "_real" and pc is TRUE:
                self.ranges[a[0]] = (a[1], a[2], True)
            else:
                c = t.truth(a[0]) if kind == "" else t.eqv(a[0], a[1]) if kind == "_eq" else and_((t.lt if kind == "_real" else t.le)(a[1], a[0]), t.lt(a[0], a[2]))
                self.conds.append(t.or_(not_(pc), c))
        self.dims = {}
        for x, y in self.eqs.items():
            if x.op in ("rows", "cols", "size"):
                self.dims.setdefault(x.args[0], {})[x.op] = y

    def apply(self, x):
        return t.subst(x, self.eqs) if self.eqs else x


NOASSUME = Assume([])


def compare(name, a, b, enums, n, seed, asm=NOASSUME):
    """a: specified term, b: actual term.  -> ('equal'|'agree'|'differ'|'unknown', detail)"""
    ctx = asm.conds
    a, b = asm.apply(a), asm.apply(b)
    if a is b:
        return "equal", None
    try:
        ok, d = t.same(a, b)
    except RecursionError:
        ok, d = False, None
    if ok:
        return "equal", None
    extra = foreign(b) - foreign(a)
    cs, ss = reval.constants(a, b, *ctx)
    bad, tried = 0, 0
    wit = None
    t0 = time.time()
    corpus, seen, best = [], set(), -1
    for k in range(20 * n):
        if time.time() - t0 > (10 if n < 500 else 60):
            break
        if k >= 2 * n and (bad != 1 or extra):
            break          # a single disagreement is confirmed on further samples
        if k % 2 and corpus:
            # coverage-guided: change a few values of an interpretation that met new conditions
            h = reval.h64(seed, k, "pick")
            env = corpus[h % len(corpus) if h & 64 else -1 - (h >> 8) % min(4, len(corpus))].neighbour((seed, k, "n"))
        else:
            env = reval.Env((seed, k), cs, ss, enums)
            env.fixed, env.ranges, env.dims, env.elems = asm.eqs, asm.ranges, asm.dims, asm.elems
        try:
            if ctx:
                met = 0
                for x in ctx:
                    if not env.cond(x, None):
                        break
                    met += 1
                if met < len(ctx):
                    if not tried and met > best:
                        best = met
                        corpus = corpus[-3:] + [env]
                    continue
            env.cov = set()
            va = env.ev(a)
            try:
                vb = env.ev(b)
            except reval.Undefined as x:
                vb = reval.Opq("undefined", str(x))
        except (reval.Skip, RecursionError, OverflowError, ZeroDivisionError):
            continue
        if not tried:
            corpus = []
        tried += 1
        if env.cov - seen:
            seen |= env.cov
            corpus.append(env)
        if not reval.match(va, vb, env.gens):
            bad += 1
            if wit is None:
                wit = (env, va, vb)
            if bad >= 3:
                break
    if bad >= 2 and not extra:
        return "differ", (d, wit, bad, tried)
    if bad and extra:
        return "unknown", "uninterpreted: " + ", ".join(sorted(map(str, extra)))
    if bad:
        return "unknown", "one of %d samples differs" % tried
    if tried < 10:
        return "unknown", "only %d samples" % tried
    return "agree", tried


def fieldmap(P, S, impl, spec):
    """spec field name -> repo field name"""
    rf = {}
    for c, f in P.fields(impl["cls"]):
        rf.setdefault(f["n"], (f["t"], c))
    sf = {}
    for c, f in S.fields(spec["cls"]):
        sf.setdefault(f["n"], (f["t"], c))
    ren, used = {}, set()
    for n in sf:
        if n in rf:
            used.add(n)
    for n, (ty, c) in sf.items():
        if n in rf:
            continue
        cand = [m for m, (ty2, c2) in rf.items() if m not in used and ptype({"t": ty2}) == ptype({"t": ty})]
        if len(cand) != 1:
            raise Unsupported("no field of %s corresponds to '%s'" % (impl["cls"], n))
        ren[strip_targs(c) + "::" + n] = cand[0]
        used.add(cand[0])
    names = [ren.get(strip_targs(c) + "::" + n, n) for n, (ty, c) in sf.items()]
    types = {}
    for n, (ty, c) in sf.items():
        m = ren.get(strip_targs(c) + "::" + n, n)
        types[m] = rf[m][0] if m in rf else ty
    return ren, names, types


SIGNAL = re.compile(r"(?:dynamicgraph::)?(?:sot::)?Signal\w*\s*<")


def check_pair(c, P, S, pr, opts):
    spec, impl = pr.spec, pr.impl
    where = "%s:%d" % (impl["rel"], impl["l"])
    tl = 25 if c.tier == "quick" else 200
    try:
        ren, fields, ftypes = ({}, [], {})
        if impl.get("cls") and spec.get("cls"):
            ren, fields, ftypes = fieldmap(P, S, impl, spec)
        o = dict(opts.get("*", {}))
        o.update(opts.get(pr.name, {}))
        atypes = [p["t"] for p in impl["params"]]
        opaque = o.get("opaque", ())
        io = {"emits": o.get("emit", ()), "mayfail": o.get("mayfail", ())}
        t.BIG[0] = o.get("expand", 4000)
        A = run_fn(S, spec, atypes, spec.get("cls"), ren, fields, opaque, tl, None, o.get("keepstate", False), ftypes, opts=io, tag=pr.key)
        B = run_fn(P, impl, atypes, impl.get("cls"), {}, fields, opaque, tl, None, o.get("keepstate", False), ftypes, opts=io, tag=pr.key)
        items = []
        for vn in ("valid_", "valid_" + ("op" if spec["n"] == "operator()" else spec["n"]) + "_"):
            if spec.get("ctor"):
                if vn == "valid_":
                    continue
                vn = "valid_ctor_"
            for vf in S.funcs.values():
                if vf["n"] == vn and vf.get("cls") == spec.get("cls") and len(vf["params"]) in (0, len(spec["params"])) and vf.get("body") is not None:
                    if vn == "valid_" or len(vf["params"]) == 0 or [ptype(p) for p in vf["params"]] == [ptype(p) for p in spec["params"]]:
                        items += run_fn(S, vf, [p["t"] for p in vf["params"]], spec.get("cls"), ren, fields, opaque, tl, None, False, ftypes, tag=pr.key).assumed
        asm = Assume(items)
    except Unsupported as e:
        c.notes.append("%s: not decided (%s)" % (pr.key, e))
        c.count("functions_not_decided")
        return
    except (RecursionError, ValueError, KeyError, TypeError, AttributeError, IndexError, AssertionError) as e:
        if os.environ.get("SA_DEBUG"):
            raise
        c.notes.append("%s: not decided (internal: %s %s)" % (pr.key, type(e).__name__, e))
        c.count("functions_not_decided")
        return
    enums = {}
    for q, e in list(P.enums.items()) + list(S.enums.items()):
        enums[q] = [x["v"] for x in e["v"]] or [0]
    n = SAMPLES[c.tier]
    c.count("functions_compared")
    c.analysed[pr.key] = where
    what = [("outcome", A.kind, B.kind)]
    ign = o.get("ignore", ())
    for k in sorted(set(A.obs) | set(B.obs)):
        if k in ign:
            continue
        if spec.get("ctor") and k.startswith("field ") and SIGNAL.match(ftypes.get(k[6:], "")):
            continue       # the wiring of signals is the matter of P01 and P02
        a, b = A.obs.get(k), B.obs.get(k)
        if k == "effects":
            a, b = a or mk("empty"), b or mk("empty")
        if a is None and k.startswith("global") and k in B.globals:
            r = B.globals[k]
            a = r[1]
            if not o.get("globals"):
                continue       # a global the specification does not mention
        if b is None and k.startswith(("global", "pointee", "argument")) and k in A.globals:
            b = A.globals[k][1]
        if a is None and k.startswith(("pointee", "argument")):
            continue
        if a is None or b is None:
            continue
        if a.b != b.b:
            a, b = t.truth(a), t.truth(b)
        what.append((k, a, b))
    for k, a, b in what:
        try:
            r, d = compare(k, a, b, enums, n, c.seed, asm)
        except RecursionError:
            r, d = "unknown", "recursion"
        if r == "equal":
            c.ok("%s: %s" % (pr.key, k))
            c.count("observables_equal_by_normal_form")
        elif r == "agree":
            c.ok()
            c.count("observables_not_distinguished")
            c.notes.append("%s: %s: not in the same normal form, no difference under %s random interpretations" % (pr.key, k, d))
        elif r == "unknown":
            c.notes.append("%s: %s: not decided (%s)" % (pr.key, k, d))
            c.count("observables_not_decided")
        else:
            dd, wit, bad, tried = d
            msg = describe(pr, k, dd, wit, a, b)
            c.fail("%s %s" % (pr.key, k), where, msg)


def describe(pr, k, d, wit, a, b):
    s = "%s: %s differs from its reference semantics" % (pr.name, k)
    if d is not None:
        lits, x, y = d
        cs = []
        for l, v in lits[:8]:
            cs.append(("" if v else "not ") + t.show(l, 4))
        s += "\n    when   %s" % (" and ".join(cs) if cs else "always")
        s += "\n    expected %s\n    computed %s" % (t.show(x, 5)[:600], t.show(y, 5)[:600])
    if wit is not None:
        env, va, vb = wit
        s += "\n    under an interpretation: expected %s, computed %s" % (str(va)[:200], str(vb)[:200])
    return s


_specs = {}


def get_spec(nm, P):
    S = _specs.get(nm)
    if S is None:
        S = _specs[nm] = load_spec(nm)
        S.fallback = P
        for k, v in P.records.items():
            S.records.setdefault(k, v)
    return S


def run(c, names, only=None, opts=None, floor=1):
    """check the contracts of spec files `names`"""
    P = c.P
    n = 0
    for nm in names:
        S = get_spec(nm, P)
        ps, missing = pairs(P, S)
        for m in missing:
            c.notes.append("no subject for the specification of %s" % m)
            c.count("specifications_without_subject")
        for pr in ps:
            if only and not only(pr):
                continue
            n += 1
            check_pair(c, P, S, pr, opts or {})
    c.floor("contracts", n, floor)
    c.assumptions.append("reference semantics in spec/%s.cpp; real arithmetic (no rounding, no overflow); distinct pointer inputs do not alias" % ", ".join(names))
