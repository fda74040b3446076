"""Models of the library functions the analysed code uses (standard library,
Eigen, dynamic-graph signals).  What is not modelled is uninterpreted."""
from . import terms as t
from .terms import (T, TRUE, FALSE, NULL, UNDEF, ZERO, ONE, num, mk, ite, and_, or_, not_, eq, eqv, lt, le, add, sub, mul, div,
                    truth, asnum, gate, struct, setfld, isnum, numval, string, sym, TYPES)
from .model import strip_targs

STDEXC = {"runtime_error": "exception", "logic_error": "exception", "invalid_argument": "logic_error", "out_of_range": "logic_error",
          "range_error": "runtime_error", "overflow_error": "runtime_error", "domain_error": "logic_error", "length_error": "logic_error",
          "bad_alloc": "exception", "bad_cast": "exception"}
MATH = {"sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "log10", "floor", "ceil", "fmod", "isnan", "tanh", "sinh", "cosh", "cbrt", "round", "isinf", "isfinite",
        "sqrtf", "sinf", "cosf", "hypot", "strlen", "toupper", "tolower", "isspace", "isdigit", "isalpha"}
IGNORED = {"sotDEBUGF", "sotERRORF", "sendMsg", "SEND_MSG", "trace", "traceTemplate", "flush", "__null_stream", "nullStream_", "logger", "printf", "perror", "reserve", "sync_with_stdio"}
IGNSTREAM = {"cout", "cerr", "clog", "sotDEBUGFLOW", "sotERRORFLOW", "dgRTLOG"}


def isN(x):
    return isnum(x) and numval(x).denominator == 1


def I(x):
    return int(numval(x))


class Lib:
    IMPURE = {"gettimeofday", "clock", "time", "rand", "clock_gettime", "usleep", "sleep", "dlopen", "dlsym", "dlerror", "dlclose", "system", "now", "random", "nanosleep"}

    def __init__(self, it):
        self.it = it

    # ------------------------------------------------------------- arrays
    def index(self, v, i):
        if v.op == "str" and isN(i):
            s = v.args[0]
            k = I(i)
            if 0 <= k < len(s):
                return num(ord(s[k]))
            if k == len(s):
                return ZERO
        if v.op == "struct":
            raise self.uns("index of a structure")
        return mk("sel", v, i)

    def uns(self, m):
        from .interp import Unsupported
        return Unsupported(m)

    def rows(self, v):
        return mk("rows", v)

    def cols(self, v):
        return mk("cols", v)

    def size(self, v):
        return mk("size", v)

    def comp(self, r, c, f):
        """matrix value by comprehension"""
        if isN(r) and isN(c) and I(r) * I(c) <= 49:
            return mk("mat", r, c, *[f(num(i), num(j)) for i in range(I(r)) for j in range(I(c))])
        if c is ONE:
            return mk("arr1", r, t.lam(1, lambda i: f(i, ZERO)))
        return mk("arr2", r, c, t.lam(2, f))

    def shape(self, v):
        return mk("rows", v), mk("cols", v)

    def ew(self, f, *vs):
        """element-wise"""
        for v in vs:
            if v.op == "ite":
                return t._lift(lambda *a: self.ew(f, *a), list(vs))
        r, c = self.shape(vs[0])
        return self.comp(r, c, lambda i, j: f(*[t.elt(v, i, j) for v in vs]))

    def quantify(self, nm, v):
        if v.op == "ite":
            return ite(v.args[0], self.quantify(nm, v.args[1]), self.quantify(nm, v.args[2]))
        r, c = self.shape(v)
        if isN(r) and isN(c):
            g = FALSE if nm == "any" else TRUE
            for i in range(I(r)):
                for j in range(I(c)):
                    x = truth(t.elt(v, num(i), num(j)))
                    g = or_(g, x) if nm == "any" else and_(g, x)
            return g
        return truth(mk("call", nm, v))

    def block(self, v, r0, c0, nr, nc):
        if v.op == "ite":
            return ite(v.args[0], self.block(v.args[1], r0, c0, nr, nc), self.block(v.args[2], r0, c0, nr, nc))
        return self.comp(nr, nc, lambda i, j: t.elt(v, add(r0, i), add(c0, j)))

    def setblock(self, v, r0, c0, nr, nc, new):
        if v.op == "ite":
            return ite(v.args[0], self.setblock(v.args[1], r0, c0, nr, nc, new), self.setblock(v.args[2], r0, c0, nr, nc, new))
        r, c = self.shape(v)
        whole = (r0 is ZERO and c0 is ZERO and nr is r and nc is c)
        if nc is ONE and nr is not ONE:
            new = self.column(new)

        def f(i, j):
            if whole:
                return t.elt(new, i, j)
            g = and_(le(r0, i, True), lt(i, add(r0, nr), True))
            if not (c is ONE and c0 is ZERO):
                g = and_(g, and_(le(c0, j, True), lt(j, add(c0, nc), True)))
            if g is FALSE:
                return t.elt(v, i, j)
            return gate(g, t.elt(new, sub(i, r0), sub(j, c0)), t.elt(v, i, j))
        return self.comp(r, c, f)

    def column(self, v):
        """a row vector assigned to a column vector is transposed"""
        if v.op == "ite":
            return ite(v.args[0], self.column(v.args[1]), self.column(v.args[2]))
        if v.op in ("mat", "arr2"):
            r, c = self.shape(v)
            if r is ONE and c is not ONE:
                return self.transpose(v)
        return v

    def transpose(self, v):
        r, c = self.shape(v)
        return self.comp(c, r, lambda i, j: t.elt(v, j, i)) if not (c is ONE) else self.comp2(ONE, r, lambda i, j: t.elt(v, j, ZERO))

    def comp2(self, r, c, f):
        if isN(r) and isN(c) and I(r) * I(c) <= 49:
            return self.comp(r, c, f)
        return mk("arr2", r, c, t.lam(2, f))

    def reverse(self, v):
        n = self.size(v)
        return self.comp(n, ONE, lambda i, j: t.elt(v, sub(sub(n, ONE), i), ZERO))

    def diagonal(self, v):
        r, c = self.shape(v)
        n = r if r is c else ite(lt(r, c, True), r, c)
        return self.comp(n, ONE, lambda i, j: t.elt(v, i, i))

    def setdiagonal(self, v, new):
        r, c = self.shape(v)
        return self.comp(r, c, lambda i, j: gate(eq(i, j), t.elt(new, i, ZERO), t.elt(v, i, j)))

    def sumof(self, v, f=lambda x: x):
        if v.op == "ite":
            return ite(v.args[0], self.sumof(v.args[1], f), self.sumof(v.args[2], f))
        r, c = self.shape(v)
        if isN(r) and isN(c) and I(r) * I(c) <= 49:
            acc = ZERO
            for i in range(I(r)):
                for j in range(I(c)):
                    acc = add(acc, f(t.elt(v, num(i), num(j))))
            return acc
        if c is ONE:
            return mk("sum", r, t.lam(1, lambda k: f(t.elt(v, k, ZERO))))
        return mk("sum", r, t.lam(1, lambda k: mk("sum", c, t.lam(1, lambda l: f(t.elt(v, k, l))))))

    def matmul(self, a, b):
        for v in (a, b):
            if v.op == "ite":
                return t._lift(self.matmul, [a, b])
        r, k = self.shape(a)
        k2, c = self.shape(b)
        if r is num(4) and k is num(4) and k2 is num(3) and c is ONE:      # transform * point
            return self.comp(num(3), ONE, lambda i, j: add(self._dotk(a, b, i, j, 3), t.elt(a, i, num(3))))
        if isN(k2) and not isN(k):
            k = k2
        if isN(k) and I(k) <= 12:
            return self.comp(r, c, lambda i, j: self._dotk(a, b, i, j, I(k)))
        return self.comp(r, c, lambda i, j: mk("sum", k, t.lam(1, lambda l: mul(t.elt(a, i, l), t.elt(b, l, j)))))

    def _dotk(self, a, b, i, j, n):
        acc = ZERO
        for l in range(n):
            acc = add(acc, mul(t.elt(a, i, num(l)), t.elt(b, num(l), j)))
        return acc

    def toeigen(self, x, d):
        """value stored in an Eigen object of static dims d"""
        if x.op == "arr2" and d[1] == 1 and x.args[0] is ONE and x.args[1] is not ONE:
            return self.transpose(x)
        if d[0] is not None and d[1] is not None and x.op in ("arr1", "arr2"):
            # dynamic value into a fixed-size object
            return self.comp(num(d[0]), num(d[1]), lambda i, j: t.elt(x, i, j))
        return x

    def filled(self, n, v):
        return mk("arr1", n, t.lam(1, lambda i: v))

    def const(self, r, c, f):
        return self.comp(r, c, f)

    # ---------------------------------------------------------- iterators
    def iterloc(self, lv, i):
        out = []
        for c, root, steps in lv:
            v = self.it.getp(self.it.rootval(root), steps)
            if self.ismapval(v):
                out.append((c, root, steps + (("i", mk("keyat", v, i)),)))
            else:
                out.append((c, root, steps + (("i", i),)))
        return out

    def ismapval(self, v):
        from .interp import ismap
        while v.op in ("store", "erasek"):
            v = v.args[0]
        ty = TYPES.get(v)
        return bool(ty and ismap(ty))

    def findloc(self, lv, p):
        return self.it.ext(lv, ("i", p.args[1]))

    def ignorable(self, ty):
        from .interp import tstrip
        ty = tstrip(ty)
        return "lock_guard<" in ty or "unique_lock<" in ty or "scoped_lock<" in ty or "DebugTrace" in ty

    def plainrv(self, a):
        return a.get("k") in ("int", "float", "bool", "str", "bin", "null", "zero", "ctor", "enum", "icast") and not (a.get("k") == "bin" and a["op"].endswith("=") and a["op"] not in ("==", "<=", ">=", "!="))

    # ----------------------------------------------------------------- ctor
    def ctor(self, e):
        from .interp import tstrip, eigen_dims, isstr, iscont, ismap, isiter, lastname, isstream
        it = self.it
        ty = tstrip(e["t"])
        args = [a for a in e["args"] if not a.get("dflt")]
        d = eigen_dims(ty)
        if d:
            return self.eigen_ctor(e, ty, d, args)
        if isstr(ty):
            if not args:
                return string("")
            v = it.ev(args[0])
            if len(args) == 1 or it.dead():
                return v
            if len(args) == 2 and (args[0].get("y") == "p" or args[1].get("y") in ("i", "u") and args[0].get("y") == "x"):
                n = it.ev(args[1])
                return mk("substr", v, ZERO, n)
            if len(args) == 2 and args[0].get("y") in ("i", "u"):
                return mk("strfill", v, it.ev(args[1]))
            if v.op == "iter":
                w = it.ev(args[1])
                cont = it.load(it.deref(v.args[0]))
                return mk("substr", cont, v.args[1], sub(w.args[1], v.args[1])) if w.op == "iter" else mk("strrange", v, w)
            return mk("substr", v, *[it.ev(a) for a in args[1:]])
        if iscont(ty) or ismap(ty):
            if not args:
                v = mk("empty")
                return v
            a0 = args[0]
            if e.get("copy") or a0.get("y") == "o" and a0.get("k") != "ilist" and len(args) == 1:
                return it.ev(a0)
            v = it.ev(a0)
            if it.dead():
                return UNDEF
            if v.op in ("mat", "empty"):
                return v
            if v.op == "iter":
                w = it.ev(args[1])
                if w.op == "iter" and w.args[0] is v.args[0]:
                    cont = it.load(it.deref(v.args[0]))
                    return self.slice(cont, v.args[1], sub(w.args[1], v.args[1]))
                raise self.uns("container from a range")
            if len(args) == 2:
                return self.filled(v, it.ev(args[1]))
            el = self.elemtype(ty)
            return self.filled(v, it.zeroval(el))
        if isiter(ty) or ty.startswith("std::pair<") and e.get("copy"):
            return it.ev(args[0]) if args else UNDEF
        if ty.startswith("std::pair<") and len(args) == 2:
            return struct(UNDEF, {"first": it.ev(args[0]), "second": it.ev(args[1])})
        if ty.startswith("std::fpos<") and len(args) <= 1:
            return it.ev(args[0]) if args else ZERO
        if ty.startswith("std::pair<") and len(args) == 1:
            return it.ev(args[0])
        if ty.startswith("std::basic_ifstream") or ty.startswith("std::basic_fstream"):
            if not args:
                return struct(UNDEF, {"text": string(""), "pos": ZERO, "eof": FALSE, "fail": FALSE, "open": FALSE})
            nm_ = it.ev(args[0])
            return self.openfile(nm_, it.ev(args[1]) if len(args) > 1 else None)
        if "ostringstream" in ty or "stringstream" in ty and "basic_" in ty:
            if args and args[0].get("y") == "o":
                return it.ev(args[0])
            return string("")
        if ty.startswith("std::complex<"):
            vs = [it.ev(a) for a in args]
            return mk("complex", *vs)
        if ty.startswith("Eigen::AngleAxis<"):
            if e.get("copy"):
                return it.ev(args[0])
            vs = [it.ev(a) for a in args]
            if len(vs) == 2:
                return struct(UNDEF, {"angle": vs[0], "axis": vs[1]})
            if len(vs) == 1:
                q = mk("angleaxis", vs[0])
                ax = mk("fld", q, "axis")
                return struct(UNDEF, {"angle": mk("fld", q, "angle"), "axis": mk("mat", num(3), ONE, *[mk("sel", ax, num(i)) for i in range(3)])})
            return UNDEF
        if ty.startswith("Eigen::Map<"):
            return it.load(self.maplv(ty, args))
        if ty.startswith("Eigen::") and len(args) == 1 and not ty.startswith("Eigen::JacobiSVD"):
            return it.ev(args[0])
        return NotImplemented

    def maplv(self, ty, args):
        """l-value seen through a map over existing storage"""
        from .interp import _targs, eigen_dims
        it = self.it
        p = it.ev(args[0])
        d = eigen_dims(_targs(ty)[0])
        lv = it.deref(p)
        if d is None or d[1] != 1:
            raise self.uns("matrix map")
        n = num(d[0]) if d[0] is not None else it.ev(args[1])
        return [(c, r, s + (() if s and s[-1][0] == "blk" and s[-1][3] is n else (("blk", ZERO, ZERO, n, ONE),))) for c, r, s in lv]

    def elemtype(self, ty):
        from .interp import _targs
        try:
            return _targs(ty)[0]
        except Exception:
            return ""

    def slice(self, v, i0, n):
        if v.op == "str":
            return mk("substr", v, i0, n)
        return mk("arr1", n, t.lam(1, lambda i: mk("sel", v, add(i0, i))))

    def eigen_ctor(self, e, ty, d, args):
        it = self.it
        if ty.startswith("Eigen::Quaternion<"):
            if not args:
                return it.defaultval(ty)
            vs = [it.ev(a) for a in args]
            if it.dead():
                return UNDEF
            if len(vs) == 4:
                w, x, y, z = vs
                return mk("mat", num(4), ONE, x, y, z, w)
            return self.quat_of(vs[0])
        if ty.startswith("Eigen::Transform<"):
            if not args:
                return it.defaultval(ty)
            v = it.ev(args[0])
            return self.to_transform(v)
        if ty.startswith("Eigen::Translation<"):
            vs = [it.ev(a) for a in args]
            return mk("mat", num(3), ONE, *vs) if len(vs) == 3 else vs[0]
        if not args:
            return it.defaultval(ty)
        vs = [it.ev(a) for a in args]
        if it.dead():
            return UNDEF
        ys = [a.get("y") for a in args]
        if len(args) == 1:
            if ys[0] in ("i", "u", "e"):
                if d[1] == 1 and d[0] is None:
                    return self.filled(vs[0], UNDEF)
                return it.defaultval(ty)
            return self.from_any(vs[0], d)
        if len(args) == 2 and all(y in ("i", "u", "e") for y in ys) and d[0] is None and d[1] is None:
            return self.comp2(vs[0], vs[1], lambda i, j: UNDEF)
        if d[0] is not None and d[1] == 1 and len(vs) == d[0]:
            return mk("mat", num(d[0]), ONE, *vs)
        if len(vs) == 2 and d[0] is None:
            return self.from_any(vs[0], d) if False else self.comp(vs[0], vs[1], lambda i, j: UNDEF)
        raise self.uns("Eigen constructor " + ty)

    def from_any(self, v, d):
        if v.op == "struct" and "axis" in v.args:
            return self.aa_matrix(v)
        return self.it.lib.toeigen(v, d)

    def to_transform(self, v):
        if v.op == "ite":
            return ite(v.args[0], self.to_transform(v.args[1]), self.to_transform(v.args[2]))
        if v.op == "struct":
            v = self.aa_matrix(v)
        r, c = self.shape(v)
        if r is num(4) and c is num(4):
            return v
        if r is num(4) and c is ONE:
            v = self.quat_matrix(v)
            r, c = self.shape(v)
        if r is num(3) and c is num(3):
            return mk("mat", num(4), num(4), *[(t.elt(v, num(i), num(j)) if i < 3 and j < 3 else (ONE if i == j else ZERO)) for i in range(4) for j in range(4)])
        if r is num(3) and c is ONE:
            return mk("mat", num(4), num(4), *[((ONE if i == j else ZERO) if j < 3 else (t.elt(v, num(i), ZERO) if i < 3 else ONE)) for i in range(4) for j in range(4)])
        return v

    def quat_of(self, v):
        if v.op == "ite":
            return ite(v.args[0], self.quat_of(v.args[1]), self.quat_of(v.args[2]))
        if v.op == "struct":
            a, ax = mk("fld", v, "angle"), mk("fld", v, "axis")
            h = mul(num("1/2"), a)
            s, c = mk("call", "sin", h), mk("call", "cos", h)
            return mk("mat", num(4), ONE, *([mul(s, t.elt(ax, num(i), ZERO)) for i in range(3)] + [c]))
        r, c = self.shape(v)
        if r is num(4) and c is ONE:
            return v
        q = mk("quatof", v)
        return mk("mat", num(4), ONE, *[mk("sel", q, num(i)) for i in range(4)])

    def quat_matrix(self, q):
        x, y, z, w = [t.elt(q, num(i), ZERO) for i in range(4)]
        two = num(2)

        def m2(a, b):
            return mul(two, mul(a, b))
        return mk("mat", num(3), num(3),
                  sub(ONE, add(m2(y, y), m2(z, z))), sub(m2(x, y), m2(w, z)), add(m2(x, z), m2(w, y)),
                  add(m2(x, y), m2(w, z)), sub(ONE, add(m2(x, x), m2(z, z))), sub(m2(y, z), m2(w, x)),
                  sub(m2(x, z), m2(w, y)), add(m2(y, z), m2(w, x)), sub(ONE, add(m2(x, x), m2(y, y))))

    def aa_matrix(self, v):
        a, ax = mk("fld", v, "angle"), mk("fld", v, "axis")
        s, c = mk("call", "sin", a), mk("call", "cos", a)
        x = [t.elt(ax, num(i), ZERO) for i in range(3)]
        o = sub(ONE, c)

        def m(i, j):
            b = mul(o, mul(x[i], x[j]))
            if i == j:
                return add(b, c)
            k = 3 - i - j
            sg = 1 if (i, j) in ((1, 0), (0, 2), (2, 1)) else -1
            return add(b, mul(num(sg), mul(s, x[k])))
        return mk("mat", num(3), num(3), *[m(i, j) for i in range(3) for j in range(3)])

    # ----------------------------------------------------------------- calls
    def streamroot(self, e):
        """leftmost operand of a << chain"""
        x = e
        while x.get("k") == "ocall" and x["op"] == "<<" and x["args"]:
            x = x["args"][0]
        return x

    def ignoredstream(self, x):
        k = x.get("k")
        if k == "glob":
            return x["n"] in IGNSTREAM or x["n"].startswith("sotDEBUG")
        if k == "mem":
            return self.ignoredstream(x["b"])
        if k in ("call", "mcall"):
            n = (x.get("f") or {}).get("q", "").split("::")[-1]
            return n in IGNORED or n in IGNSTREAM or "stream" in n.lower() and "null" in n.lower() or n == "getLogger"
        return False

    def call(self, e):
        from .interp import callee, tstrip
        f = e.get("f")
        if f is None:
            return NotImplemented
        nm = callee(f)
        q = strip_targs(f["q"])
        it = self.it
        if nm in IGNORED or nm.startswith(("makeCommand", "docCommand", "makeDirect", "docDirect")):
            return UNDEF
        if e["k"] == "ocall" and e["op"] == "<<" and e["args"][0].get("y") in ("o", "?"):
            root = self.streamroot(e)
            if self.ignoredstream(root):
                # operands are evaluated for effects only when they contain calls of the tree
                return it.temp(UNDEF)
        if e["k"] == "mcall" and self.ignoredstream(e.get("o") or {}):
            return UNDEF
        if f.get("r"):
            return NotImplemented
        if nm == "str" and e["k"] == "mcall" and self.ignoredstream(e["o"]):
            return string("")
        if q.startswith("Eigen::"):
            return self.eigen(e, f, nm, q)
        if q.startswith("dynamicgraph::"):
            return self.dg(e, f, nm, q)
        if q.startswith("pinocchio::") and e["k"] == "mcall" and nm in ("integrate", "difference", "dDifference", "squaredDistance") and len([x for x in e["args"] if not x.get("dflt")]) == 3:
            # a Lie group operation: the last argument receives the result
            a = [x for x in e["args"] if not x.get("dflt")]
            r = mk("call", ":".join([nm, tstrip(e.get("ot", ""))] + [str(x) for x in f.get("ta", [])[:1] if nm == "dDifference"]), *[it.ev(x) for x in a[:-1]])
            r = it.typedleaves(r, a[-1].get("t", ""))
            lv = it.lv(a[-1])
            if it.dead():
                return UNDEF
            it.store(lv, r)
            return UNDEF
        if nm in MATH and e["k"] == "call":
            return self.math(e, nm)
        if e["k"] == "call":
            return self.stdfun(e, f, nm, q)
        if e["k"] == "mcall":
            return self.stdmethod(e, f, nm, q)
        if e["k"] == "ocall":
            return self.stdop(e, f, nm, q)
        return NotImplemented

    def math(self, e, nm):
        it = self.it
        vs = [asnum(it.ev(a)) for a in e["args"]]
        if it.dead() or any(v is UNDEF for v in vs):
            return UNDEF
        if nm.endswith("f") and nm[:-1] in ("sqrt", "sin", "cos"):
            nm = nm[:-1]
        return mathcall(nm, vs)

    def stdfun(self, e, f, nm, q):
        it = self.it
        a = e["args"]
        if q == "std::make_shared":
            from .interp import tstrip, eigen_dims, isstr, iscont, ismap, lastname, _targs
            ty = _targs(tstrip(e["t"]))[0]
            vs = [it.ev(x) for x in a]
            if it.dead():
                return UNDEF
            if not vs and not it.loopdepth and (iscont(ty) or ismap(ty) or isstr(ty) or eigen_dims(ty)):
                root = ("n", next(it.newcnt))
                it.mem[root] = it.defaultval(ty)
                return t._intern("addr", ((root, ()),))
            return it.newobj(mk("obj", lastname(ty), *vs))
        if nm in ("__builtin_va_start", "__builtin_va_copy", "va_start"):
            it.store(it.lv(a[0]), mk("call", "va", *[it.ev(x) for x in a[1:]]))
            return UNDEF
        if nm in ("__builtin_va_end", "va_end"):
            return UNDEF
        if nm in ("vsnprintf", "snprintf", "vsprintf", "sprintf"):
            # the formatted text; the bound must fit the buffer (its value is free)
            bounded = nm.endswith("nprintf")
            v = a[0].get("t", "")
            lv = it.lv(a[0]) if v.endswith("]") else it.deref(it.ev(a[0]))
            n = it.ev(a[1]) if bounded else None
            rest = [it.ev(x) for x in a[2 if bounded else 1:]]
            if it.dead():
                return UNDEF
            cap = int(v[v.rindex("[") + 1:-1]) if v.endswith("]") and v[v.rindex("[") + 1:-1].isdigit() else None
            if any(x is UNDEF for x in rest):
                x = UNDEF
            else:
                x = mk("call", "format", *rest)
                TYPES[x] = "std::string"
                if cap is not None and (not bounded or isN(n) and not 0 < I(n) <= cap):
                    x = mk("call", "overrun", x)
                    TYPES[x] = "std::string"
            it.store(lv, x)
            r = mk("call", "formatlen", *rest)
            TYPES[r] = "int"
            return r
        if nm in ("abs", "fabs", "labs", "fabsf") and len(a) == 1:
            v = asnum(it.ev(a[0]))
            return absv(v)
        if nm in ("min", "max", "fmin", "fmax") and len(a) == 2:
            x, y = asnum(it.ev(a[0])), asnum(it.ev(a[1]))
            isint = a[0].get("y") in ("i", "u")
            if it.dead() or x is UNDEF or y is UNDEF:
                return UNDEF
            return minmax(nm.lstrip("f") in ("min",) or nm == "fmin", x, y, isint)
        if nm == "pow" and len(a) == 2:
            x, y = asnum(it.ev(a[0])), asnum(it.ev(a[1]))
            if isN(y) and 0 <= I(y) <= 8:
                r = ONE
                for _ in range(I(y)):
                    r = mul(r, x)
                return r
            if isnum(y) and numval(y) * 2 == 1:
                return mathcall("sqrt", [x])
            return mk("call", "pow", x, y)
        if nm in ("move", "forward", "ref", "cref", "addressof", "__addressof") and len(a) == 1:
            if nm == "addressof":
                return it.addr(it.lv(a[0]))
            return it.lv(a[0])
        if nm == "make_pair":
            return struct(UNDEF, {"first": it.ev(a[0]), "second": it.ev(a[1])})
        if nm == "swap" and len(a) == 2:
            l1, l2 = it.lv(a[0]), it.lv(a[1])
            v1, v2 = it.load(l1), it.load(l2)
            it.store(l1, v2)
            it.store(l2, v1)
            return UNDEF
        if nm in ("begin", "end") and len(a) == 1:
            lv = it.lv(a[0])
            return mk("iter", it.addr(lv), ZERO if nm == "begin" else self.size(it.load(lv)))
        if nm == "distance" and len(a) == 2:
            x, y = it.ev(a[0]), it.ev(a[1])
            if x.op == "iter" and y.op == "iter":
                return sub(y.args[1], x.args[1])
            return NotImplemented
        if nm in ("next", "prev") and a:
            x = it.ev(a[0])
            n = it.ev(a[1]) if len(a) > 1 else ONE
            return it.advance(x, n if nm == "next" else t.neg(n))
        if nm == "to_string":
            return mk("tostr", it.ev(a[0]))
        if nm == "getline" and len(a) >= 2:
            lv = it.lv(a[0])
            if it.dead():
                return UNDEF
            from .interp import tstrip
            return self.streamop(e, lv, tstrip(a[0].get("t", "")), nm, a)
        if nm in ("fill", "fill_n") and len(a) == 3:
            x, y = it.ev(a[0]), it.ev(a[1])
            v = it.ev(a[2])
            if x.op == "iter" and y.op == "iter":
                lv = it.deref(x.args[0])
                old = it.load(lv)
                n = self.size(old)
                if x.args[1] is ZERO and y.args[1] is n:
                    it.store(lv, self.filled(n, v))
                    return UNDEF
        if nm == "copy" and len(a) == 3:
            x, y, z = [it.ev(k) for k in a]
            if x.op == y.op == z.op == "iter" and x.args[0] is y.args[0]:
                src = it.load(it.deref(x.args[0]))
                lv = it.deref(z.args[0])
                old = it.load(lv)
                n = sub(y.args[1], x.args[1])
                k0 = z.args[1]
                it.store(lv, mk("scat", old, t.lam(1, lambda i: ite(and_(le(k0, i, True), lt(i, add(k0, n), True)), mk("sel", src, add(x.args[1], sub(i, k0))), mk("sel", old, i)))))
                return mk("iter", z.args[0], add(k0, n))
        if nm in ("accumulate",) and len(a) == 3:
            x, y, z = [it.ev(k) for k in a]
            if x.op == y.op == "iter":
                src = it.load(it.deref(x.args[0]))
                return add(z, mk("sum", sub(y.args[1], x.args[1]), t.lam(1, lambda k: mk("sel", src, add(x.args[1], k)))))
        if nm in ("setprecision", "setw", "setfill"):
            return mk("manip", nm, it.ev(a[0]))
        return NotImplemented

    def strappend(self, s, x):
        return mk("cat", s, x)

    def fmt(self, v, a):
        """text of a value written to a stream"""
        from .interp import isstr, tstrip
        y = a.get("y")
        if v.op in ("str", "cat", "tostr", "substr", "manip", "catall"):
            return v
        if y == "p":
            return v
        if y == "o":
            return mk("tostr", v)
        if a.get("k") == "int" and a.get("ch") and isN(v):
            return string(chr(I(v)))
        if tstrip(a.get("t", "")) == "char":
            return mk("chr", v)
        return mk("tostr", v)

    def obj(self, e):
        it = self.it
        o = e["o"]
        if e.get("a") or o.get("y") == "p":
            return it.deref(it.ev(o))
        return it.lv(o)

    def stdmethod(self, e, f, nm, q):
        from .interp import tstrip, isstr, iscont, ismap, isstream, lastname
        it = self.it
        a = [x for x in e["args"] if not x.get("dflt")]
        ot = tstrip(e.get("ot", ""))
        if ot.endswith("*"):
            ot = tstrip(ot[:-1])
        cls = lastname(f.get("cls", "")) if f.get("cls") else ""
        if cls in ("basic_string", "__cxx11::basic_string") or isstr(ot):
            return self.strmethod(e, f, nm, a)
        if ismap(ot) or cls in ("map", "set", "multimap", "unordered_map"):
            return self.mapmethod(e, f, nm, a, ot)
        if iscont(ot) or cls in ("vector", "list", "deque", "array", "_Vector_base"):
            return self.contmethod(e, f, nm, a, ot)
        if ("stream" in ot or "basic_ios" in ot) and "ostringstream" not in ot and cls != "basic_string":
            lv = self.obj(e)
            if it.dead():
                return UNDEF
            r = self.streamop(e, lv, ot, nm, a)
            if r is not NotImplemented:
                return r
        if "ostringstream" in ot or "basic_stringstream" in ot or "istringstream" in ot:
            lv = self.obj(e)
            if nm == "clear":
                return UNDEF
            if nm == "str":
                if a:
                    it.store(lv, it.ev(a[0]))
                    return UNDEF
                return it.load(lv)
            if nm in ("good", "operator bool"):
                return TRUE
            if nm in ("precision", "setf", "flags", "width", "fill"):
                return ZERO
        if nm in ("lock", "unlock") and "mutex" in ot.lower():
            return UNDEF
        if nm == "operator bool" and ("_Bit_reference" in ot or cls == "_Bit_reference"):
            return truth(it.ev(e["o"]))
        if nm == "flip" and cls == "_Bit_reference":
            lv = self.obj(e)
            it.store(lv, not_(truth(it.load(lv))))
            return lv
        if "fpos" in ot and nm.startswith("operator ") and not a:
            return it.load(self.obj(e))
        if nm == "operator bool" and ("stream" in ot or "basic_ios" in ot):
            lv = self.obj(e)
            return not_(truth(mk("mres", "fail", it.load(lv))))
        if nm in ("fail", "bad", "eof", "good", "gcount", "is_open", "rdbuf") and ("stream" in ot or "basic_ios" in ot):
            lv = self.obj(e)
            v = it.load(lv)
            it.unmodelled.add(nm)
            r = mk("mres", "fail" if nm == "bad" else nm, v)
            if nm == "gcount":
                TYPES[r] = "int"
                return r
            return truth(r)
        if ot.startswith("Eigen::"):
            return self.eigen(e, f, nm, q)
        return NotImplemented

    # ------------------------------------------------------- input streams
    # a stream made by the function is {text, pos, eof, fail}; one it is given
    # stays uninterpreted
    def instream(self, v, ot):
        """the stream as a structure, or None"""
        if v.op == "struct":
            return v
        if ("istringstream" in ot or "basic_stringstream" in ot) and (v.op in ("str", "cat", "substr", "catall", "tostr", "ite", "sym", "fld", "sel", "proj", "call", "rd", "keyat", "chr") and v is not UNDEF):
            if v.op in ("proj", "ite", "sym") and "stream" in (TYPES.get(v) or ""):
                return None
            return struct(UNDEF, {"text": v, "pos": ZERO, "eof": FALSE, "fail": FALSE})
        return None

    def openfile(self, name, mode):
        x = mk("call", "filetext", name)
        TYPES[x] = "stream text"
        ok = mk("call", "fileok", name, b=True)
        pos = ZERO
        m = I(mode) if mode is not None and isN(mode) else None if mode is not None else 8
        if m is None:
            raise self.uns("file mode")
        if m & 2:
            pos = self.size(x)
        return struct(UNDEF, {"text": x, "pos": pos, "eof": FALSE, "fail": not_(ok), "open": ok})

    def ss(self, lv, v, **kw):
        d = {k: mk("fld", v, k) for k in ("text", "pos", "eof", "fail")}
        d["eof"], d["fail"] = truth(d["eof"]), truth(d["fail"])
        old = dict(d)
        for k, (c, x) in kw.items():
            d[k] = ite(c, x, d[k])
        w = v
        for k in d:
            if d[k] is not old[k]:
                w = self.it.setp(w, (k,), d[k])
        self.it.store(lv, w)

    def streamop(self, e, lv, ot, nm, a):
        """operation on a modelled input stream"""
        it = self.it
        v0 = it.load(lv)
        v = self.instream(v0, ot)
        if v is None:
            if "fstream" in ot and nm == "open" and a:
                it.store(lv, self.openfile(it.ev(a[0]), it.ev(a[1]) if len(a) > 1 else None))
                return UNDEF
            return NotImplemented
        text, pos = mk("fld", v, "text"), mk("fld", v, "pos")
        eof, fail = truth(mk("fld", v, "eof")), truth(mk("fld", v, "fail"))
        good = not_(or_(eof, fail))
        n = self.size(text)
        if nm in ("operator bool", "fail"):
            return not_(fail) if nm != "fail" else fail
        if nm == "!":
            return fail
        if nm in ("eof", "good", "bad"):
            return {"eof": eof, "good": good, "bad": FALSE}[nm]
        if nm in ("sync", "imbue", "precision", "flags", "setf", "exceptions"):
            return ZERO
        if nm == "is_open":
            return truth(mk("fld", v, "open"))
        if nm == "close":
            it.store(lv, it.setp(v, ("open",), FALSE))
            return UNDEF
        if nm == "open" and a:
            it.store(lv, self.openfile(it.ev(a[0]), it.ev(a[1]) if len(a) > 1 else None))
            return UNDEF
        if nm == "clear":
            self.ss(lv, v, eof=(TRUE, FALSE), fail=(TRUE, FALSE))
            return UNDEF
        if nm == "str":
            if not a:
                return text
            self.ss(lv, v, text=(TRUE, it.ev(a[0])), pos=(TRUE, ZERO))
            return UNDEF
        if nm in ("seekg", "pubseekpos") and len(a) in (1, 2):
            p = it.ev(a[0])
            if len(a) == 2:
                w = it.ev(a[1])
                if not isN(w):
                    raise self.uns("seek direction")
                p = add((ZERO, pos, n)[I(w)], p)
            if it.dead():
                return UNDEF
            bad = lt(p, ZERO, True)
            self.ss(lv, v, eof=(TRUE, FALSE), pos=(not_(or_(fail, bad)), p), fail=(bad, TRUE))
            return lv
        if nm == "tellg":
            self.ss(lv, v, fail=(eof, TRUE))
            return ite(or_(eof, fail), num(-1), pos)
        if nm == "getline" and e["k"] == "call":
            dl = it.ev(a[2]) if len(a) > 2 else num(10)
            dst = it.lv(a[1])
            if it.dead():
                return UNDEF
            k = mk("call", "str.find", text, dl, pos)
            TYPES[k] = "int"
            none = lt(k, ZERO, True)
            end = le(n, pos, True)
            line = ite(end, string(""), ite(none, mk("substr", text, pos, sub(n, pos)), mk("substr", text, pos, sub(k, pos))))
            it.store(dst, ite(good, line, it.load(dst)))
            self.ss(lv, v, pos=(good, ite(end, pos, ite(none, n, add(k, ONE)))), eof=(and_(good, or_(end, none)), TRUE), fail=(or_(not_(good), end), TRUE))
            return lv
        if nm == "getline" and len(a) in (2, 3):
            # at most size-1 characters into a buffer
            dl = it.ev(a[2]) if len(a) > 2 else num(10)
            sz = it.ev(a[1])
            dst = it.lv(a[0]) if (a[0].get("t") or "").endswith("]") else it.deref(it.ev(a[0]))
            if it.dead():
                return UNDEF
            k = mk("call", "str.find", text, dl, pos)
            TYPES[k] = "int"
            room = sub(sz, ONE)
            end = le(n, pos, True)
            none = lt(k, ZERO, True)
            avail = ite(none, sub(n, pos), sub(k, pos))
            full = lt(room, avail, True)
            exact = and_(none, eq(avail, room))
            take = ite(end, ZERO, ite(full, room, avail))
            it.store(dst, ite(good, mk("substr", text, pos, take), string("")))
            self.ss(lv, v, pos=(good, ite(end, pos, ite(full, add(pos, room), ite(none, n, add(k, ONE))))),
                    eof=(and_(good, or_(end, and_(none, not_(full)))), TRUE), fail=(or_(not_(good), or_(end, full)), TRUE))
            it.store(it.ext(lv, "gcount"), ite(good, ite(end, ZERO, ite(full, room, ite(none, avail, add(avail, ONE)))), ZERO))
            return lv
        if nm == "gcount":
            return mk("fld", v, "gcount")
        if nm in ("get", "peek") and len(a) <= 1:
            end = le(n, pos, True)
            ch = mk("sel", text, pos)
            ok = and_(good, not_(end))
            if a:
                dst = it.lv(a[0])
                it.store(dst, ite(ok, ch, it.load(dst)))
            self.ss(lv, v, pos=(ok, add(pos, ONE) if nm == "get" else pos), eof=(and_(good, end), TRUE), fail=(or_(not_(good), end) if nm == "get" else not_(good), TRUE))
            return lv if a else ite(ok, ch, num(-1))
        if nm == "ignore" and len(a) <= 2:
            cnt = it.ev(a[0]) if a else ONE
            dl = it.ev(a[1]) if len(a) > 1 else num(-1)
            if isN(dl) and I(dl) < 0:
                k = num(-1)
            else:
                k = mk("call", "str.find", text, dl, pos)
                TYPES[k] = "int"
            avail = ite(lt(k, ZERO, True), sub(n, pos), add(sub(k, pos), ONE))
            take = ite(lt(cnt, avail, True), cnt, avail)
            self.ss(lv, v, pos=(good, add(pos, take)), eof=(and_(good, and_(lt(k, ZERO, True), lt(avail, cnt, True))), TRUE), fail=(not_(good), TRUE))
            return lv
        if nm in ("unget", "putback"):
            ok = and_(not_(fail), lt(ZERO, pos, True))
            self.ss(lv, v, pos=(ok, sub(pos, ONE)), eof=(TRUE, FALSE), fail=(not_(ok), TRUE))
            return lv
        if nm == "<<":
            self.ss(lv, v, text=(TRUE, mk("cat", text, a)))
            return lv
        if nm == ">>":
            from .interp import tstrip, isstr, NUMT
            ty = tstrip(a.get("t", ""))
            kind = "str" if isstr(ty) else "char" if ty == "char" else "real" if ty in ("double", "float", "long double") else "uint" if ty.startswith("unsigned") else "bool" if ty == "bool" else "int" if ty in NUMT else None
            if kind is None:
                return NotImplemented
            dst = it.lv(a)
            r = [mk("call", "scan." + w, string(kind), text, pos, b=w in ("any", "ok", "eof")) for w in ("val", "pos", "any", "ok", "eof")]
            TYPES[r[0]] = ty
            TYPES[r[1]] = "int"
            val = it.typed(r[0], ty) if kind != "str" else r[0]
            got = and_(good, r[2])
            it.store(dst, ite(got, val, it.load(dst)))
            self.ss(lv, v, pos=(good, r[1]), eof=(and_(good, r[4]), TRUE), fail=(or_(not_(good), not_(r[3])), TRUE))
            return lv
        return NotImplemented

    def uns(self, m):
        from .interp import Unsupported
        return Unsupported(m)

    def strmethod(self, e, f, nm, a):
        it = self.it
        lv = self.obj(e)
        if it.dead():
            return UNDEF
        v = it.load(lv)
        if nm in ("size", "length"):
            return self.size(v)
        if nm == "empty":
            return eq(self.size(v), ZERO)
        if nm in ("c_str", "data"):
            return v
        if nm in ("operator[]", "at"):
            return it.ext(lv, ("i", it.ev(a[0])))
        if nm == "back":
            return it.ext(lv, ("i", sub(self.size(v), ONE)))
        if nm == "front":
            return it.ext(lv, ("i", ZERO))
        if nm in ("append", "operator+=") and len(a) == 1:
            x = it.ev(a[0])
            if a[0].get("y") in ("i", "u"):
                x = mk("chr", x)
            it.store(lv, mk("cat", v, x))
            return lv
        if nm == "append" and len(a) == 2 and a[0].get("y") in ("i", "u"):
            it.store(lv, mk("cat", v, mk("strfill", it.ev(a[0]), it.ev(a[1]))))
            return lv
        if nm == "push_back":
            it.store(lv, mk("cat", v, mk("chr", it.ev(a[0]))))
            return UNDEF
        if nm == "clear":
            it.store(lv, string(""))
            return UNDEF
        if nm == "assign" and len(a) == 1 or nm == "operator=":
            it.store(lv, it.ev(a[0]))
            return lv
        if nm == "substr":
            i = it.ev(a[0]) if a else ZERO
            n = it.ev(a[1]) if len(a) > 1 else sub(self.size(v), i)
            return mk("substr", v, i, n)
        if nm in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "compare", "find_last_not_of"):
            vs = [it.ev(x) for x in a]
            r = mk("call", "str." + nm, v, *vs)
            TYPES[r] = "int"
            return r
        if nm in ("begin", "end", "cbegin", "cend"):
            return mk("iter", it.addr(lv), ZERO if "begin" in nm else self.size(v))
        return NotImplemented

    def contmethod(self, e, f, nm, a, ot):
        it = self.it
        lv = self.obj(e)
        if it.dead():
            return UNDEF
        v = it.typed(it.load(lv), ot)
        if nm in ("size", "capacity", "max_size"):
            return self.size(v)
        if nm == "empty":
            return eq(self.size(v), ZERO)
        if nm in ("begin", "cbegin"):
            return mk("iter", it.addr(lv), ZERO)
        if nm in ("end", "cend"):
            return mk("iter", it.addr(lv), self.size(v))
        if nm == "front":
            return it.ext(lv, ("i", ZERO))
        if nm == "back":
            return it.ext(lv, ("i", sub(self.size(v), ONE)))
        if nm == "operator[]":
            return it.ext(lv, ("i", it.ev(a[0])))
        if nm == "at":
            i = it.ev(a[0])
            it.throw_unless(and_(le(ZERO, i, True), lt(i, self.size(v), True)), "out_of_range")
            return it.ext(lv, ("i", i)) if not it.dead() else UNDEF
        if nm == "flip" and not a:
            it.store(lv, mk("arr1", self.size(v), t.lam(1, lambda i: not_(truth(mk("sel", v, i))))))
            return UNDEF
        if nm in ("push_back", "emplace_back", "push_front"):
            x = it.ev(a[0])
            if it.dead():
                return UNDEF
            n = self.size(v)
            if nm == "push_front":
                self.moveiters(lv, lambda j: add(j, ONE))
            elif "list<" in ot:
                self.moveiters(lv, lambda j: gate(eq(j, n), add(j, ONE), j))
            it.store(lv, mk("push_back" if nm != "push_front" else "push_front", v, x))
            return UNDEF
        if nm in ("pop_back", "pop_front"):
            if nm == "pop_front":
                self.moveiters(lv, lambda j: sub(j, ONE))
            it.store(lv, mk(nm, v))
            return UNDEF
        if nm == "clear":
            it.store(lv, mk("empty"))
            return UNDEF
        if nm in ("reserve", "shrink_to_fit"):
            return UNDEF
        if nm == "resize":
            n = it.ev(a[0])
            x = it.ev(a[1]) if len(a) > 1 else it.zeroval(self.elemtype(ot))
            if x is UNDEF and self.elemtype(ot) in it.P.records:
                x = it.defaultctor(self.elemtype(ot))
            it.store(lv, mk("vresize", v, n, x))
            return UNDEF
        if nm == "assign" and len(a) == 2:
            x, y = it.ev(a[0]), it.ev(a[1])
            if x.op != "iter":
                it.store(lv, self.filled(x, y))
                return UNDEF
        if nm == "erase" and len(a) == 1:
            p = self.asiter(it.ev(a[0]))
            if p.op == "iter":
                i = p.args[1]
                if "list<" in ot:
                    # other iterators keep designating their element
                    bad = mk("call", "invalid iterator", i)
                    self.moveiters(lv, lambda j: gate(lt(i, j, True), sub(j, ONE), gate(eq(i, j), bad, j)))
                it.store(lv, mk("erase1", v, i))
                return p
        if nm == "splice" and len(a) == 3 and "list<" in ot:
            # one element moves within the list
            l2 = self.obj_arg(a[1])
            p, q = self.asiter(it.ev(a[0])), self.asiter(it.ev(a[2]))
            if p.op == q.op == "iter" and it.addr(l2) is it.addr(lv) and p.args[0] is q.args[0]:
                i, j = p.args[1], q.args[1]
                x = it.load(it.ext(lv, ("i", j)))
                to = gate(lt(j, i, True), sub(i, ONE), i)
                self.moveiters(lv, lambda m: gate(eq(m, j), to, add(gate(lt(j, m, True), sub(m, ONE), m), asnum(le(to, gate(lt(j, m, True), sub(m, ONE), m), True)))))
                it.store(lv, mk("insert1", mk("erase1", v, j), to, x))
                return UNDEF
        if nm == "insert" and len(a) == 2:
            p, x = self.asiter(it.ev(a[0])), it.ev(a[1])
            if p.op == "iter":
                i = p.args[1]
                if "list<" in ot:
                    self.moveiters(lv, lambda j: gate(le(i, j, True), add(j, ONE), j))
                if p.args[1] is self.size(v):
                    it.store(lv, mk("push_back", v, x))
                else:
                    it.store(lv, mk("insert1", v, p.args[1], x))
                return p
        if nm == "swap":
            l2 = it.lv(a[0])
            w = it.load(l2)
            it.store(lv, w)
            it.store(l2, v)
            return UNDEF
        return NotImplemented

    def obj_arg(self, e):
        return self.it.lv(e)

    def asiter(self, v):
        """a choice between positions of one container is one position"""
        if v.op == "ite":
            x, y = self.asiter(v.args[1]), self.asiter(v.args[2])
            if v.args[0].b:
                c = self.it.under(v.args[0])
                if c is TRUE:
                    return x
                if c is FALSE:
                    return y
            if x.op == y.op == "iter" and x.args[0] is y.args[0]:
                return mk("iter", x.args[0], gate(v.args[0], x.args[1], y.args[1]))
        return v

    def moveiters(self, lv, f):
        """every live position in the container lv becomes f(position)"""
        it = self.it
        ad = it.addr(lv)
        for r, x in list(it.mem.items()):
            if x.op not in ("iter", "ite", "struct"):
                continue
            hit = {y for y in t.subterms(x) if y.op == "iter" and y.args[0] is ad}
            if hit:
                it.mem[r] = t.subst(x, {y: mk("iter", ad, f(y.args[1])) for y in hit})

    def mapmethod(self, e, f, nm, a, ot):
        it = self.it
        lv = self.obj(e)
        if it.dead():
            return UNDEF
        v = it.typed(it.load(lv), ot)
        if v.op == "sym" and v not in TYPES or v.op in ("fld", "deref") and v not in TYPES:
            TYPES[v] = ot
        ad = it.addr(lv)
        if nm == "size":
            return self.size(v)
        if nm == "empty":
            return eq(self.size(v), ZERO)
        if nm in ("begin", "cbegin"):
            return mk("iter", ad, ZERO)
        if nm in ("end", "cend"):
            return mk("iter", ad, self.size(v))
        if nm == "clear":
            it.store(lv, mk("empty"))
            return UNDEF
        if nm == "find":
            return mk("find", ad, it.ev(a[0]), v)
        if nm == "count":
            return asnum(mk("has", v, it.ev(a[0]), b=True))
        if nm == "at":
            k = it.ev(a[0])
            h = mk("has", v, k, b=True)
            it.throw_unless(h, "out_of_range")
            return it.ext(lv, ("i", k)) if not it.dead() else UNDEF
        if nm == "operator[]":
            k = it.ev(a[0])
            return self.mapindex(lv, v, k, e.get("t", ""))
        if nm == "insert" and len(a) == 1:
            p = it.ev(a[0])
            k, x = mk("fld", p, "first"), mk("fld", p, "second")
            h = mk("has", v, k, b=True)
            it.store(lv, gate(h, v, mk("store", v, k, x)))
            return struct(UNDEF, {"first": mk("find", ad, k, mk("store", v, k, x)), "second": not_(h)})
        if nm == "erase" and len(a) == 1:
            p = it.ev(a[0])
            k = p.args[1] if p.op == "find" else (mk("keyat", v, p.args[1]) if p.op == "iter" else p)
            h = mk("has", v, k, b=True)
            it.store(lv, mk("erasek", v, k))
            return asnum(h)
        return NotImplemented

    def mapindex(self, lv, v, k, vt):
        it = self.it
        h = mk("has", v, k, b=True)
        if h is not TRUE and it.under(h) is not TRUE:
            z = it.zeroval(vt)
            it.store(lv, gate(h, v, mk("store", v, k, z)))
        return it.ext(lv, ("i", k))

    def stdop(self, e, f, nm, q):
        from .interp import tstrip, isstr, iscont, ismap, lastname
        it = self.it
        op = e["op"]
        a = e["args"]
        cls = lastname(f.get("cls", "")) if f.get("cls") else ""
        it0 = cls in ("__normal_iterator", "_List_iterator", "_List_const_iterator", "_Rb_tree_iterator", "_Rb_tree_const_iterator", "_Deque_iterator", "_Bit_iterator", "_Bit_const_iterator", "_Bit_iterator_base")
        if cls in ("map", "unordered_map") and op == "[]":
            lv = it.lv(a[0])
            ot = None
            v = it.load(lv)
            return self.mapindex(lv, v, it.ev(a[1]), e.get("t", ""))
        if cls in ("vector", "deque", "array") and op == "[]":
            lv = it.lv(a[0])
            return it.ext(lv, ("i", it.ev(a[1])))
        if cls == "basic_string" and op == "[]":
            return it.ext(it.lv(a[0]), ("i", it.ev(a[1])))
        if cls in ("vector", "deque", "list", "map", "set", "basic_string", "pair", "array", "function") and op == "=":
            lv = it.lv(a[0])
            v = it.ev(a[1])
            if not it.dead():
                it.store(lv, v)
            return lv
        if op == "+=" and cls == "basic_string":
            lv = it.lv(a[0])
            x = it.ev(a[1])
            if a[1].get("y") in ("i", "u"):
                x = string(chr(I(x))) if isN(x) else mk("chr", x)
            it.store(lv, mk("cat", it.load(lv), x))
            return lv
        if it0 or op in ("->",) or (len(a) == 1 and op == "*"):
            if op in ("*", "->"):
                v = it.ev(a[0])
                if v.op == "ite":
                    lf = [y for _, y in t.paths(v, 64)]
                    if all(y.op == "find" and y.args[:2] == lf[0].args[:2] for y in lf):
                        v = lf[0]
                if v.op in ("iter", "find"):
                    cont = it.load(it.deref(v.args[0]))
                    lv = it.deref(v)
                    if self.ismapval(cont) or v.op == "find":
                        key = mk("keyat", cont, v.args[1]) if v.op == "iter" else v.args[1]
                        r = ("mp", it.addr(lv).id)
                        # pair<const K, V>&: first is a value, second the location
                        return PairRef(it, key, lv) if op == "*" else self.pairptr(key, lv)
                    return it.addr(lv) if op == "->" else lv
                return it.deref(v) if op == "*" else v
            if op in ("++", "--"):
                lv = it.lv(a[0])
                old = it.load(lv)
                new = it.advance(old, ONE if op == "++" else num(-1))
                it.store(lv, new)
                return old if len(a) == 2 else lv
            if op in ("+", "-") and len(a) == 2:
                x, y = it.ev(a[0]), it.ev(a[1])
                if op == "-" and y.op == "iter":
                    return sub(x.args[1], y.args[1])
                return it.advance(x, y if op == "+" else t.neg(y))
            if op in ("+=", "-="):
                lv = it.lv(a[0])
                y = it.ev(a[1])
                it.store(lv, it.advance(it.load(lv), y if op == "+=" else t.neg(y)))
                return lv
            if op == "=":
                lv = it.lv(a[0])
                it.store(lv, it.ev(a[1]))
                return lv
            if op == "[]":
                return it.deref(it.advance(it.ev(a[0]), it.ev(a[1])))
        if op in ("==", "!="):
            x, y = it.ev(a[0]), it.ev(a[1])
            if it.dead():
                return UNDEF
            x, y = self.asiter(x), self.asiter(y)
            if x.op in ("iter", "find") and y.op in ("iter", "find"):
                r = t._iter_eq(x, y)
                if r is None:
                    r = eq(x, y)
            else:
                r = eqv(x, y)
            return r if op == "==" else not_(r)
        if op in ("<", ">", "<=", ">=") and len(a) == 2:
            x, y = it.ev(a[0]), it.ev(a[1])
            if x.op == "iter" and y.op == "iter":
                return it.binop(op, x.args[1], y.args[1], a[0], a[1], True)
            if "basic_string" in q or True:
                l = mk("strlt", x, y, b=True) if op in ("<", ">=") else mk("strlt", y, x, b=True)
                return l if op in ("<", ">") else not_(l)
        if op == "+" and len(a) == 2 and (isstr(e.get("t", ""))):
            x, y = it.ev(a[0]), it.ev(a[1])
            if a[0].get("y") in ("i", "u"):
                x = mk("chr", x)
            if a[1].get("y") in ("i", "u"):
                y = mk("chr", y)
            return mk("cat", x, y)
        if op == "<<" and len(a) == 2:
            # textual output to a stream object
            lv = it.lv(a[0])
            if a[1].get("k") == "fn":
                n = a[1]["f"]["q"].split("::")[-1]
                x = string("\n") if n == "endl" else (mk("manip", n) if n != "flush" else string(""))
            else:
                v = it.ev(a[1])
                if it.dead():
                    return UNDEF
                x = self.fmt(v, a[1])
            if it.load(lv).op == "struct":
                return self.streamop(e, lv, "", "<<", x)
            it.store(lv, mk("cat", it.load(lv), x))
            return lv
        if op == ">>" and len(a) == 2:
            lv = it.lv(a[0])
            s = it.load(lv)
            if it.dead():
                return UNDEF
            r = self.streamop(e, lv, tstrip(a[0].get("t", "")), ">>", a[1])
            if r is not NotImplemented:
                return r
            dst = it.lv(a[1])
            ty = tstrip(a[1].get("t", ""))
            it.unmodelled.add(">>")
            r = mk("out", ONE, ">>", s)
            if ty:
                r = it.typed(r, ty)
            it.store(dst, r)
            it.store(lv, mk("mst", ">>", s, string(ty)))
            return lv
        if op == "!" and len(a) == 1:
            v = it.ev(a[0])
            if v.op == "struct":
                return truth(mk("fld", v, "fail"))
            return truth(mk("mres", "fail", v))
        if op == "()" :
            v = it.ev(a[0])
            if v.op == "lambda":
                return it.call_lambda(v, a[1:])
        if op == "=" and len(a) == 2 and not f.get("r"):
            lv = it.lv(a[0])
            v = it.ev(a[1])
            if not it.dead():
                it.store(lv, v)
            return lv
        return NotImplemented

    def pairptr(self, key, lv):
        """pointer to a map element: structure with first (a value) and second (a reference)"""
        it = self.it
        root = ("mp", next(it.cnt))
        it.mp = getattr(it, "mp", {})
        it.mp[root] = (key, lv)
        return t._intern("mapelem", (root[1],))

    # -------------------------------------------------------- dynamic-graph
    def dg(self, e, f, nm, q):
        from .interp import _targs, tstrip
        it = self.it
        a = [x for x in e["args"] if not x.get("dflt")]
        cls = strip_targs(f.get("cls", "")).split("::")[-1]
        if not cls.startswith("Signal"):
            return NotImplemented
        if e["k"] == "mcall":
            lv = self.obj(e)
        elif e["k"] == "ocall":
            lv = it.lv(a[0])
            a = a[1:]
        else:
            return NotImplemented
        if it.dead():
            return UNDEF
        sg = it.load(lv)
        name = sg
        if nm in ("access", "operator()", "accessCopy", "accessRef") and len(a) >= 1:
            time = it.ev(a[0])
            r = mk("rd", name, time)
            ty = tstrip(e.get("t", ""))
            root = ("S", it.typed(r, ty) if ty else r)
            if nm == "operator()" or nm == "access":
                it.mem[("A", sg)] = time
            return it.loc(root)
        if nm == "accessCopy" and not a:
            # the value at the time of the last access
            r = mk("rd", name, it.rootval(("A", sg)))
            ty = tstrip(e.get("t", ""))
            return it.loc(("S", it.typed(r, ty) if ty else r))
        if nm in ("setConstant", "setTime") and len(a) == 1:
            v = it.ev(a[0])
            if it.dead():
                return UNDEF
            it.store(it.ext(lv, "#" + nm[3:].lower()), v)
            return UNDEF
        if nm == "getTime" and not a:
            return it.load(it.ext(lv, "#time"))
        if nm == "recompute":
            it.emit("recompute", name, *[it.ev(x) for x in a])
            return UNDEF
        if nm == "isPlugged":
            return truth(mk("plugged", name))
        if nm in ("addDependency", "removeDependency") and len(a) == 1 or nm == "setReady" and not a:
            # the declared dependencies form a set; the order of declaration is immaterial
            y = it.addr(it.lv(a[0])) if a else NULL
            if it.dead():
                return UNDEF
            v = mk("dep", nm, sg, y)
            if sg in TYPES:
                TYPES[v] = TYPES[sg]
            it.store(lv, v)
            return UNDEF
        return NotImplemented

    # ----------------------------------------------------------------- Eigen
    def eigen(self, e, f, nm, q):
        from .interp import eigen_dims, tstrip
        it = self.it
        if e["k"] == "ocall":
            return self.eigen_op(e, f, nm, q)
        a = [x for x in e["args"] if not x.get("dflt")]
        ta = [int(x) for x in f.get("ta", []) if x.lstrip("-").isdigit()]
        if e["k"] == "call":
            return self.eigen_static(e, f, nm, q, a)
        lv = self.obj(e)
        if it.dead():
            return UNDEF
        v = it.load(lv)
        ot = tstrip(e.get("ot", ""))

        def A(i):
            return asnum(it.ev(a[i]))
        if nm in ("size",):
            return self.size(v)
        if nm == "rows":
            return self.rows(v)
        if nm == "cols":
            return self.cols(v)
        if nm in ("derived", "noalias", "eval", "array", "matrix", "const_cast_derived", "finished", "real", "nestedExpression"):
            return lv
        if nm in ("coeffs",):
            return lv
        if nm in ("operator()", "operator[]", "coeff", "coeffRef"):
            ix = [A(i) for i in range(len(a))]
            return it.ext(lv, ("i", t.ix(*ix)))
        if nm in ("x", "y", "z", "w") and not a:
            return it.ext(lv, ("i", num("xyzw".index(nm))))
        n = num(ta[0]) if ta and not (len(a) > (0 if nm in ("head", "tail") else 1)) else None
        if nm == "head":
            n = A(0) if a else num(ta[0])
            return it.ext(lv, ("blk", ZERO, ZERO, n, ONE))
        if nm == "tail":
            n = A(0) if a else num(ta[0])
            return it.ext(lv, ("blk", sub(self.size(v), n), ZERO, n, ONE))
        if nm == "segment":
            i0 = A(0)
            n = A(1) if len(a) > 1 else num(ta[0])
            return it.ext(lv, ("blk", i0, ZERO, n, ONE))
        if nm == "col":
            return it.ext(lv, ("blk", ZERO, A(0), self.rows(v), ONE))
        if nm == "row":
            return it.ext(lv, ("blk", A(0), ZERO, ONE, self.cols(v)))
        if nm == "block":
            i0, j0 = A(0), A(1)
            nr, nc = (A(2), A(3)) if len(a) >= 4 else (num(ta[0]), num(ta[1]))
            return it.ext(lv, ("blk", i0, j0, nr, nc))
        if nm in ("topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols"):
            r, c = self.shape(v)
            if nm.startswith("middle"):
                s0 = A(0)
                n = A(1) if len(a) > 1 else num(ta[0])
                return it.ext(lv, ("blk", s0, ZERO, n, c) if nm == "middleRows" else ("blk", ZERO, s0, r, n))
            n = A(0) if a else num(ta[0])
            return it.ext(lv, {"topRows": ("blk", ZERO, ZERO, n, c), "bottomRows": ("blk", sub(r, n), ZERO, n, c),
                               "leftCols": ("blk", ZERO, ZERO, r, n), "rightCols": ("blk", ZERO, sub(c, n), r, n)}[nm])
        if nm in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
            r, c = self.shape(v)
            nr, nc = (A(0), A(1)) if len(a) >= 2 else (num(ta[0]), num(ta[1]))
            return it.ext(lv, ("blk", ZERO if "top" in nm else sub(r, nr), ZERO if "Left" in nm else sub(c, nc), nr, nc))
        if nm == "transpose":
            return it.ext(lv, ("T",))
        if nm == "adjoint":
            return it.ext(lv, ("T",))
        if nm == "reverse":
            return it.ext(lv, ("rev",))
        if nm == "diagonal":
            return it.ext(lv, ("diag",))
        if nm == "asDiagonal":
            n = self.size(v)
            return self.comp2(n, n, lambda i, j: ite(eq(i, j), t.elt(v, i, ZERO), ZERO))
        if nm == "sum":
            return self.sumof(v)
        if nm == "trace":
            return self.sumof(self.diagonal(v))
        if nm == "mean":
            return div(self.sumof(v), self.size(v))
        if nm == "squaredNorm":
            return self.sumof(v, lambda x: mul(x, x))
        if nm in ("norm", "stableNorm"):
            return mathcall("sqrt", [self.sumof(v, lambda x: mul(x, x))])
        if nm == "dot":
            w = it.ev(a[0])
            return self.sumof(self.ew(mul, v, w))
        if nm == "cross":
            w = it.ev(a[0])
            x = [t.elt(v, num(i), ZERO) for i in range(3)]
            y = [t.elt(w, num(i), ZERO) for i in range(3)]
            return mk("mat", num(3), ONE, *[sub(mul(x[(i + 1) % 3], y[(i + 2) % 3]), mul(x[(i + 2) % 3], y[(i + 1) % 3])) for i in range(3)])
        if nm in ("normalized", "normalize"):
            s = mathcall("sqrt", [self.sumof(v, lambda x: mul(x, x))])
            w = self.ew(lambda x: div(x, s), v)
            if nm == "normalized":
                return w
            it.store(lv, w)
            return UNDEF
        if nm in ("setZero", "setOnes", "setConstant", "fill", "setIdentity"):
            r, c = self.shape(v)
            rest = a
            if nm in ("setZero", "setOnes", "setIdentity") and a:
                if len(a) == 1:
                    r = A(0)
                else:
                    r, c = A(0), A(1)
            dm = eigen_dims(ot)
            if dm and dm[1] == 1:
                c = ONE
            x = ZERO if nm == "setZero" else ONE
            if nm in ("setConstant", "fill"):
                x = A(len(a) - 1)
                if len(a) == 2:
                    r = A(0)
            if nm == "setIdentity":
                if ot.startswith("Eigen::Quaternion"):
                    it.store(lv, mk("mat", num(4), ONE, ZERO, ZERO, ZERO, ONE))
                    return lv
                w = self.comp2(r, c, lambda i, j: ite(eq(i, j), ONE, ZERO))
            else:
                w = self.comp(r, c, lambda i, j: x)
            it.store(lv, w)
            return lv
        if nm in ("resize", "conservativeResize", "resizeLike"):
            d = eigen_dims(ot) or (None, None)
            nochg = [self.isnochange(x) for x in a]
            if nm == "resizeLike":
                w = it.ev(a[0])
                dims = [self.rows(w), self.cols(w)]
            else:
                dims = []
                for i, x in enumerate(a):
                    dims.append((self.rows(v), self.cols(v))[i] if nochg[i] else A(i))
            if d[1] == 1 or len(dims) == 1:
                dims = dims[:1]
                if d[0] is not None:
                    return UNDEF
            if nm == "conservativeResize":
                r, c = self.shape(v)
                w = self.comp(dims[0], dims[1] if len(dims) > 1 else ONE,
                              lambda i, j: gate(and_(lt(i, r, True), lt(j, c, True)), t.elt(v, i, j), UNDEF))
            elif len(dims) == 1:
                w = v if self.size(v) is dims[0] else mk("resize", v, dims[0])
            else:
                w = v if self.rows(v) is dims[0] and self.cols(v) is dims[1] else mk("resize", v, *dims)
            it.store(lv, w)
            return UNDEF
        if nm.startswith("operator const ") and not a and self.rows(v) is ONE and self.cols(v) is ONE:
            return t.elt(v, ZERO, ZERO)     # a 1x1 product is a scalar
        if nm == "inverse":
            if ot.startswith("Eigen::Quaternion") or "QuaternionBase" in q:
                n2 = self.sumof(v, lambda x: mul(x, x))
                x = [t.elt(v, num(i), ZERO) for i in range(4)]
                return mk("mat", num(4), ONE, *[div(t.neg(x[0]), n2), div(t.neg(x[1]), n2), div(t.neg(x[2]), n2), div(x[3], n2)])
            if ot.startswith("Eigen::Transform<"):
                R = self.block(v, ZERO, ZERO, num(3), num(3))
                p = self.block(v, ZERO, num(3), num(3), ONE)
                Ri = self.minv(R)
                tr = self.matmul(Ri, p)
                return mk("mat", num(4), num(4), *[(t.elt(Ri, num(i), num(j)) if i < 3 and j < 3 else (t.neg(t.elt(tr, num(i), ZERO)) if i < 3 else (ONE if j == 3 else ZERO))) for i in range(4) for j in range(4)])
            return self.minv(v)
        if nm == "conjugate":
            x = [t.elt(v, num(i), ZERO) for i in range(4)]
            return mk("mat", num(4), ONE, t.neg(x[0]), t.neg(x[1]), t.neg(x[2]), x[3])
        if nm in ("linear",):
            return it.ext(lv, ("blk", ZERO, ZERO, num(3), num(3)))
        if nm == "rotation" and ot.startswith("Eigen::Transform<"):
            return it.ext(lv, ("blk", ZERO, ZERO, num(3), num(3)))
        if nm == "translation" and ot.startswith("Eigen::Transform<"):
            return it.ext(lv, ("blk", ZERO, num(3), num(3), ONE))
        if nm in ("toRotationMatrix", "matrix"):
            if v.op == "struct":
                return self.aa_matrix(v)
            return self.quat_matrix(v)
        if nm in ("angle", "axis"):
            return it.ext(lv, nm)
        if nm == "vec":
            return it.ext(lv, ("blk", ZERO, ZERO, num(3), ONE))
        if nm in ("cwiseAbs", "abs"):
            return self.ew(absv, v)
        if nm in ("cwiseSqrt", "sqrt"):
            return self.ew(lambda x: mathcall("sqrt", [x]), v)
        if nm in ("square", "cwiseAbs2", "abs2"):
            return self.ew(lambda x: mul(x, x), v)
        if nm in ("exp", "log", "sin", "cos"):
            return self.ew(lambda x: mathcall(nm, [x]), v)
        if nm in ("cwiseInverse",) or nm == "inverse" and "Array" in ot:
            return self.ew(lambda x: div(ONE, x), v)
        if nm in ("cwiseProduct", "cwiseQuotient", "cwiseMin", "cwiseMax", "min", "max"):
            w = it.ev(a[0])
            g = {"cwiseProduct": mul, "cwiseQuotient": div, "cwiseMin": lambda x, y: minmax(True, x, y), "cwiseMax": lambda x, y: minmax(False, x, y)}[nm if nm.startswith("cwise") else "cwise" + nm.capitalize()]
            if a[0].get("y") in ("f", "i", "u"):
                return self.ew(lambda x: g(x, w), v)
            return self.ew(g, v, w)
        if nm in ("maxCoeff", "minCoeff") and not a:
            r, c = self.shape(v)
            if isN(r) and isN(c):
                acc = None
                for i in range(I(r)):
                    for j in range(I(c)):
                        x = t.elt(v, num(i), num(j))
                        acc = x if acc is None else minmax(nm == "minCoeff", acc, x)
                return acc
            return mk("call", nm, v)
        if nm in ("isZero", "isApprox", "isIdentity", "allFinite", "hasNaN", "isOnes", "isUnitary"):
            vs = [it.ev(x) for x in a]
            return truth(mk("call", nm, v, *vs))
        if nm in ("any", "all") and not a:
            return self.quantify(nm, v)
        if nm == "count" and not a:
            return self.sumof(v, asnum)
        if nm == "cast":
            return v
        if nm in ("determinant", "prod", "lpNorm"):
            return mk("call", nm, v)
        if nm in ("eulerAngles",):
            vs = [A(i) for i in range(len(a))]
            r = mk("call", nm, v, *vs)
            return mk("mat", num(3), ONE, *[mk("sel", r, num(i)) for i in range(3)])
        if nm in ("triangularView", "selfadjointView"):
            it.unmodelled.add(nm)
            return mk("call", nm + str(ta), v)
        if nm == "swap":
            l2 = it.lv(a[0])
            w = it.load(l2)
            it.store(lv, w)
            it.store(l2, v)
            return UNDEF
        if nm == "data":
            return it.addr(lv)
        if nm == "lazyAssign" or nm == "operator=":
            it.store(lv, it.ev(a[0]))
            return lv
        return NotImplemented

    def isnochange(self, a):
        x = a
        while x.get("k") in ("cast", "icast"):
            x = x["e"]
        return x.get("k") == "enum" and x.get("n") == "NoChange" or "NoChange" in str(x.get("q", "")) or "NoChange" in x.get("t", "") + str(x.get("n", ""))

    def minv(self, v):
        if v.op == "ite":
            return ite(v.args[0], self.minv(v.args[1]), self.minv(v.args[2]))
        q = mk("minv", v)
        r, c = self.shape(v)
        return self.comp2(r, c, lambda i, j: mk("sel", q, t.ix(i, j)))

    def eigen_static(self, e, f, nm, q, a):
        from .interp import eigen_dims, tstrip
        it = self.it
        if nm in ("Zero", "Ones", "Constant", "Identity", "Random", "UnitX", "UnitY", "UnitZ"):
            ty = tstrip(f.get("cls", "")) 
            d = self.nullary_dims(e, f)
            vs = [asnum(it.ev(x)) for x in a]
            dims = list(vs)
            val = ZERO
            if nm == "Ones":
                val = ONE
            if nm == "Constant":
                val = dims.pop()
            if nm.startswith("Unit"):
                k = "XYZ".index(nm[-1])
                return mk("mat", num(3), ONE, *[ONE if i == k else ZERO for i in range(3)])
            if not dims:
                if d is None or d[0] is None or d[1] is None:
                    raise self.uns("nullary Eigen expression of unknown size")
                r, c = num(d[0]), num(d[1])
            elif len(dims) == 1:
                r, c = dims[0], ONE
            else:
                r, c = dims
            if nm == "Identity":
                if "Quaternion" in q:
                    return mk("mat", num(4), ONE, ZERO, ZERO, ZERO, ONE)
                if "Transform" in q:
                    r = c = num(4)
                return self.comp2(r, c, lambda i, j: ite(eq(i, j), ONE, ZERO))
            if nm == "Random":
                return NotImplemented
            return self.comp(r, c, lambda i, j: val)
        if nm in ("abs", "fabs", "sqrt", "sin", "cos", "exp", "log") and len(a) == 1:
            v = it.ev(a[0])
            return self.ew((lambda x: absv(x)) if "abs" in nm else (lambda x: mathcall(nm, [x])), v)
        return NotImplemented

    def nullary_dims(self, e, f):
        import re
        ty = e.get("t", "")
        m = re.search(r"Eigen::(Matrix|Array)<[^<>]*>", ty)
        from .interp import eigen_dims
        if m:
            return eigen_dims(m.group(0))
        if "Quaternion" in ty:
            return (4, 1)
        if "Transform" in ty:
            return (4, 4)
        return None

    def comma(self, e):
        """flatten  m << a, b, c"""
        items = []
        x = e
        while x.get("k") == "ocall" and x["op"] == ",":
            items.append(x["args"][1])
            x = x["args"][0]
        if x.get("k") == "ocall" and x["op"] == "<<":
            items.append(x["args"][1])
            return x["args"][0], list(reversed(items))
        return None, None

    def eigen_op(self, e, f, nm, q):
        from .interp import tstrip
        it = self.it
        op, a = e["op"], e["args"]
        if op in (",", "<<") and ("CommaInitializer" in q or op == "<<" and "Base" in q):
            dst, items = self.comma(e)
            if dst is None:
                return NotImplemented
            lv = it.lv(dst)
            vs = [it.ev(x) for x in items]
            if it.dead():
                return UNDEF
            scal = [x.get("y") in ("f", "i", "u", "b") for x in items]
            old = it.load(lv)
            r, c = self.shape(old)
            if c is ONE or r is ONE:
                off = ZERO
                new = old
                col = c is ONE
                for v, s in zip(vs, scal):
                    n = ONE if s else self.size(v)
                    w = mk("mat", ONE, ONE, v) if s else v
                    if col:
                        new = self.setblock(new, off, ZERO, n, ONE, w)
                    else:
                        new = self.setblock(new, ZERO, off, ONE, n, w if s or self.rows(w) is ONE else self.transpose(w))
                    off = add(off, n)
                it.store(lv, new)
                return lv
            if all(scal) and isN(c):
                new = old
                for k, v in enumerate(vs):
                    new = mk("store", new, t.ix(num(k // I(c)), num(k % I(c))), v)
                it.store(lv, new)
                return lv
            # blocks, row by row
            new, r0, c0, hgt = old, ZERO, ZERO, None
            for v, s in zip(vs, scal):
                w = mk("mat", ONE, ONE, v) if s else v
                wr, wc = self.shape(w)
                if c0 is c or (isnum(sub(c0, c)) and numval(sub(c0, c)) >= 0):
                    r0, c0 = add(r0, hgt), ZERO
                new = self.setblock(new, r0, c0, wr, wc, w)
                hgt = wr
                c0 = add(c0, wc)
            it.store(lv, new)
            return lv
        if op == "=":
            lv = it.lv(a[0])
            v = it.ev(a[1])
            if it.dead():
                return UNDEF
            self.assign(lv, v, a[0], q)
            return lv
        if op in ("()", "[]"):
            lv = it.lv(a[0])
            ix = [asnum(it.ev(x)) for x in a[1:]]
            return it.ext(lv, ("i", t.ix(*ix)))
        if op in ("+=", "-=", "*=", "/="):
            lv = it.lv(a[0])
            old = it.load(lv)
            v = it.ev(a[1])
            if it.dead():
                return UNDEF
            if op in ("+=", "-="):
                if a[1].get("y") in ("f", "i"):
                    new = self.ew(lambda x: add(x, v) if op == "+=" else sub(x, v), old)
                else:
                    new = self.ew(add if op == "+=" else sub, old, v)
            elif a[1].get("y") in ("f", "i", "u"):
                new = self.ew((lambda x: mul(x, v)) if op == "*=" else (lambda x: div(x, v)), old)
            elif op == "*=":
                if "Array" in q:
                    new = self.ew(mul, old, v)
                elif "Quaternion" in q:
                    new = self.quat_mul(old, v)
                else:
                    new = self.matmul(old, v)
            else:
                new = self.ew(div, old, v)
            it.store(lv, new)
            return lv
        if op == "-" and len(a) == 1:
            return self.ew(t.neg, it.ev(a[0]))
        if len(a) == 2:
            x, y = it.ev(a[0]), it.ev(a[1])
            if it.dead():
                return UNDEF
            sx = a[0].get("y") in ("f", "i", "u", "b")
            sy = a[1].get("y") in ("f", "i", "u", "b")
            if op in ("+", "-"):
                g = add if op == "+" else sub
                if sy:
                    return self.ew(lambda p: g(p, y), x)
                if sx:
                    return self.ew(lambda p: g(x, p), y)
                return self.ew(g, x, y)
            if op == "*":
                if sx:
                    return self.ew(lambda p: mul(x, p), y)
                if sy:
                    return self.ew(lambda p: mul(p, y), x)
                if "ArrayBase" in q:
                    return self.ew(mul, x, y)
                return self.product(x, y, q)
            if op == "/":
                if sy:
                    return self.ew(lambda p: div(p, y), x)
                if sx:
                    return self.ew(lambda p: div(x, p), y)
                return self.ew(div, x, y)
            if op in ("<", "<=", ">", ">=", "==", "!=", "&&", "||") and "Array" in q or op in ("<", "<=", ">", ">="):
                g = {"<": lt, "<=": le, ">": lambda m, n: lt(n, m), ">=": lambda m, n: le(n, m), "==": eq, "!=": lambda m, n: not_(eq(m, n)), "&&": and_, "||": or_}[op]
                return self.ew(lambda p: g(p, y), x) if sy else self.ew(lambda p: g(x, p), y) if sx else self.ew(g, x, y)
            if op in ("==", "!="):
                r, c = self.shape(x)
                if isN(r) and isN(c):
                    g = TRUE
                    for i in range(I(r)):
                        for j in range(I(c)):
                            g = and_(g, eq(t.elt(x, num(i), num(j)), t.elt(y, num(i), num(j))))
                else:
                    g = eqv(x, y)
                return g if op == "==" else not_(g)
        return NotImplemented

    def product(self, x, y, q):
        for v in (x, y):
            if v.op == "ite":
                return t._lift(lambda p, r: self.product(p, r, q), [x, y])
        if "Quaternion" in q or "RotationBase" in q or x.op == "struct" or y.op == "struct":
            def isq(v):
                return v.op != "struct" and self.rows(v) is num(4) and self.cols(v) is ONE
            if isq(x) and isq(y):
                return self.quat_mul(x, y)
            if x.op == "struct" and y.op == "struct":
                return self.quat_mul(self.quat_of(x), self.quat_of(y))
            if x.op == "struct":
                if isq(y):
                    return self.quat_mul(self.quat_of(x), y)
                x = self.aa_matrix(x)
            elif isq(x):
                if y.op == "struct":
                    return self.quat_mul(x, self.quat_of(y))
                x = self.quat_matrix(x)
            if y.op == "struct":
                y = self.aa_matrix(y)
            elif isq(y):
                y = self.quat_matrix(y)
        if "Translation" in q and self.cols(x) is ONE:
            return self.matmul(self.to_transform(x), self.to_transform(y) if self.cols(y) is not ONE or self.rows(y) is num(4) else y)
        return self.matmul(x, y)

    def quat_mul(self, a, b):
        ax, ay, az, aw = [t.elt(a, num(i), ZERO) for i in range(4)]
        bx, by, bz, bw = [t.elt(b, num(i), ZERO) for i in range(4)]

        def s(*p):
            acc = ZERO
            for sg, u, v in p:
                acc = add(acc, mul(num(sg), mul(u, v)))
            return acc
        return mk("mat", num(4), ONE, s((1, aw, bx), (1, ax, bw), (1, ay, bz), (-1, az, by)),
                  s((1, aw, by), (1, ay, bw), (1, az, bx), (-1, ax, bz)), s((1, aw, bz), (1, az, bw), (1, ax, by), (-1, ay, bx)),
                  s((1, aw, bw), (-1, ax, bx), (-1, ay, by), (-1, az, bz)))

    def assign(self, lv, v, e, q):
        it = self.it
        from .interp import tstrip, eigen_dims
        ty = tstrip(e.get("t", "")) or tstrip(e.get("t2", ""))
        if "Transform" in q:
            v = self.to_transform(v)
        elif "Quaternion" in q:
            v = self.quat_of(v)
        elif v.op == "struct" and "axis" in v.args and not q.startswith("Eigen::AngleAxis"):
            v = self.aa_matrix(v)
        elif q.startswith("Eigen::AngleAxis") and v.op != "struct":
            aa = mk("angleaxis", v)
            ax = mk("fld", aa, "axis")
            v = struct(UNDEF, {"angle": mk("fld", aa, "angle"), "axis": mk("mat", num(3), ONE, *[mk("sel", ax, num(i)) for i in range(3)])})
        d = eigen_dims(ty) if ty else None
        if d:
            v = self.toeigen(v, d)
        if len(lv) == 1 and lv[0][2] and isinstance(lv[0][2][-1], tuple) and lv[0][2][-1][0] == "blk":
            s = lv[0][2][-1]
            # row = column-vector product etc.
            if s[3] is ONE and s[4] is not ONE and self.rows(v) is not ONE and self.cols(v) is ONE:
                v = self.transpose(v)
        it.store(lv, v)


class PairRef(list):
    """reference to a map element"""

    def __init__(self, it, key, lv):
        p = it.lib.pairptr(key, lv)
        list.__init__(self, [(TRUE, ("mp", p.args[0]), ())])


def absv(x):
    def f(y):
        if isnum(y):
            return num(abs(numval(y)))
        return ite(lt(y, ZERO), t.neg(y), y)
    return t._lift(f, [asnum(x)])


def minmax(ismin, x, y, isint=False):
    # std::min(x, y): (y < x) ? y : x ; std::max: (x < y) ? y : x
    return ite(lt(y, x, isint) if ismin else lt(x, y, isint), y, x)


def mathcall(nm, vs):
    if nm == "sqrt":
        def f(x):
            if isnum(x):
                import math
                v = numval(x)
                if v >= 0:
                    p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
                    if p * p == v.numerator and q * q == v.denominator:
                        return num(t.Fraction(p, q))
            return mk("call", "sqrt", x)
        return t._lift(f, vs)
    if nm in ("floor", "ceil", "round") and isnum(vs[0]):
        import math
        return num({"floor": math.floor, "ceil": math.ceil, "round": lambda v: int(v + t.Fraction(1, 2)) if v >= 0 else -int(-v + t.Fraction(1, 2))}[nm](numval(vs[0])))
    if nm in ("sin", "cos") and isnum(vs[0]) and numval(vs[0]) == 0:
        return ZERO if nm == "sin" else ONE
    if nm == "sin" or nm == "cos":
        def g(x):
            if x.op == "poly":
                c0, itms = x.args
                lead = itms[0][1] if itms else c0
                if lead < 0:
                    r = mk("call", nm, t.neg(x))
                    return t.neg(r) if nm == "sin" else r
            return mk("call", nm, x)
        return t._lift(g, vs)
    b = nm in ("isnan", "isinf", "isfinite")
    r = mk("call", nm, *vs)
    return truth(r) if b else r
