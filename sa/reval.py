"""Random interpretation of value terms (polynomial identity testing): two
terms that are not in the same normal form are only reported as different when
they take different values under the same interpretation of their symbols.
Uninterpreted operators are interpreted by hashing, so congruent applications
agree."""
import hashlib
import math
from fractions import Fraction

from . import terms as t
from .terms import T, TYPES
from .interp import tstrip, eigen_dims, isstr, iscont, ismap, _targs, NUMT, lastname


class Skip(Exception):
    pass


class Opq:
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = repr(k)

    def __repr__(self):
        return "Opq%s" % h64(self.k)

    def __eq__(self, o):
        return isinstance(o, Opq) and o.k == self.k

    def __hash__(self):
        return hash(self.k)


class M:
    """matrix / vector / sequence value"""
    __slots__ = ("r", "c", "e")

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, e

    def __repr__(self):
        return "M%dx%d%r" % (self.r, self.c, self.e)

    def __eq__(self, o):
        return isinstance(o, M) and (self.r, self.c) == (o.r, o.c) and all(same(a, b) for a, b in zip(self.e, o.e))

    def __hash__(self):
        return hash((self.r, self.c))


class S:
    """structure: explicit fields over an opaque base"""
    __slots__ = ("base", "f")

    def __init__(self, base, f):
        self.base, self.f = base, f

    def __repr__(self):
        return "S(%r,%r)" % (self.base, sorted(self.f.items()))


class D:
    """map value"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return "D" + repr(sorted(self.d.items(), key=lambda x: repr(x[0])))


def h64(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), "big")


UNSPEC = Opq("undef")
LIM = 300


def rk(v):
    """key of an argument of an uninterpreted function, up to rounding"""
    if isinstance(v, bool):
        return repr(v)
    if isinstance(v, (float, Fraction)):
        if isinstance(v, Fraction) and v.denominator == 1:
            return str(v.numerator)
        v = float(v)
        return "0" if abs(v) < 1e-9 else "%.7g" % v
    if isinstance(v, M):
        return "M%dx%d[%s]" % (v.r, v.c, ",".join(rk(x) for x in v.e))
    if isinstance(v, S):
        return "S(%s,%s)" % (rk(v.base) if not isinstance(v.base, str) else v.base, ",".join("%s=%s" % (n, rk(y)) for n, y in sorted(v.f.items())))
    return repr(v)


def num(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (Fraction, float)):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Opq):
        return Fraction(h64(x.k) % 997, 7)
    if isinstance(x, str):
        return Fraction(h64(x) % 997, 11)
    if isinstance(x, M) and len(x.e) == 1:
        return num(x.e[0])
    return Fraction(h64(repr(x)) % 997, 13)


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return (a != 0) == (b != 0) if not isinstance(a, (Opq, str, M, S, D)) and not isinstance(b, (Opq, str, M, S, D)) else a == b
    if isinstance(a, (Fraction, float)) and isinstance(b, (Fraction, float)):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a == b
        a, b = float(a), float(b)
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    if isinstance(a, M) and isinstance(b, M):
        # a 0-sized sequence has no shape
        if len(a.e) == 0 and len(b.e) == 0:
            return True
        return a == b
    if isinstance(a, S) and isinstance(b, S):
        return all(same(a.f.get(n, Opq("fld", a.base, n)), b.f.get(n, Opq("fld", b.base, n))) for n in set(a.f) | set(b.f)) and (a.base == b.base or True)
    if isinstance(a, D) and isinstance(b, D):
        return set(a.d) == set(b.d) and all(same(a.d[k], b.d[k]) for k in a.d)
    if type(a) is not type(b):
        return False
    return a == b


def undefd(x):
    if isinstance(x, Opq):
        return x.k == UNSPEC.k
    return False


def fldval(v, n, gens):
    if isinstance(v, S):
        if n in v.f:
            return v.f[n]
        return fldval(v.base, n, gens)
    if undefd(v):
        return UNSPEC
    return gens.get(("fld", repr(v), n), Opq("fld", repr(v), n))


def match(spec, impl, gens={}):
    """impl realises spec (an undefined part of spec matches anything)"""
    if undefd(spec):
        return True
    if isinstance(spec, M) and isinstance(impl, M):
        if len(spec.e) == 0 and len(impl.e) == 0:
            return True
        return (spec.r, spec.c) == (impl.r, impl.c) and all(match(a, b, gens) for a, b in zip(spec.e, impl.e))
    if isinstance(spec, S) and isinstance(impl, (S, Opq)) or isinstance(spec, Opq) and isinstance(impl, S):
        if undefd(impl):
            return all(undefd(v) for v in spec.f.values()) and undefd(spec.base)
        ns = set(spec.f if isinstance(spec, S) else ()) | set(impl.f if isinstance(impl, S) else ())
        return all(match(fldval(spec, n, gens), fldval(impl, n, gens), gens) for n in ns)
    if isinstance(spec, D) and isinstance(impl, D):
        return set(spec.d) == set(impl.d) and all(match(spec.d[k], impl.d[k], gens) for k in spec.d)
    return same(spec, impl)


_fv = {}


def freebv(x):
    """bound-variable symbols occurring free in x (ordered)"""
    r = _fv.get(x)
    if r is None:
        acc = set()
        bound = set(x.args[:-1]) if x.op == "lam" else ()

        def add(y):
            if isinstance(y, T):
                acc.update(freebv(y))
            elif isinstance(y, tuple):
                for z in y:
                    add(z)
        if x.op == "bv":
            acc.add(x)
        else:
            for y in x.args:
                add(y)
            acc.difference_update(bound)
        r = _fv[x] = tuple(sorted(acc, key=lambda z: z.id))
    return r


_cheap = {}


def cheap(x):
    r = _cheap.get(x)
    if r is None:
        r = _cheap[x] = not any(y.op in ("mres", "out", "call", "rd") and any(z.op == "bv" for z in t.subterms(y)) for y in t.subterms(x))
    return r


class Deps(Opq):
    """a signal object with changed dependencies"""
    __slots__ = ("base", "items", "ready")

    def __init__(self, base, items, ready):
        self.base, self.items, self.ready = base, items, ready
        self.k = repr(("deps", base, items, ready))


class Undefined(Skip):
    """the operation has no defined result here"""


class Env:
    def __init__(self, seed, consts=(), strings=(), enums=None):
        self.seed = seed
        self.consts = list(consts) or [0]
        self.strings = list(strings)
        self.enums = enums or {}
        self.n = 1 + h64(seed, "n") % 4
        big = sorted({abs(int(c)) + d for c in consts for d in (0, 1, 2) if c.denominator == 1 and 3 < abs(c) < 9})
        if big and h64(seed, "big") % 3 == 0:
            self.n = big[h64(seed, "bigk") % len(big)]
        self.bias = (8, 12, 15)[h64(seed, "bias") % 3]
        self.memo = {}
        self.steps = 0
        self.gens = {}      # value of each opaque, once chosen
        self.gty = {}       # its type (None: constrained)
        self.cov = set()    # conditions met
        self.checked = set()
        self.ties = []      # comparisons met
        self.keyof = {}
        self.mapkeys = {}   # map term -> keys it is asked for
        self.hints = {}     # term -> value that decides a condition it occurs in
        self.fixed = {}     # leaf -> term it equals (preconditions)
        self.ranges = {}    # leaf -> (low, high) integer range
        self.dims = {}      # leaf -> its dimensions
        self.elems = {}     # container -> (low, high) integer range of its elements

    # ------------------------------------------------------------- symbols
    def gen(self, key, ty, x=None):
        v = self.gens.get(key)
        if x is not None:
            self.keyof[x] = key
        if v is not None and x is not None and (x in self.dims or x in self.ranges or x in self.elems) and key not in self.checked:
            self.checked.add(key)
            if x in self.elems and isinstance(v, M):
                lo, hi = [num(self.ev(y)) for y in self.elems[x]]
                if any(not lo <= y < hi or y.denominator != 1 for y in v.e):
                    v = None
            if x in self.dims:
                dm = self.dims[x]
                if not isinstance(v, M) or any(n in dm and self.cnt(self.ev(dm[n])) != {"rows": v.r, "cols": v.c, "size": v.r * v.c}[n] for n in ("rows", "cols", "size")):
                    v = None
            elif x in self.ranges:
                lo, hi = [num(self.ev(y)) for y in self.ranges[x][:2]]
                if not lo <= v < hi or len(self.ranges[x]) == 2 and v.denominator != 1:
                    v = None
        if v is None:
            self.gty[key] = ty if x is None or (x not in self.dims and x not in self.ranges and x not in self.elems) else None
            if x is not None and x in self.dims:
                dm = self.dims[x]
                r = self.cnt(self.ev(dm["rows"])) if "rows" in dm else None
                c = self.cnt(self.ev(dm["cols"])) if "cols" in dm else None
                if "size" in dm:
                    r, c = self.cnt(self.ev(dm["size"])), 1
                v = self.gen0(key, ty, (r, c))
            elif x is not None and x in self.ranges:
                lo, hi = [num(self.ev(y)) for y in self.ranges[x][:2]]
                if hi <= lo:
                    raise Skip("empty range")
                if len(self.ranges[x]) == 3:
                    v = lo + (hi - lo) * Fraction(1 + h64(self.seed, key) % 15, 16)
                else:
                    v = lo + h64(self.seed, key) % int(hi - lo)
            else:
                v = self.gen0(key, ty)
            if x is not None and x not in self.ranges and x in self.hints and not isinstance(v, (M, D, bool)) and h64(self.seed, key, "hint") % 16 < self.bias:
                v = self.hints[x]
            if x is not None and x in self.elems and isinstance(v, M):
                lo, hi = [num(self.ev(y)) for y in self.elems[x]]
                if hi <= lo and v.e:
                    raise Skip("empty range")
                v = M(v.r, v.c, [y if lo <= y < hi and y.denominator == 1 else lo + h64(self.seed, key, i, "el") % int(hi - lo) for i, y in enumerate(v.e)])
                self.checked.add(key)
            if isinstance(v, D) and x in self.mapkeys and ismap(ty or ""):
                el = (_targs(tstrip(ty)) + ["", "bool"])[1]
                for k in self.mapkeys[x]:
                    if k not in v.d and h64(self.seed, key, repr(k)) % 16 < self.bias:
                        v.d[k] = self.gen0((key, "v", repr(k)), el)
            self.gens[key] = v
        return v

    def gen0(self, key, ty, dims=(None, None)):
        h = h64(self.seed, key)
        ty = tstrip(ty or "")
        if ty == "bool":
            return bool(h & 1)
        if ty in self.enums:
            vs = self.enums[ty]
            return Fraction(vs[h % len(vs)])
        if ty.endswith("*"):
            return Opq("ptr", self.seed, key) if h % 8 else Fraction(0)
        if ty in ("char", "unsigned char", "signed char"):
            ch = [c for c in self.consts if c.denominator == 1 and 0 <= c < 128] + [Fraction(h >> 20 & 127)]
            return ch[h % len(ch)]
        if ty in NUMT or ty == "":
            isint = ty not in ("double", "float", "long double", "")
            if ty == "":
                isint = h & 2
            cs = [c for c in self.consts if not isint or c.denominator == 1]
            m = (h >> 8) % 10
            if m < 4 and cs:
                v = cs[(h >> 16) % len(cs)] + [0, 0, 0, 1, -1][(h >> 24) % 5]
            elif m < 8:
                v = Fraction((h >> 16) % 9) - (3 if ty not in ("unsigned int", "unsigned long") else 0)
            else:
                v = Fraction((h >> 16) % 41 - 20)
            if not isint:
                if (h >> 32) % 3:
                    v = v + Fraction((h >> 40) % 64, 8)
                if (h >> 36) % 4 == 0:
                    v = -v
            if ty.startswith("unsigned") and v < 0:
                v = -v
            return v
        if ty == "stream text":
            words = ["\n", "\n", "\n", "\n", "\n", "1", "-2.5", " ", "ab", "x y", "30 4", "7", "  8 ", "a line longer than any buffer "]
            n = (h >> 4) % 12
            if (h >> 12) % 9 == 0:
                n, words = n * 3, words[-4:] + ["1e3 ", "0 "]
            return "".join(words[h64(self.seed, key, i) % len(words)] for i in range(n))
        if isstr(ty) or ty == "str":
            ss = self.strings + ["", "a", "b c", "x%d" % (h % 3)]
            return ss[(h >> 8) % len(ss)]
        d = eigen_dims(ty)
        if d:
            r = d[0] if d[0] is not None else dims[0] if dims[0] is not None else self.size(h)
            c = d[1] if d[1] is not None else dims[1] if dims[1] is not None else self.size(h >> 7)
            sp = h64(self.seed, key, "sparse") % 10
            if r > 1 and c > 1 and sp < 2:      # degenerate matrices: axis permutations, singular ones
                perm = sorted(range(c), key=lambda i: h64(self.seed, key, i, "perm"))
                for i in range(r * c):
                    x = (0, 0, 0, 1, -1)[h64(self.seed, key, i, "sp") % 5] if sp else 0 if perm[i // c % c] != i % c else 1 - 2 * (h64(self.seed, key, i, "sp") & 1)
                    self.gens.setdefault((key, i), Fraction(x))
            return M(r, c, [self.gen((key, i), "double") for i in range(r * c)])
        if iscont(ty):
            n = dims[0] if dims[0] is not None else self.size(h) if (h >> 5) % 4 else 0
            el = _targs(ty)[0]
            return M(n, 1, [self.gen((key, i), el) for i in range(n)])
        if ismap(ty):
            a = _targs(ty)
            dd = {}
            for i in range((h >> 3) % 4):
                dd[self.gen((key, "k", i), a[0])] = self.gen((key, "v", i), a[1] if len(a) > 1 else "bool")
            return D(dd)
        return Opq("gen", self.seed, key, ty)

    def size(self, h):
        return self.n if (h >> 11) % 8 else (h >> 17) % 5

    # ---------------------------------------------------------------- terms
    def ev(self, x, bind=None):
        key = x.id
        if bind:
            fv = freebv(x)
            if fv:
                key = (x.id,) + tuple([(k.id, repr(bind[k])) for k in fv if k in bind])
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > 60000:
                raise Skip("steps")
            r = self.ev1(x, bind)
            self.memo[key] = r
        return r

    def app(self, l, args, bind):
        b = dict(bind or {})
        for s, v in zip(l.args[:-1], args):
            b[s] = v
        return self.ev(l.args[-1], b)

    def cond(self, c, bind):
        v = self.ev(c, bind)
        if isinstance(v, Opq):
            v = bool(h64(v.k) & 1)
        v = bool(v)
        self.cov.add((c.id, v))
        return v

    def setleaf(self, e, ys, vs, bind):
        """make the pointer ys[0] equal to ys[1]"""
        for (y, v), w in zip(zip(ys, vs), vs[::-1]):
            if y.op == "sel":
                b = self.ev(y.args[0], bind)
                ks = [k for k, g in e.gens.items() if g is b]
                if not ks or not isinstance(b, M) or y.args[1].op == "ix":
                    continue
                q = num(self.ev(y.args[1], bind))
                if not 0 <= q < len(b.e):
                    continue
                e.gens[ks[0]] = M(b.r, b.c, [w if i == int(q) else g for i, g in enumerate(b.e)])
                return True
            k = self.keyof.get(y)
            if k is not None and e.gens.get(k) is v:
                e.gens[k] = w
                return True
        return False

    def tie(self, e, seed):
        """change one value of e so that a comparison met becomes (nearly) a tie"""
        for m in range(4):
            h = h64(seed, "tie", m)
            p, bind = self.ties[h % len(self.ties)]
            try:
                if p.op == "poly" and p.args[0] == 0 and len(p.args[1]) == 2 and all(len(m) == 1 and m[0][1] == 1 for m, _ in p.args[1]):
                    ys = [m[0][0] for m, _ in p.args[1]]
                    if h & 64:
                        ys.reverse()
                    vs = [self.ev(y, bind) for y in ys]
                    if all(isinstance(v, Opq) for v in vs) and self.setleaf(e, ys, vs, bind):
                        return True
                if p.op != "poly":
                    p0, monos = num(self.ev(p, bind)), [(((p, 1),), Fraction(1))]
                else:
                    p0, monos = num(self.ev(p, bind)), list(p.args[1])
                mono, c = monos[(h >> 16) % len(monos)]
                j = (h >> 24) % len(mono)
                y, ex = mono[j]
                if ex != 1 or not isinstance(p0, Fraction):
                    continue
                co = Fraction(c)
                for i, (z, ez) in enumerate(mono):
                    if i != j:
                        co *= Fraction(num(self.ev(z, bind))) ** ez
                yv = self.ev(y, bind)
                if co == 0 or not isinstance(yv, Fraction):
                    continue
                d = (0, 0, 1, -1)[(h >> 32) % 4]
                w = yv + (d - p0) / co
                if y.op == "sel":
                    b = self.ev(y.args[0], bind)
                    ks = [k for k, g in e.gens.items() if g is b]
                    if not ks or not isinstance(b, M) or y.args[1].op == "ix" and b.c != 1:
                        continue
                    q = num(self.ev(y.args[1].args[0] if y.args[1].op == "ix" else y.args[1], bind))
                    if not 0 <= q < len(b.e):
                        continue
                    e.gens[ks[0]] = M(b.r, b.c, [w if i == int(q) else g for i, g in enumerate(b.e)])
                    return True
                k = self.keyof.get(y)
                if k is None or e.gens.get(k) != yv:
                    continue
                ty = e.gty.get(k)
                if ty is None or (ty not in ("double", "float", "") and w.denominator != 1) or (ty.startswith("unsigned") and w < 0) or (ty in self.enums and w not in self.enums[ty]) or ty.endswith("*") or "char" in ty:
                    continue
                e.gens[k] = w
                return True
            except (Skip, RecursionError, OverflowError, ZeroDivisionError):
                continue
        return False

    def neighbour(self, seed):
        """an interpretation that differs from this one in a few opaque values"""
        e = Env(seed, self.consts, self.strings, self.enums)
        e.n = self.n
        e.fixed, e.ranges, e.dims, e.mapkeys, e.hints, e.elems = self.fixed, self.ranges, self.dims, self.mapkeys, self.hints, self.elems
        e.bias = self.bias
        e.gens, e.gty = dict(self.gens), dict(self.gty)
        ks = list(e.gens)
        if not ks:
            return e
        if self.ties and h64(seed, "t") % 3 == 0 and self.tie(e, seed):
            return e
        nums = [v for v in e.gens.values() if isinstance(v, Fraction)]
        for m in range(1 + h64(seed, "m") % 3):
            h = h64(seed, "k", m)
            k = ks[h % len(ks)]
            v, ty = e.gens.get(k), e.gty.get(k)
            if v is None:
                continue
            op = (h >> 20) % 8
            i = None
            if isinstance(v, M) and v.e and op:
                i = (h >> 30) % len(v.e)
                w, ty = v.e[i], "double" if isinstance(v.e[i], Fraction) and eigen_dims(ty or "") else None
            else:
                w = v
            if isinstance(w, bool):
                w = not w
            elif isinstance(w, Fraction) and op and ty is not None and ty not in self.enums and not ty.startswith("unsigned") and not ty.endswith("*") and "char" not in ty:
                pool = [lambda: w + 1, lambda: w - 1, lambda: -w, lambda: Fraction(0), lambda: nums[(h >> 40) % len(nums)] + [0, 0, 1, -1][(h >> 50) % 4],
                        lambda: self.consts[(h >> 40) % len(self.consts)] + [0, 0, 1, -1][(h >> 50) % 4], lambda: 2 * w, lambda: w + Fraction(5)]
                z = Fraction(pool[(h >> 24) % len(pool)]()) if nums else w + 1
                if ty not in ("double", "float") and z.denominator != 1:
                    z = Fraction(int(z))
                w = z
            else:
                e.gens.pop(k, None)
                continue
            e.gens[k] = w if i is None else M(v.r, v.c, [w if j == i else y for j, y in enumerate(v.e)])
        return e

    def ev1(self, x, bind):
        o = x.op
        E = lambda y: self.ev(y, bind)
        if x in self.fixed:
            return E(self.fixed[x])
        if bind and x in bind:
            return bind[x]
        if o == "poly":
            acc = x.args[0]
            for mono, c in x.args[1]:
                p = c
                for y, e in mono:
                    v = num(E(y))
                    if e < 0:
                        if v == 0:
                            raise Skip("div")
                        for _ in range(-e):
                            p = p / v if isinstance(p, Fraction) == isinstance(v, Fraction) else float(p) / float(v)
                    else:
                        for _ in range(e):
                            p = p * v if isinstance(p, Fraction) == isinstance(v, Fraction) else float(p) * float(v)
                acc = acc + p if isinstance(acc, Fraction) == isinstance(p, Fraction) else float(acc) + float(p)
            if isinstance(acc, float) and (math.isnan(acc) or math.isinf(acc)):
                raise Skip("nan")
            if isinstance(acc, Fraction) and acc.numerator.bit_length() > 4000:
                acc = float(acc)
            return acc
        if o == "ite":
            try:
                c = self.cond(x.args[0], bind)
            except Skip as why:
                if str(why) != "tie":
                    raise
                u, v = E(x.args[1]), E(x.args[2])     # as in an absolute value, a minimum
                if isinstance(u, (Fraction, float)) and isinstance(v, (Fraction, float)) and abs(u - v) < 1e-9:
                    return u
                raise
            return E(x.args[1]) if c else E(x.args[2])
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "null":
            return Fraction(0)
        if o == "undef":
            return UNSPEC
        if o == "str":
            return x.args[0]
        if o == "sym":
            return self.gen(("sym", x.args[0]), TYPES.get(x, "bool" if x.b else ""), x)
        if o in ("lt0", "lt0i", "le0"):
            if len(self.ties) < 400:
                self.ties.append((x.args[0], bind))
            v = num(E(x.args[0]))
            if isinstance(v, float) and abs(v) < 1e-9:
                raise Skip("tie")
            return v <= 0 if o == "le0" else v < 0
        if o == "eq0":
            a = x.args[0]
            if len(self.ties) < 400:
                self.ties.append((a, bind))
            if a.op == "poly" and len(a.args[1]) == 1:
                (mono, c), = a.args[1]
                if len(mono) == 1 and mono[0][1] == 1 and mono[0][0] not in self.hints:
                    self.hints[mono[0][0]] = -a.args[0] / Fraction(c)
            v = E(a)
            if isinstance(v, Opq):
                return False if not (a.op in ("sym", "fld", "mres", "out", "deref", "rd", "sel")) else h64(v.k) % 5 == 0
            if isinstance(v, bool):
                return not v
            if isinstance(v, (M, S, D, str)):
                return False
            if isinstance(v, float) and abs(v) < 1e-9:
                if v == 0:
                    return True
                raise Skip("tie")
            return v == 0
        if o == "eq":
            for p, q in (x.args, x.args[::-1]):
                if q.op == "str" and p not in self.hints:
                    self.hints[p] = q.args[0]
            return same(E(x.args[0]), E(x.args[1]))
        if o == "den":
            return E(x.args[0])
        if o == "inv0":
            raise Skip("div0")
        if o == "bigmul":
            return num(E(x.args[0])) * num(E(x.args[1]))
        if o in ("idiv", "imod"):
            a, b = num(E(x.args[0])), num(E(x.args[1]))
            if b == 0:
                raise Skip("idiv0")
            a, b = int(a), int(b)
            q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
            return Fraction(q if o == "idiv" else a - q * b)
        if o in ("band", "bor", "bxor", "shl", "shr"):
            a, b = int(num(E(x.args[0]))), int(num(E(x.args[1])))
            if o in ("shl", "shr") and not 0 <= b < 64:
                raise Skip("shift")
            return Fraction({"band": lambda: a & b, "bor": lambda: a | b, "bxor": lambda: a ^ b, "shl": lambda: a << b, "shr": lambda: a >> b}[o]())
        if o == "u8":
            return Fraction(int(num(E(x.args[0]))) & 255)
        if o == "i8":
            return Fraction(((int(num(E(x.args[0]))) + 128) & 255) - 128)
        if o == "trunc":
            v = num(E(x.args[0]))
            return Fraction(int(v))
        if o == "ceildiv":
            return Fraction(math.ceil(num(E(x.args[0])) / num(E(x.args[1]))))
        if o == "call":
            return self.call(x, bind)
        if o == "mat":
            return M(int(num(E(x.args[0]))), int(num(E(x.args[1]))), [E(y) for y in x.args[2:]])
        if o == "empty":
            return M(0, 1, [])
        if o == "arr1":
            n = self.cnt(E(x.args[0]))
            return M(n, 1, [self.app(x.args[1], [Fraction(i)], bind) for i in range(n)])
        if o == "arr2":
            r, c = self.cnt(E(x.args[0])), self.cnt(E(x.args[1]))
            return M(r, c, [self.app(x.args[2], [Fraction(i), Fraction(j)], bind) for i in range(r) for j in range(c)])
        if o == "resize":
            v = E(x.args[0])
            d = [self.cnt(E(y)) for y in x.args[1:]]
            r, c = d[0], d[1] if len(d) > 1 else 1
            if isinstance(v, M) and (v.r, v.c) == (r, c):
                return v
            return M(r, c, [UNSPEC] * (r * c))
        if o == "vresize":
            v = self.seq(E(x.args[0]))
            n = self.cnt(E(x.args[1]))
            d = E(x.args[2])
            return M(n, 1, (v.e + [d] * n)[:n])
        if o in ("rows", "cols", "size"):
            v = E(x.args[0])
            if isinstance(v, M):
                return Fraction({"rows": v.r, "cols": v.c, "size": len(v.e)}[o])
            if isinstance(v, D):
                return Fraction(len(v.d))
            if isinstance(v, str):
                return Fraction(len(v))
            if undefd(v):
                return v
            return Fraction(h64(repr(v), o) % 5)
        if o == "sel":
            return self.sel(E(x.args[0]), x.args[1], bind, x)
        if o == "store":
            return self.store(E(x.args[0]), x.args[1], E(x.args[2]), bind)
        if o == "scat":
            v = E(x.args[0])
            if not isinstance(v, M):
                raise Skip("scat")
            if len(x.args[1].args) == 2:
                return M(v.r, 1, [self.app(x.args[1], [Fraction(i)], bind) for i in range(len(v.e))])
            return M(v.r, v.c, [self.app(x.args[1], [Fraction(i), Fraction(j)], bind) for i in range(v.r) for j in range(v.c)])
        if o == "sum":
            n = num(E(x.args[0]))
            acc = Fraction(0)
            for i in range(self.cnt(n)):
                v = num(self.app(x.args[1], [Fraction(i)], bind))
                acc = acc + v if isinstance(acc, Fraction) == isinstance(v, Fraction) else float(acc) + float(v)
            return acc
        if o == "first":
            inf = x.args[0] is t.INF
            n = LIM if inf else self.cnt(E(x.args[0]))
            for i in range(n):
                v = self.app(x.args[1], [Fraction(i)], bind)
                if isinstance(v, Opq):
                    v = h64(v.k) & 1
                if v:
                    return Fraction(i)
            if inf:
                raise Skip("diverge")
            return Fraction(n)
        if o == "fix":
            return self.fix(x, bind)
        if o == "proj":
            return E(x.args[0])[int(num(E(x.args[1])))]
        if o in ("push_back", "push_front", "pop_back", "pop_front", "erase1", "insert1"):
            v = self.seq(E(x.args[0]))
            e = list(v.e)
            if o == "push_back":
                e.append(E(x.args[1]))
            elif o == "push_front":
                e.insert(0, E(x.args[1]))
            elif o in ("pop_back", "pop_front"):
                if not e:
                    raise Skip("pop of empty")
                e.pop(-1 if o == "pop_back" else 0)
            elif o == "erase1":
                i = int(num(E(x.args[1])))
                if not 0 <= i < len(e):
                    raise Undefined("erase")
                e.pop(i)
            else:
                i = int(num(E(x.args[1])))
                if not 0 <= i <= len(e):
                    raise Undefined("insert")
                e.insert(i, E(x.args[2]))
            return M(len(e), 1, e)
        if o == "pushall":
            v = self.seq(E(x.args[0]))
            n = self.cnt(E(x.args[1]))
            e = v.e + [self.app(x.args[2], [Fraction(i)], bind) for i in range(n)]
            return M(len(e), 1, e)
        if o == "cat":
            vs = [E(y) for y in x.args]
            return self.cat(vs)
        if o == "catall":
            n = self.cnt(E(x.args[0]))
            return self.cat([self.app(x.args[1], [Fraction(i)], bind) for i in range(n)])
        if o == "tostr":
            v = E(x.args[0])
            if isinstance(v, (Fraction, bool)):
                return str(Fraction(v))
            return "<%r>" % (v,)
        if o == "chr":
            v = num(E(x.args[0]))
            return chr(int(v) % 256) if v >= 0 else "<chr>"
        if o == "strfill":
            return chr(int(num(E(x.args[1]))) % 256) * self.cnt(E(x.args[0]))
        if o == "substr":
            s = E(x.args[0])
            i, n = int(num(E(x.args[1]))), int(num(E(x.args[2]))) if len(x.args) > 2 else LIM
            if isinstance(s, str):
                if not 0 <= i <= len(s):
                    raise Skip("substr")
                return s[i:i + n] if n >= 0 else s[i:]
            if isinstance(s, M):
                return "<sub%r,%d,%d>" % (s, i, n)
            return "<sub%r,%d,%d>" % (s, i, n)
        if o == "strlt":
            a, b = E(x.args[0]), E(x.args[1])
            if isinstance(a, str) and isinstance(b, str):
                return a < b
            return bool(h64(repr(a), repr(b)) & 1)
        if o == "struct":
            return S(E(x.args[0]), {n: E(v) for n, v in zip(x.args[1::2], x.args[2::2])})
        if o == "fld":
            v = E(x.args[0])
            if isinstance(v, S):
                if x.args[1] in v.f:
                    return v.f[x.args[1]]
                v = v.base
            if undefd(v):
                return UNSPEC
            return self.gen(("fld", repr(v), x.args[1]), TYPES.get(x, "bool" if x.b else ""), x)
        if o == "plugged":
            return self.gen(("plugged", repr(E(x.args[0]))), "bool", x)
        if o == "has":
            b = x.args[0]
            while b.op in ("store", "erasek"):
                b = b.args[0]
            k = E(x.args[1])
            if b.id not in self.memo:
                self.mapkeys.setdefault(b, []).append(k)
            v = E(x.args[0])
            if isinstance(v, D):
                return self.key(k) in v.d
            return bool(h64(repr(v), repr(k)) & 1)
        if o == "erasek":
            v, k = E(x.args[0]), E(x.args[1])
            d = dict(self.dict(v).d)
            d.pop(self.key(k), None)
            return D(d)
        if o == "keyat":
            v, i = E(x.args[0]), int(num(E(x.args[1])))
            ks = sorted(self.dict(v).d, key=lambda z: (str(type(z)), z) if isinstance(z, (str, Fraction)) else (str(type(z)), repr(z)))
            if not 0 <= i < len(ks):
                raise Skip("keyat")
            return ks[i]
        if o == "tuple":
            return [E(y) for y in x.args]
        if o == "addr":
            return Opq("addr", self.locrepr(x.args[0], bind))
        if o == "dep":
            v = E(x.args[1])
            base, items, ready = (v.base, v.items, v.ready) if isinstance(v, Deps) else (repr(v), (), False)
            if x.args[0] == "setReady":
                return Deps(base, items, True)
            d = dict(items)
            d[repr(E(x.args[2]))] = x.args[0] == "addDependency"
            return Deps(base, tuple(sorted(d.items())), ready)
        if o == "exc":
            return Opq("exc", *[repr(E(y)) if isinstance(y, T) else y for y in x.args])
        if o == "lam":
            raise Skip("lam")
        if o in ("quatof", "angleaxis", "minv"):
            r = lina(o, E(x.args[0]))
            if r is not None:
                return r
        # uninterpreted
        vs = []
        for y in x.args:
            if isinstance(y, T):
                vs.append(rk(E(y)) if y.op != "lam" else "lam%d" % y.id)
            else:
                vs.append(y)
        if x.b:
            return bool(h64(self.seed, o, vs) & 1)
        return self.gen((o, tuple(vs)), TYPES.get(x, "?"), x)

    def locrepr(self, l, bind):
        if isinstance(l, T):
            return repr(self.ev(l, bind))
        if isinstance(l, tuple):
            return tuple(self.locrepr(y, bind) for y in l)
        return l

    def cnt(self, v):
        v = num(v)
        if v < 0:
            raise Skip("negative count")
        if v > LIM:
            raise Skip("count")
        return int(v)

    def key(self, k):
        return k

    def dict(self, v):
        if isinstance(v, D):
            return v
        if isinstance(v, M) and not v.e:
            return D({})
        raise Skip("map")

    def seq(self, v):
        if isinstance(v, M):
            return v
        if isinstance(v, str):
            raise Skip("string as sequence")
        raise Skip("seq")

    def cat(self, vs):
        return "".join(v if isinstance(v, str) else "<%r>" % (v,) for v in vs)

    def sel(self, v, i, bind, x):
        if isinstance(v, D):
            k = self.ev(i, bind)
            if k in v.d:
                return v.d[k]
            return Opq("nokey", repr(v), repr(k))
        if i.op == "ix":
            p, q = [num(self.ev(y, bind)) for y in i.args]
            if isinstance(v, M):
                if 0 <= p < v.r and 0 <= q < v.c:
                    return v.e[int(p) * v.c + int(q)]
                return Opq("oob", repr(v), p, q)
            if undefd(v):
                return v
            return self.gen(("sel", repr(v), p, q), TYPES.get(x, ""), x)
        p = num(self.ev(i, bind))
        if isinstance(v, M):
            if 0 <= p < len(v.e) and p == int(p):
                p = int(p)
                return v.e[p] if v.c == 1 or v.r == 1 else v.e[(p % v.r) * v.c + p // v.r]
            return Opq("oob", repr(v), p)
        if isinstance(v, str):
            if 0 <= p < len(v):
                return Fraction(ord(v[int(p)]))
            if p == len(v):
                return Fraction(0)
            return Opq("oob", v, p)
        if undefd(v):
            return v
        return self.gen(("sel", repr(v), p), TYPES.get(x, ""), x)

    def store(self, v, i, w, bind):
        if isinstance(v, M) and i.op == "ix":
            p, q = [int(num(self.ev(y, bind))) for y in i.args]
            if not (0 <= p < v.r and 0 <= q < v.c):
                return Opq("oobstore", repr(v), p, q)
            e = list(v.e)
            e[p * v.c + q] = w
            return M(v.r, v.c, e)
        k = self.ev(i, bind)
        if isinstance(v, D):
            d = dict(v.d)
            d[k] = w
            return D(d)
        if isinstance(v, M) and not v.e and isinstance(k, str):
            return D({k: w})
        if isinstance(v, M):
            p = int(num(k))
            if not 0 <= p < len(v.e):
                if not v.e:
                    return D({k: w})
                return Opq("oobstore", repr(v), p)
            e = list(v.e)
            if v.c == 1 or v.r == 1:
                e[p] = w
            else:
                e[(p % v.r) * v.c + p // v.r] = w
            return M(v.r, v.c, e)
        if isinstance(v, str):
            p = int(num(k))
            if not 0 <= p < len(v):
                return Opq("oobstore", v, p)
            return v[:p] + chr(int(num(w)) % 256) + v[p + 1:]
        return Opq("store", repr(v), repr(k), repr(w))

    def quick(self, c, bind):
        """value of a condition by its cheap atoms alone, or None"""
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if c.op == "ite":
            k = self.quick(c.args[0], bind)
            if k is not None:
                return self.quick(c.args[1 if k else 2], bind)
            a = self.quick(c.args[1], bind)
            return a if a is not None and a == self.quick(c.args[2], bind) else None
        if not cheap(c):
            return None
        return self.cond(c, bind)

    def fix(self, x, bind):
        stop, init, nexts = x.args
        st = [Fraction(0)] + [self.ev(y, bind) for y in init.args]
        costly = not cheap(stop)
        for _ in range(LIM):
            v = None
            if costly:
                b = dict(bind or {})
                for s, w in zip(stop.args[:-1], st):
                    b[s] = w
                v = self.quick(stop.args[-1], b)
            if v is None:
                v = self.app(stop, st, bind)
            if isinstance(v, Opq):
                v = h64(v.k) & 1
            if v:
                return st
            st = [st[0] + 1] + [self.app(n, st, bind) for n in nexts.args]
        raise Skip("diverge")

    def call(self, x, bind):
        nm = x.args[0]
        vs = [self.ev(y, bind) for y in x.args[1:]]
        if nm in ("sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "floor", "ceil", "fmod", "pow", "round", "log10", "hypot", "tanh"):
            if any(undefd(v) for v in vs):
                return UNSPEC
            a = [num(v) for v in vs]
            try:
                if nm in ("floor", "ceil"):
                    return Fraction(getattr(math, nm)(a[0]))
                if nm == "round":
                    return Fraction(math.floor(abs(a[0]) + Fraction(1, 2)) * (1 if a[0] >= 0 else -1))
                return getattr(math, nm)(*[float(y) for y in a])
            except (ValueError, OverflowError):
                raise Skip("domain")
        if nm in ("any", "all", "prod", "maxCoeff", "minCoeff") and len(vs) == 1 and isinstance(vs[0], M):
            if nm in ("any", "all"):
                bs = [v if isinstance(v, bool) else bool(h64(v.k) & 1) if isinstance(v, Opq) else v != 0 for v in vs[0].e]
                return any(bs) if nm == "any" else all(bs)
            es = [num(v) for v in vs[0].e]
            if nm == "prod":
                r = Fraction(1)
                for v in es:
                    r = r * v if isinstance(r, Fraction) == isinstance(v, Fraction) else float(r) * float(v)
                return r
            if not es:
                raise Skip("empty")
            return max(es) if nm == "maxCoeff" else min(es)
        if nm in ("eulerAngles", "determinant"):
            r = lina(nm, *vs)
            if r is not None:
                return r
        if nm.startswith("scan.") and isinstance(vs[1], str):
            return scan(nm[5:], vs[0], vs[1], int(num(vs[2])))
        if nm == "str.find" and isinstance(vs[0], str) and len(vs) >= 2:
            needle = vs[1] if isinstance(vs[1], str) else chr(int(num(vs[1])) % 256)
            r = vs[0].find(needle, int(num(vs[2])) if len(vs) > 2 else 0)
            return Fraction(r)
        if x.b:
            return bool(h64(self.seed, nm, [rk(v) for v in vs]) & 1)
        return self.gen(("call", nm, tuple(rk(v) for v in vs)), TYPES.get(x, ""), x)


def lina(o, m, *axes):
    """rotation and matrix functions on numeric matrices, as the linear algebra library computes them"""
    if not isinstance(m, M) or m.r != m.c or m.r > 6 or not all(isinstance(v, (Fraction, float)) for v in m.e) or m.r == 0:
        return None
    n = m.r
    if o in ("minv", "determinant"):
        fl = any(isinstance(v, float) for v in m.e)
        a = [[(float(m.e[i * n + j]) if fl else m.e[i * n + j]) for j in range(n)] + [(1.0 if fl else Fraction(1)) if i == j else (0.0 if fl else Fraction(0)) for j in range(n)] for i in range(n)]
        det = Fraction(1)
        for k in range(n):
            p = max(range(k, n), key=lambda i: abs(a[i][k]))
            if abs(a[p][k]) < (1e-9 if fl else Fraction(1, 10**12)):
                if o == "determinant" and not fl:
                    return Fraction(0)
                raise Skip("singular")
            if p != k:
                a[p], a[k] = a[k], a[p]
                det = -det
            pv = a[k][k]
            det = det * pv
            a[k] = [v / pv for v in a[k]]
            for i in range(n):
                if i != k and a[i][k] != 0:
                    f = a[i][k]
                    a[i] = [u - f * v for u, v in zip(a[i], a[k])]
        return det if o == "determinant" else M(n, n, [a[i][n + j] for i in range(n) for j in range(n)])
    if n != 3:
        return None
    c = [[float(m.e[3 * i + j]) for j in range(3)] for i in range(3)]
    if o == "eulerAngles":
        if len(axes) != 3 or not all(isinstance(v, Fraction) for v in axes):
            return None
        a0, a1, a2 = [int(v) for v in axes]
        odd = 0 if (a0 + 1) % 3 == a1 else 1
        i, j, k = a0, (a0 + 1 + odd) % 3, (a0 + 2 - odd) % 3
        if a0 == a2:
            return None
        r0 = math.atan2(c[j][k], c[k][k])
        c2 = math.hypot(c[i][i], c[i][j])
        if abs(r0) < 1e-9 and r0 != 0 or c2 < 1e-9:
            raise Skip("tie")
        if (odd and r0 < 0) or (not odd and r0 > 0):
            r0 = r0 - math.pi if r0 > 0 else r0 + math.pi
            r1 = math.atan2(-c[i][k], -c2)
        else:
            r1 = math.atan2(-c[i][k], c2)
        s1, c1 = math.sin(r0), math.cos(r0)
        r = [r0, r1, math.atan2(s1 * c[k][i] - c1 * c[j][i], c1 * c[j][j] - s1 * c[k][j])]
        return M(3, 1, r if odd else [-v for v in r])
    # quaternion (x, y, z, w)
    tr = c[0][0] + c[1][1] + c[2][2]
    if tr != 0 and abs(tr) < 1e-9:
        raise Skip("tie")
    if tr > 0:
        u = math.sqrt(tr + 1)
        h = .5 / u
        q = [(c[2][1] - c[1][2]) * h, (c[0][2] - c[2][0]) * h, (c[1][0] - c[0][1]) * h, .5 * u]
    else:
        i = 0
        if c[1][1] > c[0][0]:
            i = 1
        if c[2][2] > c[i][i]:
            i = 2
        j, k = (i + 1) % 3, (i + 2) % 3
        u = c[i][i] - c[j][j] - c[k][k] + 1
        if u <= 0:
            raise Skip("domain")
        u = math.sqrt(u)
        h = .5 / u
        q = [0, 0, 0, (c[k][j] - c[j][k]) * h]
        q[i] = .5 * u
        q[j] = (c[j][i] + c[i][j]) * h
        q[k] = (c[k][i] + c[i][k]) * h
    if o == "quatof":
        return M(4, 1, q)
    nv = math.sqrt(q[0] ** 2 + q[1] ** 2 + q[2] ** 2)
    if nv < 1e-9 or abs(q[3]) < 1e-9:
        raise Skip("tie")
    an = 2 * math.atan2(nv, abs(q[3]))
    if q[3] < 0:
        nv = -nv
    return S(None, {"angle": an, "axis": M(3, 1, [v / nv for v in q[:3]])})


import re
_SC = {"real": re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?"), "int": re.compile(r"[+-]?\d+"), "uint": re.compile(r"[+-]?\d+"), "bool": re.compile(r"\d+"), "str": re.compile(r"\S+"), "char": re.compile(r"\S")}


def scan(what, kind, text, pos):
    """formatted extraction from text at pos: value, next position, ..."""
    if pos > len(text):
        pos = len(text)
    while pos < len(text) and text[pos] in " \t\n\r\v\f":
        pos += 1
    any_ = pos < len(text)
    m = _SC[kind].match(text, pos)
    end = m.end() if m else pos
    if what == "pos":
        return Fraction(end)
    if what == "any":
        return any_
    if what == "ok":
        return m is not None and any_
    if what == "eof":
        return end >= len(text) and (kind != "char" or not any_)
    if m is None:
        return "" if kind == "str" else Fraction(0)
    if kind == "str":
        return m.group()
    if kind == "char":
        return Fraction(ord(m.group()))
    return Fraction(m.group()) if kind != "bool" else m.group() != "0"


def constants(*terms):
    """numbers and strings the terms compare with"""
    cs, ss = set(), set()
    for x in terms:
        for y in t.subterms(x):
            if y.op == "str" and len(y.args[0]) < 30:
                ss.add(y.args[0])
            elif y.op in ("eq0", "lt0", "lt0i", "le0"):
                p = y.args[0]
                if p.op == "poly":
                    cs.add(-p.args[0])
            elif y.op == "poly" and not y.args[1] and abs(y.args[0]) < 10**6:
                cs.add(y.args[0])
    return sorted(cs), sorted(ss)
