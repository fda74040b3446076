"""Hash-consed value terms in a canonical form (the abstract domain of the
value-numbering analysis).

 * arithmetic is kept as multivariate polynomials over the rationals (real
   arithmetic abstraction: rounding and overflow are not modelled);
 * control joins are gated values: an ordered decision diagram over condition
   atoms whose leaves are values (gated-SSA gamma functions, canonical);
 * everything else is a congruence term op(args...), simplified by `mk`.

Two program points compute the same value if they get the same term.
"""
from fractions import Fraction
import itertools

_tab = {}
_cnt = itertools.count(1)


class T:
    __slots__ = ("op", "args", "id", "b", "_h")

    def __repr__(self):
        return show(self)


def _intern(op, args, b=False):
    k = (op, args, b)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.b = op, args, b
        t.id = next(_cnt)
        _tab[k] = t
    return t


TRUE = _intern("true", (), True)
FALSE = _intern("false", (), True)
NULL = _intern("null", ())
UNDEF = _intern("undef", ())


def num(v):
    return _poly(Fraction(v), ())


def _poly(c0, items):
    # items: sorted tuple of (mono, coef); mono: tuple of (T, exp)
    if c0 == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    return _intern("poly", (c0, items))


ZERO = num(0)
ONE = num(1)


def isnum(t):
    return t.op == "poly" and not t.args[1]


def numval(t):
    return t.args[0]


def string(s):
    return _intern("str", (s,))


def sym(name, b=False):
    return _intern("sym", (name,), b)


_fresh = itertools.count(1)


def fresh(prefix="h", b=False):
    return _intern("sym", ("%s#%d" % (prefix, next(_fresh)),), b)


def leaves(t, lim=1000):
    """number of distinct leaves of the decision diagram rooted at t"""
    seen, stack, n = set(), [t], 0
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            stack.append(x.args[1])
            stack.append(x.args[2])
        else:
            n += 1
            if n > lim:
                return n
    return n


LIFT = 48


def _lift(f, args, memo=None):
    """apply f to args after pushing decision nodes to the top"""
    if memo is None:
        memo = {}
    top = None
    for a in args:
        if a.op == "ite":
            v = a.args[0]
            if top is None or v.id < top.id:
                top = v
    if top is None:
        return f(*args)
    key = tuple(a.id for a in args)
    r = memo.get(key)
    if r is None:
        hi = _lift(f, [cof(a, top, 1) for a in args], memo)
        lo = _lift(f, [cof(a, top, 0) for a in args], memo)
        r = ite(top, hi, lo)
        memo[key] = r
    return r


def liftable(args):
    n = 1
    for a in args:
        if a.op == "ite":
            n *= leaves(a, LIFT)
            if n > LIFT:
                return False
    return True


def cof(x, v, val):
    if x is v:
        return TRUE if val else FALSE
    if x.op == "ite" and x.args[0] is v:
        return x.args[1] if val else x.args[2]
    return x


def _top(x):
    if x.op == "ite":
        return x.args[0]
    if x.b and x is not TRUE and x is not FALSE:
        return x
    return None


_ite_memo = {}
# atom -> [(its value, (implied atom, implied value))]
_IMPL = {}
_FACTED = set()


def _search_fact(v):
    """v: `n - first(n, P) == 0`; when it is false P(first) holds"""
    c0, items = v.args[0].args if v.args[0].op == "poly" else (0, ())
    if c0 != 0 or len(items) != 2:
        return
    for i in (0, 1):
        (mf, cf), (mn, cn) = items[i], items[1 - i]
        if len(mf) == 1 and mf[0][1] == 1 and mf[0][0].op == "first" and cf == -cn:
            f = mf[0][0]
            if len(mn) == 1 and mn[0][1] == 1 and mn[0][0] is f.args[0]:
                p = app(f.args[1], f)
                val = True
                if p.op == "ite" and p.args[1] is FALSE and p.args[2] is TRUE:
                    p, val = p.args[0], False
                if p.b and p.op not in ("ite", "true", "false"):
                    _IMPL.setdefault(v.id, []).append((False, (p, val)))
                    _IMPL.setdefault(p.id, []).append((not val, (v, True)))
            return


def ite(c, t, e):
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if t is e:
        return t
    if not c.b:
        c = truth(c)
        return ite(c, t, e)
    if t is TRUE and e is FALSE:
        return c
    key = (c.id, t.id, e.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    v = None
    for x in (c, t, e):
        w = _top(x)
        if w is not None and (v is None or w.id < v.id):
            v = w
    hi = ite(cof(c, v, 1), cof(t, v, 1), cof(e, v, 1))
    lo = ite(cof(c, v, 0), cof(t, v, 0), cof(e, v, 0))
    if v.id in _IMPL:
        for w, (a, val) in _IMPL[v.id]:
            if w:
                hi = _cofdeep(hi, a, val)
            else:
                lo = _cofdeep(lo, a, val)
    if hi is lo:
        r = hi
    elif hi is TRUE and lo is FALSE:
        r = v
    else:
        r = _intern("ite", (v, hi, lo), hi.b and lo.b)
    _ite_memo[key] = r
    return r


def not_(a):
    return ite(a, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def truth(a):
    if a.b:
        return a
    if a.op == "ite":
        return _lift(truth, [a])
    if a is NULL:
        return FALSE
    if isnum(a):
        return TRUE if numval(a) != 0 else FALSE
    if a.op in ("addr", "new", "str", "lambda"):
        return TRUE
    return not_(eq(a, ZERO))


def asnum(a):
    """numeric view of a possibly boolean value"""
    if a is TRUE:
        return ONE
    if a is FALSE:
        return ZERO
    if a.op == "ite":
        return _lift(asnum, [a]) if a.b else a
    if a.b:
        return ite(a, ONE, ZERO)
    if a is NULL:
        return ZERO
    return a


# ---------------------------------------------------------------- arithmetic
def _items(t):
    if t.op == "poly":
        return t.args
    return (Fraction(0), ((((t, 1),), Fraction(1)),))


def _mk(c0, d):
    it = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: [(a.id, e) for a, e in x[0]]))
    return _poly(c0, it)


def _add2(a, b):
    ca, ia = _items(a)
    cb, ib = _items(b)
    d = dict(ia)
    for m, c in ib:
        d[m] = d.get(m, 0) + c
    return _mk(ca + cb, d)


def add(a, b):
    a, b = asnum(a), asnum(b)
    if (a.op == "ite" or b.op == "ite") and liftable([a, b]):
        return _lift(_add2, [a, b])
    return _add2(a, b)


def _mulmono(m1, m2):
    d = {}
    for x, e in m1 + m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: p[0].id))


BIG = [4000]     # a product of sums with more terms than this is kept as a product


def _mul2(a, b):
    ca, ia = _items(a)
    cb, ib = _items(b)
    d, c0 = {}, ca * cb
    if len(ia) * len(ib) > BIG[0]:
        return _intern("bigmul", tuple(sorted((a, b), key=lambda t: t.id)))
    for m, c in ia:
        if cb:
            d[m] = d.get(m, 0) + c * cb
    for m, c in ib:
        if ca:
            d[m] = d.get(m, 0) + c * ca
    for m1, c1 in ia:
        for m2, c2 in ib:
            m = _mulmono(m1, m2)
            if m:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                c0 += c1 * c2
    # square roots and cos^2 normalisation
    r = _mk(c0, d)
    return _trig(r)


def _trig(p):
    """rewrite sqrt(x)^2 -> x, cos(x)^2 -> 1 - sin(x)^2"""
    if p.op != "poly":
        return p
    changed = False
    acc = num(p.args[0])
    for m, c in p.args[1]:
        factors = None
        for i, (x, e) in enumerate(m):
            if e >= 2 and x.op == "call" and x.args[0] in ("sqrt", "cos"):
                rest = list(m)
                if e == 2:
                    del rest[i]
                else:
                    rest[i] = (x, e - 2)
                rest = _poly(Fraction(0), ((tuple(rest), Fraction(c)),)) if rest else num(c)
                if x.args[0] == "sqrt":
                    f = x.args[1]
                else:
                    s = mk("call", "sin", x.args[1])
                    f = sub(ONE, _mul2(s, s))
                factors = (rest, f)
                break
        if factors:
            changed = True
            acc = _add2(acc, _mul2(factors[0], factors[1]))
        else:
            acc = _add2(acc, _poly(Fraction(0), ((m, c),)))
    return acc if changed else p


def mul(a, b):
    a, b = asnum(a), asnum(b)
    if (a.op == "ite" or b.op == "ite") and liftable([a, b]):
        return _lift(_mul2, [a, b])
    return _mul2(a, b)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _inv(b):
    if isnum(b):
        if numval(b) == 0:
            return _intern("inv0", ())
        return num(1 / numval(b))
    if b.op == "poly":
        c0, it = b.args
        if c0 == 0 and len(it) == 1:
            m, c = it[0]
            return _poly(Fraction(0), ((tuple((x, -e) for x, e in m), 1 / c),)) if not (len(m) == 1 and m[0][1] == -1 and c == 1) else m[0][0]
        lead = it[0][1]
        n = _poly(c0 / lead, tuple((m, c / lead) for m, c in it))
        # an atomic (non-monomial) denominator
        a = _intern("den", (n,))
        return _poly(Fraction(0), ((((a, -1),), 1 / lead),))
    if b.op == "den":
        pass
    return _poly(Fraction(0), ((((b, -1),), Fraction(1)),))


def div(a, b):
    a, b = asnum(a), asnum(b)
    if b.op == "ite" and liftable([b]):
        ib = _lift(_inv, [b])
    else:
        ib = _inv(b)
    # sum/sum identical
    r = mul(a, ib)
    return r


def idiv(a, b):
    def f(x, y):
        if isnum(x) and isnum(y) and numval(y) != 0:
            q = abs(numval(x)) // abs(numval(y))
            return num(q if (numval(x) >= 0) == (numval(y) >= 0) else -q)
        if isnum(y) and numval(y) == 1:
            return x
        return _intern("idiv", (x, y))
    return _lift(f, [asnum(a), asnum(b)])


def imod(a, b):
    def f(x, y):
        if isnum(x) and isnum(y) and numval(y) != 0:
            q = abs(numval(x)) % abs(numval(y))
            return num(q if numval(x) >= 0 else -q)
        return _intern("imod", (x, y))
    return _lift(f, [asnum(a), asnum(b)])


# --------------------------------------------------------------- comparisons
def _norm(p):
    """(sign, lead, normalised poly) with leading coefficient 1"""
    c0, it = p.args
    lead = it[0][1]
    return lead, _poly(c0 / lead, tuple((m, c / lead) for m, c in it))


def lt(a, b, isint=False):
    """a < b"""
    def f(x, y):
        p = _add2(x, _mul2(num(-1), y))
        if isnum(p):
            return TRUE if numval(p) < 0 else FALSE
        c0, it = _items(p)
        lead = it[0][1]
        if isint and all(c.denominator == 1 for _, c in it) and c0.denominator == 1:
            # integers: p < 0
            if lead < 0:
                # p<0  <=>  not(-p-1 < 0)   (-p-1<0 <=> -p<=0 <=> p>=0)
                q = _add2(_mul2(num(-1), p), num(-1))
                return not_(_ltatom(q, True))
            return _ltatom(p, True)
        if lead > 0:
            return _ltatom(_scale(p), False)
        q = _scale(p)  # p = lead*q, lead<0: p<0 <=> q>0 <=> not(q<=0)
        return not_(_leatom(q))
    a, b = asnum(a), asnum(b)
    if liftable([a, b]):
        return _lift(f, [a, b])
    return f(a, b)


def le(a, b, isint=False):
    return not_(lt(b, a, isint))


def _scale(p):
    c0, it = _items(p)
    lead = it[0][1]
    return _poly(c0 / lead, tuple((m, c / lead) for m, c in it))


def _ltatom(q, isint):
    q = nonneg_simpl(q) if False else q
    if isint and _nonneg(q):
        return FALSE
    if isint:
        q1 = _add2(q, ONE)
        if _nonneg(q1):
            # q >= -1: negative only at -1
            return TRUE if isnum(q1) and numval(q1) == 0 else eq(q1, ZERO)
    return _intern("lt0i" if isint else "lt0", (q,), True)


def _leatom(q):
    return _intern("le0", (q,), True)


_NONNEG_OPS = {"size", "count", "rows", "cols", "first", "strlen"}


def _less_search(it):
    """drop the pairs  c*n - c*first(n, P)  (non-negative) of a sum"""
    it = list(it)
    for m, c in list(it):
        if c < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "first":
            n = m[0][0].args[0]
            for m2, c2 in it:
                if c2 == -c and len(m2) == 1 and m2[0][1] == 1 and m2[0][0] is n:
                    it.remove((m, c))
                    it.remove((m2, c2))
                    break
    return it


def _nonneg(q):
    """q is a polynomial with only non-negative contributions"""
    c0, it = _items(q)
    if c0 < 0:
        return False
    if any(c < 0 for _, c in it):
        it = _less_search(it)
    for m, c in it:
        if c < 0:
            return False
        for x, e in m:
            if x.op in _NONNEG_OPS or (x.op == "sym" and isinstance(x.args[0], str) and x.args[0].startswith("k#")) or x.op == "bv" or e % 2 == 0:
                continue
            return False
    return True


def eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.b and y.b:
            return ite(x, y, not_(y))
        if x.op in ("str", "enumv") and y.op == x.op:
            return FALSE
        ptr = ("addr", "new", "lambda")
        if (x.op in ptr and y is NULL) or (y.op in ptr and x is NULL):
            return FALSE
        if x.op == "addr" and y.op == "addr":
            return _addreq(x.args[0], y.args[0])
        if x.op in ptr and y.op in ptr:
            return FALSE if x is not y else TRUE
        if x is NULL or y is NULL or x.op in ("str",) or y.op in ("str",):
            x = ZERO if x is NULL else x
            y = ZERO if y is NULL else y
            p, q = sorted((x, y), key=lambda t: t.id)
            if p is ZERO or q is ZERO:
                other = q if p is ZERO else p
                if other.op == "str":
                    return FALSE
                return _intern("eq0", (other,), True)
            return _intern("eq", (p, q), True)
        r = _iter_eq(x, y)
        if r is not None:
            return r
        p = _add2(x, _mul2(num(-1), y))
        if isnum(p):
            return TRUE if numval(p) == 0 else FALSE
        p = _scale(p)
        r = _intern("eq0", (p,), True)
        if r.id not in _FACTED:
            _FACTED.add(r.id)
            _search_fact(r)
        return r
    if a.b != b.b:
        a, b = asnum(a), asnum(b)
    if liftable([a, b]):
        return _lift(f, [a, b])
    return f(a, b)


def _addreq(l1, l2):
    """equality of two locations"""
    if l1[0] != l2[0]:
        if l1[0][0] == "D" and l2[0][0] == "D" and len(l1[1]) == len(l2[1]):
            r = eq(l1[0][1], l2[0][1])
        else:
            return FALSE
    else:
        r = TRUE
    if len(l1[1]) != len(l2[1]):
        return FALSE
    for a, b in zip(l1[1], l2[1]):
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return FALSE
        elif a[0] != b[0] or len(a) != len(b):
            return FALSE
        else:
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, T):
                    r = and_(r, idxeq2(x, y))
    return r


def idxeq2(x, y):
    if x.op == "ix" or y.op == "ix":
        return _ixeq(x, y) or FALSE
    return eq(x, y)


def _iter_eq(x, y):
    for p, q in ((x, y), (y, x)):
        if p.op == "find" and q.op == "iter" and p.args[0] is q.args[0]:
            # find(container, key, value at the time): compared with end()
            return not_(mk("has", p.args[2], p.args[1], b=True))
        if p.op == "iter" and q.op == "iter" and p.args[0] is q.args[0]:
            return eq(p.args[1], q.args[1])
    return None


# ---------------------------------------------------------------- generic mk
RULES = {}


def rule(*ops):
    def deco(f):
        for o in ops:
            RULES[o] = f
        return f
    return deco


NOLIFT = {"lam", "scat", "sum", "iter", "proj", "first", "store", "struct", "seq", "arr1", "arr2", "addr", "mat",
          "pushall", "catall", "fix", "proj", "newarr", "strfill", "manip", "obj", "any", "setof", "app", "appall", "exc", "tuple", "cat", "push_back", "ev"}


def mk(op, *args, b=False):
    """build op(args) with simplification; args are T or python atoms"""
    if op == "ite":
        return ite(*args)
    if op == "poly":
        raise ValueError
    if op not in NOLIFT:
        ts = [a for a in args if isinstance(a, T)]
        if any(a.op == "ite" for a in ts) and liftable(ts):
            pos = [i for i, a in enumerate(args) if isinstance(a, T)]

            def g(*xs):
                al = list(args)
                for i, x in zip(pos, xs):
                    al[i] = x
                return _mk1(op, tuple(al), b)
            return _lift(g, ts)
    return _mk1(op, args, b)


def _mk1(op, args, b):
    r = RULES.get(op)
    if r is not None:
        v = r(*args, b=b) if op in _WANTB else r(*args)
        if v is not None:
            return v
    return _intern(op, tuple(args), b)


_WANTB = set()


def distinct(i, j):
    """provably different index terms"""
    if i is j:
        return False
    if i.op in ("str",) and j.op in ("str",):
        return True
    if i.op in ("str", "null") or j.op in ("str", "null"):
        return False
    d = sub(i, j)
    return isnum(d) and numval(d) != 0


def idxeq(i, j):
    if isinstance(i, tuple):
        r = TRUE
        for a, b in zip(i, j):
            r = and_(r, eq(a, b))
        return r
    return eq(i, j)


# sel(arr, i) / store(arr, i, v):  i is a T (tuples of indices are packed with 'ix')
def ix(*a):
    return a[0] if len(a) == 1 else mk("ix", *a)


def _ixeq(i, j):
    if i is j:
        return TRUE
    if i.op == "ix" and j.op == "ix" and len(i.args) == len(j.args):
        r = TRUE
        for a, b in zip(i.args, j.args):
            r = and_(r, eq(a, b))
        return r
    if i.op == "ix" or j.op == "ix":
        return None
    return eq(i, j)


VECT = {"Eigen::Matrix<double, -1, 1, 0, -1, 1>", "Eigen::VectorXd"}


def isvecval(a):
    if a.op in ("arr1", "vec", "empty"):
        return True
    if a.op == "mat":
        return a.args[1] is ONE
    if a.op in ("store", "stblk", "resize", "scat"):
        return isvecval(a.args[0]) or a.op == "resize" and len(a.args) == 2
    if a.op == "ite":
        return isvecval(a.args[1]) or isvecval(a.args[2])
    t = TYPES.get(a)
    if t is None:
        return False
    return t.startswith("Eigen::Matrix<") and t.split(",")[2].strip() == "1"


@rule("rows")
def _rows(a):
    if a.op == "empty":
        return ZERO
    if a.op in ("mat", "arr2"):
        return a.args[0]
    if a.op == "arr1":
        return a.args[0]
    if a.op in ("store", "stblk"):
        return mk("rows", a.args[0])
    if a.op == "resize":
        return a.args[1]
    if isvecval(a):
        return mk("size", a)
    return None


@rule("cols")
def _cols(a):
    if a.op == "empty":
        return ONE
    if a.op in ("mat", "arr2"):
        return a.args[1]
    if a.op == "arr1":
        return ONE
    if a.op in ("store", "stblk"):
        return mk("cols", a.args[0])
    if a.op == "resize" and len(a.args) == 3:
        return a.args[2]
    if isvecval(a):
        return ONE
    return None


@rule("arr1")
def _arr1(n, l):
    bs, body = l.args[0], l.args[-1]
    body2 = rng_simpl(body, bs, n)
    if body2 is not body:
        l = close([bs], body2) if bs.op != "bv" else _reclose(l, body2)
        body = l.args[-1]
    if body.op == "sel" and body.args[1] is l.args[0] and not contains_sym(body.args[0], l.args[0]):
        if mk("size", body.args[0]) is n:
            return body.args[0]
    if isnum(n) and 0 <= numval(n) <= 16 and numval(n).denominator == 1:
        return mk("mat", n, ONE, *[app(l, num(i)) for i in range(int(numval(n)))])
    return _intern("arr1", (n, l))


def _reclose(l, body):
    bs = l.args[:-1]
    fs = [fresh("b") for _ in bs]
    return close(fs, subst(body, dict(zip(bs, fs))))


@rule("arr2")
def _arr2(r, c, l):
    i, j, body = l.args
    body2 = rng_simpl(rng_simpl(body, i, r), j, c)
    if body2 is not body:
        l = _reclose(l, body2)
        i, j, body = l.args
    if body.op == "sel" and body.args[1].op == "ix" and body.args[1].args == (i, j) and not contains_sym(body.args[0], i) and not contains_sym(body.args[0], j):
        if mk("rows", body.args[0]) is r and mk("cols", body.args[0]) is c:
            return body.args[0]
    if isnum(r) and isnum(c) and 0 <= numval(r) * numval(c) <= 64:
        return mk("mat", r, c, *[app(l, num(x), num(y)) for x in range(int(numval(r))) for y in range(int(numval(c)))])
    return _intern("arr2", (r, c, l))


def _selif(i, lo, n, inner, outer):
    c = and_(le(lo, i, True), lt(i, add(lo, n), True))
    return ite(c, inner(sub(i, lo)), outer) if c is not TRUE else inner(sub(i, lo))


@rule("sel")
def _sel(a, i):
    if a is UNDEF:
        return UNDEF
    if a.op == "resize" and i.op != "ix" and len(a.args) == 2:
        old = a.args[0]
        if old is UNDEF:
            return UNDEF
        return ite(eq(mk("size", old), a.args[1]), mk("sel", old, i), UNDEF)
    if a.op == "resize" and i.op == "ix" and len(a.args) == 3:
        old = a.args[0]
        if old is UNDEF:
            return UNDEF
        return ite(and_(eq(mk("rows", old), a.args[1]), eq(mk("cols", old), a.args[2])), mk("sel", old, i), UNDEF)
    if a.op == "vresize" and i.op != "ix":      # std::vector::resize(n, v)
        return ite(lt(i, mk("size", a.args[0]), True), mk("sel", a.args[0], i), a.args[2])
    if a.op == "ite":
        return ite(a.args[0], mk("sel", a.args[1], i), mk("sel", a.args[2], i))
    if i.op == "ix" and i.args[1] is ZERO and isvecval(a) and a.op != "mat":
        return mk("sel", a, i.args[0])
    if a.op == "store":
        j = a.args[1]
        c = _ixeq(i, j)
        if c is TRUE:
            return a.args[2]
        if c is FALSE:
            return mk("sel", a.args[0], i)
        if c is not None:
            return ite(c, a.args[2], mk("sel", a.args[0], i))
    if a.op == "fill":       # every element v
        return a.args[-1]
    if a.op == "arr1":
        return app(a.args[1], i.args[0] if i.op == "ix" else i)
    if a.op == "arr2":
        if i.op == "ix":
            return app(a.args[2], *i.args)
        if a.args[1] is ONE:
            return app(a.args[2], i, ZERO)
        if a.args[0] is ONE:
            return app(a.args[2], ZERO, i)
    if a.op == "mat":        # mat(r, c, entries...)
        r, c = int(numval(a.args[0])), int(numval(a.args[1]))
        if i.op == "ix":
            if isnum(i.args[0]) and isnum(i.args[1]):
                p, q = numval(i.args[0]), numval(i.args[1])
                if 0 <= p < r and 0 <= q < c:
                    return a.args[2 + int(p) * c + int(q)]
        elif isnum(i):
            k = numval(i)
            if 0 <= k < r * c and k.denominator == 1:
                k = int(k)
                return a.args[2 + (k % r) * c + k // r]
    if a.op == "stblk":      # stblk(m, r0, c0, nr, nc, v)
        m, r0, c0, nr, nc, v = a.args
        if i.op == "ix":
            c = and_(and_(le(r0, i.args[0], True), lt(i.args[0], add(r0, nr), True)),
                     and_(le(c0, i.args[1], True), lt(i.args[1], add(c0, nc), True)))
            return ite(c, elt(v, sub(i.args[0], r0), sub(i.args[1], c0)), mk("sel", m, i))
        c = and_(le(r0, i, True), lt(i, add(r0, nr), True))
        return ite(c, elt(v, sub(i, r0), ZERO), mk("sel", m, i))
    if a.op == "push_back" and i.op != "ix":
        return ite(eq(i, mk("size", a.args[0])), a.args[1], mk("sel", a.args[0], i))
    if a.op == "push_front":
        return ite(eq(i, ZERO), a.args[1], mk("sel", a.args[0], sub(i, ONE)))
    if a.op == "scat":
        return app(a.args[1], *(i.args if i.op == "ix" else (i,)))
    if a.op == "pushall":
        return ite(lt(i, mk("size", a.args[0]), True), mk("sel", a.args[0], i), app(a.args[2], sub(i, mk("size", a.args[0]))))
    if a.op == "erase1":
        return ite(lt(i, a.args[1], True), mk("sel", a.args[0], i), mk("sel", a.args[0], add(i, ONE)))
    if a.op == "insert1":
        return ite(lt(i, a.args[1], True), mk("sel", a.args[0], i), ite(eq(i, a.args[1]), a.args[2], mk("sel", a.args[0], sub(i, ONE))))
    if a.op == "pop_back":
        return mk("sel", a.args[0], i)
    if a.op == "pop_front":
        return mk("sel", a.args[0], add(i, ONE))
    if a.op == "seq" and isnum(i) and 0 <= numval(i) < len(a.args):
        return a.args[int(numval(i))]
    return None


def elt(v, i, j):
    """element (i,j) of a matrix or vector value"""
    if v.op == "ite":
        return ite(v.args[0], elt(v.args[1], i, j), elt(v.args[2], i, j))
    if isvecval(v) and v.op != "mat":
        return mk("sel", v, i)
    return mk("sel", v, ix(i, j))


@rule("store")
def _store(a, i, v):
    if v.op == "sel" and v.args[0] is a and v.args[1] is i:
        return a
    if i.op == "ix" and i.args[1] is ZERO and isvecval(a) and a.op != "mat":
        return mk("store", a, i.args[0], v)
    if a.op == "store":
        if a.args[1] is i:
            return mk("store", a.args[0], i, v)
        c = _ixeq(i, a.args[1])
        if c is FALSE and i.id < a.args[1].id:
            return _intern("store", (mk("store", a.args[0], i, v), a.args[1], a.args[2]))
    if a.op == "mat":
        r, c = int(numval(a.args[0])), int(numval(a.args[1]))
        k = None
        if i.op == "ix":
            if isnum(i.args[0]) and isnum(i.args[1]):
                if 0 <= numval(i.args[0]) < r and 0 <= numval(i.args[1]) < c:
                    k = int(numval(i.args[0])) * c + int(numval(i.args[1]))
        elif isnum(i) and 0 <= numval(i) < r * c:
            k0 = int(numval(i))
            k = (k0 % r) * c + k0 // r
        if k is not None:
            l = list(a.args)
            l[2 + k] = v
            return _intern("mat", tuple(l))
        # symbolic index: element-wise choice
        if i.op != "ix" and c == 1 and r <= 16:
            return _intern("mat", a.args[:2] + tuple(ite(eq(i, num(q)), v, a.args[2 + q]) for q in range(r)))
        if i.op == "ix" and r * c <= 36:
            return _intern("mat", a.args[:2] + tuple(ite(and_(eq(i.args[0], num(q // c)), eq(i.args[1], num(q % c))), v, a.args[2 + q]) for q in range(r * c)))
    if a.op == "arr1" and i.op != "ix":
        return mk("arr1", a.args[0], _lamstore(a.args[1], (i,), v))
    if a.op == "arr2" and i.op == "ix":
        return mk("arr2", a.args[0], a.args[1], _lamstore(a.args[2], i.args, v))
    return None


def _lamstore(l, idx, v):
    fs = [fresh("b") for _ in idx]
    c = TRUE
    for f, i in zip(fs, idx):
        c = and_(c, eq(f, i))
    return close(fs, ite(c, v, app(l, *fs)))


@rule("size")
def _size(a):
    if a.op in ("store", "stblk", "scat"):
        return mk("size", a.args[0])
    if a.op == "resize":
        r = ONE
        for x in a.args[1:]:
            r = mul(r, x)
        return r
    if a.op in ("push_back", "push_front", "insert1"):
        return add(mk("size", a.args[0]), ONE)
    if a.op in ("pop_back", "pop_front", "erase1"):
        return sub(mk("size", a.args[0]), ONE)
    if a.op == "empty":
        return ZERO
    if a.op == "str":
        return num(len(a.args[0]))
    if a.op in ("fill", "arr2", "mat"):
        r = ONE
        for x in (a.args[:2] if a.op != "fill" else a.args[:-1]):
            r = mul(r, x)
        return r
    if a.op in ("arr1", "pushall"):
        return a.args[0] if a.op == "arr1" else add(mk("size", a.args[0]), a.args[1])
    if a.op == "vresize":
        return a.args[1]
    if a.op == "cat":
        r = ZERO
        for x in a.args:
            r = add(r, mk("size", x))
        return r
    if a.op == "seq":
        return num(len(a.args))
    t = TYPES.get(a)
    if t and t.startswith("Eigen::Matrix<") and not isvecval(a):
        return mul(mk("rows", a), mk("cols", a))
    return None


@rule("has")
def _has(m, k, b=True):
    if m.op == "store":
        return or_(eq(k, m.args[1]), mk("has", m.args[0], k, b=True))
    if m.op == "erasek":
        return and_(not_(eq(k, m.args[1])), mk("has", m.args[0], k, b=True))
    if m.op == "empty":
        return FALSE
    return None


_WANTB.add("has")


@rule("erasek")
def _erasek(m, k):
    if m.op == "store" and m.args[1] is k:
        return mk("erasek", m.args[0], k)
    if m.op == "erasek" and m.args[1] is k:
        return m
    if m.op == "empty":
        return m
    return None


@rule("sum")
def _sum(n, l):
    """sum over 0 <= k < n"""
    if n.op == "ite":
        return ite(n.args[0], mk("sum", n.args[1], l), mk("sum", n.args[2], l))
    k, body = l.args
    if body is ZERO:
        return ZERO
    if isnum(n) and numval(n) <= 32:
        acc = ZERO
        for i in range(max(0, int(numval(n)))):
            acc = add(acc, app(l, num(i)))
        return acc
    b2 = rng_simpl(body, k, n)
    if b2 is not body:
        l = _reclose(l, b2)
        k, body = l.args
    if not contains_sym(body, k):
        return mul(n, body)
    if body.op == "poly" and (len(body.args[1]) > 1 or body.args[0] != 0 or body.args[1][0][1] != 1 or
                              any(not contains_sym(x, k) for x, e in body.args[1][0][0])):
        acc = mul(n, num(body.args[0]))
        f = fresh("b")
        for m, c in body.args[1]:
            out, inn = num(c), ONE
            for x, e in m:
                q = _poly(Fraction(0), ((((x, e),), Fraction(1)),))
                if contains_sym(x, k):
                    inn = _mul2(inn, q)
                else:
                    out = _mul2(out, q)
            if inn is ONE:
                acc = add(acc, mul(n, out))
            else:
                acc = add(acc, mul(out, mk("sum", n, close([f], subst(inn, {k: f})))))
        return acc
    # direction: k -> n-1-k
    return None


@rule("first")
def _first(n, l):
    """least 0 <= k < n with l(k), else n   (n may be 'inf')"""
    k, body = l.args
    if n is not INF:
        b2 = rng_simpl(body, k, n)
        if b2 is not body:
            l = _reclose(l, b2)
            k, body = l.args
    if body is FALSE:
        return n
    if body is TRUE:
        return ZERO if n is INF else ite(lt(ZERO, n, True), ZERO, n)
    if isnum(n) and numval(n) <= 16:
        r = n
        for i in reversed(range(int(numval(n)))):
            r = ite(app(l, num(i)), num(i), r)
        return r
    return None


INF = _intern("inf", ())


@rule("dep")
def _dep(kind, x, s):
    """dep(addDependency | removeDependency | setReady, signal object, &signal)"""
    if x.op != "dep":
        return None
    k2, x2, s2 = x.args
    if kind == "setReady":
        return x if k2 == "setReady" else None
    if k2 == "setReady":
        return mk("dep", "setReady", mk("dep", kind, x2, s), s2)
    if s2 is s:
        return x if kind == k2 else mk("dep", kind, x2, s)
    if kind == k2 and s.id < s2.id:
        return mk("dep", kind, mk("dep", kind, x2, s), s2)
    return None


@rule("fld")
def _fld(o, n):
    if o is UNDEF:
        return UNDEF
    if o.op == "ite":
        return gate(o.args[0], mk("fld", o.args[1], n), mk("fld", o.args[2], n))
    if o.op == "struct":
        # struct(base, n1, v1, n2, v2...)
        for k in range(1, len(o.args), 2):
            if o.args[k] == n:
                return o.args[k + 1]
        if o.args[0] is UNDEF:
            return None
        return mk("fld", o.args[0], n)
    if o.op == "pair":
        if n == "first":
            return o.args[0]
        if n == "second":
            return o.args[1]
    return None


# ------------------------------------------------------------------- binders
TYPES = {}      # term -> C++ type string (opaque values)
_hmemo = {}


def height(t):
    r = _hmemo.get(t.id)
    if r is None:
        r = 0
        for x in subterms(t):
            if x.op == "lam":
                r = max(r, x.args[-2 if False else 0].args[1])
        _hmemo[t.id] = r
    return r


def close(syms, body):
    """lam(bound..., body) with canonical bound names"""
    h = height(body) + 1
    bs = [_intern("bv", ("%%u%d.%d" % (h, j), h)) for j in range(len(syms))]
    return _intern("lam", tuple(bs) + (subst(body, dict(zip(syms, bs))),))


def lam(n, f, kind="k"):
    fs = [fresh(kind) for _ in range(n)]
    return close(fs, f(*fs))


def app(l, *args):
    bs = l.args[:-1]
    if len(bs) != len(args):
        raise ValueError("arity")
    return subst(l.args[-1], dict(zip(bs, args)))


def contains_sym(t, k):
    return any(x is k for x in subterms(t))


def _subst_loc(x, m, memo):
    if isinstance(x, T):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_subst_loc(y, m, memo) for y in x)
    return x


def rng_simpl(body, i, n):
    """simplify body knowing 0 <= i < n (integers)"""
    m = {}
    for a, v in ((lt(i, ZERO, True), FALSE), (lt(i, n, True), TRUE)):
        if a.op in ("true", "false"):
            continue
        if a.op == "ite":        # negated atom
            if a.args[1] is FALSE and a.args[2] is TRUE:
                m[a.args[0]] = TRUE if v is FALSE else FALSE
            continue
        m[a] = v
    return subst(body, m) if m else body


# --------------------------------------------------------------- traversal
def subst(t, m, memo=None):
    """m: dict T->T"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "poly":
        acc = num(t.args[0])
        for mono, c in t.args[1]:
            p = num(c)
            for x, e in mono:
                y = subst(x, m, memo)
                if e > 0:
                    for _ in range(e):
                        p = mul(p, y)
                else:
                    for _ in range(-e):
                        p = div(p, y)
            acc = add(acc, p)
        r = acc
    elif t.op == "den":
        r = subst(t.args[0], m, memo)
        if r.op == "poly" and not isnum(r):
            # keep as denominator atom
            n = _scale(r)
            if n is r:
                r = _intern("den", (r,))
    elif t.op == "ite":
        r = ite(truth(subst(t.args[0], m, memo)), subst(t.args[1], m, memo), subst(t.args[2], m, memo))
    elif t.op in ("lt0", "lt0i", "le0"):
        p = subst(t.args[0], m, memo)
        r = lt(p, ZERO, t.op == "lt0i") if t.op != "le0" else le(p, ZERO)
    elif t.op == "eq0":
        r = eq(subst(t.args[0], m, memo), ZERO)
    elif t.op == "eq":
        x, y = subst(t.args[0], m, memo), subst(t.args[1], m, memo)
        r = streq(x, y) if _text(x) or _text(y) or t.args[0].op == t.args[1].op == "sym" else eq(x, y)
    elif t.op == "idiv":
        r = idiv(subst(t.args[0], m, memo), subst(t.args[1], m, memo))
    elif t.op == "imod":
        r = imod(subst(t.args[0], m, memo), subst(t.args[1], m, memo))
    elif t.op == "lam":
        if not any(contains_sym(t, k) for k in m):
            r = t
        else:
            bs = t.args[:-1]
            fs = [fresh("b") for _ in bs]
            body = subst(subst(t.args[-1], dict(zip(bs, fs))), m)
            r = close(fs, body)
    elif t.op == "addr":
        r = _intern("addr", (_subst_loc(t.args[0], m, memo),))
    else:
        ch = False
        na = []
        for a in t.args:
            if isinstance(a, T):
                x = subst(a, m, memo)
                ch = ch or (x is not a)
                na.append(x)
            else:
                na.append(a)
        r = mk(t.op, *na, b=t.b) if ch else t
    if t in TYPES and r not in TYPES and r.op not in ("poly", "ite", "mat", "arr1", "arr2", "store"):
        TYPES[r] = TYPES[t]
    memo[t.id] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op == "poly":
            for mono, c in x.args[1]:
                for y, e in mono:
                    stack.append(y)
        else:
            for y in x.args:
                if isinstance(y, T):
                    stack.append(y)
                elif isinstance(y, tuple):
                    _locterms(y, stack)


def _locterms(x, out):
    for y in x:
        if isinstance(y, T):
            out.append(y)
        elif isinstance(y, tuple):
            _locterms(y, out)


def contains(t, xs):
    s = {x.id for x in xs} if not isinstance(xs, T) else {xs.id}
    return any(x.id in s for x in subterms(t))


def has_op(t, ops):
    return any(x.op in ops for x in subterms(t))


def atoms_of(t):
    """condition atoms of a decision diagram"""
    r, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            r.append(x.args[0])
            st += [x.args[1], x.args[2]]
        elif x.b and x not in (TRUE, FALSE):
            r.append(x)
    return r


def paths(t, lim=4096):
    """[(literals, leaf)] of a decision diagram; boolean leaves expanded"""
    out = []

    def go(x, lits):
        if len(out) > lim:
            return
        if x.op == "ite":
            go(x.args[1], lits + [(x.args[0], True)])
            go(x.args[2], lits + [(x.args[0], False)])
        elif x.b and x not in (TRUE, FALSE):
            out.append((lits + [(x, True)], TRUE))
            out.append((lits + [(x, False)], FALSE))
        else:
            out.append((lits, x))
    go(t, [])
    return out


def feasible(lits):
    """interval reasoning over literals that bound the same linear form, plus
    congruence on equalities with constants"""
    b = {}
    for a, v in lits:
        if a is TRUE:
            if not v:
                return False
            continue
        if a is FALSE:
            if v:
                return False
            continue
        if a.op in ("lt0", "lt0i", "le0", "eq0") :
            c0, it = _items(a.args[0])
            if not it:
                continue
            lead = it[0][1]
            key = tuple((m, c / lead) for m, c in it)
            isint = a.op == "lt0i"
            # form: lead*key + c0 REL 0  (lead>0 by construction)
            k = -c0 / lead
            lo, los, hi, his, ne, ii = b.get(key, (None, False, None, False, set(), False))
            ii = ii or isint
            if a.op in ("lt0", "lt0i"):
                if v:
                    if hi is None or k < hi or (k == hi and not his):
                        hi, his = k, True
                else:
                    if lo is None or k > lo:
                        lo, los = k, False
            elif a.op == "le0":
                if v:
                    if hi is None or k < hi:
                        hi, his = k, False
                else:
                    if lo is None or k > lo or (k == lo and not los):
                        lo, los = k, True
            else:
                if v:
                    if lo is None or k > lo:
                        lo, los = k, False
                    if hi is None or k < hi:
                        hi, his = k, False
                else:
                    ne = ne | {k}
            b[key] = (lo, los, hi, his, ne, ii)
    for lo, los, hi, his, ne, ii in b.values():
        if lo is not None and hi is not None:
            if lo > hi:
                return False
            if lo == hi and (los or his):
                return False
            if lo == hi and lo in ne:
                return False
            if ii:
                import math
                l = math.floor(lo) + 1 if los else math.ceil(lo)
                h = math.ceil(hi) - 1 if his else math.floor(hi)
                while l in ne:
                    l += 1
                if l > h:
                    return False
    return True


def same(a, b):
    """equality of gated values modulo infeasible combinations of conditions.
    returns (True, None) or (False, (literals, leaf a, leaf b))"""
    if a is b:
        return True, None
    diff = []
    seen = set()

    def go(x, y, lits):
        if x is y or len(diff) > 0:
            return
        if not feasible(lits):
            return
        v = None
        for z in (x, y):
            w = _top(z)
            if w is not None and (v is None or w.id < v.id):
                v = w
        if v is None:
            x2, y2 = reduce_under(x, lits), reduce_under(y, lits)
            if x2 is not y2:
                diff.append((lits, x2, y2))
            return
        go(cof(x, v, 1), cof(y, v, 1), lits + [(v, True)])
        go(cof(x, v, 0), cof(y, v, 0), lits + [(v, False)])
    go(a, b, [])
    if diff:
        return False, diff[0]
    return True, None


def reduce_under(t, lits):
    """use equalities known on the path"""
    m = {}
    for a, v in lits:
        if v and a.op == "eq0":
            c0, it = _items(a.args[0])
            # atom == -c0
            if len(it) == 1 and len(it[0][0]) == 1 and it[0][0][0][1] == 1:
                m[it[0][0][0][0]] = num(-c0 / it[0][1])
        elif a.b and a.op not in ("lt0", "lt0i", "le0", "eq0", "eq"):
            m[a] = TRUE if v else FALSE
    if not m:
        return t
    return subst(t, m)


def restrict(t, lits):
    """simplify decision diagram t under assumed literals"""
    for a, v in lits:
        t = subst(t, {a: TRUE if v else FALSE}) if not _deep(t, a) else _cofdeep(t, a, v)
    return t


def _deep(t, a):
    return True


def _cofdeep(t, a, v, memo=None):
    if memo is None:
        memo = {}
    if t is a:
        return TRUE if v else FALSE
    if t.op != "ite":
        return t
    r = memo.get(t.id)
    if r is None:
        if t.args[0] is a:
            r = _cofdeep(t.args[1 if v else 2], a, v, memo)
        else:
            r = ite(t.args[0], _cofdeep(t.args[1], a, v, memo), _cofdeep(t.args[2], a, v, memo))
        memo[t.id] = r
    return r


# ------------------------------------------------------------------- printing
def show(t, d=6):
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return "…"
    o = t.op
    if o == "poly":
        c0, it = t.args
        parts = []
        for m, c in it:
            ms = "*".join(("%s^%d" % (show(x, d - 1), e) if e != 1 else show(x, d - 1)) for x, e in m)
            parts.append(ms if c == 1 else ("-" + ms if c == -1 else "%s*%s" % (c, ms)))
        if c0 != 0 or not parts:
            parts.append(str(c0))
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if o in ("true", "false", "null", "undef"):
        return o
    if o == "sym":
        return str(t.args[0]).split("@")[0]
    if o == "bv":
        return t.args[0]
    if o == "addr":
        return "&" + _showloc(t.args[0], d - 1)
    if o == "str":
        return repr(t.args[0])
    if o == "ite":
        return "[%s ? %s : %s]" % tuple(show(x, d - 1) for x in t.args)
    if o == "lt0" or o == "lt0i":
        return "%s<0" % show(t.args[0], d - 1)
    if o == "le0":
        return "%s<=0" % show(t.args[0], d - 1)
    if o == "eq0":
        return "%s==0" % show(t.args[0], d - 1)
    if o == "den":
        return "(%s)" % show(t.args[0], d - 1)
    if o == "sel":
        return "%s[%s]" % (show(t.args[0], d - 1), show(t.args[1], d - 1))
    if o == "ix":
        return ",".join(show(x, d - 1) for x in t.args)
    if o == "fld":
        return "%s.%s" % (show(t.args[0], d - 1), t.args[1])
    return "%s(%s)" % (o, ", ".join(show(x, d - 1) for x in t.args))


def _showloc(x, d):
    if isinstance(x, T):
        return show(x, d)
    if isinstance(x, tuple):
        return ".".join(_showloc(y, d) for y in x)
    return str(x)


def _text(x):
    return x.op in ("str", "cat", "tostr", "substr") or x.op == "ite" and (_text(x.args[1]) or _text(x.args[2]))


def streq(x, y):
    """equality of two string terms; common prefixes and suffixes cancel"""
    def parts(z):
        return list(z.args) if z.op == "cat" else [z]

    def f(x, y):
        p, q = parts(x), parts(y)
        while p and q:
            a, b = p[0], q[0]
            if a is b:
                p.pop(0), q.pop(0)
            elif a.op == b.op == "str":
                s, u = a.args[0], b.args[0]
                n = min(len(s), len(u))
                if s[:n] != u[:n]:
                    return FALSE
                p.pop(0), q.pop(0)
                if len(s) > n:
                    p.insert(0, string(s[n:]))
                if len(u) > n:
                    q.insert(0, string(u[n:]))
            else:
                break
        while p and q:
            a, b = p[-1], q[-1]
            if a is b:
                p.pop(), q.pop()
            elif a.op == b.op == "str":
                s, u = a.args[0], b.args[0]
                n = min(len(s), len(u))
                if s[len(s) - n:] != u[len(u) - n:]:
                    return FALSE
                p.pop(), q.pop()
                if len(s) > n:
                    p.append(string(s[:len(s) - n]))
                if len(u) > n:
                    q.append(string(u[:len(u) - n]))
            else:
                break
        if not p and not q:
            return TRUE
        if not p or not q:
            r = p or q
            if any(z.op == "str" for z in r):
                return FALSE
            out = TRUE
            for z in r:
                out = and_(out, eqv(z, string("")))
            return out
        for r, o in ((p, q), (q, p)):
            # x = y with all the parts of x also in y, and text besides
            if all(z in o for z in r) and len(set(r)) == len(r) and sum(len(z.args[0]) for z in o if z.op == "str" and z not in r) > 0 and not any(z.op == "str" for z in r):
                return FALSE
        return eqv(mk("cat", *p), mk("cat", *q))
    if liftable([x, y]):
        return _lift(f, [x, y])
    return f(x, y)


def eqv(a, b):
    """equality of non-numeric values (strings, containers)"""
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == "str" and y.op == "str":
            return FALSE
        p, q = sorted((x, y), key=lambda t: t.id)
        return _intern("eq", (p, q), True)
    if liftable([a, b]):
        return _lift(f, [a, b])
    return f(a, b)


def setfld(o, n, v):
    if o.op == "struct":
        d = dict(zip(o.args[1::2], o.args[2::2]))
        base = o.args[0]
    else:
        d, base = {}, o
    d[n] = v
    return struct(base, d)


def struct(base, d):
    flat = []
    for n in sorted(d):
        v = d[n]
        if base is not UNDEF:
            b = mk("fld", base, n)
            if v is b or (v.b and v is truth(b)):
                continue
        elif v is UNDEF:
            continue
        flat += [n, v]
    if not flat:
        return base
    if set(d) == {"tv_sec", "tv_usec"}:       # all the members copied: the same as copying the whole
        w = _whole(d["tv_sec"], d["tv_usec"])
        if w is not None:
            return w
    return _intern("struct", (base,) + tuple(flat))


def _whole(x, y):
    if x.op == "fld" and y.op == "fld" and x.args[0] is y.args[0] and (x.args[1], y.args[1]) == ("tv_sec", "tv_usec"):
        return x.args[0]
    if x.op == "ite" and y.op == "ite" and x.args[0] is y.args[0]:
        a, b = _whole(x.args[1], y.args[1]), _whole(x.args[2], y.args[2])
        if a is not None and b is not None:
            return ite(x.args[0], a, b)
    return None


def gate(c, a, b):
    """gamma: field-wise on structures"""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.op == "struct" or b.op == "struct":
        ba = a.args[0] if a.op == "struct" else a
        bb = b.args[0] if b.op == "struct" else b
        names = set(a.args[1::2] if a.op == "struct" else ()) | set(b.args[1::2] if b.op == "struct" else ())
        base = ba if ba is bb else gate(c, ba, bb)
        d = {}
        for n in names:
            x, y = mk("fld", a, n), mk("fld", b, n)
            if x.b != y.b:
                x, y = (truth(x), y) if y.b else (x, truth(y))
            d[n] = gate(c, x, y)
        return struct(base, d)
    if a.b != b.b and UNDEF not in (a, b):
        a, b = asnum(a), asnum(b)
    return ite(c, a, b)


@rule("cat")
def _cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat":
            parts = x.args
        else:
            parts = (x,)
        for p in parts:
            if p.op == "str" and p.args[0] == "":
                continue
            if p.op == "str" and out and out[-1].op == "str":
                out[-1] = string(out[-1].args[0] + p.args[0])
            else:
                out.append(p)
    if not out:
        return string("")
    if len(out) == 1:
        return out[0]
    return _intern("cat", tuple(out))


@rule("chr")
def _chr(x):
    if isnum(x) and 0 < numval(x) < 256:
        return string(chr(int(numval(x))))


@rule("pushall")
def _pushall(x0, n, l):
    if n is ZERO:
        return x0
    if isnum(n) and numval(n) <= 16:
        r = x0
        for i in range(int(numval(n))):
            r = mk("push_back", r, app(l, num(i)))
        return r


@rule("catall")
def _catall(n, l):
    if n is ZERO:
        return string("")
    if isnum(n) and numval(n) <= 32:
        return mk("cat", *[app(l, num(i)) for i in range(int(numval(n)))])


@rule("vresize")
def _vresize(v, n, x):
    if n is ZERO:
        return mk("empty")
    if v.op == "empty":
        return mk("arr1", n, lam(1, lambda i: x))


@rule("substr")
def _substr(s, i, n):
    if s.op == "str" and isnum(i) and isnum(n):
        a, b = int(numval(i)), int(numval(n))
        if 0 <= a <= len(s.args[0]) and b >= 0:
            return string(s.args[0][a:a + b])


@rule("ceildiv")
def _ceildiv(a, b):
    if isnum(a) and isnum(b) and numval(b) > 0:
        import math
        return num(math.ceil(numval(a) / numval(b)))


@rule("u8")
def _u8(a):
    if a.op in ("u8", "band") and (a.op == "u8" or ZERO is not None and any(isnum(x) and 0 <= numval(x) <= 255 for x in a.args)):
        return a


@rule("trunc")
def _trunc(a):
    if isnum(a):
        return num(int(numval(a)))
    if a.op in ("trunc", "size", "rows", "cols"):
        return a


@rule("mat")
def _mat(r, c, *e):
    if r is ZERO and c is ONE:
        return mk("empty")


@rule("push_back")
def _push_back(v, x):
    if v.op == "empty":
        return mk("mat", ONE, ONE, x)
    if v.op == "mat" and v.args[1] is ONE and len(v.args) < 40:
        return mk("mat", add(v.args[0], ONE), ONE, *(v.args[2:] + (x,)))


@rule("pop_back")
def _pop_back(v):
    if v.op == "push_back":
        return v.args[0]
    if v.op == "mat" and v.args[1] is ONE:
        return mk("mat", sub(v.args[0], ONE), ONE, *v.args[2:-1])


@rule("pop_front")
def _pop_front(v):
    if v.op == "mat" and v.args[1] is ONE:
        return mk("mat", sub(v.args[0], ONE), ONE, *v.args[3:])
