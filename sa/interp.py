"""Value-numbering abstract interpreter over the exported program.

Joins are gated values (no path enumeration); calls into the analysed tree are
inlined over the resolved call graph; loops are unrolled when their trip count
is a constant and summarised otherwise (inductions, sums, last values, array
scatters, append sequences; the rest becomes an `iter` fixpoint term);
functions of other libraries are modelled (sa/lib.py) or uninterpreted.
"""
import itertools
import time
from fractions import Fraction

from . import terms as t
from .terms import (T, TRUE, FALSE, NULL, UNDEF, ZERO, ONE, num, mk, ite, and_, or_, not_, eq, lt, le, add, sub, mul, div,
                    truth, asnum, fresh, gate, struct, setfld, isnum, numval, string, sym, TYPES)
from .model import strip_targs


class Unsupported(Exception):
    pass


class Exit:
    __slots__ = ("kind", "pc", "val", "mem")

    def __init__(self, kind, pc, val, mem):
        self.kind, self.pc, self.val, self.mem = kind, pc, val, mem


def mutref(ty):
    """Eigen::Ref to a modifiable matrix, passed by value: a reference"""
    return ty.startswith("Eigen::Ref<") and not ty.startswith("Eigen::Ref<const ")


class Frame:
    def __init__(self, fn, this, cls, fid):
        self.fn, self.this, self.cls, self.id = fn, this, cls, fid
        self.refs = {}


MAXDEPTH = 12
UNROLL = 40
INTS = ("i", "u", "e", "b")

# semantic class of a C++ type -------------------------------------------------


def tstrip(ty):
    ty = (ty or "").strip()
    while True:
        o = ty
        ty = ty.strip()
        if ty.startswith("const "):
            ty = ty[6:]
        if ty.endswith(" const"):
            ty = ty[:-6]
        if ty.endswith("*const"):
            ty = ty[:-5]
        if ty.endswith("&"):
            ty = ty[:-1]
        if ty == o:
            return ty


def eigen_dims(ty):
    """(rows, cols) of an Eigen type; None for a dynamic extent; or None"""
    ty = tstrip(ty)
    if ty.endswith("*"):
        return None
    for w in ("Eigen::DenseBase<", "Eigen::MatrixBase<", "Eigen::Ref<", "Eigen::PlainObjectBase<", "Eigen::DenseBase<", "Eigen::MatrixBase<", "Eigen::DenseCoeffsBase<"):
        if ty.startswith(w):
            ty = tstrip(_targs(ty)[0])
    if ty.startswith("Eigen::Matrix<") or ty.startswith("Eigen::Array<"):
        a = _targs(ty)
        try:
            r, c = int(a[1]), int(a[2])
        except (ValueError, IndexError):
            return None
        return (None if r < 0 else r, None if c < 0 else c)
    if ty.startswith("Eigen::Quaternion<"):
        return (4, 1)
    if ty.startswith("Eigen::Transform<"):
        return (4, 4)
    if ty.startswith("Eigen::Translation<"):
        return (3, 1)
    return None


def ismapdecl(v):
    """declaration of a view over existing storage"""
    i = v.get("init")
    return isinstance(i, dict) and i.get("k") == "ctor" and not i.get("copy") and bool(i.get("args")) and tstrip(v.get("t", "")).startswith("Eigen::Map<")


def _targs(ty):
    i = ty.index("<")
    out, d, cur = [], 0, ""
    for ch in ty[i + 1:]:
        if ch == "<":
            d += 1
        if ch == ">":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def isstr(ty):
    ty = tstrip(ty)
    return ty.startswith("std::basic_string<") or ty.startswith("std::__cxx11::basic_string<") or ty == "std::string"


def isstream(ty):
    ty = tstrip(ty)
    return "stream<" in ty.split("::")[-1] or ty.startswith("std::basic_") and "stream" in ty


def iscont(ty):
    ty = tstrip(ty)
    for k in ("std::vector<", "std::list<", "std::__cxx11::list<", "std::deque<", "std::array<"):
        if ty.startswith(k):
            return True
    return False


def ismap(ty):
    ty = tstrip(ty)
    return ty.startswith("std::map<") or ty.startswith("std::set<") or ty.startswith("std::multimap<") or ty.startswith("std::unordered_map<")


def isiter(ty):
    ty = tstrip(ty)
    return any(k in ty for k in ("__normal_iterator<", "_List_iterator<", "_List_const_iterator<", "_Rb_tree_iterator<", "_Rb_tree_const_iterator<", "_Deque_iterator<", "_Bit_iterator", "_Bit_const_iterator")) and not ty.startswith("std::pair")


def lastname(ty):
    return strip_targs(tstrip(ty).rstrip("*& ")).split("::")[-1]


NUMT = {"double", "float", "long double", "int", "unsigned int", "long", "unsigned long", "char", "unsigned char", "signed char",
        "short", "unsigned short", "long long", "unsigned long long"}


class Interp:
    def __init__(self, P, opaque=(), rename=None, tlimit=60, trace=None):
        self.P = P
        self.opaque = set(opaque)
        self.rename = rename or {}
        self.deadline = time.time() + tlimit
        self.ginit = {}
        self.mem = {}
        self.pc = TRUE
        self.exits = []
        self.frames = []
        self.cnt = itertools.count(1)
        self.newcnt = itertools.count(1)
        self.depth = 0
        self.stack = []
        self.lambdas = {}
        self.curexc = []
        self.unmodelled = set()
        self.loopdepth = 0
        self.rootty = {}
        self.final = {}
        from . import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ utilities
    def tick(self):
        if time.time() > self.deadline:
            raise Unsupported("time limit")

    @property
    def F(self):
        return self.frames[-1]

    # ------------------------------------------------------------- l-values
    # guarded list of locations: [(cond, root, steps)]
    def loc(self, root, *steps):
        return [(TRUE, root, tuple(steps))]

    def ext(self, lv, *steps):
        out = []
        for c, r, s in lv:
            if r[0] == "mp" and not s and steps and steps[0] == "second":
                for c2, r2, s2 in self.mp[r][1]:
                    out.append((and_(c, c2), r2, s2 + tuple(steps[1:])))
            else:
                out.append((c, r, s + tuple(steps)))
        return out

    def root0(self, root):
        """value of a root never assigned"""
        if root[0] == "D":
            p = root[1]
            ty = tstrip(TYPES.get(p))
            v = mk("deref", p)
            if ty and ty.rstrip().endswith("*"):
                v = self.typed(v, ty.rstrip()[:-1])
            return v
        if root[0] == "g":
            if root[1] == "effects":
                return mk("empty")
            if root in self.ginit:
                return self.ginit[root]
            return self.typed(sym("g:" + root[1].split("::")[-1]), self.rootty.get(root, ""))
        if root[0] == "S":
            return root[1]
        if root[0] == "A":
            return mk("lasttime", root[1])
        if root[0] == "mp":
            key, lv = self.mp[root]
            return struct(UNDEF, {"first": key, "second": self.load(lv)})
        return UNDEF

    def emit(self, name, *args):
        """an action on the outside, in order"""
        r = ("g", "effects")
        self.mem[r] = mk("push_back", self.rootval(r), mk("tuple", t.string(name), *args))

    def rootval(self, root):
        v = self.mem.get(root)
        if v is None:
            v = self.root0(root)
        return v

    def getp(self, v, steps):
        for s in steps:
            v = self.get1(v, s)
        return v

    def get1(self, v, s):
        if isinstance(s, str):
            return mk("fld", v, s)
        k = s[0]
        if k == "i":
            return self.lib.index(v, s[1])
        if k == "blk":
            return self.lib.block(v, *s[1:])
        if k == "T":
            return self.lib.transpose(v)
        if k == "diag":
            return self.lib.diagonal(v)
        if k == "rev":
            return self.lib.reverse(v)
        raise Unsupported("step %s" % (k,))

    def setp(self, v, steps, new):
        if not steps:
            return new
        s, rest = steps[0], steps[1:]
        if v.op == "ite" and (rest or not isinstance(s, str)) and t.leaves(v, 12) <= 12:
            return gate(v.args[0], self.setp(v.args[1], steps, new), self.setp(v.args[2], steps, new))
        if isinstance(s, str):
            return setfld(v, s, self.setp(mk("fld", v, s), rest, new))
        k = s[0]
        if k == "i":
            inner = self.setp(self.lib.index(v, s[1]), rest, new) if rest else new
            return mk("store", v, s[1], inner)
        if k == "blk":
            inner = self.setp(self.get1(v, s), rest, new) if rest else new
            return self.lib.setblock(v, *s[1:], inner)
        if k == "T":
            inner = self.setp(self.get1(v, s), rest, new) if rest else new
            return self.lib.transpose(inner)
        if k == "rev":
            inner = self.setp(self.get1(v, s), rest, new) if rest else new
            return self.lib.reverse(inner)
        if k == "diag":
            inner = self.setp(self.get1(v, s), rest, new) if rest else new
            return self.lib.setdiagonal(v, inner)
        raise Unsupported("step %s" % (k,))

    def load(self, lv, ty=None):
        r = None
        for c, root, steps in reversed(lv):
            v = self.getp(self.rootval(root), steps)
            if ty:
                v = self.typed(v, ty)
            r = v if r is None else gate(c, v, r)
        return r

    def store(self, lv, v):
        for c, root, steps in lv:
            old = self.rootval(root)
            new = self.setp(old, steps, v)
            self.mem[root] = gate(c, new, old) if c is not TRUE else new

    def typedleaves(self, v, ty, memo=None):
        if v.op != "ite":
            return self.typed(v, ty)
        memo = {} if memo is None else memo
        if v not in memo:
            memo[v] = t.ite(v.args[0], self.typedleaves(v.args[1], ty, memo), self.typedleaves(v.args[2], ty, memo))
        return memo[v]

    def typed(self, v, ty):
        """attach static type knowledge to an opaque value"""
        if v.op in ("poly", "struct", "mat", "arr1", "arr2", "str", "true", "false", "undef", "null", "addr"):
            return v
        ty = tstrip(ty)
        if not ty:
            return v
        if ty == "bool":
            if not v.b and v.op != "ite":
                TYPES.setdefault(v, "bool")
            return truth(v) if not v.b else v
        if v.op == "ite":
            return v
        if v not in TYPES:
            TYPES[v] = ty
        if ty.startswith("Eigen::AngleAxis<") and not ty.endswith("*") and v.op in ("sym", "fld", "deref", "sel", "rd", "mres", "out", "keyat", "call"):
            ax = mk("fld", v, "axis")
            return struct(UNDEF, {"angle": mk("fld", v, "angle"), "axis": mk("mat", num(3), ONE, *[mk("sel", ax, num(i)) for i in range(3)])})
        d = eigen_dims(ty)
        if d and d[0] is not None and d[1] is not None and v.op in ("sym", "fld", "deref", "sel", "rd", "mres", "out", "keyat", "call"):
            r, c = d
            if v.op == "sel" and False:
                return v
            ents = []
            for i in range(r):
                for j in range(c):
                    if ty.startswith("Eigen::Transform<") and i == 3:
                        ents.append(ONE if j == 3 else ZERO)
                    else:
                        ents.append(mk("sel", v, num(i) if c == 1 else t.ix(num(i), num(j))))
            return mk("mat", num(r), num(c), *ents)
        return v

    def addr(self, lv):
        r = None
        for c, root, steps in reversed(lv):
            if root[0] == "D" and not steps:
                a = root[1]
            else:
                a = t._intern("addr", ((root, steps),))
            r = a if r is None else ite(c, a, r)
        return r

    def deref(self, p):
        """l-value designated by pointer value p"""
        if p.op == "addr":
            root, steps = p.args[0]
            return [(TRUE, root, steps)]
        if p.op == "ite":
            out = []
            for lits, leaf in t.paths(p, 64):
                c = TRUE
                for a, val in lits:
                    c = and_(c, a if val else not_(a))
                for c2, r, s in self.deref(leaf):
                    out.append((and_(c, c2), r, s))
            # drop null leaves (undefined behaviour)
            good = [o for o in out if o[1] != ("D", NULL)]
            return good or out
        if p.op == "mapelem":
            return [(TRUE, ("mp", p.args[0]), ())]
        if p.op == "iter":
            cont, i = p.args[0], p.args[1]
            lv = self.deref(cont)
            return self.lib.iterloc(lv, i)
        if p.op == "find":
            lv = self.deref(p.args[0])
            return self.lib.findloc(lv, p)
        return [(TRUE, ("D", p), ())]

    def temp(self, v):
        root = ("t", next(self.cnt))
        self.mem[root] = v
        return self.loc(root)

    def local(self, d):
        for f in (self.F,):
            if d in f.refs:
                return f.refs[d]
        return ("l", self.F.id, d)

    def fname(self, q, n):
        """canonical field name"""
        return self.rename.get(q, self.rename.get(n, n))

    # -------------------------------------------------------- control state
    def snap(self):
        return dict(self.mem)

    def dead(self):
        return self.pc is FALSE

    def merge(self, c, m1, pc1, m2, pc2):
        if pc1 is FALSE:
            self.mem, self.pc = m2, pc2
            return
        if pc2 is FALSE:
            self.mem, self.pc = m1, pc1
            return
        if m1 is not m2:
            m = dict(m1)
            for r, v in m2.items():
                w = m1.get(r)
                if w is None:
                    if r[0] in ("l", "t", "n"):
                        m[r] = v
                        continue
                    w = self.root0(r)
                if w is not v:
                    m[r] = gate(c, w, v)
            for r, w in m1.items():
                if r not in m2 and r[0] not in ("l", "t", "n"):
                    m[r] = gate(c, w, self.root0(r))
            self.mem = m
        else:
            self.mem = m1
        self.pc = or_(pc1, pc2)

    def cut(self, kind, val=None):
        self.exits.append(Exit(kind, self.pc, val, self.snap()))
        self.pc = FALSE

    def branch(self, c, th, el):
        """run th under c, el under not c"""
        c = truth(c)
        if c is TRUE:
            th()
            return
        if c is FALSE:
            if el:
                el()
            return
        c2 = self.under(c)
        if c2 is TRUE:
            th()
            return
        if c2 is FALSE:
            if el:
                el()
            return
        m0, p0 = self.mem, self.pc
        self.mem, self.pc = dict(m0), and_(p0, c)
        th()
        m1, p1 = self.mem, self.pc
        self.mem, self.pc = dict(m0), and_(p0, not_(c))
        if el:
            el()
        self.merge(c, m1, p1, self.mem, self.pc)

    def under(self, c):
        """condition c decided by the current path condition?"""
        if self.pc is TRUE:
            return c
        if and_(self.pc, c) is FALSE:
            return FALSE
        if and_(self.pc, not_(c)) is FALSE:
            return TRUE
        return c

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None or self.dead():
            return
        self.tick()
        getattr(self, "s_" + s["k"], self.s_bad)(s)

    def s_bad(self, s):
        raise Unsupported("statement %s" % s["k"])

    def s_block(self, s):
        for x in s["s"]:
            self.stmt(x)

    def s_null(self, s):
        pass

    def s_expr(self, s):
        self.effect(s["e"])

    def effect(self, e):
        """evaluate for side effects only"""
        k = e.get("k")
        if k in ("bin", "un", "ocall", "mcall", "call", "cond", "throw", "delete", "new", "ctor", "cast", "icast"):
            if k == "cast" and e.get("t") == "void":
                return self.effect(e["e"]) if e["e"].get("k") not in ("ref", "mem", "str", "int") else None
            if k == "cond":
                return self.branch(self.ev(e["c"]), lambda: self.effect(e["ct"]), lambda: self.effect(e["cf"]))
            self.ev(e, want=False)
        elif k == "stmtexpr":
            self.stmt(e["s"])
        elif k in ("int", "ref", "mem", "str", "this", "zero", "bool", "float", "null", "glob"):
            pass
        else:
            self.ev(e)

    def s_decl(self, s):
        for v in s["v"]:
            self.declvar(v)

    def declvar(self, v):
        ty = v["t"]
        if v.get("static"):
            root = ("g", v.get("q", v["n"]))
            self.F.refs[v["d"]] = root
            self.rootty[root] = ty
            if "const" in ty.split() and "init" in v:
                self.mem[root] = self.ev(v["init"])
            return
        root = ("l", self.F.id, v["d"])
        if v.get("ref"):
            self.mem[root] = self.addr(self.lv(v["init"]))
            self.F.refs.pop(v["d"], None)
            return
        if "init" in v and v["init"]:
            if self.lib.ignorable(ty):
                return
            i = v["init"]
            if ismapdecl(v):
                self.mem[root] = self.addr(self.lib.maplv(tstrip(ty), i["args"]))
                self.F.refs.pop(v["d"], None)
                return
            x = self.init(v["init"], ty)
        else:
            x = self.defaultval(ty, v.get("asz"))
        if self.dead():
            return
        self.mem[root] = self.convert(x, ty)

    def init(self, e, ty):
        if e.get("k") == "ilist" and not e.get("t"):
            e = dict(e, t=ty)
        return self.ev(e)

    def convert(self, x, ty):
        ty = tstrip(ty)
        if ty == "bool":
            return truth(x)
        if ty in NUMT and x.b:
            return asnum(x)
        d = eigen_dims(ty)
        if d:
            return self.lib.toeigen(x, d)
        return x

    def defaultval(self, ty, asz=None):
        ty = tstrip(ty)
        d = eigen_dims(ty)
        if d:
            r, c = d
            if r is not None and c is not None:
                if ty.startswith("Eigen::Transform<"):
                    return mk("mat", num(4), num(4), *([UNDEF] * 12 + [ZERO, ZERO, ZERO, ONE]))
                return mk("mat", num(r), num(c), *[UNDEF] * (r * c))
            if c == 1:
                return mk("arr1", ZERO, t.lam(1, lambda i: UNDEF))
            return mk("mat", num(r or 0), num(c or 0))
        if iscont(ty) or ismap(ty):
            return mk("empty")
        if isstr(ty):
            return string("")
        if "ostringstream" in ty or "stringstream" in ty:
            return string("")
        if ty.startswith("std::basic_ifstream") or ty.startswith("std::basic_fstream"):
            return struct(UNDEF, {"text": string(""), "pos": ZERO, "eof": FALSE, "fail": FALSE, "open": FALSE})
        return UNDEF

    def s_if(self, s):
        if s.get("i"):
            self.stmt(s["i"])
        if s.get("cv"):
            self.declvar(s["cv"])
        c = self.cond(s["c"])
        if self.dead():
            return
        self.branch(c, lambda: self.stmt(s["t"]), (lambda: self.stmt(s["e"])) if s.get("e") else None)

    def cond(self, e):
        return truth(self.ev(e))

    def s_ret(self, s):
        e = s.get("e")
        v = None
        if e is not None:
            if self.F.fn.get("rr"):
                v = self.addr(self.lv(e))
            else:
                v = self.convert(self.ev(e), self.F.fn.get("rt", ""))
        if self.dead():
            return
        self.cut("ret", v)

    def s_break(self, s):
        self.cut("break")

    def s_continue(self, s):
        self.cut("continue")

    def s_label(self, s):
        self.stmt(s["b"])

    def s_while(self, s):
        def cond():
            if s.get("cv"):
                self.declvar(s["cv"])
            return self.cond(s["c"])
        self.loop(cond, lambda: self.stmt(s["b"]), None)

    def s_do(self, s):
        # first iteration, then while
        mark = len(self.exits)
        self.body_once(lambda: self.stmt(s["b"]))
        brk = [x for x in self.exits[mark:] if x.kind == "break"]
        self.exits[mark:] = [x for x in self.exits[mark:] if x.kind != "break"]
        if not self.dead():
            self.loop(lambda: self.cond(s["c"]), lambda: self.stmt(s["b"]), None)
        self.join(brk)

    def s_for(self, s):
        if s.get("i"):
            self.stmt(s["i"])
        self.loop((lambda: self.cond(s["c"])) if s.get("c") else (lambda: TRUE), lambda: self.stmt(s["b"]),
                  (lambda: self.effect(s["n"])) if s.get("n") else None)

    def s_rfor(self, s):
        clv = self.lv(s["r"])
        root = ("t", next(self.cnt))
        self.mem[root] = ZERO
        v = s["v"]

        def cond():
            return lt(self.mem[root], self.lib.size(self.load(clv)), True)

        def body():
            lv = self.lib.iterloc(clv, self.mem[root])
            r = ("l", self.F.id, v["d"])
            cont = self.load(clv)
            if self.lib.ismapval(cont):
                # elements are pairs: first a value, second a location
                key = mk("keyat", cont, self.mem[root])
                if v.get("ref"):
                    self.mem[r] = self.lib.pairptr(key, lv)
                else:
                    self.mem[r] = struct(UNDEF, {"first": key, "second": self.load(lv)})
            elif v.get("ref"):
                self.mem[r] = self.addr(lv)
            else:
                self.mem[r] = self.load(lv, v["t"])
            self.stmt(s["b"])

        def inc():
            self.mem[root] = add(self.mem[root], ONE)
        self.loop(cond, body, inc)

    def s_switch(self, s):
        c = self.ev(s["c"])
        if self.dead():
            return
        # flatten the body into (labels, statement) with fallthrough
        seq = []

        def flat(x):
            if x is None:
                return
            if x["k"] == "block":
                for y in x["s"]:
                    flat(y)
            elif x["k"] == "case":
                seq.append(("case", x["c"]))
                flat1(x["b"])
            elif x["k"] == "default":
                seq.append(("default", None))
                flat1(x["b"])
            else:
                seq.append(("stmt", x))

        def flat1(x):
            if x is not None and x["k"] in ("case", "default"):
                flat(x)
            elif x is not None:
                seq.append(("stmt", x))
        flat(s["b"])
        labels = [self.ev(e) for k, e in seq if k == "case"]
        anyl = FALSE
        for l in labels:
            anyl = or_(anyl, eq(c, l))
        mark = len(self.exits)
        m0, p0 = self.mem, self.pc
        self.pc = FALSE
        cur = None
        li = 0
        for k, x in seq:
            if k == "stmt":
                self.stmt(x)
                continue
            g = eq(c, labels[li]) if k == "case" else not_(anyl)
            if k == "case":
                li += 1
            pin = and_(p0, g)
            self.merge(g, dict(m0), pin, self.mem, self.pc)
        if not any(k == "default" for k, x in seq):
            self.merge(not_(anyl), dict(m0), and_(p0, not_(anyl)), self.mem, self.pc)
        brk = [x for x in self.exits[mark:] if x.kind == "break"]
        self.exits[mark:] = [x for x in self.exits[mark:] if x.kind != "break"]
        self.join(brk)

    s_case = s_default = s_bad

    def join(self, exits):
        """resume the given exits at this point"""
        for x in exits:
            self.merge(x.pc, dict(x.mem), x.pc, self.mem, self.pc)

    def s_try(self, s):
        mark = len(self.exits)
        self.stmt(s["b"])
        thr = [x for x in self.exits[mark:] if x.kind == "throw"]
        self.exits[mark:] = [x for x in self.exits[mark:] if x.kind != "throw"]
        for h in s["h"]:
            rest, got = [], []
            for x in thr:
                m = self.catches(h, x.val)
                if m is None:
                    raise Unsupported("catch of unknown exception")
                (got if m else rest).append(x)
            thr = rest
            for x in got:
                m0, p0 = self.mem, self.pc
                self.mem, self.pc = dict(x.mem), x.pc
                if h.get("v"):
                    root = ("l", self.F.id, h["v"]["d"])
                    if h["v"].get("ref"):
                        self.mem[root] = self.addr(self.temp(x.val))
                    else:
                        self.mem[root] = x.val
                self.curexc.append(x.val)
                self.stmt(h["b"])
                self.curexc.pop()
                self.merge(x.pc, self.mem, self.pc, m0, p0)
        self.exits += thr

    def catches(self, h, exc):
        if not h.get("t"):
            return True
        if exc.op != "exc":
            return None
        want = lastname(h["t"])
        return self.exc_isa(exc.args[0], want)

    def exc_isa(self, name, want):
        if name == want:
            return True
        if name.startswith("?"):
            return None
        from .lib import STDEXC
        x = name
        while x in STDEXC:
            x = STDEXC[x]
            if x == want:
                return True
        for F, r in self.P.records.items():
            if lastname(F) == name:
                for b in self.P.bases(F)[1:]:
                    n = lastname(b)
                    if n == want or want in self._stdbases(n):
                        return True
        return False

    def _stdbases(self, n):
        from .lib import STDEXC
        out = []
        while n in STDEXC:
            n = STDEXC[n]
            out.append(n)
        return out

    # ----------------------------------------------------------------- loops
    def body_once(self, body, inc=None):
        """body; continue-exits rejoin; increment"""
        mark = len(self.exits)
        body()
        cont = [x for x in self.exits[mark:] if x.kind == "continue"]
        self.exits[mark:] = [x for x in self.exits[mark:] if x.kind != "continue"]
        self.join(cont)
        if inc and not self.dead():
            inc()

    def loop(self, cond, body, inc):
        mark = len(self.exits)
        n = 0
        pre_m, pre_p = self.snap(), self.pc
        keep = set(self.mem)
        while n < UNROLL and not self.dead():
            save_m, save_p, save_e = self.snap(), self.pc, len(self.exits)
            c = cond()
            c = self.under(c)
            if c is FALSE:
                break
            if c is not TRUE:
                # not a constant trip count
                self.mem, self.pc = save_m, save_p
                del self.exits[save_e:]
                if n:
                    self.mem, self.pc = pre_m, pre_p
                    del self.exits[mark:]
                self.summarise(cond, body, inc)
                n = -1
                break
            self.body_once(body, inc)
            for r in [r for r in self.mem if r not in keep]:
                if r[0] == "l":
                    del self.mem[r]
            n += 1
        if n >= UNROLL:
            self.mem, self.pc = pre_m, pre_p
            del self.exits[mark:]
            self.summarise(cond, body, inc)
        brk = [x for x in self.exits[mark:] if x.kind == "break"]
        self.exits[mark:] = [x for x in self.exits[mark:] if x.kind != "break"]
        self.join(brk)

    # -- symbolic summary
    def cells(self, m1, m2, keep):
        """leaf cells (root, field path) whose value differs between memories"""
        out = []

        def go(root, path, a, b):
            if a is b:
                return
            if a.op == "struct" or b.op == "struct":
                names = set()
                for x in (a, b):
                    if x.op == "struct":
                        names |= set(x.args[1::2])
                base = [x.args[0] if x.op == "struct" else x for x in (a, b)]
                if base[0] is base[1]:
                    for n in sorted(names):
                        x, y = mk("fld", a, n), mk("fld", b, n)
                        if x.b != y.b:
                            x, y = truth(x), truth(y)
                        go(root, path + (n,), x, y)
                    return
            out.append((root, path))
        for r in keep:
            a, b = m1.get(r), m2.get(r)
            if a is None:
                a = self.root0(r)
            if b is None:
                b = self.root0(r)
            go(r, (), a, b)
        return out

    def summarise(self, cond, body, inc):
        if self.loopdepth >= 4:
            raise Unsupported("loop nesting")
        self.loopdepth += 1
        try:
            self._summarise(cond, body, inc)
        finally:
            self.loopdepth -= 1

    def _summarise(self, cond, body, inc):
        M0, P0 = self.snap(), self.pc
        mark = len(self.exits)
        cells = []
        isb = {}
        for attempt in range(8):
            hs = {}
            self.mem = dict(M0)
            self.pc = TRUE
            del self.exits[mark:]
            for cl in cells:
                root, path = cl
                x0 = self.getp(M0.get(root) if root in M0 else self.root0(root), path)
                h = self.havoc(x0, cl, isb)
                hs[cl] = h
                self.mem[root] = self.setp(self.rootval(root), path, h)
            Mh = self.snap()
            tcnt = len(self.stack)
            C = truth(cond())
            Mc, Pc = self.snap(), self.pc       # after evaluating the condition
            if Pc is not TRUE:
                raise Unsupported("loop condition exits")
            self.pc = C
            if C is FALSE:
                raise Unsupported("dead loop")
            self.body_once(body, inc)
            roots = set(M0) | {r for r in self.mem if r[0] in ("g", "D", "S")}
            M1, P1 = self.snap(), self.pc
            ex = self.exits[mark:]
            del self.exits[mark:]
            new = []
            def consider(m):
                for cl in self.cells(Mh, m, roots):
                    if cl not in cells and cl not in new and not any(cl[0] == c[0] and cl[1][:len(c[1])] == c[1] for c in cells + new):
                        new.append(cl)
            if P1 is not FALSE:
                consider(M1)
            consider(Mc)
            for cl in cells:
                if P1 is not FALSE:
                    v = self.cellval(M1, cl)
                    if v.b and not isb.get(cl):
                        x0 = self.cellval(M0, cl)
                        isb[cl] = True
                        new.append(None)
                    h = hs.get(cl)
                    if h is not None and h.op in ("arr1", "arr2") and not isb.get((cl, "free")) and v is not UNDEF:
                        if h.op == "arr1":
                            okd = t.eq(mk("size", v), mk("size", h)) is TRUE
                        else:
                            okd = t.eq(mk("rows", v), mk("rows", h)) is TRUE and t.eq(mk("cols", v), mk("cols", h)) is TRUE
                        if not okd:
                            isb[(cl, "free")] = True
                            new.append(None)
            if not new:
                break
            for n in new:
                if n is None:
                    continue
                # a cell that is a prefix of others replaces them
                cells = [c for c in cells if not (c[0] == n[0] and c[1][:len(n[1])] == n[1])]
                cells.append(n)
        else:
            raise Unsupported("loop cells do not stabilise")
        self.pc = P0
        self.close_loop(M0, P0, cells, hs, isb, C, Mc, M1, P1, ex)

    def cellval(self, m, cl):
        root, path = cl
        v = m.get(root)
        if v is None:
            v = self.root0(root)
        return self.getp(v, path)

    def havoc(self, x0, cl, isb):
        if x0.b or isb.get(cl):
            return fresh("h", b=True)
        if x0.op == "iter":
            return mk("iter", x0.args[0], fresh("h"))
        h = fresh("h")
        ty = TYPES.get(x0)
        if ty:
            TYPES[h] = ty
        if isb.get((cl, "free")):
            return h
        if x0.op in ("arr1", "arr2", "mat", "store", "resize", "stblk"):
            if x0.op == "mat":
                ents = [fresh("h") for _ in x0.args[2:]]
                return mk("mat", x0.args[0], x0.args[1], *ents)
            if x0.op == "arr1" or t.isvecval(x0):
                return mk("arr1", mk("size", x0), t.lam(1, lambda i: mk("sel", h, i)))
            return mk("arr2", mk("rows", x0), mk("cols", x0), t.lam(2, lambda i, j: mk("sel", h, t.ix(i, j))))
        if ty:
            d = eigen_dims(ty)
            if d and d[0] is not None and d[1] is not None and False:
                return self.typed(h, ty)
            if d and d == (None, 1):
                return mk("arr1", mk("size", x0), t.lam(1, lambda i: mk("sel", h, i)))
            if d and d == (None, None):
                return mk("arr2", mk("rows", x0), mk("cols", x0), t.lam(2, lambda i, j: mk("sel", h, t.ix(i, j))))
        return h

    def close_loop(self, M0, P0, cells, hs, isb, C, Mc, M1, P1, ex):
        """closed forms of the cells as functions of the iteration number k"""
        k = fresh("k")
        X0 = {cl: self.cellval(M0, cl) for cl in cells}
        for cl in cells:
            if isb.get(cl) and not X0[cl].b:
                X0[cl] = truth(X0[cl])
        FX = {cl: self.cellval(M1, cl) if P1 is not FALSE else UNDEF for cl in cells}
        for cl in cells:
            if isb.get(cl) and not FX[cl].b:
                FX[cl] = truth(FX[cl])
        # scalarise havoc variables: list of (hsym, x0, next)
        vs = []

        def scal(h, x0, fx):
            if h.op == "sym":
                vs.append((h, x0, fx))
            elif h.op == "iter":
                if fx.op != "iter" or fx.args[0] is not h.args[0]:
                    raise Unsupported("iterator rebinding in a loop")
                vs.append((h.args[1], x0.args[1], fx.args[1]))
            elif h.op == "mat":
                for a, b, c in zip(h.args[2:], self.matents(x0, h), self.matents(fx, h)):
                    vs.append((a, b, c))
            elif h.op in ("arr1", "arr2"):
                if not t.eq(mk("size", fx), mk("size", h)) is TRUE and fx is not UNDEF:
                    raise Unsupported("array resized in a loop")
                l = h.args[-1].args[-1]
                vs.append((l.args[0], x0, fx))
            else:
                raise Unsupported("havoc of %s" % h.op)
        for cl in cells:
            scal(hs[cl], X0[cl], FX[cl])
        allh = [v[0] for v in vs]
        hids = {h.id for h in allh}

        def hfree(x):
            return not any(y.id in hids for y in t.subterms(x))
        gatepc = P1   # condition (over h) under which an iteration continues normally
        sol = {}      # h -> value at the head of iteration k (term in k)
        arrs = {}
        pend = list(vs)
        memo = {}

        def sb(x):
            return t.subst(x, {h: v for h, v in sol.items()}) if sol else x
        # the branch conditions known to hold while iterating
        for rnd in range(len(vs) + 2):
            prog = False
            for v in list(pend):
                h, x0, fx = v
                r = self.solve1(h, x0, sb(self.assume(fx, gatepc)), k, hids - {s.id for s in sol}, sol)
                if r is not None:
                    sol[h] = r
                    pend.remove(v)
                    prog = True
            if not pend or not prog:
                break
        # exits
        stop = not_(C)
        exs = []
        for x in ex:
            exs.append(x)
        if pend:
            self.generic_loop(vs, pend, sol, k, C, ex, cells, hs, M0, P0, Mc, sb)
            return
        Ck = sb(C)
        N = self.trip(Ck, k)
        epc = [sb(x.pc) for x in exs]
        if exs:
            anyx = FALSE
            for p in epc:
                anyx = or_(anyx, p)
            f = fresh("b")
            # under the loop condition, which holds before N
            anyk = t.subst(self.assume(anyx, Ck), {k: f})
            NX = mk("first", N, t.close([f], anyk))
        else:
            NX = N
        self.finish_loop(cells, hs, sol, k, M0, P0, Mc, N, NX, exs, epc)

    def finish_loop(self, cells, hs, sol, k, M0, P0, Mc, N, NX, exs, epc):
        allsol = dict(sol)

        def at(x, kv):
            y = t.subst(x, allsol)
            return t.subst(y, {k: kv})
        # normal exit: state after evaluating the condition at iteration N
        Mn = {}
        nrm = TRUE if NX is N else eq(NX, N)
        base = dict(M0)

        def inst(m, kv):
            r = {}
            for root, v in m.items():
                if root in M0 and M0[root] is v:
                    r[root] = v
                elif root in M0 or root[0] in ("g", "D", "S"):
                    r[root] = at(v, kv)
            for root in M0:
                r.setdefault(root, M0[root])
            return r
        self.mem = inst(Mc, N)
        self.pc = and_(P0, nrm)
        for x, p in zip(exs, epc):
            pk = and_(t.subst(p, {k: NX}), not_(nrm))
            pk = and_(P0, pk)
            if pk is FALSE:
                continue
            val = at(x.val, NX) if isinstance(x.val, T) else x.val
            m = inst(x.mem, NX)
            # roots created in the loop and referenced by the exit
            for root, v in x.mem.items():
                if root not in m:
                    m[root] = at(v, NX)
            self.exits.append(Exit(x.kind, pk, val, m))

    def assume(self, x, c):
        """simplify x knowing condition c (conjunction of literals)"""
        if c is TRUE or c is FALSE:
            return x
        m = {}
        y = c
        while y.op == "ite" and (y.args[1] is FALSE or y.args[2] is FALSE):
            if y.args[2] is FALSE:
                m[y.args[0]] = TRUE
                y = y.args[1]
            else:
                m[y.args[0]] = FALSE
                y = y.args[2]
        if y.b and y.op not in ("ite", "true", "false"):
            m[y] = TRUE
        return t.subst(x, m) if m else x

    def matents(self, x, h):
        r, c = int(numval(h.args[0])), int(numval(h.args[1]))
        if x.op == "mat":
            return x.args[2:]
        return [t.elt(x, num(i), num(j)) for i in range(r) for j in range(c)]

    def solve1(self, h, x0, fx, k, pend, sol):
        """value of h at the head of iteration k, given its one-step update"""
        others = pend - {h.id}
        deps = {y.id for y in t.subterms(fx)}
        if deps & others:
            return None
        if h.id not in deps:
            # overwritten in every iteration
            if fx is x0:
                return x0
            if k.id not in deps:
                return ite(eq(k, ZERO), x0, fx) if not (fx.op == "struct" or x0.op == "struct") else gate(eq(k, ZERO), x0, fx)
            prev = t.subst(fx, {k: sub(k, ONE)})
            return gate(eq(k, ZERO), x0, prev)
        if fx is h:
            return x0
        if h.b:
            # h or g / h and g
            hi, lo = self.cofh(fx, h, TRUE), self.cofh(fx, h, FALSE)
            f = fresh("b")
            if h.id in {y.id for y in t.subterms(hi)} | {y.id for y in t.subterms(lo)}:
                return None
            if hi is TRUE and lo is FALSE:
                return x0
            if hi is TRUE:
                return or_(x0, self.anyk(k, t.subst(lo, {k: f}), f))
            if lo is FALSE:
                return and_(x0, not_(self.anyk(k, t.subst(not_(hi), {k: f}), f)))
            if hi is lo:
                return None
            return None
        # array scatter / fold over elements
        if fx.op in ("arr1", "arr2", "store", "scat") and self.isarr(fx, h):
            return self.scatter(h, x0, fx, k)
        # accumulation h + g(k)
        d = sub(fx, h)
        if h.id not in {y.id for y in t.subterms(d)}:
            f = fresh("b")
            return add(x0, mk("sum", k, t.close([f], t.subst(d, {k: f}))))
        if fx.op == "push_back" and fx.args[0] is h:
            f = fresh("b")
            if h.id not in {y.id for y in t.subterms(fx.args[1])}:
                return mk("pushall", x0, k, t.close([f], t.subst(fx.args[1], {k: f})))
        if fx.op == "cat" and fx.args[0] is h:
            rest = fx.args[1:]
            if not any(h.id in {y.id for y in t.subterms(a)} for a in rest):
                f = fresh("b")
                body = mk("cat", *rest) if len(rest) > 1 else rest[0]
                return mk("cat", x0, mk("catall", k, t.close([f], t.subst(body, {k: f}))))
        # conditional overwrite by a constant: ite(g, c, h)
        if fx.op == "ite":
            lv = t.paths(fx, 64)
            consts = {l.id for _, l in lv if l is not h}
            if len(consts) == 1 and len(lv) <= 16:
                cst = [l for _, l in lv if l is not h][0]
                ds = {y.id for y in t.subterms(cst)}
                g = FALSE
                for lits, l in lv:
                    if l is cst:
                        c = TRUE
                        for a, val in lits:
                            c = and_(c, a if val else not_(a))
                        g = or_(g, c)
                if h.id not in {y.id for y in t.subterms(g)} and k.id not in ds and h.id not in ds:
                    f = fresh("b")
                    return gate(self.anyk(k, t.subst(g, {k: f}), f), cst, x0)
        return None

    def cofh(self, x, h, v):
        return t.subst(x, {h: v})

    def anyk(self, n, body, f):
        """exists 0 <= f < n with body"""
        return lt(mk("first", n, t.close([f], body)), n, True)

    def isarr(self, fx, h):
        return True

    def scatter(self, h, x0, fx, k):
        """fx: array value in terms of elements of h at the same index"""
        if fx.op in ("arr1", "arr2"):
            l = fx.args[-1]
            nb = len(l.args) - 1
            idx = [fresh("i") for _ in range(nb)]
            body = t.app(l, *idx)
            ixk = idx[0] if nb == 1 else t.ix(*idx)
            own = mk("sel", h, ixk)
        else:
            # opaque array (C array, std::vector): stores
            sts = []
            y = fx
            while y.op == "store":
                sts.append((y.args[1], y.args[2]))
                y = y.args[0]
            if y is not h:
                return None
            nb = 2 if any(i.op == "ix" for i, _ in sts) else 1
            idx = [fresh("i") for _ in range(nb)]
            ixk = idx[0] if nb == 1 else t.ix(*idx)
            own = mk("sel", h, ixk)
            body = own
            for i, v in reversed(sts):
                c = t._ixeq(ixk, i)
                if c is None:
                    return None
                body = ite(c, v, body)
        hold = fresh("h")
        if own.b:
            return None
        b2 = t.subst(body, {own: hold})
        if h.id in {y.id for y in t.subterms(b2)}:
            return None
        # element update: E(idx, k, hold)
        e = self.solve_elem(b2, hold, idx, k, x0, ixk)
        if e is None:
            return None
        if nb == 1:
            if t.isvecval(x0) or fx.op == "arr1":
                return mk("arr1", mk("size", x0), t.close(idx, e))
            return mk("scat", x0, t.close(idx, e))
        return mk("arr2", mk("rows", x0), mk("cols", x0), t.close(idx, e))

    def solve_elem(self, b2, hold, idx, k, x0, ixk):
        x0e = self.lib.index(x0, ixk) if x0.op not in ("arr1", "arr2", "mat") else mk("sel", x0, ixk)
        # no dependence on k: repeated identical update
        if k.id not in {y.id for y in t.subterms(b2)}:
            if hold.id in {y.id for y in t.subterms(b2)}:
                pass
            # idempotent overwrite
            if t.subst(b2, {hold: b2}) is b2:
                return ite(eq(k, ZERO), x0e, t.subst(b2, {hold: x0e}))
        # find  eq(idx, a*k + b) guard
        d = sub(b2, hold) if not b2.b and b2.op != "ite" else None
        if d is not None and hold.id not in {y.id for y in t.subterms(d)}:
            f = fresh("b")
            return add(x0e, mk("sum", k, t.close([f], t.subst(d, {k: f}))))
        for a in t.atoms_of(b2):
            if a.op != "eq0":
                continue
            ks = self.solve_k(a.args[0], k)
            if ks is None:
                continue
            off = t.subst(b2, {a: FALSE})
            if off is not hold:
                continue
            on = t.subst(t.subst(b2, {a: TRUE}), {k: ks})
            cnd = and_(le(ZERO, ks, True), lt(ks, k, True))
            return ite(cnd, t.subst(on, {hold: x0e}), x0e)
        # additive under conditions (nested accumulations)
        hi = t._lift(lambda x: sub(x, hold), [b2]) if b2.op == "ite" else None
        if hi is not None and hold.id not in {y.id for y in t.subterms(hi)}:
            f = fresh("b")
            return add(x0e, mk("sum", k, t.close([f], t.subst(hi, {k: f}))))
        return None

    def solve_k(self, p, k):
        """k from p == 0, p linear in k with coefficient +-1"""
        c0, it = t._items(p)
        ck = 0
        for m, c in it:
            for x, e in m:
                if x is k:
                    if e != 1 or len(m) != 1:
                        return None
                    ck = c
                elif x.op != "sym" and t.contains_sym(x, k):
                    return None
        if ck not in (1, -1):
            return None
        rest = sub(p, mul(num(ck), k))
        return mul(num(-1 / Fraction(ck)), rest)

    def trip(self, Ck, k):
        """number of iterations of a loop with condition Ck"""
        neg = False
        a = Ck
        conj = []
        # conjunction of literals
        y = Ck
        ok = True
        lits = []
        while y.op == "ite" and (y.args[1] is FALSE or y.args[2] is FALSE):
            if y.args[2] is FALSE:
                lits.append((y.args[0], True))
                y = y.args[1]
            else:
                lits.append((y.args[0], False))
                y = y.args[2]
        if y is TRUE:
            pass
        elif y.b and y.op != "ite":
            lits.append((y, True))
        else:
            ok = False
        if ok:
            bnd = []
            other = []
            for a, v in lits:
                n = self.trip1(a, v, k)
                if n is None:
                    other.append((a, v))
                else:
                    bnd.append(n)
            if bnd:
                N = bnd[0]
                for b in bnd[1:]:
                    N = ite(lt(b, N, True), b, N)
                if other:
                    f = fresh("b")
                    c = FALSE
                    for a, v in other:
                        c = or_(c, not_(a) if v else a)
                    N = mk("first", N, t.close([f], t.subst(c, {k: f})))
                return N
        f = fresh("b")
        return mk("first", t.INF, t.close([f], t.subst(not_(Ck), {k: f})))

    def trip1(self, a, v, k):
        if a.op == "lt0i" or a.op == "lt0":
            c0, it = t._items(a.args[0])
            ck = None
            for m, c in it:
                for x, e in m:
                    if x is k:
                        if e != 1 or len(m) != 1:
                            return None
                        ck = c
                    elif t.contains_sym(x, k):
                        return None
            if ck is None:
                return None
            rest = sub(a.args[0], mul(num(ck), k))
            if a.op == "lt0":
                # real bound: only unit steps over integers are exact when rest is integral; treat alike
                pass
            if v and ck == 1:       # k + rest < 0
                n = t.neg(rest)
            elif not v and ck == -1:  # not(-k+rest<0)  k <= rest
                n = add(rest, ONE)
            elif v and ck > 0 and ck.denominator == 1:
                n = mk("ceildiv", t.neg(rest), num(ck))
            else:
                return None
            return self.pos(n)
        if a.op == "eq0" and not v:
            ks = self.solve_k(a.args[0], k)
            if ks is None:
                return None
            # from -1 the search would never end
            return ks if t._nonneg(add(ks, ONE)) else mk("first", t.INF, self._klam(a, k))
        if a.op == "le0" and not v:
            c0, it = t._items(a.args[0])
            return None
        return None

    def _klam(self, a, k):
        f = fresh("b")
        return t.close([f], t.subst(a, {k: f}))

    def pos(self, n):
        """max(n, 0) for a count"""
        if isnum(n):
            return n if numval(n) > 0 else ZERO
        if t._nonneg(n):
            return n
        return ite(lt(n, ZERO, True), ZERO, n)

    def generic_loop(self, vs, pend, sol, k, C, ex, cells, hs, M0, P0, Mc, sb):
        """no closed form: a fixpoint term for the remaining variables"""
        hv = [v[0] for v in pend]
        kk = fresh("k")
        # while (cont) state = next(state); state includes the counter
        stop = not_(sb(C))
        for x in ex:
            stop = or_(stop, sb(x.pc))
        nxt = {v[0]: sb(v[2]) for v in pend}
        ini = {v[0]: v[1] for v in pend}
        used = {}
        hvids = {h.id for h in hv}

        def closure(e, seen):
            """the loop variables the expression depends on, in order of discovery"""
            todo = [e]
            while todo:
                e = todo.pop(0)
                if e.id not in used:
                    used[e.id] = [x for x in t.subterms(e) if x.id in hvids]
                for h in used[e.id]:
                    if h not in seen:
                        seen.append(h)
                        todo.append(nxt[h])
            return seen
        base = closure(stop, [])
        fixes = {}

        def fixof(hs_):
            """the fixpoint of the loop restricted to these variables"""
            key = tuple(h.id for h in hs_)
            if key not in fixes:
                b = [fresh("b")] + [fresh("b", b=h.b) for h in hs_]
                m = {k: b[0]}
                m.update(dict(zip(hs_, b[1:])))
                for h, nb in zip(hs_, b[1:]):
                    if h in TYPES:
                        TYPES[nb] = TYPES[h]
                fixes[key] = mk("fix", t.close(b, t.subst(stop, m)), mk("tuple", *[ini[h] for h in hs_]), mk("tuple", *[t.close(b, t.subst(nxt[h], m)) for h in hs_]))
            return fixes[key]
        K = mk("proj", fixof(base), num(0))
        fin = dict(sol)
        for h in hv:
            hs_ = base if h in base else closure(nxt[h], base + [h])
            p = mk("proj", fixof(hs_), num(hs_.index(h) + 1), b=h.b)
            if h in TYPES:
                TYPES[p] = TYPES[h]
            fin[h] = p
        # resolve mutual references
        fin2 = {h: t.subst(v, {hh: fin[hh] for hh in hv}) if h in sol else v for h, v in fin.items()}
        for h in sol:
            fin2[h] = t.subst(fin2[h], {k: K})
        Cn = t.subst(t.subst(sb(C), {hh: fin[hh] for hh in hv}), {k: K})
        # normal exit when C is false at K
        def inst(m_):
            r = {}
            for root, v in m_.items():
                if root in M0 and M0[root] is v:
                    r[root] = v
                elif root in M0 or root[0] in ("g", "D", "S"):
                    r[root] = t.subst(t.subst(v, fin2), {k: K})
            for root in M0:
                r.setdefault(root, M0[root])
            return r
        self.mem = inst(Mc)
        self.pc = and_(P0, not_(Cn)) if ex else P0
        for x in ex:
            pk = and_(P0, t.subst(t.subst(sb(x.pc), fin2), {k: K}))
            pk = and_(pk, Cn)
            if pk is FALSE:
                continue
            val = t.subst(t.subst(x.val, fin2), {k: K}) if isinstance(x.val, T) else x.val
            mm = inst(x.mem)
            for root, v in x.mem.items():
                if root not in mm:
                    mm[root] = t.subst(t.subst(v, fin2), {k: K})
            self.exits.append(Exit(x.kind, pk, val, mm))

    # ----------------------------------------------------------- expressions
    def ev(self, e, want=True):
        if e is None:
            return UNDEF
        if self.dead():
            return UNDEF
        k = e["k"]
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Unsupported("expression %s" % (e.get("c") or k))
        return f(e)

    def e_int(self, e):
        return num(int(e["v"]))

    def e_float(self, e):
        return num(Fraction(e["v"]))

    def e_bool(self, e):
        return TRUE if e["v"] else FALSE

    def e_str(self, e):
        return string(e["v"])

    def e_null(self, e):
        return NULL

    def e_enum(self, e):
        return num(e["v"])

    def e_zero(self, e):
        return self.zeroval(e.get("t", ""))

    def zeroval(self, ty):
        ty = tstrip(ty)
        if ty == "bool":
            return FALSE
        if ty in NUMT:
            return ZERO
        if ty.endswith("*"):
            return NULL
        rec = self.P.records.get(ty)
        if rec:
            if any(m["n"] == lastname(ty) and self.fun(m["u"]) and not self.fun(m["u"])["params"] for m in rec["methods"]):
                return self.defaultctor(ty)
            d = {}
            for c, f in self.P.fields(ty):
                d[self.fname(f.get("q", ""), f["n"])] = self.zeroval(f["t"])
            return struct(UNDEF, d)
        if self.P.enums.get(ty):
            return ZERO
        return self.defaultval(ty)

    def e_this(self, e):
        return self.addr(self.F.this)

    def e_ref(self, e):
        return self.load(self.lv(e), e.get("t"))

    def e_mem(self, e):
        return self.load(self.lv(e), e.get("t"))

    def gname(self, q):
        """a variable of a specification stands for the one of the same name in the code"""
        F = getattr(self.P, "fallback", None)
        if F is None or "const" in (self.P.globals.get(q) or {"t": "const"})["t"].split():
            return q
        n = q.split("::")[-1]
        c = [k for k in F.globals if k.split("::")[-1] == n]
        return c[0] if len(c) == 1 else q

    def e_glob(self, e):
        q = e.get("q", e["n"])
        root = ("g", self.gname(q))
        if root not in self.mem:
            g = self.P.globals.get(q)
            if g and "init" in g and g["t"].startswith("const "):
                save = self.frames
                self.mem[root] = self.ginit[root] = self.ev(g["init"])
            elif e.get("t"):
                self.rootty[root] = e["t"]
        v = self.rootval(root)
        return self.typed(v, e.get("t", ""))

    def e_fn(self, e):
        return mk("fnptr", strip_targs(e["f"]["q"]).split("::")[-1], e["f"].get("u", ""))

    def e_idx(self, e):
        return self.load(self.lv(e), e.get("t"))

    def e_cond(self, e):
        c = self.cond(e["c"])
        box = []

        def th():
            box.append(("t", self.ev(e["ct"])))

        def el():
            box.append(("f", self.ev(e["cf"])))
        self.branch(c, th, el)
        d = dict(box)
        if "t" in d and "f" in d:
            return gate(c, d["t"], d["f"])
        return d.get("t", d.get("f", UNDEF))

    def e_icast(self, e):
        ck = e["ck"]
        v = self.ev(e["e"])
        if ck in ("FloatingToBoolean", "IntegralToBoolean", "PointerToBoolean"):
            return truth(v)
        return self.numcast(v, e["t"], e["e"].get("y"), ck)

    def numcast(self, v, ty, frm, ck):
        ty = tstrip(ty)
        if v is UNDEF:
            return v
        v = asnum(v)
        if ty in ("float", "double", "long double"):
            return v
        if ck == "FloatingToIntegral":
            if isnum(v):
                x = numval(v)
                return num(int(x))
            v = mk("trunc", v)
        if ty in ("unsigned char", "char", "signed char"):
            if isnum(v):
                x = int(numval(v))
                return num(x & 255) if ty == "unsigned char" else num(((x + 128) & 255) - 128)
            if ty == "unsigned char" and frm != "b":
                return mk("u8", v)
            if frm in ("i", "u") and ty == "char":
                return mk("i8", v)
        if ty in ("unsigned int", "unsigned long", "unsigned long long") and isnum(v) and numval(v) < 0:
            bits = 32 if ty == "unsigned int" else 64
            return num(int(numval(v)) % (1 << bits))
        return v

    def e_cast(self, e):
        ty = tstrip(e["t"])
        ck = e["ck"]
        if ck == "ToVoid":
            self.effect(e["e"])
            return UNDEF
        if ck == "Dynamic":
            v = self.ev(e["e"])
            if v.op == "addr" and v.args[0][0] == ("this",):
                return v
            return mk("dyncast", lastname(ty), v)
        if ck in ("IntegralCast", "FloatingToIntegral", "IntegralToFloating", "FloatingCast", "BooleanToSignedIntegral"):
            return self.numcast(self.ev(e["e"]), ty, e["e"].get("y"), ck)
        if ck in ("FloatingToBoolean", "IntegralToBoolean", "PointerToBoolean"):
            return truth(self.ev(e["e"]))
        v = self.ev(e["e"])
        if ty == "bool":
            return truth(v)
        if ty in NUMT and e["e"].get("y") in ("i", "u", "f", "b", "e"):
            fr = e["e"].get("y")
            return self.numcast(v, ty, fr, "FloatingToIntegral" if fr == "f" else "IntegralCast")
        return v

    def e_sizeof(self, e):
        return num(e["v"]) if "v" in e else mk("sizeof")

    def newobj(self, v):
        """address of an object identified by what it is built from and a running number"""
        r = ("g", "allocations")
        if r not in self.mem:
            self.mem[r] = ZERO
        n = self.mem[r]
        self.mem[r] = add(n, ONE)
        return mk("newobj", v, n)

    def e_new(self, e):
        ty = e["t"]
        if self.loopdepth:
            # one object per iteration: identified by what it is built from and a running number
            if "n" in e or not e.get("e"):
                raise Unsupported("allocation in a summarised loop")
            v = self.ev(e["e"])
            if self.dead():
                return UNDEF
            if v.op != "obj":
                raise Unsupported("allocation in a summarised loop")
            return self.newobj(v)
        root = ("n", next(self.newcnt))
        if "n" in e:
            n = self.ev(e["n"])
            TYPES[mk("newarr", num(root[1]))] = ty
            self.mem[root] = UNDEF if not e.get("e") else self.lib.filled(n, self.zeroval(ty))
            return t._intern("addr", ((root, ()),))
        if e.get("e"):
            v = self.ev(e["e"])
            # constructor of a record evaluates to its value
            self.mem[root] = self.convert(v, ty)
        else:
            self.mem[root] = self.defaultval(ty)
        return t._intern("addr", ((root, ()),))

    def e_delete(self, e):
        p = self.ev(e["e"])
        return UNDEF

    def e_lambda(self, e):
        i = next(self.cnt)
        self.lambdas[i] = (e, self.F)
        return t._intern("lambda", (i,))

    def e_throw(self, e):
        if e.get("e") is None:
            v = self.curexc[-1] if self.curexc else mk("exc", "?rethrow")
        else:
            v = self.excval(e["e"], e.get("t", ""))
        if self.dead():
            return UNDEF
        self.cut("throw", v)
        return UNDEF

    def excval(self, e, ty):
        x = e
        while x.get("k") in ("cast", "icast") or (x.get("k") == "ctor" and x.get("copy") and len(x["args"]) == 1):
            x = x["args"][0] if x["k"] == "ctor" else x["e"]
        if x.get("k") == "ctor":
            n = lastname(x["t"])
            code = UNDEF
            for a in x["args"]:
                v = self.ev(a)
                if self.dead():
                    return UNDEF
                if a.get("y") in ("i", "u", "e") and code is UNDEF:
                    code = asnum(v)
            if x["f"].get("r") and x["f"]["u"] in self.P.funcs:
                pass
            return mk("exc", n, code) if code is not UNDEF else mk("exc", n)
        v = self.ev(e)
        if v.op == "exc":
            return v
        return mk("exc", lastname(ty) or "?", v) if lastname(ty) in NUMT | {"int"} else mk("exc", lastname(ty) or "?")

    def e_typeid(self, e):
        return mk("typeid")

    def e_stmtexpr(self, e):
        raise Unsupported("statement expression")

    def e_ilist(self, e):
        ty = tstrip(e.get("t", ""))
        args = e["args"]
        rec = self.P.records.get(ty)
        if rec:
            d = {}
            for (c, f), a in zip([(c, f) for c, f in self.P.fields(ty)], args):
                d[self.fname("", f["n"])] = self.ev(a)
            return struct(UNDEF, d)
        vs = [self.ev(a) for a in args]
        if len(vs) == 1 and not ty.endswith("]"):
            return vs[0]
        return mk("mat", num(len(vs)), ONE, *vs)

    def e_un(self, e):
        op = e["op"]
        if op == "*":
            return self.load(self.deref(self.ev(e["e"])), e.get("t"))
        if op == "&":
            x = e["e"]
            if x.get("k") == "fn":
                return self.ev(x)
            return self.addr(self.lv(x))
        if op in ("++", "--"):
            lv = self.lv(e["e"])
            old = self.load(lv, e["e"].get("t"))
            one = ONE if op == "++" else num(-1)
            new = self.advance(old, one)
            self.store(lv, new)
            return old if e.get("post") else new
        v = self.ev(e["e"])
        if op == "!":
            return not_(truth(v))
        if v is UNDEF:
            return v
        if op == "-":
            return t.neg(v)
        if op == "+":
            return asnum(v)
        if op == "~":
            return sub(num(-1), v)
        if op in ("__extension__",):
            return v
        raise Unsupported("unary " + op)

    def advance(self, v, d):
        if v.op == "iter":
            return mk("iter", v.args[0], add(v.args[1], d))
        if v.op == "addr":
            root, steps = v.args[0]
            if steps and isinstance(steps[-1], tuple) and steps[-1][0] == "i":
                return t._intern("addr", ((root, steps[:-1] + (("i", add(steps[-1][1], d)),)),))
            return t._intern("addr", ((root, steps + (("i", d),)),))
        if v.op == "ite":
            return ite(v.args[0], self.advance(v.args[1], d), self.advance(v.args[2], d))
        return add(v, d)

    def e_bin(self, e):
        op = e["op"]
        if op == ",":
            self.effect(e["a"])
            return self.ev(e["b"])
        if op in ("&&", "||"):
            a = self.cond(e["a"])
            box = []
            if op == "&&":
                self.branch(a, lambda: box.append(self.cond(e["b"])), None)
                b = box[0] if box else FALSE
                return and_(a, b)
            self.branch(a, lambda: None, lambda: box.append(self.cond(e["b"])))
            return or_(a, box[0] if box else FALSE)
        if op == "=":
            lv = self.lv(e["a"])
            v = self.ev(e["b"])
            if self.dead():
                return UNDEF
            v = self.convert(v, e["a"].get("t", "")) if e["a"].get("t") else v
            if e["a"].get("y") == "b":
                v = truth(v)
            self.store(lv, v)
            return v
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            lv = self.lv(e["a"])
            old = self.load(lv, e["a"].get("t"))
            b = self.ev(e["b"])
            if self.dead():
                return UNDEF
            isint = e["a"].get("y") in INTS and e["b"].get("y") in INTS
            v = self.binop(op[:-1], old, b, e["a"], e["b"], isint)
            if e["a"].get("y") == "b":
                v = truth(v)
            elif e["a"].get("y") in ("i", "u") and e["b"].get("y") == "f":
                v = mk("trunc", v) if not isnum(v) else num(int(numval(v)))
            elif e["a"].get("y") in ("i", "u") and tstrip(e["a"].get("t", "")) in ("char", "unsigned char", "signed char"):
                v = self.numcast(v, e["a"]["t"], "i", "IntegralCast")
            self.store(lv, v)
            return v
        a = self.ev(e["a"])
        if self.dead():
            return UNDEF
        b = self.ev(e["b"])
        if self.dead():
            return UNDEF
        isint = e["a"].get("y") in INTS and e["b"].get("y") in INTS
        return self.binop(op, a, b, e["a"], e["b"], isint)

    def binop(self, op, a, b, ea, eb, isint):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op in ("==", "!="):
            if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
                r = eq(a.args[1], b.args[1])
            else:
                r = eq(a, b)
            return r if op == "==" else not_(r)
        if op == "<":
            return lt(a, b, isint)
        if op == ">":
            return lt(b, a, isint)
        if op == "<=":
            return le(a, b, isint)
        if op == ">=":
            return le(b, a, isint)
        if op in ("+", "-"):
            if ea.get("y") == "p" or a.op in ("addr", "iter"):
                if op == "-" and (eb.get("y") == "p" or b.op in ("addr", "iter")):
                    if a.op == "iter" and b.op == "iter":
                        return sub(a.args[1], b.args[1])
                    return mk("ptrdiff", a, b)
                if a.op == "str":
                    return mk("stroff", a, b)
                return self.advance(a, b if op == "+" else t.neg(b))
            return add(a, b) if op == "+" else sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return t.idiv(a, b) if isint else div(a, b)
        if op == "%":
            return t.imod(a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            if a.b and b.b and op in "&|^":
                return {"&": and_, "|": or_, "^": lambda x, y: ite(x, not_(y), y)}[op](a, b)
            return bitop(op, asnum(a), asnum(b))
        raise Unsupported("operator " + op)

    # ---------------------------------------------------------------- lvalue
    def lv(self, e):
        k = e["k"]
        if k == "ref":
            d = e["d"]
            F = self.F
            root = F.refs.get(d)
            if root is not None:
                if isinstance(root, list):
                    return root
                return self.loc(root)
            root = ("l", F.id, d)
            if root not in self.mem:
                # variable of an enclosing frame (lambda)
                for fr in reversed(self.frames):
                    r2 = ("l", fr.id, d)
                    if d in fr.refs:
                        return fr.refs[d] if isinstance(fr.refs[d], list) else self.loc(fr.refs[d])
                    if r2 in self.mem:
                        root = r2
                        break
            v = self.mem.get(root)
            if v is not None and v.op in ("addr", "ite", "iter", "find") and self.isref(d, e):
                return self.deref(v)
            if v is not None and self.isref(d, e):
                return self.deref(v)
            return self.loc(root)
        if k == "mem":
            b = e["b"]
            if e.get("a"):
                lv = self.deref(self.ev(b))
            else:
                lv = self.lv(b)
            return self.ext(lv, self.fname(e.get("q", ""), e["n"]))
        if k == "glob":
            self.e_glob(e)
            return self.loc(("g", self.gname(e.get("q", e["n"]))))
        if k == "this":
            return self.temp(self.ev(e))
        if k == "un" and e["op"] == "*":
            return self.deref(self.ev(e["e"]))
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.ev(e)
            return self.lv(e["e"])
        if k == "idx":
            b, i = e["b"], self.ev(e["i"])
            if b.get("y") == "p":
                p = self.ev(b)
                return self.deref(self.advance(p, i)) if not (p.op == "addr" and not p.args[0][1]) else self.ext(self.deref(p), ("i", i))
            lv = self.lv(b)
            lv0 = self.load(lv)
            if lv0.op in ("addr",) and b.get("t", "").strip().endswith("*"):
                return self.deref(self.advance(lv0, i))
            bt = b.get("t", "")
            if "*" in bt and "[" not in bt:
                p = lv0
                if p.op == "addr":
                    root, st = p.args[0]
                    return [(TRUE, root, st + (("i", i),))] if not (st and isinstance(st[-1], tuple)) else self.deref(self.advance(p, i))
                return self.ext(self.deref(p), ("i", i))
            return self.ext(lv, ("i", i))
        if k in ("cast", "icast"):
            if k == "cast" and e["ck"] in ("Dynamic",):
                return self.deref(self.ev(dict(e)))
            if k == "icast" or e["ck"] in ("IntegralCast", "FloatingToIntegral", "IntegralToFloating", "FloatingCast"):
                return self.temp(self.ev(e))
            return self.lv(e["e"])
        if k == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            self.ev(e)
            return self.lv(e["a"])
        if k == "bin" and e["op"] == ",":
            self.effect(e["a"])
            return self.lv(e["b"])
        if k == "cond":
            c = self.cond(e["c"])
            box = {}
            self.branch(c, lambda: box.__setitem__("t", self.lv(e["ct"])), lambda: box.__setitem__("f", self.lv(e["cf"])))
            if "t" in box and "f" in box:
                return [(and_(c, g), r, s) for g, r, s in box["t"]] + [(and_(not_(c), g), r, s) for g, r, s in box["f"]]
            return box.get("t") or box.get("f")
        if k in ("ocall", "mcall", "call"):
            r = self.call_any(e, wantlv=True)
            if isinstance(r, list):
                return r
            if self.dead():
                return self.temp(UNDEF)
            return self.temp(r)
        return self.temp(self.ev(e))

    def isref(self, d, e):
        for fr in reversed(self.frames):
            s = fr.fn.get("_refs")
            if s is None:
                s = set()
                from .effects import walk
                for p in fr.fn.get("params", ()):
                    if p.get("ref") or p.get("t", "").endswith("&") or mutref(p.get("t", "")):
                        s.add(p["d"])
                for n in walk(fr.fn.get("body")):
                    if isinstance(n, dict) and "d" in n and (n.get("ref") or (n.get("k") is None and n.get("t", "").endswith("&")) or ismapdecl(n)):
                        s.add(n["d"])
                fr.fn["_refs"] = s
            if d in s:
                return True
        return False

    # ------------------------------------------------------------------ calls
    def e_call(self, e):
        return self.rv(self.call_any(e), e)

    e_mcall = e_ocall = e_call

    def rv(self, r, e):
        if isinstance(r, list):
            return self.load(r, e.get("t"))
        return r

    def e_ctor(self, e):
        r = self.lib.ctor(e)
        if r is not NotImplemented:
            return r
        f = e["f"]
        ty = tstrip(e["t"])
        if e.get("copy") and len(e["args"]) == 1:
            u = f.get("u")
            fn = self.fun(u)
            if fn is None or fn.get("impl"):
                return self.ev(e["args"][0])
        fn = self.fun(f.get("u"))
        if fn is not None:
            root = ("t", next(self.cnt))
            self.mem[root] = UNDEF
            args = self.bindargs(fn, e["args"])
            self.call_fn(fn, self.loc(root), args, cls=ty)
            if self.dead():
                return UNDEF
            return self.mem.get(root, UNDEF)
        if f.get("r") or self.P.records.get(ty):
            rec = self.P.records.get(ty)
            if rec is not None and not e["args"]:
                d = {}
                for c, fl in self.P.fields(ty):
                    n = self.fname("", fl["n"])
                    if fl.get("init"):
                        d[n] = self.convert(self.ev(fl["init"]), fl["t"])
                    else:
                        dv = self.defaultctor(fl["t"])
                        if dv is not UNDEF:
                            d[n] = dv
                return struct(UNDEF, d)
        args = [self.ev(a) for a in e["args"]]
        self.unmodelled.add("ctor " + lastname(ty))
        return mk("obj", lastname(ty), *args)

    def defaultctor(self, ty):
        ty = tstrip(ty)
        rec = self.P.records.get(ty)
        if rec:
            us = [m["u"] for m in rec["methods"] if m["n"] == lastname(ty)]
            for u in us:
                fn = self.fun(u)
                if fn and fn.get("ctor") and not fn["params"]:
                    root = ("t", next(self.cnt))
                    self.mem[root] = UNDEF
                    self.call_fn(fn, self.loc(root), [], cls=ty)
                    return self.mem.get(root, UNDEF)
            return UNDEF
        return self.defaultval(ty)

    def bindargs(self, fn, args):
        """evaluate arguments: list of ('v', T) or ('r', lvalue)"""
        out = []
        ps = fn["params"]
        for i, a in enumerate(args):
            p = ps[i] if i < len(ps) else None
            if p is not None and (p.get("ref") or p["t"].endswith("&")):
                if p.get("ref") == "c" and self.lib.plainrv(a):
                    out.append(("r", self.temp(self.convert(self.ev(a), p["t"]))))
                else:
                    out.append(("r", self.lv(a)))
            elif p is not None and mutref(p["t"]):
                while a["k"] in ("ctor", "cast", "icast", "temp", "bind") and mutref(a.get("t", "")) and (a.get("args") or a.get("e")):
                    a = a["args"][0] if a["k"] == "ctor" else a["e"]
                out.append(("r", self.lv(a)))
            else:
                v = self.ev(a)
                if self.dead():
                    return out
                if p is not None:
                    v = self.convert(v, p["t"])
                out.append(("v", v))
            if self.dead():
                return out
        return out

    def call_any(self, e, wantlv=False):
        """T or l-value list"""
        f = e.get("f")
        if f is not None and f["q"].startswith("spec::assume"):
            a = [self.ev(x) for x in e["args"]]
            if not self.dead():
                self.assumed.append((f["q"][12:], self.pc, a))
            return UNDEF
        r = self.lib.call(e)
        if r is not NotImplemented:
            return r
        if f is None:
            # call through a value
            fe = e.get("fe")
            if fe is not None:
                v = self.ev(fe)
                if v.op == "addr":
                    v = self.load(self.deref(v))
                if v.op == "lambda":
                    return self.call_lambda(v, e["args"])
                if v.op == "fnptr" and v.args[1] in self.P.funcs:
                    fn = self.P.funcs[v.args[1]]
                    return self.call_fn(fn, None, self.bindargs(fn, e["args"]))
            return self.opaque_call(e, "indirect")
        args = e["args"]
        this = None
        if (f.get("cls") or "").endswith("Stopwatch") and not (self.thiscls or "").endswith("Stopwatch"):
            return UNDEF       # profiling of other elements is not an observable
        if e["k"] == "mcall":
            o = e["o"]
            if e.get("a") or o.get("y") == "p":
                this = self.deref(self.ev(o))
            else:
                this = self.lv(o)
        elif e["k"] == "ocall" and e.get("m"):
            this = self.lv(args[0])
            args = args[1:]
            if self.dead():
                return UNDEF
            v = self.load(this)
            if e["op"] == "()" and v.op == "lambda":
                return self.call_lambda(v, args)
        if self.dead():
            return UNDEF
        fn = None
        if f.get("u"):
            u = f["u"]
            if f.get("v") and not e.get("nv") and this is not None:
                cls = self.dyncls(this)
                if cls:
                    u = self.P.resolve_virtual(u, cls)
                elif self.P.overriders.get(u):
                    u = None
            fn = self.fun(u)
            if fn is not None and (callee(f) in self.opaque or strip_targs(f["q"]) in self.opaque):
                fn = None
        if fn is None and callee(f) in ("signalRegistration", "signalDeregistration", "addCommand") and "Entity::" in f["q"]:
            # tables of the entity itself, nothing of its class
            for x in args:
                if callee(f) == "addCommand":
                    self.ev(x)
            return UNDEF
        if fn is None and callee(f) == "bind" and f["q"].startswith(("boost::", "std::")):
            vs = [self.ev(x) for x in args if "fnptr" in str((x.get("k"), x.get("t"))) or x.get("k") == "un"]
            return mk("call", "bind")
        if fn is None and this is not None and callee(f) in self.emits:
            # a virtual operation of an unknown object, as an ordered effect
            self.emit(callee(f), self.addr(this), *[self.ev(x) for x in args])
            if callee(f) in self.mayfail:
                # which may end with any exception
                n = self.rootval(("g", "effects"))
                for kind in ("exception", "char", "other"):
                    self.throw_unless(not_(truth(mk("mres", "raises " + kind, n))), kind)
            return UNDEF
        if fn is None or self.depth >= MAXDEPTH or any(x is fn for x in self.stack):
            return self.opaque_call(e, None, this, args)
        a = self.bindargs(fn, args)
        if self.dead():
            return UNDEF
        return self.call_fn(fn, this, a, cls=self.dyncls(this) if this else None)

    def fun(self, u):
        """the body of a repository function (a specification calls the tree's)"""
        if not u:
            return None
        r = self.P.funcs.get(u)
        if r is None and self.P.fallback is not None:
            r = self.P.fallback.funcs.get(u)
        return r

    def dyncls(self, lv):
        if len(lv) == 1 and lv[0][1] == ("this",) and not lv[0][2]:
            return self.thiscls
        return None

    thiscls = None
    emits = ()
    mayfail = ()
    assumed = ()

    def call_lambda(self, v, args):
        le_, fr = self.lambdas[v.args[0]]
        if "body" not in le_:
            raise Unsupported("generic lambda")
        fn = {"params": le_.get("params", []), "body": le_["body"], "rt": "", "n": "<lambda>"}
        fn = le_.setdefault("_fn", fn)
        a = self.bindargs(fn, args)
        if self.dead():
            return UNDEF
        # resolve captured variables through the enclosing frames on the stack
        return self.call_fn(fn, fr.this, a, cls=fr.cls, outer=fr)

    def call_fn(self, fn, this, args, cls=None, outer=None):
        """inline fn; returns T, or l-value list when it returns a reference"""
        self.tick()
        if fn.get("bad"):
            raise Unsupported("%s did not parse" % fn.get("q", fn.get("n")))
        fr = Frame(fn, this, cls, next(self.cnt))
        if outer is not None:
            fr.refs.update(outer.refs)
            for (r, v) in list(self.mem.items()):
                if r[0] == "l" and r[1] == outer.id:
                    fr.refs.setdefault(r[2], self.deref(v) if v.op in ("addr",) and self.isref(r[2], None) else self.loc(r))
        for p, a in zip(fn["params"], args):
            root = ("l", fr.id, p["d"])
            if a[0] == "r":
                self.mem[root] = self.addr(a[1])
            else:
                self.mem[root] = a[1]
        for p in fn["params"][len(args):]:
            self.mem[("l", fr.id, p["d"])] = UNDEF
        self.frames.append(fr)
        self.stack.append(fn)
        self.depth += 1
        mark = len(self.exits)
        P0 = self.pc
        self.pc = TRUE
        try:
            if fn.get("ctor"):
                self.ctor_inits(fn, this, cls)
            self.stmt(fn.get("body"))
            ex = self.exits[mark:]
            del self.exits[mark:]
            if not self.dead():
                ex.append(Exit("ret", self.pc, None, self.mem))
        finally:
            self.frames.pop()
            self.stack.pop()
            self.depth -= 1
        rets = [x for x in ex if x.kind == "ret"]
        for x in ex:
            if x.kind == "throw":
                pcx = and_(P0, x.pc)
                if pcx is not FALSE:
                    self.exits.append(Exit("throw", pcx, x.val, x.mem))
            elif x.kind != "ret":
                raise Unsupported("stray " + x.kind)
        if not rets:
            self.pc = FALSE
            return UNDEF
        self.mem, self.pc, val = dict(rets[0].mem), rets[0].pc, rets[0].val
        for x in rets[1:]:
            if x.val is not None or val is not None:
                a, b = x.val or UNDEF, val or UNDEF
                val = gate(x.pc, a, b)
            self.merge(x.pc, dict(x.mem), x.pc, self.mem, self.pc)
        self.pc = and_(P0, self.pc)
        for r in [r for r in self.mem if r[0] == "l" and r[1] == fr.id]:
            if fn.get("n") != "<lambda>":
                if not self.escapes(val, r):
                    del self.mem[r]
        if val is None:
            return UNDEF
        if fn.get("rr"):
            return self.deref(val)
        return self.typed(val, fn.get("rt", "")) if val.op != "poly" else val

    def escapes(self, val, r):
        if val is None:
            return False
        return any(x.op == "addr" and x.args[0][0] == r for x in t.subterms(val))

    def ctor_inits(self, fn, this, cls):
        own = fn.get("cls", "")
        for i in fn.get("inits", ()):
            if "f" in i:
                n = self.fname(i.get("fq", ""), i["f"])
                fty = ""
                for c, f in self.P.fields(own):
                    if f["n"] == i["f"]:
                        fty = f["t"]
                        break
                if fty.endswith("&"):
                    self.store(self.ext(this, n), self.addr(self.lv(i["e"])))
                    continue
                if self.lib.ignorable(fty):
                    continue
                v = self.ev(i["e"])
                if self.dead():
                    return
                v = self.convert(v, fty) if fty else v
                if v is not UNDEF:
                    self.store(self.ext(this, n), v)
            elif "base" in i or i.get("deleg"):
                x = i["e"]
                while x.get("k") in ("cast", "icast"):
                    x = x["e"]
                u = x.get("f", {}).get("u") if x.get("k") == "ctor" else None
                b = self.P.funcs.get(u) if u else None
                if b is not None:
                    a = self.bindargs(b, x["args"])
                    if self.dead():
                        return
                    self.call_fn(b, this, a, cls=cls)
                    if self.dead():
                        return
                else:
                    # external base: its arguments are recorded
                    if x.get("k") == "ctor" and x["args"]:
                        vs = [self.ev(a) for a in x["args"]]
                        self.store(self.ext(this, "base:" + lastname(i.get("base", ""))), mk("obj", lastname(i.get("base", "")), *vs))
        # default member initialisers are part of inits (clang lists them)

    def throw_unless(self, ok, exc):
        """the library raises `exc` when `ok` does not hold"""
        if ok is TRUE or self.under(ok) is TRUE:
            return
        m0, p0 = self.snap(), self.pc
        self.pc = and_(p0, not_(ok))
        if self.pc is not FALSE:
            self.cut("throw", mk("exc", exc))
        self.mem, self.pc = m0, and_(p0, ok)

    def opaque_call(self, e, name=None, this=None, args=None):
        """uninterpreted library function: congruent result, functional update
        of what it may modify"""
        f = e.get("f") or {}
        nm = name or callee(f)
        if args is None:
            args = e["args"]
        pm = f.get("pm", "")
        vals, outs = [], []
        for i, a in enumerate(args):
            m = pm[i] if i < len(pm) else "v"
            if m == "r":
                lv = self.lv(a)
                if self.dead():
                    return UNDEF
                outs.append((len(vals), lv, a))
                vals.append(self.load(lv))
            elif m == "p" and (a.get("t") or "").endswith("]") and a.get("k") != "str":
                lv = self.lv(a)
                outs.append((len(vals), lv, a))
                vals.append(self.load(lv))
            elif m == "p":
                v = self.ev(a)
                if v.op == "addr":
                    lv = self.deref(v)
                    outs.append((len(vals), lv, a))
                    v = self.load(lv)
                vals.append(v)
            else:
                vals.append(self.ev(a))
            if self.dead():
                return UNDEF
        self.unmodelled.add(nm)
        ov = self.load(this) if this is not None else NULL
        impure = nm in self.lib.IMPURE
        world = self.rootval(("g", "world")) if impure else NULL
        key = (nm, ov, world) + tuple(vals)
        res = mk("mres", *key)
        self.typed(res, e.get("t", ""))
        if this is not None and not f.get("c") and not f.get("s"):
            self.store(this, mk("mst", *key))
            st = TYPES.get(ov)
            if st:
                TYPES[mk("mst", *key)] = st
        if impure:
            self.mem[("g", "world")] = mk("wst", *key)
        for i, lv, a in outs:
            o = mk("out", num(i), *key)
            o2 = self.typed(o, a.get("t", ""))
            self.store(lv, o2)
        if f.get("nr"):
            self.cut("throw", mk("exc", "?" + nm))
            return UNDEF
        if f.get("rt") in ("r",) and this is not None and e.get("t") and tstrip(e.get("t")) == tstrip(e.get("ot", "-")):
            return this      # fluent interface: returns *this
        return self.typed(res, e.get("t", ""))


def bitop(op, a, b):
    def f(x, y):
        if isnum(x) and isnum(y):
            p, q = int(numval(x)), int(numval(y))
            return num({"&": p & q, "|": p | q, "^": p ^ q, "<<": p << q if 0 <= q < 64 else 0, ">>": p >> q if 0 <= q < 64 else 0}[op])
        if op in "&|^":
            x, y = sorted((x, y), key=lambda z: z.id)
            if op == "&" and ZERO in (x, y):
                return ZERO
            if op in "|^" and ZERO in (x, y):
                return y if x is ZERO else x
        if op == "<<" and isnum(y):
            return mul(x, num(1 << int(numval(y))))
        return mk({"&": "band", "|": "bor", "^": "bxor", "<<": "shl", ">>": "shr"}[op], x, y)
    return t._lift(f, [a, b])


def callee(f):
    return strip_targs(f["q"]).split("::")[-1]
