"""P17: no member is read before a constructor, or an operation that
necessarily precedes, gave it a value (definite assignment)."""
import re

from ..effects import walk


def zero(e):
    while isinstance(e, dict) and e.get("k") in ("icast", "cast"):
        e = e["e"]
    return isinstance(e, dict) and (e.get("k") == "null" or e.get("k") in ("bool", "int") and e.get("v") in (False, 0, "0", None))


PLAINY = {"b", "i", "u", "f", "e", "p"}
FIXED = re.compile(r"(const )?Eigen::(Matrix<double, \d+, \d+,.*>|Transform<.*>|Quaternion<.*>|AngleAxis<.*>)$")
# Eigen functions that fill the object they are called on, and those that give access to a part of it
DYN = re.compile(r"(const )?Eigen::Matrix<double, (-1|\d+), (-1|\d+),.*>$")
FILL = {"fromRotationMatrix", "setIdentity", "setZero", "setConstant", "setOnes", "fill", "setRandom", "swap", "setFromTwoVectors"}
PART = {"linear", "translation", "block", "head", "tail", "segment", "col", "row", "noalias", "matrix", "array",
        "coeffRef", "vec", "coeffs", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner",
        "leftCols", "rightCols", "topRows", "bottomRows", "affine", "diagonal", "x", "y", "z", "w", "angle", "axis"}


def plain(P, fd):
    """number, boolean, enumeration or raw pointer, or an array of these"""
    t = fd["t"]
    m = re.match(r"(.*?)\s*((?:\[\d+\])+)$", t)
    if m:
        b = m.group(1)
        return b.endswith("*") or bool(DYN.match(b) or FIXED.match(b)) or b in ("bool", "char", "int", "unsigned int", "long", "unsigned long", "float", "double", "short", "unsigned char", "std::size_t") or b in P.enums
    if fd.get("static"):
        return False
    return fd.get("y") in PLAINY or bool(DYN.match(t) or FIXED.match(t)) and not fd.get("ref")


def gives(fd, e):
    """does the initialiser e give the member a value?"""
    if e is None or e.get("k") == "unk" and not e.get("c"):
        return False
    if fd.get("y") == "o" or "Eigen" in fd["t"]:
        x = e
        while isinstance(x, dict) and x.get("k") in ("icast", "cast"):
            x = x["e"]
        # the default constructors of Eigen leave the coefficients as they are
        if x.get("k") != "ctor":
            return True
        if not x.get("args"):
            return not FIXED.match(fd["t"])
        # a matrix given its size only
        return not all(isinstance(a, dict) and a.get("y") in ("i", "u", "e") for a in x["args"]) or all(zero(a) for a in x["args"])
    return True


def has(st, q):
    return q in st or "part " + q in st


class Join:
    """assigned members on the paths that reach a point; None: no path"""

    @staticmethod
    def of(a, b):
        if a is None:
            return b
        if b is None:
            return a
        # elements of an array or of a run-time sized matrix are filled one by one, in loops and
        # under conditions that mirror those its size was computed from
        return (a & b) | {q for q in a | b if q.startswith("part ")}


class Walk:
    """definite assignment of the plain members of *this in one function"""

    def __init__(self, A, fn, cls, entry, depth=0, facts=()):
        self.A, self.fn, self.cls, self.depth = A, fn, cls, depth
        self.st = frozenset(entry)
        self.facts = facts
        self.reads = []      # (member, line, facts)
        self.rets = None
        self.loops = []      # break states
        self.calls = []
        self.locals = {}
        self.setters = []
        self.others = []     # members of other objects that are read
        self.bound = []      # members a script reads through a command
        self.sets = []       # [flag, members that have a value when it is raised, calls so far, line]
        self.ncalls = 0
        self.nreads = 0
        self.alias = {}

    # ---------------------------------------------------------------- state
    def mark(self, q, e=None):
        if self.st is None:
            return
        if e is not None and (self.member(e) is None and DYN.match(self.decl(q)["t"]) or e.get("k") == "idx"):
            self.st = self.st | {"part " + q}
        else:
            self.st = self.st | {q}
        for x in self.sets:
            # assigned next to the flag: nothing can be raised in between
            if x[2] == self.ncalls:
                x[1] = x[1] | {q}

    def decl(self, q):
        return self.locals[int(q[6:])] if q.startswith("local:") else self.A.plains[q]

    def member(self, e, parts=False):
        """qualified name of the plain member of *this that e denotes (element of an array included)"""
        while isinstance(e, dict):
            k = e.get("k")
            if k == "ref" and e.get("d") in self.locals:
                return "local:%s" % e["d"]
            if k == "mem":
                b = e.get("b")
                while isinstance(b, dict) and b.get("k") in ("icast", "cast"):
                    b = b["e"]
                if isinstance(b, dict) and b.get("k") == "this":
                    return e["q"] if e["q"] in self.A.plains else None
                return None
            if k == "idx":
                e = e["b"]
            elif k == "mcall" and isinstance(e.get("o"), dict) and e.get("f", {}).get("q", "").startswith("Eigen::") and e["f"]["q"].split("::")[-1] in PART and (parts or e["f"]["q"].split("::")[-1] == "noalias"):
                e = e["o"]
            elif k == "ocall" and e.get("op") in ("()", "[]") and e.get("m") and parts and e["f"]["q"].startswith("Eigen::"):
                e = e["args"][0]
            elif k in ("icast", "cast") and e.get("ck") in ("ArrayToPointerDecay", "NoOp", "LValueBitCast", None):
                e = e["e"]
            else:
                return None
        return None

    def handed(self, e):
        """the member whose address e is"""
        while isinstance(e, dict) and e.get("k") in ("icast", "cast"):
            e = e["e"]
        if isinstance(e, dict) and e.get("k") == "un" and e.get("op") == "&":
            return self.member(e["e"], True)
        return None

    def read(self, q, l):
        self.nreads += 1
        if self.st is not None and q not in self.st and "part " + q not in self.st:
            self.reads.append((q, l, self.facts))

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        if isinstance(e, list):
            for x in e:
                self.ev(x)
            return
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||"):
                self.ev(e["a"])
                s, f = self.st, self.facts
                self.facts = f + self.implied(e["a"], op == "&&")
                self.ev(e["b"])
                self.facts = f
                self.st = Join.of(s, self.st) if s is not None else None
                return
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                q = self.member(e["a"], True)
                self.ev(e["b"])
                if not q and op == "=" and isinstance(e["a"], dict) and e["a"].get("k") == "mem":
                    self.ev(e["a"].get("b"))
                elif q:
                    if op != "=":
                        self.read(q, e.get("l"))
                    self.index(e["a"])
                    self.mark(q, e["a"])
                    if not zero(e["b"]):
                        self.sets.append([q, self.st or frozenset(), self.ncalls, e.get("l")])
                else:
                    self.ev(e["a"])
                return
        elif k == "un":
            op = e["op"]
            q = self.member(e["e"])
            if q and op == "&":
                self.index(e["e"])
                self.mark(q)          # handed out: the receiver fills it
                return
            if q and op.rstrip("_post").rstrip("post") in ("++", "--"):
                self.read(q, e.get("l"))
                self.mark(q)
                return
        elif k in ("mem", "idx", "ref"):
            q = self.member(e)
            if q:
                self.index(e)
                self.read(q, e.get("l"))
                return
            if k == "mem" and e["q"] in self.A.plains and self.st is not None:
                b = e.get("b")
                while isinstance(b, dict) and b.get("k") in ("icast", "cast"):
                    b = b["e"]
                if not (b.get("k") == "this" or b.get("k") == "ref" and self.value(b)):
                    self.others.append((e["q"], e.get("l")))
        elif k == "cond":
            self.ev(e["c"])
            s, f = self.st, self.facts
            self.facts = f + self.implied(e["c"], True)
            self.ev(e["ct"])
            a, self.st = self.st, s
            self.facts = f + self.implied(e["c"], False)
            self.ev(e["cf"])
            self.facts = f
            self.st = Join.of(a, self.st)
            return
        elif k == "lambda":
            # may be called at once: what it assigns counts as assigned
            for n in walk(e):
                if n.get("k") == "ref" and n.get("d") in self.locals or n.get("k") == "bin" and n["op"] == "=":
                    q = self.member(n if n["k"] == "ref" else n["a"], True)
                    if q:
                        self.mark(q)
            return
        elif k in ("call", "mcall", "ocall", "ctor"):
            f = e.get("f") or {}
            if k == "ocall" and e.get("op") in ("=", "<<", ",") and self.member(e["args"][0], True):
                self.ev(e["args"][1:])
                self.mark(self.member(e["args"][0], True), e["args"][0])
                return
            if k == "mcall" and f.get("q", "").split("::")[-1] in ("resize", "conservativeResize") and f["q"].startswith("Eigen::"):
                q = self.member(e.get("o"))
                if q:
                    self.ev(e.get("args"))
                    if self.st is not None and not all(a.get("k") == "int" and a.get("v") == "0" for a in e["args"]):
                        self.st = self.st - {q, "part " + q}
                    return
            if k == "mcall" and e.get("o") and f.get("q", "").split("::")[-1] in ("size", "rows", "cols") and self.member(e["o"]):
                return
            if f.get("q", "").startswith("pinocchio::") and len(e.get("args", ())) >= 3 and self.member(e["args"][-1]):
                # a function of a Lie group: the result comes last
                self.ev(e.get("o"))
                self.ev(e["args"][:-1])
                self.mark(self.member(e["args"][-1]))
                return
            if k == "mcall" and f.get("q", "").startswith("Eigen::") and f["q"].endswith("::data"):
                q = self.member(e.get("o"), True)
                if q:
                    self.mark(q, e["o"])      # filled through its address
                    return
            if k == "mcall" and f.get("q", "").split("::")[-1] in FILL and f["q"].startswith("Eigen::"):
                q = self.member(e.get("o"), True)
                if q:
                    self.ev(e.get("args"))
                    self.mark(q, e["o"])
                    return
            if "o" in e:
                self.ev(e["o"])
            pm = f.get("pm", "")
            off = 1 if k == "ocall" and f.get("m", e.get("m")) else 0
            late = []
            for i, a in enumerate(e.get("args", ())):
                m = pm[i - off] if 0 <= i - off < len(pm) else "v"
                h = self.handed(a)
                if h and self.binds(f):
                    # the script reads it whenever it likes
                    if "etter" in f["q"] and "makeDirectSetter" not in f["q"] and "DirectSetter" not in f["q"]:
                        self.bound.append((h, e.get("l")))
                    else:
                        self.setters.append((h, e.get("l")))
                    continue
                q = self.member(a)
                if q and (m == "r" or k == "ocall" and e.get("op") == ">>"):
                    self.index(a)
                    late.append(q)      # filled by the callee
                elif q and m == "c":
                    self.index(a)
                    # bound by reference: a signal or command keeps it, a function reads it
                    if not self.binds(f):
                        self.read(q, e.get("l"))
                elif q and m == "p" and self.isarray(q):
                    late.append(q)
                else:
                    self.ev(a)
            self.ncalls += 1
            for q in late:
                self.mark(q)
            self.callee(e, f)
            if f.get("nr"):
                self.st = None
            return
        elif k == "throw":
            self.ev(e.get("e"))
            self.st = None
            return
        elif k == "fn":
            return
        for n, v in e.items():
            if isinstance(v, (dict, list)) and n not in ("f", "t"):
                self.ev(v)

    def value(self, b):
        """is b a variable that holds an object of its own (filled in place)?"""
        t = b.get("t", "")
        return not t.rstrip().endswith(("*", "&"))

    def index(self, e):
        while isinstance(e, dict) and e.get("k") in ("idx", "icast", "cast"):
            if e["k"] == "idx":
                self.ev(e["i"])
                e = e["b"]
            else:
                e = e["e"]

    def isarray(self, q):
        return "[" in self.decl(q)["t"]

    def binds(self, f):
        n = f.get("q", "")
        return any(x in n for x in ("makeDirectGetter", "makeDirectSetter", "DirectGetter", "DirectSetter", "boost::bind", "setReference"))

    def callee(self, e, f):
        """a member function of the same object"""
        u = f.get("u")
        if not u or self.depth > 12:
            return
        o = e.get("o")
        while isinstance(o, dict) and o.get("k") in ("icast", "cast"):
            o = o["e"]
        if not (e["k"] in ("mcall", "ocall") and (isinstance(o, dict) and o.get("k") == "this" or o is None and e["k"] == "mcall")):
            if e["k"] == "ocall" and e["args"] and isinstance(e["args"][0], dict) and e["args"][0].get("k") == "un" and e["args"][0].get("op") == "*" and (e["args"][0]["e"] or {}).get("k") == "this":
                pass
            else:
                return
        if f.get("v") and not e.get("nv"):
            u = self.A.P.resolve_virtual(u, self.cls) or u
        g = self.A.P.funcs.get(u)
        if g is None or g.get("body") is None or self.st is None:
            return
        self.calls.append((g, self.st, self.facts, e.get("l")))
        out = self.A.assigned_by(g, self.cls, self.depth + 1)
        if out is None:
            self.st = None
        else:
            self.st = self.st | out

    # ----------------------------------------------------------- statements
    def implied(self, c, val):
        """facts (member, truth) implied by c being val"""
        while isinstance(c, dict) and c.get("k") in ("icast", "cast"):
            c = c["e"]
        if not isinstance(c, dict):
            return ()
        if c.get("k") == "un" and c.get("op") == "!":
            return self.implied(c["e"], not val)
        if c.get("k") == "bin" and c["op"] in ("&&", "||"):
            if (c["op"] == "&&") == val:
                return self.implied(c["a"], val) + self.implied(c["b"], val)
            return ()
        if c.get("k") == "bin" and c["op"] in ("==", "!="):
            for a, b in ((c["a"], c["b"]), (c["b"], c["a"])):
                z = b
                while isinstance(z, dict) and z.get("k") in ("icast", "cast"):
                    z = z["e"]
                if isinstance(z, dict) and zero(z):
                    return self.implied(a, val == (c["op"] == "!="))
            return ()
        if c.get("k") == "ref" and c.get("d") in self.alias:
            return self.implied(self.alias.pop(c["d"]), val)
        q = self.anymember(c)
        return ((q, val),) if q else ()

    def const(self, c):
        while isinstance(c, dict) and c.get("k") in ("icast", "cast"):
            c = c["e"]
        if isinstance(c, dict) and c.get("k") in ("bool", "int"):
            return not zero(c)
        return None

    def anymember(self, e):
        if e.get("k") == "mem":
            b = e.get("b")
            while isinstance(b, dict) and b.get("k") in ("icast", "cast"):
                b = b["e"]
            if isinstance(b, dict) and b.get("k") == "this":
                return e["q"]
        if e.get("k") == "mcall" and not e.get("args") and isinstance(e.get("o"), dict):
            # a test of the object a member holds (smart pointer, ...)
            o = e["o"]
            while isinstance(o, dict) and o.get("k") in ("icast", "cast"):
                o = o["e"]
            return self.anymember(o) if isinstance(o, dict) and o.get("k") == "mem" else None
        return None

    def run(self, s):
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.run(x)
            return
        k = s.get("k")
        if k == "block":
            f = self.facts
            self.run(s["s"])
            self.facts = f if self.st is None else self.facts
        elif k == "decl":
            for v in s["v"] if isinstance(s["v"], list) else [s["v"]]:
                if v.get("ref") == "m" and self.member(v.get("init"), True):
                    self.mark(self.member(v["init"], True))      # filled through the reference
                else:
                    self.ev(v.get("init"))
                if "d" in v and v.get("y") == "b" and isinstance(v.get("init"), dict):
                    self.alias[v["d"]] = v["init"]
                if v.get("static"):
                    continue
                if "d" in v and plain(self.A.P, v):
                    if not gives(v, v.get("init")):
                        self.locals[v["d"]] = v
                        if self.st is not None:
                            self.st = self.st - {"local:%s" % v["d"], "part local:%s" % v["d"]}
        elif k == "expr":
            self.ev(s["e"])
        elif k == "if":
            if s.get("i"):
                self.run(s["i"])
            self.ev(s["c"])
            st, f = self.st, self.facts
            self.facts = f + self.implied(s["c"], True)
            k = self.const(s["c"])
            if k is False:
                self.st = None
            self.run(s["t"])
            a, self.st = self.st, st
            if k is True:
                self.st = None
            self.facts = f + self.implied(s["c"], False)
            self.run(s.get("e"))
            b = self.st
            self.st = Join.of(a, b)
            if a is None and b is not None:
                self.facts = f + self.implied(s["c"], False)
            elif b is None and a is not None:
                self.facts = f + self.implied(s["c"], True)
            else:
                self.facts = f
        elif k in ("for", "while", "rfor"):
            f = self.facts
            if k == "for":
                self.run(s.get("i"))
                self.ev(s.get("c"))
            elif k == "while":
                self.ev(s.get("c"))
            else:
                self.ev(s.get("r"))
            st = self.st
            self.loops.append(None)
            if s.get("c"):
                self.facts = f + self.implied(s["c"], True)
            self.run(s["b"])
            if k == "for":
                self.ev(s.get("n"))
            brk = self.loops.pop()
            # a loop of constant bounds runs at least once
            if k == "for" and self.once(s):
                self.st = Join.of(self.st, brk) if self.st is not None or brk is not None else None
            elif (k == "for" and not s.get("c") or self.const(s.get("c")) is True) and k != "rfor":
                self.st = brk         # left by a break only
            elif st is not None:
                out = Join.of(self.st, brk)
                self.st = st | {q for q in out or () if q.startswith("part ")}
            self.facts = f
        elif k == "do":
            self.loops.append(None)
            self.run(s["b"])
            self.ev(s["c"])
            brk = self.loops.pop()
            self.st = Join.of(self.st, brk)
        elif k == "switch":
            self.ev(s["c"])
            st = self.st
            self.loops.append(None)
            self.sw(s["b"], st)
            brk = self.loops.pop()
            full = self.hasdefault(s["b"]) or self.exhaustive(s)
            self.st = Join.of(self.st, brk)
            if not full:
                self.st = Join.of(self.st, st)
        elif k == "ret":
            self.ev(s.get("e"))
            if self.st is not None:
                self.rets = Join.of(self.rets, self.st) if self.rets is not None else self.st
            self.st = None
        elif k in ("break", "continue"):
            if self.loops and self.st is not None and k == "break":
                self.loops[-1] = self.st if self.loops[-1] is None else self.loops[-1] & self.st
            self.st = None
        elif k == "throw":
            self.ev(s.get("e"))
            self.st = None
        elif k == "try":
            st = self.st
            self.run(s["b"])
            out = self.st
            for h in s["h"]:
                self.st = st
                self.run(h["b"])
                out = Join.of(out, self.st)
            self.st = out
        elif k in ("case", "default"):
            self.run(s.get("b"))
        else:
            self.ev(s)

    def sw(self, b, st):
        items = b["s"] if isinstance(b, dict) and b.get("k") == "block" else [b]
        self.st = None
        for x in items:
            y = x
            while isinstance(y, dict) and y.get("k") in ("case", "default"):
                self.st = Join.of(self.st, st)
                y = y.get("b")
            self.run(y)

    def hasdefault(self, b):
        items = b["s"] if isinstance(b, dict) and b.get("k") == "block" else [b]
        for x in items:
            while isinstance(x, dict) and x.get("k") in ("case", "default"):
                if x["k"] == "default":
                    return True
                x = x.get("b")
        return False

    def exhaustive(self, s):
        c = s["c"]
        while isinstance(c, dict) and c.get("k") in ("icast", "cast"):
            c = c["e"]
        e = self.A.P.enums.get(str(c.get("t", "")).replace("const ", ""))
        if not e:
            return False
        n = [0]

        def count(b):
            if isinstance(b, dict):
                if b.get("k") == "case":
                    n[0] += 1
                if b.get("k") != "switch":
                    for v in b.values():
                        count(v)
            elif isinstance(b, list):
                for v in b:
                    count(v)
        count(s["b"])
        return n[0] >= len(e["v"])

    def once(self, s):
        """for (T i = const; i < const; ...) with at least one turn"""
        try:
            i, c = s["i"], s["c"]
            v = i["v"][0]["init"]

            def const(x):
                while isinstance(x, dict) and x.get("k") in ("icast", "cast"):
                    x = x["e"]
                return int(x["v"]) if isinstance(x, dict) and x.get("k") == "int" else None
            a, b = const(v), const(c["b"])
            return a is not None and b is not None and c["op"] in ("<", "<=", "!=") and a < b
        except (KeyError, TypeError, IndexError):
            return False


class Analysis:
    def __init__(self, P):
        self.P = P
        self.plains = {}
        for F, r in P.records.items():
            if not ours(F):
                continue
            for fd in r.get("fields", ()):
                if plain(P, fd):
                    self.plains[F + "::" + fd["n"]] = fd
        # members as they are named in expressions (template arguments dropped)
        self.memo = {}
        self.entries = {}
        self._taken = None
        self.byclass = {}
        for f in P.funcs.values():
            if f.get("cls"):
                self.byclass.setdefault(f["cls"], []).append(f)

    def assigned_by(self, g, cls, depth=0):
        key = (g["u"], cls)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = frozenset()        # recursion assigns nothing
        w = Walk(self, g, cls, (), depth)
        w.run(g["body"])
        out = Join.of(w.rets, w.st) if w.rets is not None else w.st
        self.memo[key] = out
        return out

    # ------------------------------------------------------------- classes
    def constructors(self, F):
        return [f for f in self.byclass.get(F, ()) if f.get("ctor") and not f.get("cp")]

    def entry(self, F):
        """members of F and its bases every constructor gives a value"""
        if F not in self.entries:
            st = None
            for ct in self.constructors(F):
                s = self.ctor_state(ct, F)[0]
                if s is not None:
                    st = s if st is None else st & s
            st = st or frozenset()
            self.entries[F] = st
            for b in self.P.bases(F):
                if b != F:
                    st = st | self.entry(b)
            self.entries[F] = st
        return self.entries[F]

    def handed_out(self):
        """functions whose address is taken: signals and commands call them"""
        if self._taken is None:
            self._taken = set()
            for f in self.P.funcs.values():
                for part in (f.get("body"), f.get("inits")):
                    for n in walk(part):
                        if n.get("k") == "fn" and n.get("f", {}).get("u"):
                            self._taken.add(n["f"]["u"])
        return self._taken

    def walks(self, F):
        """the walks of every operation of F, each from the state it is entered in"""
        out = []
        work = []
        helpers = {}
        for f in self.byclass.get(F, ()):
            if f.get("ctor"):
                if f.get("cp"):
                    continue
                out.append((f, self.ctor_state(f, F)[1]))
                continue
            if f.get("body") is None or f.get("dtor") or f.get("impl"):
                continue
            if f.get("acc") and not f.get("v") and not f.get("ov") and f["u"] not in self.handed_out():
                helpers[f["u"]] = f
            else:
                work.append((f, self.entry(F), ()))
        done = set()
        seen = set()
        rest = dict(helpers)
        for f, w in out:
            work += [(g, st, fa) for g, st, fa, l in w.calls if g["u"] in helpers]
        while work or rest:
            if not work:
                # called by none of the operations: whoever calls it may do so at any time
                u, f = rest.popitem()
                if u not in done:
                    work.append((f, self.entry(F), ()))
                continue
            f, st, fa = work.pop()
            k = (f["u"], st, fa)
            if k in seen or len(seen) > 4000:
                continue
            seen.add(k)
            done.add(f["u"])
            rest.pop(f["u"], None)
            w = Walk(self, f, F, st, 0, fa)
            w.run(f["body"])
            out.append((f, w))
            work += [(g, s, x) for g, s, x, l in w.calls if g["u"] in helpers]
        return out

    def flags(self, F, ws):
        """flag -> members that have a value whenever it is raised (absent: may be raised anywhere)"""
        up = {}
        bound = set()
        for f, w in ws:
            for q, st, n, l in w.sets:
                s = up.get(q)
                up[q] = st if s is None else s & st
            bound |= {q for q, l in w.setters}
        return up, bound

    def ctor_state(self, ct, cls, depth=0):
        """members given a value when the constructor is done, and its early reads"""
        w = Walk(self, ct, cls, (), depth)
        for i in ct.get("inits", ()):
            q = i.get("fq")
            if q:
                if i.get("w") or i.get("e") is not None:
                    w.ev(i.get("e"))
                e = i.get("e")
                if q in self.plains and gives(self.plains[q], e):
                    w.mark(q)
                    if not zero(e) and e.get("k") != "unk":
                        w.sets.append([q, w.st, -1, ct.get("l")])
            else:
                w.ev(i.get("e"))
                e = i.get("e") or {}
                u = (e.get("f") or {}).get("u")
                g = self.P.funcs.get(u)
                if g is not None and g.get("ctor") and w.st is not None and depth < 12:
                    s = self.ctor_state(g, cls, depth + 1)[0]
                    if s is not None:
                        w.st = w.st | s
        w.run(ct.get("body"))
        out = Join.of(w.rets, w.st) if w.rets is not None else w.st
        return out, w


def ours(F):
    return not F.startswith(("std::", "boost::", "Eigen::", "pinocchio::", "__gnu"))


def run(c):
    c.rule("every number, boolean, enumeration, raw pointer and matrix a class holds (or an array of these), and every such local variable, is assigned on each path before it is read: by all constructors of the class, earlier in the operation, or whenever a flag that guards the read is raised; a command that shows a member needs it to be assigned by the constructors")
    P = c.P
    A = Analysis(P)
    nf = nr = nb = nm = 0
    seen = set()
    for F in sorted(P.records):
        if not ours(F) or not (P.records[F].get("file") or "").startswith(P.root if hasattr(P, "root") else "/"):
            continue
        if F not in A.byclass:
            continue
        ws = A.walks(F)
        full = A.entry(F)
        up, settable = A.flags(F, ws)
        nm += sum(1 for q in A.plains if q.rsplit("::", 1)[0] == F)
        for f, w in ws:
            nf += 1
            nr += w.nreads
            for q, l, facts in w.reads:
                if f.get("ctor") is None and any(truth and g in full and g not in settable and has(up.get(g, {q}), q) for g, truth in facts if g in A.plains):
                    c.ok()
                    continue
                report(c, A, seen, q, f, l, "reads")
            if not f.get("impl"):
                others(c, A, seen, f, w)
            for q, l in w.bound:
                nb += 1
                if not has(full, q):
                    report(c, A, seen, q, f, l, "offers to scripts")
                else:
                    c.ok()
            c.ok()
    for u, f in sorted(P.funcs.items()):
        if f.get("cls") in A.byclass and ours(f["cls"]) or not f.get("body"):
            continue
        w = Walk(A, f, None, ())
        w.run(f["body"])
        nf += 1
        nr += w.nreads
        for q, l, facts in w.reads:
            report(c, A, seen, q, f, l, "reads")
        others(c, A, seen, f, w)
        c.ok()
    c.floor("operations", nf, 1500)
    c.floor("reads of tracked variables", nr, 700)
    c.floor("members", nm, 220)
    c.floor("members shown by commands", nb, 8)


def others(c, A, seen, f, w):
    for q, l in w.others:
        F = q.rsplit("::", 1)[0]
        if not A.constructors(F):
            continue        # an aggregate: filled by whoever makes it
        c.count("members read of another object")
        if not has(A.entry(F), q):
            report(c, A, seen, q, f, l, "reads")


def report(c, A, seen, q, f, l, verb):
    name = f.get("qs", f["q"]).replace("dynamicgraph::sot::", "")
    if q.startswith("local:"):
        key = "%s: local variable" % name
        what = "a local variable declared without a value"
    else:
        key = "%s %s %s" % (name, verb, q.split("::")[-1])
        what = "%s, which not every constructor assigns and no earlier statement of the operation does" % re.sub("<.*>", "", q)
    if (key, l) in seen:
        return
    seen.add((key, l))
    c.fail(key, "%s:%s" % (f["rel"], l), "%s %s %s" % (f["q"], verb, what))
