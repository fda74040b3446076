"""Abstract interpreter of Python sources over value terms.

The value of every expression is a term (terms.py) or a structured value whose
leaves are terms; at every join the two states are merged with a gate on the
branch condition, so that one pass over a function covers all of its paths.
Names that are not defined in the repository (numpy apart, which is modelled)
are opaque: an entity is the term of its construction, and the effects on it
(signal connections, values set, method calls) are part of the state.

Used for the script helpers: a scenario function of spec/py/*.py is abstracted
once with the analysed module and once with the reference module; the results
and the effects on the opaque objects must be the same terms."""
import ast
import itertools
import math
import os
import time
from fractions import Fraction

from . import terms as t
from .terms import T, TRUE, FALSE, UNDEF, ZERO, ONE, mk, gate, sym, TYPES
from .lib import mathcall, absv, minmax

MAXITER = 80


class Unsupported(Exception):
    pass


class Ctl(Exception):
    """no continuation here: the exits are recorded"""


class Absent:
    def __repr__(self):
        return "ABSENT"


ABSENT = Absent()
_ids = itertools.count(1)


class Ref:
    """object of the heap"""
    __slots__ = ("kind", "id", "x", "up")

    def __init__(self, kind, x=None, up=None):
        self.kind, self.x, self.up, self.id = kind, x, up, next(_ids)

    def __repr__(self):
        return "<%s %d>" % (self.kind, self.id)


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Fn:
    def __init__(self, node, env, mod, defaults, kwd, name):
        self.node, self.env, self.mod, self.defaults, self.kwd, self.name = node, env, mod, defaults, kwd, name
        self.attrs = None
        self.cls = None
        body = node.body if isinstance(node.body, list) else []
        self.doc = ast.get_docstring(node, clean=False) if body else None

    def __repr__(self):
        return "<function %s>" % self.name


class Cls:
    def __init__(self, name, bases, ns):
        self.name, self.bases, self.ns = name, bases, ns

    def __repr__(self):
        return "<class %s>" % self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Prop:
    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class Static:
    def __init__(self, fn, cls=False):
        self.fn, self.cls = fn, cls


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class Builtin:
    def __init__(self, name, f=None, typ=False):
        self.name, self.f, self.typ = name, f, typ

    def __repr__(self):
        return "<builtin %s>" % self.name


class Opq:
    """opaque object identified by a term; cls: dotted class name when known"""
    __slots__ = ("term", "cls")

    def __init__(self, term, cls=None):
        self.term, self.cls = term, cls

    def __eq__(self, o):
        return isinstance(o, Opq) and o.term is self.term

    def __hash__(self):
        return hash(self.term)

    def __repr__(self):
        return "<opaque %s>" % t.show(self.term, 4)


class Mod:
    def __init__(self, name, env):
        self.name, self.env = name, env
        self.star = None


class OMod:
    """module outside the repository"""

    def __init__(self, name):
        self.name = name


NUM = (int, float, Fraction)
IGNORED = {"print", "warn", "warnings.warn", "time.sleep"}
PURE = ("get", "is", "has", "name", "keys", "values", "items", "split", "signal", "className")


def scalar(v):
    return isinstance(v, (int, float, str, bool, T, Fraction))


def term(v):
    """scalar -> T"""
    if isinstance(v, T):
        return v
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return t.num(v)
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return mk("inf") if v > 0 else t.neg(mk("inf"))
        return t.num(Fraction(v))
    if isinstance(v, str):
        return t.string(v)
    if v is None:
        return mk("pynone")
    raise Unsupported("value %r where a scalar is expected" % (v,))


def native(x):
    """T -> python value if constant"""
    if x is TRUE:
        return True
    if x is FALSE:
        return False
    if isinstance(x, T):
        if x.op == "str":
            return x.args[0]
    return x


def kind(v):
    """'bool' 'int' 'float' 'str' of a scalar"""
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, (float, Fraction)):
        return "float"
    if isinstance(v, str):
        return "str"
    ty = TYPES.get(v)
    if ty:
        return {"double": "float", "std::string": "str"}.get(ty, ty)
    if v.b:
        return "bool"
    if v.op in ("str", "cat", "tostr", "substr") or v.op == "call" and v.args[0] == "pystr":
        return "str"
    if v.op == "ite":
        a, b = kind(v.args[1]), kind(v.args[2])
        return a if a == b else "float"
    if v.op == "poly":
        c0, it = v.args
        if all(kind(x) in ("int",) and e > 0 for m, c in it for x, e in m) and all(c.denominator == 1 for _, c in it) and c0.denominator == 1:
            return "int"
        return "float"
    if v.op == "pylen":
        return "int"
    return "float"


def isstrv(v):
    return kind(v) == "str"


def locals_of(node):
    """names bound in a function body"""
    names, glob, nonl = set(), set(), set()

    def targets(x):
        for y in ast.walk(x):
            if isinstance(y, ast.Name):
                names.add(y.id)

    def go(n, top=False):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                names.add(c.name)
                for d in c.decorator_list:
                    go(d)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                names.add(c.id)
            elif isinstance(c, ast.Global):
                glob.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nonl.update(c.names)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    names.add((a.asname or a.name).split(".")[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            go(c)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        names.add(x.arg)
    if isinstance(node.body, list):
        go(ast.Module(body=node.body, type_ignores=[]))
    return names - glob - nonl, glob, nonl


class Py:
    def __init__(self, roots, tlimit=25):
        """roots: list of (package prefix or None, directory) searched for modules"""
        self.roots = roots
        self.heap = {}
        self.pc = TRUE
        self.facts = {}
        self.exits = []
        self.frames = []
        self.mods = {}
        self.files = {}
        self.steps = 0
        self.deadline = time.time() + tlimit
        self.funcs = set()
        self.rand = 0
        self.newbuiltins()
        self.EFF = self.alloc("eff", {})

    # ------------------------------------------------------------- state
    def alloc(self, kind, data, x=None, up=None):
        r = Ref(kind, x, up)
        self.heap[r] = data
        return r

    def simp(self, c):
        if isinstance(c, bool):
            return TRUE if c else FALSE
        if c is TRUE or c is FALSE or not self.facts:
            return c
        if c in self.facts:
            return self.facts[c]
        return t.subst(c, self.facts)

    def known(self, c, v):
        """add the fact c = v"""
        f = dict(self.facts)

        def add(c, v):
            if c.op == "ite" and c.b:
                a, b, d = c.args
                if v and d is FALSE:
                    add(a, True), add(b, True)
                elif v and b is FALSE:
                    add(a, False), add(d, True)
                elif not v and b is TRUE:
                    add(a, False), add(d, False)
                elif not v and d is TRUE:
                    add(a, True), add(b, False)
                elif b is FALSE and d is TRUE:
                    add(a, not v)
                else:
                    f[c] = TRUE if v else FALSE
            elif c not in (TRUE, FALSE):
                f[c] = TRUE if v else FALSE
                if v and c.op == "eq":
                    # a name found equal to some text is that text
                    for x, y in (c.args, c.args[::-1]):
                        if x.op == "sym" and x not in f and not t.contains(y, {x}):
                            f[x] = y
                            for k in [k for k in f if k is not x]:
                                z = t.subst(k, {x: y})
                                if z is not k and z not in (TRUE, FALSE):
                                    f.setdefault(z, f[k])
                            break
        add(c, v)
        self.facts = f

    def fork(self, c, f1, f2):
        c = self.simp(c)
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        self.tick()
        h0, pc0, facts0 = self.heap, self.pc, self.facts
        out = []
        for f, v in ((f1, True), (f2, False)):
            self.heap = dict(h0)
            self.pc = t.and_(pc0, c if v else t.not_(c))
            self.facts = facts0
            self.known(c, v)
            if self.pc is FALSE:
                continue
            try:
                r = f()
                out.append((r, self.heap, self.pc, self.facts))
            except Ctl:
                pass
        if not out:
            raise Ctl
        if len(out) == 1:
            r, self.heap, self.pc, self.facts = out[0]
            return r
        (r1, h1, p1, fa1), (r2, h2, p2, fa2) = out
        self.heap = self.mergeheap(c, h1, h2)
        self.pc = t.or_(p1, p2)
        self.facts = {k: v for k, v in fa1.items() if fa2.get(k) is v}
        return self.pite(c, r1, r2)

    def exit(self, kind, val=None):
        self.exits.append((kind, val, self.pc, self.heap, self.facts))
        raise Ctl

    def throw(self, what, msg=""):
        fn = self.fr.fn if self.frames else None
        self.exit("raise", (what, "%s (in %s)" % (msg, fn.name if fn else "module")))

    def catch(self, kinds, f):
        """run f; exits of the given kinds join with the normal continuation"""
        old, self.exits = self.exits, []
        facts0 = self.facts
        st = []
        try:
            r = f()
            st.append((None, r, self.pc, self.heap, self.facts))
        except Ctl:
            pass
        mine = [e for e in self.exits if e[0] in kinds]
        old.extend(e for e in self.exits if e[0] not in kinds)
        self.exits = old
        st = mine + st
        if not st:
            raise Ctl
        return self.join(st)

    def join(self, st):
        k, v, pc, h, fa = st[-1]
        for k2, v2, pc2, h2, fa2 in reversed(st[:-1]):
            h = self.mergeheap(pc2, h2, h)
            v = self.pite(pc2, v2, v)
            pc = t.or_(pc2, pc)
            fa = {k: x for k, x in fa.items() if fa2.get(k) is x}
        self.heap, self.pc, self.facts = h, pc, fa
        return v

    def mergeheap(self, c, h1, h2):
        out = dict(h1)
        for k, v in h2.items():
            w = h1.get(k, ABSENT)
            if w is v:
                continue
            out[k] = v if w is ABSENT else self.mergepl(k, c, w, v)
        return out

    def mergepl(self, r, c, a, b):
        if isinstance(a, PIte) or isinstance(b, PIte):
            return PIte(c, a, b)
        if r.kind in ("env", "inst", "attrs", "eff"):
            d = dict(a)
            for k in list(b) + [k for k in a if k not in b]:
                d[k] = self.pite(c, a.get(k, ABSENT), b.get(k, ABSENT))
            return d
        if r.kind in ("list", "set"):
            if len(a) == len(b):
                return tuple(self.pite(c, x, y) for x, y in zip(a, b))
            return PIte(c, a, b)
        if r.kind == "arr":
            if a[0] == b[0]:
                return (a[0], tuple(self.pite(c, x, y) for x, y in zip(a[1], b[1])))
            return PIte(c, a, b)
        if r.kind == "dict":
            if len(a) == len(b) and all(x[0] is y[0] or self.samekey(x[0], y[0]) for x, y in zip(a, b)):
                return tuple((x[0], self.pite(c, x[1], y[1])) for x, y in zip(a, b))
            return PIte(c, a, b)
        raise Unsupported("merge of " + r.kind)

    @staticmethod
    def samekey(x, y):
        return type(x) is type(y) and not isinstance(x, PIte) and x == y

    def pite(self, c, a, b):
        if a is b:
            return a
        if type(a) is type(b) and isinstance(a, (str, int, float, bool)) and a == b:
            return a
        if isinstance(a, Opq) and a == b:
            return a
        if a is None and b is None:
            return a
        if scalar(a) and scalar(b):
            ka, kb = kind(a), kind(b)
            if isinstance(a, int) and isinstance(b, int) and ka == kb == "int":
                return PIte(c, a, b)
            if ka == kb or ka in ("int", "float") and kb in ("int", "float"):
                if ka == "int" != kb or kb == "int" != ka:
                    # keep the python type apart
                    if not (isinstance(a, T) and isinstance(b, T)):
                        return PIte(c, a, b)
                return native(gate(c, term(a), term(b)))
            return PIte(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.pite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn and a.self is b.self:
            return a
        return PIte(c, a, b)

    def tick(self):
        self.steps += 1
        if self.steps & 63 == 0 and time.time() > self.deadline:
            raise Unsupported("time limit")

    def dist(self, v, f):
        """apply f to every alternative of v"""
        if isinstance(v, PIte):
            return self.fork(v.c, lambda: self.dist(v.a, f), lambda: self.dist(v.b, f))
        if v is ABSENT:
            self.throw("NameError", "unbound")
        return f(v)

    def dist2(self, a, b, f):
        return self.dist(a, lambda x: self.dist(b, lambda y: f(x, y)))

    def data(self, r, f):
        """apply f to the contents of r"""
        d = self.heap[r]
        if isinstance(d, PIte):
            def go(x):
                self.heap[r] = x
                return self.data(r, f)
            return self.fork(d.c, lambda: go(d.a), lambda: go(d.b))
        return f(d)

    def put(self, r, d):
        self.heap[r] = d

    # ------------------------------------------------------------- modules
    def module(self, name):
        """Mod or OMod of a dotted name"""
        if name in self.mods:
            return self.mods[name]
        path = None
        for prefix, d in self.roots:
            if prefix and name != prefix and not name.startswith(prefix + "."):
                continue
            rel = name[len(prefix) + 1:] if prefix else name
            p = os.path.join(d, *rel.split(".")) if rel else d
            if getattr(d, "only", None) is not None and rel not in d.only:
                continue
            for q in (p + ".py", os.path.join(p, "__init__.py")):
                if os.path.isfile(q):
                    path = q
                    break
            if path:
                break
        if not path:
            m = self.mods[name] = OMod(name)
            return m
        return self.load(name, path)

    def load(self, name, path):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        self.files[path] = src
        env = self.alloc("env", {"__name__": name})
        m = self.mods[name] = Mod(name, env)
        m.path = path
        m.pkg = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        saved, self.frames = self.frames, self.frames + [Frame(env, m, None)]
        try:
            self.block(tree.body)
        finally:
            self.frames = saved
        return m

    def attr_of_module(self, m, n):
        if isinstance(m, OMod):
            if m.name in ("numpy", "math", "numpy.linalg", "numpy.matlib", "random", "functools", "copy"):
                b = self.numpy.get(n)
                if b is not None:
                    return b
                if n == "linalg":
                    return OMod("numpy.linalg")
                raise Unsupported("%s.%s is not modelled" % (m.name, n))
            q = m.name + "." + n
            if self.isfile(q):
                return self.module(q)
            return self.opqname(q)
        d = self.heap[m.env]
        v = d.get(n, ABSENT)
        if v is not ABSENT:
            return v
        if m.pkg == m.name:
            sub = self.module(m.name + "." + n)
            if isinstance(sub, Mod) or not n[:1].isupper():
                return sub
        if m.star:
            return self.opqname(m.star + "." + n)
        self.throw("AttributeError", "module %s has no attribute %s" % (m.name, n))

    def isfile(self, q):
        return isinstance(self.module(q), Mod)

    def opqname(self, q):
        last = q.split(".")[-1]
        return Opq(mk("pyname", last), "name")

    # ------------------------------------------------------------- names
    @property
    def fr(self):
        return self.frames[-1]

    def lookup(self, n):
        fr = self.fr
        e = fr.env
        first = True
        while e is not None:
            d = self.heap[e]
            if first or e.x != "class":
                if n in d:
                    v = d[n]
                    if isinstance(v, PIte) or v is not ABSENT:
                        return self.dist(v, lambda x: x)
                    self.throw("UnboundLocalError", n)
                if first and fr.locals and n in fr.locals:
                    self.throw("UnboundLocalError", n)
            first = False
            e = e.up
        b = self.builtins.get(n)
        if b is not None:
            return b
        if fr.mod and fr.mod.star:
            return self.opqname(fr.mod.star + "." + n)
        if n in IGNORED:
            return Builtin("ignored", lambda *a, **k: None)
        import builtins
        if hasattr(builtins, n):
            raise Unsupported("builtin " + n)
        self.throw("NameError", n)

    def bind(self, n, v):
        fr = self.fr
        e = fr.env
        if n in fr.glob:
            e = fr.mod.env
        elif n in fr.nonl:
            e = fr.env.up
            while e is not None and n not in self.heap[e]:
                e = e.up
        d = dict(self.heap[e])
        d[n] = v
        self.heap[e] = d

    # ------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.tick()
            getattr(self, "s_" + type(s).__name__, self.s_unknown)(s)

    def s_unknown(self, s):
        raise Unsupported("statement %s line %d" % (type(s).__name__, s.lineno))

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for a in s.names:
            m = self.module(a.name)
            if a.asname:
                self.bind(a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.bind(top, self.module(top))

    def s_ImportFrom(self, s):
        name = s.module or ""
        if s.level:
            base = self.fr.mod.pkg.split(".")
            base = base[:len(base) - (s.level - 1)]
            name = ".".join(base + ([name] if name else []))
        m = self.module(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, OMod):
                    self.fr.mod.star = m.name
                else:
                    for k, v in self.heap[m.env].items():
                        if not k.startswith("_"):
                            self.bind(k, v)
                    if m.star:
                        self.fr.mod.star = m.star
                continue
            self.bind(a.asname or a.name, self.attr_of_module(m, a.name))

    def s_FunctionDef(self, s):
        self.bind(s.name, self.deco(s, self.mkfn(s, s.name)))

    def deco(self, s, v):
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d), [v], {})
        return v

    def mkfn(self, node, name):
        a = node.args
        defaults = [self.ev(x) for x in a.defaults]
        kwd = [None if x is None else self.ev(x) for x in a.kw_defaults]
        env = self.fr.env
        f = Fn(node, env, self.fr.mod, defaults, kwd, name)
        f.locals = locals_of(node)
        if env.x == "class":
            f.cls = env
        return f

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        bases = [b for b in bases if not (isinstance(b, Builtin) and b.name == "object")]
        ns = self.alloc("env", {}, "class", self.fr.env)
        doc = ast.get_docstring(s, clean=False)
        self.heap[ns] = {"__doc__": doc}
        saved = self.frames
        self.frames = saved + [Frame(ns, self.fr.mod, None)]
        try:
            self.block(s.body)
        finally:
            self.frames = saved
        c = Cls(s.name, bases, ns)
        ns_d = self.heap[ns]
        for v in ns_d.values():
            if isinstance(v, Fn) and v.cls is ns:
                v.clsobj = c
        self.bind(s.name, self.deco(s, c))

    def s_Return(self, s):
        v = self.ev(s.value) if s.value else None
        self.exit("return", v)

    def s_Raise(self, s):
        if s.exc is None:
            self.throw("raise")
        v = self.ev(s.exc)
        n = v.name if isinstance(v, (Builtin, Cls)) else v[1] if isinstance(v, tuple) and v[:1] == ("exc",) else self.classname(v)
        self.throw(n)

    def classname(self, v):
        if isinstance(v, Ref) and v.kind == "inst":
            return v.x.name
        return "Exception"

    def s_Break(self, s):
        self.exit("break")

    def s_Continue(self, s):
        self.exit("continue")

    def s_Assert(self, s):
        self.fork(self.truth(self.ev(s.test)), lambda: None, lambda: self.throw("AssertionError"))

    def s_If(self, s):
        self.fork(self.truth(self.ev(s.test)), lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_While(self, s):
        def it(k):
            if k > MAXITER:
                raise Unsupported("loop not bounded by the scenario (line %d)" % s.lineno)
            c = self.truth(self.ev(s.test))

            def body():
                self.catch(("continue",), lambda: self.block(s.body))
                it(k + 1)
            self.fork(c, body, lambda: self.block(s.orelse))
        self.catch(("break",), lambda: it(0))

    def s_For(self, s):
        itv = self.ev(s.iter)

        def over(v):
            def step(k):
                # a list is iterated live
                n = self.seqlen(v)

                def body():
                    x = self.item(v, k)

                    def one():
                        self.assign(s.target, x)
                        self.block(s.body)
                    self.catch(("continue",), one)
                    return step(k + 1)
                if k > MAXITER * 5:
                    raise Unsupported("loop bound")
                return self.dist(n, lambda m: body() if k < m else self.block(s.orelse))
            return step(0)
        self.catch(("break",), lambda: self.dist(itv, lambda v: over(self.iterable(v))))

    def s_Assign(self, s):
        v = self.ev(s.value)
        for tg in s.targets:
            self.assign(tg, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id)
            self.bind(tg.id, self.aug(s.op, cur, self.ev(s.value)))
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value)
            v = self.aug(s.op, self.getattr(o, tg.attr), self.ev(s.value))
            self.setattr(o, tg.attr, v)
        else:
            o, i = self.ev(tg.value), self.index(tg.slice)
            v = self.aug(s.op, self.getitem(o, i), self.ev(s.value))
            self.setitem(o, i, v)

    def aug(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, Ref) and a.kind == "list":
            self.call(self.getattr(a, "extend"), [b], {})
            return a
        if isinstance(a, Ref) and a.kind == "arr":
            r = self.binop(op, a, b)
            self.heap[a] = self.heap[r]
            return a
        return self.binop(op, a, b)

    def s_Delete(self, s):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                self.bind(tg.id, ABSENT)
            elif isinstance(tg, ast.Subscript):
                self.delitem(self.ev(tg.value), self.index(tg.slice))
            else:
                raise Unsupported("del")

    def s_Try(self, s):
        if s.finalbody:
            raise Unsupported("finally")
        old, self.exits = self.exits, []
        st = []
        try:
            self.block(s.body)
            self.block(s.orelse)
            st.append((None, None, self.pc, self.heap, self.facts))
        except Ctl:
            pass
        mine = [e for e in self.exits if e[0] == "raise"]
        old.extend(e for e in self.exits if e[0] != "raise")
        self.exits = old
        for e in mine:
            _, (what, msg), self.pc, self.heap, self.facts = e
            done = False
            for h in s.handlers:
                if h.type is None or self.handles(self.ev(h.type), what):
                    try:
                        if h.name:
                            self.bind(h.name, ("exc", what))
                        self.block(h.body)
                        st.append((None, None, self.pc, self.heap, self.facts))
                    except Ctl:
                        pass
                    done = True
                    break
            if not done:
                self.exits.append(e)
        if not st:
            raise Ctl
        self.join(st)

    def handles(self, ty, what):
        if isinstance(ty, tuple):
            return any(self.handles(x, what) for x in ty)
        n = ty.name if isinstance(ty, (Builtin, Cls)) else "?"
        if n in ("Exception", "BaseException", what):
            return True
        sup = {"KeyError": "LookupError", "IndexError": "LookupError", "UnboundLocalError": "NameError"}
        return sup.get(what) == n

    # ------------------------------------------------------------- targets
    def assign(self, tg, v):
        if isinstance(tg, ast.Name):
            self.bind(tg.id, v)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.ev(tg.value), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            self.setitem(self.ev(tg.value), self.index(tg.slice), v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            if any(isinstance(e, ast.Starred) for e in tg.elts):
                raise Unsupported("starred target")

            def go(x):
                xs = self.iterable(x)
                k = self.seqlen(xs)
                if k != n:
                    self.throw("ValueError", "unpack")
                for i, e in enumerate(tg.elts):
                    self.assign(e, self.item(xs, i))
            self.dist(v, go)
        else:
            raise Unsupported("target")

    def index(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return tuple(self.index(e) for e in s.elts)
        return self.ev(s)

    # ------------------------------------------------------------- expressions
    def ev(self, e):
        self.tick()
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported("expression %s line %d" % (type(e).__name__, e.lineno))
        return f(e)

    def e_Constant(self, e):
        if e.value is Ellipsis or isinstance(e.value, (bytes, complex)):
            raise Unsupported("constant")
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        return self.alloc("list", tuple(self.elts(e.elts)))

    def e_Set(self, e):
        return self.alloc("list", tuple(self.elts(e.elts)))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.seq(self.ev(x.value)))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        r = self.alloc("dict", ())
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            self.setitem(r, self.ev(k), self.ev(v))
        return r

    def e_JoinedStr(self, e):
        return self.strcat([self.tostr(self.ev(v.value)) if isinstance(v, ast.FormattedValue) else v.value for v in e.values])

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Subscript(self, e):
        return self.getitem(self.ev(e.value), self.index(e.slice))

    def e_Lambda(self, e):
        return self.mkfn(e, "<lambda>")

    def e_IfExp(self, e):
        return self.fork(self.truth(self.ev(e.test)), lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_BoolOp(self, e):
        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isinstance(e.op, ast.And):
                return self.fork(c, lambda: go(i + 1), lambda: v)
            return self.fork(c, lambda: v, lambda: go(i + 1))
        return go(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return native(t.not_(self.simp(self.truth(v))))
        if isinstance(e.op, ast.USub):
            return self.dist(v, lambda x: -x if isinstance(x, NUM) else self.arith("-", 0, x))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary")

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%", ast.FloorDiv: "//", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}

    def binop(self, op, a, b):
        o = self.OPS[type(op)]
        return self.dist2(a, b, lambda x, y: self.arith(o, x, y))

    DUNDER = {"+": "__add__", "-": "__sub__", "*": "__mul__", "@": "__matmul__"}

    def arith(self, o, a, b):
        if isinstance(a, PIte) or isinstance(b, PIte):
            return self.dist2(a, b, lambda x, y: self.arith(o, x, y))
        if isinstance(a, NUM) and isinstance(b, NUM):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: Fraction(a) / Fraction(b) if isinstance(a, int) and isinstance(b, int) and a % b else a / b, "**": lambda: a ** b, "%": lambda: a % b, "//": lambda: a // b,
                        "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[o]()
            except ZeroDivisionError:
                self.throw("ZeroDivisionError")
            except (TypeError, KeyError):
                self.throw("TypeError")
        if isinstance(a, Ref) and a.kind == "arr" or isinstance(b, Ref) and b.kind == "arr":
            return self.nparith(o, a, b)
        if isinstance(a, Ref) and a.kind == "inst":
            f = self.classattr(a.x, self.DUNDER.get(o, "?"))
            if f is not ABSENT:
                return self.call(Bound(f, a), [b], {})
        if scalar(a) and scalar(b):
            if isstrv(a) or isstrv(b):
                if o == "+" and isstrv(a) and isstrv(b):
                    return self.strcat([a, b])
                if o == "*" and isinstance(a, str) and isinstance(b, int):
                    return a * b
                if o == "*" and isinstance(b, str) and isinstance(a, int):
                    return a * b
                if o == "%" and isinstance(a, str):
                    return native(mk("call", "format", term(a), term(b)))
                self.throw("TypeError")
            x, y = term(a), term(b)
            if o in ("&", "|", "^") and (x.b or kind(a) in ("int", "bool")) and (y.b or kind(b) in ("int", "bool")):
                if o == "&" and (isinstance(a, bool) or x.b or a in (0, 1)) and (isinstance(b, bool) or y.b or b in (0, 1)):
                    return native(t.and_(t.truth(x), t.truth(y)))
                if o == "|" and x.b and y.b:
                    return native(t.or_(x, y))
                raise Unsupported("bit operation")
            x, y = t.asnum(x), t.asnum(y)
            if o == "+":
                return t.add(x, y)
            if o == "-":
                return t.sub(x, y)
            if o == "*":
                return t.mul(x, y)
            if o == "/":
                if y is ZERO:
                    self.throw("ZeroDivisionError")
                return t.div(x, y)
            if o == "**":
                if isinstance(b, int) and 0 <= b < 10:
                    r = ONE
                    for _ in range(b):
                        r = t.mul(r, x)
                    return r
                if isinstance(b, (float, Fraction)) and b == 0.5:
                    return mathcall("sqrt", [x])
                return mk("call", "pow", x, y)
            if o == "%" and kind(a) == "int" and kind(b) == "int":
                return mk("call", "pymod", x, y)
            if o == "//":
                return mathcall("floor", [t.div(x, y)])
            raise Unsupported("operator " + o)
        if o == "+":
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list":
                return self.data(a, lambda x: self.data(b, lambda y: self.alloc("list", x + y)))
        if o == "*":
            if isinstance(b, (tuple, Ref)) and isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and isinstance(a, tuple):
                return a * b
            if isinstance(b, int) and isinstance(a, Ref) and a.kind == "list":
                return self.data(a, lambda x: self.alloc("list", x * b))
        if isinstance(a, str) and o == "%":
            return mk("call", "format", term(a), *[term(x) for x in self.seq(b) if scalar(x)])
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq(mk("pyop", o, self.tm(a), self.tm(b)))
        for x in (a, b):
            if not (x is None or scalar(x) or isinstance(x, tuple) or isinstance(x, Ref) and x.kind in ("list", "dict", "inst")):
                raise Unsupported("operand %r" % (x,))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "dict":
            raise Unsupported("dict operator")
        self.throw("TypeError", "%r %s %r" % (a, o, b))

    def strcat(self, xs):
        return native(mk("cat", *[term(x) for x in xs]))

    def tostr(self, v):
        def f(x):
            if isinstance(x, str) or isinstance(x, T) and isstrv(x):
                return x
            if isinstance(x, (int, bool)):
                return str(x)
            if isinstance(x, T):
                return mk("call", "pystr", x)
            if isinstance(x, Ref) and x.kind == "inst":
                for n in ("__str__", "__repr__"):
                    m = self.classattr(x.x, n)
                    if m is not ABSENT:
                        return self.call(Bound(m, x), [], {})
            return mk("call", "pystr", self.tm(x))
        return self.dist(v, f)

    # comparisons
    def e_Compare(self, e):
        def go(left, i):
            right = self.ev(e.comparators[i])
            r = self.compare(e.ops[i], left, right)
            if i == len(e.ops) - 1:
                return r
            return self.fork(self.truth(r), lambda: go(right, i + 1), lambda: r)
        return go(self.ev(e.left), 0)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.dist2(a, b, self.is_)
            return r if isinstance(op, ast.Is) else native(t.not_(self.truth(r)))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.dist2(a, b, self.contains)
            return r if isinstance(op, ast.In) else native(t.not_(self.truth(r)))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.dist2(a, b, self.eq)
            return r if isinstance(op, ast.Eq) else native(t.not_(self.truth(r)))

        def f(x, y):
            if scalar(x) and scalar(y) and not isstrv(x) and not isstrv(y):
                if isinstance(x, NUM) and isinstance(y, NUM):
                    return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
                isint = kind(x) in ("int", "bool") and kind(y) in ("int", "bool")
                p, q = t.asnum(term(x)), t.asnum(term(y))
                return native({ast.Lt: lambda: t.lt(p, q, isint), ast.LtE: lambda: t.le(p, q, isint), ast.Gt: lambda: t.lt(q, p, isint), ast.GtE: lambda: t.le(q, p, isint)}[type(op)]())
            if isinstance(x, str) and isinstance(y, str):
                return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
            if x is None or y is None:
                self.throw("TypeError")
            raise Unsupported("comparison of %r and %r" % (x, y))
        return self.dist2(a, b, f)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Opq) and isinstance(b, Opq):
            return self.eq(a, b)
        if isinstance(a, T) and a.b and isinstance(b, bool):
            return native(a if b else t.not_(a))
        return False

    def eq(self, a, b):
        if isinstance(a, PIte) or isinstance(b, PIte):
            return self.dist2(a, b, self.eq)
        if scalar(a) and scalar(b):
            if not isinstance(a, T) and not isinstance(b, T):
                return a == b
            sa, sb = isstrv(a), isstrv(b)
            if sa != sb:
                return False
            x, y = term(a), term(b)
            if sa:
                return native(self.simp(t.streq(x, y)))
            return native(self.simp(t.eq(t.asnum(x), t.asnum(y)) if not (x.b and y.b) else t.eq(x, y)))
        if a is None or b is None:
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list":
            if a is b:
                return True
            return self.wseq(a, lambda x: self.wseq(b, lambda y: False if len(x) != len(y) else self.conj([lambda p=p, q=q: self.eq(p, q) for p, q in zip(x, y)])))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a is b:
                return True
            if a.kind == "inst":
                f = self.classattr(a.x, "__eq__")
                if f is not ABSENT:
                    return self.call(Bound(f, a), [b], {})
            if a.kind == "arr" or b.kind == "arr":
                raise Unsupported("array comparison")
            if a.kind == b.kind == "dict":
                raise Unsupported("dict comparison")
            return False
        if isinstance(a, Opq) and isinstance(b, Opq):
            return native(t.eqv(a.term, b.term))
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn is b.fn and a.self is b.self
        if isinstance(a, Opq) or isinstance(b, Opq):
            if scalar(a) or scalar(b):
                return native(t.eqv(self.tm(a), self.tm(b)))
            return False
        if isinstance(a, range) or isinstance(b, range):
            return isinstance(a, range) and isinstance(b, range) and a == b
        return a is b

    def conj(self, fs):
        def go(i):
            if i == len(fs):
                return True
            return self.fork(self.truth(fs[i]()), lambda: go(i + 1), lambda: False)
        return go(0)

    def disj(self, fs):
        def go(i):
            if i == len(fs):
                return False
            return self.fork(self.truth(fs[i]()), lambda: True, lambda: go(i + 1))
        return go(0)

    def contains(self, x, c):
        if isinstance(c, Opq):
            return self.pyhas(c.term, self.tm(x))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Ref) and c.kind == "dict":
            return self.data(c, lambda d: self.disj([lambda k=k: self.eq(x, k) for k, _ in d]))
        return self.wseq(c, lambda d: self.disj([lambda y=y: self.eq(x, y) for y in d]))

    @staticmethod
    def pyhas(o, n):
        """does the (class of the) opaque object have this member"""
        while o.op == "pyret" and o.args[1] == "keys" or o.op == "pyattr" and o.args[1].args[0] in ("__dict__", "__class__"):
            o = o.args[0]
        return mk("pyhas", o, n, b=True)

    def truth(self, v):
        if isinstance(v, PIte):
            return self.simp(t.truth(term(self.dist(v, lambda x: native(self.truth(x))))))
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return FALSE
        if isinstance(v, T):
            if v.b:
                return self.simp(v)
            if isstrv(v):
                return self.simp(t.not_(t.eqv(v, t.string(""))))
            return self.simp(t.truth(v))
        if isinstance(v, (int, float, Fraction, str, tuple, range)):
            return TRUE if v else FALSE
        if isinstance(v, Ref):
            if v.kind in ("list", "dict"):
                return self.truth(self.data(v, lambda d: len(d) > 0))
            if v.kind == "arr":
                d = self.heap[v]
                if len(d[1]) == 1:
                    return self.truth(d[1][0])
                self.throw("ValueError", "truth value of an array")
            if v.kind == "inst":
                for n in ("__bool__", "__len__"):
                    f = self.classattr(v.x, n)
                    if f is not ABSENT:
                        return self.truth(self.call(Bound(f, v), [], {}))
        if isinstance(v, Opq) and v.term.op in ("pyret", "pyop"):
            return mk("pytruth", v.term, b=True)
        return TRUE

    # ------------------------------------------------------------- sequences
    def iterable(self, v):
        """tuple or list Ref to iterate over"""
        if isinstance(v, (tuple, range)):
            return v
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, Ref):
            if v.kind == "list":
                return v
            if v.kind == "dict":
                return self.data(v, lambda d: tuple(k for k, _ in d))
            if v.kind == "arr":
                return tuple(self.getitem(v, i) for i in range(self.heap[v][0][0]))
        if v is None or scalar(v) and not isstrv(v):
            self.throw("TypeError", "not iterable")
        raise Unsupported("iteration over %r" % (v,))

    def seqlen(self, v):
        if isinstance(v, Ref):
            return self.data(v, len)
        return len(v)

    def item(self, v, i):
        if isinstance(v, Ref):
            return self.data(v, lambda d: d[i])
        return v[i]

    def seq(self, v):
        """python tuple of the elements (a single alternative)"""
        v = self.iterable(v)
        if isinstance(v, Ref):
            d = self.heap[v]
            if isinstance(d, PIte):
                raise Unsupported("sequence of undetermined length")
            return d
        return tuple(v)

    def keys(self, r):
        d = self.heap[r]
        if isinstance(d, PIte):
            return self.data(r, lambda d: tuple(k for k, _ in d))
        return tuple(k for k, _ in d)

    def wseq(self, v, f):
        """f(elements) for every alternative of the sequence"""
        def g(x):
            x = self.iterable(x)
            if isinstance(x, Ref):
                return self.data(x, f)
            return f(tuple(x))
        return self.dist(v, g)

    def comp(self, gens, f):
        out = self.alloc("list", ())
        env = self.alloc("env", {}, None, self.fr.env)
        fr = Frame(env, self.fr.mod, self.fr.fn)
        src0 = self.ev(gens[0].iter)

        def go(i):
            if i == len(gens):
                x = f()
                self.data(out, lambda d: self.put(out, d + (x,)))
                return
            g = gens[i]

            def one(x):
                self.assign(g.target, x)

                def conds(j):
                    if j == len(g.ifs):
                        return go(i + 1)
                    return self.fork(self.truth(self.ev(g.ifs[j])), lambda: conds(j + 1), lambda: None)
                conds(0)

            def all_(xs):
                for x in xs:
                    one(x)
            self.wseq(src0 if i == 0 else self.ev(g.iter), all_)
        saved = self.frames
        self.frames = saved + [fr]
        try:
            go(0)
        finally:
            self.frames = saved
        return out

    def e_ListComp(self, e):
        return self.comp(e.generators, lambda: self.ev(e.elt))

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e):
        r = self.comp(e.generators, lambda: (self.ev(e.key), self.ev(e.value)))
        d = self.alloc("dict", ())
        for k, v in self.seq(r):
            self.setitem(d, k, v)
        return d

    # ------------------------------------------------------------- items
    def norm(self, i, n):
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, T) and t.isnum(i) and t.numval(i).denominator == 1:
            i = int(t.numval(i))
        if not isinstance(i, int):
            raise Unsupported("symbolic index")
        if not -n <= i < n:
            self.throw("IndexError")
        return i + n if i < 0 else i

    def getitem(self, o, i):
        return self.dist(o, lambda x: self.getitem1(x, i))

    def getitem1(self, o, i):
        if isinstance(i, PIte):
            return self.dist(i, lambda j: self.getitem1(o, j))
        if isinstance(o, (tuple, range, str)):
            if isinstance(i, slice):
                return o[self.sl(i)]
            return o[self.norm(i, len(o))]
        if isinstance(o, Ref):
            if o.kind == "list":
                if isinstance(i, slice):
                    return self.data(o, lambda d: self.alloc("list", d[self.sl(i)]))
                return self.data(o, lambda d: d[self.norm(i, len(d))])
            if o.kind == "dict":
                def look(d):
                    def go(k):
                        if k == len(d):
                            self.throw("KeyError")
                        return self.fork(self.truth(self.eq(d[k][0], i)), lambda: d[k][1], lambda: go(k + 1))
                    return go(0)
                return self.data(o, look)
            if o.kind == "arr":
                return self.data(o, lambda d: self.npget(o, d, i))
            if o.kind == "inst":
                f = self.classattr(o.x, "__getitem__")
                if f is not ABSENT:
                    return self.call(Bound(f, o), [i], {})
        if isinstance(o, Opq):
            return Opq(mk("pyitem", o.term, self.tm(i)))
        if isinstance(o, T) and isstrv(o):
            raise Unsupported("character of a text")
        if not (o is None or scalar(o)):
            raise Unsupported("subscript of %r" % (o,))
        self.throw("TypeError", "subscript of %r" % (o,))

    def sl(self, s):
        def c(x):
            if isinstance(x, T) and t.isnum(x):
                return int(t.numval(x))
            if x is not None and not isinstance(x, int):
                raise Unsupported("symbolic slice")
            return x
        return slice(c(s.start), c(s.stop), c(s.step))

    def setitem(self, o, i, v):
        if isinstance(o, PIte):
            return self.dist(o, lambda x: self.setitem(x, i, v))
        if isinstance(i, PIte):
            return self.dist(i, lambda x: self.setitem(o, x, v))
        if isinstance(o, Ref):
            if o.kind == "list":
                def st(d):
                    if isinstance(i, slice):
                        l = list(d)
                        l[self.sl(i)] = list(self.seq(v))
                        self.put(o, tuple(l))
                        return
                    k = self.norm(i, len(d))
                    self.put(o, d[:k] + (v,) + d[k + 1:])
                return self.data(o, st)
            if o.kind == "dict":
                def st2(d):
                    def go(k):
                        if k == len(d):
                            return self.put(o, d + ((i, v),))
                        return self.fork(self.truth(self.eq(d[k][0], i)), lambda: self.put(o, d[:k] + ((d[k][0], v),) + d[k + 1:]), lambda: go(k + 1))
                    return go(0)
                return self.data(o, st2)
            if o.kind == "arr":
                return self.data(o, lambda d: self.npset(o, d, i, v))
        if isinstance(o, Opq):
            return self.effect(("item", o.term, self.tm(i)), v)
        self.throw("TypeError", "item assignment")

    def delitem(self, o, i):
        if isinstance(o, Ref) and o.kind == "dict":
            def go0(d):
                def go(k):
                    if k == len(d):
                        self.throw("KeyError")
                    return self.fork(self.truth(self.eq(d[k][0], i)), lambda: self.put(o, d[:k] + d[k + 1:]), lambda: go(k + 1))
                return go(0)
            return self.data(o, go0)
        if isinstance(o, Ref) and o.kind == "list":
            def dl(d):
                if isinstance(i, slice):
                    l = list(d)
                    del l[self.sl(i)]
                    return self.put(o, tuple(l))
                k = self.norm(i, len(d))
                self.put(o, d[:k] + d[k + 1:])
            return self.data(o, dl)
        raise Unsupported("del item")

    # ------------------------------------------------------------- attributes
    def classattr(self, c, n):
        """attribute n in class c or its bases (ABSENT, or an opaque base)"""
        if isinstance(c, Cls):
            v = self.heap[c.ns].get(n, ABSENT)
            if v is not ABSENT:
                return v
            for b in c.bases:
                v = self.classattr(b, n)
                if v is not ABSENT:
                    return v
        return ABSENT

    def opqbase(self, c):
        if isinstance(c, Cls):
            for b in c.bases:
                r = self.opqbase(b)
                if r is not None:
                    return r
            return None
        return c if isinstance(c, Opq) else None

    def getattr(self, o, n, dflt=ABSENT):
        return self.dist(o, lambda x: self.getattr1(x, n, dflt))

    def getattr1(self, o, n, dflt=ABSENT):
        if isinstance(o, Ref):
            if o.kind == "inst":
                d = self.heap[o]
                if n == "__class__":
                    return o.x
                if n == "__dict__":
                    return self.alloc("dict", tuple(d.items()))
                cv = self.classattr(o.x, n)
                if isinstance(cv, Prop):
                    return self.call(cv.get, [o], {})
                v = d.get(n, ABSENT)
                if isinstance(v, PIte):
                    def alt(x):
                        if x is ABSENT:
                            return self.instattr(o, n, cv, dflt)
                        if isinstance(x, PIte):
                            return self.fork(x.c, lambda: alt(x.a), lambda: alt(x.b))
                        return x
                    return alt(v)
                if v is not ABSENT:
                    return v
                return self.instattr(o, n, cv, dflt)
            if o.kind in ("list", "dict", "arr"):
                m = getattr(self, "m_%s_%s" % (o.kind, n), None)
                if m:
                    return Builtin(n, lambda *a, **k: m(o, *a, **k))
                if o.kind == "arr":
                    p = getattr(self, "p_arr_" + n, None)
                    if p:
                        return p(o)
                    raise Unsupported("array attribute " + n)
                if n in ("iteritems", "iterkeys", "itervalues", "has_key"):
                    self.throw("AttributeError", n)
                if n in ("__class__", "__doc__"):
                    raise Unsupported(n)
                if n in dir({"list": list, "dict": dict}[o.kind]):
                    raise Unsupported("%s.%s" % (o.kind, n))
                if dflt is not ABSENT:
                    return dflt
                self.throw("AttributeError", n)
        if isinstance(o, Mod) or isinstance(o, OMod):
            return self.attr_of_module(o, n)
        if isinstance(o, Cls):
            if n == "__name__":
                return o.name
            if n == "__dict__":
                return self.alloc("dict", tuple(self.heap[o.ns].items()))
            v = self.classattr(o, n)
            if v is not ABSENT:
                return self.dist(v, lambda x: x.fn if isinstance(x, Static) and not x.cls else x)
            ob = self.opqbase(o)
            if ob is not None:
                return self.opqattr(ob, n)
            if dflt is not ABSENT:
                return dflt
            self.throw("AttributeError", n)
        if isinstance(o, Prop):
            if n == "setter":
                return Builtin("setter", lambda f: Prop(o.get, f))
            if n == "getter":
                return Builtin("getter", lambda f: Prop(f, o.set))
            if n == "__set__":
                return Builtin("__set__", lambda s, v: self.setprop(o, s, v))
            if n == "__get__":
                return Builtin("__get__", lambda s, *a: self.call(o.get, [s], {}))
        if isinstance(o, Fn):
            if n == "__doc__":
                a = self.heap.get(o.attrs)
                if a and "__doc__" in a:
                    return a["__doc__"]
                return o.doc
            if n == "__name__":
                return o.name
            if n == "__dict__":
                return self.alloc("dict", tuple((k, v) for k, v in self.heap.get(o.attrs, {}).items() if k != "__doc__"))
            if n in self.heap.get(o.attrs, {}):
                return self.heap[o.attrs][n]
            if dflt is not ABSENT:
                return dflt
            self.throw("AttributeError", n)
        if isinstance(o, Bound):
            if n == "__dict__":
                return self.alloc("dict", ())
            if n == "__self__":
                return o.self
            return self.getattr1(o.fn, n, dflt)
        if isinstance(o, Super):
            for b in o.cls.bases:
                v = self.classattr(b, n)
                if v is not ABSENT:
                    return self.bindm(v, o.self)
                if self.opqbase(b) is not None:
                    return Builtin(n, lambda *a, **k: self.opqcall(self.opqattr(self.opqbase(b), n), (o.self,) + a, k))
            if n == "__init__":
                return Builtin(n, lambda *a, **k: None)
            self.throw("AttributeError", n)
        if isinstance(o, Opq):
            return self.opqattr(o, n)
        if scalar(o) and isstrv(o):
            m = getattr(self, "m_str_" + n, None)
            if m:
                return Builtin(n, lambda *a: m(o, *a))
            raise Unsupported("str." + n)
        if isinstance(o, tuple):
            if n == "index" or n == "count":
                def f(x, start=0):
                    l = self.alloc("list", o)
                    return self.call(self.getattr(l, n), [x], {})
                return Builtin(n, f)
            if hasattr((), n):
                raise Unsupported("tuple." + n)
        if isinstance(o, T) and kind(o) == "float" and n in ("tolist", "item"):
            return Builtin(n, lambda: o)
        if isinstance(o, Builtin) and n == "__name__":
            return o.name
        if isinstance(o, Builtin) and n == "__doc__":
            return None
        if dflt is not ABSENT:
            return dflt
        for ty, is_ in ((int, kind(o) in ("int", "bool") if scalar(o) else False), (float, kind(o) == "float" if scalar(o) else False), (type(len), isinstance(o, Builtin))):
            if is_ and hasattr(ty, n):
                raise Unsupported("%s.%s" % (ty.__name__, n))
        self.throw("AttributeError", "%r.%s" % (o, n))

    def instattr(self, o, n, cv, dflt=ABSENT):
        if cv is not ABSENT:
            return self.dist(cv, lambda x: self.bindm(x, o))
        ob = self.opqbase(o.x)
        if ob is not None:
            return Builtin(n, lambda *a, **k: self.opqcall(self.opqattr(ob, n), (o,) + a, k))
        g = self.classattr(o.x, "__getattr__")
        if g is not ABSENT:
            return self.call(Bound(g, o), [n], {})
        if n == "__doc__":
            return None
        if dflt is not ABSENT:
            return dflt
        self.throw("AttributeError", "%s.%s" % (o.x.name, n))

    def bindm(self, v, o):
        if isinstance(v, Fn):
            return Bound(v, o)
        if isinstance(v, Static):
            return Bound(v.fn, o.x) if v.cls else v.fn
        if isinstance(v, Prop):
            return self.call(v.get, [o], {})
        return v

    def opqattr(self, o, n):
        if o.term.op == "pynew" and n == "name" and len(o.term.args) > 1 and o.term.args[1].op != "pykw":
            x = o.term.args[1]
            return native(x)
        if n == "value":
            s = self.heap[self.EFF].get(("source", o.term), ABSENT)
            if isinstance(s, tuple) and s[0] == "value":
                return s[1]
            if isinstance(s, tuple) and s[0] == "plug" and isinstance(s[1], Ref):
                return self.getattr(s[1], "value")
            if isinstance(s, tuple) and s[0] == "plug":
                return Opq(mk("pyattr", s[1].term if isinstance(s[1], Opq) else self.tm(s[1]), t.string("value")))
            if isinstance(s, PIte):
                raise Unsupported("value of an undetermined connection")
        v = self.heap[self.EFF].get(("set", o.term, n), ABSENT)
        if v is not ABSENT:
            return self.dist(v, lambda x: Opq(mk("pyattr", o.term, t.string(n))) if x is ABSENT else x)
        return Opq(mk("pyattr", o.term, t.string(n)))

    def setprop(self, p, o, v):
        if p.set is None:
            self.throw("AttributeError")
        self.call(p.set, [o, v], {})

    def setattr(self, o, n, v):
        def f(o):
            if isinstance(o, Ref) and o.kind == "inst":
                cv = self.classattr(o.x, n)
                if isinstance(cv, Prop):
                    return self.setprop(cv, o, v)
                d = dict(self.heap[o])
                d[n] = v
                self.heap[o] = d
            elif isinstance(o, Cls):
                d = dict(self.heap[o.ns])
                d[n] = v
                self.heap[o.ns] = d
            elif isinstance(o, Fn):
                if o.attrs is None:
                    o.attrs = self.alloc("attrs", {})
                d = dict(self.heap.get(o.attrs, {}))
                d[n] = v
                self.heap[o.attrs] = d
            elif isinstance(o, Opq):
                if n == "value":
                    self.effset(("source", o.term), ("value", self.snap(v)))
                else:
                    self.effset(("set", o.term, n), v)
            elif isinstance(o, Mod):
                d = dict(self.heap[o.env])
                d[n] = v
                self.heap[o.env] = d
            else:
                self.throw("AttributeError", n)
        self.dist(o, f)

    # ------------------------------------------------------------- effects
    def effset(self, k, v):
        d = dict(self.heap[self.EFF])
        d[k] = v
        self.heap[self.EFF] = d

    def effect(self, k, v):
        """append to the sequence of effects k"""
        d = self.heap[self.EFF]
        cur = d.get(k, ABSENT)

        def app(c):
            if isinstance(c, PIte):
                return PIte(c.c, app(c.a), app(c.b))
            return (v,) if c is ABSENT else c + (v,)
        self.effset(k, app(cur))

    def snap(self, v):
        """value semantics: copy of a container"""
        if isinstance(v, PIte):
            return PIte(v.c, self.snap(v.a), self.snap(v.b))
        if isinstance(v, Ref) and v.kind in ("list", "arr", "dict"):
            return self.alloc(v.kind, self.heap[v], v.x)
        return v

    def before(self, recv):
        """calls already made on parts of the object"""
        out = []
        for k, v in self.heap[self.EFF].items():
            if k[0] == "call" and isinstance(v, tuple) and k[1] is not recv:
                x, path = k[1], [k[2]]
                while x.op == "pyattr" and x is not recv:
                    path.insert(0, x.args[1].args[0] if x.args[1].op == "str" else t.show(x.args[1]))
                    x = x.args[0]
                if x is recv:
                    out.append(".".join(path))
        return (("after",) + tuple(sorted(out)),) if out else ()

    def opqcall(self, f, args, kw):
        nm = f.term.args[0] if f.term.op == "pyname" else None
        if nm == "plug" and len(args) == 2:
            return self.dist2(args[0], args[1], self.plug)
        if nm in IGNORED or f.term.op == "pyattr" and f.term.args[1].args[0] in ("sleep", "warn") :
            return None
        if nm == "sleep":
            return None
        if nm == "optionalparentheses":
            return args[0]
        targs = [self.tm(a) for a in args] + [mk("pykw", k, self.tm(v)) for k, v in sorted(kw.items())]
        if f.term.op == "pyattr":
            recv, m = f.term.args[0], f.term.args[1].args[0]
            if m == "signal" and len(args) == 1 and scalar(args[0]) and isstrv(args[0]):
                return self.opqattr_t(recv, args[0])
            if m.startswith(PURE):
                return Opq(mk("pyret", recv, m, *targs))
            n = self.heap[self.EFF].get(("call", recv, m), ())
            self.effect(("call", recv, m), tuple(self.snap(a) for a in args) + tuple((k, self.snap(v)) for k, v in sorted(kw.items())) + self.before(recv))
            return Opq(mk("pyret", recv, m, t.num(len(n) if isinstance(n, tuple) else -1), *targs))
        if nm and nm[0].isupper():
            return Opq(mk("pynew", nm, *targs), nm)
        self.effect(("call", f.term, ""), tuple(self.snap(a) for a in args) + tuple((k, self.snap(v)) for k, v in sorted(kw.items())))
        return Opq(mk("pyret", f.term, "", *targs))

    def opqattr_t(self, recv, n):
        if isinstance(n, str):
            return self.opqattr(Opq(recv), n)
        return Opq(mk("pyattr", recv, n))

    def plug(self, a, b):
        if isinstance(b, Ref) and b.kind == "inst":
            return self.call(self.getattr(b, "plug"), [a], {})
        if not isinstance(b, Opq):
            self.throw("TypeError", "plug")
        self.effset(("source", b.term), ("plug", a))

    def tm(self, v):
        """term standing for any value"""
        if scalar(v) or v is None:
            return term(v)
        if isinstance(v, Opq):
            return v.term
        if isinstance(v, (tuple, range)):
            return mk("tuple", *[self.tm(x) for x in v])
        if isinstance(v, slice):
            return mk("pyslice", *[self.tm(x) for x in (v.start, v.stop, v.step)])
        if isinstance(v, PIte):
            return t.ite(v.c, self.tm(v.a), self.tm(v.b))
        if isinstance(v, Ref):
            if v.kind == "list":
                return self.tmpl(self.heap[v], lambda d: mk("tuple", *[self.tm(x) for x in d]))
            if v.kind == "arr":
                return self.tmpl(self.heap[v], lambda d: mk("pyarr", str(d[0]), *[self.tm(x) for x in d[1]]))
            if v.kind == "inst":
                d = self.heap[v]
                return mk("pyinst", v.x.name, *([self.tm(d["ident_"])] if "ident_" in d else []))
            if v.kind == "dict":
                return self.tmpl(self.heap[v], lambda d: mk("pydict", *[self.tm(x) for kv in d for x in kv]))
        if isinstance(v, Fn):
            return mk("pyfn", v.name)
        if isinstance(v, Cls):
            return mk("pyname", v.name)
        if isinstance(v, (Builtin,)):
            return mk("pyname", v.name)
        if isinstance(v, Bound):
            return mk("pybound", self.tm(v.fn), self.tm(v.self))
        if v is ABSENT:
            return mk("pyabsent")
        raise Unsupported("term of %r" % (v,))

    def tmpl(self, d, f):
        if isinstance(d, PIte):
            return t.ite(d.c, self.tmpl(d.a, f), self.tmpl(d.b, f))
        return f(d)

    # ------------------------------------------------------------- calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fn = self.fr.fn
            c = getattr(fn, "clsobj", None)
            self_ = self.heap[self.fr.env].get(fn.node.args.args[0].arg)
            return Super(c, self_)
        f = self.ev(e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.seq(self.ev(a.value)))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                for kk, vv in self.heap[d]:
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, PIte):
            return self.dist(f, lambda g: self.call(g, args, kw))
        if isinstance(f, Builtin):
            if f.f is None:
                raise Unsupported("builtin " + f.name)
            try:
                return f.f(*args, **kw)
            except TypeError as ex:
                if "positional" in str(ex) or "keyword" in str(ex):
                    raise Unsupported("call of %s: %s" % (f.name, ex))
                raise
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kw)
        if isinstance(f, Fn):
            return self.callfn(f, args, kw)
        if isinstance(f, Static):
            return self.call(f.fn, args, kw)
        if isinstance(f, Cls):
            o = self.alloc("inst", {}, f)
            init = self.classattr(f, "__init__")
            if init is not ABSENT:
                self.call(init, [o] + list(args), kw)
            return o
        if isinstance(f, Opq):
            return self.opqcall(f, tuple(args), kw)
        if isinstance(f, Ref) and f.kind == "inst":
            c = self.classattr(f.x, "__call__")
            if c is not ABSENT:
                return self.call(c, [f] + list(args), kw)
        if isinstance(f, Builtin) or not (f is None or scalar(f) or isinstance(f, (tuple, Ref))):
            raise Unsupported("call of %r" % (f,))
        self.throw("TypeError", "not callable")

    def callfn(self, f, args, kw):
        self.tick()
        if len(self.frames) > 60:
            raise Unsupported("recursion")
        node = f.node
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(params):
            if not a.vararg:
                self.throw("TypeError", "too many arguments")
            env[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg:
            env[a.vararg.arg] = ()
        for p, v in zip(params, args):
            env[p] = v
        nd = len(params) - len(f.defaults)
        for i, p in enumerate(params):
            if p in kw:
                if p in env:
                    self.throw("TypeError", "multiple values")
                env[p] = kw.pop(p)
            elif p not in env:
                if i < nd:
                    self.throw("TypeError", "missing argument " + p)
                env[p] = f.defaults[i - nd]
        for i, p in enumerate(x.arg for x in a.kwonlyargs):
            if p in kw:
                env[p] = kw.pop(p)
            elif a.kw_defaults[i] is not None:
                env[p] = f.kwd[i]
            else:
                self.throw("TypeError", "missing argument " + p)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc("dict", tuple(kw.items()))
        elif kw:
            self.throw("TypeError", "unexpected keyword " + ", ".join(kw))
        up = f.env
        while up is not None and up.x == "class":
            up = up.up
        e = self.alloc("env", env, None, up)
        saved = self.frames
        self.frames = saved + [Frame(e, f.mod, f)]
        self.frames[-1].locals, self.frames[-1].glob, self.frames[-1].nonl = f.locals
        if f.mod:
            self.funcs.add((getattr(f.mod, "path", f.mod.name), f.name, node.lineno))
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)

            def body():
                self.block(node.body)
                return None
            return self.catch(("return",), body)
        finally:
            self.frames = saved

    # ------------------------------------------------------------- builtins
    def newbuiltins(self):
        B = {}

        def d(name, typ=False):
            def g(f):
                B[name] = Builtin(name, f, typ)
                return f
            return g

        @d("len")
        def len_(v):
            def f(x):
                if isinstance(x, IterTuple):
                    self.throw("TypeError", "an iterator has no length")
                if isinstance(x, (tuple, range, str)):
                    return len(x)
                if isinstance(x, Ref) and x.kind in ("list", "dict"):
                    return self.data(x, len)
                if isinstance(x, Ref) and x.kind == "arr":
                    s = self.heap[x][0]
                    if not s:
                        self.throw("TypeError")
                    return s[0]
                if isinstance(x, Ref) and x.kind == "inst":
                    m = self.classattr(x.x, "__len__")
                    if m is not ABSENT:
                        return self.call(Bound(m, x), [], {})
                if isinstance(x, Opq):
                    return mk("pylen", x.term)
                if not (x is None or scalar(x) and not isstrv(x)):
                    raise Unsupported("len of %r" % (x,))
                self.throw("TypeError", "len of %r" % (x,))
            return self.dist(v, f)

        @d("isinstance")
        def isinst(v, c):
            def f(x, y):
                if isinstance(y, tuple):
                    return self.disj([lambda z=z: self.dist(z, lambda w: f(x, w)) for z in y])
                n = y.name if isinstance(y, (Builtin, Cls)) else y.term.args[0] if isinstance(y, Opq) else None
                if isinstance(y, Cls):
                    return isinstance(x, Ref) and x.kind == "inst" and self.subclass(x.x, y)
                if scalar(x):
                    k = kind(x)
                    if n in ("int", "float", "str", "bool"):
                        return k == n or n == "int" and k == "bool"
                    return n == "object" or n in ("Number", "Real") and k != "str"
                if x is None:
                    return n in ("NoneType", "object")
                if isinstance(x, tuple):
                    return n in ("tuple", "Sequence", "Iterable")
                if isinstance(x, Ref) and x.kind in ("list", "dict"):
                    return n == x.kind or n in ("Sequence", "Iterable") and x.kind == "list"
                if isinstance(x, Ref) and x.kind == "arr":
                    return n == "ndarray" or n == "matrix" and x.x == "matrix"
                if isinstance(x, Opq):
                    if x.cls == n:
                        return True
                    if isinstance(y, Builtin):
                        return False
                    if x.cls:
                        return False
                    return mk("pyisinst", x.term, n or "?", b=True)
                if isinstance(x, Ref) and x.kind == "inst":
                    b = self.opqbase(x.x)
                    ext = self.classattr(x.x, "models_")
                    if ext == n:
                        return True
                    return b is not None and b == y
                return False
            return self.dist2(v, c, f)

        @d("issubclass")
        def issub(a, b):
            return self.subclass(a, b)

        @d("range", True)
        def range_(*a):
            a = [int(t.numval(x)) if isinstance(x, T) and t.isnum(x) else x for x in a]
            if any(not isinstance(x, int) for x in a):
                raise Unsupported("symbolic range")
            return range(*a)

        @d("tuple", True)
        def tuple_(v=()):
            return self.wseq(v, lambda d: tuple(d))

        @d("list", True)
        def list_(v=()):
            return self.wseq(v, lambda d: self.alloc("list", tuple(d)))
        B["set"] = Builtin("set", list_, True)
        B["frozenset"] = B["set"]

        @d("dict", True)
        def dict_(v=None, **kw):
            r = self.alloc("dict", ())
            if v is not None:
                if isinstance(v, Ref) and v.kind == "dict":
                    self.heap[r] = self.heap[v]
                else:
                    for x in self.seq(v):
                        k, w = self.seq(x)
                        self.setitem(r, k, w)
            for k, w in kw.items():
                self.setitem(r, k, w)
            return r

        @d("float", True)
        def float_(v=0.0):
            def f(x):
                if isinstance(x, bool) or isinstance(x, int):
                    return float(x)
                if isinstance(x, (float, Fraction)):
                    return x
                if isinstance(x, T):
                    if isstrv(x):
                        raise Unsupported("float of text")
                    return t.asnum(x)
                if isinstance(x, Ref) and x.kind == "arr" and len(self.heap[x][1]) == 1:
                    return self.heap[x][1][0]
                if isinstance(x, Opq):
                    return Opq(mk("pyop", "float", x.term))
                self.throw("TypeError")
            return self.dist(v, f)

        @d("int", True)
        def int_(v=0):
            def f(x):
                if isinstance(x, (bool, int, float, Fraction)):
                    return int(x)
                if isinstance(x, T) and kind(x) in ("int", "bool"):
                    return x
                if isinstance(x, T):
                    return mk("trunc", x)
                raise Unsupported("int()")
            return self.dist(v, f)
        B["str"] = Builtin("str", lambda v="": self.tostr(v), True)
        B["repr"] = Builtin("repr", lambda v="": self.tostr(v))
        B["bool"] = Builtin("bool", lambda v=False: native(self.truth(v)), True)
        B["object"] = Builtin("object", lambda: self.alloc("inst", {}, Cls("object", [], self.alloc("env", {}, "class"))), True)
        B["type"] = Builtin("type", lambda v: self.getattr(v, "__class__"), True)
        B["property"] = Builtin("property", lambda g=None, s=None: Prop(g, s))
        B["staticmethod"] = Builtin("staticmethod", lambda f: Static(f))
        B["classmethod"] = Builtin("classmethod", lambda f: Static(f, True))
        B["callable"] = Builtin("callable", lambda v: self.dist(v, lambda x: isinstance(x, (Fn, Bound, Cls, Builtin, Static)) or isinstance(x, Ref) and x.kind == "inst" and self.classattr(x.x, "__call__") is not ABSENT))
        B["super"] = Builtin("super", lambda c, s: Super(c, s))
        B["print"] = Builtin("print", lambda *a, **k: None)
        B["id"] = Builtin("id", lambda v: mk("pyid", self.tm(v)))
        B["hasattr"] = Builtin("hasattr", lambda o, n: self.dist(o, lambda x: self.pyhas(x.term, self.tm(n)) if isinstance(x, Opq) else self.getattr1(x, n, MISSING) is not MISSING))
        B["getattr"] = Builtin("getattr", lambda o, n, dflt=ABSENT: self.dist(o, lambda x: self.getattr1(x, n, dflt)) if isinstance(n, str) else self.unsup("getattr"))
        B["setattr"] = Builtin("setattr", lambda o, n, v: self.setattr(o, n, v) if isinstance(n, str) else self.unsup("setattr"))
        B["abs"] = Builtin("abs", lambda v: self.dist(v, lambda x: abs(x) if isinstance(x, NUM) else absv(x) if isinstance(x, T) else self.ewise(x, absv)))

        @d("sum")
        def sum_(v, s=0):
            def f(xs):
                r = s
                for x in xs:
                    r = self.arith("+", r, x)
                return r
            return self.wseq(v, f)

        def mm(ismin):
            def f(*a):
                def g(xs):
                    r = xs[0]
                    for x in xs[1:]:
                        r = (min if ismin else max)(r, x) if isinstance(r, NUM) and isinstance(x, NUM) else native(minmax(ismin, t.asnum(term(r)), t.asnum(term(x))))
                    return r
                if len(a) == 1:
                    return self.wseq(a[0], g)
                return g(a)
            return f
        B["min"] = Builtin("min", mm(True))
        B["max"] = Builtin("max", mm(False))

        @d("enumerate")
        def enum_(v, start=0):
            return self.wseq(v, lambda d: tuple((start + i, x) for i, x in enumerate(d)))

        @d("zip")
        def zip_(*vs):
            def go(i, acc):
                if i == len(vs):
                    return tuple(zip(*acc))
                return self.wseq(vs[i], lambda d: go(i + 1, acc + [d]))
            return go(0, [])

        @d("map")
        def map_(f, *vs):
            if len(vs) != 1:
                return tuple(self.call(f, list(x), {}) for x in zip_(*vs))
            return self.mkiter(self.wseq(vs[0], lambda d: tuple(self.call(f, [x], {}) for x in d)))

        @d("filter")
        def filter_(f, v):
            out = self.alloc("list", ())

            def go(xs):
                for x in xs:
                    c = self.truth(self.call(f, [x], {}) if f is not None else x)
                    self.fork(c, lambda: self.data(out, lambda d: self.put(out, d + (x,))), lambda: None)
            self.wseq(v, go)
            return self.mkiter(out)

        @d("reversed")
        def rev_(v):
            return self.wseq(v, lambda d: tuple(reversed(d)))

        @d("sorted")
        def sorted_(v, key=None, reverse=False):
            def f(d):
                if all(isinstance(x, (int, float, str)) for x in d) and key is None:
                    return self.alloc("list", tuple(sorted(d, reverse=bool(reverse))))
                if len(d) < 2:
                    return self.alloc("list", d)
                raise Unsupported("sorted")
            return self.wseq(v, f)
        B["iter"] = Builtin("iter", lambda v: self.mkiter(v))
        B["any"] = Builtin("any", lambda v: self.wseq(v, lambda d: self.disj([lambda x=x: x for x in d])))
        B["all"] = Builtin("all", lambda v: self.wseq(v, lambda d: self.conj([lambda x=x: x for x in d])))
        for n in ("Exception", "BaseException", "RuntimeError", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "NotImplementedError", "NameError", "AssertionError", "LookupError", "ImportError", "ModuleNotFoundError", "StopIteration", "ZeroDivisionError"):
            B[n] = Builtin(n, lambda *a, n=n: ("exc", n), True)
        B["NotImplemented"] = Opq(mk("pyname", "NotImplemented"))
        self.builtins = B
        self.newnumpy()

    def unsup(self, s):
        raise Unsupported(s)

    def mkiter(self, v):
        """an iterator: has no length"""
        def f(d):
            r = self.alloc("list", tuple(d))
            r.kind = "list"
            it = IterTuple(d)
            return it
        return self.wseq(v, f)

    def subclass(self, c, y):
        if c is y:
            return True
        return isinstance(c, Cls) and any(self.subclass(b, y) for b in c.bases)

    # list / dict / str methods
    def m_list_append(self, o, x):
        self.data(o, lambda d: self.put(o, d + (x,)))

    def m_list_extend(self, o, v):
        self.wseq(v, lambda xs: self.data(o, lambda d: self.put(o, d + tuple(xs))))

    def m_list_insert(self, o, i, x):
        def f(d):
            l = list(d)
            if not isinstance(i, int):
                raise Unsupported("symbolic index")
            l.insert(i, x)
            self.put(o, tuple(l))
        self.data(o, f)

    def m_list_remove(self, o, x):
        def f(d):
            def go(k):
                if k == len(d):
                    self.throw("ValueError")
                return self.fork(self.truth(self.eq(d[k], x)), lambda: self.put(o, d[:k] + d[k + 1:]), lambda: go(k + 1))
            return go(0)
        return self.data(o, f)

    def m_list_discard(self, o, x):
        return self.fork(self.truth(self.contains(x, o)), lambda: self.m_list_remove(o, x), lambda: None)

    def m_list_add(self, o, x):
        return self.fork(self.truth(self.contains(x, o)), lambda: None, lambda: self.m_list_append(o, x))

    def m_list_index(self, o, x):
        def f(d):
            def go(k):
                if k == len(d):
                    self.throw("ValueError")
                return self.fork(self.truth(self.eq(d[k], x)), lambda: k, lambda: go(k + 1))
            return go(0)
        return self.data(o, f)

    def m_list_pop(self, o, i=-1):
        def f(d):
            k = self.norm(i, len(d))
            self.put(o, d[:k] + d[k + 1:])
            return d[k]
        return self.data(o, f)

    def m_list_clear(self, o):
        self.put(o, ())

    def m_list_copy(self, o):
        return self.data(o, lambda d: self.alloc("list", d))

    def m_list_reverse(self, o):
        self.data(o, lambda d: self.put(o, tuple(reversed(d))))

    def m_list_count(self, o, x):
        def f(d):
            r = 0
            for y in d:
                r = self.arith("+", r, self.fork(self.truth(self.eq(x, y)), lambda: 1, lambda: 0))
            return r
        return self.data(o, f)

    def m_dict_keys(self, o):
        return self.data(o, lambda d: tuple(k for k, _ in d))

    def m_dict_values(self, o):
        return self.data(o, lambda d: tuple(v for _, v in d))

    def m_dict_items(self, o):
        return self.data(o, lambda d: tuple((k, v) for k, v in d))

    def m_dict_get(self, o, k, dflt=None):
        return self.fork(self.truth(self.contains(k, o)), lambda: self.getitem(o, k), lambda: dflt)

    def m_dict_setdefault(self, o, k, dflt=None):
        def new():
            self.setitem(o, k, dflt)
            return dflt
        return self.fork(self.truth(self.contains(k, o)), lambda: self.getitem(o, k), new)

    def m_dict_pop(self, o, k, dflt=ABSENT):
        def have():
            v = self.getitem(o, k)
            self.delitem(o, k)
            return v
        return self.fork(self.truth(self.contains(k, o)), have, lambda: dflt if dflt is not ABSENT else self.throw("KeyError"))

    def m_dict_update(self, o, v=None, **kw):
        if v is not None:
            if isinstance(v, Ref) and v.kind == "dict":
                self.data(v, lambda d: [self.setitem(o, k, w) for k, w in d] and None)
            else:
                raise Unsupported("update")
        for k, w in kw.items():
            self.setitem(o, k, w)

    def m_dict_clear(self, o):
        self.put(o, ())

    def m_dict_copy(self, o):
        return self.data(o, lambda d: self.alloc("dict", d))

    def m_str_split(self, s, sep=None):
        if isinstance(s, str) and (sep is None or isinstance(sep, str)):
            return self.alloc("list", tuple(s.split(sep)))
        if s.op == "cat" and isinstance(sep, str) and len(sep) == 1:
            # symbolic parts are assumed free of the separator
            out = [[]]
            for p in s.args:
                if p.op == "str":
                    bits = p.args[0].split(sep)
                    out[-1].append(bits[0])
                    for b in bits[1:]:
                        out.append([b])
                else:
                    out[-1].append(p)
            return self.alloc("list", tuple(self.strcat(x) if x else "" for x in out))
        if s.op == "sym":
            return self.alloc("list", (s,))
        raise Unsupported("split")

    def m_str_join(self, s, v):
        def f(d):
            out = []
            for i, x in enumerate(d):
                if i:
                    out.append(s)
                out.append(x)
            return self.strcat(out)
        return self.wseq(v, f)

    def m_str_startswith(self, s, p):
        if isinstance(s, str) and isinstance(p, str):
            return s.startswith(p)
        return mk("pystarts", term(s), term(p), b=True)

    def m_str_endswith(self, s, p):
        if isinstance(s, str) and isinstance(p, str):
            return s.endswith(p)
        return mk("pyends", term(s), term(p), b=True)

    def m_str_format(self, s, *a, **k):
        return mk("call", "format", term(s), *[self.tm(x) for x in a])

    def _strf(n):
        def f(self, s, *a):
            if isinstance(s, str) and all(not isinstance(x, T) for x in a):
                return getattr(s, n)(*a)
            raise Unsupported("str." + n)
        return f
    for _n in ("strip", "lower", "upper", "replace", "isdigit", "lstrip", "rstrip", "find", "count"):
        locals()["m_str_" + _n] = _strf(_n)
    del _n

    # ------------------------------------------------------------- numpy
    def arr(self, shape, elems, matrix=False):
        return self.alloc("arr", (tuple(shape), tuple(elems)), "matrix" if matrix else "array")

    def toarr(self, v):
        """(shape, flat) of nested sequences / arrays / scalars"""
        if scalar(v):
            return (), (v,)
        if isinstance(v, Ref) and v.kind == "arr":
            d = self.heap[v]
            if isinstance(d, PIte):
                raise Unsupported("array of undetermined shape")
            return d
        if isinstance(v, PIte):
            a, b = self.toarr(v.a), self.toarr(v.b)
            if a[0] != b[0]:
                raise Unsupported("array of undetermined shape")
            return a[0], tuple(self.pite(v.c, x, y) for x, y in zip(a[1], b[1]))
        if isinstance(v, Opq):
            raise Unsupported("array of an opaque value")
        if v is None:
            self.throw("TypeError")
        xs = [self.toarr(x) for x in self.seq(v)]
        if not xs:
            return (0,), ()
        sh = xs[0][0]
        if any(x[0] != sh for x in xs):
            self.throw("ValueError", "ragged")
        return (len(xs),) + sh, tuple(e for x in xs for e in x[1])

    def ewise(self, v, f):
        if isinstance(v, Ref) and v.kind == "arr":
            sh, es = self.heap[v]
            return self.arr(sh, [native(f(t.asnum(term(e)))) for e in es], v.x == "matrix")
        if scalar(v):
            return native(f(t.asnum(term(v))))
        sh, es = self.toarr(v)
        return self.arr(sh, [native(f(t.asnum(term(e)))) for e in es])

    def nparith(self, o, a, b):
        ism = any(isinstance(x, Ref) and x.kind == "arr" and x.x == "matrix" for x in (a, b))
        if isinstance(a, (tuple, Ref)) and not (isinstance(a, Ref) and a.kind == "arr"):
            a = self.arr(*self.toarr(a))
        if isinstance(b, (tuple, Ref)) and not (isinstance(b, Ref) and b.kind == "arr"):
            b = self.arr(*self.toarr(b))
        for x in (a, b):
            if not scalar(x) and not (isinstance(x, Ref) and x.kind == "arr"):
                self.throw("TypeError")
        (s1, e1), (s2, e2) = self.toarr(a), self.toarr(b)
        if o == "@" or o == "*" and ism and s1 and s2:
            return self.matmul(s1, e1, s2, e2, ism)
        if o == "**" and ism:
            raise Unsupported("matrix power")
        sh, x, y = self.bcast(s1, e1, s2, e2)
        return self.arr(sh, [self.arith(o, p, q) for p, q in zip(x, y)], ism)

    def bcast(self, s1, e1, s2, e2):
        if s1 == s2:
            return s1, e1, e2
        n = max(len(s1), len(s2))
        p, q = (1,) * (n - len(s1)) + tuple(s1), (1,) * (n - len(s2)) + tuple(s2)
        if any(x != y and x != 1 and y != 1 for x, y in zip(p, q)):
            self.throw("ValueError", "broadcast")
        sh = tuple(max(x, y) for x, y in zip(p, q))

        def ex(s, e):
            out = []
            for idx in itertools.product(*[range(k) for k in sh]):
                k = 0
                for i, m in zip(idx, s):
                    k = k * m + (i if m != 1 else 0)
                out.append(e[k])
            return out
        return sh, ex(p, e1), ex(q, e2)

    def dotv(self, xs, ys):
        r = 0
        for x, y in zip(xs, ys):
            r = self.arith("+", r, self.arith("*", x, y))
        return r

    def matmul(self, s1, e1, s2, e2, ism):
        if len(s1) == 1 and len(s2) == 1:
            if s1 != s2:
                self.throw("ValueError")
            return self.dotv(e1, e2)
        r1 = (1,) + s1 if len(s1) == 1 else s1
        r2 = s2 + (1,) if len(s2) == 1 else s2
        if len(r1) != 2 or len(r2) != 2:
            raise Unsupported("matmul")
        if r1[1] != r2[0]:
            self.throw("ValueError", "shapes")
        es = [self.dotv(e1[i * r1[1]:(i + 1) * r1[1]], e2[j::r2[1]]) for i in range(r1[0]) for j in range(r2[1])]
        sh = ((r1[0],) if len(s1) == 2 else ()) + ((r2[1],) if len(s2) == 2 else ())
        if ism and len(sh) == 1:
            sh = (1,) + sh if len(s1) == 1 else sh + (1,)
        return self.arr(sh, es, ism)

    def nppos(self, sh, i, ism):
        """result shape and flat positions of an index"""
        ix = i if isinstance(i, tuple) and not all(isinstance(x, (int, T)) and False for x in i) else (i,)
        if isinstance(i, tuple) and len(i) > len(sh):
            self.throw("IndexError")
        ix = tuple(ix) + (slice(None),) * (len(sh) - len(ix))
        lists, dims = [], []
        for x, n in zip(ix, sh):
            if isinstance(x, slice):
                l = list(range(n))[self.sl(x)]
                lists.append(l)
                dims.append(len(l))
            elif isinstance(x, (range, tuple)) or isinstance(x, Ref):
                xs = [self.norm(y, n) for y in self.seq(x)]
                lists.append(xs)
                dims.append(len(xs))
            else:
                lists.append([self.norm(x, n)])
                dims.append(None)
        if sum(1 for x in ix if isinstance(x, (range, tuple, Ref))) > 1:
            raise Unsupported("fancy index")
        pos = []
        for idx in itertools.product(*lists):
            k = 0
            for j, n in zip(idx, sh):
                k = k * n + j
            pos.append(k)
        return tuple(x for x in dims if x is not None), pos, dims

    def npget(self, o, d, i):
        sh, es = d
        rsh, pos, dims = self.nppos(sh, i, o.x == "matrix")
        if not rsh:
            return es[pos[0]]
        if o.x == "matrix" and len(rsh) == 1:
            rsh = (1,) + rsh if dims[0] is None else rsh + (1,)
        return self.arr(rsh, [es[p] for p in pos], o.x == "matrix")

    def npset(self, o, d, i, v):
        sh, es = d
        rsh, pos, dims = self.nppos(sh, i, o.x == "matrix")

        def st(v):
            s2, e2 = self.toarr(v)
            if s2 != rsh:
                s3 = s2
                while len(s3) > len(rsh) and s3[0] == 1:
                    s3 = s3[1:]
                tgt = rsh
                if o.x == "matrix" and len(rsh) == 1 and len(s2) == 2:
                    tgt = (1,) + rsh if dims[0] is None else rsh + (1,)
                    s3 = s2
                s, _, e2b = self.bcast(tgt, [None] * len(pos), s3, e2)
                if s != tgt:
                    self.throw("ValueError", "broadcast")
                e2c = e2b
            else:
                e2c = e2
            l = list(es)
            for p, x in zip(pos, e2c):
                if not scalar(x) and not isinstance(x, PIte):
                    self.throw("TypeError")
                l[p] = x
            self.put(o, (sh, tuple(l)))
        self.dist(v, st)

    def transpose(self, o):
        sh, es = self.heap[o]
        if len(sh) < 2:
            return self.arr(sh, es, o.x == "matrix")
        if len(sh) > 2:
            raise Unsupported("transpose")
        r, c = sh
        return self.arr((c, r), [es[i * c + j] for j in range(c) for i in range(r)], o.x == "matrix")

    def tolist(self, sh, es):
        if not sh:
            return es[0]
        if len(sh) == 1:
            return self.alloc("list", tuple(es))
        k = len(es) // sh[0] if sh[0] else 0
        return self.alloc("list", tuple(self.tolist(sh[1:], es[i * k:(i + 1) * k]) for i in range(sh[0])))

    def p_arr_T(self, o):
        return self.transpose(o)

    def m_arr_transpose(self, o):
        return self.transpose(o)

    def p_arr_A(self, o):
        return self.arr(*self.heap[o])

    def p_arr_A1(self, o):
        sh, es = self.heap[o]
        return self.arr((len(es),), es)

    def p_arr_I(self, o):
        return self.inv(o)

    def p_arr_shape(self, o):
        return self.heap[o][0]

    def p_arr_size(self, o):
        return len(self.heap[o][1])

    def p_arr_ndim(self, o):
        return len(self.heap[o][0])

    def p_arr_dtype(self, o):
        return Opq(mk("pyname", "dtype"))

    def m_arr_tolist(self, o):
        return self.data(o, lambda d: self.tolist(*d))

    def m_arr_copy(self, o):
        return self.arr(*self.heap[o], matrix=o.x == "matrix")

    def m_arr_astype(self, o, *a):
        return self.m_arr_copy(o)

    def m_arr_flatten(self, o):
        sh, es = self.heap[o]
        return self.arr((1, len(es)) if o.x == "matrix" else (len(es),), es, o.x == "matrix")

    m_arr_ravel = m_arr_flatten

    def m_arr_reshape(self, o, *sh):
        if len(sh) == 1 and isinstance(sh[0], tuple):
            sh = sh[0]
        _, es = self.heap[o]
        sh = list(sh)
        if -1 in sh:
            k = 1
            for x in sh:
                k *= x if x != -1 else 1
            sh[sh.index(-1)] = len(es) // k
        return self.arr(sh, es, o.x == "matrix")

    def m_arr_dot(self, o, b):
        return self.matmul(*self.toarr(o), *self.toarr(b), o.x == "matrix")

    def m_arr_sum(self, o):
        r = 0
        for e in self.heap[o][1]:
            r = self.arith("+", r, e)
        return r

    def m_arr_item(self, o, *i):
        return self.npget(o, self.heap[o], i if i else (0,) * len(self.heap[o][0]))

    def inv(self, o):
        sh, es = self.toarr(o)
        n = sh[0]
        if sh != (n, n):
            self.throw("LinAlgError")
        m = mk("minv", mk("mat", t.num(n), t.num(n), *[t.asnum(term(e)) for e in es]))
        return self.arr(sh, [mk("sel", mk("sel", m, t.num(i)), t.num(j)) if False else t.elt(m, t.num(i), t.num(j)) for i in range(n) for j in range(n)], isinstance(o, Ref) and o.x == "matrix")

    def newnumpy(self):
        N = {}

        def d(name, typ=False):
            def g(f):
                N[name] = Builtin(name, f, typ)
                return f
            return g
        pi = math.pi
        N["pi"] = pi
        N["inf"] = math.inf

        @d("array", True)
        def array(v, dtype=None, copy=True):
            return self.dist(v, lambda x: self.wrap(x))
        N["asarray"] = N["array"]
        N["ndarray"] = Builtin("ndarray", None, True)

        @d("matrix", True)
        def matrix(v, dtype=None, copy=True):
            def f(x):
                sh, es = self.toarr(x)
                if len(sh) == 0:
                    sh = (1, 1)
                elif len(sh) == 1:
                    sh = (1,) + sh
                return self.arr(sh, es, True)
            return self.dist(v, f)
        N["asmatrix"] = N["mat"] = N["matrix"]

        def iden(n, m=None, k=0, dtype=None):
            n = self.cint(n)
            m = n if m is None else self.cint(m)
            return self.arr((n, m), [1.0 if i == j else 0.0 for i in range(n) for j in range(m)])
        N["eye"] = Builtin("eye", iden)
        N["identity"] = Builtin("identity", lambda n, dtype=None: iden(n))

        def fill(v):
            def f(sh, dtype=None):
                def g(s):
                    if isinstance(s, (int, T)):
                        s = (s,)
                    s = tuple(self.cint(x) for x in self.seq(s))
                    k = 1
                    for x in s:
                        k *= x
                    return self.arr(s, [v] * k)
                return self.dist(sh, g)
            return f
        N["zeros"] = Builtin("zeros", fill(0.0))
        N["ones"] = Builtin("ones", fill(1.0))
        N["zeros_like"] = Builtin("zeros_like", lambda o: self.arr(self.toarr(o)[0], [0.0] * len(self.toarr(o)[1])))
        N["copy"] = Builtin("copy", lambda o: self.m_arr_copy(o) if isinstance(o, Ref) and o.kind == "arr" else self.snap(o))
        N["deepcopy"] = Builtin("deepcopy", lambda o: self.snap(o))
        N["transpose"] = Builtin("transpose", lambda o: self.transpose(self.wrap(o)))
        N["dot"] = Builtin("dot", lambda a, b: self.matmul(*self.toarr(a), *self.toarr(b), any(isinstance(x, Ref) and x.x == "matrix" for x in (a, b))))
        N["matmul"] = N["dot"]

        @d("inner")
        def inner(a, b):
            (s1, e1), (s2, e2) = self.toarr(a), self.toarr(b)
            if len(s1) == 1 and len(s2) == 1:
                return self.dotv(e1, e2)
            if len(s1) != 2 or len(s2) != 2 or s1[1] != s2[1]:
                raise Unsupported("inner")
            k = s1[1]
            return self.arr((s1[0], s2[0]), [self.dotv(e1[i * k:(i + 1) * k], e2[j * k:(j + 1) * k]) for i in range(s1[0]) for j in range(s2[0])], any(isinstance(x, Ref) and x.x == "matrix" for x in (a, b)))

        @d("cross")
        def cross(a, b):
            (s1, x), (s2, y) = self.toarr(a), self.toarr(b)
            if len(x) != 3 or len(y) != 3:
                raise Unsupported("cross")
            A = self.arith
            es = [A("-", A("*", x[(i + 1) % 3], y[(i + 2) % 3]), A("*", x[(i + 2) % 3], y[(i + 1) % 3])) for i in range(3)]
            return self.arr(s1, es, any(isinstance(z, Ref) and z.x == "matrix" for z in (a, b)))

        @d("norm")
        def norm(v):
            sh, es = self.toarr(v)
            r = ZERO
            for e in es:
                e = t.asnum(term(e))
                r = t.add(r, t.mul(e, e))
            return mathcall("sqrt", [r])
        N["inv"] = Builtin("inv", lambda o: self.inv(o))

        @d("random")
        def random():
            self.rand += 1
            s = sym("random%d" % self.rand)
            TYPES[s] = "double"
            return s
        for n in ("sqrt", "sin", "cos", "tan", "exp", "floor", "ceil"):
            N[n] = Builtin(n, lambda v, n=n: self.ewise(v, lambda x: mathcall(n, [x])))
        for n, m in (("arccos", "acos"), ("arcsin", "asin"), ("arctan", "atan"), ("acos", "acos"), ("asin", "asin"), ("atan", "atan")):
            N[n] = Builtin(n, lambda v, m=m: self.ewise(v, lambda x: mathcall(m, [x])))

        def atan2(a, b):
            return self.dist2(a, b, lambda x, y: mathcall("atan2", [t.asnum(term(x)), t.asnum(term(y))]))
        N["atan2"] = N["arctan2"] = Builtin("atan2", atan2)
        N["hypot"] = Builtin("hypot", lambda a, b: mathcall("sqrt", [t.add(t.mul(term(a), term(a)), t.mul(term(b), term(b)))]))
        N["fabs"] = N["abs"] = Builtin("fabs", lambda v: self.ewise(v, absv))
        N["float64"] = N["float"] = Builtin("float", lambda v=0.0: v, True)
        N["linalg"] = OMod("numpy.linalg")

        @d("reduce")
        def reduce_(f, v, init=ABSENT):
            def g(d):
                xs = list(d)
                r = init
                if r is ABSENT:
                    r = xs.pop(0)
                for x in xs:
                    r = self.call(f, [r, x], {})
                return r
            return self.wseq(v, g)

        @d("wraps")
        def wraps_(f):
            return Builtin("wraps", lambda g: g)
        for nm in ("hstack", "vstack", "concatenate", "block"):
            N[nm] = Builtin(nm, lambda v, axis=0, nm=nm: self.stack(nm, v, axis))
        self.numpy = N

    def stack(self, nm, v, axis):
        xs = [self.toarr(x) for x in self.seq(v)]
        if nm == "vstack":
            xs = [((1,) + s, e) if len(s) == 1 else (s, e) for s, e in xs]
            axis = 0
        if nm == "hstack":
            axis = 0 if len(xs[0][0]) == 1 else 1
        ism = any(isinstance(x, Ref) and x.x == "matrix" for x in self.seq(v))
        if nm == "block" or len({len(s) for s, _ in xs}) != 1:
            raise Unsupported(nm)
        if len(xs[0][0]) == 1:
            return self.arr((sum(s[0] for s, _ in xs),), [e for _, es in xs for e in es], ism)
        if axis == 0:
            return self.arr((sum(s[0] for s, _ in xs), xs[0][0][1]), [e for _, es in xs for e in es], ism)
        r = xs[0][0][0]
        return self.arr((r, sum(s[1] for s, _ in xs)), [e for i in range(r) for s, es in xs for e in es[i * s[1]:(i + 1) * s[1]]], ism)

    def wrap(self, x):
        sh, es = self.toarr(x)
        if not sh:
            return x
        return self.arr(sh, es)

    def cint(self, x):
        if isinstance(x, T) and t.isnum(x):
            return int(t.numval(x))
        if isinstance(x, int):
            return x
        if x is None or isinstance(x, str):
            self.throw("TypeError")
        raise Unsupported("symbolic dimension")

    # ------------------------------------------------------------- observation
    def flat(self, v, heap, path=(), seen=(), soft=False):
        """observable leaves of a value: {path: T}; soft: any sequence with the
        same elements is the same value"""
        if isinstance(v, PIte):
            a = self.flat(v.a, heap, path, seen, soft)
            b = self.flat(v.b, heap, path, seen, soft)
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k, NOTHERE), b.get(k, NOTHERE)
                if x.b != y.b:
                    x, y = (mk("pyboolv", z) if z.b else z for z in (x, y))
                out[k] = t.ite(v.c, x, y)
            return out
        if scalar(v):
            return {path: term(v)}
        if v is None:
            return {path: term(None)}
        if isinstance(v, (tuple, range)):
            return self.flatseq("range" if isinstance(v, range) else "iterator" if isinstance(v, IterTuple) else "tuple", v, heap, path, seen, soft)
        if isinstance(v, Ref):
            if v in seen:
                return {path: t.string("<cycle>")}
            v = _Pl(v, heap.get(v))
        if isinstance(v, _Pl):
            if isinstance(v.d, PIte):
                return self.flat(PIte(v.d.c, _Pl(v.r, v.d.a), _Pl(v.r, v.d.b)), heap, path, seen, soft)
            return self.flatref(v.r, v.d, heap, path, seen, soft)
        if v is ABSENT:
            return {path: NOTHERE}
        if isinstance(v, Fn):
            return {path: t.string("function " + v.name)}
        if isinstance(v, Opq):
            return {path: v.term}
        if isinstance(v, Cls):
            return {path: t.string("class " + v.name)}
        if isinstance(v, Bound):
            return {path: t.string("method " + getattr(v.fn, "name", "?"))}
        return {path: t.string(type(v).__name__)}

    def flatseq(self, kind, xs, heap, path, seen, soft):
        out = {path + ("kind",): t.string("%s of %d" % ("sequence" if soft else kind, len(xs)))}
        for i, x in enumerate(xs):
            out.update(self.flat(x, heap, path + (i,), seen, soft))
        return out

    def nest(self, sh, es):
        if not sh:
            return es[0]
        k = len(es) // sh[0] if sh[0] else 0
        return tuple(self.nest(sh[1:], es[i * k:(i + 1) * k]) for i in range(sh[0]))

    def flatref(self, v, d, heap, path, seen, soft):
        seen = seen + (v,)
        if v.kind == "list":
            return self.flatseq("list", d, heap, path, seen, soft)
        if v.kind == "arr":
            return self.flatseq("array", self.nest(*d), heap, path, seen, soft) if d[0] else {path: term(d[1][0])}
        if v.kind == "dict":
            out = {path + ("kind",): t.string("dict of %d" % len(d))}
            for i, (k, x) in enumerate(d):
                if isinstance(k, str):
                    out.update(self.flat(x, heap, path + (k,), seen, soft))
                else:
                    out.update(self.flat(k, heap, path + ("key", i), seen, soft))
                    out.update(self.flat(x, heap, path + (i,), seen, soft))
            return out
        if v.kind == "inst":
            if "ident_" in d:
                return self.flat(d["ident_"], heap, path, seen, soft)
            return {path: t.string("instance of " + v.x.name)}
        return {path: t.string(v.kind)}


class _Pl:
    def __init__(self, r, d):
        self.r, self.d = r, d


class IterTuple(tuple):
    pass


NOTHERE = mk("pynothere")
MISSING = Builtin("missing")


class Frame:
    def __init__(self, env, mod, fn):
        self.env, self.mod, self.fn = env, mod, fn
        self.locals = self.glob = self.nonl = ()
