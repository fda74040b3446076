"""Ownership analysis: every resource a component acquires (new, new[], dlopen,
an object made by a plug-in) is released exactly once, by the matching
operation, on every path.  A structured path walk: places (locals, fields,
globals of pointer type) hold resources, resources have a state; helpers of the
same class are inlined, calls which may throw fork an exceptional path."""
from .effects import callee_name, walk

RELEASES = {"dlclose": "dlopen", "fclose": "fopen", "free": "malloc", "closedir": "opendir"}
ACQUIRES = {"dlopen": "dlopen", "fopen": "fopen", "malloc": "malloc", "calloc": "malloc", "opendir": "opendir"}
OPS = {"new": "delete", "new[]": "delete[]", "dlopen": "dlclose", "fopen": "fclose", "malloc": "free", "opendir": "closedir", "plug-in": "the plug-in's destroy function"}
STORES = {"push_back", "push_front", "insert", "emplace", "emplace_back", "emplace_front"}
REMOVES = {"pop_back", "pop_front", "erase", "remove", "remove_if", "clear", "resize", "assign", "swap"}
THROWERS = {"signalRegistration", "at", "recompute"}
SMART = ("shared_ptr", "unique_ptr", "scoped_ptr", "auto_ptr")
MAXSTATES = 400
REGISTRATION = "dynamicgraph::ExceptionFactory"      # a name already in use


def strip(e):
    while isinstance(e, dict) and (e.get("k") in ("cast", "icast") and e.get("sk") != "CXXDynamicCastExpr" or e.get("k") == "paren"):
        e = e.get("e")
    return e


def isptr(t):
    t = (t or "").strip()
    if t.endswith("const"):
        t = t[:-5].strip()
    return t.endswith("*") and not t.endswith("(*)()")


def holdsptr(t):
    """a container or an array of raw pointers"""
    t = (t or "").replace("const ", "")
    if any(s in t for s in SMART):
        return False
    return "*" in t and ("std::" in t and any(c + "<" in t for c in ("vector", "list", "map", "deque", "set", "unordered_map", "array")) or "]" in t)


class St:
    __slots__ = ("pl", "rs", "nn", "el", "tests")

    def __init__(self):
        self.pl = {}     # place -> resource id
        self.rs = {}     # resource id -> state
        self.nn = frozenset()    # resource ids known not to be null
        self.el = {}     # container -> state of the elements about to be removed
        self.tests = {}  # boolean local -> (place, truth when the place is not null)

    def copy(self):
        s = St()
        s.pl, s.rs, s.nn, s.el, s.tests = dict(self.pl), dict(self.rs), self.nn, dict(self.el), dict(self.tests)
        return s

    def key(self):
        return (tuple(sorted(self.pl.items(), key=str)), tuple(sorted(self.rs.items(), key=str)), self.nn, tuple(sorted(self.el.items())), tuple(sorted(self.tests.items())))


class Out:
    """outcomes of a statement"""
    __slots__ = ("fall", "ret", "brk", "cont")

    def __init__(self, fall=()):
        self.fall, self.ret, self.brk, self.cont = list(fall), [], [], []

    def add(self, o):
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont


def dedup(sts):
    d = {}
    for s in sts:
        d.setdefault(s.key(), s)
    r = list(d.values())
    if len(r) > MAXSTATES:
        raise OverflowError
    return r


class Owner:
    def __init__(self, P, rep, count):
        self.P, self.rep, self.count = P, rep, count
        self.owning = {}         # field or global -> kinds stored in it
        self.containers = {}     # containers owning their elements
        self.maythrow = set()
        self.decls = {}
        self.alias = {}          # reference parameter -> place it stands for
        self.stack = []
        self.scan()

    # ------------------------------------------------------------ tables
    def scan(self):
        P = self.P
        self.fs = [f for f in P.funcs.values() if f.get("body") and not f["rel"].startswith("/verif")]
        edges = {}
        for f in self.fs:
            e = set()
            for n in self.unguarded(f["body"]):
                if n.get("k") == "throw":
                    self.maythrow.add(f["u"])
                elif n.get("k") in ("call", "mcall", "ctor", "ocall") and n.get("f"):
                    u = n["f"].get("u")
                    if u in P.funcs and P.funcs[u].get("body"):
                        e.add(u)
                    elif callee_name(n["f"]) in THROWERS:
                        self.maythrow.add(f["u"])
            edges[f["u"]] = e
        ch = True
        while ch:
            ch = False
            for u, e in edges.items():
                if u not in self.maythrow and e & self.maythrow:
                    self.maythrow.add(u)
                    ch = True
        for f in self.fs:
            self.roots_of(f)
            loc = {}
            for n in walk(f["body"]):
                if n.get("k") == "decl":
                    for v in n["v"]:
                        if v.get("init") is not None and self.fresh_kind(v["init"], f):
                            loc[v["d"]] = self.fresh_kind(v["init"], f)
                elif n.get("k") == "bin" and n.get("op") == "=" and self.fresh_kind(n["b"], f) and strip(n["a"]).get("k") == "ref":
                    loc[strip(n["a"])["d"]] = self.fresh_kind(n["b"], f)

            def kind(e):
                e = strip(e)
                if isinstance(e, dict) and e.get("k") == "ref":
                    return loc.get(e["d"])
                return self.fresh_kind(e, f)
            for x in f.get("inits", ()) or ():
                k = kind(x.get("e"))
                if k and x.get("fq"):
                    self.own(self.initfield(f, x), k, f, x)
            for n in walk(f["body"]):
                if n.get("k") == "bin" and n.get("op") == "=":
                    k = kind(n["b"])
                    if k:
                        a = strip(n["a"])
                        if a.get("k") in ("mem", "glob") and isptr(a.get("t")):
                            self.own(a["q"], k, f, n)
                        else:
                            r = self.root(a, f)
                            if r:
                                self.containers.setdefault(r, (f["rel"], n.get("l", f["l"])))
                elif n.get("k") == "ocall" and n.get("op") == "=" and len(n["args"]) == 2 and kind(n["args"][1]):
                    r = self.root(n["args"][0], f)
                    if r:
                        self.containers.setdefault(r, (f["rel"], n.get("l", f["l"])))
                elif n.get("k") == "mcall" and n.get("f") and callee_name(n["f"]) in STORES and any(kind(a) for a in n.get("args", ())):
                    r = self.root(n["o"], f)
                    if r:
                        self.containers.setdefault(r, (f["rel"], n.get("l", f["l"])))
                elif n.get("k") == "delete":
                    a = strip(n["e"])
                    if a.get("k") in ("mem", "glob"):
                        self.own(a["q"], "new[]" if n.get("arr") else "new", f, n, weak=True)
                    else:
                        r = self.root(a, f)
                        if r:
                            self.containers.setdefault(r, (f["rel"], n.get("l", f["l"])))

    def initfield(self, f, x):
        return x["fq"]

    def isfield(self, q):
        c, n = q.rsplit("::", 1) if "::" in q else ("", q)
        return c in self.P.records and any(x["n"] == n for x in self.P.records[c]["fields"])

    def own(self, q, k, f, n, weak=False):
        d = self.owning.setdefault(q, {"kinds": set(), "at": (f["rel"], n.get("l", f["l"]))})
        if not weak:
            d["kinds"].add(k)

    def unguarded(self, n):
        """nodes outside a try block with a catch-all handler that does not throw"""
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get("k") == "try" and any(not h.get("t") for h in x.get("h", ())):
                    st.extend(h.get("b") for h in x["h"])
                    continue
                if x.get("k") == "lambda":
                    continue
                yield x
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))
            elif isinstance(x, list):
                st.extend(v for v in x if isinstance(v, (dict, list)))

    def fresh_kind(self, e, f):
        e = strip(e)
        if not isinstance(e, dict):
            return None
        if e.get("k") == "new" and not e.get("pl"):
            return "new[]" if "n" in e else "new"
        if e.get("k") == "call":
            if e.get("f") and callee_name(e["f"]) in ACQUIRES:
                return ACQUIRES[callee_name(e["f"])]
            if self.plugin(e, f) == "create":
                return "plug-in"
        return None

    def plugin(self, e, f):
        """call through a pointer to a symbol looked up in a library"""
        fe = strip(e.get("fe")) if e.get("fe") else None
        while isinstance(fe, dict) and fe.get("k") == "un" and fe.get("op") == "*":
            fe = strip(fe["e"])
        if not isinstance(fe, dict) or fe.get("k") != "ref":
            return None
        i = self.inits(f).get(fe["d"])
        for n in walk(i):
            if n.get("k") == "call" and n.get("f") and callee_name(n["f"]) == "dlsym":
                for s in walk(n.get("args")):
                    if s.get("k") == "str":
                        return "destroy" if s["v"].lower().startswith(("destroy", "delete", "release")) else "create"
        return None

    def inits(self, f):
        r = self.decls.get(f["u"])
        if r is None:
            r = {}
            for n in walk(f["body"]):
                if n.get("k") == "decl":
                    for v in n["v"]:
                        if v.get("init") is not None:
                            r[v["d"]] = v["init"]
                elif n.get("k") == "bin" and n.get("op") == "=" and strip(n["a"]).get("k") == "ref":
                    r.setdefault(strip(n["a"])["d"], n["b"])
            self.decls[f["u"]] = r
        return r

    def roots_of(self, f):
        """locals which range over the elements of a container field"""
        m = f.setdefault("_roots", {})
        ch = True
        while ch:
            ch = False
            for n in walk(f["body"]):
                prs = []
                if n.get("k") == "decl":
                    prs = [(v["d"], v.get("init"), v) for v in n["v"]]
                elif n.get("k") == "rfor":
                    prs = [(n["v"]["d"], n["r"], n["v"])]
                elif n.get("k") in ("bin", "ocall") and n.get("op") == "=":
                    a, b = (n["a"], n["b"]) if n["k"] == "bin" else (n["args"][0], n["args"][1])
                    if strip(a).get("k") == "ref":
                        prs = [(strip(a)["d"], b, None)]
                elif n.get("k") == "call" and self.foreach(n):
                    prs = [(self.foreach(n)["params"][0]["d"], n["args"][0], None)]
                elif n.get("k") == "if" and n.get("cv"):
                    prs = [(n["cv"]["d"], n["cv"].get("init"), n["cv"])]
                for d, i, v in prs:
                    if i is None or d in m:
                        continue
                    r = self.root(i, f)
                    if r:
                        m[d] = r
                        ch = True

    def foreach(self, n):
        """the function a std::for_each applies, when written in place"""
        if n.get("f") and callee_name(n["f"]) == "for_each" and len(n.get("args", ())) == 3:
            x = strip(n["args"][2])
            while isinstance(x, dict) and x.get("k") == "ctor" and len(x.get("args", ())) == 1:
                x = strip(x["args"][0])
            if isinstance(x, dict) and x.get("k") == "lambda" and x.get("body") and len(x.get("params", ())) == 1:
                return x
        return None

    def root(self, e, f):
        """container field an expression walks in"""
        e = strip(e)
        m = f.get("_roots", {})
        for _ in range(12):
            if not isinstance(e, dict):
                return None
            k = e.get("k")
            if k == "mem":
                b = strip(e.get("b") or {})
                if b.get("k") == "ref" and b.get("d") in m:
                    return m[b["d"]]
                if holdsptr(e.get("t")) and b.get("k") in ("this", "ref", None, "un") and not e["q"].startswith("std::"):
                    return e["q"]
                e = b
            elif k == "ref":
                return m.get(e["d"])
            elif k == "idx":
                e = strip(e.get("b"))
            elif k == "un" and e.get("op") in ("*", "&"):
                e = strip(e["e"])
            elif k == "ocall" and e.get("args") and e.get("op") in ("*", "->", "[]", "++", "--", "()"):
                e = strip(e["args"][0])
            elif k == "mcall" and e.get("f") and callee_name(e["f"]) in ("begin", "end", "rbegin", "rend", "front", "back", "at", "find", "operator[]", "operator*", "operator->", "data", "lower_bound", "upper_bound"):
                e = strip(e.get("o"))
            elif k == "ctor" and len(e.get("args", ())) == 1:
                e = strip(e["args"][0])
            elif k == "glob":
                return e["q"] if holdsptr(e.get("t")) else None
            else:
                return None
        return None

    # ------------------------------------------------------------ places
    def place(self, e):
        e = strip(e)
        if not isinstance(e, dict):
            return None
        if e.get("k") == "ref" and isptr((e.get("t") or "").replace("&", "")):
            return self.alias.get(e["d"]) or "d:%s" % e["d"]
        if e.get("k") == "mem" and isptr(e.get("t")) and e.get("q") in self.owning:
            return "f:" + e["q"]
        if e.get("k") == "glob" and isptr(e.get("t")) and e.get("q") in self.owning:
            return "g:" + e["q"]
        return None

    def get(self, st, p):
        r = st.pl.get(p)
        if r is None:
            if p[0] == "d":
                r = ("x", p)         # not ours
                st.pl[p] = r
                st.rs[r] = "other"
            else:
                r = ("old", p)
                st.pl[p] = r
                st.rs[r] = "old"
        return r

    def report(self, kind, f, l, text):
        self.rep(kind, f, l, text)

    # ------------------------------------------------------------ expressions
    # returns [(state, value)], value: resource id, None (null), or "?"
    def ev(self, e, st, f):
        e0 = e
        if isinstance(e, list):
            sts = [st]
            for x in e:
                sts = [t for s in sts for t, _ in self.ev(x, s, f)]
            return [(s, "?") for s in sts]
        if not isinstance(e, dict):
            return [(st, "?")]
        e = strip(e)
        if not isinstance(e, dict):
            return [(st, "?")]
        k = e.get("k")
        l = e.get("l", f["l"])
        if k == "null" or k == "int" and str(e.get("v")) == "0" and isptr(e0.get("t")):
            return [(st, None)]
        if k == "lambda":
            return [(st, "?")]
        if k == "cond":
            out = []
            for v, s in self.cond(e["c"], st, f):
                out += self.ev(e["ct"] if v else e["cf"], s, f)
            return out
        if k == "un" and e.get("op") == "!" or k == "bin" and e.get("op") in ("&&", "||"):
            return [(s, "?") for _, s in self.cond(e, st, f)]
        p = self.place(e)
        if p:
            if k == "mem":
                sts = [s for s, _ in self.ev(e.get("b"), st, f)]
            else:
                sts = [st]
            return [(s, self.val(s, p)) for s in sts]
        if k == "new" and not e.get("pl"):
            sts = [s for s, _ in self.ev(e.get("n"), st, f)]
            sts = [t for s in sts for t, _ in self.ev(e.get("e"), s, f)]
            kd = "new[]" if "n" in e else "new"
            return [self.fresh(s, kd, l, f) for s in sts]
        if k == "delete":
            out = []
            a = strip(e["e"])
            r = self.root(a, f) if self.place(a) is None or self.place(a)[0] == "d" else None
            for s, v in self.ev(a, st, f):
                out.append((self.release(s, v, "delete[]" if e.get("arr") else "delete", f, l, r), "?"))
            return out
        if k == "bin" and e.get("op") == "=":
            a = strip(e["a"])
            p = self.place(a)
            out = []
            for s, v in self.ev(e["b"], st, f):
                if v == "?" and isptr(a.get("t")) and (strip(e["b"]) or {}).get("k") == "int":
                    v = None
                if p is None:
                    s2s = [t for t, _ in self.ev(a, s, f)]
                    r = self.root(a, f)
                    for t in s2s:
                        self.escape(t, v, "container " + r if r in self.containers else "memory")
                        out.append((t, v))
                    continue
                if a["k"] == "mem":
                    ss = [t for t, _ in self.ev(a.get("b"), s, f)]
                else:
                    ss = [s]
                for t in ss:
                    out.append((self.assign(t, p, v, f, l), v))
            return out
        if k == "mem":
            out = []
            for s, v in self.ev(e.get("b"), st, f):
                if isptr((strip(e.get("b") or {}) or {}).get("t")):
                    self.use(s, e["b"], v, f, l)
                out.append((s, "?"))
            return out
        if k == "un" and e.get("op") == "*":
            out = []
            for s, v in self.ev(e["e"], st, f):
                self.use(s, e["e"], v, f, l)
                out.append((s, "?"))
            return out
        if k == "un" and e.get("op") == "&":
            q = self.place(e["e"])
            if q:
                return [(st, "?")]
        if k in ("mcall", "call", "ocall", "ctor"):
            return self.call(e, st, f)
        if k == "throw":
            sts = [s for s, _ in self.ev(e.get("e"), st, f)]
            for s in sts:
                self.exc.append((s, e.get("t") or "rethrow"))
            return []
        if k == "cast":      # dynamic_cast
            return [(s, "?") for s, _ in self.ev(e.get("e"), st, f)]
        sts = [st]
        for key, v in e.items():
            if isinstance(v, (dict, list)) and key != "f":
                sts = [t for s in sts for t, _ in self.ev(v, s, f)]
        return [(s, "?") for s in sts]

    def val(self, s, p):
        r = self.get(s, p)
        return None if s.rs.get(r) == "null" else r

    def fresh(self, s, kd, l, f):
        s = s.copy()
        r = ("r", kd, f["u"], l)
        i = 0
        while r in s.rs and (s.rs[r] != "gone" or r in s.pl.values()):
            i += 1
            r = ("r", kd, f["u"], l, i)
            if i > 2:
                break
        s.rs[r] = "own"
        s.nn = s.nn | {r} if kd != "dlopen" and kd != "fopen" else s.nn - {r}
        self.count("resources acquired", (f["rel"], l, kd))
        return s, r

    def kind_of(self, r):
        if r[0] == "r":
            return {r[1]}
        if r[0] == "old":
            return self.owning[r[1][2:]]["kinds"]
        return set()

    def release(self, s, v, op, f, l, root=None):
        s = s.copy()
        if v is None:
            if op == "dlclose" or op.startswith("the plug-in"):
                self.report("released null", f, l, "%s of a resource that is not held on this path" % op)
            return s
        self.count("releases", (f["rel"], l, op))
        if v == "?":
            if root in self.containers:
                s.el[root] = "done" if s.el.get(root) == "removed" else "freed"
            return s
        stt = s.rs.get(v)
        if stt == "gone":
            self.report("released twice", f, l, "%s of a resource already released on this path" % op)
        ks = self.kind_of(v)
        if ks and op not in {OPS[k] for k in ks}:
            self.report("mismatched release", f, l, "%s of what was acquired by %s" % (op, "/".join(sorted(ks))))
        if op not in ("delete", "delete[]", "free") and stt == "old" and v not in s.nn:
            self.report("released null", f, l, "%s of a resource that may not be held" % op)
        if stt in ("own", "old"):
            s.rs[v] = "gone"
        elif root in self.containers:
            s.el[root] = "done" if s.el.get(root) == "removed" else "freed"
            s.rs[v] = "gone"
        elif stt == "other":
            s.rs[v] = "gone"
        return s

    def assign(self, s, p, v, f, l):
        s = s.copy()
        self.get(s, p)
        if v is None:
            r = ("null", p)
            s.rs[r] = "null"
            s.pl[p] = r
        elif v == "?":
            r = ("x", p, l)
            s.rs[r] = "other"
            s.nn = s.nn - {r}
            s.pl[p] = r
        else:
            s.pl[p] = v
        return s

    def escape(self, s, v, where):
        if v not in (None, "?") and s.rs.get(v) in ("own", "old"):
            s.rs[v] = "given"

    def use(self, s, e, v, f, l):
        """the pointer expression e (value v) is followed"""
        p = self.place(e)
        if p is None:
            return
        if v is None:
            if p[0] != "d" or True:
                self.report("null", f, l, "%s is used where it is null" % self.nm(p, e))
            return
        if v == "?":
            return
        if s.rs.get(v) == "gone":
            self.report("used after release", f, l, "%s is used after it was released" % self.nm(p, e))
        elif s.rs.get(v) == "old" and v not in s.nn and p[0] in "fg" and p[2:] in self.nullable:
            self.report("may not be held", f, l, "%s is used without making sure it was acquired" % self.nm(p, e))

    def nm(self, p, e):
        return p[2:].split("::")[-1] if p[0] != "d" else strip(e).get("n", "a pointer")

    def call(self, e, st, f):
        k, l = e["k"], e.get("l", f["l"])
        nm = callee_name(e["f"]) if e.get("f") else ""
        o = e.get("o")
        lam = self.foreach(e) if k == "call" else None
        if lam:
            self.rets.append([])
            r = self.loop({"k": "rfor", "v": lam["params"][0], "r": e["args"][0], "b": lam["body"], "l": l}, [st], f)
            return [(s, "?") for s in dedup(r.fall + [s for s, _ in self.rets.pop()])]
        sts = [(st, "?")]
        if o is not None:
            sts = self.ev(o, st, f)
            if isptr(e.get("ot")):
                for s, v in sts:
                    self.use(s, o, v, f, l)
        elif e.get("fe") is not None:
            sts = [(s, "?") for s, _ in self.ev(e["fe"], st, f)]
        args = e.get("args", []) or []
        sts = [(s, []) for s, _ in sts]
        for a in args:
            sts = [(t, vs + [v]) for s, vs in sts for t, v in self.ev(a, s, f)]
        out = []
        # acquisitions and releases by function
        if k == "call" and nm in ACQUIRES:
            return [self.fresh(s, ACQUIRES[nm], l, f) for s, _ in sts]
        if k == "call" and nm in RELEASES and args:
            op = OPS[RELEASES[nm]]
            return [(self.release(s, vs[0], op, f, l), "?") for s, vs in sts]
        pg = self.plugin(e, f) if k == "call" else None
        if pg == "create":
            return [self.fresh(s, "plug-in", l, f) for s, _ in sts]
        if pg == "destroy" and args:
            r = []
            for s, vs in sts:
                self.liblive(s, f, l)
                r.append((self.release(s, vs[0], OPS["plug-in"], f, l), "?"))
            return r
        # containers
        if k in ("mcall", "ocall") and e.get("f"):
            obj = o if o is not None else (args[0] if args else None)
            r = self.root(obj, f) if obj is not None else None
            if nm in STORES and r:
                for s, vs in sts:
                    for v in vs:
                        self.escape(s, v, "container")
                return [(s, "?") for s, _ in sts]
            if r in self.containers and nm in REMOVES and k == "mcall" and self.iscontainer(o):
                for s, vs in sts:
                    if nm not in ("resize",) or not self.grows(e, f):
                        self.count("removals from owning containers", (f["rel"], l))
                        if s.el.get(r) not in ("freed", "maybe", "done"):
                            s.el[r] = "removed"
                            continue
                    s.el[r] = "done"
                return [(s, "?") for s, _ in sts]
            if r and nm in ("operator=", "=") and k == "ocall":
                for s, vs in sts:
                    for v in vs[1:]:
                        self.escape(s, v, "container")
                return [(s, "?") for s, _ in sts]
        u = (e.get("f") or {}).get("u")
        tgt = self.P.funcs.get(u)
        body = tgt is not None and tgt.get("body")
        if k == "call" and nm == "exchange" and len(args) == 2 and self.place(args[0]):
            for s, vs in sts:
                out.append((self.assign(s, self.place(args[0]), vs[1], f, l), vs[0]))
            return out
        if body and k == "call" and not tgt.get("cls") and tgt["u"] not in self.stack and len(self.stack) < 7 and any(
                isptr(q["t"].replace("&", "")) and self.place(a) for q, a in zip(tgt["params"], args)):
            al = {q["d"]: self.place(a) for q, a in zip(tgt["params"], args) if q["t"].rstrip().endswith("&") and isptr(q["t"].replace("&", "")) and self.place(a)}
            self.alias.update(al)
            for s, vs in sts:
                out += self.inline(tgt, e, s, vs, f)
            for d in al:
                self.alias.pop(d, None)
            return out
        own = body and k in ("mcall", "call") and tgt.get("cls") and (o is None or strip(o).get("k") == "this") and self.related(tgt["cls"], f.get("cls"))
        if own and tgt["u"] not in self.stack and len(self.stack) < 7 and not tgt.get("ctor"):
            for s, vs in sts:
                out += self.inline(tgt, e, s, vs, f)
            return out
        for s, vs in sts:
            for i, v in enumerate(vs):
                if v in (None, "?"):
                    continue
                if s.rs.get(v) == "gone" and isptr((strip(args[i]) or {}).get("t")):
                    p = self.place(args[i])
                    if p:
                        self.report("used after release", f, l, "%s is handed to %s after it was released" % (self.nm(p, args[i]), nm or "a function"))
                if s.rs.get(v) == "own" and self.takes(e, tgt, i, k):
                    self.escape(s, v, nm)
            if k == "ctor" and any(x in ((e.get("f") or {}).get("cls") or "") for x in SMART):
                for v in vs:
                    self.escape(s, v, "smart pointer")
            th = (u in self.maythrow) if body else nm in THROWERS
            if th:
                self.exc.append((s.copy(), REGISTRATION if nm == "signalRegistration" else None))
            out.append((s, "?"))
        return out

    def related(self, a, b):
        return bool(b) and (a == b or a in list(self.P.bases(b)))

    def iscontainer(self, o):
        t = (strip(o) or {}).get("t", "")
        return holdsptr(t) or holdsptr(t.replace("&", ""))

    def grows(self, e, f):
        return False

    def takes(self, e, tgt, i, k):
        """does the callee take over its i-th argument?"""
        if tgt is not None and tgt.get("body") and i < len(tgt["params"]):
            d = tgt["params"][i]["d"]
            for n in walk(tgt["body"]):
                if n.get("k") == "delete" and strip(n["e"]).get("k") == "ref" and strip(n["e"])["d"] == d:
                    return True
                if n.get("k") == "bin" and n.get("op") == "=" and strip(n["b"]).get("k") == "ref" and strip(n["b"])["d"] == d and strip(n["a"]).get("k") != "ref":
                    return True
                if n.get("k") in ("call", "mcall", "ctor", "ret") and any(strip(a).get("k") == "ref" and strip(a).get("d") == d for a in (n.get("args") or [n.get("e")] if n.get("k") == "ret" else n.get("args") or []) if isinstance(strip(a), dict)):
                    if n.get("k") == "ret":
                        return True
                    u = (n.get("f") or {}).get("u")
                    if callee_name(n["f"]) if n.get("f") else "" in STORES:
                        return True
                    if u not in self.P.funcs:
                        return True
            for x in tgt.get("inits", ()) or ():
                if strip(x.get("e") or {}) and strip(x.get("e")).get("k") == "ref" and strip(x["e"]).get("d") == d:
                    return True
            return False
        nm = callee_name(e["f"]) if e.get("f") else ""
        if nm in ("signalRegistration", "sgetn", "read", "getline", "strcpy", "memcpy", "operator<<", "operator>>", "operator=", "basic_string", "assign", "append", "dlsym", "get"):
            return False
        if k == "ocall":
            return False
        return True

    def liblive(self, s, f, l):
        """code of a plug-in runs only while its library is loaded"""
        for p, r in s.pl.items():
            ks = self.kind_of(r) if r[0] in ("r", "old") else set()
            if "dlopen" in ks and s.rs.get(r) == "gone":
                self.report("library closed", f, l, "calls into a plug-in whose library was closed on this path")

    def inline(self, tgt, e, st, vs, f):
        s = st.copy()
        saved = {}
        for p, v in zip(tgt["params"], vs):
            if isptr(p["t"]):
                s = self.assign(s, "d:%s" % p["d"], v, tgt, e.get("l", 0))
        self.stack.append(tgt["u"])
        save, self.exc = self.exc, []
        self.rets.append([])
        o = self.stmt(tgt["body"], [s], tgt)
        loc = {"d:%s" % d for d in self.localids(tgt)}
        for x, t in self.exc:
            self.leaks(x, tgt, loc, only={q for p, q in x.pl.items() if p in loc}, how="when an exception leaves the operation")
            for d in loc:
                x.pl.pop(d, None)
            save.append((x, t))
        self.exc = save
        rets = self.rets.pop()
        self.stack.pop()
        out = [(x, "?") for x in o.fall] + rets
        r = []
        seen = set()
        for x, v in out:
            self.leaks(x, tgt, loc, v, only={q for p, q in x.pl.items() if p in loc})
            for d in loc:
                x.pl.pop(d, None)
            for d in list(x.tests):
                if "d:%s" % d in loc:
                    x.tests.pop(d)
            kx = (x.key(), v)
            if kx not in seen:
                seen.add(kx)
                r.append((x, v))
        return r

    def lookup(self, e, f):
        """a local which holds the error of a symbol lookup"""
        if not isinstance(e, dict) or e.get("k") != "ref":
            return False
        i = strip(self.inits(f).get(e["d"]))
        return isinstance(i, dict) and i.get("k") == "call" and i.get("f") and callee_name(i["f"]) == "dlerror"

    def localids(self, f):
        r = f.get("_locals")
        if r is None:
            r = f["_locals"] = {p["d"] for p in f["params"]} | {v["d"] for n in walk(f["body"]) if n.get("k") == "decl" for v in n["v"]} | {n["v"]["d"] for n in walk(f["body"]) if n.get("k") == "rfor"}
        return r

    def leaks(self, s, f, gone, v=None, dtor=False, how="", only=None):
        """resources no place refers to any more once the places `gone` are dropped"""
        live = {r for p, r in s.pl.items() if p not in gone and p[0] in "fg"} | {r for p, r in s.pl.items() if p not in gone}
        if v not in (None, "?"):
            live.add(v)
        for r, stt in list(s.rs.items()):
            if stt not in ("own", "old") or r in live or only is not None and r not in only:
                continue
            if stt == "old" and self.neverheld(s, r):
                continue
            if r[0] == "r":
                self.report("leak", f, r[3], "what is acquired here (%s) is not released %s" % (r[1], how or "on a path that leaves the operation or loses it"))
            else:
                self.report("leak of %s" % r[1][2:].split("::")[-1], f, f["l"], "what %s held before is lost without being released%s" % (r[1][2:].split("::")[-1], how and " " + how))
            s.rs[r] = "leaked"

    def neverheld(self, s, r):
        """an object made by a plug-in while no library was loaded"""
        return r[0] == "old" and self.owning[r[1][2:]]["kinds"] == {"plug-in"} and any(
            x[0] == "old" and "dlopen" in self.owning[x[1][2:]]["kinds"] and st == "null" for x, st in s.rs.items() if x[0] == "old")

    # ------------------------------------------------------------ conditions
    def cond(self, c, st, f):
        c = strip(c)
        if not isinstance(c, dict):
            return [(True, st), (False, st.copy())]
        k = c.get("k")
        if k == "un" and c["op"] == "!":
            return [(not v, s) for v, s in self.cond(c["e"], st, f)]
        if k == "bin" and c["op"] in ("&&", "||"):
            out = []
            for v, s in self.cond(c["a"], st, f):
                if v == (c["op"] == "||"):
                    out.append((v, s))
                else:
                    out += self.cond(c["b"], s, f)
            return out
        if k == "bool":
            return [(bool(c["v"]), st)]
        p = None
        pos = True
        if self.place(c) and not self.lookup(c, f):
            p = c
        elif k == "bin" and c["op"] in ("==", "!="):
            for a, b in ((c["a"], c["b"]), (c["b"], c["a"])):
                b = strip(b)
                if self.place(a) and not self.lookup(strip(a), f) and isinstance(b, dict) and (b.get("k") == "null" or b.get("k") == "int" and str(b.get("v")) == "0"):
                    p, pos = a, c["op"] == "!="
        if p is not None:
            out = []
            for s, v in self.ev(p, st, f):
                if v is None:
                    out.append((not pos, s))
                elif v in s.nn:
                    out.append((pos, s))
                else:
                    a, b = s.copy(), s.copy()
                    if v != "?":
                        a.nn = a.nn | {v}
                        if b.rs.get(v) in ("own", "old", "other"):
                            b.rs[v] = "null"
                    out += [(pos, a), (not pos, b)]
            return out
        if k == "ref" and self.lookup(c, f):
            a = st.copy()
            a.el["#symbol missing"] = "done"
            return [(True, a), (False, st.copy())]
        if k == "bin" and c.get("op") in ("==", "!=") and self.lookup(strip(c["a"]), f):
            a = st.copy()
            a.el["#symbol missing"] = "done"
            v = c["op"] == "!="
            return [(v, a), (not v, st.copy())]
        if k == "ref" and c["d"] in st.tests:
            p, nonnull = st.tests[c["d"]]
            r = st.pl.get(p)
            if r is not None and st.rs.get(r) == "null":
                return [(not nonnull, st)]
            if r in st.nn:
                return [(nonnull, st)]
        if k == "mcall" and c.get("f") and callee_name(c["f"]) == "empty":
            r = self.root(c.get("o"), f)
            if r in self.containers:
                a, b = st.copy(), st.copy()
                if a.el.get(r) in (None, "freed", "maybe"):
                    a.el[r] = "maybe"
                return [(True, a), (False, b)]
        out = []
        for s, _ in self.ev(c, st, f):
            out += [(True, s), (False, s.copy())]
        return out

    # ------------------------------------------------------------ statements
    def stmt(self, n, sts, f):
        o = Out()
        sts = dedup(sts)
        if n is None or not sts:
            o.fall = sts
            return o
        k = n.get("k")
        if k == "block":
            cur = sts
            for x in n["s"]:
                r = self.stmt(x, cur, f)
                o.add(r)
                cur = r.fall
            o.fall = cur
            return o
        if k == "decl":
            cur = sts
            for v in n["v"]:
                nxt = []
                for s in cur:
                    nxt += self.decl(v, s, f)
                cur = nxt
            o.fall = dedup(cur)
            return o
        if k == "expr":
            for s in sts:
                for t, v in self.ev(n["e"], s, f):
                    o.fall.append(t)
            o.fall = dedup(o.fall)
            return o
        if k == "ret":
            for s in sts:
                for t, v in self.ev(n.get("e"), s, f):
                    if self.rets:
                        self.rets[-1].append((t, v))
            return o
        if k == "if":
            if n.get("i"):
                r = self.stmt(n["i"], sts, f)
                o.add(r)
                sts = r.fall
            if n.get("cv"):
                sts = [t for s in sts for t in self.decl(n["cv"], s, f)]
            T, E = [], []
            for s in sts:
                for v, t in self.cond(n["c"], s, f):
                    (T if v else E).append(t)
            a = self.stmt(n.get("t"), T, f)
            b = self.stmt(n.get("e"), E, f)
            o.add(a)
            o.add(b)
            o.fall = dedup(a.fall + b.fall)
            return o
        if k in ("while", "for", "do", "rfor"):
            return self.loop(n, sts, f)
        if k == "try":
            save, self.exc = self.exc, []
            r = self.stmt(n["b"], sts, f)
            inner, self.exc = self.exc, save
            o.add(r)
            o.fall = list(r.fall)
            for s, t in inner:
                caught = False
                for h in n.get("h", ()):
                    ht = h.get("t")
                    if ht is None:
                        m = "yes"
                    else:
                        m = self.matches(t, ht)
                    if m == "no":
                        continue
                    x = self.stmt(h["b"], [s.copy()], f)
                    o.add(x)
                    o.fall += x.fall
                    if m == "yes":
                        caught = True
                        break
                if not caught:
                    self.exc.append((s, t))
            o.fall = dedup(o.fall)
            return o
        if k == "break":
            o.brk = sts
            return o
        if k == "continue":
            o.cont = sts
            return o
        if k == "switch":
            for s in [t for s in sts for t, _ in self.ev(n["c"], s, f)]:
                body = n["b"]["s"] if n["b"].get("k") == "block" else [n["b"]]
                start = [i for i, x in enumerate(body) if x.get("k") in ("case", "default")]
                for i in start:
                    r = self.stmt({"k": "block", "s": body[i:]}, [s.copy()], f)
                    o.ret += r.ret
                    o.cont += r.cont
                    o.fall += r.fall + r.brk
                if not any(body[i].get("k") == "default" for i in start):
                    o.fall.append(s)
            o.fall = dedup(o.fall)
            return o
        if k in ("case", "default", "label"):
            return self.stmt(n.get("b"), sts, f)
        if k == "throw":
            for s in sts:
                self.ev(n, s, f)
            return o
        for s in sts:
            o.fall += [t for t, _ in self.ev(n, s, f)]
        o.fall = dedup(o.fall)
        return o

    def matches(self, t, ht):
        """does a handler of type ht catch an exception of type t (None: unknown)"""
        if t is None or t == "rethrow":
            return "maybe"
        if t == REGISTRATION:
            return "yes" if ht.replace("const ", "").rstrip("& ").strip() in (REGISTRATION, "dynamicgraph::ExceptionAbstract", "std::exception") else "no"
        c = lambda x: x.replace("const ", "").rstrip("& ").strip()
        t, ht = c(t), c(ht)
        if t == ht or ht in list(self.P.bases(t)) or ht == "std::exception" and t.startswith("std::"):
            return "yes"
        return "maybe" if t not in self.P.records else "no"

    def loop(self, n, sts, f):
        o = Out()
        k = n["k"]
        if n.get("i"):
            r = self.stmt(n["i"], sts, f)
            sts = r.fall
        if k == "rfor":
            sts = [t for s in sts for t, _ in self.ev(n.get("r"), s, f)]
        if n.get("cv"):
            sts = [t for s in sts for t in self.decl(n["cv"], s, f)]
        exits = []
        cur = sts
        base = [s.copy() for s in sts]
        bodyout = []
        zero = []
        for it in range(3):
            enter = []
            if k == "do" and it == 0 or k == "rfor" or n.get("c") is None and k != "do":
                enter = [s.copy() for s in cur]
                if k == "rfor":
                    (zero if it == 0 else exits).extend(s.copy() for s in cur)
                    if isptr(n["v"].get("t", "").replace("&", "")):
                        enter = [self.assign(s, "d:%s" % n["v"]["d"], "?", f, n.get("l", f["l"])) for s in enter]
            else:
                for s in cur:
                    for v, t in self.cond(n["c"], s.copy(), f):
                        if v:
                            enter.append(t)
                        else:
                            (zero if it == 0 else exits).append(t)
            if it == 2:
                break
            r = self.stmt(n["b"], enter, f)
            o.ret += r.ret
            exits += r.brk
            bodyout += r.fall + r.cont
            cur = dedup(r.fall + r.cont)
            if n.get("n"):
                cur = dedup([t for s in cur for t, _ in self.ev(n["n"], s, f)])
        # a container walked through completely has no element left to release
        done = {}
        if bodyout:
            for q in set.intersection(*[set(s.el) for s in bodyout]):
                if all(s.el[q] in ("freed", "maybe", "done") for s in bodyout):
                    done[q] = "maybe"
        for s in zero:
            for q in done:
                s.el.setdefault(q, "maybe")
        o.fall = dedup(exits + zero)
        return o

    def decl(self, v, st, f):
        i = v.get("init")
        if i is None:
            return [st]
        p = "d:%s" % v["d"]
        out = []
        if v.get("t", "").replace("const ", "") == "bool":
            c = strip(i)
            for b, s in self.cond(c, st, f):
                q = None
                x = c
                neg = False
                while isinstance(x, dict) and x.get("k") == "un" and x.get("op") == "!":
                    x, neg = strip(x["e"]), not neg
                if isinstance(x, dict) and x.get("k") == "bin" and x.get("op") in ("==", "!="):
                    for a in (x["a"], x["b"]):
                        q = q or self.place(a)
                    neg = neg != (x["op"] == "==")
                else:
                    q = self.place(x)
                if q:
                    s = s.copy()
                    s.tests[v["d"]] = (q, not neg)
                out.append(s)
            return out
        for s, val in self.ev(i, st, f):
            if isptr(v.get("t")):
                s = self.assign(s, p, val, f, v.get("l", f["l"]))
            elif "&" not in v.get("t", "") and val not in (None, "?"):
                self.escape(s, val, "object")
            out.append(s)
        return out

    # ------------------------------------------------------------ operations
    def run(self, f, dtor=False):
        self.stack = [f["u"]]
        self.exc = []
        self.rets = [[]]
        st = St()
        sts = [st]
        if f.get("ctor"):
            for q in self.owning:
                if q.rsplit("::", 1)[0] == f.get("cls") and self.isfield(q):
                    st.pl["f:" + q] = ("null", "f:" + q)
                    st.rs[("null", "f:" + q)] = "null"
            for x in f.get("inits", ()) or ():
                q = x.get("fq") and self.initfield(f, x)
                nxt = []
                for s in sts:
                    for t, v in self.ev(x.get("e"), s, f):
                        if q in self.owning:
                            if v == "?" and (strip(x["e"]) or {}).get("k") in ("int", "zero"):
                                v = None
                            t = self.assign(t, "f:" + q, v, f, x.get("l", f["l"]))
                        nxt.append(t)
                sts = nxt
        o = self.stmt(f["body"], sts, f)
        ends = [(s, "?", "") for s in o.fall] + [(s, v, "") for s, v in self.rets[0]]
        if not f.get("ctor") and not dtor:
            ends += [(s, "?", "when an exception leaves the operation") for s, _ in self.exc]
        for s, v, how in ends:
            self.count("paths to the end of an operation")
            for p, r in list(s.pl.items()):
                if p[0] in "fg" and s.rs.get(r) == "gone" and not dtor:
                    self.report("dangling %s" % p[2:].split("::")[-1], f, f["l"], "%s still refers to what was released %s" % (p[2:].split("::")[-1], how or "when the operation ends"))
            if not dtor:
                for q, x in s.el.items():
                    if x == "removed":
                        self.report("removed without release", f, f["l"], "elements leave %s without being released" % q.split("::")[-1])
                    if x == "freed":
                        self.report("dangling element of %s" % q.split("::")[-1], f, f["l"], "released elements stay in %s when the operation ends" % q.split("::")[-1])
            self.leaks(s, f, {p for p in s.pl if p[0] == "d"}, v, how=how)
        return ends

    def destructor(self, cls, f, fields, containers):
        ends = self.run(f, dtor=True) if f else [(St(), "?", "")]
        at = f or {"rel": self.P.records[cls].get("rel", ""), "l": 0, "u": cls, "q": cls}
        for s, v, how in ends:
            for q in fields:
                p = "f:" + q
                r = s.pl.get(p, ("old", p))
                stt = s.rs.get(r, "old")
                if s.el.get("#symbol missing") and self.owning[q]["kinds"] & {"plug-in", "dlopen"}:
                    continue     # without its own function it cannot be released, and its code has to stay
                if stt == "old" and self.owning[q]["kinds"] == {"plug-in"} and any("dlopen" in self.owning[x]["kinds"] and s.rs.get(s.pl.get("f:" + x)) == "null" for x in fields):
                    continue     # nothing can have been made by a plug-in that is not loaded
                if stt in ("own", "old"):
                    self.report("%s not released" % q.split("::")[-1], at, at["l"], "%s is never released when the object is destroyed%s" % (q.split("::")[-1], "" if f else " (no destructor)"))
            for q in containers:
                if s.el.get(q) not in ("freed", "maybe", "done"):
                    self.report("elements of %s not released" % q.split("::")[-1], at, at["l"], "the elements of %s are not released when the object is destroyed" % q.split("::")[-1])


def nullables(P, O):
    """owning fields some operation leaves null"""
    out = set()
    rep, count = O.rep, O.count
    O.rep, O.count, O.nullable = (lambda *a: None), (lambda *a: None), set()
    for f in O.fs:
        if f.get("dtor") or not f.get("ctor") and not any(n.get("k") in ("mem", "glob") and n.get("q") in O.owning for n in walk([f["body"], f.get("inits") or []])):
            continue
        try:
            ends = O.run(f)
        except (OverflowError, RecursionError):
            continue
        for s, _, _ in ends:
            for p, r in s.pl.items():
                if p[0] in "fg" and r[0] == "null" and s.rs.get(r) == "null" and p[2:] in O.owning:
                    out.add(p[2:])
    O.rep, O.count = rep, count
    return out

