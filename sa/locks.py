"""Lockset analysis of a class whose data are guarded by one of its mutexes:
path-sensitive structured walk of every operation, helpers inlined."""
from .effects import callee_name, walk

LOCKS = ("unique_lock", "lock_guard", "scoped_lock", "try_lock_wrapper", "scoped_timed_lock", "strict_lock")
NOTHROW = {"gettimeofday", "setReady", "owns_lock", "clock_gettime", "time"}


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "icast"):
        e = e["e"]
    return e


class St:
    __slots__ = ("locks", "raw", "bools", "cs", "touched", "alias", "intry", "early")

    def __init__(self):
        self.locks = {}      # local lock object -> held / free / maybe
        self.raw = "free"    # the mutex locked by hand
        self.bools = {}      # local -> (lock object or "raw", negated)
        self.cs = 0          # critical sections entered
        self.touched = frozenset()   # critical sections in which data were touched
        self.alias = {}      # reference locals bound to guarded data
        self.intry = 0
        self.early = None    # outputs announced before the data were written

    def copy(self):
        s = St()
        s.locks, s.raw, s.bools, s.cs, s.touched, s.alias, s.intry, s.early = dict(self.locks), self.raw, dict(self.bools), self.cs, self.touched, dict(self.alias), self.intry, self.early
        return s

    def held(self):
        return self.raw == "held" or "held" in self.locks.values()

    def key(self):
        return (tuple(sorted(self.locks.items())), self.raw, tuple(sorted(self.bools.items())), self.cs, self.touched, tuple(sorted(self.alias)), self.intry, bool(self.early))


class Walk:
    def __init__(self, P, cls, mutex, guarded, data, report, count):
        self.P, self.cls, self.mutex, self.guarded, self.data, self.report, self.count = P, cls, mutex, guarded, data, report, count
        self.stack = []

    # ------------------------------------------------------------ helpers
    def ismutex(self, e):
        e = strip(e)
        if isinstance(e, dict) and e.get("k") == "un" and e["op"] in ("*", "&"):
            e = strip(e["e"])
        return isinstance(e, dict) and e.get("k") == "mem" and e.get("n") == self.mutex

    def lockobj(self, e, st):
        e = strip(e)
        return e["d"] if isinstance(e, dict) and e.get("k") == "ref" and e["d"] in st.locks else None

    def acquire(self, st, f, l):
        if st.held():
            self.report("relock", f, l, "takes the lock while it already holds it (the mutex is not recursive)")
        st.cs += 1

    def dedup(self, sts):
        d = {}
        for s in sts:
            d.setdefault(s.key(), s)
        return list(d.values())

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, f):
        """evaluate for effects; returns the list of states"""
        if isinstance(e, list):
            sts = [st]
            for x in e:
                sts = [t for s in sts for t in self.ev(x, s, f)]
            return sts
        if not isinstance(e, dict):
            return [st]
        k = e.get("k")
        if k in ("lambda",):
            return [st]
        if k == "un" and e.get("op") == "!" or k == "bin" and e.get("op") in ("&&", "||") or k == "cond":
            if k == "cond":
                out = []
                for v, s in self.cond(e["c"], st, f):
                    out += self.ev(e["ct"] if v else e["cf"], s, f)
                return out
            return [s for _, s in self.cond(e, st, f)]
        if k == "mem":
            sts = self.ev(e.get("b"), st, f)
            if e.get("n") in self.guarded and e.get("q", "").startswith(self.cls + "::"):
                for s in sts:
                    self.access(s, e["n"], f, e.get("l", f["l"]))
            return sts
        if k == "ref":
            if e["d"] in st.alias:
                self.access(st, st.alias[e["d"]], f, e.get("l", f["l"]))
            return [st]
        if k in ("mcall", "call", "ocall", "ctor"):
            o = e.get("o")
            nm = callee_name(e["f"]) if e.get("f") else ""
            if k == "mcall" and o is not None:
                lo = self.lockobj(o, st)
                if lo is not None or self.ismutex(o):
                    sts = self.ev(e.get("args"), st, f)
                    out = []
                    for s in sts:
                        out += [x for _, x in self.lockop(lo, nm, s, f, e.get("l", f["l"]))]
                    return out
            if k == "ctor" and (e["f"].get("cls") or "").split("::")[-1].split("<")[0] in LOCKS:
                return [st]      # a temporary: gone at the end of the statement
            sts = self.ev(o, st, f) if o is not None else [st]
            sts = [t for s in sts for t in self.ev(e.get("args"), s, f)]
            tgt = self.P.funcs.get((e.get("f") or {}).get("u"))
            own = tgt is not None and tgt.get("cls") == self.cls and tgt.get("body") and (k != "mcall" or strip(o).get("k") in ("this",) or strip(o).get("k") == "un")
            if own and k == "mcall" and not tgt.get("ctor") and tgt["u"] not in self.stack:
                out = []
                for s in sts:
                    out += self.inline(tgt, e, s, f)
                return out
            if nm == "setReady" and k == "mcall":
                for s in sts:
                    if not s.held() and not s.touched:
                        s.early = (f, e.get("l", f["l"]))
            for s in sts:
                if s.raw == "held" and not s.intry and nm not in NOTHROW and k != "ctor":
                    self.report("exception", f, e.get("l", f["l"]), "calls %s with the mutex locked by hand: if it throws the lock is never released" % nm)
            return sts
        sts = [st]
        for key, v in e.items():
            if isinstance(v, (dict, list)) and key not in ("f",):
                sts = [t for s in sts for t in self.ev(v, s, f)]
        return self.dedup(sts)

    def inline(self, tgt, e, st, f):
        s = st.copy()
        for p, a in zip(tgt["params"], e.get("args", ())):
            lo = self.lockobj(a, s)
            if lo is not None:
                s.locks[p["d"]] = s.locks[lo]
        self.stack.append(tgt["u"])
        outer = set(st.locks)
        outs, exits = self.block(tgt["body"], [s], tgt)
        self.stack.pop()
        r = []
        for x in outs + exits:
            for p, a in zip(tgt["params"], e.get("args", ())):
                lo = self.lockobj(a, st)
                if lo is not None and p["d"] in x.locks:
                    x.locks[lo] = x.locks[p["d"]]
            x.locks = {d: v for d, v in x.locks.items() if d in outer}
            r.append(x)
        return self.dedup(r)

    def access(self, st, fld, f, l):
        self.count("accesses to guarded data")
        if not st.held():
            self.report("access to %s" % fld, f, l, "%s is touched without holding %s" % (fld, self.mutex))
        elif fld in self.data:
            st.touched = st.touched | {st.cs}
            if st.early:
                self.report("announced early", st.early[0], st.early[1], "announces new data before it holds the lock under which it handles them: a reader in between takes the old ones and is not told again")

    def lockop(self, lo, nm, st, f, l):
        """operation on a lock object (lo) or on the mutex itself (lo None);
        returns [(truth value or None, state)]"""
        def put(s, v):
            if lo is None:
                s.raw = v
            else:
                s.locks[lo] = v
            return s
        cur = st.raw if lo is None else st.locks[lo]
        if nm == "lock":
            s = st.copy()
            self.acquire(s, f, l)
            return [(None, put(s, "held"))]
        if nm in ("try_lock", "timed_lock", "try_lock_for", "try_lock_until"):
            a, b = st.copy(), st.copy()
            if a.held():
                self.acquire(a, f, l)
            else:
                a.cs += 1
            return [(True, put(a, "held")), (False, put(b, "free"))]
        if nm == "unlock":
            if cur == "free":
                self.report("unlock", f, l, "releases a lock it does not hold")
            return [(None, put(st.copy(), "free"))]
        if nm in ("owns_lock", "operator bool", "operator bool_type", "is_locked") or nm.startswith("operator"):
            return self.owns(lo, st)
        return [(None, st)]

    def owns(self, lo, st):
        cur = st.raw if lo is None else st.locks[lo]
        if cur == "held":
            return [(True, st)]
        if cur == "free":
            return [(False, st)]
        a, b = st.copy(), st.copy()
        a.locks[lo] = "held"
        a.cs += 1
        b.locks[lo] = "free"
        return [(True, a), (False, b)]

    def cond(self, c, st, f):
        c = strip(c)
        if not isinstance(c, dict):
            return [(True, st), (False, st.copy())]
        k = c.get("k")
        if k == "un" and c["op"] == "!":
            return [(not v, s) for v, s in self.cond(c["e"], st, f)]
        if k == "ocall" and c["op"] == "!" and self.lockobj(c["args"][0], st) is not None:
            return [(not v, s) for v, s in self.owns(self.lockobj(c["args"][0], st), st)]
        if k == "bin" and c["op"] in ("&&", "||"):
            out = []
            for v, s in self.cond(c["a"], st, f):
                if v == (c["op"] == "||"):
                    out.append((v, s))
                else:
                    out += self.cond(c["b"], s, f)
            return out
        if k == "bin" and c["op"] in ("==", "!=") and strip(c["b"]).get("k") == "bool":
            w = strip(c["b"])["v"] == (c["op"] == "==")
            return [(v == w, s) for v, s in self.cond(c["a"], st, f)]
        if k == "bool":
            return [(bool(c["v"]), st)]
        if k == "mcall" and c.get("o") is not None:
            lo = self.lockobj(c["o"], st)
            nm = callee_name(c["f"])
            if lo is not None or self.ismutex(c["o"]):
                r = self.lockop(lo, nm, st, f, c.get("l", f["l"]))
                return [(v, s) for v0, s in r for v in ((True, False) if v0 is None else (v0,))]
        if k == "ref":
            if c["d"] in st.locks:
                return self.owns(c["d"], st)
            if c["d"] in st.bools:
                lo, neg = st.bools[c["d"]]
                if lo in st.locks:
                    return [(v != neg, s) for v, s in self.owns(lo, st)]
                if lo in (True, False):
                    return [(lo != neg, st)]
        out = []
        for s in self.ev(c, st, f):
            out += [(True, s), (False, s.copy())]
        return out

    # ------------------------------------------------------------ statements
    def block(self, n, sts, f):
        """(states falling through, states leaving the function)"""
        if n is None:
            return sts, []
        k = n.get("k")
        ex = []
        if k == "block":
            before = [set(s.locks) for s in sts]
            known = set().union(*before) if before else set()
            for x in n["s"]:
                sts, e2 = self.block(x, sts, f)
                ex += e2
                sts = self.dedup(sts)
            for s in sts + ex:
                s.locks = {d: v for d, v in s.locks.items() if d in known}
            return self.dedup(sts), self.dedup(ex)
        if k == "decl":
            for v in n["v"]:
                nxt = []
                for s in sts:
                    nxt += self.decl(v, s, f)
                sts = nxt
            return sts, []
        if k == "expr":
            out = []
            for s in sts:
                e = strip(n["e"])
                # ok = lock.owns_lock();
                out += self.ev(n["e"], s, f)
            return out, []
        if k == "ret":
            for s in sts:
                e = strip(n.get("e"))
                r = f.get("rt", "") or f.get("ret", "") or f.get("t", "")
                if isinstance(e, dict) and e.get("k") == "mem" and e.get("n") in self.guarded and ("&" in r or "*" in r):
                    self.report("reference to %s" % e["n"], f, n.get("l", f["l"]), "a reference to %s leaves the operation, it can be used without the lock" % e["n"])
                ex += self.ev(n.get("e"), s, f)
            return [], ex
        if k == "if":
            out = []
            if n.get("cv"):
                nxt = []
                for s in sts:
                    nxt += self.decl(n["cv"], s, f)
                sts = nxt
            for s in sts:
                for v, t in self.cond(n["c"], s, f):
                    a, e2 = self.block(n.get("t") if v else n.get("e"), [t], f)
                    out += a
                    ex += e2
            return self.dedup(out), self.dedup(ex)
        if k in ("while", "for", "do", "rfor", "dofor"):
            sts = [t for s in sts for t in (self.ev(n.get("i"), s, f) if not (isinstance(n.get("i"), dict) and n["i"].get("k") in ("decl", "block", "expr")) else self.block(n["i"], [s], f)[0])]
            out = list(sts) if k != "do" else []
            cur = sts
            for _ in range(2):
                nxt = []
                for s in cur:
                    if n.get("c") is not None and k != "do":
                        for v, t in self.cond(n["c"], s.copy(), f):
                            (nxt if v else out).append(t)
                    else:
                        nxt.append(s.copy())
                body = n.get("b") or n.get("s")
                cur, e2 = self.block(body, self.dedup(nxt), f) if isinstance(body, dict) else (nxt, [])
                ex += e2
                if n.get("u") is not None or n.get("n") is not None:
                    u = n.get("u") if isinstance(n.get("u"), dict) else None
                    cur = [t for s in cur for t in self.ev(u, s, f)] if u else cur
                out += [s.copy() for s in cur]
            return self.dedup(out), self.dedup(ex)
        if k == "try":
            body = n.get("b") or n.get("s")
            entry = [s.copy() for s in sts]
            for s in sts:
                s.intry += 1
            a, e1 = self.block(body, sts, f)
            for s in a + e1:
                s.intry = max(0, s.intry - 1)
            ex += e1
            out = list(a)
            for h in n.get("h", ()) or ():
                hb = h.get("b") or h.get("s") or h
                o2, e2 = self.block(hb if isinstance(hb, dict) and hb.get("k") else None, [s.copy() for s in entry], f)
                out += o2
                ex += e2
            return self.dedup(out), self.dedup(ex)
        if k == "throw":
            for s in sts:
                ex += self.ev(n.get("e"), s, f)
            return [], ex
        out = []
        for s in sts:
            out += self.ev(n, s, f)
        return self.dedup(out), []

    def decl(self, v, st, f):
        t = v.get("t", "")
        base = t.split("<")[0].split("::")[-1].strip()
        i = strip(v.get("init")) if v.get("init") is not None else None
        if base in LOCKS and "&" not in t:
            a = (i or {}).get("args", []) if isinstance(i, dict) and i.get("k") == "ctor" else []
            s = st.copy()
            if not a or not self.ismutex(a[0]):
                return [s]
            how = " ".join(str(strip(x).get("t", "")) + str(strip(x).get("q", "")) for x in a[1:] if isinstance(strip(x), dict))
            self.count("locks taken")
            if "defer_lock" in how:
                s.locks[v["d"]] = "free"
            elif "adopt_lock" in how:
                s.locks[v["d"]] = "held" if s.raw == "held" else "free"
                s.raw = "free"
            elif base == "try_lock_wrapper" or len(a) > 1:
                if s.held():
                    self.acquire(s, f, v.get("l", f["l"]))
                s.locks[v["d"]] = "maybe"
            else:
                self.acquire(s, f, v.get("l", f["l"]))
                s.locks[v["d"]] = "held"
            return [s]
        if i is None:
            return [st]
        if base == "bool" or t.strip() in ("bool", "const bool"):
            out = []
            direct = isinstance(i, dict) and i.get("k") == "mcall" and (self.lockobj(i.get("o"), st) is not None or self.ismutex(i.get("o")))
            if direct:
                for val, s in self.cond(i, st, f):
                    s = s.copy()
                    s.bools[v["d"]] = (bool(val), False)
                    out.append(s)
                return out
        sts = []
        if "&" in t and isinstance(i, dict) and i.get("k") == "mem" and i.get("n") in self.guarded:
            s = st.copy()
            s.alias[v["d"]] = i["n"]
            return [s]
        for s in self.ev(v["init"], st, f):
            sts.append(s)
        return sts


def check_class(P, cls, rep, count):
    """every operation of cls; rep(kind, function, line, text)"""
    rec = P.records[cls]
    mutexes = [x["n"] for x in rec["fields"] if "mutex" in x["t"]]
    if len(mutexes) != 1:
        return None
    guarded = {x["n"] for x in rec["fields"] if "mutex" not in x["t"] and "Signal" not in x["t"]}
    data = {x["n"] for x in rec["fields"] if x["n"] in guarded and x["t"] != "bool"}
    w = Walk(P, cls, mutexes[0], guarded, data, rep, count)
    roots = []
    bound = {n["f"].get("u") for f in P.funcs.values() if f.get("cls") == cls for i in [f.get("body")] + [x.get("e") for x in f.get("inits", ())] for n in walk(i) if n.get("k") == "fn"}
    for f in P.funcs.values():
        if not f.get("body") or f.get("ctor") or f.get("impl"):
            continue
        if f.get("cls") == cls:
            if f.get("acc", 0) == 0 or f["u"] in bound:
                roots.append(f)
        elif any(n.get("k") == "mem" and n.get("n") in guarded and n.get("q", "").startswith(cls + "::") for n in walk(f["body"])):
            roots.append(f)
    for f in sorted(roots, key=lambda f: f["u"]):
        count("operations")
        w.stack = [f["u"]]
        outs, exits = w.block(f["body"], [St()], f)
        stores = any((n.get("k") == "bin" and n.get("op") == "=" and strip(n["a"]).get("k") == "mem" and strip(n["a"]).get("n") in data) or
                     (n.get("k") == "ocall" and n.get("op") == "=" and strip(n["args"][0]).get("k") == "mem" and strip(n["args"][0]).get("n") in data)
                     for n in walk(f["body"]))
        for s in outs + exits:
            if stores and not s.touched:
                rep("may be dropped", f, f["l"], "a path leaves the operation without storing the new data (the lock was not obtained)")
            if s.raw == "held":
                rep("left locked", f, f["l"], "a path leaves the operation with %s locked" % mutexes[0])
            if len(s.touched) > 1:
                rep("torn", f, f["l"], "the shared data are handled in several critical sections: another thread can change them in between")
    return sorted(guarded)
