"""Loads the resolved program: builds the exporter if needed, runs it over
every translation unit of /repo, merges the documents."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CACHE = os.environ.get("SA_CACHE", os.path.join(VERIF, ".cache"))
FLAGS = ["-std=c++14", "-w", "-DNDEBUG", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-ferror-limit=0",
         "-I" + VERIF + "/stubs", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/eigen3",
         '-DSOT_CORE_VERSION="4"']
# not part of the library as configured by the repository's CMake lists
EXCLUDED = {"src/math/vector-quaternion.cpp", "src/factory/additional-functions.cpp", "src/tools/robot-utils-py.cpp"}


class AnalysisError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def exporter():
    src = os.path.join(VERIF, "tool/exporter.cpp")
    out = os.path.join(CACHE, "exporter-" + sha(rd(src)))
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        r = subprocess.run(["sh", os.path.join(VERIF, "tool/build.sh"), out], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot build the exporter: " + r.stderr[-2000:])
    return out


def tree_files(*sub, exts):
    r = []
    for s in sub:
        for d, ds, fs in os.walk(os.path.join(REPO, s)):
            ds.sort()
            for f in sorted(fs):
                if os.path.splitext(f)[1] in exts:
                    r.append(os.path.join(d, f))
    return r


def units():
    us = [p for p in tree_files("src", exts={".cpp"}) if os.path.relpath(p, REPO) not in EXCLUDED]
    us.append(os.path.join(VERIF, "tool/instances.cpp"))
    return us


def header_hash():
    parts = []
    files = tree_files("src", "include", exts={".h", ".hh", ".hpp", ".hxx", ".cpp"})
    # sources that other sources include count as headers
    inc = set()
    for p in files:
        inc |= {os.path.basename(m.decode("utf-8", "replace")) for m in re.findall(rb'#\s*include\s*[<"]([^>"]*)[>"]', rd(p))}
    for p in files:
        if not p.endswith(".cpp") or os.path.basename(p) in inc:
            parts += [os.path.relpath(p, REPO), rd(p)]
    for d, ds, fs in os.walk(VERIF + "/stubs"):
        ds.sort()
        for f in sorted(fs):
            parts += [f, rd(os.path.join(d, f))]
    return sha(*parts)


def export_one(args):
    exe, src, out, roots, extra = args
    tmp = "%s.%d.tmp" % (out, os.getpid())
    cmd = [exe] + ["-root=" + r for r in roots] + ["-out=" + tmp, src, "--"] + FLAGS + ["-I" + os.path.dirname(src)] + extra
    r = subprocess.run(cmd, capture_output=True, text=True)
    if not os.path.exists(tmp):
        return src, "no output: " + r.stderr[-500:]
    os.rename(tmp, out)
    errs = [l for l in r.stderr.splitlines() if " error: " in l]
    return src, "\n".join(errs[:200]) if errs else ""


def strip_targs(q):
    """drop template argument lists from a qualified name"""
    m = re.search(r"operator\s*(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)", q)
    tail = ""
    if m:
        tail = "operator" + m.group(1)
        q = q[:m.start()]
    out, d = [], 0
    for c in q:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out) + tail


class Program:
    fallback = None
    def __init__(self):
        self.funcs = {}       # usr -> function
        self.byq = {}         # stripped qualified name -> [function]
        self.records = {}     # full name -> record
        self.recq = {}        # stripped q -> [record]
        self.enums = {}
        self.globals = {}
        self.units = []
        self.errors = {}

    dups = ()

    def add(self, doc):
        if not self.dups:
            self.dups = []
        for f in doc["functions"]:
            u = f["u"] or f["F"]
            if u in self.funcs:
                g = self.funcs[u]
                if (g["file"], g["l"], g["n"]) != (f["file"], f["l"], f["n"]) and g.get("body") and f.get("body") and g["file"].endswith(".cpp"):
                    self.dups.append((u, g["file"], g["l"], f["file"], f["l"]))
                continue
            f["rel"] = os.path.relpath(f["file"], REPO) if f["file"].startswith(REPO) else f["file"]
            self.funcs[u] = f
            f["qs"] = strip_targs(f["q"])
            self.byq.setdefault(f["qs"], []).append(f)
        for r in doc["records"]:
            if r["F"] in self.records:
                continue
            r["rel"] = os.path.relpath(r["file"], REPO) if r["file"].startswith(REPO) else r["file"]
            self.records[r["F"]] = r
            self.recq.setdefault(strip_targs(r["q"]), []).append(r)
        for e in doc["enums"]:
            self.enums.setdefault(e["q"], e)
        for g in doc["globals"]:
            g["rel"] = os.path.relpath(g["file"], REPO) if g["file"].startswith(REPO) else g["file"]
            self.globals.setdefault(g["q"], g)

    def finish(self):
        self.sub = {}
        for r in self.records.values():
            for b in r["bases"]:
                self.sub.setdefault(b["F"], set()).add(r["F"])
        self.overriders = {}   # usr -> set of usr (direct)
        self.cls_of_usr = {}
        for r in self.records.values():
            for m in r["methods"]:
                self.cls_of_usr[m["u"]] = r["F"]
                for o in m["ov"]:
                    self.overriders.setdefault(o, set()).add(m["u"])

    # -- hierarchy
    def bases(self, F, acc=None):
        """all (transitive) base class full names, F first"""
        if acc is None:
            acc = []
        if F in acc:
            return acc
        acc.append(F)
        r = self.records.get(F)
        if r:
            for b in r["bases"]:
                self.bases(b["F"], acc)
        return acc

    def derived(self, F):
        out, st = set(), [F]
        while st:
            x = st.pop()
            for y in self.sub.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return out

    def resolve_virtual(self, usr, cls):
        """the implementation of virtual method `usr` for dynamic class cls"""
        if cls is None:
            return usr
        for c in self.bases(cls):
            r = self.records.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["u"] == usr or self._overrides(m, usr):
                    return m["u"]
        return usr

    def _overrides(self, m, usr, seen=None):
        for o in m["ov"]:
            if o == usr:
                return True
            c = self.cls_of_usr.get(o)
            if c:
                for mm in self.records[c]["methods"]:
                    if mm["u"] == o and self._overrides(mm, usr):
                        return True
        return False

    def fields(self, F):
        """all fields including inherited ones (most derived first)"""
        out = []
        for c in self.bases(F):
            r = self.records.get(c)
            if r:
                out += [(c, f) for f in r["fields"]]
        return out

    def fn(self, q, cls=None, nparams=None, pred=None):
        c = [f for f in self.byq.get(q, []) if (cls is None or f.get("cls") == cls) and (nparams is None or len(f["params"]) == nparams) and (pred is None or pred(f))]
        return c


def load(subset=None, extra_units=(), extra_roots=(), quiet=True):
    exe = exporter()
    hh = header_hash()
    eh = os.path.basename(exe)
    jobs, outs = [], []
    us = units()
    if subset:
        us = [u for u in us if any(s in u for s in subset)]
    us = us + list(extra_units)
    d = os.path.join(CACHE, "ast")
    os.makedirs(d, exist_ok=True)
    for u in us:
        key = sha(eh, hh, u, rd(u), " ".join(FLAGS), REPO, " ".join(extra_roots))
        o = os.path.join(d, key + ".json")
        outs.append((u, o))
        if not os.path.exists(o):
            jobs.append((exe, u, o, [REPO + "/"] + list(extra_roots), []))
    errors = {}
    if jobs:
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for src, err in ex.map(export_one, jobs):
                if err:
                    errors[src] = err
                    o = dict(outs)[src]
                    if os.path.exists(o) and not err.startswith("no output"):
                        with open(o + ".err", "w") as f:
                            f.write(err)
    # a merged pickle for speed
    allkey = sha(*[o for _, o in outs], rd(__file__))
    pk = os.path.join(d, allkey + ".pkl")
    P = None
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                P = pickle.load(f)
        except Exception:
            P = None
    if P is None:
        P = Program()
        for u, o in outs:
            if not os.path.exists(o):
                continue
            with open(o) as f:
                P.add(json.load(f))
            P.units.append(u)
        P.finish()
        with open(pk + ".%d" % os.getpid(), "wb") as f:
            pickle.dump(P, f, protocol=4)
        os.rename(pk + ".%d" % os.getpid(), pk)
    for u, o in outs:
        if os.path.exists(o + ".err"):
            errors.setdefault(u, open(o + ".err").read())
    P.errors = errors
    mark_errors(P)
    return P


def mark_errors(P):
    """functions whose text did not parse cannot be judged: f["bad"]"""
    where = {}
    for u, txt in P.errors.items():
        for l in txt.splitlines():
            m = re.match(r"(.*?):(\d+):\d+: (fatal )?error:", l)
            if m and not m.group(3):
                where.setdefault(os.path.realpath(m.group(1)), set()).add(int(m.group(2)))
            else:
                where.setdefault(os.path.realpath(u), set()).add(None)
    if not where:
        return
    hit = set()
    byfile = {}
    for f in P.funcs.values():
        byfile.setdefault(os.path.realpath(f.get("file", "")), []).append(f)
    for path, lines in where.items():
        fs = byfile.get(path, [])
        for n in lines:
            inside = [f for f in fs if n is not None and f.get("l") and f["l"] <= n <= f.get("l2", f["l"])]
            # an error outside of every function may concern any of them
            for f in inside or fs:
                f["bad"] = True


def load_spec(name):
    """the reference semantics written in spec/<name>.cpp"""
    exe = exporter()
    src = os.path.join(VERIF, "spec", name + ".cpp")
    hdr = b"".join(rd(p) for p in sorted(glob.glob(os.path.join(VERIF, "spec", "*.hh"))))
    d = os.path.join(CACHE, "spec")
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, name + "-" + sha(os.path.basename(exe), rd(src), hdr, " ".join(FLAGS)) + ".json")
    if not os.path.exists(o):
        _, err = export_one((exe, src, o, [VERIF + "/spec/"], []))
        if err:
            if os.path.exists(o):
                os.remove(o)
            raise AnalysisError("spec %s: %s" % (name, err))
    P = Program()
    with open(o) as f:
        P.add(json.load(f))
    P.units.append(src)
    P.finish()
    return P


def load_bindings():
    """the script modules: every src/**/*-python.h (as a function taking its
    list of classes) and the hand written src/**/*.cc modules"""
    exe = exporter()
    hh = header_hash() + sha(*[rd(p) for p in sorted(glob.glob(VERIF + "/stubs-py/**/*", recursive=True)) if os.path.isfile(p)])
    d = os.path.join(CACHE, "bind")
    os.makedirs(d, exist_ok=True)
    jobs, outs = [], []
    for p in tree_files("src", exts={".h", ".cc"}):
        rel = os.path.relpath(p, REPO)
        if p.endswith("-python.h"):
            tu = os.path.join(d, sha(rel, REPO) + ".cpp")
            txt = '#include <boost/mpl/vector.hpp>\n#include <dynamic-graph/python/module.hh>\n#include "%s"\nvoid sa_module_entities(entities_t *) {}\n' % p
            if not os.path.exists(tu) or open(tu).read() != txt:
                with open(tu + ".%d" % os.getpid(), "w") as f:
                    f.write(txt)
                os.rename(tu + ".%d" % os.getpid(), tu)
        elif p.endswith(".cc"):
            tu = p
        else:
            continue
        o = os.path.join(d, sha(os.path.basename(exe), hh, rel, rd(p), " ".join(FLAGS), REPO) + ".json")
        outs.append((rel, tu, o))
        if not os.path.exists(o):
            jobs.append((exe, tu, o, [d + "/", REPO + "/src/"], ["-I" + os.path.dirname(p), "-I" + VERIF + "/stubs-py"]))
    errs = {}
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for tu, err in ex.map(export_one, jobs):
            if err:
                o = [x for x in outs if x[1] == tu][0][2]
                with open(o + ".err", "w") as f:
                    f.write(err)
    R = {}
    for rel, tu, o in outs:
        if os.path.exists(o + ".err"):
            errs[rel] = open(o + ".err").read()
        if os.path.exists(o):
            with open(o) as f:
                R[rel] = json.load(f)
    return R, errs


def specs():
    return sorted(os.path.splitext(os.path.basename(p))[0] for p in glob.glob(os.path.join(VERIF, "spec", "*.cpp")))


if __name__ == "__main__":
    import time
    t = time.time()
    P = load()
    load_bindings()
    for n in specs():
        load_spec(n)
    print(len(P.units), "units", len(P.funcs), "functions", len(P.records), "records", len(P.errors), "errors", time.time() - t)
    for u, e in P.errors.items():
        print(u, e)
