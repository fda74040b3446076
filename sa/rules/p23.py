"""Noninterference of every computed output from the value it had before."""
import multiprocessing
import os
import re

from .. import contracts, terms as t
from ..contracts import TYPES, Assume, clsname, compare, run_fn
from ..terms import mk, sym

# callbacks which compute no value: a trigger keeps its dummy result
TRIGGERS = {"PeriodicCallEntity::trigerCall", "PeriodicCallEntity::trigerOnceCall", "SotJointTrajectoryEntity::OneStepOfUpdate", "Sequencer::trigger"}
# written through a pointer into the result, which the abstraction does not follow
POINTER = {"FeaturePose<SE3Representation>::computeQfaMfb", "FeaturePose<R3xSO3Representation>::computeQfaMfb",
           "FeaturePose<SE3Representation>::computeQfaMfbDes", "FeaturePose<R3xSO3Representation>::computeQfaMfbDes"}
# dimensions kept consistent by other parts of the program, which a callback alone does not show (P11, P15)
SIZES = {"FeaturePoint6d::computeJacobian", "FeaturePoint6dRelative::computeJacobian", "FilterDifferentiator::x_dx_ddxSINNER_function"}
# a reader which does not get the lock keeps what it had (P10); a replayed file keeps its last row when it is exhausted (P21)
KEEPS = {"Mailbox", "sotReader"}


def callbacks(P):
    """the functions given to output signals: they fill one parameter and return it"""
    out = []
    for u, f in sorted(P.funcs.items()):
        if f.get("impl") or not f.get("body") or not f.get("cls") or len(f["params"]) < 2 or f["rel"].startswith("/verif"):
            continue
        if len(results(f)) == 1 and not f["n"].startswith("operator"):
            out.append(f)
    return out


def results(f):
    return [i for i, p in enumerate(f["params"]) if p["t"].endswith("&") and not p["t"].startswith("const ") and f.get("rt") == p["t"] and "stream<" not in p["t"]]


def short(f):
    n = contracts.fullcls(f)
    n = re.sub(r"Matrix<double,-1,-1,0,-1,-1>", "Matrix", re.sub(r"Matrix<double,-1,1,0,-1,1>", "Vector", n))
    return (n + "::" if n else "") + f["n"]


def preconditions(P, S, f, name, tl):
    """the precondition functions of the specification for the class of f"""
    out = []
    cn = contracts.fullcls(f)
    for vf in S.funcs.values():
        if vf.get("body") is None or not vf.get("cls") or contracts.fullcls(vf) not in (cn, clsname(f)):
            continue
        if vf["n"] not in ("valid_", "valid_" + f["n"] + "_") or len(vf["params"]) not in (0, 2):
            continue
        ren, fields, ftypes = contracts.fieldmap(P, S, f, vf)
        out += run_fn(S, vf, [p["t"] for p in f["params"]][:len(vf["params"])], vf.get("cls"), ren, fields, (), tl, None, False, ftypes, tag=name).assumed
    return out


G = {}


def own_outputs(P, f, terms, name, tl):
    """signals computed by the same entity have the value of their callback"""
    items = []
    done = set()
    for x in terms:
        for y in t.subterms(x):
            if y.op == "rd" and y.args[0].op == "fld" and y.args[0].args[1] == "dimensionSOUT" and y not in done:
                done.add(y)
                g = dim_of(P, f)
                if g is None:
                    continue
                o = run_fn(P, g, [p["t"] for p in g["params"]], f["cls"], {}, [], (), tl, None, False, {}, tag=name)
                v = o.obs["return value"]
                if o.kind.op == "normal" and y not in t.subterms(v):
                    items.append(("_eq", t.TRUE, (y, v)))
    return items


def dim_of(P, f):
    for c in [f["cls"]] + list(P.bases(f["cls"])):
        for g in P.funcs.values():
            if g.get("cls") == c and g["n"] == "getDimension" and g.get("body") and len(g["params"]) == 2:
                return g
    return None


def one(u):
    P, specs, tier, seed = G["P"], G["specs"], G["tier"], G["seed"]
    f = P.funcs[u]
    name = short(f)
    tl = 12 if tier == "quick" else 200
    try:
        t.BIG[0] = 4000
        o = run_fn(P, f, [p["t"] for p in f["params"]], f.get("cls"), {}, [], (), tl, None, False, {}, tag=name)
        ret = o.obs.get("return value")
        if ret is None:
            return u, "undecided", "no result"
        s, s2 = sym("p%d@%s" % (results(f)[0], name)), sym("old0@" + name)
        if s not in t.subterms(ret):
            return u, "independent", None
        items = []
        for S in specs:
            items += preconditions(P, S, f, name, tl)
        items += own_outputs(P, f, [ret], name, tl)
        TYPES[s2] = TYPES.get(s)
        other = t.subst(ret, {s: s2})
        # compared where the computation returns whatever was there before
        kind2 = t.subst(o.kind, {s: s2})
        for k in {o.kind, kind2}:
            if k.op != "normal":
                items.append(("", t.TRUE, (t.eqv(k, mk("normal")),)))
        r, d = compare("return value", ret, other, G["enums"], contracts.SAMPLES[tier], seed, Assume(items))
    except contracts.Unsupported as e:
        return u, "undecided", str(e)
    except (RecursionError, ValueError, KeyError, TypeError, AttributeError, IndexError, AssertionError) as e:
        if os.environ.get("SA_DEBUG"):
            raise
        return u, "undecided", "internal: %s %s" % (type(e).__name__, e)
    if r == "differ":
        dd, wit, bad, tried = d
        m = "%s: what it returns depends on what the output held before" % name
        if dd is not None:
            m += "\n    when   %s" % (" and ".join(("" if v else "not ") + t.show(l, 4) for l, v in dd[0][:8]) or "always")
            m += "\n    result %s" % t.show(dd[1], 5)[:500]
        if wit is not None:
            m += "\n    two earlier values lead to %s and %s" % (str(wit[1])[:200], str(wit[2])[:200])
        return u, "differ", m
    return u, r, str(d)


def run(c):
    c.rule("noninterference: the value returned by each signal callback is the same term whatever the output held before (value numbering of the "
           "callback, then of the same term over another initial value), under the preconditions of the specifications")
    P = c.P
    specs = []
    import glob
    for p in sorted(glob.glob(os.path.join(os.path.dirname(contracts.__file__), "..", "spec", "p*.cpp"))):
        S = contracts.get_spec(os.path.basename(p)[:-4], P)
        specs.append(S)
    enums = {q: [x["v"] for x in e["v"]] or [0] for q, e in P.enums.items()}
    G.update(P=P, specs=specs, tier=c.tier, seed=c.seed, enums=enums)
    todo = []
    for f in callbacks(P):
        n = short(f)
        c.count("signal callbacks")
        if n in TRIGGERS or n in POINTER or n in SIZES or n.split("<")[0].split("::")[0] in KEEPS:
            c.count("callbacks left aside")
            continue
        todo.append(f["u"])
    import gc
    gc.freeze()
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(one, todo, chunksize=1)
    for u, r, d in res:
        f = P.funcs[u]
        n = short(f)
        if r in ("independent", "equal"):
            c.ok("%s: independent of the former value" % n)
            c.count("outputs independent by normal form")
        elif r == "agree":
            c.ok()
            c.count("outputs not distinguished")
            c.notes.append("%s: mentions the former value, no dependence under %s random interpretations" % (n, d))
        elif r == "differ":
            c.fail("%s keeps a former value" % n, "%s:%d" % (f["rel"], f["l"]), d)
        else:
            c.count("outputs not decided")
            c.notes.append("%s: not decided (%s)" % (n, d))
    c.floor("signal callbacks", len(todo), 150)
