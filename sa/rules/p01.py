"""P01: every signal a callback may read is covered by the declared
dependencies of the computed signal (transitively)."""
from ..effects import (Ctx, build_entity, callee_name, const_cond, ctors, entity_classes, own_field, reads_of, unparsed, walk, sigkind)

# reads that are covered by a dependency of another object of the chain, or
# that deliberately do not feed the value; one line of reason each
EXCEPTIONS = {
    ("Sot", "controlSOUT", "controlSelectionSIN"): "covered through task.jacobianSOUT, which depends on controlSelectionSIN (Task/TaskAbstract families)",
    ("Sot", "controlSOUT", "dimensionSOUT"): "feature dimension changes only with the selection, a dependency of the feature errors behind task.taskSOUT",
}


def short(F):
    return F.replace("dynamicgraph::sot::", "").split("<")[0].split("::")[-1]


def setup(E, ctor):
    """flags set by constructors: always-ready, all-children"""
    allch = set()

    def cb(n, f, ev):
        if n.get("k") == "mcall" and n.get("f") and callee_name(n["f"]) == "setNeedUpdateFromAllChildren":
            a = n["args"][0] if n["args"] else None
            if a is None or const_cond(a) is not False:
                for sp in E.ctx.paths(n["o"], f, ev):
                    if own_field(sp):
                        allch.add(own_field(sp))
        return True
    for c in E.p.bases(E.cls):
        for f in E.p.funcs.values():
            if f.get("cls") == c and f.get("ctor"):
                E.ctx._visit(f.get("body"), f, {"this": {("this",)}}, cb, 0, ())
    return allch


def dyn_ops(E):
    """(op, signal path, dep paths, function, line, aliases) of dependency operations outside constructors"""
    out, ins = [], []
    prog = E.p
    for c in prog.bases(E.cls):
        for f in prog.funcs.values():
            if f.get("cls") != c or f.get("ctor") or not f.get("body"):
                continue
            o, i = [], []

            def cb(n, g, ev):
                k = n.get("k")
                if k == "mcall" and n.get("f") and not n["f"].get("r"):
                    nm = callee_name(n["f"])
                    if nm in ("addDependency", "removeDependency", "addDependencies", "clearDependencies"):
                        deps = E.ctx.paths(n["args"][0], g, ev) if n["args"] else set()
                        if nm == "addDependencies":
                            from ..effects import array_paths
                            deps = array_paths(E.ctx, n["args"][0], g, ev)
                        for sp in E.ctx.paths(n["o"], g, ev):
                            o.append((nm, sp, frozenset(deps), g, n["l"]))
                    if nm in ("push_back", "push_front", "insert", "emplace_back") and n["args"]:
                        for cp in E.ctx.paths(n["o"], g, ev):
                            i.append((cp, frozenset(E.ctx.paths(n["args"][0], g, ev)), g, n["l"]))
                if k == "bin" and n.get("op") == "=":
                    for cp in E.ctx.paths(n["a"], g, ev):
                        if cp and cp[-1] == "[]":
                            i.append((cp[:-1], frozenset(E.ctx.paths(n["b"], g, ev)), g, n["l"]))
                return True
            E.ctx.visit(f, {"this": {("this",)}}, cb)
            out.append((f, o, i))
    return out


def key(path):
    return path[-1]


def run(c):
    c.rule("for every entity class, constructor and computed signal: signals read by the callback (interprocedural, virtual calls resolved for the class) are in the transitive closure of its declared dependencies, or the signal is recomputed at every time; external signals of attached objects must be added when the object is attached")
    P = c.P
    classes = entity_classes(P)
    nsig = nread = 0
    for F in classes:
        if P.records[F].get("abs"):
            continue
        if unparsed(P, F):
            c.notes.append("not decided: " + F)
            continue
        cts = ctors(P, F)
        dyn = None
        for ct in cts:
            E = build_entity(P, F, ct)
            allch = setup(E, ct)
            if dyn is None:
                dyn = dyn_ops(E)
                adds, elems = {}, {}
                for f, o, i in dyn:
                    for nm, sp, deps, g, ln in o:
                        if nm.startswith("add") and own_field(sp):
                            adds.setdefault(own_field(sp), set()).update(deps)
                    # inserted elements that are also declared as dependency in the same operation
                    for cp, vals, g, ln in i:
                        for nm, sp, deps, g2, l2 in o:
                            if nm.startswith("add") and own_field(sp) and (deps & vals):
                                elems.setdefault(own_field(sp), set()).add(cp + ("[]",))
            for s, (fn, env, l) in sorted(E.callbacks.items()):
                if E.signals[s][0] != "out":
                    continue
                nsig += 1
                def always(x):
                    return x in E.alwaysready or (x in allch and not E.deps.get(x))
                if always(s):
                    c.ok()
                    continue
                cov, st = {("this", s)}, [s]
                ext = set()
                seen = set()
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    for d in set(E.deps.get(x, ())) | adds.get(x, set()) | elems.get(x, set()):
                        fl = own_field(d)
                        if fl:
                            if d not in cov:
                                cov.add(d)
                                st.append(fl)
                        else:
                            ext.add(d)
                            ext.add(("ext", key(d)))
                # an own computed signal whose declared dependencies are all covered
                changed = True
                while changed:
                    changed = False
                    for y in E.callbacks:
                        if ("this", y) not in cov and y in E.deps:
                            if all((d in cov) or (own_field(d) is None and ("ext", key(d)) in ext) for d in set(E.deps[y]) | adds.get(y, set())):
                                cov.add(("this", y))
                                changed = True
                if s not in allch and any(always(own_field(d)) for d in cov if own_field(d)):
                    c.ok("%s.%s is refreshed at every time" % (short(F), s))
                    continue
                done = set()
                for sp, ln, f, nm, n in reads_of(E, fn, env):
                    if sp in cov or sp in done:
                        c.ok()
                        continue
                    done.add(sp)
                    nread += 1
                    if own_field(sp) is None:
                        if nm == "recompute" and sp[-1] in ("[]",) or (nm == "recompute" and "[]" in sp):
                            c.ok()      # triggers other signals, does not feed the value
                            continue
                        if sp in ext or (sp[-1] != "[]" and ("ext", key(sp)) in ext):
                            c.ok("%s.%s reads %s: added when attached" % (short(F), s, ".".join(sp)))
                            continue
                    nmf = key(sp) if sp[-1] != "[]" else ".".join(sp)
                    if (short(F), s, nmf) in EXCEPTIONS:
                        c.ok()
                        continue
                    if own_field(sp) and ("this", own_field(sp)) == sp and sp[1] not in E.signals:
                        continue
                    c.fail("%s.%s reads %s" % (short(F), s, nmf), "%s:%d" % (f["rel"], ln),
                           "%s computes %s from signal %s (in %s) but no declared dependency covers it: the value goes stale" % (F.split("<")[0], s, ".".join(sp), f["q"].split("::")[-1]))
    c.floor("entity classes", len(classes), 130)
    c.floor("computed signals", nsig, 195)
    c.floor("reads", c.obligations, 380)
    c.assumptions += ["signal semantics of dynamic-graph v4 (a TIME_DEPENDENT signal is recomputed when a dependency is newer)",
                      "a dependency added in a callback or attach operation counts as declared for the reads it precedes"]
