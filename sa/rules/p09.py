"""P09: the stack of tasks."""
from .. import contracts
from ..model import AnalysisError

BACKWARD = {"rbegin", "rend", "crbegin", "crend", "reverse", "sort"}


def nodes(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def isstack(e):
    return isinstance(e, dict) and e.get("k") == "mem" and e.get("q", "").endswith("Sot::stack")


def run(c):
    P = c.P
    c.rule("every operation of the task stack computes its reference semantics (spec/p09.cpp)")
    contracts.run(c, ["p09"], floor=11)
    c.rule("the solver reads the stack from its first task on: it neither walks it backwards nor reorders it")
    solver = [f for f in P.funcs.values() if f.get("q", "").endswith("::Sot::computeControlLaw") and f.get("body")]
    if not solver:
        raise AnalysisError("Sot::computeControlLaw not found")
    seen, todo = set(), list(solver)
    walks = 0
    while todo:
        f = todo.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        c.count("solver functions")
        for n in nodes(f["body"]):
            u = (n.get("f") or {}).get("u") if isinstance(n.get("f"), dict) else None
            g = P.funcs.get(u)
            if g is not None and g.get("body") and g.get("file") == f.get("file"):
                todo.append(g)
            if n.get("k") == "mcall" and isstack(n.get("o")):
                nm = n["f"]["q"].split("::")[-1]
                walks += nm in ("begin", "cbegin")
                if nm in BACKWARD:
                    c.fail("walk of the stack", "%s:%d" % (f.get("rel", f.get("file")), n.get("l", f.get("l", 0))), "%s uses stack.%s(): tasks are not taken from the highest to the lowest priority" % (f["q"].split("::", 2)[-1], nm))
            if n.get("k") == "mem" and isstack(n):
                walks += 1
            if n.get("k") == "ocall" and n.get("op") == "--" and "_List_" in (n["f"].get("cls") or "") and "TaskAbstract" in n["f"].get("q", ""):
                c.fail("walk of the stack", "%s:%d" % (f.get("rel", f.get("file")), n.get("l", f.get("l", 0))), "%s steps backwards in the list of tasks" % f["q"].split("::", 2)[-1])
    c.floor("reads of the stack in the solver", walks, 2)
    if not any(v[1] == "walk of the stack" for v in c.violations):
        c.ok("the solver walks the stack forwards")
