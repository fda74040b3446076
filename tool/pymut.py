#!/usr/bin/env python3
"""mutation survey of the Python helpers: pymut.py SPEC[,SPEC] FILE(relative to sot/core) [N]
prints the mutants no scenario reports"""
import ast, copy, os, random, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import pycontracts as pc, check

specs, rel = sys.argv[1].split(","), sys.argv[2]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 1000
src = open(os.path.join(pc.SRC, rel)).read()
tree = ast.parse(src)


def sites(tr):
    """yield (description, mutator(node)) in a deterministic order"""
    for n in ast.walk(tr):
        l = getattr(n, "lineno", 0)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield l, "bool", n, lambda n: setattr(n, "value", not n.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield l, "num+1", n, lambda n: setattr(n, "value", n.value + 1)
            yield l, "num-1", n, lambda n: setattr(n, "value", n.value - 1)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40:
            yield l, "str %r" % n.value, n, lambda n: setattr(n, "value", n.value + "x")
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitAnd: ast.BitOr}.get(type(n.op))
            if m:
                yield l, "binop", n, lambda n, m=m: setattr(n, "op", m())
            yield l, "swap", n, lambda n: (lambda a, b: (setattr(n, "left", b), setattr(n, "right", a)))(n.left, n.right)
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub):
                yield l, "neg", n, lambda n: setattr(n, "op", ast.UAdd())
            if isinstance(n.op, ast.Not):
                yield l, "not", n, lambda n: setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand))
        if isinstance(n, ast.Compare):
            m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(n.ops[0]))
            if m:
                yield l, "cmp", n, lambda n, m=m: n.ops.__setitem__(0, m())
        if isinstance(n, ast.BoolOp):
            yield l, "boolop", n, lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            yield l, "args", n, lambda n: n.args.reverse()
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute):
            yield l, "attr %s" % n.attr, n, lambda n: setattr(n, "attr", n.attr + "x")
        if isinstance(n, ast.Name) and n.id in ("cos", "sin"):
            yield l, n.id, n, lambda n: setattr(n, "id", {"cos": "sin", "sin": "cos"}[n.id])
        body = getattr(n, "body", None)
        if isinstance(body, list) and not isinstance(n, ast.Module):
            for i, s in enumerate(body):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.For, ast.Return, ast.While)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    yield s.lineno, "del", n, lambda n, i=i: n.body.__setitem__(i, ast.Pass())
                    if i + 1 < len(body):
                        yield s.lineno, "reorder", n, lambda n, i=i: (lambda a, b: (n.body.__setitem__(i, b), n.body.__setitem__(i + 1, a)))(n.body[i], n.body[i + 1])


def run():
    c = check.Check("X", "quick", 1)
    for k in [k for k in pc._loaded if not k[1]]:
        del pc._loaded[k]
    try:
        pc.run(c, specs)
    except Exception as e:
        return "error %r" % e
    return c


base = tempfile.mkdtemp()
shutil.copytree(pc.SRC, base + "/c")
pc.SRC = base + "/c"
pc.REPO = base
c0 = run()
und0 = c0.counts.get("scenarios_not_decided", 0), c0.counts.get("observables_not_decided", 0)
print("base", c0.counts, len(c0.violations))
ss = [(l, d, k) for k, (l, d, n, f) in enumerate(sites(tree))]
random.Random(1).shuffle(ss)
ss = ss[:N]
caught = miss = 0
for l, d, k in ss:
    tr = copy.deepcopy(tree)
    _, _, n, f = list(sites(tr))[k]
    try:
        f(n)
        txt = ast.unparse(ast.fix_missing_locations(tr))
    except Exception:
        continue
    if txt == ast.unparse(tree):
        continue
    open(base + "/c/" + rel, "w").write(txt)
    r = run()
    if isinstance(r, str):
        print(l, d, r)
    elif r.violations:
        caught += 1
    else:
        miss += 1
        und = r.counts.get("scenarios_not_decided", 0), r.counts.get("observables_not_decided", 0)
        print("MISS", l, d, src.splitlines()[l - 1].strip()[:90] if l else "", "" if und == und0 else "undecided %s" % (und,))
        sys.stdout.flush()
print("caught", caught, "missed", miss)
shutil.rmtree(base)
