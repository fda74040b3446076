#!/usr/bin/env python3
"""development aid: token mutations of FILE(s), each checked with PROP in a scratch copy.
usage: mutate.py PROP[,PROP] N FILE[:a-b] ..."""
import os, random, re, shutil, subprocess, sys, concurrent.futures as cf, threading
props = sys.argv[1].split(","); N = int(sys.argv[2]); W = int(os.environ.get("W", "6"))
SUBS = [(r"(?<![<\-=!>])<(?![<=])(?= )", ["<=", ">"]), (r"<=", ["<", ">="]), (r"(?<![>\-=<])>(?![>=])(?= )", [">=", "<"]), (r">=", [">", "<="]), (r"==", ["!="]), (r"!=", ["=="]),
        (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["+"]), (r"(?<= )/(?= )", ["*"]),
        (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\+\+", ["--"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])[0-9](?![\w.\"])", ["7"]),
        (r"(?<=\()!(?=\w)", [""]), (r"\bbreak;", [""]), (r"\bcontinue;", [""])]
def cands(path, a, b):
    out = []
    inc = False
    for i, l in enumerate(open("/repo/" + path).read().split("\n")):
        s = l.strip()
        if inc:
            if "*/" in s: inc = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: inc = True
            continue
        if s.startswith(("//", "#", "*", "assert", "sotDEBUG", "sotERROR", "SEND_", "os <<", "template", "using", "docstring", "addCommand", '"')) or not (a <= i + 1 <= b):
            continue
        code = l.split("//")[0]
        for r, ns in SUBS:
            for m in re.finditer(r, code):
                if code[:m.start()].count('"') % 2: continue
                if re.search(r"(SignalPtr|Signal|vector|map|list|template|static_cast|std::pair)\s*<[^;]*$", code[:m.start()]) and m.group() in "<>": continue
                for n in ns:
                    out.append((path, i, m.start(), m.end(), n))
        if re.match(r"^[\w\[\]\(\)\.\->]+(\s*[+\-*/|&^]?=\s*|\().*;$", s) and not s.startswith("return") and not re.match(r"^\w+\s+\w+", s):
            out.append((path, i, 0, len(l), ""))
    return out
C = []
for f in sys.argv[3:]:
    m = re.match(r"(.*?)(?::(\d+)-(\d+))?$", f)
    C += cands(m.group(1), int(m.group(2) or 1), int(m.group(3) or 10**9))
random.Random(1).shuffle(C)
print(len(C), "candidates")
C = C[:N]
local = threading.local(); ids = iter(range(99)); lock = threading.Lock()
def setup():
    with lock: k = next(ids)
    d = "/tmp/mutw/%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for s in ("src", "include", "tests", "python", "plugins"):
        if os.path.isdir("/repo/" + s): shutil.copytree("/repo/" + s, d + "/" + s)
    for f in os.listdir("/repo"):
        if os.path.isfile("/repo/" + f): shutil.copy("/repo/" + f, d)
    local.d = d; local.c = "/tmp/mutc/%d" % k
def run(c):
    if not hasattr(local, "d"): setup()
    path, i, a, b, n = c
    p = os.path.join(local.d, path)
    src = open("/repo/" + path).read()
    L = src.split("\n"); old = L[i]
    L[i] = old[:a] + n + old[b:]
    open(p, "w").write("\n".join(L))
    env = dict(os.environ, SA_REPO=local.d, SA_CACHE=local.c, SA_EVIDENCE=local.d + "/evidence")
    res = []
    for q in props:
        r = subprocess.run([sys.executable, "-m", "sa.check", q], cwd="/verif", env=env, capture_output=True, text=True)
        o = r.stdout + r.stderr
        res.append((r.returncode, [x for x in o.split("\n") if "rror" in x][-1:] if r.returncode not in (0, 1) or "error" in o else ""))
    open(p, "w").write(src)
    return c, old.strip(), L[i].strip(), res
caught = 0; tot = 0
with cf.ThreadPoolExecutor(W) as ex:
    for c, o, n, res in ex.map(run, C):
        tot += 1
        if any(r[0] == 1 for r in res): caught += 1
        else: print("MISS %s:%d  %s   =>   %s   %s" % (c[0], c[1] + 1, o[:110], n[:110], [(r[0], r[1]) for r in res if r[0] or r[1]]), flush=True)
print("caught", caught, "of", tot)
