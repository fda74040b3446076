#!/usr/bin/env python3
"""development aid: apply a textual change to a scratch copy of the tree and run checks on it.
usage: mut.py P13[,P05] FILE 'old' 'new' [FILE old new ...]   (or  mut.py P13 -p patch.diff)"""
import os, shutil, subprocess, sys, tempfile
props = sys.argv[1].split(",")
d = os.environ.get("MUT_DIR", "/tmp/mutrepo")      # fixed path: exports of unchanged units are reused
if os.path.exists(d):
    sys.exit(d + " exists (another run?)")
os.makedirs(d)
try:
    for s in ("src", "include", "tests", "python", "plugins"):
        if os.path.isdir("/repo/" + s):
            shutil.copytree("/repo/" + s, d + "/" + s)
    for f in os.listdir("/repo"):
        if os.path.isfile("/repo/" + f):
            shutil.copy("/repo/" + f, d)
    a = sys.argv[2:]
    if a[0] == "-p":
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d, os.path.abspath(a[1])], check=True, cwd="/")
    else:
        for i in range(0, len(a), 3):
            p = os.path.join(d, a[i])
            s = open(p).read()
            if s.count(a[i + 1]) < 1:
                sys.exit("pattern not found: " + a[i + 1])
            open(p, "w").write(s.replace(a[i + 1], a[i + 2], 1))
    env = dict(os.environ, SA_REPO=d, SA_CACHE=os.environ.get("MUT_CACHE", "/tmp/mutcache"), SA_EVIDENCE=d + "/evidence")
    for q in props:
        r = subprocess.run([sys.executable, "-m", "sa.check", q], cwd="/verif", env=env, capture_output=True, text=True)
        print(q, "exit", r.returncode)
        print((r.stdout + r.stderr)[:3000])
        try:
            import json
            ev = json.load(open(d + "/evidence/%s.json" % q))
            for n in [x for x in json.dumps(ev).split('"') if "not decided" in x]: print("  note:", n)
        except Exception as e: print(e)
finally:
    shutil.rmtree(d)
