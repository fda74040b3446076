#!/usr/bin/env python3
"""development aid: record a planted bug.
usage: plant.py ID PROP NEEDS BREAKS FILE old new [FILE old new ...]
writes seeded/ID/{patch.diff,meta.json}; demo.sh is written by hand beside them"""
import json, os, subprocess, sys, tempfile, shutil
i, prop, needs, breaks = sys.argv[1:5]
a = sys.argv[5:]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="plant")
try:
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for k in range(0, len(a), 3):
        p = w + "/r/" + a[k]
        s = open(p, newline="").read()
        o, n = a[k + 1], a[k + 2]
        if "\r\n" in s:
            o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
        if s.count(o) != 1:
            sys.exit("%d occurrences of %r in %s" % (s.count(o), o, a[k]))
        open(p, "w", newline="").write(s.replace(o, n))
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], check=True, capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    # changed lines must be the original repository's
    for f in {a[k] for k in range(0, len(a), 3)}:
        bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--line-porcelain", f], capture_output=True, text=True).stdout
finally:
    shutil.rmtree(w)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
print(open(d + "/patch.diff").read())
