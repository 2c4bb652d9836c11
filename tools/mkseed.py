#!/usr/bin/env python3
"""mkseed.py NAME: development helper. Takes tools/seeds.py's entry NAME (edits of a scratch copy
of /repo + demonstration) and writes /verif/seeded/NAME."""
import sys, os, json, shutil, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import importlib
seeds = importlib.import_module("seeds").SEEDS
WT = "/tmp/bugs/wt"
def make(name):
    b = seeds[name]
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
    for path, old, new in b["edits"]:
        p = os.path.join(WT, path); s = open(p).read()
        cnt = b.get("count", {}).get(path, 1)
        assert s.count(old) == cnt, (name, path, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", WT, "diff"]).decode()
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
    # every removed line must come from the original repository
    import re
    cur = None
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"):
            who = subprocess.check_output(["git", "-C", WT, "blame", "-l", "-s", "-L", "%d,%d" % (n, n), "HEAD", "--", cur]).decode()
            if not who.lstrip("^").startswith("784046c"): print("  WARNING not original:", name, cur, n, who[:10])
            n += 1
        elif l.startswith(" "): n += 1
    d = os.path.join(HERE, "..", "seeded", name); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.copytree(os.path.join(HERE, "seedkit", "solver"), os.path.join(d, "solver"))
    sh = open(os.path.join(HERE, "seedkit", "demo.sh")).read()
    if b.get("env"): sh = sh.replace("set -eu\n", "set -eu\n" + b["env"] + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(sh); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write('#include "solver/demo.hpp"\n' + b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
for n in (sys.argv[1:] or list(seeds)): make(n); print(n)
