#!/usr/bin/env python3
"""Writes harness/globals.txt: the global variables of all harness programs on the
current tree (see harness/lib/statics.h). Run after changing a harness."""
import os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import run
from registry import CHECKS
todo = {}
for c in CHECKS.values():
    for b in run.bins_of(c):
        todo[(b["src"], b["dim"], tuple(b.get("flags", [])), b.get("profile", "plain"), tuple(b.get("opt", [])))] = b
d = tempfile.mkdtemp(prefix="globals.")
names = set()
def one(x):
    i, b = x
    os.makedirs(f"{d}/{i}")
    exe, err = run.build(b, f"{d}/{i}")
    if not exe:
        sys.exit(err)
    out = subprocess.run([exe, "--statics"], stdout=subprocess.PIPE, text=True, env=run.launch_env(b), cwd=f"{d}/{i}").stdout
    os.unlink(exe)
    return set(out.split("\n"))
with cf.ThreadPoolExecutor(8) as ex:
    for s in ex.map(one, enumerate(todo.values())):
        names |= s
shutil.rmtree(d)
names.discard("")
open(V + "/harness/globals.txt", "w").write("\n".join(sorted(names)) + "\n")
print(len(todo), "programs,", len(names), "variables")
