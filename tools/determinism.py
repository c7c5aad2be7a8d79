#!/usr/bin/env python3
"""determinism.py [RUNS]: runs the same seeds of every property twice - with 8 and with 3 workers, pinned and
unpinned - and compares the event and interleaving hashes of every run."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build
exe = build.build()
runs = int(sys.argv[1]) if len(sys.argv) > 1 else 400
props = sorted(json.load(open(os.path.join(build.VERIF, "budget.json"))))
tmp = tempfile.mkdtemp(prefix="verif-det-")
def go(prop, workers, pin):
    ps = []
    for w in range(workers):
        out = "%s/%d.json" % (tmp, w)
        n = (runs - w + workers - 1) // workers
        cmd = [exe, "batch", "--prop", prop, "--from", str(w + 7000), "--step", str(workers), "--max", str(n), "--out", out, "--keep-going"]
        ps.append((subprocess.Popen((["taskset", "-c", str(w % 8)] if pin else []) + cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out))
    ev, le = [], []
    for p, out in ps:
        p.wait()
        d = json.load(open(out))
        ev += d["events"]; le += d["leaves"]
    return sorted(set(ev)), sorted(set(le))
bad = 0
for p in props:
    a, b = go(p, 8, True), go(p, 3, False)
    same = a == b
    bad += not same
    print(p, len(a[0]), "distinct histories,", "identical" if same else "DIFFERENT", flush=True)
sys.exit(bad != 0)
