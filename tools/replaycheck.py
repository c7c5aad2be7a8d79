#!/usr/bin/env python3
"""replaycheck.py [N [PROP...]]: for N seeds of every property, replays the recorded decisions (schedule and faults)
instead of the random generators and compares the histories."""
import json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build, check, subprocess
exe = build.build()
n = int(sys.argv[1]) if len(sys.argv) > 1 else 50
props = sys.argv[2:] or sorted(json.load(open(os.path.join(build.VERIF, "budget.json"))))
def one(p):
    sv = check.Serve(exe)
    bad, over, devs = [], 0, 0
    for s in range(9000, 9000 + n):
        spec = json.loads(subprocess.run([exe, "gen", p, str(s)], capture_output=True, text=True).stdout)
        a = sv.ask({"spec": spec}, decisions=True)
        if a["overflow"]:
            over += 1
            continue
        devs += len(a["dev"])
        b = sv.ask({"spec": spec, "dev": a["dev"], "frec": a["frec"]})
        if a["event_hash"] != b["event_hash"] or a["ileave_hash"] != b["ileave_hash"] or a["status"] != b["status"]:
            bad.append((s, a["status"], b["status"], b["cls"]))
    sv.close()
    return p, bad, over, devs
rc = 0
with ThreadPoolExecutor(8) as ex:
    for p, bad, over, devs in ex.map(one, props):
        print(p, n, "seeds,", over, "too long to record,", devs, "decisions,", "DIFFERENT: %s" % bad[:10] if bad else "identical", flush=True)
        rc |= bool(bad)
sys.exit(rc)
