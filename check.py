#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Builds the simulator from /repo's working tree and searches seeded simulated executions of the
library for a violation of one property.  Exit 0: none found.  Exit 1: a violation, with the line
"VIOLATION property=<id> replay=<path>".  Any other exit: the check itself failed.

  VERIF_SEED       every random choice derives from it (default 1)
  VERIF_WORKERS    number of worker processes (default: available CPUs, at most 8)
"""
import json, os, re, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as builder

OK, VIOL, INTERNAL, HANG = 1, 2, 3, 4
# seeds of a quick run, and what to add per property in a thorough one
QUICK = json.load(open(os.path.join(VERIF, "budget.json")))
QUICK_CAP_S, THOROUGH_S = 150.0, 1500.0
WATCHDOG = "40"

REAL = ["acquire.zarr.cpp (C API)", "zarr.stream.cpp", "array.writer.cpp", "zarrv2.array.writer.cpp", "zarrv3.array.writer.cpp", "zarr.dimension.cpp", "zarr.common.cpp",
        "blosc.compression.params.cpp", "thread.pool.cpp", "sink.cpp", "sink.creator.cpp", "file.sink.cpp", "s3.sink.cpp", "s3.connection.cpp", "vectorized.file.writer.cpp",
        "logger.cpp", "libstdc++ (thread, mutex, condition_variable, latch, filesystem, fstream, iostream)", "nlohmann/json", "c-blosc"]
STUBS = ["kernel file system -> in-memory file system (simfs) with disk-full, error and short-write injection", "pthread scheduling, futex, condition variables -> seeded cooperative scheduler",
         "clock and timers -> simulated clock", "heap -> tracked allocator with poisoning", "minio-cpp client and S3 service -> in-memory object store (sims3)", "stdout/stderr -> captured"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    log("check error:", msg)
    sys.exit(3)


class Serve:
    """One driver process answering replay requests."""

    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def ask(self, case, decisions=False):
        for attempt in (0, 1):
            if self.p is None:
                self.p = subprocess.Popen([self.exe, "serve", "--watchdog", WATCHDOG], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            try:
                self.p.stdin.write(json.dumps(dict(case, decisions=decisions)) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, ValueError):
                pass
            self.close()
        die("the driver does not answer")

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


def fails_like(r, cls):
    return r["status"] in (VIOL, HANG) and r["cls"] == cls


def ddmin(items, test, deadline):
    """Smallest subset found for which test() still holds."""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        if test([]):
            return []
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if cand and test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def shrink_spec(case, test, deadline):
    """Fewer and smaller operations; candidates keep the settings valid."""
    def attempt(mod):
        nonlocal case
        c = json.loads(json.dumps(case))
        if mod(c["spec"]) is False:
            return False
        if c["spec"] == case["spec"]:
            return False
        if test(c):
            case = c
            return True
        return False

    if case["spec"].get("kind") == "sequence":
        i = 0
        while time.time() < deadline and i + 1 < len(case["spec"]["streams"]):
            def fewer(spec, i=i):
                del spec["streams"][i]
            if not attempt(fewer):
                i += 1
    if case["spec"].get("kind") == "braid":
        def one_thread(spec):
            spec["steps"] = [[q[0], 0] for q in spec["steps"]]
        attempt(one_thread)
        i = 0
        while time.time() < deadline and len(case["spec"]["streams"]) > 1 and i < len(case["spec"]["streams"]):
            def without(spec, i=i):
                del spec["streams"][i]
                spec["steps"] = [[q[0] - (q[0] > i), q[1]] for q in spec["steps"] if q[0] != i]
                v = spec.get("victim", -1)
                if v == i:
                    return False
                spec["victim"] = v - (v > i)
            if not attempt(without):
                i += 1
        for chunk in (64, 16, 4, 1):
            i = 0
            while time.time() < deadline and i < len(case["spec"]["steps"]):
                def fewer_steps(spec, i=i, chunk=chunk):
                    del spec["steps"][i:i + chunk]
                if not attempt(fewer_steps):
                    i += chunk
    for s in range(len(case["spec"].get("streams", []))):
        for chunk in (32, 16, 8, 4, 2, 1):
            i = 0
            while time.time() < deadline and i < len(case["spec"]["streams"][s]["calls"]):
                def drop(spec, i=i, chunk=chunk):
                    del spec["streams"][s]["calls"][i:i + chunk]
                if not attempt(drop):
                    i += chunk
        def no_custom(spec):
            spec["streams"][s]["custom"] = None
        def no_comp(spec):
            spec["streams"][s]["comp"] = None
        if case["spec"].get("kind") == "stream":
            attempt(no_custom)
            attempt(no_comp)
    for k in list(case["spec"].get("pre") or {}):
        if time.time() < deadline:
            def unpre(spec, k=k):
                spec["pre"].pop(k)
            attempt(unpre)
    x = case["spec"].get("x") or {}
    for k in ("sinks", "threads"):
        if isinstance(x.get(k), list) and case["spec"]["kind"] in ("s3sink", "vfw"):
            i = 0
            while time.time() < deadline and len(case["spec"]["x"][k]) > 1 and i < len(case["spec"]["x"][k]):
                def dropx(spec, i=i, k=k):
                    del spec["x"][k][i]
                if not attempt(dropx):
                    i += 1
    return case


def minimise(exe, case, cls, budget):
    """case: {spec, dev, frec} that fails with class cls."""
    sv = Serve(exe)
    deadline = time.time() + budget
    tries = 0

    def test(c):
        nonlocal tries
        tries += 1
        return fails_like(sv.ask(c), cls)

    # a plain schedule first: then only the operations and the faults matter
    plain = dict(case, dev=[])
    if case["dev"] and test(plain):
        case = plain
    case = dict(case, frec=ddmin(case["frec"], lambda f: test(dict(case, frec=f)), min(deadline, time.time() + budget * 0.3)))
    if case["dev"] == []:
        case = shrink_spec(case, test, min(deadline, time.time() + budget * 0.5))
        case = dict(case, frec=ddmin(case["frec"], lambda f: test(dict(case, frec=f)), deadline))
    else:
        case = dict(case, dev=ddmin(case["dev"], lambda d: test(dict(case, dev=d)), min(deadline, time.time() + budget * 0.4)))
        case = shrink_spec(case, test, min(deadline, time.time() + budget * 0.2))
        case = dict(case, dev=ddmin(case["dev"], lambda d: test(dict(case, dev=d)), deadline))
    sv.close()
    return case, tries


def symbolize(exe, msg):
    addrs = sorted(set(re.findall(r"@(0x[0-9a-f]+)", msg)))
    if not addrs:
        return msg
    try:
        out = subprocess.run(["addr2line", "-Cfpe", exe] + addrs, capture_output=True, text=True, timeout=60).stdout.splitlines()
    except (OSError, subprocess.TimeoutExpired):
        return msg
    m = dict(zip(addrs, out))
    return re.sub(r"@(0x[0-9a-f]+)", lambda k: "\n      at " + m.get(k.group(1), k.group(0))[:240], msg)


def replay_once(exe, path):
    r = subprocess.run([exe, "replay", path, "--watchdog", WATCHDOG], capture_output=True, text=True)
    try:
        return json.loads(r.stdout)
    except ValueError:
        return {"status": INTERNAL, "cls": "no result", "msg": r.stderr[-500:], "event_hash": ""}


def confirm_and_report(exe, prop, seed_cls, first, budget):
    """Gate, minimise, and write the replay file; returns its path, or None if the violation does not reproduce."""
    cls = first["cls"]
    spec = first["spec"]
    sv = Serve(exe)
    a = sv.ask({"spec": spec}, decisions=True)
    sv.close()
    sv = Serve(exe)
    b = sv.ask({"spec": spec}, decisions=True)
    if not (fails_like(a, cls) and fails_like(b, cls)):
        log("seed %s: does not fail the same way when run again: %s / %s / %s" % (spec["seed"], cls, a["cls"], b["cls"]))
        return None
    if a["event_hash"] != b["event_hash"] and a["status"] != HANG:
        log("seed %s: two runs have different histories" % spec["seed"])
        return None
    case = {"spec": spec}  # the seed alone decides the run
    minimised = False
    if not a["overflow"] and a["status"] == VIOL:
        full = {"spec": spec, "dev": a["dev"], "frec": a["frec"]}
        if fails_like(sv.ask(full), cls):
            log("minimising: %d scheduling decisions, %d faults" % (len(a["dev"]), len(a["frec"])))
            case, tries = minimise(exe, full, cls, budget)
            minimised = True
            log("minimised to %d scheduling decisions, %d faults in %d runs" % (len(case["dev"]), len(case["frec"]), tries))
    final = sv.ask(case)
    sv.close()
    out = dict(case)
    os.makedirs(os.path.join(VERIF, "work", "replay"), exist_ok=True)
    path = os.path.join(VERIF, "work", "replay", "%s-%s-%d.json" % (prop, re.sub(r"[^a-z0-9]+", "-", cls.lower()), spec["seed"]))
    out.update(property=prop, seed=spec["seed"], cls=cls, message=symbolize(exe, final["msg"]), event_hash=final["event_hash"], minimised=minimised,
               how_to_replay="python3 /verif/check.py replay FILE")
    if "frec" in case:
        out["faults"] = ["%s, occurrence %d, code %d, arg %d" % (FAULTS[f[0]] if f[0] < len(FAULTS) else f[0], f[1], f[2], f[3]) for f in case["frec"]]
    with open(path, "w") as f:
        json.dump(out, f, indent=1)
    # fresh processes: the same failure and the same history
    r1, r2 = replay_once(exe, path), replay_once(exe, path)
    if not (fails_like(r1, cls) and fails_like(r2, cls)) or (final["status"] == VIOL and not (r1["event_hash"] == r2["event_hash"] == final["event_hash"])):
        log("the replay file does not reproduce in a fresh process: %s / %s" % (r1["cls"], r2["cls"]))
        if "dev" in case:
            out = {k: v for k, v in out.items() if k not in ("dev", "frec", "faults")}
            out["spec"] = spec
            out["minimised"] = False
            out["event_hash"] = a["event_hash"]
            with open(path, "w") as f:
                json.dump(out, f, indent=1)
            r1 = replay_once(exe, path)
            if fails_like(r1, cls) and r1["event_hash"] == a["event_hash"]:
                return path, out
        return None
    return path, out


FAULTS = []


def load_fault_names(exe):
    global FAULTS
    FAULTS = json.loads(subprocess.run([exe, "names"], capture_output=True, text=True, check=True).stdout)["faults"]


def search(exe, prop, seed, workers, runs, cap_s, thorough):
    """Runs the seeds base .. base + runs - 1 (or as many as fit into cap_s) on all workers."""
    base = (seed % (1 << 31)) * (1 << 24) + 1
    tmp = tempfile.mkdtemp(prefix="verif-check-")
    cpus = sorted(os.sched_getaffinity(0))
    procs = []
    for w in range(workers):
        out = os.path.join(tmp, "%d.json" % w)
        n = (runs - w + workers - 1) // workers if runs else 1 << 40
        cpu = cpus[w % len(cpus)]
        procs.append([subprocess.Popen([exe, "batch", "--prop", prop, "--from", str(base + w), "--step", str(workers), "--max", str(n), "--time", str(cap_s), "--out", out, "--watchdog", WATCHDOG],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=lambda cpu=cpu: os.sched_setaffinity(0, {cpu})), out])
    # once one worker has found a violation the others get a little longer: the smallest seed is reported
    found_at = None
    while any(p.poll() is None for p, _ in procs):
        time.sleep(0.05)
        if found_at is None and any(p.poll() not in (None, 0) for p, _ in procs):
            found_at = time.time()
        if found_at is not None and time.time() - found_at > 5:
            for p, _ in procs:
                if p.poll() is None:
                    os.killpg(p.pid, signal.SIGKILL)
            for p, _ in procs:
                p.wait()
    res = []
    for p, out in procs:
        try:
            with open(out) as f:
                res.append(json.load(f))
        except (OSError, ValueError):
            if found_at is None:
                die("a worker ended with status %s and no result" % p.returncode)
        if os.path.exists(out):
            os.unlink(out)
    os.rmdir(tmp)
    return base, res


def known_findings(prop):
    """Lines of known_findings.txt: known: property=<id> replay=<file> class=<cls> <what fails>"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) replay=(\S+) class=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((os.path.join(VERIF, m.group(2)), m.group(3), m.group(4)))
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, len(os.sched_getaffinity(0)))
    thorough = tier == "thorough"
    print("property=%s tier=%s VERIF_SEED=%d workers=%d" % (prop, tier, seed, workers), flush=True)
    try:
        exe = builder.build()
    except RuntimeError as e:
        die(str(e)[-3000:])
    build_s = time.time() - t0
    load_fault_names(exe)

    known_hit = 0
    for path, cls, what in known_findings(prop):
        r = replay_once(exe, path)
        if fails_like(r, cls):
            known_hit += 1
            print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)

    runs = 0 if thorough else QUICK[prop]
    cap = float(os.environ.get("VERIF_TIME", "0")) or (THOROUGH_S if thorough else QUICK_CAP_S)
    t1 = time.time()
    base, res = search(exe, prop, seed, workers, runs, cap, thorough)
    search_s = time.time() - t1
    firsts = sorted((r["first"] for r in res if "first" in r), key=lambda f: f["seed"])

    # ---- evidence
    def total(group):
        out = {}
        for r in res:
            for k, v in r[group].items():
                out[k] = out.get(k, 0) + v
        return out
    counters, faults, fruns, kinds = total("counters"), total("faults"), total("fault_runs"), total("kinds")
    events, leaves = set(), set()
    edges = 0
    bits = [0] * 1024
    for r in res:
        events.update(r["events"])
        leaves.update(r["leaves"])
        bits = [x | y for x, y in zip(bits, r["edges"])]
    edges = sum(bin(x).count("1") for x in bits)
    n = sum(r["runs"] for r in res)
    samples = [s for r in res for s in r["samples"][:1]][:4]
    for s in samples:
        s.pop("overflow", None)
        s["counters"] = {k: v for k, v in s["counters"].items() if v}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(events),
            "rule": "One case is one simulated execution; its seed alone generates the settings, the append calls, the fault plan and every scheduling decision. "
                    "It is non-trivial if at least one context switch and at least one file-system, S3, log or synchronisation operation happened; "
                    "two cases are distinct if the hashes of their complete event histories (operations, arguments, results, faults) differ.",
            "samples": samples,
            "nontrivial_runs": sum(r["nontrivial"] for r in res),
            "distinct_interleavings": len(leaves),
            "distinct_interleavings_measure": "hash of the sequence of threads switched to over the whole run",
            "preemption_pairs_reached": edges,
            "preemption_pairs_measure": "bits set in a 65536-bit map indexed by (code position switched away from, code position switched to), function granularity",
            "workloads": kinds,
            "faults_injected": {k: v for k, v in faults.items() if v},
            "runs_with_fault": {k: v for k, v in fruns.items() if v},
            "simulated_time_s": counters.get("simulated_us", 0) / 1e6,
            "counters": counters,
            "seeds": {"first": base, "runs": n, "per_hour": int(n / max(search_s, 1e-3) * 3600), "search_s": round(search_s, 2), "build_s": round(build_s, 2), "workers": workers},
            "components_real": REAL,
            "components_stubbed": STUBS,
            "known_findings_confirmed": known_hit,
        },
        "assumptions": [
            "simulated executions are sequentially consistent and switch threads only at the instrumented points (every sync operation, system call, atomic and, in a share of the runs, every memory access); data races are found by happens-before analysis instead of by their weak-memory effects",
            "allocation failures are injected only for blocks of at least alloc_min bytes (a parameter of the run)",
            "the object store and the file system behave as their stubs model them (DESIGN.md)",
        ],
        "wall_s": 0.0,
        "violations": len(firsts),
    }

    def write_evidence():
        ev["wall_s"] = round(time.time() - t0, 2)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)

    internal = [f for f in firsts if f["status"] == INTERNAL]
    firsts = [f for f in firsts if f["status"] in (VIOL, HANG)]
    for f in internal:
        log("seed %d: internal error of the simulator: %s" % (f["seed"], f["msg"]))
    print("%d simulated runs in %.1f s (%d distinct, %d interleavings), %d faults injected" % (n, search_s, len(events), len(leaves), sum(faults.values())), flush=True)
    if n == 0:
        write_evidence()
        die("nothing was explored")
    bad = None
    for f in firsts[:4]:
        bad = confirm_and_report(exe, prop, f["cls"], f, 240 if thorough else 45)
        if bad:
            break
    if bad:
        path, out = bad
        ev["coverage"]["violation"] = {"class": out["cls"], "seed": out["seed"], "message": out["message"][:2000], "replay": path}
        write_evidence()
        print("class: %s\nseed: %d\n%s" % (out["cls"], out["seed"], out["message"]))
        for x in out.get("faults", []):
            print("fault:", x)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    write_evidence()
    if firsts or internal:
        die("a run failed but did not reproduce" if firsts else "internal errors")
    return 0


def replay(path):
    exe = builder.build()
    r = replay_once(exe, path)
    r["msg"] = symbolize(exe, r["msg"])
    print(json.dumps({k: r[k] for k in ("status", "cls", "event_hash")}), "\n" + r["msg"])
    want = json.load(open(path))
    if fails_like(r, want["cls"]):
        print("VIOLATION property=%s replay=%s" % (want["property"], path))
        return 1
    return 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 3 or sys.argv[2] not in ("quick", "thorough") or sys.argv[1] not in QUICK:
        log(__doc__)
        sys.exit(3)
    sys.exit(check(sys.argv[1], sys.argv[2]))
