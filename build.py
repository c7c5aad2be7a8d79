"""Builds the simulator from /repo's current working tree (object cache under /verif/build)."""
import concurrent.futures, fcntl, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/clang++"
COMMON = ["-std=c++20", "-g", "-fno-pie", "-I%s/include" % REPO]
# the code under test and the drivers that live with it: every memory access, atomic and function entry is instrumented
INST = COMMON + ["-O1", "-include", "string", "-include", "algorithm", "-include", "cstring", "-include", "list", "-include", "memory", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_EXTERN_TEMPLATE=0", '-DACQUIRE_ZARR_API_VERSION="0.0.1"',
                 "-I%s/src/streaming" % REPO, "-I%s/src/logger" % REPO, "-I%s/include" % SIM, "-w"]
PLAIN = COMMON + ["-O2", "-Wall", "-Wno-unused-function", "-I%s/include" % SIM]


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    out = []
    for d in ("src/streaming", "src/logger"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            out += [os.path.join(root, f) for f in sorted(files) if f.endswith((".cpp", ".cc", ".cxx"))]
    return out


def headers(dirs):
    out = []
    for d in dirs:
        for root, ds, files in os.walk(d):
            ds.sort()
            out += [os.path.join(root, f) for f in sorted(files) if f.endswith((".h", ".hh", ".hpp", ".inl", ".inc", ".ipp"))]
    return out


def build(log=sys.stderr):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(log)


def _build(log):
    rh = digest(*[p.encode() + read(p) for p in headers([REPO + "/include", REPO + "/src/streaming", REPO + "/src/logger"])])
    sh = digest(*[p.encode() + read(p) for p in headers([SIM])])
    jobs, objs = [], []
    for src in repo_sources():
        key = digest(src, read(src), rh, sh, repr(INST))
        jobs.append((src, INST, os.path.join(BUILD, "sut-%s-%s.o" % (os.path.basename(src), key))))
    for f in ("unit.cpp", "main.cpp", "gen.cpp", "harness.cpp", "model.cpp", "rt.cpp", "simfs.cpp", "sims3.cpp"):
        src = os.path.join(SIM, f)
        flags = INST if f == "unit.cpp" else PLAIN
        dep = rh if f in ("unit.cpp",) else digest(*[read(p) for p in headers([REPO + "/include"])])
        key = digest(src, read(src), dep, sh, repr(flags))
        jobs.append((src, flags, os.path.join(BUILD, "sim-%s-%s.o" % (f, key))))
    objs = [o for _, _, o in jobs]
    exe = os.path.join(BUILD, "simzarr-" + digest(*objs))
    if os.path.exists(exe):
        return exe

    def cc(j):
        src, flags, obj = j
        if os.path.exists(obj):
            return None
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            return "%s\n%s" % (src, r.stderr)
        os.rename(tmp, obj)
        return None

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(cc, jobs) if e]
    if errs:
        raise RuntimeError("compilation failed:\n" + "\n".join(errs))
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX, "-no-pie", "-rdynamic", "-o", tmp] + objs + ["-lblosc", "-ldl", "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("link failed:\n" + r.stderr)
    os.rename(tmp, exe)
    keep = set(objs) | {exe}
    old = sorted((os.path.getmtime(os.path.join(BUILD, f)), os.path.join(BUILD, f)) for f in os.listdir(BUILD) if f.endswith(".o") or f.startswith("simzarr-"))
    for _, p in old[:-400]:
        if p not in keep:
            os.unlink(p)
    return exe


if __name__ == "__main__":
    print(build())
