#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> [--tier quick|thorough] [--replay FILE] [--cfg NAME]

Builds the library from /repo/src's current working tree (instrumented as the property needs), builds the harness,
runs every configuration of it (sharded over the processors), writes evidence/<ID>.json and prints the verdict."""
import sys, os, re, json, time, hashlib, subprocess, shutil, tempfile, glob, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
SRC = REPO + "/src"
BUILD = V + "/build"
NCPU = 8
sys.path.insert(0, V)
from props import PROPS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def lib_sources():
    """the sources of libsphde from Makefile.am (so that an added file is picked up), plus the two time libraries"""
    t = open(SRC + "/Makefile.am").read().replace("\\\n", " ")
    m = re.search(r"^libsphde_la_SOURCES\s*=(.*)$", t, re.M)
    l = m.group(1).split()
    for n in ("libsphgtod", "libsphgettime"):
        m = re.search(r"^%s_la_SOURCES\s*=(.*)$" % n, t, re.M)
        l += m.group(1).split() if m else []
    return [x for x in l if x.endswith((".c", ".cpp"))]

REDEF_COMMON = {"shmget": "mc_shmget", "shmat": "mc_shmat", "sem_init": "mc_sem_init", "sem_destroy": "mc_sem_destroy",
    "sem_post": "mc_sem_post", "sem_wait": "mc_sem_wait", "sem_trywait": "mc_sem_trywait", "sched_yield": "mc_sched_yield",
    "clock_gettime": "mc_clock_gettime", "gettimeofday": "mc_gettimeofday",
    "open": "mc_open", "close": "mc_close", "ftruncate": "mc_ftruncate", "stat": "mc_stat",
    "unlink": "mc_unlink", "remove": "mc_remove", "mmap": "mc_mmap", "munmap": "mc_munmap"}
REDEF_PROC = {k: "pr_" + k for k in ("open", "close", "ftruncate", "stat", "fstat", "access", "remove", "unlink", "link", "rename", "mmap", "munmap", "msync", "madvise",
    "shmget", "shmat", "shmdt", "shmctl", "sem_init", "sem_destroy", "sem_post", "sem_wait", "sem_trywait", "sem_timedwait", "flock", "lockf", "fcntl", "usleep", "nanosleep", "sleep", "sched_yield")}
REDEF_MEM = {k: "mc_" + k for k in ("memcpy", "memmove", "memset", "memcmp", "strlen", "strcmp", "strcpy", "strncpy")}
CF = {
  # production-like code, deterministic environment
  "plain": dict(flags="-O2 -g -fno-pie -DSPH_MC_HOOKS -fno-zero-initialized-in-bss", redef=True, mem=False, hooks="plain"),
  # every shared access is a scheduling point
  "mc": dict(flags="-O1 -g -fno-pie -fsanitize=thread -fno-builtin -DSPH_MC_HOOKS -fno-zero-initialized-in-bss", redef=True, mem=True, hooks="mc"),
  # real processes and real system calls, which can be held, failed, or be the last one
  "real": dict(flags="-O2 -g -fno-pie -U_FORTIFY_SOURCE", redef=False, mem=False, hooks=None),
}

def cc(src):
    return "g++ -std=gnu++17" if src.endswith(".cpp") else "gcc -std=gnu11"

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def all_src():
    return [p for e in ("*.c", "*.cpp", "*.h") for p in glob.glob(SRC + "/" + e)] + [SRC + "/Makefile.am"]

def build_lib(variant):
    c = CF[variant]
    srcs = lib_sources()
    key = digest(all_src(), variant + c["flags"] + open(V + "/check.py").read())
    out = "%s/lib-%s-%s" % (BUILD, variant, key)
    if os.path.exists(out + "/done"):
        return out
    for old in glob.glob("%s/lib-%s-*" % (BUILD, variant)):
        shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    redef = tmp + "/redef.txt"
    with open(redef, "w") as f:
        m = dict(REDEF_COMMON) if c["redef"] else {}
        if c["mem"]: m.update(REDEF_MEM)
        for k, v in m.items(): f.write("%s %s\n" % (k, v))
        if variant == "real": f.write("".join("%s %s\n" % x for x in REDEF_PROC.items()))
    redef2 = tmp + "/redef2.txt"          # for objects other than the ones that define these
    with open(redef2, "w") as f:
        if c["redef"]: f.write("sphdeGetTID mc_gettid_shim\n")
    def one(s):
        o = "%s/%s.o" % (tmp, s.replace(".", "_"))
        # static variables keep their own section so that they can be snapshotted
        r = sh("%s %s -w -D__SASSIM__ -I%s -c %s/%s -o %s" % (cc(s), c["flags"], SRC, SRC, s, o), shell=True)
        if r.returncode: return "compiling %s failed:\n%s" % (s, r.stdout)
        if variant == "real":
            r = sh(["objcopy", "--redefine-syms=" + redef, o])
            if r.returncode: return "objcopy %s failed:\n%s" % (s, r.stdout)
        if c["redef"]:
            args = ["objcopy", "--rename-section", ".data=mcdata", "--rename-section", ".bss=mcbss,alloc,load,data,contents",
                    "--redefine-syms=" + redef]
            if s not in ("sphthread.c", "sphtimer.c"): args.append("--redefine-syms=" + redef2)
            if s != "saslock.cpp": args += ["--redefine-sym", "SASLock=mc_SASLock", "--redefine-sym", "SASUnlock=mc_SASUnlock"]
            if s != "sassim.cpp":
                for k in ("malloc", "free", "calloc", "realloc", "strdup"): args += ["--redefine-sym", "%s=mc_%s" % (k, k)]
            r = sh(args + [o])
            if r.returncode: return "objcopy %s failed:\n%s" % (s, r.stdout)
        return None
    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, srcs) if e]
    if errs:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError("\n".join(errs))
    open(tmp + "/done", "w").write("ok")
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

class BuildError(Exception): pass

def build_harness(p):
    variant = p["variant"]; c = CF[variant]
    lib = build_lib(variant)
    mc = glob.glob(V + "/mc/*") + glob.glob(V + "/harness/*")
    key = digest(mc, lib + json.dumps(p["harness"]) + open(V + "/check.py").read())
    exe = "%s/%s-%s-%s" % (BUILD, p["harness"].replace(".cpp", ""), variant, key)
    if os.path.exists(exe): return exe
    for old in glob.glob("%s/%s-%s-*" % (BUILD, p["harness"].replace(".cpp", ""), variant)):
        try: os.unlink(old)
        except OSError: pass
    tmp = tempfile.mkdtemp(dir=BUILD)
    inc = "-I%s -I%s/mc -I%s/harness -D__SASSIM__" % (SRC, V, V)
    hf = "-std=gnu++17 -O1 -g -w -fno-pie -pthread " + ("-DSPH_MC_HOOKS " if c["hooks"] else "")
    jobs = []
    # the harness calls inline functions of the library's headers, so it is instrumented like the library
    jobs.append(("g++ %s %s %s -c %s/harness/%s -o %s/h.o" % (hf, "-fsanitize=thread -fno-builtin" if variant == "mc" else "", inc, V, p["harness"], tmp), "h.o"))
    files = ["core.cpp", "sas.cpp"]
    files += {"plain": ["shim.cpp", "conc_stub.cpp", "hook_stub.cpp"], "mc": ["shim.cpp", "conc.cpp"], "real": ["conc_stub.cpp"]}[variant]
    for f in files:
        jobs.append(("g++ -O2 %s %s -c %s/mc/%s -o %s/%s.o" % (hf, inc, V, f, tmp, f), f + ".o"))
    for f in p.get("extra", []):
        jobs.append(("%s -O2 -g -w -fno-pie %s -c %s/harness/%s -o %s/%s.o" % (cc(f), inc, V, f, tmp, f), f + ".o"))
    def one(j):
        r = sh(j[0], shell=True)
        return r.stdout if r.returncode else None
    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if not errs and variant != "real":
        red = tmp + "/hr.txt"
        with open(red, "w") as f:
            f.write("sphdeGetTID mc_gettid_shim\nsched_yield mc_sched_yield\nclock_gettime mc_clock_gettime\ngettimeofday mc_gettimeofday\n")
        r = sh(["objcopy", "--redefine-syms=" + red, tmp + "/h.o"])
        if r.returncode: errs.append(r.stdout)
    if not errs:
        r = sh("g++ -no-pie -pthread -o %s/exe %s %s/*.o -lrt -ldl" % (tmp, " ".join(tmp + "/" + j[1] for j in jobs), lib), shell=True)
        if r.returncode: errs.append(r.stdout)
    if errs:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError("\n".join(errs))
    os.rename(tmp + "/exe", exe); shutil.rmtree(tmp, ignore_errors=True)
    return exe

def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK): return d
    return "/tmp"

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        for v in CF: build_lib(v)
        print("libraries built"); return 0
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); replay = None; only = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--replay": replay = a[i + 1]; i += 2
        elif a[i] == "--cfg": only = a[i + 1]; i += 2
        else: print("bad argument", a[i]); return 3
    p = PROPS[pid]; t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(BUILD, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    parts = p.get("parts") or [p]
    try:
        # a part is one harness/variant; most properties have one
        exes = [build_harness(q) for q in parts]
    except BuildError as e:
        print("BUILD FAILED\n" + str(e)[-3000:]); return 3
    tb = time.time() - t0
    root = tempfile.mkdtemp(prefix="mc%s." % pid, dir=scratch_root())
    env = dict(os.environ, MC_KNOWN=V + "/known-findings.txt", LC_ALL="C")
    env.pop("SASSTOREPATH", None)
    budget = int(os.environ.get("MC_BUDGET", 0)) or p.get("budget", (240, 3000))[tier == "thorough"]
    hard = p.get("hard", (800, 4000))[tier == "thorough"]
    n = [0]
    def run(exe, cfg, shard, nsh, rep=None):
        n[0] += 1; w = "%s/%d" % (root, n[0]); os.mkdir(w)
        rp = w + "/replay"
        cmd = [exe, "--prop", pid, "--cfg", cfg, "--shard", "%d/%d" % (shard, nsh), "--out", w + "/out", "--replay-out", rp,
               "--scratch", w, "--budget", str(budget)]
        if tier == "thorough": cmd.append("--thorough")
        if rep: cmd += ["--replay", rep]
        t = time.time()
        with open(w + "/log", "w") as lf:
            pr = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, start_new_session=True, stdin=subprocess.DEVNULL)
            try: rc = pr.wait(timeout=hard)
            except subprocess.TimeoutExpired: rc = -99
            try: os.killpg(pr.pid, signal.SIGKILL)
            except OSError: pass
            pr.wait()
        log = open(w + "/log", errors="replace").read()
        out = None
        try: out = json.load(open(w + "/out"))
        except Exception: pass
        r = dict(cfg=cfg, shard=shard, rc=rc, log=log, out=out, wall=time.time() - t, exe=exe,
                 replay=open(rp, errors="replace").read() if os.path.exists(rp) else None)
        shutil.rmtree(w, ignore_errors=True)
        return r
    try:
        if replay:
            txt = open(replay, errors="replace").read(); cfg = re.search(r"^config (\S+)", txt, re.M).group(1)
            rc = 0
            for exe in exes:
                l = sh([exe, "--list", "--thorough"]).stdout + sh([exe, "--list"]).stdout
                if cfg in [x.split()[0] for x in l.splitlines()]:
                    r = run(exe, cfg, 0, 1, os.path.abspath(replay)); print(r["log"]); rc = 1 if r["rc"] == 1 else 0
            return rc
        tasks = []
        for exe in exes:
            l = sh([exe, "--list"] + (["--thorough"] if tier == "thorough" else [])).stdout
            for line in l.splitlines():
                c, k = line.split(); k = int(k)
                if only and c != only: continue
                tasks += [(exe, c, s, k) for s in range(k)]
        res = []; bad = None
        with ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(run, *t) for t in tasks]
            for f in futs:
                r = f.result(); res.append(r)
                if r["rc"] == 1 and bad is None:
                    bad = r
                    for g in futs: g.cancel()
                    break
            if bad is None and os.environ.get("MC_DEBUG"):
                for r in res: print(r["cfg"], r["shard"], r["rc"], "%.1f" % r["wall"], r["log"][-300:])
        known = {}
        kf = V + "/known-findings.txt"
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l)
                if m and m.group(1) == pid: known[m.group(2)] = m.group(3)
        hits = set()
        for r in res:
            if r["out"]: hits |= set(r["out"].get("known", []))
        for s in sorted(hits): print("KNOWN-FINDING: property=%s %s" % (pid, known.get(s, s)))
        broken = [r for r in res if r["rc"] not in (0, 1)]
        status = 0
        if bad:
            dst = "%s/replay/%s-%s.txt" % (V, pid, hashlib.sha256((bad["replay"] or bad["log"]).encode()).hexdigest()[:10])
            os.makedirs(V + "/replay", exist_ok=True)
            open(dst, "w").write(bad["replay"] or bad["log"])
            m = re.search(r"^msg (.*)", bad["log"], re.M)
            print("config %s: %s" % (bad["cfg"], m.group(1) if m else bad["log"][-500:]))
            # confirm by replaying it on a fresh process before reporting
            rr = run(bad["exe"], bad["cfg"], 0, 1, dst) if bad["replay"] else None
            if rr is not None and rr["rc"] != 1:
                print("(the recorded path alone does not reproduce it; repeating the whole exploration)")
                rr = run(bad["exe"], bad["cfg"], bad["shard"], [t[3] for t in tasks if t[1] == bad["cfg"]][0])
            if rr is None or rr["rc"] == 1:
                print("VIOLATION property=%s replay=%s" % (pid, dst)); status = 1
            else:
                print("not reproducible: no verdict\n" + rr["log"][-500:]); status = 4
        elif broken:
            for r in broken[:3]: print("harness error in %s shard %d: rc=%s\n%s" % (r["cfg"], r["shard"], r["rc"], r["log"][-1500:]))
            status = 3
    finally:
        shutil.rmtree(root, ignore_errors=True)
    S = lambda k: sum(r["out"][k] for r in res if r["out"])
    allex = all(r["out"] and r["out"]["exhaustive"] for r in res) and not bad
    samples = []
    for r in res:
        if r["out"]: samples += ["%s: %s" % (r["cfg"], s) for s in r["out"]["samples"][:2]]
    percfg = {}
    for r in res:
        if r["out"]:
            d = percfg.setdefault(r["cfg"], dict(states=0, transitions=0, executions=0, evaluations=0, outcomes=0, depth=0, exhaustive=True, cpu_s=0))
            for k in ("states", "transitions", "executions", "evaluations", "outcomes"): d[k] += r["out"][k]
            d["depth"] = max(d["depth"], r["out"]["depth"]); d["exhaustive"] &= r["out"]["exhaustive"]; d["cpu_s"] = round(d["cpu_s"] + r["out"]["wall"], 2)
            if r["out"].get("note"): d["note"] = r["out"]["note"]
    cov = dict(states=S("states"), transitions=S("transitions"), traces_validated_against_impl=S("executions"), samples=samples[:12] or ["none"],
        exhaustive=bool(allex), configurations=percfg, distinct_outcomes=S("outcomes"), explanation=p.get("explanation",
        "The exploration runs the implementation itself, compiled from /repo/src: every execution counted under traces_validated_against_impl is a complete operation sequence or schedule of the real code, "
        "checked step by step against the reference model; transitions are the operations (sequential) or shared-memory accesses (concurrent) executed; states are distinct states of the concrete memory and the model."))
    ev = dict(property=pid, tier=tier, seed=seed, level=p["level"], coverage=cov, wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=1 if status == 1 else 0, verdict={0: "held", 1: "violated"}.get(status, "error"))
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    print("%s %s: %s  states=%d transitions=%d executions=%d exhaustive=%s  %.1fs (build %.1fs)" % (pid, tier, ev["verdict"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"], allex, time.time() - t0, tb))
    return status

if __name__ == "__main__":
    sys.exit(main())
