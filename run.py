#!/usr/bin/env python3
"""Driver of the deterministic simulations.

  run.py C01                 quick or thorough check of a property (VERIF_TIER, VERIF_SEED)
  run.py --replay FILE       replays a recorded violation in a fresh process
  run.py --build             builds all harnesses
Exit 0: held; 1 with a VIOLATION line: broken; 2: the check itself failed.
"""
import sys, os, json, hashlib, subprocess, shutil, tempfile, time, struct, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HUMOTO_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from props import BINARIES, PROPS, ASSUME   # noqa

CXX = "clang++-18"
BASE = ["-std=c++14", "-w", "-g1", "-O1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-pthread"]

def log(*a): print(*a, file=sys.stderr, flush=True)

class CheckError(Exception): pass

def header_files():
    out = []
    for sub in ("core/include", "modules/wpg04/include", "modules/pepper_mpc/include",
                "bridges/config_msgpack/interface", "bridges/config_yaml/interface", "bridges/rbdl/interface", "modules/pepper_ik/include", "bridges/obstacle_avoidance", "bridges/qpOASES/interface",
                "bridges/qpmad/interface", "bridges/QuadProgpp/interface"):
        d = os.path.join(REPO, sub)
        for root, _, files in os.walk(d):
            for f in files:
                if f.endswith((".h", ".hpp", ".hh", ".inl")):
                    p = os.path.join(root, f)
                    out.append((p, os.path.relpath(p, d)))
    return sorted(out)

BUILD_CONFIG = """#pragma once
#define HUMOTO_COMPILER_SUPPORTS_FUNC_
#define HUMOTO_COMPILER_SUPPORTS_FUNCTION_
#define HUMOTO_DEFAULT_CONFIG_PREFIX "/proc/self/fd/777/installed_"
%s
#define HUMOTO_GIT_COMMIT_INFO "simulation"
#define HUMOTO_BRIDGE_config_msgpack
"""

def tree_hash():
    h = hashlib.sha256()
    for p, rel in header_files():
        h.update(rel.encode()); h.update(open(p, "rb").read())
    return h

def make_include(key):
    inc = os.path.join(BUILD, "inc-" + key)
    if os.path.exists(os.path.join(inc, "ok")): return inc
    tmp = tempfile.mkdtemp(prefix="inc-tmp-", dir=BUILD)
    for variant, cfg in (("thr", "#define HUMOTO_USE_THREADS_FOR_LOGGING"), ("nothr", "")):
        for p, rel in header_files():
            dst = os.path.join(tmp, variant, "humoto", rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(p, dst)
        with open(os.path.join(tmp, variant, "humoto", "build_config.h"), "w") as f: f.write(BUILD_CONFIG % cfg)
    open(os.path.join(tmp, "ok"), "w").close()
    try: os.rename(tmp, inc)
    except OSError: shutil.rmtree(tmp)
    return inc

def build(name):
    b = BINARIES[name]
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    inc_key = th.hexdigest()[:16]
    h = th.copy()
    mine = {os.path.join(VERIF, src) for src, _ in b["srcs"]}
    for d in ("sim", "harness", "stubs"):
        dd = os.path.join(VERIF, d)
        if not os.path.isdir(dd): continue
        for root, _, files in sorted(os.walk(dd)):
            for f in sorted(files):
                p = os.path.join(root, f)
                if p not in mine and f.endswith(".cpp"): continue
                h.update(f.encode()); h.update(open(p, "rb").read())
    h.update(json.dumps([b, BASE, BUILD_CONFIG], sort_keys=True).encode())
    exe = os.path.join(BUILD, "%s-%s" % (name, h.hexdigest()[:16]))
    if os.path.exists(exe): return exe
    for f in os.listdir(BUILD):       # drop binaries and include trees of earlier states of the tree
        if f.startswith(name + "-"): os.unlink(os.path.join(BUILD, f))
        if f.startswith("inc-") and f != "inc-" + inc_key and not f.startswith("inc-tmp"): shutil.rmtree(os.path.join(BUILD, f), ignore_errors=True)
    inc = make_include(inc_key)
    tmpd = tempfile.mkdtemp(prefix="obj-", dir=BUILD)
    t0 = time.time()
    try:
        jobs = []
        for i, (src, flags) in enumerate(b["srcs"]):
            variant = "nothr" if "@nothr" in flags else "thr"
            fl = [f for f in flags if not f.startswith("@")]
            obj = os.path.join(tmpd, "%d.o" % i)
            cmd = [CXX] + BASE + fl + ["-I" + VERIF, "-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(inc, variant), "-I" + os.path.join(inc, variant, "humoto"), "-I/usr/include/eigen3",
                   "-c", os.path.join(VERIF, src), "-o", obj]
            jobs.append((cmd, obj))
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda j: subprocess.run(j[0], capture_output=True, text=True), jobs))
        for (cmd, _), r in zip(jobs, rs):
            if r.returncode != 0:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-6000:]))
        r = subprocess.run([CXX] + ["-pthread", "-rdynamic"] + [o for _, o in jobs] + b.get("ldflags", []) + ["-o", exe + ".tmp", "-ldl"], capture_output=True, text=True)
        if r.returncode != 0: raise CheckError("link failed:\n" + r.stderr[-4000:])
        os.rename(exe + ".tmp", exe)
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
    log("built %s in %.1f s" % (name, time.time() - t0))
    return exe

class Runner:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.exe = build(PROPS[prop]["bin"])
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.tmp = tempfile.mkdtemp(prefix="humoto-sim-", dir=base)
        self.n = 0
    def close(self): shutil.rmtree(self.tmp, ignore_errors=True)
    def args(self): return [self.exe, "--prop", self.prop, "--tier", self.tier]
    def trace(self, choices, verbose=False):
        self.n += 1
        k = os.path.join(self.tmp, "t%d-%d" % (self.n, random.getrandbits(40)))
        with open(k + ".in", "w") as f: f.write("\n".join(map(str, choices)))
        # always the verbose path, so that recording and replaying execute identically
        subprocess.run(self.args() + ["--scratch", k + ".d", "--trace", k + ".in", "--out", k + ".out", "--verbose", "1"],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        with open(k + ".out") as f: r = json.load(f)
        for s in (".in", ".out"): os.unlink(k + s)
        shutil.rmtree(k + ".d", ignore_errors=True)
        return r
    def trace_many(self, cands):
        with ThreadPoolExecutor(8) as ex: return list(ex.map(lambda c: self.trace(c), cands))

def shrink(R, choices, cls, budget):
    t0 = time.time(); best = list(choices); tried = 0
    def ok(r): return r["verdict"] == 2 and r["cls"] == cls
    def attempt(cands):
        nonlocal best, tried
        for i in range(0, len(cands), 8):
            if time.time() - t0 > budget: return False
            batch = cands[i:i+8]
            rs = R.trace_many(batch); tried += len(batch)
            for c, r in zip(batch, rs):
                if ok(r):
                    used = r["choices"][:]
                    while used and used[-1] == 0: used.pop()
                    if (len(used), sum(used)) < (len(best), sum(best)): best = used
                    elif (len(c), sum(c)) < (len(best), sum(best)): best = list(c)
                    else: continue
                    return True
        return False
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        n = len(best); size = max(1, n // 2)
        while size >= 1 and time.time() - t0 < budget:
            cands = [best[:i] + best[i+size:] for i in range(0, len(best), size)]
            if attempt(cands): progress = True; size = min(size, max(1, len(best)))
            else: size //= 2
        # zero out runs, then reduce values
        size = max(1, len(best) // 4)
        while size >= 1 and time.time() - t0 < budget:
            cands = [best[:i] + [0]*len(best[i:i+size]) + best[i+size:] for i in range(0, len(best), size) if any(best[i:i+size])]
            if attempt(cands): progress = True
            else: size //= 2
        cands = []
        for i, v in enumerate(best):
            if v > 1: cands += [best[:i] + [v//2] + best[i+1:], best[:i] + [1] + best[i+1:], best[:i] + [v-1] + best[i+1:]]
        if cands and attempt(cands): progress = True
    return best, tried

def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]

def check(prop):
    P = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    R = Runner(prop, tier)
    t_build = time.time() - t0
    known = known_findings(prop)
    try:
        budget = float(os.environ.get("VERIF_BUDGET", P["thorough_s"] if tier == "thorough" else P["quick_s"]))
        W = int(os.environ.get("VERIF_WORKERS", "8"))
        procs = []
        t1 = time.time()
        for w in range(W):
            out = os.path.join(R.tmp, "w%d" % w)
            procs.append((out, subprocess.Popen(R.args() + ["--scratch", out + ".d", "--seed", str(seed), "--worker", str(w), "--workers", str(W),
                "--budget", str(budget), "--out", out, "--known", ",".join(k["class"] for k in known)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        # stop everybody as soon as one worker has found something
        while any(p.poll() is None for _, p in procs):
            if any(p.poll() in (1, 2) for _, p in procs):
                for _, p in procs:
                    if p.poll() is None: p.terminate()
                for _, p in procs: p.wait()
                break
            time.sleep(0.1)
        t_sim = time.time() - t1
        viol = [json.load(open(o + ".violation")) for o, _ in procs if os.path.exists(o + ".violation")]
        errs = [json.load(open(o + ".error")) for o, _ in procs if os.path.exists(o + ".error")]
        stats = [json.load(open(o + ".stats")) for o, _ in procs if os.path.exists(o + ".stats")]
        if not viol:
            if errs: raise CheckError("simulation error: %s (seed %s)" % (errs[0]["msg"], errs[0]["seed"]))
            if len(stats) < len(procs): raise CheckError("a simulation worker died: %s" % [p.returncode for _, p in procs])
        confirmed = []
        for v in viol:
            rep = confirm(R, prop, v, tier)
            if rep: confirmed.append(rep); break
        write_evidence(R, prop, tier, seed, stats, procs, t0, t_build, t_sim, confirmed, known)
        hits = {}
        for s in stats:
            for k, n in s["known_hits"].items(): hits[k] = hits.get(k, 0) + n
        for k in known:
            print("KNOWN-FINDING: property=%s %s (met in %d runs)" % (prop, k["what"], hits.get(k["class"], 0)))
        if confirmed:
            path, r = confirmed[0]
            print("class: %s\n%s" % (r["cls"], r["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if viol: raise CheckError("a violation was seen but did not replay: %s %s seed %s" % (viol[0]["cls"], viol[0]["msg"], viol[0]["seed"]))
        ev = json.load(open(os.path.join(VERIF, "evidence", prop + ".json")))["coverage"]
        print("%s held: %d runs, %d distinct non-trivial, %.1f s build, %.1f s simulation" % (prop, ev["evaluations"], ev["distinct_nontrivial"], t_build, t_sim))
        return 0
    finally:
        R.close()

def confirm(R, prop, v, tier):
    """fresh-process gate, minimisation, replay file"""
    r1 = R.trace(v["choices"])
    if not (r1["verdict"] == 2 and r1["cls"] == v["cls"]): return None
    best, tried = shrink(R, r1["choices"], v["cls"], 40 if tier == "quick" else 120)
    a, b = R.trace(best, True), R.trace(best, True)
    if not (a["verdict"] == 2 and a["cls"] == v["cls"] and b["cls"] == a["cls"]): return None
    exact = a["digest"] == b["digest"] and a["msg"] == b["msg"]
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, v["seed"]))
    json.dump(dict(property=prop, tier=tier, seed=v["seed"], cls=a["cls"], msg=a["msg"], digest=a["digest"], exact=exact,
                   original_choices=len(v["choices"]), shrink_attempts=tried, choices=best, log=a.get("log", "").split("\n")), open(path, "w"), indent=1)
    return path, a

def replay(path):
    f = json.load(open(path))
    R = Runner(f["property"], f.get("tier", "quick"))
    try:
        r = R.trace(f["choices"], True)
        print(r.get("log", ""))
        if r["verdict"] == 2:
            print("class: %s\n%s" % (r["cls"], r["msg"]))
            print("reproduced exactly: %s" % (r["cls"] == f["cls"] and r["digest"] == f["digest"]))
            print("VIOLATION property=%s replay=%s" % (f["property"], path))
            return 1
        print("not reproduced (verdict %d %s)" % (r["verdict"], r["msg"]))
        return 0 if r["verdict"] == 1 else 2
    finally: R.close()

def write_evidence(R, prop, tier, seed, stats, procs, t0, t_build, t_sim, confirmed, known):
    P = PROPS[prop]
    tot = lambda k: sum(s[k] for s in stats)
    def msum(k):
        m = {}
        for s in stats:
            for a, n in s[k].items(): m[a] = m.get(a, 0) + n
        return m
    states = set()
    for o, _ in procs:
        if os.path.exists(o + ".states"):
            d = open(o + ".states", "rb").read()
            states.update(struct.unpack("<%dQ" % (len(d)//8), d))
    runs = tot("runs") if stats else 0
    counters, cruns = msum("counters"), msum("counter_runs")
    faults = {k[6:]: {"injected": n, "runs": cruns.get(k, 0)} for k, n in counters.items() if k.startswith("fault:")}
    cov = dict(evaluations=runs, distinct_nontrivial=tot("nontrivial") if stats else 0,
               rule=(stats[0]["rule"] if stats else ""), samples=sum([s["samples"] for s in stats], [])[:6],
               runs_per_hour=int(runs / t_sim * 3600) if t_sim > 0 else 0, simulated_steps=tot("steps"), simulated_time_s=round(tot("simtime"), 3),
               choices_drawn=tot("choices"), same_seed_twice_gate=tot("double_checked"), faults=faults,
               reached={k: n for k, n in counters.items() if not k.startswith("fault:")},
               distinct_states=len(states), distinct_states_measure=P["states"], real_code=P["real"], stubs=P["stub"],
               seeds="run k of worker w uses mix(VERIF_SEED, k*%d+w)" % len(procs), build_s=round(t_build, 1), simulation_s=round(t_sim, 1),
               known_findings_met=msum("known_hits"))
    if not cov["samples"]: cov["samples"] = ["(violation found before a sample was taken)"]
    if confirmed: cov["violation"] = dict(cls=confirmed[0][1]["cls"], msg=confirmed[0][1]["msg"][:1500], replay=confirmed[0][0])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=P.get("level", "exploration"), coverage=cov, assumptions=ASSUME + P.get("assume", []),
                       wall_s=round(time.time() - t0, 2), violations=len(confirmed)), f, indent=1)

def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--replay": return replay(a[1])
        if a and a[0] == "--build":
            names = a[1:] or sorted(BINARIES)
            for n in names: build(n)
            return 0
        if len(a) == 1 and a[0] in PROPS: return check(a[0])
        print(__doc__); return 2
    except CheckError as e:
        print("CHECK-ERROR: %s" % e); return 2
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR: %s" % e); return 2

if __name__ == "__main__": sys.exit(main())
