#!/usr/bin/env python3
"""Deterministic-simulation check runner.

  check.py <property-id>              build from /repo, search, gate, minimise, write evidence
  check.py <property-id> --replay F   re-execute a replay file exactly

Exit 0: held on everything explored.  1: VIOLATION printed.  2: machinery error.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

CXX = os.environ.get("VERIF_CXX", "g++")
BASE = ["-std=c++17", "-g1", "-O1", "-fno-omit-frame-pointer", "-w", "-pipe", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


# ------------------------------------------------------------------ build --
def filehash(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in memo:
        with open(path, "rb") as f:
            memo[key] = hashlib.sha1(f.read()).hexdigest()
    return memo[key]


def compile_one(src, flags, objdir):
    key = hashlib.sha1((src + "\0" + "\0".join(flags)).encode()).hexdigest()[:16]
    obj = os.path.join(objdir, os.path.basename(src).rsplit(".", 1)[0] + "-" + key + ".o")
    dep, stamp = obj + ".d", obj + ".json"
    if os.path.exists(obj) and os.path.exists(stamp):
        try:
            old = json.load(open(stamp))
            if all(filehash(p) == h for p, h in old.items()):
                return obj, None
        except Exception:
            pass
    r = subprocess.run([CXX] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj + ".tmp"], capture_output=True, text=True)
    if r.returncode:
        return None, "%s\n%s" % (src, r.stderr[-6000:])
    os.replace(obj + ".tmp", obj)
    txt = open(dep).read().replace("\\\n", " ")
    deps = [d for d in txt.split(":", 1)[1].split() if not d.startswith("/usr/")]
    json.dump({p: filehash(p) for p in deps}, open(stamp, "w"))
    return obj, None


def build(pid):
    c = CHECKS[pid]
    objdir = os.path.join(VERIF, "build", "obj")
    os.makedirs(objdir, exist_ok=True)
    inc = ["-I" + VERIF + "/sim"]
    jobs = []
    for f in ["rt.cpp", "mem.cpp", "fs.cpp", "io.cpp", "tsan_rt.cpp", "driver.cpp"] + c.get("sim", []):
        jobs.append((VERIF + "/sim/" + f, BASE + ["-fno-builtin", "-fno-threadsafe-statics"] + inc, "sim"))
    if c.get("folly"):
        common = ["-I" + VERIF + "/shim", "-I" + SRC, "-DNEBULA_HOME=" + REPO, "-include", "cstdint"]
    else:
        common = ["-I" + SRC, "-DNEBULA_HOME=" + REPO, "-DCOMMON_BASE_BASE_H_", "-include", VERIF + "/shim/subset_base.h"]
    common += c.get("defs", [])
    if c.get("thrift"):
        gen = os.path.join(VERIF, "build", "gen")
        r = subprocess.run([sys.executable, VERIF + "/shim/thriftgen.py", gen] + [SRC + "/common/interface/%s.thrift" % x for x in ("common", "meta", "storage")] + ["+" + SRC + "/common/interface/graph.thrift"],
                           capture_output=True, text=True)
        if r.returncode:
            die("thrift interface: " + r.stderr[-3000:])
        common += ["-I" + gen]
    inst = ["-fsanitize=thread"]
    for f in c["harness"]:
        jobs.append((VERIF + "/harness/" + f, BASE + inst + inc + common, "h"))
    for f in c.get("shim_src", []):
        jobs.append((VERIF + "/shim/" + f, BASE + inst + inc + common, "h"))
    for f in c.get("repo", []):
        p = SRC + "/common/" + f
        if not os.path.exists(p):
            die("source file %s is gone" % p)
        jobs.append((p, BASE + inst + inc + common, "r"))
    objs = [None] * len(jobs)
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        futs = {ex.submit(compile_one, s, f, objdir): i for i, (s, f, _) in enumerate(jobs)}
        for fu in cf.as_completed(futs):
            o, err = fu.result()
            if err:
                die("compilation failed: " + err)
            objs[futs[fu]] = o
    # instrumented objects first: their copies of shared templates win
    order = [o for o, j in zip(objs, jobs) if j[2] != "sim"] + [o for o, j in zip(objs, jobs) if j[2] == "sim"]
    exe = os.path.join(VERIF, "build", "sim-" + pid)
    r = subprocess.run([CXX, "-rdynamic", "-o", exe] + order + ["-lglog", "-lgflags"] + c.get("libs", []) + ["-lpthread", "-ldl"],
                       capture_output=True, text=True)
    if r.returncode:
        die("link failed:\n" + r.stderr[-6000:])
    return exe


# ----------------------------------------------------------------- search --
def child_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME")}
    e["TZ"] = "UTC"
    e["LC_ALL"] = "C"
    return e


def run_search(exe, scn, seed, runs, tlimit, tmp, hang, maxviol=3):
    procs = []
    for w in range(WORKERS):
        out = os.path.join(tmp, "%s.%d" % (scn, w))
        cmd = [exe, "run", "--scenario", scn, "--seed", str(seed), "--from", str(w), "--to", str(runs), "--stride", str(WORKERS),
               "--time", str(tlimit), "--out", out, "--hang", str(hang), "--max-viol", str(maxviol)]
        procs.append((subprocess.Popen(cmd, env=child_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), out))
    viols, samples, sums = [], [], []
    for p, out in procs:
        err = p.communicate()[1]
        if p.returncode != 0:
            die("simulation worker failed (%s): %s" % (p.returncode, err[-2000:]))
        for line in open(out):
            if line[0] == "V":
                viols.append(json.loads(line[2:]))
            elif line[0] == "P":
                samples.append(json.loads(line[2:]))
            elif line[0] == "S":
                sums.append(json.loads(line[2:]))
        os.unlink(out)
    if len(sums) != WORKERS:
        die("a simulation worker produced no summary")
    return viols, samples, sums


def one(exe, scn, seed, faults, hang):
    r = subprocess.run([exe, "one", "--scenario", scn, "--seed", str(seed), "--faults", str(faults), "--hang", str(hang), "--events", "1"],
                       env=child_env(), capture_output=True, text=True)
    return json.loads(r.stdout)


def replay(exe, scn, seed, faults, cands, hang):
    """Runs candidate choice lists in one fresh process; returns their outcomes."""
    txt = "".join("%d %s\n" % (len(c), " ".join("%d %d %d" % tuple(x) for x in c)) for c in cands)
    r = subprocess.run([exe, "replay", "--scenario", scn, "--seed", str(seed), "--faults", str(faults), "--hang", str(hang), "--events", "1"],
                       env=child_env(), input=txt, capture_output=True, text=True)
    return [json.loads(x) for x in r.stdout.splitlines()]


def klass(msg):
    return re.sub(r"[0-9]+", "#", msg.split(";")[0])[:160]


def norm(ch):
    return sorted([list(x) for x in ch], key=lambda x: (x[0], x[1]))


def minimise(exe, v, hang, budget_s):
    scn, seed, faults = v["scenario"], v["seed"], v["faults"]
    want = klass(v["msg"])
    t0 = time.time()
    tried = [0]

    def test_many(cands):
        """index of the first candidate that still fails the same way"""
        res = [None] * len(cands)
        chunks = [list(range(i, len(cands), WORKERS)) for i in range(min(WORKERS, len(cands)))]
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            def go(ix):
                for i, o in zip(ix, replay(exe, scn, seed, faults, [cands[i] for i in ix], hang)):
                    res[i] = o
            list(ex.map(go, chunks))
        tried[0] += len(cands)
        for i, o in enumerate(res):
            if o and o["status"] == 2 and klass(o["msg"]) == want:
                return i, o
        return None, None

    cur = norm(v["choices"])
    best = None
    # faults first, then time, schedule and workload: whole kinds, then halves, ...
    for kind in (2, 3, 1, 0):
        c2 = [x for x in cur if x[0] != kind]
        if len(c2) < len(cur):
            i, o = test_many([c2])
            if i is not None:
                cur, best = norm(o["choices"]), o
    n = 2
    while len(cur) >= 1 and time.time() - t0 < budget_s:
        step = max(1, (len(cur) + n - 1) // n)
        cands = [cur[:i] + cur[i + step:] for i in range(0, len(cur), step)]
        i, o = test_many(cands)
        if i is not None:
            nxt = norm(o["choices"])
            if len(nxt) >= len(cur):
                nxt = cands[i]
            cur, best = nxt, o
            n = max(2, n - 1)
        elif step == 1:
            break
        else:
            n = min(len(cur), n * 2)
    # smaller values
    changed = True
    while changed and time.time() - t0 < budget_s:
        changed = False
        for j in range(len(cur)):
            if cur[j][2] > 1:
                cands = [cur[:j] + [[cur[j][0], cur[j][1], nv]] + cur[j + 1:] for nv in sorted({1, cur[j][2] // 2, cur[j][2] - 1}) if nv >= 1]
                i, o = test_many(cands)
                if i is not None:
                    cur, best, changed = cands[i], o, True
            if time.time() - t0 > budget_s:
                break
    return cur, tried[0]


def gate_and_report(pid, exe, v, hang, min_budget):
    """Same seed again, then the recorded choices in a fresh process, then minimise."""
    again = one(exe, v["scenario"], v["seed"], v["faults"], hang)
    is_hang = v["msg"].startswith("hang")
    if again["status"] != v["status"] or again["msg"] != v["msg"] or (again["hash"] != v["hash"] and not is_hang):
        return None, "seed %s of %s did not repeat: %r/%s vs %r/%s" % (v["seed"], v["scenario"], v["msg"], v["hash"], again["msg"], again["hash"])
    choices, how, tried = norm(v["choices"]), "recorded", 0
    if not v["overflow"]:
        r = replay(exe, v["scenario"], v["seed"], v["faults"], [choices], hang)
        if not r or r[0]["msg"] != v["msg"] or (r[0]["hash"] != v["hash"] and not is_hang):
            return None, "recorded choices of seed %s of %s did not replay: %r/%s vs %r/%s" % (
                v["seed"], v["scenario"], v["msg"], v["hash"], r and r[0]["msg"], r and r[0]["hash"])
        if not is_hang and min_budget > 0:
            choices, tried = minimise(exe, v, hang, min_budget)
            how = "minimised"
    a = replay(exe, v["scenario"], v["seed"], v["faults"], [choices], hang)
    b = replay(exe, v["scenario"], v["seed"], v["faults"], [choices], hang)
    if not a or not b or a[0]["msg"] != b[0]["msg"] or a[0]["status"] != 2 or (a[0]["hash"] != b[0]["hash"] and not is_hang):
        return None, "the minimised trace is not stable"
    f = a[0]
    os.makedirs(VERIF + "/out", exist_ok=True)
    path = "%s/out/%s-%s-%s.json" % (VERIF, pid, v["scenario"], v["seed"])
    json.dump({
        "property": pid, "scenario": v["scenario"], "violation": f["msg"], "first_seen_as": v["msg"],
        "seed": v["seed"], "faults": v["faults"], "hash": f["hash"], "choices": choices, "trace_is": how,
        "choices_before_minimising": len(v["choices"]), "minimiser_runs": tried,
        "kinds": {"0": "workload", "1": "schedule", "2": "fault", "3": "time"},
        "events": f["events"], "replay_cmd": "python3 tools/check.py %s --replay %s" % (pid, path)}, open(path, "w"), indent=1)
    return path, f["msg"]


def load_known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def main():
    pid = sys.argv[1]
    c = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe = build(pid)
    t_build = time.time() - t0
    hang = c.get("hang", 20)

    if "--replay" in sys.argv:
        f = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        r = replay(exe, f["scenario"], f["seed"], f["faults"], [f["choices"]], hang)[0]
        print("\n".join(r["events"]))
        same = r["hash"] == f["hash"] and r["msg"] == f["violation"]
        print("outcome: %s" % (r["msg"] or "no violation"))
        print("hash %s, recorded %s: %s" % (r["hash"], f["hash"], "identical execution" if same else "DIFFERENT execution"))
        sys.exit(1 if r["status"] == 2 else 0)

    tmp = os.path.join(VERIF, "build", "tmp-%s-%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    agg = {"runs": 0, "fault_runs": 0, "nontrivial": 0, "steps": 0, "sync": 0, "switches": 0, "preemptions": 0, "time_jumps": 0, "vtime_s": 0.0}
    counters, hashes, samples, per, known, viols, digests = {}, set(), [], {}, {}, [], {}
    search_wall = 0.0
    det = {"pairs": 0, "mismatches": 0}
    try:
        for scn, q, th in c["scenarios"]:
            runs = max(16, int((q if tier == "quick" else th) * scale))
            # determinism: the same seeds twice, in different processes and worker layouts
            s1 = subprocess.run([exe, "run", "--scenario", scn, "--seed", str(seed), "--from", "0", "--to", "24", "--out", tmp + "/d1", "--hang", str(hang), "--max-viol", "1000"], env=child_env())
            s2 = subprocess.run([exe, "run", "--scenario", scn, "--seed", str(seed), "--from", "0", "--to", "24", "--out", tmp + "/d2", "--hang", str(hang), "--max-viol", "1000"], env=child_env())
            if s1.returncode or s2.returncode:
                die("simulation binary failed")
            d = [[json.loads(x[2:])["digest"] for x in open(tmp + "/" + n) if x[0] == "S"][0] for n in ("d1", "d2")]
            det["pairs"] += 24
            if d[0] != d[1]:
                det["mismatches"] += 1
            digests[scn] = d[0]
            tl = c.get("time", {}).get(tier, 120 if tier == "quick" else 600) / len(c["scenarios"])
            w0 = time.time()
            vs, sm, sums = run_search(exe, scn, seed, runs, tl, tmp, hang)
            search_wall += time.time() - w0
            viols += vs
            samples += sm[:1]
            pr = 0
            for s in sums:
                for k in agg:
                    agg[k] += s.get(k, 0)
                pr += s["runs"]
                hashes.update(scn + h for h in s["hashes"])
                for n, (tot, rn, isf) in s["counters"].items():
                    e = counters.setdefault(n, [0, 0, 0])
                    e[0] += tot
                    e[1] += rn
                    e[2] |= isf
                for k, n in s["known"].items():
                    known[k] = known.get(k, 0) + n
            per[scn] = pr
            if viols:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    harness_errs = [v for v in viols if v["status"] == 3]
    viols = [v for v in viols if v["status"] == 2]
    rc, nviol = 0, 0
    report = []
    kf = {f["id"]: f for f in load_known()["findings"] if f["property"] == pid}
    seen_known = set()
    for k in sorted(known):
        fid, what = k.split("|", 1)
        if fid in kf:
            if fid not in seen_known:
                seen_known.add(fid)
                print("KNOWN-FINDING: property=%s %s" % (pid, kf[fid]["what"]), flush=True)
        else:
            die("the harness reported finding %s, which is not listed" % fid)
    gate_errs = []
    if viols:
        # one report per distinct failure, shortest trace first
        viols.sort(key=lambda v: (v["overflow"], len(v["choices"]), v["seed"]))
        done = set()
        for v in viols:
            if klass(v["msg"]) in done:
                continue
            path, msg = gate_and_report(pid, exe, v, hang, c.get("min_budget", 25) if not done else 10)
            if path is None:
                gate_errs.append(msg)
                continue
            done.add(klass(v["msg"]))
            nviol += 1
            rc = 1
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            print("  %s (scenario %s, seed %s)" % (msg, v["scenario"], v["seed"]), flush=True)
            if len(done) >= 3 or time.time() - t0 > 500:
                break
    faults_fired = {n.replace("fault.", "", 1): {"fired": e[0], "in_runs": e[1]} for n, e in sorted(counters.items()) if (e[2] or n.startswith("fault.")) and e[0]}
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(hashes),
        "rule": "One evaluation is one simulated execution drawn from one seed (workload, schedule, time and fault streams). "
                "It is non-trivial when at least one preemption took effect or one fault was injected; distinct executions are "
                "counted by the hash of their interleaving and event log.",
        "samples": [{"scenario": s["scenario"], "seed": s["seed"], "steps": s["steps"], "switches": s["switches"],
                     "preemptions": s["preemptions"], "counters": s["counters"], "choices_made": len(s["choices"]),
                     "events": s["events"][:40]} for s in samples[:4]],
        "runs_per_scenario": per,
        "runs_per_hour": int(agg["runs"] / max(search_wall, 1e-6) * 3600),
        "simulated_seconds": round(agg["vtime_s"], 3),
        "runs_with_faults_enabled": agg["fault_runs"],
        "faults_injected": faults_fired,
        "scenario_counters": {n: e[0] for n, e in sorted(counters.items()) if not e[2] and not n.startswith("fault.")},
        "preemption_points_passed": agg["steps"], "sync_points_passed": agg["sync"], "context_switches": agg["switches"],
        "preemptions": agg["preemptions"], "clock_jumps_to_next_timer": agg["time_jumps"],
        "components_real": c.get("real", []), "components_stubbed": c.get("stub", []),
        "determinism_self_check": {"seeds_run_twice": det["pairs"], "mismatching_batches": det["mismatches"], "digests": digests},
        "known_findings_seen": sorted(seen_known),
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
          "coverage": cov, "assumptions": c.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, pid), "w"), indent=1)
    print("%s: %d simulated runs (%d distinct non-trivial), %.0f simulated s, %d violations; build %.1fs search %.1fs total %.1fs" % (
        pid, agg["runs"], len(hashes), agg["vtime_s"], nviol, t_build, search_wall, time.time() - t0), flush=True)
    if rc == 0:
        if gate_errs:
            die("a failing run could not be reproduced exactly: " + "; ".join(gate_errs))
        if harness_errs:
            die("harness error: " + harness_errs[0]["msg"])
        if det["mismatches"]:
            die("the same seeds did not give the same executions")
        need = c.get("require_faults", [])
        missing = [n for n in need if n not in faults_fired]
        if missing and scale >= 1:
            # the code under test may have stopped using a seam; that is no reason for an alarm
            print("NOTE: fault kinds never fired: " + ", ".join(missing), flush=True)
            if os.environ.get("VERIF_STRICT"):
                sys.exit(2)
    sys.exit(rc)


COMMON_ASSUMPTIONS = [
    "Memory is sequentially consistent: weak-memory reorderings of the hardware or compiler are not simulated.",
    "A preemption can happen at every instrumented memory access, atomic and library seam of the code under test, "
    "not between the instructions of the C and C++ libraries.",
    "The search is pseudo-random, not exhaustive: a pass means no violation in the executions counted here.",
]

if __name__ == "__main__":
    main()
