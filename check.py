#!/usr/bin/env python3
"""check.py PROPERTY            decide one property (quick or thorough, from VERIF_TIER), rewrite its evidence
   check.py --replay FILE       re-execute a replay file
   check.py --build-all         compile every scenario (setup_cmd)
Standard library only."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from checks import CHECKS, REAL_STUB  # noqa: E402

WRAP = "-Wl," + ",".join("--wrap=" + f for f in
        ["malloc", "free", "calloc", "realloc", "memcpy", "memmove", "memset", "aligned_alloc", "posix_memalign"])
RT_FLAGS = "-std=c++17 -O2 -g -fno-builtin -fcf-protection=none -no-pie -fno-pie -w".split()
SC_FLAGS = "-std=c++17 -O1 -g -fsanitize=thread -Wno-tsan -w -no-pie -fno-pie -fno-omit-frame-pointer".split()
CXX = "g++"
NCPU = min(8, os.cpu_count() or 1)
LOG = []


def say(*a):
    print(*a, flush=True)


def die(msg, code=2):
    say("ERROR:", msg)
    sys.exit(code)


# --------------------------------------------------------------------------------------------------
# build
# --------------------------------------------------------------------------------------------------
def sources_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(HERE, "dsim")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for f in sorted(os.listdir(os.path.join(HERE, "scenarios"))):
        if f.endswith(".h"):
            with open(os.path.join(HERE, "scenarios", f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("compile failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def unit_of(s):
    return (s["unit"], [(s["src"], s.get("defs", []))] + s.get("also", []))


def build(units):
    """units: list of (name, [(source, defs), ...]). Returns {name: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    base = sources_hash()
    out = {}
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rt_key = hashlib.sha256((base + " ".join(RT_FLAGS)).encode()).hexdigest()[:16]
        rt = os.path.join(BUILD, "rt-%s.o" % rt_key)
        jobs = []
        rtjob = None
        ex = ThreadPoolExecutor(NCPU)
        if not os.path.exists(rt):
            def mk_rt():
                tmp = rt + ".tmp%d" % os.getpid()
                run_cc([CXX] + RT_FLAGS + ["-I" + HERE + "/dsim", "-c", HERE + "/dsim/rt.cpp", "-o", tmp])
                os.rename(tmp, rt)
            rtjob = ex.submit(mk_rt)
        for name, srcs in units:
            h = hashlib.sha256(base.encode() + name.encode())
            for src, defs in srcs:
                with open(os.path.join(HERE, "scenarios", src), "rb") as fh:
                    h.update(fh.read() + " ".join(SC_FLAGS + defs).encode())
            key = h.hexdigest()[:16]
            binp = os.path.join(BUILD, "%s-%s" % (name, key))
            out[name] = binp
            if os.path.exists(binp):
                os.utime(binp)
                continue

            def mk(srcs=srcs, binp=binp):
                objs = []
                for i, (src, defs) in enumerate(srcs):
                    objs.append(binp + ".%d.%d.o" % (os.getpid(), i))
                    run_cc([CXX] + SC_FLAGS + defs + ["-I" + HERE + "/dsim", "-I" + HERE + "/scenarios", "-I" + REPO + "/src", "-I" + REPO,
                            "-c", os.path.join(HERE, "scenarios", src), "-o", objs[-1]])
                if rtjob:
                    rtjob.result()
                tmp = binp + ".tmp%d" % os.getpid()
                run_cc([CXX, "-no-pie", "-Wl,-z,now", WRAP] + objs + [rt, "-o", tmp, "-lpthread", "-ldl"])
                for o in objs:
                    os.unlink(o)
                os.rename(tmp, binp)
            jobs.append(ex.submit(mk))
        try:
            if rtjob:
                rtjob.result()
            for j in jobs:
                j.result()
        finally:
            ex.shutdown(wait=True)
        # forget old builds
        fs = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f != "lock"), key=os.path.getmtime)
        for f in fs[:-120]:
            if f not in out.values() and f != rt and os.path.isfile(f):
                os.unlink(f)
    return out


# --------------------------------------------------------------------------------------------------
# running
# --------------------------------------------------------------------------------------------------
HANG = None  # CPU seconds without a simulated event before a run counts as hanging


def env_for(cpus):
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC", "SIM_CPUS": str(cpus)}
    if HANG:
        e["SIM_HANG_CPU"] = str(HANG)
    return e


def lines_of(W, F, S):
    o = []
    for i, v, *_ in W:
        o.append("W %d %d" % (i, v))
    for k, i, v in F:
        o.append("F %s %d %d" % (k, i, v))
    for s, t, a, b in sorted(S):
        o.append("S %d %d %d %d" % (s, t, a, b))
    return "\n".join(o) + "\n"


def exec_replay(binp, scen, cpus, W, F, S, seed, log=False, cpu=None, timeout=90):
    fd, path = tempfile.mkstemp(prefix="dsim-replay-")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(lines_of(W, F, S))
        cmd = [binp, "--scenario", scen, "--replay", path, "--seed", str(seed)] + (["--log"] if log else [])
        if cpu is not None:
            cmd += ["--cpu", str(cpu)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(cpus), timeout=timeout)
        if p.returncode:
            return None
        return json.loads(p.stdout.decode(errors="replace"), strict=False)
    except (subprocess.TimeoutExpired, ValueError):
        return None
    finally:
        os.unlink(path)


def exec_seed(binp, scen, cpus, seed, cpu=None):
    cmd = [binp, "--scenario", scen, "--seed", str(seed)] + (["--cpu", str(cpu)] if cpu is not None else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(cpus), timeout=120)
    if p.returncode:
        return None
    return json.loads(p.stdout.decode(errors="replace"), strict=False)


# --------------------------------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------------------------------
def same_class(r, kind):
    return r is not None and r.get("violation") and r["kind"] == kind


def minimise(binp, scen, cpus, r, limit):
    t_end = time.time() + limit
    kind, seed = r["kind"], r["seed"]
    items = [("W", tuple(x)) for x in r["W"]] + [("F", tuple(x)) for x in r["F"]] + [("S", tuple(x)) for x in r["S"]]
    n_start = len(items)
    tests = [0]
    hang = kind == "hang"

    def split(its):
        return ([x for k, x in its if k == "W"], [x for k, x in its if k == "F"], [x for k, x in its if k == "S"])

    def ok(its):
        tests[0] += 1
        W, F, S = split(its)
        return same_class(exec_replay(binp, scen, cpus, W, F, S, seed), kind)

    ex = ThreadPoolExecutor(NCPU)

    def first_ok(cands):
        # evaluate in parallel, take the first (in order) that works: deterministic
        for i in range(0, len(cands), NCPU):
            if time.time() > t_end:
                return None
            chunk = cands[i:i + NCPU]
            res = list(ex.map(ok, chunk))
            for c, b in zip(chunk, res):
                if b:
                    return c
        return None

    if not hang:
        gran = 2
        while len(items) >= 1 and time.time() < t_end:
            size = max(1, len(items) // gran)
            cands = [items[:i] + items[i + size:] for i in range(0, len(items), size)]
            c = first_ok(cands)
            if c is not None:
                items = c
                gran = max(2, gran - 1)
            elif size == 1:
                break
            else:
                gran = min(len(items), gran * 2)
        # smaller values for workload choices and stalls
        changed = True
        while changed and time.time() < t_end:
            changed = False
            for i, (k, x) in enumerate(items):
                if k == "W" and x[1] > 1:
                    for v in sorted({1, x[1] // 2, x[1] - 1}):
                        if v < x[1]:
                            c = items[:i] + [(k, (x[0], v) + tuple(x[2:]))] + items[i + 1:]
                            if ok(c):
                                items = c
                                changed = True
                                break
                if time.time() > t_end:
                    break
    ex.shutdown(wait=True)
    return split(items), n_start, len(items), tests[0]


def symbolise(binp, text):
    pcs = sorted(set(re.findall(r"\b(?:pc )?([0-9a-f]{6})\b", text)))
    if not pcs:
        return {}
    try:
        p = subprocess.run(["addr2line", "-e", binp, "-f", "-C", "-s"] + pcs, stdout=subprocess.PIPE, text=True, timeout=60)
        ls = p.stdout.splitlines()
        return {pc: (ls[2 * i][:140] + " " + ls[2 * i + 1]) for i, pc in enumerate(pcs) if 2 * i + 1 < len(ls) and ls[2 * i] != "??"}
    except Exception:
        return {}


# --------------------------------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------------------------------
def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def match_known(known, scen, v):
    for k in known:
        if k["scenario"] == scen and k["kind"] == v["kind"] and re.search(k["match"], v["msg"]):
            return k
    return None


# --------------------------------------------------------------------------------------------------
# one check
# --------------------------------------------------------------------------------------------------
def merge_counts(dst, src):
    for k, v in src.items():
        if isinstance(v, list):
            d = dst.setdefault(k, [0] * len(v))
            for i, x in enumerate(v):
                d[i] += x
        else:
            dst[k] = dst.get(k, 0) + v


def main_check(prop):
    global HANG
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    chk = CHECKS[prop]
    HANG = chk.get("hang")
    units = {}
    for s in chk["scenarios"]:
        units[s["unit"]] = unit_of(s)
    try:
        bins = build(list(units.values()))
    except RuntimeError as e:
        die(str(e))
    t_build = time.time() - t0
    total = float(os.environ.get("DSIM_SECS") or (chk.get("quick_secs", 60) if tier == "quick" else chk.get("thorough_secs", 1500)))
    known = load_known(prop)
    known_seen = {}
    scens = chk["scenarios"]
    wsum = sum(s.get("weight", 1) for s in scens)
    tmp = tempfile.mkdtemp(prefix="dsim-%s-" % prop)
    viol = []
    agg = {"runs": 0, "steps": 0, "syncs": 0, "switches": 0, "nontrivial": 0, "stale": 0, "plain": 0, "atomics": 0,
           "crashed": 0, "sim_ns": 0, "verified": 0}
    faults, probes, per, samples = {}, {}, {}, []
    distinct, distinct_sched = set(), set()
    sim_wall = 0.0
    nondet = None
    try:
        for si, s in enumerate(scens):
            secs = total * s.get("weight", 1) / wsum
            binp = bins[s["unit"]]
            cpus = s.get("cpus", [4])
            procs = []
            ts = time.time()
            for w in range(NCPU):
                hf = os.path.join(tmp, "h%d-%d" % (si, w))
                cmd = [binp, "--scenario", s["name"], "--base", str(seed * 1000003 + si), "--first", str(w), "--stride", str(NCPU),
                       "--secs", "%.2f" % secs, "--cpu", str(w), "--hashes", hf, "--maxviol", "1" if not known else "1000"]
                if "count" in s:
                    cmd += ["--count", str(s["count"])]
                out = open(os.path.join(tmp, "o%d-%d" % (si, w)), "w+b")
                err = open(os.path.join(tmp, "e%d-%d" % (si, w)), "w+b")
                p = subprocess.Popen(cmd, stdout=out, stderr=err, env=env_for(cpus[w % len(cpus)]))
                procs.append((w, p, out, err, hf, cpus[w % len(cpus)]))
            found = None
            deadline = ts + secs + 200
            while True:
                alive = [p for _, p, *_ in procs if p.poll() is None]
                for w, p, out, err, hf, c in procs:
                    if p.poll() is not None and not known and os.fstat(out.fileno()).st_size:
                        out.seek(0)
                        if out.read(2) == b"V ":
                            found = True
                if found or not alive:
                    break
                if time.time() > deadline:
                    for p in alive:
                        p.kill()
                    die("worker did not stop in time (%s)" % s["name"])
                time.sleep(0.05)
            if found:
                for _, p, *_ in procs:
                    if p.poll() is None:
                        p.kill()
                        p.wait()
            sim_wall += time.time() - ts
            ps = per.setdefault(s["name"], {"runs": 0, "steps": 0, "switches": 0})
            for w, p, out, err, hf, c in procs:
                out.seek(0)
                data = out.read().decode(errors="replace")
                err.seek(0)
                e = err.read().decode(errors="replace")
                out.close()
                err.close()
                if p.returncode not in (0, -9) or (p.returncode == -9 and not found):
                    die("worker %d of %s failed (%s): %s" % (w, s["name"], p.returncode, e[-2000:]))
                for line in data.splitlines():
                    if line.startswith("V "):
                        try:
                            v = json.loads(line[2:], strict=False)
                        except ValueError:
                            continue
                        k = match_known(known, s["name"], v)
                        if k:
                            known_seen[k["id"]] = known_seen.get(k["id"], 0) + 1
                        else:
                            viol.append((v, binp, s["name"], c))
                    elif line.startswith("A "):
                        a = json.loads(line[2:])
                        for k in agg:
                            agg[k] += a.get(k, 0)
                        for k in ps:
                            ps[k] += a[k]
                        merge_counts(faults, a["faults"])
                        merge_counts(probes, {s["name"] + "/" + k: v for k, v in a["probes"].items()})
                if os.path.exists(hf):
                    with open(hf, "rb") as f:
                        d = f.read()
                    for i in range(0, len(d) - 15, 16):
                        a = d[i:i + 8]
                        if a != b"\0" * 8:
                            distinct.add(a)
                        distinct_sched.add(d[i + 8:i + 16])
            if viol:
                break
            # determinism sample: the first runs of two workers again, in other processes on other cores
            rer = []
            for w in (0, NCPU // 2):
                hf = os.path.join(tmp, "h%d-%d" % (si, w))
                n = min(os.path.getsize(hf) // 16, s.get("recheck", 40))
                if n == 0:
                    continue
                hf2 = hf + ".again"
                cmd = [binp, "--scenario", s["name"], "--base", str(seed * 1000003 + si), "--first", str(w), "--stride", str(NCPU),
                       "--secs", "%.2f" % max(5, secs), "--count", str(n), "--cpu", str((w + 3) % NCPU), "--hashes", hf2, "--maxviol", "1000"]
                rer.append((hf, hf2, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_for(cpus[w % len(cpus)]))))
            for hf, hf2, p in rer:
                p.wait()
                a = open(hf, "rb").read()
                b = open(hf2, "rb").read() if os.path.exists(hf2) else b""
                if not b or a[:len(b)] != b:
                    nondet = s["name"]
                agg["verified"] += len(b) // 16
            one = exec_seed(binp, s["name"], cpus[0], (seed * 7919 + si) & 0x7fffffff)
            if one and len(samples) < 6:
                samples.append({"scenario": s["name"], "seed": one["seed"], "steps": one["steps"], "context_switches": one["switches"],
                                "workload_choices": [x[:2] for x in one["W"][:12]], "faults": one["F"][:8],
                                "schedule_first_decisions": one["S"][:8], "event_hash": one["hash"]})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    rc = 0
    nviol = 0
    vinfo = None
    if viol:
        # gate: same seed again, twice, in fresh processes, and from the record; the smallest that repeats is reported
        why = []
        for exact in (True, False):
            for v, binp, scen, c in sorted(viol, key=lambda x: len(x[0]["S"]))[:NCPU]:
                try:
                    a, b = exec_seed(binp, scen, c, v["seed"]), exec_seed(binp, scen, c, v["seed"])
                except (subprocess.TimeoutExpired, ValueError):
                    continue
                r = exec_replay(binp, scen, c, v["W"], v["F"], v["S"], v["seed"])
                if all(same_class(x, v["kind"]) for x in (a, b, r)) and (not exact or a["hash"] == b["hash"] == v["hash"]):
                    break
                why.append("violation of %s in %s (seed %s, %s: %s) did not repeat" % (prop, scen, v["seed"], v["kind"], v["msg"][:300]))
            else:
                continue
            break
        else:
            die("\n".join(why))
        if not exact:
            say("note: the event hashes of repeated executions differ (the code under test depends on something not simulated)")
        (W, F, S), n0, n1, nt = minimise(binp, scen, c, v, chk.get("min_secs", 45))
        f1 = exec_replay(binp, scen, c, W, F, S, v["seed"], log=True)
        f2 = exec_replay(binp, scen, c, W, F, S, v["seed"], log=True, cpu=1)
        if not (same_class(f1, v["kind"]) and same_class(f2, v["kind"]) and (not exact or f1["hash"] == f2["hash"])):
            W, F, S = v["W"], v["F"], v["S"]
            f1 = exec_replay(binp, scen, c, W, F, S, v["seed"], log=True)
            f2 = exec_replay(binp, scen, c, W, F, S, v["seed"], log=True)
            if not (same_class(f1, v["kind"]) and same_class(f2, v["kind"]) and (not exact or f1["hash"] == f2["hash"])):
                die("minimised replay is not reproducible")
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, v["seed"]))
        sym = symbolise(binp, f1["msg"] + "\n" + f1["where"])
        unit = [s["unit"] for s in scens if bins[s["unit"]] == binp][0]
        with open(path, "w") as f:
            json.dump({"property": prop, "scenario": scen, "unit": unit, "cpus": c, "seed": v["seed"], "kind": f1["kind"], "message": f1["msg"],
                       "event_hash": f1["hash"], "W": W, "F": F, "S": S, "minimised_from": n0, "minimised_to": n1, "minimiser_runs": nt,
                       "threads": f1["where"].splitlines(), "symbols": sym, "notes": f1["notes"].splitlines(),
                       "event_log": f1.get("log", "").splitlines()[:4000], "original_message": v["msg"]}, f, indent=1)
        say("violation of %s in scenario %s: [%s] %s" % (prop, scen, f1["kind"], f1["msg"]))
        for l in f1["notes"].splitlines()[:20]:
            say("  | " + l)
        for pc, s_ in sym.items():
            say("  %s = %s" % (pc, s_))
        say("  minimised from %d to %d choices in %d runs (workload %d, faults %d, schedule %d)" % (n0, n1, nt, len(W), len(F), len(S)))
        rc, nviol = 1, 1
        vinfo = {"kind": f1["kind"], "message": f1["msg"], "replay": path}
        say("VIOLATION property=%s replay=%s" % (prop, path))
    elif nondet:
        die("scenario %s is not deterministic: same seeds gave different event hashes in another process" % nondet)

    for k in known:
        say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    hours = max(sim_wall, 1e-3) / 3600
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": agg["runs"], "distinct_nontrivial": len(distinct),
              "rule": "one evaluation = one simulated run, all of whose workload, scheduling and fault choices derive from one seed; non-trivial = the run "
                      "contained more than two context switches, a non-default scheduling decision or an injected fault; distinct = different 64-bit hash of "
                      "the complete event sequence (thread, operation, object, step, workload values, recorded history)",
              "samples": samples,
              "runs_per_hour": int(agg["runs"] / hours), "seeds_per_hour": int(agg["runs"] / hours),
              "simulated_seconds": agg["sim_ns"] / 1e9, "simulated_steps": agg["steps"], "sync_operations": agg["syncs"],
              "context_switches": agg["switches"], "atomic_operations": agg["atomics"], "plain_accesses": agg["plain"],
              "distinct_interleavings": len(distinct_sched),
              "distinct_interleavings_measure": "distinct hashes of the sequence (thread, kind, object) of synchronisation operations and context switches",
              "faults_injected": {k: {"fired": v[0], "asked": v[1]} for k, v in sorted(faults.items())},
              "stale_loads": agg["stale"], "simulated_crashes": agg["crashed"],
              "probes": probes, "per_scenario": per, "determinism_rechecks": agg["verified"],
              "components": REAL_STUB(chk), "build_s": round(t_build, 1), "workers": NCPU,
              "known_findings_seen": known_seen, **({"violation": vinfo} if vinfo else {})},
          "assumptions": chk.get("assumptions", []) + [
              "the simulator serialises threads: one runs at a time, switches only at instrumented memory accesses, atomics, synchronisation calls and simulated I/O",
              "sampling: a clean batch is evidence, not proof"],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say("%s %s: %d runs (%d distinct non-trivial, %d interleavings), %d faults, build %.0fs, total %.0fs" %
        (prop, "VIOLATED" if rc else "held", agg["runs"], len(distinct), len(distinct_sched), sum(v[0] for v in faults.values()), t_build, time.time() - t0))
    zero = [k for s in scens for k in ([s["name"] + "/" + p for p in s.get("probes", [])]) if not probes.get(k)]
    if zero and not rc:
        say("note: probes never hit: " + ", ".join(zero))
    return rc


def main_replay(path):
    global HANG
    r = json.load(open(path))
    chk = CHECKS[r["property"]]
    HANG = chk.get("hang")
    s = [s for s in chk["scenarios"] if s["name"] == r["scenario"] and s["unit"] == r["unit"]][0]
    bins = build([unit_of(s)])
    f = exec_replay(bins[s["unit"]], r["scenario"], r["cpus"], r["W"], r["F"], r["S"], r["seed"], log=True)
    if f is None:
        die("replay did not run")
    say(f.get("log", ""))
    say("[%s] %s" % (f["kind"], f["msg"]))
    for pc, t in symbolise(bins[s["unit"]], f["msg"] + "\n" + f["where"]).items():
        say("  %s = %s" % (pc, t))
    if f["violation"] and f["kind"] == r["kind"]:
        say("reproduced%s" % (" exactly (same event hash)" if f["hash"] == r["event_hash"] else " (event hash differs: the code under test changed)"))
        return 1
    say("not reproduced on this tree")
    return 0


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == "--build-all":
        units = {}
        for c in CHECKS.values():
            for s in c["scenarios"]:
                units[s["unit"]] = unit_of(s)
        build(list(units.values()))
        say("built %d units" % len(units))
        return 0
    if sys.argv[1] == "--replay":
        return main_replay(sys.argv[2])
    if sys.argv[1] not in CHECKS:
        die("unknown property " + sys.argv[1])
    return main_check(sys.argv[1])


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # any other failure is an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
