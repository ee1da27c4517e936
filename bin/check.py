#!/usr/bin/env python3
"""Driver of the deterministic simulator.

  check.py check <PROPERTY>          decide one property (VERIF_SEED, VERIF_TIER from the environment)
  check.py replay <FILE>             run a replay file again; exit 1 if it still fails
  check.py selftest [runs]           every run twice, in different processes and worker counts; diff

Exit codes of `check`: 0 held on everything explored, 1 violation (VIOLATION line), 70 the check itself failed.
"""
import copy, json, mmap, os, re, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GSIM = os.path.join(ROOT, "sim/target/x86_64-unknown-linux-gnu/debug/gsim")
NONE = 2**64 - 1

# runs per tier, per property: (quick, thorough); the wall caps are a safety net on slow machines
RUNS = {}
DEFAULT_RUNS = (150_000, 6_000_000)
WALL = {"quick": 40.0, "thorough": 600.0}
SHRINK_WALL = {"quick": 45.0, "thorough": 120.0}

SCOPE = {}


def log(*a):
    print("#", *a, flush=True)


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(70)


def build(prop=None):
    env = dict(os.environ)
    env.pop("GSIM_PAIRS", None)
    if prop in (None, "C19", "C23"):
        env["GSIM_PAIRS"] = "1"
    r = subprocess.run(["bash", os.path.join(ROOT, "bin/build.sh")], stdout=sys.stderr, env=env)
    if r.returncode != 0:
        die("build failed")


class Stop:
    def __init__(self):
        fd, self.path = tempfile.mkstemp(prefix="gsim-stop-")
        os.write(fd, struct.pack("<Q", NONE))
        self.m = mmap.mmap(fd, 8)
        os.close(fd)

    def get(self):
        return struct.unpack("<Q", self.m[:8])[0]

    def close(self):
        self.m.close()
        os.unlink(self.path)


FATAL = re.compile(r"^FATAL (\d+) (\S+) ?(.*)$")


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            # known: property=C01 class=some-class <text>
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def workers(prop, tier, seed, runs, wall, n, known):
    """Run indices 0..runs strided over n processes; returns (stats list, failures {index: ...}, errors)."""
    stop = Stop()
    stats, fails, errs, skipped = [], {}, [], 0
    t_end = time.time() + wall
    procs = {}

    def start(k, frm):
        left = max(0, int((t_end - time.time()) * 1000))
        f = tempfile.TemporaryFile(mode="w+")
        p = subprocess.Popen(
            [GSIM, "batch", prop, tier, str(seed), str(frm), str(runs), str(n), str(left), stop.path, ",".join(known)],
            stdout=f, stderr=subprocess.PIPE, text=True)
        procs[k] = (p, f)

    for k in range(n):
        start(k, k)
    while procs:
        for k in list(procs):
            p, f = procs[k]
            try:
                _, err = p.communicate(timeout=0.02 if len(procs) > 1 else 0.2)
            except subprocess.TimeoutExpired:
                if time.time() > t_end + 360:
                    p.kill()
                continue
            f.seek(0)
            text = f.read()
            f.close()
            del procs[k]
            done = False
            for line in text.splitlines():
                if line.startswith("STATS "):
                    stats.append(json.loads(line[6:]))
                    done = done or not stats[-1]["part"]
                elif line.startswith("VIOL "):
                    d = json.loads(line[5:])
                    fails[d["index"]] = d["viols"]
                else:
                    m = FATAL.match(line)
                    if m:
                        done = True
                        i = int(m.group(1))
                        if m.group(2) == "toomany":
                            skipped += 1
                            start(k, i + n)
                        else:
                            fails[i] = [{"prop": "*", "class": m.group(2), "msg": m.group(2) + " " + m.group(3)}]
            if not done:
                errs.append("worker %d ended with status %s: %s" % (k, p.returncode, (err or "")[-500:]))
    stop.close()
    return stats, fails, errs, skipped


# ------------------------------------------------------------------ executing single cases


def exec_cases(cases, want_trace=False):
    """Outcome per case: {"viols": [...], "trace": [...]} or {"bad": True}."""
    res = [None] * len(cases)
    base = 0
    with tempfile.TemporaryDirectory(prefix="gsim-") as d:
        while base < len(cases):
            cf, tf = os.path.join(d, "c.json"), os.path.join(d, "trace")
            with open(cf, "w") as f:
                json.dump({"cases": cases[base:]}, f)
            if os.path.exists(tf):
                os.unlink(tf)
            p = subprocess.run([GSIM, "exec", cf, tf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            upto = base
            fatal = None
            for line in p.stdout.splitlines():
                if line.startswith("RES "):
                    o = json.loads(line[4:])
                    res[base + o["i"]] = o
                    upto = max(upto, base + o["i"] + 1)
                else:
                    m = FATAL.match(line)
                    if m:
                        fatal = (base + int(m.group(1)), m.group(2), m.group(2) + " " + m.group(3))
            if fatal:
                i, kind, msg = fatal
                tr = []
                if os.path.exists(tf):
                    tr = [[int(x) for x in l.split()] for l in open(tf) if len(l.split()) == 3]
                res[i] = {"viols": [{"prop": "*", "class": kind, "msg": msg}], "trace": tr, "fatal": True}
                base = i + 1
            elif p.returncode == 0 and upto == len(cases):
                break
            else:
                for i in range(upto, len(cases)):
                    res[i] = {"bad": True, "err": p.stderr[-300:]}
                break
    return res


def exec_many(cases, nproc=8):
    if len(cases) <= 2:
        return exec_cases(cases)
    from concurrent.futures import ThreadPoolExecutor
    n = min(nproc, len(cases))
    parts = [cases[k::n] for k in range(n)]
    res = [None] * len(cases)
    with ThreadPoolExecutor(n) as ex:
        for k, r in enumerate(ex.map(exec_cases, parts)):
            res[k::n] = r
    return res


def has(out, sig):
    return bool(out) and any(v["prop"] == sig[0] and v["class"] == sig[1] for v in out.get("viols", []))


# ------------------------------------------------------------------ minimisation


def paths(x, pre=()):
    if isinstance(x, list):
        yield ("list", pre)
        for i, y in enumerate(x):
            yield from paths(y, pre + (i,))
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from paths(y, pre + (k,))
    elif isinstance(x, bool):
        if x:
            yield ("bool", pre)
    elif isinstance(x, int):
        if x:
            yield ("int", pre)


def at(x, p):
    for k in p:
        x = x[k]
    return x


def put(x, p, v):
    if not p:
        return v
    y = copy.copy(x)
    y[p[0]] = put(x[p[0]], p[1:], v)
    return y


def plan_candidates(plan):
    """Smaller plans, the boldest first."""
    lists = [p for k, p in paths(plan) if k == "list"]
    for p in lists:
        l = at(plan, p)
        n = len(l)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                yield put(plan, p, l[:s] + l[s + size:])
            size //= 2
    for k, p in paths(plan):
        v = at(plan, p)
        if k == "bool":
            yield put(plan, p, False)
        elif k == "int":
            for w in sorted({0, 1, v // 2, v - 1}):
                if w < v:
                    yield put(plan, p, w)


def size_of(plan):
    s = json.dumps(plan)
    return (len(s), sum(int(x) for x in re.findall(r"\d+", s)))


def minimise(case, sig, wall):
    t_end = time.time() + wall
    quiet = {**case["sched"], "strategy": "trace", "trace": []}
    best = case
    if has(exec_cases([{**case, "sched": quiet}])[0], sig):
        best = {**case, "sched": quiet}  # no preemption needed

    def scheds(c, salt):
        if c["sched"]["strategy"] == "trace":
            return [c["sched"]]
        l = [c["sched"], quiet]
        for k in range(5):
            l.append({**c["sched"], "seed": (c["sched"]["seed"] * 31 + salt * 7 + k + 1) % (1 << 52)})
        return l

    tried = 0
    improved = True
    while improved and time.time() < t_end:
        improved = False
        seen = set()
        batch = []
        for cand in plan_candidates(best["plan"]):
            if size_of(cand) >= size_of(best["plan"]):
                continue
            key = json.dumps(cand)
            if key in seen:
                continue
            seen.add(key)
            batch.append(cand)
        i = 0
        while i < len(batch) and time.time() < t_end:
            part = batch[i:i + 24]
            cases = [{**best, "plan": c, "sched": s} for c in part for s in scheds(best, tried)]
            per = len(cases) // len(part)
            tried += len(cases)
            outs = exec_many(cases)
            ok = [cases[k] for k, o in enumerate(outs) if has(o, sig)]
            if ok:
                best = min(ok, key=lambda c: size_of(c["plan"]))
                improved = True
                break
            i += 24
    # the schedule: replace the strategy by its decisions, then drop decisions
    out = exec_cases([best])[0]
    if not has(out, sig):
        return case, tried
    if best["sched"]["strategy"] != "trace":
        tc = {**best, "sched": {**best["sched"], "strategy": "trace", "trace": out["trace"]}}
        o2 = exec_cases([tc])[0]
        if not has(o2, sig):
            return best, tried
        best = tc
    size = max(1, len(best["sched"]["trace"]) // 2)
    t_end = max(t_end, time.time() + wall / 2)
    while best["sched"]["trace"] and time.time() < t_end:
        tr = best["sched"]["trace"]
        cands = [tr[:s] + tr[s + size:] for s in range(0, len(tr), size)]
        hit = False
        for k in range(0, len(cands), 32):
            part = [{**best, "sched": {**best["sched"], "trace": t}} for t in cands[k:k + 32]]
            tried += len(part)
            outs = exec_many(part)
            ok = [part[j] for j, o in enumerate(outs) if has(o, sig)]
            if ok:
                best = min(ok, key=lambda c: len(c["sched"]["trace"]))
                hit = True
                break
            if time.time() > t_end:
                break
        if not hit:
            if size == 1:
                break
            size = max(1, size // 2)
        else:
            size = max(1, min(size, len(best["sched"]["trace"]) // 2 or 1))
    return best, tried


def symbolise(msg):
    pcs = re.findall(r"pc (0x[0-9a-f]+)", msg)
    if not pcs:
        return msg
    try:
        o = subprocess.run(["addr2line", "-e", GSIM, "-C", "-f", "-i", "-s"] + pcs, stdout=subprocess.PIPE, text=True, timeout=30).stdout
        return msg + " [" + " | ".join(o.split("\n"))[:1500] + "]"
    except Exception:
        return msg


def write_replay(prop, tier, seed, index, sig, case, original, msg, tried):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", "%s-seed%d-run%d.json" % (prop, seed, index))
    out = exec_cases([case])[0]
    d = {
        "property": prop, "signature": sig, "message": msg,
        "found_by": {"seed": seed, "tier": tier, "run": index},
        "scenario": case["scenario"], "case": case, "original_case": original,
        "schedule_decisions": len(case["sched"]["trace"]) if case["sched"]["strategy"] == "trace" else None,
        "observed": {"violations": out.get("viols"), "steps": out.get("steps"), "schedule_hash": out.get("hash")},
        "minimisation_runs": tried,
        "replay": "python3 bin/check.py replay " + path,
        "format": "schedule decisions are [thread uid, own scheduling point, thread to run next (bit 63: stall the first)]",
    }
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return path


def handle_failure(prop, tier, seed, index, viols, known):
    raw = subprocess.run([GSIM, "case", prop, tier, str(seed), str(index)], stdout=subprocess.PIPE, text=True).stdout
    case = json.loads(raw)
    v = viols[0]
    sig = [v["prop"], v["class"]]
    outs = [exec_cases([case])[0] for _ in range(2)]
    for o in outs:
        if not has(o, sig) and o and o.get("viols"):
            rel = [x for x in o["viols"] if x["prop"] in (prop, "*")]
            if rel:
                sig = [rel[0]["prop"], rel[0]["class"]]
    tried = 0
    best = case
    if has(outs[0], sig) and has(outs[1], sig):
        best, tried = minimise(case, sig, SHRINK_WALL[tier])
    else:
        log("the failure did not repeat in a fresh process; it is reported unminimised")
    o = exec_cases([best])[0]
    msg = next((x["msg"] for x in (o or {}).get("viols", []) if [x["prop"], x["class"]] == sig), v["msg"])
    msg = symbolise(msg)
    path = write_replay(prop, tier, seed, index, sig, best, case, msg, tried)
    return path, sig, msg, best


# ------------------------------------------------------------------ commands


def merge_counts(stats, key):
    out = {}
    for s in stats:
        for k, v in s.get(key, {}).items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in WALL:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    log("property", prop, "tier", tier, "VERIF_SEED", seed)
    build(prop)
    t_build = time.time() - t0
    q, th = RUNS.get(prop, DEFAULT_RUNS)
    runs = q if tier == "quick" else th
    if os.environ.get("GSIM_RUNS"):
        runs = int(os.environ["GSIM_RUNS"])
    n = min(8, os.cpu_count() or 1)
    known = known_findings(prop)
    t1 = time.time()
    stats, fails, errs, skipped = workers(prop, tier, seed, runs, WALL[tier], n, [k[0] for k in known])
    sim_wall = time.time() - t1
    total = sum(s["runs"] for s in stats)
    hashes = set()
    for s in stats:
        hashes.update(s["hashes"])
    tot = lambda k: sum(s[k] for s in stats)
    counts = merge_counts(stats, "counts")
    faults = {k[6:]: v for k, v in counts.items() if k.startswith("fault:")}
    faults["stalled_thread"] = tot("stalls")
    faults["preemption"] = tot("preemptions")
    runs_with = merge_counts(stats, "runs_with")
    samples = []
    for s in stats:
        samples += [x for x in s["samples"] if all(x["index"] != y["index"] for y in samples)][:1]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(hashes),
            "rule": "one evaluation is one simulated run: a generated workload (plan) executed against the real goggles "
                    "code under a seeded scheduler. A run is non-trivial if at least one involuntary context switch, "
                    "stall or injected fault took place in it; two runs are distinct if they differ in the plan or in the "
                    "sequence of context switches (thread, own step) actually taken.",
            "nontrivial_runs": tot("nontrivial"),
            "samples": samples[:3],
            "runs_per_hour": int(total / max(sim_wall, 0.001) * 3600),
            "workers": n,
            "simulated_steps": tot("steps"),
            "simulated_time_note": "goggles reads no clock and sets no timer; simulated time is counted in scheduling points",
            "scheduling_points_with_choice": tot("parallel_steps"),
            "context_switches": tot("switches"),
            "atomic_operations_seen": tot("atomics"),
            "plain_accesses_seen": tot("plains"),
            "failed_compare_exchanges": tot("cas_fail"),
            "threads_simulated": tot("fibers"),
            "pct_priority_changes": tot("pct_changes"),
            "longest_run_steps": max([s["max_steps"] for s in stats] or [0]),
            "faults_injected": faults,
            "runs_with_fault": {k[6:]: v for k, v in runs_with.items() if k.startswith("fault:")},
            "rare_conditions_hit": {k[6:]: v for k, v in counts.items() if k.startswith("probe:")},
            "other_counters": {k: v for k, v in counts.items() if ":" not in k or k.startswith("pool:")},
            "runs_by_scenario_and_strategy": merge_counts(stats, "strategies"),
            "runs_skipped_thread_limit": skipped,
            "real_code": ["goggles (all of it, /repo working tree)", "hibitset", "atomic_refcell", "rustc-hash",
                          "rayon (the parallel iterator layer)", "alloc/core/std"],
            "stubs": ["rayon-core: sim/vendor/rayon-core (join, scope and pools on simulated threads)",
                      "OS threads, futexes, sleeps, clocks, random bytes: sim/rt/rt.c", "global allocator: fixed-address arena"],
        },
        "assumptions": [
            "sequentially consistent interleavings at the granularity of instrumented memory accesses; weaker hardware orders "
            "are only judged through the happens-before race detector (C19)",
            "a clean batch is evidence over the explored schedules and workloads, not a proof",
        ],
        "wall_s": 0.0,
        "violations": len(fails),
    }

    def finish(code):
        ev["wall_s"] = round(time.time() - t0, 2)
        ev["coverage"]["build_s"] = round(t_build, 2)
        ev["coverage"]["simulation_s"] = round(sim_wall, 2)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
        sys.exit(code)

    log("%d runs in %.1f s (%d distinct non-trivial), build %.1f s" % (total, sim_wall, len(hashes), t_build))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]), flush=True)
    if fails:
        index = min(fails)
        path, sig, msg, best = handle_failure(prop, tier, seed, index, fails[index], known)
        ev["coverage"]["violation"] = {"run": index, "signature": sig, "message": msg, "replay": path}
        log("run %d of seed %d: [%s] %s" % (index, seed, sig[1], msg))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        finish(1)
    if errs or not stats or total == 0:
        for e in errs:
            log(e)
        ev["coverage"]["errors"] = errs
        print("ERROR: the simulation did not complete", flush=True)
        finish(70)
    finish(0)


def replay(path):
    build()
    d = json.load(open(path))
    sig = d["signature"]
    same = []
    for _ in range(2):
        o = exec_cases([d["case"]])[0]
        same.append((has(o, sig), o.get("hash"), o.get("steps")))
        for v in o.get("viols", []):
            log("[%s/%s] %s" % (v["prop"], v["class"], symbolise(v["msg"])))
    if same[0] != same[1]:
        die("two replays differ: %s" % (same,))
    if same[0][0]:
        print("VIOLATION property=%s replay=%s" % (d["property"], path), flush=True)
        sys.exit(1)
    log("the replay no longer fails")
    sys.exit(0)


def selftest(runs):
    build()
    props = [json.loads(l)["property"] if False else c["property"]
             for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"] for l in [""]]
    bad = 0
    for prop in props:
        for seed in (1, 7):
            ref = None
            for stride in (1, 3, 8):
                ps = [subprocess.Popen([GSIM, "digest", prop, "quick", str(seed), str(k), str(runs), str(stride)],
                                       stdout=subprocess.PIPE, text=True,
                                       env={**os.environ, "GSIM_NOISE": "x" * (stride * 37 + k)}) for k in range(stride)]
                lines = []
                for p in ps:
                    lines += p.communicate()[0].splitlines()
                lines = sorted(l for l in lines if l.strip())
                if ref is None:
                    ref = lines
                elif lines != ref:
                    bad += 1
                    diff = [a for a in lines if a not in set(ref)][:3]
                    log("DIFFERENT", prop, "seed", seed, "processes", stride, diff)
            log(prop, "seed", seed, len(ref), "runs: digest sets equal in 1, 3 and 8 processes" if not bad else "")
    print("selftest:", "FAILED" if bad else "ok", flush=True)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "check":
        check(a[1])
    elif len(a) == 2 and a[0] == "replay":
        replay(a[1])
    elif a and a[0] == "selftest":
        selftest(int(a[1]) if len(a) > 1 else 300)
    else:
        print(__doc__)
        sys.exit(70)
