#!/usr/bin/env python3
"""Deterministic simulation checks.

  check.py PROPERTY [quick|thorough]   explore, report, write the evidence file
  check.py replay FILE                 run one replay file again
  check.py build                       build the simulator from /repo
"""
import collections, concurrent.futures as cf, copy, hashlib, json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", HERE + "/.build")
SIM = BUILD + "/sim"
GOROOT = os.environ.get("GOROOT") or "/opt/veriftools/go1.24.13"
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
RUN_ENV = {"GOMAXPROCS": "1", "GOGC": "off", "GODEBUG": "asyncpreemptoff=1", "PATH": os.environ.get("PATH", ""), "TZ": "UTC", "HOME": "/nonexistent"}
RUN_WALL = 120   # seconds of wall clock after which one run counts as stuck

sys.path.insert(0, HERE)
from tools.scenarios import SCEN, REAL, STUBS, ASSUME, RULE  # noqa: E402


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(3)


def build(out=SIM):
    """Builds the simulator from REPO's working tree, without touching it."""
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(HERE + "/sim/build.py", "rb").read())
    for f in sorted(os.listdir(HERE + "/sim/rt")):
        h.update(open(HERE + "/sim/rt/" + f, "rb").read())
    env = dict(os.environ, GOROOT=GOROOT, GOFLAGS="-mod=mod -buildvcs=false", GOTOOLCHAIN="local", GOPROXY="off",
               GONOSUMDB="*", GONOSUMCHECK="1", CGO_ENABLED="0",
               # (a cache of our own: the overlay changes standard packages, which
               # must never get into the cache of ordinary builds)
               GOCACHE=BUILD + "/gocache-" + h.hexdigest()[:12])
    env["PATH"] = GOROOT + "/bin:" + env.get("PATH", "")
    for f in os.listdir(BUILD):
        if f.startswith("gocache-") and BUILD + "/" + f != env["GOCACHE"]:
            subprocess.run(["rm", "-rf", BUILD + "/" + f])
    try:
        subprocess.run([sys.executable, HERE + "/sim/build.py", BUILD, REPO], check=True, env=env, timeout=60)
        subprocess.run([GOROOT + "/bin/go", "build", "-overlay", BUILD + "/overlay.json", "-tags", "faketime", "-o", out, "./proxy/verifsim"],
                       cwd=REPO, check=True, env=env, timeout=800)
    except (subprocess.CalledProcessError, subprocess.TimeoutExpired) as e:
        die("cannot build the simulator: %s" % e)


def run(plan, verbose=False):
    """Runs one plan. Returns a dict: violations, hash, ..., or error."""
    try:
        p = subprocess.run([SIM, "run"] + (["-v"] if verbose else []), input=plan if isinstance(plan, str) else json.dumps(plan),
                           capture_output=True, text=True, errors="replace", env=RUN_ENV, timeout=RUN_WALL, cwd="/")
    except subprocess.TimeoutExpired:
        return {"hash": "stuck", "violations": [{"property": "*", "class": "stuck", "msg": "the run did not end within %d s of real time: something computes forever" % RUN_WALL}]}
    res = None
    for line in p.stdout.splitlines():
        if line.startswith("RESULT "):
            res = json.loads(line[7:])
    if p.returncode in (0, 1) and res is not None:
        res["violations"] = res.get("violations") or []
        return res
    if p.returncode == 77:
        return {"hash": "livelock", "violations": [{"property": "*", "class": "livelock", "msg": "the system keeps running without any time passing"}]}
    if p.returncode == 78:
        return {"hash": "horizon", "violations": [{"property": "*", "class": "hang", "msg": "the run does not come to an end in simulated time"}]}
    if p.returncode == 2:
        err = p.stderr
        m = re.search(r"^(panic: .*|fatal error: .*|runtime: .*)$", err, re.M)
        head = m.group(1)[:300] if m else err[-300:]
        tail = err[m.start():] if m else err
        goroutine = tail.split("\n\n")[1] if "\n\n" in tail else tail
        frames = [x for x in re.findall(r"^(\S+)\(.*\)$", goroutine, re.M) if not x.startswith(("panic", "runtime", "main."))]
        if "verifsim" in goroutine.split("created by")[0] and not any("tlsproxy/proxy" in f and "verifsim" not in f for f in frames):
            return {"error": "the simulator crashed: %s\n%s" % (head, goroutine[:1500])}
        return {"hash": "crash:" + head, "violations": [{"property": "*", "class": "crash", "msg": "%s in %s" % (head, next((f for f in frames if "tlsproxy" in f), frames[0] if frames else "?"))}]}
    return {"error": "exit code %d: %s" % (p.returncode, p.stderr[-1500:])}


def matching(res, prop):
    """The violations of a run that count against prop."""
    return [v for v in res.get("violations", []) if v["property"] in (prop, "*")]


def known_findings():
    """Lines: KNOWN property=<id> class=<class> match=<regexp> :: <what fails>"""
    out = []
    path = HERE + "/KNOWN_FINDINGS"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN property=(\S+) class=(\S+) match=(.*) :: (.*)$", line.strip())
            if m:
                out.append(dict(property=m[1], cls=m[2], re=re.compile(m[3]), what=m[4]))
    return out


def gen(scenario, tier, first, count):
    p = subprocess.run([SIM, "gen", scenario, tier, str(first), str(count)], capture_output=True, text=True, env=RUN_ENV, cwd="/")
    if p.returncode != 0:
        die("gen %s: %s" % (scenario, p.stderr[-500:]))
    return p.stdout.splitlines()


def shrink(plan, prop, cls, pool, budget):
    """ddmin over operations and faults, then simpler schedules and networks."""
    end = time.time() + budget
    tries = 0

    def bad(p):
        if time.time() > end:
            return False
        return any(v["class"] == cls for v in matching(run(p), prop))

    def first_bad(cands):
        nonlocal tries
        for i in range(0, len(cands), WORKERS):
            if time.time() > end:
                return None
            part = cands[i:i + WORKERS]
            tries += len(part)
            for c, ok in zip(part, pool.map(bad, part)):
                if ok:
                    return c
        return None

    best = copy.deepcopy(plan)
    progress = True
    while progress and time.time() < end:
        progress = False
        for key in ("faults", "ops"):
            n = 2
            while best.get(key) and time.time() < end:
                items = best[key]
                size = max(1, len(items) // n)
                cands = []
                for i in range(0, len(items), size):
                    c = copy.deepcopy(best)
                    c[key] = items[:i] + items[i + size:]
                    cands.append(c)
                got = first_bad(cands)
                if got is not None:
                    best, progress = got, True
                    n = max(2, n - 1)
                elif size == 1:
                    break
                else:
                    n = min(len(items), n * 2)
        cands = []
        for path, val in ((("sched", "stall"), 0), (("sched", "alloc"), 0), (("sched", "yield"), 0), (("sched", "mode"), 0), (("net", "jitter"), 0), (("net", "chunk"), 0)):
            if best.get(path[0], {}).get(path[1]) not in (val, None):
                c = copy.deepcopy(best)
                c[path[0]][path[1]] = val
                cands.append(c)
        for i, op in enumerate(best["ops"]):
            for sub in ("conn", "hc", "cl"):
                reqs = (op.get(sub) or {}).get("reqs") or (op.get(sub) or {}).get("steps")
                if reqs and len(reqs) > 1:
                    k = "reqs" if (op.get(sub) or {}).get("reqs") else "steps"
                    for j in range(len(reqs)):
                        c = copy.deepcopy(best)
                        del c["ops"][i][sub][k][j]
                        cands.append(c)
        got = first_bad(cands)
        if got is not None:
            best, progress = got, True
    return best, tries


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop not in SCEN:
        die("no check for " + prop)
    build()
    tb = time.time()
    conf = SCEN[prop]
    scale = 1 if tier == "quick" else 20
    limit = (conf.get("wall", 60) if tier == "quick" else 780)
    jobs = []
    for scen, count in conf["runs"]:
        plans = gen(scen, tier, (seed * 1000003 + 1) % (1 << 40), count * scale)
        jobs += [(i / len(plans), scen, p) for i, p in enumerate(plans)]
    jobs.sort(key=lambda j: j[0])
    corpus = HERE + "/corpus/" + prop
    if os.path.isdir(corpus):
        jobs = [(-1, "corpus", json.dumps(json.load(open(corpus + "/" + f)))) for f in sorted(os.listdir(corpus))] + jobs
    known = known_findings()
    faults, probes, scens = collections.Counter(), collections.Counter(), collections.Counter()
    hashes, nontrivial, known_hit = set(), set(), {}
    tot = collections.Counter()
    samples, bad, errors, found = [], [], [], threading.Event()
    lock = threading.Lock()

    def one(job):
        _, scen, text = job
        if time.time() - tb > limit or found.is_set():
            return
        r = run(text)
        with lock:
            if "error" in r:
                errors.append((text, r["error"]))
                if len(errors) > 3:
                    found.set()
                return
            tot["runs"] += 1
            scens[scen] += 1
            hashes.add(r["hash"])
            tot["sim_ns"] += r.get("sim_ns", 0)
            tot["checks"] += r.get("checks", 0)
            tot["events"] += r.get("events", 0)
            tot["inconclusive"] += (r.get("probes") or {}).get("inconclusive", 0)
            for k, v in (r.get("schedstat") or {}).items():
                if k != "Hash":
                    tot[k] += v
            faults.update(r.get("faults") or {})
            probes.update(r.get("probes") or {})
            if r.get("checks", 0) > 0:
                nontrivial.add(r["hash"])
            if len(samples) < 3 and r.get("checks", 0) > 0:
                samples.append({"plan": json.loads(text), "hash": r["hash"], "sim_s": r.get("sim_ns", 0) / 1e9, "events": r.get("events")})
            for v in matching(r, prop):
                k = next((k for k in known if k["property"] == prop and k["cls"] == v["class"] and k["re"].search(v["msg"])), None)
                if k:
                    known_hit[k["what"]] = known_hit.get(k["what"], 0) + 1
                    continue
                bad.append((text, v, r["hash"]))
                found.set()
            if tot["runs"] % 50 == 7 and scen != "corpus":
                again = text
            else:
                return
        r2 = run(again)
        with lock:
            tot["repeats"] += 1
            if r2.get("hash") != r["hash"]:
                errors.append((again, "not deterministic: %s then %s, plan %s" % (r["hash"], r2.get("hash"), again)))

    pool = cf.ThreadPoolExecutor(WORKERS)
    list(pool.map(one, jobs))
    wall_runs = time.time() - tb
    rc = 0
    replay = None
    if bad:
        # The shortest plan found, run again, made smaller, and written out.
        text, v, h = min(bad, key=lambda b: len(b[0]))
        plan = json.loads(text)
        r = run(plan)
        if not any(x["class"] == v["class"] for x in matching(r, prop)):
            die("a violation did not repeat: %s, plan %s" % (v, text))
        small, tries = shrink(plan, prop, v["class"], pool, 45 if tier == "quick" else 240)
        r = run(small)
        mine = [x for x in matching(r, prop) if x["class"] == v["class"]]
        if not mine:
            small, r = plan, run(plan)
            mine = [x for x in matching(r, prop) if x["class"] == v["class"]]
        small["property"] = prop
        small["violation"] = "%s: %s" % (mine[0]["class"], mine[0]["msg"])
        small["hash"] = r["hash"]
        d = HERE + "/replays"
        os.makedirs(d, exist_ok=True)
        replay = "%s/%s-%s.json" % (d, prop, hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:12])
        with open(replay, "w") as f:
            json.dump(small, f, indent=1)
        print("seed %s of %s, made smaller in %d runs; %d operations, %d faults" % (plan["seed"], plan["scenario"], tries, len(small["ops"]), len(small.get("faults") or [])))
        print("  %s: %s" % (mine[0]["class"], mine[0]["msg"]))
        for line in (r.get("log") or "").splitlines()[-60:]:
            print("  | " + line[:240])
        rc = 1
    pool.shutdown()
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(nontrivial), "rule": RULE,
            "samples": samples or [{"plan": json.loads(jobs[0][2])}],
            "runs_planned": len(jobs), "runs_by_scenario": dict(scens),
            "distinct_executions": len(hashes),
            "distinct_measure": "hash over every scheduling decision, event and its simulated time of a run",
            "runs_per_hour": round(tot["runs"] / max(wall_runs, 0.001) * 3600),
            "seeds_per_hour": round(tot["runs"] / max(wall_runs, 0.001) * 3600),
            "simulated_seconds": round(tot["sim_ns"] / 1e9, 1),
            "invariant_evaluations": tot["checks"], "events": tot["events"],
            "scheduler": {k: tot[k] for k in ("Picks", "Switches", "Preempts", "Stalls", "TimeJumps")},
            "faults_injected": dict(sorted(faults.items())),
            "situations_reached": dict(sorted(probes.items())),
            "inconclusive": tot["inconclusive"],
            "determinism_rechecks": tot["repeats"],
            "build_s": round(tb - t0, 1),
            "real_components": REAL, "stubbed_components": STUBS,
            "known_findings_met": known_hit,
        },
        "assumptions": ASSUME, "wall_s": round(wall, 1), "violations": len(bad),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d runs (%d distinct), %.0f simulated s, %d invariant evaluations, %d faults, %.1f s" % (prop, tier, tot["runs"], len(hashes), tot["sim_ns"] / 1e9, tot["checks"], sum(faults.values()), wall))
    if rc:
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        sys.exit(1)
    if errors:
        open(BUILD + "/error-plan.json", "w").write(errors[0][0])
        die("%d runs failed, first: %s" % (len(errors), errors[0][1]))
    if tot["runs"] == 0:
        die("nothing was explored")


def replay(path):
    build()
    plan = json.load(open(path))
    prop, cls = plan["property"], plan["violation"].split(":")[0]
    r = run(plan)
    if "error" in r:
        die(r["error"])
    mine = [v for v in matching(r, prop) if v["class"] == cls]
    print(r.get("log") or "")
    print("hash %s, recorded %s" % (r["hash"], plan.get("hash")))
    if mine:
        print("  %s: %s" % (mine[0]["class"], mine[0]["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    print("the violation does not occur on this tree")


if __name__ == "__main__":
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "build":
        build()
    elif a[0] == "replay":
        replay(a[1])
    else:
        check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
