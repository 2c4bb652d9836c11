#!/usr/bin/env python3
"""Deterministic-simulation checks for aldebaran/mpc-walkgen.

  check.py PROP [--tier quick|thorough] [--runs N] [--seconds S]   decide one property
  check.py --build                                                build everything
  check.py --replay FILE                                          re-execute a replay file
  check.py --selftest [N]                                         determinism experiment

Exit 0: property held on everything explored. 1: VIOLATION line printed. Anything else: the check itself failed.
"""
import sys, os, subprocess, hashlib, json, time, glob, re, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
JOBS = min(8, os.cpu_count() or 1)

VARIANTS = {
    "rel": {"flags": ["-O1"], "hflags": ["-O2"], "link": []},
    "asan": {"flags": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
             "hflags": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], "link": ["-fsanitize=address,undefined"]},
}
# property -> (quick runs, thorough runs, quick cap s, thorough cap s, variants)
PLAN = {
    "C01": (72000, 400000, 240, 3000, ["rel"]),
    "C02": (36000, 200000, 240, 3000, ["rel"]),
    "C03": (72000, 400000, 240, 3000, ["rel"]),
    "C04": (12000, 80000, 240, 3000, ["rel"]),
    "C05": (12000, 80000, 240, 3000, ["rel"]),
    "C06": (24000, 120000, 240, 3000, ["rel"]),
    "C07": (24000, 120000, 240, 3000, ["rel"]),
    "C08": (12000, 80000, 240, 3000, ["rel"]),
    "C09": (12000, 80000, 240, 3000, ["rel"]),
    "C10": (24000, 120000, 240, 3000, ["rel"]),
    "C11": (18000, 100000, 240, 3000, ["rel"]),
    "C12": (36000, 200000, 240, 3000, ["rel"]),
    "C13": (15000, 100000, 240, 3000, ["rel"]),
    "C14": (5000, 40000, 240, 3000, ["asan"]),
    "C15": (15000, 80000, 240, 3000, ["rel"]),
    "C16": (4500, 20000, 240, 3000, ["rel"]),
    "C17": (15000, 80000, 240, 3000, ["rel"]),
    "C18": (15000, 80000, 240, 3000, ["rel"]),
}
TITLES = {}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


# ---------------------------------------------------------------- build
def repo_sources():
    s = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) + sorted(glob.glob(REPO + "/qpsolver/src/*.cpp"))
    return s


def build(variant):
    v = VARIANTS[variant]
    inc = ["-I" + SIM + "/stub", "-I" + SIM, "-I" + REPO, "-I" + REPO + "/qpsolver", "-isystem", "/usr/include/eigen3"]
    api = ["-DMPC_WALKGEN_API_H", '-DMPC_WALKGEN_API=__attribute__((visibility("default")))', "-DMPC_WALKGEN_QPSOLVER_API_H",
           '-DMPC_WALKGEN_QPSOLVER_API=__attribute__((visibility("default")))']
    jobs = []
    for f in repo_sources():
        fl = ["-std=c++14"] + v["flags"] + api + inc
        if os.path.basename(f).endswith("_float.cpp"):
            fl = fl + ["-DQPOASES_REAL_IS_FLOAT"]
        jobs.append((f, fl))
    for f in sorted(glob.glob(SIM + "/*.cpp")):
        fl = ["-std=c++17"] + (v["hflags"] if os.path.basename(f) not in ("inst.cpp",) else v["flags"]) + api + inc
        jobs.append((f, fl))
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)

    def one(job):
        f, fl = job
        p = sh(["g++"] + fl + ["-w", "-E", f])
        if p.returncode:
            raise CheckError("preprocessing failed: %s\n%s" % (f, p.stderr.decode()[-3000:]))
        key = hashlib.sha256(p.stdout + " ".join(fl).encode() + variant.encode()).hexdigest()[:32]
        o = os.path.join(odir, key + ".o")
        if not os.path.exists(o):
            tmp = "%s.%d.tmp" % (o, os.getpid())
            c = sh(["g++"] + fl + ["-w", "-c", f, "-o", tmp])
            if c.returncode:
                raise CheckError("compilation failed: %s\n%s" % (f, c.stderr.decode()[-3000:]))
            os.replace(tmp, o)
        else:
            os.utime(o)
        return o

    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, jobs))
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "sim-%s-%s" % (variant, key))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        c = sh(["g++", "-o", tmp] + objs + v["link"])
        if c.returncode:
            raise CheckError("link failed\n" + c.stderr.decode()[-3000:])
        os.replace(tmp, exe)
    # keep the cache small
    olds = sorted(glob.glob(odir + "/*.o"), key=os.path.getmtime)
    if len(olds) > 1200:
        for o in olds[:300]:
            os.unlink(o)
    exes = sorted(glob.glob(BUILD + "/sim-*"), key=os.path.getmtime)
    for x in exes[:-12]:
        if x != exe:
            os.unlink(x)
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1",
           MALLOC_ARENA_MAX="1")


# ---------------------------------------------------------------- exploration
def run_batch(exe, prop, seed, tier, runs, cap, workers=JOBS, start=0):
    procs = []
    for w in range(workers):
        n = (runs - w + workers - 1) // workers
        procs.append(subprocess.Popen([exe, "batch", prop, str(seed), tier, str(start + w), str(workers), str(n), str(cap)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV))
    runs_, counters, states, errors = [], {}, set(), []
    with ThreadPoolExecutor(workers) as ex:
        outs = list(ex.map(lambda p: p.communicate()[0].decode(errors="replace"), procs))
    for w, (p, out) in enumerate(zip(procs, outs)):
        if p.returncode != 0:
            raise CheckError("worker failed with %d" % p.returncode)
        done, group = False, 0
        for line in out.split("\n"):
            if line.startswith("G "):
                group = int(line[2:])
            elif line.startswith("R "):
                head, _, msg = line.partition("\t")
                x = head.split(" ")
                runs_.append({"i": start + w + int(x[1]) * workers, "seed": int(x[2]), "hash": x[3], "sig": x[4], "nt": x[5] == "1", "bad": x[6] == "1", "cls": x[7] if len(x) > 7 else "", "msg": msg,
                              "before": [start + w + k * workers for k in range(group, int(x[1]))]})
            elif line.startswith("C "):
                _, k, val = line.split(" ")
                val = float(val)
                if k.startswith("max."):
                    counters[k] = max(counters.get(k, 0), val)
                else:
                    counters[k] = counters.get(k, 0) + val
            elif line.startswith("T "):
                states.add(line[2:])
            elif line.startswith("E "):
                errors.append(line)
            elif line.startswith("D "):
                done = True
        if not done:
            raise CheckError("worker ended early")
    if errors:
        raise CheckError("harness error: " + errors[0])
    runs_.sort(key=lambda r: r["i"])
    return runs_, counters, states


def replay(exe, path):
    p = sh([exe, "replay", path], env=ENV)
    out = p.stdout.decode(errors="replace").strip()
    if p.returncode == 0 and out.startswith("OK"):
        return False, out.split()[1], "", ""
    if p.returncode == 1 and out.startswith("VIOLATED"):
        head, _, msg = out.partition("\t")
        x = head.split(" ")
        return True, x[1], x[2], msg
    raise CheckError("replay of %s failed: %d %s" % (path, p.returncode, out[:500]))


def gen(exe, prop, rs, tier):
    p = sh([exe, "gen", prop, str(rs), tier], env=ENV)
    if p.returncode:
        raise CheckError("gen failed")
    return p.stdout.decode()


def with_prefix(exe, prop, tier, r, byidx):
    """the runs its process executed before it, then the run"""
    return "".join(gen(exe, prop, byidx[i]["seed"], tier) for i in r["before"] if i in byidx) + gen(exe, prop, r["seed"], tier)


def known_findings():
    out = []
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m:
                out.append({"prop": m.group(1), "cls": m.group(2), "re": m.group(3), "what": m.group(4)})
    return out


def variant_of_file(path):
    for l in open(path):
        if l.startswith("# variant "):
            return l.split()[2]
        m = re.match(r"property (\S+)", l)
        if m:
            return PLAN.get(m.group(1), (0, 0, 0, 0, ["rel"]))[4][0]
    return "rel"


def handle_violations(exe, variant, prop, tier, runs_):
    """Gate, minimise and report. Returns number of unlisted violations reported."""
    bad = [r for r in runs_ if r["bad"]]
    reported, known_hit = 0, {}
    seen = set()
    kf = [k for k in known_findings() if k["prop"] == prop]
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    gate_fail = None
    tried = {}
    byidx = {r["i"]: r for r in runs_}
    for r in bad:
        hit = next((k for k in kf if k["cls"] == r["cls"] and re.search(k["re"], r["msg"])), None)
        if hit:
            known_hit.setdefault(hit["what"], 0)
            known_hit[hit["what"]] += 1
            continue
        if r["cls"] in seen or len(seen) >= 3 or tried.get(r["cls"], 0) >= 3:
            continue
        tried[r["cls"]] = tried.get(r["cls"], 0) + 1
        raw = os.path.join(rdir, "%s-%s-%d.raw.trace" % (prop, r["cls"], r["seed"]))
        open(raw, "w").write("# variant %s\n" % variant + gen(exe, prop, r["seed"], tier))

        def exact():
            a, b = replay(exe, raw), replay(exe, raw)
            return a, b, a[0] and b[0] and a[1] == b[1] and a[2] == r["cls"] == b[2] and (a[1] == r["hash"] or r["cls"] in ("crash", "hang", "exception", "state-leak"))
        if r["cls"] != "state-leak":
            a, b, ok = exact()
        else:
            ok = False
        if not ok:
            # state of the code under test left by the runs its process executed before
            open(raw, "w").write("# variant %s\n" % variant + ("mode leak\n" if r["cls"] == "state-leak" else "") + with_prefix(exe, prop, tier, r, r.get("byidx", byidx)))
            a, b, ok = exact()
        if not ok:
            gate_fail = "run seed %d (%s) does not replay identically: %s %s %s" % (r["seed"], r["cls"], r["hash"], a, b)
            continue
        mini = os.path.join(rdir, "%s-%s-%d.trace" % (prop, r["cls"], r["seed"]))
        m = sh([exe, "minimise", raw, mini, "40"], env=ENV)
        ok = m.returncode == 0 and os.path.exists(mini)
        if ok:
            txt = open(mini).read()
            open(mini, "w").write("# variant %s\n" % variant + txt)
            c, d = replay(exe, mini), replay(exe, mini)
            ok = c[0] and d[0] and c[1] == d[1] and c[2] == r["cls"]
        if not ok:
            mini = raw
            c = a
        seen.add(r["cls"])
        print("  %s: %s [run seed %d, %d ops minimised, %d of %d runs]" % (c[2], c[3], r["seed"], sum(1 for l in open(mini) if l.startswith("op ")), sum(1 for q in bad if q["cls"] == r["cls"]), len(runs_)))
        print("VIOLATION property=%s replay=%s" % (prop, mini))
        reported += 1
    for w, n in known_hit.items():
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, w, n))
    if reported == 0 and gate_fail:
        raise CheckError(gate_fail)
    return reported


RULE = ("one case is one simulated run: a seeded generator draws a controller, a configuration, a schedule of feedback ticks (jittered, partial, late), "
        "setting changes, state disturbances, restarts and solver faults; the run executes the real controller. Non-trivial: at least one injected solver fault fired, "
        "an optimisation problem had active constraints or was truly infeasible, or a twin/restart was created. Distinct: different hash of the executed schedule and its outcomes.")


def leaks(exe, variant, prop, tier, diff, h1, h2):
    """A run that went differently in another process layout: either state the code keeps between controllers (C11 reports it,
    the other properties ignore it), or the simulation itself is not deterministic (an error of the harness)."""
    tmp = tempfile.mkdtemp()
    try:
        for x in diff[:5]:
            for y, by in ((x, h2), (h1[x["i"]], h1)):
                f = os.path.join(tmp, "t.trace")
                open(f, "w").write("mode leak\n" + with_prefix(exe, prop, tier, y, by))
                a, b = replay(exe, f), replay(exe, f)
                if a[0] and a == b:
                    print("  runs depend on the controllers used before in the process (%d of those executed twice)" % len(diff))
                    return [dict(y, cls="state-leak", bad=True, msg=a[3], byidx=by)] if prop == "C11" else []
    finally:
        shutil.rmtree(tmp)
    raise CheckError("nondeterministic runs: %s" % [(x["i"], x["seed"], x["hash"], h1[x["i"]]["hash"]) for x in diff[:3]])


def decide(prop, tier, seed, runs=None, cap=None):
    t0 = time.time()
    plan = PLAN[prop]
    total = runs or (plan[0] if tier == "quick" else plan[1])
    cap = cap or (plan[2] if tier == "quick" else plan[3])
    allruns, counters, states = [], {}, set()
    reported = 0
    tbuild = 0
    texp = 0
    for variant in plan[4]:
        tb = time.time()
        exe = build(variant)
        tbuild += time.time() - tb
        te = time.time()
        r, c, s = run_batch(exe, prop, seed, tier, total // len(plan[4]), cap)
        texp += time.time() - te
        # determinism: a sample of the runs again, other processes, other worker layout
        m = max(8, len(r) // (4 if prop == "C11" else 100))
        r2, _, _ = run_batch(exe, prop, seed, tier, m, cap, workers=3)
        h1 = {x["i"]: x for x in r}
        diff = [x for x in r2 if x["i"] in h1 and h1[x["i"]]["hash"] != x["hash"]]
        c["determinism_reruns"] = len(r2)
        c["determinism_mismatches"] = len(diff)
        if diff:
            r += leaks(exe, variant, prop, tier, diff, h1, {x["i"]: x for x in r2})
        n = handle_violations(exe, variant, prop, tier, r)
        r = [x for x in r if x["cls"] != "state-leak"]
        reported += n
        allruns += r
        for k, v in c.items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max.") else counters.get(k, 0) + v
        states |= s
    if not allruns:
        raise CheckError("no runs executed")
    sample = gen(exe, prop, allruns[0]["seed"], tier)
    sample2 = gen(exe, prop, allruns[len(allruns) // 2]["seed"], tier)
    nt = len({r["sig"] for r in allruns if r["nt"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": reported,
        "coverage": {
            "evaluations": len(allruns), "distinct_nontrivial": nt, "rule": RULE,
            "samples": [sample[:3000], sample2[:3000]],
            "planned_runs": total, "runs_per_hour": int(len(allruns) / max(texp, 1e-3) * 3600), "seeds_per_hour": int(len(allruns) / max(texp, 1e-3) * 3600),
            "first_run_seed": allruns[0]["seed"], "simulated_seconds": round(counters.get("sim_time_s", 0), 1), "ticks": int(counters.get("ticks", 0)),
            "faults_fired": {k[6:]: int(v) for k, v in sorted(counters.items()) if k.startswith("fault.")},
            "probes": {k[6:]: int(v) for k, v in sorted(counters.items()) if k.startswith("probe.")},
            "distinct_states": len(states),
            "distinct_states_measure": "distinct tick situations: controller, preview length, constraint set, solver outcome and active-set changes, warm start, feedback phase, gait phase and previewed steps",
            "distinct_schedules": len({r["sig"] for r in allruns}),
            "counters": {k: (round(v, 9) if k.startswith("max.") else int(v)) for k, v in sorted(counters.items()) if not k.startswith(("fault.", "probe."))},
            "determinism": {"rerun": int(counters.get("determinism_reruns", 0)), "mismatches": int(counters.get("determinism_mismatches", 0))},
            "build_s": round(tbuild, 1), "variants": plan[4],
            "real_components": ["all of /repo/src", "/repo/mpc-walkgen headers", "/repo/qpsolver adapter and factory (double and float)", "Eigen, Boost"],
            "stub_components": ["qpOASES::QProblem (third-party QP solver, absent here): simulated by a dense dual active-set solver with injectable failures"],
        },
        "assumptions": ["the simulated QP solver honours the qpOASES calling contract", "the reference models in /verif/sim/refs.cpp state the intended problem", "g++ builds of the sources behave as the shipped build"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", "." + prop + ".tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("%s %s: %d runs (%d distinct non-trivial), %d ticks, %.0f simulated s, %.0f s wall, %d violation(s)" % (prop, tier, len(allruns), nt, counters.get("ticks", 0), counters.get("sim_time_s", 0), time.time() - t0, reported))
    return 1 if reported else 0


def selftest(n):
    exe = build("rel")
    bad = 0
    for prop in sorted(PLAN):
        for vs in (1, 2, 3):
            a, _, _ = run_batch(exe, prop, vs, "quick", n, 600, workers=8)
            for wk in (1, 3, 7):
                b, _, _ = run_batch(exe, prop, vs, "quick", n, 600, workers=wk)
                d = [(x["i"]) for x, y in zip(a, b) if x["hash"] != y["hash"] or x["seed"] != y["seed"]]
                bad += len(d)
                print(prop, "VERIF_SEED", vs, "workers 8 vs", wk, ":", len(a), "runs,", len(d), "differences", flush=True)
    return 2 if bad else 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    runs = int(argv[argv.index("--runs") + 1]) if "--runs" in argv else None
    cap = float(argv[argv.index("--seconds") + 1]) if "--seconds" in argv else None
    try:
        if argv[:1] == ["--build"]:
            for v in sorted({x for p in PLAN.values() for x in p[4]}):
                t = time.time()
                build(v)
                print("built", v, "%.1f s" % (time.time() - t))
            return 0
        if argv[:1] == ["--replay"]:
            v = variant_of_file(argv[1])
            bad, h, cls, msg = replay(build(v), argv[1])
            print(("VIOLATED %s: %s" % (cls, msg)) if bad else "held", "[history hash %s]" % h)
            return 1 if bad else 0
        if argv[:1] == ["--selftest"]:
            return selftest(int(argv[1]) if len(argv) > 1 else 200)
        print("VERIF_SEED=%d tier=%s property=%s" % (seed, tier, argv[0]), flush=True)
        return decide(argv[0], tier, seed, runs, cap)
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        return 3


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
