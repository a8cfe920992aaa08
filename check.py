#!/usr/bin/env python3
"""Driver of the deterministic simulator.

  check.py --build                    compile /repo's working tree under the simulator
  check.py <property> [--tier T] [--seed N] [--runs N] [--jobs N]
  check.py --replay FILE [-v]         replay a recorded schedule
  check.py --selftest                 determinism over many seeds, processes and worker counts

Exit status of a check: 0 held on everything explored, 1 violation (VIOLATION line), 2 error.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DOA_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
KNOWN = os.path.join(HERE, "known_findings.txt")
WRAPS = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "rand", "random", "drand48", "time",
         "clock", "gettimeofday", "clock_gettime", "_ZNSt6chrono3_V212steady_clock3nowEv",
         "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt13random_device9_M_getvalEv", "__cxa_guard_acquire",
         "__cxa_guard_release", "__cxa_guard_abort", "pthread_mutex_lock"]
INC = ["-I" + os.path.join(SIM, "stub"), "-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3", "-I" + SIM]
COMMON = ["-std=gnu++14", "-O2", "-w", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]
LIBFLAGS = COMMON + ["-fsanitize-coverage=trace-pc"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sources():
    lib = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    har = sorted(glob.glob(os.path.join(SIM, "*.cpp")))
    if not lib:
        raise CheckError("no sources in " + REPO)
    return lib, har


def headers():
    h = glob.glob(os.path.join(REPO, "include", "**", "*"), recursive=True) + glob.glob(os.path.join(REPO, "src", "**", "*"), recursive=True)
    h += glob.glob(os.path.join(SIM, "**", "*.hpp"), recursive=True)
    return sorted(f for f in h if os.path.isfile(f) and not f.endswith(".cpp"))


def digest(files, extra=""):
    m = hashlib.sha256(extra.encode())
    for f in files:
        m.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            m.update(hashlib.sha256(fh.read()).digest())
    return m.hexdigest()[:24]


def build(quiet=True):
    lib, har = sources()
    hd = digest(headers(), " ".join(LIBFLAGS + INC + WRAPS))
    jobs, objs = [], []
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    for i, f in enumerate(lib + har):
        flags = LIBFLAGS if i < len(lib) else COMMON
        o = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(f)[:-4], digest([f], hd + str(flags))))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((f, o, flags))
    exe = os.path.join(BUILD, "sim-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:24])
    if os.path.exists(exe):
        return exe
    # largest translation units first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def cc(j):
        tmp = j[1] + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + j[2] + INC + ["-c", j[0], "-o", tmp])
        if r.returncode:
            raise CheckError("compilation of %s failed\n%s" % (j[0], r.stdout[-4000:]))
        os.replace(tmp, j[1])
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(cc, jobs))
    tmp = exe + ".%d.tmp" % os.getpid()
    r = sh(["g++", "-no-pie", "-o", tmp] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-lpthread"])
    if r.returncode:
        raise CheckError("link failed\n" + r.stdout[-4000:])
    os.replace(tmp, exe)
    # keep the build folder small
    keep = set(objs)
    for o in glob.glob(os.path.join(BUILD, "obj", "*.o")):
        if o not in keep and time.time() - os.path.getmtime(o) > 3600:
            try:
                os.unlink(o)
            except OSError:
                pass
    for e in glob.glob(os.path.join(BUILD, "sim-*")):
        if e != exe and time.time() - os.path.getmtime(e) > 3600:
            try:
                os.unlink(e)
            except OSError:
                pass
    return exe


def listing(exe):
    r = sh([exe, "list"])
    out = {}
    for l in r.stdout.splitlines():
        p = l.split("\t")
        if len(p) == 4:
            out[p[0]] = {"quick": int(p[1]), "thorough": int(p[2]), "rule": p[3]}
    return out


def replay(exe, f, verbose=False):
    r = sh([exe, "replay", f] + (["-v"] if verbose else []), timeout=300)
    m = re.search(r"^RESULT (\S+) (\S+) ([0-9a-f]+) ?(.*)$", r.stdout, re.M)
    if not m:
        raise CheckError("replay of %s gave no result\n%s" % (f, r.stdout[-2000:]))
    return m.group(1), m.group(2), m.group(3), m.group(4), r.stdout


def known_findings():
    """Lines `known: property=<id> class=<class> match=<regex on the message> -- <what fails>`."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) -- (.*)$", l.strip())
            if m:
                out.append({"property": m.group(1), "cls": m.group(2), "re": m.group(3), "what": m.group(4)})
    return out


def run_check(prop, tier, seed, runs=None, jobs=None, cap=None):
    t0 = time.time()
    exe = build()
    t_build = time.time() - t0
    props = listing(exe)
    if prop not in props:
        raise CheckError("no such property: " + prop)
    count = runs or props[prop][tier]
    jobs = jobs or min(8, os.cpu_count() or 4)
    cap = cap or (150 if tier == "quick" else 3600)
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    print("property=%s tier=%s VERIF_SEED=%d simulated runs=%d workers=%d" % (prop, tier, seed, count, jobs), flush=True)
    try:
        t1 = time.time()
        ps = []
        for w in range(jobs):
            ps.append(subprocess.Popen([exe, "run", prop, str(seed), str(w), str(jobs), str(count), str(cap),
                                        os.path.join(work, "w%d" % w), tier], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        for p in ps:
            p.wait(timeout=cap + 600)
        explore_s = time.time() - t1
        agg = {"runs": 0, "ok": 0, "rejected": 0, "nontrivial": 0, "simtime": 0.0, "regate": 0, "mismatch": 0}
        cnt, hashes, edges, viol, notes = {}, set(), bytearray(1 << 16), [], []
        for w in range(jobs):
            f = os.path.join(work, "w%d" % w)
            if not os.path.exists(f):
                raise CheckError("worker %d left no report" % w)
            d = json.load(open(f))
            for k in agg:
                agg[k] += d[k]
            for k, v in d["cnt"].items():
                cnt[k] = cnt.get(k, 0) + v
            if "violation" in d:
                viol.append(d["violation"])
            if d.get("mismatch_at"):
                notes.append(d["mismatch_at"])
            if os.path.exists(f + ".hashes"):
                b = open(f + ".hashes", "rb").read()
                hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
            if os.path.exists(f + ".edges"):
                for i, x in enumerate(open(f + ".edges", "rb").read()):
                    if x:
                        edges[i] = 1
        # cross-process determinism: some runs again, in fresh processes
        gate = 0
        for i in [seed % max(1, count), (7 * seed + 3) % max(1, count), count // 2]:
            f = os.path.join(work, "gate")
            sh([exe, "gen", prop, str(seed), str(i), f, tier])
            a, b = replay(exe, f), replay(exe, f)
            gate += 1
            if a[:3] != b[:3]:
                agg["mismatch"] += 1
                notes.append("fresh processes, index %d" % i)
        status, replay_path, message, unconfirmed = 0, None, "", []
        known = [k for k in known_findings() if k["property"] == prop]
        viol.sort(key=lambda v: v["index"])
        printed = set()
        for v in viol:
            hit = [k for k in known if k["cls"] == v["cls"] and re.search(k["re"], v["msg"])]
            if hit:
                printed.add(hit[0]["what"])
                continue
            raw = os.path.join(work, "raw")
            sh([exe, "gen", prop, str(seed), str(v["index"]), raw, tier])
            a, b = replay(exe, raw), replay(exe, raw)
            if not (a[0] == "violation" and a[:2] == b[:2]):
                unconfirmed.append("run %d reported %s (%s) but does not reproduce: %s / %s" % (v["index"], v["cls"], v["msg"], a[:4], b[:4]))
                continue
            if a[2] != b[2]:
                print("note: the violation reproduces, but the event logs of two executions differ")
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            out = os.path.join(HERE, "replays", "%s-%s-seed%d-run%d.replay" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", a[1]), seed, v["index"]))
            okay = False
            try:
                sh([exe, "shrink", raw, out + ".tmp", "1500"], timeout=300)
                if os.path.exists(out + ".tmp"):
                    os.replace(out + ".tmp", out)
                    okay = True
            except subprocess.TimeoutExpired:
                pass
            if okay:
                x, y = replay(exe, out), replay(exe, out)
                okay = x[0] == "violation" and x[1] == a[1] and (x[:3] == y[:3] or (a[2] != b[2] and x[:2] == y[:2]))
                message = x[3]
            if not okay:
                shutil.copy(raw, out)
                message = a[3]
            status, replay_path = 1, out
            print("violation: %s: %s" % (a[1], message))
            print("seed %d, run %d, minimised schedule and fault trace in %s" % (seed, v["index"], out))
            break
        for w in sorted(printed):
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
        if unconfirmed and status == 0:
            raise CheckError(unconfirmed[0])
        if agg["mismatch"] and status == 0:
            raise CheckError("the simulation is not deterministic: " + "; ".join(notes))
        if agg["runs"] == 0 or (status == 0 and agg["ok"] == 0):
            raise CheckError("nothing was explored")
        samples = []
        for i in (0, count // 3):
            f = os.path.join(work, "sample")
            sh([exe, "gen", prop, str(seed), str(i), f, tier])
            t = open(f).read()
            samples.append(t if len(t) < 3000 else t[:3000] + "... (%d operations in all)" % t.count("\nop "))
        faults = {k[7:]: v for k, v in sorted(cnt.items()) if k.startswith("faults.")}
        probes = {k[7:]: v for k, v in sorted(cnt.items()) if k.startswith("probes.")}
        ops = {k[4:]: v for k, v in sorted(cnt.items()) if k.startswith("ops.")}
        wall = time.time() - t0
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": agg["runs"], "distinct_nontrivial": len(hashes), "rule": props[prop]["rule"] +
                " (distinct = distinct hashes of the whole event log of the run)",
                "samples": samples,
                "runs_held": agg["ok"], "runs_rejected_by_preconditions": agg["rejected"], "runs_nontrivial": agg["nontrivial"],
                "simulated_seconds": round(agg["simtime"], 3),
                "runs_per_hour": int(agg["runs"] * 3600 / max(explore_s, 1e-3)),
                "simulated_seconds_per_hour": int(agg["simtime"] * 3600 / max(explore_s, 1e-3)),
                "seeds_per_hour": int(agg["runs"] * 3600 / max(explore_s, 1e-3)),
                "faults_injected": faults, "rare_conditions_hit": probes, "operations_executed": ops,
                "distinct_basic_block_edges_reached": sum(edges),
                "determinism_gate": {"runs_executed_twice_in_process": agg["regate"], "runs_executed_twice_in_fresh_processes": gate, "mismatches": agg["mismatch"]},
                "components": {
                    "real_code": "all of /repo/src compiled from the working tree (with basic block callbacks, assertions on)",
                    "simulated": "map server and its channel, controller process (period, crash, restart), plant integrator and sensors, heap (addresses, contents, exhaustion), dead stack contents, clocks and randomness, thread scheduler, diagnostics stream",
                    "stub": "plotting device (matplotlib through an embedded Python interpreter)",
                },
                "build_s": round(t_build, 2), "explore_s": round(explore_s, 2),
            },
            "assumptions": ["a sample of schedules, not all of them", "g++ -O2 build of the working tree on x86-64"],
            "wall_s": round(wall, 2), "violations": 1 if status else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print("%d runs (%d non-trivial, %d distinct), %.0f simulated seconds, %d edges, faults %s, %.1f s" %
              (agg["runs"], agg["nontrivial"], len(hashes), agg["simtime"], sum(edges), faults, wall))
        if status:
            print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return status
    finally:
        shutil.rmtree(work, ignore_errors=True)


def selftest(n):
    """Same seeds twice, in many processes and at different worker counts: the event logs must agree."""
    exe = build()
    bad = 0
    for prop in sorted(listing(exe)):
        work = os.path.join(BUILD, "self-%d" % os.getpid())
        os.makedirs(work, exist_ok=True)
        per = {}
        for jobs in (1, 3, 8):
            ps = [subprocess.Popen([exe, "run", prop, "77", str(w), str(jobs), str(n), "0", os.path.join(work, "s%d" % w), "quick"],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for w in range(jobs)]
            for p in ps:
                p.wait()
            h, mism, v = set(), 0, 0
            for w in range(jobs):
                d = json.load(open(os.path.join(work, "s%d" % w)))
                mism += d["mismatch"]
                v += "violation" in d
                b = open(os.path.join(work, "s%d.hashes" % w), "rb").read()
                h.update(b[i:i + 8] for i in range(0, len(b), 8))
            per[jobs] = (frozenset(h), mism, v)
        ok = len(set(per.values())) == 1 and all(p[1] == 0 for p in per.values())
        print("%s: %d distinct logs, worker counts 1/3/8 %s, violations %d" % (prop, len(per[1][0]), "agree" if ok else "DIFFER", per[1][2]), flush=True)
        bad += not ok
        shutil.rmtree(work, ignore_errors=True)
    return 2 if bad else 0


def main(argv):
    try:
        if argv and argv[0] == "--build":
            print(build())
            return 0
        if argv and argv[0] == "--replay":
            exe = build()
            r = replay(exe, argv[1], "-v" in argv)
            print(r[4], end="")
            return 1 if r[0] == "violation" else 0
        if argv and argv[0] == "--selftest":
            return selftest(int(argv[1]) if len(argv) > 1 else 400)
        prop, opt = argv[0], {}
        for i in range(1, len(argv) - 1, 2):
            opt[argv[i].lstrip("-")] = argv[i + 1]
        tier = opt.get("tier") or os.environ.get("VERIF_TIER") or "quick"
        seed = int(opt.get("seed") or os.environ.get("VERIF_SEED") or "1")
        return run_check(prop, tier, seed, int(opt["runs"]) if "runs" in opt else None, int(opt["jobs"]) if "jobs" in opt else None,
                         float(opt["cap"]) if "cap" in opt else None)
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
