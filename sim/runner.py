"""check PROPERTY [quick|thorough] and replay FILE."""
import argparse, collections, copy, hashlib, importlib, json, os, pickle, random, re, select, signal, subprocess, sys, time, traceback

from . import build, engine, loader

VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, "known-findings.txt")


def derive(seed, prop, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()[:7], "big")


def module(prop):
    return importlib.import_module("sim.props." + prop.lower())


def klass(text):
    return re.sub(r"[-+]?\d[\d.e+-]*", "#", text.split(":")[0])


def scenario(mod, seed, tier):
    s = mod.scenario(random.Random(seed))
    return s


def of_the_package(text):
    """The exception's name if the package, not the harness, raised it."""
    parts = text.split("Traceback (most recent call last):")
    for part in reversed(parts[1:]):
        files = re.findall(r'^  File "([^"]+)", line', part, re.M)
        if not files:
            continue
        for f in reversed(files):
            if f.startswith(os.path.join(VERIF, "sim") + os.sep):
                return None
            if f.startswith(loader.PKG) or re.match(r"arcticpy/\w+\.pyx$", f):
                m = re.findall(r"^([A-Za-z_][\w.]*)(?::|$)", part, re.M)
                return m[-1] if m else "an exception"
        return None
    return None


def run_one(mod, s, attempts=2):
    """Result of one simulated run; a stall is tried twice."""
    for attempt in range(attempts):
        try:
            return mod.execute(s)
        except engine.Stall as e:
            last = e
        except Exception:
            text = traceback.format_exc()
            name = of_the_package(text)
            if name is None:
                raise
            return {"violation": "a valid call failed with %s" % name}
    return {"violation": "no end: a call did not finish (%s)" % last}


def worker(mod, seed, idxs, deadline, w):
    """Runs in a forked process; writes pickled records to fd w."""
    out = os.fdopen(w, "wb")
    for i in idxs:
        if time.monotonic() > deadline:
            break
        rs = derive(seed, mod.ID, i)
        t = time.monotonic()
        try:
            s = scenario(mod, rs, None)
            orig = copy.deepcopy(s)
            res = run_one(mod, s)
        except BaseException as e:
            res = {"harness": traceback.format_exc()}
            s = None
        res["i"], res["seed"], res["wall"] = i, rs, time.monotonic() - t
        if res.get("violation") or res.get("keep") or i < 3:
            res["scenario"] = s
        pickle.dump(res, out, protocol=4)
        out.flush()
    out.close()


# ------------------------------------------------------------ minimising
DROP = ("window", "time", "neg", "round", "fade", "ro", "frame", "offset", "order", "dtype", "first", "columns", "away", "nested", "user", "n_pixel_transfers")
SMALLER = ("rows", "cols", "iterations", "n_pumps", "express", "max")


def candidates(s, keep=()):
    """Smaller scenarios, biggest reductions first."""
    def paths(o, p=()):
        if isinstance(o, dict):
            for k in sorted(o):
                yield from paths(o[k], p + (k,))
        elif isinstance(o, list):
            yield p, o
            for i, x in enumerate(o):
                yield from paths(x, p + (i,))

    def at(o, p):
        for k in p:
            o = o[k]
        return o

    def dicts(o, p=()):
        if isinstance(o, dict):
            yield p, o
            for k in sorted(o):
                yield from dicts(o[k], p + (k,))
        elif isinstance(o, list):
            for i, x in enumerate(o):
                yield from dicts(x, p + (i,))

    lists = sorted(paths(s), key=lambda x: -len(json.dumps(x[1])))
    for p, l in lists:
        if p and p[-1] in ("frac", "dwell", "full", "shape", "pixels") + tuple(keep):
            continue
        n = len(l)
        if n >= 4:
            for h in (slice(0, n // 2), slice(n // 2, n)):
                c = copy.deepcopy(s)
                del at(c, p)[h]
                yield c
    for p, l in lists:
        if p and p[-1] in ("frac", "dwell", "full", "shape", "pixels", "window", "time") + tuple(keep):
            continue
        for i in reversed(range(len(l))):
            c = copy.deepcopy(s)
            del at(c, p)[i]
            yield c
    for p, d in list(dicts(s)):
        for k in DROP:
            if d.get(k) and k not in keep:
                c = copy.deepcopy(s)
                at(c, p)[k] = None
                if k in ("offset", "order", "dtype", "first", "columns", "away", "nested", "user", "neg", "ro", "frame"):
                    del at(c, p)[k]
                yield c
        for k in SMALLER:
            if isinstance(d.get(k), int) and d[k] > (0 if k == "express" else 1):
                for v in {1 if k != "express" else 0, d[k] // 2, d[k] - 1}:
                    if v < d[k] and v >= (0 if k == "express" else 1):
                        c = copy.deepcopy(s)
                        at(c, p)[k] = v
                        yield c


def minimise(mod, s, want, budget=75.0):
    deadline = time.monotonic() + budget
    tried = 0
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for c in candidates(s, getattr(mod, "KEEP", ())):
            if time.monotonic() > deadline:
                break
            tried += 1
            try:
                res = run_one(mod, copy.deepcopy(c), 1)
            except BaseException:
                continue
            if res.get("violation") and klass(res["violation"]) == want:
                s, progress = c, True
                break
    # drop objects that nothing refers to
    text = json.dumps({k: v for k, v in s.items() if k != "objs"})
    if "objs" in s:
        c = copy.deepcopy(s)
        c["objs"] = {n: o for n, o in s["objs"].items() if '"%s"' % n in text}
        try:
            res = run_one(mod, copy.deepcopy(c), 1)
            if res.get("violation") and klass(res["violation"]) == want:
                s = c
        except BaseException:
            pass
    return s, tried


def load_findings():
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) class=<(.*?)> (.*)", line)
            if m:
                out.append(m.groups())
    return out


def evidence(mod, tier, seed, recs, wall, violations, extra):
    faults, digests, probes = collections.Counter(), set(), collections.Counter()
    events = nontrivial = 0
    for r in recs:
        for k, v in (r.get("faults") or {}).items():
            faults[k] += v
        for k, v in (r.get("probes") or {}).items():
            probes[k] += v
        events += r.get("events", 0)
        if r.get("nontrivial"):
            digests.add(r.get("digest"))
            nontrivial += 1
    cov = {
        "evaluations": len(recs),
        "distinct_nontrivial": len(digests),
        "nontrivial_runs": nontrivial,
        "rule": mod.RULE,
        "samples": [r["scenario"] for r in recs if r.get("scenario")][:2],
        "runs_per_hour": int(len(recs) / max(wall, 1e-9) * 3600),
        "seeds": "sha256(VERIF_SEED/property/i) for i in 0..%d" % (max([r["i"] for r in recs] or [0])),
        "simulated_time": {"scheduler_events": events,
                           "note": "the code under test reads no clock; simulated time is counted in scheduler events"},
        "faults_injected": dict(faults),
        "rare_conditions_hit": dict(probes),
        "distinct_measure": mod.DISTINCT,
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
    }
    cov.update(extra)
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", mod.ID + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


def check(prop, tier, seed, runs=None, workers=None, budget=None, digest_file=None, first=0):
    t0 = time.monotonic()
    try:
        loader.load()
    except build.BuildError as e:
        print("BUILD FAILED: " + str(e))
        return 2
    mod = module(prop)
    runs = runs or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    budget = budget or (240 if tier == "quick" else 780)
    workers = workers or int(os.environ.get("VERIF_WORKERS", 0)) or min(8, os.cpu_count() or 2)
    print("check %s tier=%s seed=%d runs=%d workers=%d" % (mod.ID, tier, seed, runs, workers), flush=True)
    deadline = time.monotonic() + budget
    pids, fds = [], {}
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                os.close(r)
                for f in fds:
                    os.close(f)
                worker(mod, seed, range(first + w, first + runs, workers), deadline, wr)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        pids.append(pid)
        fds[r] = bytearray()
    recs, bad, harness = [], [], []
    hard = deadline + 150
    open_fds = set(fds)
    killed = False
    while open_fds:
        left = hard - time.monotonic()
        if left <= 0:
            killed = True
            break
        ready = select.select(list(open_fds), [], [], min(left, 5))[0]
        for f in ready:
            b = os.read(f, 1 << 16)
            if not b:
                open_fds.discard(f)
                continue
            fds[f] += b
            while True:
                import io
                bio = io.BytesIO(bytes(fds[f]))
                try:
                    rec = pickle.load(bio)
                except (EOFError, pickle.UnpicklingError, IndexError, ValueError):
                    break
                del fds[f][: bio.tell()]
                if rec.get("harness"):
                    harness.append(rec)
                elif rec.get("violation"):
                    bad.append(rec)
                recs.append(rec)
        if bad or len(harness) > 3:
            break
    for p in pids:
        if bad or harness or killed:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass
        try:
            _, st = os.waitpid(p, 0)
        except ChildProcessError:
            st = 0
        if st and not (bad or harness or killed):
            harness.append({"harness": "worker ended with status %r" % st, "i": -1})
    wall = time.monotonic() - t0
    done = [r for r in recs if not r.get("harness")]
    if digest_file:
        with open(digest_file, "w") as f:
            for r in sorted(done, key=lambda r: r["i"]):
                f.write("%d %s %s %s\n" % (r["i"], r["seed"], r.get("digest"), json.dumps([r.get("events"), r.get("faults"), r.get("violation")])))
    extra = {"slowest_run_s": round(max([r["wall"] for r in done if "wall" in r] or [0]), 2), "workers": workers, "wanted_runs": runs, "stopped_by_time_cap": len(done) < runs and not bad}
    code = 0
    nviol = 0
    if bad:
        bad.sort(key=lambda r: r["i"])
        known = load_findings()
        reported = set()
        for b in bad:
            k = klass(b["violation"])
            hit = [f for f in known if f[0] == mod.ID and f[1] == k]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (mod.ID, hit[0][2]))
                continue
            if k in reported:
                continue
            reported.add(k)
            nviol += 1
            if nviol > 1:
                continue
            path = report(mod, b, seed)
            print("violation: " + b["violation"])
            print("VIOLATION property=%s replay=%s" % (mod.ID, path), flush=True)
            code = 1
    elif harness:
        print("HARNESS ERROR in run %s:\n%s" % (harness[0]["i"], harness[0]["harness"]))
        code = 2
    elif killed:
        print("HARNESS ERROR: workers did not finish in time")
        code = 2
    elif not done:
        print("HARNESS ERROR: no run finished")
        code = 2
    evidence(mod, tier, seed, done, wall, nviol, extra)
    print("%s: %d runs, %d violations, %.1f s" % (mod.ID, len(done), nviol, time.monotonic() - t0), flush=True)
    return code


def report(mod, b, seed):
    """Minimise in a child, confirm in a fresh process, write the replay file."""
    s = b["scenario"]
    small, tried = s, 0
    try:
        v = engine.isolated(lambda: minimise(mod, copy.deepcopy(s), klass(b["violation"])), timeout=150)
        if v[0] == "ok":
            small, tried = v[1]
    except BaseException as e:
        print("minimising failed: %r" % (e,))
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = None
    for cand in (small, s):
        rec = {"property": mod.ID, "verif_seed": seed, "run_seed": b["seed"], "run": b["i"],
               "violation": b["violation"], "class": klass(b["violation"]), "scenario": cand,
               "minimised": cand is small, "reductions_tried": tried}
        path = os.path.join(d, "%s-%016x.json" % (mod.ID, b["seed"]))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        p = subprocess.run([os.path.join(VERIF, "replay"), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 1:
            print("replayed in a fresh process: " + (p.stdout.strip().splitlines() or [""])[0])
            return path
    print("note: the violation did not occur again in a fresh process:\n" + p.stdout[-1500:])
    return path


def replay(path):
    rec = json.load(open(path))
    try:
        loader.load()
    except build.BuildError as e:
        print("BUILD FAILED: " + str(e))
        return 2
    mod = module(rec["property"])
    res = run_one(mod, rec["scenario"])
    if res.get("violation"):
        print("violation: " + res["violation"])
        print("VIOLATION property=%s replay=%s" % (mod.ID, os.path.abspath(path)))
        return 1
    print("no violation")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "build"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--digests")
    a = ap.parse_args()
    if a.cmd == "build":
        print(build.build())
        return 0
    if a.cmd == "replay":
        return replay(a.arg)
    return check(a.arg, a.tier, a.seed, a.runs, a.workers, a.budget, a.digests, a.first)


if __name__ == "__main__":
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
