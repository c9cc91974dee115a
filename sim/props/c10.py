"""C10: the package changes nothing process-wide."""
import hashlib, os, random, shutil, sys, tempfile, warnings
import numpy as np
from .. import engine, gen, loader, ops, procstate
from . import c01

ID = "C10"
TITLE = "nothing process-wide is changed"
KINDS = ("call", "call", "call", "manager", "matrix", "poisson", "phase", "species", "hst", "build")


def scenario(r):
    objs, models = ops.pool(r, n_images=1, n_models=r.choice([1, 2]), cont=0.06, user=0.3)
    n = r.choice([1, 1, 1, 2, 3])
    threads = [[ops.gen_op(r, objs, models, KINDS) for _ in range(r.choice([1, 1, 2]))] for _ in range(n)]
    s = {"objs": objs, "threads": threads, "mode": r.choice([engine.LINE, engine.LINE, engine.OPCODE]), "pseed": r.randrange(1 << 30),
         "plan": None, "looks": r.choice([3, 6, 12]), "filters": r.choice(["default", "error", "ignore", "always"]),
         "err": r.choice(["warn", "ignore"]), "fail": None, "settings": sorted(r.sample(sorted(procstate.SETTINGS), r.choice([0, 2, 6, 12])))}
    if n == 1 and r.random() < 0.5:
        s["fail"] = {"k": r.choice(["raise", "raise", "alloc", "user"]), "exc": r.choice(["KeyboardInterrupt", "RuntimeError", "SystemExit"]),
                     "frac": round(r.random(), 4), "how": r.choice(["uniform", "site", "first", "last"])}
        if s["filters"] == "error":
            s["filters"] = "always"
    if s["filters"] == "error":
        s["filters"] = r.choice(["default", "always"])
    return s


def execute(s):
    objs = s["objs"]
    pickers = []
    for t in s["threads"]:
        names, inv, n, nc = [], [], 0, 0
        for op in t:
            v = c01.solo(op, objs, s["mode"])
            if v[0] != "ok":
                return {"violation": "process ended with %r in a single call" % (v,)}
            _, c, (nm, iv) = v[1]
            inv.append(iv + len(names))
            names += nm
            n += c[0]
            nc += c[1]
        pickers.append(engine.Picker((n, nc), (names, np.concatenate(inv) if inv else np.zeros(0, int))))
    if s["plan"] is None:
        pr = random.Random(s["pseed"])
        plan = []
        if len(pickers) > 1:
            plan, _ = engine.choose_switches(pr, pickers, 10)
        used = {(p["t"], p["k"], p["i"]) for p in plan}
        for t, p in enumerate(pickers):
            for _ in range(s["looks"]):
                i = p.pick(pr, pr.choice(["uniform", "site", "site", "first", "last"]))
                if i and (t, "p", i) not in used:
                    used.add((t, "p", i))
                    plan.append({"t": t, "k": "p", "i": i, "a": "call", "cb": "look", "at": p.site(i)})
        f = s["fail"]
        if f and f["k"] == "raise":
            i = pickers[0].pick(pr, f["how"], interrupt=True)
            if i:
                plan = [p for p in plan if p["i"] < i]
                plan.append({"t": 0, "k": "p", "i": i, "a": "raise", "exc": f["exc"], "at": pickers[0].site(i)})
        s["plan"] = plan
    scratch = tempfile.mkdtemp(prefix="arctic-sim-")

    def body():
        os.chdir(scratch)
        for k in ("HOME", "TMPDIR", "XDG_CACHE_HOME"):
            os.environ[k] = scratch
        fd = os.open(os.path.join(scratch, "out"), os.O_RDWR | os.O_CREAT)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.close(fd)
        world = gen.build(loader.ac, ops.uc(), objs)
        shown = []
        warnings.showwarning = lambda *a, **k: shown.append(a[1].__name__)
        warnings.simplefilter(s["filters"])
        np.seterr(all=s["err"])
        np.random.seed(5)
        np.random.normal()
        random.seed(5)
        for k in s["settings"]:
            procstate.SETTINGS[k]()
        procstate.watch()
        bad, looks = [], [0]
        base_threads = [1]

        def look():
            with procstate.pause():
                looks[0] += 1
                d = procstate.diff(before, procstate.snap(True))
                if d and not bad:
                    bad.append("while a call runs: " + d)

        def client(t):
            return lambda: [engine.outcome(lambda: ops.run_op(op, world)) for op in s["threads"][t]]

        f = s["fail"]
        rt = loader.simrt
        info = None
        failed = None
        sys.stdout.flush()
        if len(s["threads"]) == 1:
            old = None
            if f and f["k"] == "alloc":
                rt.alloc_on(0, 1)
                old = rt.install()
                rt.arm(1, -1)
                client(0)()
                n = rt.arm(0, -1)
            if f and f["k"] == "user":
                h = ops.uc().HOOK
                h.calls = 0
                client(0)()
                n = h.calls
            before = procstate.snap()
            with procstate.observe():
                if f and f["k"] == "alloc" and n:
                    rt.arm(1, 1 + int(f["frac"] * n))
                    res = client(0)()
                    rt.arm(0, -1)
                elif f and f["k"] == "user" and n:
                    def do():
                        raise ops.uc().UserError()

                    h.calls, h.at, h.do = 0, 1 + int(f["frac"] * n), do
                    res = client(0)()
                    h.at = None
                else:
                    res, info = engine.run_single(client(0), s["plan"], s["mode"], callbacks={"look": look})
            if any(o[0] == "exc" for o in res):
                failed = f["k"] if f else "call"
            after = procstate.snap()
            if old is not None:
                rt.uninstall(old)
        else:
            # counted with the simulated threads running
            before = procstate.snap()
            n_threads = before.pop("threads")
            before.pop("open files")
            bodies = [client(t) for t in range(len(s["threads"]))]

            def on(b):
                def go():
                    procstate._on[0] = True
                    return b()
                return go

            res, info = engine.run_threads([on(b) for b in bodies], s["plan"], s["mode"], 0, {"look": lambda: look()},
                                           max_steps=engine.step_limit(*[((p.n, p.nc), 1) for p in pickers]))
            procstate._on[0] = False
            after = procstate.snap()
            if info["status"] == "done" and after["threads"] != n_threads:
                bad.append("threads were left running")
            for x in res:
                if isinstance(x, tuple) and x and x[0] == "harness":
                    raise engine.HarnessError(repr(x))
        d = procstate.diff(before, after)
        if d:
            bad.append("after %s: %s" % ("a call that failed" if failed else "the calls", d))
        ev = sorted(set(procstate.EVENTS))
        if ev:
            bad.append("a call " + ev[0])
        sys.stdout.flush(); sys.stderr.flush()
        printed = open(os.path.join(scratch, "out"), "rb").read()
        if printed:
            bad.append("a call printed %r" % printed[:200])
        left = [x for x in os.listdir(scratch) if x != "out"]
        if left:
            bad.append("a call left files behind: %r" % left[:3])
        return bad, looks[0], failed, info and info.get("status"), info, len(shown)

    try:
        v = engine.isolated(body)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if v[0] != "ok":
        return {"violation": "process ended with %r" % (v,)}
    bad, looks, failed, status, info, shown = v[1]
    if status == "stalled":
        raise engine.Stall("threads")
    faults = {"looked_during_a_call": looks}
    if failed:
        faults["failed_" + failed] = 1
    if info and "status" in info:
        faults["preemption"] = sum(1 for f in info["fired"] if f[3] == 0 and f[4])
    dg = hashlib.sha1(repr([s["threads"], s["plan"], s["fail"]]).encode()).hexdigest()[:16]
    return {"violation": bad[0] if bad else None, "digest": dg, "events": sum(p.n for p in pickers), "faults": faults,
            "nontrivial": looks > 0 or bool(failed), "probes": {"warnings_shown": shown}}


QUICK, THOROUGH = 2500, 40000
RULE = ("One run = 1 to 3 threads making calls of all kinds in a process with up to 12 of 32 settings changed beforehand (so that a reset "
        "to a default shows); at seeded lines or opcodes, as another thread or a signal handler would, the "
        "process-wide state (31 kinds: generators, warning filters, environment, directory, signals, streams, gc, limits, hooks, "
        "import system, locale, rounding, attributes of 22 foreign modules and of the package, ...) is compared with before, and "
        "again after the calls or an injected failure; audit events, output and files are recorded. Non-trivial: at least one look "
        "during a call or a failure.")
DISTINCT = "hash of calls, plan and failure"
REAL = ["arcticpy Python code", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy", "CPython's audit events"]
STUB = ["the choice of which thread runs (simulator)", "the directory for files (scratch)"]
ASSUMPTIONS = ["state outside the listed kinds is not seen", "numpy's error handling is per thread, so it is compared after calls only",
               "reading modules and source lines is allowed"]
