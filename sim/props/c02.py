"""C02: a call that is aborted anywhere leaves nothing behind."""
import hashlib, json, os, random, shutil, tempfile
import numpy as np
from .. import engine, gen, loader, ops
from . import c01

ID = "C02"
TITLE = "an aborted call leaves nothing behind"
KINDS = ("call", "call", "call", "manager", "matrix", "poisson", "phase", "species", "hst", "build")
RAISE = ["KeyboardInterrupt", "KeyboardInterrupt", "RuntimeError", "MemoryError", "SystemExit"]
USER = RAISE + ["ValueError", "IndexError", "KeyError", "AttributeError"]
REJECTS = ("full", "notch", "power", "dtype", "dwell_odd", "hst_early", "ctor_ccd", "ctor_roe", "bad_image", "poisson_shape")


def scenario(r):
    objs, models = ops.pool(r, n_images=r.choice([1, 1, 2]), n_models=r.choice([1, 1, 2]), user=0.4)
    main = ops.gen_op(r, objs, models, KINDS)
    other = ops.gen_op(r, objs, models, KINDS)
    what = r.choice(["raise", "raise", "alloc", "user", "mix", "mix", "kill", "threads", "reject"])
    tries = []
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        k = what if what not in ("mix", "threads") else r.choice(["raise", "raise", "alloc", "user", "reject"] if what == "mix" else ["raise"])
        f = {"k": k, "op": r.choice([0, 0, 0, 1]), "how": r.choice(["uniform", "site", "site", "first", "last"]), "frac": round(r.random(), 4),
             "seed": r.randrange(1 << 30)}
        if k in ("raise", "user"):
            f["exc"] = r.choice(RAISE if k == "raise" else USER)
        if k == "reject":
            f["what"] = r.choice(REJECTS)
        tries.append(f)
        if k == "kill":
            break
    s = {"objs": objs, "ops": [main, other], "tries": tries, "mode": r.choice([engine.LINE, engine.LINE, engine.OPCODE])}
    if what == "threads":
        s["threads"] = {"first": r.randrange(2), "pseed": r.randrange(1 << 30), "plan": None}
    return s


def is_cont(op, objs):
    return any(t["k"] == "cont" for n in ops.needed(op) if objs.get(n, {}).get("t") == "traps" for g in objs[n]["g"] for t in g)


def reject(what, s, world):
    """A setting or call that is not valid: must raise ValueError-like and change nothing."""
    ac = loader.ac
    op = s["ops"][0]
    d = op.get("p") or op.get("s") or {}
    named = lambda k: world.get(d.get(k) or op.get(k)) if isinstance(d.get(k) or op.get(k), str) else None
    ccd, roe, im = named("ccd"), named("roe"), named("image")
    if what in ("full", "notch", "power") and ccd is not None:
        name = {"full": "full_well_depth", "notch": "well_notch_depth", "power": "well_fill_power"}[what]
        return lambda: setattr(ccd, name, [0.123] * (ccd.n_phases + 1)), True
    if what == "dtype" and roe is not None:
        return lambda: setattr(roe, "express_matrix_dtype", str), True
    if what == "dwell_odd" and isinstance(roe, ac.ROETrapPumping):
        return lambda: setattr(roe, "dwell_times", [0.3] * (2 * len(roe.dwell_times) + 1)), True
    if what == "hst_early":
        return lambda: ac.model_for_HST_ACS(date=2400000.0), True
    if what == "ctor_ccd":
        return lambda: ac.CCD(fraction_of_traps_per_phase=[0.5, 0.5], full_well_depth=[1, 2, 3]), True
    if what == "ctor_roe":
        return lambda: ac.ROE(express_matrix_dtype="float"), True
    if what == "bad_image" and im is not None:
        bad = dict(world, im0=np.zeros(3), im1=np.zeros(3))
        return lambda: ops.run_op(dict(op, image="im0"), bad), None
    if what == "poisson_shape" and op.get("traps"):
        return lambda: ops.run_op({"op": "poisson", "traps": op["traps"], "shape": [3], "seed": 1}, world), None
    return None, None


def listing(d):
    out = []
    for base, dirs, files in os.walk(d):
        for f in files + dirs:
            out.append(os.path.relpath(os.path.join(base, f), d))
    return sorted(out)


def execute(s):
    objs, faults = s["objs"], {}
    exp = []
    traced = {f["op"] for f in s["tries"] if f["k"] in ("raise", "kill")} | ({0, 1} if s.get("threads") else set())
    for k, op in enumerate(s["ops"]):
        if k not in traced:
            v = engine.isolated(lambda: ops.fresh_outcome(op, objs))
            if v[0] != "ok":
                return {"violation": "a single call ended with %r" % (v,)}
            exp.append((v[1], None))
            continue
        v = c01.solo(op, objs, s["mode"])
        if v[0] != "ok":
            return {"violation": "a single call ended with %r" % (v,)}
        out, counts, log = v[1]
        exp.append((out, engine.Picker(counts, log)))
    st = {"events": 0, "faults": faults, "probes": {}, "nontrivial": False}
    digest = hashlib.sha1()

    def count(k):
        faults[k] = faults.get(k, 0) + 1
        st["nontrivial"] = True

    def pick(f):
        pr = random.Random(f["seed"])
        p = exp[f["op"]][1]
        i = f.get("i") or p.pick(pr, f["how"], interrupt=True)
        if i and i <= p.n:
            f["i"], f["at"] = i, p.site(i)
            return i
        return None

    def final(world, before, when):
        """What must hold after a failure."""
        d = engine.world_diff(before, world)
        if d:
            return "an argument was changed by a call that failed: %s (%s)" % (d, when)
        for k, op in enumerate(s["ops"]):
            o = engine.outcome(lambda: ops.run_op(op, world))
            d = engine.differ(exp[k][0], o)
            if d:
                return "%s after a failed call: %s (%s)" % ("the repeated call gave another result" if k == 0 else "another call gave another result", d, when)
        d = engine.world_diff(before, world)
        if d:
            return "an argument was changed by a repeated call: %s (%s)" % (d, when)
        return None

    def one(world, f):
        """One failing try: (violation or None, what fired)."""
        op, want = s["ops"][f["op"]], exp[f["op"]][0]
        call = lambda: engine.outcome(lambda: ops.run_op(op, world))
        k = f["k"]
        if k in ("raise", "kill"):
            i = pick(f)
            if i is None:
                return None, None
            o, info = engine.run_single(call, [{"t": 0, "k": "p", "i": i, "a": k, "exc": f.get("exc")}], mode=s["mode"])
            st["events"] += sum(info["counts"])
            if not info["fired"][0][4]:
                return None, None
            if o != ("exc", f["exc"]) and not (f["exc"] == "MemoryError" and o == want):
                return "an injected %s reached the caller as %s (at %s)" % (f["exc"], engine.brief(o), f["at"]), None
            return None, "raise_" + f["exc"]
        if k == "user":
            uc = ops.uc()
            n0 = uc.HOOK.calls
            uc.HOOK.at = None
            o = call()
            n = uc.HOOK.calls - n0
            if n == 0:
                return None, None
            d = engine.differ(want, o)
            if d:
                return "the repeated call gave another result after a failed call: " + d, None
            exc = uc.UserError if f["exc"] == "RuntimeError" else engine.EXCS[f["exc"]]

            def do():
                raise exc("from the user's model function")

            if f.get("j") is None or f["j"] > n:
                f["j"] = 1 + int(f["frac"] * n) if f["how"] != "last" else n
            uc.HOOK.calls, uc.HOOK.at, uc.HOOK.do = 0, f["j"], do
            try:
                o = call()
            finally:
                uc.HOOK.at = None
            if o[0] == "value":
                return "an exception in the user's function was swallowed: " + engine.brief(o), None
            if o != ("exc", exc.__name__):
                return "a %s from the user's function reached the caller as %s" % (exc.__name__, engine.brief(o)), None
            return None, "user_function_failed"
        if k == "alloc":
            if is_cont(op, objs):
                return None, None
            simrt = loader.simrt
            simrt.alloc_on(0, 1)
            old = simrt.install()
            try:
                if f.get("j") is None:
                    simrt.arm(1, -1)
                    o = call()
                    n = simrt.arm(0, -1)
                    d = engine.differ(want, o)
                    if d:
                        return "the repeated call gave another result after a failed call: " + d, None
                    if n == 0:
                        return None, None
                    f["j"] = 1 + int(f["frac"] * n)
                simrt.arm(1, f["j"])
                o = call()
                hit = simrt.arm(0, -1) >= f["j"]
            finally:
                simrt.arm(0, -1)
                simrt.uninstall(old)
            if not hit:
                return None, None
            if o != ("exc", "MemoryError"):
                d = engine.differ(want, o)
                if d:
                    return "after a failed allocation the call neither raised MemoryError nor gave its result: %s" % d, None
            return None, "allocation_failed"
        if k == "reject":
            fn, must = reject(f["what"], s, world)
            if fn is None:
                return None, None
            o = engine.outcome(fn)
            if o[0] != "exc" and must:
                return "an invalid setting was accepted: " + f["what"], None
            return None, "rejected_" + f["what"] if o[0] == "exc" else None
        raise engine.HarnessError(k)

    def session():
        world = gen.build(loader.ac, ops.uc(), objs)
        before = engine.world_fp(gen.build(loader.ac, ops.uc(), objs))
        fired = []
        if s.get("threads"):
            return threads(world, before)
        for f in s["tries"]:
            bad, what = one(world, f)
            if bad:
                return bad, fired, s["tries"], st["events"]
            if what:
                fired.append(what)
                d = engine.world_diff(before, world)
                if d:
                    return "an argument was changed by a call that failed: %s (%s)" % (d, f.get("at") or what), fired, s["tries"], st["events"]
        return final(world, before, "%s" % fired), fired, s["tries"], st["events"]

    def threads(world, before):
        """Caller 0 fails (and tries again) while caller 1 goes on."""
        t = s["threads"]
        fs = [f for f in s["tries"] if f["op"] == 0]
        plan = [{"i": pick(f), "exc": f["exc"]} for f in fs]
        plan = [p for p in plan if p["i"]]
        if t["plan"] is None:
            pr = random.Random(t["pseed"])
            sw, _ = engine.choose_switches(pr, [exp[0][1], exp[1][1]], 8)
            t["plan"] = sw
        n = len(plan)

        def client0():
            rt, out = loader.simrt, []
            for p in plan:
                # where in this call: the failed ones before may have cleaned up for some steps
                at = rt.counts(0)[0] + p["i"]
                rt.plan(0, 0, at, engine.ACTIONS["raise"], -1, engine.EXCS[p["exc"]]("injected by the simulator"))
                out.append(engine.outcome(lambda: ops.run_op(s["ops"][0], world)))
                if rt.counts(0)[0] < at:  # over before
                    return out + [None]
            return out + [engine.outcome(lambda: ops.run_op(s["ops"][0], world))]

        def client1():
            return [engine.outcome(lambda: ops.run_op(s["ops"][1], world)) for _ in range(2)]

        res, info = engine.run_threads([client0, client1], t["plan"], s["mode"], t["first"],
                                       max_steps=engine.step_limit(*[((p.n, p.nc), k) for (_, p), k in zip(exp, (n + 1, 2))]))
        st["events"] += sum(c[0] + c[1] for c in info["counts"])
        if info["status"] == "deadlock" or info["overran"]:
            return "no end: after a caller failed the others cannot go on (%s)" % info["status"], [], s["tries"], st["events"]
        if info["status"] == "stalled":
            return None, ["stalled"], s["tries"], st["events"]
        for x in res:
            if x and x[0] == "harness":
                raise engine.HarnessError(repr(x))
        fired = ["raise_in_thread_" + p["exc"] for p in plan] + ["preemption"] * sum(1 for f in info["fired"] if f[3] == 0 and f[4])
        early = res[0][-1] is None  # with less work than alone the last fault didn't come
        for j, p in enumerate(plan[:len(res[0]) - 1]):
            if early and j == len(res[0]) - 2:
                d = engine.differ(exp[0][0], res[0][j])
                if d:
                    return "the repeated call gave another result after a failed call: %s (thread)" % d, fired, s["tries"], st["events"]
            elif res[0][j] != ("exc", p["exc"]):
                if p["exc"] == "MemoryError" and res[0][j] == exp[0][0]:
                    continue  # made up for
                return "an injected %s reached the caller as %s (thread)" % (p["exc"], engine.brief(res[0][j])), fired, s["tries"], st["events"]
        d = engine.differ(exp[0][0], res[0][n]) if not early else None
        if d:
            return "the repeated call gave another result after a failed call: %s (thread)" % d, fired, s["tries"], st["events"]
        for o in res[1]:
            d = engine.differ(exp[1][0], o)
            if d:
                return "another caller's result changed when a caller failed: " + d, fired, s["tries"], st["events"]
        return final(world, before, "threads"), fired, s["tries"], st["events"]

    kill = [f for f in s["tries"] if f["k"] == "kill"]
    if not kill:
        v = engine.isolated(session)
        if v[0] != "ok":
            return dict(st, violation="process ended with %r after injected failures" % (v,), digest=None)
        bad, fired, s["tries"], ev = v[1]
        st["events"] += ev
        if "stalled" in fired:
            raise engine.Stall("threads did not finish")
        for w in fired:
            count(w)
        digest.update(repr([(f["k"], f.get("at"), f.get("j"), f.get("exc"), f.get("what")) for f in s["tries"]]).encode() + repr(exp[0][0]).encode())
        return dict(st, violation=bad, digest=digest.hexdigest()[:16])

    # the process dies; only what is on disk survives
    f = kill[0]
    scratch = tempfile.mkdtemp(prefix="arctic-sim-")
    try:
        def enter():
            for k in ("HOME", "TMPDIR", "XDG_CACHE_HOME", "XDG_DATA_HOME"):
                os.environ[k] = scratch
            tempfile.tempdir = None
            os.chdir(scratch)

        def die():
            enter()
            world = gen.build(loader.ac, ops.uc(), objs)
            return one(world, f)

        def again():
            enter()
            world = gen.build(loader.ac, ops.uc(), objs)
            before = engine.world_fp(gen.build(loader.ac, ops.uc(), objs))
            return final(world, before, "killed at %s, new process" % f.get("at"))

        pick(f)
        v = engine.isolated(die)
        left = listing(scratch)
        if v[0] == "killed":
            count("kill")
        elif v[0] != "ok":
            return dict(st, violation="process ended with %r" % (v,), digest=None)
        v = engine.isolated(again)
        if v[0] != "ok":
            return dict(st, violation="the process started after a kill ended with %r" % (v,), digest=None)
        if left:
            st["probes"]["files_left_by_kill"] = 1
        digest.update(repr((f.get("at"), exp[0][0])).encode())
        return dict(st, violation=v[1], digest=digest.hexdigest()[:16])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


QUICK, THOROUGH = 4000, 60000
RULE = ("One run = images, traps, CCD and ROE objects and two operations on them; up to six tries fail: an exception at a chosen executed "
        "line or opcode, the n-th allocation of numpy or the extensions failing, the user's model function raising at its n-th call, an "
        "invalid setting being rejected, the process being killed, or a caller thread failing while another goes on under a seeded "
        "schedule. After each the arguments are compared with before and at the end both operations are repeated with the same "
        "objects and compared bit for bit with fresh ones. Non-trivial: at least one failure took effect.")
DISTINCT = "hash of the failures' kinds and places with the call's result"
REAL = ["arcticpy Python code", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy", "process death (SIGKILL-like exit)"]
STUB = ["numpy's and the extensions' allocator (simulated, for failing allocations)", "locks created by arcticpy, if any (simulated, to see deadlocks)"]
ASSUMPTIONS = ["failures are not placed on clean-up code (finally, except and with lines), where no Python program survives them",
               "MemoryError is compared by type only"]
