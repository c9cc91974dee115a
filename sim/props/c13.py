"""C13: calls end, and their work and memory are decided by their arguments."""
import copy, gc, hashlib, random, tracemalloc
import numpy as np
from .. import engine, gen, loader, ops
from . import c01, c09, c12

ID = "C13"
TITLE = "calls end, and their work and memory are decided by their arguments"
BUDGET = 150_000_000
MORE, STEPS, BYTES = 1.3, 500, 60_000  # margins: a factor, and what any call may add
KINDS = ("call", "call", "call", "manager", "manager", "matrix", "poisson", "phase", "species")


def fault(r):
    return {"k": r.choice(["raise", "raise", "alloc", "user"]), "seed": r.randrange(1 << 30), "i": None, "frac": round(r.random(), 4),
            "n": r.choice([1, 1, 10 ** 6]), "exc": r.choice(["KeyboardInterrupt", "RuntimeError", "MemoryError"]),
            "how": r.choice(["uniform", "site", "first", "last"])}


def scenario(r):
    kind = r.choice(["history", "history", "history", "grow", "grow", "cycle", "cycle", "passes", "starve", "starve", "session"])
    s = {"kind": kind}
    if kind == "history":
        objs, models = ops.pool(r, n_images=2, n_models=1, cont=0.02, max_rows=5, max_cols=4, max_phases=3, user=0.3, wide=0)
        s["target"] = ops.gen_op(r, objs, models, KINDS)
        if r.random() < 0.12:  # the species' own functions, for traps filled long ago
            if r.random() < 0.6:
                objs["traps0"] = dict(gen.traps(r, cont=1), t="traps")
                models[0]["cont"] = True
            s["target"] = ops.gen_op(r, objs, models, ("species",))
        s["before"] = []
        for _ in range(r.choice([1, 2, 3, 5])):
            op = copy.deepcopy(s["target"]) if r.random() < 0.4 else ops.gen_op(r, objs, models, KINDS)
            s["before"].append({"op": op, "fail": fault(r) if r.random() < 0.6 else None, "times": r.choice([1, 1, 1, 4, 12])})
        s["objs"] = objs
        s["rebuild"] = r.random() < 0.3
    elif kind == "starve":
        objs, models = ops.pool(r, n_images=1, n_models=1, cont=0.0, max_rows=5, max_cols=3, max_phases=2, user=0.2, wide=0)
        if r.random() < 0.5:
            objs, s["target"] = c09.growing(r)
        else:
            s["target"] = ops.gen_op(r, objs, models, KINDS)
        s.update(objs=objs, fail=[{"frac": round(r.random(), 4), "j": None} for _ in range(r.choice([4, 8, 16]))])
    elif kind == "session":
        objs, models = ops.pool(r, n_images=1, n_models=1, cont=0.0, max_rows=3, max_cols=2, max_phases=2, user=0.2, wide=0)
        s["target"] = ops.gen_op(r, objs, models, ("call", "manager", "matrix", "poisson", "phase", "species"))
        s.update(objs=objs, rounds=r.choice([150, 400]), round=[ops.gen_op(r, objs, models, ("call", "manager", "matrix", "phase", "species", "build", "poisson"))
                                                         for _ in range(r.choice([1, 2]))], keep=r.random() < 0.3)
    elif kind in ("grow", "passes"):
        objs, models = ops.pool(r, n_images=1, n_models=1, cont=0.0, max_rows=5, max_cols=3, max_phases=3, user=0.1, plain=True, wide=0)
        for o in objs.values():
            if "columns" in o:
                o["columns"] = True
            if o.get("t") == "image":
                o["dtype"], o["neg"] = "f8", False
        c = ops.gen_call(r, objs, models)
        while "p" not in c and "s" not in c:
            c = ops.gen_call(r, objs, models)
        for d in "ps":  # the images' sizes are varied: windows along one direction only
            if d in c and r.random() < 0.8:
                c[d]["window"] = c[d]["window"] if objs[c[d]["roe"] or models[0]["names"]["roe"]]["k"] == "tp" else None
        c.pop("cross", None)
        if kind == "grow":
            keep = r.choice(["p", "s"]) if "p" in c and "s" in c else ("p" if "p" in c else "s")
            c = {k: v for k, v in c.items() if k not in "ps" or k == keep}
            if keep == "s":
                c.pop("time", None)
            s["along"] = keep
        s.update(objs=objs, target=c)
        if kind == "passes":
            s["what"] = r.choice(["express", "iterations"])
            c["op"] = "remove" if s["what"] == "iterations" else "add"
            c["iterations"] = 2
    else:
        p = r.choice([1, 1, 2, 3])
        objs = {"ccd": dict(gen.ccd(r, p), t="ccd"), "traps": dict(gen.traps(r, cont=0.03), t="traps")}
        full = max(objs["ccd"]["full"]) if isinstance(objs["ccd"]["full"], list) else objs["ccd"]["full"]
        cont = any(t["k"] == "cont" for g in objs["traps"]["g"] for t in g)

        def clouds(n):
            ev = [[gen.rnd(full * r.random() ** 2), gen.rnd(r.choice([0.3, 1, 4])), r.randrange(p)] for _ in range(n)]
            for e in ev:
                if r.random() < 0.1:
                    e[0] = 0
            return ev

        s.update(objs=objs, first=clouds(r.randint(0, 2 if cont else 6)), again=clouds(r.randint(1, 2 if cont else 8)), end=r.choice(["restore", "restore", "empty"]),
                 cycles=r.choice([6, 12, 40]) if not cont else 5, fails=[round(r.random(), 4) for _ in range(r.choice([0, 0, 1, 2]))])
    return s


def measured(fn, limit=BUDGET, memory=True, plan=()):
    """Outcome, steps and peak memory of one call."""
    if memory:
        gc.collect()
        tracemalloc.start()
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
    try:
        o, info = engine.run_single(lambda: engine.outcome(fn), plan, max_steps=limit)
    finally:
        if memory:
            peak = tracemalloc.get_traced_memory()[1] - base
            tracemalloc.stop()
    return o, sum(info["counts"]), (peak if memory else 0), info["overran"]


def fresh(op, objs, limit=BUDGET):
    def go():
        world = gen.build(loader.ac, ops.uc(), {n: objs[n] for n in ops.needed(op) if n in objs})
        return measured(lambda: c09.do(op, world), limit)

    return isolated(go)


def more(what, n, than, m, factor=MORE, const=STEPS):
    if n > factor * m + const:
        return "%s takes %s %d, but %d %s" % (what[0], what[1], n, m, than)


def execute(s):
    return {"history": history, "grow": grow, "passes": passes, "cycle": cycle, "starve": starve, "session": session}[s["kind"]](s)


def isolated(fn):
    def go():
        gc.freeze()  # what was imported need not be looked at again
        return fn()

    return engine.isolated(go)


def state(events=0, digest=None, faults=None, nontrivial=True):
    return {"events": events, "digest": digest, "faults": faults or {}, "nontrivial": nontrivial, "probes": {}}


def invalid(s):
    objs = s["objs"]
    for op in [s.get("target")] + [b["op"] for b in s.get("before", [])] + s.get("round", []):
        if op is None:
            continue
        for n in ops.needed(op):
            if n not in objs or (objs[n]["t"] == "traps" and not all(objs[n]["g"])):
                return dict(state(nontrivial=False), violation=None)


def digest(*xs):
    return hashlib.sha1(repr(xs).encode()).hexdigest()[:16]


def no_end(st):
    return dict(st, violation="no end: a call had not finished after %d steps" % BUDGET)


def history(s):
    bad = invalid(s)
    if bad:
        return bad
    objs = s["objs"]
    v = fresh(s["target"], objs)
    if v[0] != "ok":
        return dict(state(), violation="process ended with %r in a valid call" % (v,))
    o0, n0, b0, over = v[1]
    st = state(n0)
    if over:
        return no_end(st)
    for b in s["before"]:
        f = b["fail"]
        if f and f["k"] == "raise" and f["i"] is None:
            v = c01.solo(b["op"], objs, engine.LINE)
            if v[0] == "ok":
                f["i"] = engine.Picker(v[1][1], v[1][2]).pick(random.Random(f["seed"]), f["how"], interrupt=True)

    def go():
        rt, uc = loader.simrt, ops.uc()
        world = gen.build(loader.ac, uc, objs)
        faults, steps = {}, 0
        for b in s["before"]:
            op, f = b["op"], b["fail"]
            for _ in range(b["times"]):
                plan = []
                if f and f["k"] == "raise" and f["i"]:
                    plan = [{"t": 0, "k": "p", "i": f["i"], "a": "raise", "exc": f["exc"]}]
                old = None
                if f and f["k"] == "alloc":
                    rt.alloc_on(0, 1)
                    old = rt.install()
                    rt.arm(1, 1 + int(f["frac"] ** 2 * 150), f["n"])
                if f and f["k"] == "user":
                    def do():
                        raise uc.UserError()

                    uc.HOOK.calls, uc.HOOK.at, uc.HOOK.do = 0, 1 + int(f["frac"] ** 2 * 60), do
                try:
                    o, n, _, over = measured(lambda: ops.run_op(op, world), memory=False, plan=plan)
                finally:
                    uc.HOOK.at, uc.HOOK.do = None, None
                    if old is not None:
                        rt.arm(0, -1)
                        rt.uninstall(old)
                rt.reset(1, engine.LINE, 0, 0)
                steps += n
                if over:
                    return None, faults, steps
                if f and o[0] == "exc":
                    faults[f["k"]] = faults.get(f["k"], 0) + 1
                if s["rebuild"]:
                    world = gen.build(loader.ac, uc, objs)
        out = [measured(lambda: ops.run_op(s["target"], world)) for _ in range(2)]
        return out, faults, steps

    cont = any(t["k"] == "cont" for o in objs.values() if o["t"] == "traps" for g in o["g"] for t in g)
    for b in s["before"]:
        if cont and b["fail"] and b["fail"]["k"] == "alloc":
            b["fail"]["k"] = "user"
        if cont:
            b["times"] = 1
    v = isolated(go)
    if v[0] != "ok":
        return dict(st, violation="process ended with %r in a session" % (v,))
    out, st["faults"], steps = v[1]
    st["events"] += steps
    if out is None:
        return no_end(st)
    st["digest"] = digest(n0, b0 // 4096, steps)
    for o, n, b, over in out:
        st["events"] += n
        if over:
            return no_end(st)
        d = more(("the call", "steps"), n, "in a fresh process", n0) \
            or more(("the call", "memory:"), b, "in a fresh process", b0, 1.5, BYTES)
        if d:
            return dict(st, violation="what went before makes a call dearer: " + d)
    return dict(st, violation=None)


def grow(s):
    """Twice and four times the columns, each the same as before."""
    bad = invalid(s)
    if bad:
        return bad
    objs, c = s["objs"], s["target"]
    d = "p" if "p" in c else "s"
    if d not in c or objs[c["image"]].get("extra"):
        return dict(state(nontrivial=False), violation=None)
    n, b, st = [], [], state()
    for k in (1, 2, 4):
        def go():
            world = gen.build(loader.ac, ops.uc(), {x: objs[x] for x in ops.needed(c) if x in objs})
            im = np.array(world[c["image"]], dtype=float)
            world[c["image"]] = np.tile(im, (1, k) if d == "p" else (k, 1))
            return measured(lambda: ops.run_op(c, world))

        v = isolated(go)
        if v[0] != "ok":
            return dict(st, violation="process ended with %r in a valid call" % (v,))
        o, steps, peak, over = v[1]
        st["events"] += steps
        if over:
            return no_end(st)
        n.append(steps)
        b.append(peak)
    st["digest"] = digest(n)
    st["nontrivial"] = n[1] > n[0]
    bad = more(("as many columns again cost", "steps"), n[2] - n[1], "when there were half as many", n[1] - n[0], 2 * MORE) \
        or more(("as many columns again cost", "bytes"), b[2] - b[1], "when there were half as many", b[1] - b[0], 3, BYTES)
    return dict(st, violation=bad and "work grows faster than the columns: " + bad)


def passes(s):
    """Fewer express passes or iterations are less work."""
    bad = invalid(s)
    if bad:
        return bad
    objs, c, st = s["objs"], s["target"], state()
    n = []
    if s["what"] == "iterations" and c["op"] != "remove":
        return dict(state(nontrivial=False), violation=None)
    for k in (0, 1):
        c2 = copy.deepcopy(c)
        if s["what"] == "iterations":
            c2["iterations"] = [2, 4][k]
        elif k == 0:
            for d in "ps":
                if d in c2:
                    c2[d]["express"] = 0
        v = fresh(c2, objs)
        if v[0] != "ok":
            return dict(st, violation="process ended with %r in a valid call" % (v,))
        o, steps, peak, over = v[1]
        st["events"] += steps
        if over:
            return no_end(st)
        if o[0] != "value":
            return dict(st, violation=None, nontrivial=False)
        n.append(steps)
    st["digest"] = digest(n)
    if s["what"] == "iterations":
        bad = more(("twice the iterations", "steps"), n[1], "for half of them", n[0], 3)
    else:
        bad = more(("express clocking", "steps"), n[1], "without it", n[0], 1.6, 4 * STEPS)
    return dict(st, violation=bad and "work grows faster than asked for: " + bad)


def cycle(s):
    """Trap managers brought back to the same state take the same steps again."""
    objs = s["objs"]
    if "ccd" not in objs or "traps" not in objs or not objs["traps"]["g"] or not all(objs["traps"]["g"]):
        return dict(state(nontrivial=False), violation=None)
    p = len(objs["ccd"]["frac"])
    if any(e[2] >= p for e in s["first"] + s["again"]):
        return dict(state(nontrivial=False), violation=None)

    def go():
        rt = loader.simrt
        world = gen.build(loader.ac, ops.uc(), objs)
        ccd = world["ccd"]
        am = loader.ac.AllTrapManager(traps=world["traps"], max_n_transfers=len(s["first"]) + len(s["again"]) + 1, ccd=ccd)

        def event(n, dt, ph):
            for tm in am[ph]:
                tm.n_electrons_released_and_captured(n_free_electrons=n, dwell_time=dt, ccd_filling_function=ccd.well_filling_function(phase=ph))

        if s["end"] == "restore":
            for e in s["first"]:
                event(*e)
            am.save()

        def again():
            for e in s["again"]:
                event(*e)
            (am.restore if s["end"] == "restore" else am.empty_all_traps)()
            if s["end"] == "restore":
                am.save()

        out = []
        gc.collect()
        tracemalloc.start()
        mem = []
        for k in range(s["cycles"]):
            fail = k > 0 and s["fails"] and k % 2 == 1
            plan = []
            if fail:
                f = s["fails"][k // 2 % len(s["fails"])]
                plan = [{"t": 0, "k": "p", "i": 1 + int(f * out[0][0]), "a": "raise", "exc": "KeyboardInterrupt"}]
            o, info = engine.run_single(lambda: engine.outcome(again), plan, max_steps=BUDGET)
            if plan:
                rt.reset(1, engine.LINE, 0, 0)
                (am.restore if s["end"] == "restore" else am.empty_all_traps)()
            if info["overran"]:
                return None, mem
            out.append((sum(info["counts"]), o[0] == "exc"))
            o = None
            gc.collect()
            mem.append(tracemalloc.get_traced_memory()[0])
        return out, mem

    v = isolated(go)
    if v[0] != "ok":
        return dict(state(), violation="process ended with %r while traps were saved and restored" % (v,))
    out, mem = v[1]
    st = state(sum(n for n, _ in out or []), digest(out), {"interrupted_cycle": sum(e for _, e in out)} if out and any(e for _, e in out) else {})
    if out is None:
        return no_end(st)
    if out[0][1]:
        return dict(st, violation="a valid cycle of clouds, save and restore failed")
    for n, _ in out[1:]:
        bad = more(("a cycle", "steps"), n, "the first time", out[0][0])
        if bad:
            return dict(st, violation="the same cycle of clouds becomes dearer: " + bad)
    for b in mem[2:]:
        bad = more(("after the cycles", "bytes"), b - mem[0], "in use more", 0, 1, BYTES)
        if bad:
            return dict(st, violation="the same cycle of clouds keeps memory: " + bad)
    return dict(st, violation=None)


def starve(s):
    """Memory that runs out for good: the call ends, and sooner than with memory."""
    bad = invalid(s)
    if bad:
        return bad
    objs, op = s["objs"], s["target"]

    def go():
        rt = loader.simrt
        out = []
        rt.alloc_on(0, 1)
        old = rt.install()
        try:
            world = gen.build(loader.ac, ops.uc(), {n: objs[n] for n in ops.needed(op) if n in objs})
            rt.arm(1, -1)
            o, n0, _, over = measured(lambda: c09.do(op, world), memory=False)
            n_allocs = rt.arm(0, -1)
            if over:
                return None, n0
            for f in s["fail"]:
                if not n_allocs:
                    break
                if f["j"] is None:
                    f["j"] = 1 + int(f["frac"] * n_allocs)
                rt.arm(1, f["j"], 10 ** 9)
                try:
                    o, n, _, over = measured(lambda: c09.do(op, world), 4 * n0 + 20000, memory=False)
                finally:
                    rt.arm(0, -1)
                out.append((f["j"], o[0] == "exc", n, over))
        finally:
            rt.uninstall(old)
        return out, n0

    v = isolated(go)
    if v[0] != "ok":
        return dict(state(), violation="process ended with %r when memory ran out" % (v,))
    out, n0 = v[1]
    st = state(n0)
    if out is None:
        return no_end(st)
    for f, o in zip(s["fail"], out):
        f["j"] = o[0]
    st["events"] += sum(o[2] for o in out)
    st["faults"] = {"memory_ran_out": sum(o[1] for o in out)}
    st["digest"], st["nontrivial"] = digest(out, n0), any(o[1] for o in out)
    for j, failed, n, over in out:
        if over:
            return dict(st, violation="no end: when memory ran out for good a call went on for %d steps instead of %d" % (n, n0))
        bad = more(("a call without memory", "steps"), n, "with it", n0)
        if bad:
            return dict(st, violation="a call goes on without memory: " + bad)
    return dict(st, violation=None)


def session(s):
    """Many rounds with ever other values."""
    bad = invalid(s)
    if bad:
        return bad
    objs, op = s["objs"], s["target"]
    v = fresh(op, objs)
    if v[0] != "ok":
        return dict(state(), violation="process ended with %r in a valid call" % (v,))
    o0, n0, b0, over = v[1]
    st = state(n0)
    if over:
        return no_end(st)

    def go():
        ac, uc = loader.ac, ops.uc()
        kept = gen.build(ac, uc, {n: o for n, o in objs.items() if o["t"] != "image"}) if s["keep"] else {}
        rounds = s["rounds"]
        for k in range(1, 401):
            if k > rounds:
                break
            vary = c12.varied(objs, k)
            world = dict(gen.build(ac, uc, {n: o for n, o in vary.items() if n not in kept}), **kept)
            steps = 0
            for x in s["round"]:
                if k == 1:
                    steps += measured(lambda: ops.run_op(x, world), memory=False)[1]
                    rounds = min(rounds, 20 + 4_000_000 // (steps + 1))
                else:
                    engine.outcome(lambda: ops.run_op(x, world))
        world = None
        world = dict(gen.build(ac, uc, {n: o for n, o in objs.items() if n not in kept}), **kept)
        return [measured(lambda: ops.run_op(op, world)) for _ in range(2)]

    v = isolated(go)
    if v[0] != "ok":
        return dict(st, violation="process ended with %r in a session" % (v,))
    st["digest"] = digest(n0, [x[1] for x in v[1]])
    for o, n, b, over in v[1]:
        st["events"] += n
        if over:
            return no_end(st)
        d = more(("the call", "steps"), n, "in a fresh process", n0, 1.2, 150) \
            or more(("the call", "memory:"), b, "in a fresh process", b0, 1.5, 20_000)
        if d:
            return dict(st, violation="what went before makes a call dearer: " + d)
    return dict(st, violation=None)


QUICK, THOROUGH = 1800, 16000
RULE = ("One run = a call or trap manager history whose executed events (lines, blocks outside the GIL) and peak memory are measured in a "
        "fresh process and after a session of other calls, repeats and injected failures with the same objects; or the same call with "
        "two and four times the columns, with and without express passes, with twice the iterations; or one cycle of clouds, save and "
        "restore driven up to 40 times with interrupts in between. Non-trivial: the call takes steps that were compared.")
DISTINCT = "hash of the measured steps"
REAL = ["arcticpy Python code", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy"]
STUB = ["numpy's data allocator in runs where allocations fail (simulated)"]
ASSUMPTIONS = ["steps are executed lines of arcticpy and the user's model classes and basic blocks of GIL-free code; work inside numpy and scipy shows only as memory",
               "margins: 1.3 times plus 500 steps, 1.5 times plus 60 kB; a first call that fills a bounded cache may be dearer",
               "linear growth in columns is asked for where traps are emptied between columns"]
