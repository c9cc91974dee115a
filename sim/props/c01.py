"""C01: concurrent and re-entrant calls are isolated from each other."""
from .. import engine, gen, loader, ops

ID = "C01"
TITLE = "concurrent calls are isolated"


def scenario(r):
    objs, models = ops.pool(r, n_images=r.choice([1, 1, 2]), n_models=r.choice([1, 1, 2]))
    n = r.choice([2, 2, 2, 3, 4])
    kinds = r.choice([("call",), ("call",), ("call", "manager"), ("call", "call", "manager", "matrix", "poisson", "phase", "species", "hst", "build")])
    threads = [[ops.gen_op(r, objs, models, kinds) for _ in range(r.choice([1, 1, 2]))] for _ in range(n)]
    if r.random() < 0.4:  # everyone does the same
        threads = [list(threads[0]) for _ in range(n)]
    s = {"objs": objs, "threads": threads, "mode": r.choice([engine.LINE, engine.LINE, engine.LINE, engine.OPCODE]),
         "first": r.randrange(n), "plan": None, "pseed": r.randrange(1 << 30)}
    # also re-entrant calls: from inside a user's function, or from a signal handler
    if r.random() < 0.3:
        s["nested"] = ops.gen_op(r, objs, models, ("call", "call", "manager", "matrix"))
        op = r.choice(r.choice(threads))
        if r.random() < 0.6 and op["op"] in ("add", "remove"):  # the same with other pixels
            s["nested"] = dict(op, image="other")
            objs["other"] = dict(objs[op["image"]], seed=r.randrange(10 ** 6), max=r.choice([objs[op["image"]]["max"], 50, 3000]))
    return s


def solo(op, objs, mode):
    def body():
        world = gen.build(loader.ac, ops.uc(), {n: objs[n] for n in ops.needed(op) if n in objs})
        (out, info) = engine.run_single(lambda: engine.outcome(lambda: ops.run_op(op, world)), mode=mode, log=True)
        return out, info["counts"], info["log"]

    return engine.isolated(body)


def prepare(r, s):
    """Solo results and, once, the plan (who is stopped where)."""
    import json, random
    cache = {}
    for op in [o for t in s["threads"] for o in t] + ([s["nested"]] if s.get("nested") else []):
        k = json.dumps(op, sort_keys=True)
        if k not in cache:
            v = solo(op, s["objs"], s["mode"])
            if v[0] != "ok":
                return None, "a single call ended with %r" % (v,)
            cache[k] = v[1]
    expected = [[cache[json.dumps(o, sort_keys=True)] for o in t] for t in s["threads"]]
    nested = cache[json.dumps(s["nested"], sort_keys=True)] if s.get("nested") else None
    if s["plan"] is None:
        pr = random.Random(s["pseed"])
        pickers = []
        for t in expected:
            import numpy as np
            names, inv, off, n, nc = [], [], 0, 0, 0
            for out, counts, (nm, iv) in t:
                inv.append(iv + off)
                names += nm
                off += len(nm)
                n += counts[0]
                nc += counts[1]
            pickers.append(engine.Picker((n, nc), (names, np.concatenate(inv) if inv else np.zeros(0, int))))
        s["plan"], s["how"] = engine.choose_switches(pr, pickers)
        if s.get("nested"):
            for _ in range(pr.choice([1, 1, 2, 6])):
                t = pr.randrange(len(pickers))
                i = pickers[t].pick(pr, pr.choice(["uniform", "site", "first"]))
                if i and not any(p["t"] == t and p["i"] == i for p in s["plan"]):
                    s["plan"].append({"t": t, "k": "p", "i": i, "a": "call", "cb": "nested"})
        for p in s["plan"]:
            if p["k"] == "p" and p["i"] <= pickers[p["t"]].n:
                p["at"] = pickers[p["t"]].site(p["i"])
    return (expected, nested), None


def execute(s):
    r = None
    prep, bad = prepare(r, s)
    if bad:
        return {"violation": bad}
    expected, nested = prep

    # bounded liveness: together the calls need the steps they need alone
    total = sum(c[0] + c[1] for t in expected for _, c, _ in t) + 8 * (sum(nested[1]) if nested else 0)
    budget = engine.step_limit(((total,), 1))

    def body():
        world = gen.build(loader.ac, ops.uc(), s["objs"])
        before = engine.world_fp(gen.build(loader.ac, ops.uc(), s["objs"]))
        nested_out = []

        def call_nested():
            nested_out.append(engine.outcome(lambda: ops.run_op(s["nested"], world)))

        def client(t):
            def run():
                return [engine.outcome(lambda: ops.run_op(op, world)) for op in s["threads"][t]]
            return run

        res, info = engine.run_threads([client(t) for t in range(len(s["threads"]))], s["plan"], s["mode"], s["first"],
                                       {"nested": call_nested}, max_steps=budget)
        changed = engine.world_diff(before, world) if info["status"] == "done" else None
        return res, info, nested_out, changed

    v = engine.isolated(body)
    if v[0] != "ok":
        return {"violation": "process ended with %r while calls ran concurrently" % (v,)}
    res, info, nested_out, changed = v[1]
    stats = {"digest": info["hist"], "events": sum(c[0] + c[1] for c in info["counts"]),
             "faults": {"preemption": sum(1 for f in info["fired"] if f[3] == 0 and f[4] and f[1] == 0),
                        "preemption_without_gil": sum(1 for f in info["fired"] if f[3] == 0 and f[4] and f[1] == 1),
                        "reentrant_call": len(nested_out)},
             "nontrivial": sum(1 for f in info["fired"] if f[4]) > 0}
    if info["status"] == "deadlock":
        return {"violation": "deadlock: no caller can proceed", **stats}
    if info["status"] == "stalled":
        raise engine.Stall("threads did not finish")
    if info["overran"]:
        return {"violation": "calls did not finish within three times the steps they take alone", **stats}
    for t, ex in enumerate(expected):
        if res[t] is None or (res[t] and res[t][0] == "harness"):
            raise engine.HarnessError(repr(res[t]))
        for j, (out, _, _) in enumerate(ex):
            d = engine.differ(out, res[t][j])
            if d:
                return {"violation": "caller %d's %s gave a different result than alone: %s" % (t, s["threads"][t][j]["op"], d), **stats}
    for o in nested_out:
        d = engine.differ(nested[0], o)
        if d:
            return {"violation": "re-entrant %s gave a different result than alone: %s" % (s["nested"]["op"], d), **stats}
    if changed:
        return {"violation": "calls changed an argument: " + changed, **stats}
    return {"violation": None, **stats}


QUICK, THOROUGH = 2000, 25000
RULE = ("One run = 2 to 4 caller threads (real threads, one released at a time) share images, traps, CCD and ROE objects and "
        "call add_cti/remove_cti, drive trap managers, etc.; a plan drawn from the seed says at which executed line, opcode or "
        "GIL-free basic block a caller is stopped and who goes on, and where a re-entrant call is made. Every result is compared "
        "bit for bit with the same call alone in a fresh process. Non-trivial: at least one planned preemption or re-entrant call fired.")
DISTINCT = "hash of the token history: (thread, action, event index, next thread) for every hand-over"
REAL = ["arcticpy Python code", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy", "CPython threads"]
STUB = ["the choice of which thread runs (simulator)", "locks created by arcticpy, if any (simulated, to see deadlocks)"]
ASSUMPTIONS = ["threads are preempted between lines, opcodes and basic blocks of arcticpy code, not inside numpy, scipy or CPython",
               "under the GIL the Cython column loop itself is atomic, as in the shipped build"]
