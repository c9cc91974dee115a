"""C09: no memory is used outside or before it is set; running out is safe."""
import hashlib, json, random
import numpy as np
from .. import engine, gen, loader, ops
from . import c01

ID = "C09"
TITLE = "memory is used inside its bounds and after it is set"


def edge_call(r, objs):
    """A call at the edges: thin images, windows at the ends, all directions."""
    rows, cols = r.choice([(1, 1), (1, 3), (2, 1), (r.randint(1, 9), r.randint(1, 5)), (r.randint(1, 9), r.randint(1, 5))])
    im = gen.image(r, rows, cols)
    if r.random() < 0.3:
        im["order"], im["frame"] = "padded", False
    objs["im0"] = dict(im, t="image")
    c = {"op": "remove" if r.random() < 0.15 else "add", "image": "im0"}
    if c["op"] == "remove":
        c["iterations"] = r.choice([1, 2])
        if im.get("dtype") == "i8":
            objs["im0"]["dtype"] = "f8"
    for d in r.choice([["p"], ["p"], ["p"], ["s"], ["p", "s"]]):
        names, k = gen.clocking_objects(r, objs, d, ("roe", "roe", "ci", "tp") if d == "p" else ("roe", "ci"), 0.02, False, 0.15)
        ro = objs[names["roe"]]
        if r.random() < 0.06:  # many species
            for g in objs[names["traps"]]["g"]:
                if g[0]["k"] != "cont":
                    g += [dict(r.choice(g), density=gen.rnd(r.uniform(0.1, 8)), release=gen.rnd(r.uniform(0.2, 9))) for _ in range(r.randint(3, 14))]
                    if objs[names["traps"]]["form"] == "single":
                        objs[names["traps"]]["form"] = "list"
        if "away" in ro and r.random() < 0.4:
            ro["away"] = False
        n = rows if d == "p" else cols
        s = gen.direction(r, d, names, n, 0, offset=k != "tp")
        if r.random() < 0.4:
            s["window"] = r.choice([0, n - 1, [0, 1], [n - 1, n], [0, n]])
        if r.random() < 0.3:
            s["express"] = r.choice([0, 1, n - 1, n, n + 1, 2 * n])
        if k == "tp":
            s["window"] = r.choice([0, n - 1, r.randrange(n)])
        if any(t["k"] == "cont" for g in objs[names["traps"]]["g"] for t in g):
            s["express"] = 1
        s["express"] = max(0, s["express"])
        c[d] = s
    if r.random() < 0.25 and "p" in c:
        a = r.choice([0, rows - 1, r.randrange(rows)])
        c["time"] = [a, r.choice([a + 1, rows, r.randint(a + 1, rows)])]
    return c


def growing(r):
    p = r.choice([1, 2])
    objs = {"ccd": dict(gen.ccd(r, p), t="ccd"), "traps": dict(gen.traps(r), t="traps")}
    full = max(objs["ccd"]["full"]) if isinstance(objs["ccd"]["full"], list) else objs["ccd"]["full"]
    ev, n = [], full
    for _ in range(r.choice([8, 25, 60])):
        n = n * r.uniform(0.7, 1.0) if r.random() < 0.85 else full * r.random()
        ev.append([gen.rnd(n), gen.rnd(r.choice([0.3, 1, 4])), r.randrange(p)])
    for _ in range(r.choice([0, 1, 3])):
        ev[r.randrange(len(ev))][0] = r.choice(["save", "restore", "empty"])
    return objs, {"op": "grow", "traps": "traps", "ccd": "ccd", "events": ev, "max": r.choice([1, 2, 3])}


def scenario(r):
    objs = {}
    kind = r.choice(["edge", "edge", "edge", "edge", "ops", "grow"])
    if kind == "edge":
        todo = [edge_call(r, objs)]
    elif kind == "ops":
        objs, models = ops.pool(r, n_images=1, n_models=1, user=0.1)
        todo = [ops.gen_op(r, objs, models, ("call", "manager", "matrix", "poisson", "phase", "species", "hst", "build")) for _ in range(r.choice([1, 2]))]
    else:  # more clouds than a manager was made for
        objs, op = growing(r)
        todo = [op]
    s = {"objs": objs, "todo": todo, "garbage": [[m, r.randrange(1 << 30)] for m in r.sample([1, 2, 3, 4, 5, 6], 2)], "fail": []}
    if not any(c01_cont(o, objs) for o in todo):
        for _ in range(r.choice([0, 1, 2, 4])):
            s["fail"].append({"frac": round(r.random(), 4), "n": r.choice([1, 1, 2, 10 ** 6]), "j": None})
    if r.random() < 0.12:
        s["threads"] = {"pseed": r.randrange(1 << 30), "plan": None}
    return s


def c01_cont(op, objs):
    return any(t["k"] == "cont" for n in ops.needed(op) if objs.get(n, {}).get("t") == "traps" for g in objs[n]["g"] for t in g)


def do(op, world):
    if op["op"] != "grow":
        return ops.run_op(op, world)
    am = loader.ac.AllTrapManager(traps=world[op["traps"]], max_n_transfers=op["max"], ccd=world[op["ccd"]])
    out, ccd = [], world[op["ccd"]]
    for n, dt, ph in op["events"]:
        if isinstance(n, str):
            {"save": am.save, "restore": am.restore, "empty": am.empty_all_traps}[n]()
            continue
        out.append(sum(float(tm.n_electrons_released_and_captured(n_free_electrons=n, dwell_time=dt, ccd_filling_function=ccd.well_filling_function(phase=ph)))
                       for tm in am[ph]))
        out.append(float(am.n_electrons_trapped_currently))
    return out


def world_of(s):
    """Objects; images that are views get other memory around them."""
    world = gen.build(loader.ac, ops.uc(), {n: o for n, o in s["objs"].items()})
    return world


def execute(s):
    objs = s["objs"]
    for o in s["todo"]:
        for n in ops.needed(o):
            if n not in objs or (objs[n]["t"] == "traps" and not all(objs[n]["g"])):
                return {"violation": None, "digest": None, "events": 0, "faults": {}, "nontrivial": False}
    rt = loader.simrt
    faults = {}

    def under(mode, seed, fn):
        rt.alloc_on(mode, seed)
        gen.PAD = [-12345.0, 7.5e9, 0.0, float("nan"), 3.0, 1e30, -1.0][mode]
        old = rt.install()
        try:
            return fn()
        finally:
            rt.uninstall(old)

    def plain():
        def go():
            world = world_of(s)
            return [engine.outcome(lambda: do(o, world)) for o in s["todo"]], rt.alloc_check()

        return under(0, 1, go)

    v = engine.isolated(plain)
    if v[0] != "ok":
        return {"violation": "process ended with %r in a valid call" % (v,)}
    want, chk = v[1]
    h = hashlib.sha1(repr(want).encode())
    st = {"events": chk["allocs"], "faults": faults, "nontrivial": True, "digest": h.hexdigest()[:16], "probes": {}}
    if chk["smashed"] or chk["badfree"]:
        return dict(st, violation="memory written outside an array - %s" % (chk["note"] or "freed twice"))
    for w, o in zip(want, s["todo"]):
        if w[0] == "exc" and o["op"] in ("add", "remove", "grow", "manager"):
            st["probes"]["call_raised_" + w[1]] = 1
    for n, (mode, seed) in enumerate(s["garbage"]):
        def dirty():
            if n == 1:
                loader.use_other_build()

            def go():
                world = world_of(s)
                before = engine.world_fp(world_of(s))
                out = [engine.outcome(lambda: do(o, world)) for o in s["todo"]]
                return out, rt.alloc_check(), engine.world_diff(before, world)

            return under(mode, seed, go)

        v = engine.isolated(dirty)
        faults["memory_contents_%d" % mode] = 1
        if v[0] != "ok":
            return dict(st, violation="process ended with %r with other contents of unset memory" % (v,))
        got, chk, changed = v[1]
        st["events"] += chk["allocs"]
        if chk["smashed"] or chk["badfree"]:
            return dict(st, violation="memory written outside an array - %s" % (chk["note"] or "freed twice"))
        for w, g in zip(want, got):
            d = engine.differ(w, g)
            if d:
                return dict(st, violation="a result depends on the contents of unset or foreign memory (mode %d): %s" % (mode, d))
        if changed:
            return dict(st, violation="an argument was changed: " + changed)
    if s["fail"]:
        def failing():
            def go():
                world = world_of(s)
                before = engine.world_fp(world_of(s))
                hits = 0
                o = s["todo"][0]
                rt.arm(1, -1)
                engine.outcome(lambda: do(o, world))
                n = rt.arm(0, -1)
                for f in s["fail"]:
                    if not n:
                        break
                    if f["j"] is None:
                        f["j"] = 1 + int(f["frac"] * n)
                    rt.arm(1, f["j"], f["n"])
                    g = engine.outcome(lambda: do(o, world))
                    hit = rt.arm(0, -1) >= f["j"]
                    hits += hit
                    if hit and g != ("exc", "MemoryError"):
                        d = engine.differ(want[0], g)
                        if d:
                            return "when an allocation failed a call neither raised MemoryError nor gave its result: " + d, hits, s["fail"]
                    d = engine.world_diff(before, world)
                    if d:
                        return "an argument was changed when an allocation failed: " + d, hits, s["fail"]
                for o, w in zip(s["todo"], want):
                    d = engine.differ(w, engine.outcome(lambda: do(o, world)))
                    if d:
                        return "after a failed allocation a call gave another result: " + d, hits, s["fail"]
                chk = rt.alloc_check()
                if chk["smashed"] or chk["badfree"]:
                    return "memory written outside an array - %s" % (chk["note"] or "freed twice"), hits, s["fail"]
                return None, hits, s["fail"]

            return under(*s["garbage"][0], go)

        v = engine.isolated(failing)
        if v[0] != "ok":
            return dict(st, violation="process ended with %r when an allocation failed" % (v,))
        bad, hits, s["fail"] = v[1]
        if hits:
            faults["allocation_failed"] = hits
        if bad:
            return dict(st, violation=bad)
    if s.get("threads") and s["todo"][0]["op"] != "grow":
        t = s["threads"]
        v = c01.solo(s["todo"][0], objs, engine.LINE)
        if v[0] == "ok":
            _, counts, log = v[1]
            if t["plan"] is None:
                p = engine.Picker(counts, log)
                t["plan"], _ = engine.choose_switches(random.Random(t["pseed"]), [p, p])

            def threads():
                def go():
                    world = world_of(s)
                    one = lambda: engine.outcome(lambda: do(s["todo"][0], world))

                    def client():  # allocator handlers are per context
                        old = rt.install()
                        try:
                            return one()
                        finally:
                            rt.uninstall(old)
                    res, info = engine.run_threads([client, client], t["plan"], engine.LINE, 0,
                                                   max_steps=engine.step_limit((counts, 2)))
                    return res, info, rt.alloc_check()

                return under(*s["garbage"][1], go)

            v = engine.isolated(threads)
            if v[0] != "ok":
                return dict(st, violation="process ended with %r while two calls ran" % (v,))
            res, info, chk = v[1]
            if info["status"] == "stalled":
                raise engine.Stall("threads")
            faults["preemption"] = sum(1 for f in info["fired"] if f[3] == 0 and f[4])
            if info["status"] == "done" and not info["overran"]:
                if chk["smashed"] or chk["badfree"]:
                    return dict(st, violation="memory written outside an array - %s" % (chk["note"] or "freed twice"))
                for g in res:
                    d = engine.differ(want[0], g)
                    if d:
                        return dict(st, violation="a result depends on the contents of unset or foreign memory (threads): " + d)
    return dict(st, violation=None)


QUICK, THOROUGH = 3000, 60000
RULE = ("One run = a call at the edges (thin images, views of larger buffers, windows at the ends, all clocking directions and modes, up "
        "to 4 phases), another operation, or a trap manager fed more clouds than it was made for, under a simulated allocator: fresh, "
        "freed and neighbouring memory holds seeded garbage of two kinds (NaN, huge, plausible charge or fill, negative, random "
        "bits), every array lies between red zones and the n-th allocation (or all from the n-th) fails. Results must equal those "
        "with zeroed memory bit for bit. All runs are non-trivial.")
DISTINCT = "hash of the results"
REAL = ["arcticpy Python code", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy"]
STUB = ["numpy's data allocator and the extensions' malloc/calloc/realloc/free (simulated)"]
ASSUMPTIONS = ["CPython's object allocator and the C stack are not simulated", "reads further than 1 kB outside an array may be missed",
               "continuum traps get no failing allocations (scipy's quadrature code is not under test)"]
