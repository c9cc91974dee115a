"""C08: random trap draws are reproducible and leave other randomness alone."""
import copy, hashlib, json, random
import numpy as np
from .. import elsewhere, engine, gen, loader, ops
from . import c01

ID = "C08"
TITLE = "random trap draws are reproducible"


def scenario(r):
    objs = {}
    for k in range(r.choice([1, 2])):
        g = [gen.trap(r, ["instant", "slow", "trap0", "user", "cont"], 1) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        for t in g:
            t["density"] = r.choice([0.0, gen.rnd(10 ** r.uniform(-3, 2)), gen.rnd(r.uniform(0, 5)), 1.0])
        if r.random() < 0.1:
            g[r.randrange(len(g))]["density"] = gen.rnd(10 ** r.uniform(2, 6))
        if r.random() < 0.3:
            g.append(dict(g[0]))
        if k and r.random() < 0.6:  # a set of traps much like the first
            g = copy.deepcopy(objs["traps0"]["g"][0])
            how = r.choice(["release", "density", "order", "kind"])
            if how == "order":
                g.reverse()
            for t in g:
                if how == "release":
                    t["release"] = gen.rnd(t["release"] * r.uniform(0.5, 2))
                if how == "density":
                    t["density"] = gen.rnd(t["density"] * r.choice([1, 1.01, 2]))
                if how == "kind" and t["k"] in ("instant", "trap0"):
                    t["k"] = r.choice(["instant", "trap0"])
        objs["traps%d" % k] = {"t": "traps", "form": "list", "g": [g]}

    def draw():
        op = {"op": "poisson", "traps": r.choice([n for n in objs]), "shape": [r.choice([1, 7, 100, r.randint(1, 2000)]), r.choice([1, 2, 5, 30, 300])],
              "seed": r.choice([0, 1, 2, r.randrange(2 ** 32), 2 ** 32 - 1])}
        if r.random() < 0.1:
            op["seed"] = None  # left to its default
        return op

    def glob():
        return [r.choice([["np.seed", r.randrange(100)], ["np.rand", r.randint(1, 5)], ["np.normal", 0], ["np.poisson", 30], ["np.shuffle", 9],
                          ["py.seed", r.randrange(100)], ["py.random", 0], ["py.gauss", 0]]) for _ in range(r.choice([4, 10]))]

    base = [draw() for _ in range(r.choice([1, 2, 3]))]
    for b in list(base):  # and draws much like others
        if r.random() < 0.5:
            b = dict(b)
            other = draw()
            for k in r.sample(["traps", "shape", "seed"], 1):
                b[k] = other[k]
            base.append(b)
    threads = [[r.choice(base) for _ in range(r.choice([1, 2, 4]))] for _ in range(r.choice([1, 2, 2, 3]))]
    s = {"objs": objs, "threads": threads, "global": glob() if r.random() < 0.8 else None, "mode": r.choice([engine.LINE, engine.OPCODE, engine.OPCODE]),
         "first": 0, "pseed": r.randrange(1 << 30), "plan": None, "fail": [], "np_seed": r.randrange(1000)}
    if r.random() < 0.3:
        for _ in range(r.choice([1, 2])):
            s["fail"].append({"op": r.choice(base), "seed": r.randrange(1 << 30), "i": None, "k": r.choice(["raise", "raise", "alloc"]), "j": r.randint(1, 6)})
    if r.random() < 0.01:
        s["elsewhere"] = {"PYTHONHASHSEED": str(r.randrange(1, 10000))}
    if r.random() < 0.3:  # another seed: near, alike in some of its bits, or anything
        extra = dict(base[0])
        extra["seed"] = ((extra["seed"] or 0) ^ r.choice([1, 7, 1000, 1 << r.randrange(32), r.randrange(1, 1 << 16) << r.choice([0, 8, 16]),
                                                          r.randrange(1, 1 << 32)])) % 2 ** 32
        s["other_seed"] = extra
    return s


def facts(op, objs, o):
    """What every draw must satisfy by itself."""
    if o[0] != "value":
        return "a draw failed with %s" % o[1]
    spec = [t for g in objs[op["traps"]]["g"] for t in g]
    rows, cols = op["shape"]
    got = o[1]
    if len(got) != len(spec) * cols:
        return "%d traps drawn for %d species and %d columns" % (len(got), len(spec), cols)
    d = np.array([x[0] for x in got]).reshape(cols, len(spec))
    rel = np.array([x[1] for x in got]).reshape(cols, len(spec))
    n = d * rows
    if not np.all(np.abs(n - np.round(n)) < 1e-6 + 1e-15 * np.abs(n)):
        return "a drawn density is not a whole number of traps in a column"
    if np.any(d < 0):
        return "a drawn density is negative"
    for k, t in enumerate(spec):
        want = t["release"]
        if t["k"] != "cont" and not np.all(rel[:, k] == want):
            return "a drawn trap of species %d has release timescale %r instead of %r" % (k, float(rel[0, k]), want)
        lam = t["density"] * rows
        if lam == 0 and np.any(d[:, k]):
            return "traps drawn for a species of density zero"
        if lam * cols >= 100:
            z = (n[:, k].sum() - lam * cols) / np.sqrt(lam * cols)
            if abs(z) > 8:
                return "draws do not follow the density: mean off by %.1f standard errors" % z
        if cols >= 300 and lam >= 20:
            ratio = n[:, k].var() / lam
            if not 0.4 < ratio < 1.8:
                return "draws are not Poisson: variance is %.2f times the mean" % ratio
        if lam >= 50 and (cols - 1) / 2 * np.log10(lam) >= 8 and np.all(n[:, k] == n[0, k]):
            return "all columns got the same draw"
        for j in range(k):
            if spec[j]["density"] * rows == lam and lam >= 50 and cols / 2 * np.log10(lam) >= 8 and np.all(n[:, k] == n[:, j]):
                return "two species got the same draws"
    return None


def poisson(op, world):
    if op["seed"] is None:
        t = world[op["traps"]]
        out = loader.ac.Trap.poisson_trap(trap=t, shape=tuple(op["shape"]))
        return [[float(x.density), float(x.release_timescale)] for x in out]
    return ops.run_op(op, world)


def rng_state():
    a = np.random.get_state()
    return (random.getstate(), a[0], a[1].tobytes(), a[2], a[3], a[4])


def key(op):
    return json.dumps(op, sort_keys=True)


def execute(s):
    objs = s["objs"]
    todo = [o for t in s["threads"] for o in t] + [f["op"] for f in s["fail"]] + ([s["other_seed"]] if s.get("other_seed") else [])
    exp = {}
    for op in todo:
        if op["traps"] not in objs or not objs[op["traps"]]["g"] or not objs[op["traps"]]["g"][0]:
            return {"violation": None, "digest": None, "events": 0, "faults": {}, "nontrivial": False}
        if key(op) in exp:
            continue

        def body():
            world = gen.build(loader.ac, ops.uc(), {op["traps"]: objs[op["traps"]]})
            r, info = engine.run_single(lambda: engine.raw_outcome(lambda: poisson(op, world)), mode=s["mode"], log=True)
            return r, info["counts"], info["log"]

        v = engine.isolated(body)
        if v[0] != "ok":
            return {"violation": "process ended with %r in one draw" % (v,)}
        exp[key(op)] = v[1]
        bad = facts(op, objs, v[1][0])
        if bad:
            return {"violation": bad}
    g = None
    if s.get("global"):
        def alone():
            np.random.seed(s["np_seed"])
            random.seed(s["np_seed"])
            (out, info) = engine.run_single(lambda: ops.uc().use_global_random(s["global"]), mode=s["mode"], log=True)
            return out, info["counts"], info["log"], rng_state()

        v = engine.isolated(alone)
        if v[0] != "ok":
            raise engine.HarnessError(repr(v))
        g = v[1]
    bodies = [t for t in s["threads"]]
    pr = random.Random(s["pseed"])
    pickers = []
    for t in bodies:
        names, inv, n, nc = [], [], 0, 0
        for op in t:
            _, c, (nm, iv) = exp[key(op)]
            inv.append(iv + len(names))
            names += nm
            n += c[0]
            nc += c[1]
        pickers.append(engine.Picker((n, nc), (names, np.concatenate(inv) if inv else np.zeros(0, int))))
    if g:
        pickers.append(engine.Picker(g[1], g[2]))
    if s["plan"] is None:
        s["plan"], _ = engine.choose_switches(pr, pickers) if len(pickers) > 1 else ([], None)
        if len(pickers) > 1 and pr.random() < 0.7:  # few events: switch often
            for t, p in enumerate(pickers):
                for _ in range(6):
                    i = p.pick(pr, "uniform")
                    if i and not any(q["t"] == t and q["k"] == "p" and q["i"] == i for q in s["plan"]):
                        s["plan"].append({"t": t, "k": "p", "i": i, "a": "switch", "to": pr.randrange(len(pickers))})
        for f in s["fail"]:
            _, c, log = exp[key(f["op"])]
            f["i"] = engine.Picker(c, log).pick(random.Random(f["seed"]), "uniform", interrupt=True)
    faults = {}

    def session():
        world = gen.build(loader.ac, ops.uc(), objs)
        before = engine.world_fp(gen.build(loader.ac, ops.uc(), objs))
        np.random.seed(s["np_seed"])
        random.seed(s["np_seed"])
        state = rng_state()
        failed = []
        for f in s["fail"]:
            call = lambda: engine.raw_outcome(lambda: poisson(f["op"], world))
            if f["k"] == "alloc":
                loader.simrt.alloc_on(0, 1)
                old = loader.simrt.install()
                loader.simrt.arm(1, f["j"])
                o = call()
                loader.simrt.arm(0, -1)
                loader.simrt.uninstall(old)
            elif f["i"]:
                o, _ = engine.run_single(call, [{"t": 0, "k": "p", "i": f["i"], "a": "raise", "exc": "KeyboardInterrupt"}], mode=s["mode"])
            else:
                continue
            if o[0] == "exc":
                failed.append(f["k"])
            if rng_state() != state:
                return "a failed draw changed the global generators", failed, None, None, None
        for op in [o for t in s["threads"] for o in t][:2]:
            poisson(op, world)
            if rng_state() != state:
                return "a draw changed the global generators", failed, None, None, None

        def client(t):
            return lambda: [engine.raw_outcome(lambda: poisson(op, world)) for op in s["threads"][t]]

        bodies = [client(t) for t in range(len(s["threads"]))]
        if g:
            bodies.append(lambda: ops.uc().use_global_random(s["global"]))
        res, info = engine.run_threads(bodies, s["plan"], s["mode"], s["first"] % len(bodies),
                                       max_steps=engine.step_limit(*[((p.n, p.nc), 1) for p in pickers]))
        bad = None
        if info["status"] == "done":
            d = engine.world_diff(before, world)
            if d:
                bad = "a draw changed a species passed in: " + d
        return bad, failed, res, info, rng_state() == (g[3] if g else state)

    v = engine.isolated(session)
    if v[0] != "ok":
        return {"violation": "process ended with %r while traps were drawn" % (v,)}
    bad, failed, res, info, same = v[1]
    for k in failed:
        faults["draw_failed_" + k] = faults.get("draw_failed_" + k, 0) + 1
    st = {"events": 0, "faults": faults, "nontrivial": True, "digest": hashlib.sha1(repr([s["threads"], s["plan"], s["global"]]).encode()).hexdigest()[:16]}
    if bad:
        return dict(st, violation=bad)
    st["events"] = sum(c[0] + c[1] for c in info["counts"])
    st["nontrivial"] = len(info["counts"]) > 1
    faults["preemption"] = sum(1 for f in info["fired"] if f[3] == 0 and f[4])
    if info["status"] == "stalled":
        raise engine.Stall("threads did not finish")
    if info["status"] != "done" or info["overran"]:
        return dict(st, violation="no end: draws did not finish (%s)" % info["status"])
    for x in res:
        if isinstance(x, tuple) and x and x[0] == "harness":
            raise engine.HarnessError(repr(x))
    for t, ops_ in enumerate(s["threads"]):
        for j, op in enumerate(ops_):
            if res[t][j] != exp[key(op)][0]:
                return dict(st, violation="a draw gave other traps than the same draw alone (seed %r)" % op["seed"])
    if g and res[-1] != g[0]:
        return dict(st, violation="draws disturbed another user of the global generators")
    if not same:
        return dict(st, violation="the global generators' states are not as without draws")
    if s.get("other_seed"):
        a = [o for t in s["threads"] for o in t if o["traps"] == s["other_seed"]["traps"] and o["shape"] == s["other_seed"]["shape"] and (o["seed"] or 0) != s["other_seed"]["seed"]]
        if a:
            lam = sum(t["density"] > 0 for t in objs[a[0]["traps"]]["g"][0] if t["density"] * a[0]["shape"][0] >= 5) * a[0]["shape"][1]
            if lam >= 30:
                faults["seeds_compared"] = 1
                if exp[key(a[0])][0] == exp[key(s["other_seed"])][0]:
                    return dict(st, violation="two seeds gave the same traps: %r and %r" % (a[0]["seed"], s["other_seed"]["seed"]))
    if s.get("elsewhere"):
        some = [o for t in s["threads"] for o in t if o["seed"] is not None]
        if some:
            v = elsewhere.run([[o, {o["traps"]: objs[o["traps"]]}] for o in some], s["elsewhere"])
            faults["other_interpreter"] = 1
            if v[0] != "ok":
                return dict(st, violation="another interpreter ended with %r" % (v,))
            for o, x in zip(some, v[1]):
                w = exp[key(o)][0]
                if x != ("value", engine.enc(w[1])):
                    return dict(st, violation="a draw gave other traps in another interpreter (seed %r)" % o["seed"])
    return dict(st, violation=None)


QUICK, THOROUGH = 2500, 40000
RULE = ("One run = 1 to 3 threads that draw Poisson traps, next to one that uses numpy's and Python's global generators, preempted at "
        "seeded lines or opcodes; some draws fail first (interrupt, allocation). Draws are compared with the same draw alone in a fresh "
        "process (sometimes a new interpreter with another hash seed), the global user's numbers and the generators' final states "
        "with a run without draws; counts, order, release times, mean and variance are checked. Non-trivial: two or more threads.")
DISTINCT = "hash of the draws, global actions and the plan of switches"
REAL = ["arcticpy Trap.poisson_trap", "numpy generators", "CPython threads"]
STUB = ["the choice of which thread runs (simulator)"]
ASSUMPTIONS = ["means are accepted within 8 standard errors, variances (300 columns) between 0.4 and 1.8 of the mean"]
