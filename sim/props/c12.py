"""C12: a long session accumulates nothing."""
import copy, gc, hashlib, json, random, sys, threading, types, weakref
import numpy as np
from .. import engine, gen, loader, ops
from . import c01

ID = "C12"
TITLE = "a long session accumulates nothing"
KINDS = ("call", "call", "call", "manager", "manager", "matrix", "poisson", "phase", "species", "hst", "build")
WARM, ROUNDS, LONG = 3, 7, 360


def scenario(r):
    objs, models = ops.pool(r, n_images=1, n_models=1, cont=0.01, max_rows=4, max_cols=3, max_phases=2, user=0.3)
    todo = []
    for _ in range(r.choice([1, 1, 2])):
        op = ops.gen_op(r, objs, models, KINDS)
        f = None
        if r.random() < 0.5:
            f = {"k": r.choice(["raise", "raise", "alloc", "user", "reject"]), "seed": r.randrange(1 << 30), "i": None, "frac": round(r.random(), 4),
                 "exc": r.choice(["KeyboardInterrupt", "RuntimeError", "MemoryError"]), "how": r.choice(["uniform", "site", "first", "last"])}
        todo.append({"op": op, "fail": f})
    return {"objs": objs, "todo": todo, "vary": r.random() < 0.7, "thread": r.random() < 0.15, "keep": r.random() < 0.3}


def varied(objs, k):
    """The objects of round k: other values, same shapes."""
    objs = copy.deepcopy(objs)
    for o in objs.values():
        if o["t"] == "image":
            o["seed"] += 17 * k
        elif o["t"] == "traps":
            for g in o["g"]:
                for t in g:
                    t["density"] *= 1 + 0.001 * k
                    t["release"] *= 1 + 0.0007 * k
        elif o["t"] == "ccd":
            o["power"] = [x * (1 + 0.0003 * k) for x in o["power"]] if isinstance(o["power"], list) else o["power"] * (1 + 0.0003 * k)
            o["full"] = [x * (1 + 0.0001 * k) for x in o["full"]] if isinstance(o["full"], list) else o["full"] * (1 + 0.0001 * k)
        elif o["t"] == "roe":
            o["dwell"] = [x * (1 + 0.0005 * k) for x in o["dwell"]]
    return objs


def one_round(s, k, live, kept):
    """Builds, calls, fails, drops; weak references are left in live.  With
    keep, the model objects of the first round serve all rounds."""
    rt, uc = loader.simrt, ops.uc()
    objs = varied(s["objs"], k) if s["vary"] else s["objs"]
    if s["keep"]:
        if not kept:
            kept.update(gen.build(loader.ac, uc, {n: o for n, o in s["objs"].items() if o["t"] != "image"}))
        world = dict(kept, **gen.build(loader.ac, uc, {n: o for n, o in objs.items() if o["t"] == "image"}))
    else:
        world = gen.build(loader.ac, uc, objs)
    n_failed = 0
    del live[:]

    def watch(name, o):
        if isinstance(o, (list, tuple)):
            for x in o:
                watch(name, x)
        elif engine._is_model(o) or isinstance(o, np.ndarray):
            try:
                live.append((name, weakref.ref(o)))
            except TypeError:
                pass

    for n, o in world.items():
        if n not in kept:
            watch(n, o)
    for t in s["todo"]:
        op, f = t["op"], t["fail"]
        call = lambda: engine.outcome(lambda: ops.run_op(op, world))
        if f and f["k"] == "raise" and f["i"]:
            o, _ = engine.run_single(call, [{"t": 0, "k": "p", "i": f["i"], "a": "raise", "exc": f["exc"]}])
            rt.reset(1, engine.LINE, 0, 0)  # or the plan keeps the exception
            n_failed += o[0] == "exc"
        elif f and f["k"] == "alloc":
            rt.arm(1, 1 + int(f["frac"] ** 2 * 200))
            o = call()
            rt.arm(0, -1)
            n_failed += o[0] == "exc"
        elif f and f["k"] == "user":
            def do():
                raise uc.UserError()

            uc.HOOK.calls, uc.HOOK.at, uc.HOOK.do = 0, 1 + int(f["frac"] ** 2 * 60), do
            o = call()
            uc.HOOK.at, uc.HOOK.do = None, None
            n_failed += o[0] == "exc"
        elif f and f["k"] == "reject":
            for n, x in world.items():
                if objs[n]["t"] == "ccd":
                    o = engine.outcome(lambda: setattr(x, "full_well_depth", [1.0] * 9))
                    n_failed += o[0] == "exc"
        o = engine.raw_outcome(lambda: ops.run_op(op, world))
        if o[0] == "value":
            watch("result of " + op["op"], o[1])
        o = None
    world = None
    return n_failed


def held(roots):
    """How many objects can be reached from the package and the objects kept."""
    todo = list(roots)
    for n, m in list(sys.modules.items()):
        if m is not None and (n == "arcticpy" or n.startswith("arcticpy.")):
            todo.append(vars(m))
    seen = {}
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        if isinstance(o, (types.ModuleType, types.FrameType, types.CodeType)):
            continue
        if isinstance(o, type) or callable(o):
            m = getattr(o, "__module__", None)
            if not (isinstance(m, str) and (m.startswith("arcticpy") or m.endswith("usercode"))):
                continue
        seen[id(o)] = o
        todo.extend(gc.get_referents(o))
    return len(seen)


def measure(kept):
    gc.collect()
    gc.collect()
    chk = loader.simrt.alloc_check()
    objs = gc.get_objects()
    model = sum(1 for o in objs if engine._is_model(o) and not isinstance(o, type))
    return {"array bytes": chk["live_bytes"], "array blocks": chk["live_blocks"], "model objects": model, "objects": len(objs),
            "objects held by the package or its objects": held(list(kept.values()))}


def execute(s):
    objs = s["objs"]
    for t in s["todo"]:
        for n in ops.needed(t["op"]):
            if n not in objs or (objs[n]["t"] == "traps" and not all(objs[n]["g"])):
                return {"violation": None, "digest": None, "events": 0, "faults": {}, "nontrivial": False}
        f = t["fail"]
        if f and f["k"] == "raise" and f["i"] is None:
            v = c01.solo(t["op"], objs, engine.LINE)
            if v[0] == "ok":
                f["i"] = engine.Picker(v[1][1], v[1][2]).pick(random.Random(f["seed"]), f["how"], interrupt=True)
        if f and f["k"] == "alloc" and any(x["k"] == "cont" for o in objs.values() if o["t"] == "traps" for g in o["g"] for x in g):
            f["k"] = "user"

    def body():
        rt = loader.simrt
        rt.alloc_on(0, 1)
        gc.collect()
        gc.freeze()  # only what is made from here on
        live, kept = [], {}
        failed = 0

        def rnd(k):
            if s["thread"]:
                box = []

                def go():
                    old = rt.install()
                    box.append(one_round(s, k, live, kept))
                    rt.uninstall(old)

                t = threading.Thread(target=go)
                t.start()
                t.join()
                return box[0]
            return one_round(s, k, live, kept)

        old = rt.install()
        try:
            for k in range(WARM):
                failed += rnd(k)
            seen = [measure(kept)]
            for k in range(WARM, WARM + ROUNDS):
                failed += rnd(k)
                gc.collect()
                for name, ref in live:
                    if ref() is not None:
                        return "%s stays alive after it was dropped" % name.rstrip("0123456789"), failed, k
                seen.append(measure(kept))
            grows = [n for n in seen[0] if all(b[n] > a[n] for a, b in zip(seen, seen[1:]))]
            k = WARM + ROUNDS
            if grows:  # a bounded cache, or a leak?
                marks = [measure(kept)]
                for _ in range(4):
                    for _ in range(LONG // 4):
                        rnd(k)
                        k += 1
                    marks.append(measure(kept))
                leaks = [n for n in grows if all(b[n] - a[n] >= LONG // 8 for a, b in zip(marks, marks[1:]))]
                if leaks:
                    n = leaks[0]
                    return "%s alive grow with every round of calls: %d to %d in %d rounds" % (n, marks[0][n], marks[-1][n], LONG), failed, k
            return None, failed, k
        finally:
            rt.uninstall(old)

    v = engine.isolated(body, timeout=150)
    if v[0] != "ok":
        return {"violation": "process ended with %r in a long session" % (v,)}
    bad, failed, rounds = v[1]
    faults = {"failed_calls": failed} if failed else {}
    faults["rounds"] = rounds
    return {"violation": bad, "digest": hashlib.sha1(json.dumps([s["objs"], s["todo"]], sort_keys=True).encode()).hexdigest()[:16],
            "events": rounds * len(s["todo"]), "faults": faults, "nontrivial": True, "probes": {"suspected_growth": int(rounds > WARM + ROUNDS)}}


QUICK, THOROUGH = 1500, 25000
RULE = ("One run = 10 rounds that build images and model objects (other values each round), make the same calls, some of which fail "
        "(interrupt, allocation, user function, rejected setting), and drop everything (in a third of the runs all but the model objects, which serve every round). Dropped objects and results must be freed; "
        "live array bytes and blocks, model objects, tracked objects and everything reachable from the package's modules and the objects kept are measured after each round, and if "
        "one grows every time 360 more rounds tell a bounded cache from a leak. All runs are non-trivial.")
DISTINCT = "hash of objects and calls"
REAL = ["arcticpy Python code", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy", "CPython's garbage collector"]
STUB = ["numpy's data allocator and the extensions' malloc (counted)"]
ASSUMPTIONS = ["cycles are collected before measuring", "growth slower than one object per two rounds is not seen"]
