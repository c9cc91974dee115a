"""Operations of simulated clients: what a user of the package calls."""
import numpy as np
from . import gen, loader, engine


def uc():
    from . import usercode
    return usercode


def pool(r, n_images=2, n_models=2, kinds=("roe", "roe", "ci", "tp"), cont=0.03, user=0.2, max_rows=6, max_cols=4,
         max_phases=3, plain=False, simple=False, wide=0.04, starved=0.1):
    """Objects for clients to share: images and sets of model objects."""
    objs, models = {}, []
    for i in range(n_images):
        objs["im%d" % i] = dict(gen.image(r, r.randint(2, max_rows), r.randint(1, max_cols), plain), t="image")
        if r.random() < wide:  # of a detector's size in one direction
            objs["im%d" % i][r.choice(["rows", "cols"])] = r.choice([r.randint(20, 300), r.randint(300, 2500)])
    for i in range(n_models):
        names, k = gen.clocking_objects(r, objs, str(i), kinds, cont, simple, user, max_phases)
        if r.random() < starved:  # more traps than electrons
            m = 10 ** r.uniform(1, 3)
            for t in [t for g in objs[names["traps"]]["g"] for t in g if t["k"] != "cont"]:
                t["density"] = gen.rnd(min(t["density"] * m, 1e5))
        models.append({"names": names, "k": k, "phases": len(objs[names["ccd"]]["frac"]),
                       "cont": any(t["k"] == "cont" for g in objs[names["traps"]]["g"] for t in g)})
    return objs, models


def gen_call(r, objs, models, image=None, remove=0.2):
    im_name = image or r.choice([n for n in objs if n.startswith("im")])
    im = objs[im_name]
    c = {"op": "remove" if r.random() < remove else "add", "image": im_name}
    if c["op"] == "remove":
        c["iterations"] = r.choice([1, 1, 2]) if r.random() > 0.04 else r.randint(3, 12)
    dirs = r.choice([["p"], ["p"], ["s"], ["p", "s"]])
    if r.random() < 0.04:
        dirs = []  # nothing to do, but still a result of its own
    if c["op"] == "remove" and r.random() < 0.08:
        c["iterations"] = 0
    for d in dirs:
        m = r.choice(models)
        n_along = im["rows"] if d == "p" else im["cols"]
        s = gen.direction(r, d, m["names"], n_along, 0, offset=(m["k"] != "tp"))
        if n_along > 12:
            s["window"], s["express"] = narrow(r, min(n_along, 100)), r.choice([1, 1, 2, 3])
        if m["k"] == "tp":
            s["window"] = r.randrange(n_along)
        if m["cont"] and s["express"] == 0:
            s["express"] = 1
        if r.random() < 0.1 and m["phases"] == 1 and m["k"] == "roe":
            s["roe"] = None  # the default ROE
        c[d] = s
    if r.random() < 0.2 and "p" in c:
        a = r.randrange(im["rows"])
        c["time"] = [a, r.randint(a + 1, im["rows"])]
    if len(dirs) == 1:
        n = im["cols"] if dirs == ["p"] else im["rows"]
        if n > 12:
            c["cross"] = narrow(r, n)
        elif r.random() < 0.15:
            c["cross"] = gen.window(r, n, 1)
    return c


def narrow(r, n):
    a = r.choice([0, r.randrange(n), n - 1, n - 1])
    return [a, min(n, a + r.randint(1, 3))]


def gen_op(r, objs, models, kinds=("call", "call", "call", "manager", "matrix", "poisson", "phase", "species", "hst", "build")):
    k = r.choice(list(kinds))
    if k == "call":
        return gen_call(r, objs, models)
    m = r.choice(models)
    if k == "manager":
        ev = [[0 if r.random() < 0.3 else gen.rnd(10 ** r.uniform(0, 3.5)), gen.rnd(r.choice([1, 0.5, 3])), r.randrange(m["phases"])]
              for _ in range(r.randint(2, 4 if m["cont"] else 10))]
        for e in ev:
            if r.random() < 0.12:
                e[0] = r.choice(["save", "restore", "empty"])
        return {"op": "manager", "traps": m["names"]["traps"], "ccd": m["names"]["ccd"], "events": ev}
    if k == "matrix":
        n = r.randint(2, 9)
        if m["k"] == "tp":
            return {"op": "matrix", "roe": m["names"]["roe"], "pixels": r.randint(0, 4), "express": r.randint(0, 3)}
        a = r.randrange(n)
        return {"op": "matrix", "roe": m["names"]["roe"], "pixels": [a, r.randint(a + 1, n)], "express": r.randint(0, n),
                "offset": r.choice([0, 0, 2]), "time": r.choice([None, [0, 2], [1, 4]])}
    if k == "poisson":
        return {"op": "poisson", "traps": m["names"]["traps"], "shape": [r.randint(1, 30), r.randint(1, 6)], "seed": r.randrange(5)}
    if k == "species":
        n = 2 if m["cont"] else 6
        return {"op": "species", "traps": m["names"]["traps"], "fill": [gen.rnd(r.choice([r.random(), 10 ** r.uniform(-12, 0), 10 ** r.uniform(-3, 0), 1.0])) for _ in range(n)],
                "times": [gen.rnd(r.choice([10 ** r.uniform(-3, 3), r.random(), 0.0])) for _ in range(n)]}
    if k == "phase":
        return {"op": "phase", "ccd": m["names"]["ccd"], "phase": r.randrange(m["phases"]),
                "n": [gen.rnd(10 ** r.uniform(0, 4)) for _ in range(3)]}
    if k == "hst":
        small = [n for n, o in objs.items() if n.startswith("im") and max(o["rows"], o["cols"]) <= 12]
        if not small:
            return gen_call(r, objs, models)
        return {"op": "hst", "date": r.choice([2452400.0, 2454000.5, 2455123.0]), "image": r.choice(small)}
    p = r.choice([1, 2, 3])
    return {"op": "build", "roe": gen.roe(r, p), "ccd": gen.ccd(r, p), "default": r.random() < 0.4}


def run_op(op, world):
    ac = loader.ac
    k = op["op"]
    if k in ("add", "remove"):
        return gen.do_call(ac, world, op)
    if k == "manager":
        am = ac.AllTrapManager(traps=world[op["traps"]], max_n_transfers=len(op["events"]) + 1, ccd=world[op["ccd"]])
        ccd, out = world[op["ccd"]], []
        for n, dt, phase in op["events"]:
            if isinstance(n, str):
                {"save": am.save, "restore": am.restore, "empty": am.empty_all_traps}[n]()
            else:
                net = 0
                for tm in am[phase]:
                    net += tm.n_electrons_released_and_captured(
                        n_free_electrons=n, dwell_time=dt, ccd_filling_function=ccd.well_filling_function(phase=phase))
                out.append(float(net))
            out.append(float(am.n_electrons_trapped_currently))
        return out
    if k == "matrix":
        roe = world[op["roe"]]
        px = op["pixels"] if isinstance(op["pixels"], int) else range(*op["pixels"])
        kw = {"pixels": px, "express": op["express"]}
        if op.get("offset"):
            kw["offset"] = op["offset"]
        if op.get("time"):
            kw["time_window_range"] = range(*op["time"])
        e, m = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(**kw)
        return [e, m, roe.save_trap_states_matrix_from_express_matrix(e)]
    if k == "poisson":
        t = world[op["traps"]]
        t = t if isinstance(t, list) else [t]
        t = [x for g in t for x in (g if isinstance(g, list) else [g])]
        out = ac.Trap.poisson_trap(trap=t, shape=tuple(op["shape"]), seed=op["seed"])
        return [[float(x.density), float(x.release_timescale)] for x in out]
    if k == "species":
        t = world[op["traps"]]
        t = t if isinstance(t, list) else [t]
        out = []
        for x in [x for g in t for x in (g if isinstance(g, list) else [g])]:
            out.append(float(x.delta_ellipticity))
            for f, dt in zip(op["fill"], op["times"]):
                out += [float(x.time_elapsed_from_fill_fraction(f)), float(x.fill_fraction_from_time_elapsed(dt)),
                        float(x.electrons_released_from_electrons_and_dwell_time(100 * f, dt)),
                        float(x.electrons_released_from_time_elapsed_and_dwell_time(dt, 1 + dt))]
        return out
    if k == "phase":
        p = ac.CCDPhase(world[op["ccd"]], op["phase"])
        return [float(p.cloud_fractional_volume_from_n_electrons(n)) for n in op["n"]]
    if k == "hst":
        traps, ccd, roe = ac.model_for_HST_ACS(date=op["date"])
        return ac.add_cti(image=world[op["image"]], parallel_traps=traps, parallel_ccd=ccd, parallel_roe=roe, parallel_express=1)
    if k == "build":
        if op["default"]:
            objs = [ac.ROE(), ac.ROEChargeInjection(), ac.ROETrapPumping(), ac.CCD(), ac.Trap(), ac.TrapInstantCapture()]
        else:
            objs = [gen.make_roe(ac, op["roe"]), gen.make_ccd(ac, uc(), op["ccd"])]
        old = loader.simrt.pause(True)
        try:
            return [repr(engine.fingerprint(o)) for o in objs]
        finally:
            loader.simrt.pause(old)
    raise ValueError(k)


def fresh_outcome(op, objs):
    """The op alone, with objects of its own, in this (fresh) process."""
    world = gen.build(loader.ac, uc(), {n: objs[n] for n in needed(op) if n in objs})
    return engine.outcome(lambda: run_op(op, world))


def needed(op):
    out = set()
    for k in ("image", "traps", "ccd", "roe"):
        if isinstance(op.get(k), str):
            out.add(op[k])
    for d in ("p", "s"):
        if isinstance(op.get(d), dict):
            for k in ("traps", "ccd", "roe"):
                if op[d].get(k):
                    out.add(op[d][k])
    return out


def needed_all(ops_):
    s = set()
    for o in ops_:
        s |= needed(o)
    return s
