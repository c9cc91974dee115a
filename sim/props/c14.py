"""C14: the correction of CTI converges, from whatever estimate it goes on."""
import hashlib
import numpy as np
from .. import engine, gen, loader, ops

ID = "C14"
TITLE = "correction converges to the original image through crashes and damaged estimates"
CLEAN = 6


def slope(o, n):
    """The steepest rise of the filled volume with electrons, above n of them."""
    out = []
    for p in range(len(o["frac"])):
        one = lambda x: x[p] if isinstance(x, list) else x
        full, notch, power = one(o["full"]), one(o["notch"]), one(o["power"])
        f = max(n - notch, 1e-9) / (full - notch)
        out.append(power / (full - notch) * max(f, 1e-12) ** (power - 1) if power < 1 else power / (full - notch))
    return max(out)


def scenario(r):
    """A readout with weak CTI: each pixel's change is a contraction."""
    objs = {}
    form = r.choice(["p", "p", "s", "ps"])
    rows, cols = r.randint(1, 9), r.randint(1, 5)
    if r.random() < 0.06:
        rows, cols = r.choice([(r.randint(10, 40), 1), (2, r.randint(10, 40))])
    low = r.choice([150, 500, 3000])
    objs["im"] = dict(gen.image(r, rows, cols), t="image", neg=False, dtype="f8", level=low)
    objs["im"]["max"] = max(objs["im"]["max"], 50)
    c = {"op": "remove", "image": "im"}
    rise = 0.0
    for d in form:
        p = r.choice([1, 1, 2, 3])
        n_along = rows if d == "p" else cols
        ro = gen.roe(r, p, ("roe", "roe", "roe", "ci"))
        cc = dict(gen.ccd(r, p), t="ccd")
        notch = cc["notch"]
        cc["notch"] = [min(x, low / 3) for x in notch] if isinstance(notch, list) else min(notch, low / 3)
        tr = dict(gen.traps(r, cont=0.02 if p == 1 and rows * cols < 16 else 0), t="traps")
        s = {"traps": "traps" + d, "ccd": "ccd" + d, "roe": "roe" + d, "express": r.choice([0, 0, 1, 1, 2, 3, 5])}
        if any(t["k"] == "cont" for g in tr["g"] for t in g):
            s["express"] = 1
        if r.random() < 0.3:
            s["offset"] = r.randint(1, 6)
        if r.random() < 0.15 and form != "ps":
            s["window"] = gen.window(r, n_along, 1)
        transfers = n_along + s.get("offset", 0)
        if ro["k"] == "ci" and ro["n_pixel_transfers"]:
            transfers = max(transfers, ro["n_pixel_transfers"])
        total = sum(t["density"] for g in tr["g"] for t in g)
        # at half the lowest level, each transfer captures and releases
        if rows * cols * transfers * len(cc["frac"]) ** 2 * len(tr["g"]) > 3000:
            return scenario(r)
        q = 2 * transfers * total * slope(cc, low / 2)
        want = 10 ** r.uniform(-2.5, -0.9) / len(form)
        for t in [t for g in tr["g"] for t in g]:
            t["density"] *= want / q
        rise += want
        objs["ccd" + d], objs["roe" + d], objs["traps" + d] = cc, dict(ro, t="roe"), tr
        c[d] = s
    steps = []
    for k in range(r.choice([0, 1, 2, 3, 4])):
        st = {"crash": [], "after": r.choice([None, None, None, "stale", "torn", "start", "late"]), "n": r.choice([1, 1, 2]), "frac": round(r.random(), 4)}
        while r.random() < 0.3 and len(st["crash"]) < 2:
            st["crash"].append({"kind": r.choice(["kill", "KeyboardInterrupt", "MemoryError", "RuntimeError"]), "frac": round(r.random(), 4)})
        steps.append(st)
    return {"objs": objs, "call": c, "steps": steps, "rise": rise, "first": r.choice([0, 1, 1, 2, 3]), "kept": r.random() < 0.5,
            "long": r.choice([4, 4, 5, 5, 6, 7, 9])}


KEEP = ("rise", "level", "long")


def original(s):
    x = np.array(gen.make_image(s["objs"]["im"]), dtype=float)
    return np.abs(x) + s["objs"]["im"]["level"]


def objects(s):
    return gen.build(loader.ac, ops.uc(), {k: o for k, o in s["objs"].items() if k != "im"})


def add(s, x, world):
    c = {k: v for k, v in s["call"].items() if k != "iterations"}
    return np.array(ops.run_op(dict(c, op="add"), dict(world, im=x)), dtype=float)


def remove(s, y, n, world):
    return np.array(ops.run_op(dict(s["call"], iterations=n), dict(world, im=y)), dtype=float)


def layout(s, x):
    """The image as the user keeps it."""
    o = s["objs"]["im"].get("order")
    if o == "F":
        return np.asfortranarray(x)
    if o == "strided":
        big = np.zeros((x.shape[0] * 2, x.shape[1] * 2))
        big[::2, ::2] = x
        return big[::2, ::2]
    return np.array(x)


def execute(s):
    faults, events = {}, 0

    def count(k):
        faults[k] = faults.get(k, 0) + 1

    def failed(v, what):
        return {"violation": "process ended with %r in %s" % (v, what), "digest": None, "events": events, "faults": faults, "nontrivial": True}

    truth = original(s)
    v = engine.isolated(lambda: add(s, layout(s, truth), objects(s)))
    if v[0] != "ok":
        return failed(v, "adding CTI")
    seen = v[1]
    if seen.shape != truth.shape:
        return {"violation": "image changed its shape", "digest": None, "events": 0, "faults": {}, "nontrivial": True}
    dist = lambda x: float(np.sum(np.abs(np.asarray(x) - truth))) if np.shape(x) == truth.shape and np.all(np.isfinite(x)) else float("inf")
    floor = 1e-11 * float(np.sum(truth)) * len(truth)
    limit = 1.25 * s["rise"] + 0.005
    stats = {"nontrivial": dist(seen) > 1e-6, "faults": faults, "probes": {}}

    # the estimate each machine keeps; the history of what was saved
    est = seen if not s["first"] else None
    saved = [seen]
    if est is None:
        v = engine.isolated(lambda: remove(s, layout(s, seen), s["first"], objects(s)))
        if v[0] != "ok":
            return failed(v, "removing CTI")
        est = v[1]
        saved.append(est)
    for st in s["steps"]:
        crash = [dict(c) for c in st["crash"]]
        while True:
            def body(est=est, crash=crash):
                world, ev, done = objects(s), 0, []
                ok = []
                if crash:
                    _, info = engine.run_single(lambda: engine.outcome(lambda: add(s, est, world)), log=True)
                    names, inv = info["log"]
                    ok = np.flatnonzero(~np.array([n[3] for n in names] or [False])[inv])
                    ev = sum(info["counts"])
                for c in crash:
                    if len(ok):
                        at = int(ok[min(int(c["frac"] * len(ok)), len(ok) - 1)]) + 1
                        w = world if s["kept"] else objects(s)
                        engine.run_single(lambda: engine.outcome(lambda: add(s, est, w)),
                                          [{"t": 0, "k": "p", "i": at, "a": "kill" if c["kind"] == "kill" else "raise", "exc": c["kind"]}])
                        done.append(c["kind"])
                x = est
                for _ in range(st["n"]):
                    x = x - (add(s, x, world) - seen)
                return x, ev, done

            v = engine.isolated(body)
            if v[0] == "killed":
                count("crash_kill")
                k = next((i for i, c in enumerate(crash) if c["kind"] == "kill"), None)
                if k is None:
                    return failed(v, "a step of the correction")
                crash = crash[k + 1:]
                continue
            if v[0] != "ok":
                return failed(v, "a step of the correction")
            break
        new, ev, done = v[1]
        events += ev
        for k in done:
            count("crash_" + k)
        if st["after"] == "stale":  # the save was lost
            new = saved[-1]
        elif st["after"] == "late":  # a slow machine saved last
            new = saved[int(st["frac"] * len(saved))]
        elif st["after"] == "start":
            new = seen
        elif st["after"] == "torn":  # only the first bytes were written
            k = int(st["frac"] * new.size)
            old = saved[-1].ravel().copy()
            old[:k] = new.ravel()[:k]
            new = old.reshape(new.shape)
        if st["after"]:
            count("estimate_" + st["after"])
        saved.append(new)
        est = new

    # the faults have stopped: every further iteration comes closer
    def clean():
        world, x, d = objects(s), est, [dist(est)]
        for _ in range(CLEAN):
            x = x - (add(s, x, world) - seen)
            d.append(dist(x))
        # and without any fault
        w = world if s["kept"] else objects(s)
        y = layout(s, seen)
        e = [dist(seen)] + [dist(remove(s, y, n, w)) for n in (1, 2, 3)]
        return x, d, e, dist(remove(s, y, s["long"], w))

    v = engine.isolated(clean)
    if v[0] != "ok":
        return failed(v, "removing CTI")
    x, d, e, far = v[1]
    stats["events"] = events
    stats["digest"] = hashlib.sha1(x.tobytes() + repr([s["steps"], d]).encode()).hexdigest()[:16]
    stats["ratio"] = [b / a / limit for seq in (d, e) for a, b in zip(seq, seq[1:]) if a > floor * 10]
    for what, seq in (("a resumed correction", d), ("remove_cti", e)):
        for k, (a, b) in enumerate(zip(seq, seq[1:])):
            if not b <= limit * a + floor:
                return dict(stats, violation="iteration %d of %s does not converge: from %.6g electrons off the original image to %.6g, more than a factor of %.3g"
                            % (k + 1, what, a, b, limit))
    n = s["long"] - 3
    if not far <= limit ** n * e[-1] + floor:
        return dict(stats, violation="%d iterations of remove_cti do not converge: from %.6g electrons off the original image after 3 to %.6g, more than a factor of %.3g each"
                    % (s["long"], e[-1], far, limit))
    return dict(stats, violation=None)


QUICK, THOROUGH = 1200, 20000
RULE = ("One run = one image with a background and CTI weak enough for its change to be a contraction (1 to 3 phases, parallel, serial or both, "
        "charge injection, express, offsets, windows, any carry-over), to which CTI is added and then removed in iterations by machines that are "
        "killed, interrupted and resumed from saved estimates that may be stale, torn, overwritten by a slow machine or lost. "
        "Once the faults stop, every iteration must come closer to the original by the factor that the model's slope allows, and so must remove_cti. "
        "Non-trivial: CTI moves more than 1e-6 electrons.")
DISTINCT = "hash of the last estimate, the errors and the fault plan"
REAL = ["arcticpy Python code", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy", "process death (exit in the middle of the call)"]
STUB = ["the machines and the storage of estimates (forked processes, values passed on)"]
ASSUMPTIONS = ["weak CTI over a background, where the correction is a contraction; not the strong and starved CTI of the other checks",
               "contraction factor bounded by twice the transfers, the traps and the slope of the well-filling function"]
