"""C11: trap occupancy is carried over and cleared as configured, in whole readouts."""
import hashlib
import numpy as np
from .. import engine, gen, loader, model, ops

ID = "C11"
TITLE = "trap occupancy across transfers, express passes, pumps and columns"
BUDGET = 400_000_000


def direction_objects(r, objs, tag, carry, cont):
    p = r.choice([1, 1, 1, 2, 3, 4])
    kinds = r.choice([("roe",), ("roe",), ("roe", "ci"), ("tp",)])
    ro = gen.roe(r, p, kinds)
    if carry:
        if "columns" in ro:
            ro["columns"] = r.random() < 0.3
        if "first" in ro:
            ro["first"] = r.random() < 0.35
    objs["ccd" + tag] = dict(gen.ccd(r, p, 0.1), t="ccd")
    objs["roe" + tag] = dict(ro, t="roe")
    objs["traps" + tag] = dict(gen.traps(r, cont=cont if p <= 2 else 0), t="traps")
    return {"ccd": "ccd" + tag, "roe": "roe" + tag, "traps": "traps" + tag}, ro


def scenario(r):
    long = r.random() < 0.12
    cont = 0 if long else 0.03
    dirs = r.choice([["p"], ["p"], ["s"], ["s"], ["p", "s"]]) if not long else r.choice([["p"], ["s"]])
    objs = {}
    rows, cols = (r.randint(1, 8), r.randint(1, 8)) if not long else (r.randint(2, 4), r.randint(15, 40))
    if long and dirs == ["s"]:
        rows, cols = cols, rows
    tall = not long and r.random() < 0.06
    if tall:
        dirs, cont = r.choice([["p"], ["s"]]), 0
        rows, cols = (r.randint(9, 45), 1) if dirs == ["p"] else (1, r.randint(9, 45))
    objs["im"] = dict(gen.image(r, rows, cols, True), t="image")
    if r.random() < 0.1:
        objs["im"]["neg"] = True
    if r.random() < 0.1:
        objs["im"].update(dtype=r.choice(["f8", "i8"]), order=r.choice(["C", "F", "strided"]), ro=r.random() < 0.3)
    c = {"op": "add", "image": "im"}
    slow = False
    for d in dirs:
        names, ro = direction_objects(r, objs, d, r.random() < 0.8, cont)
        n_along = rows if d == "p" else cols
        s = gen.direction(r, d, names, n_along, 0, offset=(ro["k"] != "tp"), far=0.1 if (cols if d == "p" else rows) <= 2 else 0)
        if s.get("offset", 0) >= 100 and rows * cols * 400 * len(objs[names["ccd"]]["frac"]) ** 2 * len(objs[names["traps"]]["g"]) > 8000:
            s["offset"] = 5
        if ro["k"] == "tp":
            s["window"] = r.randrange(n_along)
        if r.random() < 0.3:
            s["express"] = r.randint(0, n_along + 3)
        if any(t["k"] == "cont" for g in objs[names["traps"]]["g"] for t in g):
            s["express"] = 1
            slow = True
        c[d] = s
    if r.random() < 0.2 and "p" in c:
        a = r.randrange(rows)
        c["time"] = [a, r.randint(a + 1, rows)]
    if r.random() < 0.12:
        c["op"], c["iterations"] = "remove", r.choice([1, 2])
        objs["im"]["dtype"] = "f8"
    if tall and len(dirs) == 1 and c[dirs[0]]["express"] == 0 and max(rows, cols) > 25:
        c[dirs[0]]["express"] = r.randint(1, 8)
    s = {"objs": objs, "call": c, "faults": []}
    if r.random() < 0.35 and not slow:  # earlier readouts with the same objects that fail half way
        for _ in range(r.choice([1, 1, 2])):
            s["faults"].append({"frac": round(r.random(), 4), "exc": r.choice(["KeyboardInterrupt", "RuntimeError", "MemoryError"])})
    return s


def reference(s):
    """(image, spread of the variants) or None where the model has no say."""
    image = np.asarray(gen.make_image(s["objs"]["im"]), dtype=float)
    c = s["call"]
    outs = []
    for v in model.VARIANTS:
        if c["op"] == "add":
            outs.append(model.add_cti(image, s["objs"], c, v))
            continue
        est = image.copy()
        for _ in range(c["iterations"]):
            if (est < 0).any():
                return None
            est = est + image - model.add_cti(est, s["objs"], c, v)
        outs.append(est)
    return outs[0], np.max([np.abs(o - outs[0]) for o in outs], axis=0)


def tolerance(s, image, ref):
    """Per pixel: relative to the brightest pixel of the lines it exchanges charge with."""
    objs = s["objs"].values()
    cont = any(t["k"] == "cont" for o in objs if o.get("t") == "traps" for g in o["g"] for t in g)
    big = np.maximum(np.abs(image), np.abs(ref))
    dirs = [d for d in "ps" if d in s["call"]]
    if len(dirs) == 2 or any(o.get("columns") is False for o in objs):
        scale = np.max(big, initial=0.0)
    else:
        scale = np.max(big, axis=0 if dirs == ["p"] else 1, keepdims=True, initial=0.0)
    return np.broadcast_to((2e-6 if cont else 1e-9) * scale, ref.shape)


def execute(s):
    def body():
        world = gen.build(loader.ac, ops.uc(), s["objs"])
        call = s["call"]
        fired = []
        n_events = 0
        if s["faults"]:
            w0 = gen.build(loader.ac, ops.uc(), s["objs"])
            _, info = engine.run_single(lambda: engine.outcome(lambda: ops.run_op(call, w0)), max_steps=BUDGET, log=True)
            pick = [i for i in range(info["counts"][0]) if not info["log"][0][info["log"][1][i]][3]]
            for f in s["faults"]:
                if not pick:
                    break
                i = pick[min(int(f["frac"] * len(pick)), len(pick) - 1)] + 1
                out, inf = engine.run_single(lambda: engine.outcome(lambda: ops.run_op(call, world)),
                                             [{"t": 0, "k": "p", "i": i, "a": "raise", "exc": f["exc"]}], max_steps=BUDGET)
                fired.append(f["exc"])
                n_events += sum(inf["counts"])
        out = engine.raw_outcome(lambda: ops.run_op(call, world))
        val = np.array(out[1], dtype=float) if out[0] == "value" else None
        return out[0], (out[1] if val is None else None), val, n_events, fired

    v = engine.isolated(body)
    if v[0] != "ok":
        return {"violation": "process ended with %r in a readout" % (v,)}
    kind, exc, val, events, fired = v[1]
    faults = {}
    for f in fired:
        faults["interrupted_readout_" + f] = faults.get("interrupted_readout_" + f, 0) + 1
    st = {"events": events, "faults": faults, "nontrivial": False, "digest": None, "probes": {}}
    if kind != "value":
        return dict(st, violation="a valid readout failed with %s" % exc)
    st["digest"] = hashlib.sha1(val.tobytes()).hexdigest()[:16]
    ref = reference(s)
    image = np.asarray(gen.make_image(s["objs"]["im"]), dtype=float)
    if ref is not None:
        ref, spread = ref
        tol = tolerance(s, image, ref)
    if ref is None or np.any(spread > 0.01 * tol):
        st["probes"] = {"not_compared": 1}
        return dict(st, violation=None)
    if val.shape != ref.shape:
        return dict(st, violation="image has shape %r instead of %r" % (val.shape, ref.shape))
    bad = np.argwhere(~(np.abs(val - ref) <= tol))
    st["nontrivial"] = bool(np.any(np.abs(ref - image) > 1e-6))
    st["probes"] = {"persistent_columns": int(any(o.get("columns") is False for o in s["objs"].values())),
                    "persistent_transfers": int(any(o.get("first") is False for o in s["objs"].values())),
                    "pumping": int(any(o.get("k") == "tp" for o in s["objs"].values()))}
    if len(bad):
        i = tuple(int(k) for k in bad[0])
        return dict(st, violation="image differs from the step-by-step readout: %d pixels, first %s is %.12g instead of %.12g"
                    % (len(bad), i, val[i], ref[i]))
    return dict(st, violation=None)


QUICK, THOROUGH = 2500, 90000
RULE = ("One run = one readout (add_cti or remove_cti) of a random image with random traps, CCD, ROE kind, phases, express, offset, "
        "windows and carry-over settings, in a third of the runs after readouts with the same objects that an injected exception "
        "stopped half way; the image is compared with an independent reference readout. Non-trivial: the readout changes the image.")
DISTINCT = "hash of the resulting image"
REAL = ["arcticpy Python code", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy"]
STUB = ["none; the reference readout (sim/model.py) replaces nothing"]
ASSUMPTIONS = ["tolerance 1e-9 relative to the largest pixel of the lines a pixel exchanges charge with (2e-6 with continuum traps, whose lifetimes' integrals are numerical)",
               "runs where rounding decides which trap levels count as filled, or whether a starved cloud is empty (variants of the reference differ) are not compared",
               "several trap groups take their electrons from the same cloud one by one, as the package does by design"]
