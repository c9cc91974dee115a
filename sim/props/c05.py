"""C05: columns or rows divided among workers, in any order, with crashes."""
import copy, hashlib, pickle
import numpy as np
from .. import engine, gen, loader, ops

ID = "C05"
TITLE = "work divided by columns or rows"


def scenario(r):
    objs = {}
    form = r.choice(["p", "p", "p", "s", "s", "ps"])
    rows, cols = r.randint(1, 6), r.randint(1, 9)
    many = r.random() < 0.04
    if many:
        form, rows, cols = r.choice("ps"), r.randint(1, 3), r.choice([r.randint(20, 140), r.randint(140, 600)])
    if form == "s":
        rows, cols = cols, rows
    im = gen.image(r, rows, cols)
    c = {"op": "remove" if r.random() < 0.3 and form != "ps" else "add", "image": "im"}
    if c["op"] == "remove":
        c["iterations"] = r.choice([1, 2, 2, 3]) if r.random() > 0.1 else r.randint(4, 14)
        if im.get("dtype") == "i8":
            im["dtype"] = "f8"
    objs["im"] = dict(im, t="image")
    for d in form:
        p = r.choice([1, 1, 2, 3, 4]) if not many else r.choice([1, 1, 1, 2])
        ro = gen.roe(r, p)
        if "columns" in ro:
            ro["columns"] = True
        if many and ro["k"] == "tp":
            ro["n_pumps"] = min(ro["n_pumps"], 3)
        objs["ccd" + d] = dict(gen.ccd(r, p), t="ccd")
        objs["roe" + d] = dict(ro, t="roe")
        objs["traps" + d] = dict(gen.traps(r, cont=0.02 if p == 1 and not many else 0), t="traps")
        n_along = rows if d == "p" else cols
        names = {"ccd": "ccd" + d, "roe": "roe" + d, "traps": "traps" + d}
        c[d] = gen.direction(r, d, names, n_along, 0, offset=ro["k"] != "tp", far=0.02 if (cols if d == "p" else rows) <= 3 else 0)
        if c[d].get("offset", 0) >= 100 and rows * cols * 400 * len(objs[names["ccd"]]["frac"]) ** 2 * len(objs[names["traps"]]["g"]) > 4000:
            c[d]["offset"] = 5
        if c.get("iterations", 1) > 3 or c[d].get("offset", 0) >= 100:  # each costs time
            if ro["k"] == "tp":
                objs["roe" + d].update(n_pumps=min(ro["n_pumps"], 4))
            if p > 2 or c[d].get("offset", 0) >= 100 and c.get("iterations"):
                c.update(iterations=min(3, c["iterations"])) if "iterations" in c else None
                c[d].update(offset=5) if c[d].get("offset", 0) >= 100 and (c.get("iterations", 1) > 1 or p > 2) else None
        if form == "ps":
            c[d]["window"] = None
        if many:
            c[d]["express"] = 1
            c.update(iterations=min(2, c["iterations"])) if "iterations" in c else None
        if any(t["k"] == "cont" for g in objs["traps" + d]["g"] for t in g):
            c[d]["express"] = 1
        if ro["k"] == "tp":
            c[d]["window"] = r.randrange(n_along)
    if form == "ps" and any(objs["roe" + d]["k"] == "tp" for d in form):
        form = "p"
        del c["s"]
    if form == "p" and r.random() < 0.2:
        a = r.randrange(rows)
        c["time"] = [a, r.randint(a + 1, rows)]
    stages = []
    for d in form:
        n = cols if d == "p" else rows
        idx = list(range(n))
        if r.random() < 0.3:
            r.shuffle(idx)
        pieces, i = [], 0
        while i < n:
            k = r.choice([1, 1, 2, 3, n]) if not many else r.choice([7, 64, n // 3 + 1, n - 1, n])
            cols_ = idx[i: i + k]
            contiguous = cols_ == list(range(cols_[0], cols_[0] + len(cols_)))
            how = r.choice(["slice", "window"]) if contiguous else "slice"
            if im.get("frame") and how == "slice" and contiguous:
                how = "window"
            pieces.append({"cols": cols_, "how": how})
            i += k
        if r.random() < 0.3:  # some are done twice
            pieces += [dict(r.choice(pieces)) for _ in range(r.choice([1, 2]))]
        r.shuffle(pieces)
        for q in pieces:
            q["worker"] = r.randrange(r.choice([1, 2, 3]))
            q["crash"] = []
            while r.random() < (0.2 if not many else 0.05) and len(q["crash"]) < 2:
                q["crash"].append({"kind": r.choice(["kill", "KeyboardInterrupt", "MemoryError", "RuntimeError"]), "frac": round(r.random(), 4)})
        stages.append({"dir": d, "pieces": pieces})
    return {"objs": objs, "call": c, "stages": stages, "send": [r.choice(["same", "pickle", "copy", "deepcopy"]) for _ in range(3)]}


KEEP = ("cols", "send")


def send(x, how):
    """How a worker gets its arguments."""
    if how == "pickle":
        try:
            return pickle.loads(pickle.dumps(x))
        except (pickle.PicklingError, AttributeError, TypeError):
            return x  # e.g. a user's local function
    if how == "copy":
        return [copy.copy(e) for e in x] if isinstance(x, list) and not isinstance(x[0], list) else copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    return x


def piece_call(s, d, q, image):
    """The call for one piece and the world it needs."""
    c = dict(s["call"])
    other = "s" if d == "p" else "p"
    c.pop(other, None)
    if d == "s":
        c["time"] = None
    if q["how"] == "slice":
        if s["objs"]["im"].get("frame"):
            image = np.asarray(image).view(np.ndarray)  # a Frame can't be cut
        k = q["cols"]
        lo, hi = k[0], k[-1] + 1
        if k == list(range(lo, hi)):
            sub = image[:, lo:hi] if d == "p" else image[lo:hi, :]
        else:
            sub = image[:, k] if d == "p" else image[k, :]
        return c, sub, None
    return c, image, [q["cols"][0], q["cols"][-1] + 1]


def do(s, d, q, image, world):
    c, im, w = piece_call(s, d, q, image)
    if w is not None:
        c = dict(c)
        kw = gen.call_kwargs(dict(world, im=im), c)
        kw[("serial" if d == "p" else "parallel") + "_window_range"] = range(*w)
        ac = loader.ac
        if c["op"] == "remove":
            return ac.remove_cti(image=im, iterations=c["iterations"], **kw)
        return ac.add_cti(image=im, **kw)
    return gen.do_call(loader.ac, dict(world, im=im), c)


def outside(c, image, out):
    """Pixels that a window of pixels along the clocking leaves alone: all but its own and their neighbours."""
    dirs = [d for d in "ps" if d in c]
    w = c[dirs[0]].get("window") if len(dirs) == 1 else None
    if w is None or out.shape != image.shape:
        return None
    lo, hi = (w, w + 1) if isinstance(w, int) else w
    keep = np.ones(image.shape, bool)
    keep[(slice(max(lo - 1, 0), hi + 1), slice(None)) if dirs == ["p"] else (slice(None), slice(max(lo - 1, 0), hi + 1))] = False
    bad = np.argwhere(keep & (np.asarray(image, dtype=float) != out))
    return None if not len(bad) else "%s from %r to %r" % (tuple(int(k) for k in bad[0]), float(image[tuple(bad[0])]), float(out[tuple(bad[0])]))


def execute(s):
    objs = s["objs"]
    need = {n: o for n, o in objs.items() if n != "im"}
    faults, events = {}, 0

    def count(k, n=1):
        faults[k] = faults.get(k, 0) + n

    v = engine.isolated(lambda: engine.raw_outcome(lambda: np.array(ops.run_op(s["call"], gen.build(loader.ac, ops.uc(), objs)))))
    if v[0] != "ok":
        return {"violation": "process ended with %r in one call on the whole image" % (v,)}
    if v[1][0] != "value":
        return {"violation": "one call on the whole image failed with %s" % v[1][1]}
    want = v[1][1]
    image = gen.make_image(objs["im"])
    kept = outside(s["call"], np.asarray(image), want)
    if kept is not None:
        return {"violation": "a pixel outside the window of rows was changed: " + kept, "digest": None, "events": 0, "faults": {}, "nontrivial": True}
    for stage in s["stages"]:
        d = stage["dir"]
        n = image.shape[1] if d == "p" else image.shape[0]
        parts = {}
        if any(k >= n for q in stage["pieces"] for k in q["cols"]):
            return {"violation": None, "digest": None, "events": events, "faults": faults, "nontrivial": False}
        queue = [dict(q, crash=list(q["crash"])) for q in stage["pieces"]]
        rounds = 0
        while queue and rounds < 40:
            rounds += 1
            w = queue[0]["worker"]
            batch = [q for q in queue if q["worker"] == w]

            def body(batch=batch, w=w, image=image):
                world = {k: send(o, s["send"][w % len(s["send"])]) for k, o in gen.build(loader.ac, ops.uc(), need).items()}
                out, inj, ev = [], [], 0
                for q in batch:
                    if q["crash"]:
                        fresh = gen.build(loader.ac, ops.uc(), need)
                        _, info = engine.run_single(lambda: engine.outcome(lambda: do(s, d, q, image, fresh)), log=True)
                        names, inv = info["log"]
                        ok = np.flatnonzero(~np.array([x[3] for x in names] or [False])[inv])
                        ev += sum(info["counts"])
                    for f in q["crash"]:
                        if len(ok):
                            at = int(ok[min(int(f["frac"] * len(ok)), len(ok) - 1)]) + 1
                            engine.run_single(lambda: engine.outcome(lambda: do(s, d, q, image, world)),
                                              [{"t": 0, "k": "p", "i": at, "a": "kill" if f["kind"] == "kill" else "raise", "exc": f["kind"]}])
                            inj.append(f["kind"])
                    o = engine.raw_outcome(lambda: np.array(do(s, d, q, image, world)))
                    out.append(o)
                return out, inj, ev

            v = engine.isolated(body)
            if v[0] == "killed":
                # all its results are lost; its pieces go to another worker
                count("worker_killed")
                for q in batch:
                    ks = [f["kind"] for f in q["crash"]]
                    if "kill" in ks:
                        q["crash"] = q["crash"][ks.index("kill") + 1:]
                        q["worker"] += 1
                        break
                    q["crash"] = []
                continue
            if v[0] != "ok":
                return {"violation": "a worker process ended with %r" % (v,), "digest": None, "events": events, "faults": faults, "nontrivial": True}
            outs, inj, ev = v[1]
            events += ev
            for k in inj:
                count("piece_interrupted_" + k)
            for q, o in zip(batch, outs):
                if o[0] != "value":
                    return {"violation": "a piece of the image failed - %s" % o[1], "digest": None, "events": events, "faults": faults, "nontrivial": True}
                res = o[1]
                if q["how"] == "window":
                    out_of = [k for k in range(n) if k not in q["cols"]]
                    a = res[:, out_of] if d == "p" else res[out_of, :]
                    b = np.asarray(image)[:, out_of] if d == "p" else np.asarray(image)[out_of, :]
                    if not np.array_equal(a, b):
                        return {"violation": "pixels outside the window were changed", "digest": None, "events": events, "faults": faults, "nontrivial": True}
                    res = res[:, q["cols"]] if d == "p" else res[q["cols"], :]
                for m, k in enumerate(q["cols"]):
                    part = np.array(res[:, m] if d == "p" else res[m, :])
                    if k in parts:
                        count("piece_done_twice")
                        if not np.array_equal(parts[k], part):
                            return {"violation": "a column processed twice gave two results", "digest": None, "events": events, "faults": faults, "nontrivial": True}
                    parts[k] = part
            queue = [q for q in queue if not any(q is b for b in batch)]
        if len(parts) != n:
            return {"violation": None, "digest": None, "events": events, "faults": faults, "nontrivial": False}
        image = np.stack([parts[k] for k in range(n)], axis=1 if d == "p" else 0)
    order = repr([[(q["cols"], q["how"], q["worker"], q["crash"]) for q in st["pieces"]] for st in s["stages"]])
    st = {"digest": hashlib.sha1(np.ascontiguousarray(image).tobytes() + order.encode()).hexdigest()[:16], "events": events, "faults": faults,
          "nontrivial": any(len(x["pieces"]) > 1 for x in s["stages"])}
    for x in s["stages"]:
        count("pieces_reordered", len(x["pieces"]))
    if image.shape != want.shape:
        return dict(st, violation="recombined image has shape %r instead of %r" % (image.shape, want.shape))
    bad = np.argwhere(~((image == want) | (np.isnan(image) & np.isnan(want))))
    if len(bad):
        i = tuple(int(k) for k in bad[0])
        return dict(st, violation="recombined image differs from one call's: %d pixels, first %s is %.17g instead of %.17g" % (len(bad), i, image[i], want[i]))
    return dict(st, violation=None)


QUICK, THOROUGH = 2500, 30000
RULE = ("One run = one image and model whose columns (rows for serial clocking; both one after the other) are divided at random into "
        "pieces, sub-images or windows, that 1 to 3 worker processes handle in random order with objects that are shared, pickled or "
        "copied; workers are killed or interrupted in the middle and pieces repeated. The recombined image is compared bit for bit "
        "with one call; pixels outside its windows with the input. Non-trivial: more than one piece.")
DISTINCT = "hash of the recombined image with the division, order and crash plan"
REAL = ["arcticpy Python code", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy", "process death"]
STUB = ["the dispatcher that hands out and collects pieces"]
ASSUMPTIONS = ["traps are emptied between columns", "for clocking in both directions the rows are divided after the columns are recombined"]
