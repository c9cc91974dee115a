"""C04: a readout may be split in time, stopped, crash and be resumed."""
import hashlib, os, shutil, tempfile
import numpy as np
from .. import engine, gen, loader, model, ops

ID = "C04"
TITLE = "readout split in time, with crashes and resumption"


def removal(r):
    """Removing CTI step by step: each iteration adds the CTI to what is
    believed to be the true image so far and corrects it by the difference."""
    objs, models = ops.pool(r, n_images=1, n_models=2, cont=0.02, max_rows=7, wide=0, plain=True)
    c = ops.gen_call(r, objs, models, remove=1.0)
    c["iterations"] = r.randint(2, 4) if r.random() < 0.8 else r.randint(5, 12)
    c.pop("time", None)
    return {"removal": True, "objs": {"im" if n == "im0" else n: o for n, o in objs.items()}, "call": dict(c, image="im"),
            "n": c["iterations"], "cuts": list(range(1, c["iterations"])), "stages": stages_of(r, c["iterations"]), "arrivals": []}


def stages_of(r, n):
    stages = []
    for k in range(n):
        st = {"crash": [], "again": r.random() < 0.15, "proc": r.choice([0, 0, 1, 2])}
        while r.random() < 0.3 and len(st["crash"]) < 3:
            st["crash"].append({"kind": r.choice(["kill", "KeyboardInterrupt", "MemoryError"]), "frac": round(r.random(), 4)})
        stages.append(st)
    return stages


def work(objs, s):
    """Events per pixel and transfer."""
    return len(objs[s["ccd"]]["frac"]) ** 2 * len(objs[s["traps"]]["g"])


def scenario(r):
    if r.random() < 0.15:
        return removal(r)
    objs = {}
    rows, cols = r.randint(1, 8), r.randint(1, 4)
    if r.random() < 0.08:  # longer readouts
        rows, cols = r.choice([(r.randint(9, 60), 1), (r.randint(9, 24), 2)])
    objs["im"] = dict(gen.image(r, rows, cols, True), t="image")
    if r.random() < 0.1:
        objs["im"]["neg"] = True
    form = r.choice(["p", "p", "p", "s", "ps", "ci", "ci", "cis"])
    c = {"op": "add", "image": "im"}
    for d in {"p": "p", "s": "s", "ps": "ps", "ci": "p", "cis": "s"}[form]:
        p = r.choice([1, 1, 2, 3, 4])
        ro = gen.roe(r, p, ("ci",) if form in ("ci", "cis") else ("roe",))
        ro["columns"] = True
        if "first" in ro:
            ro["first"] = True
        objs["ccd" + d] = dict(gen.ccd(r, p, 0.1), t="ccd")
        objs["roe" + d] = dict(ro, t="roe")
        objs["traps" + d] = dict(gen.traps(r, cont=0.02 if p == 1 and rows < 5 else 0), t="traps")
        c[d] = {"traps": "traps" + d, "ccd": "ccd" + d, "roe": "roe" + d, "express": 0}
        if r.random() < 0.4:
            c[d]["offset"] = r.randint(1, 5)
            if rows <= 4 and cols <= 2 and r.random() < 0.1:
                c[d]["offset"] = r.randint(100, 300)
        if r.random() < 0.25 and form != "ps":
            c[d]["window"] = gen.window(r, rows if d == "p" else cols, 1)
    n = rows + (c["p"].get("offset") or 0 if "p" in c else 0)
    if rows * cols * n * max(work(objs, c[d]) for d in ("p", "s") if d in c) > 8000:
        return scenario(r)
    cuts = sorted(r.sample(range(1, n), min(n - 1, r.choice([1, 1, 2, 3, 5] if n < 100 else [1, 2])))) if n > 1 else []
    if r.random() < 0.1 and n < 20:
        cuts = list(range(1, n))
    stages = stages_of(r, len(cuts) + 1)
    arrivals = []
    if cuts and r.random() < 0.35 and form in ("p", "s", "ci", "cis"):
        for _ in range(r.choice([1, 1, 2])):
            arrivals.append({"cut": r.choice(cuts), "at": [r.randrange(rows), r.randrange(cols)], "n": gen.rnd(10 ** r.uniform(1, 3.5))})
    return {"objs": objs, "call": c, "n": n, "cuts": cuts, "stages": stages, "arrivals": arrivals}


KEEP = ("at",)


def run_stage(s, image, window, state=None):
    """One window of the readout from a saved image, objects built or kept."""
    def op():
        world = state if state is not None else gen.build(loader.ac, ops.uc(), {k: v for k, v in s["objs"].items() if k != "im"})
        world = dict(world, im=image)
        if s.get("removal"):
            first = np.array(gen.make_image(s["objs"]["im"]), dtype=float)
            step = {k: v for k, v in s["call"].items() if k != "iterations"}
            added = np.array(ops.run_op(dict(step, op="add"), world), dtype=float)
            return image + first - added if s.get("other") else image - (added - first)
        return np.array(ops.run_op(dict(s["call"], time=window), world), dtype=float)
    return op


def arrive(s, image, cut):
    for a in s["arrivals"]:
        if a["cut"] == cut:
            image[a["at"][0], a["at"][1]] += a["n"]
    return image


def execute(s):
    bounds = [0] + list(s["cuts"]) + [s["n"]]
    if any(a >= b for a, b in zip(bounds, bounds[1:])) or len(s["stages"]) < len(bounds) - 1 or any(a["cut"] not in s["cuts"] for a in s["arrivals"]) \
            or s.get("removal") and s["cuts"] != list(range(1, s["n"])):
        return {"violation": None, "digest": None, "events": 0, "faults": {}, "nontrivial": False}
    start = np.array(gen.make_image(s["objs"]["im"]), dtype=float)
    faults, events, hist = {}, 0, []

    def count(k):
        faults[k] = faults.get(k, 0) + 1

    # the undisturbed readout: as few windows as the arrivals allow
    def plain():
        if s.get("removal"):
            world = gen.build(loader.ac, ops.uc(), {k: v for k, v in s["objs"].items() if k != "im"})
            return np.array(ops.run_op(dict(s["call"], iterations=s["n"]), dict(world, im=start)), dtype=float)
        img = start
        stops = sorted({a["cut"] for a in s["arrivals"]})
        b = [0] + stops + [s["n"]]
        for x, y in zip(b, b[1:]):
            img = run_stage(s, img, None if len(b) == 2 else [x, y])()
            if y in stops:
                img = arrive(s, img, y)
        return img

    v = engine.isolated(plain)
    if v[0] != "ok":
        return {"violation": "process ended with %r in an uninterrupted readout" % (v,)}
    want = v[1]
    # consecutive stages of the same worker process share its objects
    scratch = tempfile.mkdtemp(prefix="c04-")
    try:
        saved = start
        i = 0
        while i < len(bounds) - 1:
            j = i + 1
            while j < len(bounds) - 1 and s["stages"][j]["proc"] == s["stages"][i]["proc"]:
                j += 1
            saved, ev, text = worker(s, saved, bounds, i, j, scratch, count)
            events += ev
            if text:
                return {"violation": text, "digest": None, "events": events, "faults": faults, "nontrivial": True}
            if j < len(bounds) - 1:
                count("moved_to_another_process")
            i = j
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for a in s["arrivals"]:
        count("charge_arrived_between_windows")
    st = {"digest": hashlib.sha1(saved.tobytes() + repr([s["cuts"], s["stages"]]).encode()).hexdigest()[:16], "events": events,
          "faults": faults, "nontrivial": bool(len(bounds) > 2 and np.any(np.abs(want - start) > 1e-6)), "probes": {}}
    tol = 1e-9 * (1 + np.max(np.abs(want)))
    if s.get("removal"):
        # rounding that grows from step to step leaves nothing to compare
        st["faults"]["removal_in_steps"] = 1
        alike = []
        for other in (False, True):
            img = start
            for k in range(s["n"]):
                img = run_stage(dict(s, other=other), img, None)()
            alike.append(img)
        if not np.max(np.abs(alike[0] - alike[1])) <= 0.1 * tol:
            return dict(st, violation=None)
        st["probes"]["removal_compared"] = 1
    bad = np.argwhere(~(np.abs(saved - want) <= tol))
    if saved.shape != want.shape or len(bad):
        i = tuple(int(k) for k in bad[0])
        return dict(st, violation="%s in %d %s differs from the uninterrupted one: pixel %s is %.12g instead of %.12g"
                    % ("removal" if s.get("removal") else "readout", len(bounds) - 1, "steps" if s.get("removal") else "windows", i, saved[i], want[i]))
    if s.get("removal"):
        return dict(st, violation=None)
    # and the uninterrupted one is right
    cont = any(t["k"] == "cont" for o in s["objs"].values() if o.get("t") == "traps" for g in o["g"] for t in g)
    if not cont and len(s["cuts"]) <= 4:
        refs = [reference(s, start, v) for v in model.VARIANTS]
        if max(np.max(np.abs(x - refs[0])) for x in refs) <= 1e-9 * (1 + np.max(np.abs(refs[0]))):
            st["probes"]["compared_with_reference"] = 1
            bad = np.argwhere(~(np.abs(want - refs[0]) <= 1e-7 * (1 + np.max(np.abs(refs[0])))))
            if len(bad):
                i = tuple(int(k) for k in bad[0])
                return dict(st, violation="readout%s differs from the step-by-step one: pixel %s is %.12g instead of %.12g"
                            % (" with charge arriving" if s["arrivals"] else "", i, want[i], refs[0][i]))
    return dict(st, violation=None)


def reference(s, start, variant):
    img = start
    stops = sorted({a["cut"] for a in s["arrivals"]})
    b = [0] + stops + [s["n"]]
    for x, y in zip(b, b[1:]):
        img = model.add_cti(img, s["objs"], dict(s["call"], time=[x, y]) if len(b) > 2 else s["call"], variant)
        if y in stops:
            img = arrive(s, img, y)
    return img


def worker(s, saved, bounds, i, j, scratch, count):
    """Stages i..j-1 in one process, restarted from the last saved image when
    it is killed; the saved image is the only thing that survives."""
    k = i
    kills_left = {m: [c for c in s["stages"][m]["crash"]] for m in range(i, j)}
    path = os.path.join(scratch, "image.npy")
    events = 0
    while k < j:
        def body(k=k, saved=saved):
            """Runs stages until one is killed; saves after each."""
            state = gen.build(loader.ac, ops.uc(), {n: o for n, o in s["objs"].items() if n != "im"})
            img, done, ev, text, inj = saved, k, 0, None, []
            for m in range(k, j):
                w = [bounds[m], bounds[m + 1]]
                if kills_left[m]:
                    _, info = engine.run_single(lambda: engine.outcome(run_stage(s, img, w)), log=True)
                    names, inv = info["log"]
                    ok = np.flatnonzero(~np.array([n[3] for n in names] or [False])[inv])
                    ev += sum(info["counts"])
                for f in kills_left[m]:
                    if not len(ok):
                        continue
                    at = int(ok[min(int(f["frac"] * len(ok)), len(ok) - 1)]) + 1
                    plan = {"t": 0, "k": "p", "i": at, "a": "kill" if f["kind"] == "kill" else "raise", "exc": f["kind"]}
                    before = img.copy()
                    if f["kind"] == "kill":
                        with open(path + ".n", "w") as fh:
                            fh.write(str(m))
                    engine.run_single(lambda: engine.outcome(run_stage(s, img, w, state)), [plan])
                    inj.append("crash_" + f["kind"])
                    if not np.array_equal(before, img):
                        text = "an interrupted window changed the saved image in memory"
                out = engine.raw_outcome(run_stage(s, img, w, state))
                if out[0] != "value":
                    text = "a window of the readout failed with %s" % out[1]
                    break
                if s["stages"][m]["again"]:
                    inj.append("window_done_twice")
                    again = run_stage(s, img, w, state)()
                    if not np.array_equal(out[1], again):
                        text = "the same window done twice from the same image gave different results"
                img = arrive(s, out[1], bounds[m + 1])
                np.save(path, img)
                with open(path + ".n", "w") as fh:
                    fh.write(str(m + 1))
                done = m + 1
            return img, done, ev, text, inj

        v = engine.isolated(body)
        if v[0] == "ok":
            img, done, ev, text, inj = v[1]
            for x in inj:
                count(x)
            events += ev
            return img, events, text
        if v[0] == "killed":
            count("crash_kill")
            m = int(open(path + ".n").read())
            if m > k:
                saved = np.load(path)
            # the crashes up to the one that just happened are over
            c = kills_left[m]
            n = next(x for x in range(len(c)) if c[x]["kind"] == "kill")
            kills_left[m] = c[n + 1:]
            for q in range(k, m):
                kills_left[q] = []
            k = m
            continue
        return saved, events, "process ended with %r in a window of the readout" % (v,)
    return saved, events, None


QUICK, THOROUGH = 1200, 14000
RULE = ("One run = one readout of a random image and model (normal or charge injection, parallel, serial or both, 1 to 4 phases, "
        "offsets, pixel windows) cut in up to n time windows that several worker processes carry out one after another; workers "
        "are killed or interrupted within windows and restart from the last saved image, windows are repeated, charge arrives "
        "between them. The final image is compared with the undisturbed readout and an independent reference. A "
        "seventh of the runs divide the iterations of a removal among workers in the same way. Non-trivial: at "
        "least two windows and charge is moved.")
DISTINCT = "hash of the final image with the cut points and crash plan"
REAL = ["arcticpy Python code", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy", "process death (exit in the middle of the call)"]
STUB = ["the machines and the storage of saved images (forked processes, a scratch file)"]
ASSUMPTIONS = ["express 0 and traps empty at each transfer (otherwise the package documents small differences)",
               "tolerance 1e-9 relative against the undisturbed readout, 1e-7 against the reference"]
