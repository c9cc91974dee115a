"""C06: trap groups conserve charge and stay physical through any history."""
import hashlib
import numpy as np
from .. import engine, gen, loader, model, ops

ID = "C06"
TITLE = "trap groups conserve charge and match the per-volume model"


def scenario(r):
    p = r.choice([1, 1, 1, 2, 3])
    cont = r.random() < 0.14
    dmax = r.choice([1, 2, 3, 3.3])
    groups = []
    for _ in range(r.choice([1, 1, 1, 2])):
        kinds = ["cont"] if cont else r.choice([["instant"], ["instant"], ["user"], ["slow"], ["slow", "trap0"], ["trap0"]])
        groups.append([dict(gen.trap(r, kinds, dmax)) for _ in range(r.choice([1, 1, 2, 3]) if not cont else r.choice([1, 1, 2]))])
        if cont:
            for t in groups[0]:
                if r.random() < 0.35:
                    t["sigma"] = gen.rnd(r.uniform(0.8, 1.1))
            break
    for g in groups:
        if r.random() < 0.1:
            g[0]["same_again"] = True  # the same trap object listed twice
    objs = {"ccd": dict(gen.ccd(r, p), t="ccd"), "traps": {"t": "traps", "form": "groups", "g": groups}}
    n_ev = r.randint(2, 8) if cont else r.choice([5, 15, 40, 40, 150])
    full = max(objs["ccd"]["full"]) if isinstance(objs["ccd"]["full"], list) else objs["ccd"]["full"]
    notch = objs["ccd"]["notch"]
    notch = notch[0] if isinstance(notch, list) else notch
    pool = [gen.rnd(full * r.random()) for _ in range(3)] + [notch, full, gen.rnd(full * 1.5), float(r.choice([1, 1, 2, 10, 100]))]
    scale = r.choice([full, full / 30, 10])
    dts = [gen.edge(r, gen.rnd(10 ** r.uniform(-1.5, 1.5)), -6, 4) for _ in range(r.choice([1, 2, 4]))]
    events = []
    for _ in range(n_ev):
        x = r.random()
        if x < 0.06:
            events.append({"do": r.choice(["save", "restore", "empty"])})
            continue
        n = r.choice([0.0, gen.rnd(r.random() * scale), gen.rnd(r.random() * scale), gen.rnd(r.random() * 10), gen.rnd(10 ** r.uniform(-6, 4)), r.choice(pool)])
        e = {"n": n, "dt": r.choice(dts), "ph": r.randrange(p), "g": r.randrange(len(groups)), "m": r.choice([1, 1, 0, 5.5])}
        if r.random() < 0.05:
            e["fault"] = r.choice(["KeyboardInterrupt", "RuntimeError", "alloc"])
            e["frac"] = round(r.random(), 4)
        events.append(e)
    how = "all"
    if not cont and all(t["k"] in ("instant", "user") for g in groups for t in g) and r.random() < 0.4:
        how = "time"  # the same through elapsed times
    return {"objs": objs, "events": events, "how": how, "max": r.choice([len(events) + 1, 3])}


def managers(s, world, ccdspec):
    """Per phase and group, and a function for the total of trapped electrons."""
    ac = loader.ac
    if s["how"] == "time":
        out = []
        for frac in ccdspec["frac"]:
            row = []
            for g in world["traps"]:
                tm = ac.TrapManagerTrackTime(traps=g, max_n_transfers=s["max"])
                tm.n_traps_per_pixel *= frac
                row.append(tm)
            out.append(row)
        return out
    return ac.AllTrapManager(traps=world["traps"], max_n_transfers=s["max"], ccd=world["ccd"])


def build(s):
    world = gen.build(loader.ac, ops.uc(), s["objs"])
    for g, spec in zip(world["traps"], s["objs"]["traps"]["g"]):
        if spec[0].get("same_again"):
            g.append(g[0])
    return world


def ref_groups(s, variant):
    ccd = s["objs"]["ccd"]
    gs = [g + [g[0]] if g[0].get("same_again") else g for g in s["objs"]["traps"]["g"]]
    return [[model.Group(g, f, variant) for g in gs] for f in ccd["frac"]]


def run(s):
    """In a child: (violation text or None, stats)."""
    ccd = s["objs"]["ccd"]
    p = len(ccd["frac"])
    world = build(s)
    am = managers(s, world, ccd)
    track = s["how"] == "time"
    trapped = (lambda: float(sum(tm.n_trapped_electrons_from_watermarks(tm.watermarks) for row in am for tm in row))) if track else \
        (lambda: float(am.n_electrons_trapped_currently))
    vols = [model.well(ccd, ph) for ph in range(p)]
    fills = [world["ccd"].well_filling_function(phase=ph) for ph in range(p)]
    refs = [ref_groups(s, v) for v in model.COLLAPSING]
    saved = [None] * len(refs)
    cont = any(t["k"] == "cont" for g in s["objs"]["traps"]["g"] for t in g)
    compare = True
    st = {"events": 0, "faults": {}, "probes": {"starved": 0, "compared": 0, "below_top": 0}}
    h = hashlib.sha1()
    most = sum(float(g.n.sum()) for row in refs[0] for g in row)
    cap = [[0.0 for _ in row] for row in refs[0]]  # highest level reached, by volume

    hist = 0.0

    def at(i):
        return "event %d of %d" % (i, len(s["events"]))

    for i, e in enumerate(s["events"]):
        if "do" in e:
            if track:
                if e["do"] != "empty":
                    continue
                for row in am:
                    for tm in row:
                        tm.empty_all_traps()
            else:
                {"save": am.save, "restore": am.restore, "empty": am.empty_all_traps}[e["do"]]()
            for k, rg in enumerate(refs):
                flat = [g for row in rg for g in row]
                if e["do"] == "save":
                    saved[k] = [g.get() for g in flat]
                elif e["do"] == "empty":
                    for g in flat:
                        g.clear()
                else:
                    for j, g in enumerate(flat):
                        g.set(saved[k][j]) if saved[k] else g.clear()
            now = trapped()
            want = sum(g.trapped() for row in refs[0] for g in row)
            if e["do"] == "empty" and now != 0:
                return "emptied traps hold %.12g electrons (%s)" % (now, at(i)), st, h
            if compare and abs(now - want) > (1e-5 if cont else 1e-8) * (1e-4 * hist + abs(want) + (most if cont else 0)):
                return "%s: %.12g electrons trapped instead of %.12g (%s)" % (e["do"], now, want, at(i)), st, h
            continue
        ph, gi, n, dt = e["ph"], e["g"], e["n"], e["dt"]
        tm = am[ph][gi]
        before = trapped()

        def call(tm=tm, n=n, dt=dt, ph=ph, e=e):
            return float(tm.n_electrons_released_and_captured(
                n_free_electrons=n, dwell_time=dt, ccd_filling_function=fills[ph], express_multiplier=e["m"]))

        if e.get("fault") and not track and not cont:
            am.save()
            if e["fault"] == "alloc":
                loader.simrt.arm(1, 1 + int(e["frac"] * 12))
                o = engine.outcome(call)
                loader.simrt.arm(0, 0)
            else:
                o, _ = engine.run_single(lambda: engine.outcome(call), [
                    {"t": 0, "k": "p", "i": 1 + int(e["frac"] * 160), "a": "raise", "exc": e["fault"]}])
            if o[0] == "exc":
                st["faults"][e["fault"] + "_in_event"] = st["faults"].get(e["fault"] + "_in_event", 0) + 1
            am.restore()
            for k, rg in enumerate(refs):
                saved[k] = [g.get() for row in rg for g in row]
            if trapped() != before:
                return "a failed event and restore left %.12g trapped instead of %.12g (%s)" % (trapped(), before, at(i)), st, h
            tm = am[ph][gi]
        try:
            net = float(tm.n_electrons_released_and_captured(
                n_free_electrons=n, dwell_time=dt, ccd_filling_function=fills[ph], express_multiplier=e["m"]))
        except Exception as x:
            return "a valid event failed with %s (%s)" % (type(x).__name__, at(i)), st, h
        after = trapped()
        st["events"] += 1
        h.update(np.array([net, after]).tobytes())
        # rounding is in proportion to the charge that was ever here
        hist = max(hist, n + before)
        scale = n + before + 1e-4 * hist + 1e-12 * most
        tol = (1e-7 if cont else 1e-11) * scale
        if not np.isfinite(net) or not np.isfinite(after):
            return "not finite: net %r, trapped %r (%s)" % (net, after, at(i)), st, h
        if abs((before - after) - net) > tol:
            return "charge not conserved: %.12g released less captured, but %.12g fewer trapped (%s)" % (net, before - after, at(i)), st, h
        if -net > n + tol:
            return "more electrons captured than offered: %.12g from a cloud of %.12g (%s)" % (-net, n, at(i)), st, h
        if after < -tol or after > most + tol:
            return "%.12g electrons in %.12g traps (%s)" % (after, most, at(i)), st, h
        if vols[ph](n + before) == 0 and net < -tol:
            return "a cloud that reaches no traps lost %.12g electrons (%s)" % (-net, at(i)), st, h
        cap[ph][gi] = max(cap[ph][gi], vols[ph](n + before))
        limit = sum(float(refs[0][a][b].n.sum()) * cap[a][b] for a in range(p) for b in range(len(cap[a])))
        if after > limit + tol:
            return "%.12g electrons trapped, more than the clouds so far reach: %.12g (%s)" % (after, limit, at(i)), st, h
        if n > 0 and -net > 0.999999 * n:
            st["probes"]["starved"] += 1
        if not compare:
            continue
        want = [rg[ph][gi].event(n, dt, vols[ph]) for rg in refs]
        total = [sum(g.trapped() for row in rg for g in row) for rg in refs]
        if max(abs(w - want[0]) for w in want) > 1e-9 * scale or max(abs(w - total[0]) for w in total) > 1e-9 * scale:
            compare = False
            continue
        st["probes"]["compared"] += 1
        if 0 < vols[ph](n) < refs[0][ph][gi].top():
            st["probes"]["below_top"] += 1
        tol = (2e-6 if cont else 1e-8) * (scale + (most if cont else 0))
        if abs(net - want[0]) > tol:
            return "net release %.12g instead of %.12g (%s, %s traps)" % (net, want[0], at(i), "elapsed-time" if track else refs[0][ph][gi].kind), st, h
        if abs(after - total[0]) > tol:
            return "%.12g electrons trapped instead of %.12g (%s)" % (after, total[0], at(i)), st, h
    return None, st, h


def execute(s):
    if any(e.get("g", 0) >= len(s["objs"]["traps"]["g"]) or not all(s["objs"]["traps"]["g"]) for e in s["events"]):
        return {"violation": None, "digest": None, "events": 0, "faults": {}, "nontrivial": False}

    def body():
        old = None
        if any(e.get("fault") == "alloc" for e in s["events"]):
            loader.simrt.alloc_on(0, 1)
            old = loader.simrt.install()
        try:
            text, st, h = run(s)
        finally:
            if old is not None:
                loader.simrt.uninstall(old)
        return text, st, h.hexdigest()[:16]

    v = engine.isolated(body)
    if v[0] != "ok":
        return {"violation": "process ended with %r while traps were driven" % (v,)}
    text, st, h = v[1]
    return dict(st, violation=text, digest=h, nontrivial=st["events"] > 3)


QUICK, THOROUGH = 9000, 200000
RULE = ("One run = a trap manager set (1 to 3 phases, 1 or 2 groups of 1 to 4 species, instant, finite, mixed, user-defined, continuum, "
        "or instant traps followed by elapsed time) driven through up to 150 clouds of any size and dwell time, with saves, restores, "
        "empties and events that fail half way (interrupt, exception, allocation failure) and are rolled back. After every event "
        "conservation and bounds are checked and the numbers compared with the per-volume model. Non-trivial: over 3 events.")
DISTINCT = "hash of all events' results"
REAL = ["arcticpy trap managers, traps, CCD", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy"]
STUB = ["none; the model (sim/model.py) replaces nothing"]
ASSUMPTIONS = ["comparison stops where rounding decides which levels count as filled (variants of the model differ); invariants continue",
               "tolerance 1e-8 of the charge involved (conservation 1e-11), 2e-6 for continuum traps"]
