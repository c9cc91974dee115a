"""C07: trap states are saved, restored and emptied exactly."""
import copy, hashlib
import numpy as np
from .. import engine, gen, loader, ops

ID = "C07"
TITLE = "trap states are saved, restored and emptied exactly"


def scenario(r):
    p = r.choice([1, 1, 2, 3])
    cont = r.random() < 0.06
    objs = {"ccd": dict(gen.ccd(r, p, 0), t="ccd"), "traps": dict(gen.traps(r, cont=1.0 if cont else 0), t="traps")}
    if cont:
        objs["traps"]["g"] = [g[:1] for g in objs["traps"]["g"]]
    n_groups = len(objs["traps"]["g"])
    if p > 1 and r.random() < 0.4:  # phases alike: equal totals in different places
        objs["ccd"]["frac"] = [gen.rnd(1 / p)] * p
        if isinstance(objs["ccd"]["full"], list):
            objs["ccd"]["full"] = objs["ccd"]["full"][0]
    few = [gen.rnd(10 ** r.uniform(-3, 1)), gen.rnd(10 ** r.uniform(-1, 4))] if r.random() < 0.4 else None
    managers = 1
    full = max(objs["ccd"]["full"]) if isinstance(objs["ccd"]["full"], list) else objs["ccd"]["full"]
    dts = [gen.rnd(10 ** r.uniform(-1, 1.3)) for _ in range(r.choice([1, 2, 3]))]
    steps, broken = [], {}
    p_fault = r.choice([0, 0.1, 0.25])

    def fault():
        return {"k": r.choice(["raise", "raise", "alloc"]), "seed": r.randrange(1 << 30), "i": None, "frac": round(r.random(), 4),
                "exc": r.choice(["KeyboardInterrupt", "RuntimeError"])}

    for _ in range(r.choice([4, 6, 10]) if cont else r.choice([6, 15, 40])):
        m = r.randrange(managers)
        x = r.random()
        if broken.pop(m, None):
            steps.append({"do": r.choice(["restore", "restore", "empty"]), "m": m})
            continue
        if x < 0.6:
            n = r.choice(few + [0.0]) if few and r.random() < 0.8 else \
                r.choice([0.0, 0.0, gen.rnd(r.random() * full), gen.rnd(10 ** r.uniform(-2, 4)), gen.rnd(r.random() * 50)])
            e = {"do": "event", "m": m, "n": n, "dt": r.choice(dts), "ph": r.randrange(p), "g": r.randrange(n_groups)}
            if r.random() < p_fault * 0.6 and not cont:
                e["fault"] = fault()
                broken[m] = True
        elif x < 0.9:
            e = {"do": r.choice(["save", "save", "restore", "restore", "restore", "empty"]), "m": m}
            if e["do"] != "empty" and r.random() < p_fault * 2:
                e["fault"] = fault()
        elif x < 0.92 and not broken:  # the same again elsewhere, saved twice
            n, dt = r.choice(few) if few else gen.rnd(10 ** r.uniform(-3, 3)), r.choice(dts)
            for k in range(2):
                steps.append({"do": "empty", "m": m})
                for _ in range(r.choice([1, 1, 2])):
                    steps.append({"do": "event", "m": m, "n": n, "dt": dt, "ph": r.randrange(p), "g": r.randrange(n_groups)})
                steps.append({"do": "save", "m": m})
            steps.append({"do": "empty", "m": m})
            e = {"do": "restore", "m": m}
        elif x < 0.94 and managers < 3:
            e = {"do": "new", "max": r.choice([2, 20])}
            managers += 1
        elif x < 0.95 and not cont:  # a manager's own densities, then a save, so that no restore brings others back
            e = {"do": "own", "m": m, "v": gen.rnd(10 ** r.uniform(-0.7, 0.7)), "ph": r.randrange(p), "g": r.randrange(n_groups)}
        elif x < 0.975 and managers < 3:
            e = {"do": "clone", "m": m}
            managers += 1
        elif not cont:
            g = r.randrange(n_groups)
            e = {"do": "density", "g": g, "i": r.randrange(len(objs["traps"]["g"][g])), "v": gen.rnd(10 ** r.uniform(-0.7, 1.5))}
        else:
            continue
        steps.append(e)
    return {"objs": objs, "steps": steps, "max": r.choice([3, 50])}


def live_trap(traps, spec, g, i):
    if spec["form"] == "single":
        return traps
    return traps[i] if spec["form"] == "list" else traps[g][i]


class Cand:
    """One state the manager may be in: the events since it was empty."""

    def __init__(self, cur, saved, spec, make):
        self.cur, self.saved, self.spec, self.make, self.tw, self.own = cur, saved, spec, make, None, []

    def twin(self):
        if self.tw is None:
            self.tw = self.make(self.spec, len(self.cur or []) + 40)
            for e in self.cur or []:
                drive(self.tw, e, self.tw_ccd())
        return self.tw

    def tw_ccd(self):
        return self.make.ccd

    def copy(self):
        c = Cand(list(self.cur) if self.cur is not None else None, list(self.saved) if self.saved is not None else None, self.spec, self.make)
        c.own = list(self.own)
        return c


def drive(am, e, ccd):
    if e["do"] == "own":
        tm = am[e["ph"]][e["g"]]
        tm.n_traps_per_pixel = tm.n_traps_per_pixel * e["v"]
        return 0.0
    return float(am[e["ph"]][e["g"]].n_electrons_released_and_captured(
        n_free_electrons=e["n"], dwell_time=e["dt"], ccd_filling_function=ccd.well_filling_function(phase=e["ph"])))


def levels(am):
    return np.array([[tm.n_trapped_electrons_from_watermarks(tm.watermarks) for tm in row] for row in am], dtype=float).ravel()


def near(a, b, cont, scale=0.0):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= (1e-6 if cont else 1e-9) * (1 + np.abs(a) + np.abs(b) + scale)))


def run(s):
    ac = loader.ac
    spec = copy.deepcopy(s["objs"])
    cont = any(t["k"] == "cont" for g in spec["traps"]["g"] for t in g)
    world = gen.build(ac, ops.uc(), spec)
    ccd = world["ccd"]
    twin_ccd = gen.make_ccd(ac, ops.uc(), spec["ccd"])

    def make(sp, n):
        return ac.AllTrapManager(traps=gen.make_traps(ac, ops.uc(), sp["traps"]), max_n_transfers=n, ccd=twin_ccd)

    make.ccd = twin_ccd
    ms, cands, at_save = [], [], []

    def new(n):
        ms.append(ac.AllTrapManager(traps=world["traps"], max_n_transfers=n, ccd=ccd))
        cands.append([Cand([], None, copy.deepcopy(spec), make)])
        at_save.append(None)

    new(s["max"])
    faults, h, n_ev = {}, hashlib.sha1(), 0
    before = engine.world_fp(world)
    simrt = loader.simrt

    def attempt(fn, f):
        """fn with fault f: did it fail?"""
        if f["k"] == "alloc":
            simrt.arm(1, 1 + int(f["frac"] ** 2 * 14))
            o = engine.outcome(fn)
            simrt.arm(0, -1)
        else:
            i = 1 + int(f["frac"] ** 2 * 400)
            o, info = engine.run_single(lambda: engine.outcome(fn), [{"t": 0, "k": "p", "i": i, "a": "raise", "exc": f["exc"]}])
        if o[0] == "exc":
            k = "%s_in_%s" % (f["k"], what)
            faults[k] = faults.get(k, 0) + 1
        return o[0] == "exc"

    def check(m, when):
        if cands[m][0].cur is None:
            return None
        got = levels(ms[m])
        total = float(ms[m].n_electrons_trapped_currently)
        h.update(np.array([total]).tobytes())
        ok = [c for c in cands[m] if near(levels(c.twin()), got, cont, sum(e.get("n", 0) for e in c.cur[-3:]))]
        if not ok:
            w = levels(cands[m][0].twin())
            return "trap states differ from those the history gives: %.12g electrons trapped instead of %.12g (%s)" % (total, float(np.sum(w)), when)
        if not near(np.sum(got), total, cont):
            return "the groups' trapped electrons do not add up (%s)" % when
        cands[m] = ok
        return None

    last = {}
    for k, e in enumerate(s["steps"]):
        what = e["do"]
        when = "step %d, %s%s" % (k, what, " after " + last.get(e["m"], "none") if "m" in e else "")
        if what == "new":
            new(e["max"])
            continue
        if what == "density":
            live_trap(world["traps"], spec["traps"], e["g"], e["i"]).density = e["v"]
            spec["traps"]["g"][e["g"]][e["i"]]["density"] = e["v"]
            before = engine.world_fp(world)
            for m in range(len(ms)):
                bad = check(m, "step %d, a trap's density was changed" % k)
                if bad:
                    return bad, faults, h, n_ev
            continue
        if what == "clone":
            ms.append(copy.deepcopy(ms[e["m"]]))
            cands.append([c.copy() for c in cands[e["m"]]])
            at_save.append(at_save[e["m"]])
            continue
        m = e["m"]
        am = ms[m]
        n_ev += 1
        if what == "event":
            if e.get("fault"):
                if attempt(lambda: drive(am, e, ccd), e["fault"]):
                    for c in cands[m]:
                        c.cur, c.tw = None, None
                    cands[m] = cands[m][:1] if all(c.saved == cands[m][0].saved for c in cands[m]) else cands[m]
                    last[m] = "failed event"
                    continue
                net = None
            else:
                if cands[m][0].cur is None:
                    continue  # unknown until restored or emptied
                net = drive(am, e, ccd)
            ok = []
            for c in cands[m]:
                w = drive(c.twin(), e, twin_ccd)
                c.cur.append(e)
                if net is None or near(w, net, cont, e["n"]):
                    ok.append(c)
            if not ok:
                return "an event gave %.12g electrons instead of %.12g (%s)" % (net, w, when), faults, h, n_ev
            cands[m] = ok
        elif what == "own":
            if cands[m][0].cur is None:
                continue
            drive(am, e, ccd)
            am.save()
            at_save[m] = levels(am)
            for c in cands[m]:
                drive(c.twin(), e, twin_ccd)
                c.cur.append(e)
                c.own.append(e)
                c.saved = list(c.cur)
        elif what == "save":
            if cands[m][0].cur is None:
                continue
            t = levels(am)
            if e.get("fault") and attempt(am.save, e["fault"]):
                new_c = []
                for c in cands[m]:
                    d = c.copy()
                    d.saved = list(c.cur)
                    new_c += [c, d]
                cands[m] = new_c
                at_save[m] = None
                what = "interrupted save"
            else:
                if not e.get("fault"):
                    am.save()
                for c in cands[m]:
                    c.saved = list(c.cur)
                at_save[m] = t
        elif what == "restore":
            if e.get("fault") and all(c.saved is not None and c.cur is not None for c in cands[m]) and attempt(am.restore, e["fault"]):
                new_c = []
                for c in cands[m]:
                    d = c.copy()
                    d.cur = list(c.saved or [])
                    new_c += [c, d]
                cands[m] = new_c
                what = "interrupted restore"
            else:
                am.restore()
                for c in cands[m]:
                    c.cur, c.tw = list(c.saved or []), None
                if at_save[m] is not None:
                    got = levels(am)
                    if not np.allclose(got, at_save[m], rtol=1e-12, atol=0):
                        return "restored traps hold %.17g electrons, not the %.17g that were saved (%s)" % (got.sum(), at_save[m].sum(), when), faults, h, n_ev
        elif what == "empty":
            am.empty_all_traps()
            for c in cands[m]:
                c.cur, c.tw = list(c.own), None
            if float(am.n_electrons_trapped_currently) != 0:
                return "emptied traps hold %.12g electrons (%s)" % (am.n_electrons_trapped_currently, when), faults, h, n_ev
        last[m] = what
        for j in range(len(ms)) if k % 3 == 0 else [m]:
            bad = check(j, when if j == m else when + " of another manager")
            if bad:
                return bad, faults, h, n_ev
        if len(cands[m]) > 8:
            cands[m] = cands[m][:8]
            break
    for m in range(len(ms)):
        bad = check(m, "at the end")
        if bad:
            return bad, faults, h, n_ev
    d = engine.world_diff(before, world)
    if d:
        return "a trap manager changed the objects it was made from: " + d, faults, h, n_ev
    return None, faults, h, n_ev


def valid(s):
    n = 1
    for e in s["steps"]:
        if e.get("m", 0) >= n:
            return False
        if e["do"] in ("new", "clone"):
            n += 1
        if "g" in e and (e["g"] >= len(s["objs"]["traps"]["g"]) or e.get("i", 0) >= len(s["objs"]["traps"]["g"][e["g"]])):
            return False
    return all(s["objs"]["traps"]["g"])


def execute(s):
    if not valid(s):
        return {"violation": None, "digest": None, "events": 0, "faults": {}, "nontrivial": False}

    def body():
        alloc = any((e.get("fault") or {}).get("k") == "alloc" for e in s["steps"])
        rt = loader.simrt
        rt.prefixes((loader.PKG, engine.__file__.replace("engine.py", "usercode.py"), copy.__file__))
        if alloc:
            rt.alloc_on(0, 1)
            old = rt.install()
        bad, faults, h, n = run(s)
        if alloc:
            rt.uninstall(old)
        return bad, faults, h.hexdigest()[:16], n

    v = engine.isolated(body)
    if v[0] != "ok":
        return {"violation": "process ended with %r while traps were driven" % (v,)}
    bad, faults, h, n = v[1]
    kinds = [e["do"] for e in s["steps"]]
    for k in ("save", "restore", "empty", "new", "clone", "density", "own"):
        if k in kinds:
            faults[k + "_steps"] = kinds.count(k)
    return {"violation": bad, "digest": h, "events": n, "faults": faults, "nontrivial": "restore" in kinds or "empty" in kinds}


QUICK, THOROUGH = 12000, 200000
RULE = ("One run = 1 to 3 trap manager sets made from the same traps and CCD (also by deep copy), driven through up to 40 clouds, saves, "
        "restores and empties; events, saves and restores are interrupted at a chosen line (also inside the copying) or by a failed "
        "allocation, and the densities of the user's traps or of one of the managers change meanwhile. After each step every group's trapped electrons and each event's "
        "result are compared with a twin that was freshly made and fed only the events that count; after an interrupted save or "
        "restore either state is accepted, but one of them for all groups. Non-trivial: at least one restore or empty.")
DISTINCT = "hash of the trapped electrons after every step"
REAL = ["arcticpy trap managers, traps, CCD", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy"]
STUB = ["none; the twin is made of the code under test, fed another history"]
ASSUMPTIONS = ["after a failed event a manager's state is undefined until it is restored or emptied",
               "restoring before anything was saved empties the traps; an interrupt there is not placed",
               "tolerance 1e-9 relative (1e-6 for continuum traps)"]
