"""C03: results depend on the arguments alone, whatever happened before."""
import copy, gc, hashlib, json, random, threading
import numpy as np
from .. import engine, gen, loader, ops
from . import c01

ID = "C03"
TITLE = "results depend on the arguments alone"
KINDS = ("call", "call", "call", "call", "call", "manager", "matrix", "matrix", "poisson", "phase", "species", "hst", "build")


def flat(spec):
    return [t for g in spec["g"] for t in g]


def nudged(r, v):
    """Almost the same value."""
    if isinstance(v, list):
        k = r.randrange(len(v))
        return [nudged(r, x) if i == k else x for i, x in enumerate(v)]
    return v * (1 + 10 ** r.uniform(-13, -3)) if isinstance(v, float) else v


def gen_set(r, objs, names):
    e = gen_set_any(r, objs, names)
    o, w = objs[e["obj"]], e["what"]
    if r.random() < 0.25:
        if w == "density":
            e["v"] = nudged(r, o["g"][e["g"]][e["i"]]["density"])
        elif w in ("full", "notch", "power", "frac", "dwell"):
            e["v"] = nudged(r, o[w])
        elif w.endswith("1"):
            old = o[w[:-1]]
            e["v"] = nudged(r, old[e["i"]] if isinstance(old, list) else old)
    return e


def gen_set_any(r, objs, names):
    """A reconfiguration: which object, which setting, and the new value."""
    n = r.choice(names)
    o = objs[n]
    if o["t"] == "traps":
        if r.random() < 0.3 and o["form"] != "single":
            g = r.randrange(len(o["g"]))
            if len(o["g"][g]) > 1 and r.random() < 0.5:
                return {"do": "set", "obj": n, "what": "drop_trap", "g": g}
            k = o["g"][g][0]["k"]
            return {"do": "set", "obj": n, "what": "add_trap", "g": g, "v": gen.trap(r, [k], 1.3)}
        g = r.randrange(len(o["g"]))
        return {"do": "set", "obj": n, "what": "density", "g": g, "i": r.randrange(len(o["g"][g])),
                "v": gen.rnd(10 ** r.uniform(-0.7, 0.9 if o["g"][g][0]["k"] == "cont" else 1.6))}
    if o["t"] == "ccd":
        p = len(o["frac"])
        what = r.choice(["full", "notch", "power", "frac", "full1", "frac1", "power1", "notch1"])
        v = {"full": lambda: gen.rnd(r.choice([1e3, 5e3, 84700.0]) * r.uniform(0.5, 1)), "notch": lambda: gen.rnd(r.choice([0.0, 20, r.uniform(0, 150)])),
             "power": lambda: gen.rnd(r.uniform(0.3, 1.2)), "frac": lambda: gen.rnd(r.uniform(0, 1))}[what.rstrip("1")]
        if what.endswith("1"):
            return {"do": "set", "obj": n, "what": what, "i": r.randrange(p), "v": v()}
        val = [v() for _ in range(p)] if what == "frac" or r.random() < 0.4 else v()
        return {"do": "set", "obj": n, "what": what, "v": val}
    what = ["dwell", "dwell", "dwell1", "dtype"]
    if o["k"] == "tp":
        what += ["n_pumps", "n_pumps", "first"]
    else:
        what += ["columns", "first" if o["k"] == "roe" else "n_pixel_transfers"]
    what = r.choice(what)
    if what == "dwell":
        v = [gen.rnd(r.uniform(0.1, 2)) for _ in o["dwell"]]
    elif what == "dwell1":
        return {"do": "set", "obj": n, "what": what, "i": r.randrange(len(o["dwell"])), "v": gen.rnd(r.uniform(0.1, 2))}
    elif what == "dtype":
        v = r.choice(["int", "float"])
    elif what == "n_pumps":
        v = r.randint(1, 6)
    elif what == "n_pixel_transfers":
        v = r.choice([None, r.randint(2, 9)])
    else:
        v = r.random() < 0.5
    return {"do": "set", "obj": n, "what": what, "v": v}


def apply_spec(objs, e):
    """The specification of the objects after step e."""
    if e["do"] == "set":
        o, w, v = objs[e["obj"]], e["what"], e.get("v")
        if w == "density":
            o["g"][e["g"]][e["i"]]["density"] = v
        elif w == "add_trap":
            o["g"][e["g"]].append(dict(v))
        elif w == "drop_trap":
            o["g"][e["g"]].pop()
        elif w in ("full1", "notch1", "power1", "frac1"):
            k = w[:-1]
            l = list(o[k]) if isinstance(o[k], list) else [o[k]] * len(o["frac"])
            l[e["i"]] = v
            o[k] = l
        elif w == "dwell1":
            o["dwell"] = list(o["dwell"])
            o["dwell"][e["i"]] = v
        else:
            o[w] = v
    elif e["do"] == "edit":
        objs[e["obj"]].setdefault("set", []).append([e["i"], e["j"], e["v"]])
    elif e["do"] == "replace":
        objs[e["obj"]] = copy.deepcopy(e["spec"])


def apply_world(world, objs, e):
    """The same step on the live objects, as a user would do it."""
    ac, o = loader.ac, world[e["obj"]]
    if e["do"] == "replace":
        del o
        world[e["obj"]] = None  # freed, so that its memory and id are used again
        world[e["obj"]] = gen.make(ac, ops.uc(), e["spec"])
        return
    if e["do"] == "edit":
        gen.edit_image(np.asarray(o).view(np.ndarray), e["i"], e["j"], e["v"])
        return
    w, v = e["what"], e.get("v")
    if w == "density":
        t = o if objs[e["obj"]]["form"] == "single" else (o[e["i"]] if objs[e["obj"]]["form"] == "list" else o[e["g"]][e["i"]])
        t.density = v
    elif w in ("add_trap", "drop_trap"):
        l = o if objs[e["obj"]]["form"] == "list" else o[e["g"]]
        l.append(gen.make_trap(ac, ops.uc(), v)) if w == "add_trap" else l.pop()
    elif w in ("full", "notch", "power", "frac"):
        setattr(o, {"full": "full_well_depth", "notch": "well_notch_depth", "power": "well_fill_power", "frac": "fraction_of_traps_per_phase"}[w],
                list(v) if isinstance(v, list) else v)
    elif w in ("full1", "notch1", "power1", "frac1"):
        getattr(o, {"full": "full_well_depth", "notch": "well_notch_depth", "power": "well_fill_power", "frac": "fraction_of_traps_per_phase"}[w[:-1]])[e["i"]] = v
    elif w == "dwell":
        o.dwell_times = list(v)
    elif w == "dwell1":
        o.dwell_times[e["i"]] = v
    elif w == "dtype":
        o.express_matrix_dtype = int if v == "int" else float
    else:
        setattr(o, {"first": "empty_traps_for_first_transfers", "columns": "empty_traps_between_columns"}.get(w, w), v)


def scenario(r):
    objs, models = ops.pool(r, n_images=r.choice([1, 2]), n_models=r.choice([1, 1, 2]), cont=0.02)
    start = copy.deepcopy(objs)
    names = [n for n in objs if objs[n]["t"] != "image"]
    images = [n for n in objs if objs[n]["t"] == "image" and not objs[n].get("ro")]
    base = [ops.gen_op(r, objs, models, KINDS if r.random() < 0.4 else ("call",)) for _ in range(r.choice([1, 1, 2, 3]))]
    steps = []
    for _ in range(r.choice([2, 4, 6, 10])):
        op = r.choice(base)
        x = r.random()
        if x < 0.12:
            f = {"do": "fail", "op": op, "frac": round(r.random(), 4), "k": r.choice(["raise", "raise", "alloc", "user"]), "seed": r.randrange(1 << 30)}
            steps.append(f)
        y = r.random()
        if y < 0.45:
            steps.append(gen_set(r, objs, names))
        elif y < 0.6 and images:
            n = r.choice(images)
            e = {"do": "edit", "obj": n, "i": r.randrange(objs[n]["rows"]), "j": r.randrange(objs[n]["cols"]), "v": r.randint(0, 5000)}
            if r.random() < 0.4:  # the same values elsewhere
                e = {"do": "edit", "obj": n, "i": r.choice(["flip", "roll"]), "j": r.randrange(2), "v": r.choice([1, 1, 2])}
            steps.append(e)
        elif y < 0.7:
            # a similar object in the place of a dropped one
            n = r.choice(list(objs))
            spec = copy.deepcopy(objs[n])
            steps.append({"do": "replace", "obj": n, "spec": spec})
            if spec["t"] == "image":
                spec["seed"] = r.randrange(10 ** 6)
                spec.pop("set", None)
            elif r.random() < 0.8:
                tmp = {n: spec}
                apply_spec(tmp, gen_set(r, tmp, [n]))
        elif y < 0.8:
            steps.append({"do": "trash"})
        elif y < 0.87:
            steps.append({"do": "defaults", "how": r.choice(["ccd", "roe", "trap", "hst"])})
        for e in steps[-1:]:
            if "obj" in e:
                apply_spec(objs, e)
        steps.append({"do": "op", "op": op, "thread": r.random() < 0.1, "kwargs": None})
    return {"objs": start, "steps": steps, "unread": r.random() < 0.5}


KEEP = ("v",)


def valid(s):
    """Can the (perhaps reduced) history be carried out?"""
    objs = copy.deepcopy(s["objs"])
    for e in s["steps"]:
        if e["do"] in ("op", "fail"):
            for n in ops.needed(e["op"]):
                if n not in objs or (objs[n]["t"] == "traps" and not all(objs[n]["g"])):
                    return False
        if "obj" in e:
            o = objs.get(e["obj"])
            if o is None:
                return False
            if e["do"] == "set" and o["t"] == "traps" and (e["g"] >= len(o["g"]) or (e["what"] == "drop_trap" and len(o["g"][e["g"]]) < 2) or e.get("i", 0) >= len(o["g"][e["g"]])):
                return False
            if e["do"] == "set" and o["t"] == "traps" and e["what"] != "density" and o["form"] == "single":
                return False
            if e["do"] == "edit" and (o.get("ro") or isinstance(e["i"], int) and (e["i"] >= o["rows"] or e["j"] >= o["cols"])):
                return False
            apply_spec(objs, e)
    return True


def arrays(v, out, depth=0, seen=None):
    if isinstance(v, np.ndarray):
        out.append(v)
    elif isinstance(v, (list, tuple)) and depth < 5:
        for x in v:
            arrays(x, out, depth + 1)
    elif engine._is_model(v) and depth < 5 and hasattr(v, "__dict__"):
        for x in list(vars(v).values()):
            arrays(x, out, depth + 1)
    return out


def shares(a, b):
    try:
        return np.shares_memory(a, b, max_work=100000)
    except Exception:
        return False


def defaults(how):
    """A user plays with objects made with default arguments or by a preset."""
    ac = loader.ac
    if how == "ccd":
        c = ac.CCD()
        for l in (c.fraction_of_traps_per_phase, c.full_well_depth, c.well_notch_depth, c.well_fill_power):
            l[0] = l[0] * 0.5 + 3
    elif how == "roe":
        for o in (ac.ROE(), ac.ROEChargeInjection(), ac.ROETrapPumping()):
            o.dwell_times[0] = 7.5
            o.express_matrix_dtype = int
    elif how == "trap":
        for o in (ac.Trap(), ac.TrapInstantCapture()):
            o.density *= 9
            o.release_timescale *= 3
    else:
        traps, ccd, roe = ac.model_for_HST_ACS(date=2454000.5)
        for t in traps if isinstance(traps, list) else [traps]:
            for x in t if isinstance(t, list) else [t]:
                x.density *= 4
        ccd.full_well_depth[0] = 77.0
        ccd.well_fill_power[0] = 1.5
        roe.dwell_times[0] = 9.0


def execute(s):
    none = {"violation": None, "digest": None, "events": 0, "faults": {}, "nontrivial": False}
    if not valid(s):
        return none
    # what each call gives in a fresh process with fresh objects
    objs = copy.deepcopy(s["objs"])
    cache, want = {}, []
    faults = {}
    for e in s["steps"]:
        if "obj" in e:
            apply_spec(objs, e)
        if e["do"] == "fail" and e["k"] == "raise":
            v = c01.solo(e["op"], objs, engine.LINE)
            if v[0] == "ok":
                _, counts, log = v[1]
                p = engine.Picker(counts, log)
                e["i"] = e.get("i") or p.pick(random.Random(e["seed"]), random.Random(e["seed"]).choice(["uniform", "site", "last"]), interrupt=True)
                if e["i"] and e["i"] > p.n:
                    e["i"] = None
        if e["do"] != "op":
            want.append(None)
            continue
        k = json.dumps([e["op"], {n: objs[n] for n in sorted(ops.needed(e["op"]))}], sort_keys=True)
        if k not in cache:
            v = engine.isolated(lambda: ops.fresh_outcome(e["op"], objs))
            if v[0] != "ok":
                return {"violation": "process ended with %r in a single call" % (v,)}
            cache[k] = v[1]
        want.append(cache[k])

    def session():
        objs = copy.deepcopy(s["objs"])
        world = gen.build(loader.ac, ops.uc(), objs)
        results, f, n_ev, last = [], {}, 0, "nothing"

        def count(k):
            f[k] = f.get(k, 0) + 1

        for e, w in zip(s["steps"], want):
            if "obj" in e:
                apply_world(world, objs, e)
                apply_spec(objs, e)
                count("%s_%s" % (e["do"], e.get("what", objs[e["obj"]]["t"])))
                last = e["do"] + " " + str(e.get("what", e["obj"]))
                continue
            if e["do"] == "trash":
                for a in results:
                    try:
                        a.flags.writeable = True
                        a[...] = -999
                    except ValueError:
                        pass
                count("trashed_results")
                last = "trash"
                continue
            if e["do"] == "defaults":
                defaults(e["how"])
                count("edited_default_" + e["how"])
                last = "edited defaults"
                continue
            before = engine.world_fp(world, props=not s.get("unread"))
            if e["do"] == "fail":
                call = lambda: engine.outcome(lambda: ops.run_op(e["op"], world))
                o = None
                if e["k"] == "raise" and e.get("i"):
                    o, info = engine.run_single(call, [{"t": 0, "k": "p", "i": e["i"], "a": "raise", "exc": "KeyboardInterrupt"}])
                    n_ev += sum(info["counts"])
                elif e["k"] == "alloc":
                    loader.simrt.alloc_on(0, 1)
                    old = loader.simrt.install()
                    loader.simrt.arm(1, 1 + int(300 * e["frac"] ** 2))
                    try:
                        o = call()
                    finally:
                        loader.simrt.arm(0, -1)
                        loader.simrt.uninstall(old)
                elif e["k"] == "user":
                    uc = ops.uc()

                    def do():
                        raise uc.UserError()

                    uc.HOOK.calls, uc.HOOK.at, uc.HOOK.do = 0, 1 + int(60 * e["frac"] ** 2), do
                    try:
                        o = call()
                    finally:
                        uc.HOOK.at = None
                if o and o[0] == "exc":
                    count("failed_call_" + e["k"])
                    last = "failed call (%s)" % e["k"]
                continue
            if e.get("thread"):
                box = []
                t = threading.Thread(target=lambda: box.append(engine.raw_outcome(lambda: ops.run_op(e["op"], world))))
                t.start()
                t.join()
                o = box[0]
                count("call_in_another_thread")
            else:
                o = engine.raw_outcome(lambda: ops.run_op(e["op"], world))
            got = ("value", engine.enc(o[1])) if o[0] == "value" else o
            d = engine.differ(w, got)
            if d:
                return "%s gave another result than in a fresh process: %s (after %s)" % (e["op"]["op"], d, last), f, n_ev
            d = engine.world_diff(before, world, props=not s.get("unread"))
            if d:
                return "a call changed an argument: " + d, f, n_ev
            if o[0] == "value":
                new, old = arrays(o[1], []), arrays(list(world.values()), [])
                for a in new:
                    for b in old:
                        if shares(a, b):
                            return "a result shares memory with an argument", f, n_ev
                    for b in results:
                        if shares(a, b):
                            return "a result shares memory with an earlier result", f, n_ev
                results += new
            last = e["op"]["op"]
        return None, f, n_ev

    v = engine.isolated(session)
    if v[0] != "ok":
        return {"violation": "process ended with %r in a session" % (v,)}
    bad, faults, n_ev = v[1]
    h = hashlib.sha1(repr([(e["do"], e.get("what"), e.get("obj"), e.get("v"), e.get("i"), json.dumps(e.get("op"))) for e in s["steps"]]).encode())
    return {"violation": bad, "digest": h.hexdigest()[:16], "events": n_ev + len(s["steps"]), "faults": faults,
            "nontrivial": any(e["do"] != "op" for e in s["steps"])}


QUICK, THOROUGH = 2000, 30000
RULE = ("One run = one session of up to 10 calls with the same images and model objects, between which settings are changed through "
        "setters and in place, traps added to and taken from lists, images edited, results overwritten, objects dropped and rebuilt "
        "(reusing memory and ids), default and preset objects edited and calls made to fail. Each call is compared bit for bit with the "
        "same call in a fresh process with fresh objects; results may share no memory. Non-trivial: some step besides calls.")
DISTINCT = "hash of the history of steps"
REAL = ["arcticpy Python code", "arcticpy Cython extensions (rebuilt from the working tree)", "numpy", "scipy"]
STUB = ["none"]
ASSUMPTIONS = ["settings are densities, well parameters, dwell times (same number of steps), flags, numbers of pumps and transfers; release "
               "timescales and the clock sequence are fixed when an object is made",
               "a result is compared with a process forked from one that has only imported the package"]
