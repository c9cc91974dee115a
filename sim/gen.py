"""Random (swarm-style) workloads as plain JSON, and the real objects they
describe.  Everything is drawn from one random.Random."""
import random
import numpy as np


def rnd(x):
    return float("%.6g" % x)


# Values far from the usual ones, now and then: thresholds hide there
EDGE = 0.1


def edge(r, usual, lo, hi):
    """The usual value or, now and then, any order of magnitude."""
    return rnd(10 ** r.uniform(lo, hi)) if r.random() < EDGE else usual


# ---------------------------------------------------------------- specs
def trap(r, kinds, dmax=2.0):
    k = r.choice(kinds)
    t = {"k": k, "density": edge(r, rnd(10 ** r.uniform(-0.7, dmax)), -4, dmax + 1), "release": edge(r, rnd(10 ** r.uniform(-0.7, 1.3)), -3, 4)}
    if k == "slow":
        t["capture"] = edge(r, rnd(10 ** r.uniform(-2, 0.7)), -5, 3)
    if r.random() < 0.1:  # round numbers coincide
        for x in ("density", "release", "capture"):
            if x in t:
                t[x] = float("%.0e" % t[x])
    if k == "cont":
        t["density"], t["release"] = rnd(10 ** r.uniform(-0.7, 1)), rnd(10 ** r.uniform(-0.7, 1.3))
        t["sigma"] = rnd(r.uniform(0.15, 0.8))
        t["user"] = r.random() < 0.5
    return t


def traps(r, allow=("instant", "slow", "mixed", "groups"), cont=0.0):
    """A traps argument: one trap, a list, or a list of lists."""
    if r.random() < cont:
        g = [trap(r, ["cont"])]
        if r.random() < 0.3:
            g.append(trap(r, ["cont"]))
        if r.random() < 0.3:
            return {"form": "groups", "g": [g, [trap(r, ["instant"])]]}
        return {"form": "list", "g": [g]}
    mode = r.choice(list(allow))
    n = r.choice([1, 1, 2, 3])
    if mode == "instant":
        g = [trap(r, ["instant"]) for _ in range(n)]
        if r.random() < 0.15:
            g = [dict(t, k="user") for t in g]
    elif mode == "slow":
        g = [trap(r, ["slow"]) for _ in range(n)]
    elif mode == "mixed":
        # Trap() objects with and without a capture timescale share a manager
        g = [trap(r, ["slow", "trap0"]) for _ in range(n)]
    else:
        return {"form": "groups", "g": [[trap(r, ["instant"], 1.3)] + ([trap(r, ["instant"], 1)] if r.random() < .4 else []),
                                        [trap(r, ["slow", "trap0"], 1.3)]]}
    form = "single" if n == 1 and r.random() < 0.4 else r.choice(["list", "list", "groups"])
    return {"form": form, "g": [g]}


def ccd(r, n_phases, user=0.2):
    if n_phases == 1:
        frac = [1] if r.random() < 0.8 else [0.7]
    else:
        frac = [rnd(r.random() + 0.05) for _ in range(n_phases)]
        if r.random() < 0.2:
            frac[r.randrange(n_phases)] = 0
        if r.random() < EDGE:
            frac[r.randrange(n_phases)] *= 10 ** r.uniform(-4, -1)
        s = sum(frac) or 1
        frac = [rnd(f / s) for f in frac]
    full = rnd(r.choice([1e3, 5e3, 84700.0]))
    if n_phases > 1 and r.random() < 0.3:
        full = [rnd(full * r.uniform(0.5, 1)) for _ in range(n_phases)]
    notch = r.choice([0.0, 0.0, 0.0, 20.0, 100.0])
    power = edge(r, rnd(r.choice([0.478, 0.58, 1.0, r.uniform(0.3, 1.2)])), -0.9, 0.5)
    if n_phases > 1 and r.random() < 0.2:
        notch = [r.choice([0.0, 5.0, 60.0]) for _ in range(n_phases)]
    if n_phases > 1 and r.random() < 0.2:
        power = [rnd(r.uniform(0.3, 1.2)) for _ in range(n_phases)]
    return {"frac": frac, "full": full, "notch": notch, "power": power, "user": r.random() < user}


def roe(r, n_phases, kinds=("roe", "ci", "tp"), simple=False):
    k = r.choice(list(kinds))
    n = 2 * n_phases if k == "tp" else n_phases
    s = {"k": k, "dwell": [edge(r, rnd(r.choice([1.0, 0.5, r.uniform(0.1, 2)])), -5, 1.3) for _ in range(n)]}
    if k == "tp":
        s["n_pumps"] = r.randint(1, 6) if r.random() > EDGE / 2 else r.randint(7, 40)
    if k == "ci":
        s["n_pixel_transfers"] = r.choice([None, None, r.randint(2, 9) if r.random() > EDGE / 2 else r.randint(10, 40)])
    if not simple:
        s["dtype"] = "int" if r.random() < 0.2 else "float"
        if k != "ci":
            s["first"] = r.random() < 0.7
        if k != "tp":
            s["columns"] = r.random() < 0.75
            s["away"] = r.random() < 0.7
    return s


def image(r, rows=None, cols=None, plain=False):
    s = {"rows": rows or r.randint(1, 9), "cols": cols or r.randint(1, 5), "seed": r.randrange(10 ** 6),
         "style": r.choice(["sparse", "sparse", "noise", "blocks", "flat"]) if r.random() < 0.97 else "dark"}
    s["max"] = edge(r, r.choice([50, 800, 3000, 60000]), -3, 6)
    if r.random() < EDGE:
        s["fade"] = True  # columns and rows of different orders of magnitude
    elif r.random() < EDGE:
        s["round"] = True
    if not plain:
        s["dtype"] = r.choice(["f8", "f8", "f8", "f8", "i8", "f4"])
        s["order"] = r.choice(["C", "C", "C", "F", "strided"])
        s["ro"] = r.random() < 0.15
        s["frame"] = r.random() < 0.15
        s["neg"] = r.random() < 0.2
    return s


def window(r, n, p=0.3):
    if r.random() > p:
        return None
    if r.random() < 0.2:
        return r.randrange(n)
    a = r.randrange(n)
    return [a, r.randint(a + 1, n)]


def direction(r, pre, names, n_along, n_across, offset=True, far=0.0):
    s = {"traps": names["traps"], "ccd": names["ccd"], "roe": names["roe"]}
    s["express"] = r.choice([0, 0, 0, 1, 2, 3, 5])
    if offset and r.random() < 0.3:
        s["offset"] = r.randint(1, 4) if r.random() > EDGE / 2 else r.randint(5, 30)
    if offset and n_along <= 4 and r.random() < far:
        s["offset"] = r.randint(100, 400)
    s["window"] = window(r, n_along, 0.25)
    return s


def clocking_objects(r, objs, tag, kinds=("roe", "ci", "tp"), cont=0.0, simple=False, user=0.2, max_phases=4):
    p = r.choice([1, 1, 1, 2, 3, 4])
    p = min(p, max_phases)
    ro = roe(r, p, kinds, simple)
    if cont and p > 2:
        cont = 0
    objs["ccd" + tag] = dict(ccd(r, p, user), t="ccd")
    objs["roe" + tag] = dict(ro, t="roe")
    objs["traps" + tag] = dict(traps(r, cont=cont), t="traps")
    return {"ccd": "ccd" + tag, "roe": "roe" + tag, "traps": "traps" + tag}, ro["k"]


def call(r, objs, image_name, tag="", both=0.35, kinds=("roe", "ci", "tp"), cont=0.0, simple=False, remove=0.2, user=0.2):
    """One call, with model objects of its own (to be shared by the caller)."""
    im = objs[image_name]
    c = {"op": "remove" if r.random() < remove else "add", "image": image_name}
    if c["op"] == "remove":
        c["iterations"] = r.randint(1, 3)
    dirs = r.choice([["p"], ["p"], ["s"]]) if r.random() > both else ["p", "s"]
    for d in dirs:
        n_along, n_across = (im["rows"], im["cols"]) if d == "p" else (im["cols"], im["rows"])
        names, k = clocking_objects(r, objs, tag + d, kinds if d == "p" else tuple(x for x in kinds if x != "tp") or ("roe",),
                                    cont, simple, user)
        c[d] = direction(r, d, names, n_along, n_across, offset=(k != "tp"))
        if k == "tp":
            c[d]["window"] = r.randrange(n_along)
            if objs[names["roe"]]["n_pumps"] == 1:
                c[d]["express"] = 0
    return fix_call(c, objs)


def fix_call(c, objs):
    """Drop combinations whose images end before the pixels that are read."""
    return c


def shrink_ok(spec):
    return spec


# ------------------------------------------------------------- builders
def make_trap(ac, uc, t):
    k = t["k"]
    if k == "instant":
        return ac.TrapInstantCapture(density=t["density"], release_timescale=t["release"])
    if k == "user":
        return uc.UserTrap(density=t["density"], release_timescale=t["release"])
    if k == "trap0":
        return ac.Trap(density=t["density"], release_timescale=t["release"])
    if k == "slow":
        return ac.Trap(density=t["density"], release_timescale=t["release"], capture_timescale=t["capture"])
    if k == "cont":
        if t.get("user"):
            return ac.TrapLifetimeContinuumAbstract(
                density=t["density"], distribution_of_traps_with_lifetime=uc.user_log_normal,
                release_timescale_mu=t["release"], release_timescale_sigma=t["sigma"])
        return ac.TrapLogNormalLifetimeContinuum(
            density=t["density"], release_timescale_mu=t["release"], release_timescale_sigma=t["sigma"])
    raise ValueError(k)


def make_traps(ac, uc, s):
    g = [[make_trap(ac, uc, t) for t in grp] for grp in s["g"]]
    if s["form"] == "single":
        return g[0][0]
    if s["form"] == "list":
        return g[0]
    return g


def _l(v):
    return list(v) if isinstance(v, list) else v


def make_ccd(ac, uc, s):
    cls = uc.UserCCD if s.get("user") else ac.CCD
    return cls(fraction_of_traps_per_phase=list(s["frac"]),
               full_well_depth=list(s["full"]) if isinstance(s["full"], list) else s["full"],
               well_notch_depth=_l(s["notch"]), well_fill_power=_l(s["power"]))


def make_roe(ac, s):
    kw = {"dwell_times": list(s["dwell"])}
    if "dtype" in s:
        kw["express_matrix_dtype"] = int if s["dtype"] == "int" else float
    if s["k"] == "tp":
        if "first" in s:
            kw["empty_traps_for_first_transfers"] = s["first"]
        return ac.ROETrapPumping(n_pumps=s["n_pumps"], **kw)
    if "columns" in s:
        kw["empty_traps_between_columns"] = s["columns"]
        kw["force_release_away_from_readout"] = s["away"]
    if s["k"] == "ci":
        return ac.ROEChargeInjection(n_pixel_transfers=s["n_pixel_transfers"], **kw)
    if "first" in s:
        kw["empty_traps_for_first_transfers"] = s["first"]
    return ac.ROE(**kw)


PAD = -12345.0


def edit_image(a, i, j, v):
    """Set a pixel, or put the same values elsewhere."""
    if i == "flip":
        a[...] = np.flip(a, j).copy()
    elif i == "roll":
        a[...] = np.roll(a, v, j)
    else:
        a[i, j] = v


def make_image(s):
    g = np.random.RandomState(s["seed"])
    rows, cols, m = s["rows"], s["cols"], s["max"]
    if s["style"] == "noise":
        a = g.rand(rows, cols) * m
    elif s["style"] == "dark":
        a = np.zeros((rows, cols))
    elif s["style"] == "flat":
        a = np.full((rows, cols), float(m) / 2)
    elif s["style"] == "blocks":
        a = np.zeros((rows, cols))
        i, j = g.randint(rows), g.randint(cols)
        a[i: i + 3, j: j + 2] = m * g.rand()
    else:
        a = np.where(g.rand(rows, cols) < 0.3, g.rand(rows, cols) * m, 0.0)
        a[g.randint(rows), g.randint(cols)] = m * (0.2 + 0.8 * g.rand())
    if s.get("fade"):
        a = a * 10.0 ** (-8 * g.rand(cols) * (g.rand(cols) < 0.7)) * 10.0 ** (-4 * g.rand(rows, 1) * (g.rand(rows, 1) < 0.3))
    if s.get("round"):
        a = np.rint(a)
    if s.get("neg"):
        a = a - (g.rand(rows, cols) < 0.2) * g.rand(rows, cols) * 20
    for (i, j, v) in s.get("extra", []):
        a[i, j] += v
    dt = s.get("dtype", "f8")
    a = a.astype({"f8": np.float64, "i8": np.int64, "f4": np.float32}[dt])
    for (i, j, v) in s.get("set", []):
        edit_image(a, i, j, v)
    if s.get("order") == "F":
        a = np.asfortranarray(a)
    elif s.get("order") == "strided":
        big = np.full((2 * rows + 1, 2 * cols + 1), -12345, dtype=a.dtype)
        big[1::2, 1::2] = a
        a = big[1::2, 1::2]
    elif s.get("order") == "padded":  # a part of a larger detector image
        big = np.full((rows + 6, cols + 4), 0, dtype=a.dtype)
        big[...] = PAD if a.dtype.kind == "f" else 12345
        big[3:3 + rows, 2:2 + cols] = a
        a = big[3:3 + rows, 2:2 + cols]
    if s.get("frame"):
        from autoarray.instruments import acs  # noqa
        from autoarray.structures import frames
        a = frames.Frame.manual(array=np.ascontiguousarray(a, dtype=np.float64), pixel_scales=1.0)
    elif s.get("ro"):
        a.flags.writeable = False
    return a


def make(ac, uc, s):
    t = s["t"]
    if t == "traps":
        return make_traps(ac, uc, s)
    if t == "ccd":
        return make_ccd(ac, uc, s)
    if t == "roe":
        return make_roe(ac, s)
    if t == "image":
        return make_image(s)
    raise ValueError(t)


def build(ac, uc, objs):
    return {n: make(ac, uc, s) for n, s in objs.items()}


def as_range(w):
    if w is None or isinstance(w, int):
        return w
    return range(w[0], w[1])


def call_kwargs(world, c):
    kw = {}
    for d, pre in (("p", "parallel"), ("s", "serial")):
        if d not in c:
            continue
        s = c[d]
        kw[pre + "_traps"] = world[s["traps"]]
        kw[pre + "_ccd"] = world[s["ccd"]]
        if s.get("roe") is not None:
            kw[pre + "_roe"] = world[s["roe"]]
        kw[pre + "_express"] = s.get("express", 0)
        if s.get("offset"):
            kw[pre + "_offset"] = s["offset"]
        if s.get("window") is not None:
            kw[pre + "_window_range"] = as_range(s["window"])
    if c.get("cross") is not None:
        kw[("serial" if "p" in c else "parallel") + "_window_range"] = as_range(c["cross"])
    if c.get("time") is not None:
        kw["time_window_range"] = as_range(c["time"])
    return kw


def do_call(ac, world, c):
    kw = call_kwargs(world, c)
    if c["op"] == "remove":
        return ac.remove_cti(image=world[c["image"]], iterations=c["iterations"], **kw)
    return ac.add_cti(image=world[c["image"]], **kw)
