"""Independent reference model.

Traps: the pixel's volume is divided at every level a cloud ever reached; each
element's filling is followed separately.  Readout: the clock sequence from the
geometry of the phases, the transfers and express multipliers from their
definition.  Nothing here imports arcticpy.
"""
import math
import numpy as np

VARIANTS = ("exact", "near", "never")
COLLAPSING = ("exact", "near")


def well(ccd, phase):
    """Fraction of the volume reached by n electrons."""
    n = len(ccd["frac"])
    full = ccd["full"][phase] if isinstance(ccd["full"], list) else ccd["full"]
    notch = ccd["notch"][phase] if isinstance(ccd["notch"], list) else ccd["notch"]
    power = ccd["power"][phase] if isinstance(ccd["power"], list) else ccd["power"]

    def volume(x):
        if x == 0:
            return 0.0
        return min(max((x - notch) / (full - notch), 0.0), 1.0) ** power

    return volume


# Gauss-Legendre nodes for integrals over log lifetimes
_X, _W = np.polynomial.legendre.leggauss(400)


class Continuum:
    """Log-normal distribution of release times."""

    def __init__(self, mu, sigma):
        self.mu = mu
        y = 9 * _X  # in units of sigma
        self.tau = mu * np.exp(sigma * y)
        self.w = 9 * _W * np.exp(-y * y / 2) / math.sqrt(2 * math.pi)

    def fill(self, t):
        return float(np.dot(self.w, np.exp(-t / self.tau)))

    def time(self, fill):
        if fill <= 0:
            return math.inf
        if fill >= self.fill(0.0):
            return 0.0
        lo, hi = 0.0, self.mu
        while self.fill(hi) > fill:
            lo, hi = hi, 2 * hi
        for _ in range(200):
            mid = (lo + hi) / 2
            if mid in (lo, hi):
                break
            if self.fill(mid) > fill:
                lo = mid
            else:
                hi = mid
        return (lo + hi) / 2


class Group:
    """Trap species that share a volume, in one phase.

    The filled bottom of the volume is described by one level: partial capture
    is shared out evenly over it.  Rounding decides what counts as filled, so
    there are variants of the model; where they differ it has no say.
    """

    def __init__(self, traps, frac=1.0, variant="exact"):
        k = traps[0]["k"]
        self.kind = {"slow": "slow", "trap0": "slow", "instant": "instant", "user": "instant", "cont": "cont"}[k]
        self.n = np.array([t["density"] * frac for t in traps], dtype=float)
        self.cont = [Continuum(t["release"], t["sigma"]) for t in traps] if self.kind == "cont" else None
        self.e = np.array([1 / t["release"] for t in traps])
        self.c = np.array([1 / t["capture"] if t.get("capture") else np.inf for t in traps])
        self.variant = variant
        self.top_ever = 0.0
        self.clear()

    def clear(self):
        self.b = np.zeros(0)
        self.fill = np.zeros((0, len(self.n)))

    def get(self):
        return self.b, self.fill

    def set(self, state):
        self.b, self.fill = state  # arrays are replaced, never changed in place

    def trapped(self):
        if not len(self.b):
            return 0.0
        w = self.b.copy()
        w[1:] -= self.b[:-1]
        return float(w.dot(self.fill.dot(self.n)))

    def top(self):
        return self.b[-1] if len(self.b) else 0.0

    def split(self, v, *also):
        """A level boundary at v; the arrays of also are split likewise."""
        if v <= 0:
            return also
        i = int(np.searchsorted(self.b, v))
        if i < len(self.b):
            if self.b[i] == v:
                return also
            new = self.fill[i]
            extra = [a[i] for a in also]
        else:
            new = np.zeros_like(self.n)
            extra = [new for a in also]
        self.b = np.concatenate((self.b[:i], [v], self.b[i:]))
        self.fill = np.concatenate((self.fill[:i], [new], self.fill[i:]))
        return tuple(np.concatenate((a[:i], [x], a[i:])) for a, x in zip(also, extra))

    def merge_full(self, old):
        if self.variant == "never":
            return old
        full = np.all(self.fill == 1 if self.variant == "exact" else self.fill > 1 - 1e-12, axis=1)
        k = len(full) if full.all() else int(np.argmin(full))
        if k > 1:
            w = self.b[:k].copy()
            w[1:] -= self.b[: k - 1]
            avg = w.dot(old[:k]) / w.sum()
            self.b, self.fill = self.b[k - 1:], self.fill[k - 1:]
            old = np.concatenate(([avg], old[k:]))
        return old

    def released(self, fill, dt):
        if self.kind != "cont":
            return fill * np.exp(-self.e * dt)
        return np.array([[c.fill(c.time(x) + dt) if x > 0 else 0.0 for c, x in zip(self.cont, f)] for f in fill]).reshape(fill.shape)

    def net(self, n):
        """Taking all the electrons of a cloud may leave some rounding error."""
        return n if self.variant == "exact" else n * (1 - 3e-16)

    def event(self, n0, dt, vol):
        """Net electrons released; n0 in the cloud beforehand."""
        ini = self.trapped()
        if self.kind != "slow":
            self.fill = self.released(self.fill, dt)
            mid = self.trapped()
            n1 = n0 + ini - mid
            v = vol(n1)
            self.split(v)
            self.top_ever = max(self.top_ever, v)
            old = self.fill
            self.fill = np.where((self.b <= v)[:, None], 1.0, old)
            old = self.merge_full(old)
            fin = self.trapped()
            if fin > mid and n1 < fin - mid:
                q = max(n1, 0) / (fin - mid)
                self.fill = q * self.fill + (1 - q) * old
                fin = self.trapped()
                return self.net(ini - fin)
            return ini - fin
        tot = self.c + self.e
        inst = np.isinf(self.c)
        x = np.where(inst, 0.0, 1 - np.exp(-np.where(inst, 0.0, tot) * dt)) / np.where(inst, 1.0, tot)
        pe = np.where(inst, 1.0, np.where(inst, 0.0, self.c) * x)
        pf, pr = 1 - self.e * x, np.exp(-self.e * dt)
        v = vol(n0)
        self.split(v)
        old = self.fill
        self.fill = np.where((self.b > v)[:, None], old * pr, old)
        n1 = n0 + ini - self.trapped()
        if len(self.b) and v < self.b[-1]:
            # electrons released above raise the cloud
            v = vol(n1)
            (old,) = self.split(v, old)
        self.top_ever = max(self.top_ever, v)
        self.fill = np.where((self.b <= v)[:, None], self.fill * pf + (1 - self.fill) * pe, self.fill)
        old = self.merge_full(old)
        fin = self.trapped()
        if fin > ini and n0 < fin - ini:
            q = max(n0, 0) / (fin - ini)
            self.fill = q * self.fill + (1 - q) * old
            fin = self.trapped()
            return self.net(ini - fin)
        return ini - fin


# ------------------------------------------------------------ clocking
def sequence(roe):
    """Per step and phase: (high?, pixel to capture from, pixels to release to).

    Pixel k's cloud starts in its phase 0 and moves one phase towards readout
    per step; when pumped, it then moves back.  Electrons released in a phase
    go to the nearest cloud (half each to two equally near ones)."""
    steps = len(roe["dwell"])
    tp = roe["k"] == "tp"
    p_n = steps // 2 if tp else steps
    out = []
    for s in range(steps):
        moved = s if s <= p_n else 2 * p_n - s
        high = moved % p_n
        row = []
        for phase in range(p_n):
            d = moved - phase  # in phases
            lo = d // p_n
            rest = d - lo * p_n
            if 2 * rest < p_n:
                to = [lo]
            elif 2 * rest > p_n:
                to = [lo + 1]
            else:
                to = [lo, lo + 1]
            if not tp and roe.get("away", True) and phase > high:
                to = [k + 1 for k in to]
            row.append((rest == 0, to))
        out.append(row)
    return out


def multipliers(roe, n_pixels, express, offset=0, time=None, tp_pixels=1):
    """List of passes; each is {row: (multiplier in the window, monitored?)}."""
    integer = roe.get("dtype") == "int"
    first = roe.get("first", True)
    if roe["k"] == "tp":
        n = roe["n_pumps"]
        e = n if express == 0 else min(express, n)
        m = [1.0] + [(n - 1) / e] * e if first and n > 1 and e < n else [n / e] * e
        if integer:
            # whole pumps, as even as they can be, n in total
            done, total, whole = 0, 0.0, []
            for x in m:
                total += x
                whole.append(round(total) - done)
                done += whole[-1]
            m = whole
        return [[(x, x > 0)] for x in m]
    if roe["k"] == "ci":
        n = roe.get("n_pixel_transfers") or n_pixels + offset
        e = n if express == 0 else min(express, n)
        if integer:
            top, left, m = math.ceil(n / e), n, []
            for _ in range(e):
                x = min(max(left, 0), top)
                m.append(x)
                left -= x
            m = m[::-1]
        else:
            m = [n / e] * e
        full = np.array([[float(x)] * n_pixels for x in m])
        drop = 0
    else:
        total = n_pixels + offset
        e = total if express == 0 else min(express, total)
        if first and e < n_pixels:
            small_n = total - 1
            mm = small_n / e
            if integer:
                mm = math.ceil(mm)
            full = np.zeros((total, total))
            for j in range(total):
                full[j, total - 1 - j] = 1
            for i in range(e):
                line = np.clip(np.arange(1, small_n + 1) - i * mm, 0, mm)
                if integer:
                    line = np.floor(line)
                c = int((line > 0).sum())
                if c:
                    full[c, 1:] += line
        else:
            mm = total / e
            if integer:
                mm = math.ceil(mm)
            full = np.array([np.clip(np.arange(1, total + 1) - i * mm, 0, mm) for i in range(e)], dtype=float)
        drop = offset
    monitor = full > 0
    if time is not None:
        after = np.cumsum(full, axis=0)
        before = after - full
        a, b = time[0], time[1]
        full = np.clip(after, a, b) - np.clip(before, a, b)
    return [[(float(full[i, drop + r]), bool(monitor[i, drop + r])) for r in range(n_pixels)] for i in range(len(full))]


def clock(image, traps, ccd, roe, express=0, offset=0, rows=None, cols=None, time=None, variant="exact", events=None):
    """Image after clocking towards row 0.  events counts trap events."""
    img = {}
    n_rows, n_cols = image.shape
    rows = list(range(n_rows)) if rows is None else list(rows)
    cols = range(n_cols) if cols is None else cols
    for r in range(n_rows):
        for c in range(n_cols):
            img[r, c] = float(image[r, c])
    frac = ccd["frac"]
    seq = sequence(roe)
    if roe["k"] == "tp":
        passes, local = multipliers(roe, 1, express), [0]
    else:
        passes = multipliers(roe, max(rows) + 1, express, offset, time)
        local = rows
    passes = [[p[r] for r in local] for p in passes]
    phases = range(len(frac))
    groups = [[Group(g, frac[ph], variant) for g in traps["g"]] for ph in phases]
    vols = [well(ccd, ph) for ph in phases]
    flat = [g for ph in groups for g in ph]
    saved = None
    carry = roe["k"] == "roe" and not roe.get("first", True)
    pump = roe["k"] == "tp"
    between = roe.get("columns", True) or pump
    for c in cols:
        for i, pas in enumerate(passes):
            for k, g in enumerate(flat):
                g.set(saved[k]) if saved is not None else g.clear()
            save_at = None
            if pump:
                save_at = 0 if i < len(passes) - 1 else None
            elif carry and i < len(passes) - 1:
                # the next pass starts with traps as the pixel before its first one left them
                nxt = passes[i + 1]
                save_at = next((r for r in range(len(rows) - 1) if nxt[r + 1][0] > 0), max(len(rows) - 2, 0))
            for j, (mult, monitored) in enumerate(pas):
                if not monitored:
                    continue
                for step, dt in enumerate(roe["dwell"]):
                    if not dt > 0:
                        continue
                    for ph in phases:
                        if not frac[ph] > 0:
                            continue
                        high, to = seq[step][ph]
                        src = rows[j] + to[0]
                        n0 = img.get((src, c), 0.0) if high else 0.0
                        net = 0.0
                        for g in groups[ph]:
                            net += g.event(n0, dt, vols[ph])
                        if events is not None:
                            events[0] += 1
                        if mult == 0:
                            continue
                        for k in to:
                            key = (rows[j] + k, c)
                            img[key] = max(img.get(key, 0.0) + net / len(to) * mult, 0.0)
                if save_at == j:
                    saved = [g.get() for g in flat]
        if between:
            for g in flat:
                g.clear()
        saved = [g.get() for g in flat]
        # charge that left the image is gone when the next column is read
    return np.array([[img[r, c] for c in range(n_cols)] for r in range(n_rows)])


def add_cti(image, objs, call, variant="exact"):
    """Reference add_cti for a call spec (gen.py) with default windows where absent."""
    img = np.array(image, dtype=float)
    n_rows, n_cols = img.shape

    def rng(w, n):
        if w is None:
            return range(n)
        return range(w, w + 1) if isinstance(w, int) else range(w[0], w[1])

    p, s = call.get("p"), call.get("s")
    prow = rng(p.get("window") if p else None, n_rows)
    scol = rng(s.get("window") if s else None, n_cols)
    time = call.get("time")
    default_roe = {"k": "roe", "dwell": [1]}
    if p:
        # the documented default: as many transfers as there are rows
        window = time if time is not None else [0, n_rows + (p.get("offset") or 0)]
        img = clock(img, objs[p["traps"]], objs[p["ccd"]], objs[p["roe"]] if p.get("roe") else default_roe,
                    p.get("express", 0), p.get("offset") or 0, prow, scol, window, variant)
    if s:
        cols = prow
        if time is not None:
            off = (p.get("offset") or 0) if p else 0
            a, b = max(prow[0], time[0] - off), min(prow[-1], time[1] - 1 - off) + 1
            cols = range(a, b)
        img = clock(img.T, objs[s["traps"]], objs[s["ccd"]], objs[s["roe"]] if s.get("roe") else default_roe,
                    s.get("express", 0), s.get("offset") or 0, scol, cols, None, variant).T
    return img


def all_variants(image, objs, call):
    """Reference images, and how far the variants differ."""
    outs = [add_cti(image, objs, call, v) for v in VARIANTS]
    spread = max(float(np.max(np.abs(o - outs[0]), initial=0.0)) for o in outs)
    return outs[0], spread
