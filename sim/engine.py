"""Runs pieces of the workload in forked children of a pristine process, under
the scheduler and the fault injector."""
import ast, ctypes, gc, hashlib, os, pickle, random, select, signal, struct, sys, threading, time, traceback
import numpy as np

from . import loader

ACTIONS = {"switch": 0, "raise": 1, "call": 2, "kill": 3}
KINDS = {"p": 0, "c": 1}
LINE, OPCODE = 1, 2
STALL_S = 40.0


class HarnessError(Exception):
    pass


class Stall(Exception):
    pass


# ------------------------------------------------------------ processes
_libc = ctypes.CDLL(None)
TICKS = os.sysconf("SC_CLK_TCK")


def cpu_time(pid):
    """Processor time of a child and those of its own children that ended."""
    try:
        with open("/proc/%d/stat" % pid, "rb") as f:
            v = f.read().rpartition(b")")[2].split()
        return sum(int(x) for x in v[11:15]) / TICKS
    except (OSError, ValueError, IndexError):
        return 0.0


def isolated(fn, timeout=70.0, cwd=None):
    """fn() in a forked child: ('ok', value), ('killed',), ('signal', n) or raises."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            _libc.prctl(1, signal.SIGKILL, 0, 0, 0)  # don't outlive the parent
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            if cwd:
                os.chdir(cwd)
            try:
                data = pickle.dumps(("ok", fn()), protocol=4)
            except BaseException:
                data = pickle.dumps(("harness", traceback.format_exc()), protocol=4)
            with os.fdopen(w, "wb", closefd=False) as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf, timed_out = [], False
    start = last = time.monotonic()
    used = 0.0
    while True:
        if select.select([r], [], [], 1.0)[0]:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf.append(b)
        # by its own time and not the machine's: it ran for too long, or it
        # stands still
        now, cpu = time.monotonic(), cpu_time(pid)
        if cpu > used + 0.5:
            used, last = cpu, now
        if cpu > timeout or now - last > timeout or now - start > 6 * timeout:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        raise Stall("child ran for over %g s" % timeout)
    if os.WIFSIGNALED(status):
        return ("signal", os.WTERMSIG(status))
    if os.WEXITSTATUS(status) == 77:
        return ("killed",)
    if not buf:
        raise HarnessError("child ended with status %r and no answer" % status)
    v = pickle.loads(b"".join(buf))
    if v[0] == "harness":
        raise HarnessError(v[1])
    return v


# -------------------------------------------------------------- results
def enc(v):
    """A comparable, picklable picture of a value."""
    if isinstance(v, np.ndarray):
        a = np.ascontiguousarray(np.asarray(v))
        return ("array", type(v).__name__, str(a.dtype), a.shape, a.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(enc(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, enc(x)) for k, x in sorted(v.items()))
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        v = v.item()
    if isinstance(v, float):
        return ("float", struct.pack("<d", v))
    return (type(v).__name__, repr(v))


def dec(e):
    if e[0] == "array":
        return np.frombuffer(e[4], dtype=e[2]).reshape(e[3])
    raise ValueError(e[0])


def outcome(fn):
    try:
        return ("value", enc(fn()))
    except loader.SimDeadlock:
        return ("deadlock",)
    except MemoryError:
        return ("exc", "MemoryError")
    except BaseException as e:
        return ("exc", type(e).__name__)


def raw_outcome(fn):
    try:
        return ("value", fn())
    except loader.SimDeadlock:
        return ("deadlock",)
    except MemoryError:
        return ("exc", "MemoryError")
    except BaseException as e:
        return ("exc", type(e).__name__)


def brief(o):
    if o[0] == "value" and o[1][0] == "array":
        return "array%r %s" % (o[1][3], hashlib.sha1(o[1][4]).hexdigest()[:10])
    return str(o)[:120]


def differ(a, b):
    """Text for how outcome b differs from the expected a."""
    if a == b:
        return None
    if a[0] == b[0] == "value" and a[1][0] == b[1][0] == "array" and a[1][3] == b[1][3]:
        x, y = dec(a[1]), dec(b[1])
        if a[1][2] != b[1][2] or a[1][1] != b[1][1]:
            return "type %s/%s instead of %s/%s" % (b[1][1], b[1][2], a[1][1], a[1][2])
        with np.errstate(all="ignore"):
            bad = np.argwhere(~((x == y) | (np.isnan(x) & np.isnan(y))))
        i = tuple(bad[0]) if len(bad) else None
        if i is None:
            return "bits differ (signed zeros or NaN payloads)"
        return "%d of %d values differ, first at %s: %.17g instead of %.17g" % (
            len(bad), x.size, tuple(int(k) for k in i), y[i], x[i])
    return "%s instead of %s" % (brief(b), brief(a))


# --------------------------------------------------------- fingerprints
def _is_model(o):
    m = type(o).__module__
    return isinstance(m, str) and (m.startswith("arcticpy") or m.endswith("usercode"))


def fingerprint(o, depth=0, props=True):
    """Public state of a model object or argument, as a user can observe it;
    without props, only what is read without running any of its code."""
    if isinstance(o, np.ndarray):
        return ("nd",) + enc(o) + ((o.flags.writeable,) if depth == 0 else ())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(fingerprint(x, depth + 1, props) for x in o)
    if _is_model(o) and depth < 6:
        names = []
        for n in dir(o) if props else sorted(getattr(o, "__dict__", ())):
            if n.startswith("_"):
                continue
            try:
                v = getattr(o, n)
            except MemoryError:
                raise
            except Exception as e:
                names.append((n, "error " + type(e).__name__))
                continue
            if callable(v) and not isinstance(v, type):
                continue
            names.append((n, fingerprint(v, depth + 1, props)))
        return (type(o).__name__, tuple(names))
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return enc(o)
    if isinstance(o, type):
        return ("type", o.__name__)
    return ("opaque", type(o).__name__)


def fp_diff(a, b, path=""):
    """First place where fingerprints differ; attributes added later don't count."""
    if a == b:
        return None
    if a[0] != b[0]:
        return "%s: %s became %s" % (path, a[0], b[0])
    if len(a) == 2 and isinstance(a[1], tuple) and a[1] and isinstance(a[1][0], tuple) and isinstance(a[1][0][0], str) and a[0] not in ("list", "tuple"):
        db = dict(b[1])
        for n, v in a[1]:
            if n not in db:
                return "%s.%s disappeared" % (path, n)
            if isinstance(v, str) or isinstance(db[n], str):
                if v != db[n]:
                    return "%s.%s changed" % (path, n)
                continue
            d = fp_diff(v, db[n], path + "." + n)
            if d:
                return d
        return None
    if a[0] in ("list", "tuple"):
        if len(a) != len(b):
            return "%s: %d elements became %d" % (path, len(a) - 1, len(b) - 1)
        for i in range(1, len(a)):
            d = fp_diff(a[i], b[i], "%s[%d]" % (path, i - 1))
            if d:
                return d
        return None
    return "%s changed" % path


def world_fp(world, props=True):
    """Fingerprints.  Reading properties can make an object work something
    out for the first time, so that where it matters a twin is read instead."""
    return {n: fingerprint(o, props=props) for n, o in world.items()}


def world_diff(before, world, props=True):
    for n, f in before.items():
        d = fp_diff(f, fingerprint(world[n], props=props), n)
        if d:
            return d
    return None


# ------------------------------------------------------------- scheduler
EXCS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit,
        "RuntimeError": RuntimeError, "ValueError": ValueError, "IndexError": IndexError, "KeyError": KeyError,
        "AttributeError": AttributeError}


def _load_plan(plan, callbacks):
    rt = loader.simrt
    for p in plan:
        obj = None
        if p["a"] == "raise":
            obj = EXCS[p["exc"]]("injected by the simulator")
        elif p["a"] == "call":
            obj = callbacks[p["cb"]]
        rt.plan(p["t"], KINDS[p.get("k", "p")], p["i"], ACTIONS[p["a"]], p.get("to", -1), obj)


def run_single(body, plan=(), mode=LINE, log=False, callbacks=None, max_steps=0):
    rt = loader.simrt
    rt.reset(1, mode, 1 if log else 0, max_steps)
    _load_plan(plan, callbacks or {})
    rt.begin(0, 0)
    try:
        res = body()
    finally:
        rt.end()
    info = {"counts": rt.counts(0), "fired": rt.fired(), "overran": rt.overran()}
    if log:
        info["log"] = decode_log(0)
    return res, info


def run_threads(bodies, plan=(), mode=LINE, first=0, callbacks=None, max_steps=0, setup=None, log=False):
    """The bodies as caller threads; which one runs is decided by the plan."""
    rt = loader.simrt
    n = len(bodies)
    rt.reset(n, mode, 1 if log else 0, max_steps)
    _load_plan(plan, callbacks or {})
    res = [None] * n

    def main(t):
        if setup:
            setup(t)
        rt.begin(t, 1)
        try:
            res[t] = bodies[t]()
        except BaseException as e:  # bodies should not raise
            res[t] = ("harness", repr(e))
        finally:
            rt.end()

    ts = [threading.Thread(target=main, args=(t,), daemon=True) for t in range(n)]
    for t in ts:
        t.start()
    status = rt.run(first, STALL_S)
    if status == "done":
        for t in ts:
            t.join()
    info = {"status": status, "counts": [rt.counts(t) for t in range(n)], "fired": rt.fired(),
            "overran": rt.overran(), "hist": hashlib.sha1(rt.hist()).hexdigest()[:16],
            "switches": len(rt.hist()) // 16}
    if log:
        info["logs"] = [decode_log(t) for t in range(n)]
    return res, info


_bad_lines = {}


def protected_lines(filename):
    """Lines of clean-up code: an interrupt there defeats any Python program."""
    if filename not in _bad_lines:
        bad = set()
        try:
            tree = ast.parse(open(filename).read())
            for node in ast.walk(tree):
                if isinstance(node, ast.With):
                    bad.update(range(node.lineno, node.body[0].lineno))
                    bad.add(node.lineno)
                if isinstance(node, ast.Try):
                    bad.add(node.lineno)
                    for part in [node.finalbody] + [h.body for h in node.handlers]:
                        for s in part:
                            bad.update(range(s.lineno, s.end_lineno + 1))
                    for h in node.handlers:
                        bad.add(h.lineno)
                # an acquire or a set-up call right before try: finally:
                for body in (getattr(node, "body", None), getattr(node, "orelse", None), getattr(node, "finalbody", None)):
                    if isinstance(body, list):
                        for a, b in zip(body, body[1:]):
                            if isinstance(b, ast.Try) and b.finalbody:
                                bad.update(range(b.lineno, b.body[0].lineno))
        except (OSError, SyntaxError):
            pass
        _bad_lines[filename] = bad
    return _bad_lines[filename]


def decode_log(t):
    """Per event: an index into the list of distinct (file, function, line)."""
    rt = loader.simrt
    raw = np.frombuffer(rt.log(t), dtype=np.uint32)
    sites = rt.sites()
    uniq, inv = np.unique(raw, return_inverse=True)
    names = []
    for u in uniq:
        c = sites[int(u) >> 16]
        line = int(u) & 0xFFFF
        names.append((os.path.basename(c.co_filename), c.co_qualname, line,
                      line in protected_lines(c.co_filename)))
    return names, inv.astype(np.int32)


class Picker:
    """Chooses event indices of one thread from the log of a solo run."""

    def __init__(self, counts, log):
        self.n, self.nc = counts
        self.names, self.inv = log
        self.order = None

    def occurrences(self, s):
        return np.flatnonzero(self.inv == s)

    def pick(self, r, how, interrupt=False):
        """1-based event index, or None."""
        if self.n == 0:
            return None
        for _ in range(20):
            if how == "uniform":
                i = r.randrange(self.n)
            else:
                s = r.randrange(len(self.names))
                occ = self.occurrences(s)
                if how == "first":
                    i = int(occ[0])
                elif how == "last":
                    i = int(occ[-1])
                else:
                    i = int(occ[r.randrange(len(occ))])
            if not (interrupt and self.names[self.inv[i]][3]):
                return i + 1
        return None

    def site(self, i):
        f, q, l, _ = self.names[self.inv[i - 1]]
        return "%s:%d %s" % (f, l, q)


def step_limit(*solo):
    """Bound for a run from what its calls took alone: ((steps, C calls), times) each."""
    return 3 * sum(sum(c) * k for c, k in solo) + 1_000_000


def choose_switches(r, pickers, max_switches=12):
    """A preemption plan: which thread is stopped where, and who goes on."""
    n = len(pickers)
    plan = []
    how = r.choice(["uniform", "site", "site", "first", "dense", "c", "mix"])
    if how == "dense":
        # alternate at every event for a stretch
        ln = r.randint(3, 60)
        for t, p in enumerate(pickers):
            i = p.pick(r, r.choice(["uniform", "site", "first"]))
            if i is None:
                continue
            step = r.choice([1, 1, 2, 3])
            for j in range(ln):
                if i + j * step <= p.n:
                    plan.append({"t": t, "k": "p", "i": i + j * step, "a": "switch", "to": r.randrange(n)})
    else:
        for _ in range(r.randint(1, max_switches)):
            t = r.randrange(n)
            p = pickers[t]
            h = how if how != "mix" else r.choice(["uniform", "site", "first", "c"])
            if h == "c":
                if p.nc:
                    plan.append({"t": t, "k": "c", "i": r.randint(1, p.nc), "a": "switch", "to": r.randrange(n)})
                continue
            i = p.pick(r, h)
            if i is not None:
                plan.append({"t": t, "k": "p", "i": i, "a": "switch", "to": r.randrange(n)})
    seen, out = set(), []
    for p in plan:
        k = (p["t"], p["k"], p["i"])
        if k not in seen:
            seen.add(k)
            out.append(p)
    return out[:200], how
