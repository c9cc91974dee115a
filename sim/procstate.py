"""A picture of the process-wide state that other code depends on."""
import builtins, copy, copyreg, decimal, faulthandler, gc, io, locale, logging, math, multiprocessing, os, random, resource, signal, sys, threading, time, warnings, atexit
import numpy as np
import scipy.integrate, scipy.optimize, scipy.special

from . import loader

WATCHED = ("numpy", "numpy.random", "numpy.linalg", "scipy.integrate", "scipy.optimize", "copy", "math", "random", "warnings", "threading",
           "builtins", "os", "sys", "time", "gc", "pickle", "collections", "autoarray", "functools", "itertools", "logging", "signal")
# names of these modules that change by themselves or that the simulator uses
VARY = {("sys", "last_exc"), ("sys", "last_type"), ("sys", "last_value"), ("sys", "last_traceback"), ("sys", "exc_clear"), ("sys", "path_importer_cache"),
        ("os", "environ"), ("warnings", "filters")}


def modules():
    out = {}
    for m in WATCHED:
        mod = sys.modules.get(m)
        if mod is None:
            continue
        for n, v in list(vars(mod).items()):
            if not n.startswith("_") and (m, n) not in VARY:
                out[(m, n)] = id(v)
    return out


def package():
    """Public attributes of the package's modules and classes, and default arguments."""
    from . import engine
    out = {}
    for m, mod in list(sys.modules.items()):
        if not (m == "arcticpy" or m.startswith("arcticpy.")) or mod is None:
            continue
        for n, v in list(vars(mod).items()):
            if n.startswith("_"):
                continue
            if isinstance(v, type) and getattr(v, "__module__", "").startswith("arcticpy"):
                out[(m, n)] = id(v)
                for a, x in list(vars(v).items()):
                    if a.startswith("_") and a != "__init__":
                        continue
                    f = getattr(x, "fget", None) or getattr(x, "__func__", None) or x
                    if callable(f) or isinstance(x, property):
                        out[(m, n, a)] = (id(x), repr(engine.fingerprint(getattr(f, "__defaults__", None) or ())))
                    else:
                        out[(m, n, a)] = repr(engine.fingerprint(x))
            elif callable(v):
                out[(m, n)] = (id(v), repr(engine.fingerprint(getattr(v, "__defaults__", None) or ())))
            elif not type(v).__name__ == "module":
                out[(m, n)] = repr(engine.fingerprint(v))
            else:
                out[(m, n)] = id(v)
    return out


def rounding():
    # changes with the rounding mode and with flush-to-zero
    x = np.array([1.0, 1e16, 5e-324, 2.2250738585072014e-308])
    return ((1.0 + 1e-16 + 2 ** -53), float(x[1] + 1.0), float(x[3] / 2), float(x[2] + 0.0), 0.1 + 0.2)


def umask():
    for l in open("/proc/self/status"):
        if l.startswith("Umask"):
            return l.strip()


def snap(during=False):
    """State by name; with during, only what every thread shares."""
    a = np.random.get_state()
    s = {
        "numpy's global generator": (a[0], a[1].tobytes(), a[2], a[3], a[4]),
        "numpy's global generator object": id(np.random.mtrand._rand),
        "Python's global generator": random.getstate(),
        "warning filters": list(warnings.filters),
        "warning display": (id(warnings.showwarning), id(warnings.formatwarning), warnings._defaultaction),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "signal handlers": [repr(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGUSR1, signal.SIGCHLD, signal.SIGPIPE)],
        "timers": signal.getitimer(signal.ITIMER_REAL)[1],
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count() > 0),
        "interpreter limits": (sys.getrecursionlimit(), sys.getswitchinterval(), sys.get_int_max_str_digits()),
        "interpreter settings": (sys.dont_write_bytecode, sys.getdlopenflags(), id(threading.gettrace()), id(threading.getprofile()),
                                 id(builtins.__import__), id(builtins.__build_class__)),
        "modules loaded": {n: id(m) for n, m in list(sys.modules.items())},
        "pickling by type": {str(t): id(f) for t, f in copyreg.dispatch_table.items()},
        "multiprocessing": multiprocessing.get_start_method(allow_none=True),
        "resource limits": [resource.getrlimit(k) for k in (resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_NOFILE, resource.RLIMIT_CORE)],
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(threading.excepthook), sys.getprofile(), id(sys.breakpointhook)),
        "import system": ([str(x) for x in sys.path], [id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks]),
        "arguments": list(sys.argv),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions, id(logging.lastResort),
                    [(n, x.level, x.disabled, x.propagate, len(x.handlers)) for n, x in sorted(logging.root.manager.loggerDict.items()) if isinstance(x, logging.Logger)]),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": (time.tzname, time.timezone),
        "threads": threading.active_count(),
        "exit handlers": atexit._ncallbacks(),
        "print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "floating-point rounding": rounding(),
        "fault handler": faulthandler.is_enabled(),
        "umask": umask(),
        "open files": sorted(os.listdir("/proc/self/fd"))[:-1] and len(os.listdir("/proc/self/fd")),
        "recursion or niceness": os.getpriority(os.PRIO_PROCESS, 0),
        "CPU affinity": sorted(os.sched_getaffinity(0)),
    }
    if not during:
        s["floating-point error handling"] = (np.geterr(), np.geterrcall(), np.getbufsize())
        s["error handling of scipy's special functions"] = scipy.special.geterr()
        s["coroutines"] = (sys.get_coroutine_origin_tracking_depth(), repr(sys.get_asyncgen_hooks()))
        s["decimal context"] = repr(decimal.getcontext())
        s["memory handler"] = np.core.multiarray.get_handler_name() if hasattr(np, "core") else ""
        s["stack of exceptions"] = sys.exc_info()[0]
    s["modules"] = modules()
    s["package"] = package()
    return s


def diff(a, b):
    for k in b:
        if k not in a or a[k] == b[k]:
            continue
        if k in ("modules loaded", "pickling by type"):  # more may come
            for n, v in a[k].items():
                if b[k].get(n) != v:
                    return "%s: %s is missing or replaced" % (k, n)
            continue
        if k in ("modules", "package"):
            for n, v in a[k].items():
                if b[k].get(n, None) != v:
                    return "%s %s was changed" % ("attribute" if k == "modules" else "the package's attribute", ".".join(n))
            continue
        return "%s changed" % k
    return None


EVENTS = []
_on = [False]
QUIET = ("object.", "sys._getframe", "compile", "exec", "import", "marshal.", "code.", "gc.", "builtins.id", "cpython.", "sys.audit", "sys._current", "pickle.",
         "ctypes.", "sys.unraisablehook", "sys.excepthook", "builtins.", "sys.setprofile", "sys.settrace", "sys.monitoring", "array.", "os.listdir", "os.scandir",
         "sys.addaudithook", "time.sleep", "setopencodehook", "sys.set_asyncgen", "function.", "glob.", "_thread.start_joinable")


def hook(event, args):
    if not _on[0] or event.startswith(QUIET):
        return
    if event == "open":
        path, mode, flags = (list(args) + [None] * 3)[:3]
        p = str(path)
        reading = not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if reading and (p.endswith((".py", ".pyc", ".so", ".pyx", ".zip")) or p.startswith(("/proc/", "/sys/", "/dev/", "<"))):
            return  # imports, source lines for messages
        EVENTS.append("opened the file %s" % p)
        return
    EVENTS.append("did " + event)


def watch():
    sys.addaudithook(hook)


def ignore(*a, **k):
    return None


# Settings a user can have made before, so that putting something back to its
# default shows.
SETTINGS = {
    "gc off": gc.disable,
    "gc thresholds": lambda: gc.set_threshold(311, 7, 5),
    "gc callback": lambda: gc.callbacks.append(ignore),
    "gc frozen": gc.freeze,
    "numpy errors": lambda: np.seterr(divide="ignore", over="warn", under="warn", invalid="ignore"),
    "numpy errors called": lambda: (np.seterrcall(ignore), np.seterr(over="call", divide="call")),
    "numpy buffer": lambda: np.setbufsize(16384),
    "scipy errors": lambda: scipy.special.seterr(all="warn"),
    "print options": lambda: np.set_printoptions(precision=3, suppress=True, threshold=5),
    "recursion": lambda: sys.setrecursionlimit(1700),
    "switch interval": lambda: sys.setswitchinterval(0.013),
    "digits": lambda: sys.set_int_max_str_digits(700),
    "umask": lambda: os.umask(0o037),
    "decimal": lambda: setattr(decimal.getcontext(), "prec", 11),
    "logging": lambda: (logging.root.setLevel(17), logging.disable(3), setattr(logging, "raiseExceptions", False)),
    "logger": lambda: logging.getLogger("arcticpy").setLevel(31),
    "signals": lambda: [signal.signal(k, ignore) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)],
    "timer": lambda: signal.setitimer(signal.ITIMER_REAL, 5000, 5000),
    "hooks": lambda: [setattr(m, n, ignore) for m, n in ((sys, "excepthook"), (sys, "displayhook"), (sys, "unraisablehook"), (threading, "excepthook"), (sys, "breakpointhook"))],
    "path": lambda: sys.path.extend(["/nowhere/one", "/nowhere/two"]),
    "arguments": lambda: sys.argv.extend(["--arctic", "3"]),
    "environment": lambda: os.environ.update({"OMP_NUM_THREADS": "3", "MKL_NUM_THREADS": "3", "PYTHONHASHSEED": "5", "NUMBA_NUM_THREADS": "3", "LANG": "de_DE"}),
    "fault handler": lambda: faulthandler.enable(open(os.devnull, "w")) if not faulthandler.is_enabled() else faulthandler.disable(),
    "bytecode": lambda: setattr(sys, "dont_write_bytecode", not sys.dont_write_bytecode),
    "warnings": lambda: (warnings.filterwarnings("ignore", "q"), warnings.filterwarnings("once", category=DeprecationWarning, append=True), setattr(warnings, "onceregistry", {})),
    "core size": lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, resource.getrlimit(resource.RLIMIT_CORE)[1])),
    "files": lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (200, resource.getrlimit(resource.RLIMIT_NOFILE)[1])),
    "nice": lambda: os.nice(1),
    "bit generator": lambda: np.random.seed(np.arange(7)),
    "coroutines": lambda: sys.set_coroutine_origin_tracking_depth(2),
    "threading": lambda: (threading.setprofile(None), threading.settrace(None)),
    "exit handler": lambda: atexit.register(ignore),
}


class observe:
    """Records what the code inside asks of the operating system."""

    def __enter__(self):
        _on[0] = True

    def __exit__(self, *a):
        _on[0] = False


class pause:
    def __enter__(self):
        self.old = _on[0]
        _on[0] = False

    def __exit__(self, *a):
        _on[0] = self.old
