"""Imports the code under test: its Python from the repository's working tree,
its extensions from our own build, its locks from the simulator."""
import importlib.abc, importlib.machinery, importlib.util, os, sys, threading, _thread, warnings

from . import build as B

REPO = B.REPO
PKG = os.path.join(REPO, "arcticpy") + os.sep
simrt = None
ac = None
_real_lock, _real_rlock, _real_alloc = threading.Lock, threading.RLock, _thread.allocate_lock


class SimDeadlock(BaseException):
    pass


class SimLock:
    """A lock whose waiters the simulator parks; reentrant if asked."""

    def __init__(self, reentrant=False):
        self._r, self._owner, self._n = reentrant, None, 0

    def _me(self):
        t = simrt.tid()
        return t if t >= 0 else ("main", _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            old = simrt.pause(True)
            try:
                if self._owner is None or (self._r and self._owner == me):
                    self._owner = me
                    self._n += 1
                    return True
                if not blocking or (timeout is not None and timeout >= 0):
                    return False
            finally:
                simrt.pause(old)
            if not simrt.block(self):
                raise SimDeadlock("every thread waits for a lock")

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None
            simrt.wake(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == self._me()

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n

    def _release_save(self):
        n, self._n = self._n, 1
        self.release()
        return n


def _from_repo():
    f = sys._getframe(2)
    for _ in range(3):  # directly, or through threading.Condition etc.
        if f is None:
            return False
        if f.f_code.co_filename.startswith(PKG) or f.f_globals.get("__name__", "").startswith("arcticpy"):
            return True
        f = f.f_back
    return False


def _patch_locks():
    threading.Lock = lambda *a: SimLock() if _from_repo() else _real_lock(*a)
    threading.RLock = lambda *a: SimLock(True) if _from_repo() else _real_rlock(*a)
    _thread.allocate_lock = lambda *a: SimLock() if _from_repo() else _real_alloc(*a)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, out):
        self.out = out
        self.names = {"arcticpy." + f[:-4] for f in B.pyx_files()}

    def find_spec(self, name, path=None, target=None):
        if name not in self.names:
            return None
        p = os.path.join(self.out, "arcticpy", name.split(".")[-1] + B.EXT)
        return importlib.util.spec_from_file_location(name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))


def use_other_build():
    """The extensions built with other contents of unset C variables, from here on."""
    out = B.build()
    swap = {}
    for f in B.pyx_files():
        name = "arcticpy." + f[:-4]
        if name not in sys.modules:
            continue
        p = os.path.join(out, "other", f[:-4] + B.EXT)
        spec = importlib.util.spec_from_file_location(name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for k, v in vars(sys.modules[name]).items():
            if callable(v) and getattr(v, "__module__", None) == name and hasattr(m, k):
                swap[id(v)] = getattr(m, k)
        sys.modules[name] = m
    for n, m in list(sys.modules.items()):
        if n == "arcticpy" or n.startswith("arcticpy."):
            for k, v in list(vars(m).items()):
                if id(v) in swap:
                    setattr(m, k, swap[id(v)])
                elif isinstance(v, type) and v.__module__.startswith("arcticpy"):
                    for k2, v2 in list(vars(v).items()):
                        if id(v2) in swap:
                            setattr(v, k2, swap[id(v2)])
    return len(swap)


def load():
    global simrt, ac
    if ac is not None:
        return ac
    out = B.build()
    sys.dont_write_bytecode = True
    flags = sys.getdlopenflags()
    sys.setdlopenflags(os.RTLD_NOW | os.RTLD_GLOBAL)
    try:
        p = os.path.join(out, "simrt" + B.EXT)
        spec = importlib.util.spec_from_file_location("simrt", p, loader=importlib.machinery.ExtensionFileLoader("simrt", p))
        simrt = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(simrt)
    finally:
        sys.setdlopenflags(flags)
    sys.modules["simrt"] = simrt
    sys.meta_path.insert(0, _Finder(out))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import numpy, scipy.integrate, scipy.optimize  # noqa
        import autoarray  # noqa: third parties get real locks
        _patch_locks()
        import arcticpy
        import arcticpy.main_utils, arcticpy.trap_managers_utils
    assert arcticpy.__file__.startswith(PKG), arcticpy.__file__
    simrt.prefixes((PKG, os.path.join(B.HERE, "usercode.py")))
    ac = arcticpy
    return ac
