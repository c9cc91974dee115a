"""Builds the simulator's runtime and, from the repository's working tree, its
Cython extensions, into a git-ignored folder named after their contents."""
import fcntl, hashlib, os, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("ARCTIC_REPO", "/repo")
EXT = sysconfig.get_config_var("EXT_SUFFIX")


class BuildError(Exception):
    pass


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def pyx_files():
    d = os.path.join(REPO, "arcticpy")
    return sorted(f for f in os.listdir(d) if f.endswith(".pyx"))


def digest():
    h = hashlib.sha256()
    for f in ("simrt.c", "shim.h", "build.py"):
        h.update(open(os.path.join(HERE, f), "rb").read())
    d = os.path.join(REPO, "arcticpy")
    for f in sorted(os.listdir(d)):
        if f.endswith((".pyx", ".pxd", ".pxi")):
            h.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read())
    h.update(sys.version.encode())
    return h.hexdigest()[:20]


def build():
    root = os.path.join(VERIF, ".build")
    os.makedirs(root, exist_ok=True)
    out = os.path.join(root, digest())
    if os.path.exists(os.path.join(out, "ok")):
        return out
    with open(os.path.join(root, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        import numpy

        tmp = out + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(os.path.join(tmp, "arcticpy"))
        os.makedirs(os.path.join(tmp, "other"))
        inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]
        base = ["gcc", "-shared", "-fPIC", "-O1", "-fwrapv", "-fno-strict-aliasing", "-w"] + inc

        def simrt():
            run(base + ["-O2", os.path.join(HERE, "simrt.c"), "-o", os.path.join(tmp, "simrt" + EXT), "-lpthread"], tmp)

        def ext(f):
            name = f[:-4]
            src = os.path.join(tmp, "arcticpy", f)
            shutil.copy(os.path.join(REPO, "arcticpy", f), src)
            run([sys.executable, "-m", "cython", "-3", "-X", "binding=True", "--module-name", "arcticpy." + name, src], tmp)
            # twice: C variables that were never set hold zeros, or a pattern
            for sub, init in (("arcticpy", "zero"), ("other", "pattern")):
                run(base + ["-include", os.path.join(HERE, "shim.h"), "-fsanitize-coverage=trace-pc", "-fsanitize=bounds",
                            "-fsanitize-undefined-trap-on-error", "-fstack-protector-strong", "-ftrivial-auto-var-init=" + init,
                            src[:-4] + ".c", "-o", os.path.join(tmp, sub, name + EXT)], tmp)

        for f in os.listdir(os.path.join(REPO, "arcticpy")):
            if f.endswith((".pxd", ".pxi")):
                shutil.copy(os.path.join(REPO, "arcticpy", f), os.path.join(tmp, "arcticpy", f))
        with ThreadPoolExecutor(4) as ex:
            jobs = [ex.submit(simrt)] + [ex.submit(ext, f) for f in pyx_files()]
            for j in jobs:
                j.result()
        open(os.path.join(tmp, "ok"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # keep only a few old builds
        old = sorted((d for d in os.listdir(root) if os.path.isdir(os.path.join(root, d)) and ".tmp" not in d),
                     key=lambda d: os.path.getmtime(os.path.join(root, d)))
        for d in old[:-12]:
            shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    return out


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print("BUILD FAILED\n" + str(e))
        sys.exit(2)
