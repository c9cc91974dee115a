"""A fresh interpreter: outcomes of operations given as JSON on stdin."""
import json, os, pickle, sys


def main():
    out = os.dup(1)
    os.dup2(2, 1)
    from . import engine, loader, ops
    loader.load()
    jobs = json.load(sys.stdin)
    res = []
    for op, objs in jobs:
        res.append(ops.fresh_outcome(op, objs))
    with os.fdopen(out, "wb") as f:
        pickle.dump(res, f, protocol=4)


def run(jobs, env, timeout=240):
    """The jobs' outcomes in a new interpreter with another environment."""
    import subprocess
    from . import build, engine
    e = dict(os.environ, **env)
    p = subprocess.run([sys.executable, "-m", "sim.elsewhere"], input=json.dumps(jobs).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=build.VERIF, env=e, timeout=timeout)
    if p.returncode < 0:
        return ("signal", -p.returncode)
    if p.returncode != 0:
        raise engine.HarnessError("interpreter failed: " + p.stderr.decode()[-2000:])
    return ("ok", pickle.loads(p.stdout))


if __name__ == "__main__":
    main()
