"""Run a harness function in a process with numba's compiler on (the workers normally interpret the numba
kernels): jobs of the form (name, jitjob.jit, dict(target="harness.q01:scenario", args={...}, threads=4))."""
import importlib
import mmap
import os
import pickle
import subprocess
import sys
import tempfile
import time


def jit(ctx, target, args, threads=3, timeout=800, env=None, compiled=True):
    extra = env or {}
    fd, out = tempfile.mkstemp(dir=os.environ["TMPDIR"])
    os.close(fd)
    env = dict(os.environ, NUMBA_NUM_THREADS=str(threads), OMP_NUM_THREADS="1", PYTHONWARNINGS="ignore")
    env.update(extra)
    if compiled:
        env.pop("NUMBA_DISABLE_JIT", None)
    p = subprocess.Popen([sys.executable, "-m", "vlib.jitjob", ctx.prop, ctx.tier, str(ctx.seed), target, out], env=env, stdin=subprocess.PIPE)
    p.stdin.write(pickle.dumps(args))
    p.stdin.close()
    t0 = time.time()
    while p.poll() is None:
        ctx.case({"compiled": target, "args": args, "seconds": int(time.time() - t0)})
        if time.time() - t0 > timeout:
            p.kill()
            p.wait()
            ctx.violation(f"hang:jit:{target}", f"no end within {timeout} s: {args}")
            return
        time.sleep(0.5)
    if p.returncode < 0:
        ctx.violation(f"crash:jit:{target}", f"killed by signal {-p.returncode}: {args}")
        return
    with open(out, "rb") as f:
        d = f.read()
    os.unlink(out)
    if not d:
        raise RuntimeError(f"compiled run of {target} gave no result (exit {p.returncode})")
    r = pickle.loads(d)
    for k, v in r["counts"].items():
        if k != "violations_raw":
            ctx.add(k, v)
    ctx.states |= r["states"]
    ctx.samples += r["samples"]
    ctx.add("compiled_runs" if compiled else "subprocess_runs")
    for v in r["violations"]:
        ctx.violation(("jit:" if compiled else "sub:") + v["key"], v["detail"], v["case"])
    if r["err"]:
        raise RuntimeError("compiled run failed:\n" + r["err"])


def main():
    prop, tier, seed, target, out = sys.argv[1:6]
    args = pickle.loads(sys.stdin.buffer.read())
    import traceback
    from vlib import runner, simmpi
    simmpi.install()
    from loguru import logger
    logger.remove()
    logger.disable("lambdapic")
    import lambdapic
    pkgdir = os.path.dirname(os.path.abspath(lambdapic.__file__))
    mod, fn = target.split(":")
    ctx = runner.Ctx(prop, tier, int(seed), mmap.mmap(-1, 8192))
    err = None
    try:
        getattr(importlib.import_module(mod), fn)(ctx, **args)
    except BaseException as e:      # noqa
        where = runner.package_frame(e, pkgdir)
        if where:
            ctx.violation(f"exception:{type(e).__name__}:{where}", traceback.format_exc())
        else:
            err = traceback.format_exc()
    with open(out, "wb") as f:
        pickle.dump({"counts": ctx.counts, "states": ctx.states, "violations": ctx.violations, "samples": ctx.samples, "err": err}, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
