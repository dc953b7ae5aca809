"""Runs inside the scratch environment: imports the harness module of one
property, executes its jobs and prints a JSON summary to the given file."""
import importlib
import json
import os
import pickle
import sys
import time


def main():
    prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    only = sys.argv[5] if len(sys.argv) > 5 else None
    mod = importlib.import_module("harness." + prop.lower())
    mode = getattr(mod, "NEEDS", {}).get("mode", "shim")
    if mode == "shim":
        from vlib import simmpi
        simmpi.install()
    from loguru import logger
    logger.remove()
    logger.disable("lambdapic")
    import lambdapic
    pkgdir = os.path.dirname(os.path.abspath(lambdapic.__file__))
    assert os.environ["VERIF_SCRATCH_DIR"] in pkgdir, pkgdir
    from vlib import runner
    jobs = mod.jobs(tier, seed)
    if only:
        jobs = [j for j in jobs if only in j[0]]
    t0 = time.time()
    merged, herr = runner.run_jobs(prop, tier, seed, jobs, nproc=int(os.environ.get("VERIF_JOBS", "8")), pkgdir=pkgdir)
    if hasattr(mod, "finalize"):
        mod.finalize(merged, tier)
    with open(out, "wb") as f:
        pickle.dump({"merged": merged, "herr": herr, "explore_s": time.time() - t0,
                     "assumptions": getattr(mod, "ASSUMPTIONS", []), "coverage_text": getattr(mod, "COVERAGE", "")}, f)


if __name__ == "__main__":
    main()
