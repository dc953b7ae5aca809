"""R01: thread scheduling does not matter."""
import ctypes
import itertools
import math
import os
import shutil

import numpy as np

NEEDS = {"mode": "shim", "omp": "sched"}
TECHNIQUE = "controlled execution of every parallel region (own OpenMP runtime with coroutine threads and access log for the C kernels, controlled prange with element log for the numba kernels): thread counts and thread orders enumerated, conflicting accesses within a phase looked for, so that one conflict-free execution stands for all its interleavings; final states compared bit for bit; replay with real threads"
NOTE = "Whole steps of 2D and 3D runs (migration, sorting, absorbing layers, load balancing over processes, collisions, ionisation-free QED, lasers, moving window) with 1 to 250 threads per region, one iteration per thread included, forwards, backwards and in all permutations of 4 blocks of threads; real threads 1-8 compiled."
ASSUMPTIONS = ["conflict-free phases (no two threads touch a byte that one writes) have one result over all interleavings", "atomic updates are compared over the enumerated orders only", "numpy and libm calls touch nothing but their arguments", "emission draws of QED are seeded per iteration here"]
STAT = ("regions", "phases", "accesses", "conflicts", "atomic", "max_threads", "switches")


def boot():
    global lp, simmpi, m07, pt, L
    from vlib import simmpi as M
    M.install()
    from vlib import lp as lp_, ptrack
    from harness import m07 as h
    lp, simmpi, m07, pt = lp_, M, h, ptrack
    m07.boot()
    L = ctypes.CDLL(os.path.join(os.environ["VERIF_SCRATCH_DIR"], "lib", "libompsched.so"))
    L.oms_conflict.restype = ctypes.c_char_p
    import lambdapic, lambdapic.callback.laser, lambdapic.callback.utils      # noqa: every kernel is imported before they are wrapped
    import pkgutil, importlib
    for m in pkgutil.walk_packages(lambdapic.core.__path__, "lambdapic.core."):
        if ".tests" in m.name or "tables" in m.name or m.name.endswith("__main__"):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:       # noqa: optional modules
            pass
    pt.install()


def config(threads, mode):
    L.oms_config(threads, mode)
    L.oms_reset()
    pt.reset()
    pt.MODE = ("forward",) if mode == 0 else ("backward",) if mode == 1 else ("perm", mode - 2)


def conflicts():
    """what the last run did: (counts, first conflicts)"""
    a = (ctypes.c_ulonglong * 8)()
    L.oms_stats(a)
    out = []
    for i in range(16):
        s = L.oms_conflict(i)
        if not s:
            break
        out.append(s.decode())
    return dict(zip(STAT, a)), out + pt.found


def state(sim):
    """everything a step leaves behind, by patch"""
    out = {}
    for p in sim.patches:
        for a in lp.FIELDS if hasattr(lp, "FIELDS") else m07.FIELDS:
            out[p.index, a] = np.array(getattr(p.fields, a))
        for i, q in enumerate(p.particles):
            for a in list(q.attrs) + ["is_dead", "_id"]:
                v = getattr(q, a, None)
                if isinstance(v, np.ndarray):
                    out[p.index, i, a] = np.array(v)
        for i, m in enumerate(p.pml_boundary):
            for a, v in vars(m).items():
                if isinstance(v, np.ndarray):
                    out[p.index, "pml", i, a] = np.array(v)
    return out


def compare(a, b):
    if a.keys() != b.keys():
        return f"different patches or arrays: {sorted(map(str, a.keys() ^ b.keys()))[:4]}"
    for k in a:
        if a[k].shape != b[k].shape:
            return f"{k}: {b[k].shape} instead of {a[k].shape}"
        if a[k].tobytes() != b[k].tobytes() and not np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == "f"):
            i = np.unravel_index(int(np.argmax(~((a[k] == b[k]) | ((a[k] != a[k]) & (b[k] != b[k]))))), a[k].shape)
            return f"{k}{tuple(map(int, i))}: {b[k][i]!r} instead of {a[k][i]!r}"
    return None


# ---------------------------------------------------------------- scenarios: functions making (sims of all ranks) after some steps
def scene(name, size=1, ranks=None, mpi="eager"):
    """runs one scenario; returns (states by rank, world)"""
    from lambdapic import callback as cbk
    P = lp.partition()
    P.queue = [list(ranks)] if size > 1 else []
    dim = 3 if name.endswith("3d") else 2
    kind = name.split("-")[0]

    def plain(npatch, n, per, sp, count=40, w=None, umax=4.0, **kw):
        d = (1e-7, 0.9e-7, 1.1e-7)[:dim]
        s = lp.make_sim(dim, n, npatch, per, d=d, ng=2, cpml=3, species=sp, seed=7, **kw)
        s.initialize()
        s.load_balancer.threshold = np.inf
        funcs, _ = m07.problem(dim, n, d, per, 2, 0)
        lp.set_fields_from(s, funcs)
        for i in range(len(sp)):
            parts = lp.plasma(dim, n, d, count, seed=5 + i, umax=umax, wbase=w or (1e10 if dim == 2 else 1e3))
            lo = [3.2 * h if b == "o" else -h for h, b in zip(d, per)]
            for p in s.patches:
                mine = [q for q in parts if lp.home_patch(s, [q[a] for a in "xyz"[:dim]]) == lp.ipatch_of(s, p)
                        and all(l < q[a] < (m - 1) * h - l for a, l, m, h in zip("xyz", lo, n, d))]
                q = p.particles[i]
                q.initialize(len(mine))
                for a in list("xyz"[:dim]) + ["ux", "uy", "uz", "w"]:
                    getattr(q, a)[:] = [m[a] for m in mine]
                q.inv_gamma[:] = 1 / np.sqrt((0 if sp[i].pusher == "photon" else 1) + q.ux ** 2 + q.uy ** 2 + q.uz ** 2)
        lp.refresh(s)
        return s

    def body(r):
        G = {2: ((3, 3), (18, 12)), 3: ((2, 2, 2), (8, 8, 8))}[dim]
        cbs, steps = [], 3
        if kind == "plain":
            s = plain(*G, "p" * dim, [lp.Electron(), lp.Proton()])
        elif kind == "staged":
            s = plain(*G, "p" * dim, [lp.Electron(), lp.Proton()])
            cbs = [cbk("_interpolator")(lambda s: None)]
        elif kind == "open":
            s = plain({2: (2, 2), 3: (2, 2, 2)}[dim], {2: (16, 12), 3: (8, 8, 8)}[dim], "o" * dim, [lp.Electron(), lp.Proton()])
        elif kind == "sort":
            s = plain(*G, "p" * dim, [lp.Electron(), lp.Proton()], count=120)
        elif kind == "coll":
            sp = [lp.Electron(), lp.Proton()]
            s = plain(*G, "p" * dim, sp, count=90, umax=0.1)
            s.add_collision([(sp[0], sp[0], sp[1]), (sp[1], sp[1])])
            steps = 2
        elif kind == "laser":
            from lambdapic.callback.laser import SimpleLaser2D, SimpleLaser3D
            s = plain({2: (2, 2), 3: (2, 2, 2)}[dim], {2: (16, 12), 3: (12, 8, 8)}[dim], "o" * dim, [lp.Electron()], count=6)
            cbs = [(SimpleLaser2D if dim == 2 else SimpleLaser3D)(a0=1.0, w0=3e-7, ctau=5e-7, pol_angle=0.7)]
        elif kind == "window":
            from lambdapic import MovingWindow
            s = plain((3, 3), (18, 12), "op", [lp.Electron(density=lambda x, y: 1e24 + 0 * x, ppc=2)], count=20)
            cbs = [MovingWindow(velocity=lp.C, start_time=0)]
            steps = 14
        elif kind == "qed":
            ph = lp.Photon(name="photon") if hasattr(lp, "Photon") else None
            from lambdapic import Electron, Photon, Positron
            ph = Photon()
            po = Positron()
            el = Electron(radiation="photons")
            el.set_photon(ph)
            ph.set_bw_pair(electron=el, positron=po)
            s = plain({2: (2, 2), 3: (2, 1, 2)}[dim], {2: (8, 8), 3: (8, 4, 8)}[dim], "p" * dim, [el, ph, po], umax=3000.0)
            for p in s.patches:
                for q in p.particles[:2]:
                    if hasattr(q, "tau"):
                        q.tau[:] = 1e-4
            steps = 3
        else:
            raise ValueError(kind)
        if size > 1 and kind == "plain":
            def force(sim):
                if sim.itime == 1:
                    sim.load_balancer.threshold = -1.0
                    if r == 0:
                        P.queue = [[(x + 1) % size for x in ranks]]
                else:
                    sim.load_balancer.threshold = np.inf
            for _ in range(steps):
                force(s)
                s.mpi.comm.Barrier()
                s.run(nsteps=1, callbacks=cbs)
        else:
            s.run(nsteps=steps, callbacks=cbs)
        return state(s)
    if size == 1:
        return [body(0)], None
    w = simmpi.World(size, simmpi.MODES[mpi])
    res = w.run(body)
    return (w.results if w.ok() else None), w


def run(ctx, name, threads, modes, size=1, ranks=None, mpi="eager"):
    boot()
    seeded = name.startswith("qed")
    if seeded:
        # every iteration draws from a stream of its own, in any order
        orig = pt._order

        def order(n):
            for i in orig(n):
                np.random.seed(1000 + i)
                yield i
        pt._order = order
    ref = None
    for T in threads:
        for mode in modes:
            if mode >= 2 and T < 2:
                continue
            case = dict(scene=name, threads=T, order=("forwards", "backwards")[mode] if mode < 2 else f"permutation {mode - 2}", processes=size)
            ctx.case(case)
            ctx.state(case)
            config(T, mode)
            # the log of a run that is only there for its order is not needed
            pt.TRACK = mode == 0 and T == threads[0]
            got, w = scene(name, size, ranks, mpi)
            st, bad = conflicts()
            ctx.add("transitions", int(st["switches"]) + pt.stats["iterations"])
            ctx.add("traces")
            ctx.info[f"{name}_accesses"] = max(ctx.info.get(f"{name}_accesses", 0), int(st["accesses"]) + pt.stats["accesses"])
            ctx.info[f"{name}_phases"] = max(ctx.info.get(f"{name}_phases", 0), int(st["phases"]) + pt.stats["loops"])
            if got is None:
                ctx.violation(f"run:{name}", f"{case}: {w.report()}", case)
                return
            if bad:
                ctx.violation(f"conflict:{name}:{bad[0].split(': iter')[0].split(': thread')[0]}", f"{case}: {bad[0]} ({st['conflicts'] + pt.stats['conflicts']} in all)", case)
                return
            if ref is None:
                ref = got
                if not st["regions"] or not pt.stats["loops"]:
                    raise RuntimeError(f"{name}: nothing ran in parallel: {st} {pt.stats}")
                continue
            for r in range(size):
                e = compare(ref[r], got[r])
                if e:
                    ctx.violation(f"result:{name}", f"{case}: process {r}: {e}, with {threads[0]} threads forwards", case)
                    return
    ctx.info[f"{name}_loops"] = len(pt.loops())
    ctx.sample(case)


def planted(ctx):
    """the monitors see conflicts where there are some"""
    boot()
    import numba
    src = "def f(a, b, n):\n    for i in prange(n):\n        b[i] = a[i] + a[(i + 1) % n]\n    for i in prange(n):\n        a[i] = a[(i + 1) % n]\n"
    g = {"prange": pt._prange, "__name__": "planted"}
    exec(src, g)
    config(3, 0)
    pt.TRACK = True
    a = np.arange(4.0).view(pt.Arr)
    b = np.zeros(4).view(pt.Arr)
    g["f"](a, b, 4)
    ctx.case("planted conflict")
    if pt.stats["loops"] != 2 or not pt.found or any("b[" in x for x in pt.found):
        raise RuntimeError(f"the monitor of the numba loops is blind: {pt.stats} {pt.found}")
    d = os.environ["VERIF_SCRATCH_DIR"]
    c = os.path.join(d, "planted.c")
    with open(c, "w") as f:
        f.write("#include <stdlib.h>\nvoid good(double*a,double*b,int n){\n#pragma omp parallel for\nfor(int i=0;i<n;i++)b[i]=a[i]+a[(i+1)%n];\n}\n"
                "void bad(double*a,int n){\n#pragma omp parallel for\nfor(int i=0;i<n;i++)a[i]=a[(i+1)%n];\n}\n"
                "void two(double*a,double*b,int n){\n#pragma omp parallel\n{\n#pragma omp for\nfor(int i=0;i<n;i++)b[i]=a[i];\n#pragma omp for\nfor(int i=0;i<n;i++)a[i]=b[(i+1)%n];\n}}\n"
                "void nowait(double*a,double*b,int n){\n#pragma omp parallel\n{\n#pragma omp for nowait\nfor(int i=0;i<n;i++)b[i]=a[i];\n#pragma omp for\nfor(int i=0;i<n;i++)a[i]=b[(i+1)%n];\n}}\n"
                "int red(int*a,int n){int s=0;\n#pragma omp parallel for reduction(+:s)\nfor(int i=0;i<n;i++)s+=a[i];\nreturn s;}\n"
                "int lost(int*a,int n){int s=0;\n#pragma omp parallel for\nfor(int i=0;i<n;i++)s+=a[i];\nreturn s;}\n"
                "void dyn(double*a,double*b,int n){\n#pragma omp parallel for schedule(dynamic)\nfor(int i=0;i<n;i++)b[i]=a[i];\n}\n"
                "int crit(int*a,int n){int s=0;\n#pragma omp parallel for\nfor(int i=0;i<n;i++){\n#pragma omp critical\ns+=a[i];\n}return s;}\n")
    import subprocess
    so = c[:-2] + ".so"
    subprocess.check_call(["gcc", "-O1", "-fPIC", "-fopenmp", "-fsanitize=thread", "-c", c, "-o", c[:-2] + ".o"])
    subprocess.check_call(["gcc", "-shared", c[:-2] + ".o", "-o", so, "-L", os.path.join(d, "lib"), "-lompsched", f"-Wl,-rpath,{d}/lib"])
    K = ctypes.CDLL(so)
    a, b = np.arange(9.0), np.zeros(9)
    ia = np.arange(9, dtype=np.int32)
    p = lambda x: x.ctypes.data_as(ctypes.c_void_p)
    for T, mode in itertools.product((2, 3, 9), (0, 1, 5)):
        for fn, args, bad, val in (("good", (p(a), p(b), 9), 0, None), ("bad", (p(a), 9), 1, None), ("two", (p(a), p(b), 9), 0, None), ("nowait", (p(a), p(b), 9), 1, None),
                                   ("red", (p(ia), 9), 0, 36), ("lost", (p(ia), 9), 1, 36), ("dyn", (p(a), p(b), 9), 0, None), ("crit", (p(ia), 9), 0, 36)):
            config(T, mode)
            r = getattr(K, fn)(*args)
            st, f = conflicts()
            ctx.case(f"planted {fn} {T} {mode}")
            ctx.add("transitions", int(st["switches"]))
            if bool(f) != bool(bad) or (val is not None and r != val) or not st["regions"]:
                raise RuntimeError(f"the monitor of the C kernels misjudges {fn} with {T} threads: {st} {f} {r}")
            if fn == "dyn" and not np.array_equal(a, b):
                raise RuntimeError("loop schedule")
    ctx.info["monitor_validated"] = True


def real(ctx, names, out=None):
    """compiled kernels on real threads (one process per thread count; here the results are written)"""
    import pickle
    global lp, simmpi, m07
    from vlib import simmpi as M
    M.install()
    from vlib import lp as lp_
    from harness import m07 as h
    lp, simmpi, m07 = lp_, M, h
    m07.boot()
    R = {}
    for nm in names:
        ctx.case(dict(scene=nm, threads=os.environ["OMP_NUM_THREADS"]))
        R[nm] = scene(nm)[0][0]
        ctx.add("traces")
    with open(out, "wb") as f:
        pickle.dump(R, f)


def threads(ctx, names, counts):
    """the unmodified build with real threads: same results for every number of threads"""
    import pickle
    from vlib import jitjob, prep
    boot()
    ctx.case("build with the real runtime")
    scratch = prep.prepare(mode="shim", omp="gomp")
    try:
        ref = None
        for k in counts:
            out = os.path.join(str(scratch), f"out{k}")
            env = {"PYTHONPATH": os.pathsep.join([str(scratch / "pkg"), str(prep.VERIF)]), "OMP_NUM_THREADS": str(k), "NUMBA_CACHE_DIR": str(scratch / "nc"), "VERIF_SCRATCH_DIR": str(scratch)}
            jitjob.jit(ctx, "harness.r01:real", dict(names=names, out=out), threads=k, env=env)
            with open(out, "rb") as f:
                R = pickle.load(f)
            if ref is None:
                ref = R
            for nm in names:
                e = compare(ref[nm], R[nm])
                if e:
                    ctx.violation(f"real:{nm}", f"{nm}: {k} real threads: {e}, with {counts[0]}", dict(scene=nm, threads=k))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def jobs(tier, seed):
    th = tier == "thorough"
    T = (250, 1, 2, 3, 4, 7) if not th else (250, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16)
    J = [("planted", planted, {})]
    for nm in ("plain-2d", "plain-3d", "staged-2d", "staged-3d", "open-2d", "open-3d", "sort-2d", "sort-3d", "laser-2d", "laser-3d", "window-2d", "coll-2d", "qed-2d"):
        J.append((f"counts-{nm}", run, dict(name=nm, threads=T, modes=(0, 1) if th or nm.endswith("2d") else (0,))))
    for nm in ("plain-2d", "open-2d", "plain-3d"):
        J.append((f"orders-{nm}", run, dict(name=nm, threads=(250,) if not th else (250, 5), modes=tuple(range(2, 2 + (720 if th else 24))))))
    for nm, k in (("staged-2d", 9), ("open-2d", 4), ("laser-2d", 4), ("window-2d", 9), ("coll-2d", 9), ("qed-2d", 4), ("open-3d", 8)):
        for mpi in ("rendezvous",) if not th else ("eager", "rendezvous"):
            J.append((f"ranks-{nm}-{mpi}", run, dict(name=nm, threads=(250, 1, 2) if not th else (250, 1, 2, 3, 4, 7), modes=(0, 1), size=2 if k < 9 else 3, ranks=tuple((i * i + i // 3) % (2 if k < 9 else 3) for i in range(k)), mpi=mpi)))
    J.append(("ranks-2d", run, dict(name="plain-2d", threads=(250, 1, 2, 3), modes=(0, 1), size=2, ranks=(0, 0, 1, 1, 0, 1, 0, 1, 0))))
    J.append(("ranks-3d", run, dict(name="plain-3d", threads=(250, 1, 3), modes=(0, 1), size=2, ranks=(0, 0, 1, 1, 0, 1, 0, 1))))
    J.append(("threads", threads, dict(names=["plain-2d", "open-2d"] + (["plain-3d", "open-3d", "window-2d", "coll-2d"] if th else []), counts=(1, 2, 5) if not th else (1, 2, 3, 5, 8))))
    return J


COVERAGE = "see NOTE"
