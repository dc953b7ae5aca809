"""K02: the fused particle step is the staged one."""
import itertools

import numpy as np

from harness import m07

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of particle states (position x momentum x field lattice), slot states and inner-stage callback sets; the fused and the staged step are run from every one and compared"
NOTE = "11 fractional positions per axis in inner and edge cells x 27 directions x 4 speeds x field patterns x species, 2D/3D; strips with dead/untracked slots; whole runs for every subset of the inner stages carrying a callback, every subset of two species forced to stages."
ASSUMPTIONS = ["moves of less than one cell per step"]
ATTR = ("x", "y", "z", "ux", "uy", "uz", "inv_gamma", "ex", "ey", "ez", "bx", "by", "bz")
STAGES = ("_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2", "current_deposition")


def boot():
    global lp, simmpi, pb
    m07.boot()
    lp, simmpi = m07.lp, m07.simmpi
    from vlib import pbench
    pb = pbench


def fieldset(b, kind):
    amp = {"zero": 0.0, "weak": 1e10, "strong": 3e13, "ultra": 1e16}[kind]
    for k, a in enumerate(pb.EB):
        getattr(b.f, a)[...] = pb.pseudo(b.shape, k + 3, amp if k < 3 else amp / lp.C)


def compare(a, b, ga, gb, live):
    """a, b: particle states; ga, gb: grids"""
    for grp in (("x",), ("y",), ("z",), ("ux", "uy", "uz"), ("inv_gamma",), ("ex", "ey", "ez"), ("bx", "by", "bz"), ("w",)):
        for k in grp:
            if k not in a:
                continue
            x, y = a[k], b[k]
            same = np.array_equal(np.isnan(x), np.isnan(y))
            if not same:
                return k, "NaN in one path only"
            if k in ("ex", "ey", "ez", "bx", "by", "bz"):
                x, y = x[live], y[live]
            m = ~np.isnan(x)
            if not m.any():
                continue
            if grp[0] in ("ux", "ex", "bx"):
                s = np.sqrt(sum(np.nan_to_num(a[j]) ** 2 for j in grp))
                s = (s[live] if grp[0] != "ux" else s)[m] + 1e-300
                if grp[0] in ("ex", "bx"):
                    s = s.max()
                else:
                    s = s + 1e-12
            elif grp[0] == "inv_gamma":
                s = np.abs(x[m]) + 1e-300
            else:
                s = np.abs(x[m]).max() + 1e-300
            e = np.abs(x[m] - y[m]) / s
            if e.max() > 1e-10:
                i = int(np.flatnonzero(m)[e.argmax()])
                return k, f"slot {i}: {k} staged {y[m][e.argmax()]!r}, fused {x[m][e.argmax()]!r}"
    sc = {g: max(np.abs(ga[k]).max() for k in g) for g in (("jx", "jy", "jz"), ("rho",))}
    for g, s in sc.items():
        for k in g:
            if np.isnan(ga[k]).any() or np.isnan(gb[k]).any():
                return k, "NaN in " + k
            e = np.abs(ga[k] - gb[k])
            if e.max() > 1e-9 * max(s, max(np.abs(gb[j]).max() for j in g)) :
                c = tuple(int(v) for v in np.unravel_index(e.argmax(), e.shape))
                return k, f"{k}{c} staged {gb[k][c]!r}, fused {ga[k][c]!r}"
    return None


def both(b, fill):
    out = []
    for fused in (True, False):
        fill()
        b.clear()
        b.step(fused)
        out += [b.state(), b.grids()]
    return out


def single(ctx, dim, cells, fracs, mags, fields, species):
    boot()
    for name in species:
        sp = {"e": lambda: lp.Electron(), "p": lambda: lp.Proton(), "x": lambda: lp.Species(name="x", charge=3, mass=0.5), "n": lambda: lp.Species(name="n", charge=0, mass=1)}[name]()
        U = [tuple(m * k * s for k, s in zip(dr, (1.0, 0.83, 1.21))) for dr in pb.DIRS for m in mags if any(dr) or m == mags[0]]
        b = pb.Bench(dim, sp, nslot=len(U) + 1)
        for fk in fields:
            fieldset(b, fk)
            for cell in itertools.product(cells, repeat=dim):
                ctx.case(dict(species=name, fields=fk, cell=cell, dim=dim))
                for k, fr in enumerate(itertools.product(fracs, repeat=dim)):
                    X = [c + f for c, f in zip(cell, fr)]
                    dead = (len(U),) if k % 2 else ()      # both the clean and the checked strip
                    case = dict(species=name, fields=fk, X=X, dim=dim, dead=len(dead))

                    def fill():
                        b.fill([X] * (len(U) + 1), list(U) + [U[0]], 1e10, dead)
                    a, ga, s, gs = both(b, fill)
                    ctx.add("transitions", 2 * len(U))
                    ctx.add("traces", 2)
                    live = ~a["dead"]
                    e = compare(a, s, ga, gs, live)
                    if e:
                        ctx.violation(f"single:{e[0]}:{dim}d", f"{case}: {e[1]}", case)
                        return
                ctx.state(name, fk, cell, dim)
    ctx.sample(case)


def slots(ctx, dim, sizes):
    boot()
    r = lp.lcg(dim + 5)
    for npart in sizes:
        b = pb.Bench(dim, None, nslot=npart)
        fieldset(b, "strong")
        X = np.array([[1 + 6 * next(r) for _ in range(dim)] for _ in range(npart)]).reshape(npart, dim)
        U = np.array([[4 * (next(r) - 0.5) for _ in range(3)] for _ in range(npart)]).reshape(npart, 3)
        edge = sorted({0, 1, 127, 128, 254, 255, 256, 257, 510, 511, 512, 513, npart - 2, npart - 1} & set(range(npart)))
        for kind in ("dead", "nanx", "nany", "nanz", "deadnan"):
            if kind == "nanz" and dim == 2:
                continue
            pats = [()] + [(i,) for i in edge] + list(itertools.combinations(edge[:6], 2)) + [tuple(range(k, npart, m)) for m in (2, 3) for k in range(m)] + [tuple(range(npart)), tuple(range(min(256, npart))), tuple(range(256, npart))]
            for bad in pats:
                case = dict(npart=npart, dim=dim, kind=kind, bad=bad[:8], nbad=len(bad))
                ctx.case(case)
                ctx.state(case)

                def fill():
                    b.fill(X, U, 1e10 * (1 + np.arange(npart) / 1024), bad if kind.startswith("dead") else ())
                    for i in bad:
                        if kind == "deadnan":
                            b.q.x[i] = np.nan
                        elif kind != "dead":
                            getattr(b.q, kind[-1])[i] = np.nan
                a, ga, s, gs = both(b, fill)
                ctx.add("transitions", 2 * npart)
                ctx.add("traces", 2)
                live = ~a["dead"]
                for i in bad:
                    live[i] = False
                if kind.startswith("nan"):       # what an untracked slot itself records is not specified
                    for k in ATTR:
                        if k in a:
                            a[k] = np.where(live, a[k], 0)
                            s[k] = np.where(live, s[k], 0)
                e = compare(a, s, ga, gs, live)
                if e:
                    ctx.violation(f"slots:{e[0]}:{dim}d", f"{case}: {e[1]}", case)
                    return
    ctx.sample(case)


def runs(ctx, dim, n, npatch, per, steps, count, part, size=1):
    """every subset of the inner stages carrying a callback gives the run without any"""
    boot()
    d = (0.1e-6, 0.07e-6, 0.08e-6)[:dim]
    w, ref = m07.simulate(dim, n, d, npatch, per, size, None, steps, count, 2)
    if not w.ok():
        ctx.violation(f"run:{dim}d", w.report(), dict(dim=dim))
        return
    subs = [c for k in range(1, len(STAGES) + 1) for c in itertools.combinations(STAGES, k)]
    for sub in subs[part[0]::part[1]]:
        case = dict(dim=dim, npatch=npatch, per=per, stages=sub, size=size)
        ctx.case(case)
        ctx.state(case)
        w, tr = m07.simulate(dim, n, d, npatch, per, size, None, steps, count, 2, staged=sub)
        ctx.add("traces")
        ctx.add("transitions", steps)
        if not w.ok():
            ctx.violation(f"run:{dim}d", w.report(), case)
            return
        e = m07.differ(n, d, per, ref, tr)
        if e:
            ctx.violation(f"stages:{e[1]}:{dim}d", f"{case}: {e[0]}", case)
            return
    ctx.sample(case)


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    mags = (0.05, 1.0, 30.0, 300.0)
    fr = pb_FR if big else pb_FR[::2] + (0.5,)
    for k, sp in enumerate(("e", "p", "x", "n")):
        J.append((f"single2d-{sp}", single, dict(dim=2, cells=(-1, 0, 1, 3, 7, 8) if big else (-1, 0, 4, 8), fracs=fr if big or k == 0 else (0.0, 0.5, -0.3), mags=mags, fields=("zero", "weak", "strong", "ultra") if big else ("zero", "strong", "ultra"), species=(sp,))))
        J.append((f"single3d-{sp}", single, dict(dim=3, cells=(-1, 0, 4, 8), fracs=fr[::2] if big else (0.25, -0.5), mags=mags[1:] if not big else mags, fields=("zero", "strong", "ultra") if big else ("strong",), species=(sp,))))
    for dim in (2, 3):
        J.append((f"slots{dim}d", slots, dict(dim=dim, sizes=(0, 1, 2, 255, 256, 257, 513) if big else (1, 257, 513))))
    for k in range(2):
        J.append((f"runs2d-{k}", runs, dict(dim=2, n=(12, 12), npatch=(2, 2), per="pp", steps=3 if not big else 8, count=30, part=(k, 2))))
        J.append((f"runs3d-{k}", runs, dict(dim=3, n=(8, 8, 8), npatch=(2, 1, 2), per="ppo" if k else "ppp", steps=2 if not big else 5, count=20, part=(k, 4 if not big else 2))))
    J.append(("runs2d-open", runs, dict(dim=2, n=(16, 16), npatch=(2, 2), per="oo", steps=3, count=30, part=(0, 4 if not big else 1))))
    J.append(("runs2d-mpi", runs, dict(dim=2, n=(12, 12), npatch=(2, 2), per="pp", steps=3, count=30, part=(0, 8 if not big else 2), size=2)))
    return J


pb_FR = (0.0, 1e-9, 0.125, 0.25, 0.49999999999, 0.5, -0.5, -0.49999999999, -0.3, -0.125, -1e-9)
COVERAGE = "see NOTE"
