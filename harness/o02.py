"""O02: global gathers return the true global array on any layout."""
import itertools
import os

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "stateless model checking of the real gathers on simulated processes: every layout, ownership, slice position and component of small domains, every order of message arrival and process schedule up to a preemption bound, compared cell by cell with the array assembled from the patches"
NOTE = "get_fields in 2D and 3D (every plane and positions inside its cell, several cell sizes), ExtractSpeciesDensity with and without slices during runs, irregular domains; 1-3 processes, five message-passing semantics, schedules up to 2 preemptions."
ASSUMPTIONS = ["MPI is simulated", "densities of charged species"]
COVERAGE = "every layout, ownership and slice menu listed, every schedule within the preemption bound"


def boot():
    global lp, simmpi, o01, utils
    from harness import o01 as O
    O.boot()
    from lambdapic.callback import utils as U
    o01, lp, simmpi, utils = O, O.lp, O.simmpi, U


def build(dim, n, npatch, size, own, d, species=(), mask=None, per=None):
    def b(r):
        if mask is None:
            sim = lp.make_sim(dim, n, npatch, per or "p" * dim, d=d, species=species)
        else:
            sim = o01.mask_sim(n, npatch, mask, d)
        sim.initialize()
        return sim
    sims, w = lp.world_sims(simmpi, size, b, ranks=own if size > 1 else None)
    if not w.ok():
        raise RuntimeError(w.report())
    return sims, w


def same(ctx, key, case, got, want, field):
    if got is None or np.shape(got) != want.shape:
        ctx.violation(f"shape:{key}", f"{case}: {field}: {None if got is None else np.shape(got)} instead of {want.shape}", case)
        return False
    bad = ~((got == want) | (np.isnan(got) & np.isnan(want)))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        ctx.violation(f"value:{key}", f"{case}: {field}{list(i)} is {got[i]!r} instead of {want[i]!r} ({int(bad.sum())} of {bad.size} cells differ)", case)
        return False
    return True


def owners_of(k, size, most):
    o = [list(r) for r in itertools.product(range(size), repeat=k) if len(set(r)) == size]
    if len(o) > most:
        o = [o[int(i * len(o) / most)] for i in range(most)]
    return o


LISTS = (["ex"], ["rho", "bz", "rho"], list("") + ["ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho"])


def layouts2(ctx, sizes, grids, most, masks=False):
    boot()
    modes = list(simmpi.MODES)
    for size in sizes:
        for npatch in grids:
            n = (npatch[0] * 7, npatch[1] * 7) if masks else (8, 12)
            menu = o01.all_masks(npatch) if masks else [None]
            for mask in menu:
                k = int(np.prod(npatch)) if mask is None else sum(mask)
                if k < size:
                    continue
                for num, own in enumerate(owners_of(k, size, most)):
                    sims, w0 = build(2, n, npatch, size, own, (0.1e-6, 0.07e-6), mask=mask)
                    for s in sims:
                        o01.fill(s)
                    for j, fl in enumerate(LISTS):
                        for mode in ([modes[(num + j) % len(modes)]] if masks else modes):
                            for rr in (False, True):
                                case = dict(npatch=npatch, size=size, owners=own, fields=fl, mode=mode, rr=rr, mask=mask)
                                ctx.case(case)
                                ctx.add("transitions")
                                w = o01.again(size, w0, mode, simmpi.Chooser(rr=rr, order=None if j % 2 else list(range(size))[::-1]))
                                w.run(lambda r: utils.get_fields(sims[r], fl))
                                key = "fields2d" + (":mask" if masks else "")
                                if not w.ok():
                                    ctx.violation(f"raise:{key}", f"{case}: {w.report()}", case)
                                    return
                                for f, g in zip(fl, w.results[0]):
                                    if not same(ctx, key, case, g, o01.truth(sims[0], f, mask, npatch), f):
                                        return
                                if any(x is not None for r in w.results[1:] for x in r) or len(w.results[0]) != len(fl):
                                    ctx.violation(f"others:{key}", f"{case}: another process than 0 got data", case)
                                    return
                    ctx.state((npatch, size, tuple(own), mask))


def layouts3(ctx, sizes, cfgs, most, offs):
    boot()
    modes = list(simmpi.MODES)
    for size, (n, npatch, dz) in itertools.product(sizes, cfgs):
        k = int(np.prod(npatch))
        if k < size:
            continue
        for num, own in enumerate(owners_of(k, size, most)):
            sims, w0 = build(3, n, npatch, size, own, (0.1e-6, 0.07e-6, dz))
            for s in sims:
                o01.fill(s)
            s0 = sims[0]
            pos = [(None, {n[2] // 2} if n[2] % 2 == 0 else {n[2] // 2, n[2] // 2 + 1})]
            for iz in range(n[2]):
                for o in offs:
                    x = (iz + o) * dz
                    if 0 <= x <= s0.Lz:
                        # half way between two planes either is right, and the domain ends at the last plane
                        pos.append((x, {iz} if abs(o) < 0.5 else {iz, min(max(iz + (1 if o > 0 else -1), 0), n[2] - 1)}))
            pos.append((s0.Lz, {n[2] - 1, 0}))
            pos += [((n[2] // npatch[2]) * i * dz, {(n[2] // npatch[2]) * i}) for i in range(npatch[2])]
            pos += [(p.zmin, {p.ipatch_z * (n[2] // npatch[2])}) for s in sims for p in s.patches]
            pos += [(p.zmax, {(p.ipatch_z + 1) * (n[2] // npatch[2]) - 1}) for s in sims for p in s.patches]
            for j, (x, planes) in enumerate(pos):
                fl = LISTS[j % 2]
                mode = modes[(num + j) % len(modes)]
                case = dict(n=n, npatch=npatch, size=size, owners=own, dz=dz, slice_at=x, fields=fl, mode=mode)
                ctx.case(case)
                ctx.add("transitions")
                w = o01.again(size, w0, mode, simmpi.Chooser(rr=j % 2 == 0))
                w.run(lambda r: utils.get_fields(sims[r], fl, x) if x is not None else utils.get_fields(sims[r], fl))
                if not w.ok():
                    ctx.violation("raise:fields3d", f"{case}: {w.report()}", case)
                    return
                for f, g in zip(fl, w.results[0]):
                    t = o01.truth(s0, f)
                    if any(g is not None and g.shape == n[:2] and (g == t[:, :, p]).all() for p in planes):
                        continue
                    if not same(ctx, "fields3d", case, g, t[:, :, min(planes)], f):
                        return
                ctx.state((n, npatch, size, tuple(own), dz, x))
            for x in (-0.6 * dz, s0.Lz + 0.6 * dz):
                w = o01.again(size, w0)
                w.run(lambda r: utils.get_fields(sims[r], ["ex"], x))
                if w.ok():
                    ctx.violation("accept:fields3d", f"slice_at={x} outside of the domain is accepted", dict(x=x))
                    return


def schedules(ctx, dim, size, npatch, own, bound, what="fields"):
    boot()
    n = (8, 8) if dim == 2 else (4, 6, 6)
    sims, w0 = build(dim, n, npatch, size, own, o01.D[:dim])
    for s in sims:
        o01.fill(s)
    fl = ["ex", "rho"]
    for mode in simmpi.MODES:
        def execute(ch):
            case = dict(dim=dim, size=size, npatch=npatch, owners=own, mode=mode, schedule=list(ch.prefix))
            ctx.case(case)
            w = o01.again(size, w0, mode, ch)
            w.run(lambda r: utils.get_fields(sims[r], fl))
            ctx.add("transitions", len(ch.trace))
            ctx.state((mode, tuple(t[1] for t in ch.trace)))
            if not w.ok():
                ctx.violation(f"raise:schedule{dim}d", f"{case}: {w.report()}", case)
                return True
            for f, g in zip(fl, w.results[0]):
                t = o01.truth(sims[0], f)
                if not same(ctx, f"schedule{dim}d", case, g, t if dim == 2 else t[:, :, n[2] // 2], f):
                    return True
            return False
        k, complete = simmpi.enumerate_schedules(execute, bound, delays=size > 2)
        if ctx.violations:
            return
        assert complete


def density(ctx, dim, sizes, nsteps, lists, part=(0, 1)):
    """extracted densities at every due step against a run of that species alone"""
    boot()
    R = o01.DensityRuns(dim, nsteps)
    num = -1
    for size in sizes:
        for kind, own, saved in itertools.product(lists, owners_of(R.k, size, 4), ("each", "last", "first")):
            num += 1
            if num % part[1] != part[0]:
                continue
            charged = [i for i, c in enumerate(kind) if c != "g"]
            which = {"each": charged, "last": charged[-1:], "first": charged[:1]}[saved]
            m = o01.menu(dim)
            for slc in (m if num % 3 == 0 else [m[num % len(m)]]):
                case = dict(dim=dim, size=size, owners=own, species=kind, extracted=which, slice=repr(slc), steps=nsteps)
                ctx.case(case)
                mode = list(simmpi.MODES)[num % len(simmpi.MODES)]
                got = {}

                def callbacks(sim, r):
                    from lambdapic import callback as cbk
                    ex = [utils.ExtractSpeciesDensity(sim, sim.species[i], interval=1 if i % 2 == 0 else 2, slice=slc) for i in which]

                    @cbk(stage="end", interval=1)
                    def grab(s):
                        for i, e in zip(which, ex):
                            got[(r, i, s.itime)] = e.density.copy()
                    return ex + [grab]
                sims, w = R.go(kind, size, own, callbacks, mode, simmpi.Chooser(rr=num % 2 == 0))
                key = f"density{dim}d"
                if not w.ok():
                    ctx.violation(f"raise:{key}", f"{case}: {w.report()}", case)
                    return
                for (r, i, t), g in sorted(got.items()):
                    last = t if i % 2 == 0 else t - t % 2
                    want = R.reference(kind[i])[last]
                    if slc:
                        want = want[o01.keepdims(slc, R.n)]
                    ctx.add("transitions")
                    if r:
                        want = np.zeros(want.shape)
                    if g.shape != want.shape or np.max(np.abs(g - want)) > 1e-9 * np.max(np.abs(R.reference(kind[i])[last])):
                        at = "" if g.shape != want.shape else f" at {[int(x) for x in np.unravel_index(np.argmax(np.abs(g - want)), g.shape)]}: {g.flat[np.argmax(np.abs(g - want))]} instead of {want.flat[np.argmax(np.abs(g - want))]}"
                        ctx.violation(f"value:{key}" + (":sliced" if slc else ""), f"{case}: species {i} at step {t} on process {r}: shape {g.shape}, {want.shape} wanted;{at}", case)
                        return
                ctx.state((dim, size, tuple(own), kind, saved, repr(slc)))


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    g2 = [(1, 1), (2, 1), (1, 2), (2, 2), (1, 4), (2, 3)]
    for s in (1, 2, 3):
        out.append((f"fields2-{s}", layouts2, dict(sizes=[s], grids=g2, most=8 if q else 64)))
    out.append(("mask", layouts2, dict(sizes=[1, 2] if q else [1, 2, 3], grids=[(4, 4)], most=2 if q else 12, masks=True)))
    offs = (-0.5, -0.499, 0.0, 0.25, 0.499, 0.5) if q else (-0.5, -0.4999, -0.3, -0.1, 0.0, 0.1, 0.3, 0.4999, 0.5)
    cf = [((4, 4, 6), (1, 1, 1), 0.08e-6), ((4, 4, 6), (2, 1, 2), 0.1e-6), ((8, 4, 12), (2, 1, 3), 0.03e-6 / 7), ((4, 4, 5), (1, 1, 1), 1e-7), ((4, 8, 9), (1, 2, 3), 0.7e-7)]
    for s in (1, 2, 3):
        out.append((f"fields3-{s}", layouts3, dict(sizes=[s], cfgs=cf, most=3 if q else 30, offs=offs)))
    out.append(("dz", layouts3, dict(sizes=[1], cfgs=[((4, 4, nz), (1, 1, k), dz * 1e-7) for nz, k in ((8, 2), (12, 3), (24, 6)) for dz in (1.0, 0.1, 0.3, 0.7, 1 / 3, 1.1, 2.3)], most=1, offs=(0.0,))))
    out.append(("sched2", schedules, dict(dim=2, size=2, npatch=(2, 2), own=[0, 1, 1, 0], bound=2 if q else 4)))
    out.append(("sched3", schedules, dict(dim=3, size=2, npatch=(2, 1, 2), own=[0, 1, 1, 0], bound=2 if q else 4)))
    out.append(("sched2-3", schedules, dict(dim=2, size=3, npatch=(2, 2), own=[1, 0, 2, 1], bound=1 if q else 2)))
    L = ["ep", "gep", "efp", "pge"]
    for k in range(3):
        out.append((f"density2-{k}", density, dict(dim=2, sizes=[1, 2] if q else [1, 2, 3], nsteps=3, lists=L, part=(k, 3))))
    for k in range(1 if q else 3):
        out.append((f"density3-{k}", density, dict(dim=3, sizes=[1, 2] if q else [1, 2, 3], nsteps=2, lists=L[:2] if q else L, part=(k, 2 if q else 3))))
    return out
