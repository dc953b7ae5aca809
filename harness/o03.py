"""O03: particles written out and read back are the same particles."""
import itertools
import os

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive exploration of save/load pairs on the real code: every pair of layouts, ownerships and species of small domains, every live/dead pattern, every position of an alphabet around the patch faces, saved and loaded on simulated processes with real files; loaded particles are compared one by one and continued"
NOTE = "2D and 3D, 1-3 processes on either side, all species positions in the list (charged, photon, QED), files written by hand with any subset of attributes, batches, repeated loads, particles within ulps of every face; the continuation is compared with the same particles set directly."
ASSUMPTIONS = ["MPI is simulated", "particle ids are given anew", "positions outside of the domain (or in absorbing layers) are not kept"]
COVERAGE = "every pair of layouts listed, every attribute subset, every face with its neighbouring floating-point numbers"

D = (0.1e-6, 0.07e-6, 0.08e-6)
VAL = ("x", "y", "z", "ux", "uy", "uz", "w")


def boot():
    global lp, simmpi, o01, utils, hdf5, h5proc
    from harness import o01 as O
    O.boot()
    from lambdapic.callback import utils as U
    o01, lp, simmpi, utils, hdf5, h5proc = O, O.lp, O.simmpi, U, O.hdf5, O.h5proc


def species_list(kind, dim):
    from lambdapic import Electron, Photon, Positron, Proton
    out = []
    for i, c in enumerate(kind):
        one = dict(name=f"s{i}", density=lp.uniform_density(dim, 1.0) if c.isupper() else None, ppc=2 if c.isupper() else 0)
        if not c.isupper():
            one = dict(name=f"s{i}")
        out.append({"e": Electron, "p": Proton, "g": Photon, "a": Positron}[c.lower()](**one))
    return out


def build(dim, n, npatch, size, own, kind, per=None, d=None):
    def b(r):
        sim = lp.make_sim(dim, n, npatch, per or "p" * dim, d=d or D[:dim], species=species_list(kind, dim))
        sim.initialize()
        return sim
    sims, w = lp.world_sims(simmpi, size, b, ranks=own if size > 1 else None)
    if not w.ok():
        raise RuntimeError(w.report())
    return sims, w


def photon(sp):
    return sp.m == 0


def alive(sims, ispec, dim):
    """weight -> list of (values, inverse gamma, home patch)"""
    out = {}
    ax = [a for a in VAL if not (a == "z" and dim == 2)]
    for sim in sims:
        for p in sim.patches:
            q = p.particles[ispec]
            for i in np.flatnonzero(~q.is_dead):
                out.setdefault(float(q.w[i]), []).append((tuple(float(getattr(q, a)[i]) for a in ax), float(q.inv_gamma[i]), lp.ipatch_of(sim, p)))
    return out


def homes(sims, x, dim):
    """patches holding the position, faces belong (within rounding) to either"""
    out = set()
    for sim in sims:
        for p in sim.patches:
            ok = True
            for a, v in zip("xyz"[:dim], x):
                h = getattr(p, "d" + a)
                lo, hi = getattr(p, a + "min") - h / 2, getattr(p, a + "max") + h / 2
                if not lo - 1e-9 * h <= v <= hi + 1e-9 * h:
                    ok = False
            if ok:
                out.add(lp.ipatch_of(sim, p))
    return out


def check(ctx, key, case, sims, ispec, dim, want, extra=()):
    """want: {weight: values}; extra: the state before, to be kept"""
    got = alive(sims, ispec, dim)
    ax = [a for a in VAL if not (a == "z" and dim == 2)]
    m0 = photon(sims[0].species[ispec])
    for w, v in want.items():
        g = got.pop(w, [])
        if len(g) != 1:
            ctx.violation(f"{'lost' if not g else 'twice'}:{key}", f"{case}: the particle {dict(zip(ax, v))} is there {len(g)} times{' in ' + str([x[2] for x in g]) if g else ''}", case)
            return False
        (x, ig, home), = g
        if x != v:
            ctx.violation(f"value:{key}", f"{case}: {dict(zip(ax, x))} instead of {dict(zip(ax, v))}", case)
            return False
        u2 = sum(x[ax.index(a)] ** 2 for a in ("ux", "uy", "uz"))
        if m0 and u2 == 0:
            pass
        elif not abs(ig * np.sqrt(u2 + (0 if m0 else 1)) - 1) < 1e-12:
            ctx.violation(f"gamma:{key}", f"{case}: inverse gamma {ig} of momentum {x[-4:-1]}", case)
            return False
        if home not in homes(sims, x, dim):
            ctx.violation(f"home:{key}", f"{case}: the particle at {x[:dim]} is in patch {home} instead of {homes(sims, x, dim)}", case)
            return False
    if got != dict(extra):
        ctx.violation(f"other:{key}", f"{case}: {len(got)} other particles in the species instead of {len(dict(extra))}", case)
        return False
    return True


def spread(dim, n, count, seed, d=None, umax=3.0):
    return lp.plasma(dim, n, d or D, count, seed=seed, umax=umax, wbase=1e-6)


def place(sims, ispec, parts, dim, kill="third"):
    """put particles with dead slots of rubbish in between"""
    ax = "xyz"[:dim]
    by = {}
    for q in parts:
        by.setdefault(lp.home_patch(sims[0], [q[a] for a in ax]), []).append(q)
    for sim in sims:
        for p in sim.patches:
            mine = by.get(lp.ipatch_of(sim, p), [])
            q = p.particles[ispec]
            if q.npart < 2 * len(mine) + 3:
                q.extend(2 * len(mine) + 3 - q.npart)
            q.is_dead[:] = True
            for a in q.attrs:
                if a != "_id":
                    getattr(q, a)[:] = np.nan
            for i, m in enumerate(mine):
                k = {"third": 2 * i + 1, "front": i, "back": q.npart - 1 - i}[kill]
                for a in VAL:
                    if a in m:
                        getattr(q, a)[k] = m[a]
                g = np.sqrt((0 if photon(sim.species[ispec]) else 1) + sum(m[a] ** 2 for a in ("ux", "uy", "uz")))
                q.inv_gamma[k] = 1 / g
                q.is_dead[k] = False
        sim.update_lists()


def wanted(parts, dim):
    ax = [a for a in VAL if not (a == "z" and dim == 2)]
    return {float(q["w"]): tuple(float(q.get(a, 0.0)) for a in ax) for q in parts}


def load(size, w0, sims, ispec, path, mode="eager", rr=False, steps=0, **kw):
    w = o01.again(size, w0, mode, simmpi.Chooser(rr=rr))

    def body(r):
        sims[r].run(nsteps=steps, callbacks=[utils.LoadParticles(sims[r].species[ispec], path, **kw)])
    w.run(body)
    return w


def pairs(ctx, dim, sizes, grids, kinds, parts_n, part=(0, 1)):
    """save in one layout, load in another"""
    boot()
    n = (8, 12) if dim == 2 else (8, 6, 6)
    lay = []
    for size in sizes:
        for g in grids:
            k = int(np.prod(g))
            if k >= size:
                lay.append((size, g, None if size == 1 else [i * size // k for i in range(k)]))
                if size > 1:
                    lay.append((size, g, [(i * 7 + 1) % size for i in range(k)]))
    lay = [x for x in lay if x[2] is None or len(set(x[2])) == x[0]]
    num = -1
    with o01.Dir() as d:
        for kind, ispec in [(k, i) for k in kinds for i in range(len(k))]:
            for src in lay:
                num += 1
                if num % part[1] != part[0]:
                    continue
                parts = spread(dim, n, parts_n, seed=num + 1)
                sims, w0 = build(dim, n, src[1], src[0], src[2], kind)
                place(sims, ispec, parts, dim, ("third", "front", "back")[num % 3])
                with h5proc.Hub(src[0]) as hub:
                    w = o01.again(src[0], w0)
                    attrs = [None, ["x", "y", "z", "ux", "uy", "uz", "w"], ["inv_gamma", "w", "uz", "uy", "ux", "z", "y", "x", "ex_part"]][num % 3]
                    w.run(lambda r: hdf5.SaveParticlesToHDF5(sims[r].species[ispec], d, interval=1, attrs=attrs and list(attrs))(sims[r]))
                    hub.close()
                if not w.ok():
                    raise RuntimeError(w.report())
                path = os.path.join(d, f"{sims[0].species[ispec].name}_particles_000000.h5")
                for j, dst in enumerate(lay):
                    # in the other simulation the species is at another place of the list
                    kind2, ispec2 = ((kind, ispec), (kind[ispec] + "pg", 0), ("ga" + kind[ispec], 2), ("E" + kind[ispec].upper(), 1))[(num + j) % 4]
                    case = dict(dim=dim, species=kind, ispec=ispec, saved=src, loaded=dst, into=kind2, ispec2=ispec2)
                    ctx.case(case)
                    ctx.add("transitions")
                    sims2, w2 = build(dim, n, dst[1], dst[0], dst[2], kind2)
                    before = alive(sims2, ispec2, dim)
                    w2 = load(dst[0], w2, sims2, ispec2, path if j % 2 else __import__("pathlib").Path(path), list(simmpi.MODES)[j % len(simmpi.MODES)], j % 2 == 0)
                    if not w2.ok():
                        ctx.violation(f"raise:pair{dim}d", f"{case}: {w2.report()}", case)
                        return
                    if not check(ctx, f"pair{dim}d", case, sims2, ispec2, dim, wanted(parts, dim), before):
                        return
                    ids = [int(i) for s in sims2 for p in s.patches for i in p.particles[ispec2].id[~p.particles[ispec2].is_dead]]
                    if len(set(ids)) != len(ids):
                        ctx.violation(f"id:pair{dim}d", f"{case}: two particles with the same id", case)
                        return
                    ctx.state((dim, kind, ispec, str(src), str(dst)))


def write(path, data):
    with h5proc._real(path, "w") as f:
        for k, v in data.items():
            f.create_dataset(k, data=v)


def byhand(ctx, dim):
    """files with any subset of the attributes"""
    boot()
    n = (8, 12) if dim == 2 else (8, 6, 6)
    npatch = (2, 2) if dim == 2 else (2, 1, 2)
    req = list("xyz"[:dim]) + ["w"]
    opt = ["ux", "uy", "uz"]
    with o01.Dir() as d:
        path = os.path.join(d, "p.h5")
        for num, sub in enumerate(itertools.chain.from_iterable(itertools.combinations(opt, k) for k in range(4))):
            for kind, ispec in (("e", 0), ("ge", 1), ("g", 0), ("Ee", 1), ("E", 0)):
                for junk in (False, True):
                    parts = spread(dim, n, 12, seed=num + 3)
                    case = dict(dim=dim, attrs=req + list(sub), species=kind, ispec=ispec, junk=junk)
                    ctx.case(case)
                    ctx.add("transitions")
                    data = {a: np.array([q[a] for q in parts]) for a in req + list(sub)}
                    if junk:
                        data.update(id=np.arange(12, dtype="u8"), _id=np.arange(12.0), inv_gamma=np.full(12, 7.0), foo=np.ones(12), is_dead=np.ones(12, bool), npart=np.ones(3), chi=np.full(12, np.nan))
                    write(path, data)
                    sims, w0 = build(dim, n, npatch, 1, None, kind)
                    before = alive(sims, ispec, dim)
                    w = load(1, w0, sims, ispec, path)
                    if not w.ok():
                        ctx.violation(f"raise:byhand{dim}d", f"{case}: {w.report()}", case)
                        return
                    for q in parts:
                        for a in opt:
                            if a not in sub:
                                q[a] = 0.0
                    if not check(ctx, f"byhand{dim}d", case, sims, ispec, dim, wanted(parts, dim), before):
                        return
                    # and the step after it is finite
                    if kind == "e" and not junk:
                        w = load(1, w0, sims, ispec, path, steps=1, interval=lambda sim: False)
                        got = alive(sims, ispec, dim)
                        if not w.ok() or len(got) != 12 or not all(np.isfinite(x).all() for g in got.values() for x, _, _ in g):
                            ctx.violation(f"step:byhand{dim}d", f"{case}: after a step {len(got)} particles, {list(got.values())[:2]} {w.report()}", case)
                            return
                    ctx.state((dim, sub, kind, junk))
        for miss in req:
            case = dict(dim=dim, missing=miss)
            ctx.case(case)
            write(path, {a: np.ones(3) * 1e-7 for a in req if a != miss})
            sims, w0 = build(dim, n, npatch, 1, None, "e")
            w = load(1, w0, sims, 0, path)
            if w.ok() and (miss == "w" or alive(sims, 0, dim)):
                ctx.violation(f"accept:byhand{dim}d", f"{case}: a file without {miss} is accepted", case)
                return


def ulps(v, k):
    out = [v]
    lo = hi = v
    for _ in range(k):
        lo, hi = np.nextafter(lo, -np.inf), np.nextafter(hi, np.inf)
        out += [lo, hi]
    return out


def faces(ctx, dim, spacings, grids, per, size):
    """particles on and within ulps of every face"""
    boot()
    with o01.Dir() as d:
        path = os.path.join(d, "p.h5")
        for h, npatch in itertools.product(spacings, grids):
            nper = (8, 8, 8)[:dim]
            n = tuple(a * b for a, b in zip(nper, npatch))
            dd = tuple(h * f for f in (1.0, 0.7, 0.9)[:dim])
            k = int(np.prod(npatch))
            own = [i % size for i in range(k)]
            if len(set(own)) < size or not lp.pml_ok(dim, npatch, per, nper, 6):
                continue
            sims, w0 = build(dim, n, npatch, size, own if size > 1 else None, "e", per=per, d=dd)
            # every face as each side computes it
            axes = []
            lohi = []
            for a, hh in zip("xyz"[:dim], dd):
                ps = [p for s in sims for p in s.patches]
                lo = min(getattr(p, a + "min") - hh / 2 for p in ps)
                hi = max(getattr(p, a + "max") + hh / 2 for p in ps)
                v = set()
                for p in ps:
                    for f in (getattr(p, a + "min") - hh / 2, getattr(p, a + "max") + hh / 2):
                        v |= set(ulps(f, 2))
                # inside the domain; its upper face belongs to it, as in a running simulation
                axes.append(sorted(float(x) for x in v if lo <= x <= hi))
                lohi.append((lo, hi))
            mid = [0.5 * (a + b) for a, b in lohi]
            pts = set()
            for i in range(dim):
                for v in axes[i]:
                    for o in range(dim):
                        if o != i:
                            for v2 in axes[o][::3]:
                                q = list(mid)
                                q[i], q[o] = v, v2
                                pts.add(tuple(q))
                    q = list(mid)
                    q[i] = v
                    pts.add(tuple(q))
            pts = sorted(pts)
            parts = [dict(zip("xyz", q), ux=0.1, uy=-0.2, uz=0.3, w=1e-6 * (1 + i / 1024.0)) for i, q in enumerate(pts)]
            write(path, {a: np.array([q[a] for q in parts]) for a in list("xyz"[:dim]) + ["ux", "uy", "uz", "w"]})
            case = dict(dim=dim, d=dd, npatch=npatch, per=per, size=size, particles=len(parts))
            ctx.case(case)
            ctx.add("transitions", len(parts))
            w = load(size, w0, sims, 0, path)
            if not w.ok():
                ctx.violation(f"raise:face{dim}d", f"{case}: {w.report()}", case)
                return
            if not check(ctx, f"face{dim}d", case, sims, 0, dim, wanted(parts, dim)):
                return
            ctx.state((dim, dd, npatch, per, size))


def batches(ctx, counts, size):
    """files longer than one batch"""
    boot()
    n = (8, 12)
    with o01.Dir() as d:
        path = os.path.join(d, "p.h5")
        for c in counts:
            parts = spread(2, n, c, seed=5)
            for i, q in enumerate(parts):
                q["w"] = 1.0 + i
            write(path, {a: np.array([q[a] for q in parts]) for a in ["x", "y", "ux", "uy", "uz", "w"]})
            case = dict(count=c, size=size)
            ctx.case(case)
            ctx.add("transitions", c)
            sims, w0 = build(2, n, (2, 2), size, [i % size for i in range(4)], "e")
            w = load(size, w0, sims, 0, path)
            if not w.ok():
                ctx.violation("raise:batch", f"{case}: {w.report()}", case)
                return
            if not check(ctx, "batch", case, sims, 0, 2, wanted(parts, 2)):
                return
            ctx.state((c, size))


def continued(ctx, dim, size, kind, ispec, steps):
    """the run after loading is the run after setting the same particles"""
    boot()
    n = (8, 12) if dim == 2 else (8, 6, 6)
    npatch = (2, 2) if dim == 2 else (2, 1, 2)
    k = int(np.prod(npatch))
    parts = spread(dim, n, 20, seed=9, umax=2.0)
    for q in parts:
        q["w"] *= 1e17
        if "z" not in q:
            q["z"] = 0.0
    own = [i % size for i in range(k)]
    with o01.Dir() as d:
        path = os.path.join(d, "p.h5")
        write(path, {a: np.array([q[a] for q in parts]) for a in list("xyz"[:dim]) + ["ux", "uy", "uz", "w"]})
        end = []
        for how in ("set", "load", "load-late"):
            case = dict(dim=dim, size=size, species=kind, ispec=ispec, how=how)
            ctx.case(case)
            sims, w0 = build(dim, n, npatch, size, own if size > 1 else None, kind)
            if how == "set":
                place(sims, ispec, parts, dim, "front")
                w = o01.again(size, w0)
                w.run(lambda r: sims[r].run(nsteps=steps))
            else:
                w = o01.again(size, w0)

                def body(r):
                    cb = utils.LoadParticles(sims[r].species[ispec], path)
                    if how == "load-late":
                        # initialised and stepped with nothing before
                        sims[r].itime, sims[r].time = sims[r].itime, sims[r].time
                        sims[r].run(nsteps=0)
                    sims[r].run(nsteps=steps, callbacks=[cb])
                w.run(body)
            if not w.ok():
                ctx.violation(f"raise:continued{dim}d", f"{case}: {w.report()}", case)
                return
            st = alive(sims, ispec, dim)
            fl = [lp.gather_field(sims, f) for f in ("ex", "ey", "ez", "bx", "by", "bz", "rho", "jx")]
            end.append((st, fl))
            ctx.state((dim, size, kind, how))
            if how != "set":
                a, b = end[0], end[-1]
                bad = set(a[0]) ^ set(b[0])
                worst = 0.0 if bad else max(np.max(np.abs((np.array(a[0][w][0][0]) - np.array(b[0][w][0][0])) / (np.abs(np.array(a[0][w][0][0])) + 1e-6 * np.array([1.0] * dim + [1e6] * 3 + [1])))) for w in a[0])
                f = max(lp.maxrel(x, y) for x, y in zip(a[1], b[1]))
                if bad or not worst < 1e-9 or not f < 1e-9:
                    ctx.violation(f"differs:continued{dim}d", f"{case}: after {steps} steps {len(bad)} particles missing or new, momenta/positions off by {worst}, fields by {f}", case)
                    return


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    g2 = [(1, 1), (2, 1), (2, 2), (1, 4)] if q else [(1, 1), (2, 1), (1, 2), (2, 2), (1, 4), (2, 3)]
    K = ["e", "gep"] if q else ["e", "gep", "pa", "ga"]
    P = 3 if q else 6
    for k in range(P):
        out.append((f"pairs2-{k}", pairs, dict(dim=2, sizes=[1, 2] if q else [1, 2, 3], grids=g2, kinds=K, parts_n=17, part=(k, P))))
    for k in range(2):
        out.append((f"pairs3-{k}", pairs, dict(dim=3, sizes=[1, 2] if q else [1, 2, 3], grids=[(2, 1, 1)] if q else [(2, 1, 1), (1, 1, 2), (2, 1, 2)], kinds=["e", "gp"] if q else K, parts_n=17, part=(k, 2))))
    out.append(("byhand2", byhand, dict(dim=2)))
    out.append(("byhand3", byhand, dict(dim=3)))
    hs = [1e-7, 1e-7 / 3, 0.7e-7, 1.1e-6] if q else [1e-7 * f for f in (1, 1 / 3, 0.1, 0.7, 1.1, 2.3, 0.013, 7.7, 1 / 7)]
    for i, (h, per) in enumerate(itertools.product(hs, ("pp", "op", "oo"))):
        out.append((f"faces2-{i}", faces, dict(dim=2, spacings=[h], grids=[(1, 1), (2, 3), (3, 2), (5, 2), (7, 3)][:(4 if q else 5)], per=per, size=1 + i % 2)))
    out.append(("faces3", faces, dict(dim=3, spacings=hs[:1] if q else hs, grids=[(2, 3, 2)] if q else [(2, 3, 2), (3, 2, 2)], per="ppp", size=2)))
    out.append(("batches", batches, dict(counts=[1, 10000, 20001] if q else [0, 1, 9999, 10000, 10001, 20000, 30001], size=2)))
    for i, (dim, size, kind, ispec) in enumerate([(2, 1, "e", 0), (2, 2, "pe", 1), (3, 2, "e", 0), (2, 2, "ge", 1), (2, 1, "g", 0), (3, 1, "gp", 0)]):
        out.append((f"continued-{i}", continued, dict(dim=dim, size=size, kind=kind, ispec=ispec, steps=3 if q else 8)))
    return out
