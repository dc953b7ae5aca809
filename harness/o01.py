"""O01: output files equal the data in memory for any layout and schedule."""
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "stateless model checking of the real output callbacks: every simulated process performs its HDF5 operations in a real process of its own, and all interleavings of these operations (up to a preemption bound) and of the MPI operations are executed; the files are read back and compared with the memory cell by cell, over all layouts, ownerships, component sets and slices of small domains"
NOTE = "2D and 3D, 1-3 processes, all slices of an axis of 8 cells, all small layouts and ownerships, fields, densities and particles, repeated outputs over older files; interleavings of 2 writers up to 2 preemptions (3 when thorough), of 3 writers up to 1 delay (2); the collective (mpio) writer against an emulated collective file."
ASSUMPTIONS = ["MPI is simulated", "HDF5 operations of different processes interleave at call granularity, on a local file system", "mpio files are emulated (h5py here has no parallel HDF5)", "densities of charged species"]
COVERAGE = "every layout, slice and component menu listed; every interleaving of the file operations within the preemption bound"

UM = 1e-6
D = (0.1 * UM, 0.07 * UM, 0.08 * UM)
COMPS = ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho")


def boot():
    global lp, simmpi, h5proc, hdf5, h5py
    from vlib import simmpi as M
    M.install()
    import h5py
    from vlib import h5proc
    h5proc.install()
    from vlib import lp as L
    from lambdapic.callback import hdf5
    lp, simmpi = L, M


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="o01_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def value(k, g):
    """distinct value per component and global cell"""
    out = np.full(np.shape(g[0]), 1.0 + k)
    for i, a in enumerate(g):
        out = out + a / (7.0 ** (i + 1)) + (k + 1) * a * 0.01
    return out


def fill(sim, comps=COMPS):
    """interiors by global cell, guards garbage"""
    for p in sim.patches:
        g = np.meshgrid(*lp.global_index(sim, p), indexing="ij")
        for k, c in enumerate(comps):
            f = getattr(p.fields, c)
            f[...] = -777.0 - k
            m = lp.interior_mask(sim, p, f.shape)
            f[m] = value(k, g)[m]


def truth(sim, comp, mask=None, npatch=None):
    n = lp.cells(sim)[0]
    v = value(COMPS.index(comp), np.meshgrid(*[np.arange(k) for k in n], indexing="ij"))
    if mask is not None:
        for i, j in itertools.product(range(npatch[0]), range(npatch[1])):
            if not mask[i * npatch[1] + j]:
                a, b = n[0] // npatch[0], n[1] // npatch[1]
                v[i * a:(i + 1) * a, j * b:(j + 1) * b] = np.nan
    return v


def all_masks(npatch):
    """irregular domains made of blocks of 2 x 2 patches (a patch has an open face on at most one side of an axis)"""
    out = []
    for m in itertools.product((0, 1), repeat=(npatch[0] // 2) * (npatch[1] // 2)):
        if any(m):
            out.append(tuple(m[(i // 2) * (npatch[1] // 2) + j // 2] for i in range(npatch[0]) for j in range(npatch[1])))
    return out


def mask_sim(n, npatch, mask, d):
    from lambdapic.simulation._mask_simulation import _MaskSimulation
    L = [k * h for k, h in zip(n, d)]
    return _MaskSimulation(nx=n[0], ny=n[1], dx=d[0], dy=d[1], npatch_x=npatch[0], npatch_y=npatch[1], cpml_thickness=6, random_seed=3,
                           mask=lambda x, y: bool(mask[int(x / L[0] * npatch[0]) * npatch[1] + int(y / L[1] * npatch[1])]))


def read(path):
    with h5proc._real(path, "r") as f:
        return {k: f[k][()] for k in f.keys()}, dict(f.attrs)


def keepdims(s, dims):
    """the same selection with integers as slices of one"""
    s = s if isinstance(s, tuple) else (s,)
    return tuple(slice(i % n, i % n + 1) if isinstance(i, (int, np.integer)) else i for i, n in zip(s, dims))


def compare(ctx, key, case, path, want, attrs=None, tol=0.0):
    try:
        got, at = read(path)
    except Exception as e:      # noqa
        ctx.violation(f"file:{key}", f"{case}: the file cannot be read: {e}", case)
        return False
    if set(got) != set(want):
        ctx.violation(f"datasets:{key}", f"{case}: the file holds {sorted(got)} instead of {sorted(want)}", case)
        return False
    for k, w in want.items():
        g = got[k]
        if g.shape != w.shape:
            ctx.violation(f"shape:{key}", f"{case}: {k} has shape {g.shape} instead of {w.shape}", case)
            return False
        bad = ~(np.abs(g - w) <= tol * np.max(np.abs(w), initial=0.0)) if tol else ~((g == w) | (np.isnan(g) & np.isnan(w)))
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            ctx.violation(f"value:{key}", f"{case}: {k}{list(i)} is {g[i]!r} in the file, {w[i]!r} in memory ({int(bad.sum())} of {bad.size} cells differ)", case)
            return False
    for k, v in (attrs or {}).items():
        if k not in at or at[k] != v:
            ctx.violation(f"attr:{key}", f"{case}: attribute {k} is {at.get(k)!r} instead of {v!r}", case)
            return False
    return True


def attrs_of(sim, slc=None):
    a = {"time": sim.time, "itime": sim.itime}
    for x in "xyz"[:sim.dimension]:
        a["n" + x] = getattr(sim, "n" + x)
        a["d" + x] = getattr(sim, "d" + x)
        a["L" + x] = getattr(sim, "L" + x)
    return a


def build(dim, n, npatch, size=1, ranks=None, species=(), per=None, seed=7, mask=None):
    def b(r):
        sim = mask_sim(n, npatch, mask, D[:2]) if mask is not None else lp.make_sim(dim, n, npatch, per or "p" * dim, d=D[:dim], species=species, seed=seed)
        sim.initialize()
        return sim
    sims, w = lp.world_sims(simmpi, size, b, ranks=ranks)
    if not w.ok():
        raise RuntimeError(w.report())
    return sims, w


def again(size, w0, mode="eager", chooser=None):
    w = simmpi.World(size, simmpi.MODES[mode], chooser)
    w.ncomm, w.comms = w0.ncomm, dict(w0.comms)
    return w


# ------------------------------------------------------------------ slices, one process
def forms(n):
    out = [i for i in range(-n, n)]
    ends = [None] + list(range(-n - 1, n + 2))
    for a in ends:
        for b in ends:
            for s in (None, 1, 2, 3, n // 2, n + 1):
                out.append(slice(a, b, s))
    return out


def bad_forms(n):
    return [n, -n - 1, slice(0, n, 0), slice(None, None, -1), None, Ellipsis, 1.5, "x"]


def slices(ctx, dim, axis, part, parts, other):
    boot()
    n = (8, 12, 6)[:dim]
    npatch = (2, 3, 2)[:dim]
    (sim,), w0 = build(dim, n, npatch)
    fill(sim)
    full = truth(sim, "ey")
    menu = {"few": [slice(None), 3, slice(1, None, 3)], "all": [slice(None), -1, 4, slice(1, None, 3), slice(2, -2, 2), slice(5, 6)]}[other]
    with Dir() as d:
        todo = [(f, o) for f in forms(n[axis]) for o in itertools.product(menu, repeat=dim - 1)]
        if other == "few":
            todo = [t for i, t in enumerate(todo) if (i // len(menu) ** (dim - 1)) % len(menu) ** (dim - 1) == i % len(menu) ** (dim - 1)]
        for num, (f, o) in enumerate(todo):
            if num % parts != part:
                continue
            s = list(o)
            s.insert(axis, f)
            s = tuple(s)
            case = dict(dim=dim, slice=repr(s))
            ctx.case(case)
            ctx.add("transitions")
            want = full[keepdims(s, n)]
            err = []

            def run(r):
                try:
                    cb = hdf5.SaveFieldsToHDF5(d, components=["ey"], slice=s, interval=1)
                    cb(sim)
                except ValueError as e:
                    err.append(e)
            w = again(1, w0)
            w.run(run)
            if not w.ok():
                ctx.violation(f"raise:slice{dim}d", f"{case}: {w.report()}", case)
                return
            path = os.path.join(d, f"{sim.itime:06d}.h5")
            if err:
                if want.size:
                    ctx.violation(f"refuse:slice{dim}d", f"{case}: refused although it selects {want.shape}: {err[0]}", case)
                    return
                continue
            if not want.size:
                ctx.violation(f"empty:slice{dim}d", f"{case}: an empty selection was accepted", case)
                return
            if not compare(ctx, f"slice{dim}d", case, path, {"ey": want}, attrs_of(sim)):
                return
            os.unlink(path)
            ctx.state((dim, repr(s)))
        if part == 0:
            for b in bad_forms(n[axis]):
                s = [slice(None)] * dim
                s[axis] = b
                case = dict(dim=dim, slice=repr(s))
                ctx.case(case)
                err = []

                def run(r):
                    try:
                        hdf5.SaveFieldsToHDF5(d, components=["ey"], slice=tuple(s), interval=1)(sim)
                    except (ValueError, IndexError, TypeError) as e:
                        err.append(e)
                w = again(1, w0)
                w.run(run)
                if not err and w.ok():
                    ctx.violation(f"accept:slice{dim}d", f"{case}: accepted", case)
                    return


# ------------------------------------------------------------------ layouts and ownerships
def menu(dim):
    if dim == 2:
        return [None, (slice(None), 5), (slice(3, None, 2), slice(None, None, 4)), (slice(4, 5), slice(1, -1)), (-1, slice(None))]
    return [None, (slice(None), slice(None), 3), (2, slice(1, None, 3), slice(None)), (slice(1, 7, 2), slice(None), slice(0, 4, 3))]


def layouts(ctx, dim, sizes, grids, mpio, comps, masks=False):
    boot()
    n = (8, 12) if dim == 2 else (8, 6, 6)
    if masks:
        n = (28, 28)
        grids = [(4, 4, m) for m in all_masks((4, 4))]
    with Dir() as d:
        for size in sizes:
            with h5proc.Hub(size) as hub:
                for npatch in grids:
                    mask = npatch[2] if masks else None
                    npatch = npatch[:dim]
                    k = sum(mask) if masks else int(np.prod(npatch))
                    if k < size:
                        continue
                    if masks:
                        owners = [[i * size // k for i in range(k)], [i % size for i in range(k)]][:size]
                    else:
                        owners = [list(r) for r in itertools.product(range(size), repeat=k) if len(set(r)) == size]
                    if len(owners) > 14:
                        step = len(owners) / 14.0
                        owners = [owners[int(i * step)] for i in range(14)]
                    for num, own in enumerate(owners):
                        sims, w0 = build(dim, n, npatch, size, own, mask=mask)
                        for sim in sims:
                            fill(sim)
                        for j, s in enumerate(menu(dim)):
                            cs = comps[(num + j) % len(comps)]
                            case = dict(dim=dim, size=size, npatch=npatch, owners=own, slice=repr(s), components=cs, mpio=mpio, mask=mask)
                            ctx.case(case)
                            ctx.add("transitions")
                            hub.reset()
                            cbs = [hdf5.SaveFieldsToHDF5(d, components=list(cs) if cs else None, slice=s, interval=1, **({"mpi": True} if mpio else {})) for _ in range(size)]
                            w = again(size, w0, "late", simmpi.Chooser(order=list(range(size))[::-1] if num % 2 else None, rr=(num + j) % 3 == 0))
                            w.run(lambda r: cbs[r](sims[r]))
                            key = f"layout{dim}d" + (":mpio" if mpio else "") + (":mask" if masks else "")
                            if not w.ok():
                                ctx.violation(f"raise:{key}", f"{case}: {w.report()}", case)
                                return
                            want = {c: truth(sims[0], c, mask, npatch) for c in (cs or COMPS)}
                            want = {c: v[keepdims(s, n)] if s else v for c, v in want.items()}
                            if not compare(ctx, key, case, os.path.join(d, "000000.h5"), want, attrs_of(sims[0])):
                                return
                            ctx.state((dim, size, npatch, tuple(own), repr(s), cs, mask))
                hub.close()


# ------------------------------------------------------------------ schedules
def species_list(kind, dim):
    from lambdapic import Electron, Photon, Proton
    dens = lp.uniform_density(dim, 1.0)
    one = dict(density=dens, ppc=1)
    return {"e": lambda: [Electron(**one)], "ep": lambda: [Electron(**one), Proton(**one)], "eph": lambda: [Electron(**one), Photon(), Proton(**one)]}[kind]()


def pattern(sims, ispec, k):
    """live/dead pattern and distinct values over the slots of a species"""
    i = 0
    for sim in sims:
        for p in sim.patches:
            q = p.particles[ispec]
            i = sum((lp.ipatch_of(sim, p)[a] * 31 ** a for a in range(sim.dimension))) * 1000
            m = np.arange(q.npart)
            q.is_dead[:] = {"all": np.zeros(q.npart, bool), "none": np.ones(q.npart, bool), "alternate": (m + i) % 2 == 1,
                            "onepatch": np.full(q.npart, i != 0), "last": m != q.npart - 1, "third": m % 3 != (i // 1000) % 3}[k]
            for j, a in enumerate(q.attrs):
                if a != "_id":
                    getattr(q, a)[...] = i + m + 0.001 * j
            # dead slots hold garbage, as after particles left
            for a in q.attrs:
                if a != "_id":
                    getattr(q, a)[q.is_dead] = np.nan


def particles_of(sims, ispec, attrs):
    out = {}
    for sim in sims:
        for p in sim.patches:
            q = p.particles[ispec]
            for i in np.flatnonzero(~q.is_dead):
                out[int(q.id[i])] = tuple(float(getattr(q, a)[i]) for a in attrs)
    return out


def compare_particles(ctx, key, case, path, sims, ispec, attrs):
    want = particles_of(sims, ispec, attrs)
    try:
        got, at = read(path)
    except Exception as e:      # noqa
        ctx.violation(f"file:{key}", f"{case}: the file cannot be read: {e}", case)
        return False
    if set(got) != set(attrs) | {"id"}:
        ctx.violation(f"datasets:{key}", f"{case}: the file holds {sorted(got)} instead of {sorted(attrs)} and id", case)
        return False
    n = len(want)
    for a in got:
        if got[a].shape != (n,):
            ctx.violation(f"count:{key}", f"{case}: {a} has shape {got[a].shape}, {n} particles are alive", case)
            return False
    ids = [int(x) for x in got["id"]]
    if sorted(ids) != sorted(want):
        ctx.violation(f"ids:{key}", f"{case}: the ids in the file are not those in memory ({len(set(ids) & set(want))} of {n} in common)", case)
        return False
    for j, a in enumerate(attrs):
        for i, x in zip(ids, got[a]):
            v = want[i][j]
            if np.float64(x).view(np.uint64) != np.float64(v).view(np.uint64):
                ctx.violation(f"value:{key}", f"{case}: {a} of particle {i} is {x!r} in the file, {v!r} in memory", case)
                return False
    if at.get("itime") != sims[0].itime or at.get("time") != sims[0].time:
        ctx.violation(f"attr:{key}", f"{case}: attributes {at}", case)
        return False
    return True


def schedules(ctx, what, size, npatch, own, bound, part=(0, 1), slc=None, mpio=False):
    """all interleavings of one output"""
    boot()
    dim = len(npatch)
    n = (8, 8) if dim == 2 else (6, 6, 6)
    sims, w0 = build(dim, n, npatch, size, own, species=lambda: species_list("ep", dim))
    for s in sims:
        fill(s)
    slc = eval(slc) if slc else None        # noqa: S307 (literals of this file)
    key = f"schedule:{what}" + (":sliced" if slc else "") + (":mpio" if mpio else "")
    kw = {"mpi": True} if mpio else {}
    with Dir() as d, h5proc.Hub(size) as hub:
        if what == "fields":
            mk = lambda: hdf5.SaveFieldsToHDF5(d, components=["ex", "rho"], slice=slc, interval=1, **kw)        # noqa
            path = os.path.join(d, "000000.h5")
            want = {c: truth(sims[0], c)[keepdims(slc, n)] if slc else truth(sims[0], c) for c in ("ex", "rho")}
        elif what == "particles":
            pattern(sims, 1, "alternate")
            attrs = ["x", "w", "uz"]
            mk = lambda s: hdf5.SaveParticlesToHDF5(s, d, interval=1, attrs=list(attrs))        # noqa
            path = os.path.join(d, "proton_particles_000000.h5")
        # an older file of another shape is in the way
        seen = set()

        def execute(ch):
            hub.reset()
            with h5proc._real(path, "w") as f:
                f.create_dataset("old", data=np.ones(4096))
                f.create_dataset("ex", data=np.ones(3))
            case = dict(what=what, size=size, npatch=npatch, owners=own, slice=repr(slc), schedule=list(ch.prefix))
            ctx.case(case)
            w = again(size, w0, "eager", ch)
            if what == "fields":
                cbs = [mk() for _ in sims]
            else:
                cbs = [mk(s.species[1]) for s in sims]
            w.run(lambda r: cbs[r](sims[r]))
            ctx.add("transitions", len(ch.trace))
            if not w.ok():
                ctx.violation(f"raise:{key}", f"{case}: {w.report()}", case)
                return True
            if what == "fields":
                ok = compare(ctx, key, case, path, want, attrs_of(sims[0]))
            else:
                ok = compare_particles(ctx, key, case, path, sims, 1, attrs)
            seen.add(tuple(t[1] for t in ch.trace))
            return not ok
        k, complete = simmpi.enumerate_schedules(execute, bound, part=part, delays=size > 2)
        assert complete or ctx.violations, "not enumerated"
        ctx.info[f"schedules:{key}:{size}:{part[0]}"] = [k, complete, bound]
        for s in seen:
            ctx.state((what, size, slc is None, mpio, s))
        hub.close()


# ------------------------------------------------------------------ particles
def particles(ctx, dim, sizes, grids):
    boot()
    n = (8, 8) if dim == 2 else (6, 6, 6)
    kinds = ("all", "none", "alternate", "onepatch", "last", "third")
    menus = (["x", "y", "w"], ["w"], None, ["id", "ux", "w"], ["inv_gamma", "ex_part", "x"])
    with Dir() as d:
        for size in sizes:
            with h5proc.Hub(size) as hub:
                for npatch in grids:
                    k = int(np.prod(npatch))
                    if k < size:
                        continue
                    for own in [list(r) for r in itertools.product(range(size), repeat=k) if len(set(r)) == size][:6]:
                        sims, w0 = build(dim, n, npatch, size, own, species=lambda: species_list("eph" if dim == 2 else "ep", dim))
                        lists = [None if m is None else list(m) for m in menus]
                        for num, (kind, m) in enumerate(itertools.product(kinds, range(len(menus)))):
                            ispec = 0 if num % 3 else len(sims[0].species) - 1
                            pattern(sims, ispec, kind)
                            before = [[list(p.particles[ispec].attrs) for p in s.patches] for s in sims]
                            case = dict(dim=dim, size=size, npatch=npatch, owners=own, alive=kind, attrs=menus[m], species=ispec)
                            ctx.case(case)
                            ctx.add("transitions")
                            hub.reset()
                            # one list of attributes for all callbacks, as a user would write it
                            try:
                                cbs = [hdf5.SaveParticlesToHDF5(s.species[ispec], d, interval=1, attrs=lists[m] if size == 1 else (lists[m] and list(lists[m]))) for s in sims]
                                w = again(size, w0, "late", simmpi.Chooser(rr=num % 2 == 0))
                                w.run(lambda r: cbs[r](sims[r]))
                            except Exception as e:      # noqa
                                ctx.violation(f"raise:particles{dim}d", f"{case}: {type(e).__name__}: {e}", case)
                                return
                            if not w.ok():
                                ctx.violation(f"raise:particles{dim}d", f"{case}: {w.report()}", case)
                                return
                            attrs = [a for a in (menus[m] or sims[0].patches[0].particles[ispec].attrs) if a != "id"]
                            sp = sims[0].species[ispec].name
                            if not compare_particles(ctx, f"particles{dim}d", case, os.path.join(d, f"{sp}_particles_000000.h5"), sims, ispec, attrs):
                                return
                            if before != [[list(p.particles[ispec].attrs) for p in s.patches] for s in sims]:
                                ctx.violation(f"effect:particles{dim}d", f"{case}: saving changed the attributes of the particles", case)
                                return
                            ctx.state((dim, size, npatch, tuple(own), kind, m, ispec))
                hub.close()


# ------------------------------------------------------------------ densities
class DensityRuns:
    """runs of several species and, as reference, of each alone (weights are small: no self-consistent fields)"""

    def __init__(self, dim, nsteps):
        self.dim, self.nsteps = dim, nsteps
        self.n = (8, 12) if dim == 2 else (8, 6, 6)
        self.npatch = (2, 2) if dim == 2 else (2, 1, 2)
        self.k = int(np.prod(self.npatch))
        self.parts = {}
        self.ref = {}

    def species(self, kind):
        from lambdapic import Electron, Photon, Proton
        u = lp.uniform_density(self.dim, 1.0)
        mk = {"e": lambda: Electron(density=u, ppc=2), "p": lambda: Proton(density=u, ppc=2),
              "f": lambda: Electron(name="far", density=u, ppc=2), "g": lambda: Photon()}
        return [mk[c]() for c in kind]

    def load(self, sim, kind):
        for i, c in enumerate(kind):
            if c == "g":
                continue
            if c not in self.parts:
                self.parts[c] = lp.plasma(self.dim, self.n, D, 24, seed=ord(c), umax=2.0, wbase=1e-6)
            lp.load_particles(sim, i, self.parts[c])
        lp.refresh(sim)

    def go(self, kind, size, own, callbacks, mode="late", chooser=None):
        """callbacks(sim, rank) -> list"""
        lp.partition().queue = [list(own)] if size > 1 else []
        w = simmpi.World(size, simmpi.MODES[mode], chooser)
        res = [None] * size

        def b(r):
            res[r] = sim = lp.make_sim(self.dim, self.n, self.npatch, "p" * self.dim, d=D[:self.dim], species=self.species(kind))
            sim.initialize()
            self.load(sim, kind)
            sim.run(nsteps=self.nsteps, callbacks=callbacks(sim, r))
        w.run(b)
        return res, w

    def reference(self, c):
        """density after each step of a run of this species alone"""
        if c not in self.ref:
            from lambdapic import callback as cbk
            out = {}

            @cbk(stage="end", interval=1)
            def grab(s):
                out[s.itime] = lp.gather_field([s], "rho") / s.species[0].q
            _, w = self.go(c, 1, None, lambda sim, r: [grab], "eager")
            if not w.ok():
                raise RuntimeError(w.report())
            self.ref[c] = out
        return self.ref[c]


def density(ctx, dim, sizes, nsteps, lists, part=(0, 1)):
    """densities of every species against a run of that species alone; files of several steps; the run itself is not changed"""
    boot()
    R = DensityRuns(dim, nsteps)
    with Dir() as d:
        num = -1
        for size in sizes:
            with h5proc.Hub(size) as hub:
                owners = [list(r) for r in itertools.product(range(size), repeat=R.k) if len(set(r)) == size]
                owners = owners[::max(1, len(owners) // 3)][:3]
                for kind, own, saved in itertools.product(lists, owners, ("each", "last", "first")):
                    num += 1
                    if num % part[1] != part[0]:
                        continue
                    charged = [i for i, c in enumerate(kind) if c != "g"]
                    which = {"each": charged, "last": charged[-1:], "first": charged[:1]}[saved]
                    slc = menu(dim)[num % len(menu(dim))]
                    for f in os.listdir(d):
                        os.unlink(os.path.join(d, f))
                    case = dict(dim=dim, size=size, owners=own, species=kind, saved=which, slice=repr(slc), steps=nsteps)
                    ctx.case(case)
                    hub.reset()
                    end = {}
                    for on in (False, True):
                        sims, w = R.go(kind, size, own, lambda sim, r: [hdf5.SaveSpeciesDensityToHDF5(sim.species[i], d, interval=1 if i % 2 == 0 else 2, slice=slc) for i in which if on],
                                       chooser=simmpi.Chooser(rr=num % 2 == 0))
                        if not w.ok():
                            ctx.violation(f"raise:density{dim}d", f"{case}: {w.report()}", case)
                            return
                        end[on] = [lp.gather_field(sims, a) for a in COMPS]
                    for a, b in zip(end[False], end[True]):
                        if lp.maxrel(a, b) > 1e-9:
                            ctx.violation(f"effect:density{dim}d", f"{case}: writing densities changed the run by {lp.maxrel(a, b)}", case)
                            return
                    files = sorted(os.listdir(d))
                    expect = {}
                    for i in which:
                        for t in range(0, nsteps, 1 if i % 2 == 0 else 2):
                            expect[f"{sims[0].species[i].name}_{t:06d}.h5"] = (kind[i], t)
                    if files != sorted(expect):
                        ctx.violation(f"files:density{dim}d", f"{case}: files {files} instead of {sorted(expect)}", case)
                        return
                    for f, (c, t) in expect.items():
                        want = R.reference(c)[t]
                        if slc:
                            want = want[keepdims(slc, R.n)]
                        ctx.add("transitions")
                        if not compare(ctx, f"density{dim}d", dict(case, file=f), os.path.join(d, f), {"density": want}, {"itime": t, "species": f[:-10]}, tol=1e-9):
                            return
                    ctx.state((dim, size, tuple(own), kind, saved))
                hub.close()


# ------------------------------------------------------------------ the collective writer creates datasets in one order everywhere
def hashseed(ctx, seeds):
    """processes of one run have different string hashing: what they create collectively must not depend on it"""
    prog = ("import sys; sys.path.insert(0, %r); from vlib import simmpi; simmpi.install(); import h5py\n"
            "from harness import o01; o01.boot(); import json\n"
            "seen = []\n"
            "sims, w0 = o01.build(2, (8, 8), (1, 1))\n"
            "from vlib import h5proc\n"
            "real = h5proc.Shared.collective\n"
            "def col(self, remote, name, a, k):\n"
            "    seen.append([name] + [x for x in a if isinstance(x, str)]); return real(self, remote, name, a, k)\n"
            "h5proc.Shared.collective = col\n"
            "hub = h5proc.Hub(1)\n"
            "with hub, o01.Dir() as d:\n"
            "    w = o01.again(1, w0); w.run(lambda r: o01.hdf5.SaveFieldsToHDF5(d, interval=1, mpi=True)(sims[0]))\n"
            "    assert w.ok(), w.report()\n"
            "hub.close()\n"
            "print('ORDER ' + json.dumps(seen))\n") % os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    procs = []
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=str(s))
        procs.append((s, subprocess.Popen([sys.executable, "-c", prog], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    first = None
    for s, p in procs:
        ctx.case(dict(hashseed=s))
        out, err = p.communicate(timeout=200)
        line = [x for x in out.splitlines() if x.startswith("ORDER ")]
        if not line:
            raise RuntimeError(err[-2000:])
        ctx.add("transitions")
        ctx.state(("hashseed", s))
        if first is None:
            first = (s, line[0])
        elif line[0] != first[1]:
            ctx.violation("order:mpio", f"with hash seed {first[0]} the collective calls are {first[1]}, with {s} they are {line[0]}", dict(hashseed=s))
            return


# ------------------------------------------------------------------ conformance: real mpirun
def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for ax in range(2):
        for part in range(2):
            out.append((f"slices2-{ax}-{part}", slices, dict(dim=2, axis=ax, part=part, parts=2, other="few" if q else "all")))
    for ax in range(3):
        P = 2 if q else 6
        if q:
            out.append((f"slices3-{ax}", slices, dict(dim=3, axis=ax, part=seed % P, parts=P, other="few")))
        else:
            out += [(f"slices3-{ax}-{p}", slices, dict(dim=3, axis=ax, part=p, parts=P, other="few")) for p in range(P)]
    C = [("ex",), ("rho", "bz", "ey"), None, ("jx", "jy")]
    g2 = [(1, 1), (2, 1), (1, 2), (2, 2), (1, 4), (2, 3)]
    g3 = [(2, 1, 1), (1, 2, 2), (2, 2, 2)]
    for mpio in (False, True):
        m = "-mpio" if mpio else ""
        out.append((f"layouts2-1{m}", layouts, dict(dim=2, sizes=[1], grids=g2, mpio=mpio, comps=C)))
        out.append((f"layouts2-2{m}", layouts, dict(dim=2, sizes=[2], grids=g2, mpio=mpio, comps=C)))
        out.append((f"layouts2-3{m}", layouts, dict(dim=2, sizes=[3], grids=g2[3:] if q else g2, mpio=mpio, comps=C)))
        out.append((f"layouts3{m}", layouts, dict(dim=3, sizes=[2] if q else [1, 2, 3], grids=g3, mpio=mpio, comps=C)))
    out.append(("layouts-mask", layouts, dict(dim=2, sizes=[1, 2] if q else [1, 2, 3], grids=[], mpio=False, comps=C[:2], masks=True)))
    out.append(("layouts-mask-mpio", layouts, dict(dim=2, sizes=[2] if q else [1, 2, 3], grids=[], mpio=True, comps=C[:2], masks=True)))
    b = 2
    out.append(("sched-fields", schedules, dict(what="fields", size=2, npatch=(2, 2), own=[0, 1, 1, 0], bound=b if q else 3)))
    for k in range(1 if q else 4):
        out.append((f"sched-fields-sliced-{k}", schedules, dict(what="fields", size=2, npatch=(2, 2), own=[0, 1, 1, 0], bound=b if q else 3, slc="(slice(None), slice(1, None, 3))", part=(k, 1 if q else 4))))
    out.append(("sched-particles", schedules, dict(what="particles", size=2, npatch=(2, 1), own=[0, 1], bound=b if q else 3)))
    out.append(("sched-mpio", schedules, dict(what="fields", size=2, npatch=(2, 1), own=[1, 0], bound=b if q else 3, mpio=True)))
    out.append(("sched-fields-3", schedules, dict(what="fields", size=3, npatch=(2, 2), own=[0, 1, 2, 1], bound=1 if q else 2, slc="(slice(1, 7), 3)")))
    out.append(("sched-particles-3", schedules, dict(what="particles", size=3, npatch=(2, 2), own=[0, 1, 2, 1], bound=1 if q else 2)))
    if not q:
        out.append(("sched-fields-3d", schedules, dict(what="fields", size=2, npatch=(2, 1, 1), own=[0, 1], bound=2, slc="(slice(1, 5), slice(None), 3)")))
    out.append(("particles2", particles, dict(dim=2, sizes=[1, 2] if q else [1, 2, 3], grids=[(1, 1), (2, 1), (2, 2)])))
    out.append(("particles3", particles, dict(dim=3, sizes=[2] if q else [1, 2, 3], grids=[(2, 1, 1)] if q else [(2, 1, 1), (2, 2, 1)])))
    L = ["ep", "gep", "efp", "pge"]
    for k in range(3):
        out.append((f"density2-{k}", density, dict(dim=2, sizes=[1, 2] if q else [1, 2, 3], nsteps=3, lists=L, part=(k, 3))))
    out.append(("density3", density, dict(dim=3, sizes=[2] if q else [1, 2, 3], nsteps=2, lists=L[:2] if q else L)))
    out.append(("hashseed", hashseed, dict(seeds=[0, 1, 2] if q else list(range(12)))))
    return out
