"""Helpers to drive lambdapic simulations (imported inside the scratch environment)."""
import itertools
import os
import sys

import numpy as np

from lambdapic import Simulation, Simulation3D  # noqa: F401
from lambdapic.core.species import Electron, Photon, Positron, Proton, Species  # noqa: F401

C = 299792458.0
UM = 1e-6


class Partition:
    """Replaces pymetis.part_graph: the partition is whatever the driver says."""

    def __init__(self):
        import pymetis
        self.real = pymetis.part_graph
        self.queue = []
        self.calls = []
        pymetis.part_graph = self._pg

    def _pg(self, nparts, *a, **kw):
        adj = kw.get("adjacency", a[0] if a else None)
        if adj is None:
            xadj = kw.get("xadj")
            n = len(xadj) - 1
        else:
            n = len(adj)
        if not self.queue:
            r = [(i * nparts) // n for i in range(n)]
        else:
            r = list(self.queue.pop(0))
        assert len(r) == n, (len(r), n)
        self.calls.append(tuple(r))
        return 0, r


_partition = None


def partition():
    global _partition
    if _partition is None:
        _partition = Partition()
    return _partition


def bc(dim, per):
    """per: string over 'p' (periodic) / 'o' (open, pml) per axis"""
    d = {}
    for a, k in zip("xyz"[:dim], per):
        for s in ("min", "max"):
            d[a + s] = "periodic" if k == "p" else "pml"
    return d


def make_sim(dim, n, npatch, per, d=None, ng=3, cpml=None, species=(), seed=7, dt_cfl=0.95, nsteps=None, **kw):
    d = d or tuple([0.1 * UM] * dim)
    if cpml is None:
        cpml = 6
    k = dict(nx=n[0], ny=n[1], dx=d[0], dy=d[1], npatch_x=npatch[0], npatch_y=npatch[1], n_guard=ng,
             boundary_conditions=bc(dim, per), cpml_thickness=cpml, random_seed=seed, dt_cfl=dt_cfl, nsteps=nsteps, **kw)
    if dim == 3:
        k.update(nz=n[2], dz=d[2], npatch_z=npatch[2])
        s = Simulation3D(**k)
    else:
        s = Simulation(**k)
    sp = species() if callable(species) else species
    if sp:
        s.add_species(list(sp))
    return s


def axes(sim):
    return 2 if sim.dimension == 2 else 3


def cells(sim):
    """(n, npatch, nper) tuples"""
    if sim.dimension == 2:
        return (sim.nx, sim.ny), (sim.npatch_x, sim.npatch_y), (sim.nx_per_patch, sim.ny_per_patch)
    return (sim.nx, sim.ny, sim.nz), (sim.npatch_x, sim.npatch_y, sim.npatch_z), (sim.nx_per_patch, sim.ny_per_patch, sim.nz_per_patch)


def ipatch_of(sim, p):
    return (p.ipatch_x, p.ipatch_y) if sim.dimension == 2 else (p.ipatch_x, p.ipatch_y, p.ipatch_z)


def periodic_axes(sim):
    b = sim.boundary_conditions
    return [b[a + "min"] == "periodic" for a in "xyz"[:sim.dimension]]


def global_index(sim, p, ng=None):
    """for every cell of the patch arrays (guards included) the global cell index per axis, -1 when
    it lies outside a non-periodic boundary.  Returns list of 1-D arrays."""
    n, npatch, nper = cells(sim)
    ng = sim.n_guard if ng is None else ng
    out = []
    for a, per in enumerate(periodic_axes(sim)):
        i = np.arange(nper[a] + 2 * ng)
        i[-ng:] = np.arange(-ng, 0)
        g = i + ipatch_of(sim, p)[a] * nper[a]
        if per:
            g = g % n[a]
        else:
            g = np.where((g < 0) | (g >= n[a]), -1, g)
        out.append(g)
    return out


def flat_index(sim, p):
    """global flat cell number for each cell of the patch arrays, -1 outside"""
    n = cells(sim)[0]
    g = global_index(sim, p)
    m = np.meshgrid(*g, indexing="ij")
    f = np.zeros_like(m[0])
    bad = np.zeros(m[0].shape, bool)
    for a in range(len(n)):
        f = f * n[a] + m[a]
        bad |= m[a] < 0
    f[bad] = -1
    return f


def interior(sim, p, arr):
    nper = cells(sim)[2]
    return arr[tuple(slice(0, k) for k in nper)]


def interior_mask(sim, p, shape):
    m = np.zeros(shape, bool)
    m[tuple(slice(0, k) for k in cells(sim)[2])] = True
    return m


def gather_field(sims, attr):
    """global interior array of a field from the patches of all ranks"""
    s0 = sims[0]
    n, npatch, nper = cells(s0)
    out = np.full(n, np.nan)
    seen = np.zeros(n, int)
    for s in sims:
        for p in s.patches:
            ip = ipatch_of(s, p)
            sl = tuple(slice(i * k, (i + 1) * k) for i, k in zip(ip, nper))
            out[sl] = interior(s, p, getattr(p.fields, attr))
            seen[sl] += 1
    assert (seen == 1).all(), "patches do not tile the domain"
    return out


PATTRS = ("x", "y", "z", "w", "ux", "uy", "uz", "inv_gamma")


def gather_particles(sims, ispec, attrs=PATTRS, with_home=False):
    """alive particles of a species over all ranks, sorted by weight (weights are unique tags)"""
    rows = []
    for s in sims:
        for p in s.patches:
            q = p.particles[ispec]
            al = ~q.is_dead
            k = int(al.sum())
            if not k:
                continue
            cols = [getattr(q, a)[al] for a in attrs if hasattr(q, a)]
            cols.append(np.array(q.id[al]).astype(object) if False else q.id[al].view(np.int64).astype(float))
            if with_home:
                cols.append(np.full(k, p.index, float))
            rows.append(np.column_stack(cols))
    if not rows:
        return np.zeros((0, len(attrs) + 1 + with_home))
    a = np.concatenate(rows)
    return a[np.lexsort(a.T[::-1])]


def set_particles(sim, p, ispec, data):
    """replace the particles of (patch, species) by `data` (dict attr -> array); ids regenerated by the package"""
    q = p.particles[ispec]
    n = len(next(iter(data.values())))
    q.initialize(n)
    for k, v in data.items():
        getattr(q, k)[:] = v
    q.extended = True


def refresh(sim):
    """after replacing particle storage by hand: rebuild every module's view (public API used by the code
    itself after patches change)"""
    for p in sim.patches:
        for q in p.particles:
            q.extended = True
    sim.update_lists()


def partitions_upto(n, k):
    """assignments of n patches to exactly k ranks, all ranks used, up to relabelling (restricted growth strings)"""
    out = []

    def rec(pre, m):
        if len(pre) == n:
            if m == k:
                out.append(tuple(pre))
            return
        for v in range(min(m + 1, k)):
            rec(pre + [v], max(m, v + 1))
    rec([], 0)
    return out


def weak(n, k):
    return list(itertools.product(range(k), repeat=n))


def maxrel(a, b):
    s = max(np.max(np.abs(a)) if a.size else 0.0, np.max(np.abs(b)) if b.size else 0.0)
    if s == 0:
        return 0.0
    return float(np.max(np.abs(a - b)) / s)


def home_patch(sim, pos):
    """patch grid coordinates owning a position (cell centres at integer multiples of the cell size)"""
    d = (sim.dx, sim.dy) if sim.dimension == 2 else (sim.dx, sim.dy, sim.dz)
    nper = cells(sim)[2]
    return tuple(int(np.floor(x / h + 0.5)) // k for x, h, k in zip(pos, d, nper))


def uniform_density(dim, value=1e24):
    if dim == 2:
        return lambda x, y: value
    return lambda x, y, z: value


def load_particles(sim, ispec, parts):
    """Overwrite the particles of a species in place: `parts` is a list of dicts with keys x,y[,z],ux,uy,uz,w
    (all others dead).  The species must have been created with enough slots per patch."""
    ax = "xyz"[:sim.dimension]
    by = {}
    for q in parts:
        by.setdefault(home_patch(sim, [q[a] for a in ax]), []).append(q)
    for p in sim.patches:
        q = p.particles[ispec]
        mine = by.get(ipatch_of(sim, p), [])
        assert len(mine) <= q.npart, (len(mine), q.npart)
        q.is_dead[:] = True
        for i, m in enumerate(mine):
            for a in ("x", "y", "z", "ux", "uy", "uz", "w"):
                if a in m and hasattr(q, a):
                    getattr(q, a)[i] = m[a]
            g = np.sqrt(1 + m.get("ux", 0) ** 2 + m.get("uy", 0) ** 2 + m.get("uz", 0) ** 2)
            q.inv_gamma[i] = 1 / g
            q.is_dead[i] = False


def set_fields_from(sim, funcs):
    """funcs: attr -> f(global cell index arrays...) ; sets interiors and guards (wrapped when periodic, 0 outside)"""
    for p in sim.patches:
        g = np.meshgrid(*global_index(sim, p), indexing="ij")
        out = np.zeros(g[0].shape, bool)
        for a in g:
            out |= a < 0
        for a, f in funcs.items():
            v = f(*g)
            v = np.where(out, 0.0, v)
            getattr(p.fields, a)[...] = v


def lcg(seed):
    """small deterministic generator for constructing test states"""
    s = (seed * 2654435761 + 12345) & 0xFFFFFFFF
    while True:
        s = (1664525 * s + 1013904223) & 0xFFFFFFFF
        yield (s >> 8) / float(1 << 24)


def plasma(dim, n, d, count, seed=1, umax=5.0, wbase=1e20, margin=0.0):
    """`count` particles spread over the domain; weights are distinct"""
    r = lcg(seed)
    out = []
    for k in range(count):
        q = {}
        for a, nn, dd in zip("xyz", n, d):
            lo, hi = -0.5 + margin, nn - 0.5 - margin
            q[a] = (lo + (hi - lo) * next(r)) * dd
        for a in ("ux", "uy", "uz"):
            q[a] = (2 * next(r) - 1) * umax
        q["w"] = wbase * (1 + k / 1024.0)
        out.append(q)
    return out


# ---------------------------------------------------------------- topology oracle
def directions(dim):
    """(enum name, offset) for every direction, derived from the direction names"""
    from lambdapic.core.patch.patch import Boundary2D, Boundary3D
    out = []
    for b in (Boundary2D if dim == 2 else Boundary3D):
        off = [0] * dim
        nm = b.name
        for k in range(0, len(nm), 4):
            off["XYZ".index(nm[k])] = -1 if nm[k + 1:k + 4] == "MIN" else 1
        out.append((b.name, int(b), tuple(off)))
    assert len({o for _, _, o in out}) == 3 ** dim - 1
    return out


def topology_errors(sims, per, npatch, missing=False):
    """per: 'p'/'o' string.  sims: the simulations of all ranks (None entries not allowed).
    Compares every neighbour table entry with geometry and with actual ownership."""
    dim = len(npatch)
    err = []
    where = {}
    for r, s in enumerate(sims):
        for k, p in enumerate(s.patches):
            c = ipatch_of(s, p)
            if c in where:
                err.append(f"two patches claim grid position {c}")
            where[c] = (p.index, r, k)
            if p.rank != r:
                err.append(f"patch {c} held by rank {r} records owner {p.rank}")
    if len({v[0] for v in where.values()}) != len(where):
        err.append("patch indices are not unique")
    if not missing and len(where) != int(np.prod(npatch)):
        err.append(f"{len(where)} of {int(np.prod(npatch))} grid positions are present")
    D = directions(dim)
    for r, s in enumerate(sims):
        for p in s.patches:
            c = ipatch_of(s, p)
            for nm, b, off in D:
                t = []
                ok = True
                for a in range(dim):
                    v = c[a] + off[a]
                    if v < 0 or v >= npatch[a]:
                        if per[a] == "p":
                            v %= npatch[a]
                        else:
                            ok = False
                    t.append(v)
                e = where.get(tuple(t)) if ok else None
                ei, er, ek = (-1, -1, -1) if e is None else (e[0], -1 if e[1] == r else e[1], e[2] if e[1] == r else -1)
                g = (int(p.neighbor_index[b]), int(p.neighbor_rank[b]), int(p.neighbor_ipatch[b]))
                if g != (ei, er, ek):
                    err.append(f"patch {c} on rank {r}, {nm}: (index, owner, local slot) recorded {g}, geometry says {(ei, er, ek)}")
    return err


def geometry_errors(sims, npatch, shift=0):
    """patch coordinates, axes and field axes agree with the patch's place in the grid (+shift patches in x)"""
    err = []
    for s in sims:
        d = (s.dx, s.dy) if s.dimension == 2 else (s.dx, s.dy, s.dz)
        nper = cells(s)[2]
        for p in s.patches:
            c = list(ipatch_of(s, p))
            for a, ax in enumerate("xyz"[:s.dimension]):
                g0 = (c[a] + (shift if a == 0 else 0)) * nper[a]
                exp = (g0 + np.arange(nper[a])) * d[a]
                tol = 1e-9 * d[a] * max(1, nper[a] * npatch[a] * (2 + abs(shift)))
                if abs(getattr(p, ax + "0") - exp[0]) > tol:
                    err.append(f"patch {tuple(c)}: {ax}0={getattr(p, ax + '0')}, expected {exp[0]}")
                if np.max(np.abs(getattr(p, ax + "axis") - exp)) > tol:
                    err.append(f"patch {tuple(c)}: {ax}axis wrong")
                if abs(getattr(p.fields, ax + "0") - exp[0]) > tol:
                    err.append(f"patch {tuple(c)}: fields.{ax}0={getattr(p.fields, ax + '0')}, expected {exp[0]}")
    return err


def world_sims(simmpi, size, build, ranks=None, mode="eager", chooser=None, ncomm=None):
    """build(rank) -> sim in a fresh world; returns (sims, world)"""
    sims = [None] * size
    if ranks is not None:
        partition().queue = [list(ranks)]
    w = simmpi.World(size, simmpi.MODES[mode], chooser)
    if ncomm is not None:
        w.ncomm = ncomm

    def body(r):
        sims[r] = build(r)
    w.run(body)
    return sims, w


def pml_ok(dim, npatch, per, nper=None, cpml=1):
    """layouts the package accepts (2D: at most one PML per axis on a patch)"""
    if dim == 2:
        return not any(k == "o" and m == 1 for k, m in zip(per, npatch))
    n = sum((2 if m == 1 else 1) for k, m in zip(per, npatch) if k == "o")
    return n <= 3
