"""S01: sorting permutes particles and nothing else."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of slot contents (dead or in one of the cells) and of operation histories on the real sorters of real simulations; every sort is checked row by row against a cell oracle"
NOTE = "All contents of up to 6 slots over dead + 4 cells, all histories of move/kill/revive/extend/prune/sort to depth 3, positions on, one ulp beside and a rounding distance around every cell and patch face, several patches at a time; 2D/3D, one bucket axis (both directions) and full buckets, plain/QED/spin attributes."
ASSUMPTIONS = ["particles lie in their patch or within rounding of its faces (the documented precondition: sort follows migration)"]


def boot():
    global lp
    from vlib import lp as L
    lp = L


SPEC = {"plain": lambda: lp.Electron(), "qed": lambda: lp.Electron(name="qe", radiation="photons"), "spin": lambda: lp.Electron(name="se", polarization=(0, 0, 1)),
        "photon": lambda: lp.Photon()}


class Rig:
    """a simulation with several patches, sorted either in full buckets (species collide) or along x only"""

    def __init__(self, dim, full, kind, npatch, nper, drift=0, pml=False):
        d = (0.1e-6, 0.07e-6, 0.13e-6)[:dim]
        n = tuple(a * b for a, b in zip(npatch, nper))
        sp = SPEC[kind]()
        sps = [sp]
        if kind == "qed":
            ph = lp.Photon()
            sp.set_photon(ph)
            sps.append(ph)
        self.sim = lp.make_sim(dim, n, npatch, ("o" if pml else "p") * dim, d=d, ng=3, cpml=2, species=sps)
        if full:
            self.sim.add_collision([[sp, sp]])
        self.sim.initialize()
        self.dim, self.full, self.nper, self.d = dim, full, nper, d
        self.sorter = self.sim.sorter[0]
        self.patches = list(self.sim.patches)
        self.drift = drift
        self.tag = 0

    def part(self, k):
        return self.patches[k].particles[0]

    def resize(self, slots):
        for p in self.patches:
            q = p.particles[0]
            q.initialize(slots)
            q.extended = True
        self.sim.update_lists()

    def put(self, k, slot, X, dead=False):
        """X: cell coordinates in the patch (float); attributes become unique numbers"""
        p, q = self.patches[k], self.part(k)
        for a, x, h in zip("xyz", X, self.d):
            getattr(q, a)[slot] = x if isinstance(x, np.float64) else getattr(p, a + "0") + x * h
        skip = set("xyz"[:self.dim]) | {"_id"}
        self.tag += 1
        for j, a in enumerate(q.attrs):
            if a not in skip:
                getattr(q, a)[slot] = self.tag + j / 64.0
        q.w[slot] = self.tag
        if self.drift:
            q.ux[slot] = self.drift * (1 + self.tag / 1e6)
        q.is_dead[slot] = dead

    def bits(self, q):
        return np.column_stack([np.ascontiguousarray(getattr(q, a)).view(np.int64) for a in q.attrs])

    def rows(self, k):
        q = self.part(k)
        b = self.bits(q)[~q.is_dead]
        return b[np.lexsort(b.T)]

    def cells(self, k, axis):
        """lower and upper admissible cell number per slot along an axis"""
        p, q = self.patches[k], self.part(k)
        a = "xyz"[axis]
        v = (getattr(q, a) - getattr(p, a + "0")) / self.d[axis] + 0.5
        with np.errstate(invalid="ignore"):
            lo, hi = np.floor(v - 1e-6), np.floor(v + 1e-6)
        m = self.nper[axis] - 1
        return np.clip(lo, 0, m), np.clip(hi, 0, m)

    def sort(self):
        """sort, then check everything; returns (key, text) or None"""
        before = [self.rows(k) for k in range(len(self.patches))]
        npart = [self.part(k).npart for k in range(len(self.patches))]
        self.sorter()
        rev = bool(self.sorter.reverse_x)
        for k in range(len(self.patches)):
            q = self.part(k)
            after = self.rows(k)
            if q.npart != npart[k] or q.is_dead.size != npart[k]:
                return "size", f"patch {k}: {npart[k]} slots became {q.npart}"
            if before[k].shape != after.shape:
                return "lost", f"patch {k}: {len(before[k])} live particles before, {len(after)} after sorting"
            if not np.array_equal(before[k], after):
                bad = np.flatnonzero((before[k] != after).any(0))
                return "rows", f"patch {k}: the set of particle rows changed (attributes {[q.attrs[i] for i in bad][:6]})"
            lo = np.asarray(self.sorter.bucket_bound_min_list[k]).ravel()
            hi = np.asarray(self.sorter.bucket_bound_max_list[k]).ravel()
            shape = np.asarray(self.sorter.bucket_bound_min_list[k]).shape
            want = tuple(self.nper) if self.full else (self.nper[0],) + (1,) * (self.dim - 1)
            if shape != want:
                return "buckets", f"bucket grid is {shape}, expected {want}"
            if lo[0] != 0 or hi[-1] != q.npart or (hi[:-1] != lo[1:]).any() or (hi < lo).any():
                return "bounds", f"patch {k}: bucket bounds {lo.tolist()} {hi.tolist()} do not tile the {q.npart} slots"
            slot_bucket = np.repeat(np.arange(len(lo)), hi - lo)
            live = ~q.is_dead
            idx = np.unravel_index(slot_bucket, shape)
            for a in range(self.dim if self.full else 1):
                l, h = self.cells(k, a)
                got = idx[a]
                if a == 0 and rev:
                    got = self.nper[0] - 1 - got
                bad = live & ~((l <= got) & (got <= h))
                if bad.any():
                    i = int(np.flatnonzero(bad)[0])
                    c = "xyz"[a]
                    return "cell", (f"patch {k} slot {i}: {c} = {getattr(q, c)[i]!r} (cell {l[i]:.0f}..{h[i]:.0f}) is stored in the bucket of {c}-cell {int(got[i])}"
                                    f" [bucket axes {shape}, mirrored={rev}]")
        return None


def contents(ctx, dim, full, kind, slots, drift, cellset):
    """every content of `slots` slots: dead or in one of the cells"""
    boot()
    nper = (4,) * dim
    r = Rig(dim, full, kind, (2,) * dim, nper, drift)
    r.resize(slots)
    K = len(r.patches)
    alphabet = [None] + list(cellset)
    todo = itertools.product(range(len(alphabet)), repeat=slots)
    n = 0
    while True:
        batch = list(itertools.islice(todo, K))
        if not batch:
            break
        for k in range(len(batch), K):
            r.part(k).is_dead[:] = True
        for k, c in enumerate(batch):
            for s, v in enumerate(c):
                X = alphabet[v]
                r.put(k, s, cellset[(s + n) % len(cellset)] if X is None else X, X is None)
        case = dict(kind=kind, dim=dim, full=full, contents=batch)
        if n % 64 == 0:
            ctx.case(case)
        n += 1
        for c in batch:
            ctx.state(c)
        for rep in range(2):       # sorting again has to be harmless as well
            ctx.add("transitions", len(batch))
            e = r.sort()
            if e:
                ctx.violation(f"contents:{e[0]}:{dim}d:{'full' if full else 'x'}", f"{case} sort {rep}: {e[1]}", case)
                return
    ctx.sample(case)


def histories(ctx, dim, full, kind, depth, drift, start):
    """every sequence of operations up to a depth, on a stateful sorter, each followed by a sort"""
    boot()
    nper = (4,) * dim
    r = Rig(dim, full, kind, (2,) + (1,) * (dim - 1), nper, drift)
    A, B, Z = [tuple(t[:dim]) for t in ((0.1, 0.2, 0.3), (2.2, 3.1, 0.2), (3.3, 0.1, 3.2))]

    def op(name, k):
        q = r.part(k)
        live = np.flatnonzero(~q.is_dead)
        dead = np.flatnonzero(q.is_dead)
        if name == "none":
            pass
        elif name == "move" and live.size:
            r.put(k, live[0], Z)
        elif name == "moveall" and live.size:
            for j, i in enumerate(live):
                r.put(k, i, (Z, A, B)[(j + live.size) % 3])
        elif name == "killfirst" and live.size:
            q.is_dead[live[0]] = True
        elif name == "killlast" and live.size:
            q.is_dead[live[-1]] = True
        elif name == "revive" and dead.size:
            r.put(k, dead[0], A)
        elif name == "extend":
            q.extend(3)
            r.put(k, q.npart - 2, B)
        elif name == "prune":
            q.prune(0.0)
        elif name == "swapends" and q.npart > 1:
            r.put(k, 0, Z)
            r.put(k, q.npart - 1, A)
        if q.extended:
            r.sim.update_lists()
            q.extended = False
    names = ["none", "move", "moveall", "killfirst", "killlast", "revive", "extend", "prune", "swapends"]
    n = 0
    for seq in itertools.product(names, repeat=depth):
        r.resize(len(start))
        for k in range(len(r.patches)):
            for s, v in enumerate(start):
                r.put(k, s, (A, B, Z)[v % 3], v < 0)
        case = dict(kind=kind, dim=dim, full=full, seq=seq, start=start)
        if n % 32 == 0:
            ctx.case(case)
        n += 1
        ctx.state(seq, start)
        ctx.add("traces")
        for step, name in enumerate(("none",) + seq):
            op(name, 0)
            op(seq[-1 - step] if step < len(seq) else name, 1)
            ctx.add("transitions")
            e = r.sort()
            if e:
                ctx.violation(f"history:{e[0]}:{dim}d:{'full' if full else 'x'}", f"{case} at step {step} ({name}): {e[1]}", case)
                return
    ctx.sample(case)


def faces(ctx, dim, full, drift, pml):
    """positions on, one ulp off and a rounding distance around every cell face of every patch, alone and in pairs"""
    boot()
    nper = (4,) * dim if not pml else (5,) * dim
    r = Rig(dim, full, "plain", (3,) * 2 + (2,) * (dim - 2), nper, drift, pml)
    vals = []
    for k, p in enumerate(r.patches):
        ax = []
        for a in range(dim):
            h = r.d[a]
            f = p.fields
            o = getattr(p, "xyz"[a] + "0")
            lo, hi = (np.float64(getattr(p, "xyz"[a] + s) + t * h) for s, t in (("min", -0.5), ("max", 0.5)))
            v = []
            for m in range(nper[a] + 1):
                e = np.float64(o + (m - 0.5) * h)
                v += [e, np.nextafter(e, -np.inf), np.nextafter(e, np.inf)]
            v += [np.nextafter(np.float64(lo), np.inf), np.float64(lo), np.float64(hi), np.nextafter(np.float64(hi), -np.inf)]
            v = [np.float64(x) for x in v]
            mid = np.float64(o + 1.2 * h)
            v.append(mid)
            v = [x for x in v if lo <= x <= hi]      # what migration leaves in the patch
            ax.append(v)
        vals.append(ax)
    fillers = [tuple(np.float64(getattr(p, "xyz"[a] + "0") + 1.7 * r.d[a]) for a in range(dim)) for p in r.patches]
    r.resize(4)
    per = [list(itertools.product(range(len(v[0])), range(len(v[1])))) for v in vals] if dim == 2 else [list(itertools.product(*[range(0, len(x)) for x in v])) for v in vals]
    if dim == 3:
        # every value on one axis against the extreme ones of the others
        red = []
        for v in vals:
            ext = [[0, 1, 2, len(x) - 2, len(x) - 3, len(x) - 1] for x in v]
            s = set()
            for a in range(3):
                for t in itertools.product(*[range(len(v[b])) if b == a else ext[b] for b in range(3)]):
                    s.add(t)
            red.append(sorted(s))
        per = red
    L = max(len(x) for x in per)
    for i in range(L):
        case = dict(dim=dim, full=full, pml=pml, i=i)
        if i % 32 == 0:
            ctx.case(case)
        for k in range(len(r.patches)):
            t = per[k][i % len(per[k])]
            X = tuple(vals[k][a][j] for a, j in enumerate(t))
            slot = i % 4
            for s in range(4):
                if s == slot:
                    r.put(k, s, X)
                else:
                    r.put(k, s, fillers[k], (i + s) % 3 == 0)
            ctx.state(k, t)
        ctx.add("transitions", len(r.patches))
        e = r.sort()
        if e:
            ctx.violation(f"faces:{e[0]}:{dim}d:{'full' if full else 'x'}", f"{case}: {e[1]}", case)
            return
    ctx.sample(case)


def big(ctx, dim, full, drift, sizes):
    """larger populations (all slot-count residues around vector and block sizes), several rounds of drifting motion"""
    boot()
    nper = (5,) * dim
    for n in sizes:
        r = Rig(dim, full, "plain", (2,) * dim, nper, drift)
        r.resize(n)
        g = lp.lcg(n + dim)
        for k in range(len(r.patches)):
            for s in range(n):
                r.put(k, s, tuple(-0.5 + 4.999999 * next(g) for _ in range(dim)), next(g) < 0.3)
        for rnd in range(4):
            case = dict(dim=dim, full=full, n=n, round=rnd)
            ctx.case(case)
            ctx.state(case)
            ctx.add("transitions", len(r.patches))
            e = r.sort()
            if e:
                ctx.violation(f"big:{e[0]}:{dim}d:{'full' if full else 'x'}", f"{case}: {e[1]}", case)
                return
            for k, p in enumerate(r.patches):
                q = r.part(k)
                x = (q.x - p.x0) / r.d[0] + 0.5 + 0.37 * (1 if drift >= 0 else -1)
                q.x[:] = p.x0 + (np.mod(x, nper[0]) - 0.5) * r.d[0]
                q.is_dead[rnd::7] ^= True
                for a in q.attrs[3:-1]:
                    getattr(q, a)[q.is_dead] = np.nan
                for s in np.flatnonzero(~q.is_dead):
                    if np.isnan(q.w[s]) or np.isnan(q.ux[s]):
                        r.put(k, s, (1.1,) * dim)
    ctx.sample(case)


def jobs(tier, seed):
    th = tier == "thorough"
    J = []
    c2 = [(0.1, -0.2), (0.0, 3.3), (2.2, 1.0), (3.4, 3.4)]
    c3 = [(0.1, -0.2, 0.3), (0.0, 3.3, 1.0), (2.2, 1.0, 3.0), (3.4, 3.4, 3.4)]
    for dim, cs in ((2, c2), (3, c3)):
        for full, drift in ((True, 0), (False, 1), (False, -1)):
            t = f"{dim}d-{'full' if full else 'x' + ('+' if drift > 0 else '-')}"
            for s in range(1, 7 if th else 6):
                J.append((f"contents-{t}-{s}", contents, dict(dim=dim, full=full, kind="plain", slots=s, drift=drift, cellset=cs)))
            for kind in ("qed", "spin", "photon"):
                J.append((f"contents-{t}-{kind}", contents, dict(dim=dim, full=full, kind=kind, slots=4 if th else 3, drift=drift, cellset=cs)))
            for k, st in enumerate([(0, 1, 2), (0, -1, 1), (2, 2, 0, -1), (-1, -1)] + ([(1,), (0, 1, 2, 0, -1)] if th else [])):
                J.append((f"hist-{t}-{k}", histories, dict(dim=dim, full=full, kind="qed" if k % 2 else "plain", depth=4 if th else 3, drift=drift, start=st)))
            for pml in (False, True):
                J.append((f"faces-{t}-{'pml' if pml else 'per'}", faces, dict(dim=dim, full=full, drift=drift, pml=pml)))
            J.append((f"big-{t}", big, dict(dim=dim, full=full, drift=drift, sizes=(1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 129, 300) if th else (1, 8, 17, 65, 200))))
    return J


COVERAGE = "see NOTE"
