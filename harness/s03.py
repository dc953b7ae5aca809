"""S03: particle storage grows, shrinks and is reused without corruption."""
import copy
import itertools
import pickle

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of operation sequences (add / kill / extend / prune / copy / step) on the real storage, compared after every operation with a dictionary model, and of sequences on a running simulation, compared with a simulation holding the same particles freshly"
NOTE = "All operation sequences to depth 4-5 on the four storage classes with extra attributes; all sequences to depth 2-3 over 8 operations on 2 species x 2 patches of a running QED simulation (2D/3D, interpreted and compiled) followed by steps compared with a fresh simulation (1e-9)."
ASSUMPTIONS = ["operations on storage between steps are followed by update_lists(), as the package asks"]


def boot():
    global lp, cbk
    from vlib import lp as L
    from lambdapic import callback as cbk_
    lp, cbk = L, cbk_


# ------------------------------------------------------------------ storage classes
def classes():
    from lambdapic.core import particles as P
    return {c: getattr(P, c) for c in ("ParticlesBase", "QEDParticles", "SpinParticles", "SpinQEDParticles")}


class Model:
    """live rows by tag (the weight)"""

    def __init__(self, cls):
        self.q = classes()[cls](ipatch=3, rank=1)
        self.q.attrs.append("foo")
        self.tag = 0
        self.rows = {}
        self.handed = set()

    def names(self):
        n = [a for a in self.q.attrs if a != "_id"]
        return n + (["event"] if hasattr(self.q, "event") else [])

    def put(self, i):
        """make slot i live with a new row"""
        self.tag += 1
        r = {}
        for j, a in enumerate(self.names()):
            v = self.tag + j / 64.0
            if a == "event":
                v = bool(self.tag % 2)
            if a == "w":
                v = float(self.tag)
            getattr(self.q, a)[i] = v
            r[a] = v
        self.q.is_dead[i] = False
        r["id"] = int(self.q.id[i])
        self.rows[float(self.tag)] = r

    def kill(self, i):
        self.q.is_dead[i] = True
        self.rows.pop(float(self.q.w[i]))

    def op(self, o):
        q = self.q
        if not hasattr(q, "npart") and o[0] != "init":
            return
        al = np.flatnonzero(~q.is_dead) if o[0] != "init" else []
        if o[0] == "init":
            q.initialize(o[1])
            self.rows = {}
            for i in range(o[1]):
                self.put(i)
        elif o[0] == "extend":
            q.extend(o[1])
        elif o[0] == "kill":
            if len(al):
                self.kill(al[o[1]])
        elif o[0] == "killall":
            for i in al:
                self.kill(i)
        elif o[0] == "add":
            de = np.flatnonzero(q.is_dead)
            if len(de):
                self.put(de[o[1]])
        elif o[0] == "prune":
            q.prune(o[1])
        elif o[0] == "pickle":
            self.q = pickle.loads(pickle.dumps(q))
        elif o[0] == "copy":
            self.q = copy.deepcopy(q)

    def check(self):
        q = self.q
        n = q.npart
        if not isinstance(n, (int, np.integer)) or n != len(q.is_dead):
            return "length", f"npart = {n!r}, {len(q.is_dead)} liveness flags"
        for a in self.names() + ["_id"]:
            v = getattr(q, a)
            if len(v) != n:
                return "length", f"{a} has {len(v)} entries, npart = {n}"
            if not v.flags.c_contiguous or not v.flags.writeable:
                return "length", f"{a} is not a writable contiguous array"
        al = ~q.is_dead
        if al.dtype != bool or not np.array_equal(q.is_alive, al):
            return "alive", "is_alive disagrees with is_dead"
        if int(al.sum()) != len(self.rows):
            return "alive", f"{int(al.sum())} live particles, {len(self.rows)} expected"
        seen = set()
        for i in np.flatnonzero(al):
            r = self.rows.get(float(q.w[i]))
            if r is None or q.w[i] in seen:
                return "row", f"slot {i} carries tag {q.w[i]!r}, which is not a live particle (or twice)"
            seen.add(q.w[i])
            for a in self.names():
                if getattr(q, a)[i] != r[a]:
                    return "row", f"particle {q.w[i]}: {a} = {getattr(q, a)[i]!r}, expected {r[a]!r}"
            if int(q.id[i]) != r["id"]:
                return "id", f"particle {q.w[i]}: id {int(q.id[i]):#x}, was {r['id']:#x}"
        ids = q.id.tolist()
        if len(set(ids)) != len(ids):
            return "id", "two slots carry the same id"
        return None


OPS = [("extend", 0), ("extend", 1), ("extend", 3), ("kill", 0), ("kill", -1), ("killall",), ("add", 0), ("add", -1),
       ("prune", 0.0), ("prune", 0.5), ("pickle",), ("copy",), ("init", 2)]


def storage(ctx, cls, depth, n0, part=(0, 1)):
    boot()
    k, K = part
    for i, seq in enumerate(itertools.product(OPS, repeat=depth)):
        if i % K != k:
            continue
        ctx.case((cls, n0, seq))
        ctx.add("traces")
        m = Model(cls)
        m.op(("init", n0))
        for j, o in enumerate(seq):
            before = m.q.npart
            hi = {int(x) for x in m.q.id}
            m.op(o)
            ctx.add("transitions")
            e = m.check()
            if not e and o[0] == "extend" and m.q.npart > before:
                if m.q.npart - before != o[1] or not m.q.is_dead[before:].all():
                    e = "extend", f"extend({o[1]}) took npart from {before} to {m.q.npart}, new slots dead: {m.q.is_dead[before:].tolist()}"
                elif hi & {int(x) for x in m.q.id[before:]}:
                    e = "id", "new slots carry ids of old ones"
            if not e and o == ("extend", 0) and m.q.npart != before:
                e = "extend", "extend(0) changed the storage"
            if not e and o[0] in ("extend", "prune") and m.q.npart != before and not m.q.extended:
                e = "flag", f"{o} moved the storage without saying so (extended is False)"
            if e:
                ctx.violation(f"storage:{cls}:{e[0]}:{o[0]}", f"{cls}, {n0} particles, {seq[:j + 1]}: {e[1]}", dict(cls=cls, n0=n0, seq=seq[:j + 1]))
                return
            ctx.state(cls, tuple(m.q.is_dead.tolist()), len(m.rows))
    ctx.sample(dict(cls=cls, n0=n0, seq=seq))


# ------------------------------------------------------------------ running simulation
class Rig:
    AT = ("ux", "uy", "uz", "inv_gamma", "w", "tau", "chi", "delta")

    def __init__(self, dim):
        self.dim = dim
        e = lp.Electron(radiation="photons")
        ph = lp.Photon()
        po = lp.Positron()
        e.set_photon(ph)
        ph.set_bw_pair(electron=e, positron=po)
        self.sp = [lp.Proton(), e, ph, po]
        self.d = (0.1e-6, 0.07e-6, 0.09e-6)[:dim]
        np_ = (2, 2, 1)[:dim]
        self.n = tuple(5 * k for k in np_)
        self.sim = lp.make_sim(dim, self.n, np_, "p" * dim, d=self.d, ng=2, cpml=2, species=self.sp)
        self.sim.initialize()
        self.ax = "xyz"[:dim]

    def attrs(self, q):
        return [a for a in self.ax + "" ] + [a for a in self.AT if hasattr(q, a)]

    def fields(self):
        g = {}
        for j, a in enumerate(("ex", "ey", "ez", "bx", "by", "bz")):
            amp = 1e10 if j < 3 else 30.0

            def f(*ix, j=j, amp=amp):
                return amp * (((3 * ix[0] + 5 * ix[1] + (7 * ix[2] if len(ix) > 2 else 0) + j * j) % 11) - 5)
            g[a] = f
        for a in ("jx", "jy", "jz", "rho"):
            g[a] = lambda *ix: 0.0 * ix[0]
        lp.set_fields_from(self.sim, g)

    def row(self, p, isp, tag):
        """a new particle row inside patch p"""
        r = {}
        for j, (a, h) in enumerate(zip(self.ax, self.d)):
            # low tags sit near the upper faces and cross into the next patch
            r[a] = getattr(p, a + "0") + h * (4.3 + 0.03 * tag if tag % 3 == 0 else (0.61 * tag + 0.3 * j) % 4 - 0.2)
        u = [((tag * z) % 7 - 3.1) for z in (3, 5, 2)]
        if tag % 3 == 0:
            u[0] = 2.5
        r.update(ux=u[0], uy=u[1], uz=u[2], inv_gamma=1 / np.sqrt((isp != 2) + sum(x * x for x in u)), w=1e3 * (1 + tag), tau=50.0 + tag, chi=0.0, delta=0.0)
        return r

    def write(self, q, i, r):
        for a, v in r.items():
            if hasattr(q, a):
                getattr(q, a)[i] = v
        if hasattr(q, "event"):
            q.event[i] = False
        q.is_dead[i] = False

    def fill(self, table):
        """table[(patch, species)] = list of rows"""
        for ip, p in enumerate(self.sim.patches):
            for s, q in enumerate(p.particles):
                rows = table.get((ip, s), [])
                q.initialize(len(rows))
                for i, r in enumerate(rows):
                    self.write(q, i, r)
                q.extended = True
        self.sim.update_lists()

    def table(self):
        out = {}
        for ip, p in enumerate(self.sim.patches):
            for s, q in enumerate(p.particles):
                out[ip, s] = [{a: getattr(q, a)[i] for a in self.attrs(q)} for i in np.flatnonzero(~q.is_dead)]
        return out

    def grids(self):
        return {(ip, a): getattr(p.fields, a).copy() for ip, p in enumerate(self.sim.patches) for a in ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho")}

    def set_grids(self, g):
        for (ip, a), v in g.items():
            getattr(self.sim.patches[ip].fields, a)[...] = v


SIMOPS = [(o, s, ip) for o in ("kill", "add", "extend", "prune", "addmany") for s in (0, 1) for ip in (0, 1)] + [("step",), ("addmany", 2, 0), ("prune", 2, 0)]


def apply(rig, o, tag):
    """returns next tag"""
    if o[0] == "step":
        rig.sim.run(nsteps=1)
        return tag
    p = rig.sim.patches[o[2]]
    q = p.particles[o[1]]
    if o[0] == "kill":
        al = np.flatnonzero(~q.is_dead)
        if len(al):
            q.is_dead[al[0]] = True
            # what the slot held must no longer matter
            for a in q.attrs:
                if a != "_id":
                    getattr(q, a)[al[0]] = np.nan
    elif o[0] in ("add", "addmany"):
        k = 1 if o[0] == "add" else 4
        de = np.flatnonzero(q.is_dead)
        if len(de) < k:
            q.extend(k - len(de) + 1)
            de = np.flatnonzero(q.is_dead)
        for j in range(k):
            rig.write(q, de[-1 - j], rig.row(p, o[1], tag))
            tag += 1
    elif o[0] == "extend":
        q.extend(3)
    elif o[0] == "prune":
        q.prune(0.0)
    return tag


def compare(ta, tb, dim, box):
    for s in range(4):
        a = [r for (ip, k), t in sorted(ta.items()) if k == s for r in t]
        b = [r for (ip, k), t in sorted(tb.items()) if k == s for r in t]
        if len(a) != len(b):
            return "count", f"species {s}: {len(b)} live particles, the fresh simulation has {len(a)}"
        a.sort(key=lambda r: r["w"])
        b.sort(key=lambda r: r["w"])
        for x, y in zip(a, b):
            for k in x:
                sc = box["xyz".index(k)] if k in "xyz" else max(1.0, abs(x[k]))
                if not (abs(x[k] - y[k]) <= 1e-9 * sc) and not (np.isnan(x[k]) and np.isnan(y[k])):
                    return "row", f"species {s}, particle {x['w']:.6g}: {k} = {y[k]!r}, the fresh simulation has {x[k]!r}"
    home = lambda t: {(ip, s): sorted(r["w"] for r in v) for (ip, s), v in t.items()}
    if home(ta) != home(tb):
        return "home", "the particles are in other patches than in the fresh simulation"
    return None


def running(ctx, dim, depth, start, part, stride=1, after=1):
    boot()
    rig, ref = Rig(dim), Rig(dim)
    box = [n * h for n, h in zip(rig.n, rig.d)]
    k, K = part
    for i, seq in enumerate(itertools.product(SIMOPS, repeat=depth)):
        if (i % K) != k or (i // K) % stride:
            continue
        case = dict(dim=dim, start=start, seq=seq)
        ctx.case(case)
        ctx.state(dim, start, seq)
        ctx.add("traces")
        tag = 0
        t0 = {}
        for ip, p in enumerate(rig.sim.patches):
            for s in range(4):
                t0[ip, s] = []
                for _ in range(start[s] if ip < 2 else 1):
                    t0[ip, s].append(rig.row(p, s, tag))
                    tag += 1
        rig.fields()
        rig.fill(t0)
        for o in seq:
            if o[0] == "step":
                # run the same step in the fresh simulation
                ref.fields()
                ref.set_grids(rig.grids())
                ref.fill(rig.table())
                ref.sim.run(nsteps=1)
            before = rig.table() if o[0] in ("extend", "prune") else None
            tag = apply(rig, o, tag)
            ctx.add("transitions")
            if before is not None and compare(before, rig.table(), dim, box):
                ctx.violation(f"running:{dim}d:{o[0]}", f"{case}: {o}: {compare(before, rig.table(), dim, box)[1]}", case)
                return
            if o[0] == "step":
                e = compare(ref.table(), rig.table(), dim, box)
                if e:
                    ctx.violation(f"running:{e[0]}:{dim}d", f"{case}: {o}: {e[1]}", case)
                    return
            else:
                rig.sim.update_lists()
        ref.fields()
        ref.set_grids(rig.grids())
        ref.fill(rig.table())
        rig.sim.run(nsteps=after)
        ref.sim.run(nsteps=after)
        ctx.add("transitions", after)
        e = compare(ref.table(), rig.table(), dim, box)
        if e:
            ctx.violation(f"running:{e[0]}:{dim}d", f"{case}: after the operations and {after} step(s): {e[1]}", case)
            return
        ga, gb = ref.grids(), rig.grids()
        for a in ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho"):
            sc = max(np.abs(v).max() for (ip, b), v in ga.items() if b == a) or 1.0
            for ip in range(len(rig.sim.patches)):
                p = rig.sim.patches[ip]
                if not (np.abs(lp.interior(rig.sim, p, ga[ip, a]) - lp.interior(rig.sim, p, gb[ip, a])).max() <= 1e-9 * sc):
                    ctx.violation(f"running:fields:{dim}d:{a[0]}", f"{case}: {a} of patch {ip} differs from the fresh simulation", case)
                    return
    ctx.sample(case)


def compiled(ctx, dim, n, stride):
    running(ctx, dim, 2, (1, 2, 1, 0), (0, 1), stride=stride, after=1)
    running(ctx, dim, 3, (2, 1, 0, 1), (n, 997), stride=1, after=2)


def jobs(tier, seed):
    from vlib import jitjob
    th = tier == "thorough"
    J = [(f"compiled-{dim}d", jitjob.jit, dict(target="harness.s03:compiled", args=dict(dim=dim, n=seed % 7, stride=1 if th else 2), threads=2)) for dim in (2, 3)]
    for cls in ("ParticlesBase", "QEDParticles", "SpinParticles", "SpinQEDParticles"):
        for n0 in (0, 3):
            if th:
                for k in range(8):
                    J.append((f"storage-{cls}-{n0}-{k}", storage, dict(cls=cls, depth=5, n0=n0, part=(k, 8))))
            else:
                J.append((f"storage-{cls}-{n0}", storage, dict(cls=cls, depth=3, n0=n0)))
                J.append((f"storage4-{cls}-{n0}", storage, dict(cls=cls, depth=4, n0=n0, part=(0, 7))))
    for dim in (2, 3):
        for st in ((1, 2, 1, 0), (0, 0, 0, 0), (3, 1, 1, 1)):
            J.append((f"running2-{dim}d-{st}", running, dict(dim=dim, depth=2, start=st, part=(0, 1))))
        K = 8
        for k in range(K if th else 2):
            J.append((f"running3-{dim}d-{k}", running, dict(dim=dim, depth=3, start=(1, 2, 1, 0), part=(k, K if th else 23 + 22 * dim), stride=1)))
    return J


COVERAGE = "see NOTE"
