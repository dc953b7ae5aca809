"""L02: a crash while checkpointing never loses the last good checkpoint."""
import hashlib
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np

from harness import l01

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive crash-point exploration: the file-system operations of real checkpoint dumps on simulated processes are recorded with their happens-before order; every consistent cut of them, with every in-progress write torn at every class of length and unsynced data dropped, is rebuilt on disk and loaded by the real loader; failures are injected at every operation; crash states are continued"
NOTE = "1-3 processes, retention none/1/2/3, runs repeated in the same directory, signal and interval dumps, step numbers across one million, foreign files, other process counts, all mixtures of shards of two dumps; recovery from every crash state and the retention of the continued run."
ASSUMPTIONS = ["MPI is simulated", "directory operations reach the disk in order; file contents only with fsync (power loss) or immediately (process crash)", "a torn write leaves a prefix"]
COVERAGE = "every consistent cut of the file operations of all processes during each history"

ROOT = {"dir": None, "rec": None}


def boot():
    global lp, simmpi, m09
    l01.boot()
    lp, simmpi, m09 = l01.lp, l01.simmpi, l01.m09
    if not getattr(sys, "_l02hook", False):
        sys._l02hook = True
        sys.addaudithook(audit)
        real = os.fsync, os.fdatasync

        def sync(f):
            def g(fd):
                r = ROOT["rec"]
                if r is not None:
                    p = r.rel(os.readlink(f"/proc/self/fd/{fd if isinstance(fd, int) else fd.fileno()}"))
                    if p is not None:
                        r.event(("fsync", p))
                return f(fd)
            return g
        os.fsync, os.fdatasync = sync(real[0]), sync(real[1])


WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def audit(ev, args):
    r = ROOT["rec"]
    if r is None or r.busy or simmpi.cur_rank() is None:
        return
    if ev == "open":
        path, mode, flags = args
        if isinstance(path, int) or not isinstance(flags, int) or not flags & WRITE:
            return
        p = r.at(path, None)
        if p is not None:
            r.event(("open", p, bool(flags & os.O_TRUNC)))
    elif ev in ("os.mkdir", "os.remove", "os.rmdir"):
        p = r.at(args[0], args[-1])
        if p is not None:
            r.event((ev[3:], p))
    elif ev == "os.rename":
        p, q = r.at(args[0], args[2]), r.at(args[1], args[3])
        if p is not None or q is not None:
            r.event(("rename", p, q))
    elif ev in ("os.truncate", "os.link", "os.symlink"):
        p = r.at(args[1] if ev != "os.truncate" else args[0], args[2] if ev != "os.truncate" and len(args) > 2 else None)
        if p is not None:
            raise RuntimeError(f"unmodelled file operation {ev} {p}")


class Recorder:
    """per process: list of (op, vector clock)"""

    def __init__(self, root, size, fail=None):
        self.root = os.path.realpath(root)
        self.size = size
        self.fail = fail                    # (rank, number of the operation)
        self.failed = None
        self.ops = [[] for _ in range(size)]
        self.vc = [[0] * size for _ in range(size)]
        self.open = [{} for _ in range(size)]
        self.blobs = {}
        self.busy = False

    def rel(self, p):
        p = os.path.normpath(os.fspath(p))
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        if p == self.root:
            return ""
        return p[len(self.root) + 1:] if p.startswith(self.root + "/") else None

    def at(self, path, dirfd):
        path = os.fsdecode(os.fspath(path))
        if isinstance(dirfd, int) and dirfd >= 0 and not os.path.isabs(path):
            path = os.path.join(os.readlink(f"/proc/self/fd/{dirfd}"), path)
        return self.rel(path)

    def put(self, r, op):
        self.ops[r].append((op, tuple(self.vc[r])))
        self.vc[r][r] += 1

    def flush(self, r):
        """contents written since the last event of this process"""
        self.busy = True
        try:
            for p, old in list(self.open[r].items()):
                f = os.path.join(self.root, p)
                if os.path.isfile(f):
                    b = open(f, "rb").read()
                    if b != old:
                        k = hashlib.sha1(b).hexdigest()
                        self.blobs[k] = b
                        self.open[r][p] = b
                        self.put(r, ("write", p, k))
                else:
                    del self.open[r][p]
        finally:
            self.busy = False

    def event(self, op):
        r = simmpi.cur_rank()
        if r is None:
            r = 0
        self.flush(r)
        if self.fail is not None and self.fail == (r, len(self.ops[r])) and self.failed is None:
            self.failed = op
            raise OSError(28, "No space left on device (injected)")
        self.put(r, op)
        if op[0] == "open":
            f = os.path.join(self.root, op[1])
            self.open[r][op[1]] = b"" if op[2] or not os.path.exists(f) else self._read(f)
        elif op[0] == "rename" and op[1] is not None:
            for o in self.open:
                for q in list(o):
                    if q == op[1] or q.startswith(op[1] + "/"):
                        b = o.pop(q)
                        if op[2] is not None:
                            o[op[2] + q[len(op[1]):]] = b

    def _read(self, f):
        self.busy = True
        try:
            return open(f, "rb").read()
        finally:
            self.busy = False

    def note(self, r, what):
        self.flush(r)
        self.put(r, ("note", what))


def make_world(size, rec, order=None):
    class World(simmpi.World):
        def collective(self, comm, kind, root, payload):
            me = simmpi.cur_rank()
            rec.flush(me)
            idx = self.collidx.get((comm, me), 0)
            self.__dict__.setdefault("vcs", {})[(comm, idx, me)] = tuple(rec.vc[me])
            out = super().collective(comm, kind, root, payload)
            full = kind in ("barrier", "allgather", "allreduce", "dup", "alltoall", "split")
            for r in range(self.size):
                if full or (kind in ("gather", "reduce") and me == root) or (kind in ("bcast", "scatter") and r == root):
                    v = self.vcs[(comm, idx, r)]
                    rec.vc[me] = [max(a, b) for a, b in zip(rec.vc[me], v)]
            return out

        def post_send(self, q):
            rec.flush(q.rank)
            self.__dict__.setdefault("vcq", {})[id(q)] = (q, tuple(rec.vc[q.rank]))
            return super().post_send(q)

        def finish(self, q):
            out = super().finish(q)
            m = self.__dict__.get("vcq", {}).get(id(q.match)) if q.match is not None else None
            if m is not None:
                rec.vc[q.rank] = [max(a, b) for a, b in zip(rec.vc[q.rank], m[1])]
            return out
    return World(size, simmpi.MODES["eager"], simmpi.Chooser(order=order) if order else None)


# ------------------------------------------------------------------ file systems
class FS:
    """files: path -> (durable blob key or None, current blob key); dirs: set"""

    def __init__(self, dirs=(), files=()):
        self.dirs = set(dirs)
        self.files = dict(files)

    def copy(self):
        return FS(self.dirs, self.files)

    def apply(self, op, torn=None):
        """False when the operation cannot happen in this order"""
        k = op[0]
        up = lambda p: p == "" or os.path.dirname(p) == "" or os.path.dirname(p) in self.dirs       # noqa
        if k == "mkdir":
            if op[1] and op[1] not in self.dirs:
                if not up(op[1]):
                    return False
                self.dirs.add(op[1])
        elif k == "open":
            if not up(op[1]):
                return False
            if op[1] not in self.files or op[2]:
                self.files[op[1]] = (None, "")
        elif k == "write":
            if op[1] not in self.files:
                return False
            self.files[op[1]] = (self.files[op[1]][0], op[2] if torn is None else (op[2], torn))
        elif k == "fsync":
            if op[1] in self.files:
                c = self.files[op[1]][1]
                self.files[op[1]] = (c, c)
        elif k == "remove":
            self.files.pop(op[1], None)
        elif k == "rmdir":
            if any(p.startswith(op[1] + "/") for p in (*self.files, *self.dirs)):
                return False
            self.dirs.discard(op[1])
        elif k == "rename":
            a, b = op[1], op[2]
            if a not in self.dirs and a not in self.files:
                return False
            mv = lambda p: b + p[len(a):] if p == a or p.startswith(a + "/") else p     # noqa
            inside = lambda p: p == a or p.startswith(a + "/")      # noqa
            if a in self.files:
                self.files[b] = self.files.pop(a)
            else:
                if any(p.startswith(b + "/") for p in (*self.files, *self.dirs)):
                    return False
                self.dirs = {mv(p) for p in self.dirs}
                self.files = {mv(p): v for p, v in self.files.items()}
            del inside
        return True

    def key(self):
        return (frozenset(self.dirs), frozenset(self.files.items()))

    def tops(self):
        """depth-1 directories with their digest"""
        out = {}
        for d in sorted(p for p in self.dirs if "/" not in p):
            out[d] = tuple(sorted((p[len(d) + 1:], c[1]) for p, c in self.files.items() if p.startswith(d + "/")))
        return out


def blob(blobs, c):
    if c == "":
        return b""
    if isinstance(c, tuple):
        b = blob(blobs, c[0])
        n = len(b)
        return b[:{"1": 1, "half": n // 2, "-1": n - 1}[c[1]]]
    return blobs[c]


TORN = ("1", "half", "-1")


def cuts(rec, initial, power=True):
    """every consistent cut with torn last writes; yields (FS, notes seen, description).
    The operations are layered: cut vectors are explored as a graph, the FS carried along."""
    size = rec.size
    start = (0,) * size
    seen = {start}
    todo = [(start, initial)]
    while todo:
        nxt = []
        for cut, fs in todo:
            notes = [{o[1] for o, _ in rec.ops[r][:cut[r]] if o[0] == "note"} for r in range(size)]
            yield fs, notes, dict(cut=cut, torn=None)
            can = [r for r in range(size) if cut[r] < len(rec.ops[r]) and all(cut[s] >= v for s, v in enumerate(rec.ops[r][cut[r]][1]) if s != r)]
            # torn writes in progress, several processes at once
            w = [r for r in can if rec.ops[r][cut[r]][0][0] == "write"]
            for k in range(1, len(w) + 1):
                for who in itertools.combinations(w, k):
                    for how in itertools.product(TORN, repeat=k):
                        f = fs.copy()
                        if all(f.apply(rec.ops[r][cut[r]][0], t) for r, t in zip(who, how)):
                            yield f, notes, dict(cut=cut, torn=dict(zip(who, how)))
            if power and any(c[0] != c[1] for c in fs.files.values()):
                for how in ("", "half"):
                    f = fs.copy()
                    for p, c in f.files.items():
                        if c[0] != c[1]:
                            f.files[p] = (c[0], "" if how == "" or c[1] == "" or isinstance(c[1], tuple) else (c[1], how))
                    yield f, notes, dict(cut=cut, torn=None, unsynced=how or "empty")
            for r in can:
                c = cut[:r] + (cut[r] + 1,) + cut[r + 1:]
                if c in seen:
                    continue
                f = fs.copy()
                if f.apply(rec.ops[r][cut[r]][0]):
                    seen.add(c)
                    nxt.append((c, f))
        todo = nxt


# ------------------------------------------------------------------ runs
def digest(sim):
    h = hashlib.sha1()
    st = l01.state_of(sim)
    for c in sorted(st):
        h.update(repr(c).encode())
        for k in sorted(st[c]):
            a = np.ascontiguousarray(st[c][k])
            h.update(k.encode() + repr(a.shape).encode() + a.tobytes())
    return h.hexdigest()


def run(size, ranks, out, rec=None, keep=None, steps=3, variant=0, first=None, load=None, signal_at=None, order=None, dim=2, npatch=None, interval=1):
    """returns (world, {step: per-process digests}) ; every finished dump leaves a note in rec"""
    from lambdapic import callback as cbk
    from lambdapic.callback.restart import RestartDump
    npatch = npatch or (2, 2)
    P = lp.partition()
    P.queue = [list(ranks)] if size > 1 and load is None else []
    sg = m09.Signals()
    D = {}
    w = make_world(size, rec, order) if rec is not None else simmpi.World(size, simmpi.MODES["eager"], None)

    def body(r):
        l01.DICE[r] = np.random.Generator(np.random.PCG64(99)).random
        if load is None:
            sim = l01.create("plain", dim, npatch)
            for p in sim.patches:
                p.fields.ex[...] *= 1 + variant
            if first is not None:
                sim.itime = first
        else:
            sim = RestartDump.load(load)
        rd = RestartDump(out, interval=interval, keep=keep, dump_signals=signal_at is not None)

        def before(s):
            D.setdefault(s.itime, {})[r] = digest(s)

        def after(s):
            if rec is not None and s.itime % interval == 0:
                rec.note(r, (variant, s.itime))
        cbs = [cbk("end")(before), rd, cbk("end")(after)]
        if signal_at is not None:
            def hit(s):
                if s.itime == signal_at and r == size - 1:
                    sg.deliver(r)
            cbs.insert(0, cbk("maxwell_1")(hit))
        sim.run(nsteps=steps, callbacks=cbs)
        if rec is not None and signal_at is not None:
            rec.note(r, (variant, signal_at))
        return sim
    if rec is not None:
        ROOT["rec"] = rec
    try:
        w.run(body)
    finally:
        ROOT["rec"] = None
    return w, D


def try_load(path, size):
    """None if every process refuses, 'hang'/'partly' text, or (itime, digests)"""
    from lambdapic.callback.restart import RestartDump

    def body(r):
        sim = RestartDump.load(path)
        return sim.itime - 1, digest(sim)
    w = simmpi.World(size, simmpi.MODES["eager"], None)
    w.run(body)
    res = w.results
    if all(x is None for x in res):
        return None
    if any(x is None for x in res):
        return "some processes accept, others refuse"
    if len({x[0] for x in res}) > 1:
        return f"processes resume from different steps {[x[0] for x in res]}"
    return res[0][0], tuple(x[1] for x in res)


def put(fs, blobs, root):
    for d in sorted(fs.dirs):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for p, c in fs.files.items():
        with open(os.path.join(root, p), "wb") as f:
            f.write(blob(blobs, c[1]))


def snapshot(root, blobs):
    fs = FS()
    for dp, dn, fn in os.walk(root):
        rel = os.path.relpath(dp, root)
        if rel != ".":
            fs.dirs.add(rel)
        for f in fs_names(fn):
            b = open(os.path.join(dp, f), "rb").read()
            k = hashlib.sha1(b).hexdigest() if b else ""
            blobs[k] = b
            fs.files[os.path.normpath(os.path.join(rel, f))] = (k, k)
    return fs


def fs_names(fn):
    return sorted(fn)


class Judge:
    """what a crash state may answer"""

    def __init__(self, ctx, size, blobs, tmp, base, key):
        self.ctx, self.size, self.blobs, self.tmp, self.base, self.key = ctx, size, blobs, tmp, base, key
        self.cache = {}
        self.dumps = {}         # (variant, step) -> digests
        self.n = 0

    def know(self, variant, D):
        for k, v in D.items():
            if len(v) == self.size:
                self.dumps[(variant, k)] = tuple(v[r] for r in range(self.size))

    def load(self, name, content):
        # the name of the directory plays no part in loading
        if content not in self.cache:
            d = os.path.join(self.tmp, f"try{len(self.cache)}")
            fs = FS([name], {f"{name}/{p}": (c, c) for p, c in content})
            for p in list(fs.files):
                q = os.path.dirname(p)
                while q:
                    fs.dirs.add(q)
                    q = os.path.dirname(q)
            put(fs, self.blobs, d)
            self.cache[content] = try_load(os.path.join(d, name), self.size)
            shutil.rmtree(d)
        return self.cache[content]

    def state(self, fs, done, case):
        """all directories load to a complete dump or not at all; returns {dir: dump}"""
        self.ctx.add("transitions")
        good = {}
        for name, content in fs.tops().items():
            if not content:
                continue
            e = self.load(name, content)
            if e is None:
                continue
            if isinstance(e, str):
                self.ctx.violation(f"partly:{self.key}", f"{case}: loading {name}: {e}", case)
                return None
            m = [k for k, v in self.dumps.items() if v == e[1] and k[1] == e[0]]
            if not m:
                self.ctx.violation(f"mixed:{self.key}", f"{case}: {name} with {[p for p, _ in content]} is accepted but is no complete dump (step {e[0]})", case)
                return None
            good[name] = m[0]
        if done and not good:
            self.ctx.violation(f"lost:{self.key}", f"{case}: after finished dumps {sorted(done)} no checkpoint can be loaded; directories {list(fs.tops())}", case)
            return None
        return good


def names(fs):
    return sorted(d for d in fs.tops() if d.startswith("ckpt_") and d[5:].isdigit())


def expect_names(steps):
    return sorted(f"ckpt_{k:06d}" for k in steps)


def history(ctx, size, ranks, keep=None, phases=(dict(),), order=None, foreign=False, recover=False, power=True, dim=2, npatch=None, fresh=True):
    """phases: keyword arguments of consecutive runs in one directory"""
    boot()
    tmp = tempfile.mkdtemp(prefix="l02")
    base = dict(size=size, ranks=ranks, keep=keep, phases=phases, order=order, foreign=foreign, dim=dim)
    key = f"{size}:{'rerun' if len(phases) > 1 else 'keep' if keep else 'plain'}"
    try:
        root = os.path.join(tmp, "out")
        os.makedirs(root)
        if foreign:
            for d in ("ckpt_notes", "ckpt_best", "other"):
                os.mkdir(os.path.join(root, d))
                open(os.path.join(root, d, "text"), "w").write(d)
            open(os.path.join(root, "ckpt_readme.txt"), "w").write("x")
        blobs = {"": b""}
        J = Judge(ctx, size, blobs, tmp, base, key)
        done0 = set()
        for n, ph in enumerate(phases):
            ctx.case(dict(base, phase=n, kind="run"))
            initial = snapshot(root, blobs)
            mine = {p: c for p, c in initial.files.items() if not p.split("/")[0].startswith("ckpt_0") and "ckpt_9" not in p and "ckpt_1" not in p and not p.startswith(".")}
            rec = Recorder(root, size)
            w, D = run(size, ranks, root, rec, keep=keep, order=order, dim=dim, npatch=npatch, **ph)
            if not w.ok():
                ctx.violation(f"run:{key}", f"{base}: {w.report()}", base)
                return
            blobs.update(rec.blobs)
            J.know(ph.get("variant", 0), D)
            steps = sorted(D)
            due = [k for k in steps if k % ph.get("interval", 1) == 0 or k == ph.get("signal_at")]
            if [k for _, k in sorted({o[1] for o, _ in rec.ops[0] if o[0] == "note"})] != due:
                raise RuntimeError((rec.ops[0], due))
            ctx.info.setdefault("operations", []).append([len(o) for o in rec.ops])
            seen = {}
            final = None
            for fs, notes, how in cuts(rec, initial, power):
                case = dict(base, phase=n, kind="crash", **how)
                done = set.intersection(*notes) | done0
                k = (fs.key(), frozenset(done))
                ctx.add("cuts")
                if how["torn"] is None and "unsynced" not in how and how["cut"] == tuple(len(o) for o in rec.ops):
                    final = fs
                if k in seen:
                    continue
                seen[k] = True
                ctx.case(case)
                ctx.state((n, fs.key(), sorted(done)))
                good = J.state(fs, done, case)
                if good is None:
                    return
                now = set.intersection(*notes)
                if now and fresh:
                    last = max(now, key=lambda v: v[1])
                    best = max((v[1] for v in good.values() if v[0] == last[0]), default=-1)
                    if best < last[1]:
                        ctx.violation(f"stale:{key}", f"{case}: the dump of step {last[1]} is finished but only {good} can be loaded", case)
                        return
                if keep and done and fresh and how["torn"] is None and "unsynced" not in how:
                    # between dumps the newest `keep` are there: no more are taken away than asked for
                    need = sorted({v[1] for v in done}, reverse=True)[:max(keep - 1, 1)]
                    have = sorted({v[1] for v in good.values()}, reverse=True)
                    if len(have) < len(need) or any(a < b for a, b in zip(have, need)):
                        ctx.violation(f"retention:{key}", f"{case}: finished {sorted(done)}, to keep {keep}: can load only {have}", case)
                        return
                if mine and any(fs.files.get(p) != c for p, c in mine.items()):
                    ctx.violation(f"foreign:{key}", f"{case}: files that are no checkpoints were touched", case)
                    return
                if recover and good and (recover == "all" or how["torn"] is None or set(how["torn"].values()) == {"half"}):
                    if not recovery(ctx, J, fs, good, size, keep, ph, case, dim, npatch, n):
                        return
            real = snapshot(root, {})
            if (real.dirs, {p: c[1] for p, c in real.files.items()}) != (final.dirs, {p: c[1] for p, c in final.files.items()}):
                raise RuntimeError(f"the model of the file system disagrees with the disk: {sorted(real.files)} / {sorted(final.files)}")
            ctx.add("traces")
            allsteps = sorted({k for _, k in done0} | set(due))
            want = expect_names(allsteps[-keep:] if keep else allsteps)
            if names(real) != want:
                ctx.violation(f"kept:{key}", f"{base}: directories {names(real)} instead of {want}", base)
                return
            for d, v in J.state(real, done0 | {(ph.get("variant", 0), k) for k in due}, base).items():
                if d in want and (v[1] != int(d[5:]) or (v[1] in due and v[0] != ph.get("variant", 0))):
                    ctx.violation(f"content:{key}", f"{base}: {d} holds the dump {v}", base)
                    return
            done0 |= {(ph.get("variant", 0), k) for k in due}
            if fresh:
                done0 = {v for v in done0 if f"ckpt_{v[1]:06d}" in want}
        ctx.sample(base)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def recovery(ctx, J, fs, good, size, keep, ph, case, dim, npatch, n):
    """continue from the newest loadable directory of a crash state: the rest of the run and the retention are right"""
    k = ("rec", fs.key())
    if k in J.cache:
        return True
    J.cache[k] = True
    root = os.path.join(J.tmp, "rec")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    put(fs, J.blobs, root)
    name = max(good, key=lambda d: (good[d][1], not d.startswith(".")))
    at = good[name][1]
    case = dict(case, kind="crash and continue", from_=name)
    w, D = run(size, None, root, keep=keep, load=os.path.join(root, name), steps=2, dim=dim, npatch=npatch)
    ctx.add("traces")
    try:
        if not w.ok():
            ctx.violation(f"continue:{J.key}", f"{case}: {w.report()}", case)
            return False
        for s, d in D.items():
            v = (good[name][0], s)
            if v in J.dumps and tuple(d[r] for r in range(size)) != J.dumps[v]:
                ctx.violation(f"continued:{J.key}", f"{case}: the continued run differs at step {s}", case)
                return False
        J.know(good[name][0], D)
        real = snapshot(root, J.blobs)
        have = names(real)
        want = expect_names([at + 1, at + 2])
        want = want[-keep:] if keep else want
        if not set(want) <= set(have) and not (set(have) > set(want) and False):
            newer = [d for d in have if int(d[5:]) > at + 2]
            if not newer:
                ctx.violation(f"continue-kept:{J.key}", f"{case}: after two more dumps the directories are {have}, missing {sorted(set(want) - set(have))}", case)
                return False
        for d in want:
            if d in have:
                e = try_load(os.path.join(root, d), size)
                if e is None or isinstance(e, str) or e[0] != int(d[5:]):
                    ctx.violation(f"continue-load:{J.key}", f"{case}: {d} of the continued run: {e}", case)
                    return False
        if keep and len(have) != keep and len(have) > keep:
            ctx.violation(f"continue-many:{J.key}", f"{case}: {have} with retention {keep}", case)
            return False
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return True


def failures(ctx, size, ranks, keep, phases=(dict(),), dim=2):
    """an error from every file operation in turn"""
    boot()
    tmp = tempfile.mkdtemp(prefix="l02f")
    base = dict(size=size, ranks=ranks, keep=keep, kind="failure", phases=phases)
    key = f"fail:{size}"
    try:
        counts = None
        blobs = {"": b""}
        J = Judge(ctx, size, blobs, tmp, base, key)
        for ph_at in range(len(phases)):
            # reference
            def go(fail, root):
                rec = None
                for n, ph in enumerate(phases[:ph_at + 1]):
                    rec = Recorder(root, size, fail if n == ph_at else None)
                    w, D = run(size, ranks, root, rec, keep=keep, dim=dim, **ph)
                    J.know(ph.get("variant", 0), D)
                return rec, w
            root = os.path.join(tmp, "ref")
            os.makedirs(root)
            rec, w = go(None, root)
            shutil.rmtree(root)
            counts = [len(o) for o in rec.ops]
            for r in range(size):
                for i in range(counts[r]):
                    if rec.ops[r][i][0][0] in ("note", "write"):
                        continue
                    case = dict(base, phase=ph_at, process=r, operation=i, what=rec.ops[r][i][0])
                    ctx.case(case)
                    root = os.path.join(tmp, f"f{r}-{i}")
                    os.makedirs(root)
                    rc, w = go((r, i), root)
                    ctx.add("traces")
                    if rc.failed is None:
                        raise RuntimeError(f"{case}: not injected")
                    real = snapshot(root, blobs)
                    done = set.intersection(*[{o[1] for o, _ in l if o[0] == "note"} for l in rc.ops])
                    ctx.state((r, i, real.key()))
                    good = J.state(real, done, case)
                    if good is None:
                        return
                    last = max(done, key=lambda v: v[1]) if done else None
                    if done and (ph_at == 0 or not keep or all(last[1] >= k for _, k in J.dumps)):
                        if max((v[1] for v in good.values() if v[0] == last[0]), default=-1) < last[1]:
                            ctx.violation(f"stale:{key}", f"{case}: the dump of step {last[1]} is finished but only {good} can be loaded", case)
                            return
                    shutil.rmtree(root)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def mixtures(ctx, size, ranks):
    """shards of two dumps put together, taken away, renamed, cut; other process counts"""
    boot()
    tmp = tempfile.mkdtemp(prefix="l02m")
    base = dict(size=size, ranks=ranks, kind="mixtures")
    key = f"mix:{size}"
    try:
        root = os.path.join(tmp, "out")
        os.makedirs(root)
        w, D = run(size, ranks, root, steps=2)
        A, B = (os.path.join(root, f"ckpt_{k:06d}") for k in (0, 1))
        fa, fb = sorted(os.listdir(A)), sorted(os.listdir(B))
        if fa != fb:
            raise RuntimeError((fa, fb))
        good = {k: tuple(D[k][r] for r in range(size)) for k in (0, 1)}

        def attempt(case, d, n):
            ctx.case(case)
            ctx.state(case)
            ctx.add("transitions")
            e = try_load(d, n)
            if e is None:
                return True
            if isinstance(e, str) or n != size or good.get(e[0]) != e[1]:
                ctx.violation(f"accepted:{key}", f"{case}: accepted as {e if isinstance(e, str) else 'step %d' % e[0]}", case)
                return False
            return True
        for n in range(1, 5):
            if not attempt(dict(base, load_with=n), A, n):
                return
        if size > 1:
            for pick in itertools.product("AB-", repeat=len(fa)):
                if len(set(pick)) == 1:
                    continue
                d = os.path.join(tmp, "m")
                os.makedirs(d)
                for f, c in zip(fa, pick):
                    if c != "-":
                        shutil.copy(os.path.join({"A": A, "B": B}[c], f), os.path.join(d, f))
                for n in {size, sum(c != "-" for c in pick)}:
                    if not attempt(dict(base, shards="".join(pick), load_with=n), d, n):
                        return
                shutil.rmtree(d)
            for perm in itertools.permutations(range(len(fa))):
                if perm == tuple(range(len(fa))):
                    continue
                d = os.path.join(tmp, "p")
                os.makedirs(d)
                for i, j in enumerate(perm):
                    shutil.copy(os.path.join(A, fa[j]), os.path.join(d, fa[i]))
                if not attempt(dict(base, permuted=perm), d, size):
                    return
                shutil.rmtree(d)
        for f in fa:
            b = open(os.path.join(A, f), "rb").read()
            for cut in sorted({0, 1, len(b) // 4, len(b) // 2, len(b) - 4096 if len(b) > 4096 else 2, len(b) - 2, len(b) - 1}):
                d = os.path.join(tmp, "c")
                shutil.copytree(A, d)
                open(os.path.join(d, f), "wb").write(b[:cut])
                if not attempt(dict(base, cut=(f, cut)), d, size):
                    return
                shutil.rmtree(d)
        ctx.sample(base)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


R = {1: None, 2: (0, 1, 1, 0), 3: (0, 1, 2, 0)}


def jobs(tier, seed):
    th = tier == "thorough"
    J = []

    def add(name, fn=history, **k):
        J.append((name, fn, k))
    for size in (1, 2, 3):
        for keep in (None, 1, 2) + ((3,) if th else ()):
            for order in ([None, tuple(reversed(range(size)))] if size > 1 and (th or size == 2) else [None]):
                add(f"run{size}-{keep}-{'o' if order else 'n'}", size=size, ranks=R[size], keep=keep, order=order, phases=(dict(steps=4 if th or size == 1 else 3),))
        # the same steps dumped again by another run
        add(f"rerun{size}", size=size, ranks=R[size], keep=None, phases=(dict(steps=2), dict(steps=2, variant=1)))
        add(f"rerun{size}-2", size=size, ranks=R[size], keep=2, phases=(dict(steps=2), dict(steps=2, variant=1)))
        add(f"mix{size}", fn=mixtures, size=size, ranks=R[size])
        add(f"fail{size}", fn=failures, size=size, ranks=R[size], keep=1, phases=(dict(steps=2), dict(steps=2, variant=1)) if size < 3 or th else (dict(steps=2),))
    add("signal", size=2, ranks=R[2], keep=2, phases=(dict(steps=4, interval=2, signal_at=1),))
    add("signal-same", size=2, ranks=R[2], keep=2, phases=(dict(steps=4, interval=2, signal_at=2),))
    add("signal-same1", size=1, ranks=None, keep=1, phases=(dict(steps=4, interval=2, signal_at=2),))
    for k in (1, 2):
        add(f"million{k}", size=1 if not th else 2, ranks=R[1 if not th else 2], keep=k, phases=(dict(steps=4, first=999998),))
        add(f"foreign{k}", size=1 if not th else 2, ranks=R[1 if not th else 2], keep=k, phases=(dict(steps=4),), foreign=True)
    for size in (1, 2):
        for k in (1, 2, None):
            add(f"recover{size}-{k}", size=size, ranks=R[size], keep=k, phases=(dict(steps=3),), recover="all" if th else True)
    add("recover-rerun", size=2, ranks=R[2], keep=2, phases=(dict(steps=2), dict(steps=2, variant=1)), recover="all" if th else True)
    add("3d", size=2, ranks=R[2], keep=1, dim=3, npatch=(2, 1, 2), phases=(dict(steps=2),))
    return J
