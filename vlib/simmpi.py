"""A simulated MPI with a controlled scheduler.

Ranks are threads of one process; exactly one runs at a time.  Control moves
only at MPI operations, and every nondeterministic decision (which rank runs
next, which message a wildcard receive takes) is taken by a Chooser, so that a
driver can enumerate all of them.  What the standard leaves open about buffers
(when a send buffer is read, when a receive buffer is written, whether a send
completes before it is matched, whether a non-barrier collective synchronises)
is a Mode, also enumerated by the driver.

Protocol monitors report through World.problems: deadlock, mismatched
collectives, truncated or mistyped messages, a send buffer changed while in
flight, a receive buffer written locally while in flight, overlapping active
buffers, messages or receives left over at the end.
"""
import ctypes
import itertools
import os
import pickle
import sys
import threading
import types
import zlib

import numpy as np

_tls = threading.local()
_lib = None
_world = None           # current World (one at a time)

ANY = -1


class SimAbort(BaseException):
    pass


def cur_rank():
    return getattr(_tls, "rank", None)


class Mode:
    __slots__ = ("capture", "write", "eager", "collsync", "poison", "overlap")

    def __init__(self, capture="eager", write="early", eager=True, collsync=False, poison=False, overlap=False):
        self.capture, self.write, self.eager, self.collsync = capture, write, eager, collsync
        self.poison, self.overlap = poison, overlap

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}

    def __repr__(self):
        return "Mode(%s)" % ",".join(f"{k}={v}" for k, v in self.as_dict().items())


MODES = {
    "eager": Mode("eager", "early", True, False),
    "late": Mode("late", "late", False, True, poison=True, overlap=True),
    "latecap": Mode("late", "early", True, False),
    "latewrite": Mode("eager", "late", True, False, poison=True),
    "rendezvous": Mode("late", "early", False, False),
}


class Chooser:
    """Follows a prefix of decisions, then the default (index 0)."""

    def __init__(self, prefix=(), order=None, rr=False):
        self.prefix = list(prefix)
        self.trace = []            # (noptions, chosen, preemptive)
        self.order = order         # rank priority
        self.rr = rr               # round-robin: switch at every operation

    def rank_order(self, ranks):
        if self.order is None:
            return sorted(ranks)
        return sorted(ranks, key=self.order.index)

    def pick(self, noptions, preemptive):
        if noptions == 1:
            return 0
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= noptions:
            raise RuntimeError("schedule prefix does not replay")
        self.trace.append((noptions, c, preemptive))
        return c


def enumerate_schedules(execute, bound, order=None, max_execs=None, part=(0, 1), delays=False):
    """Depth-first over all schedules with at most `bound` preemptions.
    execute(Chooser) runs one execution.  Returns (executions, complete).
    delays: every choice off the default order counts, also where a rank blocks or ends (delay bounding).
    part=(k, K): only the schedules whose first deviation is at a decision number congruent k modulo K."""
    stack = [[]]
    n = 0
    while stack:
        if max_execs is not None and n >= max_execs:
            return n, False
        prefix = stack.pop()
        ch = Chooser(prefix, order=order)
        stop = execute(ch)
        n += 1
        if stop:
            return n, False
        tr = ch.trace
        used = 0
        costs = []
        for (no, c, pre) in tr:
            costs.append(used)
            if (pre or delays) and c:
                used += 1
        for i in range(len(tr) - 1, len(prefix) - 1, -1):
            if not prefix and i % part[1] != part[0]:
                continue
            no, c, pre = tr[i]
            for alt in range(no - 1, 0, -1):
                if costs[i] + (1 if pre or delays else 0) <= bound:
                    stack.append([t[1] for t in tr[:i]] + [alt])
    return n, True


class Req:
    __slots__ = ("id", "kind", "rank", "addr", "runs", "nruns", "nbytes", "peer", "tag", "comm", "data", "crc",
                 "match", "written", "done", "obj", "cancelled", "seq", "keep", "esize", "recv_src", "recv_tag", "recv_n")

    def __init__(self):
        self.addr = None
        self.runs = None
        self.nruns = 0
        self.nbytes = 0
        self.data = None
        self.crc = None
        self.match = None
        self.written = False
        self.done = False
        self.obj = False
        self.cancelled = False
        self.keep = None
        self.esize = 1
        self.recv_src = self.recv_tag = None
        self.recv_n = 0

    def desc(self):
        return f"{self.kind}(rank={self.rank},peer={self.peer},tag={self.tag},comm={self.comm},bytes={self.nbytes})"


class World:
    def __init__(self, size, mode=None, chooser=None):
        self.size = size
        self.mode = mode or Mode()
        self.chooser = chooser or Chooser()
        self.sems = [threading.Semaphore(0) for _ in range(size)]
        self.done_evt = threading.Semaphore(0)
        self.state = ["ready"] * size       # ready | blocked | finished
        self.pred = [None] * size
        self.bdesc = [""] * size
        self.results = [None] * size
        self.errors = [None] * size
        self.problems = []
        self.over = False
        self.aborted = None
        self.reqs = {}
        self.nreq = 0
        self.posted = {}       # (comm,dst) -> list of recv Req (unmatched)
        self.unexp = {}        # (comm,dst) -> list of send Req (unmatched)
        self.coll = {}         # (comm, idx) -> slot
        self.collidx = {}      # (comm, rank) -> n
        self.ncomm = 1
        self.comms = {0: self.size}
        self.nops = 0
        self.nswitch = 0
        self.messages = 0
        self.active = [dict() for _ in range(size)]
        self.oplog = None

    # ------------------------------------------------------------ scheduling
    def problem(self, kind, text):
        self.problems.append(f"{kind}: {text}")

    def _enabled(self, r):
        st = self.state[r]
        if st == "ready":
            return True
        if st == "blocked":
            return bool(self.pred[r]())
        return False

    def _switch(self, me, to):
        self.nswitch += 1
        if self.state[to] == "blocked":
            self.state[to] = "ready"
            self.pred[to] = None
        self.sems[to].release()
        if me is not None:
            self.sems[me].acquire()

    def _die(self):
        """park this rank for ever (the execution is over)"""
        self.over = True
        self.done_evt.release()
        threading.Event().wait()

    def yield_point(self):
        me = cur_rank()
        if me is None:
            raise RuntimeError("MPI call outside a simulated rank")
        self.nops += 1
        ch = self.chooser
        if self.size == 1:
            return
        others = ch.rank_order([r for r in range(self.size) if r != me and self._enabled(r)])
        if ch.rr:
            if others:
                nxt = min(others, key=lambda r: (r - me) % self.size)
                self._switch(me, nxt)
            return
        opts = [me] + others
        c = ch.pick(len(opts), True)
        if c:
            self._switch(me, opts[c])

    def block(self, pred, desc):
        me = cur_rank()
        if pred():
            return
        self.state[me] = "blocked"
        self.pred[me] = pred
        self.bdesc[me] = desc
        self._next(me)

    def _next(self, me):
        """give the baton away (me is blocked or finished)"""
        opts = self.chooser.rank_order([r for r in range(self.size) if r != me and self._enabled(r)])
        if me is not None and self.state[me] == "blocked" and self.pred[me]():
            opts.append(me)
        if not opts:
            if all(s == "finished" for s in self.state):
                self.over = True
                self.done_evt.release()
                return
            self.problem("deadlock", "; ".join(
                f"rank {r}: {self.state[r]}" + (f" in {self.bdesc[r]}" if self.state[r] == "blocked" else "") for r in range(self.size)))
            if self.state[me] == "finished":
                self.over = True
                self.done_evt.release()
                return
            self._die()
        c = self.chooser.pick(len(opts), False)
        to = opts[c]
        if to == me:
            self.state[me] = "ready"
            self.pred[me] = None
            return
        if self.state[me] == "finished":
            self._switch(None, to)
        else:
            self._switch(me, to)

    def run(self, fn, *args):
        """fn(rank, *args) on every rank.  Returns self."""
        global _world
        _world = self
        load_lib()

        def body(r):
            _tls.rank = r
            _tls.world = self
            self.sems[r].acquire()
            try:
                self.results[r] = fn(r, *args)
            except SimAbort:
                pass
            except BaseException as e:      # noqa
                import traceback
                self.errors[r] = (e, traceback.format_exc())
            finally:
                if not self.over:
                    self.state[r] = "finished"
                    self._next(r)

        ths = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        for t in ths:
            t.start()
        first = self.chooser.rank_order(list(range(self.size)))
        c = self.chooser.pick(len(first), False)
        self.sems[first[c]].release()
        self.done_evt.acquire()
        if all(s == "finished" for s in self.state):
            for t in ths:
                t.join()
            if self.aborted is None and not any(self.errors):
                self._final_checks()
        return self

    def _final_checks(self):
        for key, l in self.unexp.items():
            for r in l:
                self.problem("unmatched-send", r.desc())
        for key, l in self.posted.items():
            for r in l:
                if not r.cancelled:
                    self.problem("unmatched-recv", r.desc())
        for r in self.reqs.values():
            if r.kind == "recv" and not r.done and r.match is not None:
                self.problem("recv-never-completed", r.desc())

    def ok(self):
        return not self.problems and not any(self.errors) and self.aborted is None

    def report(self):
        out = list(self.problems)
        for r, e in enumerate(self.errors):
            if e is not None:
                out.append(f"rank {r} raised {type(e[0]).__name__}: {e[0]}\n{e[1]}")
        if self.aborted is not None:
            out.append(f"MPI_Abort by rank {self.aborted}")
        return "\n".join(out)

    # ------------------------------------------------------------ messages
    def _check_overlap(self, q):
        if not self.mode.overlap or not q.nbytes or q.addr is None:
            return
        act = self.active[q.rank]
        a = [(q.addr + q.runs[2 * i], q.addr + q.runs[2 * i] + q.runs[2 * i + 1]) for i in range(q.nruns)]
        lo, hi = a[0][0], a[-1][1]
        for o, (olo, ohi, oa) in act.items():
            if o.kind == "send" and q.kind == "send":
                continue
            if olo < hi and lo < ohi:
                i = j = 0
                while i < len(a) and j < len(oa):
                    if a[i][0] < oa[j][1] and oa[j][0] < a[i][1]:
                        self.problem("overlap", f"{q.desc()} overlaps active {o.desc()}")
                        return
                    if a[i][1] <= oa[j][1]:
                        i += 1
                    else:
                        j += 1
        act[q] = (lo, hi, a)

    def _pack(self, q):
        buf = ctypes.create_string_buffer(max(q.nbytes, 1))
        if q.nbytes:
            _lib.simmpi_pack(q.addr, q.runs, q.nruns, buf)
        return buf.raw[:q.nbytes]

    def _newreq(self, kind, peer, tag, comm):
        q = Req()
        q.kind, q.peer, q.tag, q.comm = kind, peer, tag, comm
        q.rank = cur_rank()
        self.nreq += 1
        q.id = self.nreq
        self.reqs[q.id] = q
        return q

    def _set_buf(self, q, addr, count, t):
        if not _lib.simmpi_type_ok(t) or count < 0:
            self.problem("mpi-error", f"{q.desc()} with invalid datatype {t} or count {count}")
            count = 0
            t = 1
        q.esize = max(_lib.simmpi_type_size(t), 1)
        q.nbytes = _lib.simmpi_type_size(t) * count
        if q.nbytes:
            n = _lib.simmpi_runs(t, count, None, 0)
            q.runs = (ctypes.c_long * (2 * n))()
            q.nruns = _lib.simmpi_runs(t, count, q.runs, n)
            q.addr = addr
            if not addr:
                self.problem("mpi-error", f"{q.desc()} with a null buffer")
                q.nbytes = 0

    def post_send(self, q):
        if not (0 <= q.peer < self.size):
            if q.peer == -2:
                q.done = True
                return
            self.problem("mpi-error", f"{q.desc()}: invalid destination")
            return
        if q.tag < 0:
            self.problem("mpi-error", f"{q.desc()}: invalid tag")
        self.messages += 1
        if q.addr is not None:
            self._check_overlap(q)
            data = self._pack(q)
            q.crc = zlib.crc32(data)
            if self.mode.capture == "eager":
                q.data = data
        lst = self.posted.get((q.comm, q.peer), [])
        for i, r in enumerate(lst):
            if r.cancelled:
                continue
            if r.peer in (ANY, q.rank) and r.tag in (ANY, q.tag):
                del lst[i]
                self._matched(q, r)
                return
        self.unexp.setdefault((q.comm, q.peer), []).append(q)

    def post_recv(self, r):
        if not (0 <= r.peer < self.size) and r.peer != ANY:
            if r.peer == -2:
                r.done = True
                return
            self.problem("mpi-error", f"{r.desc()}: invalid source")
            return
        if r.addr is not None:
            self._check_overlap(r)
            if self.mode.poison and r.nbytes:
                _lib.simmpi_unpack(r.addr, r.runs, r.nruns, (b"\xff\xf8\xde\xad\xbe\xef\xf9\x7f" * (r.nbytes // 8 + 1)), r.nbytes)
            r.crc = zlib.crc32(self._pack(r))
        lst = self.unexp.get((r.comm, r.rank), [])
        cands = []
        seen = set()
        for i, s in enumerate(lst):
            if (r.peer in (ANY, s.rank)) and (r.tag in (ANY, s.tag)) and s.rank not in seen:
                seen.add(s.rank)
                cands.append(i)
        if cands:
            c = self.chooser.pick(len(cands), False)
            s = lst.pop(cands[c])
            self._matched(s, r)
            return
        self.posted.setdefault((r.comm, r.rank), []).append(r)

    def _matched(self, s, r):
        s.match, r.match = r, s
        r.recv_src, r.recv_tag, r.recv_n = s.rank, s.tag, s.nbytes
        if s.nbytes > r.nbytes and not (s.obj or r.obj):
            self.problem("truncation", f"{s.desc()} into {r.desc()}")
        if s.obj != r.obj and (s.nbytes or r.nbytes):
            self.problem("type-mismatch", f"{s.desc()} into {r.desc()}")
        if self.mode.write == "early":
            self._deliver(s, r)

    def _capture(self, s):
        if s.data is None and s.addr is not None:
            s.data = self._pack(s)
            if zlib.crc32(s.data) != s.crc:
                self.problem("send-buffer-modified", s.desc())
                s.crc = zlib.crc32(s.data)

    def _deliver(self, s, r):
        if r.written:
            return
        r.written = True
        if r.obj:
            r.data = s.data
            return
        self._capture(s)
        if r.addr is not None and r.nbytes:
            if zlib.crc32(self._pack(r)) != r.crc:
                self.problem("recv-buffer-modified", r.desc())
            d = s.data or b""
            if d:
                _lib.simmpi_unpack(r.addr, r.runs, r.nruns, d, min(len(d), r.nbytes))
            r.crc = zlib.crc32(self._pack(r))

    def complete(self, q):
        if q.done or q.cancelled:
            return True
        if q.kind == "recv":
            return q.match is not None
        return (self.mode.eager and q.kind == "send") or q.match is not None

    def finish(self, q):
        if q.done:
            return
        q.done = True
        self.active[q.rank].pop(q, None)
        if q.cancelled:
            return
        if q.kind == "recv":
            if self.mode.write == "early" and q.addr is not None and q.nbytes:
                if zlib.crc32(self._pack(q)) != q.crc:
                    self.problem("recv-buffer-modified", q.desc())
            self._deliver(q.match, q)
        else:
            if q.addr is not None:
                if q.data is None:
                    self._capture(q)
                elif zlib.crc32(self._pack(q)) != q.crc:
                    self.problem("send-buffer-modified", q.desc())
        q.keep = None
        self.reqs.pop(q.id, None)

    def wait(self, qs, why="Wait"):
        qs = [q for q in qs if q is not None]
        self.yield_point()
        self.block(lambda: all(self.complete(q) for q in qs),
                   why + "[" + ", ".join(q.desc() for q in qs[:3]) + ("..." if len(qs) > 3 else "") + "]")
        for q in qs:
            self.finish(q)

    # ------------------------------------------------------------ collectives
    def collective(self, comm, kind, root, payload):
        """returns dict rank->payload visible to this rank"""
        me = cur_rank()
        self.yield_point()
        idx = self.collidx.get((comm, me), 0)
        self.collidx[(comm, me)] = idx + 1
        slot = self.coll.setdefault((comm, idx), {"kind": kind, "root": root, "by": me, "vals": {}})
        if (slot["kind"], slot["root"]) != (kind, root):
            self.problem("collective-mismatch", f"rank {me} calls {kind}(root={root}) where rank {slot['by']} called "
                         f"{slot['kind']}(root={slot['root']}) on communicator {comm} (collective #{idx})")
            self._die()
        slot["vals"][me] = payload
        full = lambda: len(slot["vals"]) == self.size       # noqa
        if kind in ("barrier", "allgather", "allreduce", "dup", "alltoall", "split") or self.mode.collsync:
            pred = full
        elif kind in ("bcast", "scatter"):
            pred = (lambda: root in slot["vals"])
        else:                           # gather, reduce
            pred = full if me == root else (lambda: True)
        self.block(pred, f"{kind}#{idx}(comm={comm})")
        vals = slot["vals"]
        slot.setdefault("left", set()).add(me)
        if len(slot["left"]) == self.size:
            self.coll.pop((comm, idx), None)
        return vals


def W():
    w = getattr(_tls, "world", None)
    if w is None:
        return _solo()
    return w


_solo_world = None


def _solo():
    """outside a world: behave as a single-rank MPI"""
    global _solo_world
    if _solo_world is None:
        _solo_world = World(1)
    _tls.rank = 0
    _tls.world = _solo_world
    load_lib()
    return _solo_world


# ---------------------------------------------------------------- C callbacks
def _guard(f):
    def g(*a):
        try:
            return f(*a)
        except SimAbort:
            return -5
        except BaseException as e:      # harness failure: make it loud
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(97)
    return g


@_guard
def _cb_rank(comm, what):
    w = W()
    return w.size if what else cur_rank()


@_guard
def _cb_p2p(kind, buf, count, t, peer, tag, comm, st):
    w = W()
    w.yield_point()
    q = w._newreq({0: "send", 1: "recv", 2: "ssend"}[kind], peer, tag, comm)
    w._set_buf(q, buf, count, t)
    (w.post_recv if kind == 1 else w.post_send)(q)
    return q.id


class _Status(ctypes.Structure):
    _fields_ = [("src", ctypes.c_int), ("tag", ctypes.c_int), ("err", ctypes.c_int), ("c", ctypes.c_int), ("n", ctypes.c_size_t)]


@_guard
def _cb_wait(n, reqs, what, statuses):
    w = W()
    arr = ctypes.cast(reqs, ctypes.POINTER(ctypes.c_int))
    ids = [arr[i] for i in range(n)]
    qs = []
    for i in ids:
        if i == -1:
            qs.append(None)
            continue
        q = w.reqs.get(i)
        if q is None:
            w.problem("mpi-error", f"rank {cur_rank()} waits on an invalid request {i}")
        elif q.rank != cur_rank():
            w.problem("mpi-error", f"rank {cur_rank()} waits on a request of rank {q.rank}")
        qs.append(q)

    def status(k, q):
        if statuses:
            s = ctypes.cast(statuses, ctypes.POINTER(_Status))[k]
            if q is not None and q.kind == "recv":
                s.src, s.tag, s.n = q.recv_src, q.recv_tag, q.recv_n
    if what == 0:
        w.wait(qs)
        for k, q in enumerate(qs):
            status(k, q)
            arr[k] = -1
        return 0
    if what == 1:
        w.yield_point()
        if all(q is None or w.complete(q) for q in qs):
            for k, q in enumerate(qs):
                if q is not None:
                    w.finish(q)
                status(k, q)
                arr[k] = -1
            return 1
        # a poll that fails lets another rank run (else a polling loop spins for ever)
        me = cur_rank()
        if w.size > 1 and not w.chooser.rr:
            others = [r for r in range(w.size) if r != me and w._enabled(r)]
            if others:
                nxt = min(others, key=lambda r: (r - me) % w.size)
                w._switch(me, nxt)
            else:
                w.block(lambda: any(q is not None and w.complete(q) for q in qs), "Test loop")
        return 0
    if what == 2:
        live = [q for q in qs if q is not None]
        if not live:
            return -1
        w.yield_point()
        w.block(lambda: any(w.complete(q) for q in live), "Waitany")
        ready = [k for k, q in enumerate(qs) if q is not None and w.complete(q)]
        k = ready[w.chooser.pick(len(ready), False)]
        w.finish(qs[k])
        status(0, qs[k])
        arr[k] = -1
        return k
    if what == 4:
        for q in qs:
            if q is not None and q.match is None:
                q.cancelled = True
        return 0
    return 0


@_guard
def _cb_coll(kind, sb, rb, count, t, x, comm):
    w = W()
    if kind == 0:
        w.collective(comm, "barrier", 0, None)
        return 0
    if kind == 1:
        _abort(w)
        return 0
    nb = _lib.simmpi_type_size(t) * count
    if kind == 2:
        mine = ctypes.string_at(sb, nb) if cur_rank() == x else None
        v = w.collective(comm, "bcast", x, mine)
        ctypes.memmove(rb, v[x], nb)
        return 0
    src = rb if sb == 1 else sb
    v = w.collective(comm, "allreduce", 0, ctypes.string_at(src, nb))
    dt = {3: np.int32, 4: np.int64, 5: np.int64, 6: np.int64, 7: np.float32, 8: np.float64, 10: np.uint64, 11: np.uint64}[t]
    red = {1: np.maximum, 2: np.minimum, 3: np.add, 4: np.multiply, 5: np.logical_and, 6: np.logical_or}[x]
    acc = None
    for r in range(w.size):
        a = np.frombuffer(v[r], dt)
        acc = a.copy() if acc is None else red(acc, a).astype(dt)
    ctypes.memmove(rb, acc.tobytes(), nb)
    return 0


def _abort(w):
    w.aborted = cur_rank()
    w._die()


_cbs = []


def load_lib():
    global _lib
    if _lib is not None:
        return _lib
    path = os.environ.get("VERIF_SIMMPI") or os.path.join(os.environ["VERIF_SCRATCH_DIR"], "lib", "libsimmpi.so")
    _lib = ctypes.CDLL(path, mode=ctypes.RTLD_GLOBAL)
    for f in ("simmpi_type_size", "simmpi_type_extent"):
        getattr(_lib, f).restype = ctypes.c_long
    _lib.simmpi_runs.restype = ctypes.c_long
    _lib.simmpi_pack.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long, ctypes.c_void_p]
    _lib.simmpi_unpack.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long, ctypes.c_char_p, ctypes.c_long]
    _lib.simmpi_unpack.restype = ctypes.c_long
    I, P = ctypes.c_int, ctypes.c_void_p
    t1 = ctypes.CFUNCTYPE(I, I, I)
    t2 = ctypes.CFUNCTYPE(I, I, P, I, I, I, I, I, P)
    t3 = ctypes.CFUNCTYPE(I, I, P, I, P)
    t4 = ctypes.CFUNCTYPE(I, I, P, P, I, I, I, I)
    _cbs.extend([t1(_cb_rank), t2(_cb_p2p), t3(_cb_wait), t4(_cb_coll)])
    _lib.simmpi_register(*_cbs)
    return _lib


# ---------------------------------------------------------------- mpi4py look-alike
class Status:
    def __init__(self):
        self._src = self._tag = -1
        self._n = 0

    def Get_source(self):
        return self._src

    def Get_tag(self):
        return self._tag

    def Get_count(self, datatype=None):
        return self._n

    source = property(Get_source)
    tag = property(Get_tag)


class Request:
    def __init__(self, q=None, keep=None):
        self._q = q
        self._keep = keep

    def _result(self):
        q = self._q
        if q is not None and q.kind == "recv" and q.obj:
            return pickle.loads(q.data)
        return None

    def wait(self, status=None):
        if self._q is not None:
            W().wait([self._q])
        return self._result()

    def Wait(self, status=None):
        if self._q is not None:
            W().wait([self._q])
        return True

    def test(self, status=None):
        w = W()
        w.yield_point()
        if self._q is None or w.complete(self._q):
            if self._q is not None:
                w.finish(self._q)
            return True, self._result()
        me = cur_rank()
        others = [r for r in range(w.size) if r != me and w._enabled(r)]
        if others and not w.chooser.rr:
            w._switch(me, min(others, key=lambda r: (r - me) % w.size))
        return False, None

    def Test(self, status=None):
        return self.test(status)[0]

    def Free(self):
        pass

    @classmethod
    def waitall(cls, reqs, statuses=None):
        W().wait([r._q for r in reqs], "waitall")
        return [r._result() for r in reqs]

    @classmethod
    def Waitall(cls, reqs, statuses=None):
        W().wait([r._q for r in reqs], "Waitall")
        return True

    @classmethod
    def waitany(cls, reqs, status=None):
        w = W()
        w.yield_point()
        w.block(lambda: any(r._q is None or w.complete(r._q) for r in reqs), "waitany")
        ready = [k for k, r in enumerate(reqs) if r._q is None or w.complete(r._q)]
        k = ready[w.chooser.pick(len(ready), False)]
        if reqs[k]._q is not None:
            w.finish(reqs[k]._q)
        return k, reqs[k]._result()


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)


def _buf(b):
    """numpy view of a message buffer specification"""
    if isinstance(b, (list, tuple)):
        b = b[0]
    return np.asarray(b)


class Comm:
    def __init__(self, handle=0):
        self._simh = handle

    # pickling: predefined handles by name, others not picklable (as in mpi4py)
    def __reduce__(self):
        if self._simh == 0:
            return (_get_world_comm, ())
        raise ValueError("cannot pickle")

    def __eq__(self, o):
        return isinstance(o, Comm) and o._simh == self._simh

    def __hash__(self):
        return hash(self._simh)

    def Get_rank(self):
        W()
        return cur_rank()

    def Get_size(self):
        return W().size

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return f"sim{self._simh}"

    def Dup(self, info=None):
        w = W()
        v = w.collective(self._simh, "dup", 0, w.ncomm if cur_rank() == 0 else None)
        # all ranks agree on the handle chosen through rank 0
        key = ("dup", self._simh, w.collidx[(self._simh, cur_rank())])
        if key not in w.comms:
            w.comms[key] = w.ncomm
            w.ncomm += 1
        return Comm(w.comms[key])

    Clone = Dup

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        w = W()
        w.aborted = cur_rank()
        if w.size == 1 and w is _solo_world:
            raise SystemExit(errorcode)
        w._die()

    # ---- collectives, pickled objects
    def Barrier(self):
        W().collective(self._simh, "barrier", 0, None)

    barrier = Barrier

    @staticmethod
    def _d(o):
        return pickle.dumps(o)

    def bcast(self, obj=None, root=0):
        v = W().collective(self._simh, "bcast", root, self._d(obj) if cur_rank() == root else None)
        return obj if cur_rank() == root else pickle.loads(v[root])

    def scatter(self, sendobj=None, root=0):
        w = W()
        p = None
        if cur_rank() == root:
            assert len(sendobj) == w.size
            p = [self._d(o) for o in sendobj]
        v = w.collective(self._simh, "scatter", root, p)
        return pickle.loads(v[root][cur_rank()])

    def gather(self, sendobj=None, root=0):
        w = W()
        v = w.collective(self._simh, "gather", root, self._d(sendobj))
        return [pickle.loads(v[r]) for r in range(w.size)] if cur_rank() == root else None

    def allgather(self, sendobj=None):
        w = W()
        v = w.collective(self._simh, "allgather", 0, self._d(sendobj))
        return [pickle.loads(v[r]) for r in range(w.size)]

    def alltoall(self, sendobj=None):
        w = W()
        me = cur_rank()
        v = w.collective(self._simh, "alltoall", 0, [self._d(o) for o in sendobj])
        return [pickle.loads(v[r][me]) for r in range(w.size)]

    def _red(self, v, op):
        acc = None
        for r in range(W().size):
            o = pickle.loads(v[r])
            acc = o if r == 0 else (op or SUM)(acc, o)
        return acc

    def reduce(self, sendobj=None, op=None, root=0):
        v = W().collective(self._simh, "reduce", root, self._d(sendobj))
        return self._red(v, op) if cur_rank() == root else None

    def allreduce(self, sendobj=None, op=None):
        v = W().collective(self._simh, "allreduce", 0, self._d(sendobj))
        return self._red(v, op)

    # ---- collectives, buffers
    def Bcast(self, buf, root=0):
        a = _buf(buf)
        v = W().collective(self._simh, "bcast", root, a.tobytes() if cur_rank() == root else None)
        if cur_rank() != root:
            a[...] = np.frombuffer(v[root], a.dtype).reshape(a.shape)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        r_ = _buf(recvbuf)
        s_ = r_ if sendbuf is IN_PLACE else _buf(sendbuf)
        v = W().collective(self._simh, "allreduce", 0, self._d(np.array(s_)))
        r_[...] = np.asarray(self._red(v, op)).reshape(r_.shape)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        s_ = _buf(recvbuf) if sendbuf is IN_PLACE else _buf(sendbuf)
        v = W().collective(self._simh, "reduce", root, self._d(np.array(s_)))
        if cur_rank() == root:
            r_ = _buf(recvbuf)
            r_[...] = np.asarray(self._red(v, op)).reshape(r_.shape)

    def Gather(self, sendbuf, recvbuf, root=0):
        w = W()
        v = w.collective(self._simh, "gather", root, self._d(np.array(_buf(sendbuf))))
        if cur_rank() == root:
            r_ = _buf(recvbuf)
            r_[...] = np.concatenate([np.ravel(pickle.loads(v[r])) for r in range(w.size)]).reshape(r_.shape)

    def Allgather(self, sendbuf, recvbuf):
        w = W()
        v = w.collective(self._simh, "allgather", 0, self._d(np.array(_buf(sendbuf))))
        r_ = _buf(recvbuf)
        r_[...] = np.concatenate([np.ravel(pickle.loads(v[r])) for r in range(w.size)]).reshape(r_.shape)

    # ---- point to point, pickled objects
    def isend(self, obj, dest, tag=0):
        return self._isend(obj, dest, tag, "send")

    def issend(self, obj, dest, tag=0):
        return self._isend(obj, dest, tag, "ssend")

    def _isend(self, obj, dest, tag, kind):
        w = W()
        w.yield_point()
        q = w._newreq(kind, dest, tag, self._simh)
        q.obj = True
        q.data = self._d(obj)
        q.nbytes = len(q.data)
        w.post_send(q)
        return Request(q)

    def send(self, obj, dest, tag=0):
        self.isend(obj, dest, tag).wait()

    def ssend(self, obj, dest, tag=0):
        self.issend(obj, dest, tag).wait()

    def irecv(self, buf=None, source=ANY, tag=ANY):
        w = W()
        w.yield_point()
        q = w._newreq("recv", source, tag, self._simh)
        q.obj = True
        w.post_recv(q)
        return Request(q)

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        r = self.irecv(None, source, tag)
        out = r.wait()
        if status is not None:
            status._src, status._tag = r._q.recv_src, r._q.recv_tag
        return out

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        r = self.irecv(None, source, recvtag)
        s = self.isend(sendobj, dest, sendtag)
        s.wait()
        return r.wait()

    # ---- point to point, buffers
    def _post_buf(self, buf, peer, tag, kind):
        w = W()
        w.yield_point()
        a = _buf(buf)
        if not (a.flags.c_contiguous or a.flags.f_contiguous):
            raise ValueError("ndarray is not contiguous")
        q = w._newreq(kind, peer, tag, self._simh)
        q.keep = a
        w._set_buf(q, a.ctypes.data, a.nbytes, 1)
        (w.post_recv if kind == "recv" else w.post_send)(q)
        return Request(q, a)

    def Isend(self, buf, dest, tag=0):
        return self._post_buf(buf, dest, tag, "send")

    def Issend(self, buf, dest, tag=0):
        return self._post_buf(buf, dest, tag, "ssend")

    def Irecv(self, buf, source=ANY, tag=ANY):
        return self._post_buf(buf, source, tag, "recv")

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).Wait()

    def Ssend(self, buf, dest, tag=0):
        self.Issend(buf, dest, tag).Wait()

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        r = self.Irecv(buf, source, tag)
        r.Wait()
        if status is not None:
            status._src, status._tag, status._n = r._q.recv_src, r._q.recv_tag, r._q.recv_n

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        r = self.Irecv(recvbuf, source, recvtag)
        s = self.Isend(sendbuf, dest, sendtag)
        s.Wait()
        r.Wait()

    def Iprobe(self, source=ANY, tag=ANY, status=None):
        w = W()
        w.yield_point()
        return any((source in (ANY, s.rank)) and (tag in (ANY, s.tag)) for s in w.unexp.get((self._simh, cur_rank()), []))

    iprobe = Iprobe

    def Probe(self, source=ANY, tag=ANY, status=None):
        w = W()
        w.yield_point()
        find = lambda: [s for s in w.unexp.get((self._simh, cur_rank()), [])     # noqa
                        if (source in (ANY, s.rank)) and (tag in (ANY, s.tag))]
        w.block(lambda: bool(find()), "Probe")
        s = find()[0]
        if status is not None:
            status._src, status._tag, status._n = s.rank, s.tag, s.nbytes
        return True

    probe = Probe


IN_PLACE = object()
SUM = Op("SUM", lambda a, b: a + b)
MAX = Op("MAX", lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b))
MIN = Op("MIN", lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b))
PROD = Op("PROD", lambda a, b: a * b)
LOR = Op("LOR", lambda a, b: np.logical_or(a, b) if isinstance(a, np.ndarray) else bool(a or b))
LAND = Op("LAND", lambda a, b: np.logical_and(a, b) if isinstance(a, np.ndarray) else bool(a and b))
BOR = Op("BOR", lambda a, b: a | b)

COMM_WORLD = Comm(0)


def _get_world_comm():
    return COMM_WORLD


def install():
    """put the look-alike in sys.modules as mpi4py / mpi4py.MPI"""
    if "mpi4py" in sys.modules and not getattr(sys.modules["mpi4py"], "_simulated", False):
        raise RuntimeError("the real mpi4py is already imported")
    pk = types.ModuleType("mpi4py")
    pk._simulated = True
    pk.__path__ = []
    pk.__version__ = "4.1.2"
    m = types.ModuleType("mpi4py.MPI")
    for k, v in dict(Comm=Comm, Intracomm=Comm, Request=Request, Status=Status, Op=Op, COMM_WORLD=COMM_WORLD, COMM_SELF=None,
                     COMM_NULL=None, ANY_SOURCE=ANY, ANY_TAG=ANY, PROC_NULL=-2, SUM=SUM, MAX=MAX, MIN=MIN, PROD=PROD,
                     LOR=LOR, LAND=LAND, BOR=BOR, IN_PLACE=IN_PLACE, Exception=RuntimeError, THREAD_MULTIPLE=3,
                     DOUBLE=8, INT=3, LONG=4, BYTE=1, INT64_T=6, UINT64_T=11, FLOAT=7).items():
        setattr(m, k, v)
    m.Is_initialized = lambda: True
    m.Is_finalized = lambda: False
    m.Query_thread = lambda: 3
    m.Get_processor_name = lambda: "sim"
    m.Wtime = lambda: 0.0
    pk.MPI = m
    pk.get_include = lambda: ""
    sys.modules["mpi4py"] = pk
    sys.modules["mpi4py.MPI"] = m
    from vlib import freshlist
    freshlist.install()
    load_lib()


def rank_orders(n, limit=None):
    ps = list(itertools.permutations(range(n)))
    return ps if limit is None else ps[:limit]
