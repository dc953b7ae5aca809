"""Job runner: one process per job, results collected through pipes.

A job is (name, function, kwargs).  It receives a Ctx, through which it
reports cases, states, transitions and violations.  A job that dies from a
signal, or stays silent longer than its allowance, is a violation at the case
it had announced; an exception raised inside the package under test is one
too; an exception of the harness itself makes the whole check an error.
"""
import hashlib
import json
import mmap
import os
import pickle
import selectors
import signal
import sys
import time
import traceback

HANG_S = float(os.environ.get("VERIF_HANG_S", "240"))


class StopJob(BaseException):
    pass


class Ctx:
    MAXV = 40

    def __init__(self, prop, tier, seed, note):
        self.prop, self.tier, self.seed = prop, tier, seed
        self._note = note
        self.counts = {}
        self.states = set()
        self.violations = []
        self.samples = []
        self.info = {}
        self._vkeys = set()
        self.t0 = time.time()
        self._cur = None

    # ---- bookkeeping
    def case(self, desc):
        """announce the case about to be executed (kept if the process dies)"""
        self._cur = desc
        b = json.dumps(desc, default=str)[:3900].encode()
        self._note.seek(0)
        self._note.write(len(b).to_bytes(4, "little") + b + int(time.time()).to_bytes(8, "little"))

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, *objs):
        """record a distinct explored state (hash of canonical content); True if new"""
        h = digest(*objs)
        new = h not in self.states
        self.states.add(h)
        return new

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, detail, replay=None):
        """key: stable identification of what fails (matched against known findings)"""
        self.add("violations_raw")
        if key in self._vkeys or len(self.violations) >= self.MAXV:
            return
        self._vkeys.add(key)
        self.violations.append({"key": key, "detail": str(detail)[:6000], "case": self._cur, "replay": replay})

    def elapsed(self):
        return time.time() - self.t0


def digest(*objs):
    h = hashlib.blake2b(digest_size=10)
    for o in objs:
        if hasattr(o, "tobytes"):
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            h.update(o.tobytes())
        elif isinstance(o, bytes):
            h.update(o)
        else:
            h.update(repr(o).encode())
        h.update(b"|")
    return h.digest()


def package_frame(tb_exc, pkgdir):
    """is there a frame of the package under test in this traceback?"""
    tb = tb_exc.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if pkgdir in fn:
            last = f"{os.path.relpath(fn, pkgdir)}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return last


def run_jobs(prop, tier, seed, jobs, nproc=8, hang_s=None, pkgdir=None, progress=None):
    """returns (merged, harness_errors)"""
    hang_s = hang_s or HANG_S
    sel = selectors.DefaultSelector()
    pending = list(enumerate(jobs))
    live = {}
    merged = {"counts": {}, "states": set(), "violations": [], "samples": [], "info": {}, "jobs": 0}
    herr = []

    def start(i, job):
        name, fn, kw = job
        note = mmap.mmap(-1, 8192)
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            os.setpgrp()
            code = 0
            if not os.environ.get("VERIF_DEBUG"):
                nul = os.open(os.devnull, os.O_RDWR)
                os.dup2(nul, 1)
                os.dup2(nul, 2)
            ctx = Ctx(prop, tier, seed, note)
            ctx.case({"job": name, "args": kw})
            err = None
            try:
                fn(ctx, **kw)
            except StopJob:
                pass
            except BaseException as e:          # noqa
                where = package_frame(e, pkgdir) if pkgdir else None
                tb = traceback.format_exc()
                if where and not isinstance(e, KeyboardInterrupt):
                    ctx.violation(f"exception:{type(e).__name__}:{where}:{name}", tb)
                else:
                    err = tb
            try:
                data = pickle.dumps({"counts": ctx.counts, "states": ctx.states, "violations": ctx.violations,
                                     "samples": ctx.samples, "info": ctx.info, "err": err})
                with os.fdopen(wfd, "wb") as f:
                    f.write(data)
            except BaseException:           # noqa
                traceback.print_exc()
                code = 98
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        os.close(wfd)
        os.set_blocking(rfd, False)
        sel.register(rfd, selectors.EVENT_READ, pid)
        live[pid] = {"rfd": rfd, "buf": [], "name": name, "kw": kw, "note": note, "t": time.time(), "t0": time.time(), "seen": b"", "i": i}

    def note_of(L):
        m = L["note"]
        m.seek(0)
        n = int.from_bytes(m.read(4), "little")
        try:
            return json.loads(m.read(n).decode()) if 0 < n < 4000 else None
        except ValueError:
            return None

    def finish(pid, L, status, hung=False):
        data = b"".join(L["buf"])
        merged["jobs"] += 1
        if os.environ.get("VERIF_TIMES"):
            with open(os.environ["VERIF_TIMES"], "a") as f:
                f.write(f"{time.time() - L['t0']:8.1f} {prop} {L['name']}\n")
        res = None
        if data and not hung:
            try:
                res = pickle.loads(data)
            except Exception:           # noqa
                res = None
        if res is None:
            if hung:
                why = "no progress for %d s (hang or livelock)" % hang_s
                key = "hang"
            elif os.WIFSIGNALED(status):
                sg = os.WTERMSIG(status)
                why = f"killed by signal {sg} ({signal.Signals(sg).name})"
                key = "crash:" + signal.Signals(sg).name
                if sg == signal.SIGKILL:
                    herr.append(f"job {L['name']} was killed (memory?)")
                    return
            elif os.WIFEXITED(status) and os.WEXITSTATUS(status) in (97, 98):
                herr.append(f"job {L['name']}: harness failure, see above")
                return
            else:
                why = f"process ended unexpectedly (status {status})"
                key = "exit"
            merged["violations"].append({"key": f"{key}:{L['name']}", "detail": why, "case": note_of(L), "replay": None})
            return
        for k, v in res["counts"].items():
            merged["counts"][k] = merged["counts"].get(k, 0) + v
        merged["states"] |= res["states"]
        merged["violations"].extend(res["violations"])
        merged["samples"].extend(res["samples"])
        for k, v in res["info"].items():
            if isinstance(v, (set, list)):
                merged["info"].setdefault(k, [])
                merged["info"][k].extend(v)
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                merged["info"][k] = max(merged["info"].get(k, v), v)
            else:
                merged["info"][k] = v
        if res["err"]:
            herr.append(f"job {L['name']}:\n{res['err']}")

    while pending or live:
        while pending and len(live) < nproc:
            start(*pending.pop(0))
        for key, _ in sel.select(timeout=0.5):
            pid = key.data
            L = live[pid]
            try:
                d = os.read(key.fd, 1 << 20)
            except BlockingIOError:
                continue
            if d:
                L["buf"].append(d)
                continue
            sel.unregister(key.fd)
            os.close(key.fd)
            _, status = os.waitpid(pid, 0)
            del live[pid]
            finish(pid, L, status)
        now = time.time()
        for pid, L in list(live.items()):
            m = L["note"]
            m.seek(0)
            cur = m.read(4096)
            if cur != L["seen"]:
                L["seen"] = cur
                L["t"] = now
            elif now - L["t"] > hang_s:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                _, status = os.waitpid(pid, 0)
                sel.unregister(L["rfd"])
                os.close(L["rfd"])
                del live[pid]
                finish(pid, L, status, hung=True)
        if len(merged["violations"]) > 400:
            for pid in list(live):
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            break
    return merged, herr
