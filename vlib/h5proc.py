"""h5py for simulated processes: every simulated process has a real process of its own
that performs its HDF5 operations (so that each has its own library state and caches);
the scheduler may switch before every operation.

Files opened with the mpio driver (not available in this h5py) are emulated by one
more process shared by all ranks: opening, creating and closing are checked to be
collective, data operations are performed one at a time, in the order scheduled.
"""
import os
import pickle
import struct
import subprocess
import sys

import h5py

from vlib import h5server, simmpi

_real = h5py.File
_on = None            # active Hub


class Server:
    def __init__(self):
        env = dict(os.environ)
        self.p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "h5server.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def ask(self, *m):
        b = pickle.dumps(m)
        self.p.stdin.write(struct.pack("Q", len(b)))
        self.p.stdin.write(b)
        self.p.stdin.flush()
        h = self.p.stdout.read(8)
        if len(h) < 8:
            raise RuntimeError("the file process died")
        r = pickle.loads(self.p.stdout.read(struct.unpack("Q", h)[0]))
        if r[0] == "exc":
            raise r[1]
        return r

    def close(self):
        self.p.stdin.close()
        self.p.wait()


class Hub:
    """one server per rank (+ one for shared mpio files)"""

    def __init__(self, size):
        self.servers = [Server() for _ in range(size)]
        self.shared = None
        self.ops = 0
        self.log = None
        self.mpio = {}

    def of(self, r):
        return self.servers[r]

    def reset(self):
        for s in self.servers + ([self.shared] if self.shared else []):
            s.ask("reset", None, None, (), {})
        self.mpio = {}

    def close(self):
        for s in self.servers + ([self.shared] if self.shared else []):
            s.close()

    def __enter__(self):
        global _on
        _on = self
        self.reset()
        return self

    def __exit__(self, *a):
        global _on
        _on = None


QUIET = {"shape", "dtype", "name", "attrs", "filename", "mode", "ndim", "size", "chunks", "file", "parent", "id", "maxshape"}


class Remote:
    def __init__(self, hub, srv, i, kind, coll=None):
        self.__dict__.update(_h=hub, _s=srv, _i=i, _k=kind, _c=coll)

    def _ask(self, op, name, a=(), k=None, quiet=False):
        if not quiet and simmpi.cur_rank() is not None:
            simmpi.W().yield_point()
        self._h.ops += 1
        a = tuple(h5server.Handle(x._i) if isinstance(x, Remote) else x for x in a)
        return self._wrap(self._s.ask(op, self._i, name, a, k or {}))

    def _wrap(self, r):
        if r[0] == "ref":
            return Remote(self._h, self._s, r[1], r[2], self._c)
        if r[0] == "list":
            return [self._wrap(x) for x in r[1]]
        if r[0] == "list2":
            return [(x, self._wrap(y)) for x, y in r[1]]
        return r[1]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        r = self._s.ask("get", self._i, name, (), {})
        if r[0] != "fn":
            return self._wrap(r)
        return lambda *a, **k: self._call(name, a, k)

    def __setattr__(self, name, v):
        self._s.ask("set", self._i, name, (v,), {})

    def _call(self, name, a, k):
        if self._c is not None and (name.startswith(("create_", "require_")) or name in ("close", "flush", "resize")):
            return self._c.collective(self, name, a, k)
        return self._ask("call", name, a, k)

    def __getitem__(self, key):
        return self._ask("call", "__getitem__", (key,), quiet=self._k != "Dataset")

    def __setitem__(self, key, v):
        return self._ask("call", "__setitem__", (key, v))

    def __delitem__(self, key):
        return self._ask("call", "__delitem__", (key,))

    def __contains__(self, key):
        return self._ask("call", "__contains__", (key,), quiet=True)

    def __len__(self):
        return self._ask("call", "__len__", quiet=True)

    def __iter__(self):
        return iter(self._ask("iter", None, quiet=True))

    def __bool__(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._call("close", (), {})
        return False


class Shared:
    """one file opened collectively"""

    def __init__(self, hub, path):
        self.hub, self.path = hub, path
        self.calls = []             # collective calls in order
        self.at = {}                # rank -> number of collective calls done
        self.got = []
        self.root = None
        self.done = []

    def collective(self, remote, name, a, k):
        w = simmpi.W()
        me = simmpi.cur_rank()
        w.yield_point()
        n = self.at.get(me, 0)
        self.at[me] = n + 1
        data = k.get("data")
        sig = (name, tuple(x for x in a if isinstance(x, (str, int, tuple))), k.get("shape"), k.get("chunks"), None if data is None else data.shape)
        if n == len(self.calls):
            self.calls.append(sig)
            self.done.append(0)
            if name == "close":
                self.got.append(None)
            else:
                self.got.append(self.hub.shared.ask("call", remote._i, name, a, k))
        else:
            if self.calls[n] != sig:
                w.problem("mismatched-collective", f"{self.path}: rank {me} calls {sig} where another calls {self.calls[n]}")
            if data is not None and name != "close":
                i = self.got[n][1]
                self.hub.shared.ask("call", i, "__setitem__", (Ellipsis, data), {})
        self.done[n] += 1
        if name == "close":
            w.block(lambda: self.done[n] == w.size, f"close of {self.path}")
            if self.root is not None:
                self.hub.shared.ask("call", self.root, "close", (), {})
                self.root = None
                self.hub.mpio.pop(self.path, None)
            return None
        return remote._wrap(self.got[n])


def factory(*a, **k):
    if _on is None or simmpi.cur_rank() is None:
        return _real(*a, **k)
    hub = _on
    me = simmpi.cur_rank()
    w = simmpi.W()
    w.yield_point()
    hub.ops += 1
    if k.get("driver") == "mpio":
        k = {x: y for x, y in k.items() if x not in ("driver", "comm", "info")}
        if hub.shared is None:
            hub.shared = Server()
        path = str(a[0])
        c = hub.mpio.get(path)
        if c is None:
            c = hub.mpio[path] = Shared(hub, path)
            r = hub.shared.ask("open", None, None, a, k)
            c.root, c.kind = r[1], r[2]
            c.ranks = set()
        if me in c.ranks:
            w.problem("mismatched-collective", f"{path} opened twice by rank {me}")
        c.ranks.add(me)
        return Remote(hub, hub.shared, c.root, c.kind, c)
    r = hub.of(me).ask("open", None, None, a, k)
    return Remote(hub, hub.of(me), r[1], r[2])


def install():
    if h5py.File is not factory:
        h5py.File = factory
