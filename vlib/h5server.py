"""Performs h5py operations on behalf of one simulated process (a real process of its own)."""
import pickle
import struct
import sys

import h5py

inp, out = sys.stdin.buffer, sys.stdout.buffer
objs = {}
n = 0
H5 = (h5py.File, h5py.Group, h5py.Dataset, h5py.AttributeManager)


def ref(v):
    global n
    if isinstance(v, H5):
        n += 1
        objs[n] = v
        return ("ref", n, type(v).__name__)
    return ("val", v)


def handle(m):
    op, i, name, a, k = m
    if op == "open":
        return ref(h5py.File(*a, **k))
    if op == "reset":
        for o in list(objs.values()):
            if isinstance(o, h5py.File):
                try:
                    o.close()
                except Exception:
                    pass
        objs.clear()
        return ("val", None)
    o = objs[i]
    if op == "get":
        v = getattr(o, name)
        return ("fn", name) if callable(v) and not isinstance(v, H5) else ref(v)
    if op == "set":
        return ("val", setattr(o, name, a[0]))
    if op == "call":
        v = getattr(o, name)(*[objs[x.i] if isinstance(x, Handle) else x for x in a], **k)
        if name in ("keys", "values", "items"):
            v = list(v)
            if name == "values":
                return ("list", [ref(x) for x in v])
            if name == "items":
                return ("list2", [(x, ref(y)) for x, y in v])
        return ref(v)
    if op == "iter":
        return ("val", list(o))
    raise RuntimeError(op)


class Handle:
    def __init__(self, i):
        self.i = i


def loop():
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        m = pickle.loads(inp.read(struct.unpack("Q", h)[0]))
        try:
            r = handle(m)
            b = pickle.dumps(r)
        except Exception as e:      # noqa
            try:
                b = pickle.dumps(("exc", e))
                pickle.loads(b)
            except Exception:       # noqa
                b = pickle.dumps(("exc", RuntimeError(f"{type(e).__name__}: {e}")))
        out.write(struct.pack("Q", len(b)))
        out.write(b)
        out.flush()


if __name__ == "__main__":
    sys.modules["vlib.h5server"] = sys.modules["__main__"]
    loop()
