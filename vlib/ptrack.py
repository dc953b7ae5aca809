"""Controlled parallel loops: replaces numba's prange (interpreted mode) by an iterator whose order the harness
chooses, and records which array elements each iteration reads and writes. Two iterations touching one element, one of them
writing, are a conflict; without conflicts every interleaving of the iterations is equivalent to the one executed."""
import copy
import itertools
import sys
import types

import numpy as np

MODE = ("forward",)          # ("forward",), ("backward",), ("perm", k)
TRACK = True
stats = dict(loops=0, iterations=0, accesses=0, conflicts=0)
found = []
_it = None          # iteration being executed
_depth = 0
_w, _r = {}, {}
_where = ""
_loops = set()


def reset():
    stats.update(loops=0, iterations=0, accesses=0, conflicts=0)
    found.clear()


def _conflict(a, other, what):
    stats["conflicts"] += 1
    if len(found) < 16:
        found.append(f"{_where}: iterations {other} and {_it} {what}")


def _mark(addrs, write):
    if _it is None:
        return
    for a in addrs:
        stats["accesses"] += 1
        w = _w.get(a)
        if w is not None and w != _it:
            _conflict(a, w, "both write an element" if write else "write and read an element")
        if write:
            r = _r.get(a)
            if r is not None and r != _it:
                _conflict(a, r, "read and write an element")
            _w[a] = _it
        else:
            r = _r.get(a)
            _r[a] = _it if r is None or r == _it else -1


def _addrs(x):
    a = np.int64(x.__array_interface__["data"][0])
    out = np.array(a)
    for n, s in zip(x.shape, x.strides):
        out = out[..., None] + np.arange(n, dtype=np.int64) * s
    return out


def _use(x):
    """all elements of x are read"""
    if isinstance(x, Arr):
        if _it is not None:
            _mark(_addrs(x).ravel().tolist(), False)
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        return type(x)(_use(y) for y in x)
    return x


class _Flat:
    def __init__(self, a):
        self.a = a

    def __len__(self):
        return self.a.size

    def _key(self, k):
        return np.unravel_index(k, self.a.shape)

    def __getitem__(self, k):
        return self.a.reshape(-1)[k] if self.a.flags.c_contiguous else self.a[self._key(k)]

    def __setitem__(self, k, v):
        if self.a.flags.c_contiguous:
            self.a.reshape(-1)[k] = v
        else:
            self.a[self._key(k)] = v

    def __iter__(self):
        return (self[i] for i in range(self.a.size))


class Arr(np.ndarray):
    def _scalar(self, k):
        """address of the element k, or None if k is not one element"""
        if not isinstance(k, tuple):
            k = (k,)
        if len(k) != self.ndim:
            return None
        a = self.__array_interface__["data"][0]
        for i, n, s in zip(k, self.shape, self.strides):
            if not isinstance(i, (int, np.integer)) or isinstance(i, (bool, np.bool_)):
                return None
            a += (int(i) % n if i < 0 else int(i)) * s
        return a

    def __getitem__(self, k):
        k = _use(k) if not isinstance(k, tuple) else tuple(_use(i) for i in k)
        p = self.view(np.ndarray)
        if _it is None:
            r = p[k]
            return r.view(Arr) if isinstance(r, np.ndarray) and np.may_share_memory(r, p) else r
        a = self._scalar(k)
        if a is not None:
            r = p[k]          # an index outside raises here
            _mark((a,), False)
            return r
        r = p[k]
        if isinstance(r, np.ndarray) and np.may_share_memory(r, p):
            return r.view(Arr)
        _mark(np.ravel(_addrs(self)[k]).tolist(), False)
        return r

    def __setitem__(self, k, v):
        k = _use(k) if not isinstance(k, tuple) else tuple(_use(i) for i in k)
        v = _use(v)
        self.view(np.ndarray)[k] = v
        if _it is not None:
            a = self._scalar(k)
            _mark((a,) if a is not None else np.ravel(_addrs(self)[k]).tolist(), True)

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [_use(x) for x in inputs]
        if out is not None:
            kw["out"] = tuple(o.view(np.ndarray) if isinstance(o, Arr) else o for o in out)
        if "where" in kw:
            kw["where"] = _use(kw["where"])
        r = getattr(ufunc, method)(*ins, **kw)
        if method == "at" and isinstance(inputs[0], Arr):
            _mark(np.ravel(_addrs(inputs[0])[ins[1]]).tolist(), True)
        for o in out or ():
            if isinstance(o, Arr):
                _mark(_addrs(o).ravel().tolist(), True)
        return out[0] if out is not None and len(out) == 1 else r

    def __array_function__(self, func, types, args, kw):
        a = [_use(x) for x in args]
        r = func(*a, **{k: (v.view(np.ndarray) if k == "out" and isinstance(v, Arr) else _use(v)) for k, v in kw.items()})
        if isinstance(kw.get("out"), Arr):
            _mark(_addrs(kw["out"]).ravel().tolist(), True)
        if func in (np.copyto, np.put, np.place, np.putmask) and isinstance(args[0], Arr):
            _mark(_addrs(args[0]).ravel().tolist(), True)
        return r

    flat = property(lambda self: _Flat(self))

    def fill(self, v):
        self[...] = v


def _reader(name):
    f = getattr(np.ndarray, name)

    def g(self, *a, **k):
        return f(_use(self), *a, **k)
    setattr(Arr, name, g)


for _n in ("sum", "min", "max", "mean", "prod", "any", "all", "argmin", "argmax", "cumsum", "copy", "tolist", "nonzero", "argsort", "searchsorted",
           "astype", "take", "dot", "item", "std", "var", "round", "clip", "__bool__", "__float__", "__int__", "tobytes"):
    _reader(_n)


class Gen:
    """a random generator: every draw changes its state"""
    def __init__(self, g):
        self._g = g

    def __getattr__(self, a):
        if _it is not None:
            _mark((("gen", id(self._g)),), True)
        return getattr(self._g, a)


def _wrap(x, memo, top=True):
    if isinstance(x, Arr) or x is None or isinstance(x, (int, float, str, np.generic)):
        return x
    if isinstance(x, np.ndarray):
        return x.view(Arr) if x.dtype != object else x
    if isinstance(x, np.random.Generator):
        return Gen(x)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[_wrap(y, memo) for y in x])
    if isinstance(x, (list, tuple)):
        return type(x)(_wrap(y, memo) for y in x)
    d = getattr(x, "__dict__", None)
    if d and any(isinstance(v, np.ndarray) for v in d.values()) and type(x).__module__.startswith("lambdapic"):
        if id(x) not in memo:
            c = copy.copy(x)
            for k, v in d.items():
                if isinstance(v, np.ndarray):
                    object.__setattr__(c, k, _wrap(v, memo))
            memo[id(x)] = (c, x)
        return memo[id(x)][0]
    return x


class _NP:
    """numpy for modules with parallel loops: arrays they make outside the loops are shared, too"""
    MAKE = {"zeros", "empty", "ones", "full", "zeros_like", "empty_like", "ones_like", "full_like", "arange", "array"}

    def __getattr__(self, a):
        f = getattr(np, a)
        if a in self.MAKE and TRACK:
            def g(*x, **k):
                r = f(*x, **k)
                return r.view(Arr) if _depth and _it is None and isinstance(r, np.ndarray) else r
            return g
        return f


def _order(n):
    o = list(range(n))
    if MODE[0] == "backward":
        return o[::-1]
    if MODE[0] == "perm":
        m = min(n, 6)
        k, left, p = MODE[1], list(range(m)), []
        for i in range(m):
            j = k % (m - i)
            k //= m - i
            p.append(left.pop(j))
        return [x for i in p for x in range(i, n, m)]
    return o


def _prange(*a):
    global _it, _where
    R = range(*(int(x) for x in a))
    if _it is not None:
        yield from R
        return
    f = sys._getframe(1)
    _where = f"{f.f_globals.get('__name__', '?')}.{f.f_code.co_name}"
    _loops.add(f"{_where}:{f.f_lineno}")
    _w.clear()
    _r.clear()
    stats["loops"] += 1
    try:
        for i in _order(len(R)):
            stats["iterations"] += 1
            _it = R[i] if TRACK else None
            yield R[i]
    finally:
        _it = None


def kernels():
    """(module, name, function) of every function of the package with a parallel loop"""
    out = []
    for mn, m in sorted(sys.modules.items()):
        if not mn.startswith("lambdapic") or m is None:
            continue
        for k, v in list(vars(m).items()):
            g = inner(v)
            if g is not None and "prange" in g.__code__.co_names and g.__module__ == mn:
                out.append((m, k, v))
    return out


def inner(v):
    """the plain function behind decorators"""
    seen = 0
    while v is not None and seen < 6:
        if hasattr(v, "py_func"):
            v = v.py_func
        elif hasattr(v, "__wrapped__"):
            v = v.__wrapped__
        else:
            break
        seen += 1
    return v if isinstance(v, types.FunctionType) else None


_installed = {}


def install():
    """wrap every kernel, wherever it is referred to by name in the package"""
    for m, k, v in kernels():
        if id(v) in _installed:
            continue

        def w(*a, __f=v, **kw):
            global _depth
            memo = {}
            if TRACK and not _depth:
                a = [_wrap(x, memo) for x in a]
                kw = {q: _wrap(x, memo) for q, x in kw.items()}
            _depth += 1
            try:
                return __f(*a, **kw)
            finally:
                _depth -= 1
        w.__wrapped__ = v
        _installed[id(v)] = (v, w)
        g = inner(v).__globals__
        g["prange"] = _prange
        if not isinstance(g.get("np"), _NP):
            g["np"] = _NP()
    for mn, m in list(sys.modules.items()):
        if mn.startswith("lambdapic") and m is not None:
            for k, v in list(vars(m).items()):
                if id(v) in _installed and _installed[id(v)][0] is v:
                    setattr(m, k, _installed[id(v)][1])
            for c in list(vars(m).values()):
                if isinstance(c, type) and c.__module__ == mn:
                    for k, v in list(vars(c).items()):
                        u = v.__func__ if isinstance(v, staticmethod) else v
                        if id(u) in _installed and _installed[id(u)][0] is u:
                            setattr(c, k, staticmethod(_installed[id(u)][1]) if isinstance(v, staticmethod) else _installed[id(u)][1])


def loops():
    return sorted(_loops)
