"""In the interpreted runs numba.typed.List would be a plain list whose elements follow the arrays they name, even
when an array is resized in place.  A compiled typed.List keeps the address and shape an array had when it was put
in; reading it after the array's storage moved touches freed or foreign memory.  This stand-in keeps the same
record and raises StaleStorage where compiled code would read through it."""
import numpy as np


class StaleStorage(RuntimeError):
    pass


def _mark(x):
    return (x.__array_interface__["data"][0], x.shape) if isinstance(x, np.ndarray) else None


class FreshList(list):
    def __init__(self, it=()):
        super().__init__(it)
        self._m = [_mark(x) for x in list.__iter__(self)]

    @classmethod
    def empty_list(cls, *a, **k):
        return cls()

    def __reduce__(self):
        return (FreshList, (list(list.__iter__(self)),))

    def append(self, x):
        super().append(x)
        self._m.append(_mark(x))

    def extend(self, it):
        for x in it:
            self.append(x)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def insert(self, i, x):
        super().insert(i, x)
        self._m.insert(i, _mark(x))

    def pop(self, i=-1):
        self._m.pop(i)
        return super().pop(i)

    def clear(self):
        super().clear()
        self._m.clear()

    def __delitem__(self, i):
        super().__delitem__(i)
        del self._m[i]

    def __setitem__(self, i, x):
        super().__setitem__(i, x)
        self._m[i] = [_mark(y) for y in x] if isinstance(i, slice) else _mark(x)

    def _get(self, x, m):
        if m is not None and _mark(x) != m:
            raise StaleStorage(f"a typed list still holds the storage an array had before it was resized (shape {m[1]}, now {x.shape})")
        return x

    def __getitem__(self, i):
        x = super().__getitem__(i)
        if isinstance(i, slice):
            return FreshList(x)
        return self._get(x, self._m[i])

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]


def install():
    from numba import config, typed
    if config.DISABLE_JIT:
        typed.List = FreshList
        typed.typedlist.List = FreshList
