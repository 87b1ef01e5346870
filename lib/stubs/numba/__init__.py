"""Stand-in for numba (not installable here): the decorators are identity."""
import numpy as _np


def _ident(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


jit = njit = _ident


def vectorize(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return _np.vectorize(a[0])
    return lambda f: _np.vectorize(f)


guvectorize = stencil = _ident
prange = range


class _T:
    def __getitem__(self, _):
        return self

    def __call__(self, *a, **k):
        return self


void = float32 = float64 = int32 = int64 = uint32 = uint64 = complex64 = \
    complex128 = boolean = b1 = i8 = f8 = _T()


class TypingError(Exception):
    pass
