"""Stand-in for numba (not installed here): decorators run the plain Python.

numba's contract is that a jitted function computes what its Python body
computes, so the checks execute the bodies themselves.
"""
import sys as _sys


def _decorator(*args, **kwargs):
    if len(args) == 1 and callable(args[0]) and not kwargs \
            and not isinstance(args[0], str):
        return args[0]
    return lambda fnc: fnc


njit = jit = vectorize = guvectorize = generated_jit = stencil = _decorator
prange = range


class _Type:
    def __getitem__(self, item):
        return self

    def __call__(self, *args):
        return self


for _n in ('f4 f8 i4 i8 u4 u8 b1 c8 c16 float32 float64 int32 int64 uint32 '
           'uint64 boolean void intp').split():
    setattr(_sys.modules[__name__], _n, _Type())


class _Types:
    def __getattr__(self, name):
        return _Type()


types = _Types()
_sys.modules[__name__ + '.types'] = types
