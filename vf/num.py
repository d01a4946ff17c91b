"""ctypes bindings of native/num.cc."""
import ctypes as C

import numpy as np

from . import build

_libs = {}
FUN = C.CFUNCTYPE(C.c_double, C.c_double)


def setup(tier):
    return {'num': build.native('num')}


def lib(ctx):
    p = ctx.built['num']
    if p not in _libs:
        L = C.CDLL(p)
        L.gen_new.restype = L.gen_clone.restype = L.gen_deviate.restype = \
            C.c_void_p
        L.dec_new.restype = C.c_void_p
        L.doppler.restype = L.integrate.restype = C.c_double
        L.doppler.argtypes = [C.c_double]
        L.equation.argtypes = [C.c_int, C.c_double, C.c_void_p]
        L.solve_equation.argtypes = [C.c_int, C.c_double, C.c_double,
                                     C.c_double, C.c_void_p]
        L.integrate.argtypes = [C.c_int, C.c_int, C.c_int, C.c_double,
                                C.c_double, C.c_double, C.c_long, FUN]
        L.profile.argtypes = [C.c_int, C.c_void_p, C.c_long, C.c_void_p,
                              C.c_void_p, C.c_void_p, C.c_int, C.c_int]
        L.voigt.argtypes = [C.c_int, C.c_double, C.c_double, C.c_long,
                            C.c_void_p, C.c_void_p]
        _libs[p] = L
    return _libs[p]


def arr(x):
    return np.ascontiguousarray(x, dtype=np.float64)


class Gen:
    """A generator of random numbers or deviates."""

    def __init__(self, ctx, kind=0, mode=0, seeds=(0,), handle=None):
        self.L, self.ctx = lib(ctx), ctx
        if handle is None:
            s = (C.c_uint64 * len(seeds))(*seeds)
            handle = self.L.gen_new(kind, mode, C.c_long(len(seeds)), s)
        self.h = C.c_void_p(handle)

    def clone(self):
        return Gen(self.ctx, handle=self.L.gen_clone(self.h))

    def deviate(self):
        return Gen(self.ctx, handle=self.L.gen_deviate(self.h))

    def words(self, n):
        o = np.empty(n, dtype=np.uint64)
        self.L.gen_words(self.h, C.c_long(n), C.c_void_p(o.ctypes.data))
        return o

    def reals(self, n):
        o = np.empty(n)
        self.L.gen_reals(self.h, C.c_long(n), C.c_void_p(o.ctypes.data))
        return o

    def __del__(self):
        if getattr(self, 'h', None) and self.h.value:
            self.L.gen_free(self.h)
            self.h = C.c_void_p(0)


class Dec:
    def __init__(self, ctx, kind, n):
        self.L, self.n = lib(ctx), n
        self.h = C.c_void_p(self.L.dec_new(kind, C.c_long(n)))

    def __call__(self, A):
        """A: column-major n*n array -> (rc, Z (n, n), w, A afterwards)."""
        n = self.n
        A = arr(A).copy()
        Z, w = np.full(n * n, np.nan), np.full(n, np.nan)
        rc = self.L.dec_run(self.h, C.c_void_p(A.ctypes.data),
                            C.c_void_p(Z.ctypes.data),
                            C.c_void_p(w.ctypes.data))
        return rc, Z.reshape(n, n, order='F'), w, A

    def __del__(self):
        if getattr(self, 'h', None) and self.h.value:
            self.L.dec_free(self.h)
            self.h = C.c_void_p(0)


def integrate(ctx, p, q, mode, f, a=0.0, b=1.0, acc=1e-6, maxit=100):
    return lib(ctx).integrate(p, q, mode, a, b, acc, maxit, FUN(f))


def equation(ctx, kind, x):
    o = np.empty(3)
    lib(ctx).equation(kind, x, o.ctypes.data)
    return o


def solve(ctx, kind, c, x, acc):
    o = np.empty(1)
    rc = lib(ctx).solve_equation(kind, c, x, acc, o.ctypes.data)
    return rc, float(o[0])


KIND = dict(azafran=0, curcuma=1, oregano=2, mascada=3)


def profile(ctx, flavour, q, x, formulas=(-1, -1)):
    x, q = arr(x), arr(q)
    y, e = np.empty(len(x)), np.full(4, np.nan)
    lib(ctx).profile(KIND[flavour], q.ctypes.data, len(x), x.ctypes.data,
                     y.ctypes.data, e.ctypes.data, *formulas)
    return y, e


def voigt(ctx, kind, b, d, x):
    x = arr(x)
    y = np.empty(len(x))
    lib(ctx).voigt(kind, b, d, len(x), x.ctypes.data, y.ctypes.data)
    return y
