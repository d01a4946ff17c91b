"""ctypes bindings of native/lib.cc."""
import ctypes as C

import numpy as np

from . import build
from .num import FUN, KIND, arr

_libs = {}

# a function and its derivative
C1 = C.CFUNCTYPE(None, *[C.POINTER(C.c_double)] * 3)


def setup(tier):
    return {'lib': build.native('lib')}


def lib(ctx):
    p = ctx.built['lib']
    if p not in _libs:
        L = C.CDLL(p)
        L.lst_new.restype = C.c_void_p
        L.lst_count.restype = C.c_long
        L.lst_write.restype = L.sec_write.restype = C.c_char_p
        L.convolute.restype = C.c_double
        V, N, D, S = C.c_void_p, C.c_long, C.c_double, C.c_char_p
        L.lst_free.argtypes = L.lst_count.argtypes = L.lst_write.argtypes = [V]
        L.lst_read.argtypes = [V, S]
        L.lst_append.argtypes = [V, N, V, V, V]
        L.sec_read.argtypes = [V, N, S, C.c_int, D, D, V]
        L.sec_write.argtypes = [V, N, C.c_int, D, D]
        L.sec_info.argtypes = [V, N, V]
        L.sec_mask.argtypes = [V, N, D, D]
        L.sec_run.argtypes = [V, N, C.c_int, C.c_int, D, N, N, V, V]
        L.convolute.argtypes = [C.c_int, C.c_int, FUN, FUN, D]
        L.mdl_new.restype = V
        L.mdl_echo.restype = L.mdl_put.restype = S
        L.mdl_count.restype = N
        L.mdl_penalty.restype = D
        L.mdl_new.argtypes = [C.c_int, S, S]
        L.mdl_free.argtypes = L.mdl_count.argtypes = L.mdl_put.argtypes = [V]
        L.mdl_outside.argtypes = L.mdl_penalty.argtypes = [V, V]
        L.mdl_start.argtypes = L.mdl_set.argtypes = [V, V, V]
        L.mdl_costs.argtypes = [V, N, V, V, C.c_int]
        L.prm_read.restype = L.prm_lines.restype = L.prm_convert.restype = S
        L.prm_norm.restype = L.prm_redshift.restype = L.prm_sq.restype = D
        L.prm_read.argtypes = [C.c_int, S, N, C.c_int, C.c_int, N, V, V]
        L.prm_lines.argtypes = [S, C.c_int, C.c_int, N, V, V]
        L.prm_convert.argtypes = [C.c_int, S]
        L.prm_solve.argtypes = [C1, D, D, D, N, V]
        L.prm_norm.argtypes = [N, V]
        L.prm_redshift.argtypes = L.prm_sq.argtypes = [D]
        _libs[p] = L
    return _libs[p]


class Sections:
    """A list of data sections."""

    def __init__(self, ctx):
        self.L = lib(ctx)
        self.h = C.c_void_p(self.L.lst_new())

    def __len__(self):
        return self.L.lst_count(self.h)

    def __del__(self):
        if getattr(self, 'h', None):
            self.L.lst_free(self.h)
            self.h = None

    def read(self, text):
        return self.L.lst_read(self.h, text.encode())

    def write(self):
        return self.L.lst_write(self.h).decode()

    def append(self, x=None, y=None, z=None):
        if x is None:
            return self.L.lst_append(self.h, -1, None, None, None)
        x, y, z = arr(x), arr(y), arr(z)
        self.L.lst_append(self.h, len(x), x.ctypes.data, y.ctypes.data,
                          z.ctypes.data)

    def get(self, i, text, window=None):
        left = C.c_long(0)
        a, b = window or (0.0, 0.0)
        t = text.encode()
        rc = self.L.sec_read(self.h, i, t, int(window is not None), a, b,
                             C.addressof(left))
        return rc, t[len(t) - left.value:].decode()

    def put(self, i, window=None):
        a, b = window or (0.0, 0.0)
        return self.L.sec_write(self.h, i, int(window is not None), a,
                                b).decode()

    def info(self, i):
        o = np.empty(7)
        self.L.sec_info(self.h, i, o.ctypes.data)
        return dict(zip(('n', 'lo', 'mid', 'up', 'width', 'valid', 'cost'),
                        map(float, o)))

    def mask(self, i, a, b):
        self.L.sec_mask(self.h, i, a, b)

    def run(self, i, flavour, q, r, m, apply):
        """-> cost, or None after an exception"""
        q = arr(q)
        o = np.full(1, np.nan)
        rc = self.L.sec_run(self.h, i, int(apply), KIND[flavour], r, m,
                            len(q), q.ctypes.data, o.ctypes.data)
        return None if rc else float(o[0])


def convolute(ctx, f, g, x, formulas=(-1, -1)):
    return lib(ctx).convolute(*formulas, FUN(f), FUN(g), x)


class Model:
    """A model as the programs use it; raises ValueError where it is
    rejected."""

    def __init__(self, ctx, flavour, text, marks=''):
        self.L = lib(ctx)
        h = self.L.mdl_new(KIND[flavour], text.encode(), marks.encode())
        self.echo = self.L.mdl_echo().decode()
        self.h = C.c_void_p(h)
        if not h:
            raise ValueError(self.echo)
        self.n = self.L.mdl_count(self.h)

    def __del__(self):
        if getattr(self, 'h', None):
            self.L.mdl_free(self.h)
            self.h = None

    def start(self):
        x, d = np.empty(self.n), np.empty(self.n)
        self.L.mdl_start(self.h, x.ctypes.data, d.ctypes.data)
        return x, d

    def outside(self, x):
        x = arr(x)
        return bool(self.L.mdl_outside(self.h, x.ctypes.data))

    def penalty(self, x):
        x = arr(x)
        return self.L.mdl_penalty(self.h, x.ctypes.data)

    def costs(self, X, threads=False):
        """Costs, not a number where the evaluation throws."""
        X = arr(X)
        y = np.empty(len(X))
        self.L.mdl_costs(self.h, len(X), X.ctypes.data, y.ctypes.data,
                         int(threads))
        return y

    def set(self, x, u):
        x, u = arr(x), arr(u)
        return not self.L.mdl_set(self.h, x.ctypes.data, u.ctypes.data)

    def put(self):
        return self.L.mdl_put(self.h).decode()


def read(ctx, cols, text, n, append, eol, prior):
    """-> state, what is left, content of the seven vectors"""
    st, left = C.c_int(0), C.c_long(0)
    t = text.encode()
    o = lib(ctx).prm_read(cols, t, n, int(append), ord(eol), prior,
                          C.addressof(st), C.addressof(left)).decode()
    return (st.value, t[len(t) - left.value:].decode(),
            [ln.split('\t')[:-1] for ln in o.split('\n')[:-1]])


def lines(ctx, text, mark, eol, most):
    """-> state, what is left, lines"""
    st, left = C.c_int(0), C.c_long(0)
    t = text.encode()
    o = lib(ctx).prm_lines(t, ord(mark) if mark else 0, ord(eol), most,
                           C.addressof(st), C.addressof(left)).decode()
    return (st.value, t[len(t) - left.value:].decode(),
            [x[1:-1] for x in o.split('\x1e')[:-1]])


def convert(ctx, kind, text):
    """-> text of the number, or an empty one after an exception"""
    return lib(ctx).prm_convert(kind, text.encode()).decode()


def solve(ctx, f, c, x, goal, most=-1):
    """-> solution, or None after an exception"""
    calls = []

    def g(x, y, z):
        calls.append(x[0])
        y[0], z[0] = f(x[0])
    o = np.full(1, np.nan)
    rc = lib(ctx).prm_solve(C1(g), c, x, goal, most, o.ctypes.data)
    return (None if rc else float(o[0])), calls
