"""Drives especia's optimizer through native/opt.cc."""
import ctypes as C

import numpy as np
from hypothesis import strategies as st

from . import build
from .spec import fl, wide

QUADRATIC, POWER, LINEAR, ROSENBROCK, CONSTANT, MULTI, STEPS = range(7)
_libs = {}


def setup(tier):
    return {'opt': build.native('opt')}


def lib(ctx):
    p = ctx.built['opt']
    if p not in _libs:
        _libs[p] = C.CDLL(p)
    return _libs[p]


def arr(x):
    return np.ascontiguousarray(x, dtype=np.float64)


def ptr(a):
    return a.ctypes.data_as(C.POINTER(C.c_double))


class Out:
    pass


def run(ctx, n, kind, par, x0, d0, step, parents, population, stop, seed,
        modulus=1, acc=1e-4, lo=None, up=None, maximize=0, transform=0,
        tpar=0.0, trace=0, delay=0.0, repeat=0, cap=60000):
    ints = (C.c_long * 11)(kind, n, transform, maximize, parents, population,
                           modulus, stop, 0 if lo is None else 1, trace, repeat)
    reals = arr([tpar, acc, step, delay])
    par, x0, d0 = arr(par), arr(x0), arr(d0)
    lo_ = arr(lo if lo is not None else np.zeros(n))
    up_ = arr(up if up is not None else np.zeros(n))
    log = np.full((cap, n + 1), np.nan)
    tcap = 4000
    tl = np.full((tcap, 4), np.nan)
    out = np.full(5 * n + 5 + 2 * n * n, np.nan)
    nc, nt = C.c_long(0), C.c_long(0)
    rc = lib(ctx).opt_run(ints, ptr(reals), C.c_ulonglong(seed), ptr(par),
                          ptr(x0), ptr(d0), ptr(lo_), ptr(up_), C.c_long(cap),
                          ptr(log), C.byref(nc), C.c_long(tcap), ptr(tl),
                          C.byref(nt), ptr(out))
    r = Out()
    r.rc = rc
    r.calls = nc.value
    r.log = log[:min(cap, nc.value)]
    r.traces = nt.value
    r.trace = tl[:min(tcap, nt.value)]
    r.x, r.z, r.d = out[:n], out[n:2 * n], out[2 * n:3 * n]
    r.y, r.s = out[3 * n], out[3 * n + 1]
    r.optimized, r.underflow = bool(out[3 * n + 2]), bool(out[3 * n + 3])
    r.g = int(out[3 * n + 4]) if rc == 0 else -1
    rest = out[3 * n + 5:]
    r.C = rest[:n * n].reshape(n, n, order='F')      # C[i, j], i <= j
    r.B = rest[n * n:2 * n * n].reshape(n, n, order='F')   # columns: axes
    r.pc, r.ps = rest[2 * n * n:2 * n * n + n], rest[2 * n * n + n:]
    r.raw = out.tobytes()
    r.pop, r.n = population, n
    return r


def table(ctx, a, b):
    """The function of transform 7: b[i] at a[i]."""
    a, b = arr(a), arr(b)
    lib(ctx).opt_table(C.c_long(len(a)), ptr(a), ptr(b))


def builder(ctx, ops):
    """The settings of a builder after each of the calls [(code, value)]."""
    k = len(ops)
    code = (C.c_long * max(k, 1))(*[o[0] for o in ops])
    val = arr([float(o[1]) for o in ops] or [0.0])
    word = (C.c_ulonglong * max(k, 1))(
        *[int(o[1]) if o[0] == 6 else 0 for o in ops])
    out = np.full((k + 1, 22), np.nan)
    rc = lib(ctx).opt_builder(C.c_long(k), code, ptr(val), word, ptr(out))
    return rc, out


def generations(r):
    """The evaluated points of each generation in an order of their own."""
    out = []
    for g in range(r.g):
        b = r.log[g * r.pop:(g + 1) * r.pop]
        if len(b) < r.pop:
            break
        out.append(b[np.lexsort(b.T[::-1])])
    return out


# ------------------------------------------------------------------ strategies
def dimension(nmax):
    """Mostly small, sometimes large."""
    return st.integers(0, 15).flatmap(
        lambda k: st.integers(1, nmax) if k < 15 else
        st.integers(nmax, 4 * nmax))


@st.composite
def strategy_settings(draw, max_pop=40):
    if draw(st.integers(0, 19)) == 19:
        max_pop *= 8
    mu = draw(st.integers(2, max_pop // 2))
    lam = draw(st.integers(mu + 1, max_pop)) if draw(st.integers(0, 3)) == 0 \
        else 2 * mu
    return dict(parents=mu, population=lam,
                modulus=draw(st.sampled_from([1, 1, 1, 2, 5])),
                seed=draw(st.integers(0, 2 ** 64 - 1)))


def spd(n, cond, scale, seed, rotate=True):
    """A symmetric positive definite matrix of a given condition number."""
    rng = np.random.default_rng(seed)
    ev = scale * np.exp(np.linspace(0, np.log(cond), n)) if n > 1 else \
        np.array([scale])
    rng.shuffle(ev)
    if rotate and n > 1:
        q, _ = np.linalg.qr(rng.standard_normal((n, n)))
        A = (q * ev) @ q.T
        return 0.5 * (A + A.T)
    return np.diag(ev)


@st.composite
def centre(draw, n, a=-5.0, b=5.0):
    return [draw(fl(a, b, 3)) for _ in range(n)]
