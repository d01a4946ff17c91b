import numpy as np
from hypothesis import strategies as st

from .. import opt
from ..core import Prop, Sub
from ..spec import fl, wide
from .common import need


@st.composite
def problem(draw, kinds=(opt.QUADRATIC, opt.POWER, opt.ROSENBROCK, opt.MULTI),
            nmax=6, stop=(1, 60), bounded=True):
    n = draw(opt.dimension(nmax))
    c = dict(n=n, kind=draw(st.sampled_from(kinds)),
             ctr=draw(opt.centre(n)), fseed=draw(st.integers(0, 9999)),
             x0=draw(opt.centre(n)), d0=[draw(wide(0.1, 5)) for _ in range(n)],
             step=draw(st.sampled_from([0.1, 1.0, 2.5])),
             acc=draw(st.sampled_from([1e-3, 1e-5])),
             stop=draw(st.integers(*stop)), f0=draw(st.sampled_from([0.0, 7.25])))
    c['bounds'] = bounded and draw(st.booleans())
    c.update(draw(opt.strategy_settings(20)))
    return c


def params(c):
    n, k = c['n'], c['kind']
    ctr = np.array(c['ctr'])
    rng = np.random.default_rng(c['fseed'])
    if k == opt.QUADRATIC:
        return np.concatenate([ctr, opt.spd(n, 50.0, 1.0, c['fseed']).ravel(),
                               [c['f0']]])
    if k == opt.POWER:
        return np.concatenate([ctr, rng.random(n) + 0.5, [1.5, c['f0']]])
    if k == opt.ROSENBROCK:
        return np.concatenate([ctr, [10.0]])
    if k == opt.STEPS:
        return np.concatenate([ctr, [0.5]])
    return np.concatenate([ctr, [0.3]])


def go(ctx, c, **kw):
    a = dict(n=c['n'], kind=c['kind'], par=params(c), x0=c['x0'], d0=c['d0'],
             step=c['step'], parents=c['parents'], population=c['population'],
             stop=c['stop'], seed=c['seed'], modulus=c['modulus'],
             acc=c['acc'])
    if c['bounds']:
        a['lo'] = np.array(c['x0']) - 6.0
        a['up'] = np.array(c['x0']) + 6.0
    a.update(kw)
    r = opt.run(ctx, **a)
    need(r.rc == 0, 'the optimizer failed with an exception')
    return r


def same(a, b, what, n):
    need(a.g == b.g, '%s: %d generations instead of %d', what, b.g, a.g)
    for g, (p, q) in enumerate(zip(opt.generations(a), opt.generations(b))):
        if p[:, :n].tobytes() != q[:, :n].tobytes():
            i = int(np.argwhere(p[:, :n] != q[:, :n])[0][0])
            need(False, '%s: other points are evaluated in generation %d: %r '
                 'and %r', what, g + 1, p[i, :n].tolist(), q[i, :n].tolist())
    for f in ('x', 'd', 's', 'optimized', 'underflow'):
        u, v = getattr(a, f), getattr(b, f)
        need(np.array_equal(np.asarray(u), np.asarray(v), equal_nan=True),
             '%s: %s is %r instead of %r', what, f, v, u)
    iu = np.triu_indices(n)
    need(np.array_equal(a.C[iu], b.C[iu], equal_nan=True),
         '%s: other covariance', what)


def ev_dual(c, ctx):
    a = go(ctx, c)
    b = go(ctx, c, maximize=1)
    same(a, b, 'maximising the negative', c['n'])
    need(np.array_equal(a.z, b.z, equal_nan=True), 'maximising the negative: '
         'uncertainties %r instead of %r', b.z.tolist(), a.z.tolist())
    need(a.y == -b.y or (np.isnan(a.y) and np.isnan(b.y)),
         'maximising the negative: fitness %r and %r', a.y, b.y)
    return dict(nontrivial=a.g > 0, classes=[
        'optimized' if a.optimized else 'underflow' if a.underflow else
        'stopped', 'bounds' if c['bounds'] else 'free'])


def distinct(r):
    """Number of leading generations without equal fitness values."""
    n = r.n
    for g, b in enumerate(opt.generations(r)):
        if len(np.unique(b[:, n])) < r.pop:
            return g
    return r.g


def ev_rank(c, ctx):
    a = go(ctx, c)
    b = go(ctx, c, transform=c['transform'], tpar=c['tpar'])
    m = min(distinct(a), distinct(b))
    if m == a.g == b.g:
        same(a, b, 'transform %d' % c['transform'], c['n'])
    else:
        need(b.g >= m and a.g >= m, 'transform %d: %d generations instead of '
             '%d', c['transform'], b.g, a.g)
        for g in range(m):
            p, q = opt.generations(a)[g], opt.generations(b)[g]
            need(p[:, :c['n']].tobytes() == q[:, :c['n']].tobytes(),
                 'transform %d: other points are evaluated in generation %d',
                 c['transform'], g + 1)
    return dict(nontrivial=m > 1, classes=['transform %d' % c['transform'],
                                           'complete' if m == a.g else 'part'])


SPACING = ['ulp', 'negative ulp', 'denormal', 'wide', 'powers', 'offset',
           'random', 'step']


def mapped(k, m, seed):
    """m increasing numbers."""
    i = np.arange(m, dtype=float)
    if k == 'ulp':
        return 1.0 + i * 2.0 ** -52
    if k == 'negative ulp':
        return -(2.0 - i * 2.0 ** -52)
    if k == 'denormal':
        return (i - m // 2) * 5e-324
    if k == 'wide':
        return 1.7e308 * (i / m - 0.5)
    if k == 'powers':
        return 10.0 ** (-300 + 600 * i / m)
    if k == 'offset':
        return -1e15 + i
    if k == 'step':
        # a gap somewhere
        return np.where(i < seed % m, -1e-300, 1e300) * (1 + i * 2.0 ** -45 * (
            2 * (i >= seed % m) - 1))
    rng = np.random.default_rng(seed)
    return np.cumsum(rng.random(m) ** 8 + 1e-9)


def ev_order(c, ctx):
    """The values replaced by other numbers of the same order."""
    a = go(ctx, c)
    need(a.calls <= len(a.log), 'too many evaluations')
    v = np.unique(a.log[:, c['n']])
    v = v[np.isfinite(v)]
    for k in c['spacing']:
        w = mapped(k, len(v), c['fseed'])
        if np.any(np.diff(w) <= 0):
            raise AssertionError('table not increasing: ' + k)
        opt.table(ctx, v, w)
        b = go(ctx, c, transform=7)
        same(a, b, 'values of the same order (%s)' % k, c['n'])
    return dict(nontrivial=a.g > 1, classes=list(c['spacing']) + [
        'optimized' if a.optimized else 'underflow' if a.underflow else
        'stopped'])


@st.composite
def orders(draw):
    c = draw(problem(stop=(1, 80)))
    c['spacing'] = draw(st.lists(st.sampled_from(SPACING), min_size=1,
                                 max_size=3, unique=True))
    return c


@st.composite
def ranked(draw):
    c = draw(problem(stop=(2, 60)))
    c['f0'] = 7.25 if draw(st.booleans()) else 0.0
    t = draw(st.sampled_from([(1, -40), (1, 7), (1, 60), (2, 0), (3, 0), (4, 0),
                              (5, 3.7), (6, 0.01)]))
    c['transform'], c['tpar'] = t
    return c


def ev_scale(c, ctx):
    """Parameters scaled by a power of two, at accuracy zero."""
    n = c['n']
    k = 2.0 ** c['power']
    ctr = np.array(c['ctr'])
    A = opt.spd(n, 50.0, 1.0, c['fseed'])
    base = dict(n=n, kind=opt.QUADRATIC, step=c['step'], parents=c['parents'],
                population=c['population'], stop=c['stop'], seed=c['seed'],
                modulus=c['modulus'], acc=0.0)
    x0, d0 = np.array(c['x0']), np.array(c['d0'])
    big = 2.0 ** 60        # far from the absolute limit of the accuracy goal
    def run(f):
        b = {}
        if c['bounds']:
            b = dict(lo=(x0 - 6.0) * f, up=(x0 + 6.0) * f)
        return opt.run(ctx, par=np.concatenate(
            [ctr * f, (A / (f * f)).ravel(), [0.0]]), x0=x0 * f, d0=d0 * f,
            **base, **b)
    a, b = run(big), run(big * k)
    need(a.rc == b.rc == 0, 'the optimizer failed')
    need(a.g == b.g, 'scaled by 2^%d: %d generations instead of %d', c['power'],
         b.g, a.g)
    for g, (p, q) in enumerate(zip(opt.generations(a), opt.generations(b))):
        need((p[:, :n] * k).tobytes() == q[:, :n].tobytes(), 'scaled by 2^%d: '
             'other points are evaluated in generation %d', c['power'], g + 1)
    need(np.array_equal(a.x * k, b.x), 'scaled by 2^%d: parameters %r instead '
         'of %r', c['power'], b.x.tolist(), (a.x * k).tolist())
    need(a.s * np.max(a.d) * k == b.s * np.max(b.d),
         'scaled by 2^%d: step size', c['power'])
    return dict(nontrivial=a.g > 1, classes=['bounds' if c['bounds'] else
                                             'free'])


@st.composite
def scaled(draw):
    c = draw(problem(kinds=(opt.QUADRATIC,), stop=(2, 60)))
    c['power'] = draw(st.integers(-20, 50))
    return c


PROP = Prop(
    'C16',
    [Sub('dual', problem, ev_dual, 900, 15000),
     Sub('rank', ranked, ev_rank, 900, 15000),
     Sub('order', orders, ev_order, 700, 12000),
     Sub('scale', scaled, ev_scale, 700, 12000)],
    rule='Hypothesis draws objective functions (rotated quadratics, powers, '
    'Rosenbrock, multimodal), bounds, start points and strategy settings; the '
    'recorded histories of two related runs of the real optimizer are compared '
    'bit for bit, generation by generation: minimum against maximum of the '
    'negative; monotone transforms (power of two, factor, cube, cube root, '
    'logarithm, arc tangent) and tables that '
    'give the same order to neighbouring, denormal, huge, widely or randomly '
    'spaced numbers; all lengths times a power of two. Non-trivial: at '
    'least one (dual) or two generations compared.',
    technique='metamorphic property-based testing of the optimizer with '
    'bit-exact comparison of evaluation histories',
    level_note='Sampled problems of up to 6 dimensions and 60 generations; a '
    'transform is compared only as long as all values of a generation stay '
    'distinct in floating point.',
    setup=opt.setup)
