import math

from hypothesis import strategies as st

from .. import num
from ..core import Prop, Sub
from ..spec import fl, wide
from .common import need

DEG = [13, 19, 27, 41]
PAIRS = [(p, q) for p in range(4) for q in range(4) if p != q]


# ------------------------------------------------ polynomials, any refinement
@st.composite
def polynomials(draw):
    p, q = draw(st.sampled_from(PAIRS))
    deg = draw(st.integers(0, DEG[q]))
    a = draw(fl(-3, 3, 2))
    w = draw(wide(0.01, 6))
    return dict(p=p, q=q, co=[draw(fl(-2, 2, 2)) for _ in range(deg + 1)],
                a=a, b=a + w if draw(st.booleans()) else a - w,
                maxit=draw(st.integers(0, 40)))


def ev_polynomial(c, ctx):
    a, b = c['a'], c['b']
    m, h = 0.5 * (a + b), 0.5 * (b - a)
    co = c['co']
    seen = []

    def f(x):
        seen.append(x)
        t = (x - m) / h
        y = 0.0
        for k in reversed(co):
            y = y * t + k
        return y
    exact = h * math.fsum(2 * k / (i + 1) for i, k in enumerate(co)
                          if i % 2 == 0)
    scale = abs(h) * sum(abs(k) for k in co)
    # no accuracy is good enough: the interval is refined maxit times
    y = num.integrate(ctx, c['p'], c['q'], 0, f, a, b, 0.0, c['maxit'])
    need(abs(y - exact) <= 2e-13 * scale + 1e-300, 'formulas %d and %d: a '
         'polynomial of degree %d has the integral %r instead of %r after %d '
         'refinements', c['p'], c['q'], len(co) - 1, y, exact, c['maxit'])
    check_inside(seen, a, b)
    # reversed bounds
    z = num.integrate(ctx, c['p'], c['q'], 0, f, b, a, 0.0, c['maxit'])
    need(abs(y + z) <= 2e-13 * scale, 'the integral is %r, with swapped bounds '
         '%r', y, z)
    z = num.integrate(ctx, c['p'], c['q'], 0, f, a, a, 1e-6, c['maxit'])
    need(z == 0, 'the integral over an empty interval is %r', z)
    return dict(nontrivial=scale > 0, classes=[
        'formulas %d %d' % (c['p'], c['q']),
        'refined' if c['maxit'] else 'once'])


def check_inside(seen, a, b):
    lo, hi = min(a, b), max(a, b)
    t = 4e-16 * max(abs(a), abs(b))
    need(seen and lo - t <= min(seen) and max(seen) <= hi + t,
         'the integrand was evaluated at [%r, %r] for the interval [%r, %r]',
         min(seen, default=0), max(seen, default=0), lo, hi)


# --------------------------------------------------- smooth functions, finite
def function(d):
    """(function of t in [-1, 1], its integral from -1 to t)."""
    k, s, c = d['kind'], d['s'], d['c']
    if k == 'exp':
        return (lambda t: math.exp(s * t)), \
            (lambda t: (math.exp(s * t) - math.exp(-s)) / s)
    if k == 'sin':
        return (lambda t: math.sin(s * t + c)), \
            (lambda t: (math.cos(c - s) - math.cos(s * t + c)) / s)
    if k == 'gauss':
        w = 1 / s
        return (lambda t: math.exp(-((t - c) / w) ** 2)), \
            (lambda t: 0.5 * math.sqrt(math.pi) * w
             * (math.erf((t - c) / w) + math.erf((1 + c) / w)))
    w = 1 / s
    return (lambda t: 1 / (1 + ((t - c) / w) ** 2)), \
        (lambda t: w * (math.atan((t - c) / w) + math.atan((1 + c) / w)))


@st.composite
def functions(draw):
    k = draw(st.sampled_from(['exp', 'sin', 'gauss', 'lorentz']))
    s = draw(wide(0.2, dict(exp=20, sin=12, gauss=4, lorentz=2)[k]))
    return dict(kind=k, s=s, c=draw(fl(-1, 1, 3)))


@st.composite
def finite(draw):
    a = draw(fl(-5, 5, 2))
    w = draw(wide(0.05, 20))
    return dict(f=[draw(functions())], amp=[draw(fl(-3, 3, 2))],
                pair=draw(st.sampled_from(PAIRS)), a=a, b=a + w,
                acc=draw(st.sampled_from([1e-2, 1e-4, 1e-6, 1e-9, 1e-12])),
                split=draw(fl(0.05, 0.95, 2)), swap=draw(st.booleans()))


def slack(pair):
    # The estimated error is the difference of two formulas: it may be small by
    # accident. Among 900000 integrals this was seen (with errors up to 30
    # times the goal) for the two formulas of lowest order only.
    return 200.0 if set(pair) == {0, 1} else 1.5


def ev_finite(c, ctx):
    a, b = c['a'], c['b']
    p, q = c['pair']
    m, h = 0.5 * (a + b), 0.5 * (b - a)
    fs = [function(d) for d in c['f']]
    amp = c['amp']

    def f(x):
        t = (x - m) / h
        return sum(k * g[0](t) for k, g in zip(amp, fs))

    def F(x):
        t = (x - m) / h
        return h * sum(k * g[1](t) for k, g in zip(amp, fs))
    size = h * sum(abs(k) * (math.exp(d['s']) if d['kind'] == 'exp' else 1)
                   for k, d in zip(amp, c['f']))
    tol = slack(c['pair']) * c['acc'] + 1e-13 * size
    seen = []

    def g(x):
        seen.append(x)
        return f(x)
    lo, hi = (b, a) if c['swap'] else (a, b)
    y = num.integrate(ctx, p, q, 0, g, lo, hi, c['acc'])
    if c['acc'] < 1e-13 * size:
        # out of reach
        return dict(nontrivial=False, classes=['beyond rounding'])
    want = F(hi) - F(lo)
    need(abs(y - want) <= tol, 'formulas %d and %d: the integral is %r instead '
         'of %r, accuracy goal %g', p, q, y, want, c['acc'])
    check_inside(seen, a, b)
    s = a + c['split'] * (b - a)
    y1 = num.integrate(ctx, p, q, 0, f, a, s, c['acc'])
    y2 = num.integrate(ctx, p, q, 0, f, s, b, c['acc'])
    w = y1 + y2 if not c['swap'] else -(y1 + y2)
    need(abs(w - y) <= 3 * tol, 'the integral is %r, that of two adjacent '
         'parts %r', y, w)
    # linear in the integrand
    z = num.integrate(ctx, p, q, 0, lambda x: -2 * f(x), lo, hi, c['acc'])
    need(abs(z + 2 * y) <= 3 * tol, 'the integral is not linear: %r and %r', y,
         z)
    return dict(nontrivial=len(seen) > 41 or abs(want) > c['acc'],
                classes=['formulas %d %d' % (p, q), 'acc=%g' % c['acc'],
                         'refined' if len(seen) > 42 else 'once'])


# --------------------------------------------------------------- infinite
@st.composite
def infinite(draw):
    k = draw(st.sampled_from(['exp', 'gamma', 'gauss', 'sech', 'shifted']))
    g = k in ('gauss', 'shifted')
    return dict(kind=k, s=draw(wide(0.2, 1.5) if g else wide(0.1, 0.65)),
                n=draw(st.integers(1, 2)), c=draw(fl(-1, 1, 2)),
                mode=draw(st.integers(1, 3)), amp=draw(fl(0.1, 3, 2)),
                pair=draw(st.sampled_from(PAIRS)),
                acc=draw(st.sampled_from([1e-3, 1e-6, 1e-8])))


def ev_infinite(c, ctx):
    s, k, A = c['s'], c['kind'], c['amp']
    r = math.sqrt(math.pi)
    # odd parts cancel over the whole line: use different sides
    if k == 'exp':
        f = lambda x: A * math.exp(-abs(x) / s)
        pos = neg = A * s
    elif k == 'gamma':
        n = c['n']
        f = lambda x: A * abs(x / s) ** n * math.exp(-abs(x) / s)
        pos = neg = A * s * math.gamma(n + 1)
    elif k == 'gauss':
        f = lambda x: A * math.exp(-(x / s) ** 2)
        pos = neg = A * 0.5 * r * s
    elif k == 'sech':
        f = lambda x: A / math.cosh(min(abs(x) / s, 300.0))
        pos = neg = A * s * math.pi / 2
    else:
        m = c['c']
        f = lambda x: A * math.exp(-((x - m) / s) ** 2)
        pos = A * 0.5 * r * s * math.erfc(-m / s)
        neg = A * 0.5 * r * s * math.erfc(m / s)
    want = {1: pos, 2: neg, 3: pos + neg}[c['mode']]
    seen = []

    def g(x):
        seen.append(x)
        return f(x)
    y = num.integrate(ctx, *c['pair'], c['mode'], g, acc=c['acc'])
    # the substituted integrand varies rapidly: see slack()
    tol = (600 if set(c['pair']) == {0, 1} else 60) * c['acc'] + 1e-11
    need(abs(y - want) <= tol, 'formulas %r: the integral over the %s line is '
         '%r instead of %r, accuracy goal %g', c['pair'],
         ('', 'positive half', 'negative half', 'whole')[c['mode']], y, want,
         c['acc'])
    need(c['mode'] == 3 or all(
        (x >= 0) == (c['mode'] == 1) or x == 0 for x in seen),
        'the integrand was evaluated on the wrong side')
    return dict(classes=['mode %d' % c['mode'], k, 'acc=%g' % c['acc']])


@st.composite
def defaults(draw):
    return dict(f=draw(functions()), a=draw(fl(-5, 5, 2)),
                w=draw(wide(0.05, 20)))


def ev_defaults(c, ctx):
    a, b = c['a'], c['a'] + c['w']
    m, h = 0.5 * (a + b), 0.5 * (b - a)
    f, F = function(c['f'])
    y = num.integrate(ctx, 0, 0, 4, lambda x: f((x - m) / h), a, b)
    z = num.integrate(ctx, 1, 2, 0, lambda x: f((x - m) / h), a, b, 1e-6)
    size = h * math.exp(c['f']['s'] if c['f']['kind'] == 'exp' else 0)
    need(abs(y - h * F(1.0)) <= 1e-6 + 1e-13 * size, 'default settings: the '
         'integral is %r instead of %r', y, h * F(1.0))
    return dict(classes=[c['f']['kind']])


# ------------------------------------------------ the goal is an absolute one
@st.composite
def powers(draw):
    c = draw(finite())
    c['power'] = draw(st.sampled_from([-200, -60, -10, 4, 10, 20, 60, 200]))
    c['mode'] = draw(st.integers(0, 3))
    return c


def ev_powers(c, ctx):
    """Integrand and goal times a power of two."""
    a, b = c['a'], c['b']
    m, h = 0.5 * (a + b), 0.5 * (b - a)
    k = 2.0 ** c['power']
    if c['mode']:
        f = lambda x: c['amp'][0] * math.exp(-abs(x) / h)
    else:
        g = function(c['f'][0])[0]
        f = lambda x: c['amp'][0] * g((x - m) / h)
    acc = max(c['acc'], 1e-9)
    y = num.integrate(ctx, *c['pair'], c['mode'], f, a, b, acc)
    z = num.integrate(ctx, *c['pair'], c['mode'], lambda x: k * f(x), a, b,
                      k * acc)
    need(z == k * y, 'the integral is %r (goal %g), that of the integrand '
         'times 2^%d is not 2^%d times that, but %r times', y, acc, c['power'],
         c['power'], z / k)
    return dict(nontrivial=y != 0, classes=['power %d' % c['power'],
                                            'mode %d' % c['mode']])


@st.composite
def many(draw):
    """Integrands with several peaks, all of the same kind."""
    return dict(pair=draw(st.sampled_from([(2, 0), (3, 0), (3, 1)])), cases=[
        dict(n=draw(st.sampled_from([8, 16])), w=draw(wide(0.1, 0.6)),
             shift=draw(fl(0, 1, 3)), acc=draw(wide(1e-6, 1e-2)))
        for _ in range(24)])


def ev_many(c, ctx):
    over = []
    for d in c['cases']:
        n, w, s = d['n'], d['w'], d['shift']
        want = 1 / (w * math.sqrt(1 + w * w))
        y = num.integrate(ctx, *c['pair'], 0, lambda x: 1 / (
            w * w + math.sin(math.pi * (x * n + s)) ** 2), 0.0, 1.0,
            d['acc'] * want, 5000)
        if abs(y - want) > 1.5 * d['acc'] * want:
            over.append((d, abs(y - want) / (d['acc'] * want)))
    # accidental agreement of two formulas: 0.6 to 1.8 per cent of 9000 cases
    need(len(over) <= 5, 'formulas %r: the goal is missed for %d of 24 '
         'integrands with many peaks, e.g. %r by a factor of %.3g', c['pair'],
         len(over), *(over[0] if over else (0, 0)))
    return dict(classes=['formulas %d %d' % tuple(c['pair'])])


PROP = Prop(
    'C21',
    [Sub('polynomial', polynomials, ev_polynomial, 3000, 60000),
     Sub('finite', finite, ev_finite, 1200, 25000),
     Sub('infinite', infinite, ev_infinite, 1500, 30000),
     Sub('defaults', defaults, ev_defaults, 500, 10000),
     Sub('powers', powers, ev_powers, 700, 15000),
     Sub('many', many, ev_many, 50, 1500)],
    rule='Hypothesis draws integrands (polynomials up to the degree of the '
    'formula; exponentials, sines, Gaussians, Lorentzians; '
    'decaying functions for infinite ranges), intervals, formula pairs, '
    'accuracy goals and numbers of refinements; results are compared with '
    'closed forms; integrand and goal times a power of two must give exactly '
    'that multiple; of 24 integrands with 8 or 16 equal peaks at most five may '
    'miss the goal. Non-trivial: the integrand does not vanish (and for '
    '"finite" the integral exceeds the goal or is refined).',
    technique='property-based testing against closed-form integrals, with '
    'metamorphic relations (linearity, additivity, bounds)',
    level_note='Features of integrands are not narrower than a quarter of '
    'the half interval, so that 13 points resolve them; errors up to 1.5 times '
    'the goal are accepted (200 times for the pair of the two formulas of '
    'lowest order, 60 times for infinite ranges, where the difference of two '
    'formulas can be small by accident).',
    setup=num.setup)
