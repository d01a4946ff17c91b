import math

import numpy as np
from hypothesis import strategies as st

from .. import num, rngref
from ..core import Prop, Sub
from .c18 import word
from .common import need

KINDS = [0, 0, 3, 4, 5]


def polar(u):
    """Deviates of the polar method, from a function yielding uniforms."""
    while True:
        while True:
            x = 2.0 * u() - 1.0
            y = 2.0 * u() - 1.0
            t = x * x + y * y
            if 0.0 < t < 1.0:
                break
        t = math.sqrt(-2.0 * math.log(t) / t)
        yield x * t
        yield y * t


def polar_of(v):
    """The same for an array of uniforms."""
    x, y = 2.0 * v[0::2] - 1.0, 2.0 * v[1::2] - 1.0
    t = x * x + y * y
    k = (t > 0.0) & (t < 1.0)
    x, y, t = x[k], y[k], t[k]
    t = np.sqrt(-2.0 * np.log(t) / t)
    return np.stack([x * t, y * t], 1).reshape(-1)


@st.composite
def histories(draw):
    c = dict(kind=draw(st.sampled_from(KINDS)), seed=draw(word),
             skip=draw(st.sampled_from([0, 0, 1, 7, 500])),
             how=draw(st.sampled_from(['seed', 'generator'])))
    c['ops'] = [[draw(st.sampled_from('dddc')), draw(st.integers(0, 5)),
                 draw(st.integers(1, 300))]
                for _ in range(draw(st.integers(1, 8)))]
    return c


def ev_history(c, ctx):
    kind = c['kind']
    if c['how'] == 'seed':
        skip = 0
        d = num.Gen(ctx, kind, 2, [c['seed']])
    else:
        skip = c['skip']
        g = num.Gen(ctx, kind, 0, [c['seed']])
        g.words(skip)
        d = g.deviate()
    ref = rngref.make(kind, 0, [c['seed']])
    for _ in range(skip):
        ref.next()

    def u():
        a, b = rngref.to_real(kind, ref.next())
        return a / b
    src = polar(u)
    stream = []
    gens = [(d, [0])]
    total = 0
    for op, k, n in c['ops']:
        g, pos = gens[k % len(gens)]
        if op == 'c':
            gens.append((g.clone(), [pos[0]]))
            continue
        while len(stream) < pos[0] + n:
            stream.append(next(src))
        want = np.array(stream[pos[0]:pos[0] + n])
        got = g.reals(n)
        bad = ~(np.abs(got - want) <= 1e-9 * np.abs(want) + 1e-12)
        if bad.any():
            i = int(np.argmax(bad))
            need(False, '%s, seed %d: deviate %d is %r instead of %r',
                 rngref.NAMES[kind], c['seed'], pos[0] + i, float(got[i]),
                 float(want[i]))
        pos[0] += n
        total += n
    return dict(nontrivial=total > 1, classes=[
        rngref.NAMES[kind], c['how'], 'copies' if len(gens) > 1 else 'single'])


@st.composite
def samples(draw):
    return dict(kind=draw(st.sampled_from(KINDS)), seed=draw(word))


N = 200000


def ev_sample(c, ctx):
    from scipy import stats
    g = num.Gen(ctx, c['kind'], 2, [c['seed']])
    x = g.reals(N)
    what = '%s, seed %d: ' % (rngref.NAMES[c['kind']], c['seed'])
    need(np.all(np.isfinite(x)), what + 'a deviate is not finite')

    def within(name, value, mean, sigma, k=6.5):
        need(abs(value - mean) <= k * sigma, '%s%s of %d deviates is %g '
             'instead of %g +- %g', what, name, N, value, mean, sigma)
    v = num.Gen(ctx, c['kind'], 0, [c['seed']]).reals(2 * N)
    want = polar_of(v)[:N]
    bad = ~(np.abs(x - want) <= 1e-9 * np.abs(want) + 1e-12)
    if bad.any():
        i = int(np.argmax(bad))
        need(False, what + 'deviate %d is %r instead of %r', i, float(x[i]),
             float(want[i]))
    r = math.sqrt(N)
    within('mean', x.mean(), 0, 1 / r)
    within('variance', (x * x).mean(), 1, math.sqrt(2) / r)
    within('third moment', (x ** 3).mean(), 0, math.sqrt(15) / r)
    within('fourth moment', (x ** 4).mean(), 3, math.sqrt(96) / r, 7.5)
    for lag in (1, 2, 3, 7):
        within('autocorrelation %d' % lag, (x[lag:] * x[:-lag]).mean(), 0,
               1 / r)
        q = x * x - 1
        within('autocorrelation %d of squares' % lag,
               (q[lag:] * q[:-lag]).mean(), 0, 2 / r, 8.0)
    s = np.sort(x)
    F = stats.norm.cdf(s)
    i = np.arange(N)
    D = max((F - i / N).max(), ((i + 1) / N - F).max())
    need(r * D < 3.2, what + 'Kolmogorov-Smirnov distance %g', D)
    for t in (2.0, 3.0, 4.0):
        for sign in (1, -1):
            k = int((sign * x > t).sum())
            p = stats.norm.sf(t)
            lo, hi = stats.binom.cdf(k, N, p), stats.binom.sf(k - 1, N, p)
            need(min(lo, hi) > 1e-10, '%s%d of %d deviates beyond %g', what, k,
                 N, sign * t)
    need(len(np.unique(x)) > N - 20 - (200 if rngref.WORD[c['kind']] == 32
                                       else 0),
         what + 'deviates repeat')
    y = num.Gen(ctx, c['kind'], 2, [c['seed']]).reals(1000)
    need(np.array_equal(x[:1000], y), what + 'another sequence from the same '
         'seed')
    return dict(classes=[rngref.NAMES[c['kind']]])


PROP = Prop(
    'C19',
    [Sub('polar', histories, ev_history, 2500, 50000),
     Sub('sample', samples, ev_sample, 160, 3000)],
    rule='"polar": Hypothesis draws a generator, a seed, a start position and '
    'a history of draws and copies; every deviate is compared with the polar '
    'method applied to the reference generator in Python. "sample": 200000 '
    'deviates per seed are compared with the polar method applied to the uniform '
    'numbers of the same generator (some 1e8 in the thorough tier, tails '
    'beyond 5 sigma included) and tested against the standard normal '
    'distribution '
    '(moments, serial correlation, Kolmogorov-Smirnov, tails) at 6.5 sigma or '
    'more. Non-trivial: more than one deviate was drawn.',
    technique='model-based property testing against a reference '
    'implementation, and statistical tests over generated seeds',
    level_note='Agreement with the polar method to 1e-9; statistical '
    'acceptance limits are wide enough for a false alarm rate below 1e-7 per '
    'run.',
    setup=num.setup)
