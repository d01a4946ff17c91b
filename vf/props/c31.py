import math

from hypothesis import strategies as st

from .. import lib
from ..core import Prop, Sub
from ..spec import fl, wide
from .common import need

# without the two formulas of lowest order, see slack() of C21
PAIRS = [(p, q) for p in range(4) for q in range(4) if p != q and p + q > 1]


@st.composite
def profiles(draw):
    w = draw(wide(0.1, 2))
    n = draw(st.integers(0, 3))
    return dict(
        w=w, x=draw(fl(-3, 3, 2)) * w, pair=draw(st.sampled_from(
            [(-1, -1)] * 6 + PAIRS)),
        # lines: depth (of what is left), centre, width
        f=[[draw(fl(0, 0.95, 2)) / n, draw(fl(-3, 3, 2)),
            draw(wide(0.4, 8))] for _ in range(n)],
        # instrument: weight, shift, width
        g=[[draw(fl(0.1, 2, 2)), draw(fl(-1, 1, 2)), draw(wide(0.5, 2))]
           for _ in range(draw(st.integers(1, 2)))],
        x2=draw(fl(-3, 3, 2)) * w)


def ev_profiles(c, ctx):
    w, x, fm = c['w'], c['x'], c['pair']
    lines = [(A, x + o * w, s * w) for A, o, s in c['f']]
    inst = [(k, m * w, s * w) for k, m, s in c['g']]

    def f(t):
        return -math.log1p(-sum(A * math.exp(-((t - m) / s) ** 2)
                                for A, m, s in lines))

    def g(y):
        return sum(k * math.exp(-((y - m) / s) ** 2)
                   / (s * math.sqrt(math.pi)) for k, m, s in inst)

    def exact(x):
        return sum(k * (1 - sum(
            A * s / math.hypot(s, b) * math.exp(
                -(x - a - m) ** 2 / (s * s + b * b)) for A, m, s in lines))
            for k, a, b in inst)
    total = sum(k for k, _, _ in inst)
    # the goal is 1e-6 for either side; see C21 for what may happen by accident
    tol = 1e-3 * max(1.0, total)
    for at in (x, c['x2']):
        y = lib.convolute(ctx, f, g, at, fm)
        need(abs(y - exact(at)) <= tol, 'the convolution is %r instead of %r '
             'at %r', y, exact(at), at)
        need(-tol <= y <= total + tol, 'the convolution is %r, not between '
             'zero and %r', y, total)
    # linear in the instrumental profile
    z = lib.convolute(ctx, f, lambda t: 4 * g(t), c['x2'], fm)
    need(abs(z - 4 * y) <= 4 * tol, 'four times the instrumental profile give '
         '%r, not four times %r', z, y)
    # no absorption
    z = lib.convolute(ctx, lambda t: 0.0, g, x, fm)
    need(abs(z - total) <= tol, 'without absorption the convolution is %r, '
         'the integral of the instrumental profile is %r', z, total)
    # shifted lines
    d = 0.7 * w
    z = lib.convolute(ctx, lambda t: f(t - d), g, c['x2'] + d, fm)
    need(abs(z - y) <= 2 * tol, 'the convolution of shifted lines is %r '
         'instead of %r', z, y)
    return dict(nontrivial=sum(A for A, _, _ in lines) > 0.01, classes=[
        '%d lines' % len(lines), 'formulas %d %d' % tuple(fm),
        'asymmetric' if len(inst) > 1 or inst[0][1] else 'symmetric'])


PROP = Prop(
    'C31',
    [Sub('profiles', profiles, ev_profiles, 1500, 40000)],
    rule='Hypothesis draws up to three absorption lines (Gaussian in the '
    'transmission, up to 95 per cent deep), an instrumental profile of one or '
    'two Gaussians (shifted, of different widths and weights), abscissae and '
    'quadrature formulas; the convolution is compared with its closed form, '
    'for scaled and shifted profiles and without absorption. Non-trivial: '
    'there is absorption.',
    technique='property-based testing against closed-form convolutions, with '
    'metamorphic relations (linearity, shift)',
    level_note='Widths of the instrumental profile from 0.05 to 4; errors up '
    'to one per mille are accepted: the integrator may stop early where two '
    'formulas agree by accident (the usual error is 1e-6).',
    setup=lib.setup)
