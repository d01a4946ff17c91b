import math

from hypothesis import strategies as st

from .. import num, spec, tables
from ..core import Prop, Sub
from ..spec import fl, wide
from ..tables import parse, rows, same_columns, table, text, tool
from .common import need, setup_cli

C0 = spec.C0


def factor(v):
    b = v / C0
    return math.sqrt((1 + b) / (1 - b))


@st.composite
def velocity(draw):
    """Metres per second, from millimetres per second to 0.99 c."""
    v = draw(st.sampled_from([None, None, None, 0.0, 30000.0, -30000.0]))
    if v is None:
        v = draw(wide(1e-3, 0.99 * C0)) * draw(st.sampled_from([1, -1]))
    return v


def arg(v, k):
    return repr(v) if k % 3 else '%+.17e' % v


@st.composite
def cases(draw):
    return dict(t=draw(table(wmin=500.0, wmax=30000.0)), v=draw(velocity()),
                u=draw(velocity()), form=draw(st.integers(0, 5)))


def ev(case, ctx):
    t, v, u = case['t'], case['v'], case['u']
    rs = rows(t)
    D = factor(v)

    def go(vel, txt, skip):
        a = [arg(vel, case['form'])] + ([skip] if skip else [])
        r = tool(ctx, 'helicorr', a, txt)
        need(r.rc == 0, 'helicorr %s: exit status %d: %s', a, r.rc,
             r.err[-200:])
        return r.out, parse(r.out)
    o1, g1 = go(v, text(t), t['skip'])
    x1 = same_columns(g1, rs)
    for x, p in zip(x1, rs):
        y = p[0] * D
        need(abs(x - y) <= 5.1e-7 + 1e-14 * y, 'helicorr %g: %.9g becomes '
             '%.6f instead of %.7f', v, p[0], x, y)
        if v == 0:
            need(abs(x - p[0]) <= 5.1e-7 + 1e-14 * y, 'velocity zero changes '
                 '%r to %r', p[0], x)
        elif abs(D - 1) * p[0] > 2e-6:
            need((x > p[0]) == (v > 0), 'velocity %g turns %.9g into %.9g', v,
                 p[0], x)
    # and back
    _, g2 = go(-v, o1, 0)
    x2 = same_columns(g2, [[a] + [tables.sci(y) for y in p[1:]]
                           for a, p in zip(x1, rs)])
    for x, p in zip(x2, rs):
        need(abs(x - p[0]) <= 5.2e-7 * (1 + 1 / D) + 1e-13 * p[0],
             'helicorr %g undone by %g turns %.9f into %.6f', v, -v, p[0], x)
    # relativistic addition of velocities
    w = (u + v) / (1 + u * v / C0 ** 2)
    E = factor(u)
    _, g3 = go(u, o1, 0)
    _, g4 = go(w, text(t), t['skip'])
    cond = 1.0 / max(1e-3, 1 - (w / C0) ** 2)
    for a, b, p in zip(g3, g4, rs):
        need(abs(a[0] - b[0]) <= 5.2e-7 * (2 + E) + 1e-13 * cond * b[0],
             'corrections %g and %g turn %.9g into %.6f, their relativistic '
             'sum into %.6f', v, u, p[0], a[0], b[0])
    return dict(nontrivial=v != 0, classes=['positive' if v > 0 else 'negative',
                                            'fast' if abs(v) > 1e7 else 'slow'])


def ev_factor(case, ctx):
    for v in case['v']:
        z = num.lib(ctx).doppler(v)
        need(abs(z + 1 - factor(v)) <= 1e-14 * factor(v) / (1 - abs(v) / C0),
             'redshift(%r) is %.15g', v, z)
        back = num.lib(ctx).doppler(-v)
        need(abs((1 + z) * (1 + back) - 1) < 1e-13 / (1 - abs(v) / C0),
             'redshift(%r) and redshift(%r) do not cancel', v, -v)
    return dict(nontrivial=True)


@st.composite
def too_fast(draw):
    v = C0 * draw(st.sampled_from([1.0, 1.5, 1e3, 1.0000001]))
    return dict(v=v * draw(st.sampled_from([1, -1])),
                t=draw(table(header=False)))


def ev_too_fast(case, ctx):
    r = tool(ctx, 'helicorr', [repr(case['v'])], text(case['t']))
    need(r.rc == 8 and not r.out and r.err, 'velocity %r m/s is not rejected: '
         'exit status %d, output %r', case['v'], r.rc, r.out[:80])
    return dict(nontrivial=True)


def setup(tier):
    return dict(num.setup(tier), **setup_cli(tier))


PROP = Prop(
    'C24',
    [Sub('correct', cases, ev, 1000, 16000),
     Sub('factor', lambda: st.fixed_dictionaries(dict(v=st.lists(
         velocity(), min_size=1, max_size=20))), ev_factor, 1000, 20000),
     Sub('limit', too_fast, ev_too_fast, 60, 600)],
    rule='Hypothesis draws velocities from 1e-3 m/s to 0.99 c of both signs '
    'and tables; wavelengths after one correction, after the opposite '
    'correction, and after two corrections are compared with the exact '
    'relation. Velocities not below the speed of light must be rejected. '
    'Non-trivial: the velocity is not zero.',
    technique='property-based testing of the program against the relativistic '
    'Doppler formula, round trips and velocity addition',
    level_note='To the six printed decimals.',
    setup=setup)
