import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

from .. import num, tables
from ..core import Prop, Sub
from ..spec import fl, wide
from ..tables import parse, rows, table, text, tool
from .common import need, setup_cli

# (n - 1) * 1e8 = a + b / (130 - s^2) + c / (38.9 - s^2), s in 1/micrometre;
# kinds of native/num.cc: 0 Birch & Downs 1994, 1 Edlen 1953, 2 Edlen 1966
DISP = {0: (8342.54, 2406147.0, 130.0, 15998.0, 38.9),
        1: (6432.8, 2949810.0, 146.0, 25540.0, 41.0),
        2: (8342.13, 2406030.0, 130.0, 15997.0, 38.9)}


def index(kind, lam):
    a, b, p, c, q = DISP[kind]
    s2 = (1e4 / lam) ** 2
    return 1.0 + 1e-8 * (a + b / (p - s2) + c / (q - s2))


def to_air(lam, kind=2):
    return lam / index(kind, lam)


def to_vac(lam, kind=2):
    """Fixed-point iteration (contraction factor below 1e-3)."""
    x = lam
    for _ in range(60):
        y = lam * index(kind, x)
        if y == x:
            break
        x = y
    return x


def waves():
    return wide(1900.0, 5e6)


@st.composite
def eqs(draw):
    return dict(kind=draw(st.integers(0, 2)),
                lam=draw(st.lists(st.floats(1900, 50000) | wide(1900.0, 5e6), min_size=5,
                                  max_size=20)))


def ev_equations(case, ctx):
    k = case['kind']
    name = ('Birch & Downs (1994)', 'Edlen (1953)', 'Edlen (1966)')[k]
    prev = None
    for lam in sorted(case['lam']):
        x = 10.0 / lam
        n, y, z = num.equation(ctx, k, x)
        ref = index(k, lam)
        need(abs(n / x - ref) < 3e-15 * 4, '%s: refractive index at %.6g A is '
             '%.12g instead of %.12g', name, lam, n / x, ref)
        need(abs(y - x * ref) < 1e-14 * x, '%s: the two forms of the equation '
             'differ at %.6g A', name, lam)
        # derivative of n(x) x by central differences of the reference
        h = 1e-4 * x
        f = lambda u: u * index(k, 10.0 / u)
        d = (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) \
            / (12 * h)
        need(abs(z - d) < 3e-10, '%s: derivative at %.6g A is %.12g '
             'instead of %.12g', name, lam, z, d)
        # Newton inversion
        rc, s = num.solve(ctx, k, y, y, 1e-8)
        need(rc == 0 and abs(s - x) < 1e-14 * x, '%s: solve() inverts %.15g '
             'to %.15g instead of %.15g (rc %d)', name, y, s, x, rc)
        air = 10.0 / y
        need(air < lam, '%s: wavelength in air %.9g is not shorter than %.9g '
             'in vacuum', name, air, lam)
        if prev is not None and lam > prev[0] * (1 + 1e-12):
            need(air > prev[1], '%s: order of %.9g and %.9g A changes in air',
                 name, prev[0], lam)
        prev = (lam, air)
    return dict(nontrivial=True, classes=[name])


@st.composite
def convs(draw):
    return dict(first=draw(st.sampled_from(['airtovac', 'vactoair'])),
                t=draw(table(header=False, wmin=2000.0, wmax=draw(
                    st.sampled_from([50000.0] * 4 + [2e6])))))


def ev_tools(case, ctx):
    t = case['t']
    rs = rows(t)
    other = dict(airtovac='vactoair', vactoair='airtovac')[case['first']]
    r = tool(ctx, case['first'], [], text(t))
    need(r.rc == 0, '%s: exit status %d', case['first'], r.rc)
    a = [g[0] for g in parse(r.out)]
    need(len(a) == len(rs), '%d rows in, %d rows out', len(rs), len(a))
    fun = to_air if case['first'] == 'vactoair' else to_vac
    for x, p in zip(a, rs):
        y = fun(p[0])
        need(abs(x - y) <= 5.1e-7 + 1e-13 * y, '%s: %.9g A becomes %.6f '
             'instead of %.7f', case['first'], p[0], x, y)
        need((x < p[0]) == (case['first'] == 'vactoair'),
             '%s: %.9g becomes %.9g', case['first'], p[0], x)
    o = sorted(zip([p[0] for p in rs], a))
    for (p, x), (q, y) in zip(o, o[1:]):
        need(y >= x, '%s does not preserve the order of %r and %r',
             case['first'], p, q)
    back = tool(ctx, other, [], r.out)
    need(back.rc == 0, '%s: exit status %d', other, back.rc)
    b = [g[0] for g in parse(back.out)]
    need(len(b) == len(rs), 'rows lost on the way back')
    for x, p in zip(b, rs):
        need(abs(x - p[0]) <= 1.05e-6 + 1e-13 * x, '%s after %s turns %.9f '
             'into %.6f', other, case['first'], p[0], x)
    return dict(nontrivial=True, classes=[case['first']])


@st.composite
def solves(draw):
    return dict(kind=draw(st.integers(0, 2)), lam=draw(waves()),
                guess=draw(st.sampled_from([0.5, 0.9, 1.0, 1.0003, 1.1])),
                acc=draw(st.sampled_from([1e-4, 1e-8, 1e-12])))


def ev_solve(case, ctx):
    k, lam = case['kind'], case['lam']
    c = 10.0 / to_air(lam, k)
    x = 10.0 / lam
    g = c * case['guess']
    # stay away from the ultraviolet poles of the dispersion equation
    if g > 10.0 / 1750:
        g = 10.0 / 1750
    rc, s = num.solve(ctx, k, c, g, case['acc'])
    need(rc == 0, 'solve() did not converge from %r to %r', g, x)
    need(abs(s - x) <= case['acc'] * x + 1e-14 * x,
         'solve(): %.15g from %.6g with accuracy goal %g is off the root '
         '%.15g', s, g, case['acc'], x)
    return dict(nontrivial=case['guess'] != 1.0, classes=['acc=%g'
                                                          % case['acc']])


def setup(tier):
    return dict(num.setup(tier), **setup_cli(tier))


PROP = Prop(
    'C23',
    [Sub('equations', eqs, ev_equations, 2000, 60000),
     Sub('tools', convs, ev_tools, 1200, 20000),
     Sub('solve', solves, ev_solve, 2000, 60000)],
    rule='Hypothesis draws wavelengths of 1900 to 5000000 A and tables; the '
    'equations, their derivatives and Newton inversions are compared with the '
    'published dispersion formulas written in micrometres, the programs with '
    'the reference conversion, with order and with the way back. Non-trivial: '
    'every case (solve: the initial guess differs from the constant).',
    technique='property-based testing of the programs and of the equations '
    'against the published dispersion formulas, and round trips',
    level_note='Derivatives to 3e-10 (finite differences of the reference).',
    setup=setup)
