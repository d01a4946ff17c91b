import math

import numpy as np
from hypothesis import strategies as st

from .. import num, spec
from ..core import Prop, Sub
from ..spec import fl, wide
from .common import need, setup_cli, static_run

T, W = np.polynomial.legendre.leggauss(12)


def truth(flavour, q):
    """Rest equivalent width (mA) by composite Gauss quadrature."""
    l0, lc, zf = spec.line_geometry(flavour, q)
    bw = q[4] / spec.CK * lc
    dop = flavour in ('azafran', 'curcuma')
    ed = np.linspace(0, 4 * bw, 401) if dop else np.concatenate(
        [np.linspace(0, 6 * bw, 200), np.geomspace(6 * bw, 1e6 * bw, 300)[1:]])
    m, h = .5 * (ed[1:] + ed[:-1]), .5 * (ed[1:] - ed[:-1])
    x = (m[:, None] + h[:, None] * T).ravel()
    if dop:
        y = spec.area(flavour, q) * spec.gauss(x, bw)
    else:
        sh = spec.pseudo_voigt if flavour == 'oregano' else \
            spec.ext_pseudo_voigt
        y = spec.area(flavour, q) * sh(x, bw, spec.K_DAMP * q[6] * l0 * lc)
    tot = (-np.expm1(-y).reshape(-1, len(T)) * W * h[:, None]).sum()
    if not dop:
        tot += y[-1] * x[-1]        # optically thin wing ~ x^-2
    return 2e3 * tot / zf


def within(e, t):
    """(plausible, accurate): the error estimate of the integrator fails for
    about one line in a thousand, see DESIGN.md."""
    err = abs(e - t)
    return (math.isfinite(e) and err <= 0.1 * t + 0.05,
            math.isfinite(e) and err <= 5e-3 + 1e-5 * t)


@st.composite
def line(draw, flavour, bw=(0.03, 6.0)):
    """A line with a Doppler width of at least 0.03 A."""
    x = draw(fl(900, 8000, 2))
    z = draw(st.sampled_from([0.0, None]))
    z = draw(fl(0, 4, 4)) if z is None else z
    v = draw(fl(-300, 300, 1))
    lc = x * (1 + z) * (1 + v / spec.CK)
    w = draw(wide(*bw))
    t0 = draw(wide(1e-3, 1e4))
    f = draw(wide(1e-3, 1.2))
    b = w / lc * spec.CK
    N = math.log10(t0 * math.sqrt(math.pi) * w / (spec.K_TAU * f * x * lc))
    q = [x, f, z, v, round(b, 4), round(N, 4)]
    if flavour in ('oregano', 'mascada'):
        r = draw(st.sampled_from([0, None, None, None, None, None]))
        r = draw(wide(1e-6, 10)) if r is None else 0.0
        q.append(float('%.6g' % (r * w / (spec.K_DAMP * x * lc))))
    if flavour == 'azafran':
        q += [draw(fl(-2500, 2500, 0)), draw(fl(-100, 100, 1))]
    return q


@st.composite
def batch(draw):
    fla = draw(st.sampled_from(spec.FLAVOURS))
    return dict(flavour=fla, lines=draw(st.lists(
        line(fla), min_size=10, max_size=10, unique_by=lambda q: tuple(q))))


def ev_native(case, ctx):
    fla = case['flavour']
    off, cl = [], [fla]
    for q in case['lines']:
        e = float(num.profile(ctx, fla, q, [q[0]], (1, 2))[1][3])
        t = truth(fla, q)
        a, b = within(e, t)
        need(a, '%s: equivalent width of %r is %.6g mA, the integral of the '
             'absorption %.6g mA', fla, q, e, t)
        if not b:
            off.append((q, e, t))
    need(len(off) <= 2, '%s: %d of 10 equivalent widths are inaccurate, e.g. '
         '%r: %.8g mA instead of %.8g mA', fla, len(off),
         *(off[0] if off else (0, 0, 0)))
    return dict(nontrivial=True, classes=cl + (['outlier'] if off else []))


def doppler_q(fla, q, **kw):
    q = list(q)
    for k, v in kw.items():
        q[dict(x=0, f=1, z=2, v=3, b=4, N=5)[k]] = v
    return q


@st.composite
def related(draw):
    fla = draw(st.sampled_from(spec.FLAVOURS))
    n = 8
    return dict(flavour=fla,
                lines=draw(st.lists(line(fla), min_size=n, max_size=n,
                                    unique_by=lambda q: tuple(q))),
                z=draw(fl(0, 4, 3)), v=draw(fl(-500, 500, 1)),
                dN=draw(fl(0.1, 2.0, 2)))


def ev_related(case, ctx):
    """Redshift independence, growth with column density, exchange of f, N."""
    fla = case['flavour']
    ew = lambda q: float(num.profile(ctx, fla, q, [q[0]], (1, 2))[1][3])
    bad = {}

    def note(kind, q, a, b):
        bad.setdefault(kind, []).append((q, a, b))
    for q in case['lines']:
        if fla == 'azafran':
            q = q[:6] + [0.0, 0.0]
        e = ew(q)
        # the same absorber at another redshift
        k = doppler_q(fla, q, z=case['z'], v=case['v'])
        w = ew(k)
        if not within(w, e)[1]:
            note('redshift', q, e, w)
        # more absorbers absorb more
        k = doppler_q(fla, q, N=q[5] + case['dN'])
        w = ew(k)
        if w < e - 5e-3 - 1e-5 * e:
            note('column density', q, e, w)
        if w > e * 10 ** case['dN'] + 0.01 + 2e-5 * w:
            note('saturation', q, e, w)
        # only the product of oscillator strength and column density counts
        k = doppler_q(fla, q, f=q[1] / 10.0, N=q[5] + 1.0)
        w = ew(k)
        if not within(w, e)[1]:
            note('f N', q, e, w)
        # optically thin limit
        k = doppler_q(fla, q, N=8.0)
        w = ew(k)
        l0, lc, zf = spec.line_geometry(fla, k)
        a = 1e3 * spec.area(fla, k) / zf
        if spec.peak(fla, k) < 1e-3:
            if abs(w - a) > 2e-3 + 1e-3 * a:
                note('thin', k, a, w)
    for kind, b in bad.items():
        need(len(b) <= 2, '%s: equivalent width does not obey the %s relation '
             'for %d of %d lines, e.g. %r: %.8g and %.8g', fla, kind, len(b),
             len(case['lines']), *b[0])
    return dict(nontrivial=True, classes=[fla])


# --- through the programs
@st.composite
def tables(draw):
    fla = draw(st.sampled_from(spec.FLAVOURS))
    m = draw(spec.model_spec(flavour=fla, sections=(1, 2), lines=(0, 1),
                             npoly=(0, 2), strong=False))
    qs = draw(st.lists(line(fla), min_size=4, max_size=7,
                       unique_by=lambda q: tuple(q)))
    for i, q in enumerate(qs):
        s = m['sections'][i % len(m['sections'])]
        s['lines'].append(dict(id='E%d' % i, p=[spec.fixed(x) for x in q]))
    m['other'] = draw(spec.model_spec(flavour=fla, sections=(1, 1),
                                      lines=(0, 2), strong=False))
    return m


def ev_tables(case, ctx):
    fla = case['flavour']
    if any(s['npoly'] for s in case['sections']):
        # keep the continuum defined whatever the lines absorb
        case = dict(case, sections=[dict(s, npoly=0)
                                    for s in case['sections']])
    res = static_run(case, ctx)
    ln = [x for s in case['sections'] for x in s['lines']
          if x['id'][0] == 'E']
    off = []
    for x in ln:
        q = [p['v'] for p in x['p']]
        e, t = res.lines[x['id']]['ew'], truth(fla, q)
        a, b = within(e, t)
        need(a, '%s: tabulated equivalent width of %r is %.6g mA, the '
             'integral of the absorption %.6g mA', fla, q, e, t)
        off += [] if b or abs(e - t) < 6e-3 + 1e-5 * t else [(q, e, t)]
    need(len(off) <= 2, '%s: %d tabulated equivalent widths are inaccurate, '
         'e.g. %r', fla, len(off), off[:1])
    # the same lines amid other data, resolution, continuum and lines
    o = dict(case['other'], flavour=fla)
    s = dict(o['sections'][0], npoly=0)
    s['lines'] = s['lines'] + ln
    for i, x in enumerate(s['lines']):
        if x['id'][0] != 'E':
            s['lines'][i] = dict(x, id='X%d' % i)
    other = static_run(dict(o, sections=[s]), ctx)
    for x in ln:
        a, b = res.lines[x['id']]['ew'], other.lines[x['id']]['ew']
        need(a == b, '%s: the equivalent width of line %s depends on data, '
             'resolution or other lines: %r and %r mA', fla, x['id'], a, b)
    return dict(nontrivial=True, classes=[fla])


def setup(tier):
    return dict(num.setup(tier), **setup_cli(tier))


PROP = Prop(
    'C22',
    [Sub('integral', batch, ev_native, 1600, 24000),
     Sub('relations', related, ev_related, 800, 12000),
     Sub('tables', tables, ev_tables, 500, 8000)],
    rule='Hypothesis draws lines of all four flavours with central optical '
    'depths of 1e-3 to 1e4, observed Doppler widths of 0.03 to 6 A, '
    'Lorentz/Doppler ratios of 0 to 10, any redshift. Batches of lines are '
    'compared with composite Gauss quadrature, with themselves at another '
    'redshift, column density or with f and N exchanged, and through the '
    'result tables amid two different environments. Non-trivial: every case.',
    technique='property-based testing of the equivalent width calculator and '
    'the result tables against an independent quadrature and metamorphic '
    'relations',
    level_note='Every line to 10 per cent, eight of ten lines to 5e-3 mA + '
    '1e-5: the error estimate of the adaptive integrator is accidentally small '
    'for about one line in a thousand.',
    setup=setup)
