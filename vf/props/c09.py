import os

import numpy as np
from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub
from ..spec import FLX, MSK, NFL, RES, UNC, WAV
from . import fits
from .common import need, setup_cli

REPLACE = ['zero', 'negative', 'huge', 'limit', 'limit', 'noise', 'nine', 'tiny', 'swap']


@st.composite
def intervals(draw, s):
    """Exclusion intervals on, between, across and outside the data points."""
    w = spec.grid(s['data'])
    n = len(w)
    out = []
    many = draw(st.integers(0, 9)) == 0
    some = [draw(st.integers(0, n - 1)) for _ in range(5)]
    for _ in range(draw(st.integers(10, 60) if many else st.integers(0, 3))):
        i = draw(st.sampled_from(some))
        j = i if many else min(n - 1, i + draw(
            st.sampled_from([0, 0, 1, 2, n // 8, n // 5])))
        a, b = float(w[i]), float(w[j])
        h = 0.4 * s['data']['dw']
        k = draw(st.integers(0, 5))
        if k == 1:
            a, b = a - h, b + h
        elif k == 2:
            a = a + h / 2
            b = max(a, b)
        elif k == 3 and i == 0:
            a = a - 100.0
        elif k == 4:
            b = max(a, b - h / 2)
        out.append([a, b])
    return out


@st.composite
def cases(draw, endings=('stop', 'stop', 'opt', 'under'), static=False):
    kw = dict(kinds=('lin', 'log', 'jit'), maskp=True, window=True)
    if static:
        c = draw(spec.model_spec(sections=(1, 3), lines=(0, 3), nmin=16,
                                 strong=False, **kw))
        c['args'] = list(spec.STATIC)
    else:
        c = draw(fits.fit_case(maxgen=25, endings=endings, **kw))
    for s in c['sections']:
        s['excl'] = draw(intervals(s))
        s['cols'] = draw(st.sampled_from([4, 4, 4, 3]))
    c['replace'] = draw(st.sampled_from(REPLACE))
    c['rseed'] = draw(st.integers(0, 9999))
    return c


def masks(s):
    """(in window, valid) of the rows of a data file."""
    w, f, u, m = spec.data_rows(s['data'])
    if s['cols'] < 4:
        m = np.ones(len(w), dtype=int)
    m = m.copy()
    for a, b in s['excl']:
        m[(a <= w) & (w <= b)] = 0
    return spec.in_window(w, s['a'], s['b']), m


def write(c, d, change=None, column=False, valid=None):
    """Data files with the fluxes of excluded points replaced; the exclusion
    optionally stated in the fourth column."""
    rng = np.random.default_rng(c['rseed'])
    n = 0
    for s in c['sections']:
        w, f, u, m = spec.data_rows(s['data'])
        win, ok = masks(s)
        f = f.copy()
        k = ok == 0
        if change:
            lv = abs(s['data'].get('level', 1.0))
            z = rng.standard_normal(len(w))
            new = dict(zero=0 * f, negative=-np.abs(f) - lv, huge=f * 0 + 1e30,
                       limit=np.where(z > 0, 1e300, -1e300) * np.minimum(
                           1.0, np.abs(u)), noise=lv * 10 * z, nine=f * 0 + 9.99e99,
                       tiny=f * 0 + 1e-290, swap=f[::-1])[change]
            n += int((k & win & (f != new)).sum())
            f[k] = new[k]
        cols = [w, f, u]
        if column:
            cols.append(ok)
        elif s['cols'] == 4:
            cols.append(m)
        # out of the window anything goes
        with open(os.path.join(d, s['file']), 'w') as o:
            for r in zip(*cols):
                o.write(' '.join(spec.fmt(x) if i < 3 else str(int(x))
                                 for i, x in enumerate(r)) + '\n')
    return n


def strip(out, rows=True):
    """Output without the echo of the model, and without the columns that show
    the flux of excluded points."""
    head, rest = out.split('<model>\n', 1)
    rest = rest.split('</model>\n', 1)[1]
    if not rows:
        return head + rest
    a, b = rest.split('<data>\n', 1)
    data, tail = b.split('</data>\n', 1)
    L = []
    for ln in data.split('\n'):
        c = ln.split()
        if len(c) == 13 and float(c[MSK]) == 0:
            c[FLX] = c[RES] = c[NFL] = '*'
            ln = ' '.join(c)
        L.append(' '.join(ln.split()))
    return head + a + '\n'.join(L) + tail


def diff(a, b):
    from .c01 import first_difference
    return first_difference(a, b)


def ev(c, ctx):
    d = ctx.fresh()
    write(c, d)
    a = fits.run_fit(c, ctx, d=d)
    n = write(c, d, change=c['replace'])
    b = fits.run_fit(c, ctx, d=d)
    need(a.rc == b.rc, 'exit status %d instead of %d with other fluxes in '
         'excluded points', b.rc, a.rc)
    if fits.bad_end(a):
        return dict(nontrivial=False, classes=['status 16'])
    x, y = strip(a.out), strip(b.out)
    need(x == y, 'other fluxes (%s) in %d excluded points change the result: '
         '%s', c['replace'], n, diff(x, y))
    # the points are kept, with the right mask
    for s, D in zip(c['sections'], spec.Result(b.out).data):
        win, ok = masks(s)
        need(len(D) == win.sum(), 'section %s has %d rows instead of %d',
             s['id'], len(D), win.sum())
        bad = np.flatnonzero(D[:, MSK] != ok[win])
        need(not len(bad), 'section %s: row %d (%.9g) has validity %g, '
             'intervals %r', s['id'], bad[0] + 1 if len(bad) else 0,
             D[bad[0], WAV] if len(bad) else 0, D[bad[0], MSK] if len(bad)
             else 0, s['excl'])
    # header intervals are equivalent to the fourth column
    write(c, d, change=c['replace'], column=True)
    text = spec.model_text(dict(c, sections=[dict(s, excl=[])
                                             for s in c['sections']]))
    e = fits.run_fit(c, ctx, d=d, text=text)
    need(e.rc == b.rc and strip(e.out, False) == strip(b.out, False),
         'zeros in the fourth column give another result than exclusion '
         'intervals: %s', diff(strip(b.out, False), strip(e.out, False)))
    # the same set by other intervals
    rng = np.random.default_rng(c['rseed'])
    secs = []
    for s in c['sections']:
        ex = []
        for lo, up in s['excl']:
            m = lo + (up - lo) * rng.random()
            m2 = m - (m - lo) * rng.random()
            ex += [[lo, m], [m2, up]] if rng.random() < 0.7 else [[lo, up]] * 2
        rng.shuffle(ex)
        secs.append(dict(s, excl=[[float(p), float(q)] for p, q in ex]))
    write(c, d, change=c['replace'])
    e = fits.run_fit(c, ctx, d=d, text=spec.model_text(dict(c, sections=secs)))
    need(e.rc == b.rc and strip(e.out, False) == strip(b.out, False),
         'other intervals with the same union (%r instead of %r) give another '
         'result: %s', [s['excl'] for s in secs],
         [s['excl'] for s in c['sections']],
         diff(strip(b.out, False), strip(e.out, False)))
    return dict(nontrivial=n > 0, classes=['status %d' % a.rc, c['replace'],
                                           'excluded' if n else 'none'])


PROP = Prop(
    'C09',
    [Sub('fits', cases, ev, 500, 8000),
     Sub('static', lambda: cases(static=True), ev, 500, 8000)],
    rule='Hypothesis draws models with exclusion intervals (on, between, '
    'across and outside data points, overlapping, up to 60) and mask columns. The '
    'fluxes of all excluded points are replaced (zero, negative, up to 1e300); '
    'everything but the flux, residual and normalised flux of these points '
    'must be byte-identical. Intervals are also stated as fourth column and '
    'as other intervals of the same union. Non-trivial: the flux of at least '
    'one excluded point inside the window was replaced.',
    technique='metamorphic property-based testing of the fitting programs',
    level_note='Replacement fluxes up to 1e300; positive uncertainties.',
    setup=setup_cli)
