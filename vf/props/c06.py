import math

import numpy as np
from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub
from . import c04
from .common import need, setup_cli, static_run
from ..spec import ATM, CAT, OPT


def near_integer(x):
    return abs(x - round(x)) < 1e-7 * max(1.0, abs(x))


def ev(case, ctx):
    fla = case['flavour']
    res = static_run(case, ctx)
    lv, sv, _, _ = spec.resolve(case, fla)
    classes, nontrivial = [], False
    for s, D in zip(case['sections'], res.data):
        w, f, u, m = spec.section_arrays(s)
        qs = [lv[ln['id']] for ln in s['lines']]
        r = sv[s['id']]
        if len(w) == 1:
            need(D[0, CAT] == D[0, ATM], 'section %s of one point: convoluted '
                 'transmission %.9g, transmission %.9g', s['id'], D[0, CAT],
                 D[0, ATM])
            classes.append('one point')
            nontrivial = nontrivial or D[0, CAT] < 0.99
            continue
        ss, dx, h, mm = spec.sampling(w, r)
        d = (w[-1] - w[0]) / (len(w) - 1)
        cat = D[:, CAT]
        if near_integer(d / h) or near_integer(4 * h / dx):
            classes.append('at a sampling boundary')
            continue
        need(np.all(np.isfinite(cat)), 'convoluted transmission not finite')
        pk = sum(spec.peak(fla, q) for q in qs)
        if ss == 1:
            c = spec.convolve(D[:, ATM], dx, h, mm, 1)
            tol = 2e-8
        else:
            t, a, c = spec.transmission(fla, qs, w, r)
            # line profiles may be cut off where they drop below 2e-7 of
            # their maximum; oregano: see C05
            tol = 3e-7 + 2e-7 * pk
            if fla == 'oregano':
                tol = 5e-5 + 1e-4 * pk
        bad = np.abs(cat - c) > tol
        if bad.any():
            i = int(np.argmax(np.abs(cat - c)))
            need(False, '%s section %s (supersampling %d, HWHM %.4g pixels, %d '
                 'points): convoluted transmission at %.8g (row %d) is %.9g, '
                 'reference %.9g', fla, s['id'], ss, h / d, len(w), w[i], i,
                 cat[i], c[i])
        if ss == 1:
            lo, up = D[:, ATM].min(), D[:, ATM].max()
            need(cat.min() >= lo * (1 - 1.2e-3) - 1e-3
                 and cat.max() <= up + 1e-3,
                 'convoluted transmission leaves the range of the '
                 'transmission: [%g, %g] not in [%g, %g]', cat.min(),
                 cat.max(), lo, up)
        if case.get('uneven'):
            if (1 - c).max() > 0.01:
                nontrivial = True
            classes.append('uneven supersampled' if ss > 1 else 'uneven')
            continue
        # physical check against the untruncated convolution of the true
        # transmission, away from the ends
        fine = 24
        wf = np.linspace(w[0], w[-1], fine * (len(w) - 1) + 1)
        A = np.exp(-spec.tau(fla, qs, wf))
        df = wf[1] - wf[0]
        curv = np.abs(np.diff(A, 2)).max() / df ** 2 if len(A) > 2 else 0.0
        sg = h / math.sqrt(2 * math.log(2.0))
        inner = (w - w[0] > 6 * sg) & (w[-1] - w > 6 * sg)
        if inner.any() and sg > 1.5 * df:
            K = int(6 * sg / df) + 1
            g = np.exp(-0.5 * (np.arange(-K, K + 1) * df / sg) ** 2)
            g /= g.sum()
            full = np.convolve(A, g, mode='same')[::fine]
            tol = dx * dx / 8 * curv + 1.5e-3 + 2e-3 * curv * df * df \
                + 2e-7 * pk
            need(np.all(np.abs(cat - full)[inner] <= tol),
                 '%s: convoluted transmission deviates by %.3g from the '
                 'convolution of the transmission (limit %.3g)', fla,
                 np.abs(cat - full)[inner].max(), tol)
            if tol < 0.02:
                classes.append('physical')
        if c.size and (1 - c).max() > 0.01:
            nontrivial = True
        classes.append('supersampled' if ss > 1 else
                       'wide' if mm > len(w) else 'plain')
    return dict(nontrivial=nontrivial, classes=classes)


def models(kinds=('lin',), **kw):
    return spec.model_spec(npoly=(0, 0), kinds=kinds, lines=(1, 3), **kw)


@st.composite
def long(draw):
    k = draw(st.integers(0, 2))
    if draw(st.integers(0, 2)) == 0:
        m = draw(models(kinds=('jit', 'log', 'jit'), nmin=(500, 1500, 3000)[k],
                        nmax=(1500, 3000, 7000)[k], dwmin=0.02, dwmax=0.1,
                        sections=(1, 1), res_per_pixel=(0.05, 8)))
        m['uneven'] = 1
        return m
    return draw(models(nmin=(500, 1500, 3000)[k], nmax=(1500, 3000, 7000)[k],
                       dwmin=0.02, dwmax=0.1, sections=(1, 1),
                       res_per_pixel=draw(st.sampled_from(
                           [(0.05, 0.9), (0.4, 8)]))))


@st.composite
def wide(draw):
    """Instrumental profiles of hundreds of pixels."""
    return draw(models(nmin=50, nmax=draw(st.sampled_from([200, 1500])),
                       dwmin=0.001, dwmax=0.05, sections=(1, 1),
                       res_per_pixel=draw(st.sampled_from(
                           [(60, 200), (150, 700)]))))


@st.composite
def uneven(draw):
    """Grids of irregular spacing: the samples are taken in equal parts of
    each interval and the mean spacing counts."""
    m = draw(models(kinds=('jit', 'log', 'jit'), nmin=3, nmax=60,
                    dwmin=draw(st.sampled_from([0.01, 0.5])), dwmax=3.0,
                    res_per_pixel=draw(st.sampled_from(
                        [(0.05, 0.9), (0.9, 8)]))))
    for s in m['sections']:
        if s['data']['kind'] == 'jit':
            s['data']['jitter'] = draw(st.sampled_from([0.1, 0.3, 0.9, 0.9]))
    m['uneven'] = 1
    return m


PROP = Prop(
    'C06',
    [Sub('conv', lambda: models(res_per_pixel=(0.4, 8)), ev, 2200, 30000),
     Sub('under', lambda: models(res_per_pixel=(0.03, 0.5), nmin=3, nmax=30),
         ev, 1200, 15000),
     Sub('over', lambda: models(res_per_pixel=(5, 60), nmin=3, nmax=120), ev,
         1000, 15000),
     Sub('few', lambda: c04.few(res_per_pixel=(0.05, 8)), ev, 300, 4000),
     Sub('long', long, ev, 60, 600),
     Sub('wide', wide, ev, 60, 800),
     Sub('uneven', uneven, ev, 900, 12000)],
    rule='Hypothesis draws sections of 1 to 120 (some of up to 7000) points, '
    'lines and '
    'resolutions such that the instrumental half-width ranges from 0.03 to 700 '
    'pixels; the convoluted transmission of the built program is compared with '
    'a closed-form convolution of the piecewise linear interpolant and, away '
    'from the ends, with a numerical convolution of the true transmission; '
    'sections of irregular spacing are compared with the former only. '
    'Non-trivial: the convoluted absorption exceeds one per cent.',
    technique='property-based testing of the built programs against an '
    'analytic and a numerical convolution',
    level_note='Cases within 1e-7 of a change of the number of samples are left '
    'out. Sampled parameter space.',
    setup=setup_cli)
