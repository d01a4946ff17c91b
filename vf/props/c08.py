import math

import numpy as np
from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub
from ..spec import (ATM, CAT, CFL, CK, FIT, FLX, MSK, NFL, NUN, OPT, RES, TFL,
                    UNC, WAV)
from .common import need, setup_cli
from . import fits

KEYS = [('x', 0, 4), ('f', 1, None), ('z', 2, 7), ('v', 3, 3), ('b', 4, 3),
        ('N', 5, 3)]


def close(a, b, rel, what, *args):
    bad = ~(np.abs(a - b) <= rel)
    if np.any(bad):
        i = int(np.argmax(bad))
        need(False, what + ': row %d has %.9g instead of %.9g', *args, i + 1,
             a[i], b[i])


def check_rows(s, D):
    """One section of the data block."""
    sid = s['id']
    w, f, u, m = spec.section_arrays(s)
    need(len(D) == len(w), 'section %s has %d rows for %d data points', sid,
         len(D), len(w))
    for col, ref, name in ((WAV, w, 'wavelength'), (FLX, f, 'flux'),
                           (UNC, u, 'uncertainty')):
        close(D[:, col], ref, 6e-9 * np.abs(ref), 'section %s: %s', sid, name)
    close(D[:, MSK], m.astype(float), 0.0, 'section %s: validity', sid)
    e = 1.2e-8
    T = D[:, ATM] * D[:, CFL]
    close(D[:, TFL], T, 2 * e * np.abs(T), 'section %s: flux of the '
          'unconvoluted model', sid)
    F = D[:, CAT] * D[:, CFL]
    close(D[:, FIT], F, 2 * e * np.abs(F) + 1e-300, 'section %s: fitted flux',
          sid)
    R = (D[:, FLX] - D[:, FIT]) / D[:, UNC]
    tol = e * ((np.abs(D[:, FLX]) + np.abs(D[:, FIT])) / D[:, UNC]
               + np.abs(R)) + 1e-12
    close(D[:, RES], R, tol, 'section %s: residual', sid)
    N = D[:, FLX] / D[:, CFL]
    close(D[:, NFL], N, 2 * e * np.abs(N), 'section %s: normalised flux', sid)
    N = D[:, UNC] / D[:, CFL]
    close(D[:, NUN], N, 2 * e * np.abs(N), 'section %s: normalised '
          'uncertainty', sid)
    need(np.all(np.isfinite(D)), 'section %s: not finite', sid)
    A = np.exp(-D[:, OPT])
    close(D[:, ATM], A, 1e-8 * A * (1 + D[:, OPT]) + 1e-300,
          'section %s: transmission', sid)


def check_tables(case, res):
    fla = case['flavour']
    lv, sv, lf, sf = spec.resolve(case, fla)
    need(set(res.sections) == {s['id'] for s in case['sections']},
         'sections of the table: %r', sorted(res.sections))
    ids = [ln['id'] for s in case['sections'] for ln in s['lines']]
    need(set(res.lines) == set(ids), 'lines of the table: %r',
         sorted(res.lines))
    for s, D in zip(case['sections'], res.data):
        t = res.sections[s['id']]
        h = 0.0050001
        need(abs(t['lo'] - D[0, WAV]) <= h + 1e-8 * t['lo']
             and abs(t['up'] - D[-1, WAV]) <= h + 1e-8 * t['up'],
             'section %s: wavelength range [%g, %g] of data from %.9g to %.9g',
             s['id'], t['lo'], t['up'], D[0, WAV], D[-1, WAV])
        need(t['npoly'] == s['npoly'], 'section %s: %d basis polynomials '
             'instead of %d', s['id'], t['npoly'], s['npoly'])
        k = D[:, MSK] > 0
        need(t['n'] == k.sum(), 'section %s: %d valid points instead of %d',
             s['id'], t['n'], k.sum())
        c = 0.5 * float(np.sum(D[k, RES] ** 2))
        tol = 2e-8 * float(np.sum(np.abs(D[k, RES]) * (
            1 + np.abs(D[k, FLX]) / D[k, UNC])))
        tol += 1.2e-8 * c
        need(abs(t['cost'] - c) <= h + tol, 'section %s: cost %.9g '
             'in the table, %.9g from the residuals', s['id'], t['cost'], c)
        if t['n']:
            need(abs(t['per'] - c / t['n']) <= h + tol / t['n'],
                 'section %s: cost per data point %.9g instead of %.9g',
                 s['id'], t['per'], c / t['n'])
        r, u = t['res']
        need((u is not None) == sf[s['id']], 'section %s: resolution %s '
             'uncertainty', s['id'], 'with' if u is not None else 'without')
        if not sf[s['id']]:
            need(abs(r - sv[s['id']]) <= h + 1e-12 * r, 'section %s: fixed '
                 'resolution %.9g appears as %.9g', s['id'], sv[s['id']], r)
    for i in ids:
        row, q, fr = res.lines[i], lv[i], lf[i]
        for key, j, nd in KEYS + ([('da', 7, 3)] if fla == 'azafran' else []):
            x, u = row[key]
            need((u is not None) == fr[j], 'line %s: %s %s uncertainty', i,
                 key, 'with' if u is not None else 'without')
            if not fr[j]:
                tol = 0.50001 * 10.0 ** -nd + 1e-13 * abs(q[j]) \
                    if nd is not None else 0.50001e-3 * 10.0 ** math.floor(
                        math.log10(abs(q[j])) if q[j] else 0) * 1.0001
                need(abs(x - q[j]) <= tol, 'line %s: fixed parameter %s = '
                     '%.9g appears as %.9g', i, key, q[j], x)
            elif u is not None:
                need(u >= 0 or math.isnan(u), 'line %s: negative uncertainty',
                     i)
        # observed wavelength and its uncertainty
        g = {}
        for key, j, nd in KEYS:
            x, u = row[key]
            h = 0.5001 * 10.0 ** -(nd or 0)
            g[key] = (q[j], 0.0, 0.0, 0.0) if not fr[j] else (x, h, u or 0.0,
                                                              h)
        x, z, v = g['x'], g['z'], g['v']
        w = x[0] * (1 + z[0]) * (1 + v[0] / CK)
        tol = 5.1e-5 + w * (x[1] / x[0] + z[1] / (1 + z[0]) + v[1] / CK) \
            * 1.01 + 1e-12 * w
        need(abs(row['w'][0] - w) <= tol, 'line %s: observed wavelength %.9g '
             'instead of %.9g', i, row['w'][0], w)

        # propagated from those of the parameters: in quadrature, or the sum
        # of both parts (rest wavelength; redshift and velocity)
        def dw(sign, add):
            a = [max(0.0, p[2] + sign * p[3]) for p in (x, z, v)]
            a = [w / x[0] * a[0], x[0] * math.hypot(
                (1 + v[0] / CK) * a[1], (1 + z[0]) * a[2] / CK)]
            return add(a)
        need(row['w'][1] is not None, 'line %s: no uncertainty of the observed '
             'wavelength', i)
        need(dw(-1, lambda a: math.hypot(*a)) * (1 - 1e-4) - 5.1e-5
             <= row['w'][1] <= dw(1, sum) * (1 + 1e-4) + 5.1e-5,
             'line %s: uncertainty of the observed wavelength %.9g, from the '
             'parameters %.9g', i, row['w'][1], dw(0, sum))


def check_used(case, res):
    """The tabulated parameters are those of the data block."""
    fla = case['flavour']
    lv, sv, lf, sf = spec.resolve(case, fla)
    n = 0
    for s, D in zip(case['sections'], res.data):
        qs, tol = [], 0.0
        for ln in s['lines']:
            q, fr, row = list(lv[ln['id']]), lf[ln['id']], res.lines[ln['id']]
            if any(fr[j] for j in range(6, len(fr)) if (fla, j) !=
                   ('azafran', 7)):
                qs = None       # a free parameter that is not tabulated
                break
            shift = 0.0
            for key, j, nd in KEYS + ([('da', 7, 3)] if fla == 'azafran'
                                      else []):
                if fr[j]:
                    q[j] = row[key][0]
                    h = 0.5 * 10.0 ** -(nd or 3)
                    shift += {0: h / q[0] * CK, 2: h / (1 + q[2]) * CK, 3: h,
                              4: h, 7: 1e-8 * abs(q[6] if j == 7 else 0) * h
                              * 1e-6 * CK}.get(j, 0.0)
            b = q[4]
            if b < 0.3 or not any(fr):
                if any(fr):
                    qs = None
                    break
            p = spec.peak(fla, q)
            tol += p * (3e-3 * any(fr) + 3 * shift / b + (
                2e-4 if fla in ('oregano', 'mascada') else 1e-6))
            qs.append(q)
        if qs is None:
            continue
        t = spec.tau(fla, qs, spec.section_arrays(s)[0])
        n += 1
        close(D[:, OPT], t, tol + 3e-3 * t, 'section %s: the optical depth is '
              'not that of the tabulated parameters', s['id'])
    return n


def ev(case, ctx):
    r = fits.run_fit(case, ctx)
    if fits.bad_end(r):
        return dict(nontrivial=False, classes=['status 16'])
    res = spec.Result(r.out)
    need(len(res.data) == len(case['sections']), '%d sections in the data '
         'block, %d in the model', len(res.data), len(case['sections']))
    # exactly one blank line between sections
    n = sum(ln == '' for ln in res.datal)
    need(n == len(case['sections']) - 1 or n == len(case['sections'])
         and res.datal[-1] == '', '%d empty lines in the data block of %d '
         'sections', n, len(case['sections']))
    for s, D in zip(case['sections'], res.data):
        check_rows(s, D)
    check_tables(case, res)
    used = check_used(case, res)
    return dict(nontrivial=True, classes=['status %d' % r.rc, case['flavour'],
                                          'parameters compared' if used
                                          else 'parameters not tabulated'])


def cases():
    return fits.fit_case(kinds=('lin', 'log', 'jit'), maskp=True, excl=True,
                         window=True)


def static():
    def fix(m):
        m['args'] = list(spec.STATIC)
        return m
    return spec.model_spec(kinds=('lin', 'log', 'jit'), maskp=True, excl=True,
                           window=True, sections=(1, 4), lines=(0, 5),
                           npoly=(0, 3), strong=False, nmin=16).map(fix)


@st.composite
def long(draw):
    """Sections of thousands of data points."""
    m = draw(spec.model_spec(
        kinds=('lin', 'log', 'jit'), maskp=True, excl=True, window=True,
        sections=(1, 2), lines=(0, 3), npoly=(0, 3), strong=False,
        nmin=draw(st.sampled_from([800, 3000, 10500])), nmax=12500,
        dwmin=0.005, dwmax=0.05, large=False))
    m['args'] = list(spec.STATIC)
    return m


PROP = Prop(
    'C08',
    [Sub('fits', cases, ev, 700, 9000),
     Sub('static', static, ev, 500, 8000),
     Sub('long', long, ev, 30, 300)],
    rule='Hypothesis draws models with one to four sections, up to five lines, '
    'masks, exclusion intervals, windows, free, fixed and tied parameters, and '
    'runs that end by convergence, underflow, or at the generation limit. All '
    'columns of the data block, the section table and the line table are '
    'recomputed from each other and from the definition. Non-trivial: the run '
    'ended with status 0, 1 or 2. Sections have up to 60 data points, some up '
    'to 12500.',
    technique='property-based testing of the programs: invariants between the '
    'parts of a result file',
    level_note='To the printed digits. Damping constants are not tabulated; '
    'sections with a free one skip the comparison of tabulated parameters with '
    'optical depths.',
    setup=setup_cli)
