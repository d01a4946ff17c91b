import numpy as np
from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub
from .common import need, setup_cli, static_run
from ..spec import CAT, CFL, FIT, FLX, MSK, RES, UNC, WAV


def usable(case):
    """Condition number of the reference problem of every section."""
    lv, sv, _, _ = spec.resolve(case, case['flavour'])
    out = []
    for s in case['sections']:
        w, f, u, m = spec.section_arrays(s)
        qs = [lv[ln['id']] for ln in s['lines']]
        _, _, c = spec.transmission(case['flavour'], qs, w, sv[s['id']])
        out.append(spec.cont_condition(w, u, m, c, s['npoly']))
    return out


def checked_run(case, ctx):
    """The result, or None where the continuum is legitimately singular."""
    k = usable(case)
    res = static_run(case, ctx, rc=(2, 16) if max(k) > 1e5 else (2,))
    return (None if res.rc == 16 else res), k


def safe_run(case, ctx):
    d = ctx.fresh()
    spec.write_data(case, d)
    r = spec.fit(ctx, case['flavour'], spec.model_text(case), d)
    return r


def ev(case, ctx):
    fla = case['flavour']
    kap = usable(case)
    r = safe_run(case, ctx)
    if r.rc == 16 and max(kap) > 1e5:
        need('singular' in r.err or r.err, 'status 16 without a message')
        return dict(nontrivial=False, classes=['singular'])
    need(r.rc == 2, 'exit status %d: %s', r.rc, r.err[-300:])
    res = spec.Result(r.out)
    classes, nontrivial = [], False
    for s, D, k in zip(case['sections'], res.data, kap):
        w, f, u, m = spec.section_arrays(s)
        cfl, cat = D[:, CFL], D[:, CAT]
        if s['npoly'] == 0:
            need(np.all(cfl == 1.0), 'continuum is not one without basis '
                 'polynomials')
            classes.append('p=0')
            continue
        if k > 2e4:
            classes.append('ill-conditioned')
            continue
        ref = spec.continuum(w, f, u, m, cat, s['npoly'])
        scale = np.abs(ref).max() + np.abs(f[m > 0]).max()
        tol = (3e-8 * k + 1e-14 * k * k) * scale
        bad = np.abs(cfl - ref) > tol + 1e-8 * np.abs(ref)
        if bad.any():
            i = int(np.argmax(np.abs(cfl - ref)))
            need(False, '%s section %s with %d basis polynomials: continuum at '
                 '%.8g is %.9g, least squares %.9g (condition %.2g)', fla,
                 s['id'], s['npoly'], w[i], cfl[i], ref[i], k)
        # polynomial of degree p-1: no better fit of higher degree remains
        t = 2 * (w - w[0]) / (w[-1] - w[0]) - 1
        if len(w) > s['npoly']:
            V = np.polynomial.legendre.legvander(t, s['npoly'] - 1)
            rest = cfl - V @ np.linalg.lstsq(V, cfl, rcond=None)[0]
            need(np.abs(rest).max() <= 1e-7 * np.abs(cfl).max(),
                 'continuum is not a polynomial of degree %d', s['npoly'] - 1)
        classes.append('p=%d' % s['npoly'])
        if (m == 0).any():
            classes.append('masked')
        if (1 - cat).max() > 0.05:
            classes.append('absorbed')
        nontrivial = True
    return dict(nontrivial=nontrivial, classes=classes)


def costs(res, case):
    out = []
    for s, D in zip(case['sections'], res.data):
        k = D[:, MSK] > 0
        out.append(0.5 * float(np.sum(D[k, RES] ** 2)))
    return out


def ev_degree(case, ctx):
    """One more basis polynomial never increases the cost."""
    kap = usable(dict(case, sections=[dict(s, npoly=s['npoly'] + 1)
                                      for s in case['sections']]))
    if max(kap) > 2e4:
        return dict(nontrivial=False, classes=['ill-conditioned'])
    a = costs(static_run(case, ctx), case)
    more = dict(case, sections=[dict(s, npoly=s['npoly'] + 1)
                                for s in case['sections']])
    b = costs(static_run(more, ctx), more)
    for s, x, y in zip(case['sections'], a, b):
        need(y <= x * (1 + 1e-6) + 1e-6,
             'section %s: cost grows from %.9g to %.9g with one more basis '
             'polynomial (%d)', s['id'], x, y, s['npoly'] + 1)
    return dict(nontrivial=any(y < x * 0.999 for x, y in zip(a, b)))


def ev_scale(case, ctx):
    """Flux and uncertainty times a power of two."""
    k = 2.0 ** case['power']
    if max(usable(case)) > 1e5:
        return dict(nontrivial=False, classes=['ill-conditioned'])
    r1 = static_run(case, ctx)
    d = ctx.fresh()
    for s in case['sections']:
        w, f, u, m = spec.data_rows(s['data'])
        with open('%s/%s' % (d, s['file']), 'w') as fd:
            for i in range(len(w)):
                fd.write('%r %r %r %d\n' % (float(w[i]), float(f[i] * k),
                                            float(u[i] * k), m[i]))
    r2 = static_run(case, ctx, write=False)
    for s, D, E in zip(case['sections'], r1.data, r2.data):
        if s['npoly'] == 0:
            continue
        need(np.all(spec.rel(D[:, CFL] * k, E[:, CFL]) < 3e-8),
             'the continuum does not scale with the flux')
        need(np.all(np.abs(D[:, RES] - E[:, RES])
                    <= 1e-6 * (1 + np.abs(D[:, RES]))),
             'residuals change when flux and uncertainty are scaled')
        need(r1.sections[s['id']]['cost'] == r2.sections[s['id']]['cost'],
             'the cost changes when flux and uncertainty are scaled')
    return dict(nontrivial=any(s['npoly'] for s in case['sections']))


def ev_exact(case, ctx):
    """Data that are a polynomial times the absorption are reproduced."""
    if max(usable(case)) > 1e4:
        return dict(nontrivial=False, classes=['ill-conditioned'])
    r1 = static_run(case, ctx)
    d = ctx.fresh()
    for s, D in zip(case['sections'], r1.data):
        w, f, u, m = spec.data_rows(s['data'])
        t = 2 * (w - w[0]) / (w[-1] - w[0]) - 1
        p = np.polynomial.legendre.legval(t, case['coef'][:max(1, s['npoly'])])
        with open('%s/%s' % (d, s['file']), 'w') as fd:
            for i in range(len(w)):
                fd.write('%r %r %r %d\n' % (
                    float(w[i]), float(p[i] * D[i, CAT]), 0.01 * (1 + i % 3),
                    m[i]))
    # the uncertainties are others now: check the condition again
    r2 = static_run(case, ctx, write=False)
    n = 0
    for s, D in zip(case['sections'], r2.data):
        if s['npoly'] == 0:
            continue
        n += 1
        w = D[:, WAV]
        k = D[:, MSK] > 0
        need(np.all(np.abs(D[k, FLX] - D[k, FIT])
                    <= 3e-6 * (np.abs(D[k, FLX]).max() + 1e-30)),
             'section %s: a polynomial of degree %d times the absorption is '
             'not reproduced (%.3g)', s['id'], s['npoly'] - 1,
             np.abs(D[k, FLX] - D[k, FIT]).max())
    return dict(nontrivial=n > 0)


def models(**kw):
    kw.setdefault('npoly', (0, 6))
    kw.setdefault('kinds', ('lin', 'log', 'jit'))
    if 'nmin' not in kw:
        # one of eight with many basis polynomials
        return st.sampled_from([0] * 14 + [1, 2]).flatmap(lambda k: models(
            **dict(kw, nmin=60, nmax=300, npoly=(7, 16) if k < 2 else (
                17, 40)) if k else
            dict(kw, nmin=16)))
    return spec.model_spec(maskp=True, excl=True, lines=(0, 3), strong=False,
                           window=True, **kw)


@st.composite
def scaled(draw):
    m = draw(models(npoly=(1, 5)))
    m['power'] = draw(st.integers(-40, 40))
    return m


@st.composite
def exact(draw):
    m = draw(spec.model_spec(maskp=True, lines=(0, 3), strong=False, nmin=16,
                             npoly=(1, 5)))
    m['coef'] = [draw(spec.fl(0.5, 3, 2))] + [draw(spec.fl(-1, 1, 2))
                                              for _ in range(4)]
    for s in m['sections']:
        s['npoly'] = max(1, s['npoly'])
    return m


PROP = Prop(
    'C07',
    [Sub('lsq', models, ev, 2800, 40000),
     Sub('degree', lambda: models(npoly=(1, 5)), ev_degree, 500, 8000),
     Sub('scale', scaled, ev_scale, 400, 6000),
     Sub('exact', exact, ev_exact, 400, 6000)],
    rule='Hypothesis draws sections of 16 to 60 points with noise, unequal '
    'uncertainties, masks, exclusion intervals, windows, up to three lines and '
    '0 to 6 basis polynomials (one of eight 60 to 300 points and 7 to 40). The continuum column is compared with a QR/SVD '
    'least-squares solution; further checks: nested degrees, power-of-two '
    'scaling, exact reproduction of polynomial data. Non-trivial: at least one '
    'basis polynomial and a condition number below 2e4.',
    technique='property-based testing of the built programs against an SVD '
    'least-squares reference and metamorphic relations',
    level_note='Comparison limited by the nine printed digits times the '
    'condition number; ill-conditioned cases are only required to end cleanly.',
    setup=setup_cli)
