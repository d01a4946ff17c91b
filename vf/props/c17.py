import copy
import math

import numpy as np
from hypothesis import strategies as st

from .. import opt, spec
from ..core import Prop, Sub
from ..spec import CK, K_TAU, fl, wide
from . import fits
from .common import need, setup_cli

DIGITS = {3: 3, 4: 3, 5: 3}
KEY = {3: 'v', 4: 'b', 5: 'N'}


@st.composite
def quadratics(draw, n=(1, 1), pops=(4, 20)):
    n = draw(st.integers(*n))
    mu = draw(st.integers(max(pops[0], n), max(pops[1], n)))
    return dict(n=n, ctr=[draw(fl(-9, 9, 3)) for _ in range(n)],
                curv=draw(wide(1e-2, 1e6)), cond=draw(st.sampled_from(
                    [1.0, 10.0, 300.0])), rotate=draw(st.booleans()),
                fseed=draw(st.integers(0, 9999)), f0=draw(st.sampled_from(
                    [0.0, 7.0, -30.0])), off=draw(fl(-1, 1, 2)),
                d=draw(wide(0.2, 3.0)), step=draw(st.sampled_from([0.3, 1.0])),
                parents=mu, population=2 * mu,
                seed=draw(st.integers(0, 2 ** 64 - 1)),
                bounds=draw(st.sampled_from([0, 0, 1, 2])))


@st.composite
def domains(draw):
    """Functions which are not defined beyond the bounds, with standard errors
    similar to the distance of the bounds."""
    c = draw(quadratics(n=(1, 4)))
    c['bounds'] = draw(st.sampled_from([1, 2]))
    c['curv'] = (draw(wide(0.05, 30.0)) / c['d']) ** -2
    c['domain'] = draw(st.sampled_from([8, 9]))
    return c


def go(ctx, c, **kw):
    n = c['n']
    A = opt.spd(n, c['cond'], c['curv'], c['fseed'], c['rotate'])
    ctr = np.array(c['ctr'])
    a = dict(n=n, kind=opt.QUADRATIC,
             par=np.concatenate([ctr, A.ravel(), [c['f0']]]),
             x0=ctr + c['off'] * c['d'], d0=[c['d']] * n, step=c['step'],
             parents=c['parents'], population=c['population'], stop=4000,
             seed=c['seed'], modulus=1, acc=1e-5)
    if c['bounds']:
        w = c['d'] * (3.0 if c['bounds'] == 1 else 30.0)
        a['lo'], a['up'] = ctr - w, ctr + w
        if c.get('domain'):
            opt.table(ctx, a['lo'], a['up'])
            a['transform'] = c['domain']
    a.update(kw)
    r = opt.run(ctx, **a)
    need(r.rc == 0, 'the optimizer failed')
    return r, A


def ev_exact(c, ctx):
    """The rescaled covariance matrix reproduces the curvature."""
    r, A = go(ctx, c)
    n = c['n']
    if not r.optimized:
        need(np.all(r.z == 0), 'uncertainties %r without optimisation',
             r.z.tolist())
        return dict(nontrivial=False, classes=['not optimised'])
    need(np.all(np.isfinite(r.z)) and np.all(r.z > 0), 'uncertainties %r',
         r.z.tolist())
    if n == 1:
        want = 1 / np.sqrt(A[0, 0]) * np.ones(1)
    else:
        # adapted covariance matrix and the curvature along its axes
        C = np.triu(r.C) + np.triu(r.C, 1).T
        ev, v = np.linalg.eigh(C)
        g = 1 / np.sqrt(ev * np.einsum('ij,ik,kj->j', v, A, v))
        want = np.exp(np.log(g).mean()) * np.sqrt(np.diag(C))
    tol = 1e-6 + 1e-13 * (abs(c['f0']) + abs(r.y))
    need(np.all(np.abs(r.z - want) <= tol * want), 'uncertainties %r instead '
         'of %r', r.z.tolist(), want.tolist())
    q, _ = go(ctx, c, maximize=1)
    need(q.z.tobytes() == r.z.tobytes(), 'uncertainties %r when the negative '
         'is maximised instead of %r', q.z.tolist(), r.z.tolist())
    return dict(nontrivial=True, classes=['dimension %d' % n, 'domain' if
                                          c.get('domain') else 'bounds' if
                                          c['bounds'] else 'free'])


def ev_stat(c, ctx):
    """Agreement with the standard errors, over several seeds."""
    R = []
    for k in range(10):
        r, A = go(ctx, c, seed=(c['seed'] + k) % 2 ** 64)
        if r.optimized:
            R.append(np.log(r.z / np.sqrt(np.diag(np.linalg.inv(A)))))
    if len(R) < 8:
        return dict(nontrivial=False, classes=['not optimised'])
    R = np.array(R)
    worst = float(np.abs(R).max())
    need(worst < 1.1, 'an uncertainty is %.3g times the standard error',
         math.exp(R.flat[np.abs(R).argmax()]))
    m = R.mean(axis=0)
    i = int(np.abs(m).argmax())
    need(abs(m[i]) < 0.33, 'the uncertainties of parameter %d are %.3g times '
         'the standard error, on average over %d seeds', i + 1,
         math.exp(m[i]), len(R))
    need(abs(R.mean()) < 0.22, 'the uncertainties are %.3g times the standard '
         'errors, on average', math.exp(R.mean()))
    return dict(nontrivial=True, classes=['dimension %d' % c['n'],
                                          'condition %g' % c['cond']])


# ------------------------------------------------------------------- spectra
@st.composite
def spectra(draw):
    fla = draw(st.sampled_from(spec.FLAVOURS))
    n = draw(st.integers(60, 90))
    d = dict(n=n, w0=draw(fl(1500, 8000, 1)), dw=draw(wide(0.01, 0.1)),
             kind='lin', seed=draw(st.integers(0, 9999)), level=1.0,
             unc=draw(st.sampled_from([0.002, 0.005, 0.01])), noise=1.0,
             maskp=draw(st.sampled_from([0.0, 0.1])))
    w = spec.grid(d)
    lines = []
    for k in range(draw(st.integers(1, 2))):
        pos = draw(fl(0.25, 0.42, 3)) if k == 0 else draw(fl(0.58, 0.75, 3))
        lc = w[0] + pos * (w[-1] - w[0])
        z = draw(st.sampled_from([0.0, 1.5, 3.25]))
        x = round(lc / (1 + z), 5)
        bw = draw(fl(2.0, 4.0, 2)) * d['dw']
        b = round(bw / lc * CK, 3)
        f = draw(fl(0.05, 0.9, 3))
        t0 = draw(fl(0.3, 1.5, 2))
        N = math.log10(t0 * math.sqrt(math.pi) * bw / (K_TAU * f * x * x
                                                       * (1 + z)))
        q = [x, f, z, 0.0, b, round(N, 3)]
        if fla in ('oregano', 'mascada'):
            q.append(float('%.3g' % (0.3 * bw / (spec.K_DAMP * x * lc))))
        if fla == 'azafran':
            q += [draw(fl(-900, 900, 0)), 0.0]
        lines.append(q)
    hp = draw(fl(0.8, 2.0, 2))
    r = float('%.5g' % (0.25 * (w[0] + w[-1]) / (hp * d['dw'] * 1000)))
    slots = [(i, j) for i in range(len(lines)) for j in (3, 4, 5)]
    return dict(flavour=fla, data=d, lines=lines, r=r,
                npoly=draw(st.integers(0, 3)),
                free=sorted(draw(st.lists(st.sampled_from(slots), min_size=1,
                                          max_size=3, unique=True))),
                seed=draw(st.integers(0, 2 ** 64 - 1)),
                mu=draw(st.integers(8, 14)))


def build(c, k=1.0):
    d = dict(c['data'], absorb=dict(flavour=c['flavour'], res=c['r'],
                                    q=c['lines']))
    ls = []
    for i, q in enumerate(c['lines']):
        p = [spec.fixed(x) for x in q]
        for a, j in c['free']:
            if a == i:
                w = {3: 0.8 * q[4], 4: 0.6 * q[4], 5: 0.5}[j]
                p[j] = spec.free(round(q[j] - w, 4), round(q[j] + 0.9 * w, 4))
        ls.append(dict(id='L%d' % i, p=p))
    s = dict(id='S', file='d.dat', a=0.0, b=99999.0, npoly=c['npoly'],
             res=spec.fixed(c['r']), lines=ls, data=d)
    return dict(flavour=c['flavour'], sections=[s])


def standard_errors(c, best):
    """From the curvature of the reference model, continuum included."""
    m = build(c)
    w, f, u, msk = spec.section_arrays(m['sections'][0])
    fla = c['flavour']

    def fit(q):
        cat = spec.transmission(fla, q, w, c['r'])[2]
        cfl = spec.continuum(w, f, u, msk, cat, c['npoly'])
        return cat, cfl
    qs = [list(q) for q in c['lines']]
    for (i, j), v in zip(c['free'], best):
        qs[i][j] = v
    cat, cfl = fit(qs)
    cols = []
    for i, j in c['free']:
        h = {3: 1e-3 * qs[i][4], 4: 1e-3 * qs[i][4], 5: 1e-3}[j]
        p, q = [list(x) for x in qs], [list(x) for x in qs]
        p[i][j] += h
        q[i][j] -= h
        cols.append((fit(p)[0] - fit(q)[0]) / (2 * h) * cfl / u)
    t = 2.0 * (w - w[0]) / (w[-1] - w[0]) - 1.0
    for k in range(c['npoly']):
        cols.append(np.polynomial.legendre.legval(t, [0] * k + [1]) * cat / u)
    J = np.array(cols)[:, msk > 0]
    F = J @ J.T
    return np.sqrt(np.diag(np.linalg.inv(F)))[:len(c['free'])]


def run(c, ctx, k=1.0):
    m = build(c)
    s = m['sections'][0]
    d = ctx.fresh()
    w, f, u, msk = spec.data_rows(s['data'])
    with open(d + '/d.dat', 'w') as o:
        for a in zip(w, f, u * k, msk):
            o.write('%r %r %r %d\n' % tuple(
                [float(x) for x in a[:3]] + [int(a[3])]))
    args = [c['seed'], c['mu'], 2 * c['mu'], '0.5', '1e-5', 1500, 0]
    r = spec.fit(ctx, c['flavour'], spec.model_text(m), d, args)
    if r.rc != 0:
        need(r.rc in (1, 2, 16), 'exit status %d', r.rc)
        return None
    res = spec.Result(r.out)
    cells = [res.lines['L%d' % i][KEY[j]] for i, j in c['free']]
    need(all(u is not None for _, u in cells), 'a free parameter without '
         'uncertainty')
    n = sum(v[1] is not None for ln in res.lines.values() for key, v in
            ln.items() if isinstance(v, tuple) and key != 'w')
    need(n == len(c['free']), '%d uncertainties for %d free parameters', n,
         len(c['free']))
    return np.array([v for v, _ in cells]), np.array([x for _, x in cells])


def ev_spectra(c, ctx):
    a = run(c, ctx)
    if a is None:
        return dict(nontrivial=False, classes=['not optimised'])
    v, z = a
    n = len(c['free'])
    # a parameter at its bound has no parabola
    se = standard_errors(c, v)
    lim = 0.12 if n == 1 else 0.75
    for (i, j), x, e in zip(c['free'], z, se):
        need(e * math.exp(-lim) - 6e-4 <= x <= e * math.exp(lim) + 6e-4,
             'uncertainty of %s of line %d is %g, the standard error %g',
             KEY[j], i, x, e)
    b = run(c, ctx, 4.0)
    if b is not None:
        need(np.all(np.abs(b[0] - v) <= 0.0015 + 1e-4 * abs(v) + 0.02 * se),
             'other parameters %r instead of %r for uncertainties times four',
             b[0].tolist(), v.tolist())
        t = 0.1 if n == 1 else 0.75
        need(np.all(b[1] <= 4 * z * math.exp(t) + 3e-3)
             and np.all(b[1] >= 4 * z * math.exp(-t) - 3e-3), 'uncertainties '
             '%r instead of four times %r for data uncertainties times four',
             b[1].tolist(), z.tolist())
    return dict(nontrivial=True, classes=['%d free' % n, c['flavour'],
                                          'npoly %d' % c['npoly']])


def ev_zero(c, ctx):
    r = fits.run_fit(c, ctx)
    if fits.bad_end(r) or r.rc == 0:
        return dict(nontrivial=False, classes=['status %d' % r.rc])
    res = spec.Result(r.out)
    n = 0
    for k, row in list(res.lines.items()) + list(res.sections.items()):
        for key, v in row.items():
            if isinstance(v, tuple) and v[1] is not None:
                n += key != 'w'
                need(v[1] == 0.0, '%s: uncertainty %r of %s in a run that is '
                     'not optimised (status %d)', k, v[1], key, r.rc)
    return dict(nontrivial=n > 0, classes=['status %d' % r.rc])


@st.composite
def weak(draw):
    """Data which hardly determine the parameters: steps to where the cost
    rises by one half leave the domain of the profiles."""
    c = draw(fits.fit_case(endings=('opt',), maxgen=15, flavour=draw(
        st.sampled_from(spec.FLAVOURS + ['oregano']))))
    c['args'][4] = draw(st.sampled_from(['1e-1', '1e-1', '3e-2', '1e-2']))
    for s in c['sections']:
        k = draw(st.sampled_from([1.0, 10.0, 100.0, 1e3]))
        s['data']['unc'] *= k
        s['data']['noise'] = draw(st.sampled_from([0.1, 1.0])) / k
        for ln in s['lines']:
            for j in (4, 6):
                if c['flavour'] != 'azafran' and j < len(ln['p']) \
                        and ln['p'][j]['opt'] and draw(st.booleans()):
                    ln['p'][j]['lo'] = 0.01 * ln['p'][j]['up']
    return c


def ev_weak(c, ctx):
    r = fits.run_fit(c, ctx)
    if fits.bad_end(r) or r.rc != 0:
        return dict(nontrivial=False, classes=['status %d' % r.rc])
    res = spec.Result(r.out)
    n = 0
    fits_well = all(x['per'] < 100 for x in res.sections.values())
    for k, row in list(res.lines.items()) + list(res.sections.items()):
        for key, v in row.items():
            if isinstance(v, tuple) and v[1] is not None:
                n += key != 'w'
                need(v[1] > 0.0 if key == 'N' and fits_well else v[1] >= 0.0,
                     '%s: uncertainty %r of %s', k, v[1], key)
    return dict(nontrivial=n > 0, classes=[c['flavour'], '%d free' % min(n, 6)])


def setup(tier):
    return dict(setup_cli(tier), **opt.setup(tier))


PROP = Prop(
    'C17',
    [Sub('one', quadratics, ev_exact, 200, 5000),
     Sub('several', lambda: quadratics(n=(2, 7)), ev_exact, 200, 5000),
     Sub('many', lambda: quadratics(n=(8, 24), pops=(8, 16)), ev_exact, 24, 400),
     Sub('domain', domains, ev_exact, 600, 8000),
     Sub('scatter', lambda: quadratics(n=(2, 6), pops=(5, 14)), ev_stat, 60,
         1500),
     Sub('spectra', spectra, ev_spectra, 150, 4000),
     Sub('zero', lambda: fits.fit_case(endings=('stop', 'under'), maxgen=15),
         ev_zero, 300, 4000),
     Sub('weak', weak, ev_weak, 1200, 12000)],
    rule='Hypothesis draws quadratic functions (dimension, curvature, '
    'condition, rotation, optimum, offset, bounds) and settings for the '
    'optimizer, and synthetic spectra with one or two lines and up to three '
    'free parameters. Uncertainties are compared with the exact standard '
    'error (one dimension), with the adapted covariance matrix rescaled to the '
    'curvature along its axes (any dimension), with the inverse curvature over '
    'ten seeds, and, for spectra, with the Fisher matrix of a reference model. '
    'Non-trivial: the run is optimised (zero: it is not, and has free '
    'parameters).',
    technique='property-based testing of the optimizer and the fitting '
    'programs against exact and Fisher-matrix standard errors',
    level_note='Statistical tolerance for several parameters: factor three for '
    'each, 40 per cent for the mean over ten seeds (two per cent to 30 per '
    'cent scatter observed).',
    setup=setup)
