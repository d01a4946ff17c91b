import numpy as np
from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub
from .common import need, setup_cli, static_run
from ..spec import ATM, OPT, WAV


def check_opacity(case, ctx, tol, exact_tol=None):
    fla = case['flavour']
    res = static_run(case, ctx)
    nontrivial = False
    classes = []
    lv, sv, _, _ = spec.resolve(case, fla)
    for s, D in zip(case['sections'], res.data):
        w, f, u, m = spec.section_arrays(s)
        need(len(D) == len(w), 'section %s: %d rows instead of %d', s['id'],
             len(D), len(w))
        qs = [lv[ln['id']] for ln in s['lines']]
        t = spec.tau(fla, qs, w)
        pk = sum(spec.peak(fla, q) for q in qs)
        o, a = D[:, OPT], D[:, ATM]
        need(np.all(o >= 0), 'negative optical depth %g', o.min())
        lim = tol * pk + 1e-8 * t + 1e-12 * pk
        bad = np.abs(o - t) > lim
        if bad.any():
            i = int(np.argmax(np.abs(o - t) - lim))
            need(False, '%s section %s: optical depth at %.8g is %.9g, '
                 'reference %.9g (line centre sum %.6g)', fla, s['id'], w[i],
                 o[i], t[i], pk)
        e = np.exp(-o)
        bad = np.abs(a - e) > 1e-8 * e * (1 + o)
        bad &= ~((e < 1e-290) & (a < 1e-290))
        if bad.any():
            i = int(np.argmax(bad))
            need(False, '%s section %s: transmission at %.8g is %.9g, '
                 'exp(-optical depth) is %.9g', fla, s['id'], w[i], a[i], e[i])
        if exact_tol:
            t2 = np.zeros(len(w))
            for q in qs:
                t2 += spec.area(fla, q) * spec.shape(fla, q, w, exact=True)
            need(np.all(np.abs(o - t2) <= exact_tol * pk + 1e-8 * t2),
                 '%s section %s: optical depth deviates from the exact Voigt '
                 'profile by %.3g of the line centre', fla, s['id'],
                 np.max(np.abs(o - t2)) / max(pk, 1e-300))
        if len(w) < 4 and np.any(t > 1e-3 * pk):
            nontrivial = True
        inside = [q for q in qs if w[0] < spec.line_geometry(fla, q)[1] < w[-1]]
        if inside and np.any(t > 1e-3 * pk):
            nontrivial = True
            classes.append('lines=%d' % min(len(inside), 4))
            if pk > 10:
                classes.append('saturated')
            if any(q[2] > 0 for q in inside):
                classes.append('redshifted')
            if any(q[3] != 0 for q in inside):
                classes.append('moving')
            if fla == 'azafran' and any(q[6] * q[7] for q in inside):
                classes.append('alpha')
            if fla in ('oregano', 'mascada'):
                for q in inside:
                    d = spec.K_DAMP * q[6] * q[0]
                    g = q[4] / spec.CK
                    classes.append('damping=0' if d == 0 else
                                   'damped' if d > g else 'doppler-like')
        if len(qs) == 0:
            classes.append('empty')
    classes.append(fla)
    return dict(nontrivial=nontrivial, classes=classes)


def ev(case, ctx):
    return check_opacity(case, ctx, 1e-6)


def ev_order(case, ctx):
    """Same model with the lines of each section in another order."""
    fla = case['flavour']
    r1 = static_run(case, ctx)
    perm = dict(case, sections=[
        dict(s, lines=sorted(s['lines'], key=lambda x: hash_key(x, case['key'])))
        for s in case['sections']])
    r2 = static_run(perm, ctx)
    for D, E in zip(r1.data, r2.data):
        need(np.all(np.abs(D[:, OPT] - E[:, OPT])
                    <= 3e-9 * (D[:, OPT] + E[:, OPT])),
             '%s: the order of the lines changes the optical depth', fla)
    return dict(nontrivial=any(len(s['lines']) > 1 for s in case['sections']),
                classes=[fla])


def hash_key(ln, key):
    import hashlib
    return hashlib.md5((ln['id'] + str(key)).encode()).hexdigest()


DOPPLER = st.sampled_from(['azafran', 'curcuma'])


@st.composite
def models(draw, flavours=('azafran', 'curcuma'), **kw):
    return draw(spec.model_spec(flavour=draw(st.sampled_from(flavours)),
                                npoly=(0, 0), kinds=('lin', 'log', 'jit'), **kw))


@st.composite
def order_models(draw):
    m = draw(models(flavours=tuple(spec.FLAVOURS), lines=(2, 5)))
    m['key'] = draw(st.integers(0, 1000))
    return m


@st.composite
def few(draw, **kw):
    """Windows of one to three rows."""
    m = draw(models(flavours=tuple(spec.FLAVOURS), lines=(1, 3), large=False,
                    pos=(0.2, 0.8), **kw))
    m['uneven'] = 1
    for s in m['sections']:
        w = spec.grid(s['data'])
        i = draw(st.integers(len(w) // 4, 3 * len(w) // 4))
        j = min(len(w) - 1, i + draw(st.sampled_from([0, 0, 1, 1, 2])))
        s['a'], s['b'] = float(w[i]), float(w[j])
    return m


def ev_few(case, ctx):
    o = check_opacity(case, ctx, 1e-6 if case['flavour'] in
                      ('azafran', 'curcuma') else 1e-3)
    o['classes'].append('few rows')
    return o


PROP = Prop(
    'C04',
    [Sub('doppler', lambda: models(lines=(1, 4)), ev, 4000, 60000),
     Sub('dense', lambda: models(lines=(1, 2), dwmin=0.002, dwmax=0.02,
                                 nmin=60, nmax=200), ev, 600, 10000),
     Sub('few', few, ev_few, 300, 4000),
     Sub('order', order_models, ev_order, 500, 8000)],
    rule='Hypothesis draws a flavour, one or two sections on equidistant, '
    'logarithmic or jittered grids and up to five lines by central position, '
    'redshift, velocity, Doppler width (0.3 pixels to a third of the section) '
    'and line centre depth (1e-3 to 1e3), windows of one to three rows included; the built program evaluates the model '
    'and the optical depth column is compared with the physical formula. '
    'Non-trivial: a line centre lies inside the data and absorbs there.',
    technique='property-based testing of the built programs against a physical '
    'reference model (CODATA constants)',
    level_note='Every generated model is evaluated by the real program; the '
    'reference is independent Python code. Sampling of the parameter space '
    'only; printed precision (9 digits) limits the comparison.',
    setup=setup_cli)
