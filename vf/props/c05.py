import numpy as np
from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub
from .c04 import check_opacity, models
from .common import need, setup_cli, static_run
from ..spec import OPT


def ev(case, ctx):
    tol = 1e-4 if case['flavour'] == 'oregano' else 2e-6
    ex = 1.5e-2 if case['flavour'] == 'oregano' else 2e-3
    info = check_opacity(case, ctx, tol, ex)
    check_wings(case, ctx, info)
    return info


def check_wings(case, ctx, info):
    """Far from all lines the Lorentz wings agree to one per cent."""
    fla = case['flavour']
    res = static_run(case, ctx)
    lv, sv, _, _ = spec.resolve(case, fla)
    for s, D in zip(case['sections'], res.data):
        w = spec.section_arrays(s)[0]
        qs = [lv[ln['id']] for ln in s['lines']]
        far = np.ones(len(w), dtype=bool)
        for q in qs:
            l0, lc, _ = spec.line_geometry(fla, q)
            d = spec.K_DAMP * q[6] * l0 * lc
            far &= np.abs(w - lc) > 8 * (q[4] / spec.CK * lc + d)
        if not qs or not far.any():
            continue
        t, o = spec.tau(fla, qs, w)[far], D[far, OPT]
        bad = np.abs(o - t) > 0.01 * t + 1e-290
        if bad.any():
            i = int(np.argmax(bad))
            need(False, '%s section %s: optical depth in the wings at %.8g is '
                 '%.9g, reference %.9g', fla, s['id'], w[far][i], o[i], t[i])
        if np.any(t > 0):
            info['classes'].append('wings')


@st.composite
def single(draw):
    """One line on a grid that is symmetric about its centre and spans its
    wings: exact centre, ratio of widths drawn logarithmically."""
    fla = draw(st.sampled_from(['oregano', 'mascada']))
    n = 2 * draw(st.integers(150, 400)) + 1
    x = draw(spec.fl(1200, 9000, 2))
    b = draw(spec.wide(0.5, 200))
    ratio = draw(st.one_of(st.just(0.0), spec.wide(1e-5, 1e3)))
    bw = b / spec.CK * x
    d = ratio * bw
    gam = float('%.6g' % (d / (spec.K_DAMP * x * x)))
    span = draw(st.one_of(spec.wide(3, 60), spec.wide(60, 1e5))) * (bw + d)
    dw = 2 * span / (n - 1)
    t0 = draw(spec.wide(1e-2, 20))
    f = draw(spec.wide(1e-3, 1))
    N = t0 * (bw + d) / (spec.K_TAU * f * x * x)
    q = [x, f, 0.0, 0.0, b, round(float(np.log10(N)), 4), gam]
    if span > 0.8 * x:
        dw = 1.6 * x / (n - 1)
    data = dict(n=n, w0=x - dw * (n - 1) / 2, dw=dw, kind='lin', seed=1)
    r = float('%.6g' % (0.25 * 2 * x / (3 * dw) / 1000.0))
    return dict(flavour=fla, sections=[dict(
        id='S', file='d.dat', a=0.0, b=1e9, npoly=0, res=spec.fixed(r),
        data=data, lines=[dict(id='L', p=[spec.fixed(v) for v in q])])])


def ev_single(case, ctx):
    info = check_opacity(case, ctx,
                         1e-4 if case['flavour'] == 'oregano' else 2e-6,
                         1.5e-2 if case['flavour'] == 'oregano' else 2e-3)
    check_wings(case, ctx, info)
    # symmetry and total optical depth by the trapezium rule plus analytic
    # Lorentzian wings
    fla = case['flavour']
    res = static_run(case, ctx)
    s = case['sections'][0]
    q = [p['v'] for p in s['lines'][0]['p']]
    w = spec.grid(s['data'])
    o = res.data[0][:, OPT]
    pk = spec.peak(fla, q)
    need(np.all(np.abs(o - o[::-1]) <= 2e-6 * pk + 1e-8 * o),
         '%s: the profile is not symmetric', fla)
    y = np.abs(w - spec.line_geometry(fla, q)[1])
    need(np.all(np.diff(o[len(o) // 2:]) <= 1e-8 * pk),
         '%s: the profile rises with the distance from its centre', fla)
    bw = q[4] / spec.CK * q[0]
    d = spec.K_DAMP * q[6] * q[0] ** 2
    dw = w[1] - w[0]
    Y = y[-1]
    if dw < 0.25 * max(bw, d) and dw < 0.25 * (bw + d) and Y > 8 * (bw + d):
        inner = np.sum(o) * dw - 0.5 * dw * (o[0] + o[-1])
        # beyond the grid both approximations fall off like the true wings
        wing = 2 * spec.area(fla, q) * d / np.pi / Y * (1 if d else 0)
        A = spec.area(fla, q)
        err = abs(inner + wing - A) / A
        tol = 0.02 if d else 1e-4
        need(err <= tol, '%s: total optical depth %.6g instead of %.6g '
             '(width ratio %.3g)', fla, inner + wing, A, d / bw)
        info['classes'].append('area')
    return info


PROP = Prop(
    'C05',
    [Sub('voigt', lambda: models(flavours=('oregano', 'mascada'), lines=(1, 4)),
         ev, 3500, 50000),
     Sub('single', single, ev_single, 1200, 15000)],
    rule='Hypothesis draws lines by position, Doppler width and ratio of the '
    'Lorentz to the Doppler width (0 and 1e-5 to 1e3), alone on a symmetric '
    'grid or up to four on arbitrary grids; the optical depth column of oregano '
    'and mascada is compared with the published approximation and with the '
    'exact Voigt function (Faddeeva function of SciPy); symmetry, monotony, '
    'the wings (relative to their own value) and '
    'total depth are checked for single lines. Non-trivial: a line centre lies '
    'inside the data and absorbs there.',
    technique='property-based testing of the built programs against the '
    'published approximations and the Faddeeva function',
    level_note='The real programs evaluate every generated model; references '
    'are independent. Sampled parameter space.',
    setup=setup_cli)
