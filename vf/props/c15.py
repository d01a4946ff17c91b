import numpy as np
from hypothesis import strategies as st

from .. import opt, spec
from ..core import Prop, Sub
from ..spec import fl, wide
from .c16 import params, problem
from .common import need

EPS_TERM = 1.0 / (0.01 / np.finfo(float).eps)


def goal_met(r, acc, k=1.0):
    """Is the accuracy goal fulfilled for every parameter?"""
    return [r.s ** 2 * r.C[i, i] < k * ((acc * r.x[i]) ** 2 + EPS_TERM)
            for i in range(r.n)]


def check_flags(r, stop, acc, parents, what=''):
    need(not (r.optimized and r.underflow), '%sboth optimised and underflow',
         what)
    need(r.g <= stop, '%sgeneration %d exceeds the limit %d', what, r.g, stop)
    if not r.optimized and not r.underflow:
        need(r.g == stop, '%sneither optimised nor underflow, but ended at '
             'generation %d of %d', what, r.g, stop)
    if r.optimized:
        ok = goal_met(r, acc, 1 + 1e-9)
        need(all(ok), '%sflagged as optimised, but the accuracy goal %g is not '
             'fulfilled for parameter %d: step %.6g, value %.6g', what, acc,
             ok.index(False) if False in ok else 0,
             r.s * np.sqrt(abs(r.C[ok.index(False), ok.index(False)]))
             if False in ok else 0, r.x[ok.index(False)] if False in ok else 0)
    at = np.all(r.log[:, :r.n] == r.x, axis=1)
    need(r.calls > len(r.log) or at.any() and r.y == r.log[at][0, r.n],
         '%sthe reported fitness %r is not that of the reported parameters',
         what, r.y)
    gens = opt.generations(r)
    for g, b in enumerate(gens):
        y = np.sort(b[:, r.n])
        last = g + 1 == r.g
        need(y[0] != y[-1] or last and r.underflow, '%sgeneration %d has no '
             'variance, but the run went on', what, g + 1)
        # ties with individuals beyond the parents may go unnoticed
        need(not (last and r.underflow) or y[0] == y[parents],
             '%sflagged as underflow, but the values of the last generation '
             'differ', what)


def go(ctx, c, **kw):
    a = dict(n=c['n'], kind=c['kind'], par=params(c), x0=c['x0'], d0=c['d0'],
             step=c['step'], parents=c['parents'], population=c['population'],
             stop=c['stop'], seed=c['seed'], modulus=c['modulus'],
             acc=c['acc'])
    if c.get('bounds'):
        a['lo'] = np.array(c['x0']) - 6.0
        a['up'] = np.array(c['x0']) + 6.0
    a.update(kw)
    r = opt.run(ctx, **a)
    need(r.rc == 0, 'the optimizer failed with an exception')
    return r


def ev_flags(c, ctx):
    r = go(ctx, c)
    check_flags(r, c['stop'], c['acc'], c['parents'])
    if r.optimized or r.underflow:
        # a shorter run is stopped, a longer one is the same
        q = go(ctx, c, stop=r.g - 1)
        need(not q.optimized and not q.underflow and q.g == r.g - 1,
             'ended at generation %d, but a limit of %d gives %d (optimised '
             '%s, underflow %s)', r.g, r.g - 1, q.g, q.optimized, q.underflow)
        q = go(ctx, c, stop=r.g + 7)
        need(q.raw == r.raw, 'another result with a higher limit')
        q = go(ctx, c, stop=r.g)
        need(q.raw == r.raw, 'another result with the exact limit')
    else:
        need(np.all(r.z == 0), 'uncertainties %r without optimisation',
             r.z.tolist())
        if c['stop'] == 0:
            need(np.array_equal(r.x, c['x0']), 'no generation, but other '
                 'parameters')
    return dict(nontrivial=r.g > 0, classes=[
        'optimised' if r.optimized else 'underflow' if r.underflow else
        'stopped'])


@st.composite
def flagged(draw):
    c = draw(problem(kinds=(opt.QUADRATIC, opt.POWER, opt.MULTI, opt.CONSTANT,
                            opt.STEPS), nmax=5, stop=(0, 250)))
    c['acc'] = draw(st.sampled_from([0.3, 1e-1, 1e-2, 1e-3, 1e-6]))
    if draw(st.integers(0, 4)) == 0:
        c['ctr'][draw(st.integers(0, c['n'] - 1))] = 0.0
    return c


# ---------------------------------------------------------------- convergence
@st.composite
def smooth(draw):
    # The accuracy goal limits step sizes relative to the parameter values: it
    # has to be fine enough, and the population large enough, for the
    # conditioning of the problem, or the search ends early by its own rules.
    n = draw(st.integers(1, 8))
    cond, acc, mmin = draw(st.sampled_from([
        (1.0, 1e-3, 4), (1.0, 1e-4, 4), (1.0, 1e-6, 4), (100.0, 1e-4, 6),
        (100.0, 1e-6, 4), (1e4, 1e-6, 8), (1e6, 1e-8, 10)]))
    mu = draw(st.integers(max(mmin, n // 2 + 2), 14))
    c = dict(n=n, kind=draw(st.sampled_from([opt.QUADRATIC, opt.QUADRATIC,
                                             opt.POWER])),
             ctr=[draw(st.sampled_from([-1, 1])) * draw(wide(0.5, 50))
                  for _ in range(n)],
             cond=cond,
             off=[draw(fl(-3, 3, 2)) for _ in range(n)],
             fseed=draw(st.integers(0, 9999)),
             d=draw(wide(0.3, 5)), step=draw(st.sampled_from([0.5, 1.0, 2.0])),
             acc=acc,
             rotate=draw(st.booleans()), bounds=draw(st.booleans()),
             modulus=draw(st.sampled_from([1, 1, 2])),
             parents=mu, population=2 * mu, seed=draw(st.integers(0, 2**64 - 1)),
             maximize=draw(st.integers(0, 1)))
    return c


def ev_converge(c, ctx):
    n = c['n']
    ctr = np.array(c['ctr'])
    if c['kind'] == opt.QUADRATIC:
        A = opt.spd(n, c['cond'], 1.0, c['fseed'], c['rotate'])
        par = np.concatenate([ctr, A.ravel(), [0.0]])
    else:
        w = np.exp(np.linspace(0, np.log(c['cond']) / 2, n))
        par = np.concatenate([ctr, w, [2.0, 0.0]])
    x0 = ctr + np.array(c['off']) * c['d']
    b = {}
    if c['bounds']:
        b = dict(lo=np.minimum(ctr, x0) - 5 * c['d'],
                 up=np.maximum(ctr, x0) + 5 * c['d'])
    stop = 4000
    r = opt.run(ctx, n, c['kind'], par, x0, [c['d']] * n, c['step'],
                c['parents'], c['population'], stop, c['seed'],
                modulus=c['modulus'], acc=c['acc'], maximize=c['maximize'],
                **b)
    need(r.rc == 0, 'the optimizer failed')
    need(r.optimized, 'no convergence on a smooth unimodal function within %d '
         'generations (generation %d, underflow %s)', stop, r.g, r.underflow)
    check_flags(r, stop, c['acc'], c['parents'])
    err = np.abs(r.x - ctr) / (c['acc'] * np.abs(ctr) + 1e-7)
    # the accuracy goal limits the step sizes, not the errors: allow for
    # the correlation of parameters
    lim = 6.0
    need(np.all(err <= lim), 'flagged as optimised, but parameter %d is %.9g '
         'instead of %.9g, %.3g times the accuracy goal', int(np.argmax(err)),
         r.x[np.argmax(err)], ctr[np.argmax(err)], err.max())
    return dict(nontrivial=bool(np.any(np.abs(c['off']) > np.full(n, 0.1))),
                classes=['n=%d' % n, 'cond=%g' % c['cond'],
                         'err<%d' % int(np.ceil(err.max()))])


# ---------------------------------------------------------- synthetic spectra
@st.composite
def synthetic(draw):
    fla = draw(st.sampled_from(['azafran', 'curcuma', 'mascada']))
    nl = draw(st.sampled_from([1, 1, 2]))
    w0 = draw(fl(1500, 8000, 1))
    dv = draw(wide(1.0, 4.0))              # km/s per pixel
    n = 40 * nl + 10
    dw = float('%.5g' % (w0 * dv / spec.CK))
    d = dict(n=n, w0=w0, dw=dw, kind='lin')
    w = spec.grid(d)
    lines, truth = [], {}
    for i in range(nl):
        lc = w[0] + (i + 0.5) / nl * (w[-1] - w[0])
        z = draw(st.sampled_from([0.0, 1.5]))
        v = round(draw(fl(-3, 3, 2)) * dv, 3)
        b = round(draw(wide(2.0, 5.0)) * dv, 3)
        x = round(float(lc) / ((1 + z)), 5)
        f = draw(wide(0.05, 1.0))
        t0 = draw(wide(0.4, 3.0))
        lcc = x * (1 + z)
        N = round(float(np.log10(t0 * np.sqrt(np.pi) * b / spec.CK * lcc
                                 / (spec.K_TAU * f * x * lcc))), 3)
        q = [x, f, z, v, b, N]
        if fla == 'mascada':
            q.append(1e7)
        if fla == 'azafran':
            q += [0.0, 0.0]
        p = [spec.fixed(y) for y in q]
        o = [draw(fl(-0.5, 0.5, 2)) for _ in range(3)]
        p[3] = spec.free(round(v + (o[0] - 1) * 2 * dv, 3),
                         round(v + (o[0] + 1) * 2 * dv, 3))
        p[4] = spec.free(round(0.4 * b, 3), round(b * (2 + o[1]), 3))
        p[5] = spec.free(round(N - 0.8 + o[2], 3), round(N + 0.8 + o[2], 3))
        truth['L%d' % i] = q
        lines.append(dict(id='L%d' % i, p=p))
    r = float('%.5g' % (spec.CK / (draw(fl(1.5, 4, 1)) * dv) / 1000.0))
    npoly = draw(st.integers(0, 2))
    return dict(flavour=fla, truth=truth, npoly=npoly,
                slope=draw(fl(-0.3, 0.3, 2)), unc=draw(st.sampled_from(
                    [0.01, 0.05])),
                sections=[dict(id='S', file='s.dat', a=0.0, b=99999.0,
                               npoly=npoly, res=spec.fixed(r), lines=lines,
                               d=d)],
                args=[draw(st.integers(0, 2 ** 63)), 8, 16, 1.0, '1e-5', 2000,
                      draw(st.sampled_from([0, 50]))])


def ev_synthetic(c, ctx):
    s = c['sections'][0]
    w = spec.grid(s['d'])
    qs = list(c['truth'].values())
    _, _, cat = spec.transmission(c['flavour'], qs, w, s['res']['v'])
    t = np.linspace(-1, 1, len(w))
    cont = 1 + (c['slope'] * t if c['npoly'] > 1 else 0.0)
    if c['npoly'] == 1:
        cont = 1.7
    d = ctx.fresh()
    with open(d + '/s.dat', 'w') as f:
        for a, b in zip(w, cat * cont):
            f.write('%r %r %r\n' % (float(a), float(b), c['unc']))
    r = spec.fit(ctx, c['flavour'], spec.model_text(c), d, c['args'])
    need(r.rc == 0, 'the fit of a noise-free spectrum ends with status %d: %s',
         r.rc, r.err[-300:])
    res = spec.Result(r.out)
    cost = res.sections['S']['cost']
    need(cost <= 0.005, 'cost %g of a noise-free spectrum', cost)
    for k, q in c['truth'].items():
        row = res.lines[k]
        for j, key, tol in ((3, 'v', 0.01 * q[4]), (4, 'b', 0.01 * q[4]),
                            (5, 'N', 0.01)):
            got = row[key][0]
            need(abs(got - q[j]) <= tol + 2e-3, 'line %s: %s is %g instead of '
                 '%g', k, key, got, q[j])
            need(row[key][1] is not None and row[key][1] > 0,
                 'line %s: no uncertainty for the optimised %s', k, key)
    return dict(classes=[c['flavour'], 'lines=%d' % len(qs)])


def setup(tier):
    from .common import setup_cli
    return dict(opt.setup(tier), **setup_cli(tier))


PROP = Prop(
    'C15',
    [Sub('flags', flagged, ev_flags, 700, 12000),
     Sub('converge', smooth, ev_converge, 250, 4000),
     Sub('spectra', synthetic, ev_synthetic, 70, 1200)],
    rule='"flags": Hypothesis draws objective functions (quadratic, power, '
    'multimodal, constant, quantised), accuracy goals and limits; the flags, '
    'generation number and final state are checked against the recorded '
    'evaluations, and the run is repeated with limits one below, at and above '
    'its last generation. "converge": quadratics (condition up to 1e6, '
    'rotated) with the optimum away from zero. "spectra": noise-free spectra '
    'from the Python reference model fitted by the programs. Non-trivial: the '
    'run has at least one generation / does not start at the optimum.',
    technique='property-based testing of the optimizer and the programs '
    'against known optima and recorded histories',
    level_note='Convergence is sampled on problems of 1 to 8 dimensions with a '
    'population of at least 6; errors up to 6 times the accuracy goal are '
    'accepted (worst observed 2).',
    setup=setup)
