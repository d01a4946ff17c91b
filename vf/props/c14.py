import numpy as np
from hypothesis import strategies as st

from .. import opt, spec
from ..core import Prop, Sub
from ..spec import fl, wide
from .common import need


@st.composite
def cases(draw):
    n = draw(opt.dimension(6))
    lo, up, x0, d0 = [], [], [], []
    for _ in range(n):
        a = draw(fl(-100, 100, 2))
        w = draw(wide(1e-3, 50))
        lo.append(a)
        up.append(a + w)
        q = draw(st.sampled_from([0.5, 0.5, 0.0, 1.0, None]))
        if q is None:
            q = draw(fl(0, 1, 3))
        x0.append(min(a + w, max(a, a + q * w)))
        d0.append(0.5 * w * draw(st.sampled_from([1.0, 1.0, 0.1, 3.0])))
    kind = draw(st.sampled_from([opt.QUADRATIC, opt.LINEAR, opt.POWER,
                                 opt.MULTI]))
    # optimum inside, on or outside the bounds, in units of the width
    t = [draw(st.sampled_from([0.5, 0.1, 0.0, 1.0, -0.5, 1.7]))
         for _ in range(n)]
    c = dict(n=n, kind=kind, lo=lo, up=up, x0=x0, d0=d0, t=t,
             step=draw(st.sampled_from([0.1, 0.5, 1.0, 3.0, 20.0])),
             acc=draw(st.sampled_from([1e-2, 1e-4])),
             stop=draw(st.integers(0, 60)), fseed=draw(st.integers(0, 9999)),
             maximize=draw(st.integers(0, 1)),
             trace=draw(st.sampled_from([0, 0, 3])))
    c.update(draw(opt.strategy_settings(24)))
    if n < 5 and draw(st.integers(0, 7)) == 0:
        # very few deviates respect the bounds
        c['step'] = draw(st.sampled_from([1e3, 3e4]))
        c['stop'] = draw(st.integers(1, 2))
    return c


def objective(c):
    n = c['n']
    lo, up = np.array(c['lo']), np.array(c['up'])
    w = up - lo
    ctr = lo + np.array(c['t']) * w
    rng = np.random.default_rng(c['fseed'])
    k = c['kind']
    sg = -1.0 if c['maximize'] else 1.0
    if k == opt.QUADRATIC:
        A = opt.spd(n, 30.0, 1.0, c['fseed'])
        A = A / np.outer(w, w)
        return np.concatenate([ctr, A.ravel(), [0.0]])
    if k == opt.LINEAR:
        return rng.standard_normal(n) / w * sg
    if k == opt.POWER:
        return np.concatenate([ctr, 1.0 / w, [1.0, 0.0]])
    return np.concatenate([ctr, [0.1]])


def ev(c, ctx):
    # maximisation of the negative: opt.cc evaluates sign * value
    par = objective(c)
    r = opt.run(ctx, c['n'], c['kind'], par, c['x0'], c['d0'], c['step'],
                c['parents'], c['population'], c['stop'], c['seed'],
                modulus=c['modulus'], acc=c['acc'], lo=c['lo'], up=c['up'],
                maximize=c['maximize'], trace=c['trace'])
    need(r.rc == 0, 'the optimizer failed with an exception')
    lo, up = np.array(c['lo']), np.array(c['up'])
    n, pop = c['n'], c['population']
    search = r.log[:r.g * pop, :n]
    need(r.g <= c['stop'], 'generation %d exceeds the limit %d', r.g, c['stop'])
    need(r.calls >= r.g * pop, 'generation %d of a population of %d, but only '
         '%d evaluations', r.g, pop, r.calls)
    bad = (search < lo) | (search > up) | ~np.isfinite(search)
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        need(False, 'the search evaluated parameter %d at %r outside its '
             'bounds [%r, %r] (evaluation %d of %d)', j, search[i, j], lo[j],
             up[j], i, len(search))
    tol = 4e-15 * np.maximum(np.abs(lo), np.abs(up))
    need(np.all((r.x >= lo - tol) & (r.x <= up + tol)),
         'reported parameters %r outside their bounds %r %r', r.x.tolist(),
         c['lo'], c['up'])
    extra = r.calls - r.g * pop
    if not r.optimized:
        need(extra <= 1 + r.traces, '%d generations of a population of %d '
             'made %d evaluations', r.g, pop, r.calls)
    # the population is diverse: no individual is left unevaluated or twice
    gens = opt.generations(r)
    for g, b in enumerate(gens[:5]):
        need(len(np.unique(b[:, :n], axis=0)) == pop or r.underflow
             or np.any(np.array(c['d0']) == 0),
             'generation %d evaluates fewer than %d different individuals',
             g + 1, pop)
    # reported fitness
    same = np.all(r.log[:, :n] == r.x, axis=1)
    need(r.calls > len(r.log) or same.any(),
         'the objective was never evaluated at the reported parameters')
    if same.any():
        y = r.log[same][0, n]
        need(y == r.y, 'the reported fitness is %r, the objective at the '
             'reported parameters %r', r.y, y)
    for t in r.trace:
        need(1 <= t[0] <= r.g, 'trace of generation %g of %d', t[0], r.g)
    edge = bool(np.any((np.abs(r.x - lo) < 0.02 * (up - lo))
                       | (np.abs(r.x - up) < 0.02 * (up - lo))))
    return dict(nontrivial=r.g > 0,
                classes=['at a bound' if edge else 'inside',
                         'optimized' if r.optimized else
                         'underflow' if r.underflow else 'stopped',
                         'n=%d' % n, 'step=%g' % c['step']])


# --- through the programs: parameters in result tables stay within bounds
def setup(tier):
    from .common import setup_cli
    return dict(opt.setup(tier), **setup_cli(tier))


@st.composite
def fits(draw):
    fla = draw(st.sampled_from(spec.FLAVOURS))
    m = draw(spec.model_spec(flavour=fla, sections=(1, 1), lines=(1, 2),
                             npoly=(0, 2), strong=False, pos=(0.2, 0.8),
                             nmin=16, nmax=40, res_per_pixel=(0.6, 4)))
    # free some parameters within bounds that need not contain the truth
    k = 0
    for ln in m['sections'][0]['lines']:
        for j, wdt in ((3, 30.0), (4, None), (5, 1.0)):
            if draw(st.booleans()):
                v = ln['p'][j]['v']
                w = wdt if wdt else max(0.5, v)
                off = draw(st.sampled_from([0.0, 0.3, 1.5, -1.5]))
                lo, up = v + (off - 1) * w, v + (off + 1) * w
                if j == 4:
                    lo = max(lo, 0.1)
                    up = max(up, lo + 0.2)
                ln['p'][j] = spec.free(round(lo, 3), round(up, 3))
                k += 1
    if k == 0:
        ln = m['sections'][0]['lines'][0]
        ln['p'][3] = spec.free(-20.0, 20.0)
    m['args'] = [draw(st.integers(1, 10 ** 9)), draw(st.integers(3, 8)), 0,
                 draw(st.sampled_from([0.3, 1.0, 5.0])), '1e-3',
                 draw(st.integers(1, 40)), draw(st.sampled_from([0, 1, 7]))]
    m['args'][2] = 2 * m['args'][1]
    return m


def ev_cli(case, ctx):
    d = ctx.fresh()
    spec.write_data(case, d)
    r = spec.fit(ctx, case['flavour'], spec.model_text(case), d, case['args'])
    if r.rc == 16 and 'singular' in r.err:
        return dict(nontrivial=False, classes=['singular'])
    need(r.rc in (0, 1, 2), 'exit status %d: %s', r.rc, r.err[-300:])
    res = spec.Result(r.out)
    s = case['sections'][0]
    hit = False
    for ln in s['lines']:
        row = res.lines[ln['id']]
        for j, key, prec in ((3, 'v', 3), (4, 'b', 3), (5, 'N', 3)):
            p = ln['p'][j]
            if p['opt']:
                x = row[key][0]
                h = 0.5000001 * 10.0 ** -prec
                need(p['lo'] - h <= x <= p['up'] + h,
                     'line %s: parameter %s = %g outside its bounds [%g, %g]',
                     ln['id'], key, x, p['lo'], p['up'])
                w = p['up'] - p['lo']
                hit |= min(x - p['lo'], p['up'] - x) < 0.05 * w
            else:
                need(abs(row[key][0] - p['v']) <= 0.50001e-3 + 1e-12,
                     'fixed parameter %s of %s changed', key, ln['id'])
    return dict(nontrivial=True, classes=['status %d' % r.rc,
                                          'at a bound' if hit else 'inside'])


PROP = Prop(
    'C14',
    [Sub('bounds', cases, ev, 2400, 40000),
     Sub('fits', fits, ev_cli, 300, 5000)],
    rule='Hypothesis draws bounds, start points (centre, on a bound, anywhere), '
    'initial steps up to 20 (for a few generations 30000) times the half-width, objective functions with the '
    'optimum inside, on and outside the bounds, and strategy settings; every '
    'evaluation of the real optimizer is recorded and checked against the '
    'bounds. "fits" does the same for reported parameters of the programs. '
    'Non-trivial: at least one generation was evaluated.',
    technique='property-based testing of the optimizer (recorded evaluation '
    'history against bounds and counts) and of the programs',
    level_note='All evaluations of a run are checked; runs are limited to 60 '
    'generations and 6 dimensions. Reported means may exceed a bound by '
    'rounding (4e-15).',
    setup=setup)
