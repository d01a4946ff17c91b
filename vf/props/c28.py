import re

from hypothesis import strategies as st

from .. import opt, spec
from ..core import Prop, Sub
from ..spec import MSK, RES
from . import fits
from .common import need, setup_cli

STOPPED = re.compile(r'stopped at generation (\d+)$')


def half_ulp(x):
    """Half a unit of the fifth digit of a printed number."""
    from math import floor, log10
    return 0.5 * 10.0 ** (floor(log10(abs(x))) - 4) if x else 0.0


def check_message(case, r, res):
    """-> generation number, or None for an optimised run."""
    stop = case['args'][5]
    msg = res.message
    done = [m for m in msg if 'completed successfully' in m]
    under = [m for m in msg if 'underflow' in m]
    at = [STOPPED.search(m) for m in msg]
    at = [int(m.group(1)) for m in at if m]
    need((r.rc == 0) == bool(done), 'exit status %d, message %r', r.rc, msg)
    need((r.rc == 1) == bool(under), 'exit status %d, message %r', r.rc, msg)
    if r.rc == 0:
        need(not at, 'exit status 0, message %r', msg)
        return None
    need(len(at) == 1, 'exit status %d, message %r', r.rc, msg)
    if r.rc == 2:
        need(at[0] == stop, 'stopped at generation %d, the maximum is %d',
             at[0], stop)
    else:
        need(at[0] <= stop, 'underflow at generation %d, the maximum is %d',
             at[0], stop)
    return at[0]


def check_log(case, r, res, g):
    stop, mod = case['args'][5], case['args'][6]
    rows = res.logrows
    need(all(len(x) == 4 for x in rows), 'log lines %r', res.log[:3])
    gs = [int(x[0]) for x in rows]
    last = g
    if r.rc == 0:
        need(rows, 'an optimised run without a log line')
        last = gs[-1]
        need(last <= stop, 'optimised at generation %d, the maximum is %d',
             last, stop)
    want = [k for k in range(1, last + (r.rc != 1)) if mod and k % mod == 0]
    if r.rc == 0 and (not want or want[-1] != last):
        want.append(last)
    need(gs == want, 'generations %r in the log instead of %r (modulus %d, '
         'status %d, last generation %d)', gs, want, mod, r.rc, last)
    for x in rows:
        need(0 < x[2] <= x[3], 'generation %d: step sizes %g to %g', x[0],
             x[2], x[3])


def total_cost(res):
    c, tol = 0.0, 0.0
    for D in res.data:
        k = D[:, MSK] > 0
        c += 0.5 * float((D[k, RES] ** 2).sum())
        # residuals to nine digits, of fluxes to nine digits
        tol += 2e-8 * float((abs(D[k, RES]) * (1 + abs(D[k, 1]) / D[k, 2]
                                               )).sum())
    return c, tol + 1e-8 * c


def check_cost(case, r, res, g):
    """The cost logged last is that of the tables, if logged at the end."""
    c, tol = total_cost(res)
    t = sum(s['cost'] for s in res.sections.values())
    need(abs(t - c) <= 0.00501 * len(res.sections) + tol, 'section costs add '
         'up to %g, the residuals to %g', t, c)
    rows = res.logrows
    if not rows or r.rc != 0 and int(rows[-1][0]) != g:
        return False
    y = rows[-1][1]
    need(abs(y - c) <= 1.01 * half_ulp(y) + tol, 'the final cost in the log is '
         '%.9g, that of the result %.9g', y, c)
    return True


def ev(case, ctx):
    r = fits.run_fit(case, ctx)
    if fits.bad_end(r):
        return dict(nontrivial=False, classes=['status 16'])
    res = spec.Result(r.out)
    g = check_message(case, r, res)
    check_log(case, r, res, g)
    cost = check_cost(case, r, res, g)
    return dict(nontrivial=True, classes=(
        ['1000 generations and more'] if res.logrows
        and res.logrows[-1][0] >= 1000 else []) + [
        'status %d' % r.rc, 'modulus %d' % min(case['args'][6], 4),
        'final cost' if cost else 'no final cost'])


@st.composite
def prefixes(draw):
    c = draw(fits.fit_case(maxgen=60))
    c['shorter'] = draw(st.integers(0, 60))
    c['modulus'] = draw(st.sampled_from([0, 1, 2, 3, 7, 65536, 100001,
                                         4294967295]))
    c['beyond'] = draw(st.sampled_from([1000000, 65536, 4294967295,
                                        2147483648]))
    return c


def ev_prefix(case, ctx):
    """Trace modulus and limit do not change the course of a run."""
    d = ctx.fresh()
    spec.write_data(case, d)
    full = list(case['args'])
    full[6] = 1
    a = fits.run_fit(case, ctx, d=d, args=full)
    if fits.bad_end(a):
        return dict(nontrivial=False, classes=['status 16'])
    p = spec.Result(a.out)
    # another modulus
    other = full[:6] + [case['modulus']]
    b = fits.run_fit(case, ctx, d=d, args=other)
    q = spec.Result(b.out)
    need(b.rc == a.rc, 'exit status %d with modulus 1, %d with modulus %d',
         a.rc, b.rc, case['modulus'])
    need(set(q.log) <= set(p.log), 'modulus %d: other log lines: %r',
         case['modulus'], sorted(set(q.log) - set(p.log))[:3])
    if case['modulus'] > 1000:
        need(len(q.log) == (a.rc == 0), 'modulus %d: log lines %r',
             case['modulus'], q.log)
    need(a.out.split('</log>')[1] == b.out.split('</log>')[1],
         'another result with modulus %d', case['modulus'])
    # another limit; the last generation that is needed is enough
    limits = [case['shorter']]
    if a.rc in (0, 1):
        limits += [len(p.log) + (a.rc == 1)] + [len(p.log) - 1] * (a.rc == 0)
        limits.append(case.get('beyond', 1000000))
    for k in limits:
        short = full[:5] + [k, 1]
        b = fits.run_fit(case, ctx, d=d, args=short)
        if fits.bad_end(b):
            need(False, 'exit status %d with %d generations', b.rc, k)
        q = spec.Result(b.out)
        n = min(len(p.log), len(q.log))
        need(p.log[:n] == q.log[:n], 'other log lines with limit %d: %r '
             'instead of %r', k, q.log[:n], p.log[:n])
        end = a.rc in (0, 1) and len(p.log) + (a.rc == 1) <= k
        if end:
            need(b.rc == a.rc and q.log == p.log, 'a limit of %d generations '
                 'changes a run that ends before', k)
        elif a.rc in (0, 1) or k < full[5]:
            need(b.rc == 2 and len(q.log) == k, 'with limit %d the run ends '
                 'with status %d after %d generations', k, b.rc, len(q.log))
    return dict(nontrivial=len(p.log) > 0, classes=['status %d' % a.rc] + [
        'converged in the last generation'] * (a.rc == 0))


def generic(case, ctx):
    """The optimizer itself."""
    from .c16 import go
    a = go(ctx, case, trace=case['trace'])
    n, pop = case['n'], case['population']
    need(not (a.optimized and a.underflow), 'optimised and underflow')
    need(a.g <= case['stop'], 'generation %d, the maximum is %d', a.g,
         case['stop'])
    if not a.optimized and not a.underflow:
        need(a.g == case['stop'], 'stopped at generation %d, the maximum is '
             '%d', a.g, case['stop'])
    m = case['trace']
    want = [k for k in range(1, a.g + (not a.underflow)) if m and k % m == 0]
    if a.optimized and (not want or want[-1] != a.g):
        want.append(a.g)
    gs = [int(x) for x in a.trace[:a.traces, 0]]
    need(gs == want[:len(gs)] and a.traces == len(want), 'generations %r are '
         'traced instead of %r', gs, want)
    for i, t in enumerate(a.trace[:a.traces]):
        # before the first update axes are in the order of the parameters
        need(t[2] > 0 and (t[2] <= t[3] or t[0] < case['modulus']),
             'generation %d: steps %g to %g', t[0], t[2], t[3])
        # the traced point is evaluated at the end of its generation
        k = int(t[0]) * pop + i
        need(k < len(a.log) and t[1] == a.log[k, n], 'generation %d is traced '
             'with another cost than that of its mean', t[0])
    if a.traces and gs[-1] == a.g:
        need(a.trace[a.traces - 1, 1] == a.y, 'the final cost is %r, traced '
             'as %r', a.y, a.trace[a.traces - 1, 1])
    return dict(nontrivial=a.g > 0, classes=[
        'optimized' if a.optimized else 'underflow' if a.underflow
        else 'stopped'])


@st.composite
def many(draw):
    """Runs of thousands of generations."""
    c = draw(fits.fit_case(free=(8, 14), lines=(2, 3), nmin=14, nmax=24,
                           sections=(1, 1)))
    mu = draw(st.integers(2, 3))
    c['args'] = [draw(st.integers(0, 10 ** 6)), mu, 2 * mu,
                 draw(st.sampled_from(['0.1', '1', '2.5'])), '1e-300',
                 draw(st.integers(990, 4000)),
                 draw(st.sampled_from([1, 1, 7, 100, 1000]))]
    return c


@st.composite
def generics(draw):
    from .c16 import problem
    c = draw(problem(stop=(0, 200)))
    c['trace'] = draw(st.sampled_from([0, 1, 2, 5, 1000]))
    return c


def setup(tier):
    return dict(setup_cli(tier), **opt.setup(tier))


PROP = Prop(
    'C28',
    [Sub('runs', lambda: fits.fit_case(endings=(
        'stop', 'stop', 'opt', 'opt', 'under'), maxgen=60), ev, 1500, 20000),
     Sub('prefixes', prefixes, ev_prefix, 400, 8000),
     Sub('many', many, ev, 40, 500),
     Sub('optimizer', generics, generic, 250, 5000)],
    rule='Hypothesis draws models, data and all seven arguments; runs end by '
    'convergence, underflow or at the generation limit (0 included). Exit '
    'status, message, log lines and tables are checked against each other, and '
    'runs with another trace modulus or limit against the log of the full run. '
    'Non-trivial: the run ended with status 0, 1 or 2.',
    technique='property-based testing of the fitting programs: invariants '
    'between exit status, message, log and result, and metamorphic relations '
    'between runs',
    level_note='Costs to the printed digits.',
    setup=setup)
