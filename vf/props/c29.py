"""The search against a reference model of the published strategy."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import opt, rngref
from ..core import Prop, Sub
from ..spec import fl, wide
from . import c16
from .c19 import polar
from .common import need


def constants(n, mu):
    """Strategy parameters of Hansen (2014, purecmaes)."""
    w = [math.log((mu + 0.5) / (i + 1)) for i in range(mu)]
    mueff = math.fsum(w) ** 2 / math.fsum(x * x for x in w)
    r = dict(w=np.array(w), mueff=mueff)
    r['cs'] = (mueff + 2) / (n + mueff + 5)
    r['cc'] = (4 + mueff / n) / (n + 4 + 2 * mueff / n)
    r['c1'] = 2 / ((n + 1.3) ** 2 + mueff)
    r['cmu'] = min(1 - r['c1'],
                   2 * (mueff - 2 + 1 / mueff) / ((n + 2) ** 2 + mueff))
    r['damps'] = 1 + 2 * max(0.0, math.sqrt((mueff - 1) / (n + 1)) - 1) + r['cs']
    r['chi'] = math.sqrt(n) * (1 - 1 / (4.0 * n) + 1 / (21.0 * n * n))
    return r


class State:
    def __init__(self, c):
        n = c['n']
        self.x = np.array(c['x0'], float)
        self.d = np.array(c['d0'], float)
        self.s = c['step']
        self.B = np.eye(n)
        self.C = np.diag(self.d ** 2)
        self.pc = np.zeros(n)
        self.ps = np.zeros(n)


def state_of(r):
    t = State.__new__(State)
    for k in ('x', 'd', 'B', 'pc', 'ps'):
        setattr(t, k, np.array(getattr(r, k)))
    t.s = r.s
    u = np.triu(r.C)
    t.C = u + u.T - np.diag(np.diag(u))
    return t


def sample(t, c, src, lo, up):
    """The next population: u, v, x; None where a decision is too close."""
    n = c['n']
    A = t.B * t.d
    us, vs, xs = [], [], []
    redraws = 0
    sure = True
    for _ in range(c['population']):
        u, v = np.zeros(n), np.zeros(n)
        for j in range(n):
            while True:
                z = next(src)
                a, b = u + z * A[:, j], v + z * t.B[:, j]
                x = t.x + a * t.s
                if lo is None:
                    break
                eps = 1e-11 * (np.abs(x) + np.abs(lo) + np.abs(up))
                if np.any(np.abs(x - lo) < eps) or np.any(np.abs(x - up) < eps):
                    # (a start value on the bound itself is exact)
                    if j > 0 or not np.all((A[:, j] == 0) | (
                            (np.abs(x - lo) >= eps) & (np.abs(x - up) >= eps))):
                        sure = False
                if np.all((x >= lo) & (x <= up)):
                    break
                redraws += 1
                if redraws > 200000:
                    return None
            u, v = a, b
        us.append(u)
        vs.append(v)
        xs.append(x)
    if not sure:
        return None
    return np.array(us), np.array(vs), np.array(xs), redraws


def close(a, b, tol):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol))


def ev_step(c, ctx):
    n, mu, lam = c['n'], c['parents'], c['population']
    k = constants(n, mu)
    w = k['w'] / k['w'].sum()
    last = c16.go(ctx, c)
    cls = ['bounds' if c['bounds'] else 'free', 'modulus %d' % c['modulus'],
           'dimension %d' % n]
    lo = up = None
    if c['bounds']:
        lo, up = np.array(c['x0']) - 6.0, np.array(c['x0']) + 6.0
    rng = rngref.make(0, 0, [c['seed']])

    def uniform():
        a, b = rngref.to_real(0, rng.next())
        return a / b
    src = polar(uniform)
    t = State(c)
    done = 0
    for g in range(1, last.g + 1):
        r = c16.go(ctx, c, stop=g, maximize=c['maximize'])
        need(r.g == g, 'stop generation %d: %d generations', g, r.g)
        smp = sample(t, c, src, lo, up)
        if smp is None:
            cls.append('too close')
            break
        u, v, x, redraws = smp
        if redraws:
            cls.append('redrawn')
        rows = r.log[(g - 1) * lam:g * lam]
        scale = np.abs(t.x).max() + t.s * t.d.max() * 10
        # which row is which individual
        dist = np.abs(rows[None, :, :n] - x[:, None, :]).max(axis=2)
        who = dist.argmin(axis=1)
        need(dist.min(axis=1).max() <= 1e-9 * scale and len(set(who)) == lam,
             'generation %d: the evaluated points are not those sampled from '
             'the distribution (%.2e of %.2e)', g, dist.min(axis=1).max(), scale)
        y = rows[who, n] * (-1.0 if c['maximize'] else 1.0)
        order = np.argsort(y, kind='stable')
        ys = y[order]
        if np.any(ys[:mu] == ys[1:mu + 1]):
            cls.append('tied')
            break
        best = order[:mu]
        if r.underflow:
            need(False, 'generation %d: underflow although the fitness values '
                 'are distinct', g)
        U, V, X = u[best], v[best], x[best]
        nx = w @ X
        need(close(r.x, nx, 1e-9 * scale), 'generation %d: mean %r instead of '
             '%r', g, r.x.tolist(), nx.tolist())
        uw, vw = w @ U, w @ V
        pc = (1 - k['cc']) * t.pc + math.sqrt(
            k['cc'] * (2 - k['cc']) * k['mueff']) * uw
        need(close(r.pc, pc, 1e-9 * (t.d.max() * 10 + np.abs(pc).max())),
             'generation %d: distribution path %r instead of %r', g,
             r.pc.tolist(), pc.tolist())
        rank_mu = (U.T * w) @ U
        C = (1 - k['c1'] - k['cmu']) * t.C + k['c1'] * np.outer(pc, pc) \
            + k['cmu'] * rank_mu
        ps = (1 - k['cs']) * t.ps + math.sqrt(
            k['cs'] * (2 - k['cs']) * k['mueff']) * vw
        need(close(r.ps, ps, 1e-9 * (10 + np.abs(ps).max())),
             'generation %d: step size path %r instead of %r', g,
             r.ps.tolist(), ps.tolist())
        s = t.s * math.exp(k['cs'] / k['damps'] * (
            math.sqrt(float(ps @ ps)) / k['chi'] - 1))
        need(close(r.s, s, 1e-9 * s), 'generation %d: step size %r instead of '
             '%r', g, r.s, s)
        q = state_of(r)
        if g % c['modulus'] == 0:
            ev = np.linalg.eigvalsh(C)
            add = ev[-1] / (0.01 / np.finfo(float).eps) - ev[0]
            top = np.abs(C).max()
            # the condition is limited, by a multiple of the identity
            limit = 0.01 / np.finfo(float).eps
            if ev[0] < 1e-11 * ev[-1]:
                cls.append('ill-conditioned')
            if add > 0:
                cls.append('limited')
            need(q.d.min() > 0 and q.d.max() ** 2 <= limit * (
                1.3) * q.d.min() ** 2, 'generation %d: the condition of '
                'the covariance, %.3e, is not limited', g,
                (q.d.max() / q.d.min()) ** 2 if q.d.min() > 0 else np.inf)
            if add > 1e-14 * ev[-1]:
                low = np.linalg.eigvalsh(q.C)[0]
                need(0.5 * ev[-1] < limit * low < 2 * ev[-1], 'generation %d: '
                     'the smallest eigenvalue of the covariance is %.3e, the '
                     'greatest %.3e', g, low, ev[-1])
                need(abs(q.d.min() ** 2 * limit - q.d.max() ** 2)
                     <= 0.3 * q.d.max() ** 2, 'generation %d: the condition '
                     'of the axes is %.3e', g, (q.d.max() / q.d.min()) ** 2)
            need(close(q.C, C, 1e-9 * top), 'generation %d: covariance %r '
                 'instead of %r', g, q.C.tolist(), C.tolist())
            need(close((q.B * q.d ** 2) @ q.B.T, C, 1e-9 * top * n) and close(
                q.B.T @ q.B, np.eye(n), 1e-11 * n) and close(
                q.d ** 2, ev, 1e-9 * ev[-1] * n), 'generation %d: axes '
                'and step sizes do not belong to the covariance', g)
        else:
            need(close(q.C, C, 1e-9 * np.abs(C).max()), 'generation %d: '
                 'covariance %r instead of %r', g, q.C.tolist(), C.tolist())
            need(np.array_equal(q.B, t.B) and np.array_equal(q.d, t.d),
                 'generation %d: axes or local step sizes change', g)
        # the criterion
        var = np.diag(C if g % c['modulus'] or add <= 0 else q.C)
        crit = s * s * var - ((c['acc'] * nx) ** 2 + np.finfo(
            float).eps / 0.01)
        if np.all(np.abs(crit) > 1e-7 * (s * s * var)):
            need(r.optimized == bool(np.all(crit < 0)), 'generation %d: '
                 'optimised is %r, the criterion is %r', g, r.optimized,
                 crit.tolist())
        if r.optimized:
            cls.append('optimised')
        t = q
        done = g
    return dict(nontrivial=done >= 2, classes=cls)


@st.composite
def steps(draw):
    c = draw(c16.problem(stop=(1, 40)))
    c['maximize'] = draw(st.integers(0, 1))
    if draw(st.integers(0, 2)) == 0:
        # short runs which converge
        c['n'] = n = draw(st.integers(1, 3))
        c['ctr'] = [draw(fl(1, 5, 2)) for _ in range(n)]
        c['x0'] = [x + 0.3 for x in c['ctr']]
        c['d0'] = [draw(wide(0.3, 2)) for _ in range(n)]
        c['kind'], c['acc'], c['stop'] = opt.QUADRATIC, 0.05, 60
    if draw(st.integers(0, 2)) == 0:
        c['step'] = 4.0        # far beyond the bounds
    if c['n'] > 1 and draw(st.integers(0, 4)) == 0:
        # beyond the greatest condition of the covariance
        for i in draw(st.lists(st.integers(0, c['n'] - 1), min_size=1,
                               max_size=c['n'] - 1, unique=True)):
            c['d0'][i] = draw(wide(1e-11, 1e-6))
    return c


# ----------------------------------------------------------------- settings
@st.composite
def calls(draw):
    ops = []
    for _ in range(draw(st.integers(1, 25))):
        k = draw(st.integers(0, 9))
        v = {0: 0, 1: draw(st.integers(1, 60)), 2: draw(st.integers(2, 60)),
             3: draw(st.integers(3, 200)), 4: draw(st.integers(1, 20)),
             5: draw(wide(1e-12, 1)), 6: draw(st.integers(0, 2 ** 64 - 1)),
             7: draw(st.integers(0, 10 ** 6)), 8: 0, 9: 0}[k]
        ops.append([k, v])
    return dict(ops=ops)


def ev_builder(c, ctx):
    rc, out = opt.builder(ctx, c['ops'])
    need(rc == 0, 'the builder failed (%d)', rc)
    n, mu, lam, mod, acc, stop = 10, 20, 40, 1, 1e-6, 1000
    seed = None          # the initial seed is not documented
    for i, row in enumerate(out):
        if i:
            k, v = c['ops'][i - 1]
            if k == 0:
                n, mu, lam, mod, acc, stop = 10, 20, 40, 1, 1e-6, 1000
                seed = 9600629759793949339
            elif k == 1:
                n = v
            elif k == 2:
                mu, lam = v, 2 * v
            elif k == 3:
                lam = v
            elif k == 4:
                mod = v
            elif k == 5:
                acc = v
            elif k == 6:
                seed = v
            elif k == 7:
                stop = v
        got = row[:8].tolist()
        s = int(got[5]) << 32 | int(got[6])
        if seed is None:
            seed = s
        need([got[0], got[1], got[2], got[3], got[4], s, got[7]]
             == [n, mu, lam, mod, acc, seed, stop],
             'after call %d: settings %r instead of %r', i, got,
             [n, mu, lam, mod, acc, seed, stop])
        q = constants(n, mu)
        want = [q['cs'], q['cc'], q['cmu'], q['c1'], q['damps']]
        need(close(row[8:13], want, 1e-12 * np.abs(want) + 1e-15),
             'after call %d (dimension %d, %d parents): strategy parameters %r '
             'instead of %r', i, n, mu, row[8:13].tolist(), want)
        m = min(mu, 8)
        need(row[13] == mu and close(row[14:14 + m], q['w'][:m], 1e-14 * 10),
             'after call %d: weights %r', i, row[13:].tolist())
    return dict(nontrivial=len(c['ops']) > 2, classes=sorted(
        {'call %d' % k for k, _ in c['ops']}))


PROP = Prop(
    'C29',
    [Sub('step', steps, ev_step, 500, 9000),
     Sub('settings', calls, ev_builder, 1500, 30000)],
    rule='step: Hypothesis draws objective functions, bounds, start points and '
    'settings (as for C16); the real optimizer is stopped after each generation '
    'in turn, and its complete state (mean, step sizes, axes, covariance, '
    'evolution paths) and the evaluated points are compared with one '
    'generation of a reference model of the published strategy, computed from '
    'the state before, the reference generator and deviates and the observed '
    'fitness values. settings: histories of builder calls against a model of '
    'the settings. Non-trivial: two generations compared, more than two calls.',
    technique='model-based property-based testing: stepwise differential '
    'against a reference model of the evolution strategy',
    level_note='Sampled problems of up to 6 dimensions, 60 generations and 40 '
    'individuals; comparison ends where fitness values tie or a sampled point '
    'is within rounding of a bound.',
    setup=opt.setup)
