import copy
import os
import re

import numpy as np
from hypothesis import strategies as st

from .. import lib, spec
from ..core import Prop, Sub
from ..spec import MSK, RES
from . import fits
from .c10 import tie
from .common import need

MASKED = str.maketrans('%{}', '\3\4\5')
UNMASKED = str.maketrans('\3\4\5', '%{}')
MARKS = ['', '', '%{}', '#[]', '!()', ';<>', '&{}', '%()', '#{}', '|[)']


@st.composite
def cases(draw):
    c = draw(fits.fit_case(free=(1, 6), sections=(1, 3), lines=(0, 3),
                           ties=False, kinds=('lin', 'log', 'jit'), maskp=True, excl=True,
                           window=True))
    c['marks'] = draw(st.sampled_from(MARKS))
    c['ties'] = draw(st.booleans())
    c['seed'] = draw(st.integers(0, 99999))
    c['k'] = draw(st.integers(2, 10))
    for p in slots(c):
        if draw(st.integers(0, 5)) == 0:
            p['lo'], p['up'] = p['up'], p['lo']
    return c


def slots(c):
    """The free parameters."""
    out = []
    for s in c['sections']:
        for p in [s['res']] + [p for ln in s['lines'] for p in ln['p']]:
            if p['opt'] and not p.get('ref'):
                out.append(p)
    return out


def located(c, d):
    """The text of a definition, with full names of data files."""
    return spec.model_text(dict(c, sections=[
        dict(s, file=os.path.join(d, s['file'])) for s in c['sections']]))


def number(s):
    try:
        float(s)
    except ValueError:
        return False
    return True


def marked(text, marks, rng, ids):
    """The same definition, written with other marks."""
    m, b, e = marks or '%{}'
    out = []
    # identifiers may have the default marks in them, when these are unused
    z = ''.join(x for x in '%{}' if x not in m + b + e)
    if z and rng.random() < 0.5:
        for i in sorted(set(ids)):
            if not number(i):
                text = re.sub(r'(?<!\S)%s(?!\S)' % re.escape(i),
                              i + z.translate(MASKED), text)
    for ln in text.split('\n'):
        ln = ln.replace('{', '\0').replace('}', '\1').replace(
            '\0', b).replace('\1', e).translate(UNMASKED)
        if rng.random() < 0.3:
            out.append(m + ' ' + rng.choice(['note', b, e, '% {', '} 1 2', m]))
        if rng.random() < 0.3:
            ln += ' ' + m + rng.choice([' note', b + e, '{', '%', '}'])
        out.append(ln)
    return '\n'.join(out)


def same(a, b):
    return a == b or a != a and b != b


def ev(case, ctx):
    c = case
    rng = np.random.default_rng(c['seed'])
    if c['ties']:
        import random
        c, _, _ = tie(c, random.Random(c['seed']))
    d = ctx.fresh()
    spec.write_data(c, d)
    text = located(c, d)
    fla = c['flavour']
    M = lib.Model(ctx, fla, text)
    P = slots(c)
    n = len(P)
    if not n:
        return dict(nontrivial=False, classes=['no free parameter'])
    need(M.n == n, '%d free parameters, the model has %d', n, M.n)
    x0, d0 = M.start()
    want = [(0.5 * (p['lo'] + p['up']), 0.5 * abs(p['up'] - p['lo']))
            for p in P]
    left = list(range(n))
    of = []
    for i in range(n):
        k = [j for j in left if abs(want[j][0] - x0[i]) <= 4e-16 * (
            abs(P[j]['lo']) + abs(P[j]['up'])) and abs(want[j][1] - d0[i])
            <= 4e-16 * (abs(P[j]['lo']) + abs(P[j]['up']))]
        need(k, 'parameter %d starts at %r with step %r, the free parameters '
             'at %r', i, float(x0[i]), float(d0[i]), want)
        of.append(k[0])
        left.remove(k[0])
    lo = np.array([min(P[j]['lo'], P[j]['up']) for j in of])
    up = np.array([max(P[j]['lo'], P[j]['up']) for j in of])
    # bounds
    for i in range(n):
        for y, out in ((lo[i], False), (up[i], False),
                       (np.nextafter(lo[i], -np.inf), True),
                       (np.nextafter(up[i], np.inf), True)):
            x = lo + (up - lo) * rng.random(n)
            x = np.minimum(np.maximum(x, lo), up)
            x[i] = y
            need(M.outside(x) == out, 'parameter %d, %r, with bounds %r, %r '
                 'is %s', i, float(y), lo[i], up[i],
                 'inside' if out else 'outside')
            need(M.penalty(x) == 0, 'a cost of bounds')
    # the cost is a function of the parameters only
    X = lo + (up - lo) * rng.random((c['k'], n))
    X = np.minimum(np.maximum(X, lo), up)
    X[0] = x0
    y = M.costs(X)
    order = rng.permutation(len(X))
    z = M.costs(X[order])
    need(all(same(a, b) for a, b in zip(y[order], z)), 'the cost depends on '
         'the order of evaluations: %r, then %r', y[order].tolist(),
         z.tolist())
    z = M.costs(X, threads=True)
    need(all(same(a, b) for a, b in zip(y, z)), 'evaluated at the same time '
         'costs are %r instead of %r', z.tolist(), y.tolist())
    need(np.all((y >= 0) | np.isnan(y)), 'costs %r', y.tolist())
    # other marks
    import random
    try:
        N = lib.Model(ctx, fla, marked(text, c['marks'], random.Random(
            c['seed']), [x for q in c['sections'] for x in [q['id']] + [
                ln['id'] for ln in q['lines']]]), c['marks'])
    except ValueError as e:
        need(False, 'a definition written with the marks %r is rejected: %s',
             c['marks'], e)
    a, b = N.start()
    need(np.array_equal(a, x0) and np.array_equal(b, d0), 'another start '
         'with marks %r', c['marks'])
    z = N.costs(X)
    need(all(same(p, q) for p, q in zip(y, z)), 'a definition written with '
         'the marks %r has costs %r instead of %r', c['marks'], z.tolist(),
         y.tolist())
    # the model at some of these parameter values
    done = 0
    for j in rng.choice(len(X), min(3, len(X)), replace=False):
        if y[j] != y[j]:
            continue
        u = 10.0 ** rng.uniform(-6, 1, n)
        need(M.set(X[j], u), 'the model cannot be set where its cost is %r',
             y[j])
        t = M.put()
        r = spec.Result(t)
        cost, size = 0.0, 0.0
        for D in r.data:
            k = D[:, MSK] > 0
            cost += 0.5 * float((D[k, RES] ** 2).sum())
            size += float((np.abs(D[k, RES]) * (1 + np.abs(D[k, 1])
                                                / np.abs(D[k, 2]))).sum())
        need(abs(cost - y[j]) <= 2e-8 * (size + cost) + 1e-12, 'the cost is '
             '%.12g, that of the data block %.12g', y[j], cost)
        need(M.put() == t, 'the result is written differently again')
        # nothing but the last values matters
        F = lib.Model(ctx, fla, text)
        F.set(X[j], u)
        need(F.put() == t, 'the result depends on former parameter values')
        z = M.costs(X)
        need(all(same(p, q) for p, q in zip(y, z)), 'after parameters were '
             'set costs are %r instead of %r', z.tolist(), y.tolist())
        # the same values, as fixed parameters
        G = copy.deepcopy(c)
        for p, q in zip(slots(G), [None] * n):
            p['mark'] = 1
        for i, k in enumerate(of):
            Q = [p for s in G['sections'] for p in [s['res']] + [
                p for ln in s['lines'] for p in ln['p']] if p.get('mark')][k]
            Q['v'], Q['opt'] = float(X[j, i]), 0
        H = lib.Model(ctx, fla, located(G, d))
        need(H.n == 1, 'a model without free parameters has %d', H.n)
        h = H.costs(np.zeros((1, 1)))[0]
        if len(set(want)) == n:
            need(same(h, y[j]), 'the cost is %r, with all parameters fixed at '
                 'these values %r', y[j], h)
        done += 1
    return dict(nontrivial=done > 0 and len(X) > 1, classes=[
        'marks ' + c['marks'] if c['marks'] else 'default marks',
        'ties' if c['ties'] else 'no ties', '%d free' % min(n, 8)])


PROP = Prop(
    'C32',
    [Sub('models', cases, ev, 1200, 20000)],
    rule='Hypothesis draws models with free, fixed and tied parameters, masks '
    'and windows, marks for comments and sections, and parameter vectors '
    'inside of the bounds; the model class is compared with itself in other '
    'orders and at the same time in several threads, with the data block it '
    'writes, with models that were never set before, are written with other '
    'marks or have all parameters fixed. Non-trivial: more than one parameter '
    'vector was evaluated.',
    technique='property-based testing of the model class: metamorphic '
    'relations and invariants between cost function and result',
    level_note='Up to ten parameter vectors for each model; costs equal bit '
    'by bit, data block to the printed digits.',
    setup=lib.setup)
