import math

import numpy as np
from hypothesis import strategies as st

from .. import lib, spec
from ..core import Prop, Sub
from ..spec import fl, wide
from .common import need

MAXR = 1.7976931348623157e308

# rows which are neither data nor comments
ODD = ['nonsense', ' # comment', ' ! 1 2', '; 1 2', '// 1', '* 5000 1', 'C 1 2',
       '$', '" 1']


# ------------------------------------------------------------ blocks of rows
@st.composite
def block(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(9, 60)))
    if draw(st.integers(0, 149)) == 77:
        n = draw(st.sampled_from([1025, 20001, 33000]))
    return dict(n=n, w0=draw(fl(1000, 9000, 3)), dw=draw(wide(0.01, 5)),
                seed=draw(st.integers(0, 9999)),
                cols=draw(st.sampled_from([2, 3, 4, 4, 6])),
                power=draw(st.sampled_from([0, 0, 0, -30, 25])),
                comment=draw(st.sampled_from(['', '', '#', '%', '!'])),
                order=draw(st.sampled_from([0, 0, 0, 1])),
                maskp=draw(st.sampled_from([0, 0.3])))


def rows(b):
    """Wavelength, flux, uncertainty and validity of a block."""
    rng = np.random.default_rng(b['seed'])
    n = b['n']
    w = np.round(b['w0'] + b['dw'] * np.cumsum(rng.random(n) + 0.2), 5)
    if b['order']:
        w = rng.permutation(w)
    f = (rng.standard_normal(n) + 1) * 10.0 ** b['power']
    u = (rng.random(n) + 0.1) * 10.0 ** b['power']
    m = (rng.random(n) >= b['maskp']).astype(int)
    if b['cols'] < 4:
        m[:] = 1
    if b['cols'] < 3:
        u[:] = 1
    return w, f, u, m


def block_text(b):
    w, f, u, m = rows(b)
    rng = np.random.default_rng(b['seed'] + 1)
    out = []
    for i in range(b['n']):
        if b['comment'] and rng.random() < 0.3:
            out.append(b['comment'] + ' 1 2 3 4')
        c = [repr(float(w[i])), repr(float(f[i])), repr(float(u[i])),
             str(m[i]), '7', 'x'][:b['cols']]
        out.append(' '.join(c))
    return ''.join(x + '\n' for x in out)


def parse(text):
    return [[float(x) for x in ln.split()] for ln in text.splitlines()]


def nine(x):
    return float('%.8e' % x)


def same_rows(got, w, f, u, m, what):
    need(len(got) == len(w), '%s: %d rows instead of %d', what, len(got),
         len(w))
    for i, r in enumerate(got):
        for k, v in enumerate((w[i], f[i], u[i])):
            need(r[k] == nine(v) or abs(r[k] - v) <= 1.01e-8 * abs(v) * 0.5,
                 '%s: row %d has %r instead of %r', what, i, r[k], float(v))
        need(r[3] == m[i], '%s: row %d has validity %r instead of %d', what,
             i, r[3], m[i])


def check_info(S, i, w, m, what):
    d = S.info(i)
    lo, up = (w[0], w[-1]) if len(w) else (0.0, 0.0)
    t = 4e-16 * (abs(lo) + abs(up))
    need(d['n'] == len(w) and d['valid'] == sum(m),
         '%s: %d data points, %d valid ones, instead of %d and %d', what,
         d['n'], d['valid'], len(w), sum(m))
    need(d['lo'] == lo and d['up'] == up
         and abs(d['mid'] - (lo + up) / 2) <= t
         and abs(d['width'] - (up - lo)) <= t,
         '%s: bounds, centre and width are %r instead of %r, %r', what, d, lo,
         up)


@st.composite
def lists(draw):
    return dict(blocks=[draw(block())
                        for _ in range(draw(st.integers(0, 5)))],
                bad=draw(st.sampled_from([0, 0, 0, 1])),
                at=draw(st.integers(0, 4)),
                end=draw(st.sampled_from(['', '\n', 'cut'])),
                arrays=draw(st.booleans()))


def ev_lists(c, ctx):
    bs = c['blocks']
    S = lib.Sections(ctx)
    want = [rows(b) for b in bs]
    if c['arrays']:
        want = [(w, f, u, np.ones(len(w), int)) for w, f, u, m in want]
        for w, f, u, m in want:
            S.append(w, f, u)
        t = None
    else:
        t = '\n'.join(block_text(b) for b in bs)
        if c['end'] == 'cut':
            t = t[:-1]
        elif c['end']:
            t += '\n'
        if c['bad'] and bs:
            # a row which is no row: what comes before it is read
            k = c['at'] % len(bs)
            parts = [block_text(b) for b in bs]
            parts[k] += ODD[c['at'] % len(ODD)] + '\n'
            t = '\n'.join(parts)
            want = want[:k]
        rc = S.read(t)
        need(bool(rc & 4) == bool(c['bad'] and bs), 'the state of the stream is %d '
             'for %s data', rc, 'damaged' if c['bad'] else 'good')
    need(len(S) == len(want), '%d sections were read, there are %d', len(S),
         len(want))
    for i, (w, f, u, m) in enumerate(want):
        check_info(S, i, w, m, 'section %d' % i)
        same_rows(parse(S.put(i)), w, f, u, m, 'section %d' % i)
    # write the list and read it again, twice
    text = S.write()
    T = lib.Sections(ctx)
    T.read(text)
    need(len(T) == len(want), '%d sections were read again, %d were '
         'written', len(T), len(want))
    for i, (w, f, u, m) in enumerate(want):
        same_rows(parse(T.put(i)), w, f, u, m, 'section %d read again' % i)
    U = lib.Sections(ctx)
    U.read(T.write())
    for i in range(len(want)):
        a, b = [[ln.split()[:4] for ln in X.put(i).splitlines()]
                for X in (T, U)]
        need(a == b, 'section %d differs after it was read again', i)
    return dict(nontrivial=len(want) > 1, classes=[
        '%d sections' % len(bs), 'arrays' if c['arrays'] else
        'damaged' if c['bad'] else 'text'])


# ----------------------------------------------------------- windows, re-use
@st.composite
def histories(draw):
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(['get', 'get', 'put', 'mask', 'mask', 'run',
                                  'apply', 'bad', 'none']))
        o = dict(op=k)
        if k in ('get', 'bad', 'none'):
            o.update(block=draw(block()), rest=draw(st.integers(0, 2)))
        if k in ('get', 'put', 'mask'):
            # bounds: indices of data points, or halfway between them
            o.update(win=[draw(fl(-0.3, 1.3, 2)), draw(fl(-0.3, 1.3, 2))],
                     on=draw(st.integers(0, 3)))
        if k in ('run', 'apply'):
            o.update(line=draw(st.integers(0, 999)),
                     res=draw(wide(0.3, 20)), m=draw(st.integers(0, 2)))
        ops.append(o)
    return dict(first=draw(block()), flavour=draw(st.sampled_from(
        spec.FLAVOURS)), ops=ops)


def window(o, w):
    """An interval, with its ends on data points or elsewhere."""
    s = np.sort(w)
    out = []
    for k, r in enumerate(o['win']):
        j = r * (len(s) - 1) if len(s) > 1 else r
        i = int(min(max(round(j), 0), len(s) - 1))
        if o['on'] >> k & 1:
            out.append(float(s[i]))
        else:
            d = (s[-1] - s[0]) / max(len(s) - 1, 1) if len(s) > 1 else 1.0
            out.append(float(s[0] + (r * (len(s) - 1) + 0.317) * d))
    return out


def params(o, flavour, w):
    rng = np.random.default_rng(o['line'])
    lo, up = float(np.min(w)), float(np.max(w))
    q = []
    for _ in range(int(rng.integers(0, 3))):
        x = lo + rng.random() * max(up - lo, 0.1)
        p = [x, 0.1 * rng.random() + 0.01, 0.0, 10 * rng.standard_normal(),
             5 + 20 * rng.random(), 12.5 + 2 * rng.random()]
        if flavour == 'azafran':
            p += [1000 * rng.standard_normal(), rng.standard_normal()]
        elif flavour != 'curcuma':
            p += [1e8 * rng.random()]
        q.append(p)
    return q


def ev_histories(c, ctx):
    S = lib.Sections(ctx)
    S.append()
    d = S.info(0)
    need(d['n'] == d['valid'] == d['lo'] == d['up'] == d['cost'] == 0,
         'a section without data is %r', d)
    S.get(0, block_text(c['first']))
    w, f, u, m = rows(c['first'])
    m = m.copy()
    fl_ = c['flavour']
    done = []
    model = None
    for o in c['ops']:
        k = o['op']
        if k in ('get', 'bad', 'none'):
            b = o['block']
            t = block_text(b)
            rest = ['', '\n', '\n' + '5000 1 1 1\n'][o['rest']]
            bw, bf, bu, bm = rows(b)
            if k == 'get':
                a, e = window(o, bw)
                sel = (a <= bw) & (bw <= e)
                rc, left = S.get(0, t + rest, (a, e))
                need(not rc & 4, 'the stream is bad after reading')
                need(bool(rc & 2) == (not sel.any()), 'reading %d data points '
                     'ends with state %d', sel.sum(), rc)
                need(left == rest[1:], 'after reading a section %r of the '
                     'text is left instead of %r', left, rest[1:])
                if sel.any():
                    w, f, u, m = bw[sel], bf[sel], bu[sel], bm[sel].copy()
                    model = None
                else:
                    k = 'none in window'
            elif k == 'bad':
                rc, left = S.get(0, t + ODD[len(t) % len(ODD)] + '\n' + rest)
                need(rc & 4 and rc & 2, 'a damaged section is read with '
                     'state %d', rc)
            else:
                rc, left = S.get(0, '# comment\n' + '\n' + t)
                need(rc & 2 and not rc & 4, 'a section of comments is read '
                     'with state %d', rc)
        elif k == 'put':
            a, e = window(o, w)
            sel = (a <= w) & (w <= e)
            same_rows(parse(S.put(0, (a, e))), w[sel], f[sel], u[sel], m[sel],
                      'rows from %r to %r' % (a, e))
        elif k == 'mask':
            a, e = window(o, w)
            m[(a <= w) & (w <= e)] = 0
            S.mask(0, a, e)
        elif (len(w) > 1 and not c_sorted(w)) or sum(m) <= o['m'] + 1 or (
                len(w) > 1 and np.ptp(w) == 0):
            k = 'not evaluated'
        else:
            q = params(o, fl_, w)
            h = max(np.ptp(w), 0.01) / max(len(w) - 1, 1) * o['res']
            r = 0.5 * (w[0] + w[-1]) / (2 * h) / 1000
            before = S.put(0)
            y = S.run(0, fl_, q, r, o['m'], False)
            need(y is not None, 'the evaluation fails')
            need(S.put(0) == before, 'an evaluation changes the section')
            F = fresh(ctx, w, f, u, m)
            z = F.run(0, fl_, q, r, o['m'], True)
            need(z is not None and close(y, z), 'the cost is %r for a section '
                 'which has been used, %r for another with these data', y, z)
            if k == 'apply':
                y = S.run(0, fl_, q, r, o['m'], True)
                need(close(y, z), 'the cost is %r when the model is applied, '
                     '%r when it is evaluated', y, z)
                model = F
        done.append(k)
        check_info(S, 0, w, m, 'after ' + ', '.join(done))
        text = S.put(0)
        same_rows(parse(text), w, f, u, m, 'after ' + ', '.join(done))
        if model is not None and k == 'apply':
            got, want = parse(text), parse(model.put(0))
            for x, y in zip(got, want):
                need(all(close(p, q, 2e-8) or p != p and q != q
                         for p, q in zip(x, y)), 'the model of a section '
                     'which has been used is %r, that of another %r', x, y)
        if model is not None:
            res = [r[10] for r in parse(text)]
            if k != 'mask':
                cost = 0.5 * math.fsum(x * x for x, v in zip(res, m) if v)
                need(close(S.info(0)['cost'], cost, 1e-6), 'the cost is %r, '
                     'half the sum of squared residuals %r',
                     S.info(0)['cost'], cost)
    return dict(nontrivial=len(done) > 1, classes=sorted(set(done)))


def c_sorted(w):
    return bool(np.all(np.diff(w) > 0))


def close(a, b, tol=1e-11):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-13


def fresh(ctx, w, f, u, m):
    """A section with these data which has not been used before."""
    F = lib.Sections(ctx)
    F.append()
    F.get(0, ''.join('%r %r %r %d\n' % (float(a), float(b), float(c), d)
                     for a, b, c, d in zip(w, f, u, m)))
    return F


PROP = Prop(
    'C30',
    [Sub('lists', lists, ev_lists, 1500, 40000),
     Sub('histories', histories, ev_histories, 3000, 80000)],
    rule='Hypothesis draws lists of data blocks (two to six columns, comments, '
    'any order of wavelengths, fluxes from 1e-30 to 1e25, damaged rows) and '
    'histories of one section (reading with an interval, writing with an '
    'interval, masking, evaluating, applying a model, failed reading); rows, '
    'counts, bounds and stream state are compared with a reference after '
    'every step, evaluations with those of an unused section, written lists '
    'are read again. Non-trivial: more than one section or step.',
    technique='stateful property-based testing of the data section class '
    'against a reference, with round trips',
    level_note='Lists of no to five sections with up to 60 rows, histories '
    'of up to seven steps.',
    setup=lib.setup)
