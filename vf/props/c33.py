"""C33: numbers, columns of numbers and lines of text are read as written;
equations are solved."""
import math

import mpmath
import numpy as np
from hypothesis import strategies as st

from .. import lib
from ..core import Prop, Sub
from ..spec import fl, wide
from .common import need

GAPS = [' ', ' ', '  ', '\t', '\n', ' \n', '\n\n ', '\r\n']
BAD = ['x', '--1', '*', 'nan?', '+', '.', '1e999', '-1e999', '"', ',', '#']


def number(v):
    return '%.17g' % v


# --------------------------------------------------------- columns of numbers
@st.composite
def columns(draw):
    cols = draw(st.integers(1, 6))
    n = draw(st.one_of(st.integers(0, 6), st.integers(7, 40)))
    if draw(st.integers(0, 99)) == 42:
        n = draw(st.sampled_from([1000, 5000]))
    have = n + draw(st.sampled_from([0, 0, 0, 1, 5, -1, -2]))
    return dict(cols=cols, n=n, have=max(0, have),
                append=draw(st.booleans()), prior=draw(st.integers(0, 4)),
                seed=draw(st.integers(0, 99999)),
                bad=draw(st.sampled_from([None, None, None, 'token',
                                          'int'])),
                at=draw(fl(0, 1, 4)),
                eol=draw(st.sampled_from(['\n', '\n', ';', '|', '\r'])),
                end=draw(st.sampled_from(['', '\n', ' ', ' end 1 2'])))


def table(c):
    """-> rows of tokens, text of each row up to and including its end"""
    rng = np.random.default_rng(c['seed'])
    k = c['cols']
    text = k == 6
    rows = []
    for i in range(c['have']):
        r = [number(x) for x in
             rng.standard_normal(3) * 10.0 ** rng.integers(-12, 12)]
        if rng.random() < 0.2:
            r[0] = str(rng.choice(['0', '-0.5', '+3', '1E+3', '.25', '4.',
                                   '007', '-2e-3']))
        if text:
            r.append(str(int(rng.integers(0, 2))))
            w = [''.join(rng.choice(list('abcXYZ_.0189-+#%'), 4))
                 for _ in range(rng.integers(0, 4))]
            r.append(w)
        else:
            r.append(str(int(rng.integers(-2 ** 31, 2 ** 31))))
            r.append(number(rng.random()))
            r = r[:k]
        rows.append(r)
    return rows


def ev_columns(c, ctx):
    rng = np.random.default_rng(c['seed'] + 1)
    k, n, eol = c['cols'], c['n'], c['eol']
    rows = table(c)
    nn = 4 if k == 6 else k
    toks = [[str(x) for x in r[:nn]] for r in rows]
    bad = None
    if c['bad'] and rows:
        b = min(int(c['at'] * len(rows)), len(rows) - 1)
        j = int(rng.integers(0, nn))
        if c['bad'] == 'int' and nn >= 4:
            j = 3
            toks[b][j] = '2' if k == 6 else str(
                rng.choice(['2147483648', '-99999999999', 'x']))
        else:
            toks[b][j] = str(rng.choice(BAD if j != 3 else BAD[:6]))
        bad = b
    out = []
    for i, t in enumerate(toks):
        s = ''
        for j, x in enumerate(t):
            s += x
            if j < nn - 1:
                s += str(rng.choice(GAPS))
        if k == 6:
            w = rows[i][4]
            gap = ' ' if eol == '\n' or rng.random() < 0.5 else ' \n'
            s += ''.join(gap + x for x in w)
            if rng.random() < 0.3:
                s += ' \t'
            s += eol
        out.append(s)
    text, pos = '', []
    for i, s in enumerate(out):
        if i:
            text += str(rng.choice(GAPS))
        elif rng.random() < 0.3:
            text += ' '
        text += s
        pos.append(len(text))
    text += c['end']
    ok = len(rows) >= n and (bad is None or bad >= n)
    rc, left, got = lib.read(ctx, k, text, n, c['append'], eol, c['prior'])
    p = range(c['prior'])
    prior = [[100.0 * (j + 1) + i for i in p] for j in range(3)]
    prior += [[400 + i for i in p], [500.0 + i for i in p],
              [i % 2 for i in p], ['s%d' % i for i in p]]
    want = [list(x) for x in prior]
    if ok:
        use = {6: [0, 1, 2, 5, 6]}.get(k, list(range(k)))
        for j, v in enumerate(use):
            if v == 6:
                new = [r[4][0] if r[4] else '' for r in rows[:n]]
            elif v in (3, 5):
                new = [int(t[j]) for t in toks[:n]]
            else:
                new = [float(t[j]) for t in toks[:n]]
            want[v] = (prior[v] if c['append'] else []) + new
    need(bool(rc & 2) == (not ok), 'reading %d of %d rows of %d columns%s '
         'leaves the stream in state %d', n, len(rows), k,
         '' if bad is None else ', row %d is damaged,' % bad, rc)
    for j, (g, w) in enumerate(zip(got, want)):
        if j < 6:
            g = [float(x) for x in g]
        need(g == w, 'vector %d has %r after reading, instead of %r', j,
             g[:50], w[:50])
    if ok:
        rest = text[pos[n - 1]:] if n else text
        need(left == rest, 'what is left to read is %r instead of %r',
             left[:80], rest[:80])
    return dict(nontrivial=n > 0 and len(rows) > 0, classes=[
        '%d columns' % k, 'complete' if ok else 'incomplete',
        'appended' if c['append'] else 'assigned', 'one' if n == 1 else ''])


# --------------------------------------------------------------- lines of text
@st.composite
def texts(draw):
    eol = draw(st.sampled_from(['\n', '\n', '\n', ';', '}']))
    mark = draw(st.sampled_from(['', '%', '%', '#', '!']))
    ch = st.sampled_from(list('ab1.=%#!; \t{}') + ['\n', '  '])
    ls = draw(st.lists(st.one_of(
        st.just(''), st.sampled_from([' ', '\t ', mark or '%', ' ' + mark,
                                      mark + ' a', 'x' * 1100, 'b' + mark]),
        st.lists(ch, max_size=12).map(''.join)), max_size=14))
    return dict(lines=ls, eol=eol, mark=mark, last=draw(st.booleans()),
                most=draw(st.sampled_from([99, 99, 1, 2, 5])))


def ev_texts(c, ctx):
    eol, mark = c['eol'], c['mark']
    text = eol.join(c['lines']) + (eol if c['last'] else '')
    parts = text.split(eol)
    ended = [True] * (len(parts) - 1) + [False]
    if not parts[-1]:
        parts.pop()
        ended.pop()
    want, k, at = [], 0, 0
    while k < len(parts) and len(want) < c['most']:
        s = parts[k]
        at += len(s) + ended[k]
        k += 1
        if mark:
            s = s.split(mark)[0]
            if not s.strip(' \t\n\v\f\r'):
                continue
        want.append(s)
    rc, left, got = lib.lines(ctx, text, mark, eol, c['most'])
    need(got == want, 'the lines are %r instead of %r (end %r, comments %r)',
         got, want, eol, mark)
    need(bool(rc & 2) == (len(want) < c['most']), 'the state of the stream is '
         '%d after %d lines', rc, len(want))
    if len(want) == c['most']:
        need(left == text[at:], 'what is left to read is %r instead of %r',
             left, text[at:])
    return dict(nontrivial=len(parts) > 1, classes=[
        'comments' if mark else 'plain', 'end %r' % eol,
        'dropped' if len(want) < len(parts) else 'all'])


# -------------------------------------------------------------------- numbers
LIMIT = {1: 2 ** 32, 2: 2 ** 64, 3: 2 ** 31, 4: 2 ** 32}


@st.composite
def numbers(draw):
    kind = draw(st.integers(0, 4))
    w = draw(st.sampled_from(['number', 'number', 'edge', 'bad']))
    if w == 'bad':
        t = draw(st.sampled_from(BAD[:6] + ['', ' ', 'one', 'e5', '-', '\n',
                                            '#1', 'x12', 'inf1ty', '$']))
    elif kind == 0:
        v = draw(st.floats(allow_nan=False, allow_infinity=False,
                           allow_subnormal=False))
        if w == 'edge':
            v = draw(st.sampled_from([0.0, 1e308, -1.7976931348623157e308,
                                      2.2250738585072014e-308, 0.1, 1 / 3]))
        t = draw(st.sampled_from(['%r', '%.17g', '%.17e', '%+.17g',
                                  '%.17G'])) % v
    else:
        m = LIMIT[kind]
        v = draw(st.one_of(st.integers(0, m - 1), st.integers(0, 999)))
        if w == 'edge':
            v = m + draw(st.sampled_from([-2, -1, 0, 1, m, 10 * m]))
        elif kind == 3 and draw(st.booleans()):
            v = -v
        t = str(v)
        if draw(st.integers(0, 3)) == 0 and v >= 0:
            t = draw(st.sampled_from(['0', '00', '+'])) + t
    return dict(kind=kind, text=draw(st.sampled_from(
        ['', '', ' ', '\t\n'])) + t + draw(st.sampled_from(['', '', ' ', '\n']
            + ([] if w == 'bad' else [' 7']))),
                bad=w == 'bad')


def ev_numbers(c, ctx):
    k, t = c['kind'], c['text'].split()
    got = lib.convert(ctx, k, c['text'])
    name = ['a real number', 'a natural number', 'a 64-bit word',
            'an integer number', 'a 32-bit word'][k]
    v = None
    if t and not c['bad']:
        if k == 0:
            v = float(t[0])
        else:
            v = int(t[0])
            v = v if v < LIMIT[k] else None
    if v is None:
        need(not got, '%r is converted into %s: %s', c['text'], name, got)
    else:
        need(got and (float(got) == v if k == 0 else int(got) == v),
             '%r is converted into %s: %r', c['text'], name, got)
    return dict(nontrivial=v is not None, classes=[
        name, 'accepted' if v is not None else 'rejected'])


# ------------------------------------------------------------------ equations
def function(c):
    """-> function with derivative"""
    a, p, s = c['a'], c['p'], c['side']
    if c['fun'] == 'power':
        def f(x):
            return a * x ** p, a * p * x ** (p - 1)
    elif c['fun'] == 'exp':
        b = p / c['root']
        def f(x):
            e = math.exp(min(700.0, b * x))
            return a * e, a * b * e
    elif c['fun'] == 'cubic':
        b = c['root'] ** 2
        def f(x):
            return a * (b * x + x ** 3), a * (b + 3 * x * x)
    else:
        b = 0.3 / c['root']
        def f(x):
            return (a * (x + 0.3 / b * math.sin(b * x)),
                    a * (1 + 0.3 * math.cos(b * x)))
    if s > 0:
        return f

    def g(x):
        y, z = f(-x)
        return y, -z
    return g


@st.composite
def equations(draw):
    return dict(fun=draw(st.sampled_from(['power', 'exp', 'cubic', 'wave'])),
                a=draw(wide(1e-6, 1e6)) * draw(st.sampled_from([1, -1])),
                p=draw(st.sampled_from([1, 2, 3, -1, 5])),
                root=draw(wide(1e-8, 1e8)), start=draw(wide(0.5, 1.6)),
                side=draw(st.sampled_from([1, 1, -1])),
                goal=draw(st.sampled_from([1e-4, 1e-8, 1e-8, 1e-12, 1e-13])),
                most=draw(st.sampled_from(['', '', 'less', 'enough', 'enough', 'zero',
                                           'none'])))


def ev_equations(c, ctx):
    if c['fun'] == 'exp':
        c = dict(c, p=abs(c['p']))
    f = function(c)
    root = c['side'] * c['root']
    goal = c['goal']
    rhs = f(root)[0]
    x0 = root * c['start']
    # number of steps of the method
    x, k, few, ok = x0, 0, 0, False
    while k < 60:
        y, z = f(x)
        d = (y - rhs) / z
        x -= d
        k += 1
        if few == k - 1 and abs(d) > 3 * goal * abs(x):
            few = k
        if not (x / root > 0.01 and x / root < 100):
            break
        if abs(d) < 0.3 * goal * abs(x):
            ok = True
            break
    if not ok:
        return dict(nontrivial=False, classes=['not convergent'])
    what = 'solving the equation with solution %r from %r to %r' % (
        root, x0, goal)
    classes = [c['fun'], 'negative' if c['side'] < 0 else 'positive']
    if c['most'] == 'none':
        # no solution: the function has no value like this
        def g(x):
            return 1 + x * x, 2 * x
        x, _ = lib.solve(ctx, g, 0.5, x0, goal)
        need(x is None, 'the solution of an equation without any is %r', x)
        return dict(nontrivial=True, classes=['no solution'])
    if c['most'] == 'zero':
        x, n = lib.solve(ctx, f, rhs, x0, goal, 0)
        need(x is None, '%s with no step yields %r', what, x)
        return dict(nontrivial=False, classes=['no step'])
    if c['most'] == 'less' and few:
        # the accuracy is not reached by any of these steps
        x, n = lib.solve(ctx, f, rhs, x0, goal, few)
        need(x is None, '%s with %d steps yields %r', what, few, x)
        return dict(nontrivial=True, classes=classes + ['too few steps'])
    x, calls = lib.solve(ctx, f, rhs, x0, goal,
                         k + (goal < 1e-9) if c['most'] == 'enough' else -1)
    need(x is not None, '%s fails, %d steps of Newton\'s method are enough', what,
         k)
    y, z = f(root)
    cond = 1e-15 * abs(y / (z * root)) * 8
    need(abs(x - root) <= (2 * goal + cond + 1e-14) * abs(root),
         '%s yields %r', what, x)
    return dict(nontrivial=k > 1, classes=classes + [
        'limited' if c['most'] == 'enough' else 'not limited'])


# ------------------------------------------------------------------- formulas
@st.composite
def formulas(draw):
    n = draw(st.one_of(st.integers(0, 8), st.integers(9, 300)))
    return dict(n=n, seed=draw(st.integers(0, 99999)),
                power=draw(st.sampled_from([0, 0, -100, 100])),
                v=draw(st.one_of(fl(-1e6, 1e6, 3), fl(-2.9e8, 2.9e8, 0),
                                 wide(1e-3, 1e3))))


def ev_formulas(c, ctx):
    rng = np.random.default_rng(c['seed'])
    x = rng.standard_normal(c['n']) * 10.0 ** c['power']
    L = lib.lib(ctx)
    want = math.sqrt(math.fsum((x / 10.0 ** c['power']) ** 2)) \
        * 10.0 ** c['power']
    got = L.prm_norm(len(x), x.ctypes.data)
    need(abs(got - want) <= 1e-13 * want, 'the norm of %d numbers is %r '
         'instead of %r', len(x), got, want)
    for v in x[:3]:
        got = L.prm_sq(float(v))
        need(abs(got - v * v) <= 4e-16 * v * v, 'the square of %r is %r',
             float(v), got)
    with mpmath.workdps(40):
        b = mpmath.mpf(c['v']) / 299792458
        want = mpmath.sqrt((1 + b) / (1 - b)) - 1
        got = L.prm_redshift(c['v'])
        err = abs(got - want) - 1e-15 * (1 + want) * 4 / (1 - abs(b))
        need(err <= 0, 'the redshift for %r is %r instead of %s', c['v'], got,
             mpmath.nstr(want, 17))
    return dict(nontrivial=c['n'] > 1, classes=['norm'])


PROP = Prop(
    'C33',
    [Sub('columns', columns, ev_columns, 4000, 100000),
     Sub('lines', texts, ev_texts, 3000, 80000),
     Sub('numbers', numbers, ev_numbers, 3000, 80000),
     Sub('equations', equations, ev_equations, 2500, 60000),
     Sub('formulas', formulas, ev_formulas, 800, 20000)],
    rule='Hypothesis draws tables of one to five columns, and of four with '
    'text (any white space, more or fewer rows than wanted, damaged ones), '
    'texts with comments, empty lines and several line ends, numbers of five '
    'types up to and over their limits, equations with a known solution of '
    'either sign and without any, limits of steps, and vectors; what is read, '
    'what is left, the state of the stream, solutions and failures are '
    'compared with a reference. Non-trivial: at least one row, two lines, an '
    'accepted number, two Newton steps, two numbers.',
    technique='property-based testing of the input primitives and the '
    'equation solver against reference models',
    level_note='Tokens are complete numbers or none: a number followed by '
    'letters is not drawn. Starts of the solver are within a factor 0.5 to '
    '1.6 of the solution.',
    setup=lib.setup)
