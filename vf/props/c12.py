import os
import re

import numpy as np
from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub
from ..spec import FLX, MSK, UNC, WAV, fl, wide
from . import fits
from .c01 import first_difference
from .c10 import body
from .common import need, setup_cli

NUM = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$')
FORMS = ['repr', 'e', 'E', 'plus', 'fixed', 'short']


def form(x, k):
    if k == 'e':
        return '%.10e' % x
    if k == 'E':
        return '%.8E' % x
    if k == 'plus':
        return '%+.12g' % x
    if k == 'fixed':
        return '%.7f' % x
    if k == 'short':
        s = '%.9g' % x
        return s[1:] if s.startswith('0.') else s
    return repr(float(x))


# lines which are neither data nor comments
ODD = [' # comment', ' ! 1 2', '\t% comment', '  !', ' #', ';', '; comment', '// 1 2',
       '$ 1 2', '* comment', '" 5000 1', 'C 5000 1', '& 1', '@', '\\', '=====',
       '---', "' comment", '/* comment */', '<!-- -->', '\x1a', '\x00']


@st.composite
def files(draw):
    """The lines of a data file."""
    n = draw(st.integers(4, draw(st.sampled_from([40] * 60 + [20000]))))
    c = dict(w0=draw(fl(1000, 9000, 3)), dw=draw(wide(0.01, 20.0)), n=n,
             seed=draw(st.integers(0, 10 ** 6)),
             level=draw(st.sampled_from([1.0, 1e-17, 1e5])),
             form=draw(st.sampled_from(FORMS[:4] + ['fixed', 'short'])),
             cols=draw(st.sampled_from([2, 3, 3, 4, 4, 5, 13])),
             mixed=draw(st.sampled_from([0.0, 0.0, 0.1, 0.5])),
             negative=draw(st.sampled_from([0.0, 0.0, 0.0, 0.2])),
             last=draw(st.booleans()), flavour=draw(st.sampled_from(
                 spec.FLAVOURS)), npoly=draw(st.integers(0, 2)))
    if c['level'] != 1.0 and c['form'] == 'fixed':
        c['form'] = 'e'
    # what happens before row i
    c['extra'] = draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from(
        ['#', '# comment', '%', '! 1 2 3 4', '#1 2', '%%', '!', '%-1 0 0',
         '#' + 'x' * 300])), max_size=6))
    c['fault'] = draw(st.sampled_from(
        [None] * 9 + ['empty', 'empty', 'word', 'one', 'space', 'indent', 'indent',
                      'late', 'comma', 'first word', 'minus']))
    c['row'] = draw(st.sampled_from(ODD))
    c['at'] = draw(st.integers(0, n))
    c['sep'] = draw(st.sampled_from([' ', '\t', '   ', ' \t ']))
    c['lead'] = draw(st.sampled_from(['', '', ' ', '\t']))
    c['trail'] = draw(st.sampled_from(['', '', ' ', '\t', '\r', ' # note']))
    # window
    c['win'] = draw(st.sampled_from(['all', 'points', 'points', 'between',
                                     'none', 'reversed', 'lower', 'upper']))
    c['i'] = draw(st.integers(0, n - 1))
    c['j'] = draw(st.integers(0, n - 1))
    return c


def expand(c):
    """(text, window)"""
    rng = np.random.default_rng(c['seed'])
    n = c['n']
    w = c['w0'] + c['dw'] * (np.arange(n) + 0.4 * (rng.random(n) - 0.5))
    f = c['level'] * (1 + 0.3 * rng.standard_normal(n))
    u = c['level'] * (0.05 + 0.2 * rng.random(n))
    m = (rng.random(n) > 0.15).astype(int)
    # uncertainties count by their square
    u[rng.random(n) < c.get('negative', 0.0)] *= -1
    k = c['form']
    rng2 = np.random.default_rng(c['seed'] + 1)
    L = []
    toks = []
    for i in range(n):
        r = [form(w[i], k), form(f[i], k), form(u[i], k),
             str(m[i])] + [form(z, k) for z in rng.standard_normal(9)]
        toks.append(r[0])
        k2 = c['cols']
        if rng2.random() < c['mixed']:
            k2 = int(rng2.integers(2, 6))
        L.append(c['lead'] + c['sep'].join(r[:k2]) + c['trail'])
    ins = list(c['extra'])
    at = min(c['at'], n)
    bad = dict(empty='', word='x y', one=form(w[0], k), space='  ',
               indent=c.get('row') or ' # comment', late=None, comma='%s, %s' % (
                   form(w[0], k), form(f[0], k)), minus='- 1')
    if c['fault'] == 'first word':
        ins.append([0, 'wavelength flux'])
    elif c['fault'] == 'late':
        ins += [[at, ''], [at, '!'], [n, 'x'], [n, '1 2']]
    elif c['fault']:
        ins.append([at, bad[c['fault']]])
    for i, t in sorted(ins, key=lambda x: -x[0]):
        L.insert(i, t)
    v = [float(t) for t in toks]
    i, j = sorted((c['i'], c['j']))
    if c['win'] in ('all', 'none'):
        a, b = (0.0, 1e6) if c['win'] == 'all' else (v[-1] + 1.0, v[-1] + 9.0)
    elif c['win'] in ('points', 'reversed'):
        a, b = v[i], v[j]
        if c['win'] == 'reversed':
            a, b = b, a
    elif c['win'] == 'between':
        a, b = v[i] + 0.01 * c['dw'], v[j] - 0.01 * c['dw']
    elif c['win'] == 'lower':
        a, b = v[i], 1e6
    else:
        a, b = -1e6, v[j]
    return '\n'.join(L) + ('\n' if c['last'] else ''), a, b


def read(text, a, b):
    """Rows of the window, or None for a malformed file."""
    out = []
    lines = text.split('\n')
    for ln in lines:
        if ln == '':
            break
        if ln[0] in '#%!':
            continue
        t = ln.split()
        if len(t) < 2 or not NUM.match(t[0]) or not NUM.match(t[1]):
            return None
        x, y = float(t[0]), float(t[1])
        if not a <= x <= b:
            continue
        z, m = 1.0, 1
        if len(t) > 2 and NUM.match(t[2]):
            z = float(t[2])
            if len(t) > 3 and t[3] == '0':
                m = 0
        out.append([x, y, z, m])
    return out


def ev_read(c, ctx):
    text, a, b = expand(c)
    want = read(text, a, b)
    d = ctx.fresh()
    with open(os.path.join(d, 'd.dat'), 'w', newline='') as f:
        f.write(text)
    r = 0.5 * c['w0'] / (2.0 * c['dw']) / 1000.0
    npoly = c['npoly']
    if want:
        z = [abs(x[2]) for x in want if x[3]]
        if z and max(z) > 1e4 * min(z):
            # rows without an uncertainty among rows with a tiny one
            npoly = min(npoly, 1)
    model = '{ S d.dat %s %s %d\n%s 0 0 0\n}\n' % (spec.fmt(a), spec.fmt(b),
                                                   npoly, spec.fmt(r))
    run = spec.fit(ctx, c['flavour'], model, d)
    if not want:
        need(run.rc == 16, 'exit status %d for a file %s', run.rc,
             'with a malformed row' if want is None else 'without a row in '
             'the window')
        need(run.err.strip(), 'no message for a rejected file')
        need('<data>' not in run.out, 'a result for a rejected file')
        return dict(nontrivial=True, classes=['rejected', c['fault'] or
                                              c['win']])
    want = np.array(want)
    if len(want) < 3 or want[:, 3].sum() <= c['npoly']:
        return dict(nontrivial=False, classes=['few rows'])
    need(run.rc == 2, 'exit status %d for a valid file: %s', run.rc,
         run.err[-300:])
    D = spec.Result(run.out).data[0]
    need(len(D) == len(want), '%d rows of %d in the window [%r, %r] are used',
         len(D), len(want), a, b)
    for col, name in ((WAV, 'wavelength'), (FLX, 'flux'),
                      (UNC, 'uncertainty'), (MSK, 'validity')):
        bad = np.flatnonzero(D[:, col] != [float('%.8e' % x)
                                           for x in want[:, col]])
        need(not len(bad), 'row %d: %s %r instead of %r', *(
            (bad[0] + 1, name, D[bad[0], col], want[bad[0], col])
            if len(bad) else (0, 0, 0, 0)))
    k = D[:, MSK] > 0
    need(int(spec.Result(run.out).sections['S']['n']) == k.sum(),
         'number of valid points')
    if len({len(ln.split()) for ln in text.split('\n') if ln
            and ln[0] not in '#%!'}) > 1:
        c = dict(c, cols='mixed')
    return dict(nontrivial=True, classes=['read', '%s columns' % c['cols'],
                                          c['win'], c['fault'] or 'clean'])


@st.composite
def trips(draw):
    c = draw(fits.fit_case(maxgen=15, endings=('stop', 'stop', 'opt'),
                           maskp=True, excl=True, window=True,
                           kinds=('lin', 'log', 'jit'), sections=(1, 3)))
    for s in c['sections']:
        s['cols'] = draw(st.sampled_from([2, 3, 4, 4]))
    return c


def ev_trip(c, ctx):
    """The data block of a result file as input."""
    d = ctx.fresh()
    spec.write_data(c, d)
    a = fits.run_fit(c, ctx, d=d)
    if fits.bad_end(a):
        return dict(nontrivial=False, classes=['status 16'])
    outs = [a]
    blocks = []
    # rounded wavelengths may cross bounds: mask and window are in the block
    plain = dict(c, sections=[dict(s, excl=[], a=0.0, b=99999.0)
                              for s in c['sections']])
    for step in range(2):
        t = spec.run([os.path.join(ctx.built['cli'], 'edat')], outs[-1].out)
        bl = [x for x in t.out.split('\n\n')]
        need(len(bl) == len(c['sections']), '%d blocks for %d sections',
             len(bl), len(c['sections']))
        blocks.append([[ln.split()[:4] for ln in x.split('\n') if ln]
                       for x in bl])
        for i, (s, x) in enumerate(zip(c['sections'], bl)):
            # the following sections come after the first empty line
            with open(os.path.join(d, s['file']), 'w') as f:
                f.write('\n\n'.join(bl[i:]).strip('\n') + '\n')
        outs.append(fits.run_fit(plain, ctx, d=d))
    need(blocks[0] == blocks[1], 'the data columns change when an extracted '
         'data block is used as input')
    b, e = outs[1], outs[2]
    need(b.rc == e.rc, 'exit status %d instead of %d with the extracted data '
         'block', e.rc, b.rc)
    if b.rc == 16:
        return dict(nontrivial=False, classes=['status 16'])
    need(body(b.out) == body(e.out), 'another result with the extracted data '
         'block: %s', first_difference(body(b.out), body(e.out)))
    p, q = spec.Result(a.out), spec.Result(b.out)
    for s, t in p.sections.items():
        u = q.sections[s]
        # rounded to nine digits, a wavelength may be printed another way
        need(t['n'] == u['n'] and abs(t['lo'] - u['lo']) < 0.011
             and abs(t['up'] - u['up']) < 0.011,
             'section %s: %r instead of %r', s, u, t)
    return dict(nontrivial=True, classes=['status %d' % a.rc])


@st.composite
def shared(draw):
    """Several sections reading windows of the same file."""
    c = draw(files())
    c.update(fault=None, win='all', cols=draw(st.sampled_from([3, 4])),
             mixed=0.0,
             npoly=0, n=draw(st.integers(20, 40)))
    n = c['n']
    c['extra'] = [x for x in c['extra'] if x[0] <= n]
    c['cuts'] = draw(st.lists(st.tuples(st.integers(0, n - 4), st.integers(
        3, n)), min_size=2, max_size=4))
    return c


def ev_shared(c, ctx):
    text, _, _ = expand(c)
    rows = np.array(read(text, -1, 1e9))
    d = ctx.fresh()
    with open(os.path.join(d, 'd.dat'), 'w', newline='') as f:
        f.write(text)
    r = 0.5 * c['w0'] / (2.0 * c['dw']) / 1000.0
    model = ''
    for k, (i, m) in enumerate(c['cuts']):
        j = min(len(rows), i + m) - 1
        model += '{ S%d d.dat %r %r 0\n%r 0 0 0\n}\n' % (
            k, float(rows[i, 0]), float(rows[j, 0]), float(r))
    run = spec.fit(ctx, c['flavour'], model, d)
    need(run.rc == 2, 'exit status %d: %s', run.rc, run.err[-300:])
    res = spec.Result(run.out)
    need(len(res.data) == len(c['cuts']), '%d sections', len(res.data))
    for (i, m), D in zip(c['cuts'], res.data):
        want = rows[i:min(len(rows), i + m)]
        need(len(D) == len(want), '%d rows instead of %d in a window of a '
             'shared file', len(D), len(want))
        need(np.array_equal(D[:, [WAV, FLX, UNC, MSK]], np.array(
            [[float('%.8e' % x) for x in r] for r in want])), 'other data in a '
            'window of a shared file')
    return dict(nontrivial=True)


PROP = Prop(
    'C12',
    [Sub('read', files, ev_read, 2500, 40000, fixed=[dict(
        w0=3000.5, dw=0.01, n=n, seed=n, level=1.0, form='repr', cols=k,
        mixed=0.0, last=True, flavour=f, npoly=0, extra=[[7, '#']], fault=None,
        at=0, sep=' ', lead='', trail='', win='all', i=0, j=0)
        for n, k, f in ((20003, 3, 'curcuma'), (41000, 2, 'mascada'),
                        (70001, 4, 'oregano'))]),
     Sub('roundtrip', trips, ev_trip, 300, 5000),
     Sub('shared', shared, ev_shared, 300, 4000)],
    rule='Hypothesis draws data files (2 to 13 columns, also changing from '
    'row to row, fixed cases of up to 70001 rows, comments, white space, '
    'number notations, empty and malformed lines anywhere) and windows (on '
    'data points, between them, open, empty, reversed); the data columns of '
    'the result are compared digit by digit with a reference reader, and '
    'extracted data blocks used as input twice must give identical results. '
    'Non-trivial: the file is rejected or gives at least three rows.',
    technique='property-based testing of the fitting programs against a '
    'reference reader, and round trips',
    level_note='Ascending wavelengths; sections of at least three points.',
    setup=setup_cli)
