import math
import os

from hypothesis import strategies as st

from .. import spec, tables
from ..core import Prop, Sub
from ..tables import parse, rows, same_columns, table, text, tool
from .common import need, setup_cli

UTIL = ['airtovac', 'vactoair', 'helicorr']


def args_of(name, case):
    a = [case['v']] if name == 'helicorr' else []
    t = case['t']
    if t['skip'] or case['explicit']:
        a.append(t['skip'])
    return a


def expected(name, case, x):
    """(reference wavelength, tolerance)."""
    if name == 'helicorr':
        b = case['v'] / spec.C0
        y = x * math.sqrt((1 + b) / (1 - b))
    else:
        from .c23 import to_air, to_vac
        y = to_air(x) if name == 'vactoair' else to_vac(x)
    return y, 5.1e-7 + 1e-13 * abs(y)


@st.composite
def filt(draw):
    wmin, wmax = draw(st.sampled_from([(2000.0, 25000.0)] * 3
                                      + [(2000.0, 3e5), (9e4, 1e7)]))
    return dict(tool=draw(st.sampled_from(UTIL)),
                t=draw(table(wmin=wmin, wmax=wmax)),
                explicit=draw(st.booleans()),
                v=draw(st.sampled_from([0, 1.5, -29780.25, 30000, 1e6, -4e7])))


def ev_filter(case, ctx):
    name, t = case['tool'], case['t']
    rs = rows(t)
    r = tool(ctx, name, args_of(name, case), text(t))
    need(r.rc == 0, '%s: exit status %d: %s', name, r.rc, r.err[-200:])
    got = parse(r.out)
    xs = same_columns(got, rs)
    for k, (x, row) in enumerate(zip(xs, rs)):
        y, tol = expected(name, case, row[0])
        need(abs(x - y) <= tol, '%s: wavelength %.9g of row %d became %.9f '
             'instead of %.9f', name, row[0], k + 1, x, y)
    for ln in r.out.split('\n')[:-1]:
        need(len(ln.split()[0].partition('.')[2]) == 6,
             'wavelength not written with six decimals: %r', ln)
    return dict(nontrivial=len(rs) > 1,
                classes=[name, 'cols=%d' % t['cols'], 'skip=%d' % t['skip'],
                         t['order']])


# --- rejected input
BAD = ['', 'abc', '1.0', 'x 1 2', '1.0 y', '--1 2 3', '1.0 . 2', 'nan 1 1']


@st.composite
def bad(draw):
    c = draw(filt())
    c['kind'] = draw(st.sampled_from(['line', 'empty', 'skip all', 'ragged',
                                      'short']))
    c['at'] = draw(st.integers(0, 1000))
    c['line'] = draw(st.sampled_from(BAD))
    return c


def ev_bad(case, ctx):
    name, t, kind = case['tool'], dict(case['t']), case['kind']
    rs = rows(t)
    L = text(t).split('\n')
    if t['last']:
        L.pop()
    k = t['skip'] + case['at'] % len(rs)
    if kind == 'line':
        L.insert(k, case['line'])
    elif kind == 'empty':
        L = []
        case = dict(case, t=dict(t, skip=0))
    elif kind == 'skip all':
        L = L[:t['skip']]
    elif kind == 'ragged':
        # third column in some rows only
        if len(rs) < 2:
            return dict(nontrivial=False)
        L[k] = ' '.join(('1000.5 2.5 0.5' if t['cols'] == 2
                         else '1000.5 2.5').split())
    else:
        L[k] = '1000.5'
    r = tool(ctx, name, args_of(name, case), '\n'.join(L) + ('\n' if L else ''))
    need(r.rc == 16, '%s accepted bad input (%s): exit status %d', name, kind,
         r.rc)
    need(r.out == '', '%s wrote a table although its input is bad (%s)', name,
         kind)
    need(r.err.strip(), '%s gave no message', name)
    return dict(nontrivial=True, classes=[name, kind])


# --- ezip
@st.composite
def zips(draw):
    a = draw(table(wmin=10.0, wmax=1e5))
    # the two tables have their wavelengths in common
    b = dict(draw(table(wmin=10.0, wmax=1e5)), skip=a['skip'], w0=a['w0'],
             dw=a['dw'], order=a['order'], xseed=a['seed'], form=a['form'])
    b['n'] = a['n'] + draw(st.sampled_from([0, 0, 0, 0, 1, -1, 7]))
    return dict(a=a, b=b, explicit=draw(st.booleans()))


def ev_zip(case, ctx):
    a, b = case['a'], case['b']
    d = ctx.fresh()
    b = dict(b, n=max(1, b['n']))
    for f, t in (('a b.dat', a), ('u.dat', b)):
        with open(os.path.join(d, f), 'w') as fd:
            fd.write(text(t))
    args = ['a b.dat', 'u.dat']
    if a['skip'] or case['explicit']:
        args.append(a['skip'])
    r = tool(ctx, 'ezip', args, cwd=d)
    if a['n'] != b['n']:
        need(r.rc == 16, 'ezip joins %d and %d rows, exit status %d', a['n'],
             b['n'], r.rc)
        need(r.out == '', 'ezip wrote a table although the inputs do not match')
        return dict(nontrivial=True, classes=['unequal'])
    need(r.rc == 0, 'ezip: exit status %d: %s', r.rc, r.err[-200:])
    ra, rb = rows(a), rows(b)
    want = [[p[0], p[1], q[1]] for p, q in zip(ra, rb)]
    xs = same_columns(parse(r.out), want)
    for x, p in zip(xs, want):
        need(abs(x - p[0]) <= 5.1e-7 + 1e-13 * p[0],
             'ezip: wavelength %r became %r', p[0], x)
    return dict(nontrivial=a['n'] > 1, classes=['equal', 'skip=%d' % a['skip']])


@st.composite
def zips_bad(draw):
    c = draw(zips())
    c['b']['n'] = c['a']['n']
    c['file'] = draw(st.integers(0, 1))
    c['kind'] = draw(st.sampled_from(['line', 'empty', 'missing', 'directory']))
    c['line'] = draw(st.sampled_from(BAD))
    c['at'] = draw(st.integers(0, 1000))
    return c


def ev_zip_bad(case, ctx):
    d = ctx.fresh()
    for i, (f, t) in enumerate((('a', case['a']), ('b', case['b']))):
        L = text(t).split('\n')
        p = os.path.join(d, f)
        if i == case['file']:
            if case['kind'] == 'missing':
                continue
            if case['kind'] == 'directory':
                os.mkdir(p)
                continue
            if case['kind'] == 'empty':
                L = []
            else:
                L.insert(t['skip'] + case['at'] % t['n'], case['line'])
        with open(p, 'w') as fd:
            fd.write('\n'.join(L))
    r = tool(ctx, 'ezip', ['a', 'b', case['a']['skip']], cwd=d)
    need(r.rc == 16, 'ezip: exit status %d for bad input (%s)', r.rc,
         case['kind'])
    need(r.out == '', 'ezip wrote a table for bad input (%s)', case['kind'])
    return dict(nontrivial=True, classes=[case['kind']])


PROP = Prop(
    'C25',
    [Sub('filter', filt, ev_filter, 1600, 24000,
         fixed=[dict(tool=n, explicit=True, v=1.5, t=dict(
             n=25000, cols=c, seed=5, w0=3000.0, dw=0.1, order='up', flux=1.0,
             form='exp', sep=' ', lead='', trail='', last=True, skip=1,
             wmin=2000.0, wmax=25000.0)) for n in UTIL for c in (2, 3)]),
     Sub('reject', bad, ev_bad, 600, 9000),
     Sub('ezip', zips, ev_zip, 600, 9000, fixed=[dict(explicit=True, **{
         k: dict(n=n, cols=c, seed=5, xseed=5, w0=3000.0, dw=0.1, order='up',
                 flux=1.0, form='exp', sep=' ', lead='', trail='', last=True,
                 skip=1, wmin=10.0, wmax=1e5)
         for k, c in (('a', 3), ('b', 2))}) for n in (20001, 66000)]),
     Sub('ezip_reject', zips_bad, ev_zip_bad, 300, 4000)],
    rule='Hypothesis draws tables of one to 40 rows (fixed cases: up to 66 000) with '
    'two to four columns, any order of wavelengths, fluxes from 3e-120 to 1e30 '
    'of both signs, five number formats, separators, header lines and skip '
    'counts; also malformed rows, ragged third columns, empty and missing '
    'files, tables of unequal length. Rows, columns and digits are compared '
    'with a Python reading of the same text. Non-trivial: more than one row, '
    'or a malformed input.',
    technique='property-based testing of the utilities against a reference '
    'reader and writer of tables',
    level_note='Numbers are drawn in formats that C++ streams accept; hex and '
    'infinite values are not.',
    setup=setup_cli)
