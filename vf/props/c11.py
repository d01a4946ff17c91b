import copy
import random

import numpy as np
from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub
from ..spec import CAT, CFL, FIT, MSK, OPT, WAV
from . import fits
from .c01 import first_difference
from .c07 import usable
from .c10 import POOL, body
from .common import need, setup_cli


def params(c):
    for s in c['sections']:
        yield s['res']
        for ln in s['lines']:
            for p in ln['p']:
                yield p


def rewrite_params(c, rng):
    """Other initial values and swapped bounds of free parameters; bounds of
    fixed ones are without meaning."""
    c = copy.deepcopy(c)
    n = 0
    for p in params(c):
        if p['opt']:
            if rng.random() < 0.6:
                p['v'] = rng.choice([0, -1.5, 1e10, p['lo'], p['up'], 77.0])
                n += 1
            if rng.random() < 0.6:
                p['lo'], p['up'] = p['up'], p['lo']
                n += 1
        elif rng.random() < 0.3:
            p['lo'], p['up'] = rng.choice([(0, 0), (1, -1), (-1e3, 1e3),
                                           (p['v'], p['v']), (5, 5.5)])
            n += 1
    return c, n


def notation(tok, rng):
    """The same number in another notation."""
    try:
        x = float(tok)
    except ValueError:
        return tok
    if not tok[-1].isdigit():
        return tok
    alt = [tok, repr(x), '%.17e' % x, '%+.17e' % x, '%.17E' % x]
    if 'e' not in tok.lower():
        alt += [tok + ('0' if '.' in tok else '.0'),
                '0' + tok if tok[0].isdigit() else tok]
    alt = [a for a in alt if float(a) == x]
    return rng.choice(alt)


def rewrite_numbers(text, rng):
    """Numbers of the parameter lines and the bounds of section heads."""
    out = []
    for ln in text.split('\n'):
        p = ln.split(' ')
        if ln.startswith('{'):
            for i in (3, 4) + tuple(range(6, len(p))):
                p[i] = notation(p[i], rng)
        elif len(p) in (4, 5):
            for i in range(3):
                p[i] = notation(p[i], rng)
        out.append(' '.join(p))
    return '\n'.join(out)


@st.composite
def layouts(draw):
    static = draw(st.booleans())
    kw = dict(window=True, excl=True, maskp=True)
    if static:
        c = draw(spec.model_spec(sections=(1, 4), lines=(0, 5), nmin=14,
                                 strong=False, **kw))
        c['args'] = list(spec.STATIC)
    else:
        c = draw(fits.fit_case(maxgen=12, endings=('stop', 'stop', 'opt'),
                               sections=(1, 3), lines=(1, 4), **kw))
    c['rseed'] = draw(st.integers(0, 10 ** 6))
    c['what'] = draw(st.lists(st.sampled_from(
        ['layout', 'layout', 'bounds', 'numbers']), min_size=1, max_size=3,
        unique=True))
    return c


def ev_layout(c, ctx):
    rng = random.Random(c['rseed'])
    d = ctx.fresh()
    spec.write_data(c, d)
    a = fits.run_fit(c, ctx, d=d)
    t, n = c, 1
    if 'bounds' in c['what']:
        t, n = rewrite_params(c, rng)
    text = spec.model_text(t)
    if 'numbers' in c['what']:
        text = rewrite_numbers(text, rng)
    if 'layout' in c['what']:
        text = fits.decorate(text, rng)
    b = fits.run_fit(c, ctx, d=d, text=text)
    if a.rc not in (0, 1, 2, 16):
        need(False, 'exit status %d', a.rc)
    need(a.rc == b.rc, 'exit status %d instead of %d for another layout (%s) '
         'of the definition\n%s%s', b.rc, a.rc, c['what'], b.err, text)
    if a.rc == 16:
        return dict(nontrivial=False, classes=['status 16'])
    need(body(a.out) == body(b.out), 'another layout (%s) of the definition '
         'gives another result: %s\n%s', c['what'],
         first_difference(body(a.out), body(b.out)), text)
    return dict(nontrivial=n > 0, classes=c['what'] + ['status %d' % a.rc])


@st.composite
def names(draw):
    c = draw(fits.fit_case(maxgen=12, endings=('stop', 'stop', 'opt'),
                           sections=(1, 4), lines=(1, 4)))
    c['rseed'] = draw(st.integers(0, 10 ** 6))
    return c


def ev_names(c, ctx):
    rng = random.Random(c['rseed'])
    t = copy.deepcopy(c)
    L = [ln for s in t['sections'] for ln in s['lines']]
    new = rng.sample(POOL, len(L)) if len(L) <= len(POOL) else [
        'n%d' % i for i in rng.sample(range(999), len(L))]
    lm = {ln['id']: x for ln, x in zip(L, new)}
    sm = {s['id']: x for s, x in zip(t['sections'], rng.sample(
        POOL, len(t['sections'])))}
    for s in t['sections']:
        s['id'] = sm[s['id']]
        if s['res'].get('ref'):
            s['res']['ref'] = sm[s['res']['ref']]
    for ln in L:
        ln['id'] = lm[ln['id']]
        for p in ln['p']:
            if p.get('ref'):
                p['ref'] = lm[p['ref']]
    d = ctx.fresh()
    spec.write_data(c, d)
    a = fits.run_fit(c, ctx, d=d)
    b = fits.run_fit(c, ctx, d=d, text=spec.model_text(t))
    need(a.rc == b.rc, 'exit status %d instead of %d with other names', b.rc,
         a.rc)
    if fits.bad_end(a):
        return dict(nontrivial=False, classes=['status 16'])
    # everything but the tables is identical
    x, y = body(a.out), body(b.out)
    cut = lambda s: s.split('<body>')[0]
    need(cut(x) == cut(y), 'other names give another result: %s',
         first_difference(cut(x), cut(y)))
    p, q = spec.Result(a.out), spec.Result(b.out)
    for what, u, v, m in (('section', p.sections, q.sections, sm),
                          ('line', p.lines, q.lines, lm)):
        need({m[k]: r for k, r in u.items()} == v, 'other names give other '
             '%s rows: %r instead of %r', what, v, u)
    return dict(nontrivial=True, classes=['status %d' % a.rc])


@st.composite
def changes(draw):
    c = draw(spec.model_spec(sections=(1, 3), lines=(0, 5), nmin=14,
                             strong=False, maskp=True, excl=True))
    c['args'] = list(spec.STATIC)
    c['rseed'] = draw(st.integers(0, 10 ** 6))
    c['change'] = draw(st.sampled_from(['order', 'null', 'section', 'both',
                                        'remove', 'permute']))
    return c


def near(a, b, what, *args):
    """Data of a section, equal to rounding."""
    need(a.shape == b.shape, what + ': shape %r instead of %r', *args, b.shape,
         a.shape)
    s = np.max(np.abs(a), axis=0)
    # residuals are differences of fluxes
    s[10] = np.max((np.abs(a[:, 1]) + np.abs(a[:, FIT])) / a[:, 2])
    t = 1e-7 * s
    t[OPT] += 1e-20             # the line of no absorption
    bad = np.abs(a - b) > t[None, :]
    if bad.any():
        i, j = np.argwhere(bad)[0]
        need(False, what + ': row %d, column %d is %.9g instead of %.9g', *args,
             i + 1, j + 1, b[i, j], a[i, j])


def ev_changes(c, ctx):
    rng = random.Random(c['rseed'])
    t = copy.deepcopy(c)
    ch = c['change']
    fla = c['flavour']
    exact = ch in ('section', 'remove', 'permute')
    for s in t['sections']:
        if ch in ('order', 'both'):
            rng.shuffle(s['lines'])
        if ch in ('null', 'both') and rng.random() < 0.8:
            w = spec.grid(s['data'])
            q = [float(w[rng.randrange(len(w))]), 0.5, 0.0, 0.0, 5.0, -30.0]
            if fla in ('oregano', 'mascada'):
                q.append(1e7)
            if fla == 'azafran':
                q += [0.0, 0.0]
            s['lines'].insert(rng.randrange(len(s['lines']) + 1), dict(
                id='null' + s['id'], p=[spec.fixed(x) for x in q]))
    d = ctx.fresh()
    spec.write_data(c, d)
    if ch == 'section':
        s = copy.deepcopy(rng.choice(t['sections']))
        s['id'] = 'AA' if rng.random() < 0.5 else 'zz'
        for ln in s['lines']:
            ln['id'] = s['id'] + ln['id']
        s['res'] = spec.fixed(s['res']['v'] * 1.5)
        t['sections'].insert(rng.randrange(len(t['sections']) + 1), s)
    elif ch == 'remove' and len(t['sections']) > 1:
        t['sections'].pop(rng.randrange(len(t['sections'])))
    elif ch == 'permute':
        rng.shuffle(t['sections'])
    a = fits.run_fit(c, ctx, d=d)
    b = fits.run_fit(c, ctx, d=d, text=spec.model_text(t))
    if a.rc == 16 or b.rc == 16:
        # an undetermined continuum is one of its section
        if ch != 'remove':
            need(a.rc == b.rc, 'exit status %d instead of %d (%s)', b.rc, a.rc,
                 ch)
        return dict(nontrivial=False, classes=['status 16'])
    p, q = spec.Result(a.out), spec.Result(b.out)
    pd = {s['id']: D for s, D in zip(c['sections'], p.data)}
    qd = {s['id']: D for s, D in zip(t['sections'], q.data)}
    for k in pd:
        if k in qd:
            if exact:
                need(np.array_equal(pd[k], qd[k]), 'section %s has other data '
                     '(%s)', k, ch)
                need(p.sections[k] == q.sections[k], 'section %s: row %r '
                     'instead of %r (%s)', k, q.sections[k], p.sections[k], ch)
            else:
                near(pd[k], qd[k], 'section %s (%s)', k, ch)
                u, v = p.sections[k], q.sections[k]
                need(all(u[f] == v[f] for f in ('lo', 'up', 'npoly', 'res',
                                                'n'))
                     and abs(u['cost'] - v['cost']) <= 0.0101
                     + 1e-6 * u['cost'], 'section %s: row %r instead of %r '
                     '(%s)', k, v, u, ch)
    for k in p.lines:
        if k in q.lines:
            need(p.lines[k] == q.lines[k], 'line %s: row %r instead of %r '
                 '(%s)', k, q.lines[k], p.lines[k], ch)
        else:
            need(ch == 'remove', 'line %s is missing (%s)', k, ch)
    return dict(nontrivial=True, classes=[ch])


@st.composite
def starts(draw):
    c = draw(fits.fit_case(endings=('stop',), sections=(1, 2), lines=(1, 3),
                           free=(1, 5)))
    c['args'] = list(spec.STATIC)
    return c


DIGITS = dict(w=4, x=4, z=7)


def ev_start(c, ctx):
    """A free parameter starts at the middle of its bounds."""
    t = copy.deepcopy(c)
    n = 0
    for p in params(t):
        if p['opt'] and not p.get('ref'):
            p.update(v=0.5 * (float(p['lo']) + float(p['up'])), opt=0)
            n += 1
    d = ctx.fresh()
    spec.write_data(c, d)
    a = fits.run_fit(c, ctx, d=d)
    b = fits.run_fit(c, ctx, d=d, text=spec.model_text(t))
    need(a.rc == b.rc, 'exit status %d at the start, %d for parameters fixed '
         'in the middle of their bounds', a.rc, b.rc)
    if fits.bad_end(a):
        return dict(nontrivial=False, classes=['status 16'])
    p, q = spec.Result(a.out), spec.Result(b.out)
    # equal to rounding: the middle can be computed in several ways
    if p.datal != q.datal:
        need(len(p.data) == len(q.data), '%d sections instead of %d',
             len(p.data), len(q.data))
        if max(usable(t)) < 1e4:
            for D, E in zip(p.data, q.data):
                near(E, D, 'at the start the model is not that of the middle '
                     'of the bounds')
    for k in p.lines:
        for f in p.lines[k]:
            x, y = p.lines[k][f], q.lines[k][f]
            if not isinstance(x, tuple):
                need(abs(x - y) <= 0.00101 + 1e-5 * abs(y), 'line %s: %s = %r '
                     'instead of %r', k, f, x, y)
                continue
            need(abs(x[0] - y[0]) <= (1.01e-3 * abs(y[0]) if f == 'f' else
                                      1.01 * 10.0 ** -DIGITS.get(f, 3)),
                 'line %s: %s starts at %r instead of %r', k, f, x[0], y[0])
            need(f == 'w' or x[1] in (None, 0.0) and y[1] is None, 'line %s: '
                 'uncertainty of %s is %r at the start', k, f, x[1])
    for k in p.sections:
        need(abs(p.sections[k]['res'][0] - q.sections[k]['res'][0])
             <= 0.0101, 'section %s: '
             'resolution starts at %r instead of %r', k,
             p.sections[k]['res'][0], q.sections[k]['res'][0])
    return dict(nontrivial=n > 0)


PROP = Prop(
    'C11',
    [Sub('layout', layouts, ev_layout, 1000, 15000),
     Sub('names', names, ev_names, 300, 5000),
     Sub('changes', changes, ev_changes, 800, 12000),
     Sub('start', starts, ev_start, 400, 6000)],
    rule='Hypothesis draws models and rewritings: comments, blank lines, text '
    'outside of sections, white space, notation of numbers, swapped bounds, '
    'other initial values, other names, other line and section order, null '
    'lines, further or fewer sections, free parameters replaced by their start '
    'values. Outputs are compared byte by byte (to rounding where the order of '
    'lines changes). Non-trivial: the rewriting changes the text and the run '
    'ends with a result.',
    technique='metamorphic property-based testing of the fitting programs',
    level_note='Free runs only for rewritings that leave the course bit for '
    'bit the same; the order of lines and added lines only for fixed models.',
    setup=setup_cli)
