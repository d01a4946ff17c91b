import copy
import random
import re

from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub
from . import fits
from .c01 import first_difference
from .common import need, setup_cli

POOL = ['a', 'b', 'Z', '0', '1', '10', '2', 'H_I', 'Fe-II', 'L', 'l', 'x.y',
        'CIV_1548', '-1', '1e5', 'é'.encode('utf-8').decode('latin-1'), 'S1',
        'zz', '~', '!', '0.0', 'ab', 'abc', 'B9', '$', '_', '+', '@', ';',
        # long ones that agree in their first characters, or but for case
        'A', 'z', 'h_i', 'QuiteALongIdentifierOfAnAbsorptionLine-1',
        'QuiteALongIdentifierOfAnAbsorptionLine-2',
        'QuiteALongIdentifierOfAnAbsorption',
        'system_0001_component_01', 'system_0001_component_02',
        'system_0001_Component_01', 'M' * 70, 'M' * 69, 'M' * 69 + 'N']


def rename(c, rng):
    """Other identifiers, so that alphabetic and definition order differ."""
    L = [ln for s in c['sections'] for ln in s['lines']]
    names = rng.sample(POOL, len(L)) if len(L) <= len(POOL) else \
        ['n%d' % i for i in rng.sample(range(1000), len(L))]
    m = {ln['id']: n for ln, n in zip(L, names)}
    q = {s['id']: n for s, n in zip(c['sections'], rng.sample(
        POOL, len(c['sections'])))}
    for s in c['sections']:
        s['id'] = q[s['id']]
        if s['res'].get('ref'):
            s['res']['ref'] = q[s['res']['ref']]
        for ln in s['lines']:
            ln['id'] = m[ln['id']]
            for p in ln['p']:
                if p.get('ref'):
                    p['ref'] = m[p['ref']]
    return c


def junk(rng):
    """Values of a parameter that is a reference."""
    return dict(v=rng.choice([0.0, -1.0, 1e300, 12.5, -7e-9]),
                lo=rng.choice([0.0, 5.0, -1e9, 3.0]),
                up=rng.choice([0.0, 4.0, 1e9, 3.0]), opt=rng.choice([0, 1]))


def forest(rng, n, p, first=(), chain=0.6):
    """parent[i] of a random forest over n nodes (None: root), long chains
    included."""
    order = list(range(n))
    rng.shuffle(order)
    if first and rng.random() < 0.8:
        # a free parameter is the root others refer to
        i = order.index(rng.choice(first))
        order[0], order[i] = order[i], order[0]
    par = [None] * n
    for k in range(1, n):
        if rng.random() < p:
            par[order[k]] = order[k - 1] if rng.random() < chain else \
                rng.choice(order[:k])
    return par


def tie(c, rng, p=0.5, chain=0.6):
    """The model with references; (hops of the longest chain, references)."""
    c = copy.deepcopy(c)
    fla = c['flavour']
    L = [ln for s in c['sections'] for ln in s['lines']]
    longest = total = 0

    def apply(nodes, get, put):
        nonlocal longest, total
        par = forest(rng, len(nodes), p, [
            i for i, x in enumerate(nodes) if get(x)['opt']], chain)
        for i in range(len(nodes)):
            j, hops = i, 0
            while par[j] is not None:
                j, hops = par[j], hops + 1
            longest = max(longest, hops)
            if hops:
                total += 1
                put(nodes[i], dict(junk(rng), ref=nodes[par[i]]['id'],
                                   root=nodes[j]['id']))
    for j in range(spec.NPAR[fla]):
        if len(L) > 1 and (rng.random() < 0.6
                           or any(ln['p'][j]['opt'] for ln in L)):
            apply(L, lambda ln, j=j: ln['p'][j], lambda ln, q, j=j: ln['p'].__setitem__(j, q))
    if len(c['sections']) > 1:
        apply(c['sections'], lambda s: s['res'], lambda s, q: s.__setitem__('res', q))
    return c, longest, total


def direct(c, rng):
    """References straight to the roots, with other values of their own."""
    c = copy.deepcopy(c)
    for s in c['sections']:
        if s['res'].get('ref'):
            s['res'] = dict(junk(rng), ref=s['res']['root'])
        for ln in s['lines']:
            for j, p in enumerate(ln['p']):
                if p.get('ref'):
                    ln['p'][j] = dict(junk(rng), ref=p['root'])
    return c


def flat(c):
    """References replaced by the fixed specification they refer to."""
    c = copy.deepcopy(c)
    L = {ln['id']: ln['p'] for s in c['sections'] for ln in s['lines']}
    S = {s['id']: s for s in c['sections']}
    for s in c['sections']:
        if s['res'].get('ref'):
            q = S[s['res']['root']]['res']
            if not q['opt']:
                s['res'] = dict(q)
        for ln in s['lines']:
            for j, p in enumerate(ln['p']):
                if p.get('ref'):
                    q = L[p['root']][j]
                    if not q['opt']:
                        ln['p'][j] = dict(q)
    return c


def body(out):
    a, b = out.split('<model>\n', 1)
    return a + b.split('</model>\n', 1)[1]


def compare(ctx, a, c, args, what):
    text = spec.model_text(c)
    b = spec.fit(ctx, c['flavour'], text, ctx.scratch(), args)
    need(a.rc == b.rc, '%s: exit status %d instead of %d\n%s%s', what, b.rc,
         a.rc, b.err, text)
    if a.rc != 16:
        x, y = body(a.out), body(b.out)
        need(x == y, '%s: %s', what, first_difference(x, y))


@st.composite
def statics(draw):
    c = draw(spec.model_spec(sections=(1, 4), lines=(0, 5), nmin=16, nmax=40,
                             strong=False, npoly=(0, 2)))
    c['args'] = list(spec.STATIC)
    c['rseed'] = draw(st.integers(0, 10 ** 6))
    c['p'] = draw(st.sampled_from([0.3, 0.7, 1.0]))
    return c


@st.composite
def chains(draw):
    """Many lines and sections, tied in long chains."""
    c = draw(spec.model_spec(sections=(1, 2), lines=(1, 3), nmin=16, nmax=30,
                             strong=False, npoly=(0, 1)))
    c['args'] = list(spec.STATIC)
    c['rseed'] = draw(st.integers(0, 10 ** 6))
    c['p'], c['chain'] = 1.0, draw(st.sampled_from([0.95, 1.0]))
    c['lines'] = draw(st.integers(8, 40))
    c['more'] = draw(st.sampled_from([0, 3, 10, 25]))
    return c


def expanded(c):
    """The model of such a case."""
    rng = random.Random(c['rseed'] + 1)
    c = copy.deepcopy(c)
    S = c['sections']
    for k in range(c['more']):
        S.append(dict(copy.deepcopy(S[0]), id='more%d' % k, lines=[]))
        S[-1]['res'] = dict(S[-1]['res'], v=rng.uniform(1, 1.5) * S[0]['res']['v'])
    L = [ln for s in S for ln in s['lines']]
    for k in range(c['lines']):
        q = copy.deepcopy(rng.choice(L))
        q['id'] = 'line%d' % k
        for p in q['p']:
            p['v'] *= rng.choice([1.0, 0.999, 1.001])
        s = rng.choice(S)
        s['lines'].insert(rng.randint(0, len(s['lines'])), q)
    return c


def ev_chains(c, ctx):
    return ev(expanded(c), ctx)


@st.composite
def fitted(draw):
    c = draw(fits.fit_case(maxgen=25, sections=(1, 3), lines=(1, 4),
                           ties=False, free=(1, 5),
                           endings=('stop', 'stop', 'opt')))
    c['rseed'] = draw(st.integers(0, 10 ** 6))
    c['p'] = draw(st.sampled_from([0.3, 0.7, 1.0]))
    return c


CELL = {0: 'x', 1: 'f', 2: 'z', 3: 'v', 4: 'b', 5: 'N', 7: 'da'}


def ev(c, ctx):
    rng = random.Random(c['rseed'])
    base = rename(copy.deepcopy(c), rng)
    t, hops, total = tie(base, rng, c['p'], c.get('chain', 0.6))
    free = [1 for s in t['sections'] for p in [s['res']] + [
        p for ln in s['lines'] for p in ln['p']]
        if p['opt'] and not p.get('ref')]
    static = c['args'] == spec.STATIC
    if not free and not static:
        c = dict(c, args=list(spec.STATIC))
        static = True
    d = ctx.fresh()
    spec.write_data(t, d)
    a = spec.fit(ctx, t['flavour'], spec.model_text(t), d, c['args'])
    if a.rc not in (0, 1, 2, 16):
        need(False, 'exit status %d: %s', a.rc, a.err[-300:])
    compare(ctx, a, direct(t, rng), c['args'], 'references straight to the '
            'roots')
    compare(ctx, a, flat(t), c['args'], 'references replaced by the '
            'specification they refer to')
    if a.rc == 16:
        return dict(nontrivial=False, classes=['status 16'])
    res = spec.Result(a.out)
    n = 0
    for s in t['sections']:
        if s['res'].get('ref'):
            x, y = res.sections[s['id']]['res'], \
                res.sections[s['res']['root']]['res']
            need(x == y, 'resolution %r of section %s which refers to %s with '
                 '%r', x, s['id'], s['res']['root'], y)
            n += x[1] is not None
        for ln in s['lines']:
            for j, p in enumerate(ln['p']):
                if p.get('ref') and j in CELL and (
                        j != 7 or t['flavour'] == 'azafran'):
                    x = res.lines[ln['id']][CELL[j]]
                    y = res.lines[p['root']][CELL[j]]
                    need(x == y, 'parameter %s of line %s is %r, that of %s, '
                         'which it refers to, %r', CELL[j], ln['id'], x,
                         p['root'], y)
                    n += x[1] is not None
    return dict(nontrivial=total > 0, classes=[
        'hops %d' % min(hops, 5) if hops < 10 else 'hops %d0' % (hops // 10), 'free ties' if n else 'fixed ties',
        'status %d' % a.rc])


@st.composite
def copies(draw):
    """Each line is split in copies tied to it."""
    c = draw(fits.fit_case(maxgen=25, sections=(1, 2), lines=(1, 2),
                           ties=False, free=(1, 4),
                           endings=('stop', 'stop', 'opt')))
    c['rseed'] = draw(st.integers(0, 10 ** 6))
    c['power'] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return c


def ev_copies(c, ctx):
    """2^k tied copies with the 2^k-th part of the oscillator strength are one
    line: the same search, in the same number of dimensions."""
    rng = random.Random(c['rseed'])
    a_spec = rename(copy.deepcopy(c), rng)
    t = copy.deepcopy(a_spec)
    k = 2 ** c['power']
    s = rng.choice([s for s in t['sections'] if s['lines']])
    ln = rng.choice(s['lines'])
    ln['p'][1] = spec.fixed(ln['p'][1]['v'] / k)
    i = s['lines'].index(ln)
    new = []
    for m in range(k - 1):
        prev = rng.choice([ln] + new)['id']
        new.append(dict(id='copy%d' % m, p=[
            dict(junk(rng), ref=prev) for _ in ln['p']]))
    # forward and backward references
    at = rng.randrange(k)
    s['lines'][i:i + 1] = new[:at] + [ln] + new[at:]
    d = ctx.fresh()
    spec.write_data(t, d)
    a = spec.fit(ctx, t['flavour'], spec.model_text(a_spec), d, c['args'])
    b = spec.fit(ctx, t['flavour'], spec.model_text(t), d, c['args'])
    # the sum of two halves is exact
    exact = k == 2 == len(s['lines'])
    need(a.rc == b.rc or not exact, 'exit status %d for %d tied '
         'copies of a line, %d for one line', b.rc, k, a.rc)
    if a.rc == 16 or b.rc == 16:
        return dict(nontrivial=False, classes=['status 16'])
    p, q = spec.Result(a.out), spec.Result(b.out)
    if not exact:
        # optical depths are added in another order: equal to rounding
        for u, v in zip(p.logrows[:3], q.logrows[:3]):
            need(all(abs(x - y) <= 1e-3 * abs(x) for x, y in zip(u, v)),
                 'the log of %d tied copies has %r, that of one line %r', k, v,
                 u)
        return dict(nontrivial=True, classes=['sum of several'])
    need(p.log == q.log, 'the search with %d tied copies of a line differs '
         'from that with one line: %s', k,
         first_difference('\n'.join(p.log), '\n'.join(q.log)))
    need(p.sections == q.sections, 'sections %r for %d tied copies, %r for one '
         'line', q.sections, k, p.sections)
    for x in p.lines:
        for key in ('w', 'x', 'z', 'v', 'b', 'N'):
            need(p.lines[x][key] == q.lines[x][key], 'line %s: %s = %r for '
                 'tied copies, %r for one line', x, key, q.lines[x][key],
                 p.lines[x][key])
    return dict(nontrivial=True, classes=['one line', 'status %d' % a.rc])


@st.composite
def bad(draw):
    c = draw(spec.model_spec(sections=(1, 3), lines=(1, 5), nmin=12, nmax=20,
                             strong=False, npoly=(0, 1)))
    c['args'] = list(spec.STATIC)
    c['rseed'] = draw(st.integers(0, 10 ** 6))
    c['p'] = draw(st.sampled_from([0.3, 0.7, 1.0]))
    c['fault'] = draw(st.sampled_from(['dangling', 'self', 'cycle', 'kind']))
    c['where'] = draw(st.sampled_from(['line', 'line', 'section']))
    return c


def ev_bad(c, ctx):
    rng = random.Random(c['rseed'])
    t, _, _ = tie(rename(copy.deepcopy(c), rng), rng, c['p'])
    L = [ln for s in t['sections'] for ln in s['lines']]
    fault = c['fault']
    if c['where'] == 'line':
        nodes = L
        j = rng.randrange(spec.NPAR[t['flavour']])
        get = lambda x: x['p'][j]
        put = lambda x, q: x['p'].__setitem__(j, q)
        other = [s['id'] for s in t['sections']]
    else:
        nodes = t['sections']
        get = lambda x: x['res']
        put = lambda x, q: x.__setitem__('res', q)
        other = [ln['id'] for ln in L]
    ids = [x['id'] for x in nodes]
    x = rng.choice(nodes)
    if fault == 'kind':
        name = rng.choice(other)
        if name in ids:
            fault = 'dangling'
    if fault == 'dangling':
        name = rng.choice([ids[0] + 'x', 'nobody', ids[0] * 2, ids[-1][:-1]
                           or 'q'])
        while name in ids:
            name += '_'
    if fault in ('dangling', 'kind'):
        put(x, dict(get(x), ref=name))
    elif fault == 'self':
        put(x, dict(get(x), ref=x['id']))
    else:
        m = rng.randint(1, len(nodes))
        cyc = rng.sample(nodes, m)
        for a, b in zip(cyc, cyc[1:] + cyc[:1]):
            put(a, dict(get(a), ref=b['id']))
        # others may lead into the cycle
        for y in nodes:
            if y not in cyc and rng.random() < 0.5:
                put(y, dict(get(y), ref=rng.choice(cyc)['id']))
    d = ctx.fresh()
    spec.write_data(t, d)
    a = spec.fit(ctx, t['flavour'], spec.model_text(t), d, c['args'],
                 timeout=20)
    need(a.rc == 16, 'exit status %d for a %s reference\n%s', a.rc, fault,
         spec.model_text(t))
    need(a.err.strip(), 'no message for a %s reference', fault)
    if fault in ('dangling', 'kind'):
        need(named(name, a.err), 'the message does not name the '
             'reference %s: %s', name, a.err)
    else:
        need(any(named(i, a.err) for i in ids), 'the message names no '
             'reference of the cycle: %s', a.err)
    need('<message>' not in a.out and '<data>' not in a.out, 'a result for a '
         'model with a %s reference', fault)
    return dict(nontrivial=True, classes=[fault, c['where']])


def named(name, text):
    return re.search(r'(?<!\w)%s(?!\w)' % re.escape(name), text)


PROP = Prop(
    'C10',
    [Sub('static', statics, ev, 500, 8000),
     Sub('fits', fitted, ev, 400, 6000),
     Sub('chains', chains, ev_chains, 120, 2000),
     Sub('copies', copies, ev_copies, 300, 5000),
     Sub('bad', bad, ev_bad, 800, 10000)],
    rule='Hypothesis draws models and random reference forests over lines (per '
    'parameter) and sections: chains, trees, forward, backward, across '
    'sections, with identifiers whose order differs from the definition order '
    'and arbitrary own values of referring parameters. Results are compared '
    'byte by byte with models that refer straight to the roots, or repeat the '
    'fixed specification; lines split in tied copies must take the course of '
    'the single line; erroneous graphs must give status 16. Non-trivial: at '
    'least one reference.',
    technique='metamorphic property-based testing of the fitting programs over '
    'generated reference graphs',
    level_note='Graphs of up to twelve lines and four sections.',
    setup=setup_cli)
