import os
import random
import shutil

from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub
from . import fits
from .c01 import first_difference
from .c02 import extract
from .common import need, setup_cli

FORMS = [lambda a: a, lambda a: a, lambda a: '0' + a, lambda a: '+' + a,
         lambda a: a + '.0' if a.isdigit() else a]


@st.composite
def cases(draw):
    c = draw(fits.fit_case(maxgen=12, endings=('stop', 'stop', 'stop', 'opt')))
    if c['args'][3] != '1' and draw(st.booleans()):
        c['args'][3] = draw(st.sampled_from(['5e-1', '0.50', '1E0', '1.', '.7',
                                             '+1']))
    if draw(st.booleans()):
        k = draw(st.sampled_from([0, 1, 2, 5]))
        c['args'][k] = draw(st.sampled_from(['0', '00', '+'])) + str(c['args'][k])
    c['layout'] = draw(st.integers(0, 10 ** 6))
    c['noise'] = draw(st.lists(st.text(''.join(
        chr(i) for i in range(256) if chr(i) not in '\n{}'), max_size=20),
        max_size=3))
    if draw(st.sampled_from([False] * 5 + [True])):
        c['noise'].append(draw(st.sampled_from(['%', 'x ', '% \xe9'])) * draw(
            st.sampled_from([300, 1500, 20000])))
    c['last'] = draw(st.booleans())
    return c


def text_of(c):
    """A definition with arbitrary text outside of the sections and in comments."""
    R = random.Random(c['layout'])
    t = spec.model_text(c)
    if c['layout'] % 4:
        t = fits.decorate(t, R)
    L = t.split('\n')
    for x in c['noise']:
        ok = [i for i, ln in enumerate(L) if '%' in ln]
        if ok and R.random() < 0.5:
            i = R.choice(ok)
            L[i] += x.replace('\r', ' ')
        elif R.random() < 0.5:
            L.insert(0, x)
        else:
            while L and L[-1] == '':
                L.pop()
            L.append(x)
    t = '\n'.join(ln for ln in L if ln not in ('</model>', '<model>'))
    return t.rstrip('\n') + ('\n' if c['last'] else '')


def install(ctx, d):
    """The programs beside each other, in a directory of the case."""
    b = os.path.join(d, 'bin')
    os.mkdir(b)
    for f in spec.FLAVOURS + ['ecom', 'emod', 'elog', 'edat', 'emes', 'erun']:
        os.symlink(os.path.join(ctx.built['cli'], f), os.path.join(b, f))
    return b


def first_run(c, ctx):
    d = ctx.fresh()
    b = install(ctx, d)
    spec.write_data(c, d)
    text = text_of(c)
    args = [os.path.join(b, c['flavour'])] + [str(a) for a in c['args']]
    r = spec.run(args, text, cwd=d)
    return d, b, text, args, r


def ev(c, ctx):
    d, b, text, args, r = first_run(c, ctx)
    if fits.bad_end(r):
        return dict(nontrivial=False, classes=['status 16'])
    L = r.out.split('\n')
    seen = text.split('\n')
    if seen[-1] == '':
        seen.pop()
    got = extract(L, 'command')
    need(''.join(got).split() == args, 'the command %r is recorded as %r',
         args, got)
    need(len(got) == 1, 'command of %d lines', len(got))
    model = extract(L, 'model')
    need(model == seen, 'the model definition is recorded otherwise: %s',
         first_difference('\n'.join(seen), '\n'.join(model)))
    with open(os.path.join(d, 'r.html'), 'w', encoding='latin-1', newline='') as f:
        f.write(r.out)
    # the elements as the tools give them
    for tool, name in (('ecom', 'command'), ('emod', 'model'),
                       ('elog', 'log'), ('emes', 'message'), ('edat', 'data')):
        t = spec.run([os.path.join(b, tool)], r.out)
        need(t.rc == 0 and t.out == ''.join(
            x + '\n' for x in extract(L, name)), '%s does not extract the %s',
            tool, name)
    # exactly one element of each kind
    for name in ('command', 'model', 'log', 'message', 'data'):
        for tag in ('<%s>', '</%s>'):
            n = sum(x == tag % name for x in L) - sum(x == tag % name
                                                      for x in seen)
            need(n == 1, '%d times %s', n, tag % name)
    t = spec.run(['sh', '-c', '"$0/emod" < r.html | $("$0/ecom" < r.html)', b],
                 cwd=d)
    need(t.rc == r.rc, 'repeating the run ends with status %d instead of %d',
         t.rc, r.rc)
    need(t.out == r.out, 'repeating the run gives another result: %s',
         first_difference(r.out, t.out))
    return dict(nontrivial=True, classes=['status %d' % r.rc, c['flavour']])


@st.composite
def runs(draw):
    c = draw(fits.fit_case(maxgen=8, endings=('stop',), sections=(1, 3)))
    c.update(layout=draw(st.integers(0, 10 ** 6)), noise=[], last=True)
    c['expect'] = draw(st.lists(st.sampled_from(
        ['cost', 'cost', 'cost', 'cost', 'digit', 'short', 'tail', 'per',
         'other', 'n']), max_size=4))
    c['pick'] = draw(st.integers(0, 999))
    c['names'] = draw(st.sampled_from(['plain', 'space', 'dir']))
    c['old'] = draw(st.booleans())
    return c


def ev_erun(c, ctx):
    d, b, text, args, r = first_run(c, ctx)
    if fits.bad_end(r):
        return dict(nontrivial=False, classes=['status 16'])
    res = spec.Result(r.out)
    R = random.Random(c['pick'])
    costs = ['%.2f' % s['cost'] for s in res.sections.values()]
    vals = []
    for e in c['expect']:
        v = R.choice(costs)
        if e == 'digit':
            i = R.choice([k for k, x in enumerate(v) if x.isdigit()])
            v = v[:i] + str((int(v[i]) + 1 + R.randrange(9)) % 10) + v[i + 1:]
        elif e == 'short':
            v = v[:-1]
        elif e == 'tail':
            v = v[1:] if v[1:2] != '.' else '1' + v
        elif e in ('per', 'n'):
            s = R.choice(list(res.sections.values()))
            v = '%.2f' % s['per'] if e == 'per' else str(s['n'])
        elif e == 'other':
            v = '%.2f' % (float(v) + 0.01)
        vals.append(v)
    good = all(v in costs for v in vals)
    # a dot of the pattern matches any character, but costs have one dot each
    src, dst = {'plain': ('r.html', 't.html'), 'space': ('my result.html',
                'my target.html'), 'dir': ('in/r.html', 'out/t.html')}[c['names']]
    for n in ('in', 'out'):
        os.mkdir(os.path.join(d, n))
    with open(os.path.join(d, src), 'w', encoding='latin-1', newline='') as f:
        f.write(r.out)
    if c['old']:
        with open(os.path.join(d, dst), 'w', encoding='latin-1', newline='') as f:
            f.write(r.out * 2 + ''.join('<td><strong>%s</strong></td>\n' % v
                                        for v in vals))
    t = spec.run([os.path.join(b, 'erun'), src, dst] + vals, cwd=d)
    with open(os.path.join(d, dst), encoding='latin-1', newline='') as f:
        new = f.read()
    need(new == r.out, 'erun stores another result: %s',
         first_difference(r.out, new))
    need(t.out == ''.join(x + '\n' for x in res.log), 'erun prints %r instead '
         'of the log %r', t.out[:300], res.log[:3])
    with open(os.path.join(d, src), encoding='latin-1', newline='') as f:
        need(f.read() == r.out, 'erun changed the result file')
    need((t.rc == 0) == good, 'erun ends with status %d for the values %r, the '
         'section costs are %r', t.rc, vals, costs)
    return dict(nontrivial=bool(vals), classes=['found' if good else 'missing',
                                                c['names']])


@st.composite
def failing(draw):
    c = draw(fits.fit_case(maxgen=3, endings=('stop',)))
    c.update(layout=0, noise=[], last=True)
    c['fault'] = draw(st.sampled_from(['data', 'value', 'usage', 'model']))
    c['miss'] = draw(st.sampled_from(['-1.00', '0.001', 'x', '1e3']))
    return c


def ev_failing(c, ctx):
    """A run that cannot be repeated has no expected value."""
    d, b, text, args, r = first_run(c, ctx)
    if fits.bad_end(r):
        return dict(nontrivial=False)
    out = r.out
    cost = '%.2f' % list(spec.Result(out).sections.values())[0]['cost']
    if c['fault'] == 'data':
        os.unlink(os.path.join(d, c['sections'][0]['file']))
    elif c['fault'] == 'model':
        h = '{ ' + c['sections'][0]['id']
        out = out.replace(h, h + ' x', 1)
    with open(os.path.join(d, 'r.html'), 'w', encoding='latin-1', newline='') as f:
        f.write(out)
    cmd = [os.path.join(b, 'erun'), 'r.html', 't.html',
           c['miss'] if c['fault'] == 'value' else cost]
    if c['fault'] == 'usage':
        cmd = cmd[:2]
    t = spec.run(cmd, cwd=d)
    need(t.rc != 0, 'erun succeeds although %s', dict(
        data='a data file is missing', model='the model is invalid',
        value='no section has the cost ' + c['miss'],
        usage='there is no target')[c['fault']])
    return dict(nontrivial=True, classes=[c['fault']])


PROP = Prop(
    'C03',
    [Sub('repeat', cases, ev, 700, 10000),
     Sub('erun', runs, ev_erun, 300, 5000),
     Sub('failing', failing, ev_failing, 100, 1000)],
    rule='Hypothesis draws models in arbitrary layouts (comments, blank lines, '
    'arbitrary bytes outside of the sections and in comments), data and '
    'argument lists in several notations. Command and model of the result '
    'file are compared with what was given, the elements extracted by the '
    'tools with those of the file, and the run repeated from them byte by '
    'byte; erun gets lists of present, altered and truncated section costs. '
    'Non-trivial: the run ended with status 0, 1 or 2 (erun: at least one '
    'expected value).',
    technique='property-based round-trip testing of result files',
    level_note='No line of a model equals a model tag; program path and '
    'arguments without white space, as the recovered command is split at '
    'white space by the shell.',
    setup=setup_cli)
