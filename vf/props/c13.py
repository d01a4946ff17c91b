import copy
import math
import os
import random
import re
import resource
import sys

from hypothesis import strategies as st

from .. import build, spec, tables
from ..core import Prop, Sub, Violation
from . import fits
from .common import need

DOCUMENTED = (0, 1, 2, 8, 16, 64)
REPORT = re.compile(r'Sanitizer|runtime error:|Assertion')
NUM = re.compile(r'\s*([+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?))')


def setup(tier):
    out = {'cli': build.cli(), 'cliasan': build.cli('cliasan'), 'fuzz': None}
    try:
        out['fuzz'] = build.fuzzer('fuzz')
    except build.BuildError as e:
        # the interface of the library is another one: programs only
        sys.stderr.write('[build] without coverage-guided search: %s\n' % e)
    return out


ENV = dict(os.environ, ASAN_OPTIONS='exitcode=77:detect_leaks=0',
           UBSAN_OPTIONS='exitcode=77:print_stacktrace=1')


def go(ctx, exe, args, stdin='', cwd=None, kind='cliasan', timeout=60):
    """One run of a program. The instrumented program reports memory errors,
    the plain one runs with 1 GB of memory."""
    pre = None
    if kind == 'cli':
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    r = spec.run([os.path.join(ctx.built[kind], exe)] + [str(a) for a in args],
                 stdin, cwd=cwd, env=ENV, pre=pre, timeout=timeout)
    m = REPORT.search(r.err)
    if m and not ('AddressSanitizer' in r.err and (
            'out-of-memory' in r.err or 'allocation-size-too-big' in r.err)):
        need(False, '%s %s: %s', exe, args, r.err[max(0, m.start() - 200):][
            :1500])
    if m:
        r.rc = 64
        return r
    need(r.rc in DOCUMENTED, '%s %s: exit status %d%s', exe, args, r.rc,
         ' (signal)' if r.rc < 0 else '')
    if r.rc in (8, 16, 64):
        need(r.err.strip(), '%s %s: no message with exit status %d', exe, args,
             r.rc)
    return r


# -------------------------------------------------------------- text mutations
JUNK = ['abc', '-', '0', '-1', '1', '2', '0.5', '1e400', 'nan', 'inf', '-inf',
        '1e300', '-1e300', '1e-300', '{', '}', '%', '\x00', '\xff\xfe', '1,5',
        '0x10', '+', '.', 'e', '4294967296', '-4294967295', '3 4', '', '\t',
        'S1', 'L1', 'L2', 'd1.dat', '9' * 60, '-0', '1e', '}{', '{{', '}}',
        '12abc', '%}', 'd1.dat 0', '"', '..', '.', '/', '/dev/null']
# values for the head of a section and its resolution: within reason
MILD = ['abc', '-', '0', '-1', '1', '2', '30', 'nan', 'inf', '-inf', '1e400',
        '{', '}', '%', '', '1,5', '+', '.', '-5', '0.5', 'S1', '12abc', '1e',
        '\x00', '-0', '/dev/null', '.', 'd1.dat']


def mutate(text, rng, k, mild=False):
    """A random structural mutation of a text; repeated k times."""
    for _ in range(k):
        L = text.split('\n')
        i = rng.randrange(len(L))
        what = rng.randrange(10)
        if what <= 3:
            # tokens of a line
            T = L[i].split(' ')
            j = rng.randrange(len(T))
            pool = MILD if mild or L[i].startswith('{') or (
                i and L[i - 1].startswith('{')) else JUNK
            if what == 0:
                del T[j]
            elif what == 1:
                T.insert(j, rng.choice(pool))
            elif what == 2:
                T[j] = rng.choice(pool)
            else:
                m = rng.randrange(len(T))
                T[j], T[m] = T[m], T[j]
            L[i] = ' '.join(T)
        elif what == 4:
            del L[i]
        elif what == 5:
            L.insert(i, rng.choice(L))
        elif what == 6:
            j = rng.randrange(len(L))
            L[i], L[j] = L[j], L[i]
        elif what == 7:
            # lines joined
            if i + 1 < len(L):
                L[i:i + 2] = [L[i] + rng.choice(['', ' ']) + L[i + 1]]
        elif what == 8:
            L = L[:i + 1]
            L[-1] = L[-1][:rng.randrange(len(L[-1]) + 1)]
        else:
            s = L[i]
            j = rng.randrange(len(s) + 1)
            c = rng.choice(['\x00', '\xff', ' ', '\t', '\r', '{', '}', '%',
                            '.', '-', 'e', '7', 'x', '\x1a', '\v'])
            L[i] = s[:j] + c + s[j + rng.randrange(2):]
        text = '\n'.join(L)
    return text


def prefix_number(tok):
    m = NUM.match(tok)
    try:
        return float(m.group(1)) if m else None
    except ValueError:
        return None


def heavy(text):
    """Whether a model may ask for more resolving power, smoothing or
    polynomials than is practicable: lines after a section head."""
    L = []
    for ln in text.split('\n'):
        ln = ln.split('%')[0]
        if ln.strip():
            L.append(ln)
    for sec in '\n'.join(L).split('}'):
        if '{' not in sec:
            continue
        body = sec[sec.index('{') + 1:]
        toks = body.split()
        head = body.split('\n')
        near = toks[:14] + (head[1].split() if len(head) > 1 else [])
        if len(toks) > 4:
            p = prefix_number(toks[4])
            if p is not None and not 0 <= p <= 60:
                return True
        for t in near[2:]:
            v = prefix_number(t)
            if v is not None and v > 0 and not 0.2 <= v <= 2e5:
                return True
    return False


@st.composite
def models(draw):
    c = draw(fits.fit_case(endings=('stop',), maxgen=3, parents=(2, 3),
                           sections=(1, 3), lines=(0, 3), free=(1, 3)))
    if draw(st.booleans()):
        c['args'] = list(spec.STATIC)
    c['rseed'] = draw(st.integers(0, 10 ** 9))
    c['k'] = draw(st.integers(1, 3))
    c['decorate'] = draw(st.booleans())
    return c


def valid_sections(text):
    return text.count('{'), text.count('}')


def ev_models(c, ctx):
    rng = random.Random(c['rseed'])
    d = ctx.fresh()
    spec.write_data(c, d)
    text = spec.model_text(c)
    if c['decorate']:
        text = fits.decorate(text, rng)
    new = mutate(text, rng, c['k'])
    if heavy(new):
        return dict(nontrivial=False, classes=['impracticable'])
    r = go(ctx, c['flavour'], c['args'], new, cwd=d)
    need(r.rc in (0, 1, 2, 16, 64), 'exit status %d for a mutated model', r.rc)
    if r.rc >= 16:
        need('<message>' not in r.out and '<data>' not in r.out,
             'a result although the exit status is %d', r.rc)
    else:
        need('<message>' in r.out and r.out.rstrip().endswith('</html>'),
             'no complete result with exit status %d', r.rc)
    return dict(nontrivial=new != text, classes=['status %d' % r.rc])


# ------------------------------------------------------------ certain failures
WRONG = ['no section', 'empty', 'comments only', 'unterminated', 'unopened',
         'missing value', 'text value', 'text head', 'short head',
         'missing file', 'directory', 'empty file', 'comment file',
         'leading blank', 'duplicate line', 'duplicate section',
         'window', 'equal bounds', 'zero resolution', 'negative resolution',
         'descending', 'all masked', 'text data', 'short data row',
         'excluded', 'nested', 'flag', 'binary', 'half interval',
         'text interval']


@st.composite
def wrong(draw):
    c = draw(spec.model_spec(sections=(1, 3), lines=(1, 3), nmin=12, nmax=30,
                             strong=False, npoly=(0, 2)))
    c['fault'] = draw(st.sampled_from(WRONG))
    c['rseed'] = draw(st.integers(0, 10 ** 9))
    c['args'] = list(spec.STATIC) if draw(st.booleans()) else [
        draw(st.integers(0, 99)), 3, 6, 1, '1e-4', draw(st.integers(0, 20)), 1]
    return c


def ev_wrong(c, ctx):
    c = copy.deepcopy(c)
    rng = random.Random(c['rseed'])
    f = c['fault']
    S = rng.choice(c['sections'])
    ln = rng.choice(S['lines'])
    d = ctx.fresh()
    if f == 'equal bounds':
        j = rng.randrange(spec.NPAR[c['flavour']])
        x = rng.choice([ln['p'][j]['v'], 1.0, 0.0, -2.5e-3])
        ln['p'][j] = spec.free(x, x)
    elif f == 'zero resolution':
        S['res'] = spec.fixed(0.0)
    elif f == 'negative resolution':
        S['res'] = spec.fixed(-S['res']['v'])
    elif f == 'duplicate line':
        o = rng.choice([x for s in c['sections'] for x in s['lines']])
        S['lines'].insert(rng.randrange(len(S['lines']) + 1),
                          copy.deepcopy(o))
    elif f == 'duplicate section':
        o = copy.deepcopy(S)
        for x in o['lines']:
            x['id'] += '_'
        c['sections'].insert(rng.randrange(len(c['sections']) + 1), o)
    elif f == 'all masked':
        S['npoly'] = max(1, S['npoly'])
        S['data'].update(maskp=1.1)
    elif f == 'excluded':
        S['npoly'] = max(1, S['npoly'])
        S['excl'] = [[0, 99999]]
    elif f == 'window':
        w = spec.grid(S['data'])
        S['a'], S['b'] = rng.choice([
            (float(w[-1]) + 1, 99999.0), (0.0, float(w[0]) - 1),
            (float(w[-1]), float(w[0]))])
    spec.write_data(c, d)
    text = spec.model_text(c)
    path = os.path.join(d, S['file'])
    L = text.split('\n')
    heads = [i for i, x in enumerate(L) if x.startswith('{')]
    vals = [i for i, x in enumerate(L) if len(x.split()) == 4
            and not x.startswith('{')]
    if f == 'no section':
        L = [rng.choice(fits.OUTSIDE) for _ in range(rng.randrange(5))]
    elif f == 'empty':
        L = ['']
    elif f == 'comments only':
        L = ['%' + x for x in L]
    elif f == 'unterminated':
        i = max(i for i, x in enumerate(L) if x.startswith('}'))
        del L[i]
    elif f == 'unopened':
        i = rng.choice(heads)
        L[i] = L[i][1:]
    elif f == 'nested':
        i = rng.choice(heads)
        L[i] = L[i][1:]
        i = rng.choice([i for i, x in enumerate(L) if x.startswith('}')])
        L.insert(i, '}')
        L = L[:1] + L[1:]
    elif f == 'missing value':
        i = rng.choice(vals)
        T = L[i].split()
        T = T[:rng.randrange(len(T))]
        # blank lines are skipped: keep something there
        L[i] = ' '.join(T) or 'x'
    elif f == 'text value':
        i = rng.choice(vals)
        T = L[i].split()
        T[rng.randrange(4)] = rng.choice(['abc', 'nan', 'inf', '-', '--1',
                                          '1e400', '.', '{'])
        L[i] = ' '.join(T)
    elif f == 'flag':
        i = rng.choice(vals)
        T = L[i].split()
        T[3] = rng.choice(['2', '-1', 'true', 'x', '10'])
        L[i] = ' '.join(T)
    elif f == 'text head':
        i = rng.choice(heads)
        T = L[i].split()
        T[rng.randrange(3, 6)] = rng.choice(['abc', 'nan', 'x1', '-', '.'])
        L[i] = ' '.join(T)
    elif f == 'short head':
        i = rng.choice(heads)
        T = L[i].split()
        # the resolution line must not complete the head
        T = T[:rng.randrange(2, len(T) - 2)] if len(T) > 5 else T[:2]
        L[i] = ' '.join(T[:rng.choice([2, 3])])
        L[i + 1:] = ['}']
    elif f in ('half interval', 'text interval'):
        i = rng.choice(heads)
        T = L[i].split('%')[0].split()[:6]
        for _ in range(rng.randrange(3)):
            T += ['1000', '1000.5']
        if f == 'half interval':
            T.append('1001')
        else:
            T += rng.choice([['1001', 'x'], ['x', '1001'], ['1001,5', '1002'],
                             ['1001', '1002', '-'], ['nan', '1'],
                             ['1', '1e400'], ['-'], ['(']])
        L[i] = ' '.join(T)
    elif f == 'missing file':
        os.unlink(path)
    elif f == 'directory':
        os.unlink(path)
        os.mkdir(path)
    elif f == 'binary':
        with open(path, 'wb') as fd:
            fd.write(bytes(rng.randrange(128, 256) for _ in range(200)))
    elif f in ('empty file', 'comment file', 'leading blank', 'descending',
               'text data', 'short data row'):
        with open(path) as fd:
            D = fd.read().split('\n')[:-1]
        if f == 'empty file':
            D = []
        elif f == 'comment file':
            D = [rng.choice('#%!') + x for x in D]
        elif f == 'leading blank':
            D.insert(0, '')
        elif f == 'descending':
            D.reverse()
        elif f == 'text data':
            i = rng.randrange(len(D))
            T = D[i].split()
            T[rng.randrange(2)] = rng.choice(['abc', 'nan', '-', '1e400', 'x1'])
            D[i] = ' '.join(T)
        else:
            i = rng.randrange(len(D))
            D[i] = D[i].split()[0]
        with open(path, 'w') as fd:
            fd.write(''.join(x + '\n' for x in D))
    text = '\n'.join(L)
    r = go(ctx, c['flavour'], c['args'], text, cwd=d,
           kind=rng.choice(['cli', 'cliasan']))
    if f == 'equal bounds':
        # nothing to search: must end, in whatever documented way
        return dict(nontrivial=True, classes=[f, 'status %d' % r.rc])
    need(r.rc == 16, 'exit status %d for erroneous input (%s)\n%s', r.rc, f,
         text)
    name = {'missing file': S['file'], 'duplicate line': ln['id'],
            'duplicate section': S['id']}.get(f)
    if f == 'duplicate line':
        # which line was repeated: any identifier that occurs twice
        ids = [x['id'] for s in c['sections'] for x in s['lines']]
        need(any(ids.count(i) > 1 and re.search(r'(^|\W)%s(\W|$)' % re.escape(
            i), r.err) for i in ids), 'the message does not name the duplicate '
            'line: %s', r.err)
    elif name:
        need(name in r.err, 'the message for a %s does not name %s: %s', f,
             name, r.err)
    need('<message>' not in r.out and '<data>' not in r.out,
         'a result for erroneous input (%s)', f)
    return dict(nontrivial=True, classes=[f])


# ------------------------------------------------------------------- arguments
COUNT = {f: (7,) for f in build.FLAVOURS}
COUNT.update(ezip=(2, 3), airtovac=(0, 1), vactoair=(0, 1), helicorr=(1, 2))
ARG = ['abc', '', '-', 'x1', 'nan', 'inf', '--help', '-h', '%', '{',
       ' ', 'e5', '.', '+', '-e']
STEPS = ['0', '-1', '1e-300', '1e300', '1e-30', '1e30', '0.5', '1', '1e5']


@st.composite
def args(draw):
    c = draw(fits.fit_case(endings=('stop', 'opt'), maxgen=15, parents=(2, 5),
                           sections=(1, 1), lines=(1, 2), free=(1, 2)))
    c['kind'] = draw(st.sampled_from(['count', 'text', 'text', 'parents',
                                      'odd', 'odd', 'util count', 'util text',
                                      'usage', 'velocity']))
    c['rseed'] = draw(st.integers(0, 10 ** 9))
    c['stdin'] = draw(st.sampled_from(['model', 'model', 'empty', 'junk']))
    return c


def ev_args(c, ctx):
    rng = random.Random(c['rseed'])
    d = ctx.fresh()
    spec.write_data(c, d)
    stdin = {'model': spec.model_text(c), 'empty': '',
             'junk': 'abc\n\x00{'}[c['stdin']]
    a = [str(x) for x in c['args']]
    exe, kind, want = c['flavour'], c['kind'], None
    if kind == 'count':
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 12])
        a = (a + a)[:n]
        want = 8
    elif kind == 'text':
        a[rng.randrange(7)] = rng.choice(ARG)
        want = 8
    elif kind == 'parents':
        mu = rng.choice([0, 1, 2, 5, 9])
        pop = rng.choice([0, mu, max(0, mu - 1), mu // 2])
        a[1], a[2] = str(mu), str(pop)
        want = 8
    elif kind == 'odd':
        a[5] = str(rng.randrange(4))
        for _ in range(rng.randint(1, 2)):
            k = rng.choice([0, 1, 3, 4, 4, 5, 6])
            a[k] = {0: rng.choice(['-1', str(2 ** 64 - 1), '0', '1.5']),
                    1: str(rng.choice([1, 2, int(a[2]) - 1])),
                    3: rng.choice(STEPS), 4: rng.choice(STEPS),
                    5: '0', 6: rng.choice(['0', '4294967295', '1', '-1'])}[k]
    elif kind == 'usage':
        exe = rng.choice(build.FLAVOURS + ['ezip', 'helicorr'])
        a = []
        want = 0
    else:
        exe = rng.choice(['ezip', 'airtovac', 'vactoair', 'helicorr'])
        with open(os.path.join(d, 'a'), 'w') as f:
            f.write('5000 1 1\n5001 2 1\n')
        stdin = '5000 1 1\n5001 2 1\n'
        if kind == 'velocity':
            exe = 'helicorr'
            a = [rng.choice(['299792458', '-299792458', '3e8', '-1e9', '1e300',
                             '-1e300'])]
            want = 8
        elif kind == 'util count':
            n = rng.choice([i for i in range(1, 7) if i not in COUNT[exe]])
            a = ['a', 'a', '0', '0', '0', '0'][:n] if exe == 'ezip' else \
                ['0'] * n
            want = 8
        else:
            a = {'ezip': ['a', 'a', '0'], 'airtovac': ['0'], 'vactoair': ['0'],
                 'helicorr': ['1', '0']}[exe]
            i = 2 if exe == 'ezip' else rng.randrange(len(a))
            a[i] = rng.choice(ARG)
            want = 8
    r = go(ctx, exe, a, stdin, cwd=d, kind=rng.choice(['cli', 'cliasan']))
    if want is not None:
        need(r.rc == want, '%s %s: exit status %d instead of %d', exe, a, r.rc,
             want)
    if kind == 'usage':
        need('usage' in (r.out + r.err).lower(), '%s without arguments prints '
             'no usage message', exe)
    if kind == 'velocity':
        need(r.rc != 0 or 'nan' not in r.out.lower(), 'helicorr %s: NaN', a)
    if r.rc in (8, 16):
        need('<message>' not in r.out and '<data>' not in r.out,
             'a result although the exit status is %d', r.rc)
    return dict(nontrivial=True, classes=[kind, 'status %d' % r.rc])


# ------------------------------------------------------------------ data files
DJUNK = ['abc', '-', '0', '-1', '1', '1e400', 'nan', 'inf', '-inf', '1e300',
         '-1e300', '1e-300', '%', '#', '!', '\x00', '\xff', '', '\t', '1e-5',
         '12abc', '0x1', '+', '.', '1,5', '4294967296', '2', '-0.0']


@st.composite
def data(draw):
    c = draw(fits.fit_case(endings=('stop',), maxgen=3, parents=(2, 3),
                           sections=(1, 2), lines=(0, 2), free=(1, 2),
                           nmin=3, nmax=25, npoly=(0, 3)))
    if draw(st.booleans()):
        c['args'] = list(spec.STATIC)
    for s in c['sections']:
        s['cols'] = draw(st.sampled_from([2, 3, 4, 4, 4]))
    c['rseed'] = draw(st.integers(0, 10 ** 9))
    c['k'] = draw(st.integers(1, 4))
    return c


def practicable(text, s):
    """Whether resolution and sampling of a data file go together."""
    w = []
    for ln in text.split('\n'):
        if not ln:
            break
        v = prefix_number(ln)
        if v is not None and s['a'] <= v <= s['b']:
            w.append(v)
    if len(w) < 3:
        return True
    d = abs(w[-1] - w[0]) / (len(w) - 1)
    rs = [s['res'][k] for k in ('v', 'lo', 'up') if s['res'][k] > 0]
    for r in rs:
        h = abs(0.25 * (w[0] + w[-1]) / (1000 * r))
        if h > 0 and d > 0 and not 1e-4 < d / h < 2e3:
            return False
    return True


def mutate_data(text, rng, k):
    for _ in range(k):
        L = text.split('\n')
        i = rng.randrange(len(L))
        what = rng.randrange(9)
        if what <= 2:
            T = L[i].split(' ')
            j = rng.randrange(len(T))
            if what == 0:
                del T[j]
            elif what == 1:
                T[j] = rng.choice(DJUNK)
            else:
                T.insert(j, rng.choice(DJUNK))
            L[i] = ' '.join(T)
        elif what == 3:
            del L[i]
        elif what == 4:
            L.insert(i, rng.choice(L))
        elif what == 5:
            j = rng.randrange(len(L))
            L[i], L[j] = L[j], L[i]
        elif what == 6:
            L.insert(i, rng.choice(['', '# c', '%', '!', ' ', '1 2 3 4 5 6']))
        elif what == 7:
            L = L[:i + 1]
            L[-1] = L[-1][:rng.randrange(len(L[-1]) + 1)]
        else:
            # one column of all rows
            j = rng.randrange(4)
            x = rng.choice(['0', '-1', '1', '1e300', '1e-300', '5000'])
            L = [' '.join(T[:j] + [x] + T[j + 1:]) if len(T) > j else ' '
                 .join(T) for T in (q.split(' ') for q in L)]
        text = '\n'.join(L)
    return text


def ev_data(c, ctx):
    rng = random.Random(c['rseed'])
    d = ctx.fresh()
    spec.write_data(c, d)
    s = rng.choice(c['sections'])
    path = os.path.join(d, s['file'])
    with open(path) as f:
        text = f.read()
    new = mutate_data(text, rng, c['k'])
    if not practicable(new, s):
        return dict(nontrivial=False, classes=['impracticable'])
    with open(path, 'w', encoding='latin-1') as f:
        f.write(new)
    r = go(ctx, c['flavour'], c['args'], spec.model_text(c), cwd=d)
    need(r.rc in (0, 1, 2, 16, 64), 'exit status %d for mutated data', r.rc)
    if r.rc >= 16:
        need('<message>' not in r.out and '<data>' not in r.out,
             'a result although the exit status is %d', r.rc)
    return dict(nontrivial=new != text, classes=['status %d' % r.rc])


# ------------------------------------------------------------------ utilities
@st.composite
def utils(draw):
    return dict(tool=draw(st.sampled_from(build.UTILS + ['ezip'])),
                t=draw(tables.table(wmin=10.0, wmax=1e5)),
                rseed=draw(st.integers(0, 10 ** 9)), k=draw(st.integers(0, 4)),
                v=draw(st.sampled_from(['0', '1e4', '-3e7', '2.9e8', '1e-300'])),
                skip=draw(st.sampled_from(['', '0', '1', '5', '1000', '-1',
                                           '4294967295'])))


def ev_utils(c, ctx):
    rng = random.Random(c['rseed'])
    d = ctx.fresh()
    text = tables.text(c['t'])
    new = mutate_data(text, rng, c['k'])
    exe = c['tool']
    a = [c['v']] if exe == 'helicorr' else []
    if exe == 'ezip':
        for i, x in enumerate([new, text]):
            with open(os.path.join(d, 'f%d' % i), 'w', encoding='latin-1') as f:
                f.write(x)
        a = ['f0', 'f1']
        if rng.random() < 0.5:
            a.reverse()
    if c['skip']:
        a.append(c['skip'])
    r = go(ctx, exe, a, new, cwd=d, kind=rng.choice(['cliasan', 'cli']))
    need(r.rc in (0, 16), '%s: exit status %d', exe, r.rc)
    if r.rc == 16:
        need(r.out == '', '%s: output with exit status 16', exe)
    return dict(nontrivial=new != text, classes=[exe, 'status %d' % r.rc])


# ---------------------------------------------------------------------- filters
@st.composite
def filters(draw):
    c = draw(fits.fit_case(endings=('stop',), maxgen=3, parents=(2, 3),
                           sections=(1, 1), lines=(0, 2), free=(1, 2)))
    c['tool'] = draw(st.sampled_from(['ecom', 'edat', 'elog', 'emod', 'emes']))
    c['rseed'] = draw(st.integers(0, 10 ** 9))
    c['k'] = draw(st.integers(1, 5))
    c['extra'] = draw(st.lists(st.sampled_from(ARG), max_size=2))
    return c


TAGS = ['<command>', '</command>', '<data>', '</data>', '<log>', '</log>',
        '<message>', '</message>', '<model>', '</model>', '', '<data> ',
        '<html>', 'x' * 5000, '\x00', '\xff' * 50]


def ev_filters(c, ctx):
    rng = random.Random(c['rseed'])
    d = ctx.fresh()
    spec.write_data(c, d)
    r = fits.run_fit(c, ctx, d=d)
    L = r.out.split('\n')
    for _ in range(c['k']):
        i = rng.randrange(len(L))
        if rng.random() < 0.6:
            L.insert(i, rng.choice(TAGS))
        elif rng.random() < 0.5:
            del L[i]
            L = L or ['']
        else:
            L = L[:i + 1]
    text = '\n'.join(L)
    b = go(ctx, c['tool'], c['extra'], text, cwd=d)
    need(b.rc == 0, '%s: exit status %d', c['tool'], b.rc)
    need(all(x in text.split('\n') for x in b.out.split('\n') if x),
         '%s wrote a line that is not in its input', c['tool'])
    return dict(nontrivial=bool(b.out), classes=[c['tool']])


# ----------------------------------------------------------------- environment
@st.composite
def streams(draw):
    c = draw(fits.fit_case(endings=('stop', 'opt'), maxgen=10, parents=(2, 4),
                           sections=(1, 2), lines=(1, 2), free=(1, 2)))
    c['fault'] = draw(st.sampled_from(['full', 'closed out', 'closed in',
                                       'directory in', 'closed err',
                                       'null in']))
    c['exe'] = draw(st.sampled_from(['fit', 'fit', 'fit', 'airtovac', 'edat',
                                     'ezip', 'helicorr']))
    return c


def ev_streams(c, ctx):
    import subprocess
    d = ctx.fresh()
    spec.write_data(c, d)
    exe = c['flavour'] if c['exe'] == 'fit' else c['exe']
    a = {'fit': c['args'], 'ezip': ['d1.dat', 'd1.dat'],
         'helicorr': ['1']}.get(c['exe'], [])
    stdin = spec.model_text(c) if c['exe'] == 'fit' else '5000 1 1\n'
    p = os.path.join(d, 'stdin')
    with open(p, 'w') as f:
        f.write(stdin)
    redir = {'full': '< stdin > /dev/full', 'closed out': '< stdin >&-',
             'closed in': '<&-', 'directory in': '< .', 'null in':
             '< /dev/null', 'closed err': '< stdin 2>&-'}[c['fault']]
    cmd = [os.path.join(ctx.built['cliasan'], exe)] + [str(x) for x in a]
    try:
        r = subprocess.run(['/bin/bash', '-c', '"$@" ' + redir, 'x'] + cmd,
                           cwd=d, env=ENV, timeout=60, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        need(False, '%s does not end (%s)', exe, c['fault'])
    err = r.stderr.decode('latin-1')
    need(not REPORT.search(err), '%s (%s): %s', exe, c['fault'], err[:1000])
    need(r.returncode in DOCUMENTED, '%s (%s): exit status %d', exe, c['fault'],
         r.returncode)
    if c['fault'] in ('closed in', 'directory in', 'null in') and \
            c['exe'] not in ('edat', 'ezip'):
        need(r.returncode == 16 and err.strip(), '%s: exit status %d without '
             'input (%s): %s', exe, r.returncode, c['fault'], err)
    return dict(nontrivial=True, classes=[c['fault'], c['exe']])


# ------------------------------------------------------- coverage-guided search
WORDS = ['{', '}', '%', '\\x0a', '\\x09', '\\x0d', ' 0 ', ' 1 ', '-1', '1e5',
         '1e-300', '1e400', 'nan', 'inf', 'S', 'A', 'd', '#', '!', '0x1', '1.5',
         '-', '+', '.', 'e5', ' 0 0 0\\x0a', '4294967296']
ROWS = ''.join('%d %g 0.1 %d\n' % (i + 1, 1 + 0.01 * i, i % 2)
               for i in range(9))


def corpus():
    """Well-formed inputs of native/fuzz.cc: a letter and a text."""
    out = []
    for f, n in (('a', 8), ('c', 6), ('o', 7), ('m', 7)):
        def line(name, ref=''):
            return name + '\n' + ''.join('%d.5 0 9 %d %s\n' % (j, j % 2, ref)
                                         for j in range(n))
        out.append(f + '{ S d 0 9e9 2 3 4\n 40 1 99 1\n' + line('A')
                   + line('B', 'A') + '}\n')
        out.append(f + '% c\n{ S d 0 9 0\n 40 0 0 0\n}\ntext { T d 1 3 1\n'
                   ' 40 1 9 0 S\n' + line('X') + '} end\n')
    for c in 'sw':
        out += [c + '# c\n' + ROWS, c + '1 2\n3 4\n\n5 6\n',
                c + '1.5e0 2 3 1 4 5\r\n! c\n5000 -1e-5\n']
    for c in 'tu':
        out += [c + ROWS, c + 'a\nb\n1 2\n3 4\n', c + '1 2 3\n4 5 6\n7 8 9\n']
    return out


def fuzz_env(d):
    os.makedirs(os.path.join(d, 'seeds'))
    os.makedirs(os.path.join(d, 'new'))
    for i, t in enumerate(corpus()):
        with open(os.path.join(d, 'seeds', '%02d' % i), 'w') as f:
            f.write(t)
    with open(os.path.join(d, 'd'), 'w') as f:
        f.write(ROWS)
    with open(os.path.join(d, 'words'), 'w') as f:
        f.write('\n'.join('"%s"' % w for w in WORDS) + '\n')


def fuzz_run(ctx, d, args, timeout):
    import subprocess
    try:
        p = subprocess.run([ctx.built['fuzz']] + args, cwd=d, timeout=timeout,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        return -1, 'no end within %d s' % timeout
    return p.returncode, p.stderr.decode('latin-1')


def fuzz_found(err):
    m = re.search(r'DEMAND: .*|ERROR: .*|runtime error: .*|Assertion.*', err)
    return err[m.start():][:1500] if m else err[-800:]


def ev_coverage(c, ctx):
    if not ctx.built['fuzz']:
        return dict(nontrivial=False, classes=['not built'])
    d = ctx.fresh()
    fuzz_env(d)
    if 'input' in c:
        with open(os.path.join(d, 'input'), 'wb') as f:
            f.write(c['input'].encode('latin-1'))
        rc, err = fuzz_run(ctx, d, ['-timeout=20', 'input'], 60)
        need(rc == 0, 'native/fuzz.cc fails for %r: %s', c['input'],
             fuzz_found(err))
        return dict(nontrivial=True)
    rc, err = fuzz_run(ctx, d, [
        '-seed=%d' % c['seed'], '-runs=%d' % c['runs'], '-max_len=700',
        '-timeout=20', '-rss_limit_mb=3000', '-dict=words', '-artifact_prefix=x-',
        '-print_final_stats=1', 'new', 'seeds'], 800)
    if rc != 0:
        x = [f for f in os.listdir(d) if f.startswith('x-')]
        if not x:
            # (not a failure of the code: the search itself was ended)
            raise RuntimeError('the fuzzer ended with %d: %s' % (rc, err[-800:]))
        fuzz_run(ctx, d, ['-minimize_crash=1', '-exact_artifact_path=small',
                          '-runs=20000', '-max_total_time=20', x[0]], 60)
        best = 'small' if os.path.exists(os.path.join(d, 'small')) else x[0]
        with open(os.path.join(d, best), 'rb') as f:
            text = f.read().decode('latin-1')
        e = Violation('native/fuzz.cc fails for %r: %s' % (text, fuzz_found(err)))
        e.case = dict(input=text)
        raise e
    new = len(os.listdir(os.path.join(d, 'new')))
    m = re.search(r'number_of_executed_units: (\d+)', err)
    return dict(nontrivial=new > 20, count=int(m.group(1)) if m else 1,
                sample=dict(c, inputs_of_new_coverage=new),
                classes=['new coverage'] * new)


def searches(runs):
    def listing(index, n, seed):
        for k in range(n):
            yield dict(seed=(seed + k) % 2 ** 31, runs=runs)
    return listing


PROP = Prop(
    'C13',
    [Sub('models', models, ev_models, 1200, 20000),
     Sub('wrong', wrong, ev_wrong, 900, 12000),
     Sub('args', args, ev_args, 500, 10000),
     Sub('data', data, ev_data, 1000, 16000),
     Sub('utils', utils, ev_utils, 400, 10000),
     Sub('filters', filters, ev_filters, 200, 4000),
     Sub('streams', streams, ev_streams, 160, 3000),
     Sub('coverage', None, ev_coverage, 8, 240, case_timeout=900,
         listing=searches(9000))],
    rule='Hypothesis draws valid models, data files, tables, result files and '
    'argument vectors and damages them: tokens and lines removed, inserted, '
    'exchanged or replaced by extreme values and other text, bytes changed, '
    'files truncated, missing or directories, arguments of the wrong number or '
    'form, streams closed or full; further cases contain one error of a known '
    'kind which must be rejected with its exit status. The programs run '
    'instrumented with the address and undefined behaviour sanitizers, or '
    'within 1 GB of memory. Coverage-guided searches (libFuzzer) feed the model '
    'parser of each program, the reader of spectra and the reader of tables, '
    'and demand verbatim copies, values within bounds, and agreement of what is '
    'read, written and read again. Non-trivial: the input was changed '
    '(coverage: the search found more than 20 inputs of new coverage).',
    technique='structure-aware mutation fuzzing of the instrumented programs, '
    'coverage-guided fuzzing (libFuzzer) of the parsers, '
    'property-based testing with injected input errors',
    level_note='Sampled mutations of valid inputs; resolving powers, numbers '
    'of polynomials and populations stay within what is practicable.',
    setup=setup)
