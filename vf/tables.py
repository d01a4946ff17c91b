"""Tables of spectra: generation, text forms, and reading results."""
import math

from hypothesis import strategies as st

from . import spec
from .core import Violation
from .spec import fl, wide

FORMS = ['repr', 'fixed', 'exp', 'plus', 'EXP']


def form(x, kind):
    if kind == 'fixed':
        return '%.6f' % x
    if kind == 'exp':
        return '%.12e' % x
    if kind == 'EXP':
        return '%.9E' % x
    if kind == 'plus':
        return '%+.10g' % x
    return repr(float(x))


def value(x, kind):
    return float(form(x, kind))


@st.composite
def table(draw, nmax=40, cols=(2, 3, 3, 4), wmin=2000.0, wmax=25000.0,
          header=True):
    """Rows are expanded from a seed; the layout is drawn explicitly."""
    n = draw(st.integers(1, nmax))
    return dict(
        n=n, cols=draw(st.sampled_from(cols)), seed=draw(st.integers(0, 10 ** 6)),
        w0=draw(wide(wmin, wmax)), dw=draw(wide(1e-4, 100.0)),
        order=draw(st.sampled_from(['up', 'up', 'down', 'random'])),
        flux=draw(st.sampled_from([1.0, 1e-17, 1e4, 3e-120, 1e30])),
        form=draw(st.sampled_from(FORMS)),
        sep=draw(st.sampled_from([' ', '   ', '\t', ' \t'])),
        lead=draw(st.sampled_from(['', ' ', '\t'])),
        trail=draw(st.sampled_from(['', ' ', '\r'])),
        last=draw(st.booleans()),
        skip=draw(st.integers(0, 4)) if header else 0,
        wmin=wmin, wmax=wmax)


HEAD = ['# header', '', 'x y z', '1 2', 'SIMPLE = T', '4711']


def rows(t):
    """[(x, y, z...)] as the numbers read back from the text."""
    import numpy as np
    rng = np.random.default_rng(t['seed'])
    n = t['n']
    i = np.arange(n)
    if t['order'] == 'down':
        i = i[::-1]
    x = t['w0'] + t['dw'] * i
    if t['order'] == 'random':
        x = t['wmin'] + (t['wmax'] - t['wmin']) * np.random.default_rng(
            t.get('xseed', t['seed']) + 3).random(n)
    x = np.minimum(x, 2 * t['wmax'])
    y = t['flux'] * rng.standard_normal(n) * (rng.random(n) > 0.1)
    e = abs(t['flux']) * rng.random(n) * 10.0 ** rng.integers(-3, 3)
    k = t['form']
    out = []
    for a, b, c in zip(x, y, e):
        r = [value(a, k if k != 'fixed' else 'fixed'),
             value(b, k), value(c, k), 7.0]
        out.append(r[:t['cols']])
    return out


def text(t, rs=None):
    rs = rows(t) if rs is None else rs
    L = [HEAD[(t['seed'] + i) % len(HEAD)] for i in range(t['skip'])]
    for r in rs:
        L.append(t['lead'] + t['sep'].join(form(v, t['form']) for v in r)
                 + t['trail'])
    s = '\n'.join(L)
    return s + ('\n' if t['last'] else '')


def parse(out):
    """Rows of numbers of an output, with the number of fields as text."""
    if out and not out.endswith('\n'):
        raise Violation('the last row is not terminated: %r' % out[-60:])
    try:
        return [[float(f) for f in ln.split()] for ln in out.split('\n')[:-1]]
    except ValueError:
        raise Violation('output cannot be read as a table: %r' % out[:300])


def sci(x):
    """A number as it prints with seven significant digits."""
    return float('%.6e' % x)


def tool(ctx, name, args, stdin='', cwd=None):
    return spec.run([ctx.built['cli'] + '/' + name] + [str(a) for a in args],
                    stdin, cwd=cwd)


def same_columns(got, rs):
    """Flux and uncertainty columns and row count; returns wavelengths."""
    if len(got) != len(rs):
        raise Violation('%d rows in, %d rows out' % (len(rs), len(got)))
    nc = min(3, len(rs[0]))
    for k, (g, r) in enumerate(zip(got, rs)):
        if len(g) != nc:
            raise Violation('row %d has %d instead of %d columns: %r'
                            % (k + 1, len(g), nc, g))
        for a, b in zip(g[1:], r[1:3]):
            if abs(a - sci(b)) > 1.0000001e-6 * abs(b) * (
                    0 if a == sci(b) else 1) or not math.isfinite(a):
                raise Violation('row %d: %r was written as %r' % (k + 1, b, a))
    return [g[0] for g in got]
