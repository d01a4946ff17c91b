"""Generated optimisation runs of the fitting programs."""
import numpy as np
from hypothesis import strategies as st

from .. import spec
from ..core import Violation
from ..spec import fl, wide

# index, half width of the range
WIDTH = {0: 0.02, 2: 1e-4, 3: 25.0, 4: None, 5: 0.8, 6: None, 7: 40.0}


def loosen(draw, p, j, dw, lc):
    """A free version of a parameter with the true value inside."""
    v = p['v']
    w = WIDTH[j]
    if j == 0:
        w = 2 * dw * draw(st.sampled_from([0.5, 1.0]))
    elif j == 2:
        w = 3 * dw / lc * (1 + v)
    elif j == 3:
        w = max(1.0, 3 * dw / lc * spec.CK)
    elif j in (4, 6):
        w = 0.6 * v
    off = draw(st.sampled_from([0.0, 0.25, -0.4]))
    lo, up = v + (off - 1) * w, v + (off + 1) * w
    if j in (4, 6):
        lo = max(lo, 0.05 * v)
    nd = {0: 5, 2: 8}.get(j, 4)
    if j == 6:
        lo, up = float('%.4g' % lo), float('%.4g' % up)
    else:
        lo, up = round(lo, nd), round(up, nd)
    if not lo < up:
        up = lo + max(1e-4, abs(lo) * 1e-3)
    return dict(v=draw(st.sampled_from([v, 0.0, -1.0])), lo=lo, up=up, opt=1)


@st.composite
def fit_case(draw, endings=('stop', 'stop', 'opt', 'under'), absorb=True,
             free=(1, 4), maxgen=40, parents=(2, 6), sections=(1, 2),
             lines=(1, 2), ties=True, **kw):
    kw.setdefault('nmin', 14)
    kw.setdefault('nmax', 40)
    kw.setdefault('npoly', (0, 2))
    kw.setdefault('res_per_pixel', (0.6, 4))
    kw.setdefault('pos', (0.2, 0.8))
    m = draw(spec.model_spec(sections=sections, lines=lines, strong=False,
                             **kw))
    fla = m['flavour']
    true = {(k, i): [p['v'] for p in ln['p']]
            for k, s in enumerate(m['sections'])
            for i, ln in enumerate(s['lines'])}
    slots = []
    for k, s in enumerate(m['sections']):
        d = s['data']
        if absorb:
            d['absorb'] = dict(flavour=fla, res=s['res']['v'],
                               q=[[p['v'] for p in ln['p']]
                                  for ln in s['lines']])
        for i, ln in enumerate(s['lines']):
            for j in range(spec.NPAR[fla]):
                if j in (1,) or j == 6 and (fla == 'azafran'
                                            or ln['p'][6]['v'] == 0):
                    continue
                slots.append((k, i, j))
        slots.append((k, None, None))
    # velocities, widths and column densities first
    pick = draw(st.lists(st.sampled_from(
        [t for t in slots if t[2] in (3, 4, 5)] * 3 + slots
        if any(t[1] is not None for t in slots) else slots),
        min_size=free[0], max_size=draw(st.sampled_from(
            [free[1]] * 15 + [4 * free[1]])), unique=True))
    if any(t[2] == 6 for t in pick) and fla != 'azafran':
        # damping constants are of another order of magnitude than the rest:
        # draws between the bounds of the others become rare events
        if draw(st.booleans()):
            pick = [t for t in pick if t[2] == 6][:1]
        else:
            pick = [t for t in pick if t[2] != 6] or pick[:1]
    for k, i, j in pick:
        s = m['sections'][k]
        if i is None:
            r = s['res']['v']
            s['res'] = spec.free(float('%.5g' % (0.6 * r)),
                                 float('%.5g' % (1.5 * r)))
        else:
            _, lc, _ = spec.line_geometry(fla, true[k, i])
            s['lines'][i]['p'][j] = loosen(draw, s['lines'][i]['p'][j], j,
                                           s['data']['dw'], lc)
    L = [ln for s in m['sections'] for ln in s['lines']]
    if ties and len(L) > 1 and draw(st.booleans()):
        a, b = draw(st.permutations(range(len(L))))[:2]
        j = draw(st.sampled_from([2, 3, 4]))
        L[a]['p'][j] = dict(L[a]['p'][j], ref=L[b]['id'])
    m['args'] = draw(fit_args(endings, maxgen, parents))
    return m


@st.composite
def fit_args(draw, endings, maxgen=40, parents=(2, 6)):
    e = draw(st.sampled_from(endings))
    mu = draw(st.integers(*draw(st.sampled_from(
        [parents] * 15 + [(parents[1], 8 * parents[1])]))))
    pop = mu * 2 + draw(st.integers(0, 4))
    seed = draw(st.one_of(st.integers(0, 10), st.integers(0, 2 ** 64 - 1)))
    trace = draw(st.sampled_from([0, 1, 1, 2, 3, 10, 10 ** 6]))
    step = draw(st.sampled_from(['0.1', '0.5', '1', '2.5']))
    if e == 'stop':
        return [seed, mu, pop, step, '1e-6', draw(st.integers(0, maxgen)),
                trace]
    if e == 'opt':
        return [seed, max(4, mu), 2 * max(4, mu), step,
                draw(st.sampled_from(['1e-1', '1e-2', '1e-3'])), 1000, trace]
    return [seed, mu, pop, step, '1e-300', 400, max(trace, 10) if trace
            else 0]


def run_fit(case, ctx, kind='cli', d=None, text=None, timeout=100, args=None):
    if d is None:
        d = ctx.fresh()
        spec.write_data(case, d)
    return spec.fit(ctx, case['flavour'], spec.model_text(case)
                    if text is None else text, d, case['args']
                    if args is None else args, kind=kind, timeout=timeout)


def bad_end(r):
    """A legitimate failure: the continuum (or scaling) is undetermined."""
    if r.rc == 16 and r.err.strip():
        return True
    if r.rc not in (0, 1, 2):
        raise Violation('exit status %d: %s' % (r.rc, r.err[-300:]))
    return False


# -------------------------------------------------------------- text layout
OUTSIDE = ['', '', 'free text', '  indented text', '# not a comment mark',
           'a; b, c: 1 2 3', '\t', '% comment with { braces }', '<html>',
           '%', '=====', 'ünïcode'.encode('utf-8').decode('latin-1')]
COMMENT = ['', ' a comment', '{', '}', ' 1 2 3 4', '%%', ' <model>', '\t x',
           ' } {', '"quoted"', "'", '\\']


def decorate(text, rng):
    """The same definition in another layout: comments, blank lines, white
    space, text outside of the sections."""
    out = []
    inside = False
    # lines of thousands of characters, hundreds of blank ones
    big = rng.choice([200, 1500, 5000, 70000]) if rng.random() < 0.1 else 0

    def extra():
        if big and rng.random() < 0.1:
            out.extend(rng.choice([['%' + '{ x' * big], [''] * 300,
                                   [' ' * big], ['%', ' % '] * 100]))
        for _ in range(rng.randrange(3)):
            if rng.random() < 0.5:
                out.append('%' + rng.choice(COMMENT))
            elif inside:
                out.append(rng.choice(['', '   ', '\t']))
            else:
                out.append(rng.choice(OUTSIDE))
    for ln in text.split('\n'):
        if ln.strip() == '':
            out.append(ln)
            continue
        extra()
        if ln.startswith('{'):
            pre = rng.choice(['', '', ' ', 'section: ', '\t'])
            inside = True
            if rng.random() < 0.3:
                # the head may start on the next line
                out.append(pre + '{' + rng.choice(['', '  ', ' % c', '%c']))
                ln = ln[1:]
                pre = ''
            ln = pre + ln
        if ln.startswith('}'):
            inside = False
            ln = ln + rng.choice(['', ' ', ' end', ' % end', '%end', '%'])
            out.append(ln)
            continue
        parts = ln.split(' ')
        ln = parts[0] + ''.join(rng.choice([' ', ' ', '  ', '\t', ' \t '])
                                + x for x in parts[1:])
        ln = rng.choice(['', '', ' ', '\t']) + ln + rng.choice(
            ['', '', ' ', '\t', '\r', ' % ' + rng.choice(COMMENT),
             '%' + rng.choice(COMMENT)])
        if big and rng.random() < 0.2:
            k = ln.find(' ', 2) + 1
            if 0 < k < (ln.find('%') if '%' in ln else len(ln)):
                ln = ln[:k] + ' ' * big + ln[k:]
            ln = ' ' * rng.choice([0, big]) + ln
        out.append(ln)
    extra()
    return '\n'.join(out) + '\n'
