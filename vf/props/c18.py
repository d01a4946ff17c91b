from fractions import Fraction

from hypothesis import strategies as st

from .. import num, rngref
from ..core import Prop, Sub
from .common import need

word = st.one_of(st.integers(0, 2 ** 64 - 1), st.integers(0, 2 ** 32 - 1),
                 st.sampled_from([0, 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63,
                                  2 ** 64 - 1, 9600629759793949339]))
length = st.one_of(st.integers(1, 20), st.integers(200, 1000))


@st.composite
def histories(draw):
    kind = draw(st.integers(0, 5))
    mode = draw(st.integers(0, 1))
    if kind == 5:
        n = 1 + mode
    else:
        n = 1 if mode == 0 else draw(st.one_of(st.integers(1, 6),
                                               st.sampled_from([311, 312, 400,
                                                                624, 700])))
    seeds = [draw(word) for _ in range(n)] if n <= 6 else None
    c = dict(kind=kind, mode=mode, n=n, seeds=seeds)
    if seeds is None:
        c['block'] = draw(st.integers(0, 2 ** 32))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        ops.append([draw(st.sampled_from('wwrc')), draw(st.integers(0, 7)),
                    draw(length)])
    c['ops'] = ops
    return c


def seeds_of(c):
    if c['seeds'] is not None:
        return c['seeds']
    import random
    r = random.Random(c['block'])
    return [r.getrandbits(64) for _ in range(c['n'])]


def check_real(kind, x, y):
    a, b = rngref.to_real(kind, x)
    need(0.0 <= y <= 1.0, '%s: %r is not in [0, 1]', rngref.NAMES[kind], y)
    need(abs(Fraction(y) - Fraction(a, b)) <= Fraction(a, b) * Fraction(
        3, 2 ** 53), '%s: the word %d is mapped to %r instead of %r',
        rngref.NAMES[kind], x, y, a / b)


def ev(c, ctx):
    kind, seeds = c['kind'], seeds_of(c)
    ref = rngref.make(kind, c['mode'], seeds)
    stream = []

    def at(i, j):
        while len(stream) < j:
            stream.append(ref.next())
        return stream[i:j]
    gens = [(num.Gen(ctx, kind, c['mode'], seeds), [0])]
    total = 0
    copied = False
    for op, k, n in c['ops']:
        g, pos = gens[k % len(gens)]
        if op == 'c':
            gens.append((g.clone(), [pos[0]]))
            copied = True
            continue
        want = at(pos[0], pos[0] + n)
        if op == 'w':
            got = [int(x) for x in g.words(n)]
            if got != want:
                i = next(i for i in range(n) if got[i] != want[i])
                need(False, '%s: word %d of the sequence is %d instead of %d',
                     rngref.NAMES[kind], pos[0] + i, got[i], want[i])
        else:
            for x, y in zip(want, g.reals(n)):
                check_real(kind, x, float(y))
        pos[0] += n
        total += n
    # an instance constructed again starts from the beginning
    n = min(40, max(1, len(stream)))
    got = [int(x) for x in num.Gen(ctx, kind, c['mode'], seeds).words(n)]
    need(got == at(0, n), '%s: another instance with the same seed gives '
         'another sequence', rngref.NAMES[kind])
    if kind == 3:
        key = rngref.words_of(seeds[0]) if c['mode'] == 0 else seeds
        if key[-1] & rngref.M32:
            r = rngref.python_mt(key)
            for i, x in enumerate(at(0, 20)):
                need(r.getrandbits(32) == x, 'reference mismatch at %d', i)
    return dict(nontrivial=total > 0, classes=[
        rngref.NAMES[kind], 'seed' if c['mode'] == 0 else 'seed array',
        'beyond one state' if total > 700 else 'short',
        'copies' if copied else 'single'])


@st.composite
def far(draw):
    return dict(kind=draw(st.integers(0, 5)), seed=draw(word),
                n=draw(st.integers(20000, 150000)))


def ev_far(c, ctx):
    kind, n = c['kind'], c['n']
    ref = rngref.make(kind, 0, [c['seed']])
    g = num.Gen(ctx, kind, 0, [c['seed']])
    h = None
    for i in range(0, n, 5000):
        if i == 5000 * (n // 10000):
            h = g.clone()
        got = [int(x) for x in g.words(5000)]
        if h is not None and i == 5000 * (n // 10000):
            need([int(x) for x in h.words(5000)] == got, '%s: a copy after %d '
                 'words continues otherwise', rngref.NAMES[kind], i)
        for k, x in enumerate(got):
            y = ref.next()
            need(x == y, '%s, seed %d: word %d is %d instead of %d',
                 rngref.NAMES[kind], c['seed'], i + k, x, y)
    return dict(classes=[rngref.NAMES[kind]])


@st.composite
def pairs(draw):
    kind = draw(st.integers(0, 5))
    a = draw(word)
    # the 32-bit twisters use the lower half of a seed only
    bits = 63 if rngref.WORD[kind] == 64 or kind == 5 else 31
    b = a ^ draw(st.one_of(st.integers(0, bits).map(lambda i: 1 << i),
                           st.integers(1, 2 ** (bits + 1) - 1)))
    return dict(kind=kind, a=a, b=b)


def ev_pairs(c, ctx):
    g = [num.Gen(ctx, c['kind'], 0, [s]).words(64) for s in (c['a'], c['b'])]
    same = int((g[0] == g[1]).sum())
    need(same <= 2, '%s: the seeds %d and %d give %d equal words of 64',
         rngref.NAMES[c['kind']], c['a'], c['b'], same)
    return dict(classes=[rngref.NAMES[c['kind']]])


PROP = Prop(
    'C18',
    [Sub('sequence', histories, ev, 4000, 60000),
     Sub('far', far, ev_far, 30, 500),
     Sub('seeds', pairs, ev_pairs, 4000, 60000)],
    rule='"sequence": Hypothesis draws a generator, a seed or seed array (1 to '
    '700 words) and a history of draws (words, reals, copies; up to 8000 '
    'outputs); every output is compared with a reference implementation in '
    'Python written from the publications (checked against CPython\'s own '
    'twister); "far": up to 150000 outputs in a row. "seeds": two seeds that differ, often in one bit. Non-trivial: '
    'at least one output was compared.',
    technique='model-based property testing of the generators against '
    'reference implementations in Python',
    level_note='The reference twister and MELG are reimplementations from the '
    'publications; equality is exact for words and to 3 units in the last '
    'place for reals.',
    setup=num.setup)
