from hypothesis import strategies as st

from .. import spec
from ..core import Prop, Sub
from .common import need, setup_cli

# tool -> element names, the current one first
ELEMENTS = dict(ecom=['command'], edat=['data'], elog=['log'],
                emes=['message', 'mesg'], emod=['model', 'job', 'input'])
NAMES = sorted({n for v in ELEMENTS.values() for n in v})


def extract(lines, name):
    """Lines after an opening line and before the next closing line."""
    out, on = [], False
    for ln in lines:
        if on:
            if ln == '</%s>' % name:
                on = False
            else:
                out.append(ln)
        elif ln == '<%s>' % name:
            on = True
    return out


CHARS = ''.join(chr(c) for c in range(256) if c != 10)
noise = st.one_of(
    st.sampled_from(['', ' ', '<!--', '-->', '</html>', '<html>', '{', '}',
                     '% comment', '\t1 2 3', ' a b', '\r', '\\', '0', '\x00']),
    st.text(CHARS, max_size=12),
    st.text('<>/modelatgjbinpuscr ', max_size=10))


@st.composite
def near(draw, name):
    """A line that looks like a tag but is none."""
    t = draw(st.sampled_from(['<%s>', '</%s>'])) % name
    return draw(st.sampled_from([
        ' ' + t, t + ' ', t + '\r', '\t' + t, t + t, 'x' + t, t + 'x',
        t.upper(), t.capitalize(), t[:-1], t[1:], t.replace('>', ' >'),
        t.replace('<', '< '), '<%s/>' % name, t + '-->', t + '\x00',
        t.replace('</', '<//'), '\\' + t]))


@st.composite
def texts(draw):
    tool = draw(st.sampled_from(sorted(ELEMENTS)))
    variants = ELEMENTS[tool]
    name = draw(st.sampled_from(variants[:1] * 2 + variants))
    others = [n for n in NAMES if n not in variants]
    L = []
    for _ in range(draw(st.integers(0, 30))):
        k = draw(st.integers(0, 11))
        if k < 4:
            L.append(draw(noise))
        elif k < 6:
            L.append('<%s>' % name)
        elif k < 8:
            L.append('</%s>' % name)
        elif k < 10:
            L.append(draw(near(draw(st.sampled_from(variants)))))
        else:
            o = draw(st.sampled_from(others))
            L.append(draw(st.sampled_from(['<%s>', '</%s>'])) % o)
    mixed = [t % n for n in variants if n != name for t in ('<%s>', '</%s>')]
    L = [ln for ln in L if ln not in mixed]
    return dict(tool=tool, name=name, lines=L, last=draw(st.booleans()))


def run_tool(ctx, tool, text, args=()):
    r = spec.run([ctx.built['cli'] + '/' + tool] + list(args), text)
    need(r.rc == 0, '%s: exit status %d', tool, r.rc)
    return r.out


def ev(case, ctx):
    L, name = case['lines'], case['name']
    text = '\n'.join(L) + ('\n' if case['last'] and L else '')
    # what a reader of lines sees
    seen = text.split('\n')
    if seen[-1] == '':
        seen.pop()
    want = extract(seen, name)
    out = run_tool(ctx, case['tool'], text)
    got = ''.join(ln + '\n' for ln in want)
    need(out == got, '%s extracts %r instead of %r from %r', case['tool'],
         out, got, text)
    return dict(nontrivial=len(want) > 0,
                classes=[case['tool'], name, 'lines' if want else 'empty'])


@st.composite
def elements(draw):
    """Well-formed elements of every kind and version, one after another."""
    parts = []
    for _ in range(draw(st.integers(1, 8))):
        n = draw(st.sampled_from(NAMES))
        body = draw(st.lists(st.one_of(noise, near(n)), max_size=5))
        parts.append([n, body])
    return dict(parts=parts, sep=draw(st.lists(noise, max_size=2)))


def ev_elements(case, ctx):
    L = list(case['sep'])
    for n, body in case['parts']:
        # no line of the body is itself a tag (see the next block)
        L += ['<%s>' % n] + body + ['</%s>' % n] + case['sep']
    text = '\n'.join(L) + '\n'
    for tool, names in ELEMENTS.items():
        tags = {t % x for x in names for t in ('<%s>', '</%s>')}
        if any(ln in tags for _, b in case['parts'] for ln in b + case['sep']):
            continue
        want = [ln for n, b in case['parts'] if n in names for ln in b]
        out = run_tool(ctx, tool, text)
        need(out == ''.join(ln + '\n' for ln in want),
             '%s extracts %r instead of the lines %r', tool, out, want)
    return dict(nontrivial=any(b for _, b in case['parts']),
                classes=[n for n, _ in case['parts']])


@st.composite
def long_texts(draw):
    return dict(tool=draw(st.sampled_from(sorted(ELEMENTS))),
                n=draw(st.integers(1000, 30000)),
                width=draw(st.sampled_from([1, 80, 5000, 100000])),
                seed=draw(st.integers(0, 9999)))


def ev_long(case, ctx):
    import random
    R = random.Random(case['seed'])
    n = case['n'] // (1 if case['width'] < 1000 else 50
                      if case['width'] < 10000 else 500)
    name = ELEMENTS[case['tool']][0]
    L = ['%d ' % i * max(1, R.randrange(case['width']) // 5) for i in range(n)]
    for _ in range(6):
        L.insert(R.randrange(len(L)), R.choice(['<%s>', '</%s>']) % name)
    L.insert(R.randrange(len(L) // 2), '<%s>' % name)
    out = run_tool(ctx, case['tool'], '\n'.join(L) + '\n')
    want = extract(L, name)
    need(out == ''.join(x + '\n' for x in want), '%s extracts %d instead of '
         '%d lines of a long text', case['tool'], out.count('\n'), len(want))
    return dict(nontrivial=len(want) > 0)


PROP = Prop(
    'C02',
    [Sub('texts', texts, ev, 3000, 40000),
     Sub('elements', elements, ev_elements, 400, 6000),
     Sub('long', long_texts, ev_long, 60, 600)],
    rule='Hypothesis draws texts of up to 30 lines mixing opening and closing '
    'tags (repeated, unterminated, nested, of other elements), near-tags, '
    'arbitrary bytes, and long texts; the output of each of the five tools is '
    'compared byte by byte with a reference extraction. Non-trivial: at least '
    'one line is extracted.',
    technique='property-based testing of the five tools against a reference '
    'line extractor',
    level_note='One text uses the tags of one version of an element only, or '
    'well-formed elements of several versions: which tag closes an element of '
    'another version is unspecified.',
    setup=setup_cli)
