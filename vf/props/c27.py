import os
import random
import re

from hypothesis import strategies as st

from .. import build, spec, tables
from ..core import Prop, Sub
from . import c10, fits
from .common import need

REPORT = re.compile(r'Sanitizer|runtime error:|Assertion')
ASAN = dict(os.environ, ASAN_OPTIONS='exitcode=77:detect_leaks=1:'
            'detect_stack_use_after_return=1:strict_init_order=1:'
            'check_initialization_order=1',
            UBSAN_OPTIONS='exitcode=77:print_stacktrace=1')
TSAN = dict(os.environ, TSAN_OPTIONS='exitcode=77:halt_on_error=1')


def setup(tier):
    return {'cli': build.cli(), 'cliasan': build.cli('cliasan'),
            'clitsan': build.cli('clitsan')}


def clean(r, what):
    m = REPORT.search(r.err)
    need(not m and r.rc != 77, '%s: %s', what,
         r.err[max(0, (m.start() if m else 0) - 100):][:1800])
    need(r.rc >= 0, '%s: signal %d', what, -r.rc)


def instrumented(ctx, kind, exe, args, stdin, d):
    r = spec.run([os.path.join(ctx.built[kind], exe)] + [str(a) for a in args],
                 stdin, cwd=d, env=ASAN if kind == 'cliasan' else TSAN)
    clean(r, '%s %s' % (exe, args))
    return r


@st.composite
def fitted(draw):
    c = draw(fits.fit_case(maxgen=15, parents=(2, 8), sections=(1, 3),
                           lines=(0, 4), endings=('stop', 'stop', 'opt',
                                                  'under'),
                           nmin=3, nmax=45, npoly=(0, 4), maskp=True,
                           excl=True, window=True, kinds=('lin', 'log',
                                                          'jitter'),
                           res_per_pixel=(0.2, 12)))
    if c['args'][5] > 60:
        c['args'][5] = draw(st.integers(20, 60))
    if draw(st.integers(0, 9)) == 0:
        c['args'][1:3] = draw(st.sampled_from([[1, 2], [20, 40], [15, 64]]))
    for s in c['sections']:
        s['cols'] = draw(st.sampled_from([2, 3, 4, 4]))
    c['rseed'] = draw(st.integers(0, 10 ** 9))
    c['tie'] = draw(st.booleans())
    c['decorate'] = draw(st.booleans())
    return c


def prepare(c, ctx):
    rng = random.Random(c['rseed'])
    if c['tie']:
        c = c10.tie(c10.rename(c, rng), rng, 0.6)[0]
    d = ctx.fresh()
    spec.write_data(c, d)
    text = spec.model_text(c)
    if c['decorate']:
        text = fits.decorate(text, rng)
    return c, d, text


def ev(kind):
    def f(c, ctx):
        import copy
        c, d, text = prepare(copy.deepcopy(c), ctx)
        r = instrumented(ctx, kind, c['flavour'], c['args'], text, d)
        if fits.bad_end(r):
            return dict(nontrivial=False, classes=['status 16'])
        return dict(nontrivial=int(c['args'][5]) > 0, classes=[
            'status %d' % r.rc, c['flavour']])
    return f


@st.composite
def statics(draw):
    """Sections of every size, resolution and position of lines."""
    c = draw(spec.model_spec(sections=(1, 3), lines=(0, 6), nmin=3, nmax=60,
                             npoly=(0, 5), kinds=('lin', 'log', 'jitter'),
                             res_per_pixel=(0.05, 60), maskp=True, excl=True,
                             window=True, pos=(-2.0, 3.0)))
    for s in c['sections']:
        s['cols'] = draw(st.sampled_from([2, 3, 4, 4]))
    c['args'] = list(spec.STATIC)
    c['rseed'] = draw(st.integers(0, 10 ** 9))
    c['tie'] = draw(st.booleans())
    c['decorate'] = draw(st.booleans())
    return c


def ev_static(c, ctx):
    import copy
    c, d, text = prepare(copy.deepcopy(c), ctx)
    r = instrumented(ctx, 'cliasan', c['flavour'], c['args'], text, d)
    if fits.bad_end(r):
        return dict(nontrivial=False, classes=['status 16'])
    return dict(nontrivial=True, classes=[c['flavour']])


@st.composite
def short(draw):
    c = draw(fitted())
    c['args'][5] = min(int(c['args'][5]), 3)
    c['args'][1:3] = [3, 6]
    for s in c['sections']:
        # the damped flavours take long for many cells
        s['data']['n'] = min(s['data']['n'], 25)
        s['a'], s['b'] = 0.0, 99999.0
    return c


def ev_uninit(c, ctx):
    import copy
    c, d, text = prepare(copy.deepcopy(c), ctx)
    r = spec.run(['valgrind', '-q', '--error-exitcode=77', os.path.join(
        ctx.built['cli'], c['flavour'])] + [str(a) for a in c['args']], text,
        cwd=d)
    need(r.rc != 77, '%s: %s', c['flavour'], r.err[:1800])
    if fits.bad_end(r):
        return dict(nontrivial=False, classes=['status 16'])
    return dict(nontrivial=True, classes=[c['flavour']])


@st.composite
def long(draw):
    """Two lengths of the same run, to compare the memory they use."""
    c = draw(fits.fit_case(endings=('stop',), maxgen=40, parents=(3, 6),
                           sections=(1, 1), lines=(1, 2), nmin=14, nmax=20,
                           free=(1, 2)))
    c['args'][4] = '1e-300'
    return c


def rss(ctx, c, d, stop):
    import resource
    import subprocess
    args = c['args'][:5] + [stop, 0]
    p = subprocess.Popen([os.path.join(ctx.built['cli'], c['flavour'])]
                         + [str(a) for a in args], stdin=subprocess.PIPE,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         cwd=d, env=dict(os.environ, MALLOC_ARENA_MAX='1'))
    p.stdin.write(spec.model_text(c).encode('latin-1'))
    p.stdin.close()
    _, st_, ru = os.wait4(p.pid, 0)
    p.returncode = 0
    return ru.ru_maxrss, os.waitstatus_to_exitcode(st_)


def ev_long(c, ctx):
    d = ctx.fresh()
    spec.write_data(c, d)
    a, ra = rss(ctx, c, d, 20)
    b, rb = rss(ctx, c, d, 420)
    # kB; the base is some 5 MB
    need(b - a < 2500, 'a run of 420 generations uses %d kB, one of 20 '
         'generations %d kB', b, a)
    return dict(nontrivial=rb in (1, 2), classes=['status %d' % rb])


@st.composite
def utils(draw):
    return dict(tool=draw(st.sampled_from(build.UTILS + ['ezip'])),
                t=draw(tables.table()),
                v=draw(st.sampled_from(['0', '1e4', '-3e7'])))


def ev_utils(c, ctx):
    d = ctx.fresh()
    t = c['t']
    text = tables.text(t)
    a = [c['v']] if c['tool'] == 'helicorr' else []
    if c['tool'] == 'ezip':
        for f in 'ab':
            with open(os.path.join(d, f), 'w') as fd:
                fd.write(text)
        a = ['a', 'b']
    if t['skip']:
        a.append(t['skip'])
    r = instrumented(ctx, 'cliasan', c['tool'], a, text, d)
    need(r.rc == 0, '%s: exit status %d: %s', c['tool'], r.rc, r.err[-200:])
    return dict(nontrivial=True, classes=[c['tool']])


@st.composite
def filters(draw):
    c = draw(fits.fit_case(endings=('stop', 'opt'), maxgen=5, parents=(2, 4),
                           sections=(1, 2), lines=(0, 2)))
    c['tool'] = draw(st.sampled_from(['ecom', 'edat', 'elog', 'emod', 'emes']))
    return c


def ev_filters(c, ctx):
    d = ctx.fresh()
    spec.write_data(c, d)
    r = fits.run_fit(c, ctx, d=d)
    b = instrumented(ctx, 'cliasan', c['tool'], [], r.out, d)
    need(b.rc == 0, '%s: exit status %d', c['tool'], b.rc)
    return dict(nontrivial=bool(b.out), classes=[c['tool']])


PROP = Prop(
    'C27',
    [Sub('memory', fitted, ev('cliasan'), 400, 9000),
     Sub('static', statics, ev_static, 400, 10000),
     Sub('threads', fitted, ev('clitsan'), 250, 6000),
     Sub('uninitialised', short, ev_uninit, 40, 800),
     Sub('long', long, ev_long, 24, 300),
     Sub('utils', utils, ev_utils, 120, 3000),
     Sub('filters', filters, ev_filters, 80, 1500)],
    rule='Hypothesis draws valid models (references, comments, masks, '
    'excluded ranges, resolutions from a fraction of a pixel to a multiple of '
    'the section), data, strategy settings and tables, and runs the programs '
    'built with the address, leak, undefined behaviour and thread sanitizers '
    'and library assertions: no report is acceptable. Long and short runs of '
    'the plain program must use the same memory. Non-trivial: the run was '
    'accepted and evaluated at least one generation (or the model).',
    technique='fuzzing with structured generators of valid inputs under '
    'sanitizers',
    level_note='Reads of uninitialised memory are searched with valgrind in '
    'few short runs only; sanitizers do not see arithmetic overflow of '
    'floating-point conversions.',
    setup=setup)
