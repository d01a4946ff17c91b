import os

from hypothesis import strategies as st

from .. import build, opt, spec
from ..core import Prop, Sub
from . import fits
from .c16 import params, problem
from .common import need

MODES = ['delay', 'barrier', 'perm', 'single', 'plain', 'nice', 'machine']


def setup(tier):
    return {'cli': build.cli(), 'clitsan': build.cli('clitsan'),
            'sched': build.preload('sched'), 'opt': build.native('opt')}


@st.composite
def schedules(draw):
    c = draw(fits.fit_case(maxgen=60, parents=(2, 10)))
    c['schedule'] = draw(st.lists(st.tuples(
        st.sampled_from(MODES), st.integers(0, 10 ** 6)), min_size=3,
        max_size=3))
    return c


def run_mode(c, ctx, d, mode, seed, kind='cli'):
    env = dict(os.environ, OMP_NUM_THREADS=str(1 + seed % 4))
    pre = None
    if mode in ('delay', 'barrier', 'perm'):
        env.update(LD_PRELOAD=ctx.built['sched'], SCHED_MODE=mode,
                   SCHED_SEED=str(seed))
    elif mode == 'single':
        cpus = sorted(os.sched_getaffinity(0))
        cpu = cpus[seed % len(cpus)]

        def pre():
            os.sched_setaffinity(0, {cpu})
    elif mode == 'nice':
        def pre():
            os.nice(19)
    elif mode == 'machine':
        # other hardware, another day, other contents of fresh memory
        env.update(LD_PRELOAD=ctx.built['sched'],
                   SCHED_NPROC=str([1, 2, 3, 4, 6, 8, 12, 16, 64][seed % 9]),
                   SCHED_CLOCK=str(seed * 3571),
                   MALLOC_PERTURB_=str(1 + seed % 255))
    exe = os.path.join(ctx.built[kind], c['flavour'])
    return spec.run([exe] + [str(a) for a in c['args']], spec.model_text(c),
                    cwd=d, env=env, pre=pre)


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a.split('\n'), b.split('\n'))):
        if x != y:
            return 'line %d is\n  %s\ninstead of\n  %s' % (i + 1, y, x)
    return 'lengths %d and %d' % (len(a), len(b))


def ev_schedules(c, ctx):
    d = ctx.fresh()
    spec.write_data(c, d)
    a = run_mode(c, ctx, d, 'plain', 0)
    for mode, seed in c['schedule']:
        b = run_mode(c, ctx, d, mode, seed)
        need(b.rc == a.rc, 'exit status %d instead of %d in another run of '
             'the same (%s %d)', b.rc, a.rc, mode, seed)
        need(b.out == a.out, 'other output in another run of the same (%s '
             '%d): %s', mode, seed, first_difference(a.out, b.out))
    if fits.bad_end(a):
        return dict(nontrivial=False, classes=['status 16'])
    r = spec.Result(a.out)
    return dict(nontrivial=len(r.logrows) > 0 or a.rc != 2 or c['args'][5] > 0,
                classes=['status %d' % a.rc] + [m for m, _ in c['schedule']])


@st.composite
def seeds(draw):
    c = draw(fits.fit_case(endings=('stop',), maxgen=30, ties=False))
    c['args'][5] = draw(st.integers(3, 30))
    c['args'][6] = 1
    c['other'] = draw(st.one_of(st.integers(0, 2 ** 64 - 1), st.sampled_from(
        [k for k in (c['args'][0] + 1, c['args'][0] ^ (1 << 63), c['args'][0]
                     ^ (1 << 32)) if k < 2 ** 64])))
    if c['other'] == c['args'][0]:
        c['other'] ^= 1
    return c


def ev_seeds(c, ctx):
    d = ctx.fresh()
    spec.write_data(c, d)
    a = fits.run_fit(c, ctx, d=d)
    args = [c['other']] + c['args'][1:]
    b = fits.run_fit(c, ctx, d=d, args=args)
    if fits.bad_end(a) or fits.bad_end(b):
        return dict(nontrivial=False)
    p, q = spec.Result(a.out), spec.Result(b.out)
    if len(p.log) < 3 or len(q.log) < 3:
        return dict(nontrivial=False)
    # three generations with step sizes printed to five digits
    need(p.log != q.log, 'the seeds %d and %d lead to the same search:\n%s',
         c['args'][0], c['other'], '\n'.join(p.log[:5]))
    return dict(nontrivial=True)


def ev_opt(c, ctx):
    kw = dict(n=c['n'], kind=c['kind'], par=params(c), x0=c['x0'], d0=c['d0'],
              step=c['step'], parents=c['parents'], population=c['population'],
              stop=c['stop'], seed=c['seed'], modulus=c['modulus'],
              acc=c['acc'], maximize=c['maximize'])
    if c['bounds']:
        kw['lo'] = [x - 6.0 for x in c['x0']]
        kw['up'] = [x + 6.0 for x in c['x0']]
    a = opt.run(ctx, **kw)
    for delay, repeat in c['variants']:
        b = opt.run(ctx, delay=float(delay), repeat=repeat, **kw)
        need(a.rc == b.rc, 'another run fails')
        need(a.raw == b.raw, 'another run of an equal optimizer returns '
             'x = %r, y = %r instead of x = %r, y = %r (or other step sizes, '
             'uncertainties or covariances)', b.x.tolist(), b.y, a.x.tolist(),
             a.y)
        if not repeat:
            ga, gb = opt.generations(a), opt.generations(b)
            need(len(ga) == len(gb) and all(
                x.tobytes() == y.tobytes() for x, y in zip(ga, gb)),
                'another run of an equal optimizer evaluates other points')
    need(a.rc == 0, 'the optimizer failed')
    return dict(nontrivial=a.g > 0, classes=[
        'optimized' if a.optimized else 'underflow' if a.underflow
        else 'stopped'])


@st.composite
def opts(draw):
    c = draw(problem(stop=(1, 150)))
    c['maximize'] = draw(st.integers(0, 1))
    c['variants'] = draw(st.lists(st.tuples(
        st.sampled_from([0, 0, 100, 3000]), st.integers(0, 2)), min_size=2,
        max_size=2))
    return c


@st.composite
def races(draw):
    c = draw(fits.fit_case(maxgen=10, parents=(2, 6), sections=(1, 3),
                           lines=(1, 4), endings=('stop', 'stop', 'opt')))
    c['args'][5] = min(c['args'][5], 40)
    c['schedule'] = [draw(st.sampled_from(MODES)), draw(st.integers(0, 999))]
    return c


def ev_races(c, ctx):
    """Threads that share data without synchronisation depend on the schedule."""
    d = ctx.fresh()
    spec.write_data(c, d)
    exe = os.path.join(ctx.built['clitsan'], c['flavour'])
    env = dict(os.environ, TSAN_OPTIONS='exitcode=77:halt_on_error=1')
    a = spec.run([exe] + [str(x) for x in c['args']], spec.model_text(c),
                 cwd=d, env=env)
    need('ThreadSanitizer' not in a.err and a.rc != 77,
         'threads access the same data without synchronisation: the result '
         'depends on the schedule\n%s', a.err[:1500])
    if fits.bad_end(a):
        return dict(nontrivial=False, classes=['status 16'])
    return dict(nontrivial=c['args'][5] > 0, classes=['status %d' % a.rc])


PROP = Prop(
    'C01',
    [Sub('schedules', schedules, ev_schedules, 300, 8000),
     Sub('seeds', seeds, ev_seeds, 300, 8000),
     Sub('optimizer', opts, ev_opt, 220, 6000),
     Sub('races', races, ev_races, 300, 8000)],
    rule='Hypothesis draws models, data, strategy settings and thread '
    'schedules: a preloaded library delays threads at random, lets the threads '
    'of a generation start together or run one by one in random order; others '
    'run on one processor, with low priority, or are told of other processor '
    'numbers, another date and find other garbage in fresh memory. Output and exit status of all '
    'runs are compared byte by byte; optimizers are compared bit by bit after '
    'repeated use and with uneven work per thread; other seeds must lead to '
    'another log; instrumented programs report unsynchronised accesses. '
    'Non-trivial: at least one generation was evaluated.',
    technique='property-based testing with generated thread schedules '
    '(differential between runs) and the thread sanitizer',
    level_note='Sampled schedules: the shim controls start and order of the '
    'threads, not every interleaving inside them; races are found by the '
    'sanitizer on any schedule of the same accesses.',
    setup=setup, confirm='any')
