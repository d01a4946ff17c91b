import numpy as np
from hypothesis import strategies as st

from .. import num
from ..core import Prop, Sub
from .common import need

NAMES = ['D_Decompose', 'R_Decompose', 'X_Decompose', 'Decompose']
EPS = np.finfo(float).eps


@st.composite
def matrices(draw, n=None):
    if n is None:
        n = draw(st.one_of(st.integers(1, 12), st.integers(13, 60)))
    kind = draw(st.sampled_from(
        ['dense', 'spectrum', 'graded', 'clustered', 'degenerate', 'singular',
         'zero', 'diagonal', 'blocks', 'identity', 'tridiagonal', 'integer',
         'covariance']))
    return dict(n=n, kind=kind, seed=draw(st.integers(0, 99999)),
                scale=draw(st.sampled_from([0, 0, 0, -30, 30, -60, 60,
                                            -100, 100])))


def matrix(m):
    n, k = m['n'], m['kind']
    rng = np.random.default_rng(m['seed'])
    q = np.linalg.qr(rng.standard_normal((n, n)))[0]

    def spectrum(w):
        return (q * w) @ q.T
    if k == 'dense':
        A = rng.standard_normal((n, n))
    elif k == 'spectrum':
        A = spectrum(rng.uniform(-1, 1, n))
    elif k == 'graded':
        s = 10.0 ** np.linspace(0, -14, n)
        A = rng.standard_normal((n, n)) * np.sqrt(np.outer(s, s))
    elif k == 'clustered':
        A = spectrum(1 + 1e-13 * rng.standard_normal(n))
    elif k == 'degenerate':
        A = spectrum(rng.integers(-2, 3, n).astype(float))
    elif k == 'singular':
        w = rng.standard_normal(n)
        w[:max(1, n // 2)] = 0
        A = spectrum(w)
    elif k == 'zero':
        A = np.zeros((n, n))
    elif k == 'diagonal':
        A = np.diag(rng.standard_normal(n))
    elif k == 'blocks':
        A = np.zeros((n, n))
        h = n // 2
        A[:h, :h] = rng.standard_normal((h, h))
        A[h:, h:] = rng.standard_normal((n - h, n - h))
    elif k == 'identity':
        A = np.eye(n)
    elif k == 'tridiagonal':
        e = rng.standard_normal(n - 1)
        A = np.diag(rng.standard_normal(n)) + np.diag(e, 1) + np.diag(e, -1)
    elif k == 'integer':
        A = rng.integers(-3, 4, (n, n)).astype(float)
    else:
        A = spectrum(10.0 ** rng.uniform(-14, 0, n))
    A = np.triu(A) + np.triu(A, 1).T
    return A * 10.0 ** m['scale']


# dsyevx may report that inverse iteration failed for multiple eigenvalues
MULTIPLE = ('degenerate', 'singular', 'clustered', 'integer', 'blocks',
            'zero', 'identity')


def check(A, rc, Z, w, name, kind=''):
    n = len(A)
    if rc != 0 and name[0] == 'X' and kind in MULTIPLE:
        return False
    need(rc == 0, '%s failed for a matrix of dimension %d', name, n)
    need(np.all(np.isfinite(w)) and np.all(np.isfinite(Z)),
         '%s: result is not finite', name)
    need(np.all(np.diff(w) >= 0), '%s: eigenvalues %r are not in ascending '
         'order', name, w.tolist())
    e = np.abs(Z.T @ Z - np.eye(n)).max()
    tol = 20 * (n + 10) * EPS        # worst observed: 3.5 of 20
    # MRRR and inverse iteration: less orthogonal than divide and conquer
    limit = tol * (1 if name[0] == 'D' and len(name) > 9 else 40)
    if limit > tol and n > 30 and (n > 60 or kind in MULTIPLE):
        # eigenvectors of large clusters
        limit = 1e-6
    need(e <= limit,
         '%s: eigenvectors deviate by %g from '
         'orthonormality', name, e)
    s = np.abs(A).max()
    if s == 0:
        need(np.all(w == 0), '%s: eigenvalues of the zero matrix %r', name,
             w.tolist())
        return
    B = A / s
    r = np.abs(B @ Z - Z * (w / s)).max()
    norm = np.linalg.norm(B, 2)
    need(r <= tol * norm, '%s: residual %g of a matrix of norm %g, dimension '
         '%d', name, r, norm, n)
    ref = np.linalg.eigvalsh(B)
    d = np.abs(w / s - ref).max()
    need(d <= tol * norm, '%s: eigenvalues deviate by %g from the reference',
         name, d)
    return True


def ev(c, ctx):
    A = matrix(c)
    n = len(A)
    rng = np.random.default_rng(c['seed'] + 1)
    ws = {}
    failed = False
    for k, name in enumerate(NAMES):
        flat = A.flatten(order='F')
        dec = num.Dec(ctx, k, n)
        rc, Z, w, after = dec(flat)
        if not check(A, rc, Z, w, name, c['kind']):
            failed = True
            continue
        need(np.array_equal(after, flat), '%s: the input was changed', name)
        ws[k] = w
        # the other triangle is not referenced
        B = np.triu(A) + np.tril(rng.standard_normal((n, n)) * 10.0 **
                                 rng.integers(-3, 200), -1)
        rc, Z2, w2, _ = dec(B.flatten(order='F'))
        need(rc == 0 and np.array_equal(w, w2) and np.array_equal(Z, Z2),
             '%s: the result depends on the lower triangle', name)
    s = np.abs(A).max()
    if s:
        for k in [q for q in (1, 2, 3) if q in ws]:
            d = np.abs(ws[k] - ws[0]).max() / s
            need(d <= 40 * (n + 10) * EPS * max(1, np.sqrt(n)),
                 '%s and D_Decompose differ by %g', NAMES[k], d)
    return dict(nontrivial=n > 1 and c['kind'] not in ('zero', 'identity'),
                classes=[c['kind'], 'n<=12' if n <= 12 else 'n>12',
                         'scale 1e%d' % c['scale']]
                + (['failure reported'] if failed else []))


@st.composite
def large(draw):
    return draw(matrices(n=draw(st.integers(61, 200))))


@st.composite
def sequences(draw):
    n = draw(st.integers(1, 16))
    return dict(kind=draw(st.integers(0, 3)), n=n, ms=[
        draw(matrices(n=n)) for _ in range(draw(st.integers(2, 5)))])


def ev_sequence(c, ctx):
    dec = num.Dec(ctx, c['kind'], c['n'])
    for i, m in enumerate(c['ms']):
        A = matrix(m)
        f = A.flatten(order='F')
        rc, Z, w, _ = dec(f)
        if not check(A, rc, Z, w, NAMES[c['kind']], m['kind']):
            continue
        rc, Y, v, _ = num.Dec(ctx, c['kind'], c['n'])(f)
        need(np.array_equal(Z, Y) and np.array_equal(w, v),
             '%s: decomposition %d of an object differs from that of a new '
             'object', NAMES[c['kind']], i + 1)
    return dict(classes=[NAMES[c['kind']]])


PROP = Prop(
    'C20',
    [Sub('matrices', matrices, ev, 2500, 40000),
     Sub('large', large, ev, 150, 2000),
     Sub('sequences', sequences, ev_sequence, 1500, 25000)],
    rule='Hypothesis draws dimension (1 to 60, some up to 200), kind of spectrum (dense, '
    'graded, clustered, degenerate, singular, covariance with condition up to '
    '1e14, ...) and scale (1e-100 to 1e100); residual, orthonormality, order '
    'and eigenvalues (against LAPACK through numpy) are checked for all '
    'classes. "sequences": several decompositions by one object compared with '
    'new objects. Non-trivial: dimension above one and not zero or identity.',
    technique='property-based testing (defining equations as oracle, '
    'differential against numpy)',
    level_note='Tolerances are 20 (n + 10) machine epsilons of the norm (800 for '
    'the orthogonality of the R and X variants, 1e-6 in large dimensions); X_Decompose may report a '
    'failure for multiple eigenvalues, as LAPACK documents.',
    setup=num.setup)
