"""Models, data, program runs, result parsing and the reference forward model."""
import math
import os
import re
import subprocess

import numpy as np
from hypothesis import strategies as st

from . import build
from .core import Violation

NPAR = build.NPAR
FLAVOURS = build.FLAVOURS
# CODATA 2018
C0 = 299792458.0
E_CH, EPS0, M_E = 1.602176634e-19, 8.8541878128e-12, 9.1093837015e-31
# integral of the optical depth over wavelength (Angstrom) per
# f * N (cm-2) * l0 * lc (Angstrom^2)
K_TAU = 1e-6 * E_CH ** 2 / (4.0 * EPS0 * M_E * C0 ** 2)
K_DAMP = 1e-10 / (4.0 * math.pi * C0)
CK = C0 / 1000.0


def fmt(x):
    if isinstance(x, (int, str)):
        return str(x)
    return repr(float(x))


# ---------------------------------------------------------------- data files
def grid(d):
    """Wavelengths of a data spec, as they read back from the file."""
    n, w0 = d['n'], d['w0']
    i = np.arange(n)
    if d.get('kind', 'lin') == 'lin':
        w = w0 + d['dw'] * i
    elif d['kind'] == 'log':
        w = w0 * np.exp(i * (d['dw'] / w0))
    else:
        rng = np.random.default_rng(d.get('seed', 0) + 17)
        w = w0 + d['dw'] * (i + d.get('jitter', 0.3) * (rng.random(n) - 0.5))
    if 'digits' in d:
        w = np.round(w, d['digits'])
    return w


def data_rows(d):
    """(wav, flx, unc, msk) arrays of a data spec."""
    w = grid(d)
    n = d['n']
    rng = np.random.default_rng(d.get('seed', 0))
    z = rng.standard_normal(n)
    t = np.linspace(-1, 1, n) if n > 1 else np.zeros(n)
    base = d.get('level', 1.0) * (1 + d.get('slope', 0.0) * t
                                  + d.get('curve', 0.0) * t * t)
    unc = d.get('unc', 0.05) * (1 + d.get('het', 0.0) * rng.random(n)) \
        * abs(d.get('level', 1.0))
    ab = d.get('absorb')
    if ab and ab['q'] and n > 2:
        base = base * transmission(ab['flavour'], ab['q'], w, ab['res'])[2]
    flx = base + unc * z * d.get('noise', 1.0)
    msk = np.ones(n, dtype=int)
    if d.get('maskp', 0):
        msk = (rng.random(n) >= d['maskp']).astype(int)
    return w, flx, unc, msk


def data_text(d, cols=4):
    w, f, u, m = data_rows(d)
    c = [w, f, u, m][:cols]
    return ''.join(' '.join(fmt(x) if k < 3 else str(int(x))
                            for k, x in enumerate(r)) + '\n'
                   for r in zip(*c))


# ---------------------------------------------------------------- model text
def param_text(p):
    s = '%s %s %s %d' % (fmt(p['v']), fmt(p['lo']), fmt(p['up']), p['opt'])
    return s + (' ' + p['ref'] if p.get('ref') else '')


def fixed(v):
    return dict(v=v, lo=0, up=0, opt=0)


def free(lo, up, v=0.0):
    return dict(v=v, lo=lo, up=up, opt=1)


def section_text(s):
    head = '{ %s %s %s %s %d' % (s['id'], s['file'], fmt(s['a']), fmt(s['b']),
                                s['npoly'])
    for e in s.get('excl', ()):
        head += ' %s %s' % (fmt(e[0]), fmt(e[1]))
    out = [head, param_text(s['res'])]
    for ln in s['lines']:
        out.append(ln['id'])
        out += [param_text(p) for p in ln['p']]
    return '\n'.join(out) + '\n}\n'


def model_text(m):
    return '\n'.join(section_text(s) for s in m['sections'])


def write_data(m, d):
    for s in m['sections']:
        if 'data' in s:
            with open(os.path.join(d, s['file']), 'w') as f:
                f.write(data_text(s['data'], s.get('cols', 4)))


class Run:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def run(cmd, stdin=b'', cwd=None, timeout=100, env=None, pre=None):
    if isinstance(stdin, str):
        stdin = stdin.encode('latin-1')
    try:
        p = subprocess.run(cmd, input=stdin, cwd=cwd, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env, preexec_fn=pre)
    except subprocess.TimeoutExpired:
        raise Violation('%s did not end within %d s' % (' '.join(cmd), timeout))
    return Run(p.returncode, p.stdout.decode('latin-1'),
               p.stderr.decode('latin-1'))


STATIC = ['1', '1', '2', '1', '1e-4', '0', '0']   # evaluate at the start only


def fit(ctx, flavour, text, d, args=STATIC, kind='cli', timeout=100):
    exe = os.path.join(ctx.built[kind], flavour)
    return run([exe] + [str(a) for a in args], text, cwd=d, timeout=timeout)


# ------------------------------------------------------------ result parsing
def between(lines, tags, ends):
    out, on = [], False
    for ln in lines:
        if on and ln not in ends:
            out.append(ln)
        else:
            on = ln in tags
    return out


TD = re.compile(r'<td>(.*?)</td>')


def _num(s):
    s = s.replace('<strong>', '').replace('</strong>', '')
    a = s.split(' &plusmn; ')
    return float(a[0]), (float(a[1]) if len(a) > 1 else None)


class Result:
    """A parsed result file; raises Violation where it is not well formed."""

    def __init__(self, text, flavour=None):
        self.text = text
        L = text.split('\n')
        self.command = between(L, ('<command>',), ('</command>',))
        self.model = between(L, ('<model>',), ('</model>',))
        self.log = between(L, ('<log>',), ('</log>',))
        self.message = between(L, ('<message>',), ('</message>',))
        self.datal = between(L, ('<data>',), ('</data>',))
        self.sections, self.lines = {}, {}
        self.data = []
        cur = []
        try:
            for ln in self.datal + ['']:
                if ln == '':
                    if cur:
                        self.data.append(np.array(cur))
                    cur = []
                else:
                    row = [float(x) for x in ln.split()]
                    if len(row) != 13:
                        raise Violation('data row with %d columns: %r'
                                        % (len(row), ln))
                    cur.append(row)
            mode, k = None, 0
            rows = []
            for ln in L:
                if '<tbody' in ln:
                    mode = ('section', 'line')[k]
                    k += 1
                    rows = []
                elif '</tbody>' in ln:
                    mode = None
                elif mode and '<tr>' in ln:
                    rows = []
                elif mode and '</tr>' in ln:
                    self._row(mode, rows)
                elif mode:
                    m = TD.search(ln)
                    if m:
                        rows.append(m.group(1))
            self.logrows = [[float(x) for x in ln.split()] for ln in self.log]
        except ValueError as e:
            raise Violation('malformed result file: %s' % e)

    def _row(self, mode, c):
        if mode == 'section':
            if len(c) != 8:
                raise Violation('section row with %d cells' % len(c))
            self.sections[c[0]] = dict(
                lo=float(c[1]), up=float(c[2]), npoly=int(c[3]), res=_num(c[4]),
                n=int(c[5]), cost=_num(c[6])[0], per=float(c[7]))
        else:
            self.lines[c[0]] = dict(
                w=_num(c[1]), x=_num(c[2]), f=_num(c[3]), z=_num(c[4]),
                v=_num(c[5]), b=_num(c[6]), N=_num(c[7]), ew=_num(c[8])[0],
                **({'da': _num(c[9])} if len(c) > 9 else {}))


WAV, FLX, UNC, MSK, OPT, ATM, CAT, CFL, TFL, FIT, RES, NFL, NUN = range(13)


# ------------------------------------------------------------ reference model
def line_geometry(flavour, q):
    """(effective rest wavelength, centre, redshift factor)."""
    l0 = q[0]
    if flavour == 'azafran':
        k = 1e8 / q[0]
        da = q[7] * 1e-6
        l0 = 1e8 / (k + q[6] * ((1 + da) ** 2 - 1))
    zf = (1 + q[2]) * (1 + q[3] / CK)
    return l0, l0 * zf, zf


def area(flavour, q):
    l0, lc, _ = line_geometry(flavour, q)
    return K_TAU * q[1] * 10.0 ** q[5] * l0 * lc


def gauss(x, b):
    return np.exp(-(x / b) ** 2) / (math.sqrt(math.pi) * b)


def lorentz(x, g):
    return g / (math.pi * (x * x + g * g))


def voigt(x, b, d):
    from scipy.special import wofz
    return wofz((x + 1j * d) / b).real / (b * math.sqrt(math.pi))


SQLN2 = math.sqrt(math.log(2.0))


def pseudo_voigt(x, b, d):
    """Thompson et al. pseudo-Voigt as given by Ida et al. (2000)."""
    if d == 0:
        return gauss(x, b)
    G = SQLN2 * b            # HWHM of the Gaussian
    F = (G ** 5 + 2.69269 * G ** 4 * d + 2.42843 * G ** 3 * d ** 2
         + 4.47163 * G ** 2 * d ** 3 + 0.07842 * G * d ** 4 + d ** 5) ** 0.2
    r = d / F
    eta = 1.36603 * r - 0.47719 * r * r + 0.11116 * r ** 3
    return (1 - eta) * gauss(x, F / SQLN2) + eta * lorentz(x, F)


def ext_pseudo_voigt(x, b, d):
    """The extended pseudo-Voigt function of Ida et al. (2000)."""
    G, L = SQLN2 * b, d      # HWHM; formulas of the paper hold for FWHM too
    W = G + L
    r = L / W
    P = np.polynomial.polynomial.polyval
    wg = 1 - r * P(r, [0.66, 0.15021, -1.24984, 4.74052, -9.48291, 8.48252,
                       -2.95553])
    wl = 1 - (1 - r) * P(r, [-0.42179, -1.25693, 10.30003, -23.45651, 29.14158,
                             -16.50453, 3.19974])
    wi = P(r, [1.19913, 1.43021, -15.36331, 47.06071, -73.61822, 57.92559,
               -17.80614])
    wp = P(r, [1.10186, -0.47745, -0.68688, 2.76622, -4.55466, 4.05475,
               -1.26571])
    el = r * (1 + (1 - r) * P(r, [-0.30165, -1.38927, 9.3155, -24.10743,
                                  34.96491, -21.18862, 3.7029]))
    ei = r * (1 - r) * P(r, [0.25437, -0.14107, 3.23653, -11.09215, 22.10544,
                             -24.12407, 9.76947])
    ep = r * (1 - r) * P(r, [1.01579, 1.50429, -9.21815, 23.59717, -39.71134,
                             32.83023, -10.02142])
    gg = W * wg / SQLN2
    gl = W * wl
    gi = W * wi / math.sqrt(2.0 ** (2.0 / 3.0) - 1)
    gp = W * wp / math.log(math.sqrt(2.0) + 1)
    x = np.asarray(x, dtype=float)
    with np.errstate(over='ignore'):
        sech2 = 1.0 / np.cosh(np.clip(x / gp, -300, 300)) ** 2
    return ((1 - el - ei - ep) * gauss(x, gg)
            + (el * lorentz(x, gl) if el else 0.0)
            + ei * 0.5 / gi * (1 + (x / gi) ** 2) ** -1.5
            + ep * 0.5 / gp * sech2)


def shape(flavour, q, x, exact=False):
    """Unit-area profile at wavelengths x."""
    l0, lc, zf = line_geometry(flavour, q)
    b = q[4] / CK * lc
    y = np.asarray(x, dtype=float) - lc
    if flavour in ('azafran', 'curcuma'):
        return gauss(y, b)
    d = K_DAMP * q[6] * l0 * lc
    if exact:
        return voigt(y, b, d)
    if flavour == 'oregano':
        return pseudo_voigt(y, b, d)
    return ext_pseudo_voigt(y, b, d)


def tau(flavour, qs, x):
    t = np.zeros(len(x))
    for q in qs:
        t = t + area(flavour, q) * shape(flavour, q, x)
    return t


def peak(flavour, q):
    l0, lc, zf = line_geometry(flavour, q)
    return float(area(flavour, q) * shape(flavour, q, np.array([lc]))[0])


def sampling(wav, res):
    """(supersampling factor, spacing, HWHM, half number of cells)."""
    n = len(wav)
    h = 0.5 * 0.5 * (wav[0] + wav[-1]) / (res * 1000.0)
    d = (wav[-1] - wav[0]) / (n - 1)
    s = int(math.ceil(d / h))
    w = d / s
    m = int(4.0 * (h / w))
    return s, w, h, m


def convolve(atm, w, h, m, step):
    """Exact convolution of the piecewise linear interpolant of atm (spacing w)
    with a Gaussian of HWHM h, truncated at m cells, at every step-th sample;
    the outermost interval repeats beyond the ends."""
    from scipy.special import erf
    sg = h / math.sqrt(2 * math.log(2.0))
    ns = len(atm)
    k = np.arange(-m, m)                 # cell [k, k+1] * w relative to centre
    x0, x1 = k * w, (k + 1) * w
    I0 = 0.5 * (erf(x1 / (sg * math.sqrt(2))) - erf(x0 / (sg * math.sqrt(2))))
    g = lambda x: np.exp(-0.5 * (x / sg) ** 2) / (sg * math.sqrt(2 * math.pi))
    I1 = sg * sg * (g(x0) - g(x1))       # integral of x G
    c = np.arange(0, ns, step)
    idx = np.clip(c[:, None] + k[None, :], 0, ns - 2)
    A, B = atm[idx], atm[idx + 1]
    slope = (B - A) / w
    return ((A - slope * x0) * I0 + slope * I1).sum(axis=1)


def transmission(flavour, qs, wav, res):
    """(optical depth, transmission, convoluted transmission) at wav."""
    n = len(wav)
    s, w, h, m = sampling(wav, res)
    if s == 1:
        ws = wav
    else:
        ws = np.interp(np.arange(s * (n - 1) + 1) / s, np.arange(n), wav)
    ts = tau(flavour, qs, ws)
    a = np.exp(-ts)
    return ts[::s], a[::s], convolve(a, w, h, m, s)


def continuum(wav, flx, unc, msk, cat, npoly):
    """Weighted least-squares polynomial, by orthogonal factorisation."""
    if npoly == 0:
        return np.ones(len(wav))
    t = 2.0 * (wav - wav[0]) / (wav[-1] - wav[0]) - 1.0
    V = np.polynomial.legendre.legvander(t, npoly - 1)
    k = msk.astype(bool)
    A = (V * (cat / unc)[:, None])[k]
    y = (flx / unc)[k]
    c, *_ = np.linalg.lstsq(A, y, rcond=None)
    return V @ c


def cont_condition(wav, unc, msk, cat, npoly):
    if npoly == 0:
        return 1.0
    t = 2.0 * (wav - wav[0]) / (wav[-1] - wav[0]) - 1.0
    V = np.polynomial.legendre.legvander(t, npoly - 1)
    k = msk.astype(bool)
    A = (V * (cat / unc)[:, None])[k]
    if A.shape[0] < npoly or not np.all(np.isfinite(A)):
        return np.inf
    sv = np.linalg.svd(A, compute_uv=False)
    return float(sv[0] / sv[-1]) if sv[-1] > 0 else np.inf


def in_window(w, a, b):
    return (a <= w) & (w <= b)


def section_arrays(s):
    """The data a section should use, from its spec."""
    w, f, u, m = data_rows(s['data'])
    cols = s.get('cols', 4)
    if cols < 3:
        u = np.ones(len(w))
    if cols < 4:
        m = np.ones(len(w), dtype=int)
    k = in_window(w, s['a'], s['b'])
    w, f, u, m = w[k], f[k], u[k], m[k].copy()
    for a, b in s.get('excl', ()):
        m[(a <= w) & (w <= b)] = 0
    return w, f, u, m


def resolve(m, flavour):
    """Parameter values of every line and section of a model spec after
    following references, free ones at the middle of their bounds.
    -> ({line: [q]}, {section: r}, {line: [free?]}, {section: free?})"""
    L = {ln['id']: ln['p'] for s in m['sections'] for ln in s['lines']}
    S = {s['id']: s['res'] for s in m['sections']}

    def follow(get, name):
        seen = set()
        while True:
            p = get(name)
            if not p.get('ref'):
                return p
            seen.add(name)
            name = p['ref']
            if name in seen:
                raise ValueError('cycle')

    def val(p):
        return 0.5 * (p['lo'] + p['up']) if p['opt'] else p['v']
    lv, lf = {}, {}
    for k in L:
        ps = [follow(lambda x: L[x][j], k) for j in range(NPAR[flavour])]
        lv[k] = [float(val(p)) for p in ps]
        lf[k] = [bool(p['opt']) for p in ps]
    sv = {k: float(val(follow(lambda x: S[x], k))) for k in S}
    sf = {k: bool(follow(lambda x: S[x], k)['opt']) for k in S}
    return lv, sv, lf, sf


# ------------------------------------------------------------------ strategies
def fl(a, b, digits=6):
    """A float in [a, b] on a decimal grid (prints exactly, shrinks well)."""
    k = 10 ** digits
    lo, hi = int(math.ceil(a * k)), int(math.floor(b * k))
    return st.integers(lo, hi).map(lambda i: i / k)


def wide(a, b):
    """A log-uniform-like float in [a, b], four significant digits."""
    return st.floats(math.log10(a), math.log10(b)).map(
        lambda e: min(b, max(a, float('%.4g' % 10.0 ** e))))


# ranges of wavelengths (Angstrom): optical, ultraviolet and infrared
WAVES = [(1200, 9000)] * 4 + [(300, 1200), (9000, 30000)]


@st.composite
def data_spec(draw, nmin=12, nmax=60, kinds=('lin',), dwmin=0.01, dwmax=0.5,
              maskp=False, digits=None):
    n = draw(st.integers(nmin, nmax))
    d = dict(n=n, w0=draw(fl(*draw(st.sampled_from(WAVES)), 2)),
             dw=draw(wide(dwmin, dwmax)), kind=draw(st.sampled_from(kinds)),
             seed=draw(st.integers(0, 99999)),
             level=draw(st.sampled_from([1.0, 1.0, 0.02, 350.0, 2.5e-13])),
             slope=draw(fl(-0.6, 0.6, 2)), curve=draw(fl(-0.3, 0.3, 2)),
             unc=draw(wide(0.005, 0.3)), het=draw(fl(0, 2, 1)),
             noise=draw(st.sampled_from([0.0, 1.0, 1.0, 3.0])))
    if maskp:
        d['maskp'] = draw(st.sampled_from([0.0, 0.0, 0.1, 0.3]))
    if digits is not None:
        d['digits'] = digits
    return d


@st.composite
def line_values(draw, flavour, w, dw, strong=True, pos=None):
    """Physical parameter values of a line centred near a grid w."""
    span = w[-1] - w[0]
    frac = draw(fl(-0.1, 1.1, 3)) if pos is None else draw(fl(pos[0], pos[1], 3))
    lc = w[0] + frac * span
    z = draw(st.sampled_from([0.0, 0.0, None, None]))
    if z is None:
        z = draw(fl(*draw(st.sampled_from(
            [(0.0, 4.5)] * 4 + [(4.5, 12.0), (-0.02, 0.0)])), 6))
    v = draw(st.sampled_from([0.0, None, None]))
    if v is None:
        v = draw(fl(*draw(st.sampled_from(
            [(-300, 300)] * 5 + [(-9000, 9000)])), 3))
    zf = (1 + z) * (1 + v / CK)
    x = round(lc / zf, 6)
    # Doppler width from half a pixel to a third of the section
    bmin = max(0.3 * dw, 1e-4 * lc / CK)
    b = round(float(draw(wide(bmin, max(bmin * 1.5, 0.3 * span)))) / lc * CK, 4)
    b = max(b, 1e-3)
    t0 = draw(wide(1e-3, 1e3 if strong else 5.0))
    f = draw(wide(1e-4, 1.2))
    lcc = x * zf
    bw = b / CK * lcc
    N = t0 * math.sqrt(math.pi) * bw / (K_TAU * f * x * lcc)
    q = [x, f, z, v, b, round(math.log10(N), 4)]
    if flavour in ('oregano', 'mascada'):
        ratio = draw(st.sampled_from([0, None, None, None]))
        if ratio is None:
            ratio = draw(wide(1e-4, 30.0))
        if ratio == 0 and flavour == 'oregano' and not OREGANO_ZERO:
            ratio = 1e-3
        q.append(float('%.5g' % (ratio * bw / (K_DAMP * x * lcc))))
    if flavour == 'azafran':
        q.append(draw(st.sampled_from([0.0, None, None])))
        q.append(draw(st.sampled_from([0.0, None, None])))
        if q[6] is None:
            q[6] = draw(fl(-2500, 2500, 1))
        if q[7] is None:
            # keep the line in place within a few pixels
            q[7] = draw(fl(-200, 200, 2))
    return q


OREGANO_ZERO = True


LARGE = ['sections', 'lines', 'points', 'exclusions']


@st.composite
def model_spec(draw, flavour=None, sections=(1, 2), lines=(0, 4), kinds=('lin',),
               npoly=(0, 3), nmin=12, nmax=60, dwmin=0.01, dwmax=0.5,
               res_per_pixel=(0.3, 8.0), maskp=False, excl=False, strong=True,
               window=False, pos=None, digits=None, large=True):
    """A model with fixed parameters; one of a dozen is large in some way."""
    fla = draw(st.sampled_from(FLAVOURS)) if flavour is None else flavour
    secs = []
    k = 0
    size = draw(st.sampled_from([''] * 44 + LARGE)) if large else ''
    if size == 'sections' and sections[1] > 1:
        sections, lines = (sections[1], 5 * sections[1]), (lines[0], 2)
    elif size == 'lines' and lines[1] > 1:
        lines = (lines[1], 8 * lines[1])
    elif size == 'points':
        nmin, nmax = nmax, 12 * nmax
    for i in range(draw(st.integers(*sections))):
        d = draw(data_spec(nmin, nmax, kinds, dwmin, dwmax, maskp, digits))
        w = grid(d)
        dw = (w[-1] - w[0]) / (len(w) - 1)
        # HWHM of the instrument in pixels
        hp = draw(wide(*res_per_pixel))
        r = float('%.6g' % (0.5 * 0.5 * (w[0] + w[-1]) / (hp * dw) / 1000.0))
        ls = []
        for _ in range(draw(st.integers(*lines))):
            k += 1
            ls.append(dict(id='L%d' % k, p=[
                fixed(x) for x in draw(line_values(fla, w, dw, strong, pos))]))
        s = dict(id='S%d' % (i + 1), file='d%d.dat' % (i + 1), a=0.0, b=99999.0,
                 npoly=draw(st.integers(*npoly)), res=fixed(r), lines=ls, data=d)
        if window and draw(st.booleans()):
            i0 = draw(st.integers(0, max(0, len(w) // 3)))
            i1 = draw(st.integers(2 * len(w) // 3, len(w) - 1))
            s['a'], s['b'] = float(w[i0]), float(w[i1])
        if excl:
            s['excl'] = []
            for _ in range(draw(st.integers(
                    0, 15 if size == 'exclusions' else 2))):
                j = draw(st.integers(0, len(w) - 1))
                l = draw(st.integers(0, max(1, len(w) // 6)))
                s['excl'].append([float(w[j]),
                                  float(w[min(len(w) - 1, j + l)])])
        secs.append(s)
    return dict(flavour=fla, sections=secs)


def rel(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.abs(a - b) / np.maximum(np.maximum(np.abs(a), np.abs(b)), 1e-300)
