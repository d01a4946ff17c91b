"""Reference random number generators, written from the published algorithms.

Mersenne twister: Matsumoto & Nishimura (1998), Nishimura (2000), initialised
with init_by_array; MELG19937-64: Harase & Kimoto (2018); PCG-XSH-RR 64/32:
O'Neill (2014).
"""
import random

M64 = (1 << 64) - 1
M32 = (1 << 32) - 1


def words_of(seed):
    """The array of seeds that a single seed stands for."""
    return [seed & M32, seed & (M64 ^ M32)]


class MT:
    def __init__(self, p, key):
        self.__dict__.update(p)
        w, n = self.w, self.n
        self.mask = (1 << w) - 1
        s = [19650218 & self.mask]
        for i in range(1, n):
            s.append((self.f1 * (s[-1] ^ (s[-1] >> (w - 2))) + i) & self.mask)
        i, j = 1, 0
        for _ in range(max(n, len(key))):
            s[i] = ((s[i] ^ ((s[i - 1] ^ (s[i - 1] >> (w - 2))) * self.f2))
                    + key[j] + j) & self.mask
            i, j = i + 1, (j + 1) % len(key)
            if i >= n:
                s[0], i = s[n - 1], 1
        for _ in range(n - 1):
            s[i] = ((s[i] ^ ((s[i - 1] ^ (s[i - 1] >> (w - 2))) * self.f3))
                    - i) & self.mask
            i += 1
            if i >= n:
                s[0], i = s[n - 1], 1
        s[0] = 1 << (w - 1)
        self.x = s
        self.k = 0

    def next(self):
        # x[k+n] = x[k+m] xor (upper(x[k]) | lower(x[k+1])) A, on a ring
        n, k, x = self.n, self.k % self.n, self.x
        lower = (1 << self.r) - 1
        y = (x[k] & (self.mask ^ lower)) | (x[(k + 1) % n] & lower)
        v = x[(k + self.m) % n] ^ (y >> 1) ^ (self.a if y & 1 else 0)
        x[k] = v
        self.k += 1
        v ^= (v >> self.u) & self.d
        v ^= (v << self.s) & self.b & self.mask
        v ^= (v << self.t) & self.c & self.mask
        v ^= v >> self.l
        return v


P32 = dict(w=32, f1=1812433253, f2=1664525, f3=1566083941, u=11, d=M32, s=7,
           t=15)
MT_PARAMS = {
    1: dict(P32, n=351, m=175, r=19, a=0xE4BD75F5, b=0x655E5280, c=0xFFD58000,
            l=17),
    2: dict(P32, n=351, m=175, r=19, a=0xCCAB8EE7, b=0x31B6AB00, c=0xFFE50000,
            l=17),
    3: dict(P32, n=624, m=397, r=31, a=0x9908B0DF, b=0x9D2C5680, c=0xEFC60000,
            l=18),
    4: dict(w=64, n=312, m=156, r=31, a=0xB5026F5AA96619E9, u=29,
            d=0x5555555555555555, s=17, b=0x71D67FFFEDA60000, t=37,
            c=0xFFF7EEE000000000, l=43, f1=6364136223846793005,
            f2=3935559000370003845, f3=2862933555777941757)}


class Melg:
    N, M, L = 311, 81, 19

    def __init__(self, key):
        N = self.N
        s = [19650218]
        for i in range(1, N + 1):
            s.append((6364136223846793005 * (s[-1] ^ (s[-1] >> 62)) + i) & M64)
        i, j = 1, 0
        for _ in range(max(N, len(key))):
            s[i] = ((s[i] ^ ((s[i - 1] ^ (s[i - 1] >> 62))
                             * 3935559000370003845)) + key[j] + j) & M64
            i, j = i + 1, (j + 1) % len(key)
            if i >= N:
                s[0], i = s[N - 1], 1
        for _ in range(N - 1):
            s[i] = ((s[i] ^ ((s[i - 1] ^ (s[i - 1] >> 62))
                             * 2862933555777941757)) - i) & M64
            i += 1
            if i >= N:
                s[0], i = s[N - 1], 1
        self.lung = ((s[N] ^ ((s[N - 1] ^ (s[N - 1] >> 62))
                              * 2862933555777941757)) - N) & M64
        s[0] |= 1 << 63
        self.s = s[:N]
        self.k = 0

    def next(self):
        N, s, k = self.N, self.s, self.k
        x = (s[k] & 0xFFFFFFFF80000000) | (s[(k + 1) % N] & 0x7FFFFFFF)
        self.lung = ((x >> 1) ^ (0x5C32E06DF730FC42 if x & 1 else 0)
                     ^ s[(k + self.M) % N]
                     ^ self.lung ^ (self.lung << 23)) & M64
        s[k] = x ^ self.lung ^ (self.lung >> 33)
        y = (s[k] ^ (s[k] << 16) & M64
             ^ (s[(k + self.L) % N] & 0x6AEDE6FD97B338EC))
        self.k = (k + 1) % N
        return y


class Pcg:
    def __init__(self, seed, selector=7863035247680335341):
        self.inc = ((selector << 1) | 1) & M64
        self.state = 0
        self.next()
        self.state = (self.state + seed) & M64
        self.next()

    def next(self):
        old = self.state
        self.state = (old * 6364136223846793005 + self.inc) & M64
        x = (((old >> 18) ^ old) >> 27) & M32
        r = old >> 59
        return ((x >> r) | (x << (-r & 31))) & M32


NAMES = ['MELG19937-64', 'MT11213A-32', 'MT11213B-32', 'MT19937-32',
         'MT19937-64', 'PCG-32']
WORD = [64, 32, 32, 32, 64, 32]


def make(kind, mode, seeds):
    if kind == 5:
        return Pcg(seeds[0], *([seeds[1]] if mode == 1 else []))
    key = words_of(seeds[0]) if mode == 0 else list(seeds)
    return Melg(key) if kind == 0 else MT(MT_PARAMS[kind], key)


def to_real(kind, x):
    """(numerator, denominator) of the real-valued output."""
    if WORD[kind] == 64:
        return x >> 11, (1 << 53) - 1
    return x, M32


def python_mt(key):
    """MT19937-32 of the Python library: init_by_array with 32-bit words."""
    # random.seed(int) uses the little-endian 32-bit words of the integer
    n = 0
    for i, k in enumerate(key):
        n |= (k & M32) << (32 * i)
    r = random.Random()
    r.seed(n)
    return r
