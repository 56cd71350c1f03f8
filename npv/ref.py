"""Executable reference on plain integers (used to search and replay concrete witnesses, never to decide)."""
from .lcg import GENS, Lcg

M32, M64 = (1 << 32) - 1, (1 << 64) - 1


# ---- LCRNG
def lcg_params(name):
    w, m, a, rev, dist = GENS[name]
    mod = 1 << w
    if rev:
        m2 = pow(m, -1, mod)
        m, a = m2, -a * m2 % mod
    return w, m, a, dist


def lcg_step(name, s):
    w, m, a, dist = lcg_params(name)
    return (m * s + a) % (1 << w)


def lcg_jump(name, s, n):
    w, m, a, dist = lcg_params(name)
    return Lcg(w, m, a).iterate(s, n)


def lcg_rand(name, s, mx):
    """(value, new seed)"""
    w, m, a, dist = lcg_params(name)
    s = lcg_step(name, s)
    raw = s >> (w // 2)
    if dist == "mod":
        return raw % mx, s
    if dist == "div":
        return raw // (0xFFFF // mx + 1), s
    return raw * mx >> (w // 2), s


# ---- MT19937
def mt_init(seed):
    x = [seed & M32]
    for i in range(1, 624):
        x.append((1812433253 * (x[-1] ^ x[-1] >> 30) + i) & M32)
    return x


def mt_twist(x):
    x = list(x)
    for i in range(624):
        y = (x[i] & 0x80000000) | (x[(i + 1) % 624] & 0x7FFFFFFF)
        x[i] = x[(i + 397) % 624] ^ (y >> 1) ^ (0x9908B0DF if y & 1 else 0)
    return x


def mt_temper(y):
    y ^= y >> 11
    y ^= (y << 7) & 0x9D2C5680
    y ^= (y << 15) & 0xEFC60000
    return y ^ (y >> 18)


# ---- SFMT19937
MSK = (0xDFFFFFEF, 0xDDFECB7F, 0xBFFAFFFF, 0xBFFFFFF6)
PARITY = (1, 0, 0, 0x13C9E684)


def sfmt_init(seed):
    x = mt_init(seed)
    inner = 0
    for i in range(4):
        inner ^= x[i] & PARITY[i]
    if bin(inner).count("1") & 1 == 0:
        x[0] ^= 1
    return x


def sfmt_twist(x):
    x = list(x)
    W = lambda i: sum(x[4 * i + j] << 32 * j for j in range(4))
    m = (1 << 128) - 1
    for i in range(156):
        a, b, c, d = W(i), W((i + 122) % 156), W((i + 154) % 156), W((i + 155) % 156)
        p, q = (a << 8) & m, c >> 8
        for j in range(4):
            e = lambda v: v >> (32 * j) & M32
            x[4 * i + j] = e(a) ^ e(p) ^ (e(b) >> 11 & MSK[j]) ^ e(q) ^ (e(d) << 18 & M32)
    return x


# ---- TinyMT
def tiny_next(s):
    y = s[3]
    x = (s[0] & 0x7FFFFFFF) ^ s[1] ^ s[2]
    x ^= (x << 1) & M32
    y ^= (y >> 1) ^ x
    return [s[1], s[2] ^ (0x8F7011EE if y & 1 else 0), (x ^ (y << 10 & M32)) ^ (0xFC78FF1F if y & 1 else 0), y]


def tiny_temper(s):
    t = (s[0] + (s[2] >> 8)) & M32
    return s[3] ^ t ^ (0x3793FDFF if t & 1 else 0)


def tiny_init(seed):
    s = [seed & M32, 0x8F7011EE, 0xFC78FF1F, 0x3793FDFF]
    for i in range(1, 8):
        p = s[(i - 1) & 3]
        s[i & 3] ^= (1812433253 * (p ^ p >> 30) + i) & M32
    if s[0] & 0x7FFFFFFF == 0 and s[1] == s[2] == s[3] == 0:
        s = [ord(c) for c in "TINY"]
    for _ in range(8):
        s = tiny_next(s)
    return s


class MTRef:
    """position-independent sequence model: state block + index"""

    def __init__(self, cls, block, index=624):
        self.cls, self.x, self.i = cls, list(block), index
        self.step = 2 if cls == "SIMDFastMersenneTwister" else 1

    @staticmethod
    def seeded(cls, seed):
        return MTRef(cls, sfmt_init(seed) if cls == "SIMDFastMersenneTwister" else mt_init(seed))

    def twist(self):
        self.x = (sfmt_twist if self.step == 2 else mt_twist)(self.x)

    def next(self):
        if self.i >= 624:
            self.twist()
            self.i = 0
        if self.step == 2:
            r = self.x[self.i] | self.x[self.i + 1] << 32
        else:
            r = mt_temper(self.x[self.i])
        self.i += self.step
        return r

    def advance(self, n):
        p = self.i + n * self.step
        while p >= 624:
            self.twist()
            p -= 624
        self.i = p


# ---- xorshift family
def rotl(v, n, w):
    n %= w
    return ((v << n) | (v >> (w - n))) & ((1 << w) - 1)


def xs_next(s):
    t = s[0]
    t ^= (t << 11) & M32
    t ^= t >> 8
    t ^= s[3] ^ (s[3] >> 19)
    return [s[1], s[2], s[3], t]


def xo_next(s):
    a, b = s
    b ^= a
    return [rotl(a, 24, 64) ^ b ^ ((b << 16) & M64), rotl(b, 37, 64)]


def splitmix(seed, gamma):
    z = (seed + gamma) & M64
    z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9 & M64
    z = (z ^ z >> 27) * 0x94D049BB133111EB & M64
    return z ^ z >> 31


G = 0x9E3779B97F4A7C15


def smx_init(seed):
    return [splitmix(seed, G), splitmix(seed, 2 * G & M64)]


def bit_mask(mx):
    return (1 << ((mx - 1) & M32).bit_length()) - 1 if (mx - 1) & M32 else 0
