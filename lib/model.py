"""Independent reference models: nothing here comes from the code under test."""
import hashlib
import random

M64 = (1 << 64) - 1


def nbytes(bits):
    return (bits + 7) // 8


def le(z, n=None):
    return z.to_bytes(nbytes(z.bit_length()) if n is None else n, "little")


# ---- pseudo-random function: chained SHA-1 of seed and index
def prf(seed, index, bits):
    n = nbytes(bits)
    d = hashlib.sha1(le(seed) + index.to_bytes(8, "little")).digest()
    out = bytearray(d)
    while len(out) < n:
        d = hashlib.sha1(d).digest()
        out += d
    return int.from_bytes(out[:n], "little") & ((1 << bits) - 1)


def zzpprf(p, seed, index, bits, modulo=None):
    m = (modulo or p).bit_length()
    g = m if bits == 0 or bits > m else bits
    return prf(seed % p, index, g) % p


# ---- MurmurHash3_x64_128 (from the published algorithm)
def murmur3_x64_128(data, seed):
    c1, c2 = 0x87C37B91114253D5, 0x4CF5AD432745937F
    rotl = lambda x, r: ((x << r) | (x >> (64 - r))) & M64

    def fmix(k):
        k ^= k >> 33
        k = k * 0xFF51AFD7ED558CCD & M64
        k ^= k >> 33
        k = k * 0xC4CEB9FE1A85EC53 & M64
        return k ^ (k >> 33)

    h1 = h2 = seed & M64
    n = len(data)
    for i in range(0, n - n % 16, 16):
        k1 = int.from_bytes(data[i:i + 8], "little")
        k2 = int.from_bytes(data[i + 8:i + 16], "little")
        h1 ^= rotl(k1 * c1 & M64, 31) * c2 & M64
        h1 = ((rotl(h1, 27) + h2) * 5 + 0x52DCE729) & M64
        h2 ^= rotl(k2 * c2 & M64, 33) * c1 & M64
        h2 = ((rotl(h2, 31) + h1) * 5 + 0x38495AB5) & M64
    t = data[n - n % 16:]
    k1 = int.from_bytes(t[:8], "little")
    k2 = int.from_bytes(t[8:], "little")
    if len(t) > 8:
        h2 ^= rotl(k2 * c2 & M64, 33) * c1 & M64
    if t:
        h1 ^= rotl(k1 * c1 & M64, 31) * c2 & M64
    h1 ^= n
    h2 ^= n
    h1 = (h1 + h2) & M64
    h2 = (h2 + h1) & M64
    h1, h2 = fmix(h1), fmix(h2)
    h1 = (h1 + h2) & M64
    h2 = (h2 + h1) & M64
    return h1.to_bytes(8, "little") + h2.to_bytes(8, "little")


def alg_digest(alg, z, ln=0):
    """digest of the number z in decimal, of its first ln digits when 0 < ln < digits"""
    s = str(z).encode()
    if 0 < ln < len(s):
        s = s[:ln]
    if alg[0] == "mh3":
        return murmur3_x64_128(s, alg[1])
    if alg[0] == "sha256":
        return hashlib.sha256(s).digest()
    return hashlib.sha1(s).digest()


def bucket_of(digest, k):
    return int.from_bytes(digest, "little") % k


# ---- polynomials over Z/p, lists of coefficients from the constant term
def pmul(a, b, p):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return [c % p for c in r]


def peval(a, x, p):
    r = 0
    for c in reversed(a):
        r = (r * x + c) % p
    return r


def from_roots(rs, p):
    r = [1]
    for z in rs:
        # times (X - z)
        n = [0] + r
        for i, c in enumerate(r):
            n[i] = (n[i] - c * z) % p
        r = n
    return r


def strip(a):
    while a and a[-1] == 0:
        a.pop()
    return a


class Interpolator:
    """interpolation at fixed points (Lagrange with a common product)"""

    def __init__(self, xs, p):
        self.xs, self.p = xs, p
        self.ok = len(set(xs)) == len(xs)
        if not self.ok:
            return
        full = from_roots(xs, p)
        self.basis = []
        for x in xs:
            q, c = [0] * len(xs), 0
            for i in range(len(xs), 0, -1):  # synthetic division
                c = (full[i] + c * x) % p
                q[i - 1] = c
            w = pow(peval(q, x, p), -1, p)
            self.basis.append([v * w % p for v in q])

    def __call__(self, ys):
        p, n = self.p, len(self.xs)
        r = [0] * n
        for y, b in zip(ys, self.basis):
            for i in range(n):
                r[i] += y * b[i]
        return strip([v % p for v in r])


def divide_root(a, z, p):
    """quotient and remainder of a by (X - z)"""
    q, c = [0] * (len(a) - 1), 0
    for i in range(len(a) - 1, 0, -1):
        c = (a[i] + c * z) % p
        q[i - 1] = c
    return q, (a[0] + c * z) % p


# ---- primes
def is_prime(n):
    if n < 2:
        return False
    small = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)
    for q in small:
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    rnd = random.Random(n & M64)
    for a in list(small) + [rnd.randrange(2, n - 1) for _ in range(8)]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prime(rng, bits):
    while True:
        n = rng.getrandbits(bits) | (1 << (bits - 1)) | 1
        if is_prime(n):
            return n


_PRIMES = {}


def prime_of(rng, bits, pool=6):
    """one of a few primes of that many bits: the least, the greatest, random ones (the same in every process)"""
    i = rng.randrange(pool)
    if bits >= 400:
        i = 2
    if (bits, i) not in _PRIMES:
        if i < 2:
            n = (1 << (bits - 1)) | 1 if i == 0 else (1 << bits) - 1
            while not is_prime(n):
                n += 2 if i == 0 else -2
        else:
            n = prime(random.Random("prime:%d:%d" % (bits, i)), bits)
        _PRIMES[(bits, i)] = n
    return _PRIMES[(bits, i)]
