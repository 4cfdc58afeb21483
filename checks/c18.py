"""C18: helpers on big numbers."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C18"
TITLE = "The number helpers are exact for all sizes"
COUNTS = {"quick": 6000, "thorough": 80000}
CHUNK = 40
RULE = ("logarithm, blocks, byte lengths (of bits, numbers, field elements), paddings, trailing zeros, conversions of vectors and arrays to field vectors, printed arrays, "
        "on 0, powers of two, their neighbours and random numbers up to 2000 bits; against Python's integers. Distinct: by script")


def number(rng):
    k = rng.random()
    if k < 0.1:
        return rng.choice([0, 1, 2, 3])
    b = rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 2000, rng.randint(1, 600)])
    if rng.random() < 0.01:
        b = rng.choice([4095, 4096, 10000, 65535, 65536, 65537, 70000, 200000])
    if k < 0.4:
        return max(0, (1 << b) + rng.choice([-1, 0, 1]))
    if k < 0.6:
        return rng.getrandbits(b) << rng.randint(0, 200)
    return rng.getrandbits(b)


def make(rng, index, tier):
    c = Case()
    p = m.prime_of(rng, rng.choice([3, 8, 16, 17, 64, 65, 113, 160, 256]))
    c.op("modulus", hz(p))
    for _ in range(rng.randint(5, 20)):
        k = rng.choice(["log2", "blocks", "bytesu", "byteszz", "byteszzp", "zeropad", "zeropadto", "clz", "v2v", "printarr"])
        z = number(rng)
        bl = z.bit_length()
        c.stats[k] += 1
        if k == "log2":
            c.op(k, hz(z), want=str(max(0, bl - 1)))
        elif k == "blocks":
            a = rng.choice([0, 1, 7, 8, 9, rng.getrandbits(20), rng.getrandbits(rng.randint(1, 62))])
            b = rng.choice([1, 2, 3, 8, 16, 64, 65, rng.randint(1, 10 ** 6)])
            if rng.random() < 0.4:
                a = b * rng.randint(0, 1000) + rng.choice([-1, 0, 1])
                a = max(0, a)
            c.op(k, a, b, want=str(-(-a // b)))
        elif k == "bytesu":
            a = rng.choice([0, 1, 7, 8, 9, 15, 16, 17, rng.getrandbits(20), rng.getrandbits(rng.randint(1, 62))])
            c.op(k, a, want=str(-(-a // 8)))
        elif k == "byteszz":
            c.op(k, hz(z), want=str(-(-bl // 8)))
        elif k == "byteszzp":
            c.op(k, hz(z), want=str(-(-(z % p).bit_length() // 8)))
        elif k == "zeropad":
            n = rng.choice([0, 1, 2, 7, 8, 48, 63, 64, 65, 100, 300, rng.randint(0, 1000)]) if rng.random() < 0.97 else rng.choice([65535, 65536, 70000, 200000])
            c.op(k, hz(z), n, want=pr.txt(z << n))
        elif k == "zeropadto":
            if z == 0:
                z, bl = 1, 1
            n = rng.choice([0, 1, bl - 1, bl, bl + 1, bl + 2, bl + rng.randint(1, 300), rng.randint(0, 600)])
            n = max(0, n)
            if rng.random() < 0.04:
                n = bl + rng.choice([1000, 1025, 2049, 4096, 65535, 65536, 65537, 200000])
            c.op(k, hz(z), n, want=pr.txt(z << (n - bl - 1) if n > bl else z))
        elif k == "clz":
            c.op(k, hz(z), want=str((z & -z).bit_length() - 1 if z else 0))
        elif k == "v2v":
            vs = [rng.choice([0, 1, p - 1, rng.randrange(p)]) for _ in range(rng.choice([0, 1, 2, 3, 8, 33, rng.randint(0, 100)]) if rng.random() < 0.99 else rng.choice([255, 256, 257, 1000, 66000]))]
            how = rng.choice(["vr", "vp", "ar", "ap"])
            c.op(k, how, *[hz(v) for v in vs], want=" ".join([str(len(vs))] + [pr.txt(v) for v in vs]), label="v2v-" + how)
        else:
            vs = [rng.choice([1, -1]) * number(rng) for _ in range(rng.choice([0, 1, 2, 3, 10]) if rng.random() < 0.98 else rng.choice([100, 300, 1000, 1500, 5000]))]
            if len(vs) > 300:
                vs = [rng.choice([1, -1]) * rng.getrandbits(rng.choice([1, 20, 64, 100])) for _ in vs]
            c.op(k, *[hz(v) for v in vs], want=xs("[]\n" if not vs else "[ " + ", ".join(str(v) for v in vs) + " ]\n"))
    c.note = "%d operations" % len(c.lines)
    return c
