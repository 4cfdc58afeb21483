"""C12: MurmurHash3."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr
from checks.c11 import field_element, trunc

ID = "C12"
TITLE = "MurmurHash3 hashing is the published x64 128-bit function of the decimal digits and the seed"
COUNTS = {"quick": 9000, "thorough": 40000}
CHUNK = 20
RULE = ("field elements of 1 to 400 digits (all lengths modulo 16), truncations, seeds over the whole range, several instances interleaved, "
        "instances with a seed from the clock (equal ones agree); oracle: an independent implementation. Distinct: by script")


def make(rng, index, tier):
    c = Case()
    p = m.prime_of(rng, rng.choice([4, 8, 53, 64, 113, 160, 256, 521, 1300]))
    if index % 100 == 17:
        p = (1 << rng.choice([3000, 14000, 14000, 40000 if index % 600 else 230000])) + 1   # (digits only: any modulus does)
    c.op("modulus", hz(p))
    al = {}
    for i in range(rng.randint(1, 4)):
        s = rng.choice([0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, rng.getrandbits(32)])
        c.op("alg.new", "a%d" % i, "mh3", s)
        al["a%d" % i] = s
    for i in range(rng.randint(8, 50)):
        n = rng.choice(sorted(al))
        if rng.random() < 0.5:
            digits = rng.randint(1, len(str(p)) - 1) if p > 9 else 1
            v = rng.randrange(10 ** (digits - 1), 10 ** digits) % p
        else:
            v = field_element(rng, p)
        d = str(v).encode()
        t = trunc(rng, len(d)) if rng.random() < 0.4 else None
        dd = d[:t] if t and t < len(d) else d
        c.op("alg.hash", n, hz(v), *([t] if t is not None else []), want=xs(m.murmur3_x64_128(dd, al[n])), label="hash")
        c.stats["length_mod16_%02d" % (len(dd) % 16)] += 1
    if len(al) > 1:
        a, b = rng.sample(sorted(al), 2)
        v, w = field_element(rng, p), field_element(rng, p)
        c.op("alg.hash2", a, hz(v), b, hz(w), want=xs(m.murmur3_x64_128(str(v).encode(), al[a])) + " " + xs(m.murmur3_x64_128(str(w).encode(), al[b])), label="two-instances")
    if rng.random() < 0.1:
        # those of the same second agree, however many, and whatever else draws numbers
        c.op("settime", rng.getrandbits(31))
        v = field_element(rng, p)
        ls = []
        for i in range(rng.choice([2, 3, 5, 10, 30] if index % 100 != 17 else [2])):
            c.op("alg.new", "s%d" % i, "mh3r")
            ls.append(c.op("alg.hash", "s%d" % i, hz(v)))
        ls.append(c.op("alg.hash", "s0", hz(v)))
        c.final(lambda res: None if len({res.val(x) for x in ls}) == 1 else [("same-second", "instances of the same second have different seeds")])
    if rng.random() < 0.2:
        c.op("settime", rng.getrandbits(31))
        c.op("alg.new", "r", "mh3r")
        v = field_element(rng, p)
        l1 = c.op("alg.hash", "r", hz(v))
        w = field_element(rng, p)
        c.op("alg.hash", "r", hz(w))
        l2 = c.op("alg.hash", "r", hz(v))
        c.final(lambda res: None if res.val(l1) == res.val(l2) else [("random-seed", "the same number has two digests")])
    if rng.random() < 0.2:
        # those of other seconds mostly do not
        v = field_element(rng, p)
        ds = []
        for i in range(5):
            c.op("settime", rng.getrandbits(31))
            c.op("alg.new", "o%d" % i, "mh3r")
            ds.append(c.op("alg.hash", "o%d" % i, hz(v)))
        c.final(lambda res: None if len({res.val(x) for x in ds}) > 1 else [("clock-seed", "the seed does not depend on the clock")])
    c.op("alg.info", sorted(al)[0], want=lambda t: None if t.split()[0] == "16" else "digest size " + t, label="size")
    c.note = "field of %d bits" % p.bit_length()
    return c
