"""C10: the pseudo-random function modulo p."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr
from checks.c09 import idx, seed

ID = "C10"
TITLE = "The field pseudo-random function is pure, in range, and its automatic sequences do not repeat"
COUNTS = {"quick": 9000, "thorough": 60000}
CHUNK = 20
RULE = ("random fields and moduli (equal, smaller and larger than the field), seeds, indexes, lengths (also 0 and beyond the modulus), automatic index and seed, "
        "interleaved over instances, copies, assignments and deleted originals; oracle: independent model. Distinct: by script")


def make(rng, index, tier, autos=True):
    c = Case()
    fb = rng.choice([8, 16, 24, 61, 64, 65, 113, 127, 128, 129, 160, 161, 168, 256, 320, 321, rng.randint(2, 400)])
    p = m.prime_of(rng, fb)
    c.op("modulus", hz(p))
    c.op("prf.new", "z")
    objs = {}     # name -> [modulo, auto seed or None, auto index]

    def new(n):
        mod = p if rng.random() < 0.6 else m.prime_of(rng, rng.choice([2, 8, 20, fb, fb + 1, fb + 40, 300]) if fb > 2 else 8)
        if rng.random() < 0.3:
            c.op("pprf.new", n, hz(mod), "z")
        else:
            c.op("pprf.new", n, hz(mod))
        objs[n] = [mod, None, 0]

    def nextseed():
        r = rng.getrandbits(31)
        c.op("randq", r)
        return r

    def val(o, s, j, b):
        return pr.txt(m.zzpprf(p, s, j, b, o[0]))

    def many(n, o, cnt):
        h = 0xCBF29CE484222325
        seen = set()
        for i in range(cnt):
            t = val(o, o[1], o[2] + i, 0)
            seen.add(t)
            for ch in t.encode() + b"\n":
                h = ((h ^ ch) * 0x100000001B3) & ((1 << 64) - 1)
        c.op("pprf.many", n, cnt, want="%016x %d" % (h, cnt - len(seen)), label="long-automatic-sequence")
        o[2] += cnt
        c.stats["automatic"] += cnt
        c.stats["long_sequences"] += 1

    new("f0")
    if not autos:
        pass
    elif index % 1000 in (13, 27) or index % 100 == 47:
        o = objs["f0"]
        o[1] = nextseed() % p
        many("f0", o, rng.choice([70000, 140000]) if index % 1000 in (13, 27) else rng.choice([260, 1030, 5000]))
    for i in range(rng.randint(5, 40)):
        n = rng.choice(sorted(objs))
        o = objs[n]
        k = rng.random()
        if k < 0.06 and len(objs) < 6:
            new("f%d" % len(c.lines))
        elif k < 0.14 and len(objs) < 6:
            d = "f%d" % len(c.lines)
            c.op("pprf.copy", d, n)
            objs[d] = list(o)
            c.stats["copies"] += 1
        elif k < 0.17 and len(objs) > 1:
            d = rng.choice(sorted(objs))
            c.op("pprf.assign", d, n)
            objs[d] = list(o)
            c.stats["copies"] += 1
        elif k < 0.2 and len(objs) > 1:
            c.op("pprf.del", n)
            del objs[n]
        elif k < 0.24:
            c.op("pprf.mod", n, want=pr.txt(o[0]), label="modulo")
        elif k < 0.27:
            o[0] = m.prime_of(rng, rng.choice([8, fb, 200]))
            c.op("pprf.setmod", n, hz(o[0]))
        elif k < 0.29:
            c.op("pprf.defseed", n, want=pr.txt(1 % p))
        elif k < 0.5 and autos:
            if o[1] is None:
                o[1] = nextseed() % p
            c.op("pprf.next", n, want=val(o, o[1], o[2], 0), label="automatic-sequence")
            o[2] += 1
            c.stats["automatic"] += 1
        elif k < 0.6 and autos:
            if o[1] is None:
                o[1] = nextseed() % p
            j, b = idx(rng), rng.choice([0, 0, rng.randint(1, fb + 20)])
            c.op("pprf.auto", n, j, b, want=val(o, o[1], j, b), label="automatic-seed")
            c.stats["automatic"] += 1
        else:
            s, j = seed(rng), idx(rng)
            b = rng.choice([0, fb, fb - 1, fb + 1, rng.randint(1, fb + 60), 10000])
            c.op("pprf.gen", n, hz(s), j, b, want=val(o, s, j, b), label="generate")
            c.stats["values"] += 1
    c.note = "field of %d bits" % fb
    return c
