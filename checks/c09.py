"""C09: the pseudo-random function on integers."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C09"
TITLE = "The integer pseudo-random function is one pure function of seed, index and length"
COUNTS = {"quick": 8000, "thorough": 80000}
CHUNK = 20
RULE = ("seeds of 0 to 5000 bits, indexes up to 2^64-1, lengths of 1 to 4000 bits, random interleavings over several instances, copies and assignments; "
        "oracle: chained SHA-1 from Python's hashlib. Distinct: by script")


def seed(rng):
    k = rng.random()
    if k < 0.15:
        return rng.choice([0, 1, 2, 4, 255, 256, 257, 65535, 65536, (1 << 64) - 1, 1 << 64, (1 << 160) - 1])
    if k < 0.3:
        return rng.getrandbits(8 * rng.randint(1, 30)) << (8 * rng.randint(1, 20))
    if k < 0.4:
        return rng.getrandbits(rng.choice([1000, 5000]) if rng.random() < 0.97 else rng.choice([70000, 600000]))
    return rng.getrandbits(rng.randint(1, 600))


def idx(rng):
    k = rng.random()
    if k < 0.4:
        return rng.randrange(300)
    if k < 0.6:
        return rng.choice([0, 1, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1])
    return rng.getrandbits(rng.randint(1, 64))


def bits(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 113, 127, 128, 129, 159, 160, 161, 167, 168, 169, 319, 320, 321, 480, 481])
    if k < 0.9:
        return rng.randint(1, 520)
    if k < 0.997:
        return rng.randint(1, 4000)
    return rng.choice([40000, 65536, 70001, 600000])


def make(rng, index, tier):
    c = Case()
    names = ["g0"]
    c.op("prf.new", "g0")
    seen = []
    for i in range(rng.randint(5, 40)):
        k = rng.random()
        g = rng.choice(names)
        if k < 0.08 and len(names) < 6:
            n = "g%d" % len(c.lines)
            c.op("prf.new", n) if rng.random() < 0.4 else c.op("prf.copy", n, g)
            names.append(n)
            continue
        if k < 0.11 and len(names) > 1:
            c.op("prf.assign", rng.choice(names), g)
            continue
        if k < 0.13 and len(names) > 1:
            c.op("prf.del", g)
            names.remove(g)
            continue
        if k < 0.17:
            c.op("prf.defseed", g, want="0")
            continue
        if k < 0.3 and seen:
            s, j, b = rng.choice(seen)     # again
            if rng.random() < 0.4:
                b = bits(rng)
        elif k < 0.35:
            s, b, f, n = seed(rng), bits(rng), idx(rng) >> 1, rng.randint(2, 30)
            c.op("prf.range", g, hz(s), f, n, b, want=" ".join(pr.txt(m.prf(s, f + q, b)) for q in range(n)), label="range")
            c.stats["values"] += n
            continue
        else:
            s, j, b = seed(rng), idx(rng), bits(rng)
        seen.append((s, j, b))
        c.op("prf.gen", g, hz(s), j, b, want=pr.txt(m.prf(s, j, b)), label="generate")
        c.stats["values"] += 1
    if index % 1200 == 31:
        # very many values of one instance
        g = rng.choice(names)
        s, b, f = seed(rng), rng.choice([16, 64, 113, 161]), rng.choice([0, 65000, (1 << 32) - 30000])
        n = rng.choice([700, 70000])
        c.op("prf.range", g, hz(s), f, n, b, want=" ".join(pr.txt(m.prf(s, f + q, b)) for q in range(n)), label="long-range")
        s, j, b = seed(rng), idx(rng), bits(rng)
        c.op("prf.gen", g, hz(s), j, b, want=pr.txt(m.prf(s, j, b)), label="generate")
    if rng.random() < 0.3:
        # automatic seeds: chosen once by each instance, copies and assigned ones go on with them
        st = {}
        for i in range(rng.randint(1, 3)):
            st["auto%d" % i] = None
            c.op("prf.new", "auto%d" % i)
        for i in range(rng.randint(3, 14)):
            n = rng.choice(sorted(st))
            k = rng.random()
            if k < 0.65:
                if st[n] is None:
                    st[n] = rng.choice([rng.getrandbits(31), rng.getrandbits(31), 0, 1, (1 << 31) - 1])
                    c.op("randq", st[n])
                j, b = idx(rng), bits(rng)
                c.op("prf.auto", n, j, b, want=pr.txt(m.prf(st[n], j, b)), label="automatic-seed")
                c.stats["automatic"] += 1
            elif k < 0.75:
                s, j, b = seed(rng), idx(rng), bits(rng)
                c.op("prf.gen", n, hz(s), j, b, want=pr.txt(m.prf(s, j, b)), label="generate")
            elif k < 0.85:
                x = "autoc%d" % i
                c.op("prf.copy", x, n)
                st[x] = st[n]
            elif k < 0.95:
                x = rng.choice(sorted(st))
                c.op("prf.assign", x, n)
                st[x] = st[n]
            elif len(st) > 1:
                c.op("prf.del", n)
                del st[n]
    c.note = "%d operations" % len(c.lines)
    return c
