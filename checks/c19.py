"""C19: ZZpPolynomials."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C19"
TITLE = "The polynomial batch finds exactly the padded roots of the interpolated polynomials"
COUNTS = {"quick": 5000, "thorough": 30000}
CHUNK = 15
RULE = ("histories on 1-2 batches: interpolation of 0-12 polynomials built from known roots (padded, not padded, zero, repeated) and irreducible factors, monic or not, factored by both "
        "algorithms, roots found (in steps and at once), batches used again with other sizes, roots asked too early; the roots against the ones the polynomials were built from. "
        "Distinct: by script")
ASSUMPTIONS = ["no polynomial is zero, the points are distinct and more than the degree"]


def make(rng, index, tier):
    c = Case()
    bits = rng.choice([5, 8, 16, 31, 32, 33, 61, 64, 65, 90, 113, 128, 160])
    large = index % 60 == 11
    if large:
        bits = rng.choice([255, 256, 257, 384, 521])
    p = m.prime_of(rng, bits)
    c.op("modulus", hz(p))
    c.op("seedntl", hz(rng.getrandbits(64)))
    nonres = next(a for a in range(2, p) if pow(a, (p - 1) // 2, p) == p - 1)
    objs = {}
    for i in range(rng.choice([1, 1, 2])):
        pad = rng.choice([0, 1, 2, 3, bits // 2, bits // 2, max(0, bits - 3), bits, rng.randint(0, bits)])
        c.op("poly.new", "q%d" % i, pad)
        objs["q%d" % i] = [pad, 0, None, None]   # pad, size, roots of the polynomials, found

    def rootsof(pad, roots):
        return sorted((z >> pad) for z in roots if z == 0 or (z & -z).bit_length() - 1 >= pad)

    def polys(pad):
        """x, y, valid roots"""
        n = rng.choice([0, 1, 1, 2, 3, 5, 12]) if not large else rng.choice([1, 1, 2])
        wide = index % 150 == 23 and not large and rng.random() < 0.4
        D = rng.choice([2, 3, 5, 7, 9, 13])
        if wide:
            n, D = rng.choice([(300, 3), (70, 5), (2, 40), (3000, 2)])
            if tier != "quick" and rng.random() < 0.1:
                n, D = 70000, 2
        D = min(D, p) if not large else min(D, 5)
        x = {}
        while len(x) < D:
            x[rng.randrange(p)] = 1
        x = list(x)
        ys, found = [], []
        for _ in range(n):
            poly, deg = [rng.choice([1, 1, rng.randrange(1, p)])], 0
            rs = set()
            for _ in range(rng.randint(0, D)):
                if deg + 1 <= D - 1:
                    k = rng.random()
                    if k < 0.2 and deg + 2 <= D - 1:
                        s = rng.randrange(p)   # (X - s)^2 - nonresidue: no root
                        w = rng.randrange(1, p)
                        poly = m.pmul(poly, [(s * s - nonres * w * w) % p, -2 * s % p, 1], p)
                        deg += 2
                        continue
                    if k < 0.65:
                        r = (rng.getrandbits(max(1, bits - pad)) << pad) % p
                    elif k < 0.72:
                        r = 0
                    elif k < 0.8 and rs:
                        r = rng.choice(sorted(rs))
                    elif k < 0.9 and pad:
                        r = ((rng.getrandbits(max(1, bits - pad + 1)) | 1) << (pad - 1)) % p   # almost
                    else:
                        r = rng.randrange(p)
                    rs.add(r)
                    poly = m.pmul(poly, [-r % p, 1], p)
                    deg += 1
            ys.append([m.peval(poly, v, p) for v in x])
            found += rootsof(pad, rs)
        return "%d %s %d %s" % (D, " ".join(hz(v) for v in x), n, " ".join(hz(v) for y in ys for v in y)), n, sorted(found)

    def want(found):
        def f(t):
            t = t.split()
            got = sorted(int(v, 16) for v in t[1:])
            if len(got) != int(t[0]) or got != found:
                return "roots %s, expected %s" % ([hz(v) for v in got][:20], [hz(v) for v in found][:20])
        return f

    def info(n):
        o = objs[n]
        c.op("poly.info", n, want="%d %d %s" % (o[1], o[0], xs("ZZpPolynomials " + ("contains %d polynomials." % o[1] if o[1] else "is empty!"))), label="size")

    for n in objs:
        info(n)
        if rng.random() < 0.3:
            c.op("poly.find", n, want="0", label="too-early")
        if rng.random() < 0.15:
            c.op("poly.monic", n)
        if rng.random() < 0.15:
            c.op("poly.threads", n, rng.choice([0, 1, 4]))
        if rng.random() < 0.15:
            c.op("poly.fact", n, "c")
            c.op("poly.find", n, want="0", label="nothing-to-factor")
    kinds = []
    for _ in range(rng.randint(1, 6) if not large else rng.randint(1, 3)):
        n = rng.choice(sorted(objs))
        o = objs[n]
        if rng.random() < 0.25:
            # a copy, which goes on by itself
            if rng.random() < 0.6:
                to = "k%d" % len(c.lines)
                c.op("poly.copy", to, n)
                objs[to] = list(o)
                if rng.random() < 0.3:
                    c.op("poly.del", n)
                    del objs[n]
                n = rng.choice([to, n]) if n in objs else to
            else:
                of = rng.choice(sorted(objs))
                c.op("poly.assign", n, of)
                objs[n] = list(objs[of])
            o = objs[n]
            c.stats["copies"] += 1
        k = rng.choice(["steps", "steps", "once", "once", "refactor", "again"])
        alg = rng.choice(["c", "b", "default"])
        kinds.append(k)
        c.stats["step_" + k] += 1
        if k == "steps":
            txt, cnt, found = polys(o[0])
            mo = rng.choice(["monic", "default", "plain"])
            c.op("poly.interp", n, mo, txt, want="", label="interpolation")
            if mo == "plain" or rng.random() < 0.2:
                c.op("poly.monic", n)
            if rng.random() < 0.3:
                c.op("poly.find", n, want="0", label="too-early")
            c.op("poly.fact", n, alg)
            c.op("poly.find", n, want=want(found), label="roots")
            o[1], o[2] = cnt, found
        elif k == "once":
            txt, cnt, found = polys(o[0])
            c.op("poly.findxy", n, alg, txt, want=want(found), label="roots-at-once")
            o[1], o[2] = cnt, found
        elif k == "refactor" and o[2] is not None:
            c.op("poly.fact", n, alg)
            c.op("poly.find", n, want=want(o[2]), label="roots-again")
        elif o[2] is not None:
            c.op("poly.find", n, want=want(o[2]), label="roots-again")
        info(n)
        c.stats["roots"] += len(o[2] or [])
    for n in sorted(objs):
        if rng.random() < 0.5:
            c.op("poly.del", n)
    c.note = "p:%d bits, pads %s: %s" % (bits, [objs[n][0] for n in sorted(objs)], ",".join(kinds))
    return c
