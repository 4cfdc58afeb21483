"""C13: placement in the hash tables."""
from collections import Counter
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr
from checks.c11 import field_element, blob
import hashlib

ID = "C13"
TITLE = "A hash table keeps every element once, in the bucket its digest prescribes"
COUNTS = {"quick": 8000, "thorough": 60000}
CHUNK = 20
RULE = ("random tables (1 to 5000 buckets), hash algorithms (real ones, and scripted digests of 1 to 80 bytes), single, list and direct insertions, changes of "
        "algorithm, bucket copies modified by the caller; all the buckets compared with a model (digest as little-endian number modulo the number of "
        "buckets). Tables of field elements and of strings. Distinct: by script")


def key(t):
    return t


def make(rng, index, tier):
    c = Case()
    p = m.prime_of(rng, rng.choice([16, 64, 113, 160, 256]))
    c.op("modulus", hz(p))
    k = rng.choice([1, 2, 3, 7, 8, 10, 16, 29, 30, 31, 64, 100, 255, 256, 257, 1000, 5000] + [rng.randint(1, 60)] * 4)
    load = rng.choice([1, 2, 3, 5, 10, 50, 200])
    if index % 700 == 19:
        k, load = rng.choice([(70000, 3), (1, 70000), (3, 40000)])
    if rng.random() < 0.15 and k < 70000 > load:
        return strings(c, rng, k, load)
    size = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 64, 80])
    algs = {}

    def newalg():
        n = "a%d" % len(c.lines)
        if rng.random() < 0.5:
            s = rng.choice([size, rng.randint(1, 80)])
            c.op("alg.new", n, "table", s)
            algs[n] = ("table", s)
        else:
            a = pr.algorithm(rng)
            c.op("alg.new", n, *a)
            algs[n] = a
        return n

    first = newalg()
    cur = first if rng.random() < 0.9 else None
    c.op("hb.new", "h", k, load, cur or "none")
    buckets = [[] for _ in range(k)]
    total = 0

    def place(v, alg):
        """the bucket, with the operations which define a scripted digest"""
        if alg is None:
            return 0
        a = algs[alg]
        if a[0] == "table":
            q = rng.random()
            d = bytes(a[1]) if q < 0.05 else b"\xff" * a[1] if q < 0.15 else bytes(rng.getrandbits(8) for _ in range(a[1]))
            if q > 0.85:
                d = (rng.randrange(k) + k * rng.randrange(3)).to_bytes(max(a[1], 4), "little")[: a[1]]
            c.op("alg.put", alg, hz(v), xs(d))
        else:
            d = m.alg_digest(a, v)
        return m.bucket_of(d, k)

    kept = []
    if load >= 40000:
        b = rng.randrange(k)
        buckets[b] = [rng.getrandbits(15) for _ in range(rng.randint(33000, load))]
        c.op("hb.addto", "h", b, *[hz(v) for v in buckets[b]])
    for i in range(rng.randint(5, 60)):
        q = rng.random()
        if q < 0.5:
            v = field_element(rng, p)
            b = place(v, cur)
            if len(buckets[b]) < load:
                c.op("hb.add", "h", hz(v))
                buckets[b].append(v)
        elif q < 0.6:
            vs = []
            few = [field_element(rng, p) for _ in range(rng.randint(1, 3))] if rng.random() < 0.3 else None
            for _ in range(rng.randint(0, 8) if rng.random() < 0.9 else rng.randint(30, 300)):
                v = rng.choice(few) if few else field_element(rng, p)
                if v in vs and cur and algs[cur][0] == "table":
                    continue
                b = place(v, cur)
                if len(buckets[b]) < load:
                    vs.append(v)
                    buckets[b].append(v)
            c.op("hb.addlist", "h", *[hz(v) for v in vs])
        elif q < 0.75:
            b = rng.choice([0, k - 1, rng.randrange(k)])
            if len(buckets[b]) < load:
                v = field_element(rng, p)
                c.op("hb.addto", "h", b, hz(v))
                buckets[b].append(v)
        elif q < 0.82:
            b = rng.choice([0, k - 1, rng.randrange(k)])

            def one(text, want=sorted(buckets[b])):
                t = text.split()
                got = sorted(int(x, 16) for x in t[2:])
                return None if got == want and t[0] == "u" and int(t[1]) == len(want) else "bucket is %s, expected %s" % (text[:200], [hz(x) for x in want][:20])
            c.op(rng.choice(["hb.get", "hb.idx"]), "h", b, want=one, label="bucket")
        elif q < 0.86:
            c.op("hb.scribble", "h", rng.randrange(k))
        elif q < 0.91:
            cur = newalg() if rng.random() < 0.6 else rng.choice(sorted(algs))
            c.op("hb.setalg", "h", cur)
        elif q < 0.93:
            c.op("hb.setalg", "h", "null")   # ignored
        elif q < 0.96 and k * load < 200000:
            kept.append(["k%d" % len(c.lines), [list(b) for b in buckets], cur])
            c.op("hb.copy", kept[-1][0], "h")
            c.stats["copies"] += 1
        elif q < 0.975 and kept:
            # one goes on as it was when copied, or the other way round
            x = rng.choice(kept)
            if rng.random() < 0.5:
                c.op("hb.assign", "h", x[0])
                buckets[:] = [list(b) for b in x[1]]
                cur = x[2]
            else:
                c.op("hb.assign", x[0], "h")
                x[1:] = [[list(b) for b in buckets], cur]
        else:
            c.op("hb.info", "h", want="%d %d %d" % (sum(map(len, buckets)), k, load), label="size")
    c.op("hb.info", "h", want="%d %d %d" % (sum(map(len, buckets)), k, load), label="size")

    def dump(text, buckets=buckets):
        got = pr.hb_dump(text)
        if len(got) != k:
            return "%d buckets" % len(got)
        for i, ((mk, g), w) in enumerate(zip(got, buckets)):
            if sorted(g) != sorted(w):
                return "bucket %d has %s, expected %s" % (i, [hz(x) for x in g][:10], [hz(x) for x in w][:10])
            if mk:
                return "bucket %d is marked" % i
        return None
    c.op("hb.dump", "h", want=dump, label="buckets")
    for name, bk, alg in kept:
        c.op("hb.info", name, want="%d %d %d" % (sum(map(len, bk)), k, load), label="size-of-copy")
        c.op("hb.dump", name, want=lambda t, bk=[list(x) for x in bk]: dump(t, bk), label="buckets-of-copy")
        v = field_element(rng, p)
        b = place(v, alg)
        if len(bk[b]) < load:
            c.op("hb.add", name, hz(v))
            bk[b].append(v)
            c.op("hb.dump", name, want=lambda t, bk=[list(x) for x in bk]: dump(t, bk), label="buckets-of-copy")
        c.op("hb.del", name)
    n = sum(map(len, buckets))
    c.stats["elements"] += n
    c.stats["full_buckets"] += sum(len(b) == load for b in buckets)
    c.op("hb.del", "h")
    c.nontrivial = n > 0
    c.note = "k=%d load=%d, %d elements" % (k, load, n)
    return c


def strings(c, rng, k, load):
    f = rng.choice([0, 256])
    c.op("shas.new", "s", f)
    c.op("hbs.new", "t", k, load, "s")
    buckets = [[] for _ in range(k)]
    H = hashlib.sha1 if f == 0 else hashlib.sha256
    for _ in range(rng.randint(1, 60)):
        b = blob(rng)[:60]
        i = m.bucket_of(H(b).digest(), k)
        if len(buckets[i]) < load:
            buckets[i].append(b)
            c.op("hbs.add", "t", xs(b))

    def dump(text):
        t = text.split()
        if int(t[0]) != sum(map(len, buckets)) or int(t[1]) != k:
            return "size %s of %s" % (t[0], t[1])
        i = 2
        for j in range(k):
            n = int(t[i + 1])
            g = sorted(bytes.fromhex(x[1:]) for x in t[i + 2:i + 2 + n])
            if g != sorted(buckets[j]) or t[i] != "u":
                return "bucket %d has %s, expected %s" % (j, g[:5], buckets[j][:5])
            i += 2 + n
        return None
    c.op("hbs.dump", "t", want=dump, label="buckets-of-strings")
    c.op("hbs.del", "t")
    c.stats["string_tables"] += 1
    c.note = "strings k=%d" % k
    return c
