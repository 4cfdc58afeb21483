"""C14: capacity and bounds."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr
from checks.c11 import field_element

ID = "C14"
TITLE = "A table never exceeds its capacity: overflow and bad indexes end the program, nothing else does"
COUNTS = {"quick": 5000, "thorough": 15000}
CHUNK = 8
RULE = ("random tables filled to the last free place by any way of insertion, then one element or one index too many, each in a process of its own: the process must end "
        "with the code of the fatal exception and without memory errors; the last allowed insertion and index succeed. Also whole data sets "
        "of clients one element beyond a bucket. Distinct: by script")


def ended(ending, reached, err):
    if reached or ending == "exit 0":
        return "the program went on"
    if ending != "exit 1":
        return "ended with %s, expected exit 1: %s" % (ending, err[:500])
    return None


def goes_on(ending, reached, err):
    return None if reached and ending == "exit 0" else "an allowed operation ended the program (%s): %s" % (ending, err[:500])


def make(rng, index, tier, forks=True):
    c = Case()
    if index % 5 == 0 and forks:
        return client(c, rng)
    p = m.prime_of(rng, rng.choice([32, 113, 160]))
    c.op("modulus", hz(p))
    k = rng.choice([1, 1, 2, 3, 5, 8, 17, 100])
    load = rng.choice([0, 1, 1, 2, 3, 4, 7, 20, 100])
    if index % 150 == 31 and forks:
        k, load = rng.choice([(1, 66000), (2, 33000), (70000, 1), (3, 257), (2, 300)])
    alg = pr.algorithm(rng)
    c.op("alg.new", "a", *alg)
    c.op("hb.new", "h", k, load, "a")
    fill = [0] * k
    # fill some buckets completely
    for b in rng.sample(range(k), min(k, rng.randint(1, 3))):
        while fill[b] < load:
            n = load - fill[b] if load > 100 else 1
            c.op("hb.addto", "h", b, *[hz(field_element(rng, p)) for _ in range(n)])
            fill[b] += n
    for _ in range(30):
        v = field_element(rng, p)
        b = m.bucket_of(m.alg_digest(alg, v), k)
        if fill[b] < load:
            c.op("hb.add", "h", hz(v))
            fill[b] += 1
    full = [b for b in range(k) if fill[b] == load]
    free = [b for b in range(k) if fill[b] < load]
    for _ in range(rng.randint(2, 5) if forks else 0):
        q = rng.random()
        if q < 0.25 and full:
            b = rng.choice(full)
            c.fork(lambda c: c.op("hb.addto", "h", b, hz(field_element(rng, p)), any_end=True), ended, "direct-overflow")
        elif q < 0.5 and full:
            for _ in range(200):
                v = field_element(rng, p)
                if m.bucket_of(m.alg_digest(alg, v), k) in full:
                    how = rng.choice(["hb.add", "hb.addlist"])
                    c.fork(lambda c: c.op(how, "h", hz(v), any_end=True), ended, "overflow")
                    break
        elif q < 0.75:
            i = rng.choice([k, k, k + 1, 2 * k, k + 1000, 1 << 31, 1 << 32, (1 << 64) - 1, (1 << 63)])
            how = rng.choice(["hb.get", "hb.idx", "hb.addto"])
            c.fork(lambda c: c.op(how, "h", i, *([hz(1)] if how == "hb.addto" else []), any_end=True), ended, "bad-index-" + how)
        else:
            def fine(c):
                c.op("hb.get", "h", k - 1)
                c.op("hb.idx", "h", 0)
                if free:
                    b = rng.choice(free)
                    for _ in range(load - fill[b]):
                        c.op("hb.addto", "h", b, hz(field_element(rng, p)))
                c.op("hb.info", "h")
            c.fork(fine, goes_on, "allowed")
        c.stats["processes"] += 1
    c.op("hb.info", "h", want="%d %d %d" % (sum(fill), k, load), label="size")
    c.op("hb.dump", "h", want=lambda text: None if [len(x[1]) for x in pr.hb_dump(text)] == fill else "sizes of the buckets changed", label="buckets")
    c.note = "k=%d load=%d, %d full" % (k, load, len(full))
    return c


def client(c, rng):
    P = pr.Params(rng, maxH=4, maxL=5)
    pr.header(c, P)
    data = P.fits([pr.element(rng, max(P.bits, 8)) & ((1 << P.bits) - 1) for _ in range(P.L * P.H * 4)])
    load = [0] * P.L
    for e in data:
        load[P.bucket(e)] += 1
    full = [j for j in range(P.L) if load[j] == P.H]
    A = pr.Client("A", "A", pr.secret(rng, P.p), data)
    pr.add_client(c, rng, P, A)
    extra = None
    for _ in range(500):
        e = pr.element(rng, P.bits)
        if P.bucket(e) in full:
            extra = e
            break

    def good(c):
        pr.set_raw(c, rng, P, A)
    c.fork(good, goes_on, "allowed-data")
    if extra is not None:
        def bad(c):
            over = list(data)
            over.insert(rng.randint(0, len(over)), extra)
            c.op("p.raw", "A", P.bits, "-", len(over), *[hz(e) for e in over], any_end=True)
        c.fork(bad, ended, "data-overflow")
        c.stats["client_overflows"] += 1
    c.stats["processes"] += 2
    c.note = P.note()
    return c
