"""C24: separate objects in separate threads."""
import random
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr
from checks import c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c15, c17, c18, c19, c20, c21, c25

ID = "C24"
TITLE = "Objects of different threads do not influence one another, and do not race"
COUNTS = {"quick": 1000, "thorough": 12000}
MIX = False
CHUNK = 2
FLAVOUR = "tsan"
CPU = 20
RULE = ("2-6 threads started together under ThreadSanitizer, each with objects of its own: protocol runs with its own parties (silent or not), pseudo-random functions, digests, tables, "
        "polynomials, numbers, chronometers, exceptions; the results of each thread against the sequential model, the race detector watches. Distinct: by script")
ASSUMPTIONS = ["each thread sets its own field modulus (NTL's is per thread)", "the automatic seeds come from rand(), which the driver replaces by an atomic one"]


def protocol(c, rng):
    P = pr.Params(rng, maxH=3, maxL=4)
    used = set()
    (da, db), _ = pr.sets(rng, P, 2)
    A = pr.Client("A", pr.ident(rng, used), pr.secret(rng, P.p), da)
    B = pr.Client("B", pr.ident(rng, used), pr.secret(rng, P.p), db)
    pr.header(c, P)
    pr.add_client(c, rng, P, A)
    pr.add_client(c, rng, P, B)
    pr.add_server(c, P, "S", pr.ident(rng, used))
    c.op("p.authall", "A", "B", "S")
    for x in (A, B):
        pr.set_raw(c, rng, P, x)
        c.op("p.outsource", x.name, "S")
    for _ in range(rng.randint(1, 3)):
        q, d = (A, B) if rng.random() < 0.5 else (B, A)
        c.op("p.request", q.name, d.name)
        c.op("p.inter", q.name, want=pr.want_set(set(da) & set(db)), label="intersection")


class View:
    """the results of some lines, as if they were a case of their own"""

    def __init__(self, res, base, n):
        self.end, self.done, self.stderr, self.forkdone = res.end, res.done, res.stderr, set()
        self.r = {k - base: v for k, v in res.r.items() if base <= k < base + n}
        self.events = []
        part = []
        for e in res.events:
            if e[0] == "V":
                part = [] if e[1].startswith("thread ") else part + [e]
            else:
                if base <= e[1] < base + n:
                    self.events += part + [(e[0], e[1] - base, e[2])]
                part = []

    def val(self, line):
        k = self.r.get(line)
        return k[1] if k and k[0] == "R" else None


def borrowed(mod, **opts):
    def f(c, rng):
        while True:
            o = mod.make(random.Random(rng.getrandbits(64)), rng.getrandbits(20), "quick", **opts)
            if any(l.split()[0] in BAN or l == "fork" for l in o.lines) or len(o.lines) > 400 or sum(map(len, o.lines)) > 60000:
                continue
            break
        base = len(c.lines)
        c.lines += o.lines
        c.wants += [(n + base, w, e, l) for n, w, e, l in o.wants]
        for fn in o.finals:
            c.final(lambda res, fn=fn: fn(View(res, base, len(o.lines))))
    return f


# operations on the process rather than on objects
BAN = {"randq", "randcalls", "settime", "clock", "tick", "hb.stats", "printarr", "seedrand"}


def tables(c, rng):
    p = m.prime_of(rng, 113)
    c.op("modulus", hz(p))
    a = pr.algorithm(rng)
    k, load = rng.randint(1, 30), rng.randint(1, 6)
    c.op("alg.new", "a", *a)
    c.op("hb.new", "h", k, load, "a")
    b = [[] for _ in range(k)]
    for _ in range(rng.randint(1, 60)):
        v = rng.randrange(p)
        i = m.bucket_of(m.alg_digest(a, v), k)
        if len(b[i]) < load:
            c.op("hb.add", "h", hz(v))
            b[i].append(v)
    if rng.random() < 0.5:
        c.op("hb.show", "h", rng.choice(["full", "short"]))
    if rng.random() < 0.2:
        c.op("showarr", *[hz(rng.getrandbits(200)) for _ in range(rng.randint(0, 9))])
    c.op("hb.dump", "h", want=lambda t: None if [sorted(x[1]) for x in pr.hb_dump(t)] == [sorted(x) for x in b] else "other buckets", label="buckets")


def clocks(c, rng):
    """real clock: orders only"""
    c.op("bm.new", "b")
    c.op("bm.start", "b")
    n = rng.randint(1, 20)
    for _ in range(n):
        c.op(*rng.choice([("bm.step", "b", xs(rng.choice("xyz"))), ("bm.step", "b"), ("bm.pause", "b"), ("bm.cont", "b")]))
    if rng.random() < 0.5:
        c.op("bm.stop", "b")
    c.op("bm.state", "b")
    c.op("bm.last", "b")
    c.op("bm.named", "b", xs("x"))
    c.op("bm.stats", "b")
    c.op("bm.statsd", "b")

    def chk(t):
        a, b, full = [int(v) for v in t.split()]
        return None if 0 <= a <= full and 0 <= b <= full else "interval %s" % t
    for i in range(n + 1):
        c.op("bm.at", "b", i, want=chk, label="interval")


def copies(c, rng):
    """parties built from one another"""
    P = pr.Params(rng, maxH=3, maxL=3)
    used = set()
    (da, db), _ = pr.sets(rng, P, 2)
    A = pr.Client("A", pr.ident(rng, used), pr.secret(rng, P.p), da)
    B = pr.Client("B", pr.ident(rng, used), pr.secret(rng, P.p), db)
    pr.header(c, P)
    pr.add_client(c, rng, P, A)
    pr.add_client(c, rng, P, B)
    pr.add_server(c, P, "S", pr.ident(rng, used))
    c.op("p.authall", "A", "B", "S")
    for x in (A, B):
        pr.set_raw(c, rng, P, x)
        c.op("p.outsource", x.name, "S")
    if rng.random() < 0.5:
        c.op("p.copy", "X", "A")
    else:
        c.op("alg.new", "az", *P.alg)
        c.op("hb.new", "hz", P.L, P.H, "az")
        c.op("p.client", "X", xs("Z!"), hz(P.p), P.L, P.H, P.D, "hz", "z", hz(A.secret))
        c.op("p.assign", "X", "A")
    c.op("p.copy", "Y", "S")
    c.op("p.assign", "Y", "S")
    # (answers go to the party which authenticated last under the identity)
    c.op("p.auth", "B", "X")
    c.op("p.auth", "S", "X")
    c.op("p.request", "X", "B")
    c.op("p.inter", "X", want=pr.want_set(set(da) & set(db)), label="intersection")
    for n in "XY":
        c.op("p.del", n)


def rest(c, rng):
    """what the others leave out"""
    p = m.prime_of(rng, 113)
    c.op("modulus", hz(p))
    c.op("prf.new", "f")
    c.op("pprf.new", "g", hz(p), "f")
    for _ in range(rng.randint(1, 8)):
        k = rng.randrange(6)
        if k == 0:
            c.op("prf.defseed", "f", want="0")
        elif k == 1:
            c.op("pprf.defseed", "g", want=pr.txt(1))
        elif k == 2:
            c.op("prf.gen", "f", hz(rng.getrandbits(96)), 0, rng.randint(1, 300))
        elif k == 3:
            c.op("prf.auto", "f", 1, 64)
        elif k == 4:
            c.op("pprf.next", "g")
        else:
            c.op("poly.new", "q", 8)
            c.op("poly.threads", "q", rng.choice([0, 1, 3]))
            c.op("poly.info", "q")


PARTIES = {"copies": copies, "one run": borrowed(c01), "history": borrowed(c02), "blinding": borrowed(c03), "answers": borrowed(c04), "trace": borrowed(c05), "policy": borrowed(c06), "hostile": borrowed(c07),
           "cloud": borrowed(c08), "registry": borrowed(c25)}
KINDS = {"protocol": protocol, "prf": borrowed(c09), "sha": borrowed(c11), "murmur": borrowed(c12), "strint": borrowed(c17), "helpers": borrowed(c18),
         "polynomials": borrowed(c19), "pprf": borrowed(c10, autos=False), "contents": borrowed(c13), "concealing": borrowed(c15),
         "exceptions": borrowed(c21), "tables": tables, "clocks": clocks, "rest": rest}


def make(rng, index, tier):
    c = Case()
    n = rng.choice([2, 2, 3, 4, 6])
    same = rng.random() < 0.5
    k0 = rng.choice(["protocol", "protocol"] + sorted(KINDS))
    ks = []
    for _ in range(n):
        k = k0 if same else rng.choice(["protocol"] + sorted(KINDS))
        if k == "protocol" and rng.random() < 0.5:
            k = rng.choice(sorted(PARTIES))
        ks.append(k)
        c.lines.append("thread")
        if k in PARTIES:
            PARTIES[k](c, random.Random(rng.getrandbits(64)))
        for _ in range(0 if k in PARTIES else 1 if k in ("protocol", "polynomials") else rng.choice([1, 2, 4])):
            KINDS[k](c, random.Random(rng.getrandbits(64)))
        c.lines.append("endthread")
        c.stats["thread_" + k] += 1
    c.stats["threads"] += n
    c.note = ",".join(ks)
    return c
