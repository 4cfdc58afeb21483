"""Protocol scenarios: parameters, parties, data; and the model of what they must give."""
from lib import model as m
from lib.core import Case, xs, hz, unx

OUTSOURCE, CLIENT_REQ, CLOUD_REQ, OUTPUT, POLY, UNKNOWN = range(6)
KEYBITS = 128

IDCHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_.:/@#\xe9\xff\x01\x7f"


def lookalike(rng, s):
    """another identity, which is easily taken for it"""
    i = rng.randrange(len(s))
    k = rng.randrange(12)
    if k < 4:
        return s + rng.choice("ab0 \t\n.")   # prefixes of one another
    if k == 4:
        return rng.choice(" 0a\t") + s
    if k == 5:
        return s[:-1] or "x"
    if k == 6:
        return s[1:] or "y"
    if k == 7:
        return "".join(ch.swapcase() if ch < "\x80" else ch for ch in s)
    if k == 8:
        return s[:i] + chr((ord(s[i]) ^ 0x20) & 0x7f or 0x41) + s[i + 1:]
    if k == 9:
        return s[:i] + chr(ord(s[i]) ^ 0x80 if ord(s[i]) not in (0, 0x80) else 0x41) + s[i + 1:]
    if k == 10:
        return s[::-1]
    return s + s


def ident(rng, used):
    while True:
        k = rng.random()
        if k < 0.25:
            s = rng.choice(["Alice", "Bob", "Carol", "Dave", "Cloud", "A", "B", "alice", "Al", "Alic", "Alicee", "0", "00", " "])
        elif k < 0.39 and used:
            s = lookalike(rng, rng.choice(sorted(used)))
        elif k < 0.353:
            s = "".join(rng.choice(IDCHARS) for _ in range(50)) * rng.choice([90, 1400])   # beyond 16 bits
        elif k < 0.45:
            s = "".join(rng.choice(IDCHARS) for _ in range(rng.choice([15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 300])))
        else:
            s = "".join(rng.choice(IDCHARS) for _ in range(rng.randint(1, 20)))
        if s not in used:
            used.add(s)
            return s


def related(rng, v, hi):
    """a number which shares most with v"""
    n = max(v.bit_length(), 2)
    w = rng.choice([v ^ (1 << rng.randrange(n - 1)), v ^ (1 << rng.randrange(n // 2, n)), v ^ (rng.getrandbits(n) >> (n // 2) << (n // 2)), v ^ rng.getrandbits(n // 2 + 1), v + 1, max(0, v - 1), v * 2, v >> 1,
                    v + (1 << 64), v + (1 << 32), v ^ (1 << 63), v + hi, v + 2 * hi])
    return w


def secret(rng, p):
    old = rng.__dict__.setdefault("secrets_so_far", [])
    s = related(rng, rng.choice(old), p) if old and rng.random() < 0.2 else _secret(rng, p)
    old.append(s)
    return s


def _secret(rng, p):
    k = rng.random()
    if k < 0.004:
        return rng.getrandbits(rng.choice([5000, 70000, 530000]))
    if k < 0.1:
        return rng.choice([0, 1, 2, 255, 256, p - 1, p, p + 1, 1 << 64, (1 << 64) - 1, 1 << 128, 65536, 0x100000000])
    if k < 0.3:
        return rng.getrandbits(rng.randint(1, 24))
    if k < 0.45:
        return rng.getrandbits(8 * rng.randint(1, 8)) << (8 * rng.randint(1, 8))   # low bytes zero
    if k < 0.6:
        return rng.getrandbits(rng.choice([200, 256, 320, 512, 1024]))               # beyond the field
    return rng.getrandbits(rng.randint(24, p.bit_length()))


def element(rng, bits):
    k = rng.random()
    top = (1 << bits) - 1
    if k < 0.15:
        return rng.choice([0, 1, 2, 3, top, top - 1, 1 << (bits - 1), top >> 1]) & top
    if k < 0.3:
        t = rng.randint(0, bits - 1)
        return (rng.getrandbits(bits - t) << t) & top     # trailing zeros
    if k < 0.5:
        return rng.getrandbits(rng.randint(1, bits))
    return rng.getrandbits(bits)


ALGS = [("mh3", "seed"), ("sha1",), ("sha256",), ("mh3", 0), ("mh3", 0xFFFFFFFF)]


def algorithm(rng):
    a = rng.choice(ALGS)
    if a == ("mh3", "seed"):
        a = ("mh3", rng.getrandbits(32))
    return a


class Params:
    def __init__(self, rng, big=False, minpad=48, maxH=6, maxL=12, exactD=False):
        k = rng.random()
        if k < 0.5:
            self.bits = rng.choice([8, 16, 24, 32, 33, 40, 64])
        else:
            self.bits = rng.randint(1, 80)
        if rng.random() < 0.02:
            self.bits = rng.choice([127, 128, 129, 200, 255, 256, 257, 300, 520])
        fb = self.bits + 1 + minpad + rng.choice([0, 0, 1, 2, 3, 5, 7, 8, 15, 16, rng.randint(0, 120)])
        if rng.random() < 0.25:
            fb = max(fb, rng.choice([64, 96, 113, 120, 128, 160, 161, 192, 256, 320, 321]))
        if rng.random() < 0.012:
            fb = rng.choice([513, 640, 1024, 1025, 1100])
        self.p = m.prime_of(rng, fb)
        self.fbits = fb
        self.pad = fb - self.bits - 1
        self.H = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]) if not big else rng.randint(8, 20)
        self.H = min(self.H, maxH) if not big else self.H
        self.L = rng.choice([1, 2, 3, 4, 5, 7, 8, 11, 12]) if not big else rng.choice([16, 31, 64, 100])
        if not big:
            self.L = min(self.L, maxL)
        if self.bits > 100 or fb > 500:
            self.H, self.L = min(self.H, 3), min(self.L, 4)
        self.D = 2 * self.H + 1 + (0 if exactD or rng.random() < 0.75 else rng.randint(1, 4) if rng.random() < 0.9 or big else rng.choice([10, 33, 64]))
        self.alg = algorithm(rng)
        self.ntlseed = rng.getrandbits(64)

    def bucket(self, e):
        return m.bucket_of(m.alg_digest(self.alg, (e << self.pad) % self.p), self.L)

    def fits(self, elements):
        """the elements which find a place, in order"""
        assert all(e >> self.bits == 0 for e in elements)
        load = [0] * self.L
        out = []
        for e in elements:
            b = self.bucket(e)
            if load[b] < self.H:
                load[b] += 1
                out.append(e)
        return out

    def unknowns(self):
        fb = self.p.bit_length()
        return [m.prf(4, j, fb) % self.p for j in range(self.D)]

    def mask(self, sec, idx):
        return m.zzpprf(self.p, sec % self.p, idx, self.fbits)

    def algtok(self):
        return " ".join(str(x) for x in self.alg)

    def omega(self, key, idx):
        fb = self.p.bit_length()
        return [m.prf(key, idx + i, fb) % self.p for i in range(self.H)] + [1]

    def note(self):
        return "p:%d bits, data:%d bits, L=%d H=%d D=%d alg=%s" % (self.fbits, self.bits, self.L, self.H, self.D, self.alg)


class Client:
    def __init__(self, name, ident_, sec, data):
        self.name, self.id, self.secret, self.data = name, ident_, sec, data


def sets(rng, P, n=2, dup=None):
    """n collections which fit, with elements in common"""
    cap = P.L * P.H
    shape = rng.choice(["mixed", "mixed", "mixed", "same", "disjoint", "subset", "full", "single", "most"])
    pool = []
    size = max(1, rng.randint(1, max(1, cap)))
    if shape == "full":
        size = cap * 3
    if shape == "single":
        size = 1
    for _ in range(size):
        pool.append(element(rng, P.bits))
    if rng.random() < 0.15:
        # elements which share most of their bits
        pool = [related(rng, pool[0], 1 << P.bits) & ((1 << P.bits) - 1) if rng.random() < 0.7 else e for e in pool]
    out = []
    many = []
    if dup and rng.random() < dup / 2:
        # several times in all of them
        many = [rng.choice(pool)] * rng.randint(2, 4)
        dup = 1
    for i in range(n):
        if shape == "same":
            s = list(pool)
        elif shape == "disjoint":
            s = [e for e in pool if e % n == i]
        elif shape == "subset":
            s = list(pool) if i == 0 else [e for e in pool if rng.random() < 0.5]
        elif shape == "most":
            s = [e for e in pool if rng.random() < 0.9] + [element(rng, P.bits) for _ in range(2)]
        else:
            s = [e for e in pool if rng.random() < 0.6] + [element(rng, P.bits) for _ in range(rng.randint(0, max(1, cap // 2)))]
        s = many + s
        rng.shuffle(s)
        if not (dup and rng.random() < dup):
            seen = set()
            s = [e for e in s if not (e in seen or seen.add(e))]
        s = P.fits(s)
        rng.shuffle(s)
        if not s:
            s = P.fits([element(rng, P.bits)])
        out.append(s)
    return out, shape


def header(c, P, seedntl=True):
    c.op("modulus", hz(P.p))
    if seedntl:
        c.op("seedntl", hz(P.ntlseed))


def add_client(c, rng, P, cl, how=None):
    """operations creating the client with its own table"""
    c.op("alg.new", "a_" + cl.name, P.algtok())
    c.op("hb.new", "h_" + cl.name, P.L, P.H, "a_" + cl.name)
    roundabout = how is None and rng.random() < 0.06
    name = cl.name + "_o" if roundabout else cl.name
    if how is None:
        how = rng.choice("zb")
    if how == "z":
        c.op("p.client", name, xs(cl.id), hz(P.p), P.L, P.H, P.D, "h_" + cl.name, "z", hz(cl.secret))
    else:
        b = m.le(cl.secret) + b"\0" * rng.choice([0, 0, 0, 1, 3])
        c.op("p.client", name, xs(cl.id), hz(P.p), P.L, P.H, P.D, "h_" + cl.name, "b", xs(b))
    if roundabout:
        # it is a copy of that one, or another one which was assigned
        if rng.random() < 0.5:
            c.op("p.copy", cl.name, name)
        else:
            c.op("hb.new", "ho_" + cl.name, P.L + 1, P.H + 1, "a_" + cl.name)
            c.op("p.client", cl.name, xs("another"), hz(rng.choice([P.p, 2147483647])), P.L + 1, P.H + 1, 2 * P.H + 3, "ho_" + cl.name, "z", hz(5))
            c.op("p.assign", cl.name, name)
        if rng.random() < 0.7:
            c.op("p.del", name)
        c.stats["roundabout_clients"] += 1


def add_server(c, P, name, ident_):
    c.op("p.server", name, xs(ident_), hz(P.p), P.L, P.H, P.D)


def set_raw(c, rng, P, cl, threads=None):
    th = threads if threads is not None else rng.choice(["-", "0", "1", "2", "3", "8"])
    return c.op("p.raw", cl.name, P.bits, th, len(cl.data), *[hz(e) for e in cl.data])


def want_set(expected):
    exp = sorted(expected)

    def f(text):
        t = text.split()
        got = [int(x, 16) for x in t[1:]]
        if len(got) != int(t[0]):
            return "unreadable list"
        if len(set(got)) != len(got):
            return "elements reported more than once: %s" % [hz(e) for e in got][:20]
        if sorted(got) != exp:
            miss = [hz(e) for e in exp if e not in set(got)]
            extra = [hz(e) for e in got if e not in set(exp)]
            return "wrong intersection: missing %s, in excess %s (expected %d elements)" % (miss[:10], extra[:10], len(exp))
        return None
    return f


def parse_matrix(tok):
    """tokens from L on -> list of rows"""
    assert tok[0] == "L"
    L = int(tok[1])
    i = 2
    rows = []
    for _ in range(L):
        assert tok[i] == "D"
        d = int(tok[i + 1])
        rows.append([int(x, 16) for x in tok[i + 2:i + 2 + d]])
        assert len(rows[-1]) == d
        i += 2 + d
    return rows


def parse_event(text):
    """'recv x<party> ...' -> dict"""
    t = text.split()
    if t[0] != "recv":
        return {"ev": t[0], "party": unx(t[1]).decode("latin-1") if len(t) > 1 and t[1].startswith("x") else None}
    e = {"ev": "recv", "party": unx(t[1]).decode("latin-1")}
    if t[2] == "null":
        e["null"] = True
        return e
    e["from"] = unx(t[2]).decode("latin-1")
    e["type"] = int(t[3])
    e["len"] = int(t[4])
    rest = t[5:]
    e["nodata"] = rest == ["nodata"]
    if rest and rest[0].startswith("x"):
        e["data"] = unx(rest[0])
    elif rest and rest[0] == "L":
        e["matrix"] = parse_matrix(rest)
    return e


def hb_dump(text):
    """dump of a table -> list of (marked, elements)"""
    t = text.split()
    k = int(t[0])
    i = 1
    out = []
    for _ in range(k):
        n = int(t[i + 1])
        out.append((t[i] == "m", [int(x, 16) for x in t[i + 2:i + 2 + n]]))
        i += 2 + n
    assert i == len(t)
    return out


def expected_tq(P, key, A, B, xs_=None):
    """the masked combination the server (on blinded data) and the delegate (on masks) compute"""
    xs_ = xs_ or P.unknowns()
    fb = P.p.bit_length()
    p = P.p
    out = []
    idx = 0
    base = P.L * P.D
    for j in range(P.L):
        wa = P.omega(key, base + P.H * j)
        wb = P.omega(key, 2 * base + P.H * j)
        row = []
        for i in range(P.D):
            a = m.prf(key, idx, fb)
            idx += 1
            row.append((a + A[j][i] * m.peval(wa, xs_[i], p) + B[j][i] * m.peval(wb, xs_[i], p)) % p)
        out.append(row)
    return out


def masks(P, sec):
    return [[P.mask(sec, j * P.D + i) for i in range(P.D)] for j in range(P.L)]


def rand_matrix(rng, P):
    def v():
        k = rng.random()
        if k < 0.1:
            return rng.choice([0, 1, P.p - 1])
        return rng.randrange(P.p)
    return [[v() for _ in range(P.D)] for _ in range(P.L)]


def matrix_tok(M):
    t = [str(len(M))]
    for r in M:
        t.append(str(len(r)))
        t += [hz(x) for x in r]
    return " ".join(t)


def events(res, kinds=("recv",)):
    return [parse_event(e[1]) for e in res.events if e[0] == "V" and e[1].split()[0] in kinds]


def diff_matrix(got, want, what):
    if len(got) != len(want):
        return "%s: %d rows, expected %d" % (what, len(got), len(want))
    for j, (a, b) in enumerate(zip(got, want)):
        if len(a) != len(b):
            return "%s: row %d has %d values, expected %d" % (what, j, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "%s: value %d of row %d is %s, expected %s" % (what, i, j, hz(x), hz(y))
    return None


def key_bytes(key):
    return key.to_bytes(KEYBITS // 8, "little")


def rand_key(rng):
    k = rng.random()
    if k < 0.1:
        return rng.choice([1 << 127, (1 << 128) - 1, (1 << 127) | 1, ((1 << 127) | 0xFF00)])
    if k < 0.3:
        return (1 << 127) | (rng.getrandbits(64) << 40)       # low bytes zero
    return (1 << 127) | rng.getrandbits(127)


def txt(z):
    """as the driver writes a number"""
    if z == 0:
        return "0"
    h = "%x" % abs(z)
    if len(h) % 2:
        h = "0" + h
    return ("-" if z < 0 else "") + h
