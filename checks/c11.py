"""C11: SHA digests."""
import hashlib
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C11"
TITLE = "SHA hashing gives the standard digest of exactly the (possibly truncated) value"
COUNTS = {"quick": 8000, "thorough": 60000}
CHUNK = 20
RULE = ("field elements, strings and byte arrays (0 to 3000 bytes, in exactly sized buffers under ASan), truncations, both flavours, random interleavings over "
        "instances, copies and assignments, digests chained in place; names, sizes, readable digests; oracle: hashlib. Distinct: by script")
F = {"sha1": hashlib.sha1, "sha256": hashlib.sha256}


def blob(rng):
    k = rng.random()
    n = rng.choice([0, 1, 2, 19, 20, 31, 32, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 1000, 3000]) if k < 0.5 else rng.randint(0, 300)
    if rng.random() < 0.004:
        n = rng.choice([4095, 4096, 4097, 65535, 65536, 65537, 100000])
    k = rng.random()
    if k < 0.2:
        return bytes(n)
    if k < 0.3:
        return b"\xff" * n
    b = bytes(rng.getrandbits(8) for _ in range(n))
    if k < 0.5 and n > 3:
        i = rng.randrange(n)
        b = b[:i] + b"\0" + b[i + 1:]
    return b


def field_element(rng, p):
    k = rng.random()
    if k < 0.2:
        return rng.choice([0, 1, 9, 10, 99, 100, p - 1]) % p
    return rng.getrandbits(rng.randint(1, p.bit_length())) % p


def trunc(rng, n):
    return rng.choice([0, 1, n - 1, n, n + 1, n + 100, rng.randint(0, n + 2)]) if n > 0 else rng.choice([0, 1, 5])


def make(rng, index, tier):
    c = Case()
    p = m.prime_of(rng, rng.choice([8, 64, 113, 160, 256, 521, 1000]))
    if index % 100 == 17:
        p = (1 << rng.choice([3000, 14000, 14000, 40000 if index % 600 else 230000])) + 1   # (digits only: any modulus does)
    c.op("modulus", hz(p))
    numbers = {"sha1": 0, "sha256": 256}
    zz, ss, bb = {}, {}, {}
    for i in range(rng.randint(1, 3)):
        f = rng.choice(["sha1", "sha256", "shadef", "sha128"])
        c.op("alg.new", "z%d" % i, f)
        zz["z%d" % i] = f if f != "shadef" and f != "sha128" else "sha1"
        if f == "sha128":
            zz["z%d" % i] = "sha1*"
    for i in range(rng.randint(1, 3)):
        f = rng.choice(["sha1", "sha256"])
        c.op("shas.new", "s%d" % i, numbers[f])
        ss["s%d" % i] = f
        f = rng.choice(["sha1", "sha256"])
        c.op("shab.new", "b%d" % i, numbers[f])
        bb["b%d" % i] = f
    for i in range(rng.randint(5, 40)):
        k = rng.random()
        if k < 0.3:
            n = rng.choice(sorted(zz))
            f = F[zz[n].rstrip("*")]
            v = field_element(rng, p)
            d = str(v).encode()
            t = trunc(rng, len(d)) if rng.random() < 0.5 else None
            dd = d[:t] if t and t < len(d) else d
            c.op("alg.hash", n, hz(v), *([t] if t is not None else []), want=xs(f(dd).digest()), label="hash-of-number")
        elif k < 0.5:
            n = rng.choice(sorted(ss))
            b = blob(rng)
            t = trunc(rng, len(b)) if rng.random() < 0.5 else None
            dd = b[:t] if t and t < len(b) else b
            c.op("shas.hash", n, xs(b), *([t] if t is not None else []), want=xs(F[ss[n]](dd).digest()), label="hash-of-string")
        elif k < 0.7:
            n = rng.choice(sorted(bb))
            b = blob(rng)
            if rng.random() < 0.08:
                c.op("shab.hash", n, "null", rng.choice([0, 0, 1, 20]), want="null", label="hash-of-nothing")
            elif not b:
                c.op("shab.hash", n, xs(b), want="null", label="hash-of-nothing")
            else:
                t = rng.randint(1, len(b))
                c.op("shab.hash", n, xs(b), t, want=xs(F[bb[n]](b[:t]).digest()), label="hash-of-bytes")
        elif k < 0.75:
            n = rng.choice(sorted(bb))
            b = blob(rng) or b"a"
            r = rng.randint(1, 20)
            d = b
            for _ in range(r):
                d = F[bb[n]](d).digest()
            c.op("shab.chain", n, xs(b), r, want=xs(d), label="chained")
        elif k < 0.8:
            a = [(rng.choice(sorted(zz)), field_element(rng, p)) for _ in range(2)]
            if a[0][0] != a[1][0]:
                c.op("alg.hash2", *[t for n, v in a for t in (n, hz(v))],
                     want=" ".join(xs(F[zz[n].rstrip("*")](str(v).encode()).digest()) for n, v in a), label="two-instances")
        elif k < 0.86:
            d, t = rng.choice([(ss, "shas"), (bb, "shab")])
            n = rng.choice(sorted(d))
            if rng.random() < 0.5 and len(d) < 6:
                new = n[0] + str(len(c.lines))
                c.op(t + ".copy", new, n)
                d[new] = d[n]
            else:
                o = rng.choice(sorted(d))
                c.op(t + ".assign", o, n)
                d[o] = d[n]
        elif k < 0.88:
            d, t = rng.choice([(ss, "shas"), (bb, "shab")])
            if len(d) > 1:
                n = rng.choice(sorted(d))
                c.op(t + ".del", n)
                del d[n]
        elif k < 0.95:
            b = blob(rng)
            c.op("hexdigest", xs(b), want=xs(b.hex().upper()), label="readable-digest")
        else:
            d, t = rng.choice([(ss, "shas"), (bb, "shab"), (zz, "alg")])
            n = rng.choice(sorted(d))
            f = d[n]
            size = F[f.rstrip("*")]().digest_size

            def info(text, f=f, size=size, z=d is zz):
                q = text.split()
                nm = bytes.fromhex(q[1][1:]).decode("latin-1")
                if int(q[0]) != size:
                    return "digest size %s, expected %d" % (q[0], size)
                # (SHA-1 calls itself SHA0)
                if not nm.startswith("SHA") or not nm.isprintable() or (f == "sha256") != ("256" in nm):
                    return "name %r" % nm
            c.op(t + ".info", n, want=info, label="name-and-size")
        c.stats["ops"] += 1
    c.note = "%d operations" % len(c.lines)
    return c
