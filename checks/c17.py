"""C17: StrInt."""
import sys

from lib.core import Case, xs, hz

ID = "C17"
TITLE = "StrInt is the natural number of its bytes, exactly, at every size"
COUNTS = {"quick": 12000, "thorough": 80000}
CHUNK = 40
RULE = ("random histories over 1-3 numbers of 0 to 300 bytes: construction (from bytes, too many bytes, nothing), setting again (bytes, empty, unsigned long), additions and "
        "increments beyond the size, remainders by divisors up to 2^64-1, decimal text, low word, byte length, conversion to bytes into no, short, exact and larger buffers; "
        "against Python's integers. Distinct: by script")
U = (1 << 64) - 1


def buf(rng, n):
    k = rng.random()
    if k < 0.12:
        return b"\xff" * n
    if k < 0.2:
        return b"\0" * n
    if k < 0.4:
        t = rng.randint(0, n)
        return bytes(rng.getrandbits(8) for _ in range(n - t)) + b"\0" * t
    if k < 0.5:
        t = rng.randint(0, n)
        return b"\0" * t + bytes(rng.getrandbits(8) for _ in range(n - t))
    return bytes(rng.getrandbits(8) for _ in range(n))


def u64(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice([0, 1, 2, 127, 128, 255, 256, 65535, 65536, U, U - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1])
    return rng.getrandbits(rng.randint(1, 64))


def usual(rng):
    return rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 24, 31, 32, 33, 63, 64, 65, 100, 128, 255, 256, 257, 300, rng.randint(1, 300)])





def make(rng, index, tier):
    c = Case()
    objs = {}
    size = usual
    if index % 100 == 37:
        size = lambda rng: rng.choice([511, 512, 513, 1000, 1023, 1025, 2048, 3000, 4096])

    def observe(n):
        cap, v = objs[n]
        bl = max(1, (v.bit_length() + 7) // 8)
        c.op("si.all", n, want="%d %d %d %d" % (v, v, v & U, bl), label="value")
        k = rng.random()
        be = v.to_bytes(bl, "big")
        if k < 0.35:
            c.op("si.bytes", n, "null", *([] if rng.random() < 0.5 else [rng.choice([0, 1, bl, 5000])]), want=xs(be) + " new", label="bytes")
        elif k < 0.8:
            cap2 = rng.choice([bl, bl, bl + 1, bl + rng.randint(1, 40), max(0, bl - 1), 0, rng.randint(0, bl)])
            c.op("si.bytes", n, cap2, want=xs(be) + (" same" if cap2 >= bl else " new"), label="bytes")
        for _ in range(rng.randint(0, 3)):
            d = max(1, u64(rng))
            c.op("si.rem", n, d, want=str(v % d), label="remainder")

    for i in range(rng.choice([1, 1, 2, 3])):
        n = "n%d" % i
        b = size(rng)
        cap = max(1, b)
        k = rng.random()
        if k < 0.6:
            d = buf(rng, rng.choice([b, b, b, size(rng), max(0, b - 1), b + 1]))
            c.op("si.new", n, b, xs(d))
            # (a size of no byte is one byte, but then the number is not read)
            v = int.from_bytes(d[:cap], "little") if b > 0 else 0
        elif k < 0.8:
            c.op("si.new", n, b)
            v = 0
        else:
            c.op("si.new", n, b, "null", rng.choice([0, 1, b, 2 * b]))
            v = 0
        objs[n] = (cap, v)
        observe(n)
    for _ in range(rng.randint(2, 14)):
        n = rng.choice(sorted(objs))
        cap, v = objs[n]
        k = rng.choice(["set", "set", "setu", "inc", "add", "add", "carry", "many", "copy", "assign"])
        if k == "set":
            d = buf(rng, rng.choice([cap, cap, cap + rng.randint(1, 9), rng.randint(0, cap), size(rng), 0]))
            c.op("si.set", n, xs(d))
            v = int.from_bytes(d[:cap], "little")
        elif k == "copy":
            to = "k%d" % len(c.lines)
            c.op("si.copy", to, n)
            objs[to] = (cap, v)
            observe(to)
            if rng.random() < 0.3:
                c.op("si.del", n)
                del objs[n]
                n = to
        elif k == "assign":
            of = rng.choice(sorted(objs))
            c.op("si.assign", n, of)
            cap, v = objs[of]
        elif k == "setu":
            v = u64(rng)
            c.op("si.setu", n, v)
        elif k == "inc":
            c.op("si.inc", n)
            v += 1
        elif k == "add":
            a = u64(rng)
            c.op("si.add", n, a)
            v += a
        elif k == "carry":
            d = b"\xff" * cap
            c.op("si.set", n, xs(d))
            v = int.from_bytes(d, "little")
            c.op("si.inc", n)
            v += 1
        else:
            big = rng.random() < 0.06
            top = big and rng.random() < 0.7
            for _ in range(rng.randint(200, 700) if big else rng.randint(2, 20)):
                a = U - rng.randint(0, 3) if top else u64(rng)
                c.op("si.add", n, a)
                v += a
        objs[n] = (cap, v)
        observe(n)
        c.stats["step_" + k] += 1
    for n in sorted(objs):
        if rng.random() < 0.7:
            c.op("si.del", n)
            del objs[n]
    for n in sorted(objs):
        observe(n)
    c.note = "%d operations" % len(c.lines)
    return c
