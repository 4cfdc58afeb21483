"""C16: statistics of a table."""
import math
import re
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr
from checks.c11 import field_element

ID = "C16"
TITLE = "The printed statistics of a table are those of its buckets"
COUNTS = {"quick": 9000, "thorough": 40000}
CHUNK = 20
RULE = ("random tables (1 to 200 buckets, empty to full), statistics printed in full or not, the output parsed: total, percentage, extremes and a bucket which has them, mean, "
        "variance, deviation, sizes of the buckets listed; the table is unchanged. Distinct: by script")


def close(a, b):
    return abs(a - b) <= 2e-5 * max(1e-3, abs(b))


def make(rng, index, tier):
    c = Case()
    p = m.prime_of(rng, 113)
    c.op("modulus", hz(p))
    k = rng.choice([1, 2, 3, 5, 10, 28, 29, 30, 31, 32, 50, 200, rng.randint(1, 40)])
    load = rng.choice([1, 2, 3, 5, 10, 40])
    if index % 300 == 23:
        k, load = rng.choice([(3000, 1), (70000, 1), (2, 70000), (40, 3000), (1000, 100)])
    c.op("hb.new", "h", k, load, "none")
    shape = rng.choice(["empty", "full", "one", "random", "random", "random", "equal", "steps"])
    sizes = []
    for i in range(k):
        s = {"empty": 0, "full": load, "one": 1 if i == k - 1 else 0, "random": rng.randint(0, load), "equal": load // 2, "steps": i % (load + 1)}[shape]
        sizes.append(s)
    order = list(range(k))
    rng.shuffle(order)
    for i in order:
        if sizes[i]:
            c.op("hb.addto", "h", i, *[hz(field_element(rng, p)) for _ in range(sizes[i])])
    N = sum(sizes)
    avg = N / k
    var = sum((s - avg) ** 2 for s in sizes) / k
    how = rng.choice(["full", "short", "default"])

    def check(text):
        s = bytes.fromhex(text[1:]).decode()
        num = r"([-+0-9.einfa]+)"

        def get(pat):
            q = re.search(pat, s)
            if not q:
                raise ValueError(pat)
            return [float(x) for x in q.groups()]
        n, pc = get(r"N = %s \(%s%%\)" % (num, num))
        mn, mnb = get(r"min = %s \(bucket %s\)" % (num, num))
        mx, mxb = get(r"max = %s \(bucket %s\)" % (num, num))
        a, = get(r"m = %s\n" % num)
        v, = get(r"v = %s\n" % num)
        d, = get(r"d = %s\n" % num)
        hk, hl = get(r"%s buckets of size %s" % (num, num))
        if (hk, hl) != (k, load):
            return "%s buckets of size %s" % (hk, hl)
        if n != N or not close(pc, 100.0 * N / k / load):
            return "total %s (%s%%), expected %d (%s%%)" % (n, pc, N, 100.0 * N / k / load)
        if mn != min(sizes) or mx != max(sizes) or sizes[int(mnb)] != mn or sizes[int(mxb)] != mx:
            return "extremes %s (%s), %s (%s), expected %d, %d" % (mn, mnb, mx, mxb, min(sizes), max(sizes))
        if not close(a, avg):
            return "mean %s, expected %s" % (a, avg)
        if not close(v, var):
            return "variance %s, expected %s" % (v, var)
        if not close(d, math.sqrt(var)):
            return "deviation %s, expected %s" % (d, math.sqrt(var))
        lst = [(int(x), int(y)) for x, y in re.findall(r"\((\d+), (\d+)\)", s)]
        want = list(enumerate(sizes))[: k if how == "full" or k < 30 else 30]
        if lst != want:
            return "listed %s, expected %s" % (lst[:40], want[:40])
        if ("..." in s) != (len(want) < k) and k != 30:
            return "the list is %scomplete, but %s" % ("" if len(want) == k else "not ", "has dots" if "..." in s else "has no dots")
    c.op("hb.stats", "h", how, want=check, label="statistics")
    c.op("hb.dump", "h", want=lambda t: None if [len(x[1]) for x in pr.hb_dump(t)] == sizes else "changed by the statistics", label="unchanged")
    c.nontrivial = k > 1
    c.stats["tables"] += 1
    c.note = "k=%d load=%d %s %s" % (k, load, shape, how)
    return c
