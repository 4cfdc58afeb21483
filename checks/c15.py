"""C15: concealing."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr
from checks.c11 import field_element

ID = "C15"
TITLE = "Concealing fills every bucket to the same size and loses or moves nothing"
COUNTS = {"quick": 8000, "thorough": 40000}
CHUNK = 20
RULE = ("random tables, empty to full, concealed once or twice with a generator of recognisable (or repeated) values and with the real one: sizes, original elements per bucket, marks "
        "of the buckets which were empty, each generated value used exactly once. Distinct: by script")


def make(rng, index, tier):
    c = Case()
    p = m.prime_of(rng, rng.choice([113, 160, 200]))
    c.op("modulus", hz(p))
    k = rng.choice([1, 2, 3, 5, 8, 16, 40, 100])
    load = rng.choice([1, 2, 3, 4, 6, 10, 30])
    if index % 500 == 23:
        k, load = rng.choice([(66000, 1), (2, 33000), (300, 300), (1000, 3)])
    alg = pr.algorithm(rng)
    c.op("alg.new", "a", *alg)
    c.op("hb.new", "h", k, load, "a")
    bk = [[] for _ in range(k)]
    dens = rng.choice([0, 0.1, 0.5, 1, 2, 10] if k * load < 2000 else [0, 0.01, 0.1])
    base = (p >> 1) + 5
    for _ in range(int(dens * k * load)):
        v = field_element(rng, p)
        if v >= base:
            v >>= 2
        b = m.bucket_of(m.alg_digest(alg, v), k)
        if rng.random() < 0.2:
            b = rng.randrange(k)
            if len(bk[b]) < load:
                c.op("hb.addto", "h", b, hz(v))
                bk[b].append(v)
        elif len(bk[b]) < load:
            c.op("hb.add", "h", hz(v))
            bk[b].append(v)
    if rng.random() < 0.3 and k * load < 5000:
        # a copy is concealed, or the original of a copy
        c.op("hb.copy", "hc", "h")
        if rng.random() < 0.5:
            c.op("hb.del", "h")
            c.op("hb.copy", "h", "hc")
    need = k * load - sum(map(len, bk))
    real = rng.random() < 0.4
    if real:
        c.op("pprf.new", "g", hz(p))
        c.op("hb.concealp", "h", "g")
    else:
        draws = []
        if rng.random() < 0.4:
            # a generator which repeats itself, or gives what is in the table
            pool = [v for b in bk for v in b][:50] + [0, 1, rng.randrange(p)]
            draws = [rng.choice(pool) for _ in range(min(need, 300))]
            c.stats["repeating_generators"] += 1
        want = sorted(draws + list(range(base + len(draws), base + need)))
        c.op("hb.conceal", "h", hz(base), *[hz(v) for v in draws], want=str(need), label="values-used")

    def dump(text):
        got = pr.hb_dump(text)
        if len(got) != k:
            return "%d buckets" % len(got)
        fillers = []
        for i, ((mk, g), w) in enumerate(zip(got, bk)):
            if len(g) != load:
                return "bucket %d has %d elements, expected %d" % (i, len(g), load)
            rest = list(g)
            for e in w:
                if e not in rest:
                    return "bucket %d lost %s" % (i, hz(e))
                rest.remove(e)
            fillers += rest
            if mk != (not w):
                return "bucket %d, which had %d elements, is %smarked" % (i, len(w), "" if mk else "not ")
        if len(fillers) != need:
            return "%d fillers" % len(fillers)
        if not real and sorted(fillers) != want:
            return "the fillers are not the generated values, each once"
        if real and len(set(fillers)) != need:
            return "fillers repeat"
        c.stats["fillers"] += need
        return None
    c.op("hb.dump", "h", want=dump, label="concealed")
    if rng.random() < 0.3:
        c.op("hb.copy", "h2", "h")
        if rng.random() < 0.5:
            c.op("hb.del", "h")
            c.op("hb.copy", "h", "h2")
        c.op("hb.dump", "h2", want=dump, label="copy-of-concealed")
        c.op("hb.info", "h2", want="%d %d %d" % (sum(map(len, bk)), k, load), label="shape-and-size")
        if rng.random() < 0.5:
            c.op("hb.conceal", "h2", hz(base), want="0", label="copy-second-time")
            c.op("hb.dump", "h2", want=dump, label="copy-of-concealed")
    if rng.random() < 0.4:
        c.op("hb.conceal", "h", hz(base), want="0", label="second-time")
        c.op("hb.dump", "h", want=dump, label="concealed-twice")
    c.stats["marked"] += sum(not b for b in bk)
    c.op("hb.info", "h", want="%d %d %d" % (sum(map(len, bk)), k, load), label="shape-and-size")
    # marks alone
    prog = "".join(rng.choice("muftp") for _ in range(rng.randint(0, 12)))
    st, n, s = False, 0, "0"
    for ch in prog:
        st = {"m": True, "t": True, "u": False, "f": False, "p": st}[ch]
        n += ch == "p"
        s += "1" if st else "0"
    if prog:
        c.op("mv", prog, want="%s %d" % (s, n), label="marks")
    c.note = "k=%d load=%d, %d elements, %s generator" % (k, load, sum(map(len, bk)), "real" if real else "recognisable")
    return c
