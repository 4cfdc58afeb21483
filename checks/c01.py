"""C01: the requester gets exactly the intersection."""
from lib.core import Case
from lib import proto as pr

ID = "C01"
TITLE = "The requester gets exactly the elements both clients have"
CPU = 60
COUNTS = {"quick": 1400, "thorough": 15000}
RULE = ("one protocol run between two clients through a cloud, random field, shape (buckets, load, degree), hash algorithm, ids, "
        "secrets and collections (shared, disjoint, equal, nested, full buckets, boundary elements, duplicates); oracle: the "
        "intersection of the plain sets. Non-trivial: every run which reaches the end; distinct: by the whole script")
ASSUMPTIONS = ["the field is prime and leaves at least 48 bits of padding, so that a false positive has probability < 2^-40 per run",
               "no bucket exceeds the maximum load, and the degree is at least twice the load plus one"]


def make(rng, index, tier):
    c = Case()
    big = index % 60 == 7
    P = pr.Params(rng, big=big)
    if index % 97 == 11:
        # many positions: indexes of the generators beyond one and two bytes
        P.L, P.H, P.D = rng.choice([(300, 1, 3), (130, 1, 5), (1500, 1, 3)] if tier == "quick" else [(300, 2, 5), (1500, 1, 3), (8000, 1, 3)])
    if index % 900 == 19:
        P = pr.Params(rng, maxH=1)
        P.L, P.H, P.D = 22000, 1, 3   # more values than 16 bits count
    used = set()
    (da, db), shape = pr.sets(rng, P, 2, dup=0.25)
    if P.L >= 300:
        com = [pr.element(rng, P.bits) for _ in range(20)]
        da = P.fits(list(dict.fromkeys(com + [pr.element(rng, P.bits) for _ in range(30)])))
        db = P.fits(list(dict.fromkeys([pr.element(rng, P.bits) for _ in range(30)] + com)))
        shape = "wide"
    A = pr.Client("A", pr.ident(rng, used), pr.secret(rng, P.p), da)
    B = pr.Client("B", pr.ident(rng, used), pr.secret(rng, P.p), db)
    pr.header(c, P)
    if rng.random() < 0.3:
        pr.add_server(c, P, "S", pr.ident(rng, used))
        pr.add_client(c, rng, P, B)
        pr.add_client(c, rng, P, A)
    else:
        pr.add_client(c, rng, P, A)
        pr.add_client(c, rng, P, B)
        pr.add_server(c, P, "S", pr.ident(rng, used))
    names = ["A", "B", "S"]
    clouds = ["S"]
    if rng.random() < 0.15:
        pr.add_server(c, P, "S2", pr.ident(rng, used))
        names.append("S2")
        clouds.append("S2")
    rng.shuffle(names)
    c.op("p.authall", *names)
    order = [A, B]
    rng.shuffle(order)
    if rng.random() < 0.5:
        for x in order:
            pr.set_raw(c, rng, P, x)
        for x in order:
            for s in clouds:
                c.op("p.outsource", x.name, s)
    else:
        for x in order:
            pr.set_raw(c, rng, P, x)
            for s in clouds:
                c.op("p.outsource", x.name, s)
    req, dele = (A, B) if rng.random() < 0.5 else (B, A)
    c.op("p.request", req.name, dele.name, label="run")
    exp = set(A.data) & set(B.data)
    c.op("p.inter", req.name, want=pr.want_set(exp), label="intersection")
    c.op("p.inter", dele.name, want="0", label="delegate-learns-nothing")
    c.note = "%s; |A|=%d |B|=%d |A^B|=%d %s" % (P.note(), len(A.data), len(B.data), len(exp), shape)
    c.stats["elements_in_common"] += len(exp)
    c.stats["shape_" + shape] += 1
    c.stats["alg_" + P.alg[0]] += 1
    c.stats["runs"] += 1
    return c
