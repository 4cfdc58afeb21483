"""C08: what the cloud stores."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C08"
TITLE = "The cloud uses each client's latest accepted data, and nobody else's"
COUNTS = {"quick": 5000, "thorough": 40000}
CHUNK = 10
RULE = ("random histories of outsourcing (again, replaced, refused, by strangers, to several clouds) and computation requests between 2-6 clients with "
        "similar names; identities taken over by new parties; every answer compared with the combination of the data a map of latest accepted data says. Distinct: by script")


def make(rng, index, tier):
    c = Case()
    P = pr.Params(rng, maxH=3, maxL=4)
    used = set()
    pr.header(c, P)
    clouds = ["S"] + (["T"] if rng.random() < 0.4 else [])
    for s in clouds:
        pr.add_server(c, P, s, pr.ident(rng, used))
    n = rng.randint(2, 6)
    if index % 400 == 53:
        n = rng.choice([40, 270, 300])
    ids = {}
    base = pr.ident(rng, used)
    for i in range(n):
        if rng.random() < 0.4:
            # names which look like one another
            k = base + rng.choice(["", "a", "A", " ", "aa", "\x01", "0"]) if rng.random() < 0.7 else "".join(ch.swapcase() if ch.isascii() else ch for ch in base)
            if k in used or not k:
                k = pr.ident(rng, used)
            used.add(k)
        else:
            k = pr.ident(rng, used)
        ids["r%d" % i] = k
        c.op("p.recorder", "r%d" % i, "c", xs(k), hz(P.p), P.L, P.H, P.D)
    c.op("p.authall", *(clouds + list(ids)))
    stranger = pr.ident(rng, used)
    c.op("trace", 1, 1)
    store = {s: {} for s in clouds}
    expect = []
    seq = 0
    latest = {s: {r: r for r in ids} for s in clouds}   # the party the cloud knows under each identity
    steps = rng.randint(6, 22)
    if index % 200 == 77:
        steps = rng.randint(280, 600)
    if n > 6:
        steps = 2 * n
    for st in range(steps):
        s = rng.choice(clouds)
        k = rng.random()
        who = rng.choice(list(ids))
        if n > 6 and st < n:
            k, who = 0.0, list(ids)[st]     # all of them
        if rng.random() < 0.06:
            # another party under an identity the cloud knows
            seq += 1
            nm = "n%d" % seq
            c.op("p.recorder", nm, "c", xs(ids[who]), hz(P.p), P.L, P.H, P.D)
            for t in clouds:
                if t == s or rng.random() < 0.5:
                    c.op("p.auth", t, nm)
                    latest[t][who] = nm
            c.stats["identities_renewed"] += 1
            continue
        frm = who if rng.random() < 0.3 else latest[s][who]
        if k < 0.4:
            M = pr.rand_matrix(rng, P)
            if store[s].get(who) and rng.random() < 0.2:
                # a small change of what is there
                M = [list(r) for r in store[s][who]]
                M[rng.randrange(P.L)][rng.randrange(P.D)] = rng.randrange(P.p)
            seq += 1
            c.op("m.full", "o%d" % seq, pr.OUTSOURCE, xs(ids[who]), "matrix", pr.matrix_tok(M), *([rng.choice([0, 1, P.L * P.D, 255, 256, 1 << 40])] if rng.random() < 0.5 else []))
            c.op("m.send", frm, s, "o%d" % seq, label="outsourcing")
            store[s][who] = M
            expect.append((s, None))
            c.stats["stored"] += 1
        elif k < 0.5:
            seq += 1
            j = rng.randrange(3)
            if j == 0:
                c.op("m.full", "o%d" % seq, pr.OUTSOURCE, xs(stranger), "matrix", pr.matrix_tok(pr.rand_matrix(rng, P)))
            elif j == 1:
                c.op("m.full", "o%d" % seq, rng.choice([pr.POLY, pr.OUTPUT]), xs(ids[who]), "matrix", pr.matrix_tok(pr.rand_matrix(rng, P)))
            else:
                c.op("m.full", "o%d" % seq, pr.OUTSOURCE, xs(ids[who]), "null")
            c.op("m.send", frm, s, "o%d" % seq, exc="ProtocolException", label="refused-outsourcing")
            expect.append((s, None))
            c.stats["refused"] += 1
        else:
            other = rng.choice([x for x in ids if x != who])
            key = pr.rand_key(rng)
            seq += 1
            body = ids[who].encode("latin-1") + b"\0" + ids[other].encode("latin-1") + b"\0" + pr.key_bytes(key) + b"\0"
            c.op("m.full", "q%d" % seq, pr.CLOUD_REQ, xs(ids[who]), "bytes", xs(body))
            expect.append((s, None))
            if who in store[s] and other in store[s]:
                c.op("m.send", frm, s, "q%d" % seq, label="cloud-request")
                expect.append((latest[s][other], (key, store[s][who], store[s][other])))
            else:
                c.op("m.send", frm, s, "q%d" % seq, exc="ProtocolException", label="request-without-data")
                c.stats["unsatisfied"] += 1

    def fin(res):
        ev = pr.events(res)
        got = [e["party"] for e in ev]
        if got != [a for a, _ in expect]:
            return [("deliveries", "deliveries to %s, expected %s" % (got, [a for a, _ in expect]))]
        us = P.unknowns()
        for e, (a, x) in zip(ev, expect):
            if x is None:
                continue
            d = pr.diff_matrix(e.get("matrix", []), pr.expected_tq(P, x[0], x[1], x[2], us), "the cloud's answer")
            if d:
                return [("answer", d)]
            c.stats["answers"] += 1
    c.final(fin)
    c.note = "%s; %d clients, %d clouds" % (P.note(), n, len(clouds))
    return c
