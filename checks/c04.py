"""C04: the two answers are the masked combinations the protocol prescribes."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C04"
TITLE = "Cloud's and delegate's answers are the prescribed combinations under one key"
COUNTS = {"quick": 3000, "thorough": 40000}
CHUNK = 10
RULE = ("the cloud's answer on random outsourced matrices (hand-made messages, any 128-bit key, several partners), and the delegate's answer and "
        "the cloud's answer of whole runs, recorded on delivery and compared value by value with an independent model of the combination "
        "a + A*wA(x) + B*wB(x); data in store unchanged. Distinct: by script")


def make(rng, index, tier):
    c = Case()
    P = pr.Params(rng, maxH=5, maxL=8)
    if index % 40 == 7:
        P.L, P.H, P.D = rng.choice([(300, 1, 3), (20, 6, 13), (64, 2, 5)])
    if index % 1400 in (6, 10):
        P.L, P.H, P.D = rng.choice([(22000, 1, 3), (13200, 2, 5)])   # more values than 16 bits count
    used = set()
    pr.header(c, P)
    if index % 3:
        # the cloud alone, with recorders as clients
        n = rng.choice([2, 2, 3, 4])
        pr.add_server(c, P, "S", pr.ident(rng, used))
        cls = []
        for i in range(n):
            cid = pr.ident(rng, used)
            shared = cls and rng.random() < 0.08
            cls.append(("r%d" % i, cid, cls[-1][2] if shared else pr.rand_matrix(rng, P)))
            c.op("p.recorder", "r%d" % i, "c", xs(cid), hz(P.p), P.L, P.H, P.D)
        c.op("p.authall", "S", *[x[0] for x in cls])
        c.op("trace", 1, 1)
        for nm, cid, M in cls:
            first = next(x for x in cls if x[2] is M)[0]
            if first != nm:
                # (the very same data, of two)
                c.op("m.full", "o" + nm, pr.OUTSOURCE, xs(cid), "dataof", "o" + first)
                c.stats["shared_data"] += 1
            else:
                c.op("m.full", "o" + nm, pr.OUTSOURCE, xs(cid), "matrix", pr.matrix_tok(M))
            c.op("m.send", nm, "S", "o" + nm)
        plan = []
        for q in range(rng.randint(1, 5)):
            a, b = rng.sample(cls, 2)
            if rng.random() < 0.08:
                b = a    # the partner is the sender
                c.stats["own_partner"] += 1
            key = pr.rand_key(rng) if not plan or rng.random() < 0.8 else plan[-1][2]
            data = a[1].encode("latin-1") + b"\0" + b[1].encode("latin-1") + b"\0" + pr.key_bytes(key) + b"\0"
            c.op("m.full", "q%d" % q, pr.CLOUD_REQ, xs(a[1]), "bytes", xs(data))
            c.op("m.send", a[0], "S", "q%d" % q, label="cloud-request")
            plan.append((a, b, key))

        def fin(res):
            ev = [e for e in pr.events(res) if e["party"] != "S"]
            if len(ev) != len(plan):
                return [("answers", "%d answers of the cloud for %d requests" % (len(ev), len(plan)))]
            out = []
            us = P.unknowns()
            for e, (a, b, key) in zip(ev, plan):
                if e["party"] != b[0] or e["type"] != pr.OUTPUT or "matrix" not in e:
                    out.append(("answers", "answer to %s of type %s, expected the partner %s" % (e["party"], e["type"], b[0])))
                    continue
                d = pr.diff_matrix(e["matrix"], pr.expected_tq(P, key, a[2], b[2], us), "the cloud's answer")
                if d:
                    out.append(("cloud-answer", d))
                c.stats["cloud_answers"] += 1
                c.stats["values"] += P.L * P.D
            return out
        c.final(fin)
        c.note = "%s; cloud alone, %d clients, %d requests" % (P.note(), n, len(plan))
        return c
    # whole runs
    n = rng.choice([2, 2, 3, 4]) if P.L < 64 else 2
    datas, shape = pr.sets(rng, P, n)
    if P.L >= 64:
        datas = [P.fits([pr.element(rng, P.bits) for _ in range(30)]) for _ in range(n)]
    cls = [pr.Client("ABCD"[i], pr.ident(rng, used), pr.secret(rng, P.p), datas[i]) for i in range(n)]
    pr.add_server(c, P, "S", pr.ident(rng, used))
    for x in cls:
        pr.add_client(c, rng, P, x)
    c.op("p.authall", "S", *[x.name for x in cls])
    blind = {}
    lines = {}
    for x in cls:
        pr.set_raw(c, rng, P, x)
        lines[x.name] = c.op("p.blinded", x.name)
        c.op("p.outsource", x.name, "S")
    c.op("trace", 1, 1)
    runs = []
    if P.L > 1000:
        c.op("p.mode", "A", "mute")   # (the answers are recorded, which is what matters here)
        c.op("p.mode", "B", "mute")
    star = rng.choice(cls)    # the delegate of most of the runs
    for _ in range(rng.choice([1, 1, 2, 3, 5]) if P.L < 1000 else 1):
        r, d = rng.sample(cls, 2)
        if star is not r and rng.random() < 0.6:
            d = star
        c.op("p.request", r.name, d.name)
        runs.append((r, d))
    c.op("trace", 0)
    after = {x.name: c.op("p.blinded", x.name) for x in cls}

    def fin(res):
        out = []
        for x in [y.name for y in cls]:
            if res.val(lines[x]) != res.val(after[x]):
                out.append(("stored-data", "a run changed the blinded data of %s" % x))
            blind[x] = pr.parse_matrix(res.val(lines[x]).split()[1:])
        ev = pr.events(res)
        us = P.unknowns()
        if len(ev) != 4 * len(runs):
            return [("answers", "%d messages in %d runs" % (len(ev), len(runs)))]
        for n, (r, d) in enumerate(runs):
            e = ev[4 * n:4 * n + 4]
            req = [x for x in e if x["party"] == "S"]
            t = [x for x in e if x.get("type") == pr.OUTPUT]
            q = [x for x in e if x.get("type") == pr.POLY]
            if len(req) != 1 or len(t) != 1 or len(q) != 1:
                return [("answers", "a run without exactly one request to the cloud and two answers")]
            body = req[0]["data"]
            pre = d.id.encode("latin-1") + b"\0" + r.id.encode("latin-1") + b"\0"
            if not body.startswith(pre) or len(body) != len(pre) + 17:
                return [("answers", "unreadable request to the cloud")]
            key = int.from_bytes(body[len(pre):-1], "little")
            w = pr.diff_matrix(t[0]["matrix"], pr.expected_tq(P, key, blind[d.name], blind[r.name], us), "the cloud's answer")
            if w:
                out.append(("cloud-answer", w))
            w = pr.diff_matrix(q[0]["matrix"], pr.expected_tq(P, key, pr.masks(P, d.secret), pr.masks(P, r.secret), us), "the delegate's answer")
            if w:
                out.append(("delegate-answer", w))
            c.stats["cloud_answers"] += 1
            c.stats["delegate_answers"] += 1
            c.stats["values"] += 2 * P.L * P.D
        return out
    c.final(fin)
    c.note = "%s; %d whole runs %s" % (P.note(), len(runs), shape)
    return c
