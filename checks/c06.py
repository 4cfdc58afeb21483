"""C06: only authorised messages are accepted."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C06"
TITLE = "Messages from unauthenticated senders or of a wrong kind are refused without effect"
COUNTS = {"quick": 4500, "thorough": 40000}
CHUNK = 8
RULE = ("random (one-directional) authentication relations over clients, clouds and recorders; every pair of receiver and claimed sender, every kind of message "
        "(also unknown numbers), stored and sent by any party: the answer of the authorisation query and the exception of the delivery against the relation; "
        "a refused message causes no delivery and the following runs are exact. Distinct: by script")
TYPES = [0, 1, 2, 3, 4, 5, 6, 7]


def allowed(rtype, stype, typ):
    if rtype == "c":
        return (typ in (pr.CLIENT_REQ, pr.POLY) and stype == "c") or (typ == pr.OUTPUT and stype == "s")
    return typ in (pr.CLOUD_REQ, pr.OUTSOURCE) or (typ == pr.OUTPUT and stype == "s")


def make(rng, index, tier):
    c = Case()
    P = pr.Params(rng, maxH=2, maxL=3)
    used = set()
    (da, db), shape = pr.sets(rng, P, 2)
    A = pr.Client("A", pr.ident(rng, used), pr.secret(rng, P.p), da)
    B = pr.Client("B", pr.ident(rng, used), pr.secret(rng, P.p), db)
    ids = {"A": A.id, "B": B.id, "S": pr.ident(rng, used), "T": pr.ident(rng, used), "R": pr.ident(rng, used), "Q": pr.ident(rng, used)}
    types = {"A": "c", "B": "c", "S": "s", "T": "s", "R": "c", "Q": "s"}
    pr.header(c, P)
    for x in (A, B):
        pr.add_client(c, rng, P, x)
    for s in "ST":
        pr.add_server(c, P, s, ids[s])
    c.op("p.recorder", "R", "c", xs(ids["R"]), hz(P.p), P.L, P.H, P.D)
    c.op("p.recorder", "Q", "s", xs(ids["Q"]), hz(P.p), P.L, P.H, P.D)
    real = "ABST"
    # what the runs at the end need
    rel = {("A", "B"), ("A", "S"), ("B", "A"), ("B", "S"), ("S", "A"), ("S", "B")}
    dens = rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])
    extra = [(a, b) for a in real for b in ids if rng.random() < dens]
    early = rng.random() < 0.5
    done = set()

    def auth(a, b):
        c.op("p.auth", a, b)
        if a != b:
            done.add((a, b))

    base = sorted(rel)
    rng.shuffle(base)
    pr.set_raw(c, rng, P, A)
    pr.set_raw(c, rng, P, B)
    # delegates must not choose another cloud than S: only S is known to be a cloud for A and B when they run
    extra = [(a, b) for a, b in extra if not (a in "AB" and types[b] == "s" and b != "S")]
    if early:
        for a, b in base:
            auth(a, b)
        c.op("p.outsource", "A", "S")
        c.op("p.outsource", "B", "S")
    for a, b in extra:
        auth(a, b)
    c.op("trace", 1)
    mi = [0]
    senders = list(ids) + ["?", "?"]
    expect = []   # deliveries caused by the attempts

    def stranger():
        while True:
            s = pr.lookalike(rng, rng.choice(sorted(ids.values()))) if rng.random() < 0.5 else pr.ident(rng, set(ids.values()))
            if s not in ids.values():
                return s

    def attempts(n):
        for _ in range(n):
            to = rng.choice(real)
            frm = rng.choice(senders)
            typ = rng.choice(TYPES)
            fid = ids[frm] if frm != "?" else stranger()
            name = "m%d" % mi[0]
            mi[0] += 1
            known = (to, frm) in done
            ok = frm != "?" and known and allowed(types[to], types[frm], typ)
            # contents which would be fine if the sender were
            if typ == pr.CLIENT_REQ:
                body = xs(fid.encode("latin-1") + b"\0" + m.le(rng.getrandbits(40)) + b"\0")
            elif typ == pr.CLOUD_REQ:
                body = xs(fid.encode("latin-1") + b"\0" + ids[rng.choice("AB")].encode("latin-1") + b"\0" + pr.key_bytes(pr.rand_key(rng)) + b"\0")
            else:
                body = None
            if ok and typ in (pr.CLIENT_REQ, pr.CLOUD_REQ, pr.OUTPUT, pr.POLY, pr.OUTSOURCE):
                # accepted: only ask (the runs cover what happens then), except kinds between clouds
                if body is None:
                    c.op("m.full", name, typ, xs(fid), "null")
                else:
                    c.op("m.full", name, typ, xs(fid), "bytes", body)
                c.op("m.isauth", to, name, want="1", label="authorised")
                if types[to] == "s" and types[frm] == "s":
                    if body is None:
                        c.op("m.full", name, typ, xs(fid), "matrix", pr.matrix_tok(pr.rand_matrix(rng, P)))
                    c.op("m.recv", to, name, exc="ProtocolException", label="between-clouds")
                    expect.append(to)
                c.stats["authorised"] += 1
                continue
            if body is None and rng.random() < 0.7:
                c.op("m.full", name, typ, xs(fid), "matrix", pr.matrix_tok(pr.rand_matrix(rng, P)))
            elif body is None:
                c.op("m.full", name, typ, xs(fid), "null")
            else:
                c.op("m.full", name, typ, xs(fid), "bytes", body)
            if frm != to:
                c.op("m.isauth", to, name, want="0", label="unauthorised")
            if rng.random() < 0.5:
                c.op("m.recv", to, name, exc="ProtocolException", label="unauthorised-delivery")
            else:
                c.op("m.send", rng.choice("ABSTRQ"), to, name, exc="ProtocolException", label="unauthorised-delivery")
            expect.append(to)
            c.stats["refused"] += 1

    attempts(rng.randint(3, 12))
    c.op("m.isauth", rng.choice(real), "null", want="0")
    if not early:
        for a, b in base:
            auth(a, b)
        c.op("trace", 0)
        c.op("p.outsource", "A", "S")
        c.op("p.outsource", "B", "S")
        c.op("trace", 1)
    attempts(rng.randint(0, 8))
    if rng.random() < 0.4:
        # a party becomes of another type: what it may send changes
        for x in rng.choice(["R", "Q", "RQ"]):
            types[x] = "s" if types[x] == "c" else "c"
            c.op("p.settype", x, 1 if types[x] == "s" else 0)
        n = rng.randint(3, 10)
        senders[:] = list("RQT") * 2 + list(ids) + ["?"]
        attempts(n)
        c.stats["types_changed"] += 1
        for x in "R":
            if (x == "R") != (types[x] == "c"):
                types[x] = "c" if x == "R" else "s"
                c.op("p.settype", x, 0 if x == "R" else 1)
    c.op("trace", 0)
    c.op("p.inter", "A", want="0", label="untouched")
    c.op("p.inter", "B", want="0", label="untouched")
    c.op("p.request", "A", "B", label="run-after")
    c.op("p.inter", "A", want=pr.want_set(set(da) & set(db)), label="run-after")
    c.op("p.request", "B", "A", label="run-after")
    c.op("p.inter", "B", want=pr.want_set(set(da) & set(db)), label="run-after")

    def fin(res):
        got = [e["party"] for e in pr.events(res)]
        if got != expect:
            return [("deliveries", "refused messages caused deliveries: %s instead of %s" % (got, expect))]
    c.final(fin)
    c.note = "%s; %d attempts, density %.1f" % (P.note(), mi[0], dens)
    return c
