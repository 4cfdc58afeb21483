"""C07: malformed and unsatisfiable requests."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C07"
TITLE = "Malformed or unsatisfiable requests are refused, never crash and leave no trace"
COUNTS = {"quick": 4500, "thorough": 20000}
CHUNK = 8
RULE = ("requests to real delegates and clouds: prefixes of valid ones, mutated and random bytes in buffers of their exact size (under ASan), mismatched and "
        "unknown names, missing data, no data, null and self messages; a model of the format says which are refused and what the accepted ones give; "
        "after the refusals complete runs are exact. Distinct: by script")


def enc(s):
    return s.encode("latin-1")


def cut(b):
    i = b.find(b"\0")
    return b if i < 0 else b[:i]


def mutate(rng, b, others):
    k = rng.random()
    if k < 0.35:
        return b[: rng.randint(1, max(1, len(b)))]
    if k < 0.45:
        i = rng.randrange(len(b))
        return b[:i] + bytes([rng.choice([0, 0, 1, 65, 255, b[i] ^ 1])]) + b[i + 1:]
    if k < 0.55:
        i = rng.randrange(len(b))
        return b[:i] + b[i + 1:] or b"\0"
    if k < 0.65:
        i = rng.randrange(len(b) + 1)
        return b[:i] + bytes([rng.choice([0, 65])]) + b[i:]
    if k < 0.75:
        return bytes(rng.choice([0, 0, 65, rng.getrandbits(8)]) for _ in range(rng.randint(1, 60)))
    if k < 0.85:
        return enc(rng.choice(others)) + b[len(cut(b)):]
    if k < 0.9:
        return b.replace(b"\0", b"\1")
    if k < 0.95:
        return b"\0" + b
    return b + b"\0" * rng.randint(1, 3)


def make(rng, index, tier):
    c = Case()
    P = pr.Params(rng, maxH=2, maxL=3)
    used = set()
    (da, db), shape = pr.sets(rng, P, 2)
    A = pr.Client("A", pr.ident(rng, used), pr.secret(rng, P.p), da)
    B = pr.Client("B", pr.ident(rng, used), pr.secret(rng, P.p), db)
    ids = {"A": A.id, "B": B.id, "S": pr.ident(rng, used), "R": pr.ident(rng, used), "N": pr.ident(rng, used), "T": pr.ident(rng, used)}
    pr.header(c, P)
    for x in (A, B):
        pr.add_client(c, rng, P, x)
    pr.add_server(c, P, "S", ids["S"])
    c.op("p.recorder", "R", "c", xs(ids["R"]), hz(P.p), P.L, P.H, P.D)    # outsources
    c.op("p.recorder", "N", "c", xs(ids["N"]), hz(P.p), P.L, P.H, P.D)    # does not
    c.op("p.recorder", "T", "s", xs(ids["T"]), hz(P.p), P.L, P.H, P.D)    # another server, which the clients do not know
    # more clients which outsource
    crowd = ["U%d" % i for i in range(rng.choice([0, 0, 0, 1, 3, 6]) if index % 250 != 33 else 40)]
    for x in crowd:
        ids[x] = pr.ident(rng, used)
        c.op("p.recorder", x, "c", xs(ids[x]), hz(P.p), P.L, P.H, P.D)
    c.op("p.authall", "A", "B", "S", "R", "N", *crowd)
    c.op("p.auth", "S", "T")
    c.op("p.auth", "T", "S")
    for x in (A, B):
        pr.set_raw(c, rng, P, x)
    MR = pr.rand_matrix(rng, P)
    c.op("m.full", "oR", pr.OUTSOURCE, xs(ids["R"]), "matrix", pr.matrix_tok(MR))
    stored = set()
    outs = {"A": lambda: c.op("p.outsource", "A", "S"), "B": lambda: c.op("p.outsource", "B", "S"), "R": lambda: c.op("m.send", "R", "S", "oR")}
    blind = {"R": MR}
    for x in crowd:
        blind[x] = pr.rand_matrix(rng, P)
        c.op("m.full", "o" + x, pr.OUTSOURCE, xs(ids[x]), "matrix", pr.matrix_tok(blind[x]))
        outs[x] = lambda x=x: c.op("m.send", x, "S", "o" + x)
    byid = {v: k for k, v in ids.items()}
    c.op("trace", 1, 1)
    expect = []     # (party, type, check)
    mi = [0]
    hostile = rng.choice([0.35, 0.7, 0.9])
    ln = {x: c.op("p.blinded", x) for x in "AB"}

    def attempt():
        to = rng.choice("ABSSS")
        frm = rng.choice([x for x in ("ABRN" if to != "S" else "ABRNABRNT") if x != to] + crowd[:3])
        fid = enc(ids[frm])
        name = "m%d" % mi[0]
        mi[0] += 1
        if to == "S":
            partner = rng.choice(list("ABRN?ABRNT") + crowd[:3]) if rng.random() < 0.8 else frm
            pid = enc(ids[partner]) if partner != "?" else enc(pr.ident(rng, set(used)))
            body = fid + b"\0" + pid + b"\0" + pr.key_bytes(pr.rand_key(rng)) + b"\0"
            typ = pr.CLOUD_REQ
        else:
            body = fid + b"\0" + m.le(pr.secret(rng, P.p)) + b"\0"
            typ = pr.CLIENT_REQ
        if rng.random() < hostile:
            body = mutate(rng, body, list(ids.values()) + ["x", "zz"])
        # the model
        claimed = cut(body)
        ok = claimed == fid
        ans = None
        if to == "S":
            rest = body[len(claimed) + 1:]
            p2 = cut(rest)
            ok = ok and len(body) >= len(claimed) + 1 + len(p2) + 1 + 16
            pname = byid.get(p2.decode("latin-1"))
            # (a party knows the others, not itself)
            ok = ok and frm != "T" and pname not in (None, "S", "T") and frm in stored and pname in stored
            if ok:
                key = int.from_bytes(body[len(claimed) + 1 + len(p2) + 1:][:16], "little")
                if pname in "AB":
                    ok = "skip"
                ans = (pname, pr.OUTPUT, ("t", key, frm, pname))
        else:
            ok = ok and len(body) >= len(claimed) + 2
            if ok and not ("A" in stored and "B" in stored and frm in stored):
                ok = "skip"   # the delegate ends the program when its cloud refuses
            if ok is True:
                sec = int.from_bytes(body[len(claimed) + 1:-1], "little")
                ans = (frm, pr.POLY, ("q", sec, to, frm))
                if frm in "AB":
                    ok = "skip"
        if ok == "skip":
            return
        c.op("m.full", name, typ, xs(ids[frm]), "bytes", xs(body))
        expect.append((to, typ, None))
        if ok:
            c.op("m.recv", to, name, label="accepted-request")
            if to != "S":
                expect.append(("S", pr.CLOUD_REQ, ("key",)))
                expect.append((frm, pr.OUTPUT, ("t", None, to, frm)))
            expect.append(ans)
            c.stats["accepted"] += 1
        else:
            c.op("m.recv", to, name, exc="ProtocolException", label="refused-request")
            c.op("m.delbytes", name)   # still the caller's
            c.stats["refused"] += 1

    def special():
        k = rng.randrange(8)
        name = "s%d" % mi[0]
        mi[0] += 1
        to = rng.choice("ABS")
        if k == 0:
            c.op("m.recv", to, "null", exc="ProtocolException", label="null-message")
            expect.append((to, "null", None))
            return
        if k == 1:
            c.op("m.send", rng.choice("ABSRN"), to, "null", exc="ProtocolException", label="null-message")
            return
        if k == 2:
            typ = rng.randrange(6)
            if typ in (pr.CLIENT_REQ, pr.CLOUD_REQ, pr.UNKNOWN):
                c.op("m.full", name, typ, xs(ids[to]), "bytes", xs(enc(ids[to]) + b"\0" + b"a" * 40))
            else:
                c.op("m.full", name, typ, xs(ids[to]), "matrix", pr.matrix_tok(pr.rand_matrix(rng, P)))
            c.op("m.recv", to, name, exc="ProtocolException", label="self-message")
            expect.append((to, typ, None))
            return
        if k in (3, 4):
            # outsourcing which is refused: by another server, by somebody unknown, to a client
            frm = "T" if rng.random() < 0.6 else None
            fid = ids[frm] if frm else rng.choice(list(ids.values()) + [""]) + "?"
            if frm is None and fid in ids.values():
                return
            to = "S" if rng.random() < 0.8 else rng.choice("AB")
            typ = rng.choice([pr.OUTSOURCE] * 4 + [pr.POLY, pr.OUTPUT, pr.UNKNOWN])
            c.op("m.full", name, typ, xs(fid), "matrix", pr.matrix_tok(pr.rand_matrix(rng, P)))
            c.op("m.recv", to, name, exc="ProtocolException", label="refused-outsourcing")
            expect.append((to, typ, None))
            c.stats["refused_outsourcing"] += 1
            return
        frm = rng.choice([x for x in "ABSRN" if x != to])
        typ = rng.choice([pr.CLIENT_REQ, pr.POLY, pr.OUTPUT, pr.CLOUD_REQ, pr.OUTSOURCE])
        c.op("m.full", name, typ, xs(ids[frm]), "null", *([rng.randint(0, 100)] if rng.random() < 0.5 else []))
        c.op("m.recv", to, name, exc="ProtocolException", label="no-data")
        expect.append((to, typ, None))
        c.stats["special"] += 1

    order = list("ABR")
    rng.shuffle(order)
    late = rng.random() < 0.5
    for x in crowd:
        if late:
            order.append(x)
        else:
            order.insert(0, x)
    for s in [None] + order:
        if s:
            outs[s]()
            expect.append(("S", pr.OUTSOURCE, None))
            stored.add(s)
        for _ in range(rng.randint(0, 5 if len(crowd) < 10 else 1)):
            attempt() if rng.random() < 0.7 else special()
    for _ in range(rng.randint(5, 20)):
        attempt() if rng.random() < 0.7 else special()
    c.op("trace", 0)
    c.op("p.inter", "A", want="0", label="untouched")
    c.op("p.inter", "B", want="0", label="untouched")
    for a, b in (("A", "B"), ("B", "A")):
        c.op("p.request", a, b, label="run-after")
        c.op("p.inter", a, want=pr.want_set(set(da) & set(db)), label="run-after")

    def fin(res):
        ev = pr.events(res)
        for x in "AB":
            blind[x] = pr.parse_matrix(res.val(ln[x]).split()[1:])
        got = [(e["party"], "null" if e.get("null") else e["type"]) for e in ev]
        want = [(a, b) for a, b, _ in expect]
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            return [("deliveries", "delivery %d is %s, expected %s" % (i, got[i:i + 3], want[i:i + 3]))]
        key = None
        us = P.unknowns()
        secs = {"A": A.secret, "B": B.secret}
        for e, (p, t, chk) in zip(ev, expect):
            if chk is None:
                continue
            if chk[0] == "key":
                key = int.from_bytes(e["data"][-17:-1], "little")
            elif chk[0] == "t":
                w = pr.expected_tq(P, chk[1] if chk[1] is not None else key, blind[chk[2]], blind[chk[3]], us)
                d = pr.diff_matrix(e["matrix"], w, "the cloud's answer")
                if d:
                    return [("answer", d)]
                c.stats["answers"] += 1
            elif chk[0] == "q":
                w = pr.expected_tq(P, key, pr.masks(P, secs[chk[2]]), pr.masks(P, chk[1]), us)
                d = pr.diff_matrix(e["matrix"], w, "the delegate's answer")
                if d:
                    return [("answer", d)]
                c.stats["answers"] += 1
    c.final(fin)
    c.note = "%s; %d requests" % (P.note(), mi[0])
    return c
