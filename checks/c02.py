"""C02: histories of protocol runs."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C02"
TITLE = "Every run of a history gives the current intersection, nothing else changes"
COUNTS = {"quick": 1400, "thorough": 6000}
CHUNK = 4
RULE = ("histories of 3-14 steps (thorough: up to 30) over 2-5 clients and 1-2 clouds: runs in any direction, the two answers delivered in "
        "either order with other traffic in between, rejected and malformed messages, new data outsourced under the same identity, "
        "data outsourced again, new clients joining; after each step the intersections of all the clients are compared to a model. "
        "Distinct: by the whole script")
ASSUMPTIONS = ["one run at a time per requester (the protocol has no session identifiers)"]


def make(rng, index, tier):
    c = Case()
    P = pr.Params(rng, maxH=4, maxL=8)
    if index % 160 == 33:
        P = pr.Params(rng, maxH=1, maxL=2)
    used = set()
    n = rng.choice([2, 2, 3, 3, 4, 5])
    longrun = index % 160 == 33
    if longrun:
        n = 3
    datas, shape = pr.sets(rng, P, n, dup=0.1)
    cls = [pr.Client("c%d" % i, pr.ident(rng, used), pr.secret(rng, P.p), datas[i]) for i in range(n)]
    clouds = ["S"] + (["T"] if rng.random() < 0.3 else [])
    pr.header(c, P)
    cloudids = {}
    for s in clouds:
        cloudids[s] = pr.ident(rng, used)
        pr.add_server(c, P, s, cloudids[s])
    for x in cls:
        pr.add_client(c, rng, P, x)
    names = clouds + [x.name for x in cls]
    rng.shuffle(names)
    c.op("p.authall", *names)

    def publish(x):
        for s in clouds:
            c.op("p.outsource", x.name, s)

    for x in cls:
        pr.set_raw(c, rng, P, x)
        publish(x)
    inter = {x.name: set() for x in cls}
    live = list(cls)
    steps = rng.randint(3, 14) if tier == "quick" else rng.randint(3, 30)
    if longrun:
        steps = 400
    kinds = []
    nfresh = 0
    nbad = [0]

    def bad(req, dele):
        """a message which is refused by the requester (or the cloud)"""
        nbad[0] += 1
        nm = "bad%d" % nbad[0]
        b = rng.choice(["null", "self", "stranger", "type", "mismatch", "short", "nodata", "spoofed", "spoofed", "cloud"])
        tgt, typ, frm, data = req.name, pr.CLIENT_REQ, dele.id, xs(dele.id.encode("latin-1") + b"\0abc\0")
        if b == "null":
            c.op("m.recv", rng.choice([req.name, clouds[0]]), "null", exc="ProtocolException")
            return b
        if b == "self":
            frm = req.id
        elif b == "stranger":
            frm = pr.ident(rng, set(used))
        elif b == "type":
            typ = rng.choice([pr.CLOUD_REQ, pr.OUTSOURCE, pr.UNKNOWN])
        elif b == "mismatch":
            data = xs(req.id.encode("latin-1") + b"\0abc\0")
        elif b == "short":
            data = xs(dele.id.encode("latin-1"))
        elif b == "nodata":
            typ = rng.choice([pr.CLIENT_REQ, pr.POLY, pr.POLY])
        elif b == "spoofed":
            # an answer of somebody who cannot give it
            typ, frm = rng.choice([(pr.POLY, cloudids[clouds[0]]), (pr.OUTPUT, dele.id), (pr.POLY, req.id), (pr.OUTPUT, req.id), (pr.POLY, pr.ident(rng, set(used))),
                                   (pr.OUTPUT, pr.ident(rng, set(used))), (pr.OUTSOURCE, dele.id), (pr.OUTSOURCE, cloudids[clouds[0]])])
        elif b == "cloud":
            tgt = rng.choice(clouds)
            typ, frm = rng.choice([(pr.OUTSOURCE, pr.ident(rng, set(used))), (pr.POLY, req.id), (pr.OUTPUT, req.id), (pr.UNKNOWN, req.id), (pr.OUTSOURCE, cloudids[tgt]), (pr.CLOUD_REQ, req.id)])
            data = xs(rng.choice([req.id.encode("latin-1") + b"\0" + dele.id.encode("latin-1") + b"\0abc", dele.id.encode("latin-1") + b"\0" + req.id.encode("latin-1") + b"\0" + b"a" * 16 + b"\0"]))
        if b == "nodata":
            c.op("m.full", nm, typ, xs(frm), "null")
        elif typ in (pr.POLY, pr.OUTPUT, pr.OUTSOURCE) and b in ("spoofed", "cloud"):
            c.op("m.full", nm, typ, xs(frm), "matrix", pr.matrix_tok(pr.rand_matrix(rng, P)))
        else:
            c.op("m.full", nm, typ, xs(frm), "bytes", data)
        c.op("m.recv", tgt, nm, exc="ProtocolException", label="rejected-message")
        return b

    def observe(only=None):
        for x in only or live:
            c.op("p.inter", x.name, want=pr.want_set(inter[x.name]), label="intersection")

    for st in range(steps):
        if longrun and rng.random() < 0.95:
            k = "run"
        else:
            k = rng.choice(["run", "run", "run", "run", "swap", "order", "order", "bad", "again", "renew", "join", "partial", "half", "copy", "copy-cloud"])
        req, dele = rng.sample(live, 2)
        if longrun and k == "run" and rng.random() < 0.8:
            # one client asks most of the time, and mostly gets another intersection than before
            req = live[0]
            dele = rng.choice([x for x in live[1:] if set(x.data) & set(req.data) != inter[req.name]] or live[1:])
        if longrun and k in ("renew", "copy") and req is live[0]:
            k = "again"
        if k == "join" and len(live) >= 6:
            k = "run"
        kinds.append(k)
        if k == "run":
            c.op("p.request", req.name, dele.name, label="run")
            inter[req.name] = set(req.data) & set(dele.data)
        elif k == "swap":
            for a, b in ((req, dele), (dele, req)):
                c.op("p.request", a.name, b.name, label="run")
                inter[a.name] = set(a.data) & set(b.data)
                observe((a,))
        elif k == "order":
            # the answers wait, arrive in some order, something happens in between
            c.op("p.mode", req.name, "hold")
            c.op("p.request", req.name, dele.name, label="run")
            c.op("p.held", req.name, want="2", label="answers")
            c.op("p.mode", req.name, "forward")
            o = [0, 1]
            rng.shuffle(o)
            observe((req,))
            c.op("p.deliver", req.name, o[0])
            observe((req,))   # one answer alone changes nothing
            while rng.random() < 0.4:
                bad(req, dele)
                observe((req,))
            others = [x for x in live if x is not req]
            if len(others) > 1 and rng.random() < 0.5:
                a, b = rng.sample(others, 2)
                c.op("p.request", a.name, b.name, label="run")
                inter[a.name] = set(a.data) & set(b.data)
            if rng.random() < 0.3:
                c.op("p.request", dele.name, req.name, label="run")
                inter[dele.name] = set(dele.data) & set(req.data)
            if rng.random() < 0.3:
                publish(rng.choice(live))
            c.op("p.deliver", req.name, o[1])
            inter[req.name] = set(req.data) & set(dele.data)
            c.op("p.forgetheld", req.name)
        elif k == "bad":
            kinds[-1] = "bad-" + bad(req, dele)
        elif k == "again":
            publish(req)
        elif k == "renew":
            # the same identity, a new object with new data and a new secret
            nfresh += 1
            data = pr.sets(rng, P, 1)[0][0]
            keep = [e for e in dele.data if rng.random() < 0.5]
            data = P.fits(list(dict.fromkeys(keep + data)))
            new = pr.Client("n%d" % nfresh, req.id, pr.secret(rng, P.p), data)
            live[live.index(req)] = new
            inter[new.name] = set()
            pr.add_client(c, rng, P, new)
            c.op("p.authall", *(clouds + [x.name for x in live]))
            pr.set_raw(c, rng, P, new)
            publish(new)
        elif k == "join":
            nfresh += 1
            data = P.fits(list(dict.fromkeys(rng.choice(live).data[: rng.randint(1, 4)] + pr.sets(rng, P, 1)[0][0])))
            new = pr.Client("n%d" % nfresh, pr.ident(rng, used), pr.secret(rng, P.p), data)
            live.append(new)
            inter[new.name] = set()
            pr.add_client(c, rng, P, new)
            c.op("p.authall", *(clouds + [x.name for x in live]))
            pr.set_raw(c, rng, P, new)
            publish(new)
        elif k == "half":
            # one answer arrives and the other does not; then a complete run
            which = rng.choice([0, 0, 1])
            c.op("p.mode", req.name, "hold")
            c.op("p.request", req.name, dele.name, label="run")
            c.op("p.mode", req.name, "forward")
            c.op("p.deliver", req.name, which)
            c.op("p.forgetheld", req.name)
            observe((req,))
            dele = rng.choice([x for x in live if x is not req])
            if which == 1:
                # (the delegate's replaces the one which waits, and comes first)
                c.op("p.mode", req.name, "hold")
                c.op("p.request", req.name, dele.name, label="run")
                c.op("p.mode", req.name, "forward")
                c.op("p.deliver", req.name, 1)
                observe((req,))
                c.op("p.deliver", req.name, 0)
                c.op("p.forgetheld", req.name)
            else:
                c.op("p.request", req.name, dele.name, label="run")
            inter[req.name] = set(req.data) & set(dele.data)
        elif k == "copy":
            # a copy of a client takes its place
            nfresh += 1
            new = pr.Client("n%d" % nfresh, req.id, req.secret, req.data)
            c.op("p.copy", new.name, req.name)
            inter[new.name] = inter[req.name]
            live[live.index(req)] = new
            c.op("p.authall", *(clouds + [x.name for x in live]))
            if rng.random() < 0.6:
                publish(new)
                if rng.random() < 0.7:
                    c.op("p.del", req.name)
        elif k == "copy-cloud":
            i = rng.randrange(len(clouds))
            nfresh += 1
            c.op("p.copy", "cl%d" % nfresh, clouds[i])
            cloudids["cl%d" % nfresh] = cloudids[clouds[i]]
            old, clouds[i] = clouds[i], "cl%d" % nfresh
            c.op("p.authall", *(clouds + [x.name for x in live]))
            if rng.random() < 0.5:
                c.op("p.del", old)
        elif k == "partial":
            # only one of the answers arrives; then a complete run
            c.op("p.mode", req.name, "drop")
            c.op("p.request", req.name, dele.name, label="run")
            c.op("p.mode", req.name, "forward")
            observe((req,))
            c.op("p.request", req.name, dele.name, label="run")
            inter[req.name] = set(req.data) & set(dele.data)
        c.stats["step_" + kinds[-1]] += 1
        observe()
    c.note = "%s; %d clients; %s" % (P.note(), n, ",".join(kinds))
    c.stats["steps"] += steps
    return c
