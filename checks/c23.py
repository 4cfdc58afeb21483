"""C23: no growth."""
import random
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr
from checks import c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21

ID = "C23"
TITLE = "Repeating the same work does not use more and more memory"
COUNTS = {"quick": 1000, "thorough": 4000}
MIX = False
CHUNK = 2
CPU = 30
RULE = ("the same work 20 times in one process (400 times where memory grew): protocol runs, refused and malformed messages, data outsourced again, parties and tables built and destroyed, objects of each class "
        "built, used and destroyed, or kept and used again; the bytes allocated (as counted by AddressSanitizer's allocator) after 20, 100, 200 and 400 times: growing at a steady rate is a violation. Distinct: by script")
ASSUMPTIONS = ["answers are delivered (the protocol gives them to the requester, which frees them)", "data are set once per client"]


def protocol(c, rng):
    P = pr.Params(rng, maxH=3, maxL=4)
    used = set()
    (da, db), _ = pr.sets(rng, P, 2)
    A = pr.Client("A", pr.ident(rng, used), pr.secret(rng, P.p), da)
    B = pr.Client("B", pr.ident(rng, used), pr.secret(rng, P.p), db)
    pr.header(c, P)
    pr.add_client(c, rng, P, A)
    pr.add_client(c, rng, P, B)
    ids = pr.ident(rng, used)
    pr.add_server(c, P, "S", ids)
    c.op("p.authall", "A", "B", "S")
    for x in (A, B):
        pr.set_raw(c, rng, P, x)
        c.op("m.full", "o" + x.name, pr.OUTSOURCE, xs(x.id), "blinded", x.name)
        c.op("m.send", x.name, "S", "o" + x.name)
    inter = sorted(set(da) & set(db))
    q, d = (A, B) if rng.random() < 0.5 else (B, A)
    k = rng.choice(["run", "run", "both", "order", "again", "refused", "refused-cloud", "refused-answers", "pending", "pending", "objects", "copies", "authenticate"])
    body = []

    def run(a, b):
        body.append((("p.request", a.name, b.name), {}))
        body.append((("p.inter", a.name), {"want": pr.want_set(inter), "label": "intersection"}))
    if k == "run":
        run(q, d)
    elif k == "both":
        run(q, d)
        run(d, q)
    elif k == "order":
        o = [0, 1]
        rng.shuffle(o)
        body += [(("p.mode", q.name, "hold"), {}), (("p.request", q.name, d.name), {}), (("p.mode", q.name, "forward"), {}),
                 (("p.deliver", q.name, o[0]), {}), (("p.deliver", q.name, o[1]), {}), (("p.clearheld", q.name), {}), (("p.forgetheld", q.name), {}),
                 (("p.inter", q.name), {"want": pr.want_set(inter)})]
    elif k == "again":
        for x in (A, B):
            body.append((("m.send", x.name, "S", "o" + x.name), {}))
    elif k == "refused":
        bads = [(pr.CLIENT_REQ, q.id, xs(d.id.encode("latin-1") + b"z\0abc\0")), (pr.CLIENT_REQ, q.id, xs(q.id.encode("latin-1"))), (pr.CLIENT_REQ, "nobody", xs(b"nobody\0a\0")),
                (pr.CLOUD_REQ, q.id, xs(b"abc")), (pr.UNKNOWN, q.id, xs(b"abc")), (pr.CLIENT_REQ, d.id, xs(b"")), (pr.CLIENT_REQ, q.id, None)]
        M = pr.matrix_tok(pr.rand_matrix(rng, P))
        bads += [(pr.POLY, ids, M), (pr.OUTPUT, q.id, M), (pr.OUTSOURCE, q.id, M), (pr.POLY, "nobody", M), (pr.OUTPUT, ids, None), (pr.POLY, q.id, None), (pr.POLY, d.id, M)]
        for i, (t, f, b) in enumerate(rng.sample(bads, rng.randint(1, 4))):
            c.op("m.full", "bad%d" % i, t, xs(f), *(["null"] if b is None else ["matrix", b] if b == M else ["bytes", b]))
            body.append((("m.recv", d.name, "bad%d" % i), {"exc": "ProtocolException"}))
        body.append((("m.recv", d.name, "null"), {"exc": "ProtocolException"}))
    elif k == "refused-cloud":
        key = b"\x11" * 15 + b"\x80"
        i_, o_ = q.id.encode("latin-1"), d.id.encode("latin-1")
        bads = [i_ + b"\0Zed Nobody\0" + key + b"\0", i_ + b"\0" + o_ + b"\0" + key[:7], o_ + b"\0" + i_ + b"\0" + key + b"\0", i_, i_ + b"\0", i_ + b"\0" + o_]
        M = pr.matrix_tok(pr.rand_matrix(rng, P))
        c.op("p.recorder", "Z", "s", xs("another cloud"), hz(P.p), P.L, P.H, P.D)
        c.op("p.auth", "S", "Z")
        z = "another cloud"
        bads = [(pr.CLOUD_REQ, q.id, b) for b in bads]
        bads += [(pr.OUTSOURCE, z, M), (pr.OUTPUT, z, M), (pr.CLOUD_REQ, z, z.encode() + b"\0" + o_ + b"\0" + key + b"\0"), (pr.POLY, q.id, M), (pr.OUTSOURCE, "nobody", M),
                 (pr.OUTSOURCE, q.id, None), (pr.CLOUD_REQ, q.id, None), (pr.OUTPUT, z, None), (pr.OUTSOURCE, ids, M), (pr.UNKNOWN, q.id, b"abc")]
        for i, (t, f, b) in enumerate(rng.sample(bads, rng.randint(1, 4))):
            c.op("m.full", "bad%d" % i, t, xs(f), *(["null"] if b is None else ["matrix", b] if b == M else ["bytes", xs(b)]))
            body.append((("m.recv", "S", "bad%d" % i), {"exc": "ProtocolException"}))
    elif k == "refused-answers":
        # the requester refuses what the delegate or the cloud computed
        if rng.random() < 0.5:
            # the answer of the cloud
            key = pr.rand_key(rng)
            for i in range(rng.randint(1, 2)):
                body += [(("p.mode", q.name, "throw"), {}),
                         (("m.full", "cr", pr.CLOUD_REQ, xs(d.id), "bytes", xs(d.id.encode("latin-1") + b"\0" + q.id.encode("latin-1") + b"\0" + pr.key_bytes(key) + b"\0")), {}),
                         (("m.recv", "S", "cr"), {"exc": "ProtocolException"}), (("m.delbytes", "cr"), {}), (("p.mode", q.name, "forward"), {})]
        else:
            # that of the delegate: it is not known to the requester, the cloud is
            q2 = pr.Client("X", pr.ident(rng, used), q.secret, q.data)
            pr.add_client(c, rng, P, q2)
            c.op("p.auth", "X", "S")
            c.op("p.auth", "S", "X")
            c.op("p.auth", d.name, "X")
            pr.set_raw(c, rng, P, q2)
            c.op("m.full", "oX", pr.OUTSOURCE, xs(q2.id), "blinded", "X")
            c.op("m.send", "X", "S", "oX")
            body.append((("p.request", "X", d.name), {"exc": "ProtocolException"}))
    elif k == "pending":
        # answers which are waiting are overwritten, or their owner destroyed
        which = rng.choice(["t", "q"])
        M = pr.matrix_tok(pr.rand_matrix(rng, P))
        t, frm = (pr.OUTPUT, ids) if which == "t" else (pr.POLY, d.id)
        if rng.random() < 0.5:
            for i in range(rng.randint(1, 3)):
                body += [(("m.full", "w", t, xs(frm), "matrix", M), {}), (("m.recv", q.name, "w"), {}), (("m.del", "w"), {})]
            if rng.random() < 0.5:
                run(q, d)
                if which == "q":
                    # (combined with the answer of the cloud; the one of the delegate waits)
                    body.pop()
                    body += [(("m.full", "w", pr.OUTPUT, xs(ids), "matrix", M), {}), (("m.recv", q.name, "w"), {}), (("m.del", "w"), {})]
        else:
            body += [(("alg.new", "ax") + tuple(P.alg), {}), (("hb.new", "hx", P.L, P.H, "ax"), {}),
                     (("p.client", "X", xs("X!"), hz(P.p), P.L, P.H, P.D, "hx", "z", hz(q.secret)), {}),
                     (("p.auth", "X", "S"), {}), (("p.auth", "X", d.name), {}),
                     (("m.full", "w", t, xs(frm), "matrix", M), {}), (("m.recv", "X", "w"), {}), (("m.del", "w"), {}),
                     (("p.del", "X"), {}), (("hb.del", "hx"), {}), (("alg.del", "ax"), {})]
    elif k == "copies":
        # (Z: without data)
        c.op("alg.new", "az", *P.alg)
        c.op("hb.new", "hz", P.L, P.H, "az")
        c.op("p.client", "Z", xs("Z!"), hz(P.p), P.L, P.H, P.D, "hz", "z", hz(q.secret))
        body += [(("p.copy", "X", rng.choice([q.name, "Z"])), {}), (("p.copy", "Y", "S"), {}), (("p.assign", d.name, d.name), {})]
        for _ in range(rng.randint(1, 5)):
            body.append((rng.choice([("p.assign", "X", q.name), ("p.assign", "X", "Z"), ("p.assign", "X", "X"), ("p.assign", "Y", "S"), ("p.assign", "X", d.name)]), {}))
        body += [(("p.del", "Y"), {}), (("p.del", "X"), {})]
    elif k == "authenticate":
        for a in "ABS":
            for b in "ABS":
                body.append((("p.auth", a, b), {}))
                body.append((("p.has", a, b), {"want": str(int(a != b))}))
    else:
        body += [(("alg.new", "ax") + tuple(P.alg), {}), (("hb.new", "hx", P.L, P.H, "ax"), {}),
                 (("p.client", "X", xs("X!"), hz(P.p), P.L, P.H, P.D, "hx", "z", hz(q.secret)), {}),
                 (("p.auth", "X", "S"), {}),
                 (("p.raw", "X", P.bits, "1", len(q.data)) + tuple(hz(e) for e in q.data), {}),
                 (("p.server", "Y", xs("Y!"), hz(P.p), P.L, P.H, P.D), {}), (("p.auth", "Y", "A"), {}),
                 (("p.del", "Y"), {}), (("p.del", "X"), {}), (("hb.del", "hx"), {}), (("alg.del", "ax"), {})]
    return "protocol-" + k, body


# objects: what builds them -> what destroys them
DEL = {"si.new": "si.del", "prf.new": "prf.del", "prf.copy": "prf.del", "pprf.new": "pprf.del", "pprf.copy": "pprf.del", "alg.new": "alg.del", "alg.copysha": "alg.del",
       "shas.new": "shas.del", "shas.copy": "shas.del", "shab.new": "shab.del", "shab.copy": "shab.del", "si.copy": "si.del", "hb.copy": "hb.del", "poly.copy": "poly.del", "hb.new": "hb.del", "hbs.new": "hbs.del", "poly.new": "poly.del",
       "bm.new": "bm.del", "bm.copy": "bm.del", "ex.new": "ex.del", "ex.newd": "ex.del", "ex.newm": "ex.del", "ex.copy": "ex.del"}
GONE = set(DEL.values())
ORDER = ["hb.del", "hbs.del", "pprf.del", "prf.del"]


def objects(mod, **opts):
    def f(c, rng):
        while True:
            o = mod.make(random.Random(rng.getrandbits(64)), rng.getrandbits(20), "quick", **opts)
            if "fork" not in o.lines and not any(l.split()[0] in ("randq", "settime") for l in o.lines) and len(o.lines) < 300 and sum(map(len, o.lines)) < 30000:
                break
        wants = {n: (w, e, l) for n, w, e, l in o.wants}
        body, alive = [], {}
        for i, l in enumerate(o.lines):
            t = l.split(" ")
            if t[0] == "clock":
                c.op(*t)     # once: the clock does not go back
                continue
            if t[0] in DEL:
                if (DEL[t[0]], t[1]) in alive:
                    body.append(((DEL[t[0]], t[1]), {}))
                alive[(DEL[t[0]], t[1])] = True
            if t[0] in GONE:
                alive.pop((t[0], t[1]), None)
            kw = {}
            if i in wants:
                w, e, lb = wants[i]
                # (what depends on earlier draws is compared by the other checks)
                if e:
                    kw = {"exc": e}
            body.append((tuple(t), dict(kw, any_end="alg.put" == t[0])))
        for k in sorted(alive, key=lambda a: (ORDER.index(a[0]) if a[0] in ORDER else 9, a)):
            body.append((k, {}))
        return "objects-" + mod.ID, body
    return f


def kept(c, rng):
    """the same objects, used again and again"""
    p = m.prime_of(rng, rng.choice([64, 113, 128]))
    c.op("modulus", hz(p))
    k = rng.choice(["prf", "pprf", "digest", "shas", "shab", "int", "poly", "poly", "bm", "ex", "table"])
    body = []

    def do(*t, **kw):
        body.append((t, kw))
    r = rng.randint
    if k == "prf":
        c.op("prf.new", "f")
        for _ in range(r(1, 4)):
            do("prf.gen", "f", hz(rng.getrandbits(rng.choice([8, 96, 200]))), r(0, 9), rng.choice([1, 8, 96, 160, 161, 1000, r(1, 3000)]))
    elif k == "pprf":
        c.op("pprf.new", "f", hz(p))
        for _ in range(r(1, 4)):
            do("pprf.gen", "f", hz(rng.randrange(p)), r(0, 9), r(1, p.bit_length()))
        if rng.random() < 0.5:
            do("pprf.setmod", "f", hz(p))
    elif k == "digest":
        a = pr.algorithm(rng)
        c.op("alg.new", "a", *a)
        for _ in range(r(1, 4)):
            do("alg.hash", "a", hz(rng.randrange(p)))
    elif k in ("shas", "shab"):
        c.op(k + ".new", "s", rng.choice(["1", "256"]))
        c.op(k + ".new", "s2", rng.choice(["1", "256"]))
        for _ in range(r(1, 4)):
            do(k + ".hash", "s", xs(bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 16, 100, 300])))))
            if rng.random() < 0.3:
                do(k + ".assign", "s", "s2")
    elif k == "int":
        a, b = rng.getrandbits(rng.choice([1, 8, 64, 300])), rng.getrandbits(rng.choice([1, 8, 64, 300]))
        c.op("si.new", "i", "def")
        c.op("si.new", "j", "def")
        for _ in range(r(1, 4)):
            do("si.set", "i", xs(str(a)))
            do("si.set", "j", xs(str(b)))
            do(*rng.choice([("si.all", "i"), ("si.assign", "i", "j"), ("si.bytes", "i", 0, 1), ("si.rem", "i", r(1, 10 ** 9)), ("si.inc", "i"), ("si.add", "i", "j")]))
    elif k == "poly":
        pad = rng.choice([0, 8])
        c.op("poly.new", "q", pad)
        c.op("poly.new", "q2", pad)
        c.op("poly.threads", "q", rng.choice([0, 1, 3]))
        for _ in range(r(1, 3)):
            D, L = r(2, 5), rng.choice([1, 1, 2, 4])
            xv = rng.sample(range(1, 1000), D)
            ys = []
            for _ in range(L):
                roots = [rng.randrange(1, 1000) << pad for _ in range(r(1, D - 1))]
                for x in xv:
                    y = 1
                    for z in roots:
                        y = y * (x - z) % p
                    ys.append(hz(y))
            xy = [D] + [hz(x) for x in xv] + [L] + ys
            w = rng.random()
            if w < 0.5:
                do("poly.findxy", "q", rng.choice(["default", "b", "c"]), *xy)
            else:
                do("poly.interp", "q", rng.choice(["default", "monic", "not"]), *xy)
                do("poly.monic", "q")
                for _ in range(r(0, 2)):
                    do("poly.fact", "q", rng.choice(["default", "b", "c"]))
                do("poly.find", "q")
            if rng.random() < 0.3:
                do("poly.assign", "q2", "q")
    elif k == "bm":
        c.op("bm.new", "b")
        for _ in range(r(1, 3)):
            do("bm.start", "b")
            for _ in range(r(1, 9)):
                do(*rng.choice([("bm.step", "b"), ("bm.step", "b", xs("n")), ("bm.pause", "b"), ("bm.cont", "b")]))
            do("bm.stop", "b")
            do("bm.stats", "b")
    elif k == "ex":
        c.op("ex.new", "e", "e", xs("text"), 0, 1)
        for _ in range(r(1, 4)):
            do("ex.setm", "e", xs("x" * r(0, 99)))
            do("ex.all", "e")
            do("ex.throw", "e", rng.choice(["std", "base"]))
    else:
        c.op("alg.new", "a", *pr.algorithm(rng))
        c.op("alg.new", "a2", *pr.algorithm(rng))
        for n in "hg":
            c.op("hb.new", n, r(1, 9), 50, "a")
            for _ in range(r(0, 20)):
                c.op("hb.add", n, hz(rng.randrange(p)))
        for _ in range(r(1, 4)):
            do(*rng.choice([("hb.info", "h"), ("hb.setalg", "h", rng.choice(["a", "a2"])), ("hb.assign", "h", "g"), ("hb.dump", "h"), ("hb.show", "h", "full")]))
        do("hb.assign", "h", "h")
    return "kept-" + k, body


KINDS = [protocol] * 9 + [kept] * 4 + [objects(c10, autos=False), objects(c14, forks=False)] + [objects(x) for x in (c09, c11, c12, c13, c15, c16, c17, c18, c19, c20, c21)]


def make(rng, index, tier, longer=False):
    c = Case()
    kind, body = KINDS[index % len(KINDS)](c, rng)
    marks = {}
    at = (20, 100, 200, 400) if longer else (5, 10, 20)
    for r in range(1, at[-1] + 1):
        for tok, kw in body:
            if r == 1 or r in at or tok[0] != "p.inter":
                c.op(*tok, **kw)
        if r in at:
            marks[r] = c.op("live")

    def fin(res):
        try:
            v = [int(res.val(marks[i])) for i in at]
        except TypeError:
            return
        if not longer:
            # (suspicious: caches also grow, up to their bound)
            if v[2] - v[1] >= 8:
                return [("grows:" + kind, "allocated after %s times: %s bytes" % (at, v))]
            return
        rates = [(v[i + 1] - v[i]) / (at[i + 1] - at[i]) for i in range(3)]
        if min(rates) >= 0.4 * max(rates) and min(rates) >= 0.8:
            return [("grows:" + kind, "allocated after %s times: %s bytes" % (at, v))]
    c.final(fin)
    c.stats[kind] += 1
    c.stats["repetitions"] += at[-1]
    c.note = kind
    return c


def confirm(rng, index, tier):
    """growth is judged on many more repetitions of the same work"""
    c = make(rng, index, tier, True)
    c.stats["confirmations"] += 1
    return c
