"""C05: who sends what to whom."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C05"
TITLE = "A run exchanges exactly the prescribed messages, with a fresh key, secrets kept from the cloud"
COUNTS = {"quick": 2500, "thorough": 15000}
CHUNK = 8
RULE = ("1-10 runs between random pairs of 2-4 clients and 1-2 clouds; every delivery recorded by spies; a trace monitor checks senders, receivers, "
        "kinds, lengths, contents, causal order, keys (full length, never repeated, every byte varies) and that no secret reaches the cloud. "
        "Distinct: by script")


def le(s):
    return s.encode("latin-1")


def monitor(ev, runs, cls, clouds, stats):
    """ev: deliveries in order; runs: (requester, delegate) in order"""
    byname = {x.name: x for x in cls}
    keys = []
    out = []
    k = 0
    for r, d in runs:
        state = {"req": 0, "cloud": 0, "t": 0, "q": 0}
        cl = None
        while k < len(ev):
            e = ev[k]
            if e["ev"] == "done":
                k += 1
                continue
            if e.get("null"):
                return [("trace", "a null message was delivered to %s" % e["party"])], keys
            typ, to, frm = e["type"], e["party"], e["from"]
            if typ == pr.CLIENT_REQ:
                if state["req"]:
                    break   # (the next run)
                if to != d.name or frm != r.id:
                    return [("trace", "request of %r delivered to %s" % (frm, to))], keys
                state["req"] = 1
            elif typ == pr.CLOUD_REQ:
                if not state["req"] or state["cloud"]:
                    return [("trace", "a request to the cloud out of place (%s)" % state)], keys
                if to not in clouds or frm != d.id:
                    return [("trace", "request for the cloud from %r delivered to %s" % (frm, to))], keys
                cl = to
                state["cloud"] = 1
                body = e.get("data")
                pre = le(d.id) + b"\0" + le(r.id) + b"\0"
                if body is None or len(body) != len(pre) + 17 or not body.startswith(pre) or body[-1] != 0:
                    return [("cloud-request", "the request to the cloud is not <delegate>0<requester>0<key of 16 bytes>0: %r" % body)], keys
                key = int.from_bytes(body[len(pre):-1], "little")
                if key.bit_length() != pr.KEYBITS:
                    out.append(("key", "the key has %d bits, expected %d" % (key.bit_length(), pr.KEYBITS)))
                if key in keys:
                    out.append(("key", "the key %s was used before" % hz(key)))
                keys.append(key)
                for x in (r, d):
                    for form in (m.le(x.secret), m.le(x.secret)[::-1], str(x.secret).encode()):
                        # (only secrets long enough not to occur by chance, in the key or elsewhere)
                        if len(form) >= 6 and form in body[len(pre):]:
                            out.append(("secret", "the secret of %s is in the request to the cloud" % x.name))
            elif typ == pr.OUTPUT:
                if not state["cloud"] or state["t"]:
                    return [("trace", "an answer of the cloud out of place (%s)" % state)], keys
                if to != r.name or frm != clouds[cl] or e["len"] != 1 or e["nodata"]:
                    return [("trace", "answer of the cloud from %r delivered to %s, length %d" % (frm, to, e["len"]))], keys
                state["t"] = 1
            elif typ == pr.POLY:
                if not state["req"] or state["q"]:
                    return [("trace", "an answer of the delegate out of place (%s)" % state)], keys
                if to != r.name or frm != d.id or e["len"] != 1 or e["nodata"]:
                    return [("trace", "answer of the delegate from %r delivered to %s, length %d" % (frm, to, e["len"]))], keys
                state["q"] = 1
            else:
                return [("trace", "unexpected message of type %d to %s" % (typ, to))], keys
            stats["deliveries"] += 1
            k += 1
        if set(state.values()) != {1}:
            out.append(("trace", "incomplete run: %s" % state))
            return out, keys
    if k != len(ev):
        out.append(("trace", "%d messages beyond those of the runs" % (len(ev) - k)))
    if len(keys) >= 7:
        for i in range(16):
            if len({x >> (8 * i) & 255 for x in keys}) == 1:
                out.append(("key", "byte %d of the keys never changes in %d runs" % (i, len(keys))))
    return out, keys


def keys_elsewhere(c, rng):
    """keys of different systems, and of different processes, differ too"""
    P = pr.Params(rng, maxH=2, maxL=2)
    ids = [pr.ident(rng, set()) for _ in range(3)]
    ids = ids if len(set(ids)) == 3 else ["Alice", "Bob", "Cloud"]
    da, db = P.fits([pr.element(rng, P.bits) for _ in range(2)]), P.fits([pr.element(rng, P.bits) for _ in range(2)])
    sa, sb = pr.secret(rng, P.p), pr.secret(rng, P.p)
    how = rng.choice(["process", "process", "system", "renewed", "seeds"])
    n = rng.randint(2, 4)
    c.op("modulus", hz(P.p))
    c.op("trace", 1)
    seeds = [rng.getrandbits(64) for _ in range(n)]
    pre = ids[1].encode("latin-1") + b"\0" + ids[0].encode("latin-1") + b"\0"

    def system(cc, i):
        A, B, S = "A%d" % i, "B%d" % i, "S%d" % i
        pr.add_server(cc, P, S, ids[2])
        pr.add_client(cc, rng, P, pr.Client(A, ids[0], sa, da))
        pr.add_client(cc, rng, P, pr.Client(B, ids[1], sb, db))
        cc.op("p.authall", A, B, S)
        pr.set_raw(cc, rng, P, pr.Client(A, ids[0], sa, da))
        pr.set_raw(cc, rng, P, pr.Client(B, ids[1], sb, db))
        cc.op("p.outsource", A, S)
        cc.op("p.outsource", B, S)
        for _ in range(rng.choice([1, 1, 2])):
            cc.op("p.request", A, B)

    def one(i):
        def f(cc):
            cc.op("seedntl", hz(seeds[i]))    # (the generator is seeded differently, as in different processes)
            system(cc, i)
        return f
    for i in range(n):
        if how == "process":
            c.fork(one(i), lambda ending, reached, err: None if reached else "ended with " + ending)
        elif how == "seeds":
            one(i)(c)
        else:
            if i == 0:
                c.op("seedntl", hz(seeds[0]))
            system(c, i)

    def fin(res):
        keys = []
        for e in pr.events(res):
            if e.get("type") == pr.CLOUD_REQ and e["data"].startswith(pre):
                keys.append(e["data"][len(pre):])
        c.stats["keys"] += len(keys)
        if len(keys) < n:
            return [("trace", "%d requests to the clouds in %d systems" % (len(keys), n))]
        if len(set(keys)) != len(keys):
            return [("key", "keys of different systems are the same (%s)" % how)]
    c.final(fin)
    c.stats["systems"] += n
    c.note = "keys of %d systems (%s)" % (n, how)
    return c


def make(rng, index, tier):
    c = Case()
    if index % 9 == 4:
        return keys_elsewhere(c, rng)
    P = pr.Params(rng, maxH=3, maxL=4)
    if index % 350 == 17:
        P.L, P.H, P.D = 1, 1, 3
    used = set()
    n = rng.choice([2, 2, 3, 4])
    datas, shape = pr.sets(rng, P, n)
    cls = [pr.Client("c%d" % i, pr.ident(rng, used), pr.secret(rng, P.p), datas[i]) for i in range(n)]
    clouds = {"S": pr.ident(rng, used)}
    if rng.random() < 0.3:
        clouds["T"] = pr.ident(rng, used)
    pr.header(c, P)
    for s, i in clouds.items():
        pr.add_server(c, P, s, i)
    for x in cls:
        pr.add_client(c, rng, P, x)
    names = list(clouds) + [x.name for x in cls]
    rng.shuffle(names)
    c.op("p.authall", *names)
    for x in cls:
        pr.set_raw(c, rng, P, x)
        for s in clouds:
            c.op("p.outsource", x.name, s)
    c.op("trace", 1)
    runs = []
    nr = rng.choice([1, 2, 3, 5, 8, 10])
    if index % 350 == 17:
        nr = 300      # (a tiny system)
    for _ in range(nr):
        r, d = rng.sample(cls, 2)
        c.op("p.request", r.name, d.name)
        runs.append((r, d))
    c.op("trace", 0)
    requesters = {r.name for r, d in runs}
    for x in cls:
        if x.name not in requesters:
            c.op("p.inter", x.name, want="0", label="learns-nothing")
        c.op("p.secret", x.name, want=lambda t, x=x: None if int(t, 16) == x.secret else "secret changed", label="secret")

    def fin(res):
        ev = [pr.parse_event(e[1]) for e in res.events if e[0] == "V"]
        out, keys = monitor(ev, runs, cls, clouds, c.stats)
        c.stats["keys"] += len(keys)
        return out
    c.final(fin)
    c.note = "%s; %d clients, %d clouds, %d runs" % (P.note(), n, len(clouds), len(runs))
    return c
