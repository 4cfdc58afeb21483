"""C25: the registry of parties, and the message envelope."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C25"
TITLE = "Parties and messages report exactly what they were given"
COUNTS = {"quick": 6000, "thorough": 30000}
CHUNK = 15
RULE = ("random histories: clients, clouds and recorders authenticating one another (again, themselves, after a change of identity), queries by party and by identity; "
        "parties built from one another or assigned; properties set and read; messages built, set, copied, with and without data; messages sent by random parties delivered once and unchanged to the party named. Distinct: by script")


def make(rng, index, tier):
    c = Case()
    P = pr.Params(rng, maxH=2, maxL=3)
    pr.header(c, P)
    used = set()

    def anid():
        # (also no identity, or that of another one)
        k = rng.random()
        if k < 0.03:
            return ""
        return rng.choice(sorted(ids.values())) if k < 0.1 and ids else pr.ident(rng, used)
    ids, types, prop = {}, {}, {}
    reg = {}    # party -> set of ids
    secrets = {}
    n = rng.randint(2, 6)
    crowd = index % 300 == 41
    if crowd:
        n = rng.choice([70, 270, 300])
    for i in range(n):
        nm = "p%d" % i
        k = rng.choice("csr" if not crowd else "srrrrrrrr")
        idn = anid()
        if k == "c":
            cl = pr.Client(nm, idn, pr.secret(rng, P.p), [])
            pr.add_client(c, rng, P, cl)
            secrets[nm] = cl.secret
            types[nm] = 0
        elif k == "s":
            pr.add_server(c, P, nm, idn)
            types[nm] = 1
        else:
            t = rng.choice("sc")
            c.op("p.recorder", nm, t, xs(idn), hz(P.p), P.L, P.H, P.D)
            types[nm] = 1 if t == "s" else 0
        ids[nm] = idn
        reg[nm] = set()
        prop[nm] = [P.p, P.D, k]

    def info(a):
        c.op("p.info", a, want="%s %d %s %d" % (xs(ids[a]), types[a], pr.txt(prop[a][0]), prop[a][1]), label="properties")
        if a in secrets:
            c.op("p.secret", a, want=pr.txt(secrets[a]), label="secret")

    def query():
        a = rng.choice(sorted(ids))
        for b in sorted(ids) if not crowd else rng.sample(sorted(ids), 40):
            c.op("p.has", a, b, want=str(int(ids[b] in reg[a])), label="authenticated")
            c.op("p.hasid", a, xs(ids[b]), want=str(int(ids[b] in reg[a])), label="authenticated")
        for x in [pr.ident(rng, set(used)), "", ids[a][:-1], ids[a] + "x"] + ([rng.choice(sorted(reg[a]))] if reg[a] else []):
            c.op("p.hasid", a, xs(x), want=str(int(x in reg[a])), label="authenticated")

    for a in ids:
        info(a)
    msgs = {}
    nm = 0

    def minfo(x):
        w = msgs[x]
        want = "%s %d %s %s" % (xs(w[0]), w[1], "?" if w[2] is None else w[2], "data" if w[3] else "null")

        def chk(t, nolen=w[2] is None, want=want):
            # (the length of no data means nothing)
            g = t.split()
            if nolen:
                g[2] = "?"
            return None if " ".join(g) == want else "%s, expected %s" % (t, want)
        c.op("m.info", x, want=chk, label="envelope")
    c.op("trace", 1)
    sent = []
    for st in range(rng.randint(5, 40)):
        k = rng.choice(["auth"] * 5 + ["dup", "dup", "all", "query", "query", "set", "set", "msg", "msg", "mset", "mset", "copy", "send", "send"])
        a, b = rng.choice(sorted(ids)), rng.choice(sorted(ids))
        c.stats["step_" + k] += 1
        if k == "auth":
            c.op("p.auth", a, b)
            if ids[a] != ids[b]:
                reg[a].add(ids[b])
        elif k == "all":
            s = rng.sample(sorted(ids), rng.randint(1, len(ids)) if not crowd else rng.choice([5, len(ids)]))
            c.op("p.authall", *s)
            for x in s:
                reg[x] |= {ids[y] for y in s if ids[y] != ids[x]}
        elif k == "dup":
            # a party built from another one, or made equal to it: the same properties and partners, then on its own
            e = [x for x in sorted(ids) if prop[x][2] != "r"]
            if not e:
                continue
            a = rng.choice(e)
            to = [x for x in e if prop[x][2] == prop[a][2]]
            if rng.random() < 0.5:
                b = rng.choice(to)
                c.op("p.assign", b, a)
            else:
                b = "d%d" % st
                c.op("p.copy", b, a)
            ids[b], types[b], prop[b], reg[b] = ids[a], types[a], list(prop[a]), set(reg[a])
            if a in secrets:
                secrets[b] = secrets[a]
            for x in (a, b):
                info(x)
            if rng.random() < 0.6:
                ids[b] = anid()
                c.op("p.setid", b, xs(ids[b]))
            if rng.random() < 0.5:
                query()
        elif k == "query":
            query()
        elif k == "set":
            w = rng.choice(["id", "type", "field", "degree", "secret"])
            if w == "id":
                ids[a] = anid() if rng.random() < 0.8 else rng.choice(sorted(reg[a]) or [""])
                c.op("p.setid", a, xs(ids[a]))
            elif w == "type":
                types[a] = rng.randint(0, 1)
                c.op("p.settype", a, types[a])
            elif w == "field":
                prop[a][0] = rng.choice([P.p, m.prime_of(rng, rng.choice([64, 113, 200]))])
                c.op("p.setfield", a, hz(prop[a][0]))
            elif w == "degree":
                prop[a][1] = rng.choice([0, 1, 3, 255, 256, 65536, 10 ** 12])
                c.op("p.setdegree", a, prop[a][1])
            elif a in secrets:
                secrets[a] = pr.secret(rng, P.p)
                c.op("p.setsecret", a, hz(secrets[a]))
            for x in sorted(ids) if not crowd else rng.sample(sorted(ids), 5) + [a]:
                info(x)
        elif k == "msg":
            x = "m%d" % nm
            nm += 1
            ty = rng.randint(0, 5)
            how = rng.choice(["default", "null", "len"])
            if how == "default":
                c.op("m.ctor", x, 5, "default", want="null")
                msgs[x] = ["", 5, None, False]
            elif how == "null":
                c.op("m.ctor", x, ty, "null", want="null")
                msgs[x] = ["", ty, None, False]
            else:
                ln = rng.choice([0, 1, 8, 64, 255, 256, 1 << 32, (1 << 64) - 1])
                c.op("m.ctor", x, ty, ln, want="same")
                msgs[x] = ["", ty, ln, True]
            minfo(x)
        elif k == "mset" and msgs:
            x = rng.choice(sorted(msgs))
            w = rng.choice(["type", "id", "data", "data0", "null"])
            if w == "type":
                msgs[x][1] = rng.randint(0, 5)
                c.op("m.set", x, "type", msgs[x][1])
            elif w == "id":
                msgs[x][0] = rng.choice(["", pr.ident(rng, set(used)), ids[a]])
                c.op("m.set", x, "id", xs(msgs[x][0]))
            elif w == "null":
                c.op("m.set", x, "null", *([] if rng.random() < 0.5 else [0]), want="null")
                msgs[x][2:] = [None, False]
            elif w == "data0":
                c.op("m.set", x, "data", want="same")
                msgs[x][2:] = [0, True]
            else:
                ln = rng.choice([0, 1, 8, 77, 1 << 40])
                c.op("m.set", x, "data", ln, want="same")
                msgs[x][2:] = [ln, True]
            for y in sorted(msgs):
                minfo(y)
        elif k == "copy" and msgs:
            x = "m%d" % nm
            nm += 1
            y = rng.choice(sorted(msgs))
            c.op("m.copy", x, y)
            msgs[x] = list(msgs[y])
            minfo(x)
            minfo(y)
        elif k == "send":
            r = [x for x in ids if prop[x][2] == "r"]
            if rng.random() < 0.2:
                c.op("m.send", a, b, "null", exc="ProtocolException", label="send-nothing")
            elif r and msgs:
                to, x = rng.choice(r), rng.choice(sorted(msgs))
                w = msgs[x]
                if w[3] and w[1] in (0, 1, 2, 3, 4):
                    continue   # (the recorder would read the data)
                if rng.random() < 0.25:
                    c.op("p.mode", to, "throw")
                    c.op("m.send", a, to, x, exc="ProtocolException", label="send-refused")
                    c.op("p.mode", to, "forward")
                else:
                    c.op("m.send", a, to, x, want="", label="send")
                sent.append((to, w[0], w[1]))
    c.op("trace", 0)
    for a in ids:
        info(a)
    query()

    def fin(res):
        got = [(e["party"], e["from"], e["type"]) for e in pr.events(res)]
        if got != sent:
            return [("delivery", "deliveries %s, expected %s" % (got, sent))]
    c.final(fin)
    c.note = "%d parties, %d messages" % (n, nm)
    return c
