"""C03: what is outsourced encodes exactly the data, and nothing but the secret opens it."""
from lib.core import Case, xs, hz
from lib import model as m
from lib import proto as pr

ID = "C03"
TITLE = "Blinded data encode exactly the client's collection under its secret"
COUNTS = {"quick": 3500, "thorough": 60000}
CHUNK = 8
RULE = ("blinded data of random collections (duplicates, boundary elements, empty and full buckets), fields, shapes, thread counts, both "
        "constructors; unmasked with an independent model of the pseudo-random function, interpolated, and compared with the monic "
        "polynomials whose roots are the padded elements of each bucket (times fillers, which are no padded data). Distinct: by script")


def make(rng, index, tier):
    c = Case()
    big = index % 50 == 3
    P = pr.Params(rng, big=big)
    if index % 41 == 5:
        P.L, P.H, P.D = rng.choice([(300, 1, 3), (70, 2, 5), (33, 4, 9)])
    if index % 2400 == 8:
        P.L, P.H, P.D = rng.choice([(22000, 1, 3), (66000, 1, 3), (13200, 2, 5)])   # more values than 16 bits count
    used = set()
    (da,), shape = pr.sets(rng, P, 1, dup=0.3)
    if P.L >= 70:
        da = P.fits([pr.element(rng, P.bits) for _ in range(60)])
    pr.header(c, P)
    A = pr.Client("A", pr.ident(rng, used), pr.secret(rng, P.p), da)
    pr.add_client(c, rng, P, A)
    early = rng.random() < 0.15
    if early:
        c.op("p.copy", "early", "A")
    c.op("p.getraw", "A", want="0 null", label="raw-before")
    c.op("p.blinded", "A", want="%d null" % (P.L * P.D), label="blinded-before")
    pr.set_raw(c, rng, P, A)
    buckets = [[] for _ in range(P.L)]
    for e in da:
        buckets[P.bucket(e)].append(e)
    xs_ = P.unknowns()
    interp = m.Interpolator(xs_, P.p)
    seen = {}

    def check(text):
        t = text.split()
        if int(t[0]) != P.L * P.D:
            return "blinded data size %s, expected %d" % (t[0], P.L * P.D)
        M = pr.parse_matrix(t[1:])
        if len(M) != P.L:
            return "%d rows" % len(M)
        if not interp.ok:
            return None
        seen["M"] = M
        allpad = {(e << P.pad) for e in da}
        for j in range(P.L):
            if len(M[j]) != P.D:
                return "row %d has %d values, expected %d" % (j, len(M[j]), P.D)
            ys = [(M[j][i] - P.mask(A.secret, j * P.D + i)) % P.p for i in range(P.D)]
            poly = interp(ys)
            if len(poly) - 1 != P.H or poly[-1] != 1:
                return "row %d: unmasked values are not those of a monic polynomial of degree %d (degree %d, leading coefficient %s)" % (
                    j, P.H, len(poly) - 1, hz(poly[-1]) if poly else "-")
            for e in buckets[j]:
                poly, r = m.divide_root(poly, e << P.pad, P.p)
                if r:
                    return "row %d: element %s of the bucket is not a root (as many times as it is in the data)" % (j, hz(e))
            c.stats["roots"] += len(buckets[j])
            if len(poly) - 1 != P.H - len(buckets[j]):
                return "row %d: wrong number of fillers" % j
            for e in allpad:
                if m.peval(poly, e, P.p) == 0:
                    return "row %d: an element not of that bucket (or too many times) is a root: %s" % (j, hz(e >> P.pad))
            if len(poly) > 1:
                c.stats["rows_with_fillers"] += 1
                # fillers which look like data would be taken for elements in common
                if poly[0] == 0:
                    return "row %d: a filler is zero" % j
                # a filler in padded form: pairs of rows with the same fillers
                key = tuple(poly)
                if key in seen:
                    return "rows %s and %d have the same fillers" % (seen[key], j)
                seen[key] = j
            c.stats["rows"] += 1
        return None

    c.op("p.blinded", "A", want=check, label="blinded")
    raw = "%d same %s" % (len(da), " ".join(hz(e) if len(hz(e)) % 2 == 0 or e == 0 else "0" + hz(e) for e in da)) if da else None
    c.op("p.getraw", "A", want=raw, label="raw-data")
    if early:
        c.op("p.getraw", "early", want="0 null", label="raw-of-copy")
        c.op("p.blinded", "early", want="%d null" % (P.L * P.D), label="blinded-of-copy")
    c.op("p.secret", "A", want=lambda t: None if int(t, 16) == A.secret else "secret changed: %s" % t, label="secret")
    k = rng.random()
    if k < 0.5:
        # the same data with full buckets leave no choice: the matrix is the same whatever the threads
        full = []
        for j in range(P.L):
            full += buckets[j]
        if all(len(b) == P.H for b in buckets):
            B = pr.Client("B", pr.ident(rng, used), A.secret, list(reversed(full)))
            pr.add_client(c, rng, P, B)
            pr.set_raw(c, rng, P, B)

            def same(text):
                M = pr.parse_matrix(text.split()[1:])
                return None if M == seen.get("M") else "the same data and secret give different blinded data"
            c.op("p.blinded", "B", want=same, label="same-blinded")
            c.stats["full_compared"] += 1
    elif k < 0.8:
        # another client with the same data: fillers of its own
        S2 = pr.secret(rng, P.p)
        B = pr.Client("B", pr.ident(rng, used), S2, list(da))
        pr.add_client(c, rng, P, B)
        pr.set_raw(c, rng, P, B)

        def other(text):
            M = pr.parse_matrix(text.split()[1:])
            if not interp.ok or "M" not in seen:
                return None
            for j in range(P.L):
                if len(buckets[j]) == P.H:
                    continue
                ya = interp([(seen["M"][j][i] - P.mask(A.secret, j * P.D + i)) % P.p for i in range(P.D)])
                yb = interp([(M[j][i] - P.mask(S2, j * P.D + i)) % P.p for i in range(P.D)])
                if len(yb) - 1 != P.H or yb[-1] != 1:
                    return "second client, row %d: not a monic polynomial of degree %d" % (j, P.H)
                for e in buckets[j]:
                    ya, ra = m.divide_root(ya, e << P.pad, P.p)
                    yb, rb = m.divide_root(yb, e << P.pad, P.p)
                    if rb:
                        return "second client, row %d: element %s is not a root" % (j, hz(e))
                # common roots of the fillers: would be false elements in common only if padded; equality is a failure of randomness
                if ya == yb:
                    return "two clients have the same fillers in row %d" % j
                c.stats["fillers_compared"] += 1
            return None
        c.op("p.blinded", "B", want=other, label="second-client")
    if rng.random() < 0.25:
        # copies, and clients which were something else, have the same data
        def copied(text):
            return None if not seen.get("M") or (text.split()[0] == str(P.L * P.D) and pr.parse_matrix(text.split()[1:]) == seen["M"]) else "the blinded data of a copy differ"
        to = ["X"]
        c.op("p.copy", "X", "A")
        for n in [x for x in ("early", "B") if (x == "early" and early) or (x == "B" and 0.5 <= k < 0.8)]:
            c.op("p.assign", n, rng.choice(["A", "X"]))
            to.append(n)
        if rng.random() < 0.3:
            c.op("p.assign", "A", "A")
        gone = rng.choice(["A", "X"]) if rng.random() < 0.4 else None
        if gone:
            c.op("p.del", gone)
        for n in to + ["A"]:
            if n != gone:
                c.op("p.getraw", n, want=raw, label="raw-of-copy")
                c.op("p.blinded", n, want=copied, label="blinded-of-copy")
                c.op("p.secret", n, want=lambda t: None if int(t, 16) == A.secret else "secret of a copy: %s" % t, label="secret-of-copy")
        c.stats["copies"] += len(to)
        if gone == "A":
            c.note = "%s; |A|=%d %s" % (P.note(), len(da), shape)
            return c
    if rng.random() < 0.15:
        c.op("p.rawnull", "A", 5, label="empty-data")
        c.op("p.blinded", "A", want=lambda text: None if pr.parse_matrix(text.split()[1:]) == seen.get("M") else "ignored (null) data changed the blinded data", label="empty-data")
    c.note = "%s; |A|=%d %s" % (P.note(), len(da), shape)
    c.stats["interp_ok" if interp.ok else "interp_bad"] += 1
    return c
