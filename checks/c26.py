"""C26: allocations that fail."""
import importlib
from lib.core import Case, unx
from lib import core

ID = "C26"
TITLE = "A failed allocation ends the process with code 2 or throws std::bad_alloc"
COUNTS = {"quick": 4000, "thorough": 40000}
CHUNK = 10
MIX = False
CPU = 60
RULE = ("histories of the other checks; at up to 10 of their operations, in a child process, one allocation (or all from one on) of those the operation makes, or of the arrays among them, fails: "
        "the child ends with code 2 and a message on the standard error, or the operation throws std::bad_alloc and all the objects can still be destroyed (and what only gives something gives the same as without the failure), or it ends as it does with "
        "enough memory. Distinct: by script")
ASSUMPTIONS = ["the allocations of the library's own objects and of the templates it instantiates; those inside of libstdc++'s strings, NTL, GMP and Crypto++ do not fail"]
SRC = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c25"]
ENV = {"modulus", "seedntl", "seedrand", "randq", "randcalls", "settime", "clock", "tick", "trace", "live", "pid", "echo", "rndbits", "world", "fork", "endfork", "thread", "endthread", "m.del", "m.delbytes", "ex.throw"}
# what only gives something: the same afterwards, when there is memory again
PURE = set("""alg.hash alg.hash2 alg.info hexdigest shas.hash shas.info shab.hash shab.info si.all si.rem si.bytes log2 blocks bytesu byteszz byteszzp zeropad zeropadto clz v2v
printarr showarr hb.get hb.info hb.dump hb.stats hb.show hbs.dump p.hasid p.has p.info p.secret p.getraw p.blinded p.inter m.info bm.state bm.at bm.named bm.last bm.stats bm.statsd
ex.all prf.gen prf.defseed pprf.gen pprf.defseed poly.info""".split())
# what allocates at many places
MANY = set("p.raw p.client p.copy p.assign p.request p.outsource m.recv m.send alg.hash hb.add hb.addlist hb.new hb.copy poly.interp poly.find poly.findxy poly.fact poly.copy si.all prf.gen".split())
BAD = "std:St9bad_alloc"


def pick(rng, lines):
    """operations to fail: the rare kinds as often as the frequent ones"""
    kinds, depth = {}, 0
    for i, l in enumerate(lines):
        o = l.split(" ", 1)[0]
        depth += (o in ("fork", "thread")) - (o in ("endfork", "endthread"))
        if depth == 0 and o not in ENV and len(l) < 20000:
            kinds.setdefault(o, []).append(i)
    if not kinds:
        return []
    many = [k for k in sorted(kinds) for _ in range(4 if k in MANY else 1)]
    return sorted({rng.choice(kinds[rng.choice(many)]) for _ in range(rng.randint(3, 10))})


def make(rng, index, tier):
    mod = importlib.import_module("checks." + SRC[index % len(SRC)])
    src = mod.make(rng, rng.getrandbits(16) | 1, "quick")
    c = Case()
    c.note = mod.ID + " " + src.note
    chosen = set(pick(rng, src.lines))
    places, where = [], {}

    def follow(i):
        """the lines after it, up to a process or thread of its own"""
        j = i + 1
        while j < min(len(src.lines), i + 7) and src.lines[j].split(" ", 1)[0] not in ("fork", "thread", "world", "m.del", "m.delbytes") and len(src.lines[j]) < 20000:
            j += 1
        return list(range(i + 1, j))

    for i, l in enumerate(src.lines):
        t = l.split(" ")
        dump = ["hb.dump " + t[1]] if t[0] in ("hb.add", "hb.addto", "hb.addlist", "hb.conceal", "hb.concealp", "hb.copy", "hb.assign") else []
        if i in chosen:
            f = len(c.lines)
            c.lines += ["fork", "failnew %d %s %s" % (rng.choice([0, 999999, rng.randrange(10 ** 6), rng.randrange(10 ** 6)]), rng.choice(["any", "any", "arrays"]), rng.choice(["once", "lasting"])), l]
            again = t[0] in PURE
            c.lines += ["again " + l] * again
            n, then = len(c.lines), follow(i)
            c.lines += dump + [src.lines[j] for j in then] + ["destroy", "endfork"]
            places.append((f, i, again, n, then, bool(dump)))
        where[i] = len(c.lines)
        c.lines.append(l)
        if i in chosen:
            c.lines += dump
    c.nontrivial = bool(places)
    c.stats["histories_" + mod.ID] += 1

    def judge(res):
        bad = []
        fails = {int(e[1].split()[1]): e[1].split()[2:] for e in res.events if e[0] == "V" and e[1].startswith("fail ")}
        for f, i, again, m, then, dump in places:
            after = where[i]
            if f not in res.r:
                break       # (the case ended before)
            t = res.r[f][1].split()
            ending, err = " ".join(t[:2]), unx(t[2]).decode("utf-8", "replace")
            n = f + 2
            at = fails.get(n)
            if at is None:
                continue
            op = c.lines[n].split()[0]
            what = "allocation %s of %s of %s (line %d, %s)" % (at[0], at[1], c.lines[n][:200], n, c.lines[f + 1])
            got, normal = res.r.get(n), res.r.get(after)
            c.stats["allocations_failed"] += at[1] != "0"
            if at[1] == "0":
                c.stats["no_allocation"] += 1
            if f not in res.forkdone:
                if ending == "exit 2" and got is None:
                    c.stats["ended_with_2"] += 1
                    c.stats["compared"] += 1
                    if not err.strip():
                        bad.append(("silent:" + op, "%s: the process ended without a message" % what))
                    continue
                if normal is None:
                    continue        # (it does not end normally with enough memory either)
                bad.append(("ending:" + op, "%s: the process ended with %s %s\n%s" % (what, ending, "" if got is None else "after the operation, in the destructors", err[:3000])))
                continue
            c.stats["compared"] += 1
            if got is None or normal is None:
                continue
            if got[0] == "X" and got[1].split()[0] == BAD:
                c.stats["bad_alloc"] += 1
                if again and n + 1 in res.r:
                    c.stats["again_afterwards"] += 1
                    if res.r[n + 1] != normal:
                        bad.append(("afterwards:" + op, "%s: then, with enough memory, it gives %s instead of %s" % (what, core.clip(" ".join(res.r[n + 1])), core.clip(" ".join(normal)))))
            elif got != normal:
                bad.append(("result:" + op, "%s: gives %s, with enough memory %s" % (what, core.clip(" ".join(got)), core.clip(" ".join(normal)))))
            else:
                c.stats["as_usual"] += 1
                for k, x in enumerate([after + 1] * dump + [where[j] for j in then]):
                    a, b = res.r.get(m + k), res.r.get(x)
                    if a is None or b is None:
                        break
                    c.stats["compared"] += 1
                    if a != b:
                        bad.append(("later:" + op, "%s: goes on, but then %s gives %s instead of %s" % (what, c.lines[m + k][:200], core.clip(" ".join(a)), core.clip(" ".join(b)))))
                        break
        return bad

    def verdict(res):
        if res.end in ("signal 24", "signal 14", "signal 9", "missing"):
            return None
        for line, (k, t) in res.r.items():
            if k == "X" and t.startswith("SCRIPT"):
                raise RuntimeError("script error in %s line %d (%s): %s" % (c.cid, line, c.lines[line], unx(t.split()[1]).decode()))
        return judge(res)
    c.verdict = verdict
    return c
