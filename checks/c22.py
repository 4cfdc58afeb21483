"""C22: memory and undefined behaviour."""
import importlib
import os
import shutil
import sys
import time
from lib import build, core
from lib.core import Case, xs, hz
from lib import proto as pr

ID = "C22"
TITLE = "No API history reads or writes outside of its objects, or depends on undefined values"
COUNTS = {"quick": (1500, 160), "thorough": (60000, 4000)}
RULE = ("the histories of all the other checks (protocol runs, refused and malformed messages, tables, digests, generators, polynomials, numbers, chronometers, exceptions), run with "
        "clang's AddressSanitizer and UndefinedBehaviorSanitizer, and with valgrind's memcheck on an uninstrumented build (reads of uninitialised memory); reports of the tools only. "
        "Distinct: by script")
ASSUMPTIONS = ["NTL, GMP and Crypto++ are not instrumented for the compiler sanitizers (memcheck sees them)"]
CPU = 60
MIX = False
CHUNK = 10
SRC = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c25", None]


def answers(rng):
    """A client without data of its own (or which has some) gets both answers, of anybody it knows."""
    c = Case()
    P = pr.Params(rng, maxH=3, maxL=3)
    used = set()
    (da,), _ = pr.sets(rng, P, 1)
    A = pr.Client("A", pr.ident(rng, used), pr.secret(rng, P.p), da)
    pr.header(c, P)
    pr.add_client(c, rng, P, A)
    ids = {"R": pr.ident(rng, used), "Q": pr.ident(rng, used)}
    c.op("p.recorder", "R", "c", xs(ids["R"]), hz(P.p), P.L, P.H, P.D)
    c.op("p.recorder", "Q", "s", xs(ids["Q"]), hz(P.p), P.L, P.H, P.D)
    c.op("p.auth", "A", "R")
    c.op("p.auth", "A", "Q")
    if rng.random() < 0.3:
        pr.set_raw(c, rng, P, A)
        c.stats["answers_with_data"] += 1
    if rng.random() < 0.3:
        c.op("p.copy", "B", "A")
        c.op("p.inter", "B")
    for i in range(rng.randint(2, 5)):
        who = rng.choice("RQ")
        c.op("m.full", "a%d" % i, pr.POLY if who == "R" else pr.OUTPUT, xs(ids[who]), "matrix", pr.matrix_tok(pr.rand_matrix(rng, P)))
        c.op("m.recv", "A", "a%d" % i)
    c.op("p.inter", "A")
    c.note = "answers"
    return c


def make(rng, index, tier):
    if SRC[index % len(SRC)] is None:
        c = answers(rng)
        c.stats["histories_C22"] += 1
        v = c.verdict
        c.verdict = lambda res: [b for b in v(res) or [] if b[0].startswith("crash:") and is_tool(res, b)]
        return c
    mod = importlib.import_module("checks." + SRC[index % len(SRC)])
    c = mod.make(rng, rng.getrandbits(16), "quick") if rng.random() < 0.85 else core.mixed(mod, rng, rng.getrandbits(16), "quick")
    c.note = mod.ID + " " + c.note
    c.stats["histories_" + mod.ID] += 1

    v = c.verdict

    def only_tools(res):
        bad = v(res)
        return [b for b in bad if b[0].startswith("crash:") and is_tool(res, b)] if bad else bad
    c.verdict = only_tools
    return c


MARKS = ("Sanitizer", "runtime error:", "==ERROR", "Invalid read", "Invalid write", "uninitialised", "Invalid free", "Mismatched free", "overlap", "SUMMARY:", "stack smashing", "points to unaddressable")


def is_tool(res, b):
    return res.end.startswith("signal") or "exit 99" in res.end or any(x in b[1] for x in MARKS)


VG = ["--quiet", "--error-exitcode=99", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--track-origins=no", "--expensive-definedness-checks=yes",
      "--partial-loads-ok=yes", "--child-silent-after-fork=no", "--num-callers=16"]


def contexts():
    a = core.Ctx()
    a.driver = build.driver("clang")
    b = core.Ctx()
    b.driver = build.driver("plain")
    b.wrapper = [shutil.which("valgrind")] + VG
    return a, b


def run(tier, seed, summ):
    me = sys.modules[__name__]
    a, b = contexts()
    n, nv = COUNTS[tier]
    t0 = time.time()
    core.schedule(me, seed, tier, n, a, summ, CHUNK)
    san, t1 = summ.evaluations, time.time()
    if not any(b[0].startswith("hang:") for b in summ.bad):
        core.schedule(me, str(seed) + "v", tier, nv, b, summ, 4)
    return {"sanitizer_histories": san, "memcheck_histories": summ.evaluations - san, "sanitizer_s": round(t1 - t0, 1), "memcheck_s": round(time.time() - t1, 1)}


def replay(d):
    a, b = contexts()
    ctx = b if str(d["seed"]).endswith("v") else a
    ctx.verbose = True
    c = core.make_case(sys.modules[__name__], d["seed"], d["tier"], d["case"])
    res = core.run_driver([c], ctx, 300)[c.cid]
    v = c.verdict(res)
    print(c.script()[:20000])
    print(res.end, res.stderr)
    for key, text in v or []:
        print("VIOLATION property=C22\n  key=%s\n  %s" % (key, text))
    return 1 if v else 0
