"""Cases, their execution by the driver, verdicts, evidence."""
import collections
import ctypes
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import selectors
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from lib import build

VERIF = build.VERIF
sys.set_int_max_str_digits(0)
START = time.time()
DEADLINE = {"quick": 800, "thorough": 24 * 3600}
NPROC = max(2, min(16, os.cpu_count() or 2))
FATAL = "SANITIZER|AddressSanitizer|ThreadSanitizer|runtime error:|UndefinedBehavior"


def xs(s):
    """byte string token"""
    return "x" + (s.encode("latin-1") if isinstance(s, str) else bytes(s)).hex()


def unx(t):
    assert t[0] == "x", t
    return bytes.fromhex(t[1:])


def hz(z):
    """big integer token"""
    return ("-%x" % -z) if z < 0 else "%x" % z


class Res:
    """what was observed of one case"""

    def __init__(self):
        self.r = {}        # line -> (kind, text)
        self.forkdone = set()
        self.events = []   # in order: ("R"|"X"|"V", ...)
        self.done = False
        self.end = None
        self.stderr = ""
        self.cpu = None    # seconds
        self.rss = 0       # megabytes

    def val(self, line):
        k = self.r.get(line)
        return k[1] if k and k[0] == "R" else None


class Case:
    def __init__(self, cid="?"):
        self.cid = cid
        self.lines = []
        self.wants = []      # (line, kind, want, label)
        self.finals = []
        self.nontrivial = True
        self.stats = collections.Counter()
        self.note = ""
        self.inthread = False

    def op(self, *tok, want=None, exc=None, label=None, any_end=False):
        """append an operation. want: expected text, or a function text -> error or None.
        exc: the exception type (or types) it must throw."""
        self.lines.append(" ".join(str(t) for t in tok))
        n = len(self.lines) - 1
        if not any_end:
            self.wants.append((n, want, exc, label or tok[0]))
        return n

    def fork(self, fill, want, label="fork"):
        """operations in a child process; want: function(ending, reached the end of the block, stderr) -> error or None"""
        self.lines.append("fork")
        n = len(self.lines) - 1
        mark = len(self.wants)
        fill(self)
        inner = self.wants[mark:]
        self.lines.append("endfork")
        self.wants[mark:] = []
        self.wants.append((n, ("fork", want, inner, len(self.lines) - 1), None, label))
        return n

    def final(self, fn):
        self.finals.append(fn)

    def script(self):
        return "case %s\n%s\nendcase\n" % (self.cid, "\n".join(self.lines))

    def sig(self):
        return hashlib.sha1("\n".join(self.lines).encode()).hexdigest()[:16]

    # -- verdict
    def verdict(self, res):
        """list of (key, text)"""
        bad = []
        if res.end in ("signal 24", "signal 14", "signal 9", "missing"):
            return None  # inconclusive
        for line, (k, t) in res.r.items():
            if k == "X" and t.startswith("SCRIPT"):
                raise RuntimeError("script error in %s line %d (%s): %s" % (self.cid, line, self.lines[line], unx(t.split()[1]).decode()))
        if res.end != "exit 0" or not res.done:
            what = crash_kind(res)
            last = max(res.r) + 1 if res.r else 0
            op = self.lines[last].split()[0] if last < len(self.lines) else "end"
            bad.append(("crash:%s:%s" % (what, op), "the case ended with %s (%s) at or after line %d: %s\n%s" % (
                res.end, what, last, self.lines[last][:300] if last < len(self.lines) else "-", res.stderr[:4000])))
        for w in self.wants:
            self._want(w, res, bad)
        if not bad:
            for fn in self.finals:
                for e in fn(res) or []:
                    bad.append(e if isinstance(e, tuple) else ("final", e))
        return bad

    def _want(self, w, res, bad, optional=False):
        n, want, exc, label = w
        got = res.r.get(n)
        if got is None:
            return  # (the case ended before: reported above)
        self.stats["compared"] += 1
        kind, text = got
        show = self.lines[n][:240]
        if isinstance(want, tuple) and want[0] == "fork":
            p = text.split()
            ending, err = " ".join(p[:2]), unx(p[2]).decode("utf-8", "replace")
            for i in want[2]:
                self._want(i, res, bad)
            fl = any(f == n for f in res.forkdone)
            if ending in ("signal 6", "signal 11", "signal 8", "signal 7", "signal 4") or "AddressSanitizer" in err or "runtime error:" in err:
                fake = Res()
                fake.end, fake.stderr = ending, err
                bad.append(("crash:%s:%s" % (crash_kind(fake), label), "the process of %s ended with %s\n%s" % (label, ending, err[:3000])))
                return
            if want[1] is not None:
                e = want[1](ending, fl, err)
                if e:
                    bad.append((label, "%s: %s" % (label, e)))
            return
        if exc is not None:
            excs = (exc,) if isinstance(exc, str) else exc
            if kind != "X":
                bad.append((label, "%s (line %d: %s): expected %s, but it ended normally: %s" % (label, n, show, "/".join(excs), text[:200])))
            elif text.split()[0] not in excs:
                bad.append((label, "%s (line %d: %s): expected %s, got %s %s" % (label, n, show, "/".join(excs), text.split()[0], unx(text.split()[1]))))
            return
        if kind == "X":
            bad.append((label, "%s (line %d: %s): unexpected exception %s %r" % (label, n, show, text.split()[0], unx(text.split()[1]))))
            return
        if want is None:
            return
        if callable(want):
            try:
                e = want(text)
            except (ValueError, IndexError, AssertionError) as x:
                e = "unreadable result %r (%s)" % (text[:200], x)
            if e:
                bad.append((label, "%s (line %d: %s): %s" % (label, n, show, e)))
        elif text != want:
            bad.append((label, "%s (line %d: %s): expected %s, got %s" % (label, n, show, clip(want), clip(text))))


class View:
    """what was observed of some lines, as if they were a case of their own"""

    def __init__(self, res, lines):
        """lines: of the whole case -> of this part"""
        self.end, self.done, self.stderr = res.end, res.done, res.stderr
        self.r = {lines[k]: v for k, v in res.r.items() if k in lines}
        self.forkdone = {lines[k] for k in res.forkdone if k in lines}
        self.events = []
        part = []
        for e in res.events:
            if e[0] == "V":
                part.append(e)     # (seen during the operation whose result follows)
            else:
                if e[1] in lines:
                    self.events += part + [(e[0], lines[e[1]], e[2])]
                part = []

    val = Res.val


class Mixed(Case):
    """histories which take turns in one process, each with its own objects, field, clock and generator"""

    def __init__(self, rng, parts):
        super().__init__()
        self.parts = []
        todo = []
        for c in parts:
            u, i = [], 0
            while i < len(c.lines):
                e = i
                if c.lines[i] == "fork":
                    while c.lines[e] != "endfork":
                        e += 1
                u.append((i, e + 1))
                i = e + 1
            todo.append(u)
            self.parts.append((c, {}))
            self.stats += c.stats
            c.stats = self.stats
        greatest = rng.choice([1, 3, 20, 20, 100000])
        while any(todo):
            k = rng.choice([i for i, u in enumerate(todo) if u])
            self.lines.append("world %d" % k)
            c, lines = self.parts[k]
            for _ in range(rng.randint(1, greatest)):
                if todo[k]:
                    for i in range(*todo[k].pop(0)):
                        lines[len(self.lines)] = i
                        self.lines.append(c.lines[i])
        self.nontrivial = any(c.nontrivial for c in parts)
        self.note = "together: " + " // ".join(c.note for c in parts)
        self.stats["histories_together"] += len(parts)

    def verdict(self, res):
        bad = super().verdict(res)
        if bad is None:
            return None
        for c, lines in self.parts:
            v = View(res, lines)
            mine = []
            for w in c.wants:
                c._want(w, v, mine)
            if not bad and not mine:
                for fn in c.finals:
                    for e in fn(v) or []:
                        mine.append(e if isinstance(e, tuple) else ("final", e))
            bad += mine
        return bad


def clip(s, n=400):
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


def crash_kind(res):
    m = re.search(r"(Invalid (?:read|write|free)[^\n]{0,30}|uninitialised[^\n]{0,20})|AddressSanitizer: ([\w-]+)|runtime error: ([^\n]{0,80})|ThreadSanitizer: ([\w ]+)|terminate called after throwing an instance of '([^']+)'", res.stderr or "")
    if m:
        t = re.sub(r"0x[0-9a-f]+|\b-?\d{3,}\b", "N", next(g for g in m.groups() if g))
        return t.strip().replace(" ", "-")[:60]
    return (res.end or "?").replace(" ", "-")


class Ctx:
    driver = None
    extra_env = {}
    wrapper = []


def run_driver(cases, ctx, cpu=None):
    """run the cases by one driver process; cid -> Res"""
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=4000"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:die_after_fork=0"
    env["DRV_CPU"] = str(cpu or 60)
    env["DRV_STOP"] = "1"
    env.update(ctx.extra_env)
    fin = tempfile.TemporaryFile()
    fin.write("".join(c.script() for c in cases).encode())
    fin.seek(0)
    fout = tempfile.TemporaryFile()
    args = ctx.wrapper + [ctx.driver]

    def pre():
        os.dup2(fout.fileno(), 3)

    dn = open(os.devnull, "w")
    de = None if getattr(ctx, "verbose", False) else dn
    p = subprocess.Popen(args, stdin=fin, stdout=dn, stderr=de, env=env, close_fds=False, preexec_fn=pre)
    try:
        p.wait(timeout=(cpu or 60) * 4 * max(1, len(cases)))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    fout.seek(0)
    out = fout.read().decode("latin-1")
    fin.close()
    fout.close()
    dn.close()
    by = {c.cid: Res() for c in cases}
    parse(out, by)
    for c in cases:
        if by[c.cid].end is None:
            by[c.cid].end = "missing"
    return by


def parse(out, by):
    cur = None
    pend = 0
    for l in out.split("\n"):
        if not l:
            continue
        k = l[0]
        if k == "B":
            cur = by[l.split(" ")[1]]
            pend = 0
        elif k == "E":
            p = l.split(" ")
            by[p[1]].end = p[2] + " " + p[3]
            by[p[1]].stderr = unx(p[4]).decode("utf-8", "replace") if len(p) > 4 else ""
            by[p[1]].cpu = int(p[5]) / 1000 if len(p) > 5 else None
            by[p[1]].rss = int(p[6]) if len(p) > 6 else 0
        elif k == "D":
            cur.done = True
        elif k == "F":
            pend += 1
        elif k in "RX":
            p = l.split(" ", 2)
            n = int(p[1])
            t = p[2] if len(p) > 2 else ""
            cur.r[n] = (k, t)
            cur.events.append((k, n, t))
            if pend and k == "R" and re.match(r"(exit|signal) \d+ x", t):
                cur.forkdone.add(n)
                pend = 0
        elif k == "V":
            cur.events.append(("V", l[2:]))


# ---------------------------------------------------------------------------
class Summary:
    def __init__(self):
        self.evaluations = 0
        self.sigs = set()
        self.stats = collections.Counter()
        self.samples = []
        self.bad = []          # (key, text, index, script)
        self.inconclusive = []
        self.most = (0, 0)     # seconds, megabytes of a case

    def add(self, o):
        self.evaluations += o.evaluations
        self.sigs |= o.sigs
        self.stats += o.stats
        if len(self.samples) < 6:
            self.samples += o.samples[: 6 - len(self.samples)]
        self.bad += o.bad
        self.inconclusive += o.inconclusive
        self.most = tuple(map(max, self.most, o.most))


def mixed(mod, rng, index, tier):
    return Mixed(rng, [mod.make(random.Random(rng.getrandbits(64)), i, tier) for i in [index] + [rng.getrandbits(20) for _ in range(rng.choice([1, 1, 2]))]])


def make_case(mod, seed, tier, index, how="make"):
    rng = random.Random("%s:%s:%s:%d" % (mod.ID, seed, tier, index))
    if how == "make" and getattr(mod, "MIX", True) and index % 11 == 6:
        c = mixed(mod, rng, index, tier)
    else:
        c = getattr(mod, how)(rng, index, tier)
    c.cid = "c%d" % index
    return c


HANGS = ("signal 24", "signal 14")


def hang(first, again, limit):
    """is it the case which does not end (and not the machine which is slow)?"""
    if again.end == "signal 24":
        return "no end within %d s of CPU time (twice)" % limit
    if first.end == again.end == "signal 14" and again.cpu is not None and max(first.cpu, again.cpu) < 5:
        return "blocked, after %.1f s of CPU time (twice)" % again.cpu
    return None


def _work(a):
    modname, seed, tier, indexes, ctx = a
    mod = importlib.import_module(modname)
    s = Summary()
    todo = [(i, make_case(mod, seed, tier, i)) for i in indexes]
    cpu = getattr(mod, "CPU", 30) * (1 if tier == "quick" else 3)
    res, stopped = {}, False
    while todo:
        i, c = todo[0]
        if c.cid not in res:
            res = run_driver([x for _, x in todo], ctx, cpu)
            stopped = False
        r = res[c.cid]
        if stopped and r.end == "missing":
            res = {}       # (the driver stops at a case without an end: the others once more)
            continue
        stopped = stopped or r.end in HANGS
        todo.pop(0)
        v = c.verdict(r)
        if v is None:
            # once more, alone, with more time
            first = r
            more = max(cpu, min(cpu * 3, 300))
            r = run_driver([c], ctx, more)[c.cid]
            c.stats.clear()
            v = c.verdict(r)
            if v is None:
                what = hang(first, r, more)
                if what:
                    last = max(r.r) + 1 if r.r else 0
                    opn = c.lines[last].split()[0] if last < len(c.lines) else "end"
                    v = [("hang:" + opn, "%s at or after line %d: %s" % (what, last, c.lines[last][:300] if last < len(c.lines) else "-"))]
                    todo = []    # (the rest of them would take as long)
                else:
                    s.inconclusive.append((i, r.end))
                    continue
        if v and hasattr(mod, "confirm") and all(b[0].startswith("grows:") for b in v):
            # what is only suspicious is judged by a longer observation
            c = make_case(mod, seed, tier, i, "confirm")
            r = run_driver([c], ctx, cpu * 3)[c.cid]
            v = c.verdict(r)
            if v is None:
                s.inconclusive.append((i, r.end))
                continue
        s.evaluations += 1
        s.most = (max(s.most[0], r.cpu or 0), max(s.most[1], r.rss))
        s.stats += c.stats
        if c.nontrivial:
            s.sigs.add(c.sig())
        if len(s.samples) < 2 and c.nontrivial:
            s.samples.append({"case": i, "note": c.note, "script": clip("; ".join(c.lines), 600), "observed": [clip("%s" % (e,), 160) for e in r.events[:6]]})
        for key, text in v:
            s.bad.append((key, text, i, c.script()))
    return s


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", l.strip())
            if m and m[1] == pid:
                out.append((m[2], m[3]))
    return out


def _serve(jobs, rfd, wfd):
    """a worker: takes the numbers of jobs from a pipe until it is empty, gives their summaries through another one"""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # (not to outlive the check)
    out = os.fdopen(wfd, "wb")
    while True:
        k = os.read(rfd, 4)
        if not k:
            break
        data = pickle.dumps(_work(jobs[struct.unpack("<I", k)[0]]))
        out.write(struct.pack("<Q", len(data)) + data)
        out.flush()
    out.write(struct.pack("<Q", 0))
    out.close()


def schedule(mod, seed, tier, total, ctx, summ, chunk, stop_after=40):
    """Runs the cases in parallel, until they end, there are enough violations, or there is no time left.
    (multiprocessing's pool may block when it is terminated: processes which share no locks instead.)"""
    idx = list(range(total))
    jobs = [(mod.__name__, seed, tier, idx[i:i + chunk], ctx) for i in range(0, total, chunk)]
    numbers = tempfile.TemporaryFile()
    numbers.write(b"".join(struct.pack("<I", k) for k in range(len(jobs))))
    numbers.flush()
    numbers.seek(0)       # (the offset is shared by the workers: each number is read once)
    sys.stdout.flush()
    sys.stderr.flush()
    sel = selectors.DefaultSelector()
    pids, left = [], 0
    for _ in range(min(NPROC, len(jobs))):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                _serve(jobs, numbers.fileno(), w)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        pids.append(pid)
        left += 1
        sel.register(r, selectors.EVENT_READ, (bytearray(), pid))
    try:
        while left:
            wait = DEADLINE[tier] - (time.time() - START)
            if wait <= 0:
                summ.stats["stopped_by_time"] += 1
                return
            for k, _ in sel.select(min(wait, 60)):
                data = os.read(k.fd, 1 << 20)
                buf, pid = k.data
                buf.extend(data)
                done = False
                while len(buf) >= 8 and not done:
                    n = struct.unpack("<Q", buf[:8])[0]
                    if n == 0:
                        done = True
                    elif len(buf) >= 8 + n:
                        s = pickle.loads(bytes(buf[8:8 + n]))
                        del buf[:8 + n]
                        summ.add(s)
                        if len(summ.bad) >= stop_after or any(b[0].startswith("hang:") for b in s.bad):
                            return
                    else:
                        break
                if done or not data:
                    sel.unregister(k.fd)
                    os.close(k.fd)
                    left -= 1
                    pids.remove(pid)
                    how = os.waitpid(pid, 0)[1]
                    if os.WIFSIGNALED(how):
                        summ.inconclusive.append((-1, "worker ended by signal %d" % os.WTERMSIG(how)))
                    elif not done:
                        raise RuntimeError("a worker failed")
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for pid in pids:
            os.waitpid(pid, 0)
        for k in list(sel.get_map().values()):
            os.close(k.fd)
        sel.close()
        numbers.close()


def report(pid, summ, seed, tier, mod, t0, extra=None):
    """prints the verdict, writes the evidence; the exit code"""
    known = known_findings(pid)
    viol, seen_known = [], {}
    for b in summ.bad:
        for k, d in known:
            if b[0] == k:
                seen_known[k] = d
                break
        else:
            viol.append(b)
    for k, d in seen_known.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, d, k))
    ev = {
        "property": pid, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": summ.evaluations,
            "distinct_nontrivial": len(summ.sigs),
            "rule": mod.RULE,
            "samples": summ.samples[:6] or ["none"],
            "observed": dict(sorted(summ.stats.items())),
            "inconclusive": len(summ.inconclusive),
            "greatest_case": {"cpu_s": summ.most[0], "memory_mb": summ.most[1]},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if extra:
        ev["coverage"].update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if viol:
        shown = set()
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for key, text, i, script in viol:
            if key in shown:
                continue
            shown.add(key)
            if len(shown) > 5:
                break
            path = os.path.join(rd, "%s-%s-%s-%s.json" % (pid, tier, seed, i))
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "tier": tier, "case": i, "key": key, "what": text, "script": script}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  key=%s" % key)
            print("  " + clip(text, 3000).replace("\n", "\n  "))
        print("%s: %d violations in %d cases (%s, seed %s)" % (pid, len(viol), summ.evaluations, tier, seed))
        return 1
    if summ.evaluations == 0 or summ.stats.get("compared", 0) == 0:
        print("%s: nothing was observed (%d inconclusive)" % (pid, len(summ.inconclusive)))
        return 2
    if len(summ.inconclusive) > max(2, summ.evaluations // 10):
        print("%s: too many inconclusive cases: %s" % (pid, summ.inconclusive[:5]))
        return 2
    print("%s: held on %d cases (%d distinct non-trivial), %d comparisons, %d inconclusive, %.1f s" % (
        pid, summ.evaluations, len(summ.sigs), summ.stats["compared"], len(summ.inconclusive), time.time() - t0))
    return 0


def run_check(pid, tier, seed):
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    if hasattr(mod, "run"):
        summ = Summary()
        extra = mod.run(tier, seed, summ)
        return report(pid, summ, seed, tier, mod, t0, extra)
    ctx = Ctx()
    ctx.driver = build.driver(getattr(mod, "FLAVOUR", "asan"))
    summ = Summary()
    schedule(mod, seed, tier, mod.COUNTS[tier], ctx, summ, getattr(mod, "CHUNK", 10))
    return report(pid, summ, seed, tier, mod, t0)


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module("checks." + d["property"].lower())
    if hasattr(mod, "replay"):
        return mod.replay(d)
    ctx = Ctx()
    ctx.driver = build.driver(getattr(mod, "FLAVOUR", "asan"))
    c = make_case(mod, d["seed"], d["tier"], d["case"])
    res = run_driver([c], ctx, 300)[c.cid]
    v = c.verdict(res)
    if v and hasattr(mod, "confirm") and all(b[0].startswith("grows:") for b in v):
        c = make_case(mod, d["seed"], d["tier"], d["case"], "confirm")
        res = run_driver([c], ctx, 900)[c.cid]
        v = c.verdict(res)
    print(c.script() if len(c.script()) < 20000 else c.script()[:20000] + "...")
    for e in res.events:
        print(clip(str(e), 300))
    print(res.end, res.stderr)
    for key, text in v or []:
        print("VIOLATION property=%s replay=%s\n  key=%s\n  %s" % (d["property"], path, key, text))
    return 1 if v else 0
