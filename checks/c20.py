"""C20: SimpleBenchmark on a virtual clock."""
import math
from lib.core import Case, xs, hz

ID = "C20"
TITLE = "The chronometer reports the intervals which elapsed, without the paused ones"
COUNTS = {"quick": 5500, "thorough": 80000}
CHUNK = 40
RULE = ("random histories of start, step, pause, continue, stop and reset (in any order, with names used again) on 1-2 chronometers, with a virtual clock: after each step "
        "the states, all the intervals by number and by name, cumulative times with and without the pauses, mean, variance, deviation, extremes against a model. Distinct: by script")
ASSUMPTIONS = ["the clock never goes back and advances by whole microseconds"]


class Model:
    def __init__(self):
        self.t, self.p, self.names, self.stopped = [], [], {}, True

    def copy(self):
        x = Model()
        x.t, x.p, x.names, x.stopped = list(self.t), list(self.p), dict(self.names), self.stopped
        return x

    def take(self, now, pausing=False, name=""):
        self.t.append(now)
        self.p.append(pausing)
        if name:
            self.names[name] = len(self.t) - 1

    def reset(self):
        self.t, self.p, self.names, self.stopped = [], [], {}, False

    def start(self, now):
        self.reset()
        self.take(now)

    def paused(self):
        return not self.stopped and bool(self.p) and self.p[-1]

    def step(self, now, name=""):
        if not self.t:
            self.start(now)
        elif not self.stopped:
            self.take(now, False, name)

    def pause(self, now, name=""):
        if self.t and not self.stopped and not self.paused():
            self.take(now, True, name)

    def stop(self, now, name=""):
        if not self.stopped:
            if not self.paused():
                self.take(now, False, name)
            self.stopped = True

    def gap(self, i):
        return self.t[i] - self.t[i - 1]

    def isgap(self, i):
        """the interval before time i is a pause"""
        return self.p[i - 1]

    def at(self, i):
        n = len(self.t)
        b = 0 if i >= n or n < 2 else self.gap(i) if i else self.gap(n - 1)
        if i >= n:
            return b, 0, 0
        e = i or n - 1
        return b, sum(self.gap(j) for j in range(1, e + 1) if not self.isgap(j)), self.t[e] - self.t[0]

    def stats(self, nopauses):
        n = len(self.t)
        if n < 2:
            return [0.0, 0.0, 0.0, 0, 0]
        g = [self.gap(i) for i in range(1, n) if not (nopauses and self.isgap(i))]
        if not g:
            return None
        a = sum(g) / len(g)
        v = sum((x - a) ** 2 for x in g) / len(g)
        return [a, v, math.sqrt(v), min(g), max(g)]


def close(x, y):
    return abs(x - y) <= 1e-9 * max(1.0, abs(y))


def same_stats(got, want):
    for g, w, what in zip(got, want, ("average", "variance", "deviation", "minimum", "maximum")):
        if not close(float(g), w):
            return "%s %s, expected %s" % (what, g, w)


def make(rng, index, tier):
    c = Case()
    c.op("clock", rng.choice([0, 10 ** 9, 17 * 10 ** 17]))
    now = 0
    bms = {}
    for i in range(rng.choice([1, 1, 1, 2])):
        n = "b%d" % i
        c.op("bm.new", n, *([] if rng.random() < 0.5 else [rng.choice([0, 1, 2, 100])]))
        bms[n] = Model()
    names = ["a", "b", "first", "x y", "A"]
    if rng.random() < 0.2:      # many names: numbered ones, prefixes of one another, long ones
        names += ["%s%d" % (rng.choice(["step", "a", ""]), i) for i in range(rng.choice([6, 20, 60]))] + ["a" * i for i in (2, 15, 16, 17, 300)]
    kinds = []

    def observe(n, full):
        x = bms[n]
        c.op("bm.state", n, want="%d %d" % (x.paused(), x.stopped), label="state")
        L = len(x.t)
        pts = list(range(L + 2)) if full or L < 4 else [0, L - 1, L, rng.randrange(L)]
        for i in pts:
            c.op("bm.at", n, i, want="%d %d %d" % x.at(i), label="interval")
        b = x.at(0)
        c.op("bm.last", n, want="%d %d" % b[:2], label="interval")
        for nm in names + [""]:
            if full or rng.random() < (0.2 if len(names) < 6 else 2 / len(names)):
                c.op("bm.named", n, xs(nm), want="%d %d %d" % x.at(x.names.get(nm, 0)), label="interval-by-name")
        a, b = x.stats(True), x.stats(False)

        def chk(text, a=a, b=b):
            t = text.split()
            return (same_stats(t[:5], a) if a else None) or (same_stats(t[5:], b) if b else None)
        c.op("bm.stats", n, want=chk, label="statistics")
        if a:
            c.op("bm.statsd", n, want=lambda text, a=a: same_stats(text.split(), a), label="statistics")

    for n in bms:
        observe(n, True)
    style = rng.choice(["any", "any", "usual", "pauses"])
    steps = rng.randint(3, 30) if len(names) < 6 else rng.randint(20, 90)
    if index % 400 == 31:
        style, steps = rng.choice(["usual", "pauses"]), rng.choice([300, 1200, 3000])
        if index % 1200 == 31:
            style, steps = "pauses", 67000
    long = steps > 100
    scale = rng.choice([1, 1, 1, 1, 3600, 10 ** 5])    # (up to 3 years)
    for st in range(steps):
        d = rng.choice([0, 1, 2, 10, 999, 1000, 10 ** 6, rng.randint(0, 10 ** 4), rng.randint(0, 10 ** 9) * (1 if long else scale)])
        c.op("tick", d * 1000)
        now += d
        n = rng.choice(sorted(bms))
        x = bms[n]
        k = rng.choice({"any": ["start", "step", "step", "step", "pause", "cont", "stop", "reset", "copy"],
                        "usual": ["step", "step", "step", "step", "pause", "cont", "cont", "stop"] if x.t and not x.stopped else ["start"],
                        "pauses": ["cont", "pause", "cont", "pause", "step"]}[style])
        if long and k in ("stop", "reset", "start") and x.t:
            k = "step"
        kinds.append(k)
        nm = rng.choice(names + ["", ""])
        arg = [] if nm == "" and rng.random() < 0.7 else [xs(nm)]
        if k == "start":
            c.op("bm.start", n)
            x.start(now)
        elif k == "cont":
            c.op("bm.cont", n)
            x.step(now)
        elif k == "reset":
            c.op("bm.reset", n)
            x.reset()
        elif k == "copy":
            if len(bms) < 3:
                bms["k%d" % len(bms)] = x.copy()
                c.op("bm.copy", "k%d" % (len(bms) - 1), n)
            else:
                m = rng.choice(sorted(bms))
                c.op("bm.assign", m, n)
                bms[m] = x.copy()
                observe(m, False)
        else:
            c.op("bm." + k, n, *arg)
            getattr(x, k)(now, nm)
        c.stats["step_" + k] += 1
        if not long or rng.random() < 20 / steps:
            observe(n, not long and rng.random() < 0.15)
    for n in sorted(bms):
        observe(n, not long)
    c.nontrivial = any(len(x.t) > 1 for x in bms.values())
    c.note = ",".join(kinds[:60])
    return c
