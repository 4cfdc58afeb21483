"""C21: exceptions."""
from lib.core import Case, xs, hz

ID = "C21"
TITLE = "Exceptions carry their message, and fatal ones end the process with their code"
COUNTS = {"quick": 6000, "thorough": 60000}
CHUNK = 20
RULE = ("random exceptions of the three types: messages (empty, binary, long), fatality, codes; changed, copied, thrown and caught by each type; fatal ones built in a child process, "
        "whose exit status is observed. Distinct: by script")
DEF = "Did you try to insert or read an element out of allowed bound of some container?"


def text(rng):
    k = rng.random()
    if k < 0.15:
        return ""
    if k < 0.16:
        return "".join(rng.choice("abcdefghij .,:%\n") for _ in range(50)) * rng.choice([30, 100, 1400])
    if k < 0.3:
        return "".join(chr(rng.randint(1, 255)) for _ in range(rng.randint(1, 500)))
    if k < 0.35:
        return "".join(rng.choice("ab\0c\0") for _ in range(rng.randint(1, 60)))
    return "".join(rng.choice("abcdefghij .,:%\n") for _ in range(rng.randint(1, 60)))


def cut(msg):
    """as what() gives it"""
    return msg.split("\0")[0]


def make(rng, index, tier):
    c = Case()
    objs = {}

    def observe(n):
        k, msg, fatal, code = objs[n]
        c.op("ex.all", n, want="%s %s %d %d" % (xs(msg), xs(cut(msg)), fatal, code), label="content")

    for i in range(rng.randint(1, 4)):
        n = "e%d" % i
        kind = rng.choice("epo")
        k = rng.random()
        msg = text(rng)
        code = 1
        if k < 0.15:
            c.op("ex.newd", n, kind)
            msg = ""
        elif k < 0.4:
            c.op("ex.newm", n, kind, xs(msg))
        else:
            code = rng.choice([0, 1, 2, 3, 42, 255, -1, 256, 1000, rng.randint(-10 ** 6, 10 ** 6)])
            c.op("ex.new", n, kind, xs(msg), 0, code)
            if kind == "o":
                code = 1
        if kind == "o" and msg == "":
            msg = DEF
        objs[n] = [kind, msg, False, code]
        observe(n)
    for _ in range(rng.randint(1, 10)):
        n = rng.choice(sorted(objs))
        o = objs[n]
        k = rng.choice(["setm", "setf", "setc", "copy", "assign", "throw", "throw", "fatal"])
        c.stats["step_" + k] += 1
        if k == "setm":
            o[1] = text(rng)
            c.op("ex.setm", n, xs(o[1]))
        elif k == "setf":
            o[2] = rng.random() < 0.5
            c.op("ex.setf", n, *([] if o[2] and rng.random() < 0.5 else [int(o[2])]))
        elif k == "setc":
            o[3] = rng.choice([0, 1, 5, 255, -3, 1 << 20])
            c.op("ex.setc", n, o[3])
        elif k == "copy":
            if len(objs) < 6:
                m = "k%d" % len(objs)
                c.op("ex.copy", m, n)
                objs[m] = ["e", o[1], o[2], o[3]]
                observe(m)
        elif k == "assign":
            m = rng.choice(sorted(objs))
            c.op("ex.assign", n, m)
            o[1:] = objs[m][1:]
            observe(m)
        elif k == "throw":
            a = rng.choice(["std", "base", "p", "o"])
            kind, msg, fatal, code = o
            desc = "%s %s %d %d" % (xs(msg), xs(cut(msg)), fatal, code)
            want = {"std": xs(cut(msg)), "base": desc, "p": "p " + desc if kind == "p" else "other", "o": "o " + desc if kind == "o" else "other"}[a]
            c.op("ex.throw", n, a, want=want, label="thrown")
        else:
            kind = rng.choice("epo")
            code = rng.choice([0, 1, 2, 3, 77, 255])
            msg = text(rng)
            eff = 1 if kind == "o" else code

            def fill(cc, kind=kind, code=code, msg=msg):
                cc.op("ex.new", "f", kind, xs(msg), 1, code)

            def want(ending, reached, err, eff=eff, msg=msg, kind=kind):
                if reached:
                    return "a fatal exception was built, and the process went on"
                if ending != "exit %d" % eff:
                    return "%s instead of exit %d" % (ending, eff)
                t = msg if msg or kind != "o" else DEF
                if t.isascii() and len(t) < 200 and t not in err:
                    return "the message is not reported: %r" % err[:200]
            c.fork(fill, want, label="fatal")
        observe(n)
    c.note = "%d operations" % len(c.lines)
    return c
