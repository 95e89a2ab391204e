import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vk.core import Check, main
from vk.lcd import Drv, hx


def norm(lines):
    """The environment of a started program is a set."""
    out, env = [], []
    for l in lines:
        if l.startswith("env "):
            env.append(l)
        else:
            out += sorted(env)
            env = []
            out.append(l)
    return out + sorted(env)


def value(r):
    k = r.random()
    if k < .15:
        return b""
    if k < .3:
        return bytes(r.choice(b"=a:= b") for _ in range(r.randrange(1, 6)))
    if k < .4:
        return bytes(r.randrange(1, 256) for _ in range(r.choice([1, 10, 100])))
    if k < .45:
        return b"v" * r.choice([127, 128, 1023, 1024, 4095, 5000])
    return b"%d" % r.randrange(10000)


def names(r):
    base = ["A", "AB", "ABC", "PATH", "PATHX", "PAT", "HOME", "a", "_x1", "MES_DEBU", "LD", "A.B", "x y", "\xc3\xa9", "LONG" + "N" * r.choice([10, 130, 300])]
    base += ["V%d" % k for k in range(r.choice([0, 3, 12, 60]))]
    if r.random() < .5:
        base += ["V1%d" % k for k in range(5)] + ["V"]
    return base


def history(r):
    ns = names(r)
    initial = {}
    for n in ns:
        if r.random() < .4:
            initial[n.encode("latin1")] = value(r)
    n0 = list(initial.items())
    r.shuffle(n0)
    out, kinds, seen = [], {}, set(n.encode("latin1") for n in ns)

    def op(k, *a):
        kinds[k] = kinds.get(k, 0) + 1
        out.append(" ".join([k] + [str(x) for x in a]))
    grow = r.random()
    for _ in range(r.choice([10, 40, 120, 300])):
        n = r.choice(ns).encode("latin1")
        k = r.random()
        if k < .4:
            op("setenv", hx(n), hx(value(r)), r.choice([0, 1, 1, 1, 2, -1]))
        elif k < .4 + .15 * (grow > .3):
            op("unsetenv", hx(n))
        elif k < .93:
            q = r.random()
            if q > .9:
                n = n[:max(1, len(n) - 1)]
            elif q > .85:
                n = n + b"Z"
            op("getenv", hx(n))
        elif k < .97:
            op("countenv")
        else:
            op("run", "execv", hx("drv"), hx("drv"), hx("@show"), hx("0"))
    for n in sorted(seen):
        op("getenv", hx(n))
    op("run", "execv", hx("drv"), hx("drv"), hx("@show"), hx("7"))
    # what the caller gave is copied: a later change of its buffer changes nothing
    op("exec", "execv", hx("drv"), hx("drv"), hx("@show"), hx(str(r.randrange(100))))
    return dict(n0), "\n".join(out) + "\n", kinds


def go():
    c = Check("C28")
    d = Drv(c)

    def one(i):
        r = random.Random("%s/%d/%d" % (c.pid, c.seed, i))
        env, s, kinds = history(r)
        w = d.compare("history-%d" % i, "%d" % i, s, files={"drv": ("exe",)}, env=env, norm=norm)
        c.case((i,), n=s.count("\n"))
        for k, v in kinds.items():
            c.count("op " + k, v)
        if w:
            c.count("variables a started program received", sum(x.startswith("env ") for x in w[1]))
            if i < 2:
                c.sample(" / ".join(x.strip()[:60] for x in w[1][:12]))
    c.pmap(one, range(c.n(1500, 16000)))
    c.finish("One case = one operation of a generated history of setting (with and without overwriting), unsetting and looking up variables whose names are prefixes of each other, with empty, long and '='-containing values, "
             "on initial environments of 0 to about 30 variables and up to 80 names, with children started in between. Oracle: the same driver with the host C library; every result, the number of entries and the environment "
             "that started programs see are compared, for the library built by gcc and by MesCC (x86_64, x86).",
             min_events={"op setenv": 3000, "op unsetenv": 500, "op getenv": 3000, "op run": 300, "variables a started program received": 1000})


if __name__ == "__main__":
    main(go)
