import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vk.core import Check, main
from vk.lcd import Drv, hx


def norm(lines, searches):
    """The environment of a started program is a set; which error a search that finds nothing reports depends on what it came across."""
    out, env = [], []
    search = False
    for l in lines:
        w = l.split()
        if len(w) > 1 and w[1] in ("run", "exec"):
            search = w[0] in searches
        if search and l.startswith(" exec failed"):
            l = " exec failed"
        if l.startswith("env "):
            env.append(l)
        else:
            out += sorted(env)
            env = []
            out.append(l)
    return out + sorted(env)


def word(r, empty=True):
    k = r.random()
    if k < .1 and empty:
        return b""
    if k < .25:
        return bytes(r.randrange(1, 256) for _ in range(r.choice([1, 5, 60])))
    if k < .4:
        return r.choice([b"-x", b"--", b"a b", b"*", b"'q'", b'"', b"$HOME", b"\\", b"\n", b"a=b", b";", b"-", b"@show"])
    if k < .45:
        return b"w" * r.choice([127, 128, 1000, 4096, 20000])
    return b"w%d" % r.randrange(1000)


def environment(r, n=None):
    e = {}
    for k in range(r.choice([0, 1, 3, 30]) if n is None else n):
        e[b"%s%d" % (r.choice([b"A", b"BC", b"_x", b"PATHX"]), k)] = word(r)
    return e


class Gen:
    def __init__(self, r, conf_free):
        self.r, self.out, self.kinds = r, [], {}
        self.files = {"drv": ("exe",), "d1/one": ("exe",), "d1/deep/two": ("exe",), "d2/one": ("exe",), "d2/both": ("exe",), "d1/both": (0o644, b"not executable\n"),
                      "d3/both": None, "d4/one": None, "plain": (0o644, b"data\n"), "empty": None, "here": ("exe",)}
        self.conf_free = conf_free

    def op(self, kind, *a):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.out.append(" ".join([kind] + [str(x) for x in a]))

    def argv(self, zeroth, n=None):
        r = self.r
        n = r.choice([0, 0, 1, 2, 5, 20]) if n is None else n
        return [hx(zeroth), hx("@show"), hx(str(r.choice([0, 1, 2, 77, 255, r.randrange(256)])))] + [hx(word(r)) for _ in range(n)]

    def path(self):
        r = self.r
        e = [r.choice(["d1", "d2", "d3", "d4", "d1/deep", "empty", "nothere", "", ".", "./d1/", "d2//", "plain", "x" * r.choice([200, 255]), "/usr/bin"]) for _ in range(r.choice([1, 1, 2, 3, 6]))]
        return ":".join(e)

    def execs(self, verb):
        r = self.r
        k = r.random()
        how = r.choice(["execv", "execve", "execvp", "execvp", "execvp"] + ([] if self.conf_free else ["execl", "execlp"]))
        n = None
        if how in ("execl", "execlp"):
            n = r.choice([0, 1])
        if how in ("execvp", "execlp"):
            self.op("setenv", hx("PATH"), hx(self.path()), 1)
            f = r.choice(["one", "one", "two", "both", "here", "drv", "plain", "missing", "deep", "./drv", "d1/one", "d3/both", "no/such", "l" * 255])
        else:
            f = r.choice(["drv", "./drv", "d1/one", "d1/deep/two", "missing", "plain", "d1", "d1/both", "drv/x", "one", ""])
        a = self.argv(word(r, False) if r.random() < .5 else f, n)
        if n == 0:
            a = a[:3]
        if how == "execve":
            e = [hx(k + b"=" + v) for k, v in environment(r, r.choice([0, 1, 5])).items()]
            a = (a[:30 - len(e)]) + [";"] + e
        self.kinds["by " + how] = self.kinds.get("by " + how, 0) + 1
        self.op(verb, how, hx(f), *a[:34])

    def make(self):
        r = self.r
        for k in range(r.choice([1, 3, 8])):
            q = r.random()
            if q < .45:
                self.execs("run")
            elif q < .6:
                s = r.random()
                if s < .6:
                    self.op("child", 0, r.choice([0, 1, 255, r.randrange(256)]), r.randrange(2))
                else:
                    self.op("child", 1, r.choice([1, 2, 9, 10, 12, 14, 15]), r.randrange(2))
            elif q < .65:
                self.op("twochildren", r.randrange(256), r.randrange(256))
            elif q < .7:
                self.op("nochild")
            elif q < .8:
                self.op("getenv", hx(r.choice(["PATH", "A0", "BC1", "NOPE"])))
            elif q < .9:
                self.op("setenv", hx(r.choice(["A0", "NEW", "BC1"])), hx(word(r)), r.randrange(2))
            else:
                self.op("unsetenv", hx(r.choice(["A0", "BC1", "NEW"])))
        end = r.choice(["exit", "exit", "exit", "return", "return", "_exit", "abort", "raise", "exec", "fall"])
        for _ in range(r.choice([0, 0, 1, 2, 5, 12, 32])):
            self.op("atexit", r.randrange(4))
        self.wrote = False
        if end in ("exit", "return", "fall") and r.random() < .6:
            for k in range(r.choice([1, 2])):
                self.op("fopen", k, hx("out%d" % k), hx("w"))
                for _ in range(r.choice([1, 4])):
                    self.op("fputs", k, hx(bytes(r.choice(b"ab\n") for _ in range(r.choice([1, 10, 200])))))
        code = r.choice([0, 1, 2, 127, 128, 255, 256, 257, -1, -2, 1000, r.randrange(256)])
        if end == "exec":
            self.execs("exec")
        elif end == "raise":
            self.op("raise", r.choice([9, 15, 10, 6]))
        elif end == "abort":
            self.op("abort")
        elif end != "fall":
            self.op(end, code)
        return "\n".join(self.out) + "\n"


def go():
    c = Check("C29")
    d = Drv(c)

    def one(i):
        r = random.Random("%s/%d/%d" % (c.pid, c.seed, i))
        g = Gen(r, conf_free=i % 2 == 0)
        s = g.make()
        searches = {str(k) for k, o in enumerate(g.out) if o.split()[1:2] in (["execvp"], ["execlp"])}
        env = environment(r)
        args = ()
        if r.random() < .6:
            args = [b"1"] + [word(r) for _ in range(r.choice([1, 2, 5, 30, 400]))]
        w = d.compare("history-%d" % i, "%d" % i, s, files=g.files, env=env, args=args, norm=lambda ls: norm(ls, searches), confs=None if i % 2 == 0 else ("gcc-32", "mescc-64", "mescc-32"))
        c.case((i,), n=len(g.out))
        for k, v in g.kinds.items():
            c.count("op " + k, v)
        if w:
            c.count("arguments received", sum(x.startswith("arg ") for x in w[1]))
            c.count("handlers run", sum(x.startswith("handler ") for x in w[1]))
            c.count("status %s" % ("0" if w[0] == 0 else "signal" if w[0] < 0 else "other"))
            if i < 2:
                c.sample(" / ".join(x.strip()[:60] for x in w[1][:12]))
    c.pmap(one, range(c.n(1200, 16000)))
    c.finish("One case = one operation of a program that was started with a generated argument vector and environment, runs children by every exec variant (also for missing, non-executable and directory targets, and through search "
             "paths with missing, empty, relative and over-long elements), waits for children that end with a status or by a signal, registers up to 32 exit handlers, leaves streams open and ends by return, exit, _exit, abort, a signal "
             "or exec. Oracle: the same driver with the host C library: arguments, environment, handlers run, statuses, output and files are compared, for the library built by gcc and by MesCC (x86_64, x86).",
             min_events={"op run": 500, "arguments received": 2000, "handlers run": 500, "op by execvp": 200, "op child": 100, "status signal": 20, "op by execl": 20})


if __name__ == "__main__":
    main(go)
