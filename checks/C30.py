import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vk.core import Check, main
from vk.lcd import Drv, hx


def norm(lines):
    """The kernel chooses the order of a directory's entries: a listing counts as the set of its names, each as often as it came."""
    out, names, entries = [], [], []
    for l in lines:
        if l.startswith("entry "):
            entries.append(l)
            continue
        out += sorted(entries)
        entries = []
        w = l.split()
        if len(w) > 1 and w[1] == "opendir":
            names = []
        if len(w) > 1 and w[1] == "readdir":
            got = [x for x in w[3:] if x.startswith("x")]
            rest = [x for x in w[3:] if not x.startswith("x")]
            names += got
            l = "%s readdir %d %s" % (w[0], len(got), rest)
            if "end" in rest:
                l += " " + " ".join(sorted(names))
        out.append(l)
    return out


def names(r):
    b = [b"a", b"b", b"cc", b"d", b"sp ace", b"\xc3\xa9\xff", b"n" * 255, b".hidden"]
    return r.sample(b, r.choice([3, 4, 6]))


class Gen:
    def __init__(self, r, vari):
        self.r, self.out, self.kinds, self.vari = r, [], {}, vari
        self.names = names(r)
        self.files = {"stamp": b"never written", "keep": b"kept " * r.choice([0, 1, 100, 1000]), "kd": None}
        self.dirs = [b"", b"D/", b"D/E/"]
        self.files["D/E"] = None
        for p in self.dirs:
            for n in self.names:
                q = r.random()
                f = os.fsdecode(p + n)
                if q < .3:
                    self.files[f] = b"x" * r.choice([0, 1, 10, 5000])
                elif q < .45:
                    self.files[f] = None
                elif q < .6:
                    self.files[f] = ("link", os.fsdecode(r.choice(self.names + [b"keep", b"missing", b"l" * 200, b"self/" * 20])))
                elif q < .65:
                    self.files[f] = (r.choice([0, 0o400, 0o111, 0o755, 0o200]), b"mode")
        big = r.choice([0, 3, 40, 300, 1500])
        if r.random() < .5:
            for k in range(big):
                self.files["kd/" + ("e%d" % k) * r.choice([1, 1, 5, 40])] = b""
        self.fds = {}

    def op(self, kind, *a):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.out.append(" ".join([kind] + [str(x) for x in a]))

    def path(self):
        r = self.r
        k = r.random()
        p = r.choice(self.dirs) + r.choice(self.names)
        if k < .05:
            return hx(r.choice([b"", b".", b"D/..", b"/", b"nosuch/x", b"keep/x", b"m" * 256, b"q/" * 2100, b"nosuch", b"D/nosuch", b"a/b/cc/d"]))
        if k < .12:
            p = r.choice([b"./", b"D/../", b"D//E/../../", b".//"]) + p
        elif k < .16:
            p += b"/"
        elif k < .2:
            p = p + b"/" + r.choice(self.names)
        return hx(p)

    def listing(self):
        r = self.r
        self.op("opendir", 0, hx(r.choice([b"kd", b"kd", b".", b"D", b"D/E", r.choice(self.names), b"nosuch", b"keep"])))
        return len(self.out) - 1

    def make(self, n):
        r = self.r
        while len(self.out) < n:
            k = r.random()
            P = self.path
            if k < .1:
                self.op("mkdir", P(), r.choice([0o755, 0o700, 0o777, 0o1777, 0o500]))
            elif k < .15:
                self.op("rmdir", P())
            elif k < .22:
                self.op(r.choice(["unlink", "unlink", "remove"]), P())
            elif k < .3:
                self.op("rename", P(), P())
            elif k < .35:
                self.op("link", P(), P())
            elif k < .41:
                self.op("symlink", r.choice([P(), hx(b"keep"), hx(b"D/E")]), P())
            elif k < .47:
                self.op("readlink", P(), r.choice([1, 2, 10, 99, 100, 1000]))
            elif k < .52:
                self.op("chmod", P(), r.choice([0o644, 0o600, 0, 0o755, 0o4755, 0o111, 0o7777]))
            elif k < .58:
                self.op("access", P(), r.choice([0, 1, 2, 3, 4, 5, 6, 7]))
            elif k < .62:
                if r.random() < .7:
                    self.op("chdir", hx(r.choice([b".", b"nosuch", b"keep", b"", b"D/..", b"D/E/../..", b"m" * 256])))
                else:
                    d = r.choice([b"D", b"D/E"])
                    self.op("chdir", hx(d))
                    self.op("getcwd", 4096)
                    for _ in range(3):
                        self.op("stat", P())
                    self.op("access", hx(b"nosuch"), 0)
                    self.op("home")
            elif k < .65:
                self.op("getcwd", r.choice([1, 2, 5, 4096, 4096]))
            elif k < .75:
                self.op(r.choice(["stat", "lstat"]), P())
            elif k < .77:
                self.op("same", P(), P())
            elif k < .78:
                self.op("mtime", hx(b"stamp"))
            elif k < .84:
                s = r.randrange(5)
                q = r.random()
                if s not in self.fds and q < .7:
                    self.op("open", s, P(), r.choice([0, 1, 2, 65, 66, 0o200 | 64 | 1, 65536, 0o1000 | 1]), 0o644)
                    self.fds[s] = 1
                elif s in self.fds:
                    z = r.random()
                    if z < .2:
                        self.op("close", s)
                        del self.fds[s]
                    elif z < .4:
                        self.op("fstat", s)
                    elif z < .6:
                        self.op("write", s, r.choice([0, 1, 100]), 7)
                    elif z < .7:
                        self.op("getfl", s) if self.vari else self.op("isatty", s)
                    elif z < .8:
                        self.op("dup", s, 10 + s)
                        self.op("write", 10 + s, 5, 3)
                        self.op("lseek", s, 0, 1)
                        self.op("close", 10 + s)
                    elif z < .9:
                        self.op("dupto", s, r.choice([30, 31]))
                        self.op("setfd", 15, 30)
                        self.op("fstat", 15)
                    elif self.vari:
                        self.op("cloexec", s, r.choice([0, 1]))
                        self.op("getfd", s)
            elif k < .87:
                self.op("setfd", 9, r.choice([-1, 500, 999]))
                self.op(*r.choice([("fstat", 9), ("close", 9), ("dup", 9, 8), ("read", 9, 10), ("write", 9, 3, 1), ("lseek", 9, 0, 0), ("fsync", 9), ("isatty", 9), ("dupto", 9, 40)]))
            elif k < .9:
                self.op(*r.choice([("pids",), ("kill0",), ("kill", 99999999, r.choice([0, 9, 200])), ("kill", 1, 0), ("nochild",), ("errno", r.randrange(1, 130)), ("child", 0, 5, 0)]))
            elif k < .95:
                d = r.choice([b"kd", b"kd", b".", b"D", b"D/E"])
                self.op("opendir", 0, hx(d))
                # Only these directories are known to be there
                if d == b"kd":
                    for _ in range(r.choice([0, 1, 3])):
                        self.op("readdir", 0, r.choice([1, 2, 10, 50]))
                    self.op("readdir", 0, 100000)
                    self.op("readdir", 0, 1)
                    self.op("closedir", 0)
                else:
                    self.out.pop()
                    self.kinds["opendir"] -= 1
                    self.op("listdir", 0, hx(d))
            elif k < .97:
                self.op("opendir", 1, hx(r.choice([b"nosuch", b"keep", b"nosuch/x", b""])))
            elif k < .99:
                self.op("setfd", 11, -1)
                self.op("pipe", 11, 12)
                self.op("write", 12, r.choice([1, 50]), 3)
                self.op("fstat", 11) if False else None
                self.op("lseek", 12, 0, 1)
                self.op("write", 11, 3, 3)
                self.op("close", 11)
                self.op("close", 12)
            else:
                self.op("inode", 9) if False else None
        return "\n".join(self.out) + "\n"


def go():
    c = Check("C30")
    d = Drv(c)

    def one(i):
        r = random.Random("%s/%d/%d" % (c.pid, c.seed, i))
        g = Gen(r, i % 2 == 1)
        s = g.make(r.choice([30, 100, 300, 600]))
        w = d.compare("history-%d" % i, "%d" % i, s, files=g.files, norm=norm, confs=None if i % 2 == 0 else ("gcc-32", "mescc-64", "mescc-32"))
        c.case((i,), n=len(g.out))
        for k, v in g.kinds.items():
            c.count("op " + k, v)
        if w:
            for l in w[1]:
                x = l.split()
                if "errno" in x:
                    c.count("calls that fail")
                    c.case(("errno", x[1] if len(x) > 1 else "", x[-1]), n=0)
            if i < 2:
                c.sample(" / ".join(x.strip()[:60] for x in w[1][:12]))
    c.pmap(one, range(c.n(600, 6000)))
    c.finish("One case = one system call of a generated history on a generated file tree (files, directories of up to 1,500 entries, links also dangling and cyclic, odd modes, names with spaces, high bytes and of the longest length): "
             "making, removing, renaming, linking, modes, access, metadata, working directory, descriptors and their duplicates, pipes, identities, signals and children, including calls that must fail. Oracle: the same driver with the host "
             "C library as an unprivileged user in an equal tree; results, errno, metadata fields, listings and the tree afterwards are compared, for the library built by gcc and by MesCC (x86_64, x86).",
             min_events={"op mkdir": 500, "op rename": 500, "op stat": 500, "op readdir": 200, "calls that fail": 3000, "op readlink": 300, "op fstat": 100})


if __name__ == "__main__":
    main(go)
