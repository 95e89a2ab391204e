import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vk.core import Check, main
from vk.lcd import Drv, hx


def content(r, n):
    """Bytes with newlines, zeros and high bytes."""
    b = bytearray(r.randrange(256) if r.random() < .6 else r.choice(b"abc\n\n\x00\xff\x80 ") for _ in range(n))
    return bytes(b)


SIZES = [0, 1, 2, 5, 31, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 300, 500, 1000, 3000]


class Gen:
    """Histories of conforming stream and descriptor operations."""

    def __init__(self, r):
        self.r = r
        self.out = []
        self.files = {}
        self.size = {}
        self.st = {}
        self.fd = {}
        for k in range(r.randrange(2, 6)):
            n = "f%d" % k
            s = r.choice(SIZES)
            self.files[n] = content(r, s)
            self.size[n] = s
        self.names = sorted(self.files)
        self.kinds = {}

    def op(self, kind, *a):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.out.append(" ".join([kind] + [str(x) for x in a]))

    def inuse(self):
        return {s["f"] for s in self.st.values()} | {s["f"] for s in self.fd.values()}

    def pick_file(self):
        r = self.r
        free = [f for f in self.names if f not in self.inuse()]
        if r.random() < .2 or not free:
            n = "n%d" % len(self.names)
            self.names.append(n)
            return n
        return r.choice(free)

    # ------------------------------------------------------------ streams
    def fopen(self, slot):
        r = self.r
        f = self.pick_file()
        m = r.choice(["r", "r", "r", "w", "a", "r+", "w+", "a+"])
        spell = m if r.random() < .7 else (m[0] + "b" + m[1:] if r.random() < .5 else m + "b")
        how = r.random()
        if f in self.size or m[0] != "r":
            if how < .12 and f in self.size:
                flags = {"r": 0, "w": 1 | 512, "a": 1 | 1024, "r+": 2, "w+": 2 | 512, "a+": 2 | 1024}[m]
                self.op("open", 15, hx(f), flags, 420)
                self.op("fdopen", slot, 15, hx(spell))
            else:
                self.op("fopen", slot, hx(f), hx(spell))
            if m[0] == "w" or f not in self.size:
                self.size[f] = 0
            self.st[slot] = dict(f=f, m=m, read=m[0] == "r" or "+" in m, write=m[0] != "r" or "+" in m, last=None, pushed=False, pos=0, app=m[0] == "a", posok=m[0] != "a", eof=False)
        else:
            self.op("fopen", slot, hx(f), hx(spell))

    def data_read(self, s, n):
        left = max(0, self.size[s["f"]] - s["pos"])
        k = min(n, left)
        s["pos"] += k
        s["last"] = "r"
        if k < n:
            s["eof"] = True
        return k

    def sync_for_read(self, slot, s):
        if s["last"] == "w":
            if self.r.random() < .3:
                self.op("fflush", slot)
                self.seek(slot, s)
            else:
                self.seek(slot, s)

    def sync_for_write(self, slot, s):
        if s["last"] == "r" or s["pushed"]:
            self.seek(slot, s)

    def seek(self, slot, s):
        r = self.r
        size = self.size[s["f"]]
        k = r.random()
        if k < .1:
            self.op("rewind", slot)
            s["pos"] = 0
        else:
            to = r.choice([0, size, r.randint(0, size), r.randint(0, size), max(0, s["pos"] - 1), s["pos"], min(size, s["pos"] + 1), min(size, s["pos"] + r.choice([99, 100, 101, 127, 128, 129]))])
            if r.random() < .04:
                to = size + r.randint(1, 300)
            w = r.choice([0, 0, 1, 2])
            if w == 1 and (not s["posok"]):
                w = 0
            self.op("fseek", slot, {0: to, 1: to - s["pos"], 2: to - size}[w], w)
            s["pos"] = to
        s["last"], s["pushed"], s["eof"], s["posok"] = None, False, False, True

    def wrote(self, s, n):
        if n == 0:
            return
        if s["app"]:
            s["pos"] = self.size[s["f"]]
        s["pos"] += n
        self.size[s["f"]] = max(self.size[s["f"]], s["pos"])
        s["last"], s["posok"], s["eof"] = "w", True, False

    def stream(self, slot):
        r = self.r
        s = self.st[slot]
        k = r.random()
        if k < .05:
            self.op("fclose", slot)
            del self.st[slot]
            return
        if k < .07 and not s["pushed"]:
            f = s["f"]
            m = r.choice(["r", "r+", "w", "a+"])
            self.op("freopen", slot, hx(f), hx(m))
            if m == "w":
                self.size[f] = 0
            s.update(m=m, read=m != "w", write=m != "r", last=None, pushed=False, pos=0, app=m[0] == "a", posok=m[0] != "a", eof=False)
            return
        if k < .2:
            if s["app"] and s["last"] is None and not s["posok"]:
                return
            return self.seek(slot, s)
        if k < .3:
            if s["posok"] and not (s["pushed"] and s["pos"] < 0):
                self.op("ftell", slot)
            return
        if k < .33 and s["last"] == "r" and not s["pushed"]:
            self.op("feof", slot)
            return
        if k < .36 and s["pos"] > 0 and not s["pushed"] and s["last"] != "w":
            # a failing seek leaves the stream as it is
            if s["last"] is None or not s["eof"]:
                self.op("fseek", slot, -(s["pos"] + self.size[s["f"]] + r.randint(1, 50)), r.choice([0, 1]) if s["posok"] else 0)
                return
        if s["read"] and (not s["write"] or r.random() < .5):
            self.sync_for_read(slot, s)
            q = r.random()
            if q < .35:
                self.op(r.choice(["fgetc", "getc"]), slot)
                if s["pushed"]:
                    s["pushed"] = False
                    s["pos"] += 1
                    s["last"] = "r"
                else:
                    self.data_read(s, 1)
            elif q < .5 and s["pos"] > 0 and not s["pushed"] and s["last"] == "r" and s["posok"]:
                self.op("ungetc", slot, r.choice([0, 65, 10, 127, 128, 255, r.randrange(256)]))
                s["pushed"], s["eof"] = True, False
                s["pos"] -= 1
            elif q < .75:
                size = r.choice([1, 1, 1, 2, 3, 4, 7, 16])
                n = r.choice([1, 1, 2, 5, 10, 50, 99, 100, 127, 128, 129, 200, 600])
                self.op("fread", slot, size, n)
                k = size * n
                if s["pushed"]:
                    s["pushed"] = False
                    s["pos"] += 1
                    k -= 1
                    s["last"] = "r"
                self.data_read(s, k)
            else:
                n = r.choice([1, 2, 3, 10, 50, 100, 128, 129, 200, 1000])
                self.op("fgets", slot, n)
                # the model cannot tell where the line ends: find out by a seek
                if n > 1:
                    s["last"] = "r"
                    s["posok"] = False
                    s["pushed"] = False
                    s["eof"] = True
                    if r.random() < .6:
                        self.op("fseek", slot, r.choice([0, 1, 5]) if False else 0, r.choice([0, 2]))
                        s["pos"] = 0 if self.out[-1].endswith("0 0") else self.size[s["f"]]
                        s.update(last=None, posok=True, eof=False)
        elif s["write"]:
            self.sync_for_write(slot, s)
            q = r.random()
            if q < .3:
                self.op(r.choice(["fputc", "putc"]), slot, r.choice([0, 10, 65, 127, 128, 255, r.randrange(256)]))
                self.wrote(s, 1)
            elif q < .5:
                t = bytes(r.choice(b"abc\nz\x80\xff") for _ in range(r.choice([0, 1, 5, 40, 200])))
                self.op("fputs", slot, hx(t))
                self.wrote(s, len(t))
            elif q < .7:
                self.op("fflush", slot)
            else:
                size = r.choice([1, 1, 2, 3, 8])
                n = r.choice([1, 2, 7, 50, 128, 400])
                self.op("fwrite", slot, size, n, r.randrange(1000))
                self.wrote(s, size * n)

    # -------------------------------------------------------- descriptors
    def open(self, slot):
        r = self.r
        f = self.pick_file()
        acc = r.choice([0, 0, 0, 1, 2, 2])
        flags = acc
        if r.random() < .4:
            flags |= 64
        if flags & 64 and r.random() < .3:
            flags |= 128
        if acc and r.random() < .3:
            flags |= 512
        if acc and r.random() < .3:
            flags |= 1024
        self.op("open", slot, hx(f), flags, r.choice([420, 384, 438]))
        ok = (f in self.size and not (flags & 128)) or (f not in self.size and flags & 64)
        if ok:
            if f not in self.size or flags & 512:
                self.size[f] = 0
            self.fd[slot] = dict(f=f, acc=acc)

    def desc(self, slot):
        r = self.r
        s = self.fd[slot]
        k = r.random()
        if k < .07:
            self.op("close", slot)
            if r.random() < .3:
                self.op(r.choice(["close", "read", "lseek", "fstat"]), slot, *([10, 0] if True else []))
                self.out[-1] = {"close": "close %d" % slot, "read": "read %d 10" % slot, "lseek": "lseek %d 0 1" % slot, "fstat": "fstat %d" % slot}[self.out[-1].split()[0]]
            del self.fd[slot]
        elif k < .3:
            self.op("lseek", slot, r.choice([0, 0, 1, 5, 99, 100, 128, 129, 300, -1, -100, -128, -129, -100000]), r.choice([0, 1, 1, 2]))
        elif k < .65 and s["acc"] != 1:
            self.op("read", slot, r.choice([0, 1, 1, 2, 10, 50, 99, 100, 101, 127, 128, 129, 200, 256, 1000, 5000]))
        elif k < .95:
            self.op("write", slot, r.choice([0, 1, 1, 2, 10, 100, 128, 129, 500]), r.randrange(1000))
        elif k < .97:
            self.op("fsync", slot)
        else:
            self.op("fstat", slot)

    def pipe(self):
        """Bytes through a pipe; all that is written is read, in pieces."""
        r = self.r
        self.op("pipe", 12, 13)
        left = 0
        for _ in range(r.randrange(1, 8)):
            n = r.choice([1, 5, 50, 100, 127, 128, 129, 300])
            self.op("write", 13, n, r.randrange(1000))
            left += n
            while left and r.random() < .8:
                k = r.choice([1, 3, 10, 100, 128, 200])
                self.op("readn", 12, min(k, left), min(k, left) if r.random() < .5 else k)
                left = max(0, left - k)
                if k > 0 and left == 0:
                    break
        self.op("close", 13)
        for _ in range(3):
            k = r.choice([1, 100, 5000])
            self.op("readn", 12, k, k)
        self.op("lseek", 12, 0, 1)
        self.op("close", 12)

    def make(self, n):
        r = self.r
        mode = r.choice(["stream", "stream", "stream", "fd", "fd", "both"])
        while len(self.out) < n:
            k = r.random()
            if mode != "fd" and (mode == "stream" or k < .5):
                slot = r.randrange(3)
                if slot in self.st:
                    self.stream(slot)
                else:
                    self.fopen(slot)
            else:
                slot = r.randrange(4)
                if slot in self.fd:
                    self.desc(slot)
                elif k < .03:
                    self.pipe()
                else:
                    self.open(slot)
        for s in sorted(self.st):
            self.op("fclose", s)
        for s in sorted(self.fd):
            self.op("close", s)
        return "\n".join(self.out) + "\n"


def go():
    c = Check("C26")
    d = Drv(c)

    def one(i):
        r = random.Random("%s/%d/%d" % (c.pid, c.seed, i))
        g = Gen(r)
        s = g.make(r.choice([20, 60, 150, 400]))
        w = d.compare("history-%d" % i, "%d" % i, s, files=g.files)
        c.case((i,), n=len(g.out))
        for k, v in g.kinds.items():
            c.count("op " + k, v)
        if w and i < 2:
            c.sample(" / ".join(x.strip()[:60] for x in w[1][:12]))
    # Two designs of the library that no history above meets (known findings)
    f = {"f": bytes(range(1, 200))}
    d.compare("probe-dup-shares-position", "dup", "open 0 %s 0 0\nread 0 1\ndup 0 1\nread 1 1\nread 0 1\nclose 0\nclose 1\n" % hx("f"), files=f)
    d.compare("probe-ferror", "ferror", "fopen 0 %s %s\nfputc 0 65\nferror 0\nfclose 0\n" % (hx("f"), hx("r")), files=f)
    c.pmap(one, range(c.n(2000, 25000)))
    c.finish("One case = one operation of a generated history on up to 3 streams and 4 descriptors: opening in every mode and spelling, character, line and block reads, one push-back, seeks from the three origins "
             "(also failing and beyond the end), positions, end-of-file queries, every write call, re-opening, descriptors with all flag combinations, pipes, files of sizes around the buffer lengths. "
             "Oracle: the same driver with the host C library; every result, errno, byte read and all files afterwards are compared, for the library built by gcc and by MesCC (x86_64, x86).",
             min_events={"op fread": 500, "op fseek": 500, "op ungetc": 100, "op lseek": 500, "op fgets": 300, "op feof": 100, "op read": 800, "op write": 500, "op pipe": 5})


if __name__ == "__main__":
    main(go)
