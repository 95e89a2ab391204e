import sys, os, bisect; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main, run, HarnessError, VERIF
from vk import build


class Live:
    """Live blocks as disjoint intervals."""

    def __init__(self):
        self.keys, self.by = [], {}

    def add(self, a, n):
        """The live block that [a, a+n) overlaps, or None."""
        i = bisect.bisect_left(self.keys, a)
        for k in self.keys[max(0, i - 1):i + 1]:
            if k < a + max(n, 1) and a < k + max(self.by[k], 1):
                return k, self.by[k]
        self.keys.insert(i, a)
        self.by[a] = n

    def drop(self, a):
        del self.by[a]
        del self.keys[bisect.bisect_left(self.keys, a)]


def go():
    c = Check("C23")
    libs = build.gcc_lib(c)
    d = c.dir("prog")
    src = os.path.join(VERIF, "harness/prog/alloc.c")
    progs = []
    g = build.gcc_prog(c, libs, [src], os.path.join(d, "gcc64"))
    if g.rc:
        raise HarnessError("gcc: " + g.out.decode("latin1"))
    progs.append(("gcc-64", os.path.join(d, "gcc64"), 8))
    m = build.MesCC(c)
    for bits, al in ((64, 8), (32, 4)):
        m.lib(bits)
        exe = os.path.join(d, "mescc%d" % bits)
        k = m.prog(src, exe, bits)
        if k.rc:
            raise HarnessError("mescc: " + k.out.decode("latin1")[-1500:])
        progs.append(("mescc-%d" % bits, exe, al))
    nops = c.n(6000, 30000)
    jobs = []
    for i in range(c.n(60, 1200)):
        for name, exe, al in progs:
            # a third of the histories run into a memory limit
            jobs.append((name, exe, al, c.seed * 10007 + i, i % 2, 24 if i % 3 == 2 else 4000))

    def one(j):
        name, exe, al, seed, big, mem = j
        r = run([exe, str(seed), str(nops), str(big)], mem_mb=mem, timeout=120, fsize_mb=512)
        what = dict(program=name, argv=[seed, nops, big], mem_mb=mem)
        key = name + ":"
        live, ended, nulls, n = Live(), False, 0, 0
        for line in r.out.decode("latin1").splitlines():
            w = line.split()
            if len(w) != 7 or len(w[0]) != 1:
                continue        # cut off by a crash
            op = w[0]
            slot, size, p, old = int(w[1]), int(w[2]), int(w[3]) * 4096 + int(w[4]), int(w[5]) * 4096 + int(w[6])
            n += 1
            if op == "E":
                ended = True
                break
            if op in "mcr":
                c.count({"m": "malloc", "c": "calloc", "r": "realloc"}[op])
                if not p:
                    nulls += 1
                    if mem > 1000:
                        c.violation(key + "null", "event %d: allocation of %d bytes failed without a memory limit" % (n, size), what)
                    continue
                if op == "r" and old:
                    if old in live.by:      # blocks of no bytes are not tracked
                        live.drop(old)
                if p % al:
                    c.violation(key + "aligned", "event %d: block of %d bytes at %#x is not aligned to %d" % (n, size, p, al), what)
                o = live.add(p, size) if size else None
                if o:
                    c.violation(key + "overlap", "event %d: block [%#x, +%d) overlaps live block [%#x, +%d)" % (n, p, size, o[0], o[1]), what)
                    break
                c.case((name, op, min(size, 300), bool(old)))
            elif op == "f":
                if old in live.by:
                    live.drop(old)
                c.count("free")
            elif op == "D":
                c.violation(key + "contents", "event %d: byte %d of the live block at %#x changed" % (n, size, p), what)
            elif op == "P":
                c.violation(key + "realloc-prefix", "event %d: byte %d was not preserved by realloc (%#x -> %#x)" % (n, size, old, p), what)
            elif op == "Z":
                c.violation(key + "calloc-zero", "event %d: byte %d of a calloc block is not zero" % (n, size), what)
        c.count("histories")
        if nulls:
            c.count("histories-out-of-memory")
        c.count("refused", nulls)
        if r.timeout:
            c.violation(key + "hang", "history did not end", what)
        elif not ended:
            c.violation(key + "crash", "the program died (status %s) after event %d" % (r.rc, n), what)
        elif n < 500:
            c.unsure("only %d events" % n)
    c.pmap(one, jobs)
    c.sample("%s %s" % (jobs[0][0], jobs[0][3:]))
    c.finish("One case = one successful allocation in a logged history of malloc/calloc/realloc/free calls run by gcc-64, MesCC-64 and MesCC-32 "
             "programs, one third of them under a memory limit that makes the break refuse to move. The log is checked offline for "
             "disjointness of live blocks and alignment, the program itself checks every byte pattern. Distinct = distinct (build, call, size class).",
             min_events={"malloc": 1000, "calloc": 1000, "realloc": 1000, "free": 1000, "histories-out-of-memory": 5})


if __name__ == "__main__":
    main(go)
