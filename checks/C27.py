import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, subprocess
from vk.core import Check, main, run, HarnessError, VERIF
from vk import build


def script(r):
    out = []
    n = r.choice([5, 20, 60, 200, 800])
    level = 0
    while len(out) < n:
        k = r.random()
        if k < .3:
            out.append("C%d" % r.randrange(10))
        elif k < .58:
            out.append("S%d" % r.randrange(6))
        elif k < .85:
            out.append("T%d,%d" % (r.choice([0, 0, 0, 1, 2, 5, r.randrange(30)]), r.choice([0, 0, 1, 2, 7, -1, 255, 256, 2147483647, -2147483647, r.randrange(1000)])))
        elif k < .92:
            out.append("E")
        else:
            out.append("R")
        if out[-1][0] == "T" and r.random() < .5:
            out.append("R")
    if r.random() < .2:
        out.insert(r.randrange(len(out)), "L%d,%d" % (r.choice([1, 10, 1000, 20000]), r.choice([0, 1, 10, 100])))
    return "".join(out)


def go():
    c = Check("C27")
    f = os.path.join(VERIF, "harness", "jmp.c")
    top = c.dir("jmp")
    exe = {}
    for o in ("-O0", "-O2"):
        exe["host" + o] = os.path.join(top, "host" + o)
        r = run(["gcc", "-w", o, "-DHOSTED", "-o", exe["host" + o], f], merge=True)
        if r.rc:
            raise HarnessError("host driver: %r" % r.out)
    libs = build.gcc_lib(c)
    for o in ("-O0", "-O1", "-O2", "-Os"):
        k = "gcc" + o
        exe[k] = os.path.join(top, k)
        r = build.gcc_prog(c, libs, [f], exe[k], extra=["-w", o])
        if r.rc:
            raise HarnessError("gcc driver: %r" % r.out)
    m = build.MesCC(c)
    for bits in (64, 32):
        m.lib(bits)
        k = "mescc-%d" % bits
        exe[k] = os.path.join(top, k)
        r = m.prog(f, exe[k], bits, lib="c+gnu")
        if r.rc:
            raise HarnessError("mescc driver: %r" % r.out[-1500:])

    def execute(k, p):
        try:
            r = subprocess.run([exe[k], p], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, cwd=top)
            return r.returncode, r.stdout.decode("latin1").split("\n")
        except subprocess.TimeoutExpired as e:
            return "hangs", (e.stdout or b"").decode("latin1").split("\n")

    def one(i):
        r = random.Random("%s/%d/%d" % (c.pid, c.seed, i))
        s = script(r)
        p = os.path.join(top, "s%d" % i)
        open(p, "w").write(s)
        want = execute("host-O0", p)
        if execute("host-O2", p) != want or want[0] == "hangs":
            c.unsure("the oracles disagree on script %d" % i)
            os.unlink(p)
            return
        jumps = sum(l.startswith("jump") for l in want[1])
        c.case((i,), n=jumps)
        c.count("set points", sum("set" in l for l in want[1]))
        c.count("jumps", jumps)
        for l in want[1]:
            w = l.split()
            if w[:1] == ["jump"]:
                c.count("jumps with value zero" if w[2] == "0" else "jumps with another value")
        c.count("jumps in loops", sum(int(l.split()[2]) for l in want[1] if l.startswith("loop")))
        c.count("frames left by a jump or finished", sum("back" in l for l in want[1]))
        if i < 2:
            c.sample(" / ".join(want[1][:15]))
        for k in exe:
            if k.startswith("host"):
                continue
            got = execute(k, p)
            c.count("runs of " + k)
            if got != want:
                n = next((n for n in range(min(len(got[1]), len(want[1]))) if got[1][n] != want[1][n]), min(len(got[1]), len(want[1])))
                a = want[1][n] if n < len(want[1]) else "(end)"
                b = got[1][n] if n < len(got[1]) else "(end)"
                c.violation("jump-%d-%s" % (i, k), "%s: line %d: %r, expected %r; status %s, expected %s" % (k, n, b[:200], a[:200], got[0], want[0]), dict(script=s, program=k, source="harness/jmp.c"))
        os.unlink(p)
    c.pmap(one, range(c.n(1500, 40000)))
    c.finish("One case = one non-local jump of a generated history of nested calls (ten frame shapes), set points (six usage forms, also several per frame, in structures and set anew in loops) and jumps to any active point with any value, "
             "plus loops of up to 20,000 jumps from up to 100 frames deep. After every landing and return the locals, kept values and point are printed. Oracle: the same program with the host C library (-O0 and -O2 agreeing); "
             "compared for gcc with the Mes C library at -O0, -O1, -O2, -Os and for MesCC on x86_64 and x86.",
             min_events={"jumps": 5000, "jumps with value zero": 500, "jumps in loops": 10000, "set points": 3000})


if __name__ == "__main__":
    main(go)
