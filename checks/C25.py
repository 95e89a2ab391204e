import sys, os, random; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main, run
from vk import build
from vk.charness import run_harness


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def program(r, ncalls):
    """sscanf calls in a program; one source for MesCC+library and for gcc+glibc."""
    b = ["#include <stdio.h>", "#include <string.h>", "#include <unistd.h>",
         "void put_num (long x) { char t[30]; int k = 29; t[29] = '\\n'; if (x < 0) { write (1, \"-\", 1); x = -x; } do { k = k - 1; t[k] = '0' + x % 10; x = x / 10; } while (x); write (1, t + k, 30 - k); }",
         "int main () { int i1; int i2; int i3; long l1; long l2; char c1; char c2; int r;"]
    for _ in range(ncalls):
        t, text, args, num = "", "", [], False
        free = ["i1", "i2", "i3"]
        freel, freec = ["l1", "l2"], ["c1", "c2"]
        for _ in range(r.randint(1, 4)):
            if num or r.random() < .5:
                lit = r.choice([",", " ", ":", "=", "()", " , "])
                t += lit
                text += lit if r.random() < .93 else "!"
                num = False
            k = r.random()
            if k < .55 and free:
                a = free.pop(0)
                t += "%" + r.choice("ddiu")
                v = r.choice([r.randint(0, 99), r.randint(0, 2**31 - 1)])
                text += r.choice(["", "", " ", "\t"]) + ("+" if r.random() < .1 else "") + str(v) if r.random() < .93 else r.choice(["x", "", "-"])
                args.append(a)
                num = True
            elif k < .8 and freel:
                a = freel.pop(0)
                t += "%l" + r.choice("du")
                text += str(r.choice([r.randint(-2**62, 2**62) if t.endswith("d") else 7, r.randint(0, 99)]))
                args.append(a)
                num = True
            elif freec:
                a = freec.pop(0)
                t += "%c"
                text += r.choice("abc 9!")
                args.append(a)
                num = False
        if r.random() < .3:
            text += r.choice(["", " tail", "\n"])
        al = "".join(", &" + a for a in args)
        b.append("i1 = i2 = i3 = 77; l1 = l2 = 78; c1 = c2 = 'x';")
        b.append("r = sscanf (%s, %s%s);" % (q(text), q(t), al))
        b.append("put_num (r); put_num (i1); put_num (i2); put_num (i3); put_num (l1); put_num (l2); put_num (c1); put_num (c2);")
    b += ["return 0; }", ""]
    return "\n".join(b)


def go():
    c = Check("C25")
    exe = build.harness(c, "printf.c", build.renamed_libc(c), "printf")
    run_harness(c, exe, c.n(400000, 10000000), args=["scan"], timeout=c.n(240, 800))
    m = build.MesCC(c)
    m.lib(64)
    d = c.dir("prog")

    def one(i):
        r = random.Random("%d/%d" % (c.seed, i))
        src = os.path.join(d, "p%d.c" % i)
        open(src, "w").write(program(r, 15))
        host, prog = src[:-2] + ".host", src[:-2] + ".mes"
        g = run(["gcc", "-w", "-O0", "-o", host, src])
        if g.rc:
            return c.unsure("host gcc: " + g.err.decode("latin1")[:200])
        k = m.cc(["-o", prog, src, "-l", "c+tcc"], cwd=d)
        if k.rc or not os.path.exists(prog):
            return c.violation("mescc-compile", "mescc fails on a sscanf program: " + k.out.decode("latin1")[-800:], dict(program=open(src).read()))
        e, o = run([host], cwd=d), run([prog], cwd=d)
        c.count("variadic-programs")
        c.case(("prog", i), n=15)
        if (o.rc, o.out) != (e.rc, e.out):
            a, b = e.out.split(b"\n"), o.out.split(b"\n")
            k = next((j for j in range(max(len(a), len(b))) if a[j:j + 1] != b[j:j + 1]), 0)
            call = [x for x in open(src).read().split("\n") if "sscanf" in x][min(k // 8, 14)]
            c.violation("variadic-result", "%s: field %d expected %r, got %r" % (call, k % 8, a[k:k + 1], b[k:k + 1]), dict(program=open(src).read()))
        for p in (src, host, prog):
            if os.path.exists(p):
                os.unlink(p)
    c.pmap(one, range(c.n(60, 1200)))
    c.finish("One case = one scan: (1) vsscanf/vfscanf in process under ASan/UBSan, templates of literals, white space, %d %i %u %ld %c %% "
             "and matching, mismatching and truncated inputs; count, values, one exactly sized object per conversion and (streams) the "
             "position left behind are compared with the host C library; (2) sscanf calls in generated programs compiled by MesCC. "
             "Distinct = distinct (template, input).",
             min_events={"cases": 1000, "vsscanf": 100, "vfscanf": 100, "partial-match": 50, "full-match": 50})


if __name__ == "__main__":
    main(go)
