import sys, os, random; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main, run
from vk import build
from vk.charness import run_harness


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def directive(r):
    """(text, [argument expressions]) of one conforming directive."""
    conv = r.choice("ddiuxXocs%n" if r.random() < .3 else "ddiuxXocss")
    if conv == "%":
        return "%%", []
    if conv == "n":
        return "%n", ["&n"]
    args, t = [], "%"
    if r.random() < .3:
        t += "-"
    if conv in "diouxX" and "-" not in t and r.random() < .3:
        t += "0"
    if r.random() < .5:
        if r.random() < .3:
            t += "*"
            args.append(str(r.randint(1, 12)))
        else:
            t += str(r.randint(1, 15))
    if conv != "c" and r.random() < .3:
        if r.random() < .3:
            t += ".*"
            args.append(str(r.randint(0, 12)))
        else:
            t += "." + str(r.randint(0, 12))
    if conv == "c":
        return t + "c", args + [r.choice(["'%s'" % r.choice("abcXYZ0 "), "c1", "c2"])]
    if conv == "s":
        return t + "s", args + [r.choice(["s1", "s2", "s3", cstr("".join(r.choice("abc %d") for _ in range(r.randint(0, 12))).replace("%", "%"))])]
    if r.random() < .5:
        v = r.choice([r.randint(-2000, 2000), r.randint(0, 2**31 - 1)])
        return t + "l" + conv, args + [r.choice(["l1", "l2", "l1 + %d" % r.randint(0, 99), "%dL" % v if v >= 0 else "(%dL)" % v])]
    if conv in "di":
        return t + conv, args + [r.choice(["i1", "i2", "sc", "sh", str(r.randint(0, 99999)), "-%d" % r.randint(1, 9999), "i1 + %d" % r.randint(0, 9)])]
    return t + conv, args + [r.choice(["u1", "u2", "us", str(r.randint(0, 99999))])]


def program(r, ncalls):
    b = ["#include <stdio.h>", "#include <string.h>", "#include <stdarg.h>", "#include <unistd.h>", "char buf[4096]; int n;",
         "void put_num (int x) { char t[20]; int k = 19; t[19] = '\\n'; if (x < 0) { write (1, \"-\", 1); x = -x; } do { k = k - 1; t[k] = '0' + x % 10; x = x / 10; } while (x); write (1, t + k, 20 - k); }",
         "int my_v (char *b, char const *f, ...) { va_list ap; int r; va_start (ap, f); r = vsprintf (b, f, ap); va_end (ap); return r; }",
         "int main () {", "int r; char c1 = 'q'; char c2 = '~'; signed char sc = -%d; short sh = -%d; unsigned short us = %d;" % (r.randint(1, 128), r.randint(1, 32768), r.randint(0, 65535)),
         "int i1 = %d; int i2 = -%d; unsigned u1 = %dU; unsigned u2 = %dU;" % (r.randint(0, 2**31 - 99), r.randint(1, 2**31 - 1), r.randint(0, 2**31 - 1), r.randint(0, 99)),
         "long l1 = %d; long l2 = -%d;" % (r.randint(0, 2**31 - 1), r.randint(1, 2**31 - 1)),
         'char *s1 = "hello, world"; char *s2 = ""; char *s3 = "x";', "l1 = l1 * %d; l2 = l2 * %d;" % (r.choice([1, 1000003, 2147483647]), r.choice([1, 999983, 2147483647]))]
    for _ in range(ncalls):
        f, args = "", []
        for _ in range(r.randint(1, 5)):
            if r.random() < .5:
                f += "".join(r.choice("ab .:\n") for _ in range(r.randint(1, 4)))
            t, a = directive(r)
            f += t
            args += a
        al = "".join(", " + a for a in args)
        k = r.randint(0, 5)
        b.append("n = -1; memset (buf, '#', 200);")
        if k == 0:
            b.append("r = printf (%s%s);" % (cstr(f), al))
        elif k == 1:
            b.append("r = fprintf (stdout, %s%s); fflush (stdout);" % (cstr(f), al))
        elif k == 2:
            b.append("r = sprintf (buf, %s%s); write (1, buf, strlen (buf));" % (cstr(f), al))
        elif k == 3:
            b.append("r = snprintf (buf, %d, %s%s); write (1, buf, strlen (buf));" % (r.randint(1, 40), cstr(f), al))
        elif k == 4:
            b.append("r = my_v (buf, %s%s); write (1, buf, strlen (buf));" % (cstr(f), al))
        else:
            b.append("r = sprintf (buf + 3, %s%s); write (1, buf, strlen (buf));" % (cstr(f), al))
        b.append("put_num (r); put_num (n);")
    b += ["return 0; }", ""]
    return "\n".join(b)


def go():
    c = Check("C24")
    exe = build.harness(c, "printf.c", build.renamed_libc(c), "printf")
    run_harness(c, exe, c.n(400000, 10000000), args=["print"], timeout=c.n(240, 800))
    # the variadic entry points, called by compiled programs
    m = build.MesCC(c)
    m.lib(64)
    d = c.dir("prog")

    def one(i):
        r = random.Random("%d/%d" % (c.seed, i))
        src = os.path.join(d, "p%d.c" % i)
        open(src, "w").write(program(r, 25))
        host, prog = src[:-2] + ".host", src[:-2] + ".mes"
        g = run(["gcc", "-w", "-O0", "-Wno-all", "-o", host, src])
        if g.rc:
            return c.unsure("host gcc: " + g.err.decode("latin1")[:200])
        k = m.cc(["-o", prog, src, "-l", "c+tcc"], cwd=d)
        if k.rc or not os.path.exists(prog):
            return c.violation("mescc-compile", "mescc fails on a printf program: " + k.out.decode("latin1")[-800:], dict(program=open(src).read()))
        # unbuffered host output keeps the order of printf and write
        e = run(["stdbuf", "-o0", host], cwd=d)
        o = run([prog], cwd=d)
        c.count("variadic-programs")
        c.count("variadic-calls", 25)
        c.case(("prog", i), n=25)
        if (o.rc, o.out) != (e.rc, e.out):
            a, b = e.out.split(b"\n"), o.out.split(b"\n")
            k = next((j for j in range(max(len(a), len(b))) if a[j:j + 1] != b[j:j + 1]), 0)
            c.violation("variadic-output", "output line %d: expected %r, printed %r (status %s/%s)" % (k, a[k:k + 1], b[k:k + 1], e.rc, o.rc),
                        dict(program=open(src).read()))
        for p in (src, host, prog):
            if os.path.exists(p):
                os.unlink(p)
    c.pmap(one, range(c.n(60, 1200)))
    # the same entry points compiled by gcc
    libs = build.gcc_lib(c)
    src = os.path.join(d, "g.c")
    open(src, "w").write('#include <stdio.h>\nint main () { printf ("%d %s\\n", 42, "x"); return 0; }\n')
    build.gcc_prog(c, libs, [src], os.path.join(d, "g"))
    o = run([os.path.join(d, "g")], cwd=d)
    c.case("gcc-variadic")
    if o.out != b"42 x\n":
        c.violation("gcc-x86_64-variadic", "a gcc-compiled program linked with the library prints %r for printf (\"%%d %%s\\n\", 42, \"x\")" % o.out)
    c.finish("One case = one formatted-output call: (1) v* functions in process under ASan/UBSan on generated templates (all supported "
             "conversions, -, space, 0, width, *, precision, l, ll) and boundary values, output buffers exactly sized, compared with the "
             "host C library; (2) printf/fprintf/sprintf/snprintf calls in generated programs compiled by MesCC against the MesCC-built "
             "library, compared with the same program under gcc/glibc. Distinct = distinct (template, rendering).",
             min_events=dict(cases=1000, vsnprintf=100, vfprintf=100, truncated=50))


if __name__ == "__main__":
    main(go)
