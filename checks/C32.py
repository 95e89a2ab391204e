import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main, run, NPROC
from vk import build
from vk.build import SAN, _must
from vk.charness import run_harness

TCC = ["divdi3", "moddi3", "udivdi3", "umoddi3", "lshrdi3", "ashldi3", "ashrdi3"]


def go():
    c = Check("C32")
    t = c.tree()
    d = c.dir("div")
    inc = ["-w", "-g", "-fno-builtin", "-nostdinc", "-fno-stack-protector", "-DHAVE_CONFIG_H=1", "-I", t + "/lib", "-I", t + "/include"]
    ub = ["-O1"] + SAN + ["-fno-sanitize=signed-integer-overflow,shift"]
    i64 = inc + ["-I", t + "/include/linux/x86_64", "-DHAVE_LONG_LONG=1"]
    _must(run(["gcc", "-c"] + i64 + ub + ["-o", d + "/div.o", t + "/lib/mes/div.c"]), "div.c")
    _must(run(["gcc", "-c"] + i64 + ub + ["-o", d + "/tcc1.o", t + "/lib/libtcc1.c"]), "libtcc1.c")
    # the variant the tiny C compiler gets
    _must(run(["gcc", "-c", "-D__TINYC__=1"] + i64 + ub + ["-o", d + "/tinyc.o", t + "/lib/libtcc1.c"]), "libtcc1.c -D__TINYC__")
    _must(run(["objcopy"] + ["--redefine-sym=__%s=t_%s" % (x, x) for x in TCC] + [d + "/tinyc.o"]), "objcopy")
    _must(run(["objcopy"] + ["--keep-global-symbol=t_" + x for x in TCC] + [d + "/tinyc.o"]), "objcopy")
    exe = d + "/div"
    from vk.core import VERIF
    _must(run(["gcc", "-g", "-w", "-no-pie", "-fno-builtin", "-I", VERIF + "/harness"] + ub
              + ["-o", exe, VERIF + "/harness/div.c", d + "/div.o", d + "/tcc1.o", d + "/tinyc.o"]), "harness div.c")
    run_harness(c, exe, c.n(1600000, 40000000), timeout=c.n(240, 800))
    # 32 bit words, with the wrappers ARM code calls
    m32 = ["-m32", "-O1", "-fno-pic", "-fno-pie", "-fno-asynchronous-unwind-tables"]
    i32 = inc + ["-I", t + "/include/linux/x86", "-I", t + "/include/linux/arm"]
    _must(run(["gcc", "-c", "-D__arm__=1"] + m32 + i32 + ["-o", d + "/div32.o", t + "/lib/mes/div.c"]), "div.c -m32")
    _must(run(["gcc", "-c", "-D__arm__=1"] + m32 + i32 + ["-o", d + "/tcc32.o", t + "/lib/libtcc1.c"]), "libtcc1.c -m32")
    open(d + "/stub.c", "w").write("int __mes_debug (void) { return 0; } int eputs (char const *s) { return 0; }\n")
    n = c.n(200000, 5000000)

    def one(i):
        e = d + "/bare%d" % i
        _must(run(["gcc", "-g", "-w", "-nostdlib", "-static", "-no-pie", "-fno-builtin", "-fno-stack-protector", "-DBARE", "-DCOUNT=%d" % n,
                   "-DSEED=%dULL" % (c.seed * 1000 + i)] + m32
                  + ["-o", e, VERIF + "/harness/div.c", d + "/div32.o", d + "/tcc32.o", d + "/stub.c"]), "bare harness")
        return i, run([e], timeout=c.n(240, 800))
    for i, r in c.pmap(one, range(NPROC)):
        ended = False
        for line in r.out.decode("latin1").splitlines():
            if line.startswith("B "):
                k, _, detail = line[2:].partition("\t")
                c.violation(k, detail, dict(bits=32, seed=c.seed * 1000 + i))
            elif line.startswith("D "):
                c.count("cases-32bit", int(line[2:], 16))
                c.case(n=int(line[2:], 16))
            elif line == "END":
                ended = True
        if r.timeout:
            c.violation("32:hang", "32 bit division does not end", dict(seed=i))
        elif not ended and r.rc:
            c.violation("32:crash", "32 bit harness died: %s" % r.rc, dict(seed=i))
    c.finish("One case = one helper call on one operand pair (extremes, powers of two and neighbours, sums of powers, random widths, exact "
             "multiples +-1), 64 bit under ASan/UBSan for lib/mes/div.c, lib/libtcc1.c and its tcc variant, 32 bit free-standing for div.c and "
             "the __*si3 wrappers; oracle = the processor's own division; division by zero must raise SIGFPE. Distinct = distinct pair.",
             min_events={"cases": 1000, "cases-32bit": 1000, "division-by-zero": 10})


if __name__ == "__main__":
    main(go)
