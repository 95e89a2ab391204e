import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, re, shutil
from vk.core import Check, main, run, HarnessError
from vk import build, cgen, ccalls

STATICS = [("main", "void P (long x); void vk_flush (void); int other (void);\nstatic int n = 3;\nstatic int f (void) { return n; }\nint main () { P (f ()); P (other ()); P (n); vk_flush (); return 0; }\n"),
           ("other", "static int n = 40;\nstatic int f (void) { n++; return n; }\nint other (void) { return f (); }\n")]


def host(d, texts, bits):
    """The output of the units compiled by the host; None if undefined."""
    names = []
    for i, t in enumerate(texts):
        f = os.path.join(d, "h%d.c" % i)
        open(f, "w").write(re.sub(r"\blong\b", "int", t) if bits == 32 else t)
        names.append(f)
    r = run(["clang", "-Wno-everything", "-O0", "-fno-builtin", "-fsanitize=undefined", "-fno-sanitize=alignment,function", "-o", d + "/host"] + names, timeout=120)
    if r.rc:
        raise HarnessError("clang: " + r.err.decode("latin1")[:1500])
    r = run([d + "/host"], timeout=20)
    for f in names + [d + "/host"]:
        os.unlink(f)
    return r.out if r.rc == 0 and not r.err and len(r.out) < 300000 else None


def go():
    c = Check("C16")
    m = build.MesCC(c)
    top = c.dir("calls")
    for bits in (64, 32):
        m.lib(bits)

    def link(d, units, way, rng, bits):
        """Compile the units in one of the ways; (Result, exe)."""
        exe = d + "/prog"
        mm = ["-m", str(bits)]
        files = []
        for n, t in units:
            open("%s/%s.c" % (d, n), "w").write(t)
            files.append(n)
        lib = ["-l", "c+tcc"]
        if way == "whole":
            return m.cc(mm + ["-o", exe, "all.c"] + lib, cwd=d), exe
        if way == "sources":
            return m.cc(mm + ["-o", exe] + [n + ".c" for n in files] + lib, cwd=d), exe
        for n in files:
            r = m.cc(mm + ["-c", "-o", n + ".o", n + ".c"], cwd=d) if way != "asm" or rng.random() < .5 else m.cc(mm + ["-S", "-o", n + ".s", n + ".c"], cwd=d)
            if r.rc or r.timeout:
                return r, exe
            if not os.path.exists("%s/%s.o" % (d, n)) and way == "asm":
                r = m.cc(mm + ["-c", "-o", n + ".o", n + ".s"], cwd=d)
                if r.rc or r.timeout:
                    return r, exe
        rng.shuffle(files)
        if way == "archive":
            k = rng.randrange(1, len(files))
            a, b = files[:k], files[k:]
            arch = "x86_64-mes" if bits == 64 else "x86-mes"
            os.makedirs("%s/lib/%s" % (d, arch))
            r = m.ar(["cr", "lib/%s/libpart.a" % arch] + [n + ".o" for n in b], cwd=d)
            if r.rc:
                return r, exe
            return m.cc(mm + ["-o", exe, "-L", "lib"] + [n + ".o" for n in a] + ["-l", "part"] + lib, cwd=d), exe
        return m.cc(mm + ["-o", exe] + [n + ".o" for n in files] + lib, cwd=d), exe

    def one(j):
        i, bits = j
        rng = random.Random("%s/%d/%d/%d" % (c.pid, c.seed, i, bits))
        g = ccalls.Calls(rng, bits, rng.choice([2, 3, 4]))
        g.make()
        name = "%d-%d" % (bits, i)
        d = os.path.join(top, name)
        os.makedirs(d)
        exp = host(d, [g.whole()], bits)
        if exp is None:
            c.count("dropped")
            return
        units = [("rt", cgen.RUNTIME)] + [("u%d" % k, t) for k, t in enumerate(g.files())]
        ways = ["whole"] if i % 5 == 0 else [["objects", "archive", "sources", "asm"][i % 5 - 1]]
        for way in ways:
            r, exe = link(d, [("all", g.whole())] if way == "whole" else units, way, rng, bits)
            rep = dict(bits=bits, way=way, units=units if way != "whole" else g.whole())
            if r.timeout:
                c.unsure("mescc timed out")
                continue
            if r.rc or not os.path.exists(exe):
                c.violation("build-" + name, "%s, -m %d: mescc does not build a valid program: %s" % (way, bits, r.out.decode("latin1")[-500:]), rep)
                continue
            o = run([exe], timeout=30, cwd=d)
            c.count("programs of %d bits" % bits)
            c.count("built as " + way)
            c.count("values compared", exp.count(b"\n"))
            text = g.whole()
            c.case((i, bits, len(exp)), n=exp.count(b"\n"))
            for k in ("va_start", "(*fp)", "rec", "static", "ptr"):
                if k in text:
                    c.count("programs with " + k)
            if i < 2:
                c.sample(text[-500:])
            if o.timeout or (o.rc, o.out) != (0, exp):
                e, gt = exp.split(b"\n"), o.out.split(b"\n")
                k = next((k for k in range(max(len(e), len(gt))) if e[k:k + 1] != gt[k:k + 1]), 0)
                c.violation("output-" + name, "%s, -m %d: line %d of %d should be %r, is %r (status %s)" % (way, bits, k + 1, len(e), e[max(0, k - 2):k + 2], gt[max(0, k - 2):k + 2], o.rc), rep)
        shutil.rmtree(d)

    c.pmap(one, [(i, 64) for i in range(c.n(170, 2600))] + [(i, 32) for i in range(c.n(70, 1200))])
    d = os.path.join(top, "statics")
    os.makedirs(d)
    r, exe = link(d, [("rt", cgen.RUNTIME)] + STATICS, "objects", random.Random(1), 64)
    o = run([exe], timeout=20) if r.rc == 0 else r
    c.case("statics")
    if (o.rc, o.out) != (0, b"3\n41\n3\n"):
        c.violation("static-names", "two units with a static variable and a static function of the same names: printed %r instead of 3, 41, 3" % o.out[-200:], dict(units=STATICS))
    c.finish("One case = one printed value of one generated program of functions with 0 to 13 parameters of every type, called directly, through function pointers in variables, tables, structs, parameters, "
             "recursively and with variable arguments, across 2 to 4 units that share globals; compiled by MesCC as one file, as several sources in one command, as objects in any order, through "
             "assembly, or with part of them in an archive; for x86_64 and x86. Every function prints its arguments, every caller its variables after its calls. Oracle: the host's clang with UBSan.",
             min_events={"programs of 64 bits": 100, "programs of 32 bits": 40, "built as whole": 25, "built as objects": 25, "built as sources": 25, "built as asm": 25, "built as archive": 25,
                         "values compared": 10000, "programs with va_start": 60, "programs with ptr": 100})


if __name__ == "__main__":
    main(go)
