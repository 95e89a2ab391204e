import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, shutil
from vk.core import Check, main, run, HarnessError
from vk import build, cgen, cdata, ccalls, sch

LIB = ["lib/stdio/vfprintf.c", "lib/stdio/vsnprintf.c", "lib/mes/ntoab.c", "lib/mes/abtol.c", "lib/string/memmove.c", "lib/string/strstr.c", "lib/stdlib/qsort.c", "lib/linux/malloc.c",
       "lib/posix/getopt.c", "lib/mes/fdgetc.c", "lib/mes/__buffered_read.c", "lib/posix/execvp.c", "lib/posix/setenv.c", "lib/ctype/isalnum.c", "lib/stdio/fread.c", "lib/string/strspn.c"]


def go():
    c = Check("C17")
    exe = build.mes_native(c)
    m = build.MesCC(c, mes=exe)
    m.lib(64)
    m.lib(32)
    t = c.tree()
    top = c.dir("det")

    def envs(rng):
        """The configurations a program is compiled in: (name, directory suffix, environment)."""
        far = m.env("guile")
        far.update(TZ="Asia/Tokyo", LANG="C", HOME="/nonexistent", COLUMNS="20", LC_ALL="C", VK_PAD="x" * rng.randrange(1, 4000), TMPDIR="/nowhere", USER="someone")
        small = m.env("mes", arena=rng.choice([1400000, 1700000, 2200000]), stack=rng.choice([300000, 500000]))
        small["MES_MAX_ARENA"] = "20000000"
        odd = m.env("mes", arena=rng.randrange(4000000, 9000000), stack=1000000)
        odd.update(TZ="America/Lima", LANG="de_DE.UTF-8", HOME="/", VK_PAD="y" * rng.randrange(1, 2000), MES_SAFETY=str(rng.choice([2000, 40000])))
        odd["MES_MAX_ARENA"] = "20000000"
        return [("guile", "a", m.env("guile")), ("guile-elsewhere", "some/deeper/directory", far), ("mes", "b", m.env("mes")), ("mes-small", "c", small), ("mes-odd", "d/e", odd)]

    def one(j):
        i, kind = j
        rng = random.Random("%s/%d/%s/%d" % (c.pid, c.seed, kind, i))
        bits = rng.choice([64, 64, 32])
        d = os.path.join(top, "%s%d" % (kind, i))
        extra = []
        units = None
        if kind == "lib":
            f = LIB[i % len(LIB)]
            cpu = "x86_64" if bits == 64 else "x86"
            p = os.path.join(t, f)
            if not os.path.exists(p):
                return c.count("library sources that are gone")
            text = open(p).read()
            extra = ["-D", "HAVE_CONFIG_H=1", "-I", t + "/lib", "-I", t + "/include", "-I", t + "/include/linux/" + cpu, "-I", os.path.dirname(os.path.join(t, f))]
        elif kind == "calls":
            g = ccalls.Calls(rng, bits, 2)
            g.make()
            text = g.whole()
        elif kind == "data":
            text = cdata.program(rng, bits, **(dict(sizes=False) if bits == 32 else {})).text()[0]
        else:
            text = cgen.program(rng, bits, nexpr=2, nflow=2, npure=2, lines=8).text()[0]
        name = rng.choice(["prog", "a", "x-1", "Some_Name", "p.q"])
        stage = "lib" if kind == "lib" else rng.choice(["link", "asm", "object", "ast"])
        mm = ["-m", str(bits)] + extra
        outs, status = {}, {}
        for conf, sub, env in envs(rng):
            w = os.path.join(d, sub)
            os.makedirs(w)
            open("%s/%s.c" % (w, name), "w").write(text)
            if stage == "link":
                steps = [mm + ["-o", "out", name + ".c", "-l", "c+tcc"]]
            elif stage == "asm":
                steps = [mm + ["-S", name + ".c"], mm + ["-c", "-o", "again.o", name + ".s"]]
            elif stage == "ast":
                steps = [mm + ["-E", name + ".c"], mm + ["-S", "-o", "out.s", name + ".E"]]
            else:
                steps = [mm + ["-c", name + ".c"]]
            st = []
            for a in steps:
                r = m.cc(a, cwd=w, env=env, timeout=400)
                st.append(r.rc)
                if r.timeout:
                    return c.unsure("mescc timed out")
                if r.rc:
                    st.append(r.out[-300:])
                    break
            status[conf] = st
            outs[conf] = {x: open(os.path.join(w, x), "rb").read() for x in sorted(os.listdir(w)) if os.path.isfile(os.path.join(w, x)) and not x.endswith((".c", ".E"))}
            c.count("compilations on " + conf.split("-")[0])
            c.count("compilations")
        shutil.rmtree(d)
        ref = "guile"
        c.case((kind, i, bits, stage), n=len(outs))
        c.count("programs of " + kind)
        c.count("stage " + stage)
        rep = dict(program=text, options=mm, stage=stage, name=name)
        if status[ref][-1] != 0 and isinstance(status[ref][-1], bytes):
            c.count("rejected by the compiler")
            if kind != "lib" and kind != "expr":
                c.violation("reject-%s%d" % (kind, i), "the compiler rejects a valid program: %r" % status[ref], rep)
        for conf in outs:
            if [x for x in status[conf] if isinstance(x, int)] != [x for x in status[ref] if isinstance(x, int)]:
                c.violation("status-%s-%s%d" % (conf, kind, i), "exit statuses of %s: %r, of %s: %r" % (ref, status[ref], conf, status[conf]), rep)
                continue
            if status[ref][-1]:
                continue
            for x in sorted(set(outs[ref]) | set(outs[conf])):
                a, b = outs[ref].get(x), outs[conf].get(x)
                c.count("files compared")
                c.count("bytes compared", len(a or b""))
                if a != b:
                    if a is None or b is None:
                        what = "written only by %s" % (ref if b is None else conf)
                    else:
                        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                        what = "differs at byte %d: %s wrote %r, %s wrote %r" % (k, ref, a[max(0, k - 40):k + 40], conf, b[max(0, k - 40):k + 40])
                    c.violation("output-%s-%s%d" % (conf, kind, i), "-m %d, %s: %s %s" % (bits, stage, x, what), rep)
        if i < 2:
            c.sample("%s %s %r" % (kind, stage, {x: len(b) for x, b in outs[ref].items()}))

    jobs = [(i, "lib") for i in range(c.n(16, 32))]
    for kind, q in (("calls", 24), ("data", 16), ("expr", 24)):
        jobs += [(i, kind) for i in range(c.n(q, q * 14))]
    c.pmap(one, jobs)
    c.finish("One case = one source (generated programs, sources of the library) compiled by Guile twice and by Mes three times, in other directories, environments, locales, "
             "arenas and stack sizes, to assembly, through the AST, to an object or to an executable, for x86_64 and x86. Oracle: every file written is byte for byte the same and every exit status is equal.",
             min_events={"compilations on mes": 150, "files compared": 300, "programs of lib": 10, "stage link": 8, "stage ast": 8, "stage asm": 8, "stage object": 8})


if __name__ == "__main__":
    main(go)
