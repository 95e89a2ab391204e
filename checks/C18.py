import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, shutil, struct
from vk.core import Check, main, run, HarnessError
from vk import build, cgen, ccalls, sch


def snap(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            out[os.path.relpath(q, d)] = open(q, "rb").read()
    return out


def go():
    c = Check("C18")
    exe = build.mes_native(c)
    m = build.MesCC(c, mes=exe)
    m.lib(64)
    m.lib(32)
    top = c.dir("drv")
    fake = c.dir("tools")

    def tool(name, body):
        p = os.path.join(fake, name)
        open(p, "w").write("#!/bin/sh\n" + body + "\n")
        os.chmod(p, 0o755)
        return p
    tools = {"exit1": tool("exit1", "exit 1"), "exit3": tool("exit3", "exit 3"), "exit255": tool("exit255", "exit 255"), "killed": tool("killed", "kill -9 $$"),
             "segv": tool("segv", "kill -11 $$"), "missing": fake + "/no-such-tool", "noexec": fake + "/noexec"}
    open(tools["noexec"], "w").write("not executable\n")

    def cc(args, d, host, **env):
        e = m.env(host)
        for k in ("M1", "HEX2", "BLOOD_ELF"):
            if k in env:
                e[k] = env[k]
        return m.cc(args, cwd=d, env=e, timeout=200)

    # ---------------------------------------------------------- programs with macros and include directories
    def source(r):
        """Files, options that go with the source, expected output."""
        files, opts, lines, want = {}, [], [], []
        dirs = ["inc", "other/inc", "third"]
        r.shuffle(dirs)
        use = dirs[:r.randrange(0, 4)]
        for k, dname in enumerate(use):
            opts.append(["-I", dname] if r.random() < .6 else ["-I" + dname])
        for h in range(r.randrange(0, 4) if use else 0):
            where = sorted(r.sample(range(len(use)), r.randrange(1, len(use) + 1)))
            for w in where:
                files["%s/h%d.h" % (use[w], h)] = "#ifndef H%d\n#define H%d %d\n#endif\n" % (h, h, 100 * h + w)
            q = r.choice(['"h%d.h"', "<h%d.h>"]) % h
            lines.append("#include %s" % q)
            want.append(("H%d" % h, 100 * h + where[0]))
        if r.random() < .4:
            files["near.h"] = "#define NEAR 77\nint near_f (int x) { return x + NEAR; }\n"
            lines.append('#include "near.h"')
            want += [("NEAR", 77), ("near_f (1)", 78)]
        decl = []
        for k in range(r.randrange(0, 5)):
            n = "M%d" % k
            form = r.randrange(6)
            v = r.randrange(2, 5000)
            if form == 0:
                dd = n
                want.append((n, 1))
            elif form == 1:
                dd = "%s=%d" % (n, v)
                want.append((n, v))
            elif form == 2:
                dd = "%s=%d + 3" % (n, v)
                want.append((n, v + 3))
            elif form == 3:
                dd = "%s=0x%x" % (n, v)
                want.append((n, v))
            elif form == 4:
                dd = "%s=name_%d" % (n, k)
                decl.append("int name_%d = %d;" % (k, v))
                want.append((n, v))
            else:
                dd = "%s=-%d" % (n, v)
                want.append((n, -v))
            opts.append(["-D", dd] if r.random() < .6 else ["-D" + dd])
        decl += ["#ifdef NOT_GIVEN", "int absent = 1;", "#else", "int absent = 0;", "#endif", "#if defined (M0)", "int m0 = 1;", "#else", "int m0 = 0;", "#endif"]
        want += [("absent", 0), ("m0", int(any(o[-1].lstrip("-D").split("=")[0] == "M0" for o in opts if o[0].startswith("-D"))))]
        status = r.choice([0, 0, 7, 255])
        body = lines + decl + [cgen.RUNTIME, "int main ()", "{"] + ["  P (%s);" % a for a, b in want] + ["  vk_flush ();", "  return %d;" % status, "}", ""]
        return files, opts, "\n".join(body), b"".join(b"%d\n" % b for a, b in want), status

    def shuffle_opts(r, groups):
        g = list(groups)
        # the order among -I matters, the rest does not
        inc = [x for x in g if x[0].startswith("-I")]
        r.shuffle(g)
        it = iter(inc)
        g = [next(it) if x[0].startswith("-I") else x for x in g]
        return [w for x in g for w in x]

    def staged(i):
        r = random.Random("%s/%d/staged/%d" % (c.pid, c.seed, i))
        host = "mes" if i % 3 == 0 else "guile"
        bits = r.choice(["64", "64", "32"])
        files, opts, text, want, status = source(r)
        base = r.choice(["prog", "a.b", "x-y", "main"])
        sub = r.choice(["", "", "src/"])
        exes = {}
        ways = ["one", "E", "S", "c", "ESc"]
        r.shuffle(ways)
        ways = ["one"] + [w for w in ways if w != "one"][:2]
        rep = dict(files=files, text=text, options=opts, bits=bits)
        mm = [["-m", bits]] if r.random() < .7 else [["-m" + bits]]
        link = [["-l", "c+tcc"]]
        for way in ways:
            d = os.path.join(top, "st%d-%s" % (i, way))
            os.makedirs(os.path.join(d, "src"))
            for f, t in files.items():
                p = os.path.join(d, sub if f == "near.h" else "", f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(t)
            src = sub + base + ".c"
            open(os.path.join(d, src), "w").write(text)
            open(os.path.join(d, "keep.o"), "w").write("keep")
            open(os.path.join(d, "keep.c"), "w").write("keep")
            before = snap(d)
            out = r.choice(["out", "bin.exe", "p"])
            allowed = set()

            def step(given, groups, expect, allow):
                """Run; check the status and the files written."""
                b = snap(d)
                args = shuffle_opts(r, groups)
                args = args + given if r.random() < .5 else given + args
                res = cc(args, d, host)
                c.count("commands on " + host)
                if res.timeout:
                    c.unsure("mescc timed out")
                    return False
                a = snap(d)
                new = {x for x in a if a[x] != b.get(x)}
                gone = set(b) - set(a)
                if res.rc or not set(expect) <= set(a):
                    c.violation("staged-%d" % i, "%s, mescc %r: status %s, wrote %r; expected %r; %s" % (host, args, res.rc, sorted(new), expect, res.out[-300:]), rep)
                    return False
                if gone or new - set(expect) - set(allow):
                    c.violation("files-%d" % i, "mescc %r wrote %r and removed %r, expected %r" % (args, sorted(new), sorted(gone), expect), rep)
                c.count("commands whose files were checked")
                return True
            o = [["-o", out]] if r.random() < .7 else [["-o" + out]]
            inter = [base + ".s", base + ".o", sub + base + ".s", sub + base + ".o"]
            if way == "one":
                ok = step([src], mm + opts + o + link, [out], inter)
            elif way == "E":
                ok = step([src], mm + opts + [["-E"]], [base + ".E"], []) and step([base + ".E"], mm + o + link, [out], inter)
            elif way == "S":
                ok = step([src], mm + opts + [["-S"], ["-o", "t.s"]], ["t.s"], []) and step(["t.s"], mm + o + link, [out], ["t.o"])
            elif way == "c":
                k = r.random() < .5
                ok = step([src], mm + opts + [["-c"]] + ([["-o", "t.o"]] if k else []), ["t.o"] if k else [base + ".o"], ["t.s"] if k else [base + ".s"]) \
                    and step(["t.o" if k else base + ".o"], mm + o + link, [out], [])
            else:
                ok = step([src], mm + opts + [["-E"], ["-o", "u.E"]], ["u.E"], []) and step(["u.E"], mm + [["-S"]], ["u.s"], []) \
                    and step(["u.s"], mm + [["-c"], ["-o", "v.o"]], ["v.o"], []) and step(["v.o"], mm + o + link, [out], [])
            if ok:
                p = os.path.join(d, out)
                x = run([p], timeout=20)
                c.count("executables of way " + way)
                c.case((i, way), n=2)
                if (x.rc, x.out) != (status, want):
                    c.violation("output-%d" % i, "built by %s: prints %r with status %s, expected %r, %d" % (way, x.out[:300], x.rc, want, status), rep)
                exes[way] = open(p, "rb").read()
                if exes[way][4] != (2 if bits == "64" else 1):
                    c.violation("class-%d" % i, "-m %s made an ELF file of class %d" % (bits, exes[way][4]), rep)
                if exes["one"] != exes[way] if "one" in exes else False:
                    c.violation("same-%d" % i, "the executable built in one step and by %s differ" % way, rep)
                after = snap(d)
                if any(after.get(f) != before[f] for f in before):
                    c.violation("inputs-%d" % i, "an input file was changed", rep)
            shutil.rmtree(d)
    c.pmap(staged, range(c.n(60, 1000)))

    # ---------------------------------------------------------- single options
    H = "void vk_flush (void); void P (long x);\n"
    ok = cgen.RUNTIME + "int g = 5;\nint main () { P (g); vk_flush (); return 3; }\n"
    bare = "int g = 5;\n#if __x86_64__\nint _start () { asm (\"mov____$i32,%rdi %9\"); asm (\"mov____$i32,%rax SYS_exit\"); asm (\"syscall\"); return 0; }\n#else\n" \
           "int _start () { asm (\"mov____$i32,%ebx %9\"); asm (\"mov____$i32,%eax SYS_exit\"); asm (\"int____$0x80\"); return 0; }\n#endif\nint main () { return 0; }\n"

    def single(j):
        name, host, args, files, fn = j
        d = os.path.join(top, "one-%s-%s" % (name, host))
        os.makedirs(d)
        for f, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            open(os.path.join(d, f), "w").write(t)
        r = cc(args, d, host)
        c.case((name, host))
        c.count("single options")
        if r.timeout:
            return c.unsure("mescc timed out")
        bad = fn(r, d)
        if bad:
            c.violation("option-%s-%s" % (name, host), "mescc %r on %s: %s; status %s, %s" % (args, host, bad, r.rc, r.out[-300:]), dict(args=args, files=files))
        shutil.rmtree(d)

    def runs(status, out=None, f="out"):
        def fn(r, d):
            if r.rc or not os.path.exists(d + "/" + f):
                return "no executable"
            x = run([d + "/" + f], timeout=20)
            if x.rc != status or out is not None and x.out != out:
                return "the executable ends with %s, %r; expected %s, %r" % (x.rc, x.out, status, out)
        return fn

    def prints(rc, *words):
        def fn(r, d):
            t = r.out.decode("latin1")
            if (r.rc != rc if rc >= 0 else r.rc == 0) or not all(w in t for w in words):
                return "expected status %s and %r" % (rc, words)
        return fn

    def base_addr(a):
        def fn(r, d):
            if runs(3, b"5\n")(r, d):
                return runs(3, b"5\n")(r, d)
            b = open(d + "/out", "rb").read()
            if b[4] == 2:
                off = struct.unpack("<Q", b[32:40])[0]
                v = struct.unpack("<Q", b[off + 16:off + 24])[0]
            else:
                off = struct.unpack("<I", b[28:32])[0]
                v = struct.unpack("<I", b[off + 8:off + 12])[0]
            if v != a:
                return "loaded at %#x" % v
        return fn

    def symbols(r, d):
        bad = runs(3, b"5\n")(r, d)
        if bad:
            return bad
        x = run(["readelf", "-sW", d + "/out"])
        if b" main" not in x.out:
            return "no symbol main: %r %r" % (x.out[:200], x.err[:200])

    src = {"a.c": ok}
    L = ["-l", "c+tcc"]
    S = []
    for host in ("guile", "mes"):
        for bits in ("64", "32"):
            mm = ["-m", bits]
            b = lambda n: "%s-%s" % (n, bits)
            S += [(b("base"), host, mm + ["--base-address=0x2000000", "-o", "out", "a.c"] + L, src, base_addr(0x2000000)),
                  (b("default-base"), host, mm + ["-o", "out", "a.c"] + L, src, base_addr(0x1000000)),
                  (b("aout"), host, mm + ["a.c"] + L, src, runs(3, b"5\n", "a.out")),
                  (b("g"), host, mm + ["-g", "-o", "out", "a.c"] + L, src, symbols),
                  (b("nostdlib"), host, mm + ["-nostdlib", "-o", "out", "a.c"], {"a.c": bare}, runs(9)),
                  (b("align"), host, mm + ["--align=none", "-o", "out", "a.c"] + L, src, runs(3, b"5\n")),
                  (b("align2"), host, mm + ["--align=functions", "--align=globals", "-o", "out", "a.c"] + L, src, runs(3, b"5\n")),
                  (b("ignored"), host, mm + ["-O2", "-fno-builtin", "-static", "--std=c99", "-fno-stack-protector", "-nostdinc", "-o", "out", "a.c"] + L, src, runs(3, b"5\n")),
                  (b("nodefault"), host, mm + ["-nodefaultlibs", "-o", "out", "a.c", "-l", "c", "-l", "mescc"], src, runs(3, b"5\n")),
                  (b("twofiles"), host, mm + ["-o", "out", "a.c", "b.c"] + L, {"a.c": H + "int other (int);\nint main () { P (other (4)); vk_flush (); return 3; }\n", "b.c": cgen.RUNTIME + "int other (int x) { return x + 38; }\n"}, runs(3, b"42\n"))]
        S += [("help", host, ["--help"], {}, prints(0, "Usage: mescc", "-I DIR", "--base-address")), ("h", host, ["-h"], {}, prints(0, "Usage: mescc")),
              ("version", host, ["--version"], {}, prints(0, "mescc (GNU Mes)")), ("V", host, ["-V"], {}, prints(0, "mescc (GNU Mes)")),
              ("dumpmachine", host, ["-dumpmachine"], {}, prints(0, "linux-mes")), ("nofiles", host, [], {}, prints(2, "Usage: mescc")),
              ("dumpmachine32", host, ["-dumpmachine", "-m", "32"], {}, prints(0, "x86-linux-mes")),
              ("libgcc", host, ["--print-libgcc-file-name"], {}, prints(0, "-lmescc")),
              ("unknown", host, ["--no-such-option", "a.c"], src, prints(-1)), ("noarg", host, ["a.c", "-o"], src, prints(-1))]
    c.pmap(single, S)

    # ---------------------------------------------------------- failing stages
    BAD = {"syntax": "int main () { return 0;\n", "syntax2": "int main ( { return 0; }\n", "error": "#error no\nint main () { return 0; }\n", "include": '#include "absent.h"\nint main () { return 0; }\n',
           "undefined-var": "int main () { return nothing_here + 1; }\n", "type": "struct nope x; int main () { return x.a; }\n",
           "garbage": "\x01\x02@@@ \xff\n", "field": "struct s { int a; }; int main () { struct s x; return x.b; }\n"}
    F = []
    for host in ("guile", "mes"):
        for k, t in BAD.items():
            for stage in (["-S"], ["-c"], ["-o", "out"], ["-S", "-o", "out"]):
                F.append(("%s%s" % (k, "".join(stage)), host, ["-m", "64"] + stage + ["a.c"], {"a.c": t}, {}))
        for k, t in tools.items():
            for v in ("M1", "HEX2", "BLOOD_ELF"):
                args = ["-m", "64"] + (["-g"] if v == "BLOOD_ELF" else []) + ["-o", "out", "a.c"]
                F.append(("%s-%s" % (v, k), host, args, src, {v: t}))
            F.append(("M1c-%s" % k, host, ["-m", "64", "-c", "-o", "out", "a.c"], src, {"M1": t}))
            F.append(("M1s-%s" % k, host, ["-m", "64", "-c", "-o", "out", "a.s"], {"a.s": ":main\n"}, {"M1": t}))
        F += [("missing", host, ["-m", "64", "-o", "out", "none.c"], {}, {}), ("missing-c", host, ["-m", "64", "-c", "-o", "out", "none.c"], {}, {}), ("missing-E", host, ["-m", "64", "-E", "-o", "out", "none.c"], {}, {}),
              ("missing-o", host, ["-m", "64", "-o", "out", "none.o"], {}, {}), ("missing-s", host, ["-m", "64", "-o", "out", "none.s"], {}, {}),
              ("undefined-function", host, ["-m", "64", "-o", "out", "a.c"], {"a.c": "int nothing (void); int main () { return nothing (); }\n"}, {}),
              ("undefined-global", host, ["-m", "64", "-o", "out", "a.c"], {"a.c": "extern int nothing; int main () { return nothing; }\n"}, {}),
              ("no-main", host, ["-m", "64", "-o", "out", "a.c"], {"a.c": "int f (void) { return 1; }\n"}, {}),
              ("no-library", host, ["-m", "64", "-o", "out", "a.c", "-l", "absent"], src, {}), ("no-directory", host, ["-m", "64", "-o", "no/such/dir/out", "a.c"], src, {}),
              ("no-directory-S", host, ["-m", "64", "-S", "-o", "no/such/dir/out", "a.c"], src, {}),
              ("second-bad", host, ["-m", "64", "-o", "out", "a.c", "b.c"], {"a.c": ok, "b.c": "int f ( { \n"}, {}), ("second-missing", host, ["-m", "64", "-o", "out", "a.c", "b.c"], src, {}),
              ("bad-asm", host, ["-m", "64", "-o", "out", "a.s"], {"a.s": ":main\n\tno_such_instruction\n"}, {}), ("bad-object", host, ["-m", "64", "-o", "out", "a.o"], {"a.o": ":main\n%nowhere\n"}, {}),
              ("bad-E", host, ["-m", "64", "-S", "-o", "out", "a.E"], {"a.E": "(trans-unit (fctn-defn"}, {}), ("empty-E", host, ["-m", "64", "-o", "out", "a.E"], {"a.E": ""}, {})]

    def failing(j):
        name, host, args, files, env = j
        d = os.path.join(top, "fail-%s-%s" % (name, host))
        os.makedirs(d)
        for f, t in files.items():
            open(os.path.join(d, f), "w", encoding="latin1").write(t)
        r = cc(args, d, host, **env)
        c.case((name, host))
        c.count("failing stages on " + host)
        rep = dict(args=args, files=files, env=env)
        if r.timeout:
            c.violation("fail-hang-%s-%s" % (name, host), "mescc %r does not end" % args, rep)
        elif r.rc == 0:
            c.violation("fail-status-%s-%s" % (name, host), "mescc %r %r on %s ends with status 0: %s" % (args, env, host, r.out[-300:]), rep)
        else:
            for f in ("out", "a.out"):
                p = os.path.join(d, f)
                if os.path.exists(p) and os.access(p, os.X_OK):
                    c.violation("fail-left-%s-%s" % (name, host), "mescc %r %r on %s failed and left the executable %s" % (args, env, host, f), rep)
            if not r.out.strip():
                c.violation("fail-silent-%s-%s" % (name, host), "mescc %r %r on %s failed with status %s without a word" % (args, env, host, r.rc), rep)
        shutil.rmtree(d)
    c.pmap(failing, F)
    c.finish("Sources with random macros and include directories given on the command line (separate or attached, in any order), built in one step and in separate preprocess, compile, assemble and link steps, "
             "on Guile and on Mes, for x86_64 and x86: status, files written, bytes of the executable and its output; every documented option by its effect; every stage made to fail (bad input of each kind, "
             "tools that exit with a status, die by a signal or are missing, output that cannot be written): failure status, a message, no executable.",
             min_events={"commands whose files were checked": 120, "commands on mes": 40, "executables of way one": 40, "single options": 50, "failing stages on mes": 60, "failing stages on guile": 60})


if __name__ == "__main__":
    main(go)
