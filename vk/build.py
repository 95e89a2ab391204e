"""Builds from the scratch copy of the tree.  All products live in the check's scratch dir."""
import os, re, shutil, subprocess
from .core import HarnessError, NPROC, base_env, run

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def _must(r, what):
    if r.timeout:
        raise HarnessError("%s: timed out" % what)
    if r.rc != 0:
        raise HarnessError("%s failed (%s):\n%s" % (what, r.rc, (r.out + r.err).decode("utf-8", "replace")[-3000:]))
    return r


def gcc_lib_flags(t, bits=64):
    return (["-m32", "-fno-pie"] if bits == 32 else []) + ["-w", "-static", "-nostdinc", "-nostdlib", "-fno-builtin", "-fno-stack-protector", "-DHAVE_CONFIG_H=1",
            "-I", t + "/lib", "-I", t + "/include", "-I", t + "/include/linux/" + CPU[bits]]


CPU = {64: "x86_64", 32: "x86"}


def gcc_lib(c, bits=64):
    """The C library as the project builds it with gcc: dict of object lists + archives."""
    t = c.tree()
    out = c.dir("gcc-lib%d" % bits)
    s = c.sources("gcc", cpu=CPU[bits])
    crt1 = "lib/linux/%s-mes-gcc/crt1.c" % CPU[bits]
    allsrc = list(dict.fromkeys(s["libc_mini"] + s["libmescc"] + s["libmes"] + s["libc"] + s["libc_tcc"] + s["libc_gnu"]
                                + s["libtcc1"] + ["lib/posix/getopt.c", crt1]))
    objs = {}
    jobs = []
    for f in allsrc:
        o = os.path.join(out, os.path.basename(f)[:-2] + ".o")
        if o in objs.values():
            continue
        objs[f] = o
        jobs.append((f, o))

    def one(j):
        f, o = j
        return f, run(["gcc", "-c"] + gcc_lib_flags(t, bits) + ["-o", o, os.path.join(t, f)], cwd=t)
    for f, r in c.pmap(one, jobs):
        _must(r, "gcc " + f)

    def ar(name, lst):
        p = os.path.join(out, name)
        seen = []
        for f in lst:
            o = objs.get(f)
            if o and o not in seen:
                seen.append(o)
        _must(run(["ar", "crD", p] + seen), "ar")
        return p
    libs = dict(crt1=objs[crt1], bits=bits,
                libc=ar("libc.a", s["libc"]), libmescc=ar("libmescc.a", s["libmescc"]),
                tcc=ar("libc+tcc.a", s["libc_tcc"]), gnu=ar("libc+gnu.a", s["libc_gnu"] + ["lib/posix/getopt.c"]),
                tcc1=ar("libtcc1.a", s["libtcc1"]))
    return libs


def gcc_prog(c, libs, srcs, exe, extra=()):
    """Compile+link a program with gcc against the gcc-built C library, as the project's tests do."""
    t = c.tree()
    return run(["gcc"] + gcc_lib_flags(t, libs.get("bits", 64)) + list(extra) + (["-no-pie"] if libs.get("bits") == 32 else []) + ["-o", exe, libs["crt1"]] + list(srcs)
               + [libs["gnu"], libs["tcc1"], libs["gnu"]], cwd=os.path.dirname(exe), merge=True)


def mes_native(c, libs=None):
    """bin/mes exactly as the project's build makes it (gcc + Mes C library)."""
    t = c.tree()
    libs = libs or gcc_lib(c)
    s = c.sources("gcc")
    out = c.dir("mes-native")

    def one(f):
        o = os.path.join(out, os.path.basename(f)[:-2] + ".o")
        return o, run(["gcc", "-g", "-c"] + gcc_lib_flags(t) + ["-o", o, os.path.join(t, f)], cwd=t), f
    objs = []
    for o, r, f in c.pmap(one, s["mes"]):
        _must(r, "gcc " + f)
        objs.append(o)
    exe = os.path.join(out, "mes")
    _must(run(["gcc", "-g", "-static", "-nostdlib", "-o", exe, libs["crt1"]] + objs + [libs["libc"]], cwd=out), "link mes")
    return exe


def hosted_config(c):
    """A config.h that selects the host C library."""
    t = c.tree()
    inc = c.dir("hosted-inc")
    os.makedirs(inc + "/mes", exist_ok=True)
    txt = open(t + "/include/mes/config.h").read()
    txt = re.sub(r"^.*SYSTEM_LIBC.*$", "", txt, flags=re.M) + "\n#define SYSTEM_LIBC 1\n"
    open(inc + "/mes/config.h", "w").write(txt)
    return inc


def mes_hosted(c, name="mes-san", flags=None, extra=(), more=()):
    """The interpreter on the host C library, by default with ASan+UBSan."""
    t = c.tree()
    s = c.sources("gcc", libc="system")
    inc = hosted_config(c)
    out = c.dir(name)
    flags = SAN + ["-O1", "-g"] if flags is None else flags
    srcs = list(dict.fromkeys(s["mes"] + s["libmes"] + ["lib/mes/assert_msg.c"] + list(more)))
    jobs = [(f, os.path.join(out, f.replace("/", "_")[:-2] + ".o")) for f in srcs]

    def one(j):
        f, o = j
        fl = flags
        if f.endswith("assert_msg.c"):
            fl = fl + ["-D__assert_fail=vk_assert_fail"]
        return f, o, run(["gcc", "-w", "-c", "-DHAVE_CONFIG_H=1"] + list(extra) + fl
                         + ["-I", inc, "-I", t + "/lib", "-I", t + "/include", "-I", t + "/include/linux/x86_64",
                            "-o", o, os.path.join(t, f)], cwd=t)
    objs = []
    for f, o, r in c.pmap(one, jobs):
        _must(r, "gcc " + f)
        objs.append(o)
    exe = os.path.join(out, "mes")
    _must(run(["gcc"] + flags + ["-o", exe, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "hosted.c")] + objs), "link hosted mes")
    return exe


def renamed_libc(c, san=True, more=()):
    """The whole Mes C library as one object whose symbols all carry the prefix mes_,
    so that a hosted harness can run it next to the host C library under sanitizers."""
    t = c.tree()
    out = c.dir("renamed" + ("-san" if san else ""))
    s = c.sources("gcc")
    srcs = list(dict.fromkeys(s["libc_gnu"] + ["lib/posix/getopt.c"] + list(more)))
    inc = ["-w", "-g", "-fno-builtin", "-nostdinc", "-fno-stack-protector", "-DHAVE_CONFIG_H=1",
           "-I", t + "/lib", "-I", t + "/include", "-I", t + "/include/linux/x86_64"]
    jobs, seen = [], set()
    for f in srcs:
        b = os.path.basename(f)
        if b in seen:
            continue
        seen.add(b)
        jobs.append((f, os.path.join(out, f.replace("/", "_")[:-2] + ".o")))

    def one(j):
        f, o = j
        asm = "x86_64-mes" in f
        fl = ["-O0"] if asm or not san else ["-O1"] + SAN
        return f, o, run(["gcc", "-c"] + inc + fl + ["-o", o, os.path.join(t, f)], cwd=t)
    objs = []
    for f, o, r in c.pmap(one, jobs):
        _must(r, "gcc " + f)
        objs.append(o)
    allo = os.path.join(out, "all.o")
    _must(run(["ld", "-r", "-o", allo] + objs), "ld -r")
    r = _must(run(["nm", allo]), "nm")
    syms = []
    for line in r.out.decode().splitlines():
        m = re.match(r"[0-9a-f]* +([TDBCRVWA]) (\S+)$", line)
        if m and not re.search(r"asan|ubsan", m.group(2)):
            syms.append(m.group(2))
    sf = os.path.join(out, "syms")
    open(sf, "w").write("".join("%s mes_%s\n" % (x, x) for x in syms))
    fin = os.path.join(out, "meslibc.o")
    _must(run(["objcopy", "--redefine-syms=" + sf, allo, fin]), "objcopy")
    return fin


def harness(c, src, libobj, name, san=True, extra=()):
    """Compile a hosted C harness against the renamed library object."""
    from .core import VERIF
    exe = os.path.join(c.scratch, name)
    fl = (["-O1"] + SAN) if san else ["-O1"]
    _must(run(["gcc", "-g", "-w", "-no-pie", "-fno-builtin", "-I", VERIF + "/harness"] + fl + list(extra)
              + ["-o", exe, os.path.join(VERIF, "harness", src), libobj, "-lm"]), "harness " + src)
    return exe


# -------------------------------------------------------------------- MesCC
class MesCC:
    """The compiler run from the scratch tree, on Guile (fast) or on Mes."""

    def __init__(self, c, mes=None):
        self.c = c
        self.t = c.tree()
        self.mes = mes
        env = base_env()
        env["SCHEME"] = "guile"
        r = run(["bash", "build-aux/build-guile.sh"], cwd=self.t, env=env, timeout=600, merge=True)
        if r.rc != 0:
            raise HarnessError("compiling the compiler with guile failed:\n" + r.out.decode("utf-8", "replace")[-3000:])
        self.libdir = None
        self.libdir32 = None

    def env(self, scheme="guile", arena=20000000, stack=5000000, prefix=None):
        e = base_env()
        t = self.t
        e["SCHEME"] = scheme
        if scheme != "guile":
            del e["SCHEME"]
            e["MES"] = self.mes
            e["MES_ARENA"] = e["MES_MAX_ARENA"] = str(arena)
            e["MES_STACK"] = str(stack)
        if prefix:
            e["MES_PREFIX"] = prefix
        return e

    def cc(self, args, cwd, scheme="guile", timeout=120, env=None, merge=True, **kw):
        return run([self.t + "/pre-inst-env", "mescc"] + args, cwd=cwd, env=env or self.env(scheme, **kw),
                   timeout=timeout, merge=merge)

    def prog(self, src, exe, bits=64, lib="c+tcc", extra=(), timeout=300):
        """Compile and link one program in a directory of its own; a Result."""
        d = exe + ".d"
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, os.path.basename(src))
        if os.path.abspath(src) != f:
            shutil.copy(src, f)
        if os.path.exists(exe):
            os.unlink(exe)
        r = self.cc(["-m", str(bits)] + list(extra) + ["-o", exe, f] + (["-l", lib] if lib else []), cwd=d, timeout=timeout)
        if r.rc == 0 and not os.path.exists(exe):
            r.rc = 77
        shutil.rmtree(d, ignore_errors=True)
        return r

    def ar(self, args, cwd, timeout=60):
        return run([self.t + "/pre-inst-env", "mesar"] + args, cwd=cwd, env=self.env(), timeout=timeout, merge=True)

    def lib(self, bits=64, upto="gnu"):
        """mescc-built crt1, libmescc, libc, libc+tcc, libc+gnu in the layout mescc searches (-L dir)."""
        c, t = self.c, self.t
        cpu = "x86_64" if bits == 64 else "x86"
        top = os.path.join(t, "mescc-lib")
        out = os.path.join(top, cpu + "-mes")
        work = os.path.join(c.scratch, "mescc-work%d" % bits)
        os.makedirs(out, exist_ok=True)
        os.makedirs(work, exist_ok=True)
        s = c.sources("mescc", cpu=cpu)
        crt = "lib/linux/%s-mes-mescc/crt1.c" % cpu
        want = s["libmescc"] + s["libc_gnu"] + ["lib/posix/getopt.c"] + s["libtcc1"]
        srcs = list(dict.fromkeys([crt] + want))
        objs, jobs, seen = {}, [], {}
        for f in srcs:
            b = os.path.basename(f)[:-2]
            if b in seen:
                objs[f] = seen[b]
                continue
            o = os.path.join(work, b + ".o")
            seen[b] = o
            objs[f] = o
            jobs.append((f, o))

        def one(j):
            f, o = j
            return f, self.cc(["-m", str(bits), "-c", "-D", "HAVE_CONFIG_H=1", "-I", t + "/lib", "-I", t + "/include",
                               "-I", t + "/include/linux/" + cpu, "-o", o, os.path.join(t, f)], cwd=work)
        for f, r in c.pmap(one, jobs):
            if r.rc != 0:
                raise HarnessError("mescc -m %d %s failed:\n%s" % (bits, f, r.out.decode("utf-8", "replace")[-2000:]))

        def ar(name, lst):
            seen2 = []
            for f in lst:
                if objs[f] not in seen2:
                    seen2.append(objs[f])
            for ext in (".o", ".s"):
                with open(os.path.join(out, name + (".a" if ext == ".o" else ".s")), "wb") as g:
                    for o in seen2:
                        p = o[:-2] + ext
                        if os.path.exists(p):
                            g.write(open(p, "rb").read())
        shutil.copy(objs[crt], out + "/crt1.o")
        if os.path.exists(objs[crt][:-2] + ".s"):
            shutil.copy(objs[crt][:-2] + ".s", out + "/crt1.s")
        ar("libmescc", s["libmescc"])
        ar("libc", s["libc"])
        ar("libc+tcc", s["libc_tcc"])
        ar("libc+gnu", s["libc_gnu"] + ["lib/posix/getopt.c"])
        ar("libtcc1", s["libtcc1"])
        if bits == 64:
            self.libdir = top
        else:
            self.libdir32 = top
        return top
