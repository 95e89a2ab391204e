"""Runs scripts of library calls (harness/libcdrv.c) in programs built with the host C library
(the oracle), with the Mes C library built by gcc, and with the one built by MesCC."""
import os, shutil, signal, stat, subprocess
from .core import run, HarnessError, VERIF, base_env
from . import build

NOBODY = 65534
CONF = {"host": "h", "gcc": "g", "gcc-32": "i", "mescc-64": "m", "mescc-32": "n"}


def hx(s):
    if s is None:
        return "null"
    return "x" + (s.encode("utf-8") if isinstance(s, str) else s).hex()


def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for x in ds + fs:
            q = os.path.join(p, x)
            n = os.path.relpath(q, d)
            s = os.lstat(q)
            if stat.S_ISLNK(s.st_mode):
                out[n] = "-> " + os.readlink(q)
            elif stat.S_ISDIR(s.st_mode):
                out[n] = "dir %o" % (s.st_mode & 0o7777)
            elif stat.S_ISREG(s.st_mode):
                out[n] = "file %o %d " % (s.st_mode & 0o7777, s.st_nlink) + repr(open(q, "rb").read())
            else:
                out[n] = "other"
    return out


class Drv:
    def __init__(self, c, confs=("gcc", "gcc-32", "mescc-64", "mescc-32"), src="libcdrv.c"):
        self.c = c
        self.top = c.dir("drv-" + os.path.splitext(src)[0])
        self.exe = {}
        f = os.path.join(VERIF, "harness", src)
        base = os.path.splitext(src)[0]
        for k in ("host",) + tuple(confs):
            d = os.path.join(self.top, CONF[k])
            os.makedirs(d)
            os.chmod(d, 0o755)
            exe = os.path.join(self.top, CONF[k] + "-" + base)
            self.exe[k] = exe
        r = run(["gcc", "-w", "-g", "-DHOSTED", "-o", self.exe["host"], f], merge=True)
        if r.rc:
            raise HarnessError("host driver: %r" % r.out)
        for k, bits in (("gcc", 64), ("gcc-32", 32)):
            if k in confs:
                libs = build.gcc_lib(c, bits)
                r = build.gcc_prog(c, libs, [f], self.exe[k], extra=["-DMESGCC"] if bits == 64 else [])
                if r.rc:
                    raise HarnessError("gcc driver: %r" % r.out)
        m = None
        for k in confs:
            if k.startswith("mescc"):
                bits = int(k[-2:])
                m = m or build.MesCC(c)
                m.lib(bits)
                r = m.prog(f, self.exe[k], bits, lib="c+gnu")
                if r.rc:
                    raise HarnessError("mescc driver: %r" % r.out[-1500:])
        self.confs = tuple(confs)
        for e in self.exe.values():
            os.chmod(e, 0o755)

    def run(self, conf, name, script, files=None, args=(), env=None, timeout=30, post=None):
        """(status, trace lines, files) of the script run in a fresh directory as an unprivileged user."""
        w = os.path.join(self.top, CONF[conf], "w-" + name)
        os.makedirs(w)
        for p, what in (files or {}).items():
            q = os.path.join(w, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if what is None:
                os.makedirs(q, exist_ok=True)
            elif isinstance(what, tuple):
                if what[0] == "link":
                    os.symlink(what[1], q)
                elif what[0] == "exe":
                    os.symlink(self.exe[conf], q)
                else:
                    open(q, "wb").write(what[1])
                    os.chmod(q, what[0])
            else:
                open(q, "wb").write(what)
                os.chmod(q, 0o644)
        sf = w + ".txt"
        open(sf, "w").write(script)
        for p, what in (files or {}).items():
            if not isinstance(what, tuple) and what is not None:
                os.utime(os.path.join(w, p), (10**9 + 1, 10**9 + 7 * len(p)))
        for p, ds, fs in os.walk(w):
            os.chown(p, NOBODY, NOBODY)
            for x in fs + ds:
                os.lchown(os.path.join(p, x), NOBODY, NOBODY)

        def pre():
            import resource
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
            os.umask(0o022)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        for attempt in (0, 1):
            p = subprocess.Popen([self.exe[conf], sf] + list(args), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 cwd=w, env={"PATH": "/usr/bin:/bin"} if env is None else env, preexec_fn=pre)
            to = False
            try:
                out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                to = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                out, _ = p.communicate()
            break
        rc = "hangs" if to else p.returncode
        t = {k: v.replace(self.exe[conf], "@EXE@") for k, v in tree(w).items()}
        shutil.rmtree(w)
        os.unlink(sf)
        text = out.decode("latin1").replace(self.exe[conf], "@EXE@").replace(self.exe[conf].encode().hex(), "@EXE@").replace("/%s/w-" % CONF[conf], "/C/w-").replace(("/%s/w-" % CONF[conf]).encode().hex(), "@W@")
        return rc, text.split("\n"), t

    def compare(self, key, name, script, norm=None, oracle="host", confs=None, **kw):
        """Run everywhere; report where a library under test leaves the oracle's trace."""
        c = self.c
        want = self.run(oracle, name, script, **kw)
        if want[0] == "hangs":
            c.unsure("the oracle hangs on " + key)
            return None
        wl = norm(want[1]) if norm else want[1]
        ops = script.split("\n")
        for conf in confs or self.confs:
            if conf == oracle:
                continue
            got = self.run(conf, name, script, **kw)
            c.count("operations compared", len(wl))
            c.count("histories on " + conf)
            gl = norm(got[1]) if norm else got[1]
            rep = dict(script=script, conf=conf, kw={k: repr(v) for k, v in kw.items() if k != "timeout"})
            if gl != wl:
                k = next((k for k in range(min(len(gl), len(wl))) if gl[k] != wl[k]), min(len(gl), len(wl)))
                a = wl[k] if k < len(wl) else "(end)"
                b = gl[k] if k < len(gl) else "(end)"
                n = a.strip().split(" ")[0]
                op = ops[int(n)] if n.isdigit() and int(n) < len(ops) else ""
                c.violation("%s-%s" % (key, conf), "%s: trace line %d: %r, expected %r (operation: %s); status %s" % (conf, k, b[:300], a[:300], op[:200], got[0]), rep)
            elif got[0] != want[0]:
                c.violation("%s-%s" % (key, conf), "%s: status %s, expected %s" % (conf, got[0], want[0]), rep)
            elif got[2] != want[2]:
                bad = sorted(x for x in set(got[2]) | set(want[2]) if got[2].get(x) != want[2].get(x))
                c.violation("%s-%s" % (key, conf), "%s: file %r is %s, expected %s" % (conf, bad[0], str(got[2].get(bad[0]))[:300], str(want[2].get(bad[0]))[:300]), rep)
        return want
