import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import shutil, signal, subprocess
from vk.core import Check, main, base_env, run
from vk import sch, build

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r"""
(define (hex s)
  (display "<")
  (for-each (lambda (c) (display (number->string (char->integer c))) (display ",")) (string->list s))
  (display ">"))
(define (show tag l) (display tag) (for-each hex l) (newline))
(define (str . l) (list->string (map integer->char l)))
"""
ERRORS = ["(car '())", "(undefined-thing 1)", "(error \"wrong\" 1)", "(throw 'oops 1 2)", "(open-input-file \"/nonexistent/x\")", "(vector-ref (vector 1 2) 7)",
          "(string-ref \"abc\" 9)", "((lambda (x) x))", "(cdr 7)", "(list-tail '(1 2) 5)", "(hashq-ref 3 'a)" if 0 else "(car (cdr (list 1)))"]


def sc(b):
    """A Scheme expression for a string of any bytes."""
    if all(32 <= x < 127 and x not in b'"\\' for x in b):
        return '"%s"' % b.decode()
    l = ["(str %s)" % " ".join(map(str, b[i:i + 60])) for i in range(0, len(b), 60)]
    while len(l) > 1:
        l = ["(string-append %s)" % " ".join(l[i:i + 30]) for i in range(0, len(l), 30)]
    return l[0]


def hx(b):
    return "<" + "".join("%d," % x for x in b) + ">"


class Case:
    def __init__(self, r, exe, n):
        self.r, self.exe, self.n = r, exe, n
        self.out, self.err = b"", b""        # what the program writes
        self.o, self.e = "so", "se"           # where descriptors 1 and 2 of a child lead
        self.files = {"so": b"", "se": b""}
        self.recs = []                        # (argv, env, fd1, fd2)
        self.acts = []
        self.nf = 0
        self.kinds = {}
        self.env = {}

    def w(self, t):
        if isinstance(t, str):
            t = t.encode("latin1")
        self.files[self.o] += t

    def text(self, lo=0, hi=30, bad=b"\0"):
        r = self.r
        k = r.random()
        n = r.choice([0, 1, 2, 5, 12, hi])
        n = max(lo, n)
        if k < .5:
            b = bytes(r.choice(b"abcXYZ019 -=/.$*'`\\\"~;|&<>(){}[]#\n\t") for _ in range(n))
        elif k < .8:
            b = bytes(r.randint(1, 255) for _ in range(n))
        else:
            b = r.choice([b"--help", b"-s", b"-c", b"--", b"-", b"", b"-e", b"(exit 3)", b"-L", b"x=y", b"--version", b"\xff", b"$HOME", b"*"])
        if len(b) < lo:
            b = b + b"q" * (lo - len(b))
        return bytes(x for x in b if x not in bad)

    def k(self, s):
        self.kinds[s] = self.kinds.get(s, 0) + 1

    # ---------------------------------------------------------------- children
    def act(self):
        r = self.r
        x = r.random()
        if x < .7:
            a = ("exit", r.choice([0, 0, 1, 2, 42, 127, 128, 254, 255, r.randint(0, 255)]))
        elif x < .8:
            a = ("slow", r.randint(0, 255))
        else:
            a = ("kill", r.choice([1, 2, 3, 6, 9, 13, 14, 15, 8, 11]))
        self.acts.append(a)
        return a

    @staticmethod
    def raw(a):
        return a[1] if a[0] == "kill" else a[1] << 8

    @staticmethod
    def val(s):
        return "#f" if s & 127 else str(s >> 8)

    def child_name(self):
        """Name given, name the child sees as its first argument or None when there is no such program."""
        r = self.r
        d = self.dir.encode()
        k = r.choices(["abs", "rel", "path", "none", "noneabs", "noexec", "isdir"], [5, 2, 6, 1, .6, .6, .5])[0]
        self.k("child " + k)
        if k == "abs":
            return d + b"/p1/probe", d + b"/p1/probe"
        if k == "rel":
            return b"./p2/probe", b"./p2/probe"
        if k == "none":
            return b"no-such-program", None
        if k == "noneabs":
            return d + b"/p1/nope", None
        if k == "noexec":
            return d + b"/plain/probe", None
        if k == "isdir":
            return d + b"/p1", None
        name = r.choice([b"probe", b"other", b"probe"])
        for x in self.path().split(b":"):
            f = (x + b"/" if x else b"") + name
            full = os.path.join(self.dir.encode(), f)
            if os.path.isfile(full) and os.stat(full).st_mode & 0o100:
                return name, f
        return name, None

    def path(self):
        return self.env.get("PATH", b"/bin:/usr/bin")

    def args(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 5, 12, 60 if r.random() < .2 else 4])
        a = [self.text() for _ in range(n)]
        if a and r.random() < .1:
            a[r.randrange(len(a))] = bytes(r.randint(1, 255) for _ in range(r.choice([300, 1500])))
        return a

    def system(self):
        name, real = self.child_name()
        args = self.args()
        call = "(system* %s)" % " ".join(sc(x) for x in [name] + args) if self.r.random() < .7 or len(args) > 100 else \
            "(apply system* (list %s))" % " ".join(sc(x) for x in [name] + args)
        if real is None:
            s = 127 << 8
        else:
            s = self.start(real, args)
        self.k("system*")
        if self.r.random() < .6:
            self.w("%d;" % s)
            return "(display %s) (display \";\")" % call
        self.w("%s;" % self.val(s))
        return "(display (status:exit-val %s)) (display \";\")" % call

    def start(self, real, args, o=None, e=None):
        i = len(self.recs)
        a = self.act()
        o, e = o or self.o, e or self.e
        self.recs.append(([real] + args, dict(self.env), o, e))
        self.files[o] += b"[out %d]" % i
        self.files[e] += b"[err %d]" % i
        return self.raw(a)

    def forks(self):
        """Several children at once, waited for in any order."""
        r = self.r
        n = r.choice([1, 1, 2, 3, 5])
        codes = [r.randint(0, 255) for _ in range(n)]
        t = ""
        self.nf += 1
        for i, x in enumerate(codes):
            t += "(define k%d_%d (primitive-fork)) (if (= k%d_%d 0) (exit %d))\n" % (self.nf, i, self.nf, i, x)
        self.k("fork")
        if r.random() < .5:
            t += self.system() + "\n"
            self.k("system* among children")
        order = list(range(n))
        r.shuffle(order)
        if r.random() < .3:
            t += "(show \"any\" (list %s))\n" % " ".join("(if (memv (car (waitpid -1)) (list %s)) \"y\" \"n\")" % " ".join("k%d_%d" % (self.nf, i) for i in range(n)) for _ in range(n))
            self.w("any" + "<121,>" * n + "\n")
            return t
        for i in order:
            w = r.choice(["(waitpid k%d_%d)", "(waitpid k%d_%d 0)", "(core:waitpid k%d_%d 0)"]) % (self.nf, i)
            v = "w%d_%d" % (self.nf, i)
            t += "(define %s %s) (display (list (= (car %s) k%d_%d) (cdr %s) (status:exit-val (cdr %s))))\n" % (v, w, v, self.nf, i, v, v)
            self.w("(#t %d %d)" % (codes[i] << 8, codes[i]))
        return t

    def redirect(self):
        """Point the current output and error somewhere else for the next statements."""
        r = self.r
        what = r.choice(["file", "errfile", "err-to-out", "out-to-err", "both", "swap"])
        self.k("redirect " + what)
        so, se = self.o, self.e
        self.nf += 1
        f, g = "f%d" % self.nf, "g%d" % self.nf
        t = "(define %s (current-output-port)) (define %s (current-error-port))\n" % (f, g)
        for x in (f, g):
            if what in ("file", "errfile", "both"):
                self.files[x] = b""
        if what == "file":
            t += "(set-current-output-port (open-output-file \"%s\"))\n" % f
            self.o = f
        elif what == "errfile":
            t += "(set-current-error-port (open-output-file \"%s\"))\n" % g
            self.e = g
        elif what == "both":
            t += "(set-current-output-port (open-output-file \"%s\")) (set-current-error-port (open-output-file \"%s\"))\n" % (f, g)
            self.o, self.e = f, g
        elif what == "err-to-out":
            t += "(set-current-error-port %s)\n" % f
            self.e = so
        elif what == "out-to-err":
            t += "(set-current-output-port %s)\n" % g
            self.o = se
        else:
            t += "(set-current-output-port %s) (set-current-error-port %s)\n" % (g, f)
            self.o, self.e = se, so
        for _ in range(r.randint(1, 3)):
            t += self.statement(0) + "\n"
        t += "(set-current-output-port %s) (set-current-error-port %s)\n" % (f, g)
        self.o, self.e = so, se
        for x in (f, g):
            if x in self.files and r.random() < .5 and self.o in ("so", "se"):
                pass
        return t

    def setenv(self):
        r = self.r
        k = r.random()
        if k < .25:
            name = "PATH"
            ds = [x.encode() for x in ("p1", "p2", "plain", "dirs", "nowhere", "")]
            d = self.dir.encode()
            v = b":".join((d + b"/" + x if x and r.random() < .8 else x) for x in (r.choice(ds) for _ in range(r.randint(1, 5))))
        elif k < .6:
            name = r.choice(["A", "AB", "ABC", "A_B", "B", "X1", "a.b", "with space", "HOME", "\xe9t\xe9"])
            v = self.text()
        elif k < .7:
            name = "L" * r.choice([10, 100, 1023, 1024, 1500, 3000])
            v = self.text(hi=r.choice([10, 2000]))
        else:
            name = "".join(r.choice("abcdefABCDEF_019") for _ in range(r.randint(1, 9)))
            v = self.text()
        self.env[name] = v
        self.k("setenv")
        return "(setenv %s %s)" % (sc(name.encode("latin1")), sc(v))

    def getenv(self):
        r = self.r
        have = sorted(self.env)
        name = r.choice(have) if have and r.random() < .7 else r.choice(["NOPE", "A", "AB", "ABC", "PAT", "PATHX"])
        self.k("getenv")
        v = self.env.get(name)
        self.w("#f\n" if v is None else "e" + hx(v) + "\n")
        return "(let ((v (getenv %s))) (if v (show \"e\" (list v)) (begin (display v) (newline))))" % sc(name.encode("latin1"))

    def statement(self, depth=1):
        r = self.r
        k = r.choices(["system", "fork", "redirect", "setenv", "getenv", "say", "badexec"], [5, 1.5, 1.5 if depth else 0, 3, 1, 1, .4])[0]
        if k == "badexec":
            self.w("-1;")
            self.k("exec that fails")
            return "(display %s) (display \";\")" % r.choice(["(execl \"%s/p1/nope\" '(\"a\"))" % self.dir, "(execlp \"no-such-program\" '(\"a\" \"b\"))", "(execl \"%s/plain/probe\" '())" % self.dir])
        if k == "say":
            t = self.text()
            self.w(t)
            return "(display %s)" % sc(t)
        return dict(system=self.system, fork=self.forks, redirect=self.redirect, setenv=self.setenv, getenv=self.getenv)[k]()

    def ending(self):
        """(text, exit status or "fail")"""
        r = self.r
        k = r.choices(["exit", "bool", "off", "error", "exec", "none", "nested"], [5, 1.5, 3, 3, 2, .7, 1])[0]
        self.k("end " + k)
        if k == "exit":
            n = r.choice([0, 1, 2, 7, 127, 128, 255, r.randint(0, 255), 256, 257, 511])
            return "(exit %d)" % n, n & 255
        if k == "bool":
            b = r.choice("tf")
            return "(exit #%s)" % b, 0 if b == "t" else 1
        if k == "none":
            return "(exit)", 0
        if k == "off":
            return "'done", None
        if k == "nested":
            n = r.randint(0, 255)
            return r.choice(["(catch #t (lambda () (map (lambda (x) (exit x)) '(%d 3))) (lambda _ (exit 99)))",
                             "(dynamic-wind (lambda () #t) (lambda () (exit %d)) (lambda () #t))" if 0 else "(let loop ((i 0)) (if (= i 10) (exit %d) (loop (+ i 1))))",
                             "(exit (call/cc (lambda (k) (+ 1 (k %d)))))"]) % n, n
        if k == "error":
            return r.choice(ERRORS), "fail"
        name = self.dir.encode() + b"/p1/probe"
        args = self.args()
        p = [x for x in self.path().split(b":")]
        call = "(execl %s (list %s))"
        s = self.start(name, args)
        return call % (sc(name), " ".join(map(sc, args))), -s if s & 127 else s >> 8

    def build(self, d, native):
        r = self.r
        self.dir = d
        self.native = native
        # ---- initial environment
        e = {k: v.encode() for k, v in base_env().items()}
        for k in ("GUILE_LOAD_PATH", "GUILE_AUTO_COMPILE", "V"):
            e.pop(k, None)
        e["MES_PREFIX"] = self.tree.encode()
        if not native:
            e["MES_ARENA"] = b"200000"
        for i in range(r.choice([0, 1, 3])):
            e["".join(r.choice("ABCXYZ_") for _ in range(r.randint(1, 6)))] = self.text()
        e["GUILE_LOAD_PATH"] = (self.tree + "/module:" + self.tree + "/mes").encode()
        if r.random() < .3:
            e["GUILE_LOAD_PATH"] = (d + "/m3:").encode() + e["GUILE_LOAD_PATH"]
        if r.random() < .15:
            e.pop("PATH")
        self.env = dict(e)
        self.env0 = dict(e)
        # ---- options
        opts, kind = [], []
        loads, ldirs = [], []
        seen = r.random()
        for _ in range(r.choice([0, 0, 1, 2, 3, 5])):
            k = r.choices(["L", "C", "l", "auto"], [4, 1.5, 2, 2])[0]
            if k == "L":
                x = r.choice(["m1", "m2", "m3", "empty"])
                x = r.choice([d + "/" + x, x])
                ldirs.append(x)
                opts += r.choice([["-L", x], ["--load-path=" + x], ["--load-path", x]])
            elif k == "C":
                opts += r.choice([["-C", d], ["--compiled-path=" + d]])
            elif k == "l":
                n = len(loads)
                loads.append(n)
                open(os.path.join(d, "l%d.scm" % n), "w").write("(display \"(load %d)\")\n(define from-%d %d)\n(define-macro (mac-%d x) (list 'cons %d x))\n" % (n, n, n * 11, n, n))
                opts += ["-l", os.path.join(d, "l%d.scm" % n)]
            else:
                opts.append(r.choice(["--no-auto-compile", "--auto-compile", "--fresh-auto-compile"]))
            self.k("option " + k)
        special = None
        x = r.random()
        if x < .03:
            special = r.choice(["-h", "--help", "-v", "--version"])
            opts.insert(0, special)
        elif x < .06:
            special = r.choice(["--no-such-option", "-z", "-c", "-s", "-L", "missing", "-l"])
        mainopt = None
        if r.random() < .35:
            mainopt = r.choice(["main", "main", "other-main", "(tests x)", "(vkmod)", "(lambda (l) (other-main l))"])
            opts += r.choice([["-e", mainopt], ["--main=" + mainopt]])
            self.k("option e")
        mode = r.choices(["file", "-s", "-c", "stdin", "--", "-"], [4, 4, 4, 1.5, 1.5, 1])[0]
        if special in ("-c", "-s", "-L", "-l"):
            opts.append(special)
            mode = "stdin"
        elif special and special not in ("-h", "--help", "-v", "--version"):
            if special == "missing":
                mode = "missing"
            else:
                opts.insert(r.choice([0, len(opts)]) if not mainopt else 0, special)
        self.k("mode " + mode)
        pargs = [] if mode in ("stdin",) else [self.text() for _ in range(r.choice([0, 1, 2, 3, 8]))]
        # ---- the program
        if ldirs:
            p = self.env.get("GUILE_LOAD_PATH")
            self.env["GUILE_LOAD_PATH"] = ":".join(ldirs).encode() + (b":" + p if p is not None else b"")
        for n in loads:
            self.w("(load %d)" % n)
        t = PRE
        script = os.path.join(d, "script.scm")
        mesarg = {"file": [script], "-s": ["-s", script], "-c": ["-c", None], "stdin": [], "--": ["--"], "-": ["-"], "missing": [d + "/missing.scm"]}[mode]
        line = [script if mode in ("file", "-s") else "-" if mode == "-" else self.exe]
        line = [x.encode() for x in line] + (pargs[1:] if mode in ("file", "-") and pargs[:1] == [b"--"] else pargs)
        t += "(show \"line\" (command-line))\n"
        self.w("line" + "".join(map(hx, line)) + "\n")
        for n in loads:
            t += "(display (list from-%d (mac-%d 5)))\n" % (n, n)
            self.w("(%d (%d . 5))" % (n * 11, n))
        path = [self.tree + "/mes/module", "module"] + (self.env.get("GUILE_LOAD_PATH", b"").decode("latin1").split(":"))
        found = None
        for x in path:
            f = os.path.join(d, x, "vkmod.scm")
            if os.path.exists(f):
                found = open(f).read()
                break
        if found and r.random() < .8:
            t += "(include-from-path \"vkmod.scm\")\n(display vkmod-here)\n"
            self.w(found.split('"')[1])
            self.k("load path searched")
        for _ in range(r.choice([0, 1, 2, 4, 6])):
            t += self.statement() + "\n"
        mend = None
        if mainopt:
            name = "other-main" if "other-main" in mainopt else "main"
            d2, e2 = "", None
            end0 = None
            if r.random() < .15:
                # ends before the entry point is reached
                end0 = self.ending()
                if end0[1] is None:
                    end0 = None
            if end0:
                t += "(define (%s l) (show \"main\" l))\n%s\n" % (name, end0[0])
                self.status = end0[1]
            else:
                t0 = self.ending
                self.w("main" + "".join(map(hx, line)) + "\n")
                te, st = self.ending()
                t += "(define (%s l) (show \"main\" l) %s)\n" % (name, te)
                if name == "other-main":
                    t += "(define (main l) (display \"wrong entry point\"))\n"
                self.status = 0 if st is None else st
        else:
            te, st = self.ending()
            t += te + "\n"
            self.status = 0 if st is None else st
        tb = t.encode("latin1")
        if mode in ("file", "-s"):
            open(script, "wb").write(r.choice([b"", b"#! /bin/sh\nexec mes \"$0\"\n!#\n"]) + tb)
        stdin = tb if mode in ("stdin", "--", "-") else self.text(hi=100)
        if mode == "-c":
            if len(tb) > 90000:
                return False
            mesarg = ["-c", tb]
        self.cmd = [x if isinstance(x, bytes) else x.encode() for x in [self.exe] + opts + mesarg] + pargs
        self.text_ = tb
        if special:
            self.recs, self.acts = [], []
            self.files = None
            if special in ("-h", "--help", "-v", "--version"):
                self.status = 0
                self.special = special
                self.k("help and version")
            else:
                self.status = "fail"
                self.special = "error"
                self.k("wrong options")
        else:
            self.special = None
        open(os.path.join(d, "si"), "wb").write(stdin)
        open(os.path.join(d, "act"), "w").write("".join("%s %d\n" % a for a in self.acts))
        return True

    # ---------------------------------------------------------------- judging
    def judge(self, rc, d):
        read = lambda f: open(os.path.join(d, f), "rb").read() if os.path.exists(os.path.join(d, f)) else b""
        want = self.status
        so, se = read("so"), read("se")
        if want == "fail":
            if rc == 0:
                return "status", "exit status 0 from a program that ends in an error"
        elif rc != want:
            return "status", "exit status %s, expected %s; %r" % (rc, want, se[-300:])
        if self.special == "error":
            if read("rec") or b"line<" in so:
                return "options", "the program was run: %r" % so[:200]
            return None
        if self.special:
            if b"line<" in so or read("rec"):
                return "options", "the program was run"
            if self.special in ("-v", "--version") and not so.startswith(b"mes (GNU Mes) "):
                return "options", "no version: %r" % so[:100]
            if self.special in ("-h", "--help") and not (so.startswith(b"Usage: mes") and b"-s" in so and b"-c" in so):
                return "options", "no help: %r" % so[:100]
            return None
        recs, cur = [], ([], [], {})
        for l in read("rec").decode().splitlines():
            w = l.split(" ")
            if w[0] == "arg":
                cur[0].append(bytes.fromhex(w[1]))
            elif w[0] == "env":
                cur[1].append(bytes.fromhex(w[1]))
            elif w[0] == "fd":
                cur[2][int(w[1])] = w[2]
            else:
                recs.append(cur)
                cur = ([], [], {})
        ino = lambda f: "%d:%d" % (os.stat(os.path.join(d, f)).st_dev, os.stat(os.path.join(d, f)).st_ino)
        for i, (a, e, o, er) in enumerate(self.recs):
            if i >= len(recs):
                return "child-missing", "child %d was not started; stderr %r" % (i, se[-300:])
            g = recs[i]
            if g[0] != a:
                k = next((j for j, (x, y) in enumerate(zip(g[0], a)) if x != y), min(len(a), len(g[0])))
                return "arguments", "child %d: argument %d is %r, expected %r" % (i, k, g[0][k:k + 1], a[k:k + 1])
            we = sorted(k.encode("latin1") + b"=" + v for k, v in e.items())
            if sorted(g[1]) != we:
                return "environment", "child %d: has %r, lacks %r" % (i, [x[:200] for x in g[1] if x not in we][:4], [x[:200] for x in we if x not in g[1]][:4])
            for fd, f in ((0, "si"), (1, o), (2, er)):
                if g[2].get(fd) != ino(f):
                    return "descriptors", "child %d: descriptor %d is not %s" % (i, fd, f)
        if len(recs) > len(self.recs):
            return "child-extra", "%d children were started, expected %d" % (len(recs), len(self.recs))
        for f, v in sorted(self.files.items()):
            x = read(f)
            if f == "se" and want == "fail":
                if not x.startswith(v) or len(x) <= len(v):
                    return "output", "standard error: expected %r... and a message, got %r" % (v[-200:], x[-300:])
                continue
            if x != v:
                k = next((j for j, (p, q) in enumerate(zip(x, v)) if p != q), min(len(x), len(v)))
                return "output", "%s at byte %d: expected %r, got %r; stderr %r" % (f, k, v[max(0, k - 30):k + 200], x[max(0, k - 30):k + 200], se[-200:])
        return None


def start(cmd, env, d, timeout=60):
    """Exit status; None when it does not end."""
    with open(d + "/si", "rb") as i, open(d + "/so", "wb") as o, open(d + "/se", "wb") as e:
        p = subprocess.Popen(cmd, stdin=i, stdout=o, stderr=e, env=env, cwd=d, start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()


def go():
    c = Check("C13")
    t = c.tree()
    exe = build.mes_native(c)
    san = build.mes_hosted(c)
    bind = c.dir("bin")
    probe = os.path.join(bind, "probe")
    r0 = run(["gcc", "-O1", "-o", probe, os.path.join(HERE, "harness", "probe.c")], cwd=bind)
    if r0.rc:
        raise Exception(r0.err.decode())
    rng = c.rng
    jobs = [(i, rng.getrandbits(64)) for i in range(c.n(1500, 40000))]
    kinds = {}

    def one(job):
        import random
        i, seed = job
        r = random.Random(seed)
        d = os.path.join(c.dir("run"), "r%d" % i)
        os.mkdir(d)
        try:
            for x in ("p1", "p2", "plain", "dirs", "m1", "m2", "m3", "empty", "dirs/probe"):
                os.mkdir(os.path.join(d, x))
            for x in ("p1/probe", "p2/probe", "p2/other"):
                os.link(probe, os.path.join(d, x))
            open(os.path.join(d, "plain", "probe"), "w").write("not a program\n")
            os.chmod(os.path.join(d, "plain", "probe"), 0o644)
            for x in ("m1", "m2", "m3"):
                open(os.path.join(d, x, "vkmod.scm"), "w").write('(define vkmod-here "%s")\n' % x)
            native = i % 8 != 7
            k = Case(r, exe if native else san, i)
            k.tree = t
            if not k.build(d, native):
                return
            env = {a: b for a, b in k.env0.items()}
            rc = start(k.cmd, {a.encode("latin1"): b for a, b in env.items()}, d)
            if rc is None:
                c.unsure("time-out")
                return
            if not native:
                se = open(os.path.join(d, "se"), "rb").read()
                s = sch.sanitizer(se)
                if s:
                    c.violation("sanitizer:" + s[0], "%s\n%r\n%s" % (s[1], k.cmd, k.text_[:5000].decode("latin1")), dict(cmd=[y.decode("latin1") for y in k.cmd], program=k.text_.decode("latin1")))
                    return
            j = k.judge(rc, d)
            c.case(hash(k.text_))
            c.count("runs")
            c.count("children", len(k.recs))
            c.count("arguments compared", sum(len(a[0]) for a in k.recs))
            for a, b in k.kinds.items():
                c.count(a, b)
            if j:
                c.violation(j[0], "%s\ncommand %r\nprogram:\n%s" % (j[1], [y[:300] for y in k.cmd], k.text_[:6000].decode("latin1")),
                            dict(cmd=[y.decode("latin1") for y in k.cmd], program=k.text_.decode("latin1"), env={a: b.decode("latin1") for a, b in k.env0.items()}))
            elif i < 40 and k.recs:
                c.sample("%r -> status %s, %d children" % ([y[:60] for y in k.cmd[1:]], rc, len(k.recs)), 4)
        finally:
            shutil.rmtree(d)
    c.pmap(one, jobs)
    c.finish("One case = one run of the interpreter with a generated option vector (script, -s, -c, --, -, standard input; -L, -C, -l, -e, compile options, -h, -v, wrong options), arguments of any bytes, "
             "a program that sets variables, starts children (by path, through PATH, missing, not executable, directories), redirects output and errors, forks and waits, and ends by exit, error, exec or its last form. "
             "Oracle: a model of the documented contract; a probe program records the arguments, environment and descriptors that each child has. Every eighth run on the ASan/UBSan build.",
             min_events={"runs": 1000, "children": 1000, "arguments compared": 3000, "fork": 200, "setenv": 500, "system* among children": 80, "end error": 100, "end exec": 80,
                         "option L": 200, "option e": 200, "option l": 100, "load path searched": 200, "wrong options": 15, "help and version": 10, "redirect swap": 20, "child path": 200})


if __name__ == "__main__":
    main(go)
