import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import shutil
from vk.core import Check, main
from vk import sch

GUILEPRE = r"""
(fluid-set! %default-port-encoding "ISO-8859-1")
(set-port-encoding! (current-input-port) "ISO-8859-1")
(use-modules (ice-9 rdelim))
(define (with-output-to-port p thunk) (parameterize ((current-output-port p)) (thunk)))
(define (open-string s) (let ((p (open-input-string s))) p))
(set-port-conversion-strategy! (current-output-port) 'error)
;; Guile may collect a port that was left open, and what it has buffered, before it exits.
(define vk-ports '())
(define (vk-keep p) (set! vk-ports (cons p vk-ports)) p)
(define (vk-open f) (vk-keep (open-input-file f)))
(define (vk-create f) (vk-keep (open-output-file f)))
(define (with-output-to-file f thunk)
  (let* ((p (vk-create f)) (r (with-output-to-port p thunk)))
    (close-port p)
    r))
"""
MESPRE = r"""
(define open-string open-input-string)
(define vk-open open-input-file)
(define vk-create open-output-file)
"""


class H:
    """One history: ports p0.. for input, o0.. for output; lines @n value are printed to the first standard output."""

    def __init__(self, r, nfiles):
        self.r = r
        self.ins, self.outs, self.n, self.nf, self.kinds = [], [], 0, nfiles, {}
        self.out = []

    def char(self):
        r = self.r
        return "(integer->char %d)" % r.choice([r.randint(33, 126), r.randint(0, 255), 10, 32, 0, 255, 128])

    def text(self):
        r = self.r
        n = r.choice([0, 1, 3, 8, 20])
        return '(list->string (map integer->char \'(%s)))' % " ".join(str(r.choice([r.randint(33, 126), r.randint(33, 126), 10, 32, r.randint(0, 255)])) for _ in range(n))

    def datum(self):
        r = self.r
        return r.choice(["12", "-7", "'foo", "'(a (b \"c\") #\\d . e)", '"str\\n\\"q\\""', "#\\a", "'()", "#t", "(vector 1 '(2) \"x\")", "'(quote z)", "(list \"p\" 'q)"])

    def inp(self):
        """An input port expression, "" for the current one."""
        if self.ins and self.r.random() < .75:
            return " " + self.r.choice(self.ins)
        return ""

    def outp(self):
        if self.outs and self.r.random() < .6:
            return " " + self.r.choice(self.outs)
        return ""

    def rd(self):
        """An expression that reads."""
        r = self.r
        p = self.inp()
        k = r.choices(["read-char", "peek-char", "unread", "unread-other", "read-line", "concat", "peek2", "read", "rest", "chars", "eof"], [6, 4, 3, 2, 4, 2, 2, 2, .6, 2, 1])[0]
        self.kinds[k] = self.kinds.get(k, 0) + 1
        if k in ("read-char", "peek-char"):
            return "(%s%s)" % (k, p)
        if k == "unread":
            return "(let ((c (read-char%s))) (if (eof-object? c) 'end (begin (unread-char c%s) (let ((d (read-char%s))) (list c d)))))" % (p, p, p)
        if k == "unread-other":
            return "(let ((c (read-char%s))) (if (eof-object? c) 'end (begin (unread-char %s%s) (let* ((d (peek-char%s)) (e (read-char%s)) (f (peek-char%s))) (list c d e f)))))" % (p, self.char(), p, p, p, p)
        if k == "read-line":
            return "(read-line%s)" % p
        if k == "concat":
            return "(read-line%s 'concat)" % (p or " (current-input-port)")
        if k == "peek2":
            return "(let* ((a (peek-char%s)) (b (peek-char%s)) (c (read-char%s))) (list (eq? a b) (eq? b c)))" % (p, p, p)
        if k == "rest":
            return "(let ((s (read-string%s))) (list (if (eof-object? s) \"\" s) (eof-object? (read-char%s))))" % (p, p)
        if k == "chars":
            return "(let loop ((i 0) (l '())) (if (= i %d) l (let ((c (read-char%s))) (loop (+ i 1) (cons c l)))))" % (r.randint(1, 12), p)
        if k == "eof":
            return "(let* ((a (eof-object? (peek-char%s))) (b (eof-object? (peek-char%s)))) (eq? a b))" % (p, p)
        return "(peek-char%s)" % p

    def wr(self):
        r = self.r
        p = self.outp()
        k = r.choice(["display", "write", "newline", "write-char", "display-text", "format"])
        self.kinds[k] = self.kinds.get(k, 0) + 1
        if k == "newline":
            return "(newline%s)" % p
        if k == "write-char":
            return "(write-char %s%s)" % (self.char(), p)
        if k == "display-text":
            return "(display %s%s)" % (self.text(), p)
        if k == "format" and p:
            return "(simple-format%s \"~a-~s~%%\" %s %s)" % (p, self.datum(), self.datum())
        return "(%s %s%s)" % ("write" if k == "write" else "display", self.datum(), p)

    def block(self, d):
        return " ".join(self.action(d) for _ in range(self.r.randint(1, 3)))

    def action(self, d):
        """An expression, for effect."""
        r = self.r
        k = r.random()
        if d <= 0 or k < .35:
            return "(vk-note %s)" % self.rd()
        if k < .62:
            return self.wr()
        kind = r.choice(["in-file", "in-string", "out-file", "out-string", "out-port", "throw-out", "throw-in", "set-in", "set-out", "escape", "out-string-nested", "orig"])
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        b = lambda: self.block(d - 1)
        if kind == "in-file":
            return "(vk-note (with-input-from-file \"in%d\" (lambda () %s %s)))" % (r.randrange(self.nf), b(), self.rd())
        if kind == "in-string":
            return "(vk-note (with-input-from-string %s (lambda () %s %s)))" % (self.text(), b(), self.rd())
        if kind == "out-file":
            self.n += 1
            return "(with-output-to-file \"w%d\" (lambda () %s))" % (self.n, b())
        if kind == "out-string":
            return "(vk-note (with-output-to-string (lambda () %s)))" % b()
        if kind == "out-string-nested":
            return "(vk-note (with-output-to-string (lambda () %s (display (with-output-to-string (lambda () %s))) %s)))" % (b(), b(), self.wr())
        if kind == "out-port" and self.outs:
            return "(with-output-to-port %s (lambda () %s))" % (r.choice(self.outs), b())
        if kind == "throw-out":
            self.n += 1
            return "(catch 'away (lambda () (%s (lambda () %s (throw 'away) (display \"never\")))) (lambda args (vk-note 'caught) %s))" % (
                r.choice(["with-output-to-string", "with-output-to-file \"w%d\"" % self.n] + (["with-output-to-port " + self.outs[0]] if self.outs else [])), b(), self.wr())
        if kind == "throw-in":
            return "(catch 'away (lambda () (%s (lambda () %s (throw 'away)))) (lambda args (vk-note %s)))" % (
                r.choice(["with-input-from-file \"in%d\"" % r.randrange(self.nf), "with-input-from-string %s" % self.text()]), b(), self.rd())
        if kind == "escape":
            return "(vk-note (call/cc (lambda (k) (%s (lambda () %s (k 'out)))))) %s" % (
                r.choice(["with-output-to-string", "with-input-from-file \"in%d\"" % r.randrange(self.nf), "with-input-from-string %s" % self.text()]), b(), self.wr())
        if kind == "set-in" and self.ins:
            v = "s%d" % d
            return "(let ((%s (current-input-port))) (set-current-input-port %s) %s (set-current-input-port %s))" % (v, r.choice(self.ins), b(), v)
        if kind == "set-out" and self.outs:
            v = "s%d" % d
            return "(let ((%s (current-output-port))) (set-current-output-port %s) %s (set-current-output-port %s))" % (v, r.choice(self.outs), b(), v)
        if kind == "orig":
            return "(let ((o%d (current-output-port))) (vk-note (with-output-to-string (lambda () (display \"in\") (display \"out|\" o%d) %s))))" % (d, d, b())
        return "(vk-note %s)" % self.rd()

    def program(self):
        r = self.r
        t = []
        for i in range(r.randint(1, 4)):
            t.append("(define p%d %s)" % (i, "(vk-open \"in%d\")" % r.randrange(self.nf) if r.random() < .6 else "(open-string %s)" % self.text()))
            self.ins.append("p%d" % i)
        for i in range(r.randint(0, 3)):
            t.append("(define o%d (vk-create \"out%d\"))" % (i + 10, i))
            self.outs.append("o%d" % (i + 10))
        for i in range(r.randint(4, 14)):
            t.append("(vk %d (lambda () %s 'ok))" % (i, self.action(3)))
        # all that is left of every port
        for p in self.ins:
            t.append("(vk 90 (lambda () (let loop ((l '())) (let ((c (read-char %s))) (if (eof-object? c) l (loop (cons c l)))))))" % p)
        t.append("(vk 91 (lambda () (let loop ((l '())) (let ((c (read-char))) (if (eof-object? c) l (loop (cons c l)))))))")
        t += ["(force-output %s)" % o for o in self.outs]
        t.append('(display "end") (newline)')
        return "\n".join(t) + "\n"


def content(r):
    k = r.random()
    n = r.choice([0, 1, 2, 10, 60, 200])
    if k < .4:
        return bytes(r.choice(b"abc def\n\n123()\"x") for _ in range(n))
    if k < .6:
        return bytes(r.choice([0, 255, 10, 13, 128, 26, 4, 65]) for _ in range(n))
    if k < .7:
        return b"one line without end"
    if k < .8:
        return b"\n" * n
    return bytes(r.randrange(256) for _ in range(n))


DATA = ["(a b . c)", "12", "-5", "foo", '"a\\"b\\n"', "#\\x", "#(1 2)", "'q", "(1 (2 (3)))", "#t", "()", "; comment\n7", "`(a ,b)"]


def go():
    c = Check("C12")
    m = sch.Mes(c, san=True)
    r = c.rng

    def listing(d):
        return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if not f.endswith(".scm")}

    def compare(i, key, text, files, stdin, guilepre=GUILEPRE):
        dirs = []
        for w in "gm":
            d = os.path.join(c.dir("run"), "%s%d%s" % (key, i, w))
            os.makedirs(d)
            for f, b in files.items():
                open(os.path.join(d, f), "wb").write(b)
            dirs.append(d)
        try:
            g = sch.guile(c, sch.GUILE + guilepre + sch.COMMON + text, cwd=dirs[0], input=stdin)
            if g.timeout or g.rc:
                c.count("dropped")
                if os.environ.get("VK_DROP"):
                    print("DROP", g.err.decode("latin1")[-300:])
                return
            use_san = i % 8 == 0
            x = m.run(sch.MES + MESPRE + sch.COMMON + text, san=use_san, cwd=dirs[1], input=stdin, timeout=90)
            a, b = listing(dirs[0]), listing(dirs[1])
            c.case((key, i))
            c.count("of " + key)
            c.count("lines compared", g.out.count(b"\n"))
            c.count("files compared", len(a))
            rep = use_san and sch.sanitizer(x.err)
            if rep:
                c.violation("sanitizer:" + rep[0], rep[1] + "\n" + text, dict(program=text, files={k: list(v) for k, v in files.items()}, stdin=list(stdin)))
            elif x.rc or x.timeout or x.out != g.out or a != b:
                p, q = g.out.split(b"\n"), x.out.split(b"\n")
                n = next((k for k, (s, t) in enumerate(zip(p, q)) if s != t), min(len(p), len(q)))
                if x.out == g.out and a != b:
                    f = next(k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))
                    how = "file %s: expected %r, got %r" % (f, a.get(f), b.get(f))
                else:
                    how = "output line %d: expected %r, got %r" % (n + 1, b"\n".join(p[n:n + 1])[:600], b"\n".join(q[n:n + 1])[:600])
                c.violation(key, "%s\n (status %s %s) %r\n%s" % (how, x.rc, x.timeout, x.err[-200:], text), dict(program=text, files={k: list(v) for k, v in files.items()}, stdin=list(stdin)))
        finally:
            for d in dirs:
                shutil.rmtree(d)
    kinds = {}
    jobs = []
    for i in range(c.n(600, 12000)):
        nf = r.randint(1, 3)
        h = H(r, nf)
        t = h.program()
        for k, n in h.kinds.items():
            kinds[k] = kinds.get(k, 0) + n
        jobs.append(("history", t, {"in%d" % j: content(r) for j in range(nf)}, content(r)))
    for i in range(c.n(80, 1500)):
        # reading data from several ports in turn
        files = {"in%d" % j: r.choice([" ", "\n"]).join(r.choice(DATA) for _ in range(r.randint(0, 6))).encode() for j in range(3)}
        t = "".join("(define p%d (vk-open \"in%d\"))\n" % (j, j) for j in range(3)) + '(define p3 (open-string "%s"))\n' % " ".join(r.choice(DATA[:4]) for _ in range(3))
        t += "".join("(vk %d (lambda () (read%s)))\n" % (j, r.choice([" p0", " p1", " p2", " p3", ""])) for j in range(14))
        jobs.append(("read", t, files, " ".join(r.choice(DATA) for _ in range(4)).encode()))
    for i in range(c.n(20, 200)):
        # long lines and large files, through every way to read and write
        n = r.choice([1000, 5000, 20000])
        big = bytes(r.randrange(256) for _ in range(n)) if r.random() < .3 else b"x" * n + b"\n" + bytes(r.choice(b"abcdefghij klmnop\n") for _ in range(n))
        t = ("(define p (vk-open \"in0\"))\n(define o (vk-create \"out\"))\n(define (copy) (let ((c (read-char p))) (if (not (eof-object? c)) (begin (write-char c o) (copy)))))\n"
             "(define q (vk-open \"in0\"))\n(define (lines n t) (let ((l (read-line q))) (if (eof-object? l) (list n t) (lines (+ n 1) (modulo (+ (* 31 t) (string-length l)) 10007)))))\n"
             "(vk 0 (lambda () (copy) (force-output o) (lines 0 0)))\n(vk 1 (lambda () (let ((s (read-string (vk-open \"in0\")))) (with-output-to-file \"out2\" (lambda () (display s))) (string-length s))))\n"
             "(vk 2 (lambda () (let ((s (with-output-to-string (lambda () (let loop ((i 0)) (if (< i 2000) (begin (display i) (loop (+ i 1))))))))) (string-length s))))\n")
        jobs.append(("bulk", t, {"in0": big}, b""))
    # many open files
    t = "(define (o i l) (if (= i 600) l (o (+ i 1) (cons (vk-open \"in0\") l))))\n(define ps (o 0 '()))\n(vk 0 (lambda () (map (lambda (p) (let* ((a (peek-char p)) (b (read-char p)) (d (read-line p))) (list a b d))) ps)))\n"
    jobs.append(("many", t, {"in0": b"hello\nworld"}, b""))
    for k, n in kinds.items():
        c.count("operations " + k, n)
    c.pmap(lambda it: compare(it[0], *it[1]), enumerate(jobs))
    c.finish("Random histories of reads, peeks, push-backs, lines and data from files (every byte value), string ports and standard input in turn; writes to files, standard output and strings; "
             "redirections nested three deep that end normally, by throw or by an escape; large files and long lines. Oracle: Guile (latin-1 ports) running the same program on the same files: "
             "same values, same standard output, same contents of every file. Every eighth history also on the ASan/UBSan build.",
             min_events=dict({"of history": 400, "of read": 50, "of bulk": 10, "of many": 1, "files compared": 800},
                             **{"operations " + k: 100 for k in ("read-char", "peek-char", "unread", "read-line", "out-string", "in-string", "in-file", "out-file", "throw-out", "throw-in", "escape")}))


if __name__ == "__main__":
    main(go)
