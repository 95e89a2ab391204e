"""Scheme programs run by Mes and, as the reference, by Guile or a Python model."""
import os, re
from .core import HarnessError, base_env, run
from . import build

# Values are written in one canonical notation that uses neither write nor the
# printer under test: numbers in decimal, strings and symbols by their characters.
COMMON = r"""
(define (vk-str s)
  (for-each (lambda (c)
              (let ((n (char->integer c)))
                (if (or (< n 33) (> n 126) (eq? c #\\)) (begin (display "\\") (display (number->string n)) (display ";"))
                    (display (list->string (list c))))))
            (string->list s)))
(define (vk-put x)
  (cond ((null? x) (display "()"))
        ((eq? x #t) (display "#t"))
        ((eq? x #f) (display "#f"))
        ((pair? x) (vk-list x))
        ((string? x) (display "\"") (vk-str x) (display "\""))
        ((char? x) (display "#\\") (display (number->string (char->integer x))))
        ((number? x) (display (number->string x)))
        ((symbol? x) (vk-str (symbol->string x)))
        ((vector? x) (display "#") (vk-put (vector->list x)))
        ((keyword? x) (display "#:") (vk-str (symbol->string (keyword->symbol x))))
        ((procedure? x) (display "#<procedure>"))
        ((eof-object? x) (display "#<eof>"))
        ((eq? x (if #f #f)) (display "#<unspecified>"))
        (else (display "#<other>"))))
(define (vk-list x)
  (display "(")
  (let vk-loop ((x x) (first #t))
    (cond ((pair? x)
           (if (not first) (display " "))
           (vk-put (car x))
           (vk-loop (cdr x) #f))
          ((null? x) #t)
          (else (display " . ") (vk-put x))))
  (display ")"))
(define vk-trace '())
(define (vk-note x) (set! vk-trace (cons x vk-trace)) x)
(define (vk n thunk)
  (set! vk-trace '())
  (let ((r (thunk)))
    (display "@") (display (number->string n)) (display " ") (vk-put r)
    (if (pair? vk-trace) (begin (display " trace ") (vk-put vk-trace)))
    (newline)))
"""

GUILE = r"""
(use-modules (srfi srfi-1) (srfi srfi-8) (srfi srfi-9) (srfi srfi-13) (srfi srfi-14) (srfi srfi-26) (ice-9 match) (ice-9 rdelim) (system base pmatch))
(set-port-encoding! (current-output-port) "ISO-8859-1")
"""

MES = r"""
(mes-use-module (mes guile))
(mes-use-module (srfi srfi-14))
(mes-use-module (srfi srfi-26))
(mes-use-module (srfi srfi-8))
"""


class Mes:
    def __init__(self, c, san=False, native=True, extra=()):
        self.c = c
        self.t = c.tree()
        self.exe = build.mes_native(c) if native else None
        self.san = build.mes_hosted(c) if san else None
        self.nseq = 0

    def env(self, san=False, **kw):
        e = base_env()
        e["MES_PREFIX"] = self.t
        e["GUILE_LOAD_PATH"] = self.t + "/module:" + self.t + "/mes"
        if san:
            e["MES_ARENA"] = "200000"
        e.update(kw)
        return e

    def run(self, text, san=False, args=(), timeout=60, env=None, name=None, cwd=None, input=None, mem_mb=None, exe=None, **kw):
        """Run one program from a file."""
        with self.c.lock:
            self.nseq += 1
            n = self.nseq
        d = self.c.dir("scm")
        f = os.path.join(d, name or "p%d.scm" % n)
        with open(f, "wb") as g:
            g.write(text if isinstance(text, bytes) else text.encode("latin1"))
        r = run([exe or (self.san if san else self.exe), f] + list(args), env=self.env(san, **(env or {})), timeout=timeout,
                cwd=cwd or d, input=input, mem_mb=mem_mb, **kw)
        os.unlink(f)
        return r


def guile(c, text, timeout=120, cwd=None, input=None, args=()):
    d = c.dir("guile")
    import threading
    f = os.path.join(d, "g%d-%d.scm" % (threading.get_ident(), id(text)))
    with open(f, "wb") as g:
        g.write(text if isinstance(text, bytes) else text.encode("latin1"))
    e = base_env()
    e["LANG"] = e["LC_ALL"] = "C"
    r = run(["guile", "--no-auto-compile", "-s", f] + list(args), env=e, timeout=timeout, cwd=cwd or d, input=input)
    os.unlink(f)
    return r


def sanitizer(err):
    """(site, message) of the first sanitizer report, or None."""
    e = err.decode("latin1")
    m = re.search(r"([\w./-]+:\d+)(?::\d+)?: (runtime error: .*)", e) or re.search(r"(ERROR): (AddressSanitizer:? ?.*)", e)
    if not m:
        return None
    f = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) (\S*/src/\S+|\S*/lib/\S+)", e)
    if f and f[0][0] in ("abort_", "assert_msg_", "raise", "__raise", "__assert_fail"):     # the deliberate end of a failed program
        return None
    return (f[0][0] if f else m.group(1)), (os.path.basename(m.group(1)) + " " + m.group(2))[:200] + (" in " + ", ".join(x[0] for x in f[:4]) if f else "")


def lines(out):
    d = {}
    for l in out.decode("latin1").split("\n"):
        m = re.match(r"@(\d+) (.*)$", l)
        if m:
            d[int(m.group(1))] = m.group(2)
    return d


class Case:
    """One observed expression: key names what is exercised, expect (text) replaces the Guile reference."""
    __slots__ = ("key", "expr", "expect", "sig")

    def __init__(self, key, expr, expect=None, sig=None):
        self.key, self.expr, self.expect, self.sig = key, expr, expect, sig


def judge(c, mes, cases, pre="", mespre="", guilepre="", batch=60, san=0, timeout=60, mesenv=None):
    """Run the cases on Mes (san: every n-th batch also on the ASan build) and compare each value.
    A case the reference rejects is dropped."""
    batches = [cases[i:i + batch] for i in range(0, len(cases), batch)]

    def program(bs, head):
        return head + COMMON + pre + "".join("(vk %d (lambda () %s))\n" % (n, k.expr) for n, k in bs)

    def on_mes(bs, use_san, want):
        """number -> printed value, or None where the interpreter failed."""
        got, todo = {}, list(bs)
        while todo:
            r = mes.run(program(todo, MES + mespre), san=use_san, timeout=timeout, env=mesenv)
            d = lines(r.out)
            got.update(d)
            left = [x for x in todo if x[0] not in d]
            if not left:
                if r.rc:
                    c.violation("exit", "all values printed but exit status %s: %r" % (r.rc, r.err[-200:]), dict(program=program(todo, MES + mespre)))
                break
            n, k = left[0]
            how = "does not finish" if r.timeout else "ends with status %s: %s" % (r.rc, (r.err[-300:] or r.out[-100:]).decode("latin1"))
            if r.timeout:   # alone, with more time, before it counts
                r2 = mes.run(program([(n, k)], MES + mespre), san=use_san, timeout=timeout * 2, env=mesenv)
                d2 = lines(r2.out)
                if n in d2:
                    got.update(d2)
                    todo = [x for x in left if x[0] != n]
                    continue
            got[n] = None
            rep = use_san and sanitizer(r.err)
            if rep:
                how = "reports: " + rep[1]
            if n in want:
                c.violation("sanitizer:" + rep[0] if rep else "%s:fails" % k.key,
                            "%s\n  expected %s, but the interpreter%s %s" % (k.expr, want[n], " (ASan build)" if use_san else "", how),
                            dict(expr=k.expr, expected=want[n], pre=pre, san=bool(use_san), err=r.err[-3000:].decode("latin1")))
            todo = left[1:]
        return got

    def one(ib):
        i, b = ib
        bs = list(enumerate(b))
        want = {n: k.expect for n, k in bs if k.expect is not None}
        ask = [(n, k) for n, k in bs if k.expect is None]
        while ask:
            r = guile(c, program(ask, GUILE + guilepre))
            d = lines(r.out)
            want.update({n: v for n, v in d.items()})
            left = [x for x in ask if x[0] not in d]
            if not left:
                break
            if r.timeout:
                c.unsure("guile timed out")
            c.count("dropped")
            if os.environ.get("VK_DROP"):
                print("DROP", left[0][1].key, left[0][1].expr, r.err.decode("latin1")[-300:])
            ask = left[1:]
        live = [(n, k) for n, k in bs if n in want]
        for use_san in ([False] if mes.exe else []) + ([True] if mes.san and san and i % san == 0 else []):
            got = on_mes(live, use_san, want)
            for n, k in live:
                if got.get(n) is None:
                    c.case()
                    continue
                c.count("compared")
                c.count("of " + k.key)
                c.case(k.sig or k.expr)
                if got[n] != want[n]:
                    c.violation("%s" % k.key, "%s\n  expected %s\n  got      %s" % (k.expr, want[n][:1500], got[n][:1500]),
                                dict(expr=k.expr, expected=want[n], got=got[n], pre=pre))
        if i < 4 and b:
            c.sample("%s => %s" % (b[0].expr[:200], want.get(0, "?")[:200]))
    c.pmap(one, enumerate(batches))


def judge_programs(c, mes, progs, san=0, timeout=60, mesenv=None, mespre="", guilepre="", norm=lambda l: l):
    """progs: (key, text) of whole programs that print lines @n value; Mes must print what Guile prints,
    after norm maps each line."""
    def one(ip):
        i, (key, text) = ip
        g = guile(c, GUILE + guilepre + COMMON + text)
        if g.timeout or g.rc:
            c.count("dropped")
            if os.environ.get("VK_DROP"):
                print("DROP", key, g.err.decode("latin1")[-400:], "\n", text if os.environ["VK_DROP"] == "2" else "")
            return
        want = [norm(l) for l in g.out.decode("latin1").split("\n") if l]
        for use_san in ([False] if mes.exe else []) + ([True] if mes.san and san and i % san == 0 else []):
            r = mes.run(MES + mespre + COMMON + text, san=use_san, timeout=timeout, env=mesenv)
            if r.timeout:
                r = mes.run(MES + mespre + COMMON + text, san=use_san, timeout=timeout * 4, env=mesenv)
            got = [norm(l) for l in r.out.decode("latin1").split("\n") if l]
            c.count("compared", len(want))
            c.count("of " + key)
            c.case(text, n=max(1, len(want)))
            if r.rc == 0 and got == want:
                continue
            rep = use_san and sanitizer(r.err)
            n = next((k for k, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
            how = "reports " + rep[1] if rep else "does not finish" if r.timeout else "exit status %s, %s" % (r.rc, r.err[-300:].decode("latin1"))
            c.violation("sanitizer:" + rep[0] if rep else key, "line %d\n expected %s\n got      %s\n (%s)\n%s" % (
                n + 1, want[n][:600] if n < len(want) else "(end)", got[n][:600] if n < len(got) else "(end)", how, text),
                dict(program=MES + mespre + COMMON + text, expected=want, got=got))
        if i < 4:
            c.sample(text[:400] + " => " + " | ".join(want)[:200])
    c.pmap(one, enumerate(progs))
