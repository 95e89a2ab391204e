import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, re
from vk.core import Check, main
from vk import sch

MOD = 1000003


class T:
    """Mutually recursive procedures p0..pk of (n acc): each adds to acc and calls another one with n - 1, the call being
    wrapped in random tail contexts. The result is known from a model run in Python."""

    def __init__(self, rng):
        self.r = rng

    def ctx(self, call, d):
        """Wrap a tail call in d levels of tail context; conditions are built to choose the wrapped branch."""
        r = self.r
        for _ in range(d):
            k = r.choice(KINDS)
            self.kinds.add(k)
            junk = r.choice(["(car '())", "'no", "(vk-note 1)", "(error 'wrong)"])
            t = r.choice(["#t", "(>= n 0)", "(pair? '(1))", "(not #f)", "'x", "(eq? n n)"])
            f = r.choice(["#f", "(< n 0)", "(not n)", "(null? '(1))"])
            v = "v%d" % r.randint(0, 99)
            call = {
                "if-then": "(if %s %s %s)" % (t, call, junk),
                "if-else": "(if %s %s %s)" % (f, junk, call),
                "if-one": "(if %s %s)" % (t, call),
                "begin": "(begin n %s)" % call,
                "begin-set": "(begin (set! counter (+ counter 1)) %s)" % call,
                "cond": "(cond (%s %s) (%s n %s) (else %s))" % (f, junk, t, call, junk),
                "cond-else": "(cond (%s %s) (else %s))" % (f, junk, call),
                "cond-arrow": "(cond (%s %s) ((list n) => (lambda (%s) %s)) (else %s))" % (f, junk, v, call, junk),
                "case": "(case (if (even? n) 'a 'b) ((c d) %s) ((a b) %s) (else %s))" % (junk, call, junk),
                "case-else": "(case n ((-1 -2) %s) (else %s))" % (junk, call),
                "and": "(and %s n %s)" % (t, call),
                "or": "(or %s %s)" % (f, call),
                "or2": "(or %s %s %s)" % (f, f, call),
                "when": "(when %s n %s)" % (t, call),
                "unless": "(unless %s n %s)" % (f, call),
                "let": "(let ((%s (+ n 1)) (w acc)) %s)" % (v, call),
                "let*": "(let* ((%s (+ n 1)) (w %s)) %s)" % (v, v, call),
                "letrec": "(letrec ((%s (lambda () n)) (w (lambda () 1))) %s)" % (v, call),
                "named-let": "(let %s ((i 0)) (if (< i 2) (%s (+ i 1)) %s))" % (v, v, call),
                "do": "(do ((i 0 (+ i 1))) ((= i 2) %s))" % call,
                "lambda": "((lambda (%s) %s) n)" % (v, call),
                "lambda-rest": "((lambda %s %s) n acc)" % (v, call),
                "thunk": "((lambda () %s))" % call,
                "let-body": "(let () (define %s n) %s)" % (v, call),
                "call-with-values": "(call-with-values (lambda () (values n acc)) (lambda (a %s) %s))" % (v, call),
                "macro": "(vk-when %s %s)" % (t, call),
            }[k]
        return call

    def program(self, n):
        r = self.r
        self.kinds = set()
        k = r.choice([1, 1, 2, 3, 4])
        adds = [r.randint(0, 9) for _ in range(k)]
        nxt = [r.randrange(k) for _ in range(k)]
        out = []
        for i in range(k):
            p = "p%d" % nxt[i]
            a, b = "(- n 1)", "(modulo (+ acc %d) %d)" % (adds[i], MOD)
            how = r.choice(["call", "call", "apply", "apply1", "apply-rest", "k", "expr", "local"])
            self.kinds.add("via " + how)
            call = {"call": "(%s %s %s)" % (p, a, b), "apply": "(apply %s (list %s %s))" % (p, a, b), "apply1": "(apply %s %s (list %s))" % (p, a, b),
                    "apply-rest": "(apply %s %s %s '())" % (p, a, b), "k": "(pass %s %s %s)" % (p, a, b), "expr": "((if (even? n) %s (car (list %s))) %s %s)" % (p, p, a, b),
                    "local": "(let ((go %s)) (go %s %s))" % (p, a, b)}[how]
            body = self.ctx(call, r.randint(0, 4))
            stop = r.choice(["(if (= n 0) acc %s)", "(cond ((= n 0) acc) (else %s))", "(cond ((= n 0) acc) (#t %s))", "(or (and (= n 0) acc) %s)", "(case n ((0) acc) (else %s))"]) % body
            out.append("(define (p%d n acc) %s)" % (i, stop) if r.random() < .8 else "(define p%d (lambda (n acc) %s))" % (i, stop))
        acc, s, m = 1, 0, n
        while m > 0:
            acc = (acc + adds[s]) % MOD
            s = nxt[s]
            m -= 1
        head = "(define counter 0)\n(define (pass f n acc) (f n acc))\n(define-macro (vk-when c . body) `(if ,c (begin ,@body)))\n"
        return head + "\n".join(out) + "\n(display (p0 %d 1))\n(newline)\n" % n, acc


KINDS = ["if-then", "if-else", "if-one", "begin", "begin-set", "cond", "cond-else", "cond-arrow", "case", "case-else", "and", "or", "or2", "when", "unless", "let", "let*",
         "letrec", "named-let", "do", "lambda", "lambda-rest", "thunk", "let-body", "call-with-values", "macro"]

LIMIT = {"MES_ARENA": "300000", "MES_MAX_ARENA": "600000", "MES_STACK": "3000"}


def deep(r):
    """Non-tail recursion of a given depth: a program and its answer when the stack suffices."""
    d = int(10 ** r.uniform(1, 5))
    k = r.choice(["sum", "list", "nested", "two", "map"])
    if k == "sum":
        return "(define (f n) (if (= n 0) 0 (+ 1 (f (- n 1)))))\n(display (f %d))" % d, str(d), d
    if k == "list":
        return "(define (f n) (if (= n 0) '() (cons n (f (- n 1)))))\n(display (length (f %d)))" % d, str(d), d
    if k == "nested":
        return "(define (f n) (cond ((= n 0) 0) (else (let ((x (f (- n 1)))) (+ x 1)))))\n(display (f %d))" % d, str(d), d
    if k == "two":
        return "(define (e n) (if (= n 0) #t (not (o (- n 1)))))\n(define (o n) (if (= n 0) #t (not (e (- n 1)))))\n(display (if (e %d) 1 0))" % d, str(1 - d % 2), d
    return "(define (f n) (if (= n 0) 0 (car (map (lambda (x) (+ x (f (- n 1)))) '(1)))))\n(display (f %d))" % d, str(d), d


def go():
    c = Check("C04")
    m = sch.Mes(c, san=True)
    g = T(c.rng)
    N = c.n(20000, 60000)
    jobs = [("loop",) + g.program(N if i % 4 else N * 4) + (sorted(g.kinds),) for i in range(c.n(500, 8000))]
    jobs += [("deep",) + deep(c.rng) for _ in range(c.n(250, 4000))]

    def one(ij):
        i, j = ij
        if j[0] == "loop":
            _, text, want, kinds = j
            r = m.run(text, env=LIMIT, timeout=300)
            got = r.out.decode("latin1").strip()
            c.case(text)
            c.count("loops")
            for k in kinds:
                c.count("in " + k)
            if got != str(want) or r.rc:
                c.violation("tail:" + ("memory" if b"out of memory" in r.err else "stack" if b"STACK" in r.err else "wrong"),
                            "expected %s, got %r, status %s, %r\n%s" % (want, got[-100:], r.rc, r.err[-200:], text), dict(program=text, env=LIMIT))
            if i < 3:
                c.sample(text)
            return
        _, text, want, d = j
        stack = c_stack[i % len(c_stack)]
        san = i % 5 == 0
        r = m.run(text, san=san, env=dict(MES_STACK=str(stack)), timeout=300)
        got = r.out.decode("latin1").strip()
        c.case((text, stack))
        rep = san and sch.sanitizer(r.err)
        if rep:
            c.violation("sanitizer:" + rep[0], "%s\n stack %d: %s" % (text, stack, rep[1]), dict(program=text, stack=stack))
        elif r.rc == 0:
            c.count("deep finished")
            if got != want:
                c.violation("deep:wrong", "%s\n stack %d: expected %s, got %r" % (text, stack, want, got), dict(program=text, stack=stack))
        else:
            c.count("deep refused")
            if d * 4 < stack // 20 or b"STACK" not in r.err and not (b"wrong" in r.err and 0):
                c.violation("deep:error", "%s\n stack %d: status %s without the report of a full stack: %r" % (text, stack, r.rc, r.err[-300:]), dict(program=text, stack=stack))

    c_stack = [2000, 5000, 20000, 60000, 500000]
    c.pmap(one, enumerate(jobs))
    c.finish("Loops: 1-4 mutually recursive procedures, every call in tail position inside up to four nested tail contexts (%d kinds, calls direct, through apply with one or "
             "more arguments, through a procedure argument, a computed operator), run %d to %d iterations with a 3000-word stack (about 500 frames) and at most 600000 "
             "cells: leaking one frame or twenty cells per iteration fails; the result is computed by a Python model. Deep recursion: depth 10..100000 against stacks of "
             "2000..500000 words must give the right answer or the report of a full stack and a failure status, some on the ASan/UBSan build." % (len(KINDS), N, N * 4),
             min_events=dict({"loops": 300, "deep finished": 40, "deep refused": 40}, **{"in " + k: 3 for k in KINDS}))


if __name__ == "__main__":
    main(go)
