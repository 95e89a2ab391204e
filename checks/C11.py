import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import re
from vk.core import Check, main
from vk import sch

KEYS = ["a", "b", "c", "misc"]
PRE = """
(define (vk-known k) (if (memq k '(a b c misc)) k 'builtin))
(define vk-count 0)
(define vk-fluid-1 (make-fluid 0))
(define vk-fluid-2 (make-fluid 1))
(define vk-saved #f)
(define vk-left 0)
(define (vk-again) (if (> vk-left 0) (begin (set! vk-left (- vk-left 1)) (vk-saved vk-left)) 'over))
"""


class X:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.kinds = set()

    def tag(self):
        self.n += 1
        return self.n

    def num(self):
        return str(self.r.randint(0, 99))

    def kind(self, d, ks, vals):
        r = self.r
        w = [("num", 2), ("note", 3), ("fluid", 1)]
        if d > 0:
            w += [("sum", 3), ("seq", 3), ("catch", 6), ("throw", 3), ("builtin", 1), ("error", 1), ("callcc", 4), ("wind", 3), ("let", 2), ("cwv", 3), ("loop", 2), ("each", 2), ("map", 1),
                  ("if", 1), ("withfluid", 2), ("handler-throw", 2), ("proc", 2), ("generator", 1), ("catch-thunk", 1), ("rethrow", 1)]
        if ks:
            w += [("escape", 6), ("escape-deep", 2)]
        x = r.choices([k for k, _ in w], [n for _, n in w])[0]
        self.kinds.add(x)
        return x

    def e(self, d, ks=(), vars=()):
        """An expression of one value; ks: continuations of one value in scope."""
        r, E = self.r, lambda k=ks, v=vars: self.e(d - 1, k, v)
        k = self.kind(d, ks, 1)
        t = self.tag()
        if k == "num":
            return r.choice(list(vars) + [self.num()])
        if k == "note":
            return "(begin (vk-note '(n %d)) %s)" % (t, self.num())
        if k == "fluid":
            f = r.choice("12")
            return r.choice(["(fluid-ref vk-fluid-%s)" % f, "(begin (fluid-set! vk-fluid-%s %s) (vk-note (fluid-ref vk-fluid-%s)))" % (f, self.num(), f)])
        if k == "sum":
            return "(let* ((p%d %s) (q%d %s)) (vk-note (list 'sum %d p%d q%d)) (if (and (number? p%d) (number? q%d)) (+ p%d q%d) 0))" % (t, E(), t, E(), t, t, t, t, t, t, t)
        if k == "seq":
            return "(begin %s (vk-note %d) %s)" % (E(), t, E())
        if k in ("catch", "catch-thunk"):
            key = r.choice(["#t", "#t"] + ["'" + x for x in KEYS])
            body = E() if k == "catch" else "((lambda () %s))" % E()
            if r.random() < .5:
                h = "(lambda (key . args) (vk-note (list 'caught %d (vk-known key) (if (eq? (vk-known key) 'builtin) '() args))) %s)" % (t, E())
            else:
                h = "(lambda args (vk-note (list 'h %d (length (if (eq? (vk-known (car args)) 'builtin) '() args)))) %s)" % (t, E())
            return "(catch %s (lambda () %s) %s)" % (key, body, h)
        if k == "handler-throw":
            return "(catch '%s (lambda () (throw '%s %d %s)) (lambda (key . args) (vk-note (list 'again key args)) (throw '%s args)))" % ((r.choice(KEYS),) * 2 + (t, self.num(), r.choice(KEYS)))
        if k == "rethrow":
            return "(catch #t (lambda () %s) (lambda (key . args) (vk-note (list 're %d (vk-known key))) (apply throw (cons (vk-known key) (if (eq? (vk-known key) 'builtin) '() args)))))" % (E(), t)
        if k == "throw":
            return "(throw '%s%s)" % (r.choice(KEYS), "".join(" " + r.choice([self.num(), "'(1 %d)" % t, "\"s\"", "'z"]) for _ in range(r.randint(0, 3))) if r.random() < .7 else " %d (begin (vk-note 'arg) %s)" % (t, E()))
        if k == "builtin":
            return r.choice(["(car %s)" % self.num(), "(vector-ref (vector 1 2) 2)", "(cdr '())", "(vk-unbound-variable)", "((lambda (x) x))", "(%s 1)" % self.num(), "(vector-length 'a)"])
        if k == "error":
            return "(error \"message\" %d)" % t
        if k == "callcc":
            c = "k%d" % t
            return "(%s (lambda (%s) %s))" % (r.choice(["call/cc", "call-with-current-continuation"]), c, E(tuple(ks) + (c,)))
        if k == "escape":
            return "(%s %s)" % (r.choice(ks), E())
        if k == "escape-deep":
            return "(let deep ((i %d)) (if (= i 0) (%s %s) (+ 1 (deep (- i 1)))))" % (r.choice([1, 3, 50]), r.choice(ks), self.num())
        if k == "wind":
            return "(dynamic-wind (lambda () (vk-note '(in %d))) (lambda () %s) (lambda () (vk-note '(out %d))))" % (t, E(), t)
        if k == "let":
            return "(let ((v%d %s)) (vk-note (list 'let v%d)) %s)" % (t, E(), t, E(ks, tuple(vars) + ("v%d" % t,)))
        if k == "cwv":
            n = r.choice([0, 1, 2, 2, 3, 6])
            f = r.choice(["list", "(lambda all (vk-note (list 'vals %d all)) (length all))" % t, "(lambda (%s) (vk-note (list 'vals %s)) %s)" % (" ".join("w%d%d" % (t, i) for i in range(n)), " ".join("w%d%d" % (t, i) for i in range(n)), E()),
                          "(lambda (%s . more) (vk-note more) (length more))" % " ".join("w%d%d" % (t, i) for i in range(max(1, n - 1)))])
            if n == 0 and "more" in f:
                f = "list"
            return "(call-with-values (lambda () %s) %s)" % (self.vals(d - 1, ks, vars, n), f)
        if k == "loop":
            return "(let loop%d ((i 0) (acc '())) (if (< i %d) (loop%d (+ i 1) (cons %s acc)) (length acc)))" % (t, r.choice([1, 2, 3]), t, E(ks, tuple(vars) + ("i",)))
        if k == "each":
            return "(begin (for-each (lambda (x%d) (vk-note (list 'each x%d)) %s) '(1 2 3)) %d)" % (t, t, E(ks, tuple(vars) + ("x%d" % t,)), t)
        if k == "map":
            return "(length (map (lambda (x%d) %s) '(1 2)))" % (t, E(ks, tuple(vars) + ("x%d" % t,)))
        if k == "if":
            return "(if (let ((c %s)) (and (number? c) (even? c))) %s %s)" % (E(), E(), E())
        if k == "withfluid":
            f = r.choice("12")
            return r.choice(["(with-fluid* vk-fluid-%s %s (lambda () (vk-note (fluid-ref vk-fluid-%s)) %s))", "(with-fluids ((vk-fluid-%s %s)) (vk-note (fluid-ref vk-fluid-%s)) %s)"]) % (f, self.num(), f, E())
        if k == "proc":
            return "(let () (define (p%d k) %s) (p%d %s))" % (t, E(tuple(ks)), t, r.choice(ks) if ks else "car")
        if k == "generator":
            return GENERATOR % (r.choice(["(list 1 2 3)", "(list 'x)", "'()", "(list %s 5)" % self.num()]), "(vk-note (list 'gen x))", r.choice([1, 2, 4]))
        raise AssertionError(k)

    def vals(self, d, ks, vars, n):
        """An expression of n values."""
        r = self.r
        args = " ".join(r.choice([self.num(), "'s", "(list 1)"] + list(vars)) for _ in range(n))
        k = r.choice(["values", "values", "values", "apply", "callcc", "escape", "catch", "handler", "wind", "let", "if"])
        if d <= 0:
            k = "values"
        if k == "values":
            return "(values %s)" % args
        if k == "apply":
            return "(apply values (list %s))" % args
        if k == "callcc":
            return "(call/cc (lambda (m) %s (values %s)))" % (self.e(d - 1, ks, vars), args)
        if k == "escape":
            return "(call/cc (lambda (m) (+ 1 (begin %s (m %s)))))" % (self.e(d - 1, ks, vars), args)
        if k == "catch":
            return "(catch #t (lambda () %s) (lambda args (values %s)))" % (self.vals(d - 1, ks, vars, n), args)
        if k == "handler":
            return "(catch #t (lambda () (throw 'a)) (lambda args %s))" % self.vals(d - 1, ks, vars, n)
        if k == "wind":
            return "(dynamic-wind (lambda () (vk-note 'i)) (lambda () %s) (lambda () (vk-note 'o)))" % self.vals(d - 1, ks, vars, n)
        if k == "let":
            return "(let ((u %s)) %s)" % (self.e(d - 1, ks, vars), self.vals(d - 1, ks, vars, n))
        return "(if (= 1 %d) %s %s)" % (r.randint(0, 1), self.vals(d - 1, ks, vars, n), self.vals(d - 1, ks, vars, n))


GENERATOR = """(let ((l %s))
  (define return #f)
  (define (next)
    (call/cc (lambda (r)
               (set! return r)
               (for-each (lambda (x) (call/cc (lambda (resume) (set! next (lambda () (resume #f))) (return x)))) l)
               (set! next (lambda () (return 'done)))
               (return 'done))))
  (define (get) (call/cc (lambda (r) (set! return r) (next))))
  (let loop ((i 0)) (let ((x (get))) %s (if (< i %d) (loop (+ i 1)) 'end))))"""


def nested(g):
    """Expressions, each made safe by an outer catch."""
    return "(catch #t (lambda () %s) (lambda (key . args) (vk-note (list 'outer (vk-known key) (if (eq? (vk-known key) 'builtin) '() args)))))" % g.e(g.r.choice([2, 3, 4, 5]))


def stay(l):
    """Guile leaves and enters a dynamic-wind again for some jumps within it: drop out N, in N with nothing between."""
    while True:
        n = re.sub(r"\(in (\d+)\) \(out \1\) ?|\bi o\b ?", "", l)
        if n == l:
            return re.sub(r" \)", ")", l)
        l = n


def reentry(r):
    """A continuation captured inside some context and entered again after it was left."""
    ctx = r.choice(["(list 'c %s)", "(let ((x %s)) (vk-note (list 'x x)) (list x x))", "(let loop ((i 0)) (if (< i 2) (loop (+ i 1)) (list i %s)))", "(catch 'a (lambda () (list 'in %s)) (lambda (k . a) (list 'h k a)))",
                    "(catch 'a (lambda () (let ((x %s)) (if (= x 1) (throw 'a x) x))) (lambda (k . a) (list 'h k a)))", "(dynamic-wind (lambda () (vk-note 'in)) (lambda () (list %s)) (lambda () (vk-note 'out)))",
                    "(call-with-values (lambda () (values 1 %s)) list)", "(if (let ((x %s)) (= x 2)) 'two 'other)", "(let* ((a 1) (b %s) (c (+ a b))) (vk-note c) (list a b c))",
                    "(apply + (list 1 %s))", "(let ((s 0)) (let ((x %s)) (set! s (+ s x)) (vk-note s) s))", "(catch 'b (lambda () (dynamic-wind (lambda () (vk-note 'in)) (lambda () (let ((x %s)) (if (= x 0) (throw 'b x) x))) (lambda () (vk-note 'out)))) (lambda (k . a) (list k a)))",
                    "(with-fluids ((vk-fluid-1 %d)) (let ((x %%s)) (list x (fluid-ref vk-fluid-1))))" % r.randint(5, 9),
                    "(dynamic-wind (lambda () (vk-note 'a)) (lambda () (dynamic-wind (lambda () (vk-note 'b)) (lambda () (list %s)) (lambda () (vk-note 'c)))) (lambda () (vk-note 'd)))"])
    cap = "(call/cc (lambda (k) (set! vk-saved k) (set! vk-left %d) %d))" % (r.choice([1, 2, 4]), r.randint(5, 9))
    body = ctx % cap
    if r.random() < .4:
        body = r.choice(["(list 'deep %s)", "(let ((y %s)) (vk-note y) y)", "(catch #t (lambda () %s) (lambda args 'never))"]) % body
    after = r.choice(["(vk-again)", "(let deep ((i 20)) (if (= i 0) (vk-again) (car (list (deep (- i 1))))))", "(catch 'c (lambda () (vk-again)) (lambda args args))", "(dynamic-wind (lambda () (vk-note 'in2)) (lambda () (vk-again)) (lambda () (vk-note 'out2)))"])
    return "(let ((result %s)) (vk-note (list 'result result)) %s (list 'end result))" % (body, after)


def uncaught(g):
    """A program that ends in an uncaught exception (or would, were it not caught)."""
    r = g.r
    throw = r.choice(["(throw 'a 1 2)", "(error \"final\" 'x)", "(car 5)", "(vk-undefined-procedure 1)", "(vector-ref (vector 1) 7)", "(throw 'b)", "((lambda (x) x) 1 2)", "(\"string\" 1)"])
    ctx = "%s"
    for _ in range(r.randint(0, 4)):
        ctx = ctx % r.choice(["(begin (display \"t%d \") %%s)" % r.randint(0, 9), "(+ 1 %s)", "(catch 'never (lambda () %s) (lambda args (display \"wrong \")))", "(let ((x %s)) (display \"wrong \") x)",
                              "(car (map (lambda (x) %s) '(1 2)))", "(catch #t (lambda () (throw 'c)) (lambda args %s))", "(call/cc (lambda (k) %s))", "(if %s (display \"wrong \"))", "(call-with-values (lambda () %s) list)"])
    return "(display \"start \")\n%s\n(display \"wrong \")\n(exit 0)\n" % (ctx % throw)


def bounded(r):
    n = 6000
    k = r.choice(["catch", "callcc", "wind", "values", "generator", "handler", "catch-normal"])
    b = {"catch": "(catch 'a (lambda () (+ 1 (throw 'a i))) (lambda (k v) v))", "callcc": "(+ 0 (call/cc (lambda (k) (+ 1 (k i)))))",
         "wind": "(call/cc (lambda (k) (dynamic-wind (lambda () #t) (lambda () (k i)) (lambda () #t))))", "values": "(call-with-values (lambda () (values i 1)) (lambda (a b) a))",
         "generator": "(call/cc (lambda (k) (for-each (lambda (x) (if (= x 2) (k i))) '(1 2 3))))", "handler": "(catch 'a (lambda () (catch 'b (lambda () (throw 'a i)) list)) (lambda (k v) v))",
         "catch-normal": "(catch #t (lambda () i) list)"}[k]
    return "(vk 0 (lambda () (let loop ((i 0) (s 0)) (if (< i %d) (let ((x %s)) (loop (+ i 1) (+ s x))) s))))\n" % (n, b)


def go():
    c = Check("C11")
    m = sch.Mes(c, san=True)
    r = c.rng
    g = X(r)
    progs = []
    kinds = {}
    for i in range(c.n(700, 14000)):
        g.kinds = set()
        progs.append(("nested", PRE + "".join("(vk %d (lambda () %s))\n" % (j, nested(g)) for j in range(5))))
        for k in g.kinds:
            kinds[k] = kinds.get(k, 0) + 1
    for k, n in kinds.items():
        c.count("programs with " + k, n)
    sch.judge_programs(c, m, progs, san=10, norm=stay)
    progs = [("reentry", PRE + "".join("(vk %d (lambda () %s))\n" % (j, reentry(r)) for j in range(6))) for _ in range(c.n(150, 3000))]
    sch.judge_programs(c, m, progs, san=10)
    sch.judge_programs(c, m, [("bounded", bounded(r)) for _ in range(c.n(24, 200))], mesenv=dict(MES_STACK="4000", MES_MAX_ARENA="700000"), timeout=120)

    def one(it):
        i, text = it
        w = sch.guile(c, sch.GUILE + text)
        want = w.out.decode("latin1")
        if w.timeout or w.rc == 0 and "wrong" in want:
            c.count("dropped")
            return
        x = m.run(sch.MES + text, san=i % 5 == 0)
        got = x.out.decode("latin1")
        c.case(text)
        c.count("uncaught")
        rep = i % 5 == 0 and sch.sanitizer(x.err)
        if rep:
            c.violation("sanitizer:" + rep[0], rep[1] + "\n" + text, dict(program=text))
        elif got != want or x.timeout or (x.rc == 0) != (w.rc == 0) or w.rc and not x.err:
            c.violation("uncaught", "expected output %r and a failure status with a diagnostic, got %r, status %s, %r\n%s" % (want, got, x.rc, x.err[-200:], text), dict(program=text))
    c.pmap(one, enumerate(uncaught(g) for _ in range(c.n(250, 4000))))

    # every caught error of a builtin keeps C stack: with 8 MB this many are too many
    text = ("(define (loop i) (if (> i 0) (begin (catch #t (lambda () (car 1)) (lambda args #f)) (loop (- i 1)))))\n(loop %d)\n(display \"done\")\n(exit 0)\n")
    for n in (1500, 150000):
        x = m.run(sch.MES + text % n, timeout=240)
        c.case(n)
        c.count("caught errors of builtins", n)
        if x.rc or x.out != b"done":
            c.violation("builtin-error-c-stack" if n > 2000 else "builtin-errors", "%d caught errors of a builtin: status %s, %r" % (n, x.rc, x.err[-200:]), dict(program=text % n))
    c.finish("Programs that nest catches, throws, rethrows, errors of builtins, escapes to any enclosing continuation, dynamic-wind, fluids, values, loops and "
             "generators up to five deep, every effect traced in order; continuations entered again 1-4 times after their context was left; programs that end in an "
             "uncaught exception (output before it, diagnostic, failure status, nothing after it). Oracle: Guile running the same program. Loops of 6000 non-local exits "
             "with a 4000-word stack. Every tenth program also on the ASan/UBSan build.",
             min_events=dict({"of nested": 600, "of reentry": 120, "of bounded": 15, "uncaught": 100}, **{"programs with " + k: 20 for k in ("catch", "throw", "builtin", "callcc", "escape", "wind", "cwv", "withfluid", "generator")}))


if __name__ == "__main__":
    main(go)
