import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib.util, re
from vk.core import Check, main
from vk import sch, build, sprog

HERE = os.path.dirname(os.path.abspath(__file__))

# A machine that builds, shares, mutates and drops objects of every type, driven by its own generator of
# pseudo-random numbers; the whole reachable graph, sharing included, is printed now and then.
GRAPH = r"""
(mes-use-module (mes syntax))
(mes-use-module (mes catch))
(mes-use-module (mes fluids))
(mes-use-module (srfi srfi-1))
(mes-use-module (srfi srfi-9))
(mes-use-module (srfi srfi-13))
(define-record-type node (make-node name next data) node? (name node-name) (next node-next set-node-next!) (data node-data set-node-data!))
(define-macro (my-pick a . rest) `(let ((m9 ,a)) (if (pair? m9) (car m9) ,@rest)))
(define-syntax my-keep (syntax-rules () ((_ (v e) b ...) (let ((v e)) b ...))))
(define seed %d)
(define (rnd n) (set! seed (modulo (+ (* seed 1103515) 12345) 1000003)) (modulo (quotient seed 7) n))
(define N 14)
(define roots (make-vector N '()))
(define tab (make-hash-table 7))
(define qtab (make-hash-table 5))
(define saved #f)
(define again 0)
(define fl (make-fluid '()))
(define (root) (vector-ref roots (rnd N)))
(define (put x) (vector-set! roots (rnd N) x))
(define (pick-pair) (let loop ((i 0)) (if (= i N) (cons 0 0) (let ((x (root))) (if (pair? x) x (loop (+ i 1)))))))
(define (pick-vec) (let loop ((i 0)) (if (= i N) (vector 1) (let ((x (root))) (if (vector? x) (if (> (vector-length x) 0) x (vector 2)) (loop (+ i 1)))))))
(define (pick-node) (let loop ((i 0)) (if (= i N) (make-node 0 0 0) (let ((x (root))) (if (node? x) x (loop (+ i 1)))))))
(define (str n) (let loop ((n n) (l '())) (if (= n 0) (list->string l) (loop (- n 1) (cons (integer->char (+ 97 (rnd 26))) l)))))
(define (name) (string-append "k" (number->string (rnd 12))))
(define (burst n) (if (> n 0) (begin (list n (number->string n) (vector n n)) (burst (- n 1)))))
(define (deep n x) (if (= n 0) x (cons n (deep (- n 1) x))))
(define (deep-sum n) (if (= n 0) 0 (+ (string-length (number->string n)) (deep-sum (- n 1)))))
(define (counter x) (lambda (m) (cond ((eq? m 'peek) x) ((eq? m 'inc) (set! x (cons (rnd 9) x)) 'done) (else (set! x m) m))))
(define (cut-off x d) (cond ((<= d 0) (if (pair? x) '() x)) ((pair? x) (cons (cut-off (car x) (- d 2)) (cut-off (cdr x) (- d 1)))) (else x)))
(define (op k)
  (cond ((= k 0) (put (cons (root) (root))))
        ((= k 1) (put (make-vector (rnd 9) (root))))
        ((= k 2) (put (str (rnd 60))))
        ((= k 3) (put (string->symbol (str (+ 1 (rnd 3))))))
        ((= k 4) (set-car! (pick-pair) (root)))
        ((= k 5) (set-cdr! (pick-pair) (root)))
        ((= k 6) (let ((v (pick-vec))) (vector-set! v (rnd (vector-length v)) (root))))
        ((= k 7) (put (counter (root))))
        ((= k 8) (let ((x (root))) (if (procedure? x) (x (if (= 0 (rnd 2)) 'inc (root))))))
        ((= k 9) (put (make-node (name) (root) (root))))
        ((= k 10) (set-node-next! (pick-node) (root)))
        ((= k 11) (set-node-data! (pick-node) (root)))
        ((= k 12) (hash-set! tab (name) (root)))
        ((= k 13) (put (hash-ref tab (name) #f)))
        ((= k 14) (hashq-set! qtab (string->symbol (name)) (root)))
        ((= k 15) (put (hashq-ref qtab (string->symbol (name)) 'none)))
        ((= k 16) (put (catch 'thrown (lambda () (burst (rnd 20)) (throw 'thrown (root) (str 3)) 1) (lambda (key x s) (cons x s)))))
        ((= k 17) (put (call-with-values (lambda () (burst (rnd 9)) (values (root) (name))) (lambda (a b) (burst 3) (cons a b)))))
        ((= k 18) (put (deep (rnd 60) '())))
        ((= k 19) (vector-set! roots (rnd N) '()))
        ((= k 20) (burst (rnd 120)))
        ((= k 21) (put (call/cc (lambda (k) (burst (rnd 5)) (for-each (lambda (i) (if (= i 3) (k (list i (root))))) '(1 2 3 4)) 'never))))
        ((= k 22) (if (= again 0)
                      (let ((x (call/cc (lambda (k) (set! saved k) (set! again (+ 1 (rnd 3))) 'first)))) (put (list x)))
                      (begin (set! again (- again 1)) (if (and saved (= 0 (rnd 2))) (saved (list again (root)))))))
        ((= k 23) (put (apply (lambda args (map (lambda (x) (list x)) args)) (list (root) (root) (name)))))
        ((= k 24) (put (string-append (name) (if (string? (root)) "yes" "no") (str (rnd 20)))))
        ((= k 25) (put (map cons (list 1 2 3) (list (root) (root) (root)))))
        ((= k 26) (put (list->vector (list (root) (rnd 100) (integer->char (+ 65 (rnd 20))) (root)))))
        ((= k 27) (put (my-pick (root) (my-keep (v (root)) (list v v)))))
        ((= k 28) (put (primitive-eval (list 'list 1 (list 'quote (root)) (list 'string-append (name) "z")))))
        ((= k 29) (fluid-set! fl (cons (rnd 10) (root))) (put (fluid-ref fl)))
        ((= k 30) (put (with-fluid* fl (root) (lambda () (burst (rnd 9)) (list (fluid-ref fl))))))
        ((= k 31) (put (list->string (reverse (string->list (str (rnd 30)))))))
        ((= k 32) (put (string->list (str (rnd 12)))))
        ((= k 33) (put (let ((x (dynamic-wind (lambda () (burst 2)) (lambda () (root)) (lambda () (burst 3))))) x)))
        ((= k 34) (put (catch #t (lambda () (vector-ref (vector 1 2) (+ 2 (rnd 5)))) (lambda (key . args) (list key (root))))))
        ((= k 35) (put (filter (lambda (x) (not (null? x))) (list (root) (root) (root)))))
        ((= k 36) (put (quasiquote (x (unquote (root)) (unquote-splicing (map list (list 1 2))) y))))
        ((= k 37) (put (string-join (list (str 2) (name) (str (rnd 4))) "-")))
        ((= k 38) (put (let-values9 (root))))
        ((= k 39) (put (deep-sum (rnd 200))))
        ((= k 40) (put (with-output-to-string (lambda () (write (cut-off (root) 6))))))
        ((= k 41) (put (assoc (name) (list (cons (name) (root)) (cons (name) (root))))))
        (else (put (lambda (m) (if (eq? m 'peek) (list k) k))))))
(define (let-values9 x) (receive (a . b) (values x 1 2) (burst 4) (list a b)))
(define seen '())
(define count 0)
(define (show x)
  (cond ((or (null? x) (number? x) (symbol? x) (eq? x #t) (eq? x #f) (char? x)) (vk-put x))
        ((procedure? x)
         (let ((s (assq x seen)))
           (if s (begin (display "=") (display (cdr s)))
               (begin (set! count (+ count 1)) (set! seen (acons x count seen)) (display "{") (show (x 'peek)) (display "}")))))
        ((or (pair? x) (vector? x) (string? x) (node? x))
         (let ((s (assq x seen)))
           (if s (begin (display "=") (display (cdr s)))
               (begin
                 (set! count (+ count 1))
                 (set! seen (acons x count seen))
                 (cond ((> count 400) (display "..."))
                       ((string? x) (vk-put x))
                       ((pair? x) (display "(") (show (car x)) (display " . ") (show (cdr x)) (display ")"))
                       ((vector? x) (display "#(") (let loop ((i 0)) (if (< i (vector-length x)) (begin (show (vector-ref x i)) (display " ") (loop (+ i 1))))) (display ")"))
                       (else (display "<") (show (node-name x)) (display " ") (show (node-next x)) (display " ") (show (node-data x)) (display ">")))))))
        ((eof-object? x) (display "eof"))
        (else (display "?"))))
(define (show-all)
  (set! seen '())
  (set! count 0)
  (show roots)
  (for-each (lambda (i) (show (hash-ref tab (string-append "k" (number->string i)) 'no)) (show (hashq-ref qtab (string->symbol (string-append "k" (number->string i))) 'no)))
            '(0 1 2 3 4 5 6 7 8 9 10 11))
  (show (fluid-ref fl))
  (newline))
(define steps 0)
(define (go n)
  (if (< steps n)
      (begin
        (set! steps (+ steps 1))
        (op (rnd 43))
        (if (= 0 (modulo steps %d)) (show-all))
        (go n))))
(go %d)
(set! again 0)
(show-all)
(display (deep 800 '()))
(newline)
(display "end")
"""

# Every way to make garbage, with next to nothing alive: (name, expression made over and over, iterations)
CHURN = [("pairs", "(list i i i)", 120000), ("strings", "(make-string 300 #\\a)", 40000), ("vectors", "(make-vector 100 i)", 20000), ("closures", "(lambda (x) (list i x))", 120000),
         ("number-string", "(number->string i)", 60000), ("append", "(append (list 1 2 3) (list i))", 60000), ("string-append", "(string-append \"abc\" \"defghi\")", 60000),
         ("catch", "(catch 'a (lambda () (throw 'a i)) (lambda (k v) v))", 6000), ("call/cc", "(+ 0 (call/cc (lambda (k) (k i))))", 30000), ("values", "(call-with-values (lambda () (values i 2)) list)", 20000),
         ("records", "(make-node i 2 3)", 20000), ("hash-table", "(let ((h (make-hash-table 10))) (hash-set! h \"a\" i) h)", 3000), ("string->list", "(string->list \"abcdefghijkl\")", 20000),
         ("map", "(map (lambda (x) (+ x i)) '(1 2 3))", 20000), ("apply", "(apply + (list i 1 2))", 40000), ("quasi", "`(1 ,i ,@(list 2 3))", 10000), ("string-copy", "(substring \"hello world\" 2 7)", 40000),
         ("known-symbol", "(string->symbol \"known\")", 40000), ("assoc", "(assoc \"b\" '((\"a\" . 1) (\"b\" . 2)))", 10000), ("let-loop", "(let loop ((j 0)) (if (< j 5) (loop (+ j 1)) j))", 12000),
         ("dynamic-wind", "(dynamic-wind (lambda () #t) (lambda () i) (lambda () #t))", 8000), ("fluids", "(with-fluid* fl i (lambda () (fluid-ref fl)))", 4000), ("hash-overwrite", "(hash-set! tab \"a\" (list i))", 5000),
         ("overwrite", "(begin (set! saved (list saved9 i)) (vector-set! roots 3 (make-string 50 #\\b)))", 40000), ("chars", "(list->string (list #\\a (integer->char 98)))", 40000),
         ("eval", "(primitive-eval '(+ 1 2))", 6000), ("with-output", "(with-output-to-string (lambda () (display i)))", 1500), ("open-string", "(read-char (open-input-string \"abc\"))", 3000),
         ("with-input", "(with-input-from-string \"12 34\" read)", 1000), ("read", "(with-input-from-string \"(a \\\"b\\\" #(1 2))\" read)", 1000),
         ("keyword", "(symbol->keyword 'abc)", 9000), ("define", "(begin (define saved (list i)) i)", 3000),
         ("macro", "(let-syntax9 i)", 3000), ("continuation-kept", "(call/cc (lambda (k) (set! saved k)))", 6000), ("format", "(simple-format #f \"~a ~s\" i \"x\")", 1500),
         ("error", "(catch #t (lambda () (error 'x \"y\" i)) (lambda a i))", 1500)]
CHURNPRE = r"""
(mes-use-module (mes catch))
(mes-use-module (mes fluids))
(mes-use-module (srfi srfi-9))
(define-record-type node (make-node name next data) node? (name node-name))
(define fl (make-fluid '()))
(define tab (make-hash-table 7))
(define roots (make-vector 9 '()))
(define saved #f)
(define saved9 '(1 2))
(define-macro (let-syntax9 x) `(list ,x ,x))
(define (free) (gc) (- (assoc-ref (gc-stats) 'arena-size) (assoc-ref (gc-stats) 'arena-free)))
(define (run i n) (if (< i n) (begin %s (run (+ i 1) n))))
(run 0 40)
(define before (free))
(run 0 %d)
(define after (free))
(display "before ") (display before) (display " after ") (display after) (display " collections ") (display (assoc-ref (gc-stats) 'gc-count)) (newline)
"""


def load(name):
    s = importlib.util.spec_from_file_location(name, "%s/%s.py" % (HERE, name))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def log(f):
    """chances, forced collections and cells checked; or the complaint of the heap walk."""
    if not os.path.exists(f):
        return None
    t = open(f).read()
    os.unlink(f)
    m = re.search(r"^end (\d+) (\d+) (\d+)$", t, re.M)
    return tuple(map(int, m.groups())) if m else t


def go():
    c = Check("C01")
    m = sch.Mes(c)
    r = c.rng
    mon = os.path.join(os.path.dirname(HERE), "harness", "gcmon.c")
    hook = ["-DMES_VK_GC=1"]
    fast = build.mes_hosted(c, "mes-gc", ["-O1", "-g"], hook, [mon])
    san = build.mes_hosted(c, "mes-gc-san", None, hook, [mon])
    logs = c.dir("logs")
    C11, C09 = load("C11"), load("C09")

    def run(text, exe, frm, every, seed, name, most=600, **env):
        f = os.path.join(logs, name)
        e = dict(MES_VK_GC="%d %d %d %d %s" % (frm, every, seed, most, f), MES_ARENA="6000000", MES_MAX_ARENA="6000000")
        e.update(env)
        x = m.run(text, env=e, exe=exe, timeout=240)
        return x, log(f)

    # start-up alone: where the program begins
    x, l = run(sch.MES, fast, 1, 1 << 60, 1, "boot")
    boot = l[0]

    progs = []
    for i in range(c.n(60, 900)):
        n = r.choice([120, 250, 400])
        progs.append(("graph", sch.MES + sch.COMMON + GRAPH % (r.randrange(1, 1000000), r.choice([30, 60]), n)))
    for i in range(c.n(70, 1400)):
        p = sprog.P(r)
        defs, obs = p.program(depth=r.choice([3, 4, 5]), syntax=r.random() < .2)
        t = "(mes-use-module (mes syntax))\n" + "\n".join(defs + [o[1] if isinstance(o, tuple) else "(vk %d (lambda () %s))" % (j, o) for j, o in enumerate(obs)])
        progs.append(("program", sch.MES + sch.COMMON + t))
    g = C11.X(r)
    for i in range(c.n(50, 1000)):
        progs.append(("control", sch.MES + sch.COMMON + C11.PRE + "".join("(vk %d (lambda () %s))\n" % (j, C11.nested(g)) for j in range(4))))
    for i in range(c.n(20, 400)):
        progs.append(("reentry", sch.MES + sch.COMMON + C11.PRE + "".join("(vk %d (lambda () %s))\n" % (j, C11.reentry(r)) for j in range(6))))
    for i in range(c.n(20, 300)):
        progs.append(("deep", sch.COMMON + "(define (f n) (if (= n 0) '() (cons (number->string n) (f (- n 1)))))\n(vk 0 (lambda () (f %d)))\n"
                      "(define (g n k) (if (= n 0) (k (list n)) (g (- n 1) (lambda (l) (k (cons n l))))))\n(vk 1 (lambda () (g %d (lambda (x) x))))\n"
                      "(define (h l) (if (pair? l) (apply max (cons 0 (map h l))) l))\n(vk 2 (lambda () (h '%s)))\n"
                      "(define (build n) (if (= n 0) (make-vector 3 n) (list->vector (list (build (- n 1)) (make-string n #\\x) (build (- n 1))))))\n(vk 3 (lambda () (build %d)))\n"
                      % (r.randint(10, 1500), r.randint(10, 300), "(" * 20 + "7" + " 3)" * 20, r.randint(1, 6))))

    def one(it):
        i, (key, text) = it
        ref, l = run(text, fast, 1, 1 << 60, 1, "r%d" % i)
        if ref.timeout or not isinstance(l, tuple):
            c.count("dropped")
            return
        chances = l[0]
        own = max(1, chances - boot)
        seeds = c.seed * 1000 + i
        runs = []
        # own forced collections: about 250 and up to one at every chance; one run collects all through the start
        runs.append((fast, boot - 300, max(1, own // 250), {}))
        runs.append((fast, max(1, boot - 300 + (seeds * 7919) % own), 1 + seeds % 4, {}))
        if i % 9 == 0:
            runs.append((fast, 1, 200 + own // 400, {}))
        if i % 9 == 4:
            runs.append((san, boot - 300, max(1, own // 120), {}))
        arena = [40000, 60000, 90000, 150000, 300000][seeds % 5]
        runs.append((m.exe, 1, 1 << 60, dict(MES_ARENA=str(arena), MES_SAFETY=str([400, 2000, 4000][seeds % 3]))))
        if i % 3 == 0:
            runs.append((m.exe, 1, 1 << 60, dict(MES_ARENA="20000", MES_MAX_ARENA="1000000", MES_SAFETY="1000", MES_JAM=str([1000000, 400000][seeds % 2]))))
        for j, (exe, frm, every, env) in enumerate(runs):
            x, l = run(text, exe, frm, every, seeds + j, "x%d-%d" % (i, j), **env)
            c.case((key, i, j))
            if x.timeout:
                c.unsure("timed out")
                continue
            c.count("runs of " + key)
            if isinstance(l, tuple):
                c.count("forced collections", l[1])
                c.count("cells checked by the heap walk", l[2])
            elif exe is m.exe:
                c.count("runs with a small arena")
            if (x.out, x.rc) != (ref.out, ref.rc) or isinstance(l, str) or l is None and exe is not m.exe and ref.rc == 0:
                a, b = ref.out.decode("latin1").split("\n"), x.out.decode("latin1").split("\n")
                n = next((k for k, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
                heap = re.search(r"VK-HEAP: (\S+):.*", x.err.decode("latin1"))
                rep = exe is san and sch.sanitizer(x.err)
                what = "heap walk: " + heap.group(0) if heap else "sanitizer: " + rep[1] if rep else "line %d differs\n expected %s\n got      %s" % (
                    n + 1, a[n][:400] if n < len(a) else "(end)", b[n][:400] if n < len(b) else "(end)")
                c.violation(key, "%s\n (status %s without and %s with collections; from %d every %d %r) %s" % (what, ref.rc, x.rc, frm, every, env, x.err[-200:].decode("latin1")),
                            dict(program=text, env=dict(env, MES_VK_GC="%d %d %d 600 LOG" % (frm, every, seeds + j)), out=x.out.decode("latin1")[-2000:], want=ref.out.decode("latin1")[-2000:]))
                break
        if i < 3:
            c.sample("%s: %d chances to collect; %s" % (key, own, ref.out[:150].decode("latin1")))
    c.pmap(one, enumerate(progs))

    # garbage is reclaimed: the arena may not grow, and what is alive afterwards is what was alive before
    def churn(it):
        i, (name, expr, n) = it
        n = c.n(n, n * 10)
        text = sch.MES + CHURNPRE % (expr, n)
        x = m.run(text, env=dict(MES_ARENA="130000", MES_MAX_ARENA="130000", MES_SAFETY="3000"), timeout=400)
        c.case(name)
        if x.timeout:
            c.unsure(name)
            return
        k = re.search(rb"before (\d+) after (\d+) collections (\d+)", x.out)
        if not k or x.rc:
            c.violation("churn:" + name, "%d times %s in an arena of 130000 cells: status %s, %r %r" % (n, expr, x.rc, x.out[-100:], x.err[-200:]), dict(program=text))
            return
        a, b, g = map(int, k.groups())
        c.count("churn collections", g)
        c.count("churn runs")
        if b - a > 250:
            c.violation("leak:" + name, "%d times %s: %d cells alive before, %d after" % (n, expr, a, b), dict(program=text))
        c.sample("churn %s: %d -> %d cells alive, %d collections" % (name, a, b, g))
    c.pmap(churn, enumerate(CHURN))
    c.finish("Programs that build, share, mutate and drop objects of every type (a random object-graph machine, random Scheme programs, exceptions, continuations entered again, deep stacks) "
             "run once without any collection and then with collections forced at chosen chances (from one in a few hundred to every one), each of which moves every cell by a random "
             "distance, overwrites the freed memory and walks the heap; and with arenas from 20000 cells up.  Oracle: output and status equal the run without collections; every cell has "
             "a type and every pointer leads to the start of a cell.  %d kinds of garbage are made thousands of times in an arena that cannot hold it: nothing may stay alive." % len(CHURN),
             min_events={"forced collections": 5000, "cells checked by the heap walk": 10000000, "runs of graph": 80, "runs of control": 80, "runs of program": 80, "runs with a small arena": 100,
                         "churn runs": 20, "churn collections": 300})


if __name__ == "__main__":
    main(go)
