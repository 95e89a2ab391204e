import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main
from vk import sch

GUILEPRE = """
(use-modules ((srfi srfi-43) #:prefix s43:) (srfi srfi-9 gnu))
(define vk-vector-map s43:vector-map)
(define vk-vector-for-each s43:vector-for-each)
(define (vk-handle t k) (hashq-get-handle t k))
"""
MESPRE = """
(mes-use-module (srfi srfi-9))
(mes-use-module (srfi srfi-9 gnu))
(mes-use-module (srfi srfi-43))
(define vk-vector-map vector-map)
(define vk-vector-for-each vector-for-each)
(define (vk-handle t k) (hashq-get-handle t k #f))
"""
PRE = """
(define (vk-try thunk)
  (catch #t thunk (lambda (key . args) 'vk-error)))
"""


class H:
    """A random history over a few vectors, tables and records, as a program that prints every result."""

    def __init__(self, rng):
        self.r = rng
        r = rng
        self.n = 0
        self.out = []
        self.vecs, self.tabs, self.recs = [], [], []     # (name, level) / (name, kind) / (name, type)
        self.types = []
        self.kinds = set()
        stem = [r.choice(["ab", "x", "key", "a"]) for _ in range(2)]
        self.keys = sorted({r.choice(stem) + "".join(r.choice("abcxyz") for _ in range(r.choice([0, 1, 2, 8]))) for _ in range(r.choice([2, 4, 9, 25]))})
        self.keys += r.sample(["", "a", "ab", "ba", "abc", "abd", "zz9", "longer-key-with-many-characters"], 3)
        self.keys = sorted(set(self.keys))

    def say(self, e):
        self.out.append("(vk %d (lambda () %s))" % (len(self.out), e))

    def do(self, e):
        self.out.append(e)

    def atom(self):
        r = self.r
        return r.choice([str(r.randint(-5, 5)), str(r.choice([1, -1]) * r.getrandbits(r.randint(1, 62))), "#\\" + r.choice("abcz019"), '"%s"' % r.choice(["", "s", "str", "ab"]),
                         "'" + r.choice(["a", "b", "sym", "nil"]), "'()", "#t", "#f", "'(%d . x)" % r.randint(0, 9), "(list %d '(2) \"t\")" % r.randint(0, 99)])

    def value(self, level=9):
        """An expression; a shared vector only of a lower level, so that no cycle arises."""
        r = self.r
        if r.random() < .2:
            v = [n for n, l in self.vecs if l < level]
            if v:
                return r.choice(v)
        return self.atom()

    def types_(self):
        r = self.r
        for _ in range(r.choice([1, 2, 3])):
            t = "t%d" % len(self.types)
            shown = r.choice(["<%s>" % t, t])
            nf = r.choice([0, 1, 2, 3, 3, 5, 9])
            fields = ["f%d" % i for i in range(nf)]
            ctor = list(fields)
            if r.random() < .5:
                ctor = r.sample(fields, r.randint(0, nf))
            sets = [f for f in fields if r.random() < .6]
            self.do("(define-record-type %s (make-%s%s) %s?%s)" % (
                shown, t, "".join(" " + f for f in ctor), t, "".join(" (%s %s-%s%s)" % (f, t, f, " set-%s-%s!" % (t, f) if f in sets else "") for f in fields)))
            self.types.append(dict(name=t, shown=shown, fields=fields, ctor=ctor, sets=sets))

    def step(self):
        r = self.r
        k = r.choice(OPS)
        self.kinds.add(k)
        return getattr(self, k)()

    # vectors
    def vec(self):
        return self.r.choice(self.vecs) if self.vecs else None

    def new_vector(self):
        r = self.r
        level = r.randrange(4)
        n = r.choice([0, 1, 2, 3, 5, 8, 17, 40])
        v = "v%d" % len(self.vecs)
        e = r.choice(["(make-vector %d %s)" % (n, self.value(level)), "(vector %s)" % " ".join(self.value(level) for _ in range(n)),
                      "(list->vector (list %s))" % " ".join(self.value(level) for _ in range(n)), "(make-vector %d)" % n])
        self.do("(define %s %s)" % (v, e))
        if e == "(make-vector %d)" % n:
            self.do("(let loop ((i 0)) (if (< i %d) (begin (vector-set! %s i i) (loop (+ i 1)))))" % (n, v))
        self.vecs.append((v, level))

    def copy_vector(self):
        if not self.vecs:
            return
        s, l = self.vec()
        v = "v%d" % len(self.vecs)
        self.do("(define %s %s)" % (v, self.r.choice(["(vector-copy %s)", "(list->vector (vector->list %s))", "%s", "(vk-vector-map (lambda (i x) x) %s)",
                                                      "(apply vector (vector->list %s))", "(list->vector (append (vector->list %s) '(z)))"]) % s))
        self.vecs.append((v, l))

    def ref(self):
        if self.vecs:
            v = self.vec()[0]
            self.say("(let ((n (vector-length %s))) (if (= n 0) 'empty (vector-ref %s (modulo %d n))))" % (v, v, self.r.randint(0, 50)))

    def edge(self):
        if self.vecs:
            v = self.vec()[0]
            i = self.r.choice(["(vector-length %s)" % v, "-1", "(+ 1 (vector-length %s))" % v, "'a", "1000000", "-1000000", "\"1\"", "(- (vector-length %s) 1)" % v, "0"])
            self.say("(vk-try (lambda () (vector-ref %s %s)))" % (v, i) if self.r.random() < .5 else
                     "(begin (vk-try (lambda () (vector-set! %s %s 'new))) %s)" % (v, i, v))

    def set(self):
        if self.vecs:
            v, l = self.vec()
            self.do("(let ((n (vector-length %s))) (if (> n 0) (vector-set! %s (modulo %d n) %s)))" % (v, v, self.r.randint(0, 50), self.value(l)))

    def each(self):
        if self.vecs:
            v = self.vec()[0]
            self.say(self.r.choice(["(begin (vk-vector-for-each (lambda (i x) (vk-note (cons i x))) %s) 'done)", "(vk-vector-map (lambda (i x) (list i x)) %s)",
                                    "(vector->list %s)", "(vector-length %s)", "(length (vector->list %s))", "(let ((l (vector->list %s))) (if (pair? l) (set-car! l 'other)) l)"]) % v)

    def same(self):
        if self.vecs:
            a, b = self.vec()[0], self.vec()[0]
            self.say("(list (eq? %s %s) (equal? %s %s) (vector? %s) (pair? %s))" % (a, b, a, b, a, a))

    # tables
    def new_table(self):
        r = self.r
        t = "h%d" % len(self.tabs)
        self.do("(define %s (make-hash-table%s))" % (t, r.choice(["", "", " 1", " 2", " 3", " 7", " 31", " 100"])))
        self.tabs.append((t, r.choice("qs")))

    def tab(self):
        if not self.tabs:
            self.new_table()
        t, q = self.r.choice(self.tabs)
        k = self.r.choice(self.keys)
        key = ("(string->symbol \"%s\")" % k if k == "" or self.r.random() < .3 else "'" + k) if q == "q" else '"%s"' % k if self.r.random() < .6 else '(string-append "%s" "%s")' % (k[:1], k[1:])
        return t, ("hashq" if q == "q" else "hash"), key

    def put(self):
        t, h, k = self.tab()
        self.do("(%s-set! %s %s %s)" % (h, t, k, self.value()))

    def get(self):
        t, h, k = self.tab()
        self.say("(%s-ref %s %s %s)" % (h, t, k, self.r.choice(["#f", "'none", "'()", "'(a b)", "(list 'fresh)", "0", "\"d\""])))

    def handle(self):
        t, h, k = self.tab()
        if h == "hashq":
            self.say("(vk-handle %s %s)" % (t, k))

    def getall(self):
        if self.tabs:
            t, q = self.r.choice(self.tabs)
            self.say("(map (lambda (k) (%s %s k #f)) %s)" % ("hashq-ref" if q == "q" else "hash-ref", t,
                                                            "(map string->symbol '(%s))" % " ".join('"%s"' % k for k in self.keys) if q == "q" else "'(%s)" % " ".join('"%s"' % k for k in self.keys)))

    # records
    def new_record(self):
        r = self.r
        t = r.choice(self.types)
        n = "r%d" % len(self.recs)
        self.do("(define %s (make-%s%s))" % (n, t["name"], "".join(" " + self.value() for _ in t["ctor"])))
        self.recs.append((n, t))

    def rec(self):
        if not self.recs:
            self.new_record()
        return self.r.choice(self.recs)

    def field(self):
        n, t = self.rec()
        if t["fields"]:
            f = self.r.choice(t["fields"])
            if f in t["ctor"] or self.r.random() < .3:
                self.say("(%s-%s %s)" % (t["name"], f, n))

    def fields(self):
        n, t = self.rec()
        self.say("(list %s)" % " ".join("(%s-%s %s)" % (t["name"], f, n) for f in t["fields"]))

    def setfield(self):
        n, t = self.rec()
        if t["sets"]:
            self.do("(set-%s-%s! %s %s)" % (t["name"], self.r.choice(t["sets"]), n, self.value()))

    def with_field(self):
        n, t = self.rec()
        if t["fields"]:
            m = "r%d" % len(self.recs)
            f = self.r.choice(t["fields"])
            self.do("(define %s (set-field %s (%s-%s) %s))" % (m, n, t["name"], f, self.value()))
            self.recs.append((m, t))

    def alias(self):
        n, t = self.rec()
        m = "r%d" % len(self.recs)
        self.do("(define %s %s)" % (m, n))
        self.recs.append((m, t))

    def thing(self):
        r = self.r
        return r.choice([self.rec()[0], self.rec()[0], self.atom(), "car", "(lambda (x) x)", "(vector 1 2 3)", "(make-hash-table)", r.choice(self.types)["shown"], "(current-input-port)", "(list 1)"])

    def pred(self):
        self.say("(let ((x %s)) (list %s (vector? x) (pair? x)))" % (self.thing(), " ".join("(%s? x)" % t["name"] for t in self.types)))

    def wrong(self):
        t = self.r.choice(self.types)
        if t["fields"]:
            x = self.thing()
            f = self.r.choice(t["fields"])
            g = self.r.choice(t["sets"]) if t["sets"] else None
            if g and self.r.random() < .5:
                self.say("(let ((x %s)) (vk-try (lambda () (set-%s-%s! x 'changed) (if (%s? x) (%s-%s x) 'accepted))))" % (x, t["name"], g, t["name"], t["name"], g))
            else:
                self.say("(let ((x %s)) (vk-try (lambda () (let ((y (%s-%s x))) (if (%s? x) y 'accepted)))))" % (x, t["name"], f, t["name"]))

    def program(self):
        self.types_()
        for _ in range(self.r.randint(10, 60)):
            self.step()
        for v, _ in self.vecs:
            self.say(v)
        self.getall()
        return "\n".join(self.out) + "\n"


OPS = ["new_vector", "new_vector", "copy_vector", "ref", "ref", "edge", "set", "set", "set", "each", "same", "new_table", "put", "put", "put", "put", "get", "get", "get", "handle", "getall",
       "new_record", "new_record", "field", "field", "fields", "setfield", "setfield", "with_field", "alias", "pred", "wrong"]


def churn(r):
    """Many assignments to few keys with little memory, then the values."""
    ks = ["k%d" % i for i in range(r.randint(1, 30))]
    n = r.choice([100, 1000, 4000])
    q = r.random() < .5
    key = (lambda k: "'" + k) if q else (lambda k: '"%s"' % k)
    f = "hashq" if q else "hash"
    return ("(define h (make-hash-table %d))\n(define ks (list %s))\n"
            "(let loop ((i 0) (l ks)) (if (< i %d) (begin (%s-set! h (car l) i) (loop (+ i 1) (if (null? (cdr l)) ks (cdr l))))))\n"
            "(vk 0 (lambda () (map (lambda (k) (%s-ref h k 'none)) ks)))\n(vk 1 (lambda () (%s-ref h %s 'none)))\n") % (
                r.choice([1, 5, 100]), " ".join(key(k) for k in ks), n, f, f, f, key("absent"))


def samename(r):
    """Record types of one name made in different scopes."""
    out = ["(define (make-type n)\n  (define-record-type rec (mk %s) rec? (a rec-a set-rec-a!) (b rec-b))\n  (list mk rec? rec-a set-rec-a! rec-b))" % r.choice(["a b", "b a"])] + ["(define t%d (make-type %d))" % (i, i) for i in range(2)]
    out.append("(define t2 (let () (define-record-type rec (mk a b) rec? (b rec-b) (a rec-a set-rec-a!)) (list mk rec? rec-a set-rec-a! rec-b)))")
    n = r.choice([2, 3, 5])
    ts = [r.choice([0, 2]) for _ in range(n)]
    for i, t in enumerate(ts):
        out.append("(define x%d ((car t%d) %d '%d))" % (i, t, r.randint(0, 99), r.randint(0, 99)))
    k = 0
    for i in range(n):
        for t in (0, 2):
            out.append("(vk %d (lambda () (list ((cadr t%d) x%d) (vk-try (lambda () ((list-ref t%d %d) x%d))) (vk-try (lambda () (begin ((list-ref t%d 3) x%d 'changed) 'accepted))))))" % (k, t, i, t, r.choice([2, 4]), i, t, i))
            k += 1
    out.append("(vk %d (lambda () (list %s)))" % (k, " ".join("((list-ref t%d %d) x%d)" % (t, f, i) for i, t in enumerate(ts) for f in (2, 4))))
    return PRE + "\n".join(out) + "\n"


def go():
    c = Check("C09")
    m = sch.Mes(c, san=True)
    progs, kinds = [], {}
    for _ in range(c.n(900, 20000)):
        h = H(c.rng)
        progs.append(("history", PRE + h.program()))
        for k in h.kinds:
            kinds[k] = kinds.get(k, 0) + 1
    progs += [("churn", churn(c.rng)) for _ in range(c.n(40, 400))]
    progs += [("samename", samename(c.rng)) for _ in range(c.n(40, 400))]
    for k, n in kinds.items():
        c.count("histories with " + k, n)
    sch.judge_programs(c, m, progs, san=4, mespre=MESPRE, guilepre=GUILEPRE)
    c.finish("Programs of 10-60 steps over vectors (created, filled, copied, converted, aliased, nested, mapped, indexed in and out of range), hash tables with string or "
             "symbol keys whose names collide in the first two characters, sizes 1..100 or default, re-assignment, defaults, and 1-3 record types (constructor order and "
             "subset, setters, types of equal name in different scopes, functional update, accessors applied to everything); every value is printed and compared with Guile running the same "
             "history. Every fourth program also on the ASan/UBSan build.",
             min_events=dict({"compared": 4000, "of history": 300, "of churn": 20, "of samename": 20}, **{"histories with " + k: 50 for k in set(OPS)}))


if __name__ == "__main__":
    main(go)
