import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main
from vk import sch

# A datum: ("sym", name) ("key", name) ("num", n) ("char", n) ("str", text) ("bool", b) ("nil",) ("pair", a, d) ("vec", items) ("proc", name)
ATOMS = ("sym", "key", "num", "char", "bool", "nil", "proc")


def q(s):
    """A string literal."""
    return '"%s"' % "".join("\\" + c if c in '\\"' else c for c in s)


class G:
    def __init__(self, rng):
        self.r = rng

    def name(self):
        r = self.r
        if r.random() < .7:
            return "".join(r.choice("ab") for _ in range(r.choice([1, 1, 2, 2, 3]))) + r.choice(["", "", "", "c", "-x", "!", "?"])
        if r.random() < .5:
            return r.choice(["lambda", "if", "define", "quote", "car", "else", "=>", "x1", "nil", "t", "f", "...", "+", "-", "1+", "<=?", "a.b", "->"])
        return "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789-*/<>=!?:$%_&~^") for _ in range(r.choice([6, 17, 40, 100]))).join(["z", ""])

    def num(self):
        r = self.r
        return r.choice([0, 1, -1, 97, 98, 10, 32, r.randint(-300, 300), r.choice([1, -1]) * r.getrandbits(r.randint(1, 61))])

    def datum(self, d=3):
        r = self.r
        k = r.choice(["sym", "sym", "num", "num", "char", "str", "str", "bool", "nil", "key", "proc", "pair", "pair", "pair", "vec"])
        if d == 0 and k in ("pair", "vec"):
            k = "num"
        if k == "sym" or k == "key":
            n = self.name()
            return (k, n if k == "sym" else r.choice(["a", "ab", "b", "key", "abc"]))
        if k == "num":
            return (k, self.num())
        if k == "char":
            return (k, r.choice([97, 98, 10, 32, 48, 49, 0, 127, 1]))
        if k == "str":
            return (k, r.choice(["", "a", "b", "ab", "ba", "abc", "a b", "1", "97", self.name()]))
        if k == "bool":
            return (k, r.random() < .5)
        if k == "nil":
            return ("nil",)
        if k == "proc":
            return (k, r.choice(["car", "cdr", "p0", "p1"]))
        if k == "vec":
            return (k, tuple(self.datum(d - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))))
        n = r.choice([1, 1, 2, 3, 6])
        x = ("nil",) if r.random() < .8 else self.datum(0)
        for _ in range(n):
            x = ("pair", self.datum(d - 1), x)
        return x

    def near(self, x):
        """Something one change away, of the same or of another type."""
        r = self.r
        k = x[0]
        if r.random() < .3:
            if k == "sym":
                return r.choice([("str", x[1]), ("sym", x[1] + "a"), ("key", x[1] if x[1].isalpha() else "a")])
            if k == "num":
                return r.choice([("char", x[1] % 128), ("num", x[1] + 1), ("num", -x[1]), ("str", str(x[1]))])
            if k == "char":
                return r.choice([("num", x[1]), ("char", (x[1] + 1) % 128), ("str", chr(x[1]) if 32 <= x[1] < 127 else "")])
            if k == "str":
                return r.choice([("str", x[1] + "a"), ("str", x[1][:-1]), ("sym", x[1]) if x[1].isalpha() else ("nil",), ("str", x[1].swapcase())])
            if k == "key":
                return r.choice([("sym", x[1]), ("str", x[1]), ("key", x[1] + "b")])
            if k == "bool":
                return ("bool", not x[1])
            if k == "nil":
                return r.choice([("bool", False), ("vec", ()), ("str", "")])
        if k == "pair":
            c = r.random()
            if c < .1:
                l, y = [], x
                while y[0] == "pair":
                    l.append(y[1])
                    y = y[2]
                return ("vec", tuple(l))
            if c < .5:
                return ("pair", self.near(x[1]), x[2])
            return ("pair", x[1], self.near(x[2]))
        if k == "vec" and x[1]:
            c = r.random()
            if c < .2:
                return ("vec", x[1][:-1])
            i = r.randrange(len(x[1]))
            return ("vec", x[1][:i] + (self.near(x[1][i]),) + x[1][i + 1:])
        return self.datum(1)

    def symbol(self, n):
        """An expression for the symbol of this name, however obtained."""
        r = self.r
        i = r.randint(0, len(n))
        k = r.choice(["quote", "string", "string", "append", "keyword", "join", "read", "list", "mutated", "cut", "twice"])
        if n in ("...", "+", "-", "1+", "->", "=>") and k == "append":
            k = "string"
        if k == "quote":
            return "'" + n
        if k == "append" and 0 < i < len(n):
            return "(symbol-append %s %s)" % tuple("(string->symbol %s)" % q(x) for x in (n[:i], n[i:]))
        if k == "keyword":
            return "(keyword->symbol (symbol->keyword (string->symbol %s)))" % q(n)
        if k == "join":
            return "(string->symbol (string-append %s %s))" % (q(n[:i]), q(n[i:]))
        if k == "read":
            return "(with-input-from-string %s read)" % q(r.choice(["", " ", "\n;x\n"]) + n + r.choice(["", " ", "\n", ")", " b"]))
        if k == "list":
            return "(string->symbol (list->string (list %s)))" % " ".join("(integer->char %d)" % ord(c) for c in n)
        if k == "mutated":
            return "(let* ((s (string-copy %s)) (y (string->symbol s))) (string-set! s 0 #\\Q) y)" % q(n)
        if k == "cut":
            return "(string->symbol (substring %s 1 %d))" % (q("x" + n + "y"), len(n) + 1)
        if k == "twice":
            return "(string->symbol (symbol->string (string->symbol %s)))" % q(n)
        return "(string->symbol %s)" % q(n)

    def expr(self, x, fresh=True):
        """An expression that makes the datum (of new pairs, strings and vectors)."""
        r = self.r
        k = x[0]
        if k == "sym":
            return self.symbol(x[1])
        if k == "key":
            return "#:" + x[1] if r.random() < .5 else "(symbol->keyword '%s)" % x[1]
        if k == "num":
            n = x[1]
            return r.choice([str(n), "(- %d 1)" % (n + 1), "(string->number \"%d\")" % n])
        if k == "char":
            return "(integer->char %d)" % x[1]
        if k == "str":
            i = r.randint(0, len(x[1]))
            return r.choice(["(string-append %s %s)" % (q(x[1][:i]), q(x[1][i:])), "(string-copy %s)" % q(x[1]), "(list->string (string->list %s))" % q(x[1])])
        if k == "bool":
            return "#t" if x[1] else "#f"
        if k == "nil":
            return r.choice(["'()", "(list)", "(cdr (list 1))"])
        if k == "proc":
            return x[1]
        if k == "vec":
            return r.choice(["(vector %s)", "(list->vector (list %s))"]) % " ".join(self.expr(y) for y in x[1])
        if r.random() < .5:
            return "(cons %s %s)" % (self.expr(x[1]), self.expr(x[2]))
        l, y = [], x
        while y[0] == "pair":
            l.append(self.expr(y[1]))
            y = y[2]
        return "(list %s)" % " ".join(l) if y == ("nil",) else "(cons* %s %s)" % (" ".join(l), self.expr(y))

    def world(self, n):
        """Variables: (expression, datum, identity)."""
        r = self.r
        w = []
        for i in range(n):
            c = r.random()
            if w and c < .35:
                j = r.randrange(i)
                x = w[j][1]
                w.append((self.expr(x), x, i))                     # a copy
            elif w and c < .6:
                x = self.near(w[r.randrange(i)][1])
                w.append((self.expr(x), x, i))
            elif w and c < .75:
                j = r.randrange(i)
                w.append(("x%d" % j, w[j][1], w[j][2]))            # an alias
            else:
                x = self.datum()
                w.append((self.expr(x), x, i))
        return w


def small(x):
    return x[0] != "num" or abs(x[1]) < 2 ** 60


def eq(a, b):
    if a[2] == b[2] or a[1][0] in ATOMS or b[1][0] in ATOMS:
        return a[1] == b[1]
    return False


def scm(x):
    if x is True:
        return "#t"
    if x is False:
        return "#f"
    if isinstance(x, list):
        return "(" + " ".join(map(scm, x)) + ")"
    return str(x)


def cases(g, n):
    """One program: the world, then one line per question."""
    r = g.r
    w = g.world(n)
    out = ["(define (p0 x) x)", "(define (p1 x) x)"]
    if r.random() < .3:
        out.append("(define junk (let loop ((i 0)) (if (< i %d) (begin (string->symbol (string-append \"junk\" (number->string i))) (loop (+ i 1))))))" % r.choice([100, 2000]))
    out += ["(define x%d %s)" % (i, e) for i, (e, x, _) in enumerate(w)]
    out.append("(define all (list %s))" % " ".join("x%d" % i for i in range(n)))
    out.append("(define table (map (lambda (x) (cons x (list 'entry x))) all))")
    if r.random() < .3:
        out.append("(gc)" if 0 else "(define garbage (let loop ((i 0) (l '())) (if (< i 20000) (loop (+ i 1) (list i l)) #t)))")
    want = []
    k = [0]

    def say(e, v, key):
        out.append("(vk %d (lambda () %s))" % (k[0], e))
        want.append((key, "@%d %s" % (k[0], scm(v)), e))
        k[0] += 1

    for i in range(n):
        a = w[i]
        say("(map (lambda (y) (equal? x%d y)) all)" % i, [a[1] == b[1] for b in w], "equal?")
        if small(a[1]):
            say("(map (lambda (y) (eq? x%d y)) all)" % i, [eq(a, b) for b in w], "eq?")
        say("(map (lambda (y) (eqv? x%d y)) all)" % i, [eq(a, b) for b in w], "eqv?")
        same = [eq(a, b) for b in w]
        equ = [a[1] == b[1] for b in w]
        for f, m in (("memq", same), ("memv", same), ("member", equ)):
            j = r.randint(0, n)
            rest = [t for t in range(j, n) if m[t]]
            if f != "memq" or small(a[1]):
                say("(let ((t (%s x%d (list-tail all %d)))) (and t (length t)))" % (f, i, j), n - rest[0] if rest else False, f)
        for f, m in (("assq", same), ("assv", same), ("assoc", equ)):
            j = r.randint(0, n)
            rest = [t for t in range(j, n) if m[t]]
            if f != "assq" or small(a[1]):
                if not rest:
                    say("(%s x%d (list-tail table %d))" % (f, i, j), False, f)
                else:
                    say("(let ((e (%s x%d (list-tail table %d)))) (and (pair? e) (eq? e (list-ref table %d))))" % (f, i, j, rest[0]), True, f)
        say("(length (delete x%d all))" % i, n - sum(equ), "delete")
        if a[1][0] == "sym":
            say("(list (symbol? x%d) (string? x%d) (length (filter symbol? all)))" % (i, i), [True, False, sum(b[1][0] == "sym" for b in w)], "type")
            say("(string->list (symbol->string x%d))" % i, ["#\\%d" % ord(c) for c in a[1][1]], "spelling")
            say("(let ((h (make-hash-table 3))) (for-each (lambda (y i) (if (symbol? y) (hashq-set! h y i))) all '(%s)) (hashq-ref h x%d 'none))" % (" ".join(map(str, range(n))), i),
                max(t for t in range(n) if w[t][1] == a[1]), "hashq")
        if a[1][0] == "str":
            say("(let ((h (make-hash-table 3))) (for-each (lambda (y i) (if (string? y) (hash-set! h y i))) all '(%s)) (hash-ref h x%d 'none))" % (" ".join(map(str, range(n))), i),
                max(t for t in range(n) if w[t][1] == a[1]), "hash")
    g0 = r.randint(2, 30)
    say("(let loop ((i 0) (l '())) (if (< i %d) (loop (+ i 1) (let ((s (gensym))) (if (or (memq s l) (memq s all) (not (symbol? s))) (cons 'clash l) (cons s l)))) (list (length l) (memq 'clash l))))" % g0, [g0, False], "gensym")
    return "\n".join(out) + "\n", want


def go():
    c = Check("C10")
    m = sch.Mes(c, san=True)
    g = G(c.rng)
    jobs = [cases(g, c.rng.choice([3, 6, 10, 14])) for _ in range(c.n(500, 12000))]
    head = sch.MES + sch.COMMON

    def one(ij):
        i, (text, want) = ij
        for san in ([False, True] if i % 6 == 0 else [False]):
            r = m.run(head + text, san=san, timeout=120)
            got = [l for l in r.out.decode("latin1").split("\n") if l]
            rep = san and sch.sanitizer(r.err)
            c.case(text, n=len(want))
            for n, (key, line, e) in enumerate(want):
                l = got[n] if n < len(got) else None
                if l is None or rep:
                    c.violation("sanitizer:" + rep[0] if rep else "%s:fails" % key, "%s\n status %s %r %s\n%s" % (e, r.rc, r.err[-300:], rep or "", text), dict(program=head + text))
                    break
                c.count("of " + key)
                if l != line:
                    c.violation(key, "%s\n expected %s\n got      %s\n%s" % (e, line, l, text), dict(program=head + text, expected=line, got=l))
                    break
        if i < 4:
            c.sample(text[:600])

    c.pmap(one, enumerate(jobs))
    c.finish("Each program makes 3-14 data (atoms of every type, strings, pairs, vectors, nested; copies, aliases, and data one change away, also of another type with the "
             "same bits: 97 and #\\a, symbol, string and keyword of one name), symbols obtained by quotation, string->symbol of built, cut and later changed strings, "
             "symbol-append, keywords and read, before and after garbage and thousands of other symbols; it prints the whole eq?, eqv?, equal? matrices and every lookup "
             "(memq memv member assq assv assoc delete, hash tables) from a random start. Oracle: a Python model of identity and structure. Every sixth on the "
             "ASan/UBSan build.",
             min_events={"of " + k: 100 for k in ("equal?", "eq?", "eqv?", "memq", "memv", "member", "assq", "assv", "assoc", "delete", "spelling", "hashq", "hash", "gensym")})


if __name__ == "__main__":
    main(go)
