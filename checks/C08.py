import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vk.core import Check, main
from vk import sch


def lit(s):
    """An expression for the string of these character codes."""
    if all(32 <= c < 127 for c in s):
        return '"%s"' % "".join("\\" + chr(c) if c in (34, 92) else chr(c) for c in s)
    return "(list->string (map integer->char '(%s)))" % " ".join(map(str, s))


def ch(c):
    if 33 <= c < 127:
        return "#\\" + chr(c)
    return "#\\space" if c == 32 else "(integer->char %d)" % c


class S:
    def __init__(self, rng):
        self.r = rng

    def codes(self, n=None, alphabet=None):
        r = self.r
        if n is None:
            n = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 20, 40])
        if alphabet is None:
            alphabet = r.choice([b"ab", b"ab", b"a b", b"abcAB ", b"/:.-", b"aA zZ09", b" \t\nx", None])
        if alphabet is None:
            return [r.randrange(0, 128) for _ in range(n)]
        return [r.choice(alphabet) for _ in range(n)]

    def any(self, n=None):
        """Any character codes, also above 127."""
        r = self.r
        if r.random() < .7:
            return self.codes(n)
        return [r.randrange(0, 256) for _ in range(r.choice([0, 1, 2, 5, 20, 100]) if n is None else n)]

    def char(self, s=None):
        r = self.r
        if s and r.random() < .6:
            return r.choice(s)
        return r.choice(self.codes(3) + [97])

    def pred(self, s=None):
        r = self.r
        c = self.char(s)
        k = r.choice(["char", "lambda", "num", "alpha", "ws", "not"])
        return {"char": ch(c), "lambda": "(lambda (c) (eq? c %s))" % ch(c), "num": "char-numeric?", "alpha": "char-alphabetic?", "ws": "char-whitespace?",
                "not": "(lambda (c) (not (eq? c %s)))" % ch(c)}[k]

    def proc(self, s=None):
        while True:
            p = self.pred(s)
            if p[0] != "#" and not p.startswith("(integer"):
                return p

    def sub(self, s):
        """A part of s, or something near."""
        r = self.r
        if s and r.random() < .7:
            i = r.randint(0, len(s))
            j = r.randint(i, len(s))
            return s[i:j]
        return self.codes(r.randint(0, 4), b"ab")

    def sym(self):
        return "".join(self.r.choice("abcxyz-!?*<>=+") for _ in range(self.r.randint(1, 6))).lstrip("+-") or "s"

    def datum(self, d=2):
        r = self.r
        if d <= 0 or r.random() < .5:
            k = r.choice(["int", "str", "sym", "bool", "nil", "char"])
            return {"int": str(r.randint(-100, 100)), "str": '"%s"' % "".join(r.choice("abc d") for _ in range(r.randint(0, 5))), "sym": self.sym(), "bool": r.choice(["#t", "#f"]), "nil": "()",
                    "char": "#\\" + r.choice("abc")}[k]
        return "(%s)" % " ".join(self.datum(d - 1) for _ in range(r.randint(0, 4)))

    def case(self):
        r = self.r
        s = self.codes()
        S, n = lit(s), len(s)
        i = r.randint(0, n)
        j = r.randint(i, n)
        a = self.any()
        A = lit(a)
        k = r.choice(NAMES)
        f = {
            "string-length": lambda: "(string-length %s)" % A,
            "string-ref": lambda: "(let ((s %s)) (map (lambda (i) (string-ref s i)) '(%s)))" % (A, " ".join(str(r.randrange(len(a))) for _ in range(4))) if a else None,
            "string-ref all": lambda: "(let ((s %s)) (let loop ((i 0)) (if (= i %d) '() (cons (string-ref s i) (loop (+ i 1))))))" % (A, len(a)),
            "substring": lambda: "(substring %s %d %d)" % (S, i, j) if r.random() < .8 else "(%s %s %d)" % (r.choice(["substring", "substring/shared", "substring/copy"]), S, i),
            "string-append": lambda: "(string-append %s)" % " ".join(lit(self.any()) for _ in range(r.randint(0, 6))),
            "string": lambda: "(string %s)" % " ".join(ch(c) for c in s),
            "make-string": lambda: "(make-string %d %s)" % (r.randint(0, 300), ch(self.char())),
            "string->list": lambda: "(string->list %s)" % A,
            "list->string": lambda: "(list->string (list %s))" % " ".join(ch(c) for c in a),
            "reverse-list->string": lambda: "(reverse-list->string (list %s))" % " ".join(ch(c) for c in s),
            "string-copy": lambda: "(let* ((s %s) (t (string-copy s))) (list t (string=? s t)))" % A,
            "string-set!": lambda: "(let* ((s (string-copy %s)) (t s) (u (string-copy s))) (string-set! s %d %s) (list s t u))" % (S, r.randrange(n), ch(self.char())) if n else None,
            "string-set! shared": lambda: "(let* ((y '%s) (s (symbol->string y))) (string-set! s 0 #\\X) (list (eq? y '%s) (symbol->string y) s))" % ((self.sym(),) * 2)
            if 0 else "(let* ((s (string-copy %s)) (y (string->symbol s)) (t (string-append s))) (string-set! s %d #\\X) (list y s t (eq? y (string->symbol t))))" % (S, r.randrange(n)) if n else None,
            "string=?": lambda: "(let ((s %s)) (list (string=? s %s) (string=? s (string-append s \"\")) (equal? s %s) (eq? s s)))" % (A, lit(a if r.random() < .4 else self.near(a)), lit(self.near(a))),
            "string=": lambda: "(string= %s %s %s)" % (S, lit(self.near(s)), " ".join(map(str, self.ranges(s)))),
            "string-prefix?": lambda: "(string-prefix? %s %s)" % (lit(s[:i] if r.random() < .5 else self.near(s[:i])), S),
            "string-suffix?": lambda: "(string-suffix? %s %s)" % (lit(s[i:] if r.random() < .5 else self.near(s[i:])), S),
            "string-null?": lambda: "(string-null? %s)" % A,
            "string-join": lambda: "(string-join (list %s)%s)" % (" ".join(lit(self.codes(r.randint(0, 4))) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))),
                                                                    "" if r.random() < .3 else " " + lit(self.codes(r.randint(0, 3))) + ("" if r.random() < .4 else " '" + r.choice(["infix", "prefix", "suffix"]))),
            "string-split": lambda: "(string-split %s %s)" % (S, ch(self.char(s))),
            "string-take": lambda: "(list (string-take %s %d) (string-drop %s %d) (string-drop-right %s %d))" % (S, i, S, j, S, i),
            "string-delete": lambda: "(string-delete %s %s)" % (self.pred(s), S),
            "string-index": lambda: "(string-index %s %s)" % (S, self.pred(s)),
            "string-rindex": lambda: "(string-rindex %s %s)" % (S, self.pred(s)),
            "string-fold": lambda: "(string-fold (lambda (c acc) (vk-note c) (cons c acc)) '(z) %s)" % S,
            "string-fold-right": lambda: "(string-fold-right (lambda (c acc) (vk-note c) (cons c acc)) '(z) %s)" % S,
            "string-contains": lambda: "(string-contains %s %s)" % (S, lit(self.sub(s))),
            "string-trim": lambda: "(list (string-trim %s) (string-trim-right %s) (string-trim-both %s))" % ((lit(self.codes(None, b" \t\nab")),) * 3),
            "string-trim-pred": lambda: "(list (string-trim %s %s) (string-trim-right %s %s) (string-trim-both %s %s))" % ((S, self.pred(s)) * 3),
            "string-map": lambda: "(string-map %s %s)" % (r.choice(["char-upcase", "char-downcase", "(lambda (c) (if (eq? c #\\a) #\\b c))", "(lambda (c) (integer->char (modulo (+ 1 (char->integer c)) 128)))"]), S),
            "string-replace": lambda: "(string-replace %s %s %d %d)" % (S, lit(self.codes(r.randint(0, 5))), i, j),
            "string-case": lambda: "(list (string-upcase %s) (string-downcase %s))" % (S, S),
            "string-tokenize": lambda: "(string-tokenize %s %s)" % (S, self.charset()),
            "symbols": lambda: "(let* ((y (string->symbol %s)) (s (symbol->string y))) (list s (string->symbol s) (eq? y (string->symbol s)) (symbol->string (symbol-append y 'x y))))" % A,
            "symbol-prefix?": lambda: "(symbol-prefix? '%s '%s)" % (r.choice(["a", "ab", "b"]), r.choice(["a", "ab", "abc", "ba", "b"])),
            "keywords": lambda: "(let* ((y (string->symbol %s)) (k (symbol->keyword y))) (list k (keyword->symbol k) (eq? y (keyword->symbol k)) (keyword? k) (keyword? y) (symbol? k)))" % (lit(s) if s else '"a"'),
            "numbers": lambda: "(let ((s (number->string %d))) (list s (string->number s)))" % (r.choice([1, -1]) * r.getrandbits(r.randint(0, 62))),
            "char-order": lambda: "(let ((a %s) (b %s)) (list (char=? a b) (char<? a b) (char>? a b) (char<=? a b) (char>=? a b)))" % (ch(r.randrange(256)), ch(r.randrange(256))),
            "format": self.format,
            "object->string": lambda: "(object->string '%s)" % self.datum(),
            "basename": lambda: "(list (dirname %s) (basename %s))" % ((lit(self.path()),) * 2),
            "basename-suffix": lambda: "(basename %s %s)" % (lit(self.path() + [46, 99]), r.choice(['".c"', '".o"', '"c"'])),
            "char-set": lambda: "(let ((cs %s)) (map (lambda (c) (char-set-contains? cs c)) (list %s)))" % (self.charset(), " ".join(ch(self.char()) for _ in range(8))),
            "read-string": lambda: "(with-input-from-string %s read-string)" % A,
            "with-output-to-string": lambda: "(with-output-to-string (lambda () (display %s) (write-char %s) (display '%s)))" % (A, ch(self.char()), self.datum()),
            "string-equality": lambda: "(let ((s %s) (t %s)) (list (equal? s t) (equal? (list s) (list t)) (eq? (string->symbol s) (string->symbol t))))" % (A, lit(self.near(a))),
        }[k]
        e = f()
        return (k, e) if e else None

    def near(self, s):
        r = self.r
        s = list(s)
        k = r.random()
        if k < .3 or not s:
            return s
        if k < .5:
            s[r.randrange(len(s))] ^= r.choice([1, 32])
        elif k < .7:
            s.pop()
        elif k < .85:
            s.append(r.choice([97, 0]))
        else:
            s = s[1:]
        return s

    def ranges(self, s):
        r = self.r
        n = len(s)
        i = r.randint(0, n)
        return [[], [i], [i, r.randint(i, n)]][r.randrange(3)]

    def charset(self):
        r = self.r
        return r.choice(["(char-set %s)" % " ".join(ch(c) for c in set(self.codes(3))), "(string->char-set %s)" % lit(sorted(set(self.codes(4)))), "char-set:whitespace", "char-set:digit",
                         "(list->char-set (list #\\a #\\b))", "(char-set-complement (char-set #\\a #\\space))", "(char-set-adjoin (char-set #\\a) #\\b #\\/)", "(char-set-complement char-set:whitespace)"])

    def path(self):
        r = self.r
        return list(r.choice(["", "/", ""]).encode() + "/".join(r.choice(["a", "bc", "d.c", "x.y.z", ".."]) for _ in range(r.randint(1, 4))).encode())

    def format(self):
        r = self.r
        out, args = "", []
        for _ in range(r.randint(0, 6)):
            k = r.random()
            if k < .4:
                out += r.choice(["a", "b ", "x=", ", ", ""])
            elif k < .7:
                out += r.choice(["~a", "~A"])
                args.append("'" + self.datum())
            elif k < .85:
                out += r.choice(["~s", "~S"])
                args.append("'" + self.datum())
            elif k < .95:
                out += "~%"
            else:
                out += "~~"
        return '(%s #f "%s" %s)' % (r.choice(["format", "simple-format"]), out, " ".join(args))


NAMES = ["string-length", "string-ref", "string-ref all", "substring", "string-append", "string", "make-string", "string->list", "list->string", "reverse-list->string", "string-copy", "string-set!", "string-set! shared",
         "string=?", "string=", "string-prefix?", "string-suffix?", "string-null?", "string-join", "string-split", "string-take", "string-delete", "string-index", "string-rindex", "string-fold",
         "string-fold-right", "string-contains", "string-contains", "string-trim", "string-trim-pred", "string-map", "string-replace", "string-case", "string-tokenize", "symbols", "symbol-prefix?", "keywords",
         "numbers", "char-order", "format", "object->string", "basename", "basename-suffix", "char-set", "read-string", "with-output-to-string", "string-equality"]


def go():
    c = Check("C08")
    m = sch.Mes(c, san=True)
    g = S(c.rng)
    cases = [sch.Case("chars", "(let ((c (integer->char %d))) (list (char-upcase c) (char-downcase c) (char-alphabetic? c) (char-numeric? c) (char-whitespace? c) (char->integer c) (char? c) (string? (string c))))" % n)
             for n in range(128)]
    cases += [sch.Case("chars", "(let ((c (integer->char %d))) (list (char->integer c) (string-ref (string c) 0) (char? c)))" % n) for n in range(256)]
    while len(cases) < c.n(11000, 150000):
        k = g.case()
        if k:
            cases.append(sch.Case(*k))
    c.rng.shuffle(cases)
    guilepre = """(define (symbol-prefix? a b) (string-prefix? (symbol->string a) (symbol->string b)))
(set! %default-port-encoding "ISO-8859-1")
"""
    sch.judge(c, m, cases, batch=70, san=10, guilepre=guilepre)
    c.finish("One case = one call (or small group) of a string or character procedure with generated arguments: empty strings, small alphabets so that separators, needles and "
             "prefixes repeat and overlap, all 256 character codes where case and class do not matter, every index range. Oracle: Guile. All 128 ASCII characters through "
             "every classification and case procedure. Every tenth batch also on the ASan/UBSan build.",
             min_events=dict({"compared": 8000, "of chars": 380}, **{"of " + k: 40 for k in NAMES}))


if __name__ == "__main__":
    main(go)
