"""Random Scheme data and expressions as text."""

SYMS = ["a", "b", "c", "foo", "bar", "x1", "list", "if", "a-b", "->x", "z*"]
CHARS = ["#\\a", "#\\b", "#\\z", "#\\A", "#\\Z", "#\\0", "#\\9", "#\\space", "#\\newline", "#\\-", "#\\(", "#\\;", "#\\\"", "#\\\\", "#\\x", "#\\tab"]


class G:
    def __init__(self, rng):
        self.r = rng

    def int(self, lo=-9, hi=20):
        return str(self.r.randint(lo, hi))

    def sym(self):
        return self.r.choice(SYMS)

    def rawstr(self, alpha="abcAB 01,.-", lo=0, hi=8):
        return "".join(self.r.choice(alpha) for _ in range(self.r.randint(lo, hi)))

    def str(self, **k):
        return quote(self.rawstr(**k))

    def char(self):
        return self.r.choice(CHARS)

    def atom(self, kinds="isScb"):
        k = self.r.choice(kinds)
        return {"i": self.int, "s": self.sym, "S": self.str, "c": self.char, "b": lambda: self.r.choice(["#t", "#f", "()"])}[k]()

    def datum(self, depth=2, kinds="isScb"):
        if depth <= 0 or self.r.random() < .5:
            return self.atom(kinds)
        k = self.r.random()
        n = self.r.randint(0, 4)
        xs = [self.datum(depth - 1, kinds) for _ in range(n)]
        if k < .15 and n:
            return "(%s . %s)" % (" ".join(xs), self.datum(depth - 1, kinds))
        if k < .3:
            return "#(%s)" % " ".join(xs)
        return "(%s)" % " ".join(xs)

    def len(self, hi=7):
        r = self.r
        return r.choice([0, 1, 2, 3, r.randint(0, hi), r.randint(0, hi)])

    def lst(self, elem=None, lo=0, hi=7):
        elem = elem or (lambda: self.datum(1))
        return "(%s)" % " ".join(elem() for _ in range(max(lo, self.len(hi))))

    def ints(self, lo=0, hi=7, small=False):
        return self.lst((lambda: self.int(0, 4)) if small else self.int, lo, hi)

    def key(self):
        """Things that eq?, eqv? and equal? treat alike in every Scheme."""
        return self.r.choice([self.sym, self.sym, lambda: self.r.choice(["#t", "#f", "()"])])()

    def alist(self, key=None, val=None, lo=0, hi=6):
        key = key or self.key
        val = val or (lambda: self.datum(1))
        return "(%s)" % " ".join("(%s . %s)" % (key(), val()) for _ in range(max(lo, self.len(hi))))

    def pred1(self):
        return self.r.choice(["even?", "odd?", "negative?", "positive?", "zero?", "(lambda (x) (> x %s))" % self.int(), "(lambda (x) (= x %s))" % self.int(0, 4),
                              "(lambda (x) #t)", "(lambda (x) #f)", "(lambda (x) (if (> x 3) (list x) #f))"])

    def fun1(self):
        return self.r.choice(["(lambda (x) (+ x 1))", "-", "(lambda (x) (* x x))", "list", "(lambda (x) (list x x))", "number->string",
                              "(lambda (x) (if (odd? x) x #f))", "1+", "1-", "identity"])

    def fun2(self):
        return self.r.choice(["cons", "+", "-", "list", "*", "(lambda (x y) (list y x))", "(lambda (x y) (if (< x y) x y))", "max", "min", "<", "="])

    def fun3(self):
        return self.r.choice(["list", "+", "-", "(lambda (x y z) (cons z (- x y)))"])

    def eqv(self):
        return self.r.choice(["eq?", "equal?", "eqv?", "(lambda (x y) (equal? x y))"])


def quote(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")
