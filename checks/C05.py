import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vk.core import Check, main
from vk import sch

MIN, MAX = -2 ** 63, 2 ** 63 - 1


def fits(*v):
    return all(MIN <= x <= MAX for x in v)


def quo(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def text(n, radix):
    d = "0123456789abcdefghijklmnopqrstuvwxyz"
    s, u = "", abs(n)
    while True:
        s = d[u % radix] + s
        u //= radix
        if u == 0:
            return ("-" if n < 0 else "") + s


class A:
    def __init__(self, rng):
        self.r = rng

    def num(self, small=False):
        r = self.r
        if small or r.random() < .4:
            return r.randint(-20, 20)
        k = r.random()
        if k < .35:
            b = r.choice([7, 8, 15, 16, 30, 31, 32, 33, 47, 62, 63])
            n = r.choice([1, -1]) * ((1 << b) + r.randint(-2, 2))
        elif k < .45:
            n = r.choice([MIN, MAX, MIN + 1, MAX - 1, 0, 1, -1])
        else:
            n = r.getrandbits(r.randint(1, 63)) * r.choice([1, -1])
        return max(MIN, min(MAX, n))

    def lit(self, n):
        r = self.r
        k = r.random()
        if k < .85:
            return ("+" if n > 0 and r.random() < .05 else "") + str(n)
        c, b = r.choice([("x", 16), ("o", 8), ("b", 2)])
        t = text(n, b)
        return "#" + c + (t.upper() if c == "x" and r.random() < .3 else t)

    def nary(self, op, lo=0):
        """n-ary with every partial result in range, or None."""
        r = self.r
        k = r.choice([0, 1, 2, 2, 2, 3, 4, 6])
        k = max(lo, k)
        xs = [self.num(small=op == "*" and r.random() < .6) for _ in range(k)]
        if op == "+":
            v = 0
            for x in xs:
                v += x
                if not fits(v):
                    return None
        elif op == "*":
            v = 1
            for x in xs:
                v *= x
                if not fits(v):
                    return None
        elif op == "-":
            v = xs[0] if k > 1 else -xs[0]
            if not fits(v):
                return None
            for x in xs[1:]:
                v -= x
                if not fits(v):
                    return None
        elif op in ("logand", "logior", "logxor"):
            v = -1 if op == "logand" else 0
            for x in xs:
                v = v & x if op == "logand" else v | x if op == "logior" else v ^ x
        elif op in ("max", "min"):
            v = max(xs) if op == "max" else min(xs)
        return "(%s %s)" % (op, " ".join(map(self.lit, xs))), str(v)

    def compare(self, op):
        r = self.r
        k = r.choice([1, 2, 2, 2, 3, 3, 4, 5])
        xs = [self.num() for _ in range(k)]
        m = r.random()
        if m < .3:
            xs.sort(reverse=op[0] == ">")
        elif m < .5:
            xs = [xs[0]] * k
        elif m < .7 and k > 1:
            xs.sort(reverse=op[0] == ">")
            i = r.randrange(k - 1)
            xs[i + 1] = xs[i]
        f = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "=": lambda a, b: a == b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}[op]
        return "(%s %s)" % (op, " ".join(map(self.lit, xs))), "#t" if all(map(f, xs, xs[1:])) else "#f"

    def div(self, op):
        a, b = self.num(), self.num(small=self.r.random() < .5)
        if b == 0:
            return None
        q = quo(a, b)
        if not fits(q):
            return None
        if op == "/":
            if not fits(q * b):
                return None
            a = q * b
        v = {"quotient": q, "/": q, "remainder": a - q * b, "modulo": a - b * (a // b)}[op]
        return "(%s %s %s)" % (op, self.lit(a), self.lit(b)), str(v)

    def one(self, op):
        a = self.num()
        v = {"abs": abs(a), "1+": a + 1, "1-": a - 1, "lognot": ~a, "-": -a}.get(op)
        if v is not None:
            return ("(%s %s)" % (op, self.lit(a)), str(v)) if fits(v) else None
        v = {"even?": a % 2 == 0, "odd?": a % 2 == 1, "negative?": a < 0, "positive?": a > 0, "zero?": a == 0, "number?": True,
             "integer?": True}[op]
        return "(%s %s)" % (op, self.lit(a)), "#t" if v else "#f"

    def expt(self):
        a, b = self.num(small=self.r.random() < .7), self.r.choice([0, 1, 2, 3, self.r.randint(0, 70)])
        v = a ** b
        return ("(expt %s %d)" % (self.lit(a), b), str(v)) if fits(v) else None

    def ash(self):
        a, b = self.num(), self.r.randint(-70, 63)
        v = a << b if b >= 0 else a >> -b
        return ("(ash %s %d)" % (self.lit(a), b), str(v)) if fits(v) else None

    def literal(self):
        n = self.num()
        return self.lit(n), str(n)

    def quoted(self):
        xs = [self.num() for _ in range(self.r.randint(1, 4))]
        return "'(%s)" % " ".join(map(self.lit, xs)), "(%s)" % " ".join(map(str, xs))

    def n2s(self):
        n, b = self.num(), self.r.choice([None, 2, 8, 10, 16, self.r.randint(2, 36)])
        return "(number->string %s%s)" % (self.lit(n), "" if b is None else " %d" % b), '"%s"' % text(n, b or 10)

    def display(self):
        n = self.num()
        return "(%s (lambda () (%s %s)))" % ("with-output-to-string", self.r.choice(["display", "write"]), self.lit(n)), '"%d"' % n

    def s2n(self):
        n, b = self.num(), self.r.choice([None, 2, 8, 10, 16, 16, self.r.randint(2, 36)])
        t = text(n, b or 10)
        if self.r.random() < .3 and (b is None or b <= 16):
            t = t.upper()
        if self.r.random() < .1:
            t = "0" * self.r.randint(1, 3) + t if n >= 0 else t
        return '(string->number "%s"%s)' % (t, "" if b is None else " %d" % b), str(n)

    def s2nbad(self):
        r = self.r
        b = r.choice([None, 2, 8, 10, 16])
        k = b or 10
        t = text(self.num(), k)
        bad = r.choice(["g", "z", "-", " ", "_", "(", "'"] + {2: ["2", "9", "a"], 8: ["8", "9", "f"], 10: ["a", "f"], 16: []}[k])
        i = r.randint(1 if t[0] == "-" else 0, len(t))
        t = r.choice([t[:i] + bad + t[i:], "", "-", "--" + t, bad])
        if t.startswith("-") and t[1:].isdigit() and k == 10 or t.isdigit() and all(int(c) < k for c in t):
            return None
        try:
            int(t, k)
            if "_" not in t and " " not in t:
                return None
        except ValueError:
            pass
        return '(string->number "%s"%s)' % (t, "" if b is None else " %d" % b), "#f"

    def roundtrip(self):
        n, b = self.num(), self.r.choice([2, 8, 10, 16])
        return "(string->number (number->string %s %d) %d)" % (self.lit(n), b, b), str(n)

    def gcd(self):
        a, b = abs(self.num()), abs(self.num())
        if not fits(a, b):
            return None
        import math
        return "(let gcd ((a %d) (b %d)) (if (= 0 b) a (gcd b (remainder a b))))" % (a, b), str(math.gcd(a, b))

    def fact(self):
        n = self.r.randint(0, 20)
        v = 1
        for i in range(2, n + 1):
            v *= i
        return "(let fact ((n %d)) (if (zero? n) 1 (* n (fact (1- n)))))" % n, str(v)

    def divmod(self):
        """The division identities on one operand pair."""
        a, b = self.num(), self.num()
        if b == 0 or (a == MIN and b == -1):
            return None
        q = quo(a, b)
        return ("(let ((a %d) (b %d)) (list (= a (+ (* b (quotient a b)) (remainder a b))) (quotient a b) (remainder a b) (modulo a b)))" % (a, b),
                "(#t %d %d %d)" % (q, a - q * b, a - b * (a // b)))

    def tree(self, depth=3):
        """A random expression tree; the value is computed on the side."""
        r = self.r
        if depth == 0 or r.random() < .2:
            n = self.num(small=r.random() < .6)
            return self.lit(n), n
        while True:
            op = r.choice(["+", "-", "*", "quotient", "remainder", "modulo", "max", "min", "logand", "logior", "logxor", "abs", "if"])
            (s, x), (t, y) = self.tree(depth - 1), self.tree(depth - 1)
            if op == "abs":
                v, e = abs(x), "(abs %s)" % s
            elif op == "if":
                (u, z) = self.tree(depth - 1)
                v, e = (y if x < z else x), "(if (< %s %s) %s %s)" % (s, u, t, s)
            else:
                if op in ("quotient", "remainder", "modulo"):
                    if y == 0:
                        continue
                    v = {"quotient": quo(x, y), "remainder": x - y * quo(x, y), "modulo": x - y * (x // y)}[op]
                else:
                    v = {"+": x + y, "-": x - y, "*": x * y, "max": max(x, y), "min": min(x, y), "logand": x & y, "logior": x | y, "logxor": x ^ y}[op]
                e = "(%s %s %s)" % (op, s, t)
            if fits(v) and (op not in ("remainder", "modulo", "quotient") or fits(quo(x, y))):
                return e, v

    def random_tree(self):
        e, v = self.tree()
        return e, str(v)

    def case(self):
        while True:
            k = self.r.choice(TABLE)
            if k in ("+", "*", "logand", "logior", "logxor"):
                x = self.nary(k)
            elif k in ("-", "max", "min"):
                x = self.nary(k, 1)
            elif k in ("<", ">", "=", "<=", ">="):
                x = self.compare(k)
            elif k in ("quotient", "remainder", "modulo", "/"):
                x = self.div(k)
            elif hasattr(self, k):
                x = getattr(self, k)()
            else:
                x = self.one(k)
            if x:
                return k, x[0], x[1]


TABLE = ["+", "*", "logand", "logior", "logxor", "-", "max", "min", "<", ">", "=", "<=", ">=", "quotient", "remainder", "modulo", "/", "abs", "1+", "1-",
         "lognot", "even?", "odd?", "negative?", "positive?", "zero?", "number?", "expt", "ash", "literal", "quoted", "n2s", "display", "s2n", "s2nbad", "roundtrip",
         "gcd", "fact", "divmod", "random_tree", "random_tree"]


def go():
    c = Check("C05")
    m = sch.Mes(c, san=True)
    g = A(c.rng)
    cases = [sch.Case(*g.case()) for _ in range(c.n(12000, 200000))]
    sch.judge(c, m, cases, san=8)
    c.finish("One case = one arithmetic expression (n-ary operators with 0 to 6 operands, comparison chains, division in every sign combination, shifts, number/text "
             "conversion in several radixes, literals in every notation, random expression trees) over small, boundary and random 64-bit operands. Oracle: unbounded integers "
             "in Python; only cases whose every partial result fits 64 bits are run. Every eighth batch also on the ASan/UBSan build. Distinct = distinct expressions.",
             min_events={"compared": 8000, **{"of " + t: 20 for t in TABLE}})


if __name__ == "__main__":
    main(go)
