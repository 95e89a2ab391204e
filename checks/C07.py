import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vk.core import Check, main
from vk import sch, sgen

CXR = ["c%sr" % x for x in ["aa", "ad", "da", "dd"] + [a + b + c for a in "ad" for b in "ad" for c in "ad"]
       + [a + b + c + d for a in "ad" for b in "ad" for c in "ad" for d in "ad"]]


class L(sgen.G):
    def cxr(self):
        n = self.r.choice(CXR)
        x = self.datum(1)
        for k in n[1:-1]:
            x = "(%s . %s)" % ((x, self.atom()) if k == "a" else (self.atom(), x))
        return "cxr", "(%s '%s)" % (n, x)

    def keep(self, f, *args):
        """Call f and show its arguments afterwards: none may have changed."""
        vs = ["v%d" % i for i in range(len(args))]
        return "(let (%s) (let ((res (%s))) (list res %s)))" % (
            " ".join("(%s %s)" % (v, a if a[0] == "#" and len(a) < 2 else a) for v, a in zip(vs, args)), " ".join([f] + vs), " ".join(vs))

    def q(self, x):
        return "'" + x

    def case(self):
        r, q = self.r, self.q
        lst, ints, d, I = self.lst, self.ints, self.datum, self.int

        def one(n):
            return [q(ints()) for _ in range(n)]

        def same(n):
            l = self.len()
            return [q("(%s)" % " ".join(I() for _ in range(l))) for _ in range(n)]

        def withidx(f, extra=0):
            n = r.randint(1, 7)
            l = "(%s)" % " ".join(d(1) for _ in range(n))
            return "(%s '%s %d)" % (f, l, r.randint(0, n - 1 + extra))
        t = r.choice(TABLE)
        if t == "cxr":
            return self.cxr()
        k = self.keep
        p1, f1, f2, f3, eqv = self.pred1, self.fun1, self.fun2, self.fun3, self.eqv
        note1 = lambda f: "(lambda (x) (%s (vk-note x)))" % f
        note2 = lambda f: "(lambda (x y) (%s (vk-note x) (vk-note y)))" % f
        m = {
            "length": lambda: k("length", q(lst())),
            "append": lambda: k("append", *[q(lst()) for _ in range(r.randint(0, 5))]),
            "append-improper": lambda: k("append", *([q(lst()) for _ in range(r.randint(1, 3))] + [q(d(1))])),
            "reverse": lambda: k("reverse", q(lst())),
            "reverse!": lambda: "(reverse! (list %s))" % " ".join(self.int() for _ in range(self.len())),
            "append-reverse": lambda: k("append-reverse", q(lst()), q(lst())),
            "list": lambda: "(list %s)" % " ".join(self.int() for _ in range(self.len())),
            "cons*": lambda: k("cons*", *[q(d(1)) for _ in range(r.randint(1, 4))]),
            "list?": lambda: k("list?", q(d(2))),
            "list-ref": lambda: withidx("list-ref"),
            "list-head": lambda: withidx("list-head", 1),
            "list-tail": lambda: withidx("list-tail", 1),
            "list-set!": lambda: (lambda n: "(let ((l (list %s))) (list-set! l %d 'new) l)" % (" ".join(self.int() for _ in range(n)), r.randrange(n)))(r.randint(1, 6)),
            "last-pair": lambda: k("last-pair", q(lst(lo=1))),
            "last": lambda: k("last", q(lst(lo=1))),
            "iota": lambda: r.choice(["(iota %d)" % r.randint(0, 40), "(iota %d %s)" % (r.randint(0, 9), I()), "(iota %d %s %s)" % (r.randint(0, 9), I(), I(-4, 4))]),
            "make-list": lambda: "(make-list %d %s)" % (r.randint(0, 9), I()),
            "map1": lambda: k("map", f1(), q(ints())),
            "map2": lambda: k("map", f2(), *one(2)),
            "map3": lambda: k("map", f3(), *one(3)),
            "for-each1": lambda: "(begin (for-each vk-note '%s) 1)" % lst(),
            "for-each2": lambda: "(begin (for-each (lambda (x y) (vk-note (list x y))) '%s '%s) 1)" % (lst(), lst()),
            "for-each3": lambda: "(begin (for-each (lambda (x y z) (vk-note (list x y z))) '%s '%s '%s) 1)" % (ints(), ints(), ints()),
            "filter": lambda: k("filter", p1(), q(ints())),
            "remove": lambda: k("remove", p1(), q(ints())),
            "find": lambda: k("find", note1(p1()), q(ints())),
            "any1": lambda: k("any", note1(p1()), q(ints())),
            "any2": lambda: k("any", note2(r.choice(["<", "=", ">", "(lambda (x y) (if (= x y) (list x y) #f))"])), *one(2)),
            "every1": lambda: k("every", note1(p1()), q(ints())),
            "every2": lambda: k("every", note2(r.choice(["<", "=", ">", "<=", "list"])), *one(2)),
            "list-index1": lambda: k("list-index", note1(p1()), q(ints())),
            "list-index2": lambda: k("list-index", note2(r.choice(["<", "=", ">"])), *one(2)),
            "fold1": lambda: k(*(["fold", note2(f2()), "1", q(ints())] if r.random() < .7 else ["fold", note2(r.choice(["cons", "list"])), "'()", q(ints())])),
            "fold2": lambda: k("fold", f3(), r.choice(["0", "1"]), *one(2)),
            "fold3": lambda: k("fold", r.choice(["list", "+", "-"]), r.choice(["0", "1"]), *one(3)),
            "fold-right1": lambda: k(*(["fold-right", note2(f2()), "1", q(ints())] if r.random() < .7 else ["fold-right", note2(r.choice(["cons", "list"])), "'()", q(ints())])),
            "fold-right2": lambda: k("fold-right", f3(), r.choice(["0", "1"]), *same(2)),
            "fold-right3": lambda: k("fold-right", r.choice(["list", "+", "-"]), "1", *same(3)),
            "unfold": lambda: "(unfold (lambda (x) (> x %d)) %s (lambda (x) (+ x %d)) %d%s)" % (r.randint(0, 9), f1(), r.randint(1, 3), r.randint(0, 9), r.choice(["", " list", " (lambda (x) '(z))"])),
            "append-map1": lambda: k("append-map", r.choice(["list", "(lambda (x) (list x x))", "(lambda (x) (if (odd? x) (list x) '()))", "iota"]), q(ints(small=True))),
            "append-map2": lambda: k("append-map", r.choice(["list", "(lambda (x y) (if (< x y) (list x y) '()))"]), *one(2)),
            "filter-map1": lambda: k("filter-map", r.choice([p1, f1])(), q(ints())),
            "filter-map2": lambda: k("filter-map", r.choice(["+", "(lambda (x y) (if (< x y) (list x y) #f))", "<"]), *one(2)),
            "take-while": lambda: k("take-while", p1(), q(ints())),
            "delete": lambda: k("delete", q(d(1)), q(lst())),
            "delete-int": lambda: k("delete", I(0, 4), q(ints(small=True))),
            "delete-duplicates": lambda: k("delete-duplicates", q(r.choice([lambda: ints(small=True), lambda: lst(lambda: d(1, "sib"))])())),
            "delete-duplicates-eq": lambda: k("delete-duplicates", q(ints(small=True)), r.choice(["=", "(lambda (x y) (= (remainder x 3) (remainder y 3)))", "equal?"])),
            "memq": lambda: k("memq", q(self.key()), q(lst(self.key))),
            "memv": lambda: k("memv", q(r.choice([self.key(), I(0, 4), self.char()])), q(lst(lambda: r.choice([self.key(), I(0, 4), self.char()])))),
            "member": lambda: k("member", q(d(1)), q(lst())),
            "member-int": lambda: k("member", I(0, 4), q(ints(small=True))),
            "member-pred": lambda: k("member", I(0, 4), q(ints(small=True)), r.choice(["<", "=", ">", "(lambda (x y) (= x (+ y 1)))"])),
            "assq": lambda: k("assq", q(self.key()), q(self.alist())),
            "assv": lambda: k("assv", q(r.choice([self.key(), I(0, 4), self.char()])), q(self.alist(lambda: r.choice([self.key(), I(0, 4), self.char()])))),
            "assoc": lambda: k("assoc", q(d(1)), q(self.alist(lambda: d(1)))),
            "assq-ref": lambda: k("assq-ref", q(self.alist()), q(self.key())),
            "assv-ref": lambda: k("assv-ref", q(self.alist(lambda: I(0, 4))), I(0, 4)),
            "assoc-ref": lambda: k("assoc-ref", q(self.alist(lambda: self.str(alpha="ab", hi=2))), self.str(alpha="ab", hi=2)),
            "assq-set!": lambda: "(let ((l (list %s))) (assq-set! l '%s 'new))" % (" ".join("(cons '%s %s)" % (self.key(), I()) for _ in range(self.len())), self.key()),
            "assoc-set!": lambda: "(let ((l (list %s))) (assoc-set! l %s 'new))" % (" ".join("(cons %s %s)" % (self.str(alpha="ab", hi=2), I()) for _ in range(self.len())), self.str(alpha="ab", hi=2)),
            "acons": lambda: k("acons", q(d(1)), q(d(1)), q(self.alist())),
            "lset-union": lambda: k("lset-union", r.choice(["=", "equal?"]), *one(r.randint(0, 3))),
            "lset-union-sym": lambda: k("lset-union", "eq?", *[q(lst(self.sym)) for _ in range(r.randint(0, 3))]),
            "lset-intersection": lambda: k("lset-intersection", r.choice(["=", "equal?"]), *one(r.randint(1, 3))),
            "lset-difference": lambda: k("lset-difference", r.choice(["=", "equal?"]), *one(r.randint(1, 3))),
            "apply": lambda: "(apply %s %s)" % (r.choice(["list", "+", "-", "max"]), " ".join([I() for _ in range(r.randint(1, 3))] + [q(ints())])),
            "compose": lambda: "((compose %s) %s)" % (" ".join(r.choice(["1+", "1-", "-", "(lambda (x) (* x 2))"]) for _ in range(r.randint(1, 4))), I()),
            "const": lambda: "((const %s) %s)" % (I(), " ".join(I() for _ in range(r.randint(0, 3)))),
            "negate": lambda: "((negate %s) %s)" % (p1(), I()),
            "and=>": lambda: "(and=> %s %s)" % (r.choice(["#f", I()]), f1()),
            "set-car-cdr": lambda: "(let ((l (list %s))) (set-car! (cdr l) 'x) (set-cdr! (cddr l) 'y) l)" % " ".join(I() for _ in range(r.randint(3, 5))),
            "nested": lambda: "(fold (lambda (x acc) (append acc (map (lambda (y) (+ x y)) '%s))) '() (filter %s (reverse (iota %d))))" % (ints(), p1(), r.randint(0, 9)),
            "long": lambda: "(let ((l (iota %d))) (list (length (map 1+ l)) (apply + l) (fold + 0 l) (car (reverse l)) (length (filter odd? l)) (length (append l l))))" % r.randint(50, 300),
        }
        return t, m[t]()

    def int0(self):
        return self.int()


TABLE = ["cxr", "length", "append", "append-improper", "reverse", "reverse!", "append-reverse", "list", "cons*", "list?", "list-ref", "list-head", "list-tail",
         "list-set!", "last-pair", "last", "iota", "make-list", "map1", "map2", "map3", "for-each1", "for-each2", "for-each3", "filter", "remove", "find",
         "any1", "any2", "every1", "every2", "list-index1", "list-index2", "fold1", "fold2", "fold3", "fold-right1", "fold-right2", "fold-right3", "unfold",
         "append-map1", "append-map2", "filter-map1", "filter-map2", "take-while", "delete", "delete-int", "delete-duplicates", "delete-duplicates-eq",
         "memq", "memv", "member", "member-int", "member-pred", "assq", "assv", "assoc", "assq-ref", "assv-ref", "assoc-ref", "assq-set!", "assoc-set!", "acons",
         "lset-union", "lset-union-sym", "lset-intersection", "lset-difference", "apply", "compose", "const", "negate", "and=>", "set-car-cdr", "nested", "long"]


def go():
    c = Check("C07")
    m = sch.Mes(c, san=True)
    g = L(c.rng)
    cases = []
    for _ in range(c.n(9000, 150000)):
        k, e = g.case()
        cases.append(sch.Case(k, e))
    sch.judge(c, m, cases, san=10)
    c.finish("One case = one call of a list procedure on random arguments (lengths 0 to 7, up to 300 for some; nested data, improper tails, predicates and "
             "mappers of several kinds), with the arguments shown again after the call and the order of callback calls recorded where the definition fixes it. "
             "Oracle: Guile running the same expression. Every tenth batch also on the ASan/UBSan build. Distinct = distinct expressions.",
             min_events={"compared": 5000, **{"of " + t: 20 for t in TABLE}})


if __name__ == "__main__":
    main(go)
