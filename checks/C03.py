import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vk.core import Check, main
from vk import sch, sprog, sgen


def text(g, syntax):
    defs, obs = g.program(depth=g.r.choice([2, 3, 4, 5, 6]), syntax=syntax)
    out = list(defs)
    for i, o in enumerate(obs):
        out.append(o[1] if isinstance(o, tuple) else "(vk %d (lambda () %s))" % (i, o))
    return "\n".join(out) + "\n"


class M(sgen.G):
    """Forms of the extension libraries: matching, multiple values, optional arguments, partial application."""

    def pat(self, d, vs):
        """A pattern and a datum that may match it."""
        r = self.r
        k = r.random()
        if d <= 0 or k < .45:
            k = r.random()
            if k < .45:
                v = "v%d" % len(vs)
                vs.append(v)
                return ",%s" % v if self.pm else v, self.datum(1, "is")
            if k < .6:
                return ",_" if self.pm else "_", self.datum(1, "is")
            if k < .8:
                x = self.int()
                return x, x
            x = self.sym()
            return (x if self.pm else "'" + x), x
        n = r.randint(0, 3)
        ps = [self.pat(d - 1, vs) for _ in range(n)]
        if r.random() < .35 and n:
            t = "v%d" % len(vs)
            vs.append(t)
            rest = [self.datum(1, "is") for _ in range(r.randint(0, 3))]
            return "(%s . %s)" % (" ".join(p for p, _ in ps), ",%s" % t if self.pm else t), "(%s)" % " ".join([x for _, x in ps] + rest)
        return "(%s)" % " ".join(p for p, _ in ps), "(%s)" % " ".join(x for _, x in ps)

    def mutate(self, x):
        return x if self.r.random() < .6 else self.datum(2, "is") if self.r.random() < .5 else "(%s %s)" % (x, self.int())

    def match(self, pm):
        r = self.r
        self.pm = pm
        cl, data = [], []
        for _ in range(r.randint(1, 4)):
            vs = []
            p, x = self.pat(3, vs)
            data.append(x)
            g = ""
            if vs and r.random() < .25:
                g = "(guard (pair? %s)) " % vs[0] if pm else ""
            cl.append("(%s %s(list %d %s))" % (p, g, len(cl), " ".join(vs)))
        x = self.mutate(r.choice(data))
        if pm:
            return "(pmatch '%s %s (else 'none))" % (x, " ".join(cl))
        return "(match '%s %s (_ 'none))" % (x, " ".join(cl))

    def misc(self):
        r, I = self.r, self.int
        k = r.choice(["receive", "case-lambda", "cut", "values", "lambda*", "and-let", "compose", "fluid"])
        n = r.randint(0, 4)
        args = " ".join(I() for _ in range(n))
        if k == "receive":
            vs = ["a", "b", "c"][:min(n, r.randint(0, 3))]
            f = "(%s)" % " ".join(vs) if len(vs) == n else "(%s . rest)" % " ".join(vs) if vs else "rest"
            return "(receive %s (values %s) (list %s))" % (f, args, " ".join(vs + (["rest"] if len(vs) != n or not vs and f == "rest" else []))) if n != 1 else None
        if k == "case-lambda":
            return "((case-lambda (() 'none) ((a) (list 'one a)) ((a b) (list 'two b a)) ((a b . rest) (list rest b a))) %s)" % args
        if k == "cut":
            return r.choice(["((cut list %s <> %s) %s)" % (I(), I(), I()), "((cut list <> %s <>) %s %s)" % (I(), I(), I()), "((cut list %s <...>) %s)" % (I(), args),
                             "(map (cut cons <> '()) '(%s))" % args, "(map (cut - <> %s) '(%s))" % (I(), args)])
        if k == "values":
            return "(call-with-values (lambda () (values %s)) list)" % args if n != 1 else None
        if k == "lambda*":
            return "((lambda* (a #:optional (b %s) c) (list a b c)) %s)" % (I(), " ".join(I() for _ in range(r.randint(1, 3))))
        if k == "compose":
            return "((compose list - 1+) %s)" % I()
        return None


def go():
    c = Check("C03")
    m = sch.Mes(c, san=True)
    g = sprog.P(c.rng)
    progs = [("program", text(g, False)) for _ in range(c.n(2200, 40000))]
    sch.judge_programs(c, m, progs, san=15)
    progs = [("syntax", text(g, True)) for _ in range(c.n(250, 4000))]
    sch.judge_programs(c, m, progs, mespre="(mes-use-module (mes syntax))\n")
    h = M(c.rng)
    cases = [sch.Case("pmatch", h.match(True)) for _ in range(c.n(900, 10000))]
    sch.judge(c, m, cases, mespre="(mes-use-module (mes pmatch))\n", batch=30, san=10)
    cases = [sch.Case("match", h.match(False)) for _ in range(c.n(600, 8000))]
    sch.judge(c, m, cases, mespre="(mes-use-module (mes match))\n", batch=30)
    cases = [sch.Case("misc", x) for x in (h.misc() for _ in range(c.n(1200, 10000))) if x]
    sch.judge(c, m, cases, mespre="(mes-use-module (mes optargs))\n(mes-use-module (srfi srfi-16))\n", guilepre="(use-modules (ice-9 optargs))\n", batch=40, san=10)
    c.finish("One case = one observed line of a generated program. Programs have top-level values, procedures, closures with own state and macros (define-macro, "
             "syntax-rules), local names drawn from a pool that includes the names of procedures and of variables macros could introduce, internal definitions in every "
             "order, every binding and conditional form, quasi-quotation, named let, do, letrec, apply, rest arguments; effects are placed only where the order is fixed. "
             "Plus generated clauses of pmatch and match, receive, case-lambda, cut, lambda*. Oracle: Guile running the same program. Every fifteenth program "
             "also on the ASan/UBSan build. Distinct = distinct programs.",
             min_events={"compared": 5000, "of program": 1500, "of syntax": 150, "of pmatch": 300, "of match": 300, "of misc": 300})


if __name__ == "__main__":
    main(go)
