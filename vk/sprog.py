"""Random closed Scheme programs of the subset Mes supports, free of anything the standard leaves open.

Expressions are typed (int, bool, list of ints, symbol, string, procedure) so that every program runs without
errors; loops are bounded by construction.  Effects (vk-note, set!) are generated only where the order of evaluation
is fixed.  Local names are drawn from a pool that includes the names of procedures and of variables that macros of an
implementation could introduce, to exercise scoping."""

NAMES = ["x", "y", "z", "a", "b", "n", "m", "f", "g", "h", "k", "r", "test", "loop", "list", "cons", "append", "car", "key", "val", "tmp", "t", "acc", "result",
         "member", "memq", "memv", "eq?", "not", "map", "cons*", "l", "lst", "i", "j", "expr", "args", "lambda-list", "clause", "reverse", "equal?", "apply", "vector",
         "self", "env", "name", "s", "p", "q", "list->vector", "values", "map1", "pair?", "null?"]
KEEP = set("vk vk-note vk-put".split())


class P:
    def __init__(self, rng):
        self.r = rng
        self.globals = {}
        self.macros = []
        self.cost = 0

    # environment: name -> type; types: "i" "b" "l" "y" "S" ("p", argtypes, rettype, pure)
    def names(self, env, t):
        return [n for n, x in env.items() if x == t]

    def procs(self, env, ret, pure):
        return [(n, x) for n, x in env.items() if isinstance(x, tuple) and x[2] == ret and (x[3] or not pure)]

    def fresh(self, env, k=1):
        return self.r.sample(NAMES, k)

    def ok(self, env, *prims):
        return not any(p in env for p in prims)

    def expr(self, t, env, d, pure=True):
        """An expression of type t."""
        r = self.r
        self.cost += 1
        if d <= 0 or self.cost > 260 or r.random() < .08:
            return self.leaf(t, env)
        for _ in range(20):
            k = r.random()
            if k < .45:
                e = getattr(self, "e_" + t)(env, d - 1, pure)
            else:
                e = self.form(t, env, d - 1, pure)
            if e:
                return e
        return self.leaf(t, env)

    def leaf(self, t, env):
        r = self.r
        v = self.names(env, t)
        if v and r.random() < .7:
            return r.choice(v)
        if t == "i":
            return str(r.randint(-9, 20))
        if t == "b":
            return r.choice(["#t", "#f"])
        if t == "l":
            return "'(%s)" % " ".join(str(r.randint(-5, 9)) for _ in range(r.randint(0, 4)))
        if t == "y":
            return "'" + r.choice(["a", "b", "foo", "x", "list", "else", "quote"])
        return '"%s"' % "".join(r.choice("abc xyz") for _ in range(r.randint(0, 5)))

    def e_i(self, env, d, pure):
        r = self.r
        k = r.choice(["+", "-", "*", "if3", "length", "max", "car", "call", "apply", "fold", "vector-ref", "lambda", "let-values", "cwv"])
        E = lambda t: self.expr(t, env, d)
        if k in ("+", "-") and self.ok(env, k):
            return "(%s %s)" % (k, " ".join(E("i") for _ in range(r.choice([1, 2, 2, 2, 3]))))
        if k == "*":
            return "(modulo (* %s %s) %d)" % (E("i"), E("i"), r.choice([97, 11, 1009]))
        if k == "length":
            return "(length %s)" % E("l")
        if k == "max":
            return "(%s %s %s)" % (r.choice(["max", "min"]), E("i"), E("i"))
        if k == "car" and self.ok(env, "car", "pair?"):
            v = "q%d" % r.randint(0, 99)
            return "(let ((%s %s)) (if (pair? %s) (car %s) %s))" % (v, E("l"), v, v, E("i"))
        if k == "call":
            return self.call("i", env, d, pure)
        if k == "apply" and self.ok(env, "apply"):
            return r.choice(["(apply + %s)" % E("l"), "(apply + %s %s)" % (E("i"), E("l")), "(apply (lambda rest (length rest)) %s)" % E("l"),
                             "(apply (lambda (a . rest) (+ a (length rest))) %s %s)" % (E("i"), E("l"))])
        if k == "fold":
            n, a = r.sample(["e1", "e2", "acc", "x", "y"], 2)
            return "(fold (lambda (%s %s) (modulo (+ %s %s) 1009)) %s %s)" % (n, a, a, self.expr("i", {**env, n: "i", a: "i"}, d), E("i"), E("l"))
        if k == "vector-ref" and self.ok(env, "vector"):
            n = r.randint(1, 3)
            return "(vector-ref (vector %s) %d)" % (" ".join(E("i") for _ in range(n)), r.randrange(n))
        if k == "lambda":
            ps = self.fresh(env, r.randint(0, 3))
            opt = r.random()
            if opt < .3:
                rest = r.choice([x for x in NAMES if x not in ps])
                extra = r.randint(0, 2)
                e2 = {**env, **{p: "i" for p in ps}, rest: "l"}
                return "((lambda %s %s) %s)" % ("(%s . %s)" % (" ".join(ps), rest) if ps else rest, self.body("i", e2, d, pure),
                                                " ".join(E("i") for _ in range(len(ps) + extra)))
            return "((lambda (%s) %s) %s)" % (" ".join(ps), self.body("i", {**env, **{p: "i" for p in ps}}, d, pure), " ".join(E("i") for _ in ps))
        if k == "cwv" and self.ok(env, "values"):
            ps = self.fresh(env, 2)
            return "(call-with-values (lambda () (values %s %s)) (lambda (%s) %s))" % (E("i"), E("i"), " ".join(ps), self.body("i", {**env, **{p: "i" for p in ps}}, d, pure))
        return None

    def e_b(self, env, d, pure):
        r = self.r
        k = r.choice(["<", "null?", "even?", "eq?", "not", "equal?", "pair?", "memq"])
        E = lambda t: self.expr(t, env, d)
        if not self.ok(env, k):
            return None
        if k == "<":
            return "(%s %s %s)" % (r.choice(["<", ">", "=", "<=", ">="]), E("i"), E("i"))
        if k in ("null?", "pair?"):
            return "(%s %s)" % (k, E("l"))
        if k == "even?":
            return "(%s %s)" % (r.choice(["even?", "odd?", "zero?"]), E("i"))
        if k == "eq?":
            return "(eq? %s %s)" % (E("y"), E("y"))
        if k == "not":
            return "(not %s)" % E("b")
        if k == "memq":
            return "(if (memq %s '(a foo list)) #t #f)" % E("y")
        t = r.choice("ilS")
        return "(equal? %s %s)" % (E(t), E(t))

    def e_l(self, env, d, pure):
        r = self.r
        k = r.choice(["list", "cons", "append", "map", "map2", "reverse", "cdr", "filter", "qq", "qq", "call", "vlist"])
        E = lambda t: self.expr(t, env, d)
        if k in ("list", "cons", "append", "map", "reverse") and not self.ok(env, k):
            return None
        if k == "list":
            return "(list %s)" % " ".join(E("i") for _ in range(r.randint(0, 4)))
        if k == "cons":
            return "(cons %s %s)" % (E("i"), E("l"))
        if k == "append":
            return "(append %s)" % " ".join(E("l") for _ in range(r.randint(0, 3)))
        if k == "map":
            p = self.fresh(env)[0]
            return "(map (lambda (%s) %s) %s)" % (p, self.body("i", {**env, p: "i"}, d, True), E("l"))
        if k == "map2" and self.ok(env, "map"):
            p = self.fresh(env, 2)
            return "(map (lambda (%s) %s) %s %s)" % (" ".join(p), self.body("i", {**env, p[0]: "i", p[1]: "i"}, d, True), E("l"), E("l"))
        if k == "reverse":
            return "(reverse %s)" % E("l")
        if k == "cdr" and self.ok(env, "pair?"):
            return "(let ((v9 %s)) (if (pair? v9) (cdr v9) %s))" % (E("l"), E("l"))
        if k == "filter":
            p = self.fresh(env)[0]
            return "(filter (lambda (%s) %s) %s)" % (p, self.expr("b", {**env, p: "i"}, d), E("l"))
        if k == "qq":
            n = r.randint(0, 4)
            return "`(%s)" % " ".join(r.choice([lambda: str(r.randint(0, 9)), lambda: "," + E("i"), lambda: ",@" + E("l")])() for _ in range(n))
        if k == "vlist" and self.ok(env, "vector"):
            return "(vector->list (vector %s))" % " ".join(E("i") for _ in range(r.randint(0, 3)))
        return self.call("l", env, d, pure) if k == "call" else None

    def e_y(self, env, d, pure):
        r = self.r
        E = lambda t: self.expr(t, env, d)
        k = r.choice(["case", "if", "ss"])
        if k == "case":
            return "(case %s ((0 1 2) 'low) ((%d) 'one) (else %s))" % (E("i"), r.randint(3, 8), E("y"))
        if k == "ss":
            return "(string->symbol (string-append (symbol->string %s) %s))" % (E("y"), '"%s"' % r.choice(["a", "-b", ""]))
        return "(if %s %s %s)" % (E("b"), E("y"), E("y"))

    def e_S(self, env, d, pure):
        E = lambda t: self.expr(t, env, d)
        return self.r.choice([lambda: "(string-append %s %s)" % (E("S"), E("S")), lambda: "(number->string %s)" % E("i"), lambda: "(symbol->string %s)" % E("y"),
                              lambda: "(if %s %s %s)" % (E("b"), E("S"), E("S"))])()

    def call(self, t, env, d, pure):
        c = self.procs(env, t, pure)
        if not c:
            return None
        n, x = self.r.choice(c)
        return "(%s%s)" % (n, "".join(" " + (self.expr(a, env, d) if not isinstance(a, tuple) else self.proc(a, env, d)) for a in x[1]))

    def proc(self, p, env, d):
        """An expression denoting a pure procedure of type p."""
        c = [n for n, x in env.items() if x == p]
        if c and self.r.random() < .5:
            return self.r.choice(c)
        ps = self.fresh(env, len(p[1]))
        return "(lambda (%s) %s)" % (" ".join(ps), self.expr(p[2], {**env, **dict(zip(ps, p[1]))}, d - 1))

    def form(self, t, env, d, pure):
        r = self.r
        E = lambda t, e=env: self.expr(t, e, d)
        k = r.choice(["if", "cond", "cond=>", "let", "let", "let*", "letrec", "named", "do", "and", "or", "begin", "case", "casekey", "or-val", "closure", "macro", "named-acc",
                      "let-shadow", "cond-test", "when", "defs", "let0", "oper", "oper"])
        if k == "if":
            return "(if %s %s %s)" % (E("b"), self.expr(t, env, d, pure), self.expr(t, env, d, pure))
        if k == "cond":
            return "(cond %s(else %s))" % ("".join("(%s %s) " % (E("b"), self.body(t, env, d, pure, defs=False)) for _ in range(r.randint(0, 3))), self.body(t, env, d, pure, defs=False))
        if k == "cond=>" and t == "i" and self.ok(env, "member"):
            p = self.fresh(env)[0]
            return "(cond ((member %s %s) => (lambda (%s) %s)) (else %s))" % (E("i"), E("l"), p, self.body("i", {**env, p: "l"}, d, pure), E("i"))
        if k == "cond-test" and t == "i" and self.ok(env, "and"):
            return "(cond (%s => (lambda (v) (if (number? v) v 1))) ((and %s %s)) (else %s))" % (E("b"), E("b"), E("i"), E("i"))
        if k in ("let", "let-shadow"):
            ns = self.fresh(env, r.randint(1, 3))
            if k == "let-shadow":
                own = [n for n in env if isinstance(env[n], str) and n in NAMES]
                if own:
                    ns = list(dict.fromkeys([r.choice(own)] + ns))
            ts = [r.choice("iilbyS") for _ in ns]
            return "(let (%s) %s)" % (" ".join("(%s %s)" % (n, E(x)) for n, x in zip(ns, ts)), self.body(t, {**env, **dict(zip(ns, ts))}, d, pure))
        if k == "oper":
            # the operator is an expression: evaluated once, its effects included
            p = self.fresh(env)[0]
            x = r.choice("iilby")
            e2 = {**env, p: x}
            f = "(lambda (%s) %s)" % (p, self.body(t, e2, d - 1, pure, defs=False))
            j = r.random()
            if j < .35 and not pure:
                return "((begin %s %s) %s)" % (self.stmts(env, d - 1) or "(vk-note 'op)", f, self.leaf(x, {}))
            if j < .5 and not pure:
                return "((let ((c8 %s)) (vk-note c8) %s) %s)" % (E("i"), f, self.leaf(x, {}))
            if j < .6 and self.ok(env, "list", "car"):
                return "((car (list %s %s)) %s)" % (f, self.proc(("p", (x,), t, True), env, d - 1), E(x))
            if j < .75:
                return "((if %s %s %s) %s)" % (E("b"), f, self.proc(("p", (x,), t, True), env, d - 1), E(x))
            if j < .85:
                return "((cond (%s %s) (else %s)) %s)" % (E("b"), f, self.proc(("p", (x,), t, True), env, d - 1), E(x))
            q = self.fresh(env)[0]
            return "(((lambda (%s) (lambda (%s) %s)) %s) %s)" % (q, p, self.body(t, {**env, q: "i", p: x}, d - 1, pure, defs=False), E("i"), E(x))
        if k == "let0":
            return "(let () %s)" % self.body(t, env, d, pure)
        if k == "let*":
            e2, bs = dict(env), []
            for _ in range(r.randint(0, 3)):
                n, x = self.fresh(env)[0], r.choice("iilb")
                bs.append("(%s %s)" % (n, self.expr(x, e2, d, pure)))
                e2[n] = x
            return "(let* (%s) %s)" % (" ".join(bs), self.body(t, e2, d, pure))
        if k == "letrec":
            return self.letrec(t, env, d, pure)
        if k in ("named", "named-acc"):
            lp, v, acc = r.sample(NAMES, 3)
            if not self.ok({lp: 1, v: 1, acc: 1}, "-"):
                return None
            e2 = {**env, lp: "loop", v: "i", acc: t}
            n = r.randint(0, 6)
            stop = "(= %s 0)" % v
            return "(let %s ((%s %d) (%s %s)) (if %s %s (%s (- %s 1) %s)))" % (lp, v, n, acc, E(t), stop, self.expr(t, e2, d, pure), lp, v, self.expr(t, e2, d - 1))
        if k == "do":
            v, acc = r.sample(NAMES, 2)
            e2 = {**env, v: "i", acc: t}
            note = "(vk-note %s)" % v if not pure and r.random() < .6 else ""
            return "(do ((%s 0 (+ %s 1)) (%s %s %s)) ((= %s %d) %s) %s)" % (v, v, acc, E(t), self.expr(t, e2, d - 1), v, r.randint(0, 5), self.expr(t, e2, d, pure), note)
        if k == "and" and t == "b":
            return "(and%s)" % "".join(" " + self.expr("b", env, d, pure) for _ in range(r.randint(0, 4)))
        if k == "or" and t == "b":
            return "(or%s)" % "".join(" " + self.expr("b", env, d, pure) for _ in range(r.randint(0, 4)))
        if k == "or-val":
            return "(or (and %s %s) %s)" % (E("b"), self.expr(t, env, d, pure), self.expr(t, env, d, pure)) if t != "b" else None
        if k == "begin":
            return "(begin %s)" % self.body(t, env, d, pure, defs=False)
        if k == "case":
            ds = list(range(-3, 9)) + ["a", "b", "foo", "#\\a", "#t"]
            r.shuffle(ds)
            cl, i = [], 0
            for _ in range(r.randint(1, 3)):
                m = r.randint(1, 4)
                cl.append("((%s) %s)" % (" ".join(map(str, ds[i:i + m])), self.body(t, env, d, pure, defs=False)))
                i += m
            return "(case %s %s (else %s))" % (E(r.choice("iiy")), " ".join(cl), self.body(t, env, d, pure, defs=False))
        if k == "casekey" and not pure:
            return "(case (vk-note %s) ((1) %s) ((2 3) %s) (else %s))" % (E("i"), E(t), E(t), E(t))
        if k == "closure":
            return self.closure(t, env, d, pure)
        if k == "macro" and self.macros:
            m = r.choice(self.macros)
            return m(self, t, env, d, pure)
        if k == "when" and not pure:
            return "(begin (%s %s %s) %s)" % (r.choice(["when", "unless"]), E("b"), self.stmts(env, d) or "1", self.expr(t, env, d, pure))
        if k == "defs":
            return "((lambda () %s))" % self.body(t, env, d, pure, defs=True, force=True)
        return None

    def letrec(self, t, env, d, pure):
        r = self.r
        f, g, v = r.sample(NAMES, 3)
        e2 = {**env, f: "rec", g: "rec"}
        body = self.body(t, e2, d, pure)
        kind = r.random()
        if not self.ok({f: 1, g: 1, v: 1}, "-", "="):
            return None
        e3 = {**e2, v: "i"}
        if kind < .5:
            return "(letrec ((%s (lambda (%s) (if (= %s 0) %s (%s (- %s 1))))) (%s (lambda (%s) (if (= %s 0) %s (%s (- %s 1)))))) (let ((w8 (%s %d))) %s))" % (
                f, v, v, self.expr(t, e3, d - 1), g, v, g, v, v, self.expr(t, e3, d - 1), f, v, f, r.randint(0, 7), self.body(t, {**e2, "w8": t}, d - 1, pure))
        return "(letrec ((%s (lambda (%s) %s)) (%s (lambda (%s) (%s (+ %s 1))))) (let ((w8 (%s %d))) %s))" % (
            f, v, self.expr(t, e3, d), g, v, f, v, g, r.randint(0, 7), self.body(t, {**e2, "w8": t}, d - 1, pure))

    def closure(self, t, env, d, pure):
        """Closures keep their own variables."""
        r = self.r
        if t != "i":
            return None
        n, m = r.sample(NAMES, 2)
        k = r.random()
        E = lambda t, e=env: self.expr(t, e, d)
        if k < .35:
            return ("(let* ((mk (lambda (%s) (lambda (%s) (set! %s (+ %s %s)) %s))) (c1 (mk %s)) (c2 (mk %s))) (let* ((u1 (c1 %s)) (u2 (c2 %s)) (u3 (c1 %s))) (+ u1 (* 3 u2) (* 5 u3))))"
                    % (n, m, n, n, m, n, E("i"), E("i"), E("i"), E("i"), E("i"))) if self.ok({**env, n: 1, m: 1}, "+") else None
        if k < .7:
            return "(let ((cs (map (lambda (%s) (lambda (%s) %s)) %s))) (apply + (map (lambda (c9) (c9 %s)) cs)))" % (
                n, m, self.expr("i", {**env, n: "i", m: "i"}, d), E("l"), E("i")) if self.ok(env, "map", "apply") else None
        return "(let* ((w7 %s) (th (lambda () w7))) (set! w7 %s) (%s))" % (E("i"), E("i"), "th")

    def stmts(self, env, d):
        """Effects in a fixed order."""
        r = self.r
        out = []
        for _ in range(r.randint(0, 2)):
            k = r.random()
            v = [n for n, x in env.items() if x in ("i", "l", "b", "S", "y")]
            if k < .4 and v:
                n = r.choice(v)
                out.append("(set! %s %s)" % (n, self.expr(env[n], env, d - 1)))
            elif k < .75:
                out.append("(vk-note %s)" % self.expr(r.choice("iilyS"), env, d - 1))
            elif k < .85:
                out.append("(if %s (vk-note %s))" % (self.expr("b", env, d - 1), self.expr("i", env, d - 1)))
            elif k < .95 and self.ok(env, "for-each"):
                n = self.fresh(env)[0]
                out.append("(for-each (lambda (%s) (vk-note %s)) %s)" % (n, self.expr("i", {**env, n: "i"}, d - 1), self.expr("l", env, d - 1)))
            else:
                out.append("(let loop9 ((i9 %d)) (when (> i9 0) (vk-note i9) (loop9 (- i9 1))))" % r.randint(0, 3))
        return " ".join(out)

    def body(self, t, env, d, pure, defs=True, force=False):
        r = self.r
        out = []
        if defs and d > 0 and (force or r.random() < .25):
            # internal definitions: values first in order, procedures may refer to each other and to later ones
            env = dict(env)
            ns = self.fresh(env, r.randint(1, 3))
            kinds = [r.choice("vvppPPC") for _ in ns]
            sig = {}
            for n, k in zip(ns, kinds):
                sig[n] = "i" if k == "v" else ("p", ("i",), "i", True)
            done = {x: y for x, y in env.items() if x not in ns}
            for n, k in zip(ns, kinds):
                if k == "v":
                    out.append("(define %s %s)" % (n, self.expr("i", {**{q: "undef" for q in ns}, **done}, d - 1)))
                    done[n] = "i"
                elif k == "C":      # a procedure with its own variable that refers to itself
                    p, w = r.sample([x for x in NAMES if x not in ns], 2)
                    out.append("(define %s (let ((%s %d)) (lambda (%s) (if (< %s 1) %s (begin (set! %s (+ %s %s)) (%s (- %s 1)))))))" % (
                        n, w, r.randint(0, 9), p, p, w, w, w, p, n, p))
                else:
                    p = r.choice([x for x in NAMES if x not in ns])
                    # a body may use the variables defined so far and, when it is called only after all definitions, the later values
                    later = {q: s for q, s in sig.items() if s == "i"}
                    scope = {**{q: "undef" for q in ns}, **done, **later, p: "i"}
                    b = self.expr("i", scope, d - 1)
                    if k == "P" and self.ok({**scope}, "-", "<"):
                        b = "(if (< %s 1) %s (%s (- %s 1)))" % (p, b, n, p) if "-" not in scope else b
                        p_call = p
                    if r.random() < .5:
                        out.append("(define (%s %s) %s)" % (n, p, b))
                    else:
                        out.append("(define %s (lambda (%s) %s))" % (n, p, b))
            env.update(sig)
            for n, k in zip(ns, kinds):     # bounded recursion: only ever called with small numbers
                if k in "PC":
                    env[n] = "proc-small"
            small = [n for n, k in zip(ns, kinds) if k in "PC"]
            if small:
                x = r.choice(small)
                v = "s%d" % r.randint(0, 9)
                e = self.expr(t, {**env, v: "i"}, d - 1, pure)
                st = "" if pure else self.stmts(env, d - 1)
                return " ".join(out + [st, "(let ((%s (%s %d))) %s)" % (v, x, r.randint(0, 6), e)])
        if not pure:
            s = self.stmts(env, d - 1)
            if s:
                out.append(s)
        out.append(self.expr(t, env, d - 1, pure))
        return " ".join(out)

    # ------------------------------------------------------------- programs
    MACROS = [
        ("(define-macro (my-swap! a b) `(let ((tmp9 ,a)) (set! ,a ,b) (set! ,b tmp9)))",
         lambda s, t, env, d, pure: None if t != "i" else "(let ((m1 %s) (m2 %s)) (my-swap! m1 m2) (- m1 (* 2 m2)))" % (s.expr("i", env, d), s.expr("i", env, d))
         if s.ok(env, "-") else None),
        ("(define-macro (my-if c a b) (list 'cond (list c a) (list 'else b)))",
         lambda s, t, env, d, pure: "(my-if %s %s %s)" % (s.expr("b", env, d), s.expr(t, env, d, pure), s.expr(t, env, d, pure))),
        ("(define-macro (my-let1 n v . body) `((lambda (,n) ,@body) ,v))",
         lambda s, t, env, d, pure: (lambda n: "(my-let1 %s %s %s)" % (n, s.expr("i", env, d), s.body(t, {**env, n: "i"}, d, pure)))(s.fresh(env)[0])),
        ("(define-macro (my-unless c . body) `(if ,c #f (begin ,@body)))",
         lambda s, t, env, d, pure: "(my-unless #f %s)" % s.body(t, env, d, pure, defs=False)),
        ("(define-macro (my-twice e) `(list ,e ,e))",
         lambda s, t, env, d, pure: "(my-twice %s)" % s.expr("i", env, d) if t == "l" and s.ok(env, "list") else None),
        ("(define-macro (my-or2 a b) (let ((v (gensym))) `(let ((,v ,a)) (if ,v ,v ,b))))",
         lambda s, t, env, d, pure: "(my-or2 %s %s)" % (s.expr("b", env, d, pure), s.expr("b", env, d, pure)) if t == "b" else None),
        ("(define-macro (my-const) (* 6 7))", lambda s, t, env, d, pure: "(+ (my-const) %s)" % s.expr("i", env, d) if t == "i" else None),
        ("(define-macro (my-list . xs) (if (null? xs) ''() `(cons ,(car xs) (my-list ,@(cdr xs)))))",
         lambda s, t, env, d, pure: "(my-list %s)" % " ".join(s.expr("i", env, d) for _ in range(s.r.randint(0, 3))) if t == "l" and s.ok(env, "cons") else None),
    ]
    SYNTAX = [
        ("(define-syntax my-while2 (syntax-rules () ((_ n body) (let wloop ((wi 0)) (if (< wi n) (begin body (wloop (+ wi 1))) wi)))))",
         lambda s, t, env, d, pure: None if t != "i" or pure else "(my-while2 %d (vk-note %s))" % (s.r.randint(0, 3), s.expr("i", env, d)) if s.ok(env, "+", "<") else None),
        ("(define-syntax my-and (syntax-rules () ((_) #t) ((_ e) e) ((_ e1 e2 ...) (if e1 (my-and e2 ...) #f))))",
         lambda s, t, env, d, pure: "(my-and%s)" % "".join(" " + s.expr("b", env, d, pure) for _ in range(s.r.randint(0, 3))) if t == "b" else None),
        ("(define-syntax my-let (syntax-rules () ((_ ((n v) ...) body ...) ((lambda (n ...) body ...) v ...))))",
         lambda s, t, env, d, pure: (lambda ns: "(my-let (%s) %s)" % (" ".join("(%s %s)" % (n, s.expr("i", env, d)) for n in ns), s.body(t, {**env, **{n: "i" for n in ns}}, d, pure)))(s.fresh(env, 2))),
    ]

    def program(self, depth=4, syntax=False):
        """Top-level forms; returns (definitions, list of observed expressions)."""
        r = self.r
        out, env = [], {}
        self.macros = []
        ms = r.sample(self.MACROS, r.randint(0, 3)) + (r.sample(self.SYNTAX, r.randint(1, 2)) if syntax else [])
        for text, use in ms:
            out.append(text)
            self.macros.append(use)
        for i in range(r.randint(0, 5)):
            self.cost = 0
            k = r.random()
            n = "g%d" % i if r.random() < .7 else r.choice([x for x in ["x", "y", "z", "n", "m", "f", "h", "r", "test", "loop", "tmp", "key"] if x not in env])
            if k < .3:
                t = r.choice("ilbyS")
                out.append("(define %s %s)" % (n, self.expr(t, env, depth)))
                env[n] = t
            elif k < .75:
                ts = tuple(r.choice(["i", "i", "l", ("p", ("i",), "i", True)]) for _ in range(r.randint(0, 3)))
                ps = self.fresh(env, len(ts))
                rt = r.choice("iil")
                b = self.body(rt, {**env, **dict(zip(ps, ts))}, depth, True)
                out.append("(define (%s) %s)" % (" ".join([n] + ps), b) if r.random() < .7 else "(define %s (lambda (%s) %s))" % (n, " ".join(ps), b))
                env[n] = ("p", ts, rt, True)
            elif k < .8:
                c = r.choice(NAMES)
                d9 = r.choice([x for x in NAMES if x not in (c, n)])
                out.append("(define %s (let ((%s %d)) (lambda (%s) (if (< %s 1) %s (begin (set! %s (+ %s 1)) (%s (quotient %s 2)))))))" % (
                    n, c, r.randint(0, 9), d9, d9, c, c, c, n, d9))
                env[n] = ("p", ("i",), "i", False)
            elif k < .87:
                c = r.choice(NAMES)
                out.append("(define %s (let ((%s %d)) (lambda (d9) (set! %s (+ %s d9)) %s)))" % (n, c, r.randint(0, 9), c, c, c))
                env[n] = ("p", ("i",), "i", False)
            else:
                ps = self.fresh(env, 1)
                out.append("(define (%s . %s) %s)" % (n, ps[0], self.body("i", {**env, ps[0]: "l"}, depth, True)))
                env[n] = ("p", tuple("i" for _ in range(r.randint(0, 3))), "i", True)
        obs = []
        for _ in range(r.randint(2, 4)):
            self.cost = 0
            t = r.choice("iiblyS")
            obs.append(self.body(t, env, depth, False, defs=r.random() < .5))
            if env and r.random() < .3:
                vs = [n for n, x in env.items() if x == "i"]
                if vs:
                    obs.append(("set", "(%s %s %s)" % (r.choice(["set!", "define"]), r.choice(vs), self.expr("i", env, 3))))
        return out, obs
