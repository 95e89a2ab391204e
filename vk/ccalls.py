"""Random C programs about calls, split over translation units.

Every operation is defined by construction (values are masked before they are
combined), so that one host run of the same units is the model."""
import os, random
from .core import run, HarnessError
from . import cgen

RUN_PROTO = "void P (long x); void S (char *s); void vk_flush (void);"
RANGE = {"char": 127, "signed char": 127, "unsigned char": 255, "short": 32767, "unsigned short": 65535,
         "int": 2147483647, "unsigned": 4294967295, "long": (1 << 63) - 1, "unsigned long": (1 << 64) - 1}


class Calls:
    def __init__(self, rng, bits=64, units=3):
        self.r, self.bits, self.units = rng, bits, units
        self.ints = ["int", "unsigned", "char", "signed char", "unsigned char", "short", "unsigned short", "long", "unsigned long"]
        self.n = 0
        self.funs = []       # (name, return type, parameter types, cost)
        self.globs = []      # (type, name)
        self.protos, self.externs = [], []
        self.text = [[] for _ in range(units)]
        self.pures = []
        self.main = []

    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def unit(self):
        return self.r.randrange(self.units)

    def lit(self, ty):
        hi = RANGE[ty]
        if self.bits == 32:
            hi = min(hi, 2147483647)
        lo = 0 if ty.startswith("unsigned") else -hi if ty != "char" else -127
        r = self.r
        v = r.choice([0, 1, 2, 5, 10, 100, 127, -1, -2, -100, hi, hi - 1, lo, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1), r.randrange(-99, 99)])
        v = max(lo, min(hi, v))
        s = str(v)
        if v > 0x7fffffff:
            s = hex(v) + ("UL" if self.bits == 64 else "U")
        if v < -0x7fffffff:
            s += "L"
        return s

    # every value is printed through a cast-free P (long), so that types that do not fit are masked
    def show(self, e, ty):
        return "P (%s);" % e

    def value(self, ty, env, d=2):
        """An argument or initialiser of integer type."""
        r = self.r
        k = r.random()
        same = [v for v, t in env if t in RANGE]
        if k < .30 or not same:
            return self.lit(ty)
        if k < .62:
            return r.choice(same)
        if k < .80:
            return "((%s & %d) %s (%s & %d))" % (r.choice(same), r.choice([7, 63, 127]), r.choice("+-*"), r.choice(same), r.choice([7, 15]))
        if d > 0:
            c = self.call(env, d - 1)
            if c:
                return c
        return "((%s) & %d)" % (r.choice(same), r.choice([1, 255]))

    def arg(self, ty, env, d):
        r = self.r
        if ty == "char *":
            return r.choice([v for v, t in env if t == "char *"] + ['"%s"' % r.choice(["", "a", "hello", "x y z", "tail"])])
        if ty == "int *":
            c = [v for v, t in env if t == "int *"]
            return r.choice(c) if c else "garr"
        if ty == "fn":
            return r.choice(["", "", "&"]) + r.choice(self.fn2)
        return self.value(ty, env, d)

    def call(self, env, d, only=None):
        # operands are evaluated in any order: inside an expression only pure functions
        fs = self.pures if only is None else [only]
        if not fs:
            return None
        f = self.r.choice(fs)
        return "%s (%s)" % (f[0], ", ".join(self.arg(t, env, d) for t in f[2]))

    def add(self, name, rt, ps, lines, u=None, static=False, cost=1, params=None, listed=True):
        u = self.unit() if u is None else u
        ns = params or ["p%d" % i for i in range(len(ps))]
        head = "%s %s (%s)" % (rt, name, ", ".join(self.decl(t, n) for t, n in zip(ps, ns)) or "void")
        self.protos.append(head + ";")
        self.text[u] += [head, "{"] + ["  " + l for l in lines] + ["}", ""]
        if listed:
            self.funs.append((name, rt, ps, cost))

    def decl(self, t, n):
        if t == "fn":
            return "long (*%s) (long, long)" % n
        return t + ("" if t.endswith("*") else " ") + n

    def combine(self, env):
        vs = [v for v, t in env if t in RANGE]
        self.r.shuffle(vs)
        return " + ".join("(%s & %d)" % (v, self.r.choice([3, 31, 255, 1023])) for v in vs[:4]) or "7"

    # ------------------------------------------------------------ functions
    def leaf(self):
        r = self.r
        rt = r.choice(self.ints)
        ps = [r.choice(self.ints + ["char *", "int *"]) if r.random() < .9 else "fn" for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13]))]
        env = [("p%d" % i, t) for i, t in enumerate(ps)]
        lines = []
        for v, t in env:
            if t == "char *":
                lines.append("S (%s);" % v)
            elif t == "int *":
                lines.append("P (%s[0]); P (%s[%d]);" % (v, v, r.randrange(1, 4)))
                if r.random() < .5:
                    lines.append("%s[%d] = (%s[%d] & 1023) + %d;" % (v, r.randrange(4), v, r.randrange(4), r.randrange(9)))
            elif t == "fn":
                lines.append("P (%s (%d, %d));" % (r.choice([v, "(*%s)" % v]), r.randrange(9), r.randrange(99)))
            else:
                lines.append("P (%s);" % v)
        if r.random() < .4 and self.globs:
            t, g = r.choice(self.globs)
            lines.append("%s = (%s & 63) + %d;" % (g, g, r.randrange(5)))
        if ps and r.random() < .5:
            v, t = r.choice(env)
            if t in RANGE:      # assignment to a parameter is local
                lines.append("%s = %s;" % (v, self.lit(t)))
        if r.random() < .4:
            lines.append("return %s;" % self.lit(rt))
        else:
            lines.append("return %s;" % self.combine(env))
        self.add(self.uid("leaf"), rt, ps, lines)

    def pure(self):
        r = self.r
        rt = r.choice(self.ints)
        ps = [r.choice(self.ints) for _ in range(r.choice([1, 2, 3, 5, 8]))]
        env = [("p%d" % i, t) for i, t in enumerate(ps)]
        n = self.uid("pure")
        self.add(n, rt, ps, ["%s l = %s;" % (rt, self.value(rt, env, 1)), "if (%s > %s) return l;" % (r.choice(env)[0], self.lit("char")), "return %s;" % self.combine(env)], listed=False)
        self.pures.append((n, rt, ps, 1))

    def caller(self):
        r = self.r
        rt = r.choice(self.ints)
        ps = [r.choice(self.ints) for _ in range(r.randrange(0, 5))]
        env = [("p%d" % i, t) for i, t in enumerate(ps)]
        lines, decls = [], []
        for i in range(r.randrange(1, 7)):
            t = r.choice(self.ints)
            decls.append("%s l%d = %s;" % (t, i, self.lit(t)))
            env.append(("l%d" % i, t))
        decls.append("int arr[5]; char *str; int k; long (*fp) (long, long);")
        lines.append("for (k = 0; k < 5; k++) arr[k] = k * %d - 3; str = \"%s\"; fp = %s;" % (r.randrange(1, 9), r.choice(["local", "s"]), r.choice(self.fn2)))
        env += [("arr", "int *"), ("str", "char *")]
        cost = 1
        for _ in range(r.randrange(1, 4)):
            fs = [f for f in self.funs if f[3] <= 30]
            f = r.choice(fs)
            cost += f[3]
            c = self.call(env, 1, f)
            x = r.random()
            tgt = [v for v, t in env if t == f[1]]
            if x < .35 and tgt:
                v = r.choice(tgt)
                lines += ["%s = %s;" % (v, c), "P (%s);" % v]
            elif x < .75:
                lines.append("P (%s);" % c)
            elif x < .9:
                lines.append("if (%s) P (%d); else P (%d);" % (c, r.randrange(9), r.randrange(9)))
            else:
                lines.append("%s;" % c)
        lines.append(r.choice(["P (fp (%s & 63, %s & 63));", "P ((*fp) (%s & 63, %s & 63));"]) % (r.choice([v for v, t in env if t in RANGE]), r.choice([v for v, t in env if t in RANGE])))
        lines += ["P (%s);" % v for v, t in env if t in RANGE]
        lines.append("for (k = 0; k < 5; k++) P (arr[k]);")
        lines.append("S (str);")
        lines.append("return %s;" % self.combine(env))
        self.add(self.uid("call"), rt, ps, decls + lines, cost=cost)

    def recursive(self):
        r = self.r
        k = r.randrange(6)
        f = self.uid("rec")
        t1, t2 = r.choice(self.ints), r.choice(self.ints)
        if k == 0:
            d = r.choice([5, 30, 200])
            self.add(f, "long", ["int", t1, t2], [
                "char buf[%d]; long l; int i;" % r.choice([3, 8, 17, 100]),
                "if (p0 <= 0) return (p1 & 15) - (p2 & 15);",
                "buf[0] = p0; buf[2] = p0 + 1; l = p0;",
                "l += %s (p0 - 1, p2, p1 & 31) & 0xffff;" % f,
                "if (buf[0] != (char) p0) P (-1);", "if (buf[2] != (char) (p0 + 1)) P (-2);", "i = p0;", "return l + i;"], cost=9, listed=False)
            self.main.append("P (%s (%d, %s, %s));" % (f, d, self.lit(t1), self.lit(t2)))
        elif k == 1:
            self.add(f, r.choice(["int", "long", "unsigned"]), ["int"], ["if (p0 < 2) return p0;", "return %s (p0 - 1) + %s (p0 - 2);" % (f, f)], listed=False)
            self.main.append("P (%s (%d));" % (f, r.choice([3, 10, 17])))
        elif k == 2:
            g = self.uid("rec")
            self.add(f, "int", ["int", t1], ["if (p0 == 0) return p1 & 1;", "return %s (p0 - 1, (p1 & 63) + 1);" % g], listed=False)
            self.add(g, "int", ["int", t1], ["int k; k = p0;", "if (p0 == 0) return 10 + (p1 & 7);", "return k + (%s (p0 - 1, (p1 & 31) + 2) & 255);" % f], listed=False)
            self.main.append("P (%s (%d, %s));" % (r.choice([f, g]), r.choice([1, 20, 101]), self.lit(t1)))
        elif k == 3:
            self.add(f, "void", ["int", "int", "int", "int *"], [
                "if (p0 == 0) return;", "%s (p0 - 1, p1, 3 - p1 - p2, p3);" % f, "p3[0] = (p3[0] * 3 + p1 * 5 + p2) & 0xfffff;",
                "%s (p0 - 1, 3 - p1 - p2, p2, p3);" % f], listed=False)
            self.main.append("garr[0] = 1; %s (%d, 0, 2, garr); P (garr[0]);" % (f, r.choice([3, 7, 10])))
        elif k == 4:
            self.add(f, "int", ["int", "int"], ["if (p0 == 0) return p1 + 1;", "if (p1 == 0) return %s (p0 - 1, 1);" % f, "return %s (p0 - 1, %s (p0, p1 - 1));" % (f, f)], listed=False)
            self.main.append("P (%s (%d, %d));" % (f, r.choice([1, 2]), r.choice([2, 5])))
        else:
            self.add(f, "char *", ["char *", "int"], ["static int depth = %d;" % r.randrange(9), "depth++;", "if (p1 == 0 || !*p0) { P (depth); return p0; }", "return %s (p0 + 1, p1 - 1);" % f], listed=False)
            self.main += ["S (%s (\"abcdefgh\", %d));" % (f, n) for n in r.sample(range(0, 10), 3)]

    def variadic(self):
        r = self.r
        f = self.uid("va")
        last = r.choice(["int", "char *", "long"])
        pre = [r.choice(self.ints + ["char *"]) for _ in range(r.randrange(0, 3))]
        kinds = "il" + ("s" if r.random() < .8 else "") + "u"
        forward = r.random() < .4
        u = self.unit()
        ns = ["q%d" % i for i in range(len(pre))] + ["spec", "n"][0:1]
        loop = ["while (*%s)", "  {", "    if (*%s == 'i') P (va_arg (ap, int));", "    else if (*%s == 'u') P (va_arg (ap, unsigned));", "    else if (*%s == 's') S (va_arg (ap, char *));",
                "    else P (va_arg (ap, long));", "    %s = %s + 1; n++;", "  }"]
        loop = [l.replace("%s", "spec") for l in loop]
        params = ", ".join([self.decl(t, "q%d" % i) for i, t in enumerate(pre)] + ["char *spec"] + (["int pad"] if last == "int" else ["long pad"] if last == "long" else []))
        lastn = "pad" if last in ("int", "long") else "spec"
        head = "long %s (%s, ...)" % (f, params)
        self.protos.append(head + ";")
        body = ["va_list ap; int n; long res;", "n = 0;", "va_start (ap, %s);" % lastn]
        if forward:
            g = self.uid("vv")
            gu = self.unit()
            ghead = "int %s (char *spec, va_list ap)" % g
            self.protos.append(ghead + ";")
            self.text[gu] += [ghead, "{", "  int n;", "  n = 0;"] + ["  " + l for l in loop] + ["  return n;", "}", ""]
            body.append("n = %s (spec, ap);" % g)
        else:
            body += loop
        body += ["va_end (ap);"] + [("S (q%d);" if t == "char *" else "P (q%d);") % i for i, t in enumerate(pre)]
        if lastn == "pad":
            body.append("P (pad);")
        body += ["res = n;", "return res;"]
        self.text[u] += [head, "{"] + ["  " + l for l in body] + ["}", ""]
        for _ in range(3):
            spec = "".join(r.choice(kinds) for _ in range(r.choice([0, 1, 3, 6, 9, 14])))
            args = [self.arg(t, [], 0) for t in pre] + ['"%s"' % spec] + ([self.lit(last)] if lastn == "pad" else [])
            for k in spec:
                if k == "i":
                    args.append(r.choice(["(int) (%s)" % self.lit("int"), "(char) %d" % r.randrange(100), "'x'", "(gshort)", "(gchar)"]))
                elif k == "u":
                    args.append("(unsigned) %s" % self.lit("unsigned"))
                elif k == "s":
                    args.append('"%s"' % r.choice(["", "va", "string"]))
                else:
                    args.append("(long) (%s)" % self.lit("long"))
            self.main.append("P (%s (%s));" % (f, ", ".join(args)))

    def pointers(self):
        """Function pointers in variables, structs, tables, parameters and results."""
        r = self.r
        k = r.randrange(5)
        f = self.uid("ptr")
        u = self.unit()
        a, b = r.choice(self.fn2), r.choice(self.fn2)
        if k == 0:
            self.protos.append("extern long (*%s) (long, long);" % f if False else "void use_%s (long x);" % f)
            self.text[u] += ["long (*%s) (long, long) = %s;" % (f, a), "void use_%s (long x)" % f, "{", "  P (%s (x, 3)); P ((*%s) (x, 4));" % (f, f), "  %s = %s;" % (f, b), "  P (%s (x & 7, 5));" % f, "}", ""]
            self.main.append("use_%s (%d); use_%s (%d);" % (f, r.randrange(99), f, r.randrange(9)))
        elif k == 1:
            n = r.choice([2, 3, 5])
            self.protos.append("void use_%s (int i, long x);" % f)
            self.text[u] += ["struct s_%s { char *name; long (*fn) (long, long); int k; };" % f,
                             "struct s_%s t_%s[%d] = {%s};" % (f, f, n, ", ".join('{"%s", %s, %d}' % (r.choice(["a", "bc", ""]), r.choice(self.fn2), r.randrange(-9, 99)) for _ in range(n))),
                             "void use_%s (int i, long x)" % f, "{", "  struct s_%s *q; q = &t_%s[i];" % (f, f), "  S (t_%s[i].name); P (t_%s[i].fn (x, t_%s[i].k));" % (f, f, f),
                             "  P (q->fn (x, 1)); P (q->k); q->fn = %s; P (q->fn (2, x));" % a, "}", ""]
            self.main += ["use_%s (%d, %d);" % (f, r.randrange(n), r.randrange(50)) for _ in range(3)]
        elif k == 2:
            self.add(f, "long", ["fn", "long", "int *"], ["long s; int i; s = 0;", "for (i = 0; i < 4; i++) s = (p0 (p2[i], s) & 0xfffff) + p1;", "return s;"], listed=False)
            self.main.append("garr[0] = %d; garr[1] = 2; garr[2] = 30; garr[3] = 4; P (%s (%s, %d, garr)); P (%s (&%s, 1, garr));" % (r.randrange(9), f, a, r.randrange(9), f, b))
        elif k == 3:
            n = r.choice([2, 4])
            self.protos.append("void use_%s (int i, long x);" % f)
            self.text[u] += ["void *t_%s[%d] = {%s};" % (f, n, ", ".join(r.choice(self.fn2) for _ in range(n))), "void use_%s (int i, long x)" % f, "{", "  long (*g) (long, long);", "  g = t_%s[i];" % f,
                             "  P (g (x, i)); P ((*g) (i, x));", "}", ""]
            self.main += ["use_%s (%d, %d);" % (f, r.randrange(n), r.randrange(50)) for _ in range(3)]
        else:
            self.protos.append("int cmp_%s (void const *a, void const *b);" % f)
            self.protos.append("int deep_%s (int (*c) (void const *, void const *), int n, int *a);" % f)
            self.text[u] += ["int cmp_%s (void const *a, void const *b)" % f, "{", "  int *x; int *y; x = a; y = b;", "  if (*x < *y) return -1;", "  return *x > *y;", "}", ""]
            self.text[self.unit()] += ["int deep_%s (int (*c) (void const *, void const *), int n, int *a)" % f, "{", "  int i; int s; s = 0;", "  if (n > 0) s = deep_%s (c, n - 1, a);" % f,
                                       "  for (i = 0; i < 3; i++) if (c (&a[i], &a[i + 1]) < 0) s++;", "  return s;", "}", ""]
            self.main.append("garr[0] = %d; garr[1] = %d; P (deep_%s (cmp_%s, %d, garr));" % (r.randrange(9), r.randrange(9), f, f, r.choice([0, 3, 9])))

    def make(self):
        r = self.r
        u0 = 0
        self.fn2 = ["fadd", "fsub", "fmix"]
        for n, e in (("fadd", "(p0 & 0xfffff) + (p1 & 0xfffff)"), ("fsub", "(p0 & 0xfffff) - (p1 & 0xfffff)"), ("fmix", "(p0 & 255) * 3 - (p1 & 63)")):
            self.add(n, "long", ["long", "long"], ["return %s;" % e])
        fixed = [("int", "garr", "[5] = {3, -1, 4, 1, 5}"), ("char", "gchar", " = 'q'"), ("short", "gshort", " = -321")]
        for t, n, i in fixed:
            self.text[self.unit()].append("%s %s%s;" % (t, n, i))
            self.externs.append("extern %s %s%s;" % (t, n, "[5]" if n == "garr" else ""))
        for _ in range(r.randrange(2, 7)):
            t = r.choice(self.ints)
            n = self.uid("glob")
            self.text[self.unit()].append("%s %s%s;" % (t, n, " = %s" % self.lit(t) if r.random() < .7 else ""))
            self.externs.append("extern %s %s;" % (t, n))
            self.globs.append((t, n))
        for _ in range(r.randrange(1, 4)):
            self.pure()
        for _ in range(r.randrange(2, 6)):
            self.leaf()
        for _ in range(r.randrange(1, 4)):
            self.caller()
        for _ in range(r.randrange(1, 4)):
            self.recursive()
        for _ in range(r.randrange(0, 3)):
            self.variadic()
        for _ in range(r.randrange(1, 4)):
            self.pointers()
        genv = [(n, t) for t, n in self.globs]
        m = []
        for f in self.funs:
            if f[0].startswith(("call", "leaf")):
                m.append("P (%s);" % self.call(genv, 1, f))
        m += self.main
        r.shuffle(m)
        m += ["P (%s);" % n for t, n in self.globs] + ["P (gchar); P (gshort);", "{ int k; for (k = 0; k < 5; k++) P (garr[k]); }" if False else "P (garr[0]); P (garr[4]);"]
        self.text[self.unit()] += ["int main ()", "{"] + ["  " + l for l in m] + ["  vk_flush ();", "  return %d;" % 0, "}"]

    def files(self):
        """One text per unit; every unit declares everything."""
        head = ["#include <stdarg.h>", RUN_PROTO] + self.protos + self.externs
        return ["\n".join(head + t) + "\n" for t in self.text]

    def whole(self):
        ex = [e for e in self.externs]
        return "\n".join(["#include <stdarg.h>", cgen.RUNTIME] + self.protos + ex + [l for t in self.text for l in t]) + "\n"
