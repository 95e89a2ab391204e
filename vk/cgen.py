"""Random C programs in the language MesCC supports, with gcc as the model.

A program is a list of items; every item is compiled with gcc under
UBSan first and dropped if its execution is undefined, so what remains has
one meaning that any C compiler must give it."""
import os, random, re
from .core import run, HarnessError

RUNTIME = r'''
#include <unistd.h>
char vk_buf[4096]; int vk_n;
void vk_flush (void) { if (vk_n) write (1, vk_buf, vk_n); vk_n = 0; }
void vk_c (int c) { if (vk_n >= 4000) vk_flush (); vk_buf[vk_n] = c; vk_n = vk_n + 1; }
void P (long x)
{
  char t[24]; int k; int neg; unsigned long u;
  k = 0; neg = 0; u = x;
  if (x < 0) { neg = 1; u = 0 - u; }
  t[k] = '0' + u % 10; k = k + 1; u = u / 10;
  while (u) { t[k] = '0' + u % 10; k = k + 1; u = u / 10; }
  if (neg) vk_c ('-');
  while (k) { k = k - 1; vk_c (t[k]); }
  vk_c (10);
}
void S (char *s) { while (*s) { vk_c (*s); s = s + 1; } vk_c (10); }
'''

INT = ["int", "unsigned", "char", "unsigned char", "short", "unsigned short", "signed char"]
LONG = ["long", "unsigned long"]
VALS = [0, 1, 2, 3, 5, 7, 10, 31, 63, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 99999,
        0x7ffffff, 2147483646, 2147483647]
LVALS = VALS + [2147483648, 4294967295, 4294967296, 4294967297, 1 << 40, 123456789012, 0x7fffffffffffffff]
FITS = {"char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-32768, 32767),
        "unsigned short": (0, 65535), "int": (-2147483647, 2147483647), "unsigned": (0, 4294967295),
        "long": (-(1 << 63) + 1, (1 << 63) - 1), "unsigned long": (0, (1 << 64) - 1)}


class Gen:
    def __init__(self, rng, bits=64):
        self.r, self.bits = rng, bits
        self.types = INT + (LONG if bits == 64 else [])
        self.vars = []          # readable scalar lvalues: (text, type)
        self.funs = []          # (name, return type, parameter types)
        self.uid = 0

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    # ------------------------------------------------------------- values
    def lit(self, ty=None):
        r = self.r
        if ty is None:
            pool = LVALS if self.bits == 64 and r.random() < .3 else VALS
            v = r.choice(pool) if r.random() < .7 else r.randrange(0, 1 << r.choice((3, 8, 16, 31)))
        else:
            lo, hi = FITS[ty]
            v = r.choice([x for x in LVALS + [-x for x in LVALS] if lo <= x <= hi] + [lo, hi]) if r.random() < .6 else r.randrange(lo, min(hi, 1 << 62) + 1)
        if self.bits == 32 and v > 0x7fffffff:
            return "0x%xU" % v
        if v < 0:
            return "-%d" % -v
        if v > 0x7fffffffffffffff:
            return "0x%xUL" % v
        k = r.random()
        if k < .15:
            return "0x%x" % v
        if k < .2 and v:
            return "0%o" % v
        if 32 <= v < 127 and k < .4 and chr(v) not in "'\\":
            return "'%s'" % chr(v)
        if k > .93 and v < 1 << 31:
            return "%dU" % v
        if k > .9 and self.bits == 64:
            return "%dL" % v
        return "%d" % v

    def leaf(self):
        r = self.r
        if self.vars and r.random() < .75:
            return r.choice(self.vars)[0]
        return self.lit()

    def expr(self, d=3):
        r = self.r
        if d <= 0 or r.random() < .12:
            return self.leaf()
        k = r.random()
        e = lambda: self.expr(d - 1)
        if k < .30:
            return "(%s %s %s)" % (e(), r.choice(["+", "-", "*", "+", "-"]), e())
        if k < .40:
            return "(%s %s %s)" % (e(), r.choice(["&", "|", "^"]), e())
        if k < .48:
            if r.random() < .6:
                return "(%s %s %s)" % (e(), r.choice("/%"), r.choice(["1", "2", "3", "7", "-3", "10", "16U", "255", "1000"]))
            return "(%s %s (%s | 1))" % (e(), r.choice("/%"), e())
        if k < .55:
            return "(%s %s (%s & %d))" % (e(), r.choice(["<<", ">>", ">>"]), e(), r.choice([3, 7, 15, 31])) if r.random() < .5 else \
                   "(%s %s %d)" % (e(), r.choice(["<<", ">>", ">>"]), r.randrange(0, 20))
        if k < .67:
            return "(%s %s %s)" % (e(), r.choice(["<", ">", "<=", ">=", "==", "!="]), e())
        if k < .74:
            return "(%s %s %s)" % (e(), r.choice(["&&", "||"]), e())
        if k < .80:
            return "(%s ? %s : %s)" % (e(), e(), e())
        if k < .87:
            return "%s%s" % (r.choice(["-", "~", "!", "- -", "!!", "~-", "+"]), self.par(e()))
        if k < .94:
            return "(%s) %s" % (r.choice(self.types), self.par(e()))
        if k < .98 and self.funs:
            return self.call(d)
        return "(%s, %s)" % (e(), e())

    def par(self, e):
        return e if e[0] == "(" or re.match(r"\w+$", e) else "(%s)" % e

    def call(self, d, f=None):
        n, rt, ps = f or self.r.choice(self.funs)
        return "%s (%s)" % (n, ", ".join(self.expr(d - 1) for _ in ps))

    # ---------------------------------------------------------------- items
    def scope(self, n=5, glob=False, prefix="v"):
        """Declarations of n scalars, arrays and pointers; extends self.vars."""
        r, out = self.r, []
        for _ in range(n):
            ty = r.choice(self.types)
            k = r.random()
            v = self.name(prefix)
            if k < .68:
                out.append("%s %s = %s;" % (ty, v, self.lit(ty)))
                self.vars.append((v, ty))
            elif k < .88:
                m = r.choice([2, 3, 4, 7])
                out.append("%s %s[%d] = {%s};" % (ty, v, m, ", ".join(self.lit(ty) for _ in range(m))))
                for i in range(2):
                    self.vars.append(("%s[%d]" % (v, r.randrange(m)), ty))
                self.vars.append(("%s[%s & 1]" % (v, r.choice(self.vars)[0]), ty))
            elif not glob:
                w = self.name(prefix)
                out.append("%s %s = %s; %s *%s = &%s;" % (ty, v, self.lit(ty), ty, w, v))
                self.vars.append((v, ty))
                self.vars.append(("*%s" % w, ty))
            else:
                out.append("%s %s = %s;" % (ty, v, self.lit(ty)))
                self.vars.append((v, ty))
        return out

    def simple(self):
        """One statement on one line that prints what it computed."""
        r = self.r
        k = r.random()
        if k < .45:
            return "P (%s);" % self.expr(r.choice([2, 3, 3, 4]))
        v, ty = r.choice(self.vars)
        p = v if v[0] != "*" else "(%s)" % v
        if k < .62:
            return "%s = %s; P (%s);" % (v, self.expr(3), v)
        if k < .78:
            op = r.choice(["+=", "-=", "*=", "&=", "|=", "^=", "+=", "-="])
            return "%s %s %s; P (%s);" % (v, op, self.expr(2), v)
        if k < .83:
            return "%s %s (%s | 1); P (%s);" % (v, r.choice(["/=", "%="]), self.expr(1), v)
        if k < .88:
            return "%s %s %d; P (%s);" % (v, r.choice(["<<=", ">>="]), r.randrange(0, 7), v)
        if k < .97:
            f = r.choice(["%s++", "%s--", "++%s", "--%s"]) % p
            return "P (%s); P (%s);" % (f, v)
        return "P (%s = %s); P (%s);" % (v, self.expr(2), v)

    def exprs(self, n):
        """A function of straight-line statements."""
        keep = list(self.vars)
        f = self.name("e")
        lines = ["void %s (void)" % f, "{"] + ["  " + x for x in self.scope(self.r.randrange(3, 8))]
        lines += ["  " + self.simple() for _ in range(n)]
        lines.append("}")
        self.vars = keep
        return f, lines

    def pure(self):
        """A pure function usable inside expressions."""
        r = self.r
        keep = self.vars
        rt = r.choice(self.types)
        ps = [r.choice(self.types) for _ in range(r.randrange(1, 5))]
        f = self.name("f")
        self.vars = [("p%d" % i, t) for i, t in enumerate(ps)]
        lines = ["%s %s (%s)" % (rt, f, ", ".join("%s p%d" % (t, i) for i, t in enumerate(ps))), "{"]
        if r.random() < .5:
            lines.append("  if (%s) return %s;" % (self.expr(2), self.expr(2)))
        lines += ["  return %s;" % self.expr(2), "}"]
        self.vars = keep
        self.funs.append((f, rt, ps))
        return f, lines

    # ------------------------------------------------------- control flow
    def cond(self):
        return self.expr(2)

    def assign(self):
        r = self.r
        v, ty = r.choice(self.vars)
        if v[0] == "*":
            v = "(%s)" % v
        return r.choice(["%s = %s;", "%s += %s;", "%s ^= %s;", "%s -= %s;"]) % (v, self.expr(2)) if r.random() < .8 else "%s++;" % v

    def block(self, d, loop):
        n = self.r.randrange(1, 4)
        out = []
        for _ in range(n):
            out += self.stmt(d - 1, loop)
        return out

    def body(self, d, loop):
        b = self.block(d, loop)
        return ["{"] + ["  " + x for x in b] + ["}"]

    def stmt(self, d, loop):
        """loop: None, 'loop', 'switch' or 'both' for what break/continue may leave."""
        r = self.r
        k = r.random()
        self.uid += 1
        u = self.uid
        if d <= 0 or k < .25:
            k2 = r.random()
            if k2 < .4:
                return ["P (%s);" % self.expr(2)]
            if k2 < .85 or not loop:
                return [self.assign()]
            c = self.cond()
            if loop in ("loop", "both") and r.random() < .5:
                return ["if (%s) continue;" % c]
            return ["if (%s) break;" % c]
        if k < .42:
            out = ["if (%s)" % self.cond()] + self.body(d, loop)
            while r.random() < .3:
                out += ["else if (%s)" % self.cond()] + self.body(d, loop)
            if r.random() < .6:
                out += ["else"] + self.body(d, loop)
            return out
        if k < .52:
            i = "i%d" % u
            self.decl.append("int %s;" % i)
            s = r.choice(["%(i)s = 0; %(i)s < %(n)d; %(i)s++", "%(i)s = %(n)d; %(i)s > 0; %(i)s--", "%(i)s = -%(n)d; %(i)s != 0; ++%(i)s",
                          "%(i)s = 0; %(i)s <= %(n)d; %(i)s += 2"]) % dict(i=i, n=r.choice([2, 4, 6]))
            self.vars.append((i, None))
            b = self.body(d, "loop")
            self.vars.remove((i, None))
            return ["for (%s)" % s] + [re.sub(r"\b%s( [-+^]?=|\+\+)" % i, r"vk_dummy\1", x) for x in b]
        if k < .60:
            i = "i%d" % u
            self.decl.append("int %s;" % i)
            b = self.body(d, "loop")
            n = r.choice([1, 3, 5])
            if r.random() < .5:
                return ["%s = %d;" % (i, n), "while (%s-- > 0)" % i] + b
            return ["%s = 0;" % i, "do"] + b + ["while (++%s < %d);" % (i, n)]
        if k < .82:
            n = r.choice([2, 3, 4, 5, 8])
            form = r.random()
            v = "i%d" % u
            self.decl.append("int %s;" % v)
            lo = r.choice([0, 0, -2, 100, 126])
            out = ["for (%s = %d; %s < %d; %s++)" % (v, lo - 1, v, lo + n + 1, v)] if form < .6 else \
                  ["%s = ((%s) & 7) + %d;" % (v, self.expr(2), lo)]
            out.append("switch (%s)" % v)
            out.append("{")
            cases = list(range(lo, lo + n))
            r.shuffle(cases)
            dpos = r.randrange(0, len(cases) + 1) if r.random() < .75 else -1
            inner = "both" if loop in ("loop", "both") or form < .6 else "switch"
            for j in range(len(cases) + 1):
                if j == dpos:
                    out.append("default:")
                    if r.random() < .8 or j == len(cases):
                        out += self.swbody(d, inner)
                if j < len(cases):
                    out.append("case %d:" % cases[j])
                    if r.random() < .75 or j == len(cases) - 1:
                        out += self.swbody(d, inner)
            out.append("}")
            return out
        if k < .88:
            lab = "l%d" % u
            i = "i%d" % u
            self.decl.append("int %s;" % i)
            if r.random() < .5:
                return ["%s = 0;" % i, "%s:" % lab] + [self.assign(), "P (%s);" % r.choice(self.vars)[0],
                        "if (++%s < %d) goto %s;" % (i, r.choice([2, 3]), lab)]
            return ["if (%s) goto %s;" % (self.cond(), lab)] + [x for x in self.plain()] + ["%s: vk_dummy++;" % lab]
        if k < .94:
            return ["%s ? P (%s) : P (%s);" % (self.par(self.cond()), self.expr(1), self.expr(1))]
        return self.body(d, loop)

    def plain(self):
        return ["P (%s);" % self.expr(1) if self.r.random() < .5 else self.assign() for _ in range(2)]

    def swbody(self, d, loop):
        out = self.block(min(d - 1, 2), loop)
        if self.r.random() < .6:
            out.append("break;")
        return out

    def flow(self):
        keep = list(self.vars)
        f = self.name("c")
        self.decl = []
        ds = self.scope(self.r.randrange(2, 5), prefix="w")
        b = []
        for _ in range(self.r.randrange(2, 4)):
            b += self.stmt(3, None)
        b += ["P (%s);" % v for v, t in self.vars[len(keep):]]
        lines = ["void %s (void)" % f, "{"] + ["  " + x for x in ds + list(dict.fromkeys(self.decl))]
        lines += ["  " + x for x in b] + ["}"]
        self.vars = keep
        return f, lines


class Program:
    """items: (kind, call or None, lines, droplines?) in order."""

    def __init__(self, pre, items, bits=64, post=(), host=()):
        self.pre, self.items, self.bits, self.post, self.host = list(pre), items, bits, list(post), list(host)

    def text(self):
        """(source, line -> (item, line in item))."""
        out = RUNTIME.split("\n") + ["int vk_dummy;"] + self.pre
        where = {}
        for it in self.items:
            for j, l in enumerate(it["lines"]):
                where[len(out) + 1] = (it, j)
                out.append(l)
        out += ["int main ()", "{"] + ["  %s (); vk_flush ();" % it["call"] for it in self.items if it.get("call")]
        out += ["  P (vk_dummy);" if False else "  vk_flush ();", "  return %d;" % 0, "}", ""]
        return "\n".join(out), where

    def settle(self, d, name, limit=12):
        """Drop undefined items; (source, expected output, status) or None."""
        src, exe = os.path.join(d, name + ".c"), os.path.join(d, name + ".host")
        for _ in range(limit):
            calls = {i.get("call") for i in self.items}
            self.items = [i for i in self.items if i.get("needs") is None or i["needs"] in calls]
            text, where = self.text()
            # where long is 32 bits, int stands in for it on the host
            open(src, "w").write(re.sub(r"\blong\b", "int", text) if self.bits == 32 else text)
            r = run(["clang", "-Wno-everything", "-Winteger-overflow", "-Wdivision-by-zero", "-Wshift-negative-value", "-Wshift-count-overflow",
                     "-Wshift-overflow", "-Wunsequenced", "-O0", "-fno-builtin", "-fsanitize=undefined", "-fno-sanitize=alignment"]
                    + self.host + ["-o", exe, src], timeout=120)
            if r.rc:
                raise HarnessError("clang: " + r.err.decode("latin1")[:1500])
            bad = {int(m[1]) for m in re.findall(rb"(\.c:(\d+):\d+: warning: .*)", r.err)}
            r = run([exe], timeout=20, retry_timeout=False)
            bad |= {int(x) for x in re.findall(rb"\.c:(\d+):\d+: runtime error", r.err)}
            if not bad and r.rc == 0 and not r.timeout and len(r.out) < 400000:
                os.unlink(exe)
                open(src, "w").write(text)
                return text, r.out, where
            if not bad:
                # endless or failing: find it by elimination, last item that ran
                fl = [i for i in self.items if i.get("call")]
                if not fl:
                    return None
                self.items.remove(fl[-1])
                continue
            for ln in sorted(bad, reverse=True):
                if ln not in where:
                    return None
                it, j = where[ln]
                if it.get("lines_ok") and re.match(r"  [^=]*P \(|  [^ ]* = |  \*|  [^ ]* .= ", it["lines"][j]):
                    it["lines"][j] = ""
                elif it in self.items:
                    if it.get("call"):
                        self.items.remove(it)
                    else:           # a pure function: make it harmless
                        it["lines"] = [it["lines"][0], "{", "  return 1;", "}"]
        return None


def program(rng, bits=64, nexpr=3, nflow=3, npure=3, lines=12):
    g = Gen(rng, bits)
    pre = g.scope(6, glob=True, prefix="g")
    items = []
    for _ in range(npure):
        f, l = g.pure()
        items.append(dict(lines=l))
    for _ in range(nexpr):
        f, l = g.exprs(lines)
        items.append(dict(lines=l, call=f, lines_ok=True))
    for _ in range(nflow):
        f, l = g.flow()
        items.append(dict(lines=l, call=f))
    return Program(pre, items, bits)


def judge(c, m, d, name, src, exp, bits=64, extra=(), status=0, lines=()):
    """Compile one settled program with MesCC, run it, compare with the host's output."""
    f, exe = os.path.join(d, name + ".c"), os.path.join(d, name + ".mes")
    open(f, "w").write(src)
    r = m.prog(f, exe, bits, extra=extra)
    if r.timeout:
        return c.unsure("mescc timed out on " + name)
    rep = dict(program=src, bits=bits)
    if r.rc:
        return c.violation("compile-%s" % name, "mescc -m %d rejects a valid program: %s" % (bits, r.out.decode("latin1")[-600:]), rep)
    o = run([exe], timeout=30, cwd=d)
    c.count("programs")
    c.count("lines-compared", exp.count(b"\n"))
    c.case((name, len(exp)), n=exp.count(b"\n"))
    if o.timeout:
        c.violation("hang-%s" % name, "the compiled program does not finish (the host's does in well under a second)", rep)
    elif (o.rc, o.out) != (status, exp):
        e, g = exp.split(b"\n"), o.out.split(b"\n")
        k = next((i for i in range(max(len(e), len(g))) if e[i:i + 1] != g[i:i + 1]), 0)
        c.violation("output-%s" % name, "line %d of %d: the C program prints %r, compiled by mescc -m %d it prints %r (exit status %s, expected %d)"
                    % (k + 1, len(e), e[k:k + 2], bits, g[k:k + 2], o.rc, status), rep)
    for p in (f, exe):
        if os.path.exists(p):
            os.unlink(p)


def check_programs(c, m, n, make, bits=64, tag="p"):
    """make (rng) -> Program for n seeds; all judged."""
    d = c.dir("prog-" + tag)

    def one(i):
        rng = random.Random("%s/%s/%d/%d" % (c.pid, tag, c.seed, i))
        p = make(rng)
        s = p.settle(d, "%s%d" % (tag, i))
        if not s:
            c.count("dropped")
            return
        src, exp, _ = s
        for k in ("if", "switch", "for", "while", "goto", "?", "&&", "%", ">>", "(unsigned char)", "return", "struct", "union", "static"):
            c.count("uses " + k, src.count(k))
        judge(c, m, d, "%s%d" % (tag, i), src, exp, bits)
        if i < 2:
            c.sample(src[-600:])
    c.pmap(one, range(n))
