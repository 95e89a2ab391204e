"""Random C programs about data: layouts, initialisers, access paths."""
import re
from .cgen import Gen, Program, FITS

SC = ["int", "unsigned", "char", "unsigned char", "short", "unsigned short", "long", "unsigned long"]
SC32 = SC[:6]


class Data(Gen):
    def __init__(self, rng, bits=64, sizes=True):
        Gen.__init__(self, rng, bits)
        self.sc = SC if bits == 64 else SC32
        self.sizes = sizes and bits == 64
        self.structs = []            # (tag, kind, fields)
        self.pre = []

    # ------------------------------------------------------------------ types
    def ftype(self, depth, in_union=False):
        r = self.r
        k = r.random()
        if k < .5 or depth <= 0:
            return r.choice(self.sc)
        if k < .68:
            return ("arr", r.choice(["char", "char", "int", "short", "unsigned char"] + self.sc), r.choice([1, 2, 3, 4, 5, 7, 8]))
        if k < .76 and not in_union:
            return ("ptr", r.choice(["int", "char", "short", "unsigned char"]))
        own = [s for s in self.structs]
        if k < .92 and own:
            return ("st", r.choice(own))
        if own and not in_union:
            return ("arr", ("st", r.choice(own)), r.choice([1, 2, 3]))
        return r.choice(self.sc)

    def decl(self, ty, name):
        if isinstance(ty, str):
            return "%s %s" % (ty, name)
        if ty[0] == "arr":
            return self.decl(ty[1], "%s[%d]" % (name, ty[2]))
        if ty[0] == "ptr":
            return "%s *%s" % (ty[1], name)
        return "%s %s %s" % (ty[1][1], ty[1][0], name)

    def struct(self):
        r = self.r
        tag = self.name("t")
        if r.random() < .22:
            first = ("arr", "unsigned char", 24) if r.random() < .5 else ("arr", "unsigned", 6)
            fs = [(self.name("m"), first)] + [(self.name("m"), self.ftype(1, True)) for _ in range(r.randrange(1, 4))]
            fs = [f for f in fs if self.size(f[1]) <= 24 and not self.hasptr(f[1])]
            s = (tag, "union", fs)
        else:
            fs = [(self.name("m"), self.ftype(2)) for _ in range(r.randrange(1, 6))]
            s = (tag, "struct", fs)
        self.structs.append(s)
        self.pre += ["%s %s { %s };" % (s[1], tag, " ".join(self.decl(t, n) + ";" for n, t in fs))]
        return s

    def size(self, t):
        if isinstance(t, str):
            return {"char": 1, "unsigned char": 1, "signed char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned": 4}.get(t, 8)
        if t[0] == "arr":
            return t[2] * self.size(t[1])
        if t[0] == "ptr":
            return 8
        ss = [self.size(x) for _, x in t[1][2]]
        return sum(ss) if t[1][1] == "struct" else max(ss)

    def hasptr(self, t):
        if isinstance(t, str):
            return False
        if t[0] == "ptr":
            return True
        if t[0] == "arr":
            return self.hasptr(t[1])
        return any(self.hasptr(x) for _, x in t[1][2])

    # ----------------------------------------------------------- initialisers
    def scalar_init(self, ty, const):
        v = self.lit(ty)
        if not const and self.vars and self.r.random() < .3:
            return self.r.choice(self.vars)[0]
        return v

    def init(self, ty, const=True, full=False):
        r = self.r
        if isinstance(ty, str):
            return self.scalar_init(ty, const)
        if ty[0] == "ptr":
            if ty[1] == "char" and r.random() < .6:
                return '"%s"' % "".join(r.choice("abcxyz 019") for _ in range(r.randrange(1, 6)))
            return "&%s" % self.targets[ty[1]]
        if ty[0] == "arr":
            if ty[1] == "char" and ty[2] > 1 and r.random() < .5:
                return '"%s"' % "".join(r.choice("abcxyz 019") for _ in range(r.randrange(0, ty[2])))
            n = ty[2] if full or self.hasptr(ty) or r.random() < .6 else r.randrange(1, ty[2] + 1)
            return "{%s}" % ", ".join(self.init(ty[1], const) for _ in range(n))
        fs = ty[1][2]
        if ty[1][1] == "union":
            return "{%s}" % self.init(fs[0][1], const)
        n = len(fs) if full or self.hasptr(ty) or r.random() < .6 else r.randrange(1, len(fs) + 1)
        if n == len(fs) and r.random() < .15 and all(isinstance(t, str) for _, t in fs) and False:
            return ", ".join(self.init(t, const) for _, t in fs)
        return "{%s}" % ", ".join(self.init(t, const) for _, t in fs[:n])

    # ------------------------------------------------------------------ paths
    def leaves(self, e, ty):
        """All scalar parts of an lvalue, in declaration order."""
        if isinstance(ty, str):
            return [(e, ty)]
        if ty[0] == "ptr":
            return [("*%s" % e, ty[1])]
        if ty[0] == "arr":
            return [x for i in range(ty[2]) for x in self.leaves("%s[%d]" % (e, i), ty[1])]
        return [x for n, t in ty[1][2] for x in self.leaves("%s.%s" % (e, n), t)]

    def path(self, e, ty, ptr=False):
        """One random part and one random way to name it; ptr: e is a pointer to ty."""
        r = self.r
        if isinstance(ty, str):
            return ("*%s" % e if ptr else e), ty
        if ty[0] == "ptr":
            return ("**%s" % e if ptr else "*%s" % e), ty[1]
        if ty[0] == "arr":
            assert not ptr
            i = r.randrange(ty[2])
            ix = r.choice(["%d" % i, "%d" % i, "(ix + %d)" % (i - 1), "ix - %d" % (1 - i), "i%d" % (i % 3)]) if i < 3 else "%d" % i
            k = r.random()
            if isinstance(ty[1], str) and k < .25:
                return "*(%s + %s)" % (e, ix), ty[1]
            return self.path("%s[%s]" % (e, ix), ty[1])
        n, t = r.choice(ty[1][2])
        if ptr:
            f = "%s->%s" % (e, n) if r.random() < .7 else "(*%s).%s" % (e, n)
        else:
            f = "%s.%s" % (e, n)
        return self.path(f, t)

    # --------------------------------------------------------------- programs
    def sumfun(self, s):
        """A function hashing all parts of one object of type s."""
        body = " ".join("h = h * 31 + (unsigned) %s;" % self.sumpart(e) for e, t in self.leaves("(*p)", ("st", s)))
        body = body.replace("(*p).", "p->")
        return ["unsigned sum_%s (%s %s *p)" % (s[0], s[1], s[0]), "{", "  unsigned h;", "  h = 17;"] + \
               ["  " + x.strip() + ";" for x in body.split(";") if x.strip()] + ["  return h;", "}"]

    def sumpart(self, e):
        return e if e[0] != "*" else "(%s)" % e

    def stmts(self, objs, n):
        """n statements that change and print parts of the objects (name, type, pointer name or None)."""
        r, out = self.r, []
        for _ in range(n):
            o, ty, p = r.choice(objs)
            k = r.random()
            if k < .08 and self.structs and p and not isinstance(ty, str) and ty[0] == "arr" and not isinstance(ty[1], str):
                i, j = r.randrange(ty[2]), r.randrange(ty[2])
                out.append(r.choice(["%s[%d] = %s[%d];", "*(%s + %d) = %s[%d];"]) % (o, i, o, j))
            elif k < .16:
                same = [q for q in objs if q[1] == ty and q[0] != o and not isinstance(ty, str) and ty[0] == "st"]
                if same:
                    q = r.choice(same)
                    out.append(r.choice(["%s = %s;" % (o, q[0]), "*%s = %s;" % (p, q[0]), "%s = *%s;" % (o, q[2])]))
            elif k < .24 and p and not isinstance(ty, str) and ty[0] == "arr":
                d = r.randrange(ty[2])
                # walk the pointer there and back
                el = ty[1]
                a, at = self.path(p, el, True)
                out.append("%s = %s + %d; P (%s); %s = %s - %d;" % (p, p, d, a, p, p, d))
                if d:
                    out.append("%s++; P (%s); --%s; P (&%s[%d] - %s);" % (p, a, p, o, d, p))
            else:
                if p and r.random() < .5 and not isinstance(ty, str):
                    a, at = self.path(p, ty[1] if ty[0] == "arr" else ty, True)
                else:
                    a, at = self.path(o, ty)
                b = a if a[0] != "*" else "(%s)" % a
                m = r.random()
                if m < .45:
                    out.append("%s = %s; P (%s);" % (a, self.rhs(objs), a))
                elif m < .6:
                    out.append("%s %s %s; P (%s);" % (a, r.choice(["+=", "-=", "^=", "|=", "&="]), self.rhs(objs), a))
                elif m < .72:
                    out.append("P (%s);" % (r.choice(["%s++", "++%s", "%s--", "--%s"]) % b))
                elif m < .8:
                    out.append("P (%s == %s); P (%s < %s);" % (a, self.rhs(objs), a, self.rhs(objs)))
                else:
                    out.append("P (%s);" % a)
        return out

    def rhs(self, objs):
        r = self.r
        if r.random() < .4:
            return self.lit(r.choice(["char", "short", "int"]))
        o, ty, p = r.choice(objs)
        a, at = self.path(o, ty)
        return a if r.random() < .6 else "(%s %s %s)" % (a, r.choice("+-^"), r.choice(["1", "7", "100"]))

    def dump(self, objs):
        out = []
        for o, ty, p in objs:
            if isinstance(ty, str):
                out.append("P (%s);" % o)
            elif ty[0] == "st":
                out.append("P (sum_%s (&%s));" % (ty[1][0], o))
            elif not isinstance(ty[1], str) and ty[1][0] == "st":
                out += ["P (sum_%s (&%s[%d]));" % (ty[1][1][0], o, i) for i in range(ty[2])]
            else:
                out += ["P (%s);" % e for e, t in self.leaves(o, ty)]
        return out


def program(rng, bits=64, sizes=True):
    g = Data(rng, bits, sizes)
    r = rng
    g.targets = {}
    items = []
    tg = []
    for t in ("int", "char", "short", "unsigned char"):
        v = g.name("x")
        g.targets[t] = v
        tg.append("%s %s = %s;" % (t, v, g.lit(t)))
    g.pre += tg + ["int ix = 1; int i0 = 0; int i1 = 1; int i2 = 2;", "enum e%d { A%d, B%d = 5, C%d, D%d = 2 };" % ((1,) * 5)]
    for _ in range(r.randrange(2, 5)):
        g.struct()
    sums = [x for s in g.structs for x in g.sumfun(s)]
    # globals, separated by canaries
    gl = []
    decls = []
    for _ in range(r.randrange(2, 6)):
        ty = r.choice([("st", r.choice(g.structs)), ("st", r.choice(g.structs)), ("arr", ("st", r.choice(g.structs)), r.choice([1, 2, 3])),
                       ("arr", r.choice(g.sc), r.choice([2, 3, 5])), ("arr", ("arr", r.choice(["int", "char", "short"]), r.choice([2, 3])), 2)])
        v = g.name("g")
        st = r.choice(["", "", "static "])
        need = g.hasptr(ty)
        decls.append("%s%s%s;" % (st, g.decl(ty, v), " = " + g.init(ty) if need or r.random() < .75 else ""))
        p = None
        if ty[0] == "st":
            p = g.name("p")
            decls.append("%s %s *%s = &%s;" % (ty[1][1], ty[1][0], p, v))
        c = g.name("k")
        decls.append("%s %s = %s;" % (r.choice(["int", "char", "short"]), c, r.choice(["11", "85", "90"])))
        gl.append((v, ty, p))
        gl.append((c, "int", None))
    g.pre += decls + sums
    if g.sizes:
        body = ["void sizes (void)", "{"]
        body += ["  P (sizeof (%s %s));" % (s[1], s[0]) for s in g.structs]
        body += ["  P (sizeof %s);" % o for o, t, p in gl]
        body += ["  P ((char *) &%s[1] - (char *) &%s[0]);" % (o, o) for o, t, p in gl if not isinstance(t, str) and t[0] == "arr" and t[2] > 1]
        for o, t, p in gl:
            if p and t[0] == "st":
                body += ["  P ((char *) &%s->%s - (char *) %s);" % (p, n, p) for n, ft in t[1][2] if isinstance(ft, str) or ft[0] != "arr"]
        items.append(dict(lines=body + ["}"], call="sizes", lines_ok=True))
    items.append(dict(lines=["void start (void)", "{"] + ["  " + x for x in g.dump(gl)] + ["  P (A1 + 10 * B1 + 100 * C1 + 1000 * D1);", "}"], call="start"))
    for _ in range(3):
        f = g.name("d")
        loc, lines = [], ["void %s (void)" % f, "{"]
        g.vars = [("ix", "int"), ("i2", "int")]
        for _ in range(r.randrange(1, 4)):
            ty = r.choice([("st", r.choice(g.structs)), ("st", r.choice(g.structs)), ("arr", ("st", r.choice(g.structs)), r.choice([1, 2, 3])),
                           ("arr", r.choice(g.sc), r.choice([2, 3, 5])), ("arr", ("arr", r.choice(["int", "char", "short"]), r.choice([2, 3])), 2),
                           r.choice(g.sc)])
            v = g.name("l")
            if g.size(ty) > 300:
                continue
            st = "static " if r.random() < .2 else ""
            lines.append("  %s%s = %s;" % (st, g.decl(ty, v), g.init(ty, const=bool(st))))
            p = None
            if not isinstance(ty, str):
                if ty[0] == "st":
                    p = g.name("p")
                    lines.append("  %s %s *%s = &%s;" % (ty[1][1], ty[1][0], p, v))
                elif not isinstance(ty[1], str) and ty[1][0] == "st":
                    p = g.name("p")
                    lines.append("  %s %s *%s = %s;" % (ty[1][1][1], ty[1][1][0], p, v))
                elif isinstance(ty[1], str):
                    p = g.name("p")
                    lines.append("  %s *%s = %s;" % (ty[1], p, v))
            loc.append((v, ty, p))
            c = g.name("k")
            lines.append("  %s %s = %s;" % (r.choice(["int", "char", "short"]), c, r.choice(["11", "85", "90"])))
            loc.append((c, "int", None))
        objs = loc + loc + gl
        lines += ["  " + x for x in g.stmts(objs, 14)] + ["  " + x for x in g.dump(loc + gl)] + ["}"]
        items.append(dict(lines=lines, call=f, lines_ok=True))
        items.append(dict(lines=["void %sagain (void)" % f, "{", "  %s ();" % f, "}"], call="%sagain" % f, needs=f))
    return Program(g.pre, items, bits, host=["-fpack-struct"])
