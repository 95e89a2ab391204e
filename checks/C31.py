import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vk.core import Check, main
from vk.lcd import Drv, hx
from checks import C26, C28, C29, C30

B = [0, 1, -1, 2, 7, 8, 9, 10, 15, 16, 99, 127, 128, 255, 256, 32767, 32768, 65535, 2**31 - 1, -2**31 + 1, 1000000007]


def text(r, n=None):
    n = r.choice([0, 1, 2, 3, 7, 8, 9, 20, 60, 200]) if n is None else n
    return bytes(r.choice(b"abAB01 zZ_.\x80\xe9\xff\n") if r.random() < .8 else r.randrange(1, 256) for _ in range(n))


def number(r):
    k = r.random()
    base = r.choice([2, 8, 10, 10, 10, 16, 36])
    v = r.choice(B + [r.randrange(2**31), 10**9, 2**31 - 2])
    dig = "0123456789abcdefghijklmnopqrstuvwxyz"
    s, x = "", abs(v)
    while True:
        s = dig[x % base] + s
        x //= base
        if not x:
            break
    s = r.choice(["", "", " ", "\t\n "]) + r.choice(["", "", "-", "+"]) + r.choice(["", "", "0", "0x", "0X" if base == 16 else ""]) + (s.upper() if r.random() < .3 else s) + r.choice(["", "", "x", " 5", ".5", "z"])
    return s.encode(), base if r.random() < .8 else r.choice([0, 10, 16, 8])


def directive(r, lng):
    c = r.choice("ddiuxXocs")
    f = "%"
    if r.random() < .3:
        f += "-"
    elif c in "dioxXu" and r.random() < .3:
        f += "0"
    a = []
    if r.random() < .5:
        if r.random() < .2:
            f += "*"
            a.append(str(r.choice([0, 1, 5, 12])))
        else:
            f += str(r.choice([1, 2, 5, 9, 12, 20]))
    if c != "c" and r.random() < .3:
        f += ".%d" % r.choice([0, 1, 3, 8, 12])
    if c == "s":
        return f + "s", a + [hx(text(r, r.choice([0, 1, 5, 20])))]
    if c == "c":
        return f + "c", a + [str(r.choice([65, 97, 32, 48, 126]))]
    v = r.choice(B + [r.randrange(-10**6, 10**6)])
    return f + ("l" if r.random() < lng else "") + c, a + [str(v)]


def call(r, fmt):
    T = lambda n=None: hx(text(r, n))
    k = r.random()
    if fmt and k < .4:
        if r.random() < .25:
            f, t = "", ""
            for c in r.sample(["d", "ld", "u", "c", "d"], r.choice([1, 2, 3])):
                f += r.choice(["", " ", ","]) if f else ""
                t += (f[-1] if f and f[-1] in " ," else "") + (r.choice("abZ9") if c == "c" else r.choice(["", " "]) + str(r.choice([0, 5, -7, 123456, 2147483647, -2147483647] if c != "u" else [0, 5, 77])) + ("" if r.random() < .9 else "q"))
                f += "%" + c
            return "scan %s %s" % (hx(t), hx(f))
        f, a = "", []
        for _ in range(r.choice([1, 1, 2, 3])):
            d, x = directive(r, .4)
            if len(a) + len(x) > 4:
                break
            f += r.choice(["", "a", " ", "%%", "<"]) + d
            a += x
        f += r.choice(["", ">", "\n", " end"])
        return "%s %s %d %s" % (r.choice(["fmt", "fmt", "fmt", "ffmt", "pfmt"]), hx(f), r.choice([0, 1, 2, 5, 10, 30, 200]), " ".join(a))
    o = r.choice(["strlen", "strcmp", "strncmp", "memcmp", "strcpy", "strncpy", "strcat", "strncat", "memcpy", "memmove", "memset", "strchr", "strrchr", "index", "rindex", "memchr", "strstr", "memmem", "strspn", "strcspn",
                  "strpbrk", "strdup", "bcmp", "bcopy", "bzero", "strlwr", "strupr", "strerror", "itoa", "ltoa", "utoa", "ultoa", "ntoab", "ltoab", "isnumber", "abtol", "eputs", "oputs", "fdputs", "fdputc",
                  "atoi", "atol", "strtol", "strtoul", "strtoll", "abs", "ctype", "qsort", "qsortrec", "alloc"])
    if o in ("strcmp", "memcmp", "bcmp"):
        a = text(r)
        b = a[:r.randint(0, len(a))] + text(r, r.choice([0, 1, 3])) if r.random() < .7 else text(r)
        return "%s %s %s" % (o, hx(a), hx(b))
    if o in ("strncmp", "strncat"):
        a = text(r)
        return "%s %s %s %d" % (o, hx(a), hx(a[:r.randint(0, len(a))] + text(r, 2)), r.choice([0, 1, 2, 5, 50, 250]))
    if o in ("strstr", "memmem", "strspn", "strcspn", "strpbrk"):
        a = text(r)
        i = r.randint(0, len(a))
        b = a[i:i + r.choice([0, 1, 2, 3])] if r.random() < .6 else text(r, r.choice([0, 1, 2, 4]))
        return "%s %s %s" % (o, hx(a), hx(b))
    if o == "strcat":
        return "strcat %s %s" % (T(), T())
    if o == "strncpy":
        return "strncpy %s %d" % (T(), r.choice([0, 1, 2, 8, 20, 250]))
    if o == "memmove":
        n = r.choice([10, 50, 200])
        m = r.randint(0, n // 2)
        return "memmove %s %d %d %d" % (T(n), r.randint(0, n - m), r.randint(0, n - m), m)
    if o == "memset":
        return "memset %d %d" % (r.choice([0, 65, 255, 256, -1]), r.choice([0, 1, 7, 8, 100, 300]))
    if o == "bzero":
        return "bzero %d" % r.choice([0, 1, 8, 100])
    if o in ("strchr", "strrchr", "index", "rindex", "memchr"):
        a = text(r)
        return "%s %s %d" % (o, hx(a), r.choice([0, r.choice(a) if a else 65, r.randrange(256), 65]))
    if o in ("strtol", "strtoul", "strtoll", "abtol", "isnumber"):
        s, b = number(r)
        if o in ("abtol", "isnumber") and b == 0:
            b = 10
        if o == "strtoul":
            s = s.replace(b"-", b"")
        return "%s %s %d" % (o, hx(s), b)
    if o in ("atoi", "atol"):
        return "%s %s" % (o, hx(number(r)[0]))
    if o == "strerror":
        return "strerror %d" % r.choice([0, 1, 2, 13, 36, 100, 200])
    if o in ("itoa", "ltoa", "utoa", "ultoa", "abs"):
        return "%s %d" % (o, r.choice(B) if o not in ("utoa", "ultoa") else abs(r.choice(B)))
    if o == "ntoab":
        return "ntoab %d %d %d" % (r.choice(B), r.choice([2, 3, 8, 10, 16, 36]), r.randrange(2))
    if o == "ltoab":
        return "ltoab %d %d" % (r.choice(B), r.choice([2, 8, 10, 16, 36]))
    if o == "fdputc":
        return "fdputc %d" % r.randrange(1, 256)
    if o == "ctype":
        return "ctype %d" % r.randrange(0, 256)
    if o == "qsort":
        return "qsort %d %s" % (r.randrange(2), " ".join(str(r.choice([r.randrange(10), r.randrange(-1000, 1000)])) for _ in range(r.choice([0, 1, 2, 3, 10, 50]))))
    if o == "qsortrec":
        return "qsortrec %d %d" % (r.choice([0, 1, 2, 10, 100, 250]), r.randrange(1000))
    if o == "alloc":
        return "alloc %d %d" % (r.choice([0, 1, 8, 100, 5000]), r.choice([0, 1, 10, 1000]))
    return "%s %s" % (o, T())


def go():
    c = Check("C31")
    calls = Drv(c, src="libcall.c")
    pairs = (("gcc", "mescc-64"), ("gcc-32", "mescc-32"))

    def one(i):
        r = random.Random("%s/%d/%d" % (c.pid, c.seed, i))
        oracle, conf = pairs[i % 2]
        ops = [call(r, i % 2 == 1) for _ in range(r.choice([20, 100, 300]))]
        w = calls.compare("calls-%d" % i, "%d" % i, "\n".join(ops) + "\n", oracle=oracle, confs=(conf,))
        c.case(("calls", i), n=len(ops))
        for o in ops:
            c.count("call " + o.split()[0])
        if w and i < 2:
            c.sample(" / ".join(x.strip()[:60] for x in w[1][:12]))
    c.pmap(one, range(c.n(4000, 80000)))
    drv = Drv(c)

    def two(i):
        r = random.Random("%s/s/%d/%d" % (c.pid, c.seed, i))
        oracle, conf = pairs[i % 2]
        kw = {}
        q = i // 2 % 4
        if q == 0:
            g = C26.Gen(r)
            s = g.make(r.choice([60, 200]))
            kw["files"] = g.files
        elif q == 1:
            env, s, kinds = C28.history(r)
            kw.update(files={"drv": ("exe",)}, env=env, norm=C28.norm)
        elif q == 2:
            g = C29.Gen(r, conf_free=i % 2 == 0)
            s = g.make()
            kw.update(files=g.files, env=C29.environment(r), norm=lambda ls: C29.norm(ls, {}))
        else:
            g = C30.Gen(r, i % 2 == 1)
            s = g.make(r.choice([30, 100]))
            kw.update(files=g.files, norm=C30.norm)
        w = drv.compare("history-%d" % i, "%d" % i, s, oracle=oracle, confs=(conf,), **kw)
        c.case(("history", i), n=s.count("\n"))
        c.count("stream, environment, process and file-system histories")
    c.pmap(two, range(c.n(600, 10000)))
    c.finish("One case = one library call of a generated script, run by the same program compiled by gcc with the gcc-built library and by MesCC with the MesCC-built library, on x86_64 and on x86 (formatted output and input only on x86: "
             "known finding of C24): 50 string, memory, conversion, character, sorting, allocation and output functions, printf and scanf families, and histories on streams, descriptors, the environment, children and the file system. "
             "Oracle: the two builds print the same and end with the same status and files.",
             min_events={"call fmt": 1000, "call scan": 300, "call qsort": 300, "call strtol": 300, "stream, environment, process and file-system histories": 100})


if __name__ == "__main__":
    main(go)
