import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, re
from vk.core import Check, main
from vk import sch

# Data model: int; str = symbol; bytes = string; ("c", n) character; True/False; list; ("d", [items], tail) dotted;
# ("v", [items]) vector; ("k", name) keyword.
Q = {"quote": "'", "quasiquote": "`", "unquote": ",", "unquote-splicing": ",@"}
NAMES = {7: ["alarm"], 8: ["backspace"], 9: ["tab"], 10: ["newline", "linefeed"], 11: ["vtab"], 12: ["page"], 13: ["return"], 32: ["space"], 27: ["esc"], 0: ["nul"]}
R7 = {0: ["null"], 127: ["delete"], 27: ["escape"]}
SYM1 = "abcdefghijklmnopqrstuvwxyzABCXYZ!$%&*/:<=>?^_~"
SYM = SYM1 + "0123456789+-.@"


def esc(s):
    return "".join(chr(b) if 33 <= b <= 126 and b != 92 else "\\%d;" % b for b in s)


def show(x):
    """The notation of vk-put."""
    if x is True:
        return "#t"
    if x is False:
        return "#f"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return esc(x.encode("latin1"))
    if isinstance(x, bytes):
        return '"%s"' % esc(x)
    if isinstance(x, list):
        return "(" + " ".join(map(show, x)) + ")"
    k = x[0]
    if k == "c":
        return "#\\%d" % x[1]
    if k == "v":
        return "#" + show(x[1])
    if k == "k":
        return "#:" + esc(x[1].encode("latin1"))
    if k == "d":
        return "(" + " ".join(map(show, x[1])) + " . " + show(x[2]) + ")"
    raise ValueError(x)


class D:
    def __init__(self, rng):
        self.r = rng

    def sym(self):
        r = self.r
        k = r.random()
        if k < .3:
            return r.choice(["a", "x", "foo", "list->vector", "set!", "+", "-", "...", "<=", "quote", "unquote", "1+", "-1+", "4a", "-4a", "+4a", "-x", "+x", "a.b", ".b", "..", "a#b", "x1", "-0x", "12-", "lambda", "define",
                             "t", "f", "nil", "else", "=>", "a'b"[:1], "->", "-.", "b@", "*eof*", "12/x"])
        return r.choice(SYM1) + "".join(r.choice(SYM) for _ in range(min(60, int(r.expovariate(.25)))))

    def string(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 20, 90])
        k = r.random()
        if k < .5:
            return bytes(r.choice(b"abc XYZ09;()'#|,`.\\\"") for _ in range(n))
        if k < .8:
            return bytes(r.randrange(0, 128) for _ in range(n))
        if k < .9:
            return bytes(r.randrange(128, 256) for _ in range(n))
        return bytes(r.choice([0, 7, 8, 9, 10, 11, 12, 13, 27, 32, 34, 92, 127]) for _ in range(n))

    def int(self):
        r = self.r
        k = r.random()
        if k < .4:
            return r.randint(-99, 99)
        if k < .6:
            return r.choice([2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, -2 ** 63, 2 ** 32, 10 ** 18, -10 ** 18, 0])
        return r.choice([1, -1]) * r.getrandbits(r.randint(1, 63))

    def char(self):
        r = self.r
        return ("c", r.choice([r.randrange(33, 127), r.randrange(33, 127), r.randrange(97, 123), r.choice([0, 7, 8, 9, 10, 11, 12, 13, 27, 32, 127]), r.randrange(0, 128)]))

    def datum(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .4:
            k = r.random()
            if k < .3:
                return self.sym()
            if k < .5:
                return self.string()
            if k < .75:
                return self.int()
            if k < .88:
                return self.char()
            if k < .95:
                return r.random() < .5
            return ("k", r.choice(["a", "key", "one-two", "x1"]))
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6, 12]) if d < 5 else r.randint(1, 3)
        if k < .7:
            return [self.datum(d - 1) for _ in range(n)]
        if k < .78:
            return ("v", [self.datum(d - 1) for _ in range(n)])
        if k < .9:
            t = self.datum(0)
            while isinstance(t, list):
                t = self.datum(0)
            return ("d", [self.datum(d - 1) for _ in range(max(n, 1))], t)
        return [r.choice(list(Q)), self.datum(d - 1)]

    # ---- spelling
    def gap(self, need):
        """White space and comments between two tokens (need: at least one delimiter)."""
        r = self.r
        if not need and r.random() < .6:
            return ""
        s = ""
        first = True
        while first and need or r.random() < .25:
            k = r.random()
            if k < .78 or first and need:
                s += r.choice([" ", " ", " ", "\n", "\t", "\n\n", "\f", "\r\n", "  \n  ", "\v"])
                self.seen.add("white space")
            elif k < .86:
                s += ";" + r.choice(["", " a (comment", ";; \"x", " #| no", " #\\"]) + "\n"
                self.seen.add("line comment")
            elif k < .93:
                s += self.block(2)
                self.seen.add("block comment")
            elif k < .96:
                s += "#!" + r.choice(["", " x ", " | ( \" ", "\n"]) + "!#"
                self.seen.add("script comment")
            else:
                s += "#;" + self.gap(False) + self.spell(self.datum(1)) + " "
                self.seen.add("datum comment")
            first = False
        return s

    def block(self, d):
        r = self.r
        s = "".join(r.choice(["x", " ", "\n", "\"", "(", ";", "|", "#", "a|b", "###", "||"]) for _ in range(r.randint(0, 5)))
        while "#|" in s or "|#" in s:
            s = s.replace("#|", "").replace("|#", "")
        if s.endswith("#") or s.endswith("|"):
            s += " "
        if s.startswith("#"):
            s = " " + s
        if d and r.random() < .3:
            s += self.block(d - 1)
            if r.random() < .5:
                s += " y "
            self.seen.add("nested comment")
        return "#|" + s + "|#"

    def atom_int(self, n):
        r = self.r
        k = r.random()
        if k < .75:
            return ("+" if n >= 0 and r.random() < .1 else "") + ("-" if n < 0 else "") + r.choice(["", "", "", "0", "00"]) + str(abs(n))
        self.seen.add("radix prefix")
        c, t = r.choice([("x", "%x" % abs(n)), ("x", "%X" % abs(n)), ("o", "%o" % abs(n)), ("b", bin(abs(n))[2:]), ("d", str(abs(n)))])
        return "#" + c + ("-" if n < 0 else "+" if r.random() < .05 else "") + t

    def atom_char(self, n):
        r = self.r
        names = NAMES.get(n, []) + R7.get(n, [])
        k = r.random()
        if names and k < .6:
            self.seen.add("character name")
            return "#\\" + r.choice(names)
        if 33 <= n <= 126 and k < .8:
            return "#\\" + chr(n)
        self.seen.add("character code")
        if n >= 8 and r.random() < .4:
            return "#\\%03o" % n
        return "#\\x" + r.choice(["%x", "%X", "%02x"]) % n

    def atom_string(self, s):
        r = self.r
        o = ""
        esc_all = r.random() < .15
        for i, b in enumerate(s):
            k = r.random()
            if b in (34, 92):
                o += "\\" + chr(b)
            elif b in (10, 9, 7, 8, 11, 12, 13) and k < .8:
                o += "\\" + {10: "n", 9: "t", 7: "a", 8: "b", 11: "v", 12: "f", 13: "r"}[b]
                self.seen.add("string escape")
            elif b == 0 and k < .5:
                o += "\\0"
            elif k < .1 or esc_all or b < 10 or b == 13 or b == 0:
                o += "\\x%02x" % b
                self.seen.add("string escape")
            else:
                o += chr(b)
            if k > .99:
                o += "\\\n"
                self.seen.add("line continuation")
        return '"' + o + '"'

    def selfdelim(self, x):
        return isinstance(x, (bytes, list)) or isinstance(x, tuple) and x[0] in "vd"

    def seq(self, items, tail=None):
        """Spell items separated by gaps."""
        r = self.r
        out, prev = self.gap(False), None
        for x in items:
            t = self.spell(x)
            if prev is not None:
                # a delimiter is needed unless one of the two neighbours delimits itself
                need = not (prev[-1] in ")\"" or t[0] in "(\"")
                g = self.gap(need)
                if g[:1] == "#" and prev[-1] not in ")\"":
                    g = " " + g
                out += g
            out += t
            prev = t
        if tail is not None:
            out += self.gap(True) + "." + self.gap(True) + self.spell(tail)
            prev = "x"
        if prev is not None and not (prev[-1] in ")\""):
            g = self.gap(False)
            if g and g[0] == "#":
                g = " " + g
            return out + g
        return out + self.gap(False)

    def spell(self, x):
        r = self.r
        if x is True:
            return r.choice(["#t", "#t", "#true"])
        if x is False:
            return r.choice(["#f", "#f", "#false"])
        if isinstance(x, int):
            return self.atom_int(x)
        if isinstance(x, str):
            return x
        if isinstance(x, bytes):
            return self.atom_string(x)
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], str) and x[0] in Q and r.random() < .7:
                self.seen.add("abbreviation " + x[0])
                g = r.choice(["", "", "", " ", "\n"])
                return Q[x[0]] + g + (self.spell(x[1]) if True else "")
            if x and r.random() < .1:
                self.seen.add("dotted list")
                n = r.randint(1, len(x))
                return "(" + self.seq(x[:n], x[n:]) + ")"
            return "(" + self.seq(x) + ")"
        k = x[0]
        if k == "c":
            return self.atom_char(x[1])
        if k == "v":
            return "#(" + self.seq(x[1]) + ")"
        if k == "k":
            return "#:" + x[1]
        if k == "d":
            self.seen.add("dotted")
            return "(" + self.seq(x[1], x[2]) + ")"

    def build(self, x):
        """An expression that builds the datum without the reader's help for strings, symbols and characters."""
        if isinstance(x, bool):
            return "#t" if x else "#f"
        if isinstance(x, int):
            return str(x)
        codes = lambda b: "(list->string (map integer->char (list %s)))" % " ".join(str(c) for c in b)
        if isinstance(x, str):
            return "(string->symbol %s)" % codes(x.encode("latin1"))
        if isinstance(x, bytes):
            return codes(x)
        if isinstance(x, list):
            return "(list %s)" % " ".join(map(self.build, x))
        k = x[0]
        if k == "c":
            return "(integer->char %d)" % x[1]
        if k == "v":
            return "(vector %s)" % " ".join(map(self.build, x[1]))
        if k == "k":
            return "(symbol->keyword (string->symbol %s))" % codes(x[1].encode())
        return "(cons* %s %s)" % (" ".join(map(self.build, x[1])), self.build(x[2]))


def bytes_expr(t):
    if len(t) <= 100:
        return "(list->string (map integer->char '(%s)))" % " ".join(map(str, t))
    h = len(t) // 2
    return "(string-append %s %s)" % (bytes_expr(t[:h]), bytes_expr(t[h:]))


def diff(a, b):
    """Both texts around the first difference."""
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "at %d: expected ...%s got ...%s" % (k, a[max(0, k - 60):k + 100], b[max(0, k - 60):k + 100])


class Parse:
    """Standard reader for what the printer may produce."""

    def __init__(self, b):
        self.b, self.i = b, 0

    def ws(self):
        while self.i < len(self.b) and self.b[self.i] in b" \n\t\r\f":
            self.i += 1

    def token(self):
        j = self.i
        while self.i < len(self.b) and self.b[self.i] not in b" \n\t\r\f()\";'":
            self.i += 1
        return self.b[j:self.i].decode("latin1")

    def one(self):
        self.ws()
        b = self.b
        if self.i >= len(b):
            raise ValueError("end of text")
        c = b[self.i:self.i + 1]
        if c == b"(":
            self.i += 1
            return self.seq()
        if c == b"'":
            self.i += 1
            return ["quote", self.one()]
        if c == b'"':
            self.i += 1
            out = bytearray()
            while True:
                c = b[self.i]
                self.i += 1
                if c == 34:
                    return bytes(out)
                if c == 92:
                    c = b[self.i]
                    self.i += 1
                    if chr(c) in "ntabvfr0\\\"e":
                        out.append({"n": 10, "t": 9, "a": 7, "b": 8, "v": 11, "f": 12, "r": 13, "0": 0, "\\": 92, '"': 34, "e": 27}[chr(c)])
                    elif chr(c) == "x":
                        out.append(int(b[self.i:self.i + 2], 16))
                        self.i += 2
                    else:
                        raise ValueError("escape %r" % chr(c))
                else:
                    out.append(c)
        if c == b"#":
            n = b[self.i + 1:self.i + 2]
            if n == b"(":
                self.i += 2
                x = self.seq()
                if isinstance(x, tuple):
                    raise ValueError("dotted vector")
                return ("v", x)
            if n == b"\\":
                self.i += 2
                first = b[self.i:self.i + 1].decode("latin1")
                self.i += 1
                if first == "" or ord(first) < 33:
                    raise ValueError("bare control character")
                t = first + (self.token() if first not in "();\"' " else "")
                if len(t) == 1:
                    return ("c", ord(t))
                for k, v in list(NAMES.items()) + list(R7.items()):
                    if t in v:
                        return ("c", k)
                if re.fullmatch("x[0-9a-f]+", t):
                    return ("c", int(t[1:], 16))
                if re.fullmatch("[0-7]{1,3}", t):
                    return ("c", int(t, 8))
                raise ValueError("character %r" % t)
        t = self.token()
        if t == "":
            raise ValueError("unexpected %r" % b[self.i:self.i + 5])
        if t in ("#t", "#true"):
            return True
        if t in ("#f", "#false"):
            return False
        if t.startswith("#:"):
            return ("k", t[2:])
        if re.fullmatch("[+-]?[0-9]+", t):
            return int(t)
        if t.startswith("#"):
            raise ValueError("token %r" % t)
        return t

    def seq(self):
        items = []
        while True:
            self.ws()
            if self.b[self.i:self.i + 1] == b")":
                self.i += 1
                return items
            j = self.i
            if self.b[j:j + 1] == b"." and self.b[j + 1:j + 2] in (b" ", b"(", b")", b"\n"):
                self.i += 1
                t = self.one()
                self.ws()
                if self.b[self.i:self.i + 1] != b")":
                    raise ValueError("text after dotted tail")
                self.i += 1
                if isinstance(t, list):
                    return items + t
                if isinstance(t, tuple) and t[0] == "d":
                    return ("d", items + t[1], t[2])
                return ("d", items, t)
            items.append(self.one())


def norm(x):
    if isinstance(x, bool) or isinstance(x, (int, str, bytes)):
        return x
    if isinstance(x, list):
        return [norm(y) for y in x]
    if x[0] == "v":
        return ("v", norm(x[1]))
    if x[0] == "d":
        return ("d", norm(x[1]), norm(x[2]))
    return x


HEAD = sch.MES + sch.COMMON
READ = HEAD + """
(define (run n p)
  (let loop ((i 0))
    (let ((x (read p)))
      (if (eof-object? x) (begin (display "@") (display (number->string n)) (display " ") (display (number->string i)) (newline))
          (begin (display "=") (vk-put x) (newline) (loop (+ i 1)))))))
"""


def go():
    c = Check("C06")
    m = sch.Mes(c, san=True)
    d = c.dir("texts")
    B = 8

    def rng(i, k):
        return random.Random("%s/%s/%s" % (c.seed, k, i))

    def read_job(i):
        g = D(rng(i, "r"))
        g.seen = set()
        data = [[g.datum(g.r.choice([0, 1, 2, 3, 4, 5])) for _ in range(g.r.randint(1, 5))] for _ in range(B)]
        texts = []
        for xs in data:
            t = g.seq(xs)
            if g.r.random() < .3:
                t += g.r.choice(["\n", " ", ";", "; end", "#| end |#", " #;x", "\n\n"]) if t and t[-1] in ")\" \n" else g.r.choice(["\n", " "])
            texts.append(t.encode("latin1"))
        want, prog = [], READ
        how = ["file", "string", "quote"][i % 3]
        for n, (xs, t) in enumerate(zip(data, texts)):
            if how == "quote":
                prog += "(for-each (lambda (x) (display \"=\") (vk-put x) (newline)) '(%s\n))\n(display \"@%d %d\\n\")\n" % (t.decode("latin1"), n, len(xs))
            elif how == "file":
                f = os.path.join(d, "t%d-%d" % (i, n))
                open(f, "wb").write(t)
                prog += "(run %d (open-input-file \"%s\"))\n" % (n, f)
            else:
                prog += "(run %d (open-input-string %s))\n" % (n, bytes_expr(t))
            want += ["=" + show(x) for x in xs] + ["@%d %d" % (n, len(xs))]
        san = i % 8 == 0
        r = m.run(prog, san=san, timeout=60)
        got = [l for l in r.out.decode("latin1").split("\n") if l]
        for n in range(B):
            f = os.path.join(d, "t%d-%d" % (i, n))
            if how == "file":
                os.unlink(f)
        c.case(prog, n=sum(map(len, data)))
        c.count("data read", sum(map(len, data)))
        c.count("read from " + how)
        for s in g.seen:
            c.count("with " + s)
        rep = san and sch.sanitizer(r.err)
        if rep:
            c.violation("sanitizer:" + rep[0], rep[1], dict(program=prog))
        elif r.rc or got != want or r.err:
            k = next((k for k, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
            n = sum(1 for l in want[:k] if l[0] == "@")
            c.violation("read", "from %s: line %d %s\n status %s %s\n text %r" % (
                how, k, diff(want[k] if k < len(want) else "(end)", got[k] if k < len(got) else "(end)"), r.rc, r.err[-200:].decode("latin1"), texts[min(n, B - 1)]),
                dict(program=prog, want=want, got=got))

    def write_job(i):
        g = D(rng(i, "w"))
        g.seen = set()
        data = [g.datum(g.r.choice([0, 0, 1, 2, 3, 4])) for _ in range(12)]
        how = ["string", "port", "stdout"][i % 3]
        prog = HEAD if how == "string" or i % 2 else sch.COMMON     # two printers: in Scheme, and in C without (mes guile)
        c.count("printer in " + ("Scheme" if prog is HEAD else "C"))
        back = os.path.join(d, "w%d" % i)
        for n, x in enumerate(data):
            if how == "string":
                prog += "(let* ((x %s) (s (with-output-to-string (lambda () (write x)))))\n (display \"@\") (vk-put s) (newline) (display \"=\") (vk-put (read (open-input-string s))) (newline) (display \"?\") (vk-put (equal? x (read (open-input-string s)))) (newline))\n" % g.build(x)
            elif how == "port":
                prog += "(let* ((x %s) (p (open-output-file \"%s\")))\n (write x p) (let* ((x2 (let ((p (open-input-file \"%s\"))) (read p))))\n (display \"=\") (vk-put x2) (newline) (display \"?\") (vk-put (equal? x x2)) (newline)))\n" % (g.build(x), back, back)
            else:
                prog += "(write %s) (display \"\\n~\\n\")\n" % g.build(x)
        san = i % 8 == 0
        r = m.run(prog, san=san, timeout=60)
        c.case(prog, n=len(data))
        c.count("data written", len(data))
        c.count("written to " + how)
        if os.path.exists(back):
            os.unlink(back)
        rep = san and sch.sanitizer(r.err)
        if rep:
            c.violation("sanitizer:" + rep[0], rep[1], dict(program=prog))
            return
        fail = None
        got = r.out.split(b"\n")
        if how == "stdout":
            parts = r.out.split(b"\n~\n")
            if len(parts) != len(data) + 1:
                fail = "%d data written, %d found" % (len(data), len(parts) - 1)
            texts = parts[:-1]
        else:
            eq = [l for l in got if l[:1] == b"="]
            if [l[1:].decode("latin1") for l in eq] != [show(x) for x in data]:
                k = next((k for k, (a, b) in enumerate(zip(eq, data)) if a[1:].decode("latin1") != show(b)), min(len(eq), len(data)))
                fail = "written and read back: " + diff(show(data[k]) if k < len(data) else "", eq[k][1:].decode("latin1") if k < len(eq) else "(end)")
            elif [l for l in got if l[:1] == b"?" and l != b"?#t"]:
                fail = "datum read back is not equal? to the original"
            texts = []
            for l in got:
                if l[:1] == b"@":
                    texts.append(re.sub(rb"\\(\d+);", lambda q: bytes([int(q.group(1))]), l[2:-1]))
        if not fail and not r.rc:
            for x, t in zip(data, texts):
                try:
                    p = Parse(t)
                    y = p.one()
                    p.ws()
                    if p.i != len(t):
                        raise ValueError("text after the datum")
                    c.count("texts parsed")
                except (ValueError, IndexError) as e:
                    fail = "text %r is not standard: %s" % (t[:300], e)
                    break
                if norm(y) != norm(x) or show(norm(y)) != show(x):
                    fail = "text %r denotes another datum, %s" % (t[:300], diff(show(x), show(norm(y))))
                    break
        if fail or r.rc:
            c.violation("write", "%s: %s (status %s %s)" % (how, fail, r.rc, r.err[-200:].decode("latin1")), dict(program=prog))

    c.pmap(read_job, range(c.n(900, 15000)))
    c.pmap(write_job, range(c.n(600, 9000)))
    c.finish("Reading: random data spelled in random lexical forms (every kind of comment, white space, radix, escape, abbreviation, dotted spelling, minimal delimiters), read "
             "with read from a file or a string, or quoted in the program; shown by a canonical printer and compared with the data the text was made from. Writing: data built by "
             "constructors, written to a string, a file or standard output; the text parsed by an independent reader written in Python, and read back by Mes; both must give the "
             "datum. Some on the ASan/UBSan build. Nothing may appear on standard error.",
             min_events={"data read": 8000, "data written": 3000, "texts parsed": 2000, "with nested comment": 20, "with datum comment": 50, "with line continuation": 5, "with radix prefix": 50,
                         "with character name": 20, "with dotted": 50, "read from string": 100, "read from file": 100, "read from quote": 100})


if __name__ == "__main__":
    main(go)
