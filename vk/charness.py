"""Drives hosted C harnesses (see harness/h.h) in parallel shards and merges their reports."""
import os, re
from .core import run, base_env

SANRE = re.compile(r"(ERROR: AddressSanitizer: ([\w-]+))|(runtime error: (.*))|(AddressSanitizer:DEADLYSIGNAL)")


def sanitizer_report(err):
    """(kind, innermost frame in the tree, text) of a sanitizer report, or None."""
    txt = err.decode("latin1")
    m = SANRE.search(txt)
    if not m:
        return None
    if m.group(2):
        kind = m.group(2)
    elif m.group(4):
        kind = "ub: " + re.sub(r"-?\d+|0x[0-9a-f]+", "N", m.group(4))[:60]
    else:
        kind = "SEGV"
    i = txt.find(m.group(0))
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", txt[i:])
    fr = [f for f in fr if not f.startswith(("__asan", "__interceptor", "__ubsan"))]
    fn = fr[0] if fr else "?"
    fn = fn[4:] if fn.startswith("mes_") else fn
    return kind, fn, txt[max(0, i - 200):i + 2500]


def run_harness(c, exe, total, shards=None, timeout=300, prefix="", args=(), cwd=None, env=None):
    """Run `exe` in shards over different seeds; a crash is attributed to the recorded
    operation and the rest of that shard's cases are skipped (the shard stops)."""
    from .core import NPROC
    shards = shards or NPROC
    per = max(1, total // shards)

    def one(i):
        st = os.path.join(c.scratch, "state-%s%d" % (os.path.basename(exe), i))
        seed = c.seed * 1000 + i
        return i, seed, st, run([exe, str(seed), str(per), st] + list(args), timeout=timeout,
                                cwd=cwd or c.scratch, env=env or base_env())
    for i, seed, st, r in c.pmap(one, range(shards)):
        out = r.out.decode("latin1").splitlines()
        op = ""
        try:
            op = open(st, "rb").read().split(b"\0")[0].decode("latin1")
        except OSError:
            pass
        replay = dict(harness=os.path.basename(exe), seed=seed, count=per, args=list(args))
        ended = False
        for line in out:
            if line.startswith("C "):
                _, name, n = line.rsplit(" ", 2) if line.count(" ") > 2 else line.split(" ")
                c.count(name, int(n))
                if name.startswith("cases"):
                    c.case(n=int(n))
            elif line.startswith("N "):
                with c.lock:
                    c.sigs.add(line[2:])
            elif line.startswith("S "):
                c.sample(line[2:])
            elif line.startswith("B "):
                key, _, detail = line[2:].partition("\t")
                c.violation(prefix + key, detail, dict(replay, detail=detail))
            elif line == "END":
                ended = True
        if ended and r.rc == 0:
            continue
        if r.timeout:
            # A watchdog firing twice on a bounded amount of work: a hang of the named operation.
            c.violation(prefix + "hang:" + op.split(" ")[0], "no progress within %ss in: %s" % (timeout, op), dict(replay, op=op))
            c.case()
            continue
        san = sanitizer_report(r.err)
        c.case()
        if san:
            kind, fn, txt = san
            c.violation(prefix + "crash:%s:%s" % (op.split(" ")[0], kind), "%s in %s during: %s\n%s" % (kind, fn, op, txt),
                        dict(replay, op=op))
        else:
            c.violation(prefix + "crash:%s:exit%s" % (op.split(" ")[0], r.rc),
                        "harness died (status %s) during: %s\n%s" % (r.rc, op, r.err.decode("latin1")[-500:]), dict(replay, op=op))
