import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main
from vk import build
from vk.charness import run_harness


def go():
    c = Check("C20")
    lib = build.renamed_libc(c)
    exe = build.harness(c, "string.c", lib, "string")
    run_harness(c, exe, c.n(2000000, 8000000), timeout=c.n(240, 800))
    c.finish("One case = one call of one library function on operands drawn from five alphabets (two-letter, all bytes, "
             "sign-boundary bytes, case boundaries), lengths biased to 0/1/powers of two, in exactly sized heap blocks at nine "
             "alignments; the return value and the whole destination image are compared with the host C library and ASan/UBSan "
             "watch the call. Distinct = distinct hash of (function, operands).",
             min_events=dict(cases=1000, strcmp=50, memmove=50, strncpy=50, memchr=50))


if __name__ == "__main__":
    main(go)
