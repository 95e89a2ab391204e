import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main
from vk import build
from vk.charness import run_harness


def go():
    c = Check("C21")
    exe = build.harness(c, "num.c", build.renamed_libc(c), "num")
    run_harness(c, exe, c.n(1500000, 40000000), timeout=c.n(240, 800))
    c.finish("One case = one conversion of one value or text: is*/to* exhaustively over EOF..255, isnumber over every code and base, "
             "number to text for boundary, power-of-base and random words in bases 2..36, text to number for generated white space, "
             "signs, prefixes, digits and tails. Oracle: host C library, exact digits computed independently; ASan/UBSan watch. "
             "Distinct = distinct (operation, operand).",
             min_events=dict(cases=1000, strtol=50, abtol=50, ntoab=50, ctype=257))


if __name__ == "__main__":
    main(go)
