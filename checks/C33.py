import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main
from vk import build
from vk.charness import run_harness


def go():
    c = Check("C33")
    exe = build.harness(c, "getopt.c", build.renamed_libc(c), "getopt")
    run_harness(c, exe, c.n(600000, 15000000), timeout=c.n(240, 800))
    c.finish("One case = one getopt step; option specifications, long option tables (has_arg, flag, abbreviations) and argument vectors "
             "are generated, each step's return value, optarg, optind, long index, flags and argument vector are compared with the host's "
             "getopt in the mode the library implements (operands end the options). Distinct = distinct (mode, specification, vector).",
             min_events=dict(cases=1000, errors=100, ends=100, arguments=100))


if __name__ == "__main__":
    main(go)
