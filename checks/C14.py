import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main
from vk import build, cgen


def go():
    c = Check("C14")
    m = build.MesCC(c)
    m.lib(64)
    cgen.check_programs(c, m, c.n(180, 2600), lambda r: cgen.program(r, 64), 64, "mix")
    cgen.check_programs(c, m, c.n(60, 900), lambda r: cgen.program(r, 64, nexpr=4, nflow=0, npure=2, lines=40), 64, "expr")
    cgen.check_programs(c, m, c.n(60, 900), lambda r: cgen.program(r, 64, nexpr=0, nflow=7, npure=2), 64, "flow")
    c.finish("One case = one printed value of one generated program (random expressions over all integer types, assignments, increments, "
             "casts, short-circuit and conditional operators; random nests of if/for/while/do/switch/goto/break/continue; pure functions), "
             "compiled by MesCC for x86_64, linked with the MesCC-built library and run. Oracle: the same source under clang with UBSan, after "
             "dropping every statement whose execution is undefined. Distinct = distinct programs.",
             min_events={"programs": 100, "lines-compared": 3000, "uses switch": 50, "uses goto": 20, "uses %": 100, "uses >>": 100})


if __name__ == "__main__":
    main(go)
