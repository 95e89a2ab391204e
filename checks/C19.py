import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main
from vk import build, cgen, cdata


def go():
    c = Check("C19")
    m = build.MesCC(c)
    m.lib(32)
    cgen.check_programs(c, m, c.n(120, 2000), lambda r: cgen.program(r, 32), 32, "mix")
    cgen.check_programs(c, m, c.n(60, 900), lambda r: cgen.program(r, 32, nexpr=4, nflow=0, npure=2, lines=40), 32, "expr")
    cgen.check_programs(c, m, c.n(60, 900), lambda r: cgen.program(r, 32, nexpr=0, nflow=7, npure=2), 32, "flow")
    cgen.check_programs(c, m, c.n(80, 1500), lambda r: cdata.program(r, 32, sizes=False), 32, "data")
    c.finish("One case = one printed value of one generated program (random expressions over all integer types, assignments, increments, "
             "casts, short-circuit and conditional operators; random nests of if/for/while/do/switch/goto/break/continue; pure functions; struct, union and array data with initialisers), "
             "compiled by MesCC for 32-bit x86 (-m 32), linked with the MesCC-built 32-bit library and run. Oracle: the same source under clang with UBSan, int standing in for the 32-bit long, after "
             "dropping every statement whose execution is undefined. Distinct = distinct programs.",
             min_events={"programs": 100, "lines-compared": 3000, "uses switch": 50, "uses goto": 20, "uses %": 100, "uses >>": 100})


if __name__ == "__main__":
    main(go)
