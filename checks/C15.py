import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main
from vk import build, cgen, cdata


def go():
    c = Check("C15")
    m = build.MesCC(c)
    m.lib(64)
    cgen.check_programs(c, m, c.n(220, 3500), lambda r: cdata.program(r, 64), 64, "data")
    c.finish("One case = one printed value (or size, offset, stride, sum of bytes) of one generated program of random struct, union and array types with "
             "random static and automatic initialisers, read and written through direct, pointer, index, pointer-arithmetic and nested-member access paths, "
             "with neighbours checked after every write; compiled by MesCC for x86_64, linked with the MesCC-built library and run. Oracle: the same source under "
             "clang with UBSan and the packed layout that is MesCC's ABI. Distinct = distinct programs.",
             min_events={"programs": 100, "lines-compared": 3000, "uses struct": 200, "uses union": 20})


if __name__ == "__main__":
    main(go)
