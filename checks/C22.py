import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.core import Check, main
from vk import build
from vk.charness import run_harness


def go():
    c = Check("C22")
    exe = build.harness(c, "qsort.c", build.renamed_libc(c), "qsort")
    run_harness(c, exe, c.n(300000, 8000000), timeout=c.n(240, 800))
    c.finish("One case = one qsort call on an array (0..300 elements of 1..100 bytes, random / sorted / reversed / one swap / all equal / "
             "organ pipe, seven consistent comparison functions incl. many ties and INT_MIN/INT_MAX results) in an exactly sized heap block; "
             "monitors: comparison arguments are element addresses, result ordered, multiset of elements unchanged, ASan bounds. "
             "Distinct = distinct input array with two or more elements.",
             min_events=dict(cases=1000, nontrivial=500, comparisons=1000))


if __name__ == "__main__":
    main(go)
