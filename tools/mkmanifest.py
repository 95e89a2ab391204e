#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SAN = "in-process differential oracle (host C library) under ASan+UBSan on generated inputs"
PROG = "generated programs compiled by MesCC and gcc, recorded output compared with the host"
NOTE = "Sampled executions: nothing is claimed about inputs that were not run. Trusts the host C library and gcc sanitizers."
C = {
 "C01": ("heap-walk monitor + forced collections (hooked), differential runs over collection schedules", "Sampled programs and schedules; collections are forced at generated periods through the hook, the hooked heap walker checks every cell after each collection. Trusts the uninstrumented build's agreement only through the compared output."),
 "C02": ("ASan+UBSan monitor of the interpreter under hostile generated programs and texts", "Sampled inputs. The cell arena is one malloc block: overruns inside it are visible only to the hooked cell-type checks."),
 "C03": ("generated Scheme programs, recorded values compared with Guile", "Sampled programs of the supported subset; Guile is the oracle."),
 "C04": ("resource monitor over generated tail-call loops under small stack/arena", "Sampled loop shapes with iteration counts far above the configured stack."),
 "C05": ("recorded arithmetic results compared with unbounded integers (Python)", "Sampled and boundary operands."),
 "C06": ("read/write round-trip monitor against Guile's reader and a Python printer", "Sampled data and spellings."),
 "C07": ("recorded list-procedure results compared with Guile, argument-mutation monitor", "Sampled lists and procedures."),
 "C08": ("recorded string-procedure results compared with Guile", "Sampled strings."),
 "C09": ("operation histories checked against a sequential model", "Sampled histories."),
 "C10": ("identity/equality trace checked against a model", "Sampled names and data."),
 "C11": ("control-flow event trace compared with Guile, exit-status monitor", "Sampled nestings."),
 "C12": ("port operation trace checked against a byte-queue model", "Sampled histories."),
 "C13": ("argument/environment/exit-status probes checked against the contract", "Sampled command lines."),
 "C14": (PROG, "Sampled programs of the supported C subset; gcc is the oracle."),
 "C15": (PROG, "Sampled programs."), "C16": (PROG, "Sampled programs."), "C17": (PROG, "Sampled programs."),
 "C18": (PROG, "Sampled programs."), "C19": (PROG, "Sampled programs."),
 "C20": (SAN, NOTE), "C21": (SAN, NOTE),
 "C22": ("in-process permutation/order/bounds oracle under ASan+UBSan on generated arrays", NOTE),
 "C23": ("offline interval checker over allocation event logs, in-program content monitor, injected memory limits", "Sampled histories on gcc-64, MesCC-64 and MesCC-32 builds; zero-byte blocks are not required to be distinct."),
 "C24": (SAN + "; generated variadic programs", NOTE + " Conversions without l are checked with word-sized arguments, as the project's tests define them."),
 "C25": (SAN + "; generated variadic programs", NOTE),
 "C26": ("stream operation traces compared with the host C library", NOTE),
 "C27": ("event traces of generated jump programs compared with the host C library (-O0 and -O2 agreeing), gcc at four levels and MesCC", NOTE),
 "C28": ("operation histories and the environments of started programs compared with the host C library", NOTE),
 "C29": ("recorded argv, environment, handlers, statuses and files of generated process histories compared with the host C library", NOTE),
 "C30": ("results, errno, metadata and file trees of generated system-call histories compared with the host C library as an unprivileged user", NOTE),
 "C31": ("recorded output, status and files of call scripts compared between the gcc-built and the MesCC-built library", NOTE),
 "C32": ("in-process comparison with native arithmetic, hosted and bare 32/64-bit runs", NOTE),
 "C33": (SAN, NOTE + " Oracle is the host getopt in POSIX order (the library does not permute); getopt_long_only is exercised only with words that can be read in one way."),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i):
        t, n = C[i]
        checks.append(dict(property=i, quick_cmd="python3 checks/%s.py quick" % i, thorough_cmd="python3 checks/%s.py thorough" % i,
                           technique=t[:200], level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/selfcheck.py", checks=checks, not_applicable=na,
         notes="Every check builds what it runs from a scratch copy of /repo's working tree; see DESIGN.md.")
hooks = V + "/hooks.json"
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "unclaimed")
