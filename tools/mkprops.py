#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

# ---------------------------------------------------------------- interpreter
p("C01", "Garbage collection never changes what a program computes",
  "Whenever and however often the interpreter collects garbage, every value the program can still reach keeps its type, contents, sharing and identity, and the program prints the same output and exit status. The result therefore does not depend on the size of the memory arena or on how much garbage was made, as long as the live data fits. Memory that is no longer reachable is reclaimed (interned symbols excepted), so a program with bounded live data never runs out of memory.",
  ["programs", "schedules", "configurations"],
  "every Scheme program whose live data fits, every point at which a collection can happen, every arena/safety-margin setting",
  "The tests run with one 20-million-cell arena, so few of them ever collect; none collects at a chosen point, and none compares runs under different collection schedules.",
  ["src/gc.c", "src/eval-apply.c", "src/stack.c"],
  [("copying collector: evacuate roots, scan, flip", "src/gc.c gc_, gc_loop, gc_copy, gc_flip"),
   ("trigger on nearly full arena between evaluation steps", "src/gc.c gc_check; src/eval-apply.c eval_apply"),
   ("roots are registers, stack array and symbol table", "src/gc.c gc_, src/globals.c")],
  observe=["stdout and exit status of the interpreter", "hooked: forced collection every N allocations"],
  state=[("cell heap", "all Scheme objects live in one arena of cells", "src/gc.c g_cells/g_news")],
  hook="a build-time define that forces a collection at every Nth safe point and checks the heap")

p("C02", "The interpreter never touches memory outside its own objects",
  "While it reads and runs any program - including one that passes out-of-range indices, over-long names, wrongly typed arguments or malformed text - the interpreter never reads or writes outside the objects it allocated and never executes undefined C behaviour. A program error ends in a reported error or a normal result, not in silent corruption of other data.",
  ["inputs", "programs"],
  "every source text and every argument value passed to the standard procedures",
  "The test programs are all well formed and run in an uninstrumented binary, where an out-of-bounds access is usually invisible.",
  ["src/reader.c", "src/string.c", "src/vector.c", "src/lib.c", "src/posix.c", "src/hash.c", "src/struct.c"],
  [("range and type checks in builtins", "src/string.c, src/vector.c, src/struct.c assert_range/assert_number"),
   ("growth limits of the reader's buffers", "src/reader.c, src/gc.c init_memory_globals (MAX_STRING)")],
  observe=["AddressSanitizer and UndefinedBehaviorSanitizer reports of the interpreter built with them"])

p("C03", "Evaluation agrees with standard Scheme on the supported language",
  "A program written in the subset of Scheme that Mes supports - lambda and closures, internal and top-level definitions, conditionals, let forms, named let, quasi-quotation, assignment, higher-order procedures, apply, and user macros - computes the same values, in the same order of side effects where the language fixes it, as in any other conforming Scheme. Variable references obey lexical scope: a local binding always shadows an outer one and closures keep their own captured variables.",
  ["programs"],
  "every closed program of the supported subset",
  "The tests sample a few dozen expressions; nesting, shadowing, capture, macro and variable-caching interactions are unbounded.",
  ["src/eval-apply.c", "src/core.c", "src/module.c", "mes/module/mes/base.mes", "mes/module/mes/let.mes", "mes/module/mes/quasiquote.mes", "mes/module/mes/scm.mes"],
  [("eval/apply register machine", "src/eval-apply.c eval_apply"),
   ("variable resolution and caching in closure bodies", "src/eval-apply.c expand_variable, lookup"),
   ("macro expansion", "src/eval-apply.c macro_expand; src/module.c")],
  observe=["values printed by the program, compared with Guile"])

p("C04", "Iteration through tail calls runs in bounded space",
  "A procedure call in tail position - in the last expression of a body, in a branch of a conditional, through cond, case, and, or, when, let forms or apply, and between mutually recursive procedures - does not consume stack, so a loop of any length finishes with the same bounded stack and memory. Deep non-tail recursion that exceeds the configured stack is reported as an error rather than corrupting data.",
  ["programs", "configurations"],
  "every chain of tail calls of any length and shape; every stack size",
  "A test can run one loop for one length; a leaked stack frame per iteration only shows after millions of iterations or with a small stack.",
  ["src/eval-apply.c", "src/gc.c", "src/stack.c"],
  [("tail positions jump instead of pushing a frame", "src/eval-apply.c eval_apply goto eval/begin"),
   ("stack overflow detection", "src/gc.c push_cc, gc_push_frame")],
  observe=["loop completion under a minimal stack and arena, peak stack depth"])

p("C05", "Integer arithmetic matches a 64-bit machine model",
  "For operands and results that fit a signed machine word, addition, subtraction, multiplication, quotient, remainder, modulo, comparison chains, min, max, abs, gcd-style loops, parity tests, exponentiation, bitwise and, or, xor, complement and shifts give the exact mathematical result defined by the Scheme standard, for any number of arguments and all sign combinations. Conversion between numbers and text in any supported radix is exact over the whole word range.",
  ["inputs"],
  "all pairs and tuples of representable integers whose exact result is representable",
  "math.test checks about thirty small cases, mostly positive.",
  ["src/math.c", "mes/module/mes/scm.mes", "src/display.c", "lib/mes/ntoab.c", "lib/mes/abtol.c"],
  [("word arithmetic builtins", "src/math.c"),
   ("derived operations", "mes/module/mes/scm.mes quotient, remainder, <=, >=, expt, number->string, string->number")],
  observe=["printed results compared with unbounded integers"])

p("C06", "Data written out reads back as the same data",
  "For every datum made of pairs, symbols, strings, characters, numbers, booleans, vectors, keywords and quoted forms, writing it and reading the text back yields an equal datum, and the written text denotes the same datum in any other Scheme reader. Reading accepts every lexical form of the language - comments, nested block comments, datum comments, escapes, dotted pairs, quote abbreviations, radix prefixes - and yields the datum the standard prescribes regardless of white space and of where one datum ends and the next begins.",
  ["inputs"],
  "every datum over the supported types and every equivalent spelling of it",
  "read.test reads one fixed file; the writer is tested on a handful of values.",
  ["src/reader.c", "src/display.c", "mes/module/mes/display.mes", "mes/module/mes/scm.mes"],
  [("recursive-descent reader", "src/reader.c"), ("core and Scheme writers", "src/display.c, mes/module/mes/display.mes")],
  observe=["read(write(x)) and Guile's reading of the same text"])

p("C07", "List procedures compute what their definition says for every list",
  "The list procedures of the base library and of SRFI-1 (construction, selection, append, reverse, map, for-each, fold, filter, remove, partitioning predicates, searching, deletion, association lists, set operations, iota) return exactly the result their standard definition gives, for lists of any length, any number of list arguments they support, and any procedure argument, and the non-destructive ones leave their arguments unchanged.",
  ["inputs", "programs"],
  "every list, alist and procedure argument",
  "The tests call each procedure once or twice on lists of at most four elements.",
  ["mes/module/srfi/srfi-1.mes", "mes/module/srfi/srfi-1.scm", "mes/module/mes/scm.mes", "mes/module/mes/base.mes", "src/lib.c", "src/core.c"],
  [("C primitives", "src/core.c length, append2, memq; src/lib.c append_reverse, reverse_x_; src/core.c assq, assoc"),
   ("Scheme library", "mes/module/srfi/srfi-1.mes, mes/module/mes/scm.mes")],
  observe=["returned values and arguments after the call, compared with Guile"])

p("C08", "String and character procedures compute what their definition says",
  "Building, indexing, slicing, comparing, searching, splitting, joining, trimming, folding, case mapping and tokenising strings, and classifying or mapping characters, give exactly the result the standard or the documentation defines for every string and every in-range index, including empty strings, whole-string ranges, repeated separators and overlapping matches. Conversions between strings, lists, symbols, numbers and keywords lose nothing.",
  ["inputs"],
  "every string, character, predicate and in-range index",
  "srfi-13.test calls each procedure on one or two short literals.",
  ["src/string.c", "mes/module/srfi/srfi-13.mes", "mes/module/srfi/srfi-14.mes", "mes/module/mes/scm.mes"],
  [("counted byte strings", "src/string.c"), ("SRFI-13/14 subset", "mes/module/srfi/srfi-13.mes, srfi-14.mes")],
  observe=["returned values compared with Guile / a Python model"])

p("C09", "Vectors, hash tables and records obey their sequential model",
  "Over any history of creations, reads, writes, conversions and copies, a vector, hash table or record returns for each key, index or field the value last stored there and nothing else; storing in one object never changes another one unless they are the same object. Distinct keys never shadow each other whatever they hash to, and a record's predicate and accessors accept exactly the instances of its type.",
  ["histories", "inputs"],
  "every sequence of operations on any number of live containers with any keys",
  "hash.test stores two keys; vector.test and record.test use single objects.",
  ["src/vector.c", "src/hash.c", "src/struct.c", "mes/module/srfi/srfi-9.mes", "mes/module/srfi/srfi-9-struct.mes", "mes/module/srfi/srfi-43.mes"],
  [("bucket lists with association lookup", "src/hash.c"), ("cell-array vectors", "src/vector.c"), ("structs", "src/struct.c")],
  observe=["trace of operations and results checked against an executable model"])

p("C10", "A symbol name denotes one object; equality predicates are lawful",
  "Two symbols are identical exactly when they have the same spelling, however each was obtained - read from source, converted from a string, generated or concatenated - and at any time in the life of the program. Identity implies structural equality, structural equality is an equivalence that agrees with element-wise comparison for pairs, strings, numbers, characters and vectors, and lookups by identity or equality find an entry exactly when a key equal in that sense is present.",
  ["inputs", "histories"],
  "every set of symbol spellings and every pair of data; before and after collections and symbol-table growth",
  "The tests intern a few dozen names; collisions, long names and non-ASCII names are not exercised.",
  ["src/symbol.c", "src/hash.c", "src/lib.c", "src/core.c"],
  [("interning through the symbol hash table", "src/symbol.c make_symbol, string_to_symbol; src/hash.c hash_cstring"),
   ("structural equality", "src/lib.c equal2_p; src/core.c")],
  observe=["results of eq?, equal?, memq, assq, member, assoc"])

p("C11", "Non-local control: exceptions, escapes and values reach the right place",
  "A thrown exception is delivered, with its key and all its arguments, to the innermost enclosing handler that accepts the key, evaluation continues after that handler's catch form, and nothing that would have followed the throw is executed; an uncaught exception ends the program with a diagnostic and a failure status. Invoking a captured continuation, once or many times, resumes exactly the computation that was captured with the variables as they are at that moment, and multiple values arrive complete and in order.",
  ["programs"],
  "every nesting of handlers, throws, captures and re-entries",
  "catch.test and call-cc tests use one level of nesting and a single re-entry.",
  ["mes/module/mes/catch.mes", "mes/module/mes/fluids.mes", "src/eval-apply.c", "src/stack.c"],
  [("catch/throw through fluids and escape continuations", "mes/module/mes/catch.mes"),
   ("continuations copy the stack", "src/eval-apply.c eval_apply (call/cc, TCONTINUATION)"),
   ("values", "src/eval-apply.c, src/core.c values")],
  observe=["ordered trace of events compared with Guile", "exit status"])

p("C12", "Ports deliver bytes exactly, in order and once",
  "Reading from a file, string or standard input yields every byte exactly once and in order, then end-of-file; peeking does not consume and a pushed-back character is the next one read. Bytes written to a file, string or standard port appear there complete, in order and nowhere else, redirections are undone afterwards, and switching between several open ports never mixes their contents.",
  ["inputs", "histories"],
  "every byte sequence and every interleaving of read, peek, unread, write and port switches",
  "port.test reads a few literal strings through one port at a time.",
  ["src/posix.c", "src/string.c", "mes/module/mes/guile.mes", "mes/module/mes/simple-format.mes", "lib/mes/fdgetc.c", "lib/mes/fdungetc.c"],
  [("current-port redirection", "src/posix.c set_current_input_port, read_byte, write_byte"),
   ("per-descriptor push-back", "lib/mes/fdgetc.c, lib/mes/fdungetc.c"),
   ("port wrappers", "mes/module/mes/guile.mes")],
  observe=["operation trace against a model of byte queues"])

p("C13", "Running scripts and child processes follows the command-line contract",
  "The interpreter runs the script or expression it is given with exactly the arguments that follow it, honours the options it documents, and exits with the status the program asked for, or a failure status when it ends in an error. A child process started from a program receives exactly the given program, arguments, environment and redirected descriptors, and its exit status is reported back to the caller unchanged.",
  ["inputs", "configurations"],
  "every argument vector, environment, exit status and option combination",
  "The tests start the interpreter in one way and run one child process.",
  ["src/posix.c", "mes/module/mes/boot-0.scm", "mes/module/mes/posix.mes", "mes/module/mes/getopt-long.mes", "module/mes/getopt-long.scm", "src/mes.c"],
  [("option parsing and script start-up", "mes/module/mes/boot-0.scm"), ("fork/exec/wait wrappers", "src/posix.c, mes/module/mes/posix.mes")],
  observe=["recorded argv/environment of a probe program, exit statuses"])

# ---------------------------------------------------------------- compiler
p("C14", "Compiled expressions and control flow mean what the C program says",
  "For a C program within the supported language, the executable produced by the compiler computes the same values, prints the same output and returns the same exit status as C semantics prescribe: integer promotions and conversions, signed and unsigned arithmetic, comparison, shift, bitwise and logical operators with short-circuit, assignment operators, increments, casts, conditional expressions, loops, switch with fall-through, break, continue and goto.",
  ["programs", "inputs"],
  "every well-defined program of the supported C subset",
  "The scaffold tests are fixed programs, each with a few literal operands; operator, type and nesting combinations are unbounded.",
  ["module/mescc/compile.scm", "module/mescc/x86_64/as.scm", "module/mescc/as.scm", "module/mescc/M1.scm", "module/mescc/info.scm"],
  [("expression to accumulator code", "module/mescc/compile.scm expr->register"),
   ("statements and branches", "module/mescc/compile.scm ast->info, test-jump-label->info"),
   ("instruction selection", "module/mescc/x86_64/as.scm")],
  observe=["output and exit status of the compiled executable compared with gcc's"])

p("C15", "Data has the layout and initial contents the C program declares",
  "Structures, unions, nested aggregates, arrays of one and two dimensions, enumerations, pointers and string literals have the sizes, member offsets and element strides the target ABI of the compiler defines consistently everywhere, and every static or automatic initialiser puts exactly the declared values there. Reading or writing one member or element through any access path - direct, pointer, array index, pointer arithmetic, nested member - affects that object and nothing else.",
  ["programs"],
  "every combination of supported types, nestings, initialisers and access paths",
  "The struct and array tests fix a dozen layouts with literal contents.",
  ["module/mescc/compile.scm", "module/mescc/info.scm", "module/mescc/M1.scm"],
  [("type sizes and field offsets", "module/mescc/compile.scm ->size, field-offset, struct-field"),
   ("initialisers to data", "module/mescc/compile.scm init->data, array-init->data"),
   ("data emission", "module/mescc/M1.scm")],
  observe=["checksums of all members and surrounding canaries, compared with gcc"])

p("C16", "Calls, recursion and separate compilation link into one program",
  "Calls with any number of arguments of any supported type, direct or through function pointers, recursive or variadic, deliver every argument and the return value intact and preserve the caller's variables. Splitting a program over several source files, object files and archives in any order the linker accepts gives the same behaviour as compiling it as one file: shared globals are one object and file-local names stay separate.",
  ["programs", "configurations"],
  "every call graph, argument list and partition of a program over translation units",
  "Tests are single files linked with the library; nothing compares partitions.",
  ["module/mescc/compile.scm", "module/mescc/x86_64/as.scm", "module/mescc/M1.scm", "module/mescc/mescc.scm", "include/stdarg.h", "scripts/mesar.in"],
  [("argument push and frame set-up", "module/mescc/x86_64/as.scm function preamble, call-label, call-r"),
   ("label naming of statics and strings", "module/mescc/M1.scm, module/mescc/compile.scm"),
   ("link command", "module/mescc/mescc.scm mescc:link")],
  observe=["behaviour of each partition compared with gcc on the whole program"])

p("C17", "Compiler output depends only on its input",
  "Compiling the same sources with the same options gives byte-identical assembly, objects and executables on every run, whether the compiler runs on Mes or on Guile, whatever the size of the interpreter's memory, the current directory, the environment or the clock.",
  ["programs", "configurations"],
  "every source program, both host interpreters and every environment/arena setting",
  "No test compares the outputs of two runs.",
  ["module/mescc/compile.scm", "module/mescc/M1.scm", "module/mescc/mescc.scm", "module/mescc/bytevectors.scm", "scripts/mescc.scm.in", "src/eval-apply.c", "src/gc.c"],
  [("deterministic label and string numbering", "module/mescc/compile.scm, M1.scm"), ("host portability layer", "module/mes/guile.scm, mes/module/mes/*.mes")],
  observe=["bytes of .s, .o and executables"])

p("C18", "The compiler driver honours its options and never fails silently",
  "Preprocessing, compiling, assembling and linking in one step or in separate steps, with macros and include directories given on the command line, produce the same executable; each option does exactly what it documents and nothing else is written. When any stage fails the driver exits with a failure status and leaves no runnable output behind.",
  ["configurations", "fault_sequences", "inputs"],
  "every combination of stages, option order, output name and failing stage",
  "The tests always call the driver in one fixed way on valid input.",
  ["module/mescc/mescc.scm", "scripts/mescc.scm.in", "scripts/mescc.in", "scripts/mesar.in", "module/mescc/preprocess.scm"],
  [("stage selection and file naming", "module/mescc/mescc.scm"), ("option parsing", "scripts/mescc.scm.in")],
  observe=["files created, exit status, bytes of the executable"])

p("C19", "The 32-bit target computes what the program says too",
  "A program of the supported language compiled for the 32-bit x86 target prints the same output and returns the same status as C semantics with 32-bit words and pointers prescribe.",
  ["programs"],
  "every well-defined program of the supported subset, compiled for the 32-bit target",
  "The baseline tests run the 64-bit target only; the 32-bit code generator is not exercised at all.",
  ["module/mescc/i386/as.scm", "module/mescc/i386/info.scm", "module/mescc/compile.scm", "lib/linux/x86-mes-mescc/crt1.c"],
  [("32-bit instruction selection", "module/mescc/i386/as.scm")],
  observe=["output and exit status compared with gcc -m32"])

# ---------------------------------------------------------------- C library
p("C20", "String and memory functions conform to ISO C for every buffer",
  "For every content, length, alignment, overlap allowed by the standard and byte value up to 255, the string and memory functions return exactly the result ISO C or their documentation defines, change exactly the bytes they may change, and never access a byte outside the objects they are given.",
  ["inputs"],
  "all buffers, lengths, byte values and permitted overlaps",
  "Tests call each function on one or two ASCII literals without checking surrounding memory.",
  ["lib/string/strcmp.c", "lib/string/strncmp.c", "lib/string/memchr.c", "lib/string/memcmp.c", "lib/string/memmove.c", "lib/string/memmem.c", "lib/string/strpbrk.c", "lib/string/strrchr.c", "lib/string/strncpy.c", "lib/string/strncat.c"],
  [("byte loops", "lib/string/*.c")],
  observe=["return value and full buffer image compared with the host C library, ASan"])

p("C21", "Number and character conversions are exact and classify correctly",
  "Converting text to integers honours white space, sign, base prefix and base, stops at the first character that is not a digit of the base and reports that position, and yields the exact value for every number that fits; converting integers to text yields the canonical digits for every value of the type in every base. Character classification and case mapping agree with the C locale for every character code.",
  ["inputs"],
  "all integers of each width, all bases 2-36 documented as supported, all byte strings, all character codes",
  "Tests convert a few small numbers.",
  ["lib/mes/abtol.c", "lib/mes/ntoab.c", "lib/mes/itoa.c", "lib/mes/ltoa.c", "lib/mes/ultoa.c", "lib/stdlib/strtol.c", "lib/stdlib/strtoul.c", "lib/stdlib/atoi.c", "lib/ctype/isxdigit.c"],
  [("digit loops", "lib/mes/abtol.c, lib/mes/ntoab.c"), ("range tests", "lib/ctype/*.c")],
  observe=["values and end pointers compared with the host C library"])

p("C22", "Sorting returns the sorted permutation of its input",
  "Sorting an array with any consistent comparison function leaves a permutation of the original elements in ascending order, for every element count and element size, with duplicates and already ordered or reversed input, calls the comparison only with pointers to elements, and touches nothing outside the array.",
  ["inputs"],
  "every array content, length, element size and total preorder",
  "The test sorts one short array of distinct numbers.",
  ["lib/stdlib/qsort.c"],
  [("in-place partition sort", "lib/stdlib/qsort.c qpart, qsort")],
  observe=["multiset and order of the result, comparison arguments, canaries"])

p("C23", "Allocated blocks are disjoint, aligned and keep their contents",
  "Every block obtained from the allocator is suitably aligned, at least as large as requested and disjoint from every other live block; its contents stay as written until it is freed. Zero-initialised allocation returns zeroed memory and resizing preserves the common prefix.",
  ["histories"],
  "every sequence of allocate, zero-allocate, resize and free calls of any sizes",
  "Tests allocate a few blocks and do not check for overlap.",
  ["lib/linux/malloc.c", "lib/stdlib/realloc.c", "lib/stdlib/calloc.c", "lib/stdlib/free.c", "lib/linux/brk.c"],
  [("bump allocation over the program break", "lib/linux/malloc.c"), ("copying resize", "lib/stdlib/realloc.c")],
  observe=["allocation log checked for overlap, alignment and content"])

p("C24", "Formatted output renders every value as the C standard prescribes",
  "Formatting signed, unsigned, octal, hexadecimal, character and string conversions with flags, width, precision and length modifiers that the library supports yields exactly the characters the C standard prescribes and returns their number, for every argument value and template. Output to a bounded buffer never writes beyond the bound and is terminated, and the variants writing to streams, strings and standard output agree.",
  ["inputs"],
  "every template over the supported conversions and every argument value",
  "Tests print a few literals.",
  ["lib/stdio/vsnprintf.c", "lib/stdio/vfprintf.c", "lib/stdio/snprintf.c", "lib/stdio/sprintf.c", "lib/stdio/printf.c", "lib/stdio/fprintf.c"],
  [("template interpreter", "lib/stdio/vsnprintf.c, lib/stdio/vfprintf.c")],
  observe=["bytes and return value compared with the host C library"])

p("C25", "Formatted input assigns what the template matches",
  "Scanning text with a template over the supported conversions assigns to each argument the value the C standard prescribes, returns the number of assignments made, stops at the first mismatch, and writes nothing beyond the objects passed.",
  ["inputs"],
  "every template over the supported conversions and every input text",
  "One test scans two literals.",
  ["lib/stdio/vsscanf.c", "lib/stdio/sscanf.c", "lib/stdio/vfscanf.c"],
  [("template interpreter", "lib/stdio/vsscanf.c")],
  observe=["assigned values, return value and canaries"])

p("C26", "Streams and descriptors transfer bytes exactly, in order and once",
  "Through any interleaving of character, block and line reads, push-back, seeks, position queries, writes and re-opens, a stream delivers exactly the bytes of the file at the corresponding positions, and a file written through it contains exactly the bytes written, at the right positions; end-of-file and failures are reported as the C standard prescribes, and the buffering inside the library is never observable.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of stream operations on every file content, including files larger than the internal buffer and short reads",
  "Tests read a few bytes from one file.",
  ["lib/mes/fdgetc.c", "lib/mes/fdungetc.c", "lib/mes/__buffered_read.c", "lib/posix/buffered-read.c", "lib/stdio/fread.c", "lib/stdio/fseek.c", "lib/stdio/fopen.c", "lib/linux/lseek.c", "lib/stdio/fgets.c", "lib/stdio/fwrite.c"],
  [("read-ahead buffer per descriptor and its invalidation", "lib/mes/__buffered_read.c, lib/linux/lseek.c"), ("push-back", "lib/mes/fdungetc.c")],
  observe=["operation trace compared with the host C library on the same file"])

p("C27", "A non-local jump resumes at its set point with the given value",
  "Jumping to a saved point from any call depth returns there exactly once per jump with the given value (one if zero was given), with the variables the standard guarantees intact and the stack usable, for code compiled with either compiler and for any number of nested or repeated jumps.",
  ["programs", "histories"],
  "every call depth, value and sequence of set/jump operations",
  "One test jumps once.",
  ["lib/x86_64-mes-gcc/setjmp.c", "lib/x86_64-mes-mescc/setjmp.c", "lib/x86-mes-mescc/setjmp.c", "include/setjmp.h"],
  [("save and restore of frame, stack and return address", "lib/x86_64-mes-*/setjmp.c")],
  observe=["event trace of generated programs"])

p("C28", "The environment behaves as a map from names to values",
  "After any history of setting, overwriting and unsetting variables, looking up a name gives the value last set for exactly that name and nothing for an unset one, other variables are unaffected, the overwrite flag is honoured, and a program started afterwards inherits exactly that environment.",
  ["histories", "inputs"],
  "every sequence of set, unset and get operations over any names and values, starting from any inherited environment",
  "The test sets one variable and reads it back.",
  ["lib/posix/getenv.c", "lib/posix/setenv.c", "lib/posix/unsetenv.c", "src/posix.c"],
  [("linear environment array", "lib/posix/getenv.c, setenv.c, unsetenv.c")],
  observe=["operation trace against a map model, inherited environment of a child"])

p("C29", "Programs start, run children and exit as POSIX prescribes",
  "A program linked with the library receives exactly the argument vector and environment it was started with, its return value or exit argument becomes its exit status after registered exit handlers ran and output was delivered, and replacing the process image passes on exactly the given arguments and environment, searching the path as POSIX prescribes when asked to.",
  ["inputs", "configurations"],
  "every argument vector, environment, path setting and exit route, for either compiler",
  "Tests start with one argument and check one exit code.",
  ["lib/linux/x86_64-mes-gcc/crt1.c", "lib/linux/x86_64-mes-mescc/crt1.c", "lib/stdlib/exit.c", "lib/stdlib/atexit.c", "lib/posix/execvp.c", "lib/posix/execl.c", "lib/posix/execlp.c", "lib/mes/search-path.c", "lib/linux/execve.c", "lib/linux/waitpid.c"],
  [("start-up code", "lib/linux/x86_64-mes-*/crt1.c"), ("exit handlers", "lib/stdlib/exit.c, atexit.c"), ("path search", "lib/mes/search-path.c, lib/posix/execvp.c")],
  observe=["argv/environment/exit status seen by probe programs"])

p("C30", "File-system and process calls report the kernel's answer",
  "Each system-call wrapper has exactly the effect of the system call it names and returns its result, or -1 with errno set to the kernel's error and errno otherwise usable; file metadata is delivered in the right fields, and listing a directory yields every entry exactly once.",
  ["inputs", "fault_sequences", "histories"],
  "every call, argument and kernel error that the environment can produce",
  "Tests call some wrappers once, on the success path.",
  ["lib/linux/stat.c", "lib/linux/lseek.c", "lib/linux/_open3.c", "lib/linux/readlink.c", "lib/linux/rename.c", "lib/linux/mkdir.c", "lib/dirent/readdir.c", "lib/dirent/__getdirentries.c", "lib/linux/x86_64-mes-gcc/syscall.c", "lib/linux/x86_64-mes-mescc/syscall.c", "lib/posix/getcwd.c"],
  [("raw system calls and errno", "lib/linux/x86_64-mes-*/syscall.c"), ("directory stream", "lib/dirent/*.c"), ("structure layout", "include/linux/x86_64/kernel-stat.h")],
  observe=["results compared with the host C library on the same scratch tree"])

p("C31", "The C library behaves the same whichever compiler built it",
  "A program using the library produces the same output and exit status when program and library are compiled by the bundled compiler as when both are compiled by gcc.",
  ["programs", "configurations", "inputs"],
  "every program over the library's interface",
  "Each test is run for both builds but only its own fixed expectation is compared.",
  ["lib", "include", "module/mescc/compile.scm", "lib/linux/x86_64-mes-mescc/syscall.c"],
  [("portable C within the compiler's subset", "lib/**/*.c"), ("per-compiler system call layer", "lib/linux/x86_64-mes-{gcc,mescc}")],
  observe=["output of the same driver program in both builds"])

p("C32", "Runtime arithmetic helpers equal native 64-bit arithmetic",
  "The division, remainder and conversion helpers that compiled code relies on return exactly the result native integer arithmetic gives for every operand pair, including extreme values, for every signedness and word width they serve.",
  ["inputs"],
  "all operand pairs with a defined result",
  "The helpers are not tested directly; on this platform some are not even linked.",
  ["lib/libtcc1.c", "lib/mes/div.c", "lib/mes/ntoab.c"],
  [("shift-subtract division", "lib/mes/div.c __mesabi_uldiv"), ("sign handling", "lib/mes/div.c __aeabi_idivmod, __mesabi_*")],
  observe=["results compared with native arithmetic"])

p("C33", "Option parsing follows the getopt contract",
  "For every argument vector and every short and long option specification, the option parser reports the same sequence of options, option arguments, errors and remaining operands as the GNU getopt contract prescribes in POSIX order: the first operand or a double dash ends the options, and the argument vector is left as it was.",
  ["inputs"],
  "every argument vector and option specification",
  "One test parses one fixed vector.",
  ["lib/posix/getopt.c", "include/getopt.h", "module/mes/getopt-long.scm"],
  [("argument scanner", "lib/posix/getopt.c _getopt_internal")],
  observe=["event sequence compared with the host C library"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
