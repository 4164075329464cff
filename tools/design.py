"""Writes DESIGN.md."""
import json
S='''# Deciding RayforceDB properties by bounded-exhaustive exploration

All checks explore a bounded space of behaviours completely (no sampling) on the code compiled from /repo's
working tree. There are two forms:

* **Enumeration of programs against a reference model** (level `exploration`): `vt/build.py` compiles all of
  `/repo/core/*.c` with the shipped flags (or ASAN) and links `harness/driver.c`, a line driver that evaluates
  expressions in the real runtime and prints a canonical dump of the value (`harness/canon.h`, independent of
  the repository's formatter). A check enumerates every program of a stated grammar/bound, computes the value
  the property demands with an independent Python model, and compares.
* **Exploration of schedules / fault points** (level `model_checking` where states and transitions are counted): the real code runs under
  a controlled scheduler, or with its system calls replaced by a simulated kernel, and every interleaving, split,
  crash point within the bound is executed.

Nothing reads source text: a check sees only what the compiled code does. `VT_REPO` points the machinery at another
copy of the repository (used to try planted bugs).

The shipped build uses reassociating floats, so float results are compared up to 1e-12 relative (sums: 1e-9)
error; everything else is compared exactly.

Known findings and fixed defects: `known_findings.txt`.
'''
D='''
## Machinery

| part | what it does |
|---|---|
| `vt/build.py` | compiles `/repo/core/*.c` into an object cache keyed by content (flavours: `rel` shipped flags, `asan` AddressSanitizer + malloc behind `heap_alloc`, `dbg`, `sched` instrumented for the scheduler) |
| `harness/driver.c`, `canon.h` | line driver: evaluates expressions in the real runtime, dumps values canonically (types, nulls, every element, attributes not shown), snapshots variables, counts retained memory; forks so that a crash is one result |
| `vt/drv.py`, `vt/suite.py`, `vt/val.py`, `vt/report.py` | feed batches of expressions to 8 processes, compare with the model, group violations, write replays and evidence |
| `harness/vsched.[ch]`, `conc.c` | controlled scheduler: clang's `-fsanitize=thread` call-outs are linked to our own runtime, so each memory access, atomic, lock and condition variable of the real `core/*.c` is a scheduling point; a vector-clock race detector runs on every schedule; preemption bounded DFS with state hashing |
| `harness/ipc.c` | simulated kernel: sockets, epoll, accept, connect, clock are linked to a model; a path of choices is replayed and extended (stateless search, at most D deviations from the default answers) |
| `harness/heapx.c` | explicit-state breadth-first search over operations on the real allocator, whose complete state is hashed, with invariants recomputed from the raw memory after every transition |
| `harness/decode.c`, `fault.c` | in-process mutation of messages under AddressSanitizer; interposed `write`/`mmap`/`ftruncate` that fail or are short at the k-th call |

**How models are bound to the code.** No check explores a hand written abstraction of the implementation whose
relation to the code would have to be argued: transitions are executions of the compiled code itself. The reference
models (what `(sum v)` should be) are specifications; every enumerated program is executed, so every model
prediction is replayed against the implementation. Counts in the evidence are those of executions.

**Bounds against which strength must be read.** Small-scope enumeration misses defects that need values outside the
domains or objects longer than the bound. The places where the code changes strategy (parallel split at 16384
elements, page-rounded chunks, hash vs. dense tables, radix digits, slab classes, buffer sizes) are each covered by
long cases placed around the switch, with 1 to 8 (13) executors.

## Properties

%s

## Planted changes (`seeded/`) and what catches them

Every change builds and passes the repository's tests, and its demonstration fails only with it. "caught" is the result of
the quick tier of the property's check.

%s

## Defects of the repository found on the way

`known_findings.txt` lists each of them. Those marked `fixed:` were repaired by a `fix:` commit in /repo (small patches,
tests untouched); the checks report them again if they return. Recorded, not repaired:

* **P17 ser-quoted-symbols**: the wire format has no place for the attribute of a quoted symbol, so functions that hold
  `'a` decode to functions that refer to a variable `a`. A repair changes the wire format.
* **P15 sym-column**: a splayed table with a symbol column named `sym` and no explicit file of symbols overwrites the
  one with the other. A repair changes the layout of stored tables.

Seen while reading, outside of the claimed properties (not demonstrated by a check, kept here for maintainers):
`runtime_destroy` unmaps the symbols twice; error paths of some parallel maps and joins leak partial results;
`select` by I32/I16/DATE/TIME keys is a type error; `find` does not find a float null; symbol files are not replaced
atomically; a torn shared file of symbols is overwritten by the next store; `(read "file")` returns a trailing NUL; the
char literal `' '` inside lists is misread; parted tables (`get-parted`) give wrong aggregates for filters that select
part of the rows of a partition.

## False alarms met and what was done about them

* Float results differed by reassociation (shipped flags): comparison within 1e-12 (sums 1e-9) of the magnitude.
* Order of groups and of `distinct` depends on the strategy: compared as sets, the statements say so.
* Sorting a mix of -0.0 and 0.0, integer overflow inside of a type, null in `distinct`: the documentation does not
  settle them, left out of the statements.
* Increments of reference counts are relaxed atomics; the race detector treats them as such (only decrements order).
* The scheduler bounds the number of visits of one place per thread (`SCHED_VISITS`), since spinning loops are
  otherwise unbounded; within the bound the enumeration is complete, evidence reports truncation.
* Storage is not atomic by design: P16 says a torn file may be an error, not that stores are transactions.
* `pmap` of functions with effects on shared variables is not claimed to be race free (P22 says so).

## Not applicable

None of the properties written down is out of reach of the family. Left aside because the bounded spaces would not carry
weight: performance guarantees, the terminal editor (`app/term.c`), the Windows and kqueue event loops (not compiled
here), the plug-in loader (`loadfn` needs foreign shared objects).
'''
P=[
("P01","arith.py","Every operator (+ - * / % div xbar == != < > <= >=) x ordered pair of 9 types x every pair of values of a per-type domain (null, 0, +-1, extremes, rounding boundaries) x shape (atom/atom, atom/vector, vector/atom, vector/vector of several lengths, aliased operands, nested list) plus long vectors around the split, 1 and 4 executors. Oracle: element-wise model with one result-type table. ~0.5 M expressions, 45 s."),
("P02","aggr.py","Every vector up to length 4 (5) over per-type domains with nulls and extremes x every aggregate and unary map, casts of partial results, long vectors with the interesting element at each seam, 1-8 executors. Oracle: fold over the non-null elements. 20 s."),
("P03","order.py","Every vector up to a length over adversarial alphabets of 11 types, lengths around the switches insertion/counting/radix/merge, all interning orders of small symbol sets, and **all one- and two-step pipelines** of value transformations in front of a sort (stale order attributes). Oracle: Python's stable sort with the documented order; for pipelines the same elements written as a literal. 40 s."),
("P04","sets.py","All operand pairs up to a length over dense, sparse and extreme alphabets for each supported type pair and for mixed lists; long operands around the parallel build. Vectors of up to 70 000 distinct elements with adversarial strides (hash table growth and probing). Oracle: definition over Python lists. 60 s."),
("P05","listops.py","Every element type x every small vector x every count, index, range (negative, outside, null) for take, at, filter, remove, split, concat, raze, where, til, reverse, bin; dictionaries, tables, strings at every cut; long vectors around seams. Oracle: index arithmetic in Python. 7 s."),
("P06","select.py","All masks over 4 (6) rows of 14 column types; all key sequences over 3 values for 10 key types x each supported aggregate of 14 value types; pairs (triples) of key types; computed keys, predicates, nested selects, take; tables of 16385 to 600001 rows over key ranges that select each grouping strategy with 1-8 (13) executors. Oracle: row-by-row reference. 85 s."),
("P07","update.py","Every sequence of insert/upsert/update/alter/modify up to a depth from each small start object, each observed after each step together with aliases of the object and of its columns; also without aliases (in-place paths). Failing operations included. 50 s."),
("P08","joins.py","All key patterns of up to 3 left x 3 right rows for 1-3 key columns of all types, hits/misses of each value type, all asof time patterns, all window bounds; long tables with 1-8 executors. Oracle: nested loops. 14 s."),
("P09","total.py","Each builtin x every tuple of argument values (1-3 arguments; ~70 values: every type, empty, null, mixed, nested, enum, lazy, shared or fresh) evaluated three times under AddressSanitizer; arguments must be unchanged, memory retained must not grow, registers restored. ~2.6 M applications, 35 s."),
("P10","text.py","The real reader under AddressSanitizer on every text up to 4 (5) characters of 27 and tokens of 26 (with block count, and read again between white space and comments), and on about 280000 literals and compositions whose values a table gives. Found an unterminated string read beyond the text, keywords splitting names, 0xzz. 5 s, thorough 90 s."),
("P11","evaluate.py","All programs of a grammar (let, set, if, do, lambda, call, self, return, and/or, try/raise, fold/map) up to a size, each placed in every context (top level, compiled body, argument, handler, recursive call, under map and fold), run by a reference interpreter written from the documentation; programs the rules leave open are skipped and counted. 11 s."),
("P12","temporal.py","Every day 0001-9999 boundaries in full for month/year/leap changes (quick: all days of chosen spans, thorough: all days), every time field boundary, timestamps around 2000 and the limits; texts in all documented spellings; every malformed text one edit away. Oracle: proleptic Gregorian calendar computed independently. 22 s."),
("P13","casts.py","Each source type x each target type x boundary values x atom/vector/list/long vector; text in both directions, numbers of every count of digits, symbols of every length to 300; what is not offered must be an error. 3 s."),
("P14","csvfile.py","Files over all field texts per type, every quoting and line-end variation, every short/unbalanced record, lengths around the batches of lines, 1-8 executors; write then read by Python's csv module and by read-csv; headers, column counts and field lengths of every size around powers of two. 25 s."),
("P15","store.py","Each value type and table shape written and read in scenarios of several processes with differently ordered symbols, re-stores, shared symbol files, and operations on the mapped values; list columns with elements of growing and shrinking sizes, wide tables. Oracle: the in-memory value. 15 s."),
("P16","store.py","Every cut position of stored files (all bytes of small files, boundaries of large), header damage, the k-th write/mmap/ftruncate failing or short for each k, journals cut at every byte. 5 s, 79 k faults."),
("P17","serde.py","Every atom, small vector, pairs of element kinds in lists/dicts/tables, builtins, functions, nesting 1000, lengths around powers of two, functions of many arguments; decoded in the same process and in one with reversed interning. 1 s."),
("P18","decode.py","All byte strings up to length 2, type x length x tail headers, all truncations, single-byte replacements, removals, duplications, 8-byte windows and byte pairs of 54 base messages; ASAN, leak and growth counters. 1.5 M messages, 3 s."),
("P19","ipc.py","Real epoll loop and IPC state machine on the simulated kernel: all executions with at most 2 (3) deviations at arrival cuts, short/interrupted/blocked I/O, readiness order, half close, timeouts, in 14 scenarios; beside them, without deviations, message lengths around every power of two to 128 K in 4 patterns of pieces, 1-100 pipelined requests against a slow reader, requests nested to depth 12. Oracle: per-connection log of requests and answers. 30 s."),
("P20","ipc.py","Same exploration for closes from every side (peer, own handler, other handler, callback), hostile headers, failed accept/register; freed selectors are poisoned, descriptors counted; waves of 1-138 connections closed in 4 orders with handles reused by up to two further waves. 12 s."),
("P21","heap.py","Explicit-state search of the real allocator (main + 1-2 worker heaps): alloc/free/resize of chosen sizes, lend/merge, failing mmap; invariants over raw memory. Depth 5-6 in quick, deeper in thorough. 30 s."),
("P22","conc.py","All schedules with at most 1 (2) preemptions of parallel operators, queries, joins, CSV parsing, pmap with 2-3 executors under a vector-clock race detector; value compared with one executor. 32 s."),
("P23","conc.py","All schedules with at most 2 preemptions of 2-3 threads interning the same, colliding, new names, with string storage extension. 72 s."),
("P24","conc.py","All schedules with at most 1-2 preemptions of pool creation, runs, queue growth, errors and shutdown, spurious and late wake-ups. 66 s."),
("P25","timer.py","The real loop and interpreter with a virtual clock and a wrapped epoll_wait; every sequence of 4 (5) operations out of 22, then waits; the log of calls is followed on a model of the set of timers (equal due times may fire in any order). Found that infinite timers fired once and that ids and removal failed after the first expiry. 15 s."),
("P26","iterate.py","Each higher-order form x functions recording their calls (builtins, lambdas, failing at each element, result type changing at each element) x lengths around seams x executors, nested pmap. Oracle: Python map/fold. 23 s."),
("P27","lineed.py","The real editor of app/term.c fed keys through its own reading of standard input; depth-first search with a table of visited states (editor and model) over every sequence of 5 (6) of 30 keys from 6 starts; line, cursor, pending input, text to evaluate and an emulated row of the screen are compared after each key. Found that one bracket too many could never be ended, saved and current lines of the history mixed up, keys lost after unknown escapes, characters of several bytes cut, lines growing beyond their buffer. 60 s."),
("P28","like.py","Every string over an alphabet with every pattern over another up to given lengths (570 M pairs in 7 families), through the real like on lists and atoms under ASAN, against a set-of-positions automaton; the same patterns on columns in memory, on disk and in partitions and as conditions. Found that (like \"aa\" \"*a\") was false: no second attempt where a pattern ended before the string. 25 s."),
("P29","parted.py","Every way of cutting rows into small partitions x every subset of rows as a condition x date comparisons x and/or; each query runs on the partitioned table and on the table of all rows. Found that no selected row was an error, that avg, med and dev ignored the condition, that sum, min and max of no rows were garbage. Seen and left out of the claim: first, last, min and max of some types and grouping by date under row conditions are still wrong or lose their type (tests pin the types). 22 s."),
]
why={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
import sys
sys.path.insert(0,'/verif/tools')
import props
pw={p['id']:p for p in props.PROPS}
txt=[]
for i,ch,t in P:
    p=pw[i]
    txt.append(f"**{i} {p['title']}** (`checks/{ch}`). {t} *Why tests cannot:* {p['why']}")
for i in pw:
    assert i in [x[0] for x in P],i
import glob,os
try: res=json.load(open('/verif/tools/seed_results.json'))
except Exception: res={}
rows=["| change | property | needs | result |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); n=os.path.basename(d)
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {res.get(n,'caught')} |")
open('/verif/DESIGN.md','w').write(S+'\n'+D%('\n\n'.join(txt),'\n'.join(rows)))
