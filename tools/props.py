ENUM = "bounded-exhaustive enumeration of programs on the real interpreter against an independent reference model"
DRV = ("Trusts: the driver's canonical dump (harness/canon.h), the Python reference model, clang. The code under test is /repo's current tree "
       "compiled with the shipped float flags; nothing is mocked except huge-page mmap flags and thread pinning. ")
NA = []
PROPS = [
 dict(id="P01", title="Arithmetic and comparison follow one null- and type-aware semantics",
  statement="For every pair of operand types, shapes (atom, vector) and values, + - * / % div xbar and the comparison operators return exactly what the element-wise definition gives: the documented result type, nulls propagated (comparisons: null below everything), temporal unit rules respected, length mismatch rejected. The result does not depend on vector length, on operand reuse or on the number of executor threads.",
  over=["inputs", "configurations"], quant="all operand type pairs x shapes x value tuples from per-type domains including null and extremes; vector lengths around kernel and parallel-split boundaries; 1 and 4 executors",
  why="Tests sample a handful of pairs per operator; the kernels are hundreds of type-specialised macro expansions (each pair a separate code path), so a defect in one of them is invisible to samples of others.",
  files=["core/math.c", "core/cmp.c", "core/ops.c"], mech=[("type dispatch of element-wise kernels", "core/math.c binop_map and the *_partial functions"), ("comparison kernels", "core/cmp.c")],
  check="arith", technique=ENUM, level="exploration", note=DRV + "Domains are small but contain null, sign, extreme and rounding boundary values for each type; integer overflow inside a type is left out."),
 dict(id="P02", title="Aggregates and unary maps agree with their definition, nulls ignored",
  statement="sum avg min max med dev count first last, the rounding functions, neg, not, and, or return the value of their mathematical definition over the non-null elements for every vector of every supported type, on empty, singleton and all-null inputs too. Splitting a long vector over executors gives the value of the sequential computation.",
  over=["inputs", "configurations"], quant="every vector up to a length bound over per-type domains with null/negative/extreme values; long vectors at lengths around the split boundaries with 1..4 executors",
  why="Tests use a few friendly vectors, rarely with nulls and never with the parallel split; the kernels are per-type and per-path.",
  files=["core/math.c", "core/aggr.c", "core/logic.c", "core/pool.c"], mech=[("fold kernels and partial combination", "core/math.c"), ("parallel split", "core/pool.c pool_split_by")],
  check="aggr", technique=ENUM, level="exploration", note=DRV + "Float results are compared up to reassociation error since the shipped build enables it."),
 dict(id="P03", title="Sorting is a stable, null-first permutation for every value and pipeline",
  statement="asc, desc, iasc, idesc, rank, xrank, xasc and xdesc return exactly the stable ordering (nulls first ascending, symbols and strings alphabetical, bytes unsigned) of the elements they are given. This holds however the value was produced: remembered order knowledge (sortedness, uniqueness) never changes the answer from what the same elements written as a literal give.",
  over=["inputs", "programs"], quant="every vector up to a length bound over adversarial alphabets for all 11 sortable types, lengths around algorithm switch points, every symbol interning order, every one- and two-step pipeline of value transformations, every small two-column table and key list",
  why="Sort tests use a few vectors; order attributes travel through values invisibly, so a stale attribute needs a particular pipeline, and symbol order defects need a particular interning history.",
  files=["core/sort.c", "core/order.c", "core/compose.c", "core/rayforce.c"], mech=[("radix/counting/merge sorts", "core/sort.c ray_sort_asc, ray_sort_desc, optimized_sort"), ("order attributes", "core/ops.h ATTR_ASC/ATTR_DESC/ATTR_DISTINCT set in order.c, cleared on mutation in rayforce.c and math.c")],
  check="order", technique=ENUM, level="exploration", note=DRV + "Mixed -0.0/0.0 ties are left out."),
 dict(id="P04", title="Membership, search, set and grouping operators match their set definition",
  statement="in, find, distinct, union, except, sect, group, where, within, bin and binr return exactly what their definition over the elements says, for every supported pair of operand types (bytes unsigned, nulls equal to nulls of any width) and for lists of arbitrary nested values. The answer does not depend on which internal strategy (dense range table, hash table, parallel build) the operands select.",
  over=["inputs", "configurations"], quant="all operand pairs up to a length bound over dense, sparse and extreme alphabets for every supported type pair; every pair of element kinds in mixed lists; long operands around the parallel threshold",
  why="Each type pair is a separate kernel with its own range arithmetic and the strategy switches on data-dependent range; tests use one or two small examples per operator.",
  files=["core/index.c", "core/items.c", "core/compose.c", "core/hash.c"], mech=[("dense/hash strategies", "core/index.c index_in_*, index_find_*, index_distinct_*, index_group_*"), ("operator dispatch", "core/items.c ray_in ray_find ray_except ray_sect ray_within ray_bin")],
  check="sets", technique=ENUM, level="exploration", note=DRV + "Left out of the property: the order of distinct values and of group keys, whether distinct keeps a null, -0.0."),
]
PROPS += [
 dict(id="P06", title="Select answers exactly the rows, groups and aggregates asked for",
  statement="A select returns, for any table and any filter, exactly the rows whose condition holds, in table order, in every column; with grouping it returns one row per distinct key combination (null being a key of its own) whose aggregates are those of exactly the rows of that group. Projections, computed columns, computed keys, nested selects and take compose the same way, and the answer depends neither on the number of rows or executors nor on the grouping strategy those select.",
  over=["inputs", "schedules"], quant="all masks over up to 4 (6) rows of fourteen column types; all key sequences over three values (null among them) for ten key types with every supported aggregate of fourteen value types; all pairs of fourteen key types, triples of six; predicates, computed keys, nesting; tables of 16385 to 600001 rows over key ranges selecting each strategy with 1 to 8 (13) executors",
  why="Grouping switches between strategies by key type, value range, filter and row count, and each aggregate has its own loop per strategy; a wrong arm shows only for that combination.",
  files=["core/query.c", "core/index.c", "core/aggr.c", "core/filter.c", "core/group.c"], mech=[("group index strategies", "core/index.c index_group index_group_list"), ("partial aggregates and their merge", "core/aggr.c AGGR_ITER AGGR_COLLECT"), ("lazy filters and groups", "core/query.c ray_select, core/filter.c")],
  check="select", technique=ENUM, level="exploration", note=DRV + "Order of groups is not compared. A grouped last may be the last value or the last non-null value. Aggregates of column types the code rejects are not claimed."),
]
PROPS += [
 dict(id="P17", title="Serialization round-trips every value, across processes",
  statement="Deserializing the serialized form of any atom, vector, list, dictionary, table, builtin or function yields a value equal to the original, in the same process or in another one whose symbols were interned in a different order, and decoded functions behave like the originals. The recorded size equals the bytes produced, and re-serializing yields the same bytes.",
  over=["inputs", "histories"], quant="every atom and vector (up to a length bound) over boundary values of every type, every pair of element kinds in lists and dictionaries, every pair of column types, every builtin, nesting to depth 1000; two interning histories",
  why="Each type has its own encoder, sizer and decoder arm; a missing or mismatched arm shows only for that type in that nesting position, and symbol identity only across processes.",
  files=["core/serde.c"], mech=[("encoder, sizer, decoder", "core/serde.c ser_raw size_obj de_raw"), ("symbols travel by name", "core/serde.c TYPE_SYMBOL arms")],
  check="serde", technique=ENUM, level="exploration", note=DRV + "Equality is the canonical dump of both values; functions are compared by structure and by behaviour on one argument each."),
 dict(id="P18", title="Decoding arbitrary bytes is safe and total",
  statement="Decoding any byte string terminates with an error or with a well formed value that can be formatted, sized and re-encoded to itself; it never reads outside the bytes given, never leaks and never allocates out of proportion to the input.",
  over=["inputs"], quant="all byte strings up to length 2, all type x boundary-length x tail headers, and for a base message of every type all truncations, all single-byte replacements, removals and duplications, all 8-byte windows replaced by boundary lengths, boundary byte pairs; nesting up to 200000",
  why="A malformed message needs a particular byte at a particular position; tests only decode what the encoder produced.",
  files=["core/serde.c"], mech=[("length and shape validation", "core/serde.c de_raw")],
  check="decode", technique="bounded-exhaustive enumeration of mutated messages on the real decoder under AddressSanitizer", level="exploration",
  note="Trusts AddressSanitizer for out-of-bounds detection and its allocation counter for leaks; core is built with malloc behind heap_alloc so every object is individually guarded."),
]
SIM = "stateless model checking of the real event loop on a simulated kernel: every execution with at most D deviations from the default schedule"
PROPS += [
 dict(id="P19", title="IPC delivers every request and answer exactly once, in order",
  statement="However the bytes of a connection are cut into segments, whichever socket call is short, interrupted or would block, and in whatever order connections become ready, every completely received message is processed exactly once and in order on its connection, and every answer is sent whole, in order, to its requester. A synchronous request returns the answer to that request; requests and messages that arrive while it waits are processed too; unsolicited or late answers are discarded.",
  over=["schedules", "histories", "fault_sequences"], quant="every execution with at most D deviations (2, 3 in thorough) at: byte arrival cut, half close or reset position, short/interrupted/blocked recv and send, event order, timeout, failed accept/register/connect; 14 server and client scenarios; fixed schedules over message lengths around powers of two to 128 K, 1-100 pipelined requests, nesting to 12",
  why="Tests use one process and loopback sockets where messages arrive whole and never block; defects need a particular cut, blocked send or interleaving of two requests.",
  files=["core/epoll.c", "core/poll.c", "core/ipc.c", "core/sock.c"], mech=[("event loop, receive and send buffers", "core/epoll.c poll_run poll_recv poll_send poll_block_on"), ("message state machine", "core/ipc.c ipc_read_* ipc_on_data ipc_send")],
  check="ipc", technique=SIM, level="model_checking", note="Trusts the simulated kernel in harness/ipc.c (sockets, epoll level/edge semantics) and AddressSanitizer. Peers are modelled as byte scripts with gates on what they have received."),
 dict(id="P20", title="Connections and handles survive closes, failures and hostile peers",
  statement="A connection may be closed at any moment by its peer, by its own handler, by another connection's handler or by a callback, and a peer may send any header: the server keeps serving the other connections, never touches freed connection state, never confuses a handle with a later connection, and drops only the offending connection. Open and close callbacks run for every opened and closed connection, and descriptors and memory are given back.",
  over=["schedules", "histories", "fault_sequences", "inputs"], quant="as for the delivery property, over 8 scenarios of closing, reconnecting, callbacks and cross-connection writes and 12 malformed headers; waves of up to 414 connections closed in 4 orders with handles reused",
  why="Needs a close at a particular point of another connection's processing, within one batch of events; tests never run two connections.",
  files=["core/epoll.c", "core/poll.c", "core/ipc.c", "core/freelist.c"], mech=[("deregistration", "core/epoll.c poll_deregister"), ("handle reuse", "core/freelist.c"), ("header validation", "core/ipc.c ipc_read_header")],
  check="ipc", technique=SIM, level="model_checking", note="Trusts the simulated kernel in harness/ipc.c and AddressSanitizer; the leak oracle is the live block count after each execution compared with a fault-free one."),
]
PROPS += [
 dict(id="P09", title="Builtins are total: value or error, no memory error, nothing leaked or changed",
  statement="Applying any builtin to any arguments (wrong types and counts, empty, null, mixed, nested, shared or freshly made values) gives a value or an error: it never crashes, reads or writes outside its operands or uses freed memory. Values not named as the target of the call are unchanged afterwards, the interpreter's registers are restored, and evaluating the same expression again retains no more memory.",
  over=["inputs"], quant="every builtin without external effects x every pair of values of a domain covering every type, emptiness, nulls and nesting, each also as a freshly decoded temporary; triples over a smaller domain; alter/modify over containers x functions x indices x values; insert/upsert over rows of every small shape; select/update over columns x conditions x groupings",
  why="Tests call builtins with the intended types; argument type dispatch is a hand-written switch per builtin, and reference counting mistakes show only as later corruption.",
  files=["core/env.c", "core/items.c", "core/compose.c", "core/iter.c", "core/query.c", "core/update.c", "core/join.c", "core/eval.c"], mech=[("builtin table", "core/env.c init_functions"), ("ownership conventions", "core/rayforce.c cow_obj own_obj drop_obj"), ("application over lists", "core/eval.c unary/binary map, core/iter.c")],
  check="total", technique="bounded-exhaustive enumeration of applications on the real interpreter under AddressSanitizer with operand, register and live-block monitors", level="exploration",
  note="Trusts AddressSanitizer; core is built with malloc behind heap_alloc so every object is individually guarded. Builtins that read or write files, sockets, timers or processes are exercised by other properties."),
]
PROPS += [
 dict(id="P07", title="Insert, upsert, update, alter and modify change exactly their target",
  statement="Each of these operations, applied to a table, dictionary, vector or list held by a name or given as a value, yields exactly what its definition says for the named rows, keys, columns or places and leaves everything else as it was; every other variable that shared the value or a part of it keeps its old contents. An operation that fails leaves its target as it was before the call, whole.",
  over=["histories", "inputs"], quant="every sequence of up to 2 (3) of some 30 insert/upsert/update operations over every starting table of each of 14 column types, by name with and without aliases, inside functions, by value; every sequence of up to 2 of some 80 alter/modify operations over 16 starting values; upsert keys of all pairs of key types; tables of 20001 (70001) rows with 1 to 8 (13) executors",
  why="Operations modify in place when nothing else holds the value and copy otherwise, column by column; a missed copy or a half done change shows only with a particular alias or a failure in a late column.",
  files=["core/update.c", "core/rayforce.c", "core/items.c", "core/query.c"], mech=[("copy on write", "core/rayforce.c cow_obj, core/update.c at_obj_ref"), ("row matching", "core/update.c ray_upsert ray_insert ray_update")],
  check="update", technique="bounded-exhaustive enumeration of operation sequences on the real interpreter against an independent reference model", level="exploration", note=DRV + "Removing elements from GUID vectors and upsert by a single I16 key are rejected by the code and not claimed. A vector given an element of another type may take it in its own type or become a list."),
]
PROPS += [
 dict(id="P21", title="The allocator never hands out memory twice and never loses any",
  statement="Through every sequence of allocations, resizes and frees on the main heap and on worker heaps, of blocks of their own or of each other, with lending to workers before and merging after each parallel section: a block handed out lies in mapped memory, holds the size asked for, overlaps no other block in use and keeps its contents until freed, also when resized. While sections run in parallel no heap touches the free memory of another one; every mapped byte stays either in use or free in exactly one heap, and when everything is freed a collection gives all memory back.",
  over=["histories", "fault_sequences"], quant="all allocator states reachable within 4 to 6 (6 to 8) operations from an empty heap and from 7 prepared ones, with 1 to 3 workers, sizes of every order class around the order boundaries, slab cache bounds, pools of 32 MB and more, and failing mmap with file backed pools",
  why="A buddy allocator breaks through a particular sequence (a merge with a block another heap owns, a stale link, a full cache); tests allocate a few blocks on one heap.",
  files=["core/heap.c"], mech=[("buddy and slab allocator", "core/heap.c heap_alloc heap_free heap_realloc heap_gc"), ("lending and merging around parallel sections", "core/heap.c heap_borrow heap_merge, core/pool.c pool_prepare pool_run")],
  check="heap", technique="explicit-state breadth-first exploration of the real allocator, states compared up to renaming of pools, whole-heap invariant checked in every state", level="model_checking",
  note="Trusts harness/heapx.c (walks the free lists, slab caches and foreign lists of struct heap_t; pools come from a stand-in for mmap). Operations of different heaps interleave as a whole; what happens inside of them is the subject of the data race property."),
]
SCH = "stateless model checking of the real code under a controlled scheduler (threads as fibers, schedules enumerated by forking at every choice, bounded preemptions, spurious wakeups)"
SCN = "Trusts harness/vsched.c (fibers, happens-before by vector clocks over the C11 orders of the instrumented accesses, sequentially consistent values: effects of weaker memory appear as races, not as values). Preemptions are tried at locks and at atomic accesses to places that several threads use."
PROPS += [
 dict(id="P22", title="Parallel execution has no data races and gives the sequential value",
  statement="While operations, queries, joins, CSV parsing and pmap run on several executors, no two threads access the same memory without synchronisation, whatever the schedule, in code without side effects on shared variables. The value, or the error with its code, is the same in every schedule and is the one a single executor gives (floats up to rounding, groups up to order).",
  over=["schedules"], quant="85 expressions reaching every parallel section of the core (34 in quick) with 2 and 3 executors: all schedules with 1 (2) preemptions, at the first 2 to 6 visits of each synchronising access; values also with 1 to 4 executors",
  why="A race needs two threads at particular places at once; tests run one schedule and compare one value, mostly below the size where executors are used at all.",
  files=["core/pool.c", "core/aggr.c", "core/index.c", "core/iter.c", "core/math.c", "core/eval.c", "core/cc.c", "core/io.c", "core/rayforce.c"], mech=[("splitting into tasks", "pool_add_task call sites"), ("atomic reference counts in executors", "core/rayforce.c rc_sync"), ("lazy compilation", "core/cc.c cc_compile, core/eval.c")],
  check="conc", technique=SCH + " with a vector-clock race detector on every access", level="model_checking", note=SCN),
 dict(id="P23", title="One name has one symbol identity, whichever threads intern it",
  statement="However several threads intern names at the same time (the same names, different names of one hash bucket, with the string storage about to be extended), every name gets exactly one identity, different names get different ones, an identity reads back as its name, and later lookups find it. Interning always terminates and is free of data races.",
  over=["schedules"], quant="2 to 4 threads interning 2 to 5 names in opposite orders, colliding or not, with 0 to 16 bytes left in the current string page: all schedules with up to 2 (3) preemptions, 1 with 3 or 4 threads",
  why="A duplicate identity needs two threads between the lookup and the insertion of one bucket; no test interns concurrently.",
  files=["core/symbols.c", "core/symbols.h"], mech=[("bucket locking and publication", "core/symbols.c symbols_intern"), ("string storage", "core/symbols.c string_intern")],
  check="conc", technique=SCH, level="model_checking", note=SCN),
 dict(id="P24", title="Executors run every task once and stop when told to",
  statement="In every schedule each task added to a run is executed exactly once, its result stands at its place, reference counts of values shared by tasks come out exact, and the first failing task's error is the one reported, with its details. This holds for any number of tasks, queue growth and rounds, for executors woken late, early or spuriously, and starting and ending the runtime always terminates.",
  over=["schedules"], quant="1 to 4 executors, 1 to 3 rounds of 1 to 4 tasks (values, shared lists, errors), growth of the queue past 2048 tasks, runtime start and end, the queue alone with 2 producers and 1 or 2 consumers: all schedules with up to 2 (3) preemptions including spurious wakeups",
  why="Lost wakeups and tasks taken between runs need a late worker at a particular statement; a test run finds it once in millions.",
  files=["core/pool.c", "core/pool.h", "core/thread.c"], mech=[("run protocol", "core/pool.c executor_run pool_run pool_add_task"), ("bounded queue", "core/pool.c mpmc_push mpmc_pop"), ("end of executors", "core/pool.c pool_destroy")],
  check="conc", technique=SCH, level="model_checking", note=SCN),
]
PROPS += [
 dict(id="P15", title="What was stored reads back as it was, in any process",
  statement="A value stored in a file, a splayed table, or splayed tables sharing one file of symbols reads back as the same value: in the same process, in another process whose symbols have other identities, after other stores to the same names, and after tables were added to the shared symbols by other processes. Elements, queries and other operations on the values read, which stay mapped to their files, give what they give on values in memory, and changing a value read changes neither the file nor other readers.",
  over=["histories", "inputs"], quant="every vector of up to 2 (3) elements of small domains of 12 types with nulls, of lengths around pages up to 70000, lists of every pair of 33 kinds of values, tables and splayed tables of every pair of 18 columns, pairs of successive stores of one name, 1 to 3 tables sharing symbols with one or several writers; 18 operations and 14 queries on the mapped values",
  why="Mapped and enumerated values take other code paths than values in memory, and symbols get other identities only in another process with another history; tests read back in the process that wrote.",
  files=["core/binary.c", "core/unary.c", "core/io.c", "core/items.c", "core/serde.c"], mech=[("writing", "core/binary.c binary_set, core/io.c io_set_table_splayed"), ("mapping", "core/unary.c ray_get, core/io.c io_get_table_splayed"), ("enumerated and lazy columns", "core/items.c, core/rayforce.c at_ids")],
  check="store", technique="bounded-exhaustive enumeration of store and read histories over several real processes, differential against the values in memory", level="exploration",
  note=DRV + "Left out, because the code does not offer it for mapped values: reverse, sorting by an enumerated column, aggregating lists and counting enumerated columns by groups, negative or too large places of lazy lists."),
 dict(id="P16", title="Torn files, failing writes and cut journals never crash or pass as whole",
  statement="A store that reports success has stored everything, also when single writes are short, and one that cannot write everything reports an error. Whatever file is cut short at any byte, missing or has a damaged header, reading it gives an error or a value and never a crash, a file cut short is never read as a different value, and storing again makes everything good. A journal replays exactly the records that are whole, in order and once, up to the first torn one, and says how far it got.",
  over=["crash_points", "fault_sequences", "inputs"], quant="21 kinds of stored values and an enumerated column, every file of theirs cut at every byte (padding of pages sampled in quick) and every header byte set to 33 (256) values; every file of 3 splayed tables cut or missing; every write of 9 stores over 4 earlier states failing, short, short then failing, or the last one; journals of every sequence of up to 3 (4) of 7 records cut at every byte",
  why="Needs a crash or a full disk at one particular write; tests only read files that were written whole.",
  files=["core/unary.c", "core/binary.c", "core/io.c", "core/fs.c", "core/serde.c"], mech=[("checks before mapping", "core/unary.c ray_get"), ("write loop", "core/fs.c fs_fwrite"), ("journal", "core/io.c ray_read ray_write ray_hopen")],
  check="store", technique="exhaustive enumeration of crash points, torn writes and write faults on the real interpreter", level="fault_enumeration",
  note="Trusts harness/fault.c, which stands in for write(2). Stores are not atomic: after a crash in the middle of overwriting, a mixture of the old and the new contents is allowed if its header is consistent."),
]
PROPS += [
 dict(id="P08", title="Joins pair exactly the rows their definition says",
  statement="left-join gives every left row, in order, with the values of the first right row of equal keys (nulls, or the left value of a shared column, where there is none); inner-join gives the left rows that have one. asof-join takes the last right row of equal keys whose time is not later (right times ascending), and window-join1 aggregates the right rows of equal keys inside each row's closed interval, window-join also the one prevailing at its start. This holds for every supported type and number of keys, table length and number of executors; unsuitable arguments are errors.",
  over=["inputs", "configurations"], quant="all pairs of key sequences up to 3 x 3 rows over 2-3 values (null among them) for twelve key types, nine pairs and a triple of key types; thirteen types of value columns in either table or both; all small asof and window configurations for five time types, eight aggregates; tables of 20001 rows with 1, 3, 8 executors",
  why="Tests mostly count the rows of one small join; which right row is paired, nulls and shared columns per type, the bounds of windows and the split among executors need systematic combinations.",
  files=["core/join.c", "core/index.c", "core/aggr.c"], mech=[("row matching", "core/index.c index_left_join_obj index_inner_join_obj index_asof_join_obj index_window_join_obj"), ("assembling columns", "core/join.c select_column get_column"), ("aggregates over windows", "core/aggr.c AGGR_ITER INDEX_TYPE_WINDOW")],
  check="joins", technique=ENUM, level="exploration", note=DRV + "Left out: unsorted right tables of asof-join, windows whose end precedes their start, float null keys; left-join with an empty right table gives the left table unchanged."),
 dict(id="P14", title="CSV files give the table their text says, and tables survive them",
  statement="read-csv gives a table with one row per record and, in each column, the value its field's text denotes for the requested type: empty and malformed fields are null, quoted fields may hold separators, quotes and newlines, lines may end in LF or CRLF and the last one in neither, and the result does not depend on the length of the file or the number of executors. Files without the requested columns, records that are too short, unbalanced quotes and unknown types are errors. write-csv writes every table of supported types as text from which read-csv, or any other CSV reader, gets the same table back (names keep their letters and digits), with any separator.",
  over=["inputs", "configurations"], quant="all boundary texts of twelve types in each column position x separators x line ends; all texts up to 3 characters over {a , quote newline ;} in each position; quotes at offsets 0-69; 0 to 3000 and 16383 to 70001 lines with 1, 3, 8, 13 executors; all pairs of boundary values of two columns written and read back, also by an independent reader",
  why="Tests read one or two small files; field scanning has vector and scalar paths, seams between executors, and per-type parsers whose errors appear only for certain texts at certain places.",
  files=["core/io.c", "core/string.c"], mech=[("splitting lines", "core/io.c io_build_line_index"), ("fields", "core/io.c parse_csv_range parse_csv_lines"), ("writing", "core/io.c ray_write_csv csv_field_to_str")],
  check="csvfile", technique=ENUM, level="exploration", note=DRV + "Left out: names of columns other than alphanumeric ones, texts with characters outside of ASCII, floats with more than 17 digits."),
]
PROPS += [
 dict(id="P05", title="Taking, cutting and joining give exactly the elements they name",
  statement="count, first, last, at, take, reverse, filter, remove, split, concat, enlist, raze, where, til, bin and the like give, for vectors, strings, lists, dictionaries and tables of every element type, exactly the elements their definition names, in its order, with the type of the argument. Places outside give the null of the type, negative counts and places are counted from the end, empty arguments give empty results. The same holds for long vectors and any number of executors, and the argument keeps its value.",
  over=["inputs", "configurations"], quant="all vectors of up to 3 (4) elements over 3 boundary values of 13 types x all places and counts from beyond one end to beyond the other x all pairs of types and lengths for joining; dictionaries and tables of them; vectors of 16383 to 70001 elements with 1, 3, 8 executors",
  why="Each operation has a branch per type and per shape; offsets, negative counts, mixed types and copied sizes go wrong in one branch only.",
  files=["core/items.c", "core/compose.c", "core/vary.c", "core/rayforce.c"], mech=[("taking and selecting", "core/items.c ray_take ray_at ray_filter"), ("joining, cutting", "core/compose.c ray_concat ray_raze ray_remove ray_reverse"), ("elements and nulls", "core/rayforce.c at_idx at_ids push_raw")],
  check="listops", technique=ENUM, level="exploration", note=DRV),
 dict(id="P11", title="Programs mean what the evaluation rules say, in every context",
  statement="Bindings, assignments, calls of lambdas and of functions passed as values, conditions, sequences, early return, and/or, errors and handlers have the value and the effects, in the order, that the evaluation rules give. A program means the same at top level, in a compiled function, as an argument, in a recursive call, inside of a handler and under map or fold; after an error all bindings are as before the failing call.",
  over=["programs"], quant="all programs of a grammar of 16 forms up to depth 3 over three variables (second level reduced in quick), in 13 contexts: 345000 (2.2 million) evaluations, value and final values of three globals",
  why="Compiled and interpreted code are separate implementations; wrong stack or frame bookkeeping shows only in particular nestings of calls, errors and handlers.",
  files=["core/cc.c", "core/eval.c", "core/env.c", "core/cond.c", "core/error.c"], mech=[("compiler", "core/cc.c cc_expr"), ("virtual machine", "core/eval.c vm_eval"), ("interpreter and handlers", "core/eval.c eval try_obj")],
  check="evaluate", technique="bounded-exhaustive enumeration of programs run in the real interpreter, compared with a reference interpreter of the evaluation rules", level="exploration", note=DRV + "Programs whose meaning the rules leave open (return in places where it is only a value, variables never assigned) are left out."),
 dict(id="P12", title="Dates, times and timestamps and their texts denote each other",
  statement="The text of every date, time and timestamp is that of the Gregorian calendar, reading that text, as a literal or by a cast, gives the value back, and all documented ways to write one value read as the same. Malformed text is null or an error, never another value. Taking the date, time or parts of a timestamp, and differences between dates, follow the calendar, before and after 2000 and in leap years.",
  over=["inputs"], quant="every day of the years 1 to 9999, every second of a day and milliseconds around all units, timestamps around every day and unit boundary of 1710 to 2290, every single edit of sample texts",
  why="Calendar code goes wrong on certain days (leap centuries, before 2000, ends of eras) and no test enumerates the calendar.",
  files=["core/date.c", "core/time.c", "core/timestamp.c", "core/parse.c", "core/format.c"], mech=[("calendar", "core/date.c date_from_i32 date_into_i32"), ("time", "core/time.c"), ("timestamp", "core/timestamp.c timestamp_from_i64 timestamp_into_i64"), ("literals", "core/parse.c")],
  check="temporal", technique=ENUM + ", against Python's calendar", level="exploration", note=DRV),
 dict(id="P13", title="Casts keep the number, the text and the nulls of a value",
  statement="A cast between numeric and temporal types keeps the number (cut to the width of the type, truncated from floats) and turns null into null; a cast from text reads what the text denotes and a cast to text or symbol and back is the identity. Casting a vector or a list gives the casts of the elements, for every length and number of executors. Casts that are not offered are errors.",
  over=["inputs", "configurations"], quant="all ordered pairs of nine numeric types x boundary values of both, atoms and vectors; texts and symbols of all boundary values to and fro; lists of pairs of values of different types; vectors around the parallel threshold and pages with 1, 3, 8 executors",
  why="Every pair of types has its own branch; tests touch a few pairs with small positive numbers.",
  files=["core/rayforce.c", "core/compose.c", "core/guid.c"], mech=[("casts", "core/rayforce.c cast_obj"), ("as", "core/compose.c ray_cast_obj")],
  check="casts", technique=ENUM, level="exploration", note=DRV + "Left out: floats outside of the range of integers, casts of empty text inside of lists."),
 dict(id="P10", title="Reading any text ends with the value it denotes or an error",
  statement="Reading a text as a program ends with a value or an error for every text: it touches nothing outside of the text, gives back what memory it took, and white space and comments around it or between its parts do not change what it denotes. Literals of every type, names, strings with escapes, vectors, lists, dicts and functions denote exactly what is written, at every length and nesting, and literals out of range, bad escapes, mixed vectors and unbalanced brackets are errors.",
  over=["inputs"], quant="every text of up to 4 (5) characters out of 27 and of up to 4 (5) tokens out of 26; every literal of the families of checks/text.py (integers around every power of 2 and 10 with each suffix, decimals, all days of 70 (500) years, times, characters, escapes, names) alone and in lists and vectors; every list, sequence, dict and function of up to 2 (3) of 26 items between 6 separators; lengths up to 3000, nesting up to 200",
  why="Tests read well-formed programs; what goes wrong is a text that ends early, a bracket that does not match, an escape or keyword cut at an unusual place.",
  files=["core/parse.c", "core/string.c"], mech=[("reader", "core/parse.c parser_advance parse_list parse_vector parse_dict parse_string parse_char"), ("literals", "core/parse.c parse_number parse_timestamp parse_time, core/string.c i64_from_str f64_from_str")],
  check="text", technique="bounded-exhaustive enumeration of texts read by the real reader under AddressSanitizer, with an independent model of the values of literals and compositions", level="exploration",
  note="Trusts AddressSanitizer and the table of values in checks/text.py. Integers beyond 64 bits, names cut by terminators inside of quotes and text with NUL bytes are left out."),
 dict(id="P25", title="Timers fire when due, in order, as often as asked, until removed",
  statement="A timer set with an interval and a count calls its function with the current time at every multiple of the interval, that many times (for ever if the count is 0), never before it is due, in the order of due times whatever other timers exist, and the event loop sleeps exactly until the next one. Removing a timer by the id it was given, also from inside its own or another timer's function, stops that timer and no other; ids are never shared by two timers, a failing function does not disturb the others, and memory of finished timers is given back.",
  over=["histories", "schedules"], quant="every sequence of 4 (5) operations out of 22 (15 kinds of timers incl. functions that remove themselves, remove another, add another or fail; removals; waits that end exactly, early and late); 1-40 (90) timers in 5 orders of intervals with each pair of removals",
  why="No test sets a timer: the heap of timers goes wrong only after particular sequences of expirations and removals.",
  files=["core/chrono.c", "core/epoll.c"], mech=[("heap of timers", "core/chrono.c timer_up timer_down timer_push timer_pop timer_del"), ("firing and timeouts", "core/chrono.c timer_next_timeout, core/epoll.c poll_run")],
  check="timer", technique="explicit-state exploration of the real event loop in virtual time: every sequence of timer operations up to a depth, each followed on a model", level="model_checking", note="Trusts the model of timers in harness/timer.c and the wrapped clock and epoll_wait; functions take no time in it."),
 dict(id="P26", title="Higher-order functions apply each element in order, once",
  statement="map, map-left, map-right, fold, scan and their variants apply the function, a lambda or a builtin of one or two arguments, to every element exactly once, in order, and collect the results in their places; effects of the function happen in that order and the first error ends it. pmap gives the same value or error as map for every number of elements, executors and nestings.",
  over=["inputs", "configurations", "programs"], quant="9 higher-order functions x 12 to 20 functions x all argument shapes up to 3 (4) elements of 12 types and lists; lengths at every seam of chunks of pmap up to 3 chunks per executor with 1, 2, 3, 4, 8 executors; nesting in each other",
  why="The last chunk, the seams between chunks and the collecting of results of unlike types fail only at certain lengths and executor counts.",
  files=["core/iter.c", "core/pool.c", "core/eval.c"], mech=[("maps", "core/iter.c ray_map ray_map_left ray_map_right ray_pmap"), ("folds", "core/iter.c ray_fold ray_scan")],
  check="iterate", technique=ENUM, level="exploration", note=DRV),
 dict(id="P27", title="The line editor edits the line as the keys say and evaluates what was typed",
  statement="In an interactive session, after any sequence of keys the edited line, cursor, pending lines and history are what the keys say, the screen shows that line with the cursor in its place, and no key is lost or written outside of the line, at any length. Enter evaluates exactly the text typed, once, as soon as its brackets and strings are closed or cannot be closed any more; Up and Down walk the lines of the history and come back to the line being typed.",
  over=["histories"], quant="every sequence of up to 5 (6) keys out of 30 (letters, brackets, quotes, comments, escapes, a character of two bytes, cursor, word, delete, kill, history, completion, interrupt, keys without meaning) from 6 starts; full lines of 16 kinds",
  why="No test drives the editor: history position, saved line, pending input and cursor interact, and mistakes show only after particular sequences of keys.",
  files=["app/term.c", "app/repl.c"], mech=[("keys", "app/term.c term_read term_handle_escape term_handle_symbol term_handle_backspace"), ("history", "app/term.c hist_add hist_prev hist_next hist_save_current"), ("input", "app/term.c term_handle_return term_check_balance"), ("screen", "app/term.c term_redraw term_goto_position")],
  check="lineed", technique="explicit-state exploration of the real line editor: every sequence of keys up to a depth with visited states merged, each step compared with a model and with the screen", level="model_checking", note="Trusts the model and the one-row screen of harness/lineed.c; lines that wrap, ^N and ^P, and which word completion chooses are left out."),
 dict(id="P28", title="Patterns match exactly the strings their definition says",
  statement="like is true exactly if the string as a whole matches the pattern, where * stands for any sequence of characters, ? for any one character, [..] for one of the characters listed, [^..] for one not listed, and every other character for itself; a set that does not end matches nothing. This holds however often stars occur and wherever a match has to begin anew, for strings, lists of strings and columns of strings in memory, on disk and in partitions, and as a condition of queries.",
  over=["inputs"], quant="every string of up to 4 to 12 characters with every pattern of up to 5 to 9 (11) characters over 7 alphabets of letters, * ? [ ] ^ -, and bytes above 127; 29 patterns on lists, columns in memory, on disk and in partitions, and in 6 forms of queries",
  why="Matching with stars is a search: it goes wrong only where a first attempt fails after some characters and another one has to begin in the middle of them, which no test contains.",
  files=["core/string.c", "core/logic.c"], mech=[("matcher", "core/string.c str_match"), ("like", "core/logic.c ray_like")],
  check="like", technique="bounded-exhaustive enumeration of pairs of strings and patterns on the real code under AddressSanitizer against an automaton of the pattern", level="exploration", note="Trusts the automaton in harness/like.c. What patterns mean beyond the documentation (sets that do not end match nothing, [] nothing, [^] any character) is taken from the code."),
 dict(id="P29", title="Partitioned tables answer queries like one table of all their rows",
  statement="A table in partitions holds the rows of its partitions in order with the date of the partition as a further column. Selecting rows or columns of it by any condition made of comparisons of dates and columns, and, or, counting, and sum, min, max, avg, med and dev of the selected rows give exactly what the same query gives on the one table of all rows, and grouped by date under conditions on dates what it gives for each date, however many rows of each partition are selected: none, some or all.",
  over=["inputs", "configurations"], quant="all ways of cutting up to 3 (4) partitions of 1 or 2 rows and 7 others up to 6 (8) rows; for each of them every subset of rows as a condition, alone, with each comparison of dates by and and or, and in pairs; 10 column types with nulls; 1 and 3 executors",
  why="Conditions are evaluated partition by partition, with marks for partitions that match as a whole or not at all; a mistake shows only for certain mixtures of them, while tests select whole partitions.",
  files=["core/logic.c", "core/filter.c", "core/aggr.c", "core/cmp.c"], mech=[("conditions", "core/cmp.c cmp_map, core/logic.c ray_and_fn ray_or_fn"), ("selection", "core/filter.c filter_collect, core/ops.c ops_where"), ("aggregation", "core/aggr.c PARTED_MAP, core/math.c ray_sum ray_avg")],
  check="parted", technique="bounded-exhaustive enumeration of partitionings, subsets of rows and queries on the real interpreter, compared with the same query on the table in memory", level="exploration", note=DRV + "The table in memory (itself decided by P06) is the oracle; the rows are named independently. Left out: what partitioned tables do not offer (in, within and not on their columns, expressions of several columns, grouping by other columns), first and last, grouping by date under conditions on other columns, and partitions without rows."),
]
