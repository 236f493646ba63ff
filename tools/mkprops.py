#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

RT = "src/runtime/"; LB = "src/mosmllib/"; CP = "src/compiler/"; DL = "src/dynlibs/"
GCHOOK = "collection points: Alloc_small, alloc_shr, instruction poll, end of a minor collection (guard MOSML_SIM)"

p("C01", "Garbage collection is transparent to programs",
  "What a program computes and prints does not depend on when minor or major collections run, how large the heaps are, or where the operating system places memory. Values stay intact for as long as the program can reach them, in every primitive operation and in every library implemented in C, and equality, ordering and hashing of values are unaffected by collections.",
  ["schedules", "programs", "configurations"],
  "all programs over the core and Basis operations x all placements of minor collections, major slices and full collections x heap parameters x memory layouts",
  "The tests run each program once with the default 256k minor heap; most never trigger a single collection inside a primitive.",
  [RT+"memory.h", RT+"minor_gc.c", RT+"major_gc.c", RT+"memory.c", RT+"freelist.c", RT+"alloc.c", RT+"roots.c", RT+"interp.c", RT+"mosml.c", RT+"str.c", RT+"floats.c", RT+"compare.c", RT+"hash.c", RT+"callback.c", RT+"lexing.c", RT+"parsing.c", RT+"md5sum.c", DL+"munix/munix.c", DL+"intinf/intinf.c", DL+"mregex/mregex.c"],
  [("registration of C locals as roots", RT+"memory.h Push_roots"), ("write barrier", RT+"memory.h Modify, memory.c modify/initialize"), ("copying of the young generation", RT+"minor_gc.c minor_collection"), ("incremental mark and sweep", RT+"major_gc.c"), ("free list", RT+"freelist.c")],
  [("young generation", "young_start..young_end", RT+"minor_gc.c"), ("remembered set", "ref_table", RT+"minor_gc.c"), ("mark/sweep phase", "gc_phase, gray_vals, gc_sweep_hp", RT+"major_gc.c")],
  ["program output", "heap walk after a collection"], GCHOOK)

p("C02", "Unreachable memory is reclaimed and reused",
  "A program whose reachable data is bounded runs in bounded memory however long it runs: data that became unreachable is reused by later allocations, in every collection schedule. A full collection frees everything that was unreachable when it began, apart from a bounded amount promoted before it.",
  ["schedules", "programs"],
  "allocation patterns with a bounded live set x collection schedules x heap parameters",
  "No test measures the heap or runs long enough for a leak to matter.",
  [RT+"major_gc.c", RT+"freelist.c", RT+"gc_ctrl.c", RT+"memory.c"],
  [("pacing of the incremental collector", RT+"major_gc.c major_collection_slice"), ("coalescing of free blocks", RT+"freelist.c fl_merge_block"), ("heap growth", RT+"memory.c expand_heap")],
  None, ["heap size and free words reported at run time"], GCHOOK)

p("C03", "Weak pointers follow reachability exactly",
  "A weak pointer or weak array element that is read yields either the very object stored there, intact, or reports that it is gone; it is never reported gone while the object is reachable through an ordinary reference. Once the object is unreachable, it is reported gone after at most two further full collections, and a weak reference alone never keeps an object alive.",
  ["schedules", "programs", "histories"],
  "histories of set/get/copy/drop on weak arrays and references x collection schedules, including reads during every collector phase",
  "The tests of Weak look at one schedule with explicit full collections.",
  [RT+"major_gc.c", RT+"mosml.c", LB+"Weak.mlp", RT+"minor_gc.c"],
  [("clearing of weak fields between mark and sweep", RT+"major_gc.c weak_phase"), ("marking on read", RT+"mosml.c weak_sub"), ("weak array list", RT+"major_gc.c mark_slice")],
  None, ["Weak.sub, Weak.get, Weak.isweak"], GCHOOK)

p("C04", "Foreign resources are released exactly once, and only when unreachable",
  "A C resource owned by an ML value (a big integer, a compiled regular expression) stays valid while the value is reachable, is released exactly once after the value has become unreachable, and is never used after release. A program that keeps a bounded number of such values alive holds a bounded amount of C memory.",
  ["schedules", "programs", "fault_sequences"],
  "histories of creating, copying, using and dropping such values x collection schedules x allocation failures",
  "The tests never run a collection while such values die, and cannot see a double free or leak.",
  [DL+"intinf/intinf.c", DL+"intinf/IntInf.sml", DL+"mregex/mregex.c", RT+"alloc.c", RT+"major_gc.c"],
  [("finalisation function called by the sweeper", RT+"major_gc.c sweep_slice"), ("finalised blocks", RT+"alloc.c alloc_final")],
  None, ["calls of malloc/free made by the C libraries", "results of operations"], GCHOOK)

p("C05", "Output streams deliver exactly the bytes written, in order",
  "After a successful flush or close, what the operating system received on an output stream is exactly the concatenation of everything written to it, however the system splits, delays or interrupts the writes. At every earlier moment it is a prefix of that, and streams do not affect one another.",
  ["fault_sequences", "inputs", "histories"],
  "operation sequences on several text, binary and standard streams x sizes around the buffer size x short writes and interrupted system calls",
  "The tests write small amounts to disk files, where every write completes at once.",
  [RT+"io.c", LB+"TextIO.sml", LB+"BinIO.sml", LB+"BasicIO.sml", LB+"Nonstdio.sml"],
  [("buffered output", RT+"io.c putblock, flush"), ("retry loop", RT+"io.c really_write")],
  [("channel buffer", "curr, max, offset", RT+"io.h")], ["bytes accepted by write(2)"])

p("C06", "A failed write is reported, and nothing is duplicated or reordered after it",
  "When the system refuses output (disk full, I/O error, broken pipe), the operation that needed it raises an exception, and no bytes the system has already accepted are ever sent a second time. The program can go on: the bytes on the device remain a subsequence, without repetition or reordering, of the bytes written, other streams are unaffected, and closing the stream once the device recovers delivers what is still buffered and releases the descriptor.",
  ["fault_sequences", "histories"],
  "operation sequences x positions of ENOSPC, EIO, EPIPE and partial writes followed by an error x recovery",
  "No test makes a write fail.",
  [RT+"io.c", LB+"TextIO.sml", LB+"BasicIO.sml"],
  [("error propagation", RT+"io.c really_write, sys_error"), ("buffer state after failure", RT+"io.c flush, putblock")],
  None, ["bytes accepted by write(2)", "exceptions seen by the program", "open descriptors"])

p("C07", "Input streams deliver exactly the bytes of the source, in order",
  "Whatever way the system splits, delays or interrupts reads, the results of input, input1, inputN, inputLine, inputAll, inputNoBlock, lookahead, endOfStream and scanStream are those defined by the sequence of bytes of the source: nothing is lost, duplicated or invented, peeking consumes nothing, and scanStream consumes exactly what the scanner examined. End of stream is reported only at the end, and a non-blocking read reports 'nothing yet' only when nothing is available, leaving the stream and its blocking mode unchanged.",
  ["fault_sequences", "inputs", "histories"],
  "operation sequences on files, pipes and standard input x chunkings of the data x EINTR, EAGAIN and delays x buffer boundaries",
  "The tests read small files, in which each read returns everything.",
  [RT+"io.c", LB+"TextIO.sml", LB+"BinIO.sml", LB+"BasicIO.sml", LB+"Nonstdio.sml"],
  [("refill and block reads", RT+"io.c refill, getblock, really_read"), ("line and stream functions", LB+"TextIO.sml")],
  None, ["values returned by the stream functions"])

p("C08", "Seeking and positions behave like a random-access file",
  "On binary channels, reported positions and lengths, and all data read or written after a seek in either direction, are those of a random-access file, whatever the buffering and however the system splits reads and writes. In particular data written before a seek, flush or close is on the device afterwards, and overwriting earlier bytes changes exactly those bytes.",
  ["histories", "fault_sequences"],
  "sequences of seek, read, write, flush and position queries, in and out of the buffered window x short reads and writes, interrupts",
  "Only the compiler uses these operations, in one fixed pattern.",
  [RT+"io.c", LB+"Nonstdio.sml", LB+"BasicIO.sml"],
  [("seek inside the buffer", RT+"io.c seek_in, seek_out"), ("flush", RT+"io.c flush")],
  None, ["pos_in, pos_out, in_stream_length", "file content"])

p("C09", "A user interrupt is delivered exactly once and leaves the program consistent",
  "When the program asked for interrupts to be caught, each interrupt signal raises the Interrupt exception once, promptly, at whatever point the program is, including while it blocks in input; repeated signals before delivery may merge. Afterwards data structures, lazy suspensions, streams and the heap are as some prefix of the interrupted computation left them, and no second exception follows from the same signal.",
  ["schedules", "programs", "histories"],
  "arrival of the signal at every instruction, collection, and system call boundary of a program",
  "No test sends a signal.",
  [RT+"sys.c", RT+"signals.c", RT+"interp.c", RT+"io.c", RT+"fail.c", LB+"Susp.sml"],
  [("deferred and immediate delivery", RT+"signals.c execute_signal, enter_blocking_section"), ("poll", RT+"interp.c process_signal"), ("handler", RT+"sys.c intr_handler")],
  None, ["exceptions seen by the program", "subsequent behaviour"], "interpreter poll and blocking section entry (guard MOSML_SIM)")

p("C10", "Exit runs exit actions once, flushes, terminates, and reports the right status",
  "Process.exit, BasicIO.exit, normal completion and an uncaught exception all terminate the program, even if standard output or an exit action fails, with the promised status (or a failure status if standard output could not be delivered); Process.terminate does so without running actions. Registered exit actions run exactly once each, most recent first, and everything written to the standard streams before exit that the system accepts is delivered.",
  ["fault_sequences", "histories", "programs"],
  "sets of exit actions (which may raise, write, register further actions or exit themselves) x ways to exit x write failures on standard streams",
  "The tests exit normally with working standard output.",
  [LB+"Process.mlp", LB+"BasicIO.sml", RT+"sys.c", RT+"main.c", RT+"misc.c", LB+"General.fke"],
  [("exit action list", LB+"Process.mlp atExit, exit"), ("final flush", RT+"sys.c sys_exit, misc.c fatal_error")],
  None, ["exit status", "bytes on stdout and stderr"])

p("C11", "Stored values read back equal, and damaged input is refused without harm",
  "Any storable value written to a channel is read back structurally equal, with the same sharing, after any number of collections and however the system splits the I/O. A read that fails or is cut short (end of file, I/O error, interrupt) raises an exception and leaves the heap intact, and a write that fails leaves the program able to go on.",
  ["inputs", "schedules", "fault_sequences"],
  "values of every shape (sharing, strings, reals, big blocks, deep nesting) x chunkings x collection schedules x truncation and error points",
  "The tests store a few small values in healthy files; no truncated or failing read is tried.",
  [RT+"extern.c", RT+"intern.c", RT+"externcp.c", RT+"interncp.c", RT+"intext.h", LB+"Nonstdio.sml"],
  [("object table while writing", RT+"extern.c"), ("allocation and adjusting of the read block", RT+"intern.c")],
  None, ["values read", "heap walk"], GCHOOK)

p("C12", "Running out of memory raises an exception or stops cleanly, never corrupts",
  "If the system refuses memory at any moment, the program either continues correctly, receives Out_of_memory from the operation that needed it, or stops with the out-of-memory message; it never computes a wrong result or touches memory it does not own. A program that handles the exception and drops data can go on with all its other data intact.",
  ["fault_sequences", "programs", "schedules"],
  "programs x every allocation from the system failing, once or persistently",
  "No test makes an allocation fail.",
  [RT+"memory.c", RT+"minor_gc.c", RT+"major_gc.c", RT+"stacks.c", RT+"alloc.c", RT+"intern.c", RT+"extern.c"],
  [("heap growth failure", RT+"memory.c expand_heap, alloc_shr"), ("guarded copying", RT+"minor_gc.c minor_collection"), ("stack growth failure", RT+"stacks.c realloc_stack")],
  None, ["program output, exit status"], GCHOOK)

p("C13", "Deep recursion grows the stack transparently",
  "The evaluation stack grows as needed without affecting results: calls, exception handlers, callbacks and interrupts behave identically wherever the stack has to be enlarged. Recursion beyond the limit ends in Out_of_memory, which can be handled, after which the program continues correctly.",
  ["programs", "schedules", "fault_sequences"],
  "recursion depth around every enlargement x exceptions and handlers on the stack x collections x failing allocation",
  "The tests recurse to small depths only and never reach the limit.",
  [RT+"stacks.c", RT+"interp.c", RT+"roots.c"],
  [("relocation of stack and handler chain", RT+"stacks.c realloc_stack"), ("stack check on calls", RT+"interp.c apply")],
  None, ["program output"], GCHOOK)

p("C14", "Child processes: data passes intact, reaping reports the child's status",
  "Text written to a child started by Unix.execute arrives complete and in order, as does the child's output, and reaping closes both streams, waits for that child and no other, and returns its status, with any number of children alive. A failure to create the child process or its pipes is reported as an exception and leaves no descriptor or process behind, a command that cannot be executed yields an unsuccessful status, and reaping cannot deadlock against a child waiting for the end of its input.",
  ["schedules", "fault_sequences", "histories"],
  "interleavings of parent and children x pipe sizes and chunking x failing pipe, fork, exec and wait calls x order of reaping",
  "The test of Unix runs one or two well-behaved children.",
  [LB+"Unix.sml", DL+"munix/munix.c"],
  [("pipe and fork plumbing", DL+"munix/munix.c unix_execute"), ("waiting", DL+"munix/munix.c unix_waitpid, Unix.sml reap")],
  None, ["bytes received by either side", "status returned", "open descriptors"])

p("C15", "Sockets deliver byte streams and datagrams faithfully",
  "Over connected stream sockets the receiver gets exactly the bytes the sender's calls reported as sent, in order, however the network splits or delays them, and learns of the end of the stream; datagrams arrive whole, with the true sender address, or not at all. A send or receive touches exactly the requested part of the buffer and returns the true count, and failures raise an exception (Fail with the name of the error) and leave the program and its buffers intact.",
  ["schedules", "fault_sequences", "histories"],
  "several client and server programs x delivery orders, delays, splits, loss and duplication of datagrams x resets, refused connections, interrupted calls",
  "There is no automatic test of sockets.",
  [DL+"msocket/msocket.c", LB+"Socket.sml", LB+"Socket.sig"],
  [("bindings", DL+"msocket/msocket.c"), ("bounds checks", LB+"Socket.sml")],
  None, ["buffers, counts and addresses returned"])

p("C16", "Socket.select reports exactly the sockets that are ready",
  "Socket.select returns, for each of its three sets separately, exactly those of the given sockets that are ready in that sense, in the order given; it waits no longer than the timeout and does not return early with nothing. An interrupted or failing wait raises an exception.",
  ["schedules", "fault_sequences", "inputs"],
  "sets of sockets in every combination of readiness x timeouts x interruptions",
  "There is no test of select.",
  [DL+"msocket/msocket.c", LB+"Socket.sml"],
  [("fd_set conversion", DL+"msocket/msocket.c msocket_select")],
  None, ["result of Socket.select", "simulated clock"])

p("C17", "GDBM tables are finite maps that survive closing and program crashes",
  "Operations on an open table behave like a finite map from strings to strings, with the documented exceptions, for arbitrary byte strings; iteration visits each entry once. What has been stored is there after closing and reopening, withtable closes the table also when the function raises, at most one writer or several readers have a table open, and failures of the database raise GdbmError instead of returning wrong data.",
  ["histories", "fault_sequences", "schedules"],
  "histories of map operations by one or two processes x failing I/O and memory x collections x process crashes between operations",
  "The tests run one healthy history without I/O failures.",
  [DL+"mgdbm/mgdbm.c", LB+"Gdbm.sml"],
  [("datum conversion", DL+"mgdbm/mgdbm.c"), ("closing on exceptions", LB+"Gdbm.sml withtable")],
  None, ["values returned"])

p("C18", "Polymorphic GDBM tables are maps on values",
  "A polymorphic GDBM table behaves like a finite map from values to values: what is stored under a key is returned, structurally equal, for any equal key, after any collections and after closing and reopening. Failing databases and entries that were cut short raise an exception and never damage the heap.",
  ["histories", "schedules", "fault_sequences"],
  "histories of map operations over structured keys and values x collection schedules x memory failures",
  "The repository's tests leave this module out of the stable set or try a few values only.",
  [LB+"Polygdbm.sml", RT+"mosml.c", RT+"extern.c", RT+"intern.c"],
  [("value to string conversion", RT+"mosml.c string_mlval, mlval_string")],
  None, ["values returned", "heap walk"])

p("C19", "A failing compilation or link never leaves a usable wrong output behind",
  "If compiling or linking fails, for whatever reason (program error, full disk, I/O error, interrupt, exhausted memory), the tool says so and ends with a failure status, and the output it was producing is absent or is refused by every later use. If it reports success, the output is complete and correct.",
  ["fault_sequences", "crash_points", "inputs"],
  "source programs x an I/O error, disk-full condition, memory failure or interrupt at every system call of the compiler and linker",
  "The tests compile on a healthy disk.",
  [CP+"Compiler.sml", CP+"Emit_phr.sml", CP+"Link.sml", CP+"Mainc.sml", CP+"Mainl.sml", CP+"Emitcode.sml"],
  [("removal of partial output", CP+"Compiler.sml compileUnitBody, Link.sml link"), ("index written last", CP+"Emit_phr.sml end_emit_phrase")],
  None, ["exit status", "files left behind", "behaviour of the linked program"])

p("C20", "Units changed or damaged between builds are never linked inconsistently",
  "Killing the compiler or linker at any instant, or recompiling any subset of units, leaves a state in which linking or loading either succeeds with code compiled against the interfaces actually present, or is refused with an error naming the unit. Rebuilding everything from the sources always recovers and gives the same result as a clean build.",
  ["crash_points", "histories"],
  "histories of editing, compiling, crashing and linking a set of interdependent units x every crash point",
  "The tests build each unit once from scratch.",
  [CP+"Link.sml", CP+"Compiler.sml", CP+"Units.sml", CP+"Smltop.sml", CP+"Emit_phr.sml"],
  [("signature stamps", CP+"Units.sml, Link.sml check_file"), ("table position written last", CP+"Emit_phr.sml")],
  None, ["linker and loader verdicts", "output of the linked program"])

p("C21", "The bytecode loader runs complete programs only",
  "Starting a program from a file that is complete runs it; a file that is truncated anywhere, is not a bytecode file, or cannot be read is refused with a message and failure status, without running any part of it. Neither short reads nor the absence of memory make a program start in a damaged state.",
  ["fault_sequences", "inputs", "crash_points"],
  "truncation lengths x I/O errors and memory failures during start-up",
  "The tests start intact executables only.",
  [RT+"main.c", RT+"intern.c", RT+"fix_code.c", RT+"expand.c"],
  [("trailer check", RT+"main.c read_trailer, attempt_open"), ("length check", RT+"main.c")],
  None, ["exit status, output"])

p("C22", "The interactive system survives errors and interrupts with its bindings intact",
  "In the interactive system an input phrase that fails to parse, type-check or evaluate, is interrupted, or meets an I/O error or exhausted memory affects nothing but itself: earlier bindings keep their types and values and later phrases work. A phrase that succeeds takes effect completely, and used files that fail are closed.",
  ["histories", "schedules", "fault_sequences"],
  "sequences of good and bad phrases, use and load commands x interrupts at any instant x chunking of the input x I/O errors",
  "The tests run fixed scripts without interrupts or I/O errors.",
  [CP+"Maint.sml", CP+"Smltop.sml", CP+"Exec_phr.sml", CP+"Load_phr.sml", CP+"Rtvals.sml", RT+"meta.c", RT+"interp.c"],
  [("phrase-wise commit with interrupts masked", CP+"Exec_phr.sml updateCurrentState"), ("recovery loop", CP+"Maint.sml main_loop"), ("restoring input and tables", CP+"Smltop.sml")],
  None, ["output of the interactive system"])

p("C23", "Clocks, timers and sleeping tolerate jumps and interruptions",
  "Time and timer functions return exactly what the system clocks say, whatever their value and however they jump, and readings of CPU and real timers differ by exactly what the clocks advanced, with garbage collection time a part of the user time. Sleeping lasts at least the requested time unless an interrupt ends it, which happens at once, and is immediate for non-positive times. Conversion between times and dates follows the calendar; a time that has no date raises Date.",
  ["schedules", "fault_sequences", "inputs"],
  "clock values, jumps forward and backward, sub-second boundaries x sleep durations x interrupted sleeps",
  "The tests look at one instant of the real clock.",
  [RT+"mosml.c", RT+"runtime.c", LB+"Time.sml", LB+"Timer.sml", LB+"Date.sml", LB+"Process.mlp"],
  [("conversion of clock values", RT+"mosml.c sml_getrealtime, sml_getrutime"), ("sleep", RT+"mosml.c sml_sleep / Process.sml")],
  None, ["values returned", "simulated clock"])

p("C24", "File system operations have their documented effect or raise SysErr",
  "Each FileSys and directory operation either has exactly its documented effect on the file system and returns the truth, or raises SysErr carrying the system's error and has no effect; no operation leaks a descriptor or affects other files. Directory listing yields each entry that exists throughout the listing exactly once, excluding the two special entries.",
  ["histories", "fault_sequences"],
  "histories of operations on a directory tree with links, unreadable directories and odd names x failing system calls, exhausted descriptors and orders of directory entries",
  "The tests try a handful of operations on a healthy file system.",
  [LB+"FileSys.mlp", RT+"mosml.c", RT+"sys.c", DL+"munix/munix.c"],
  [("bindings", RT+"mosml.c sml_*"), ("error conversion", RT+"sys.c sys_error")],
  None, ["results and exceptions", "file system contents"])

p("C25", "Callbacks between ML and C preserve values, exceptions and the stack",
  "C code can call ML functions and be called from them, nested to any depth: arguments and results arrive unchanged, an exception raised inside passes through the C frames to the ML handler that encloses them, and both stacks are as before afterwards. Registered values are found under their name until unregistered, and always denote the current, intact value.",
  ["schedules", "programs", "histories"],
  "nestings of ML and C calls x exceptions at each level x collections x stack growth",
  "The tests call C once or twice without nesting, exceptions or collections.",
  [RT+"callback.c", RT+"interp.c", LB+"Callback.sml", RT+"fail.c"],
  [("re-entrant interpreter", RT+"interp.c callback*, interprete"), ("registry", RT+"callback.c")],
  None, ["values and exceptions seen on either side"], GCHOOK)

p("C26", "Compiling the same source gives the same program",
  "The code, interface and messages produced by the compiler and linker depend on the source text and options alone: not on collection schedule, memory layout, chunking of the input, clock or environment. In particular no input size or buffer boundary changes how a source file is read.",
  ["schedules", "configurations", "inputs"],
  "source files with tokens at every offset of the read buffer x chunkings x collection schedules x layouts",
  "The tests compile each file once in one environment.",
  [RT+"lexing.c", LB+"Lexing.sml", CP+"Compiler.sml", CP+"Lexer.lex", CP+"Emit_phr.sml", RT+"parsing.c"],
  [("lexer refill", LB+"Lexing.sml"), ("lexer engine", RT+"lexing.c")],
  None, ["output files"], GCHOOK)

p("C27", "Running external commands reports status and cleans up after itself",
  "Process.system returns success exactly if the command ran and succeeded, and Mosml.run passes the given input to the command and returns its complete output with success or failure accordingly. Temporary files it creates are distinct from every existing file and are removed in every case, and failures of the system are reported as failures, not as output.",
  ["fault_sequences", "histories", "inputs"],
  "commands x exit statuses and signals x failing temporary files, writes, reads and fork",
  "The tests run one or two commands on a healthy system.",
  [LB+"Mosml.mlp", LB+"Process.mlp", RT+"sys.c", RT+"mosml.c"],
  [("temporary files", LB+"Mosml.mlp run"), ("status", RT+"sys.c sml_system")],
  None, ["result returned", "files left behind"])

p("C28", "Loading C libraries fails cleanly and calls reach the right function",
  "Opening a C library or looking up a symbol either succeeds or raises Fail with the system's message, and leaves the program able to go on; a call through a resolved symbol reaches that function with the arguments unchanged and returns its result, for every number of arguments supported. A library that has been closed can be opened again.",
  ["fault_sequences", "histories", "schedules"],
  "histories of open, lookup, call and close x failures of the dynamic linker x collections",
  "The tests open libraries that exist.",
  [RT+"dynlib.c", LB+"Dynlib.sml", RT+"interp.c"],
  [("bindings", RT+"dynlib.c"), ("foreign call primitives", RT+"interp.c / Dynlib.sml app1..app5")],
  None, ["values and exceptions"])

p("N01", "The type system is sound",
  "A program accepted by the compiler never applies an operation to a value of the wrong type, and principal types are reported.",
  ["programs"], "all source programs", "The tests contain a finite number of programs.",
  [CP+"Elab.sml", CP+"Types.sml", CP+"Sigmtch.sml"], [("type inference", CP+"Elab.sml")])
p("N02", "Compiled code implements the semantics of the source program",
  "In a fault-free run, the compiled program evaluates as the Definition of Standard ML prescribes, including pattern matching, modules and exceptions.",
  ["programs"], "all source programs", "The tests contain a finite number of programs.",
  [CP+"Front.sml", CP+"Match.sml", CP+"Back.sml", CP+"Emitcode.sml", RT+"interp.c"], [("translation", CP+"Front.sml")])
p("N03", "Arithmetic detects overflow and Basis functions satisfy their laws",
  "Integer, word and real operations give the mathematically right result or raise Overflow, Div or Domain; strings, lists, arrays, maps, sets and conversions satisfy their documented laws.",
  ["inputs"], "all arguments", "The tests try sample arguments.",
  [LB+"Int.mlp", LB+"Word.mlp", LB+"Real.sml", LB+"Splaymap.sml", LB+"Binarymap.sml", LB+"StringCvt.sml", RT+"ints.c", RT+"floats.c"], [("primitives", RT+"interp.c, floats.c, ints.c")])
p("N04", "Generated lexers and parsers recognise the specified language",
  "mosmllex and mosmlyac produce analysers that implement longest match and the grammar given, with the documented conflict resolution.",
  ["inputs", "programs"], "all specifications and inputs", "The tests build a few analysers.",
  ["src/lex", "src/mosmlyac"], [("table construction", "src/lex, src/mosmlyac")])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
