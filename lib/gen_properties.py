#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I = "polytracker/include/taintdag/"
S = "polytracker/src/taintdag/"

prop("C01", "Stored taint words are lossless",
 "Every taint the runtime can hold - a byte of a source (source number up to 255, offset below 2^54), the union of two labels, or a range of labels, each with or without the affects-control-flow mark - is stored as a 64-bit word that decodes back to exactly the same taint. Setting the mark changes nothing else about the word, and comparing words while ignoring the mark ignores nothing else.",
 ["inputs"], "every source number, offset, label pair below 2^31 and mark",
 "The unit tests round-trip a few hand-picked values; the property is about all 2^62 payloads and the boundaries between the bit fields.",
 [I+"encoding.h", S+"encoding.cpp", I+"taint.h"],
 [("encode/decode", S+"encoding.cpp")])

prop("C02", "The Python reader decodes stored taint words as the runtime does",
 "For every 64-bit taint word the runtime can write, the Python reader reports the same kind of taint, the same source number, offset, labels and affects-control-flow mark as the runtime's own decoder. Label 0 is always reported as untainted data.",
 ["inputs"], "all 64-bit words the runtime can store",
 "The Python tests read one recorded file; the two decoders are written twice in two languages and agree only if all bit fields agree for every word.",
 ["polytracker/taint_dag.py", S+"encoding.cpp"],
 [("decode_node", "polytracker/taint_dag.py"), ("decode", S+"encoding.cpp")])

prop("C03", "A union label stands for exactly the bytes of both operands",
 "Combining two labels yields a label whose set of input bytes is exactly the union of the sets of its operands: nothing is lost and nothing is added, whichever of them are single bytes, unions or ranges and whatever their order. The result refers only to labels that existed before it.",
 ["inputs", "histories"], "all pairs of labels over all well-formed label tables",
 "The unit tests check a dozen label pairs; the case analysis over sources, unions and ranges has adjacency and containment cases for every relative position of the labels.",
 [I+"union.h", I+"labels.h"],
 [("union computation", I+"union.h"), ("union_taint", I+"labels.h")])

prop("C04", "Label history is append-only and existing labels never change meaning",
 "Whatever sequence of reads, unions and branch marks a program performs, a label once handed out keeps its meaning for the rest of the run, new labels are numbered consecutively, and a label that is reused instead of being created denotes exactly the taint that was requested. Combining a label with itself yields that label, and asking for the same combination again right away yields the same label again.",
 ["histories"], "all sequences of label operations up to the bound, over arbitrary prior tables",
 "Tests check single operations on an almost empty table; reuse of recent labels depends on what the table already holds.",
 [I+"labels.h", I+"section.h"],
 [("duplicate reuse", I+"labels.h"), ("append", I+"section.h")])

prop("C05", "A tainted branch marks exactly the taints it depends on",
 "When a branch condition carrying a label is reported, that label and every label and input byte it is derived from is marked as affecting control flow, and no other label is marked. The marking ends for every label structure and changes nothing but the marks.",
 ["inputs", "histories"], "all label tables within the bound with marks produced by earlier branches",
 "The tests mark a handful of labels; shared sub-structure, already marked ancestors and wide ranges that overflow the inline work queue are what matters.",
 [I+"labels.h", I+"labeldeq.h"],
 [("affects_control_flow", I+"labels.h"), ("work queue", I+"labeldeq.h")])

prop("C06", "Each input byte gets its own label naming its source and offset",
 "Tainting n bytes read from a source at some offset creates n consecutive fresh labels, the i-th of which denotes exactly that source at offset+i, tags the i-th byte in memory with it, and records precisely these labels as input-byte labels. No other label, memory byte or record changes, and when the label space is exhausted the run stops instead of recording something else.",
 ["inputs", "histories"], "all sources, offsets, lengths and fill levels of the label store",
 "Tests create one or two ranges in an empty file; offsets, lengths and near-full stores are unbounded.",
 [I+"labels.h", I+"bitmap_section.h", S+"polytracker.cpp"],
 [("create_source_labels", I+"labels.h"), ("source_taint", S+"polytracker.cpp")])

prop("C07", "Section storage is handed out once, in bounds, under any interleaving",
 "Every successful allocation from a section of the output lies inside the section, overlaps no other allocation, keeps its alignment and is counted in the section size; an allocation that does not fit is refused without any effect. This holds for every sequence of sizes and for every interleaving of concurrent writers.",
 ["inputs", "histories", "schedules"], "all allocation sizes including ones that wrap around, all interleavings of the writers within the bound",
 "Unit tests allocate a few entries from one thread.",
 [I+"section.h"],
 [("write", I+"section.h"), ("construct", I+"section.h")])

prop("C08", "Output sections are disjoint, aligned, inside the file and correctly listed",
 "The sections of an output file are placed at offsets that respect their alignment, do not overlap each other or the header, and lie inside the file. The header lists for each section its kind, alignment, true offset and, once tracking has ended, the number of bytes actually used.",
 ["configurations", "inputs"], "all combinations of section sizes and alignments tried and all amounts of data written",
 "Tests use one layout and look at a few header fields; layouts with other alignments are never laid out.",
 [I+"outputfile.h", I+"storage.h"],
 [("do_allocation", I+"outputfile.h"), ("size update", I+"outputfile.h")])

prop("C09", "Stored names read back exactly",
 "Any sequence of names stored in an output file - including empty ones, ones of odd length and ones with arbitrary bytes - can be read back by offset and by iteration, in the runtime and in the Python reader, with exactly the same bytes and in the same order. A name that cannot be stored is refused and leaves what was stored before intact.",
 ["inputs", "histories"], "all byte contents and lengths up to the bound, all sequences of up to a few names",
 "Tests store a few short ASCII names.",
 [I+"string_table.h", "polytracker/taint_dag.py"],
 [("add_string/from_offset/iterator", I+"string_table.h"), ("TDStringSection", "polytracker/taint_dag.py")])

prop("C10", "The input-label bitmap contains exactly the bits that were set",
 "After any sequence of single-bit and range updates, from any number of threads in any interleaving, a bit of the bitmap is set if and only if some update covered it, the recorded size covers exactly the words up to the last set bit, and the Python reader enumerates exactly the set bits.",
 ["inputs", "histories", "schedules"], "all positions, range lengths, prior contents and interleavings within the bound",
 "Tests set a few ranges in one thread; word boundaries, partial words and concurrent updates of one word are what can go wrong.",
 [I+"bitmap_section.h", "polytracker/taint_dag.py"],
 [("set/set_range/is_set", I+"bitmap_section.h"), ("TDSourceIndexSection", "polytracker/taint_dag.py")])

prop("C11", "The control-flow log reads back as the events that were logged",
 "Every sequence of function-entry, function-exit and tainted-branch events that the runtime logs, for any function number and label, is returned by the Python reader as the same events in the same order, with the call stack that the entries and exits imply.",
 ["inputs", "histories"], "all 32-bit function numbers and labels, all event sequences up to the bound",
 "Unit tests write a few events with small numbers and never read them back with the real reader.",
 [I+"control_flow_log.h", "polytracker/taint_dag.py"],
 [("varint_encode", I+"control_flow_log.h"), ("TDControlFlowLogSection", "polytracker/taint_dag.py")])

prop("C12", "A function name keeps one number for the whole run",
 "Registering a function name for the first time assigns it the next free number and stores its name; registering the same name again returns the same number and adds nothing, and different names never share a number - for every sequence of names, for names whose caller-owned storage is later reused, and under concurrent registration. Each entry and exit is logged once, in order, with that number.",
 ["inputs", "histories", "schedules"], "all sequences of up to a few names of bounded length and all interleavings of two registrations",
 "Tests register three literal names from one thread.",
 [S+"fnmapping.cpp", I+"fnmapping.h", S+"fntrace.cpp", I+"fntrace.h"],
 [("add_mapping", S+"fnmapping.cpp"), ("log_fn_event", S+"fntrace.cpp")])

prop("C13", "Reads are attributed to the file last opened on the descriptor",
 "Data read from or written to a descriptor is attributed to the most recently opened source with that descriptor, and to none if there is none. Where the position is unknown, consecutive reads (and, independently, writes) of one source are given consecutive offsets starting at zero, without gaps or overlaps, also under concurrent use of different sources.",
 ["histories", "inputs", "schedules"], "all sequences of opens and transfers within the bound, all descriptors and lengths",
 "Tests open one or two files; descriptor reuse and interleaved streams are not covered.",
 [I+"taint_source.h", I+"stream_offset.h", S+"polytracker.cpp"],
 [("mapping_idx", I+"taint_source.h"), ("increase", I+"stream_offset.h"), ("open_file", S+"polytracker.cpp")])

prop("C14", "Input calls taint exactly the bytes that were delivered",
 "Each intercepted input call (read, pread, fread, fgetc family, fgets, getdelim, mmap, recv, recvfrom) returns what the real call returned and taints exactly the bytes it delivered (for fgets the string, for mmap the mapped length, for fread the whole items), at the file position they came from. On failure, end of file or a descriptor that is not tracked, no label is created and no byte is tainted.",
 ["inputs", "fault_sequences"], "all return values, errors, positions and sizes of the underlying call",
 "No test in this build calls the interception functions; they depend on every possible result of the underlying call.",
 ["polytracker/src/taint_sources/taint_sources.cpp", S+"util.cpp", S+"polytracker.cpp"],
 [("__dfsw_ input wrappers", "polytracker/src/taint_sources/taint_sources.cpp")])

prop("C15", "Output calls record exactly the tainted bytes that were written",
 "Each intercepted output call (write, fwrite, putc, fputc, send) returns what the real call returned and records, for each byte that was actually written and is tainted, one sink entry with its output offset, its label and the right sink - and nothing else. Failed and partial writes record only what was written, and running out of space for entries is never silent.",
 ["inputs", "fault_sequences"], "all return values, errors, positions, labels and sizes",
 "No test in this build calls the interception functions.",
 ["polytracker/src/taint_sources/write_taints.cpp", S+"polytracker.cpp", I+"sink.h"],
 [("__dfsw_ output wrappers", "polytracker/src/taint_sources/write_taints.cpp"), ("taint_sink", S+"polytracker.cpp")])

prop("C16", "Transfer lengths and offsets are valid exactly when meaningful",
 "A transfer length derived from a call's result is usable exactly when at least one byte was transferred and then equals the number of bytes; an offset is usable exactly when the position is known. A product of sizes or an offset that cannot be represented stops the run instead of being truncated.",
 ["inputs"], "all 64-bit sizes, counts, return values and offsets, all strings up to the bound",
 "Tests try a few values.",
 [S+"util.cpp", I+"util.h"],
 [("Length", S+"util.cpp"), ("Offset", S+"util.cpp")])

prop("C17", "Instrumentation hooks never alter the program being tracked",
 "Hooks inserted into the program return the program's own value unchanged, whether or not tracking has started, and before tracking has started they record nothing. Untainted conditions record nothing and tainted ones are recorded once with their label and function.",
 ["inputs", "histories"], "all condition values, labels and function numbers, before and after start-up",
 "No test calls the hooks.",
 ["polytracker/src/polytracker/polytracker.cpp"],
 [("__polytracker_ hooks", "polytracker/src/polytracker/polytracker.cpp")])

prop("C18", "Shadow memory maps each program byte to its own label",
 "Setting, adding, reading and combining labels of a memory range affects and reports exactly the bytes of that range: reading a range gives the union of the labels of its bytes, untainted bytes contribute nothing, and no two program bytes share a label cell.",
 ["inputs"], "all addresses of the application range, labels and ranges up to the bound",
 "The sanitizer's unit tests that run here do not include the data-flow runtime.",
 ["polytracker/src/compiler-rt/lib/dfsan/dfsan.cpp", "polytracker/src/compiler-rt/lib/dfsan/dfsan.h", "polytracker/src/compiler-rt/lib/dfsan/dfsan_platform.h"],
 [("shadow_for, dfsan_set_label, dfsan_read_label, __dfsan_union", "polytracker/src/compiler-rt/lib/dfsan/dfsan.cpp")])

prop("C19", "Intercepted compare and search calls behave like the C library",
 "The intercepted memory and string comparison and search functions return the result the C standard prescribes for every input, and the label of their result never names a byte that was not examined: by default a search result carries at most the label of the pointer it was given, and otherwise it covers the bytes examined to determine it. The number conversions (strtol family, strtod) give the library's result.",
 ["inputs"], "all contents and labels of strings and buffers up to the bound",
 "No test runs these wrappers; signedness, terminators and early exits only matter for particular bytes.",
 ["polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp"],
 [("__dfsw_memcmp, strcmp, strncmp, strcasecmp, strchr, memchr, strstr...", "polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp")])

prop("C20", "Intercepted copy and allocation calls treat labels like the bytes",
 "The intercepted memory and string copying functions have the effect and result the C standard prescribes, and afterwards each byte written carries the label of the byte it was copied from (or of the value it was filled with) while every other byte keeps its label. Allocation calls (calloc, realloc, strdup) do the same, also when no memory is left.",
 ["inputs"], "all contents, labels, lengths and offsets up to the bound",
 "No test runs these wrappers.",
 ["polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp", "polytracker/src/taint_sources/string_taints.cpp", "polytracker/src/taint_sources/memory_taints.cpp"],
 [("__dfsw_memcpy, memset, strcpy, strncpy, strdup, strcat, realloc", "polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp")])

prop("C21", "Start-up configuration selects exactly the requested sources and sinks",
 "Which of standard input, standard output, standard error and the command-line arguments are tracked, and the name of the output file (POLYDB, or polytracker.tdag), is determined exactly by the documented settings, whatever values they have. When arguments are tracked, each argument is its own source whose bytes (without the terminator) carry that source's offsets 0 to length-1.",
 ["configurations", "inputs"], "all settings of the environment variables and argument vectors up to the bound",
 "No test starts the runtime.",
 ["polytracker/src/polytracker/main.cpp", "polytracker/src/taint_sources/argv.cpp"],
 [("settings", "polytracker/src/polytracker/main.cpp"), ("taint_argv", "polytracker/src/taint_sources/argv.cpp")])

prop("C22", "Output bytes map back to exactly the input bytes they came from",
 "For every well-formed trace, the input-to-output mapping relates an input byte to an output position if and only if the label written there is derived from that byte through any nesting of unions and ranges.",
 ["inputs", "histories"], "all label tables and sinks within the bound",
 "The Python tests need recorded traces that this environment cannot produce; one table shape is not all of them.",
 ["polytracker/mapping.py", "polytracker/taint_dag.py"],
 [("InputOutputMapping", "polytracker/mapping.py")])

prop("C23", "Reported cavities are exactly the input bytes that influence nothing",
 "For every well-formed trace, the cavities reported for an input file (one from which at least one byte was read) are the maximal runs of its bytes that neither reach an output nor affect control flow; every other byte lies in no cavity, and every byte of the file is decided.",
 ["inputs", "histories"], "all label tables, sinks and file sizes within the bound",
 "The tests cover one marker string and recorded examples.",
 ["polytracker/mapping.py"],
 [("file_cavities, marker_to_ranges", "polytracker/mapping.py")])

prop("C24", "The taint forest has the ancestry of the label table",
 "In the taint forest built from any well-formed trace, the input bytes reachable from a label are exactly those the label table gives it, input bytes carry their source and offset, and control-flow marks are kept. The taints given for a set of its nodes are exactly the input bytes they are made of, and the input bytes reported to affect control flow are exactly those marked.",
 ["inputs", "histories"], "all label tables within the bound",
 "Recorded examples only.",
 ["polytracker/taint_forest.py", "polytracker/taint_dag.py"],
 [("TDTaintForest", "polytracker/taint_dag.py")])

prop("C25", "Trace files are read back section by section without loss",
 "For every header and section layout the runtime can write, the Python reader finds each section by its kind at its recorded place and size, and returns exactly the sources, sinks, functions and events stored in them, in whatever order the sections lie.",
 ["inputs", "configurations"], "all section orders, offsets, sizes and contents within the bound",
 "One recorded file.",
 ["polytracker/taint_dag.py", I+"outputfile.h"],
 [("TDFile", "polytracker/taint_dag.py")])

prop("C26", "Taint sets and their regions and differences are exact",
 "Regions computed from a set of tainted byte offsets cover exactly those bytes, are maximal and disjoint; a search finds every occurrence of the bytes looked for within tainted bytes and ends; slices of a region are the bytes of the slice; and the difference of two taint sets reports exactly the bytes present in one but not the other.",
 ["inputs"], "all sets of byte offsets of one or more inputs within the bound",
 "Tests use a handful of literal offsets.",
 ["polytracker/tracing.py", "polytracker/diffing.py"],
 [("Taints.regions", "polytracker/tracing.py"), ("TaintDiff", "polytracker/tracing.py")])

prop("C27", "Caches return what was stored and never exceed their size",
 "A bounded cache returns for every key the value last stored for it or nothing at all, never holds more than its size, and evicts the least recently used entry first; an ordered set keeps exactly the distinct items that were added and not removed, in order, and the set operations of ordered sets give exactly the items of the result.",
 ["histories"], "all operation sequences up to the bound",
 "The tests run a few random sequences without checking which entry is evicted.",
 ["polytracker/cache.py"],
 [("LRUCache, OrderedSet", "polytracker/cache.py")])

prop("C28", "Opening calls reach the system unchanged and register exactly what they opened",
 "The intercepted calls that open files and sockets (open, open64, openat, fopen, accept, connect and their like) and that close them hand the program's arguments to the system unchanged, including the mode of a file that is created, and return its result untainted. A source is registered exactly when the call succeeded, under the name and descriptor that were opened, and what is read from the descriptor from then on is attributed to it, also when the descriptor number was used before.",
 ["inputs", "histories"], "all flags, modes, descriptors, short paths and results",
 "No test runs these wrappers.",
 ["polytracker/src/taint_sources/taint_sources.cpp"],
 [("impl_open, __dfsw_openat, impl_fopen, __dfsw_connect, __dfsw_accept", "polytracker/src/taint_sources/taint_sources.cpp")])

prop("C29", "Formatted output has the text of the C library and the labels of its arguments",
 "sprintf and snprintf of an instrumented program write exactly the bytes and return exactly the value that the C library's do, for every mix of text, conversions, widths, precisions and buffer size; every character written carries the label of the argument (for strings: of the very character) it was made from, padding, text and the terminating zero carry none, and no label outside what was written changes, also when the output is truncated.",
 ["inputs"], "all formats made of the supported conversions, argument values, strings, labels and buffer sizes within the bound",
 "No test formats anything; truncation, widths and empty formats are rare in examples.",
 ["polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp"],
 [("format_buffer, Formatter", "polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp")])

prop("C30", "Memory filled by the system loses its old labels, and no other memory does",
 "When an intercepted call (stat, clock_gettime, getcwd, poll, select, recvmsg, getsockopt, getpwuid_r and their like) fills memory of the program, exactly the bytes it filled become untainted, or take the label of the argument they were computed from (ctime_r, localtime_r, inet_pton); a failed call and optional arguments that were not given leave all labels alone; arguments and results are passed through unchanged.",
 ["inputs"], "all results of the call, all optional arguments given or not, all sizes within the bound",
 "No test runs these wrappers; failures, omitted arguments and truncated results are rare.",
 ["polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp"],
 [("__dfsw_stat, select, poll, recvmsg, getpwuid_r, getsockname, ...", "polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp")])

prop("C31", "Callbacks run as the program asked, and a trace is complete when a run ends",
 "Functions that an instrumented program hands to the system run as the program asked: a signal runs the handler that the program installed last (with signal or sigaction), with the arguments of the system and no labels on them, and the previous handler and flags that the program is told are its own; a thread runs its function once, with its argument, and returns its result; dl_iterate_phdr calls the callback for every object until it stops, with its data and untainted information. The results of fork and pthread_create, an exit status and the text of a failed assertion are passed on, and when the program exits or an assertion fails, the trace holds everything recorded so far before the process ends.",
 ["histories", "inputs"], "all sequences of handler changes and deliveries within the bound, all arguments, results and failures",
 "No test installs a handler, starts a thread or ends a run through the wrappers.",
 ["polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp", "polytracker/src/compiler-rt/lib/dfsan/dfsan_thread.cpp", "polytracker/src/taint_sources/taint_sources.cpp", "polytracker/src/polytracker/main.cpp"],
 [("__dfsw_sigaction, dfsan_signal, SignalHandler, SignalAction, dfsan_pthread_create, dl_iterate_phdr_cb", "polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp"), ("__dfsw_exit, __dfsw___assert_fail", "polytracker/src/taint_sources/taint_sources.cpp"), ("polytracker_end, taint_start", "polytracker/src/polytracker/main.cpp")])

prop("C40", "Instrumented programs behave like the original program",
 "The compiler passes add tracking to a program without changing its observable behaviour, and propagate a label along every data flow.",
 ["programs", "inputs"], "all programs and inputs",
 "Needs a build of the passes, which needs LLVM 12.",
 ["polytracker/src/passes/DataFlowSanitizer.cpp", "polytracker/src/passes/tainted_control_flow.cpp", "polytracker/src/passes/taint_tracking.cpp"],
 [("passes", "polytracker/src/passes/")])

prop("C41", "Extracted grammars accept the inputs they were extracted from",
 "A grammar extracted from a trace derives the traced input.",
 ["inputs", "histories"], "all traces",
 "Only literal parse trees are tested.",
 ["polytracker/grammars.py", "polytracker/parsing.py"],
 [("extract", "polytracker/grammars.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
