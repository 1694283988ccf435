#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the notes below and the bounds the harnesses state."""
import os, re, json, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

HEAD = """# Design

Family: solver-based checking of the real code. Every property is decided by executing the
implementation's own functions symbolically, from source that is recompiled (C++) or reloaded (Python)
from /repo on every run, with z3 deciding each branch and each assertion for all values on the path.
Nothing is sampled and no property is decided by a hand-written model of the code.

## Machinery

* **C/C++: `symir/`**, a bounded symbolic executor for LLVM IR (about 2800 lines, LLVM 18 C++ API and z3).
  A harness of `harness/` and the sources it names are compiled with clang to IR (-O1, no vectorisation),
  linked and executed. Inputs are bit-vectors. A branch on a symbolic condition is followed both ways if
  z3 says both are feasible. Memory is a set of objects with bounds and guards: an access out of bounds,
  to freed or unmapped memory, a division by zero or an `unreachable` is a violation like a failed
  assertion. Threads (`vf_spawn`, mutexes, atomics) are interleaved at each access to shared memory, up to
  a preemption bound; schedules are part of the search, and a read or write that two threads make without
  synchronisation is just executed in every order.
  `--paths` writes for each path its condition and the bytes it produced as SMT-LIB terms.
* **Python: `pysym/`** runs the real modules in CPython with symbolic integers, booleans and bytes
  (operator overloading; `ctypes` structures, `struct`, files and mmap over symbolic bytes). Each truth
  test on a symbolic value forks if both outcomes are feasible; values used as indices, keys or hash are
  enumerated by the solver.
* **Across the languages** (C02, C09, C10, C11, C25): the C++ harness runs the real writer; each of its
  paths hands its output bytes (terms) and path condition to the Python harness, which runs the real
  reader on them. So "what the runtime writes, the reader reads" is one query, not two halves that meet in
  a document.
* **Confirmation**. A counterexample is re-executed before it is reported: for C++ the same IR is compiled
  to a native program with the values of the model; where a schedule is part of it, the executor re-runs it
  with inputs and schedule fixed; for Python the harness runs on plain integers and the real modules. Only a
  confirmed one is printed as VIOLATION, with the inputs in `evidence/replays/`. One that is not confirmed
  makes the check incomplete (exit 2), never an alarm.
* **Vacuity**. A harness names situations that must be reachable (`vf_cover`, `cover`); one that never is
  makes the check exit 2. Each check also compares sample paths with a native run (symbolic and real
  execution must end in the same way).
* **Limits** of one run (paths, instructions, solver time) that are hit end the check with exit 2: bounds
  are either explored in full or it is said that they were not.
* Known findings (`known_findings.jsonl`) are matched by property, harness entry and assertion.

`check.py Cxx quick|thorough` is the only entry point. `VF_REPO` points it at another tree (used for the
sweeps below, never by registered commands); `VF_ONLY` restricts it to some entries.

Why this reaches what tests cannot: each harness leaves the inputs, results of system calls, label
tables, operation sequences or schedules arbitrary and asks the solver for a value that breaks the
assertion; the tests of the repository sample single values and never start the interception functions.

What is outside in general: the compiler passes (C40), real system calls (replaced by stand-ins with
arbitrary results within their contract), weak memory (interleavings are sequentially consistent; a change
that only relaxes a memory order is not seen), sizes beyond the stated bounds, and everything that depends
on timing or on the size of real files.

## Properties

For each: what is asserted, against what oracle, where the bounds are, and what it costs (quick,
unloaded). Bounds and assumptions are copied from the harnesses.
"""

N = {
"C01": ("`encode` then `decode` is the identity and the mark functions change only the mark.", "the fields that were put in, compared bit by bit", "6 s"),
"C02": ("The word the real encoder makes is decoded by the real Python reader.", "the fields given to the encoder (cross-language)", "5 s"),
"C03": ("The set of input bytes of the result equals the union of the sets of the operands.", "reachability matrix of the symbolic label table (computed by the harness from the words, not by the union code); for unbounded labels an arbitrary witness byte is in the result exactly if it is in an operand", "22 s"),
"C04": ("Words once written never change (but for the mark), numbers are consecutive, reuse means equality, a union asked for twice in a row is one label, threads get what they asked for.", "a copy of the table before the operation; the word at the returned label", "80 s"),
"C05": ("Exactly the ancestors of the label are marked, and nothing but marks changes.", "the reachability matrix; a reference queue (array) for the work queue", "31 s"),
"C06": ("Fresh consecutive labels, one per byte, with source and offset; shadow and bitmap as required; exhaustion ends the run.", "the arguments of the call, the shadow and bitmap before it", "10 s"),
"C07": ("Every grant is inside, disjoint, aligned and counted; a refusal has no effect; also for concurrent writers.", "interval arithmetic in 128 bits on the returned spans", "8 s"),
"C08": ("Places, alignment, disjointness, header contents, final sizes.", "interval arithmetic on the spans of the real template, for nine layouts", "5 s"),
"C09": ("Names are read back by offset, by iteration and by the Python reader.", "the bytes given", "9 s"),
"C10": ("Bits equal the union of the updates; size covers the last word; reader lists exactly the bits; concurrent updates lose nothing.", "a second bitmap updated bit by bit in the harness", "170 s"),
"C11": ("Events of a run come back from the Python reader with the call stack.", "the list of events, and the stack kept by the harness", "25 s"),
"C12": ("One number per name, next number for a new one, names stored, events in order; also concurrently.", "a list of names kept by the harness", "13 s"),
"C13": ("Transfers are attributed to the source opened last on the descriptor; unknown positions are consecutive.", "the list of opens kept by the harness", "180 s"),
"C14": ("Labels and shadow after each input wrapper.", "the stand-in of the real call knows which bytes it delivered and where from", "14 s"),
"C15": ("Sink records after each output wrapper.", "the stand-in of the real call knows how many bytes it took", "13 s"),
"C16": ("`Length` and `Offset` for all 64-bit inputs.", "128-bit arithmetic", "4 s"),
"C17": ("Hooks return their argument and record what they should.", "the log read back; a run without tracking", "8 s"),
"C18": ("Set, add, read, union of ranges; the address map is injective.", "per-byte labels kept by the harness; for the map two arbitrary addresses", "7 s"),
"C19": ("Results as in the C standard, labels between what was examined and what was given.", "straight-line reference functions in the harness", "50 s"),
"C20": ("Bytes and labels after copies and allocations.", "bytes and labels before the call", "25 s"),
"C21": ("Which streams and arguments become sources and sinks, and the name of the output.", "the symbolic environment and argument vector", "8 s"),
"C22": ("`mapping()` relates exactly the pairs the label table implies.", "reachability matrix as z3 terms", "93 s"),
"C23": ("`file_cavities()` is exactly the complement of used bytes.", "reachability matrix and marks as z3 terms", "180 s"),
"C24": ("Ancestry, sources, marks, `taints`, control-flow inputs, graph.", "reachability matrix as z3 terms", "90 s"),
"C25": ("Sections found by kind; contents of a whole run; any order of sections.", "what was given to the real writer; the bytes of the built file", "10 s"),
"C26": ("Regions, search, slices, differences.", "membership formula over the offsets", "15 s"),
"C27": ("LRU caches, ordered sets, memoised functions against reference lists.", "a list of pairs in order of use", "37 s"),
"C28": ("Arguments reach the real call, success registers the source.", "the stand-in records its arguments; a later read shows the attribution", "29 s"),
"C29": ("Bytes, result and labels of sprintf and snprintf.", "a formatter in the harness that composes the pieces by the standard, piece texts arbitrary", "71 s"),
"C30": ("Labels after 27 families of calls that fill memory.", "the stand-in knows which bytes it filled", "100 s"),
"C31": ("Handlers, threads, callbacks and the ways a run ends.", "a table of what the program installed last; stand-ins for the system that call back what they were given", "45 s"),
}

TAIL = """
## Not applicable

* **C40** (passes): the passes are written for LLVM 12, which is not here, so neither they nor an
  instrumented program can be built; their effect on all programs is also beyond bounded symbolic execution.
* **C41** (grammars): extraction needs a trace of function and basic-block events. The `.tdag` reader of
  this commit does not produce them (`TDProgramTrace.__iter__`, `functions`, `basic_blocks` and others
  raise NotImplementedError), so the function cannot be reached from any trace.

## Defects found

Each was found by a check on the unchanged tree, reproduced on the real code, and repaired in a
"fix:" commit; `known_findings.jsonl` lists them all. One is recorded and not repaired: after 255 sources `open_file` is
ignored silently (C13, `too_many_sources`): source numbers have 8 bits in the file format, and ending
the program instead would be a change of policy.

{fixes}

## False alarms corrected while building

* C19: labels of search results were first required to equal the examined bytes; the code (and its flag
  `strict_data_dependencies`) leaves room, so the label is required to lie between the examined bytes and
  the arguments.
* C23: tables where a marked label has unmarked parts were allowed first; the runtime never writes them
  (C05), so they are assumed away, which `file_cavities` documents as its premise.
* C11: a branch in a function that is not on the call stack was allowed first; the reader documents that
  it cannot align such a log, and instrumented programs do not produce it.
* C27: whether `in` counts as a use of a cache entry is left open.
* C14: MSG_TRUNC and MSG_PEEK make `recv` return more than it delivered; excluded and stated.
* C30: signals, and addresses that do not fit, are outside and stated.
* Executor: native replay first differed from the symbolic run for functions with `noalias` results and
  `memory(none)`; such attributes are stripped from the IR that is replayed.

## Planted bugs

`seeded/` (each verified: builds, 369 stable tests pass, demo fails only with the change). Written from
the property texts; the ones first missed led to the entries named.

{seeds}

## Mutation sweeps

About 110 further small changes were tried against the checks of the properties they break (core
headers, Python modules, interception functions). All that change behaviour are caught now. First missed,
with what was added: concurrent creation of labels, names and sources (C04, C09, C13 `concurrent_*`),
nested marks (C05 `mark_nested`), reopened files (C13 `opened_again`), names at the length limit (C09
`longest_with_room`), label caches keyed by low bits (C02 `far_labels`), inputs that share a descriptor
(C26), marks of nodes made for ranges (C24 `marks`), empty caches and remembered None (C27), unsigned
conversions and the label of the terminator (C19 `numbers`), labels of blocks above 4 GB (C20
`allocate_zeroed_large`), null results (C30), outputs with parts in common (C23 `parts_in_common`).
Not distinguishable by behaviour, hence not alarms: reordering of marks that end the same, dead code under
`#if 0`, `gets` (not intercepted by the ABI list), a mode passed for O_DIRECTORY (ignored by the system).

Behaviour-preserving rewrites were swept the same way (helpers extracted, loops rewritten with and
without algorithms, queue replaced by a vector or std::deque, compare-exchange replaced by fetch_or,
std::copy by memcpy, records collected first; in Python comprehensions, recursion replaced, other
containers): the checks stay quiet.

## Cost

The 30 quick checks take about 25 minutes in sequence on an idle machine, each below 200 s; setup
(building the executor) takes about 20 s. Thorough tiers use the larger bounds quoted above.
"""

def directives(p):
    b, a = [], []
    for f in (f"{H}/harness/h_{p}.cpp", f"{H}/pyharness/h_{p}.py"):
        if not os.path.exists(f):
            continue
        for l in open(f):
            m = re.match(r"(?://|#) @(bound|assume) (.*)", l)
            if m:
                (b if m[1] == "bound" else a).append(m[2].strip())
    return b, a

def entries(p):
    r = []
    f = f"{H}/harness/h_{p}.cpp"
    if os.path.exists(f):
        r += re.findall(r"^VF_ENTRY (\w+)\(", open(f).read(), re.M)
    f = f"{H}/pyharness/h_{p}.py"
    if os.path.exists(f):
        r += re.findall(r"^@entry\ndef (\w+)\(", open(f).read(), re.M)
    return r

out = HEAD
for l in open(f"{H}/properties.jsonl"):
    d = json.loads(l)
    p = d["id"]
    if p not in N:
        continue
    what, oracle, cost = N[p]
    b, a = directives(p)
    out += f"\n### {p} {d['title']}\n\n{what} Anchors: " + ", ".join(os.path.basename(x) for x in d["anchors"]["files"]) + ".\n\n"
    out += f"* Oracle: {oracle}.\n"
    for x in b:
        out += f"* Bound: {x}.\n"
    for x in a:
        out += f"* Assumed: {x}.\n"
    out += f"* Entries: {', '.join(entries(p))}. Cost {cost}.\n"
fx = ""
for l in open(f"{H}/known_findings.jsonl"):
    d = json.loads(l)
    if d.get("status") == "fixed":
        fx += f"* {d['property']} {d.get('commit', '')[:7]}: {re.sub(r'^fixed: property=C.. [0-9a-f]+ ', '', d['what'])}\n"
sd = "| change | needs | caught by |\n|---|---|---|\n"
for m in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    d = json.load(open(m))
    sd += f"| {os.path.basename(os.path.dirname(m))} | {d['needs']} | {d['property']} |\n"
open(f"{H}/DESIGN.md", "w").write(out + TAIL.replace("{fixes}", fx.strip()).replace("{seeds}", sd.strip()))
