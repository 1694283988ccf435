# @bound reader: the logs of those runs; call stacks up to their depth
from polytracker.taint_dag import (TDFile, TDControlFlowLogSection, TDEnterFunctionEvent, TDLeaveFunctionEvent,
                                   TDTaintedControlFlowEvent)
from tdag import *


def aslist(x):
    return x if isinstance(x, list) else [x]


def replay(name, mapped):
    """The events of the runtime, as the reader gives them."""
    o = cpp_outputs(name)
    kinds, fns, labels = ([u64_of(b) for b in aslist(o[k])] for k in ("kind", "function", "label"))
    f = TDFile(open_trace(trace([(SOURCES, 8, []), (LABELS, 8, le(0, 8)), (STRINGS, 4, []), (SINKS, 8, []), (INDEX, 8, []),
                                 (FUNCTIONS, 4, []), (EVENTS, 4, []), (CFLOG, 8, o["log"])])))
    log = f.sections_by_type[TDControlFlowLogSection]
    # what is to be reported
    want, stack = [], []

    def leave_until(fn):
        while stack and not (stack[-1] == fn):
            want.append((TDLeaveFunctionEvent, list(stack), None))
            stack.pop()

    for k, fn, label in zip(kinds, fns, labels):
        if k == 0:
            stack.append(fn)
            want.append((TDEnterFunctionEvent, list(stack), None))
            continue
        leave_until(fn)
        assume(len(stack) > 0)
        if k == 1:
            want.append((TDLeaveFunctionEvent, list(stack), None))
            stack.pop()
        else:
            want.append((TDTaintedControlFlowEvent, list(stack), label))
    leave_until(-1)
    names = None
    if mapped:
        names = ["f%d" % i for i in range(128)]
        log.function_id_mapping(names)
    got = list(log)
    check(len(got) == len(want), "every event is reported once, calls that were left unnoticed are closed")
    for g, (kind, st, label) in zip(got, want):
        check(type(g) is kind, "the kind of event is the one recorded")
        check(len(g.callstack) == len(st), "the call stack is the one of the run")
        if names:
            st = [names[x] for x in st]
        check(conj(*[x == y for x, y in zip(g.callstack, st)]), "the call stack is the one of the run")
        if label is not None:
            check(g.label == label, "the label is the one that controlled the branch")
            cover("branch")
    cover("done")


@entry
def reader_any_numbers():
    replay("any_numbers", False)


@entry
def reader_sequences():
    replay("sequences", False)
