from polytracker.taint_dag import TDFile, TDStringSection
from tdag import *


# The sections are what the real runtime wrote for the run.
@entry
def reader():
    o = cpp_outputs("whole_run")
    f = TDFile(open_trace(trace([(SOURCES, 8, o["sources"]), (LABELS, 8, le(0, 8)), (STRINGS, 4, o["names"]), (SINKS, 8, []),
                                 (INDEX, 8, []), (FUNCTIONS, 4, o["functions"]), (EVENTS, 4, [])])))
    names = o["name"]
    fns = [n for n, _ in f.read_fn_headers()]
    check(len(fns) == 1, "every function has a name")
    check(raw_text(fns[0]) == names[1], "the name of a function is the one recorded")
    strings = f.sections_by_type[TDStringSection]
    srcs = [strings.read_string(h.name_offset) for _, h in f.fd_headers]
    check(len(srcs) == 2, "every source has a name")
    check(raw_text(srcs[0]) == names[0], "the name of a file is the one recorded")
    check(raw_text(srcs[1]) == names[2], "the name of a source is the one recorded")
    cover("done")
