# @bound section tables with up to 4 kinds of sections in any order, at any places below 2^10, of sizes up to three entries
from polytracker.taint_dag import TDFile, TDProgramTrace, TDEvent, TDSinkSection, TDSourceSection, TDFunctionsSection, TDEventsSection, TDLabelSection
from tdag import *


def file_of(o):
    ext = [(0, o["header"])]
    for off, b in zip(o["offset"], o["section"]):
        if len(b):
            ext.append((int(u64_of(off)), b))
    return open_trace((ext, int(u64_of(o["file"]))))


# the file is what the runtime wrote
@entry
def run_sources_and_sinks():
    o = cpp_outputs("sources_and_sinks")
    tr = TDProgramTrace(file_of(o))
    f = tr.tdfile
    check(len(f.fd_headers) == 2, "every source is given")
    for (path, h), name, fd, size in zip(f.fd_headers, o["name"], o["fd"], o["size"]):
        check(raw_text(path) == name, "the name of a source is the one recorded")
        check(h.fd == u64_of(fd), "the descriptor of a source is the one recorded")
        check(neg(h.invalid_fd()), "a source with a descriptor is known to have one")
        check(h.size == u64_of(size), "the size of a source is the one recorded")
        check(h.invalid_size() == (u64_of(size) == 0xFFFFFFFFFFFFFFFF), "an unknown size is known to be unknown")
    check(f.label_count == 3, "every label is given")
    off = u64_of(o["read"])
    for i in range(2):
        n = f.decode_node(1 + i)
        check(conj(n.idx == 0, n.offset == off + i), "the labels are the ones recorded")
    check(list(f.input_labels()) == [1, 2], "the input labels are the ones recorded")
    sinks = list(f.sinks)
    check(len(sinks) == 2, "every output byte is given")
    at = u64_of(o["written"])
    for i, s in enumerate(sinks):
        check(conj(s.fdidx == 1, s.offset == at + i, s.label == u64_of(o["label"][i])), "the output bytes are the ones recorded, in order")
    outs = list(tr.output_taints)
    check(len(outs) == 2, "every output byte is given")
    for i, s in enumerate(outs):
        check(conj(s.offset == at + i, s.label == u64_of(o["label"][i]), s.source.uid == u64_of(o["fd"][1])), "the output bytes are the ones recorded, in order")
    ins = list(tr.inputs)
    check(len(ins) == 1, "the inputs are the sources that were read")
    check(conj(ins[0].uid == u64_of(o["fd"][0]), ins[0].size == u64_of(o["size"][0])), "the inputs are the sources that were read")
    cover("done")


@entry
def run_functions():
    o = cpp_outputs("functions")
    f = TDFile(file_of(o))
    names = [n for n, _ in f.fn_headers]
    check(sorted(names) == ["f", "g"], "every function is given once")
    got = [(TDEvent.Kind(e.kind).name, names[e.fnidx]) for e in f.events]
    want = [("ENTRY", "f"), ("ENTRY", "g")]
    want += [(("ENTRY", "EXIT")[int(u64_of(k))], "fg"[int(u64_of(x))]) for x, k in zip(o["function"], o["kind"])]
    check(got == want, "the function events are the ones recorded, in order")
    cover("done")


# any order and place of the sections
@entry
def placement():
    order = choose("order", 24)
    kinds = [SOURCES, SINKS, FUNCTIONS, STRINGS]
    perm = []
    for k in (4, 3, 2, 1):
        perm.append(kinds.pop(order % k))
        order //= k
    nsink, nsrc, nfn = choose("sinks", 3), choose("sources", 2), choose("functions", 2)
    strs = string("q") + string("rs")
    soff = [u64("sink-offset") for _ in range(nsink)]
    slab = [sym("label", 0, (1 << 32) - 1) for _ in range(nsink)]
    sfd = [sym("file", 0, 255) for _ in range(nsink)]
    fd = sym("fd", -1, (1 << 31) - 1)
    size = u64("size")
    data = {SOURCES: source_entry(0, fd, size) * nsrc, STRINGS: strs, FUNCTIONS: le(4, 4) * nfn,
            SINKS: sum((sink_entry(a, b, c) for a, b, c in zip(soff, slab, sfd)), [])}
    gap = 8 * choose("gap", 3)
    n = len(perm)
    head = list(b"TDAG") + le(sym("magic", 0, 65535), 2) + le(n, 2)
    at = 8 + 24 * n + gap
    ext = []
    for k in perm:
        head += section_meta(k, 8, at, len(data[k]))
        if data[k]:
            ext.append((at, VF.make_bytes(data[k])))
        at += len(data[k]) + gap
    f = TDFile(open_trace(([(0, VF.make_bytes(head))] + ext, at + 64)))
    check(len(f.fd_headers) == nsrc, "the sources are those of their section")
    for p, h in f.fd_headers:
        check(str(p) == "q", "the name of a source is the one it refers to")
        check(conj(h.fd == fd, h.size == size, h.invalid_fd() == (fd == -1)), "the sources are those of their section")
    check([x for x, _ in f.fn_headers] == ["rs"] * nfn, "the functions are those of their section")
    got = list(f.sinks)
    check(len(got) == nsink, "the sinks are those of their section")
    signed = lambda v: ite(v >= 1 << 63, v - (1 << 64), v)
    for s, a, b, c in zip(got, soff, slab, sfd):
        check(conj(s.offset == signed(a), s.label == b, s.fdidx == c), "the sinks are those of their section")
    cover("done")


@entry
def events():
    k = choose("events", 4)
    kind = [choose("kind", 2) for _ in range(k)]
    fn = [sym("function", 0, 65535) for _ in range(k)]
    ev = sum((le(a, 1) + [0] + le(b, 2) for a, b in zip(kind, fn)), [])
    f = TDFile(open_trace(trace([(SOURCES, 8, []), (LABELS, 8, le(0, 8)), (STRINGS, 4, []), (SINKS, 8, []), (INDEX, 8, []), (FUNCTIONS, 4, []), (EVENTS, 4, ev)])))
    got = list(f.events)
    check(len(got) == k, "every event is given")
    for e, a, b in zip(got, kind, fn):
        check(conj(TDEvent.Kind(e.kind) is (TDEvent.Kind.EXIT if a else TDEvent.Kind.ENTRY), e.fnidx == b), "the events are the ones recorded, in order")
    cover("done")
