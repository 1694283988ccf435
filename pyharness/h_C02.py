from polytracker.taint_dag import TDFile, TDSourceNode, TDUnionNode, TDRangeNode, TDUntaintedNode
from tdag import *


# The word is what the real encoder produced, the fields what the real decoder makes of it.
@entry
def reader():
    o = cpp_outputs("written")
    kind, a, b, cf = (u64_of(o[k]) for k in ("kind", "a", "b", "cf"))
    word = u64_of(o["word"])
    at = 1 + choose("place", 3)
    f = TDFile(open_trace(minimal([u64("other") if i != at else word for i in range(4)])))
    n = f.decode_node(at)
    mark = cf != 0
    check(n.affects_control_flow == mark, "the mark is the one stored")
    if isinstance(n, TDSourceNode):
        check(kind == 0, "the kind of taint is the one stored")
        check(conj(n.idx == a, n.offset == b), "source number and offset are the ones stored")
        cover("source")
    elif isinstance(n, TDUnionNode):
        check(kind == 1, "the kind of taint is the one stored")
        check(disj(conj(n.left == a, n.right == b), conj(n.left == b, n.right == a)), "the labels of a union are the ones stored")
        cover("union")
    elif isinstance(n, TDRangeNode):
        check(kind == 2, "the kind of taint is the one stored")
        check(conj(n.first == a, n.last == b), "the labels of a range are the ones stored")
        cover("range")
    else:
        check(False, "every stored taint is recognised")
    check(f.read_node(at) == word, "the raw word is the one stored")
    again = f.decode_node(at)
    check(conj(type(again) is type(n), again.affects_control_flow == mark), "reading again gives the same")


@entry
def untainted():
    f = TDFile(open_trace(minimal([u64("slot"), u64("word")])))
    n = f.decode_node(0)
    check(isinstance(n, TDUntaintedNode), "label 0 is untainted")
    check(neg(n.affects_control_flow), "untainted data does not affect control flow")
    cover("done")


# all nodes, in order
@entry
def all_nodes():
    k = choose("count", 3)
    words = [u64("slot")]
    idx = [sym("index", 0, 255) for _ in range(k)]
    off = [sym("offset", 0, (1 << 54) - 1) for _ in range(k)]
    cf = [flag("cf") for _ in range(k)]
    f = TDFile(open_trace(minimal(words + [source_word(i, o, c) for i, o, c in zip(idx, off, cf)])))
    check(f.label_count == k + 1, "the number of labels is the number stored")
    ns = list(f.nodes)
    check(len(ns) == k, "every label is listed")
    for n, i, o, c in zip(ns, idx, off, cf):
        check(conj(n.idx == i, n.offset == o, n.affects_control_flow == c), "the taints are listed in order")
    cover("done")


# labels far apart in a large table do not stand in for each other
@entry
def far_labels():
    near = 1 + choose("near", 2)
    far = near + (1 << (8, 12, 16, 20)[choose("distance", 4)])
    count = 3 << 20
    last = count - 1
    labels = [near, far, last]
    base = 8 + 24 * 7
    head = list(b"TDAG") + le(0x1234, 2) + le(7, 2)
    for tag in (SOURCES, LABELS, STRINGS, SINKS, INDEX, FUNCTIONS, EVENTS):
        head += section_meta(tag, 8, base, 8 * count if tag == LABELS else 0)
    idx = [sym("index", 0, 255) for _ in labels]
    off = [sym("offset", 0, (1 << 54) - 1) for _ in labels]
    ext = [(0, VF.make_bytes(head))]
    ext += [(base + 8 * at, VF.make_bytes(le(source_word(i, o, False), 8))) for at, i, o in zip(labels, idx, off)]
    f = TDFile(open_trace((ext, base + (8 * count))))
    check(f.label_count == count, "the number of labels is the number stored")
    for again in range(2):
        for at, i, o in zip(labels, idx, off):
            n = f.decode_node(at)
            check(conj(n.idx == i, n.offset == o), "every label has the taint stored for it")
    cover("done")
