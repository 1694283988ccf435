# @bound label tables of 4 (thorough: 5) labels of any kinds and nesting with any source offsets below 2^54 over two files; one chain of 1500 (thorough: 4000) nested labels; ranges of up to 2000 labels
# @assume unions and ranges refer to earlier labels (as the runtime writes them)
from polytracker.taint_dag import TDProgramTrace
from dag import *

N = 5 if THOROUGH else 4


def build(n, **kw):
    t = Table(n, **kw)
    tr = TDProgramTrace(open_trace(minimal(t.words, names=("a", "b"), index=t.index())))
    return t, tr


def sources_of(tr, node):
    """The source nodes found from a node, following the parents."""
    found, seen, todo = [], set(), [node]
    while todo:
        x = todo.pop()
        if x.label in seen:
            continue
        seen.add(x.label)
        p, q = x.parent_one, x.parent_two
        if p is None or q is None:
            check(p is None and q is None and x.is_canonical(), "a node has two parents or none")
            found.append(x)
        else:
            check(not x.is_canonical(), "a node with parents is not canonical")
            todo += [p, q]
    return found


# whatever nodes were asked for before
@entry
def ancestry():
    t, tr = build(N)
    forest = tr.taint_forest
    if choose("order", 2):
        forest.get_node(N)
    label = choose("label", N) + 1
    node = forest.get_node(label)
    check(node.label == label, "the node is the one of the label")
    check(node.affected_control_flow == t.cf[label], "the mark is kept")
    got = sources_of(tr, node)
    for j in range(1, N + 1):
        here = any(x.label == j for x in got)
        check(t.reach[label][j] == here, "the sources reached from a label are those it is made of")
    for x in got:
        check(x.source is not None, "input bytes have a source")
        o = tr.file_offset(x)
        j = x.label
        check(conj(o.offset == t.off[j], o.length == 1), "an input byte has the offset that was recorded")
        check(disj(*[conj(t.idx[j] == k, x.source.path == "ab"[k], x.source.uid == 3 + k) for k in range(2)]), "an input byte belongs to the file that was recorded")
        check(disj(*[conj(t.idx[j] == k, o.source.path == "ab"[k]) for k in range(2)]), "an input byte belongs to the file that was recorded")
    cover("done")


@entry
def all_nodes():
    t, tr = build(N)
    nodes = list(tr.taint_forest.nodes())
    labels = [x.label for x in nodes]
    check(conj(*[a > b for a, b in zip(labels, labels[1:])]), "the nodes come in decreasing order")
    for i in range(N + 1):
        check(labels.count(i) == 1, "every label has a node")
    have = {x.label: x for x in nodes}
    for i in range(1, N + 1):
        x = have[i]
        check(x.affected_control_flow == t.cf[i], "the mark is kept")
        check((x.parent_labels is None) == t.source(i), "input bytes have no parents, others do")
        if x.parent_labels is not None:
            check(all(p in have for p in x.parent_labels), "parents are nodes")
    cover("done")


@entry
def marks():
    t, tr = build(N, closed=True)
    node = tr.taint_forest.get_node(choose("label", N) + 1)
    todo, seen = [node], set()
    while todo:
        x = todo.pop()
        if x.label in seen or x.is_canonical():
            continue
        seen.add(x.label)
        for p in (x.parent_one, x.parent_two):
            check(disj(neg(x.affected_control_flow), p.affected_control_flow), "what a node that affects control flow is made of affects it too")
            todo.append(p)
    cover("done")


# the bytes a set of nodes is made of
@entry
def taints_of():
    n = 4
    t, tr = build(n)
    picked = [i for i in range(1, n + 1) if choose("picked", 2)]
    got = list(tr.taints(tr.taint_forest.get_node(i) for i in picked))
    facts = [(j, conj(t.source(j), disj(*[t.reach[i][j] for i in picked]))) for j in range(1, n + 1)]
    is_file = lambda o, j: disj(*[conj(t.idx[j] == k, o.source.path == "ab"[k]) for k in range(2)])
    for j, h in facts:
        check(disj(neg(h), *[conj(o.offset == t.off[j], is_file(o, j)) for o in got]), "every byte the nodes are made of is given")
    for o in got:
        check(disj(*[conj(h, o.offset == t.off[j], is_file(o, j)) for j, h in facts]), "only bytes the nodes are made of are given")
    for a in range(len(got)):
        for b in range(a):
            check(neg(conj(got[a].offset == got[b].offset, got[a].source.path == got[b].source.path)), "no byte is given twice")
    cover("done")


@entry
def control_flow():
    n = 4
    t, tr = build(n)
    got = list(tr.inputs_affecting_control_flow())
    is_file = lambda o, j: disj(*[conj(t.idx[j] == k, o.source.path == "ab"[k]) for k in range(2)])
    for j in range(1, n + 1):
        check(disj(neg(conj(t.source(j), t.cf[j])), *[conj(o.offset == t.off[j], is_file(o, j)) for o in got]),
              "every input byte that affects control flow is given")
    for o in got:
        check(disj(*[conj(t.source(j), t.cf[j], o.offset == t.off[j], is_file(o, j)) for j in range(1, n + 1)]),
              "only input bytes that affect control flow are given")
    cover("done")


@entry
def inputs():
    n = 3
    t, tr = build(n)
    got = [(x.uid, x.path) for x in tr.inputs]
    for k in range(2):
        read = disj(*[conj(t.source(j), t.idx[j] == k) for j in range(1, n + 1)])
        check(read == ((3 + k, "ab"[k]) in got), "the inputs are the files that were read")
    check(len(set(got)) == len(got), "no input is given twice")
    cover("done")


@entry
def graph():
    n = 4
    t, tr = build(n)
    g = tr.taint_forest.to_graph()
    label = 1 + choose("label", n)
    # everything from which the label can be reached in the graph
    seen, todo = set(), [label]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += list(g.predecessors(x))
    for j in range(1, n + 1):
        check(disj(neg(t.source(j)), t.reach[label][j] == (j in seen)), "the graph has the ancestry of the labels")
    cover("done")


@entry
def deep_nesting():
    x = sym("offset", 5000, (1 << 54) - 1, wide=True)
    words, offs, top = chain(8000 if THOROUGH else 3000, x)
    tr = TDProgramTrace(open_trace(minimal(words, names=("a",), index=[i in offs for i in range(len(words))])))
    got = [o.offset for o in tr.taints([tr.taint_forest.get_node(top)])]
    check(len(got) == len(offs), "every byte of a deep nesting is found")
    check(disj(*[g == x for g in got]), "the deepest byte is found")
    cover("done")


@entry
def long_range():
    x = sym("offset", 5000, (1 << 54) - 1, wide=True)
    at = 1 + choose("at", 2) * 1998
    words = [0] + [source_word(0, i if i != at else x, False) for i in range(1, 2001)] + [pair_word(1, 2000, False)]
    tr = TDProgramTrace(open_trace(minimal(words, names=("a",), index=[0 < i <= 2000 for i in range(len(words))])))
    got = [o.offset for o in tr.taints([tr.taint_forest.get_node(2001)])]
    check(len(got) == 2000, "every byte of a long range is found")
    check(disj(*[g == x for g in got]), "every byte of a long range is found")
    cover("done")
