# @bound label tables of 4 (thorough: 5) labels of any kinds and nesting over one file, of 3 (4) over two files or with two sinks, of 2 (3) over two files of the same name; source offsets 0 to 2, file sizes 0 to 4 or unknown, any labels at the sinks; one file of 4 bytes with a union in a union and another union, of any bytes, at two sinks
# @bound one table of 1500 (thorough: 4000) labels nested in each other; markers of up to 5 (thorough: 6) bytes
# @assume unions and ranges refer to earlier labels, and whatever a label that affects control flow is made of affects control flow (as the runtime writes them)
from polytracker.mapping import InputOutputMapping
from polytracker.taint_dag import TDFile
from dag import *

UNKNOWN = 0xFFFFFFFFFFFFFFFF


def run(n, nsinks, names, sizes, offsets, shape=None, at=None):
    t = Table(n, files=len(names), offsets=offsets, closed=True, shape=shape)
    sinks = [(0, x, 0) for x in at] if at else [(0, sym("sink-label", 0, n), 0) for _ in range(nsinks)]
    f = TDFile(open_trace(minimal(t.words, names=names, sinks=sinks, index=t.index(), sizes=sizes)))
    cav = InputOutputMapping(f).file_cavities()
    cav = {str(p): list(c) for p, c in cav.items()}
    for name in sorted(set(names)):
        files = [k for k in range(len(names)) if names[k] == name]
        of = lambda j: conj(t.source(j), disj(*[t.idx[j] == k for k in files]))
        read = disj(*[of(j) for j in range(1, t.n + 1)])
        if name not in cav:
            check(neg(read), "every file that was read is reported on")
            continue
        check(read, "only files that were read are reported on")
        # the extent of the file: its size if known, and any byte that was read
        length = 0
        for k in files:
            has = disj(*[conj(t.source(j), t.idx[j] == k) for j in range(1, t.n + 1)])
            if sizes[k] != UNKNOWN:
                length = ite(conj(has, sizes[k] > length), sizes[k], length)
        for j in range(1, t.n + 1):
            length = ite(conj(of(j), t.off[j] + 1 > length), t.off[j] + 1, length)
        for x in range(0, 8):
            used = disj(*[conj(of(j), t.off[j] == x, disj(t.cf[j], *[t.reaches(s[1], j) for s in sinks])) for j in range(1, t.n + 1)])
            inside = disj(*[conj(a <= x, x < b) for a, b in cav[name]])
            check(inside == conj(x < length, neg(used)), "a byte lies in a cavity exactly if it influences nothing")
        for a, b in cav[name]:
            check(a < b, "cavities are not empty")
            cover("cavity")
        for (_, b), (a, _) in zip(cav[name], cav[name][1:]):
            check(b < a, "cavities are maximal and in order")


def pick_size(*xs):
    return xs[choose("size", len(xs))]


@entry
def cavities():
    run(5 if THOROUGH else 4, 1, ("a",), {0: pick_size(2, UNKNOWN)}, 2)


@entry
def two_files():
    run(4 if THOROUGH else 3, 1, ("a", "b"), {0: pick_size(0, 3), 1: UNKNOWN}, 1)


@entry
def two_sinks():
    run(4 if THOROUGH else 3, 2, ("a",), {0: UNKNOWN}, 2)


@entry
def same_name():
    run(3 if THOROUGH else 2, 1, ("a", "a"), {0: pick_size(0, 2, 4, UNKNOWN), 1: pick_size(0, 2, 4, UNKNOWN)}, 2)


# Two outputs with parts in common: a union in a union, and another union
@entry
def parts_in_common():
    shape = {i: "source" for i in range(1, 5)}
    shape.update({5: (1, None, 4), 6: (1, 5, 4), 7: (1, None, 4)})
    run(7, 2, ("a",), {0: UNKNOWN}, 3, shape, (6, 7))


@entry
def deep_nesting():
    x = 2999 + choose("offset", 2)
    words, offs, top = chain(3000, x)
    # the chain's sources have the offsets 0 to 1498
    f = TDFile(open_trace(minimal(words, names=("a", "b"), sinks=[(7, top, 1)], index=[i in offs for i in range(len(words))])))
    cav = InputOutputMapping(f).file_cavities()
    (name, got), = cav.items()
    check(str(name) == "a", "the file is reported on")
    known = len(offs) - 1
    check(got == [(known, x)], "exactly the bytes that are not part of the nesting are a cavity")
    cover("done")


@entry
def ranges():
    n = choose("length", 7 if THOROUGH else 6)
    m = sym_bytes("marker", n)
    got = InputOutputMapping(None).marker_to_ranges(m)
    for x in range(n):
        inside = disj(*[conj(a <= x, x < b) for a, b in got])
        check(inside == (m[x] == 0), "the ranges cover exactly the unmarked places")
    for a, b in got:
        check(conj(a >= 0, a < b, b <= n), "ranges are not empty and inside")
    for (_, b), (a, _) in zip(got, got[1:]):
        check(b < a, "ranges are maximal and in order")
    cover("done")
