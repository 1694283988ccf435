# @bound label tables of 5 (thorough: 6) labels of any kinds and nesting with any source offsets below 2^54, two files of one or two names, two sinks with any labels, files and offsets
# @bound nesting: one chain of 1500 (thorough: 4000) unions
# @assume unions and ranges refer to earlier labels (as the runtime writes them)
from polytracker.mapping import InputOutputMapping
from polytracker.taint_dag import TDFile
from dag import *


def run(n, nsinks, names):
    t = Table(n)
    sinks = [(sym("sink-offset", 0, (1 << 62), wide=True), sym("sink-label", 0, n), sym("sink-file", 0, 1)) for _ in range(nsinks)]
    f = TDFile(open_trace(minimal(t.words, names=names, sinks=sinks, index=t.index())))
    m = InputOutputMapping(f).mapping()
    pairs = []
    for (ip, io), outs in m.items():
        for op, oo in outs:
            pairs.append((str(ip), io, str(op), oo))
    name = lambda want, i: disj(*[conj(i == k, names[k] == want) for k in range(len(names))])
    facts = [(j, s, conj(t.source(j), t.reaches(s[1], j))) for j in range(1, n + 1) for s in sinks]
    for j, s, holds in facts:
        found = disj(*[conj(name(ip, t.idx[j]), io == t.off[j], name(op, s[2]), oo == s[0]) for ip, io, op, oo in pairs])
        check(disj(neg(holds), found), "an input byte is mapped to every output position made of it")
    for ip, io, op, oo in pairs:
        ok = disj(*[conj(h, name(ip, t.idx[j]), io == t.off[j], name(op, s[2]), oo == s[0]) for j, s, h in facts])
        check(ok, "an input byte is mapped only to output positions made of it")
        cover("mapped")


@entry
def mapping():
    run(6 if THOROUGH else 5, 1, ("a", "b"))


@entry
def several_sinks():
    run(3, 2, ("a", "b"))


@entry
def same_name():
    run(3, 2, ("a", "a"))


@entry
def deep_nesting():
    x = sym("offset", 5000, (1 << 54) - 1, wide=True)
    words, offs, top = chain(8000 if THOROUGH else 3000, x)
    f = TDFile(open_trace(minimal(words, names=("a", "b"), sinks=[(7, top, 1)], index=[i in offs for i in range(len(words))])))
    m = InputOutputMapping(f).mapping()
    got = [io for _, io in m]
    check(len(got) == len(offs), "every byte of a deep nesting is found")
    check(disj(*[g == x for g in got]), "the deepest byte is found")
    check(all(len(o) == 1 for o in m.values()), "each byte is mapped once")
    cover("done")
