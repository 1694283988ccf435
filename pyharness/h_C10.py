# @bound reader: bitmaps of up to 2 (thorough: 3) 64-bit words with one bit anywhere and any of bits 0, 63, 64, 127
from polytracker.taint_dag import TDFile, TDSourceIndexSection
from tdag import *


@entry
def reader():
    n = choose("words", 4 if THOROUGH else 3)
    anywhere = sym("bit", 0, 64 * n - 1) if n else -1
    fixed = [k for k in (0, 63, 64, 127) if k < 64 * n and choose("fixed", 2)]
    if n:
        assume(conj(*[anywhere != k for k in fixed]))
    bits = [anywhere] + fixed if n else []
    words = [0] * n
    for b in bits:
        for i in range(n):
            words[i] = words[i] + ite(conj(b >= 64 * i, b < 64 * i + 64), 1 << (b & 63), 0)
    f = TDFile(open_trace(trace([(SOURCES, 8, []), (LABELS, 8, le(0, 8)), (STRINGS, 4, []), (SINKS, 8, []),
                                 (INDEX, 8, sum((le(w, 8) for w in words), [])), (FUNCTIONS, 4, []), (EVENTS, 4, [])])))
    got = list(f.input_labels())
    check(len(got) == len(bits), "every set bit is listed once")
    check(conj(*[disj(*[x == y for y in got]) for x in bits]), "exactly the set bits are listed")
    check(conj(*[x < y for x, y in zip(got, got[1:])]), "the bits are listed in order")
    cover("done")
