# @bound two inputs with different identifiers or with the same (a descriptor used for two files); sets of up to 3 (thorough: 4) bytes at any offsets below 2^12 (thorough: 2^14) of two inputs, pairs of sets of up to 2 (thorough: 3) bytes; searches for up to 2 bytes in up to 4 bytes of any contents, of which any are tainted; regions of up to 4 bytes and slices with any bounds from -6 to 6
from polytracker.tracing import Taints, TaintedRegion, ByteOffset, TaintOutput
from polytracker.inputs import Input
from polytracker.cfg import FunctionInfo

N = 4 if THOROUGH else 3
BIG = 1 << (14 if THOROUGH else 12)
INPUTS = [Input(3, "a", 10), Input(4, "b", 10)]
PATHS = "ab"


def pick_ids():
    """the second input has an identifier of its own, or that of the first"""
    INPUTS[1] = Input(4 - choose("same-id", 2), "b", 10)


def some_bytes(n, what="offset"):
    """[(input number, offset)] of up to n bytes, in any order, perhaps repeated"""
    if what != "second":
        pick_ids()
    return [(choose(what + "-input", 2), sym(what, 0, BIG, wide=True)) for _ in range(choose(what + "s", n + 1))]


def taints(bs):
    return Taints([ByteOffset(INPUTS[i], o) for i, o in bs])


def covered(regions, i, x):
    return disj(*[conj(r.offset <= x, x < r.offset + r.length) for r in regions if r.source.path == PATHS[i]])


def well_formed(regions, bs, msg):
    """The regions cover exactly these bytes, and are maximal and disjoint."""
    for i, o in bs:
        check(covered(regions, i, o), msg + " cover every byte")
    probe = sym("probe", -1, BIG + 8)
    for i in range(2):
        inset = disj(*[o == probe for j, o in bs if j == i])
        check(disj(inset, neg(covered(regions, i, probe))), msg + " cover no other byte")
    for a in range(len(regions)):
        check(regions[a].length > 0, msg + " are not empty")
        for b in range(a):
            if regions[a].source.path == regions[b].source.path:
                p, q = regions[a], regions[b]
                check(disj(p.offset + p.length < q.offset, q.offset + q.length < p.offset), msg + " are maximal and disjoint")


@entry
def regions():
    bs = some_bytes(N)
    t = taints(bs)
    well_formed(list(t.regions()), bs, "the regions")
    cover("done")


@entry
def regions_of_bytes():
    bs = some_bytes(N)
    for a in range(len(bs)):
        for b in range(a):
            if bs[a][0] == bs[b][0]:
                assume(bs[a][1] != bs[b][1])
    rs = list(Taints.to_regions([ByteOffset(INPUTS[i], o) for i, o in bs]))
    well_formed(rs, bs, "the regions")
    for p, q in zip(rs, rs[1:]):
        check(disj(p.source.uid < q.source.uid, p.source.path != q.source.path, p.offset < q.offset), "the regions are in order")
    cover("done")


@entry
def members():
    bs = some_bytes(N)
    t = taints(bs)
    got = list(t)
    check(len(got) == len(t), "the number of bytes is the number listed")
    check(bool(t) == bool(bs), "a set is true exactly if it is not empty")
    check(len({x.path for x in t.sources()}) == len({i for i, _ in bs}), "the sources are those of the bytes")
    for i, o in bs:
        check(disj(*[conj(g.source.path == PATHS[i], g.offset == o) for g in got]), "every byte is listed")
    for a, g in enumerate(got):
        check(disj(*[conj(g.source.path == PATHS[i], g.offset == o) for i, o in bs]), "no other byte is listed")
        for h in got[:a]:
            if h.source.path == g.source.path:
                check(h.offset < g.offset, "the bytes of a source are listed once, in order")
    one = list(t.from_source(INPUTS[0]))
    for g in one:
        check(g.source.path == "a", "the bytes of a source belong to it")
        check(disj(*[o == g.offset for i, o in bs if i == 0]), "the bytes of a source are in the set")
    for i, o in bs:
        if i == 0:
            check(disj(*[g.offset == o for g in one]), "every byte of a source is given")
    cover("done")


@entry
def difference():
    n = 3 if THOROUGH else 2
    a, b = some_bytes(n, "first"), some_bytes(n, "second")
    d = taints(a).diff(taints(b))
    one, two = list(d.bytes_only_in_first), list(d.bytes_only_in_second)
    missing = False
    for mine, other, got in ((a, b, one), (b, a, two)):
        for i, o in mine:
            inother = disj(*[o == p for j, p in other if j == i])
            listed = disj(*[o == g.offset for g in got if g.source.path == PATHS[i]])
            check(listed == neg(inother), "the difference lists exactly the bytes in one set but not the other")
            missing = disj(missing, neg(inother))
        for k, g in enumerate(got):
            check(disj(*[conj(g.source.path == PATHS[i], g.offset == o) for i, o in mine]), "the difference lists bytes of the set only")
            for h in got[:k]:
                check(disj(g.source.path != h.source.path, g.offset != h.offset), "no byte is listed twice")
    check(bool(d) == missing, "two sets differ exactly if one has a byte the other has not")
    for got, rs in ((one, d.regions_only_in_first), (two, d.regions_only_in_second)):
        well_formed(list(rs), [(PATHS.index(g.source.path), g.offset) for g in got], "the regions of the difference")
    cover("done")


@entry
def search():
    n = 4
    content = sym_bytes("content", n)
    inp = Input(3, "a", n, content=content)
    inset = [choose("tainted", 2) for _ in range(n)]
    t = Taints([ByteOffset(inp, i) for i in range(n) if inset[i]])
    k = 1 + choose("length", 2)
    want = sym_bytes("wanted", k)
    got = list(t.find(want))
    for x in range(n - k + 1):
        here = conj(all(inset[x:x + k]), *[content[x + i] == want[i] for i in range(k)])
        times = sum([ite(r.offset == x, 1, 0) for r in got]) if got else 0
        check(times == ite(here, 1, 0), "every match in tainted bytes is found once, and nothing else")
    for r in got:
        check(conj(r.length == k, r.offset + k <= n), "a match has the length that was looked for")
        cover("match")
    check((want in t) == bool(got), "containment is having a match")
    cover("done")


@entry
def slices():
    n = choose("length", 5)
    base = sym("base", 0, BIG)
    r = TaintedRegion(INPUTS[0], base, n)
    where = list(range(n))
    lo = choose("start", 14) - 6
    hi = choose("stop", 14) - 6
    s = slice(None if lo == 7 else lo, None if hi == 7 else hi)
    got = r[s]
    want = where[s]
    check(got.source == INPUTS[0], "a part belongs to the same input")
    check(got.length == len(want), "a part has the bytes of the slice")
    if want:
        check(got.offset == base + want[0], "a part has the bytes of the slice")
    k = choose("index", 6)
    try:
        x = r[k]
    except IndexError:
        check(k >= n, "every byte of a region can be had")
    else:
        check(conj(k < n, x.offset == base + k, x.length == 1), "a byte of a region is the one at that place")
    cover("done")


@entry
def values():
    n = 4
    content = sym_bytes("content", n)
    inp = Input(3, "a", n, content=content)
    off = choose("offset", n + 1)
    k = choose("length", n - off + 1)
    v = TaintedRegion(inp, off, k).value
    check(len(v) == k, "the value of a region has its length")
    check(conj(*[v[i] == content[off + i] for i in range(k)]), "the value of a region is the input's content there")
    cover("done")


@entry
def chunks():
    n = choose("number", N + 1)
    xs = [sym("offset", 0, BIG) for _ in range(n)]
    got = list(FunctionInfo.tainted_chunks(xs))
    probe = sym("probe", -1, BIG + 8)
    check(disj(*[conj(a <= probe, probe < b) for a, b in got]) == disj(*[x == probe for x in xs]), "the chunks cover exactly the bytes")
    for a, b in got:
        check(a < b, "chunks are not empty")
    for (_, b), (a, _) in zip(got, got[1:]):
        check(b < a, "chunks are maximal, disjoint and in order")
    cover("done")


@entry
def outputs():
    a = TaintOutput(INPUTS[0], sym("offset", 0, BIG, wide=True), sym("label", 0, 100, wide=True))
    b = TaintOutput(INPUTS[0], sym("offset", 0, BIG, wide=True), sym("label", 0, 100, wide=True))
    check(disj(neg(a == b), hash(a) == hash(b)), "equal outputs have equal hashes")
    check(len({a, a}) == 1, "outputs can be collected in sets")
    cover("done")
