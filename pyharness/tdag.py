"""Builds trace files for the readers."""


def le(v, n):
    """n bytes of an integer, least significant first"""
    return [(v >> (8 * i)) & 0xFF for i in range(n)]


def u64_of(b):
    """the integer of 8 bytes (without a fork)"""
    r = 0
    for i, x in enumerate(b):
        r = r + (x << (8 * i))
    return r


def section_meta(tag, align, offset, size):
    return le(tag, 4) + le(align, 4) + le(offset, 8) + le(size, 8)


def trace(sections, magic=0x1234):
    """sections: [(tag, align, bytes)], laid out one after the other"""
    n = len(sections)
    head = list(b"TDAG") + le(magic, 2) + le(n, 2)
    off = 8 + 24 * n
    body = []
    for tag, align, data in sections:
        pad = -off % max(align, 1)
        body += [0] * pad
        off += pad
        head += section_meta(tag, align, off, len(data))
        body += list(data)
        off += len(data)
    return VF.make_bytes(head + body)


SOURCES, LABELS, STRINGS, SINKS, INDEX, FUNCTIONS, EVENTS, CFLOG = 1, 2, 3, 4, 5, 6, 7, 8


def string(s):
    if isinstance(s, str):
        s = s.encode()
    return le(len(s), 2) + list(s) + [0] * (len(s) % 2)


def source_entry(name_offset, fd, size):
    return le(name_offset, 4) + le(fd & 0xFFFFFFFF, 4) + le(size, 8)


def sink_entry(offset, label, fdidx):
    return le(offset, 8) + le(label, 4) + le(fdidx, 1) + [0, 0, 0]


def bitmap(bits):
    """bits: list of booleans (or symbolic booleans)"""
    words = []
    for i in range(0, len(bits), 64):
        w = 0
        for k, b in enumerate(bits[i:i + 64]):
            w = w + VF.ite(b, 1 << k, 0)
        words += le(w, 8)
    return words


def source_word(idx, offset, cf):
    return (1 << 63) + VF.ite(cf, 1 << 62, 0) + (offset << 8) + idx


def pair_word(first, second, cf):
    return VF.ite(cf, 1 << 62, 0) + (first << 31) + second


def minimal(labels, names=("a",), sources=None, sinks=(), index=None, sizes=None):
    """A trace with these label words; sources: index into names"""
    strs, offs = [], []
    for n in names:
        offs.append(len(strs))
        strs += string(n)
    if sources is None:
        sources = range(len(names))
    src = []
    for i, k in enumerate(sources):
        src += source_entry(offs[k], 3 + i, (sizes or {}).get(i, 0xFFFFFFFFFFFFFFFF))
    lab = []
    for w in labels:
        lab += le(w, 8)
    snk = []
    for s in sinks:
        snk += sink_entry(*s)
    idx = bitmap(index) if index is not None else []
    return trace([(SOURCES, 8, src), (LABELS, 8, lab), (STRINGS, 4, strs), (SINKS, 8, snk), (INDEX, 8, idx), (FUNCTIONS, 4, []), (EVENTS, 4, [])])
