"""Label tables in which everything is symbolic, and what they mean."""
from tdag import *


class Table:
    """Labels 1 to n: each a source, a union of two earlier labels or a range of earlier labels.
    closed: a label that affects control flow is made of source bytes that do (what the runtime
    guarantees).
    shape: {label: "source" (at offset label - 1) or (kind, high label or None, highest label)}"""

    def __init__(self, n, files=2, offsets=(1 << 54) - 1, wide=True, closed=False, shape=None):
        v = VF
        self.n = n
        self.kind, self.first, self.last = [None], [None], [None]
        self.idx, self.off, self.cf = [None], [None], [False]
        self.words = [0]
        self.reach = [[False] * (n + 1)]
        self.member = [[False] * (n + 1)]
        for i in range(1, n + 1):
            plan = shape[i] if shape else None
            kind = (0 if plan == "source" else plan[0]) if plan else v.sym("kind", 0, 2) if i > 2 else 0
            cf = v.flag("cf")
            idx = v.sym("index", 0, files - 1)
            off = i - 1 if plan else v.sym("offset", 0, offsets)
            w = source_word(idx, off, cf)
            lo = hi = 0
            if i > 2:
                top = plan[2] if plan and plan != "source" else i - 1
                lo, hi = v.sym("low", 1, top), v.sym("high", 1, top)
                if plan and plan != "source" and plan[1]:
                    hi = plan[1]
                v.assume(lo < hi)
                pw = v.ite(kind == 1, pair_word(hi, lo, cf), pair_word(lo, hi, cf))
                w = v.ite(kind == 0, w, pw)
            self.kind.append(kind), self.first.append(lo), self.last.append(hi)
            self.idx.append(idx), self.off.append(off), self.cf.append(cf)
            self.words.append(w)
            # the labels it is directly made of
            mem = [False] * (n + 1)
            for k in range(1, i):
                if i > 2:
                    mem[k] = v.disj(v.conj(kind == 1, v.disj(k == lo, k == hi)), v.conj(kind == 2, k >= lo, k <= hi))
            self.member.append(mem)
            r = [False] * (n + 1)
            r[i] = kind == 0
            for j in range(1, i):
                r[j] = v.disj(*[v.conj(mem[k], self.reach[k][j]) for k in range(1, i)])
            self.reach.append(r)
        if closed:
            for i in range(1, n + 1):
                for k in range(1, i):
                    v.assume(v.disj(v.neg(self.cf[i]), v.neg(self.member[i][k]), self.cf[k]))

    def source(self, j):
        return self.kind[j] == 0

    def reaches(self, label, j):
        """whether a (symbolic) label is made of source label j"""
        return VF.disj(*[VF.conj(label == i, self.reach[i][j]) for i in range(1, self.n + 1)])

    def index(self):
        return [False] + [self.kind[i] == 0 for i in range(1, self.n + 1)]


def chain(n, last_offset):
    """Sources and unions in turn, each union made of the previous source and the previous union;
    offsets 0, 1, 2, ... except for the source of label 2."""
    words, offs = [0, source_word(0, 0, False), source_word(0, last_offset, False)], {1: 0, 2: last_offset}
    prev = 1
    lab = 2
    k = 1
    while True:
        words.append(pair_word(lab, prev, False))
        prev = lab + 1
        if len(words) >= n:
            break
        lab = prev + 1
        words.append(source_word(0, k, False))
        offs[lab] = k
        k += 1
    return words, offs, prev
