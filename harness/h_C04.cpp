// @sources dag
// @bound any label table of up to 4 (thorough: 5) labels with arbitrary contents and marks, then any two operations with any arguments
// @bound three threads that make labels, with up to 2 preemptions
// @bound 130 labels of which three have arbitrary contents, then any union of two input bytes
#include "table.h"

// Any two operations on an arbitrary table.
template <unsigned N, unsigned OPS> static void history() {
  constexpr unsigned CAP = N + 2 * OPS;
  Table<N, CAP> t;
  uint64_t snap[CAP + 1];
  unsigned n = N;
  for (unsigned k = 0; k < OPS; k++) {
    for (unsigned i = 0; i < CAP; i++)
      snap[i] = t.mem[i];
    unsigned op = vf_concretize(vf_upto("op", 2));
    bool marking = false;
    unsigned made = 0;
    if (op == 0) {
      uint8_t src = SYM8("source");
      uint64_t off = vf_upto("offset", (1ull << 54) - 4);
      unsigned len = 1 + vf_concretize(vf_upto("len", 1));
      auto r = t.L.create_source_labels(src, off, len);
      vf_assert(r.first == n && r.second == n + len - 1, "source labels are numbered consecutively after the existing ones");
      made = len;
      for (unsigned i = 0; i < len; i++) {
        auto x = t.L.read_label(n + i);
        auto *s = std::get_if<SourceTaint>(&x);
        vf_assert(s && s->index == src && s->offset == off + i && !s->affects_control_flow, "a new source label denotes its byte");
      }
      vf_cover("source");
    } else if (op == 1) {
      label_t l = vf_upto("l", n - 1), r = vf_upto("r", n - 1);
      vf_assume(l >= 1 && r >= 1);
      label_t u = t.L.union_taint(l, r);
      made = t.L.count() > n;
      vf_assert(l != r || u == l, "combining a label with itself yields that label");
      vf_assert(l != r || !made, "combining a label with itself makes no label");
      vf_assert(made ? u == n : u < n, "the result exists, and a new one has the next number");
      vf_assert(!made || !(t.mem[n] & CF), "a new union is not marked");
      uint32_t den[CAP];
      t.meaning(den);
      uint32_t dl = 0, dr = 0, du = 0;
      for (unsigned i = 1; i < CAP; i++) {
        dl |= when(l == i, den[i]);
        dr |= when(r == i, den[i]);
        du |= when(u == i, den[i]);
      }
      vf_assert(du == (dl | dr), "the result denotes exactly what was asked for");
      vf_cover("union");
      if (k + 1 == OPS) {
        label_t v = t.L.union_taint(l, r);
        vf_assert(v == u && t.L.count() == n + made, "combining the same labels again yields the same label");
      }
    } else {
      label_t l = vf_upto("l", n - 1);
      vf_assume(l >= 1);
      t.L.affects_control_flow(l);
      marking = true;
      vf_cover("mark");
    }
    vf_assert(t.L.count() == n + made, "only the labels asked for are made");
    for (unsigned i = 0; i < n; i++) {
      vf_assert((t.mem[i] & ~CF) == (snap[i] & ~CF), "an existing label keeps its meaning");
      vf_assert((t.mem[i] & snap[i] & CF) == (snap[i] & CF), "a mark is never lost");
      if (!marking)
        vf_assert(t.mem[i] == snap[i], "only branches mark labels");
    }
    for (unsigned i = n + made; i < CAP; i++)
      vf_assert(t.mem[i] == snap[i], "storage that is not in use is not written");
    n += made;
  }
}
VF_ENTRY history_4() { history<BOUND(4, 4), 2>(); }
// one operation on a larger table
VF_ENTRY history_6() { history<BOUND(5, 7), 1>(); }

// A long table: a label found again further back is the one asked for.
VF_ENTRY reuse_far_back() {
  constexpr unsigned N = 130;
  NoFile nf;
  auto mem = fresh((N + 4) * 8);
  uint64_t *w = (uint64_t *)mem.data();
  Labels L{SectionArg<NoFile>{nf, mem}};
  L.create_source_labels(0, 0, N - 1);
  unsigned at[3] = {129, 60, 21};
  for (unsigned i = 0; i < 3; i++) {
    uint64_t x = SYM64("word");
    uint64_t a = (x >> 31) & 0x7fffffff, b = x & 0x7fffffff;
    vf_assume((int)(x >> 63) | ((int)(a != b) & (int)(a != b + 1) & (int)(a >= 1) & (int)(b >= 1) & (int)(a <= 20) & (int)(b <= 20)));
    w[at[i]] = x;
  }
  uint64_t old[3] = {w[129], w[60], w[21]};
  label_t l = vf_upto("l", 20), r = vf_upto("r", 20);
  vf_assume(l >= 1 && r >= 1 && l != r);
  label_t u = L.union_taint(l, r);
  auto ok = [&](uint64_t x) {
    uint64_t a = (x >> 31) & 0x7fffffff, b = x & 0x7fffffff;
    uint64_t lo = l < r ? l : r, hi = l < r ? r : l;
    bool adj = hi == lo + 1;
    return (int)!(x >> 63) & (((int)adj & (int)(a == lo) & (int)(b == hi)) | ((int)!adj & (int)(a == hi) & (int)(b == lo)));
  };
  vf_assert(u > l && u > r, "the result is younger than its operands");
  if (L.count() == N) {
    vf_assert((int)(u == 129) | (int)(u == 60) | (int)(u == 21), "a reused label is a union");
    vf_assert(u == 129 ? ok(w[129]) : u == 60 ? ok(w[60]) : ok(w[21]), "a reused label denotes what was asked for");
    vf_cover("reused");
  } else {
    vf_assert(u == N && ok(w[N]) && !(w[N] & CF) && !(w[N] >> 63), "a new label denotes what was asked for");
    vf_cover("made");
  }
  vf_assert(w[129] == old[0] && w[60] == old[1] && w[21] == old[2], "existing labels are unchanged");
}

// Threads that make labels at the same time.
static Labels *shared;
static label_t got[3];
static void join_13(void *) { got[0] = shared->union_taint(1, 3); }
static void join_42(void *) { got[1] = shared->union_taint(4, 2); }
static void more_bytes(void *) {
  auto r = shared->create_source_labels(7, 1000, 2);
  got[2] = r.first;
  vf_assert(r.second == r.first + 1, "source labels are consecutive");
}
static bool is_union(uint64_t w, label_t l, label_t r) {
  return w == (((uint64_t)(l > r ? l : r) << 31) | (l > r ? r : l));
}
// @symir --preempt 2
VF_ENTRY concurrent_labels() {
  NoFile nf;
  auto mem = fresh(16 * 8);
  uint64_t *w = (uint64_t *)mem.data();
  Labels L{SectionArg<NoFile>{nf, mem}};
  L.create_source_labels(0, 0, 4);
  uint64_t old[5];
  for (unsigned i = 0; i < 5; i++)
    old[i] = w[i];
  shared = &L;
  vf_spawn(join_13, nullptr);
  vf_spawn(join_42, nullptr);
  vf_spawn(more_bytes, nullptr);
  vf_join_all();
  vf_assert(L.count() == 9, "every label asked for is made");
  for (unsigned i = 0; i < 3; i++)
    vf_assert(got[i] >= 5 && got[i] < 9, "the labels handed out exist");
  vf_assert(is_union(w[got[0]], 1, 3) && is_union(w[got[1]], 4, 2), "each thread gets the union it asked for");
  vf_assert(w[got[2]] == (SRC | 1000 << 8 | 7) && w[got[2] + 1] == (SRC | 1001 << 8 | 7), "each thread gets the bytes it asked for");
  for (unsigned i = 0; i < 5; i++)
    vf_assert(w[i] == old[i], "existing labels are unchanged");
  vf_cover("done");
}
// Two threads that ask for the same union.
// @symir --preempt 2
VF_ENTRY concurrent_same_union() {
  NoFile nf;
  auto mem = fresh(16 * 8);
  uint64_t *w = (uint64_t *)mem.data();
  Labels L{SectionArg<NoFile>{nf, mem}};
  L.create_source_labels(0, 0, 4);
  shared = &L;
  vf_spawn(join_13, nullptr);
  vf_spawn([](void *) { got[1] = shared->union_taint(3, 1); }, nullptr);
  vf_spawn([](void *) { shared->affects_control_flow(2); }, nullptr);
  vf_join_all();
  for (unsigned i = 0; i < 2; i++)
    vf_assert(got[i] >= 5 && got[i] < L.count() && is_union(w[got[i]], 1, 3), "each thread gets the union it asked for");
  vf_assert(L.count() <= 7, "no more labels are made than asked for");
  vf_cover("done");
}
