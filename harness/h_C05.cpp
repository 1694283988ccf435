// @sources dag
// @bound any label table of up to 5 (thorough: 6) labels with arbitrary contents, and marks closed under ancestry; any label marked
// @bound a table of 6 (thorough: 7) labels of which the first five are given and the others arbitrary
// @bound queue: any 7 (thorough: 9) operations on a queue of 4 slots, 33 to 40 entries in the queue of 32 slots
// @bound a range over 40 unions, arbitrary in two places
#include "table.h"

static bool x_marked(uint32_t m, unsigned i) { return (m >> i) & 1; }
template <unsigned N> static void marks(Table<N, N> &t) {
  // ancestors as bit sets, branch-free
  uint32_t anc[N];
  uint32_t marked = 0;
  anc[0] = 0;
  for (unsigned i = 1; i < N; i++) {
    uint64_t x = t.mem[i];
    uint32_t a = (uint32_t)(x >> 31) & 0x7fffffff, b = (uint32_t)x & 0x7fffffff;
    uint32_t s = 0;
    for (unsigned j = 1; j < i; j++)
      s |= when(((int)(a <= j) & (int)(j <= b)) | (int)(a == j) | (int)(b == j), anc[j]);
    anc[i] = (1u << i) | when(!(x >> 63), s);
    marked |= when((x >> 62) & 1, 1u << i);
  }
  // marks are closed under ancestry, as every earlier branch has left them
  uint32_t want = 0;
  for (unsigned i = 1; i < N; i++)
    want |= when((x_marked(marked, i)), anc[i]);
  vf_assume(want == marked);
  label_t l = vf_upto("l", N - 1);
  vf_assume(l >= 1);
  t.L.affects_control_flow(l);
  uint32_t now = 0;
  for (unsigned i = 1; i < N; i++) {
    vf_assert((t.mem[i] & ~CF) == (t.old[i] & ~CF), "marking changes nothing but the marks");
    now |= when((t.mem[i] >> 62) & 1, 1u << i);
  }
  vf_assert(t.mem[0] == t.old[0], "the untainted label is never marked");
  vf_assert((anc[l] & ~now) == 0, "the label and everything it derives from is marked");
  vf_assert((marked & ~now) == 0, "earlier marks are kept");
  vf_assert((now & ~(marked | anc[l])) == 0, "nothing else is marked");
  vf_assert(t.L.count() == N, "marking makes no label");
}

VF_ENTRY mark_table() { Table<BOUND(5, 6), BOUND(5, 6)> t; marks(t); vf_cover("done"); }

// A deeper table whose lower labels are given.
VF_ENTRY mark_nested() {
  constexpr unsigned N = BOUND(7, 8);
  Table<N, N> t(1);
  marks(t);
  vf_cover("done");
}

// The queue behind the marking is a queue, also when it moves to the heap.
template <unsigned S, unsigned OPS> static void queue(unsigned prefill) {
  utils::LabelDeq<S> q;
  label_t model[OPS + 48];
  unsigned head = 0, tail = 0;
  for (unsigned i = 0; i < prefill; i++) {
    model[tail] = SYM32("label");
    q.push_back(model[tail++]);
  }
  for (unsigned i = 0; i < OPS; i++) {
    bool push = vf_concretize(vf_upto("push", 1));
    if (push) {
      model[tail] = SYM32("label");
      q.push_back(model[tail++]);
    } else {
      vf_assert(q.empty() == (head == tail), "the queue is empty exactly when everything was taken");
      if (head == tail)
        continue;
      vf_assert(q.pop_front() == model[head++], "entries come out in the order they went in");
    }
  }
  while (head != tail) {
    vf_assert(!q.empty(), "no entry is lost");
    vf_assert(q.pop_front() == model[head++], "remaining entries come out in order");
  }
  vf_assert(q.empty(), "no entry is invented");
}
VF_ENTRY queue_4() { queue<4, BOUND(7, 9)>(0); vf_cover("done"); }
VF_ENTRY queue_32() { queue<32, 3>(27 + vf_concretize(vf_upto("prefill", 13))); vf_cover("done"); }

// A range over more unions than the queue has slots.
VF_ENTRY mark_wide_range() {
  constexpr unsigned S = 4, U = 40, N = S + U + 2;
  NoFile nf;
  auto mem = fresh((N + 1) * 8);
  uint64_t *w = (uint64_t *)mem.data();
  Labels L{SectionArg<NoFile>{nf, mem}};
  L.create_source_labels(0, 0, N - 1);
  // labels 1..4 are bytes, 5..44 unions of 4 and 2, two of them arbitrary
  for (unsigned i = S + 1; i <= S + U; i++)
    w[i] = (4ull << 31) | 2;
  unsigned at[2] = {S + 2, S + 35};
  for (unsigned k = 0; k < 2; k++) {
    uint64_t x = SYM64("word");
    uint64_t a = (x >> 31) & 0x7fffffff, b = x & 0x7fffffff;
    vf_assume(!(x >> 62) && a != b && a != b + 1 && a >= 1 && b >= 1 && a <= S && b <= S);
    w[at[k]] = x;
  }
  w[N - 1] = ((uint64_t)(S + 1) << 31) | (S + U);
  uint64_t old[N];
  for (unsigned i = 0; i < N; i++)
    old[i] = w[i];
  auto covers = [](uint64_t x, unsigned i) {
    uint64_t a = (x >> 31) & 0x7fffffff, b = x & 0x7fffffff;
    return ((int)(a <= i) & (int)(i <= b)) | (int)(a == i) | (int)(b == i);
  };
  L.affects_control_flow(N - 1);
  for (unsigned i = S + 1; i < N; i++)
    vf_assert(w[i] == (old[i] | CF), "every union in the range is marked");
  for (unsigned i = 1; i <= S; i++) {
    bool want = covers(old[at[0]], i) | covers(old[at[1]], i) | (int)(i == 2) | (int)(i == 4);
    vf_assert(w[i] == (want ? old[i] | CF : old[i]), "exactly the bytes of the unions are marked");
  }
  vf_cover("done");
}
