// @sources dag
// @bound bitmaps of 20 bits in 8-bit words, 64 bits in 32-bit words and 150 bits in 64-bit words; any two (thorough: three) updates with any 64-bit arguments
// @bound two concurrent updates with any bits, up to 2 (thorough: 3) preemptions
#include "taintdag/outputfile.h"
#include "taintdag/bitmap_section.h"
#include "table.h"
template <unsigned BITS, typename W> struct Bits {
  using B = BitmapSectionBase<5, BITS, W>;
  std::span<uint8_t> mem;
  B b;
  Bits() : mem{fresh(B::allocation_size)}, b{mem} {}
  static constexpr unsigned BPW = sizeof(W) * 8;
  // contents as the reader sees them: bit i of word i / bits-per-word
  bool at(unsigned i) const { return ((W *)mem.data())[i / BPW] >> (i % BPW) & 1; }
};
typedef unsigned _BitInt(256) big;
template <unsigned BITS, typename W, unsigned OPS> static void updates() {
  Bits<BITS, W> s;
  constexpr unsigned BPW = sizeof(W) * 8;
  uint64_t first[OPS], last[OPS]; // covered bits, first <= last
  bool any[OPS];
  auto covered = [&](unsigned k, uint64_t bit) {
    int r = 0;
    for (unsigned i = 0; i < k; i++)
      r |= (int)any[i] & (int)(first[i] <= bit) & (int)(bit <= last[i]);
    return (bool)r;
  };
  vf_assert(s.b.size() == 0, "an unused bitmap is empty");
  for (unsigned k = 0; k < OPS; k++) {
    uint64_t f = SYM64("bit");
    first[k] = f;
    if (vf_concretize(vf_upto("range", 1))) {
      uint64_t n = SYM64("count");
      bool ok = (int)(n == 0) | ((int)(f < BITS) & (int)(n <= BITS - f));
      vf_exit_ok(!ok);
      s.b.set_range(f, n);
      vf_assert(ok, "an update beyond the capacity stops the run");
      any[k] = n != 0;
      last[k] = f + n - 1;
    } else {
      bool ok = f < BITS;
      vf_exit_ok(!ok);
      bool was = s.b.set(f);
      vf_assert(ok, "an update beyond the capacity stops the run");
      vf_assert(was == covered(k, f), "setting a bit tells whether it was set");
      any[k] = true;
      last[k] = f;
    }
    vf_exit_ok(0);
  }
  unsigned probe = vf_upto("probe", Bits<BITS, W>::B::allocation_size * 8 - 1);
  bool want = covered(OPS, probe);
  vf_assert(s.at(probe) == want, "a bit is stored exactly if an update covered it");
  if (probe < BITS)
    vf_assert(s.b.is_set(probe) == want, "a bit is reported exactly if an update covered it");
  uint64_t words = 0;
  for (unsigned k = 0; k < OPS; k++) {
    uint64_t w = any[k] ? last[k] / BPW + 1 : 0;
    words = w > words ? w : words;
  }
  vf_assert(s.b.size() <= Bits<BITS, W>::B::allocation_size, "the size stays within the section");
  vf_assert(s.b.size() == words * sizeof(W), "the size covers the words up to the last set bit");
}
VF_ENTRY updates_8() { updates<20, uint8_t, BOUND(2, 3)>(); vf_cover("done"); }
VF_ENTRY updates_32() { updates<64, uint32_t, BOUND(2, 3)>(); vf_cover("done"); }
VF_ENTRY updates_64() { updates<150, uint64_t, 2>(); vf_cover("done"); }
// bits beyond the capacity, for queries
VF_ENTRY query_bounds() {
  Bits<20, uint8_t> s;
  uint64_t i = SYM64("bit");
  vf_exit_ok(i >= 20);
  vf_cover("asked");
  bool r = s.b.is_set(i);
  vf_assert(i < 20, "a query beyond the capacity stops the run");
  vf_assert(!r, "no bit is set at first");
}
// Concurrent updates of the same words.
static Bits<20, uint8_t> *shared;
static struct { bool range; unsigned first, n; } op[2];
static void updater(void *a) {
  auto &o = op[(uintptr_t)a];
  if (o.range)
    shared->b.set_range(o.first, o.n);
  else
    shared->b.set(o.first);
}
// @symir --preempt 2
VF_ENTRY concurrent_updates() {
  Bits<20, uint8_t> s;
  shared = &s;
  big model = 0;
  static const unsigned starts[] = {2, 8, 13, 18}, counts[] = {2, 8, 11};
  for (unsigned i = 0; i < 2; i++) {
    op[i].range = vf_concretize(vf_upto("range", 1));
    op[i].first = starts[vf_concretize(vf_upto("first", 3))];
    op[i].n = op[i].range ? counts[vf_concretize(vf_upto("count", 2))] : 1;
    vf_assume(op[i].first + op[i].n <= 20);
    model |= (((big)1 << op[i].n) - 1) << op[i].first;
  }
  vf_spawn(updater, (void *)0);
  vf_spawn(updater, (void *)1);
  vf_join_all();
  uint64_t last = 0;
  for (unsigned w = 0; w < 3; w++) {
    vf_assert(s.mem[w] == (uint8_t)(model >> (8 * w)), "no update is lost and nothing else is set");
    last = s.mem[w] ? w + 1 : last;
  }
  vf_assert(s.b.size() == last, "the size covers the words up to the last set bit");
  vf_cover("done");
}
