// @sources dfsan
// @bound any labels on 6 (thorough: 10) program bytes, any range within them; a bulk clear of 9000 to 17000 bytes from four starting points
// @bound address map: no bound - any two program addresses
// @assume labels are bit sets and the label union (decided by C03) is a stand-in that joins them
#include "dfsan/dfsan.h"
#include "dfs.h"
extern "C" dfsan_label __dfsan_union(dfsan_label, dfsan_label);
extern "C" void __dfsan_set_label(dfsan_label, dfsan_origin, void *, uptr);
extern "C" dfsan_label __dfsan_union_load(const dfsan_label *, uptr);
extern "C" dfsan_label __polytracker_union_table(const dfsan_label &a, const dfsan_label &b) {
  vf_assert(a != 0 && b != 0, "untainted operands make no union");
  vf_assert(a != b, "equal operands make no union");
  return a | b;
}
static constexpr unsigned N = BOUND(6, 10);
static uint32_t old[N + 2];
static void setup(unsigned bits) {
  app_memory(N + 2);
  for (unsigned i = 0; i < N + 2; i++) {
    old[i] = (uint32_t)vf_sym("label", bits);
    shadow[i] = old[i];
  }
  vf_sym_bytes(app, N + 2, "byte");
}
struct Range {
  size_t off, n;
  bool has(size_t i) const { return (int)(off <= i) & (int)(i < off + n); }
};
static Range range(size_t max) {
  Range r{vf_upto("offset", N + 1), vf_upto("size", max)};
  vf_assume(r.off + r.n <= N + 2);
  return r;
}
VF_ENTRY set_label() {
  setup(32);
  Range r = range(N);
  uint32_t l = SYM32("new");
  uint8_t before = app[3];
  dfsan_set_label(l, app + r.off, r.n);
  for (unsigned i = 0; i < N + 2; i++)
    vf_assert(shadow[i] == (r.has(i) ? l : old[i]), "setting labels exactly the bytes of the range");
  vf_assert(app[3] == before, "setting a label leaves the bytes alone");
  vf_cover("set");
}
VF_ENTRY set_label_instrumented() {
  setup(32);
  Range r = range(N);
  uint32_t l = SYM32("new");
  __dfsan_set_label(l, 0, app + r.off, r.n);
  for (unsigned i = 0; i < N + 2; i++)
    vf_assert(shadow[i] == (r.has(i) ? l : old[i]), "setting labels exactly the bytes of the range");
  vf_cover("set");
}
VF_ENTRY add_label() {
  setup(4);
  Range r = range(4);
  uint32_t l = (uint32_t)vf_sym("new", 4);
  dfsan_add_label(l, app + r.off, r.n);
  for (unsigned i = 0; i < N + 2; i++)
    vf_assert(shadow[i] == (r.has(i) ? old[i] | l : old[i]), "adding joins the label to exactly the bytes of the range");
  vf_cover("add");
}
VF_ENTRY read_label() {
  setup(4);
  Range r = range(4);
  uint32_t l = dfsan_read_label(app + r.off, r.n);
  uint32_t want = 0;
  for (unsigned i = 0; i < N + 2; i++)
    want |= (0u - (uint32_t)r.has(i)) & old[i];
  vf_assert(l == want, "reading a range gives the union of the labels of its bytes");
  for (unsigned i = 0; i < N + 2; i++)
    vf_assert(shadow[i] == old[i], "reading changes no label");
  vf_cover("read");
}
VF_ENTRY load_labels() {
  setup(4);
  Range r = range(4);
  vf_assume(r.n >= 1);
  uint32_t l = __dfsan_union_load(shadow + r.off, r.n);
  uint32_t want = 0;
  for (unsigned i = 0; i < N + 2; i++)
    want |= (0u - (uint32_t)r.has(i)) & old[i];
  vf_assert(l == want, "a load gives the union of the labels of its bytes");
  vf_cover("load");
}
VF_ENTRY unions() {
  uint32_t a = SYM32("a"), b = SYM32("b");
  vf_assert(dfsan_union(a, b) == (a | b), "the union of two labels");
  if (a != b) {
    vf_assert(__dfsan_union(a, b) == (a | b), "the union of two different labels");
    vf_cover("different");
  }
  vf_cover("union");
}
// Clearing many bytes gives whole pages back to the system.
static uintptr_t released_from, released_to;
extern "C" void vfx__ZN11__sanitizer22ReleaseMemoryPagesToOSEmm(uintptr_t a, uintptr_t b) {
  vf_assert(a % 4096 == 0 && b % 4096 == 0 && a < b, "only whole pages are given back");
  released_from = a;
  released_to = b;
  for (uintptr_t p = a; p < b; p += 4)
    *(uint32_t *)p = 0;
}
// @symir --max-inst 60000000
VF_ENTRY clear_many() {
  constexpr unsigned TOTAL = 20480;
  static const unsigned starts[] = {1, 0, 1000, 1023}, sizes[] = {9000, 16384, 9216, 17000};
  vf_map(APP, 4096);
  vf_map(SHADOW, 4 * TOTAL);
  unsigned s = starts[vf_concretize(vf_upto("start", 3))], n = sizes[vf_concretize(vf_upto("bytes", 3))];
  for (unsigned i = 0; i < TOTAL; i++)
    shadow[i] = 0x01000100;
  dfsan_set_label(0, (void *)(APP + s), n);
  for (unsigned p = 0; p < TOTAL; p++)
    vf_assert(shadow[p] == (p >= s && p < s + n ? 0 : 0x01000100), "clearing clears exactly the bytes of the range");
  vf_cover("clear");
}
// No two program bytes share a label cell, and cells lie outside program memory.
VF_ENTRY address_map() {
  uintptr_t p = SYM64("p"), q = SYM64("q");
  vf_assume(p >= 0x700000008000ull && p < 0x800000000000ull && q >= 0x700000008000ull && q < 0x800000000000ull && p != q);
  uintptr_t s = (uintptr_t)__dfsan::shadow_for((const void *)p), t = (uintptr_t)__dfsan::shadow_for((const void *)q);
  vf_assert(s + 4 <= t || t + 4 <= s, "two program bytes have separate labels");
  vf_assert(s >= 0x10000 && s + 4 <= 0x400000000000ull, "labels lie in the shadow region");
  if (q == p + 1)
    vf_assert(t == s + 4, "labels of neighbouring bytes are neighbours");
  vf_cover("map");
}
