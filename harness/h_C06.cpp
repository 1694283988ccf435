// @sources dag dfsan
// @bound up to 3 (thorough: 5) bytes tainted at any offset, after up to 2 (thorough: 4) earlier input bytes, and then up to 2 more; any descriptors
// @bound label tables of 8 entries for exhaustion; labels around number 64 for the record of input labels
// @assume open, ftruncate, mmap and file_size succeed; the output file is memory
#include "pt.h"
#include "table.h"
static constexpr unsigned M = BOUND(3, 5);
static uint32_t oldshadow[M + 6];
static void program_memory() {
  app_memory(M + 6);
  for (unsigned i = 0; i < M + 6; i++)
    shadow[i] = oldshadow[i] = SYM32("label");
}
static bool is_input(unsigned label) { return out.bitmap()[label / 64] >> (label % 64) & 1; }
static void expect_labels(unsigned first, unsigned n, uint8_t src, uint64_t off) {
  for (unsigned i = 0; i < n; i++) {
    vf_assert(out.labels()[first + i] == source_word(src, off + i), "the i-th label denotes offset+i of the source");
    vf_assert(is_input(first + i), "the label is recorded as an input byte");
  }
}
static void expect_end(unsigned n) { // n labels in all
  vf_assert(!is_input(0), "the untainted label is no input byte");
  vf_assert(out.labels()[0] == 0, "the untainted label stays untainted");
  for (unsigned i = n; i < n + 70; i++)
    vf_assert(!is_input(i), "labels that do not exist are no input bytes");
  vf_assert(out.labels()[n] == 0, "no other label is made");
  finish();
  vf_assert(out.size(2) == 8 * n, "no other label is counted");
  vf_assert(out.size(5) >= (n > 1 ? (n - 1) / 64 + 1 : 0) * 8, "the record of input labels covers them");
}
// Reads into memory from one of two descriptors.
VF_ENTRY read_into_memory() {
  program_memory();
  auto *t = start();
  int fd1 = (int)SYM32("fd1"), fd2 = (int)SYM32("fd2"), fd = (int)SYM32("fd");
  vf_assume(fd1 >= 0 && fd2 >= 0);
  t->open_file(fd1, "one");
  t->open_file(fd2, "two");
  unsigned pre = vf_concretize(vf_upto("earlier", BOUND(2, 4)));
  if (pre)
    t->source_taint(fd1, util::Offset::from_off_t(7), pre);
  uint8_t presrc = fd1 == fd2 ? 1 : 0;
  unsigned n = vf_concretize(vf_upto("length", M));
  unsigned at = vf_concretize(vf_upto("at", 2));
  uint64_t off = vf_upto("offset", (1ull << 54) - 8);
  auto r = t->source_taint(fd, app + at, util::Offset::from_off_t(off), n);
  bool tracked = fd == fd1 || fd == fd2;
  unsigned src = fd == fd2 ? 1 : 0;
  vf_assert(r.has_value() == tracked, "exactly reads from tracked descriptors are tainted");
  unsigned made = 0;
  expect_labels(1, pre, presrc, 7);
  if (r) {
    if (n)
      vf_assert(r->first == 1 + pre && r->second == pre + n, "fresh consecutive labels");
    expect_labels(1 + pre, n, src, off);
    made = n;
    vf_cover("tracked");
  } else
    vf_cover("untracked");
  for (unsigned i = 0; i < M + 6; i++) {
    bool in = tracked && i >= at && i < at + n;
    vf_assert(shadow[i] == (in ? 1 + pre + (i - at) : oldshadow[i]), "exactly the bytes read are tagged, each with its own label");
  }
  unsigned more = vf_concretize(vf_upto("later", 2));
  uint64_t off2 = vf_upto("offset2", (1ull << 54) - 8);
  if (more) {
    auto r2 = t->source_taint(fd2, util::Offset::from_off_t(off2), more);
    vf_assert(r2 && r2->first == 1 + pre + made && r2->second == pre + made + more, "later labels follow");
    expect_labels(1 + pre + made, more, 1, off2);
    expect_labels(1, pre, presrc, 7);
    if (tracked)
      expect_labels(1 + pre, n, src, off);
  }
  expect_end(1 + pre + made + more);
}
// Memory named as a source of its own.
VF_ENTRY named_memory() {
  program_memory();
  auto *t = start();
  unsigned others = vf_concretize(vf_upto("others", 2));
  for (unsigned i = 0; i < others; i++)
    t->open_file(3 + i, "file");
  unsigned n = vf_concretize(vf_upto("length", M)), at = vf_concretize(vf_upto("at", 2));
  auto r = t->create_taint_source("name", {app + at, n});
  vf_assert(r.has_value(), "the source is made");
  if (n)
    vf_assert(r->first == 1 && r->second == n, "fresh consecutive labels");
  expect_labels(1, n, others, 0);
  for (unsigned i = 0; i < M + 6; i++)
    vf_assert(shadow[i] == (i >= at && i < at + n ? 1 + (i - at) : oldshadow[i]), "exactly the named bytes are tagged");
  auto *s = out.sources() + others;
  vf_assert(s->fd == -1, "named memory belongs to no descriptor");
  expect_end(1 + n);
  vf_assert(out.nsources() == others + 1, "one source is added");
  vf_cover("named");
}
// Labels on both sides of a word of the record of input labels.
VF_ENTRY label_numbers_around_64() {
  auto *t = start();
  t->open_file(3, "one");
  unsigned pre = 60 + vf_concretize(vf_upto("earlier", 5));
  t->source_taint(3, util::Offset::from_off_t(0), pre);
  unsigned n = vf_concretize(vf_upto("length", 6));
  uint64_t off = vf_upto("offset", (1ull << 54) - 8);
  auto r = t->source_taint(3, util::Offset::from_off_t(off), n);
  vf_assert(r.has_value(), "tracked");
  expect_labels(1, pre, 0, 0);
  expect_labels(1 + pre, n, 0, off);
  expect_end(1 + pre + n);
  vf_cover("done");
}
// Unions in between are not recorded as input bytes and keep the numbering.
VF_ENTRY unions_in_between() {
  auto *t = start();
  t->open_file(3, "one");
  t->source_taint(3, util::Offset::from_off_t(0), 3);
  label_t u = t->union_labels(1, 3);
  vf_assert(u == 4, "the union has the next number");
  uint64_t off = vf_upto("offset", (1ull << 54) - 8);
  unsigned n = vf_concretize(vf_upto("length", 3));
  auto r = t->source_taint(3, util::Offset::from_off_t(off), n);
  vf_assert(r.has_value(), "tracked");
  expect_labels(1, 3, 0, 0);
  expect_labels(5, n, 0, off);
  vf_assert(!is_input(4), "a union is not an input byte");
  finish();
  vf_assert(out.size(2) == 8 * (5 + n), "labels counted");
  vf_cover("done");
}
// A label table that is (nearly) full.
VF_ENTRY label_space_exhausted() {
  NoFile nf;
  constexpr unsigned CAP = 8;
  auto mem = fresh(CAP * 8);
  uint64_t *w = (uint64_t *)mem.data();
  Labels L{SectionArg<NoFile>{nf, mem}};
  unsigned pre = vf_concretize(vf_upto("earlier", 7));
  if (pre)
    L.create_source_labels(0, 0, pre);
  uint64_t old[CAP];
  for (unsigned i = 0; i < CAP; i++)
    old[i] = w[i];
  uint64_t n = SYM64("length");
  vf_assume(n >= 1 && (n <= 8 || (n & 0x1fffffffffffffff) > 8));
  bool fits = n <= CAP - 1 - pre;
  if (fits)
    n = vf_concretize(n);
  vf_exit_ok(!fits);
  vf_cover("asked");
  auto r = L.create_source_labels(5, 100, n);
  vf_assert(fits, "running out of labels stops the run");
  vf_assert(r.first == 1 + pre && r.second == pre + n && L.count() == 1 + pre + n, "labels that fit are made");
  for (unsigned i = 0; i < 1 + pre; i++)
    vf_assert(w[i] == old[i], "earlier labels are unchanged");
}
