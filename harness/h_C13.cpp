// @sources dag dfsan
// @bound 3 (thorough: 4) sources opened in any order on any descriptors, with named sources in between, then transfers on any descriptor
// @bound 2 (thorough: 3) transfers of 0 to 2 bytes with known and unknown positions on two sources, in any order; any 64-bit lengths for the position counter
// @bound 3 (thorough: 4) opens of two files on two descriptors in any order; three threads that make sources, with up to 2 preemptions
// @bound two threads on two sources, all interleavings with up to 3 (thorough: 4) preemptions
// @assume open, ftruncate, mmap and file_size succeed; the output file is memory
#include "pt.h"
#include "table.h"
#include "taintdag/stream_offset.h"
static constexpr unsigned N = BOUND(3, 4);
static util::Offset at(uint64_t o) { return util::Offset::from_off_t(o); }
static util::Offset unknown() { return util::Offset::from_off_t(-1); }

// Opens, named sources, reads and writes on any descriptors.
VF_ENTRY attribution() {
  app_memory(4);
  auto *t = start();
  int fds[N];
  bool named[N];
  static const char *names[] = {"a", "bb", "ccc", "dddd"};
  for (unsigned i = 0; i < N; i++) {
    named[i] = i < 2 && SYMBOOL("named");
    fds[i] = -1;
    if (named[i])
      t->create_taint_source(names[i], {app, 0});
    else {
      fds[i] = (int)SYM32("fd");
      vf_assume(fds[i] >= 0);
      t->open_file(fds[i], names[i]);
    }
    if (SYMBOOL("closed"))
      t->close_file(fds[i]);
  }
  int fd = (int)SYM32("used");
  int want = -1;
  for (unsigned i = 0; i < N; i++)
    want = (int)!named[i] & (int)(fds[i] == fd) ? (int)i : want;
  want = (int)vf_concretize((uint64_t)(want + 1)) - 1;
  auto r = t->source_taint(fd, at(5), 1);
  vf_assert(r.has_value() == (want >= 0), "a read is attributed exactly if the descriptor was opened");
  if (r) {
    vf_assert(out.labels()[r->first] == source_word(want, 5), "a read is attributed to the file opened last on the descriptor");
    vf_cover("read");
  } else
    vf_cover("untracked");
  auto r2 = t->source_taint(fd, app, at(6), 1);
  vf_assert(r2.has_value() == (want >= 0), "a read into memory is attributed exactly if the descriptor was opened");
  if (r2)
    vf_assert(out.labels()[r2->first] == source_word(want, 6), "a read into memory is attributed to the file opened last on the descriptor");
  shadow[1] = 1;
  t->taint_sink(fd, at(7), app + 1, 1);
  t->taint_sink(fd, at(8), (label_t)1, 1);
  finish();
  if (want >= 0) {
    vf_assert(out.nsinks() == 2, "both writes are recorded");
    vf_assert(out.sinks()[0].sink == want && out.sinks()[1].sink == want, "a write is attributed to the file opened last on the descriptor");
    vf_assert(out.sinks()[0].offset == 7 && out.sinks()[1].offset == 8, "a write has its position");
  } else
    vf_assert(out.nsinks() == 0, "writes to other descriptors are not recorded");
  vf_assert(out.nsources() == N, "each open adds one source");
  for (unsigned i = 0; i < N; i++) {
    auto &s = out.sources()[i];
    vf_assert(s.fd == fds[i], "a source has its descriptor");
    vf_assert(s.size == (named[i] ? ~0ull : 1000), "a source has its size");
    uint8_t *p = out.at(3) + s.name;
    vf_assert(*(uint16_t *)p == i + 1, "a source has its name's length");
    for (unsigned k = 0; k <= i; k++)
      vf_assert(p[2 + k] == 'a' + i, "a source has its name");
  }
}
// The same files opened again and again.
VF_ENTRY opened_again() {
  auto *t = start();
  static const char *names[] = {"x", "yy"};
  int last[2] = {-1, -1};
  unsigned n = 0;
  for (unsigned i = 0; i < BOUND(3, 4); i++) {
    unsigned file = vf_concretize(vf_upto("file", 1)), fd = vf_concretize(vf_upto("fd", 1));
    t->open_file(3 + fd, names[file]);
    if (SYMBOOL("read")) {
      auto r = t->source_taint(3 + fd, unknown(), 2);
      vf_assert(r.has_value(), "a read of an open file is attributed");
      uint64_t w = out.labels()[r->first];
      vf_assert(((w >> 8) & ((1ull << 54) - 1)) == 0, "a file that is opened again is read from its start");
    }
    last[fd] = file;
    n++;
  }
  for (unsigned fd = 0; fd < 2; fd++) {
    auto r = t->source_taint(3 + fd, at(9), 1);
    vf_assert(r.has_value() == (last[fd] >= 0), "a read is attributed exactly if the descriptor was opened");
    if (!r)
      continue;
    unsigned src = out.labels()[r->first] & 255;
    vf_assert(src < n, "a read is attributed to a source");
    uint8_t *p = out.at(3) + out.sources()[src].name;
    vf_assert(*p == 1 + last[fd] && p[2] == (last[fd] ? 'y' : 'x'), "a read is attributed to the file opened last on the descriptor");
  }
  finish();
  vf_assert(out.nsources() == n, "each open adds one source");
  vf_cover("done");
}
// Sources made by several threads.
static PolyTracker *tr;
static taint_range_t made[2];
static void namer(void *p) {
  unsigned k = (uintptr_t)p;
  if (auto r = tr->create_taint_source(k ? "yy" : "x", {app + 2 * k, 1 + k}))
    made[k] = *r;
}
// @symir --preempt 2
VF_ENTRY concurrent_sources() {
  app_memory(4);
  tr = start();
  made[0] = made[1] = {0, 0};
  vf_spawn(namer, (void *)0);
  vf_spawn(namer, (void *)1);
  vf_spawn([](void *) { tr->open_file(7, "zzz"); }, nullptr);
  vf_join_all();
  for (unsigned k = 0; k < 2; k++) {
    vf_assert(made[k].first != 0, "each thread gets its source");
    unsigned src = out.labels()[made[k].first] & 255;
    vf_assert(src < 3, "the source exists");
    uint8_t *p = out.at(3) + out.sources()[src].name;
    vf_assert(*p == 1 + k && p[2] == (k ? 'y' : 'x'), "bytes are attributed to the source they were made for");
    for (unsigned i = 0; i <= k; i++)
      vf_assert(shadow[2 * k + i] == made[k].first + i && out.labels()[made[k].first + i] == source_word(src, i), "each byte has its own label");
  }
  auto r = tr->source_taint(7, at(4), 1);
  vf_assert(r.has_value(), "a read of an open file is attributed");
  uint8_t *p = out.at(3) + out.sources()[out.labels()[r->first] & 255].name;
  vf_assert(*p == 3 && p[2] == 'z', "a read is attributed to the file opened last on the descriptor");
  vf_cover("done");
}
// Positions of streams.
static constexpr unsigned OPS = BOUND(2, 3);
VF_ENTRY positions() {
  app_memory(4);
  for (unsigned i = 0; i < 4; i++)
    shadow[i] = 1;
  auto *t = start();
  t->open_file(0, "one");
  t->open_file(7, "two");
  t->source_taint(0, at(1000), 1); // label 1
  uint64_t rd[2] = {}, wr[2] = {};
  unsigned labels = 2, sinks = 0;
  struct {
    unsigned src;
    uint64_t off;
  } lab[2 * OPS + 8], snk[2 * OPS + 8];
  for (unsigned k = 0; k < OPS + 4; k++) {
    unsigned s, kind, len;
    bool known;
    if (k < OPS) {
      s = vf_concretize(vf_upto("which", 1));
      kind = vf_concretize(vf_upto("kind", 4));
      known = vf_concretize(vf_upto("known", 1));
      len = vf_concretize(vf_upto("length", 2));
    } else { // where every stream is in the end
      s = k & 1;
      kind = k & 2 ? 0 : 3;
      known = false;
      len = 1;
    }
    uint64_t pos = vf_upto("position", 1ull << 40);
    int fd = s ? 7 : 0;
    auto o = known ? at(pos) : unknown();
    bool write = kind >= 2;
    uint64_t first = known ? pos : write ? wr[s] : rd[s];
    if (kind == 0 && len)
      t->source_taint(fd, o, len);
    if (kind == 1)
      t->source_taint(fd, app, o, len);
    if (kind == 2) {
      for (unsigned i = 0; i < 4; i++)
        shadow[i] = 1;
      t->taint_sink(fd, o, app, len);
    }
    if (kind >= 3)
      t->taint_sink(fd, o, (label_t)(kind == 3 ? 1 : 0), len);
    if (!write)
      for (unsigned i = 0; i < len; i++)
        lab[labels++] = {s, first + i};
    else if (kind != 4)
      for (unsigned i = 0; i < len; i++)
        snk[sinks++] = {s, first + i};
    if (!known)
      (write ? wr : rd)[s] += len;
  }
  finish();
  vf_assert(out.size(2) == 8 * labels, "each byte read has a label");
  for (unsigned i = 2; i < labels; i++)
    vf_assert(out.labels()[i] == source_word(lab[i].src, lab[i].off), "reads at unknown positions follow each other without gaps");
  vf_assert(out.nsinks() == sinks, "each tainted byte written is recorded");
  for (unsigned i = 0; i < sinks; i++)
    vf_assert((int)(out.sinks()[i].sink == snk[i].src) & (int)(out.sinks()[i].offset == snk[i].off), "writes at unknown positions follow each other without gaps");
  vf_cover("done");
}
// Any lengths.
VF_ENTRY any_lengths() {
  StreamOffset<4> s;
  uint64_t pos[4] = {};
  for (unsigned k = 0; k < 4; k++) {
    unsigned i = vf_concretize(vf_upto("source", 3));
    uint64_t n = SYM64("length");
    uint64_t o = s.increase(i, n);
    vf_assert(o == (uint64_t)pos[i], "the position is the number of bytes before");
    pos[i] += n;
  }
  vf_cover("done");
}
VF_ENTRY unknown_source() {
  StreamOffset<4> s;
  unsigned i = SYM8("source");
  vf_exit_ok(i >= 4);
  s.increase(i, 1);
  vf_assert(i < 4, "a source that does not exist has no position");
  vf_cover("done");
}
// Two threads on two sources.
static unsigned len1[2], len2[2];
static taint_range_t got[2][2];
static void body(void *p) {
  unsigned k = (uintptr_t)p;
  int fd = k ? 7 : 0;
  got[k][0] = *tr->source_taint(fd, unknown(), len1[k]);
  got[k][1] = *tr->source_taint(fd, unknown(), len2[k]);
}
// @symir --preempt 3
VF_ENTRY concurrent_streams() {
  tr = start();
  tr->open_file(0, "one");
  tr->open_file(7, "two");
  for (unsigned k = 0; k < 2; k++) {
    len1[k] = 1 + vf_concretize(vf_upto("length", 1));
    len2[k] = 1 + k;
  }
  vf_spawn(body, (void *)0);
  vf_spawn(body, (void *)1);
  vf_join_all();
  for (unsigned k = 0; k < 2; k++) {
    for (unsigned i = 0; i < len1[k]; i++)
      vf_assert(out.labels()[got[k][0].first + i] == source_word(k, i), "the first read starts at zero");
    for (unsigned i = 0; i < len2[k]; i++)
      vf_assert(out.labels()[got[k][1].first + i] == source_word(k, len1[k] + i), "the second read continues where the first ended");
  }
  vf_cover("done");
}
static void wbody(void *p) {
  unsigned k = (uintptr_t)p;
  tr->taint_sink(k ? 7 : 0, unknown(), (label_t)1, len1[k]);
  tr->taint_sink(k ? 7 : 0, unknown(), (label_t)1, 1);
}
// @symir --preempt 3
VF_ENTRY concurrent_writers() {
  tr = start();
  tr->open_file(0, "one");
  tr->open_file(7, "two");
  for (unsigned k = 0; k < 2; k++)
    len1[k] = 1 + vf_concretize(vf_upto("length", 1));
  vf_spawn(wbody, (void *)0);
  vf_spawn(wbody, (void *)1);
  vf_join_all();
  finish();
  unsigned n[2] = {};
  vf_assert(out.nsinks() == len1[0] + len1[1] + 2, "each byte written is recorded once");
  for (unsigned i = 0; i < out.nsinks(); i++) {
    unsigned s = out.sinks()[i].sink;
    vf_assert(s < 2 && out.sinks()[i].offset == n[s] && out.sinks()[i].label == 1, "writes of one source follow each other without gaps");
    n[s]++;
  }
  vf_cover("done");
}
// The table of sources holds 255.
VF_ENTRY too_many_sources() {
  auto *t = start();
  for (unsigned i = 0; i < 255; i++)
    t->open_file(1000 + i, "x");
  int fd = (int)SYM32("fd");
  vf_assume(fd >= 0);
  vf_exit_ok(1);
  t->open_file(fd, "y");
  auto r = t->source_taint(fd, at(5), 1);
  vf_assert(!r.has_value(), "a read is not attributed to a file that was opened earlier on the descriptor when there is no room for the new one");
  vf_cover("done");
}
