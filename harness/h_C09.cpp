// @sources dag dfsan
// @bound up to 3 names of 0 to 3 (thorough: 4) bytes of any content in a table of any size up to 16 bytes; lengths up to the largest the table can hold and beyond; names of a whole traced run
// @bound three threads that store names, with up to 2 preemptions
// @assume open, ftruncate, mmap and file_size succeed; the output file is memory
#include "pt.h"
#include "table.h"
#include "taintdag/string_table.h"
static constexpr unsigned LEN = BOUND(3, 4), NAMES = 3;
static char names[NAMES][LEN + 1];
static unsigned lens[NAMES];
static void pick_names() {
  for (unsigned i = 0; i < NAMES; i++) {
    vf_sym_bytes(names[i], LEN, "char");
    lens[i] = vf_concretize(vf_upto("length", LEN));
  }
}
// Names in a table of limited size.
VF_ENTRY table() {
  unsigned room = 2 * vf_concretize(vf_upto("room", 8));
  NoFile nf;
  auto mem = fresh(room + 4);
  StringTable t(SectionArg<NoFile>{nf, mem.first(room)});
  for (unsigned i = room; i < room + 4; i++)
    mem[i] = 0xee;
  pick_names();
  unsigned at[NAMES], kept[NAMES], n = 0;
  for (unsigned i = 0; i < NAMES; i++) {
    size_t before = t.size();
    char tmp[LEN + 1]; // the caller's bytes are not needed afterwards
    for (unsigned k = 0; k < LEN; k++)
      tmp[k] = names[i][k];
    auto o = t.add_string({tmp, lens[i]});
    for (unsigned k = 0; k < LEN; k++)
      tmp[k] = 0x55;
    if (o) {
      at[n] = *o;
      kept[n++] = i;
      vf_assert(t.size() >= before + lens[i] && t.size() <= room, "a stored name is counted in the size");
      vf_assert(*o >= before && *o + lens[i] < t.size(), "a stored name lies in the part that was added");
    } else {
      vf_assert(t.size() == before, "a refused name has no effect");
      vf_assert(before + lens[i] + 2 + (lens[i] & 1) > room, "a name is refused only when there is no room");
      vf_cover("refused");
    }
    unsigned j = 0;
    for (auto it = t.begin(); it != t.end(); ++it, ++j) {
      vf_assert(j < n, "iteration gives each name once");
      auto s = *it;
      unsigned w = kept[j];
      vf_assert(s.size() == lens[w], "iteration gives names of the right length");
      for (unsigned k = 0; k < lens[w]; k++)
        vf_assert(s[k] == names[w][k], "iteration gives the names in order");
      auto v = t.from_offset(at[j]);
      vf_assert(v.size() == lens[w], "a name found by its offset has the right length");
      for (unsigned k = 0; k < lens[w]; k++)
        vf_assert(v[k] == names[w][k], "a name found by its offset is the one stored");
    }
    vf_assert(j == n, "iteration gives every name");
  }
  for (unsigned i = room; i < room + 4; i++)
    vf_assert(mem[i] == 0xee, "nothing is written outside the table");
  if (n == NAMES)
    vf_cover("all");
}
// The longest names: with a one-byte length, and with the table of the output.
VF_ENTRY longest() {
  NoFile nf;
  StringTableBase<uint8_t, uint8_t, 3, 64> t(SectionArg<NoFile>{nf, fresh(255)});
  static char buf[260];
  for (unsigned i = 0; i < 260; i++)
    buf[i] = 'x';
  unsigned n = vf_concretize(250 + vf_upto("length", 8));
  buf[0] = SYM8("first");
  buf[n - 1] = SYM8("last");
  vf_exit_ok(n > 254);
  auto o = t.add_string({buf, n});
  vf_exit_ok(0);
  vf_assert(o.has_value() == (n <= 254), "a name is stored exactly when its length can be stored");
  if (o) {
    auto s = t.from_offset(*o);
    vf_assert(s.size() == n && s[0] == buf[0] && s[n - 1] == buf[n - 1], "a long name is not cut short");
    vf_cover("stored");
  }
}
VF_ENTRY longest_with_room() {
  NoFile nf;
  StringTableBase<uint16_t, uint8_t, 3, 64> t(SectionArg<NoFile>{nf, fresh(300)});
  static char buf[260];
  for (unsigned i = 0; i < 260; i++)
    buf[i] = 'x';
  unsigned n = vf_concretize(252 + vf_upto("length", 7));
  buf[0] = SYM8("first");
  buf[n - 1] = SYM8("last");
  vf_exit_ok(n > 255);
  auto o = t.add_string({buf, n});
  vf_exit_ok(0);
  vf_assert(o.has_value() == (n <= 255), "a name is stored exactly when its length can be stored");
  if (o) {
    auto s = t.from_offset(*o);
    vf_assert(s.size() == n && s[0] == buf[0] && s[n - 1] == buf[n - 1], "a long name is not cut short");
    vf_cover("stored");
  }
}
VF_ENTRY too_long() {
  NoFile nf;
  auto m = fresh(64);
  StringTable t(SectionArg<NoFile>{nf, m});
  static char buf[64];
  uint64_t n = SYM64("length");
  vf_assume(n > 64);
  vf_exit_ok(1);
  auto o = t.add_string({buf, n});
  vf_assert(!o.has_value(), "a name longer than the table is not stored");
  vf_assert(t.size() == 0, "a refused name has no effect");
  for (unsigned i = 0; i < 64; i++)
    vf_assert(m[i] == 0, "nothing is written for a refused name");
  vf_cover("refused");
}
// Threads that store names at the same time.
static StringTable *shared;
static unsigned where[3];
static void storer(void *arg) {
  uintptr_t me = (uintptr_t)arg;
  auto o = shared->add_string({names[me], lens[me]});
  where[me] = o ? *o : ~0u;
}
// @symir --preempt 2
VF_ENTRY concurrent_names() {
  NoFile nf;
  StringTable t(SectionArg<NoFile>{nf, fresh(64)});
  shared = &t;
  for (unsigned i = 0; i < NAMES; i++) {
    vf_sym_bytes(names[i], LEN, "char");
    lens[i] = i + 1;
  }
  for (unsigned i = 0; i < NAMES; i++)
    vf_spawn(storer, (void *)(uintptr_t)i);
  vf_join_all();
  for (unsigned i = 0; i < NAMES; i++) {
    vf_assert(where[i] < t.size(), "every name is stored");
    auto s = t.from_offset(where[i]);
    vf_assert(s.size() == lens[i], "a name found by its offset has the right length");
    for (unsigned k = 0; k < lens[i]; k++)
      vf_assert(s[k] == names[i][k], "a name found by its offset is the one stored");
  }
  unsigned n = 0;
  for (auto it = t.begin(); it != t.end(); ++it)
    n++;
  vf_assert(n == NAMES, "iteration gives every name");
  vf_cover("done");
}
// Names of files and functions of a run, for the reader.
// @paths
VF_ENTRY whole_run() {
  auto *t = start();
  pick_names();
  t->open_file(3, std::string(names[0], lens[0]));
  t->function_entry({names[1], lens[1]});
  t->create_taint_source({names[2], lens[2]}, {(uint8_t *)0, 0});
  finish();
  vf_output("names", out.at(3), out.size(3));
  vf_output("sources", out.at(1), out.size(1));
  vf_output("functions", out.at(6), out.size(6));
  for (unsigned i = 0; i < NAMES; i++)
    vf_output("name", names[i], lens[i]);
  vf_cover("done");
}
