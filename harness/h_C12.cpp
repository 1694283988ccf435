// @sources dag dfsan
// @bound sequences of 3 (thorough: 4) registrations of names of 0 to 2 arbitrary bytes through one reused buffer, each followed by an optional exit event with any number
// @bound two threads registering one name each, any two of the names equal or not, all interleavings with up to 2 (thorough: 3) preemptions
// @bound function tables with room for 2 names, string tables with room for one
// @assume the hash function is a constant (every pair of names collides); open, ftruncate and mmap succeed
#include "pt.h"
#include "table.h"
static constexpr unsigned N = BOUND(3, 4);
struct Name {
  uint8_t c[2];
  unsigned n;
  bool operator==(Name const &o) const { return n == o.n && (int)(n < 1 || c[0] == o.c[0]) & (int)(n < 2 || c[1] == o.c[1]); }
};
static Name sym_name(unsigned min, unsigned max) {
  Name x;
  x.c[0] = SYM8("char");
  x.c[1] = SYM8("char");
  x.n = min + vf_concretize(vf_upto("length", max - min));
  return x;
}
static void expect_name(unsigned k, Name const &x) {
  uint32_t off = ((uint32_t *)out.at(6))[k];
  uint8_t *s = out.at(3) + off;
  vf_assert((uint64_t)off + 2 <= out.size(3), "the name lies in the string table");
  vf_assert(*(uint16_t *)s == x.n, "the stored name has its length");
  for (unsigned i = 0; i < x.n; i++)
    vf_assert(s[2 + i] == x.c[i], "the stored name has its bytes");
}
static void expect_event(unsigned k, unsigned kind, unsigned fn) {
  uint8_t *e = out.at(7) + 4 * k;
  vf_assert(e[0] == kind, "the event has its kind");
  vf_assert(*(uint16_t *)(e + 2) == fn, "the event has its function");
}
// Any sequence of names, all passed in the same buffer.
VF_ENTRY sequences() {
  auto *t = start();
  static char buf[4];
  Name names[N], distinct[N];
  unsigned nd = 0, nev = 0, kind[2 * N], fn[2 * N];
  for (unsigned k = 0; k < N; k++) {
    names[k] = sym_name(0, 2);
    buf[0] = names[k].c[0];
    buf[1] = names[k].c[1];
    unsigned want = nd;
    for (unsigned j = 0; j < nd; j++)
      if (names[k] == distinct[j]) {
        want = j;
        break;
      }
    if (want == nd)
      distinct[nd++] = names[k];
    unsigned got = t->function_entry({buf, names[k].n});
    vf_assert(got == want, "a name keeps its number and a new name gets the next one");
    kind[nev] = 0;
    fn[nev++] = want;
    if (SYMBOOL("exit")) {
      unsigned x = SYM16("number");
      t->function_exit(x);
      kind[nev] = 1;
      fn[nev++] = x;
      vf_cover("exit");
    }
  }
  finish();
  vf_assert(out.size(6) == 4 * nd, "one entry for each name");
  for (unsigned j = 0; j < nd; j++)
    expect_name(j, distinct[j]);
  vf_assert(out.size(7) == 4 * nev, "each entry and exit is logged once");
  for (unsigned j = 0; j < nev; j++)
    expect_event(j, kind[j], fn[j]);
  if (nd == N)
    vf_cover("all different");
  if (nd == 1)
    vf_cover("all equal");
}
// Two threads.
static PolyTracker *tr;
static Name nm[2];
static unsigned num[2];
static void thread_body(void *p) {
  unsigned k = (uintptr_t)p;
  static char buf[2][2];
  buf[k][0] = nm[k].c[0];
  num[k] = tr->function_entry({buf[k], nm[k].n});
  buf[k][0] = '?';
  tr->function_exit(num[k]);
}
// @symir --preempt 2
VF_ENTRY concurrent_registration() {
  tr = start();
  nm[0] = sym_name(1, 1);
  nm[1] = sym_name(1, 1);
  bool same = nm[0] == nm[1];
  vf_spawn(thread_body, (void *)0);
  vf_spawn(thread_body, (void *)1);
  vf_join_all();
  finish();
  unsigned nd = same ? 1 : 2;
  vf_assert(out.size(6) == 4 * nd, "one entry for each name");
  vf_assert(same ? num[0] == num[1] : num[0] != num[1], "different names have different numbers, equal names the same");
  for (unsigned k = 0; k < 2; k++) {
    vf_assert(num[k] < nd, "numbers are handed out in order");
    expect_name(num[k], nm[k]);
  }
  vf_assert(out.size(7) == 16, "each entry and exit is logged once");
  unsigned in[2] = {}, ex[2] = {};
  for (unsigned j = 0; j < 4; j++) {
    uint8_t *e = out.at(7) + 4 * j;
    unsigned f = *(uint16_t *)(e + 2);
    vf_assert(f < nd && e[0] <= 1, "events name the functions");
    if (e[0])
      ex[f]++;
    else
      in[f]++;
    vf_assert(ex[f] <= in[f], "an exit follows its entry");
  }
  for (unsigned f = 0; f < nd; f++)
    vf_assert(in[f] == (same ? 2 : 1) && ex[f] == in[f], "each thread logs its entry and its exit");
  if (same)
    vf_cover("same");
  else
    vf_cover("different");
}
// Running out of space.
struct FakeFile {
  NoFile nf;
  std::span<uint8_t> mem;
  StringTable st;
  FakeFile(size_t n) : mem(fresh(n)), st(SectionArg<NoFile>{nf, mem}) {}
  template <typename T> T &section() { return st; }
};
VF_ENTRY no_room_for_function() {
  FakeFile f(64);
  auto mem = fresh(2 * 4);
  Functions F{SectionArg<FakeFile>{f, mem}};
  char a[2] = {'a', 0}, b[2] = {'b', 0}, c[2] = {(char)SYM8("char"), 0};
  auto ra = F.add_mapping({a, 1}), rb = F.add_mapping({b, 1});
  vf_assert(ra && *ra == 0 && rb && *rb == 1, "names that fit are registered");
  uint64_t before = *(uint64_t *)mem.data();
  auto rc = F.add_mapping({c, 1});
  bool known = c[0] == 'a' || c[0] == 'b';
  vf_assert(rc.has_value() == known, "a further name is refused, a known one is still found");
  if (rc)
    vf_assert(*rc == (c[0] == 'a' ? 0 : 1), "a known name keeps its number");
  else
    vf_cover("refused");
  vf_assert(*(uint64_t *)mem.data() == before && F.count() == 2, "a refused name changes nothing");
  auto rd = F.add_mapping({c, 1});
  vf_assert(rd.has_value() == known, "a refused name stays refused");
}
VF_ENTRY no_room_for_name() {
  FakeFile f(6);
  auto mem = fresh(4 * 4);
  Functions F{SectionArg<FakeFile>{f, mem}};
  char a[2] = {'a', 0}, c[3] = {(char)SYM8("char"), (char)SYM8("char"), 0};
  auto ra = F.add_mapping({a, 1});
  vf_assert(ra && *ra == 0, "the first name fits");
  unsigned n = vf_concretize(vf_upto("length", 2));
  auto rc = F.add_mapping({c, n});
  bool known = n == 1 && c[0] == 'a';
  bool fits = 2 + n <= 2; // 4 of the 6 bytes are used
  vf_assert(rc.has_value() == (known || fits), "a name that does not fit is refused");
  vf_assert(F.count() == (known || !fits ? 1 : 2), "a refused name gets no number");
  vf_cover("done");
}
