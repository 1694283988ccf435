// @sources dag
// @bound sections of up to 24 bytes, any three (thorough: four) requests of any 64-bit size; entries of 4, 8 and 16 bytes and runs of any number of them
// @bound three concurrent writers with up to 2 (thorough: 3) preemptions
// @assume mutexes behave as specified by POSIX
#include "table.h"
#include "taintdag/sink.h"
#include "taintdag/string_table.h"
#include "taintdag/control_flow_log.h"
struct Sec : SectionBase {
  Sec(std::span<uint8_t> s) : SectionBase(s) {}
  using SectionBase::write;
};
// Any sequence of requests of any size.
VF_ENTRY any_sizes() {
  constexpr unsigned CAP = 24;
  auto m = fresh(CAP);
  Sec s{m};
  unsigned used = 0;
  vf_assert(s.size() == 0, "an unused section is empty");
  for (unsigned k = 0; k < BOUND(3, 4); k++) {
    uint64_t n = SYM64("bytes");
    bool fits = n <= CAP - used;
    if (fits)
      n = vf_concretize(n);
    {
      auto w = s.write(n);
      vf_assert(w.has_value() == fits, "a request is granted exactly if it fits");
      if (w) {
        vf_assert(w->mem.data() == m.data() + used && w->mem.size() == n, "the storage granted follows what was granted before");
        for (unsigned i = 0; i < n; i++)
          w->mem[i] = 1 + k;
        used += n;
        vf_cover("granted");
      } else
        vf_cover("refused");
    }
    vf_assert(s.size() == used, "the size counts what was granted");
  }
  for (unsigned i = used; i < CAP; i++)
    vf_assert(m[i] == 0, "storage that was not granted is not touched");
}
template <typename T> struct Fix : FixedSizeAlloc<T> {
  Fix(std::span<uint8_t> s) : FixedSizeAlloc<T>(s) {}
};
template <typename T, unsigned ENTRIES> static void entries() {
  auto m = fresh(ENTRIES * sizeof(T));
  Fix<T> f{m};
  unsigned used = 0;
  T *base = (T *)m.data();
  uint32_t want[ENTRIES + 1];
  for (unsigned k = 0; k < BOUND(3, 4); k++) {
    if (vf_concretize(vf_upto("run", 1))) {
      uint64_t n = SYM64("entries");
      vf_assume(n >= 1);
      bool fits = n <= ENTRIES - used;
      if (fits)
        n = vf_concretize(n);
      uint32_t v = SYM32("value");
      unsigned made = 0;
      auto r = f.construct_range(n, [&](uint8_t *p) {
        vf_assert((T *)p == base + used + made, "entries of a run are made in order");
        new (p) T{v + made};
        made++;
      });
      vf_assert(r.has_value() == fits, "a run is granted exactly if it fits");
      vf_assert(made == (fits ? n : 0), "every entry of a run is made once");
      if (fits) {
        vf_assert(r->data() == base + used && r->size() == n, "a run follows what was granted before");
        for (unsigned i = 0; i < n; i++)
          want[used + i] = v + i;
        used += n;
      }
      vf_cover("run");
    } else {
      uint32_t v = SYM32("value");
      bool fits = used < ENTRIES;
      {
        auto c = f.construct(v);
        vf_assert(c.has_value() == fits, "an entry is granted exactly if it fits");
        if (c) {
          vf_assert(&c->t == base + used && f.index(c->t) == used, "an entry has the next index");
          want[used++] = v;
        }
      }
    }
    vf_assert(f.count() == used && f.size() == used * sizeof(T), "the count is the number of entries made");
    vf_assert(f.begin() == base && f.end() == base + used, "iteration covers the entries made");
    for (unsigned i = 0; i < used; i++)
      vf_assert(*(uint32_t *)&base[i] == want[i], "entries keep their contents");
  }
}
struct Four { uint32_t v; };
struct Eight { uint64_t v; };
struct Sixteen { uint64_t v; uint64_t w; };
VF_ENTRY entries_of_4() { entries<Four, 4>(); vf_cover("done"); }
VF_ENTRY entries_of_8() { entries<Eight, 3>(); vf_cover("done"); }
VF_ENTRY entries_of_16() { entries<Sixteen, 3>(); vf_cover("done"); }

// Concurrent writers.
static Sec *shared;
static uint8_t *got[3];
static uint64_t want_bytes[3];
static uint8_t *shared_mem;
static void writer(void *arg) {
  uintptr_t me = (uintptr_t)arg;
  if (auto w = shared->write(want_bytes[me])) {
    got[me] = w->mem.data();
    for (unsigned i = 0; i < want_bytes[me]; i++)
      w->mem[i] = 1 + me;
  }
}
// @symir --preempt 2
VF_ENTRY concurrent_writers() {
  auto m = fresh(8);
  shared_mem = m.data();
  Sec s{m};
  shared = &s;
  unsigned total = 0;
  for (unsigned i = 0; i < 3; i++) {
    want_bytes[i] = 1 + 2 * vf_concretize(vf_upto("bytes", 1));
    got[i] = nullptr;
  }
  for (unsigned i = 0; i < 3; i++)
    vf_spawn(writer, (void *)(uintptr_t)i);
  vf_join_all();
  unsigned sum = 0;
  for (unsigned i = 0; i < 3; i++) {
    total += want_bytes[i];
    if (!got[i])
      continue;
    sum += want_bytes[i];
    vf_assert(got[i] >= shared_mem && got[i] + want_bytes[i] <= shared_mem + 8, "storage lies inside the section");
    for (unsigned k = 0; k < want_bytes[i]; k++)
      vf_assert(got[i][k] == 1 + i, "no two writers get the same storage");
  }
  vf_assert(s.size() == sum, "the size counts what was granted");
  vf_assert(total > 8 || sum == total, "writers that fit are all served");
  vf_cover("done");
}
static Fix<Eight> *sharedf;
static Eight const *made[3];
static void maker(void *arg) {
  uintptr_t me = (uintptr_t)arg;
  auto c = sharedf->construct(100 + me);
  if (c)
    made[me] = &c->t;
}
static void run_maker(void *) {
  uint64_t v = 200;
  auto r = sharedf->construct_range(2, [&](uint8_t *p) { new (p) Eight{v++}; });
  if (r)
    made[2] = r->data();
}
// @symir --preempt 2
VF_ENTRY concurrent_entries() {
  auto m = fresh(8 * 8);
  Fix<Eight> f{m};
  sharedf = &f;
  made[0] = made[1] = made[2] = nullptr;
  vf_spawn(maker, (void *)0);
  vf_spawn(run_maker, nullptr);
  vf_spawn(maker, (void *)1);
  vf_join_all();
  vf_assert(made[0] && made[1] && made[2], "every writer is served");
  vf_assert(made[0]->v == 100 && made[1]->v == 101 && made[2][0].v == 200 && made[2][1].v == 201, "no entry is overwritten by another writer");
  vf_assert(f.count() == 4, "every entry is counted");
  vf_cover("done");
}
