// @sources dag dfsan
// @bound the tracker's own layout, and eight others with alignments 1 to 64 and odd sizes; any amount of use of each section
// @assume the file is mapped at a page boundary
#include "pt.h"
template <uint8_t Tag, size_t Align, size_t Bytes> struct S {
  static constexpr uint8_t tag{Tag};
  static constexpr size_t align_of{Align};
  static constexpr size_t allocation_size{Bytes};
  std::span<uint8_t> range;
  uint64_t used{0};
  template <typename OF> S(SectionArg<OF> a) : range{a.range} {}
  size_t size() const { return used; }
};
struct Placed {
  uintptr_t begin, end;
};
template <typename OF, typename T> static Placed check_one(OF &of, unsigned idx) {
  auto &s = of.template section<T>();
  uint8_t *e = out.base() + 8 + 24 * idx;
  uintptr_t b = (uintptr_t)s.range.data();
  vf_assert(b % T::align_of == 0, "a section starts at its alignment");
  vf_assert(s.range.size() == T::allocation_size, "a section gets the storage it needs");
  vf_assert(b >= FILE_AT + 8 + 24 * out.sections(), "a section does not overlap the header");
  vf_assert(b + s.range.size() <= FILE_AT + file_bytes, "a section lies inside the file");
  vf_assert(((uint32_t *)e)[0] == T::tag && ((uint32_t *)e)[1] == T::align_of, "the header lists the kind and alignment");
  vf_assert(((uint64_t *)e)[1] == b - FILE_AT, "the header lists the true offset");
  for (size_t i = 0; i < s.range.size(); i++) // usable
    s.range[i] = (uint8_t)(T::tag + 1);
  s.used = vf_upto("used", T::allocation_size);
  return {b, b + s.range.size()};
}
template <typename... T> static void layout() {
  using OF = OutputFile<T...>;
  constexpr unsigned N = sizeof...(T);
  alignas(16) static uint8_t mem[sizeof(OF)];
  OF &of = *new (mem) OF("x");
  vf_assert(out.base()[0] == 'T' && out.base()[1] == 'D' && out.base()[2] == 'A' && out.base()[3] == 'G', "the file starts with its mark");
  vf_assert(out.sections() == N, "the header lists every section");
  unsigned idx = 0;
  Placed p[N] = {check_one<OF, T>(of, idx++)...};
  for (unsigned i = 0; i < N; i++)
    for (unsigned j = 0; j < i; j++)
      vf_assert(p[i].end <= p[j].begin || p[j].end <= p[i].begin, "sections do not overlap");
  uint8_t tags[N] = {T::tag...};
  for (unsigned i = 0; i < N; i++)
    for (uintptr_t q = p[i].begin; q < p[i].end; q++)
      vf_assert(*(uint8_t *)q == tags[i] + 1, "a section's storage is its own");
  uint64_t used[N] = {of.template section<T>().used...};
  of.~OF();
  for (unsigned i = 0; i < N; i++) {
    uint8_t *e = out.base() + 8 + 24 * i;
    vf_assert(((uint64_t *)e)[2] == used[i], "the header lists the bytes used");
    vf_assert(((uint64_t *)e)[1] == p[i].begin - FILE_AT, "the header keeps the offset");
    vf_assert(((uint32_t *)e)[0] == tags[i], "the header keeps the kind");
  }
}
VF_ENTRY layout_1() { layout<S<1, 1, 3>>(); vf_cover("done"); }
VF_ENTRY layout_2() { layout<S<1, 8, 16>, S<2, 8, 24>>(); vf_cover("done"); }
VF_ENTRY layout_3() { layout<S<1, 1, 3>, S<2, 8, 16>, S<3, 2, 7>>(); vf_cover("done"); }
VF_ENTRY layout_4() { layout<S<7, 1, 1>, S<4, 4, 6>, S<5, 16, 5>, S<9, 2, 2>>(); vf_cover("done"); }
VF_ENTRY layout_5() { layout<S<3, 2, 10>, S<2, 16, 33>, S<1, 64, 65>, S<200, 1, 1>, S<8, 8, 8>>(); vf_cover("done"); }
VF_ENTRY layout_6() { layout<S<1, 64, 1>, S<2, 32, 31>, S<3, 4, 3>, S<4, 8, 1>>(); vf_cover("done"); }
VF_ENTRY layout_7() { layout<S<1, 1, 5>, S<2, 4, 4>, S<3, 8, 12>, S<4, 2, 2>, S<5, 1, 9>, S<6, 8, 8>>(); vf_cover("done"); }
VF_ENTRY layout_8() { layout<S<1, 2, 1>, S<2, 2, 3>, S<3, 4, 5>, S<4, 4, 7>>(); vf_cover("done"); }

// The tracker's own output, with any amount of use.
VF_ENTRY tracker_layout() {
  auto *t = start();
  unsigned N = out.sections();
  uint64_t off[16], align[16];
  uint32_t tag[16];
  vf_assert(N >= 1 && N <= 16, "the number of sections");
  for (unsigned i = 0; i < N; i++) {
    uint8_t *e = out.base() + 8 + 24 * i;
    tag[i] = ((uint32_t *)e)[0];
    align[i] = ((uint32_t *)e)[1];
    off[i] = ((uint64_t *)e)[1];
    vf_assert(off[i] >= 8 + 24 * N && off[i] < file_bytes && (FILE_AT + off[i]) % align[i] == 0, "sections are inside the file and aligned");
    for (unsigned j = 0; j < i; j++)
      vf_assert(tag[i] != tag[j] && off[i] != off[j], "every kind is listed once");
  }
  unsigned nsrc = vf_concretize(vf_upto("sources", 2)), nlab = vf_concretize(vf_upto("labels", 3)), nfn = vf_concretize(vf_upto("functions", 2)),
           nlog = vf_concretize(vf_upto("log", 2)), nsink = 0;
  for (unsigned i = 0; i < nsrc; i++)
    t->open_file(3 + i, "abc");
  if (nsrc && nlab) {
    t->source_taint(3, util::Offset::from_off_t(0), nlab);
    nsink = vf_concretize(vf_upto("written", 2));
    t->taint_sink(3, util::Offset::from_off_t(0), (label_t)1, nsink);
  }
  for (unsigned i = 0; i < nfn; i++)
    t->function_exit(t->function_entry(i ? "ff" : "g"));
  for (unsigned i = 0; i < nlog; i++)
    t->enter_function(i);
  finish();
  for (unsigned i = 0; i < N; i++) {
    uint64_t used = out.size(tag[i]);
    vf_assert(off[i] + used <= file_bytes, "used storage is inside the file");
    for (unsigned j = 0; j < N; j++)
      vf_assert(i == j || off[j] < off[i] || off[i] + used <= off[j], "used storage does not reach the next section");
  }
  unsigned labels = nsrc ? nlab : 0;
  vf_assert(out.size(1) == 16 * nsrc, "bytes used for sources");
  vf_assert(out.size(2) == 8 * (1 + labels), "bytes used for labels");
  vf_assert(out.size(3) == 6 * nsrc + (nfn > 0 ? 4 : 0) + (nfn > 1 ? 4 : 0), "bytes used for names");
  vf_assert(out.size(4) == 16 * nsink, "bytes used for sinks");
  vf_assert(out.size(6) == 4 * nfn, "bytes used for functions");
  vf_assert(out.size(7) == 8 * nfn, "bytes used for events");
  vf_assert(out.size(8) == 2 * nlog, "bytes used for the log");
  vf_cover("done");
}
