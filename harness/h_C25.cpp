// @sources dag dfsan
// @bound a whole traced run with two sources (any descriptors, any size or unknown, names of 0 to 2 bytes of any value but / and .), 2 input bytes at any offset, a union of them, 2 output bytes at any offset with any of the labels, up to 3 function events of two functions
// @assume open, ftruncate, mmap succeed; the output file is memory
#define PT_OWN_SIZE
#include "pt.h"
static uint64_t fsize;
static bool fsize_fails;
extern "C" uintmax_t vfx__ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code(void *, std::error_code &ec) noexcept {
  *(int *)&ec = fsize_fails ? 5 : 0;
  return fsize_fails ? ~0ull : fsize;
}
static char name[2][3];
static void source(PolyTracker *t, unsigned i, int fd) {
  unsigned n = vf_concretize(vf_upto("length", 2));
  for (unsigned k = 0; k < n; k++) {
    name[i][k] = SYM8("char");
    vf_assume((int)(name[i][k] != '/') & (int)(name[i][k] != '.'));
  }
  if (n == 0) { // no empty file name
    name[i][0] = 'x';
    n = 1;
  }
  fsize = SYM64("size");
  fsize_fails = vf_concretize(vf_upto("fails", 1));
  t->open_file(fd, std::string(name[i], n));
  vf_output("name", name[i], n);
  vf_output_u64("fd", (uint32_t)fd);
  vf_output_u64("size", fsize_fails ? ~0ull : fsize);
}
static void whole_file() {
  vf_output_u64("file", file_bytes);
  unsigned n = out.sections();
  vf_output("header", out.base(), 8 + 24 * n);
  for (unsigned i = 0; i < n; i++) {
    uint8_t *e = out.base() + 8 + 24 * i;
    vf_output_u64("offset", *(uint64_t *)(e + 8));
    vf_output("section", out.base() + *(uint64_t *)(e + 8), vf_concretize(*(uint64_t *)(e + 16)));
  }
}
// @paths
VF_ENTRY sources_and_sinks() {
  auto *t = start();
  int fd0 = (int)SYM32("fd"), fd1 = (int)SYM32("fd");
  vf_assume((int)(fd0 >= 0) & (int)(fd1 >= 0) & (int)(fd0 != fd1));
  source(t, 0, fd0);
  source(t, 1, fd1);
  uint64_t off = vf_upto("offset", (1ull << 54) - 3), outoff = vf_upto("output offset", (1ull << 54) - 3);
  t->source_taint(fd0, util::Offset::from_off_t(off), 2);
  vf_output_u64("read", off);
  for (unsigned i = 0; i < 2; i++) {
    label_t l = 1 + vf_concretize(vf_upto("label", 1));
    t->taint_sink(fd1, util::Offset::from_off_t(outoff + i), l, 1);
    vf_output_u64("label", l);
  }
  vf_output_u64("written", outoff);
  finish();
  whole_file();
  vf_cover("done");
}
// @paths
VF_ENTRY functions() {
  auto *t = start();
  Functions::index_t id[2] = {t->function_entry("f"), t->function_entry("g")};
  for (unsigned i = 0; i < 2; i++) {
    unsigned f = vf_concretize(vf_upto("function", 1)), kind = vf_concretize(vf_upto("kind", 1));
    if (kind)
      t->function_exit(id[f]);
    else
      t->function_entry(f ? "g" : "f");
    vf_output_u64("function", f);
    vf_output_u64("kind", kind);
  }
  finish();
  whole_file();
  vf_cover("done");
}
