// @sources dag main sources dfsan
// @bound any conditions, labels and function numbers; sequences of 3 (thorough: 5) hooks of any kind after tracking has started and any hook before
// @assume open, ftruncate, mmap and file_size succeed; the output file is memory
#include "run.h"
extern "C" {
int vfx_fileno(FILE *f) { return f == stdin ? 0 : f == stdout ? 1 : 2; }
uint64_t __dfsw___polytracker_log_tainted_control_flow(uint64_t, uint32_t, uint32_t, uint32_t, uint32_t *);
void __polytracker_log_conditional_branch(uint32_t);
void __dfsw___polytracker_log_conditional_branch(uint64_t, uint32_t);
uint32_t __polytracker_union_table(const uint32_t &, const uint32_t &);
uint16_t __polytracker_log_func_entry(char *, uint16_t);
void __polytracker_log_func_exit(uint16_t);
void __polytracker_enter_function(uint32_t);
void __polytracker_leave_function(uint32_t);
}
// Before tracking has started nothing may be touched: there is no output file.
VF_ENTRY before_start() {
  unsigned k = vf_concretize(vf_upto("hook", 7));
  uint32_t a = SYM32("a"), b = SYM32("b"), ret = SYM32("ret");
  static char name[] = "f";
  if (k == 0) {
    uint64_t c = SYM64("condition");
    uint64_t r = __dfsw___polytracker_log_tainted_control_flow(c, a, b, 0, &ret);
    vf_assert(r == c, "the condition is passed through unchanged");
    vf_assert(ret == b, "the condition keeps its label");
    vf_cover("condition");
  } else if (k == 1)
    __polytracker_log_conditional_branch(a);
  else if (k == 2)
    __dfsw___polytracker_log_conditional_branch(SYM64("condition"), a);
  else if (k == 3)
    vf_assert(__polytracker_union_table(a, b) == 0, "there are no labels to combine yet");
  else if (k == 4)
    __polytracker_log_func_entry(name, 1);
  else if (k == 5)
    __polytracker_log_func_exit(a);
  else if (k == 6)
    __polytracker_enter_function(a);
  else
    __polytracker_leave_function(a);
  vf_assert(!mapped, "no output exists before tracking starts");
  standard_streams();
  __taint_start();
  polytracker_end();
  vf_assert(out.size(2) == 8 && out.size(8) == 0 && out.size(7) == 0 && out.size(6) == 0 && out.nsinks() == 0, "hooks before the start record nothing");
  vf_cover("done");
}
static unsigned nlog;
static uint8_t want[64];
static void log_number(uint32_t v) {
  while (v >= 0x80) {
    want[nlog++] = 0x80 | (v & 0x7f);
    v >>= 7;
  }
  want[nlog++] = v;
}
// After the start: conditions.
static constexpr unsigned N = BOUND(3, 5);
VF_ENTRY conditions() {
  standard_streams();
  __taint_start();
  auto *t = (PolyTracker *)0;
  (void)t;
  for (unsigned k = 0; k < N; k++) {
    uint64_t c = SYM64("condition");
    uint32_t label = SYM32("label"), fn = SYM32("function"), fl = SYM32("label of function"), ret = SYM32("ret");
    unsigned op = vf_concretize(vf_upto("hook", 2));
    if (op == 0) {
      uint64_t r = __dfsw___polytracker_log_tainted_control_flow(c, fn, label, fl, &ret);
      vf_assert(r == c, "the condition is passed through unchanged");
      vf_assert(ret == label, "the condition keeps its label");
      if (label) {
        want[nlog++] = 2;
        log_number(fn);
        log_number(label);
        vf_cover("tainted");
      } else
        vf_cover("untainted");
    } else if (op == 1) {
      __polytracker_enter_function(fn);
      want[nlog++] = 0;
      log_number(fn);
    } else {
      __polytracker_leave_function(fn);
      want[nlog++] = 1;
      log_number(fn);
    }
    vf_assume(k > 0 || ((fn < 128 || fn >= 0x10000000) && (label < 128 || label >= 0x10000000)));
    vf_assume(k == 0 || (fn < 128 && label < 128));
  }
  polytracker_end();
  vf_assert(out.size(8) == nlog, "each tainted condition, entry and exit is recorded once");
  for (unsigned i = 0; i < nlog; i++)
    vf_assert(out.at(8)[i] == want[i], "the record has the function and the label");
  vf_assert(out.size(2) == 8, "no label is made");
}
// Branches mark labels, and only tainted ones.
extern "C" ssize_t __dfsw_read(int, void *, size_t, uint32_t, uint32_t, uint32_t, uint32_t *);
extern "C" ssize_t vfx_read(int, void *, size_t n) { return n; }
extern "C" long vfx_lseek(int, long, int) { return 0; }
extern "C" long vfx_lseek64(int, long, int) { return 0; }
VF_ENTRY branches() {
  app_memory(4);
  standard_streams();
  static char one[] = "1";
  env_stdin = one;
  __taint_start();
  uint32_t r;
  __dfsw_read(0, app, 3, 0, 0, 0, &r); // labels 1, 2, 3
  uint32_t u = 1, v = 3;
  uint32_t lab = __polytracker_union_table(u, v);
  vf_assert(lab == 4, "combining labels makes the next label");
  uint32_t x = vf_concretize(vf_upto("label", 4));
  if (SYMBOOL("wrapped"))
    __dfsw___polytracker_log_conditional_branch(SYM64("condition"), x);
  else
    __polytracker_log_conditional_branch(x);
  auto cf = [](unsigned l) { return out.labels()[l] >> 62 & 1; };
  vf_assert(cf(1) == (x == 1 || x == 4) && cf(2) == (x == 2) && cf(3) == (x == 3 || x == 4) && cf(4) == (x == 4) && cf(0) == 0,
            "a branch marks exactly what its condition depends on");
  polytracker_end();
  vf_assert(out.size(2) == 40 && out.size(8) == 0, "branches make no label and no record");
  vf_cover("done");
}
// Function names.
VF_ENTRY names() {
  standard_streams();
  __taint_start();
  static char buf[4];
  vf_sym_bytes(buf, 3, "char");
  unsigned n = vf_concretize(vf_upto("length", 3));
  char old[3] = {buf[0], buf[1], buf[2]};
  unsigned a = __polytracker_log_func_entry(buf, n);
  unsigned b = __polytracker_log_func_entry(buf, n);
  uint16_t x = SYM16("number");
  __polytracker_log_func_exit(x);
  vf_assert(a == 0 && b == 0, "a name keeps its number");
  for (unsigned i = 0; i < 3; i++)
    vf_assert(buf[i] == old[i], "the program's memory is not changed");
  polytracker_end();
  vf_assert(out.size(7) == 12 && out.size(6) == 4, "each call is recorded once");
  uint8_t *e = out.at(7);
  vf_assert(e[0] == 0 && e[4] == 0 && e[8] == 1 && *(uint16_t *)(e + 2) == 0 && *(uint16_t *)(e + 6) == 0 && *(uint16_t *)(e + 10) == x, "the records are in order");
  uint8_t *s = out.at(3) + *(uint32_t *)out.at(6);
  vf_assert(*(uint16_t *)s == n, "the whole name is stored");
  for (unsigned i = 0; i < n; i++)
    vf_assert(s[2 + i] == (uint8_t)old[i], "the name is stored");
  vf_cover("done");
}
