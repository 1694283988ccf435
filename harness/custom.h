// The intercepted C library functions over a few bytes of program memory.  Labels
// are bit sets; joining them is their union (C03).
#pragma once
#include "dfsan/dfsan.h"
#include "dfsan/dfsan_flags.h"
#include "dfs.h"
#include <stdlib.h>
typedef uint32_t L;
extern "C" L __polytracker_union_table(const L &a, const L &b) { return a | b; }
// branch-free choice
static inline uint32_t when(bool c, uint32_t v) { return (0u - (uint32_t)c) & v; }
static bool strict;
static void choose_mode() {
  strict = vf_concretize(vf_upto("strict", 1));
  __dfsan::flags().strict_data_dependencies = strict;
}
static constexpr unsigned MAXMEM = 24;
static L old_label[MAXMEM];
static uint8_t old_byte[MAXMEM];
static unsigned mem_size;
static void memory(unsigned n) {
  mem_size = n;
  app_memory(n);
  for (unsigned i = 0; i < n; i++) {
    old_label[i] = (L)vf_sym("label", 4);
    shadow[i] = old_label[i];
    old_byte[i] = SYM8("byte");
    app[i] = old_byte[i];
  }
}
static void fix(unsigned i, uint8_t b) { // the byte is b
  old_byte[i] = b;
  app[i] = b;
}
static L labels(unsigned at, unsigned n) {
  L r = 0;
  for (unsigned i = 0; i < n; i++)
    r |= old_label[at + i];
  return r;
}
static void unchanged(unsigned from, unsigned to) {
  for (unsigned i = from; i < to; i++) {
    vf_assert(app[i] == old_byte[i], "other bytes are not changed");
    vf_assert(shadow[i] == old_label[i], "other bytes keep their labels");
  }
}
static unsigned len_of(unsigned at) { // of the string at app[at]
  unsigned n = 0;
  while (old_byte[at + n])
    n++;
  return n;
}
static inline int sgn(int x) { return (x > 0) - (x < 0); }
