// An arbitrary well-formed label table inside a real Labels section, and the
// meaning of its labels as sets of input bytes.
#pragma once
#include "taintdag/outputfile.h"
#include "taintdag/section.h"
#include "taintdag/labels.h"
#include "vf.h"
#include <stdlib.h>
using namespace taintdag;
#ifdef VF_THOROUGH
#define BOUND(q, t) (t)
#else
#define BOUND(q, t) (q)
#endif
// branch-free choice
static inline uint32_t when(bool c, uint32_t v) { return (0u - (uint32_t)c) & v; }
struct NoFile {};
static inline std::span<uint8_t> fresh(size_t n) { return {(uint8_t *)calloc(n, 1), n}; }

static constexpr uint64_t CF = 1ull << 62, SRC = 1ull << 63;

// N labels (0..N-1) exist, there is room for CAP.
template <unsigned N, unsigned CAP> struct Table {
  NoFile nf;
  uint64_t *mem;
  uint64_t old[N];
  Labels L;
  Table(std::span<uint8_t> s) : mem((uint64_t *)s.data()), L(SectionArg<NoFile>{nf, s}) {
    if (N > 1)
      L.create_source_labels(0, 0, N - 1);
    for (unsigned i = 1; i < N; i++) {
      uint64_t w = SYM64("word");
      vf_assume(well_formed(w, i));
      mem[i] = w;
      old[i] = w;
    }
    old[0] = mem[0];
  }
  Table() : Table(fresh(CAP * 8)) {}
  // bytes 1 and 2, both of them, two more bytes, and arbitrary labels after that
  Table(int) : nf(), mem((uint64_t *)calloc(CAP, 8)), L(SectionArg<NoFile>{nf, {(uint8_t *)mem, CAP * 8}}) {
    L.create_source_labels(0, 0, N - 1);
    mem[3] = (1ull << 31) | 2;
    for (unsigned i = 1; i < N; i++) {
      uint64_t w = i <= 5 ? mem[i] | (uint64_t)vf_upto("mark", 1) << 62 : SYM64("word");
      vf_assume(well_formed(w, i));
      mem[i] = w;
      old[i] = w;
    }
    old[0] = mem[0];
  }
  static bool well_formed(uint64_t w, unsigned label) {
    uint64_t a = (w >> 31) & 0x7fffffff, b = w & 0x7fffffff;
    uint64_t lo = a < b ? a : b, hi = a < b ? b : a;
    bool src = w >> 63;
    return (int)src | ((int)(a != b) & (int)(a != b + 1) & (int)(lo >= 1) & (int)(hi < label));
  }
  // the set of input bytes of every label, as a bit set; two labels of the same
  // byte share a bit
  template <unsigned M> void meaning(uint32_t (&den)[M]) const { meaning_of(mem, den); }
  template <unsigned M> static void meaning_of(const uint64_t *w, uint32_t (&den)[M]) {
    den[0] = 0;
    for (unsigned i = 1; i < M; i++) {
      uint64_t x = w[i] | CF;
      uint32_t a = (uint32_t)(x >> 31) & 0x7fffffff, b = (uint32_t)x & 0x7fffffff;
      uint32_t rep = 1u << i;
      for (unsigned j = i; j-- > 1;)
        rep = (w[j] | CF) == x ? 1u << j : rep;
      uint32_t range = 0, uni = 0;
      for (unsigned j = 1; j < i; j++) {
        range |= when((int)(a <= j) & (int)(j <= b), den[j]);
        uni |= when((int)(a == j) | (int)(b == j), den[j]);
      }
      den[i] = when(x >> 63, rep) | when(!(x >> 63), when(a < b, range) | when(a > b, uni));
    }
  }
};
