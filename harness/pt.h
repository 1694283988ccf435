// A real tracker writing its output file into memory.  What it recorded is read
// from the file, by the section table in the file's header.
#pragma once
#include "dfs.h"
#include "taintdag/outputfile.h"
#include "taintdag/section.h"
#include "taintdag/polytracker.h"
#include <system_error>
#include <new>
using namespace taintdag;
static constexpr uintptr_t FILE_AT = 0x100000000000ull;
static uint64_t file_bytes;
static bool mapped;
extern "C" {
#ifndef PT_OWN_OPEN
static char opened[24];
int vfx_open(const char *p, int, ...) {
  for (unsigned i = 0; i < 23; i++) {
    opened[i] = p[i];
    if (!p[i])
      break;
  }
  return 99;
}
int vfx_open64(const char *p, int f, ...) { return vfx_open(p, f); }
#endif
int vfx_ftruncate(int, long n) {
  file_bytes = n;
  return 0;
}
int vfx_ftruncate64(int, long n) { return vfx_ftruncate(0, n); }
static void *map_output(size_t n) {
  vf_assert(n <= file_bytes, "the file is large enough for its mapping");
  vf_map(FILE_AT, n);
  mapped = true;
  return (void *)FILE_AT;
}
#ifndef PT_OWN_MMAP
void *vfx_mmap(void *, size_t n, int, int, int, long) { return map_output(n); }
void *vfx_mmap64(void *, size_t n, int, int, int, long) { return map_output(n); }
int vfx_munmap(void *, size_t) { return 0; } // the file's contents stay
int vfx_close(int) { return 0; }
#endif
#ifndef PT_OWN_SIZE
uintmax_t vfx__ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code(void *, std::error_code &ec) noexcept {
  *(int *)&ec = 0;
  return 1000;
}
#endif
}
struct OutFile {
  uint8_t *base() const { return (uint8_t *)FILE_AT; }
  unsigned sections() const { return *(uint16_t *)(base() + 6); }
  uint8_t *entry(uint32_t tag) const {
    for (unsigned i = 0; i < sections(); i++) {
      uint8_t *e = base() + 8 + 24 * i;
      if (*(uint32_t *)e == tag)
        return e;
    }
    vf_assert(0, "the section exists");
    return nullptr;
  }
  uint8_t *at(uint32_t tag) const { return base() + *(uint64_t *)(entry(tag) + 8); }
  uint64_t size(uint32_t tag) const { return *(uint64_t *)(entry(tag) + 16); }
  uint64_t *labels() const { return (uint64_t *)at(2); }
  uint64_t *bitmap() const { return (uint64_t *)at(5); }
  struct Sink {
    uint64_t offset;
    uint32_t label;
    uint8_t sink;
  };
  Sink *sinks() const { return (Sink *)at(4); }
  uint64_t nsinks() const { return size(4) / sizeof(Sink); }
  struct Source {
    uint32_t name;
    int fd;
    uint64_t size;
  };
  Source *sources() const { return (Source *)at(1); }
  uint64_t nsources() const { return size(1) / sizeof(Source); }
};
static OutFile out;
// the word of an input byte, as the output format documents it
static inline uint64_t source_word(uint8_t src, uint64_t off) { return (1ull << 63) | (off << 8) | src; }
alignas(16) static uint8_t tracker_mem[sizeof(PolyTracker)];
static inline PolyTracker *start() { return new (tracker_mem) PolyTracker("out.tdag"); }
static inline void finish() { ((PolyTracker *)tracker_mem)->~PolyTracker(); }
