// The real DFSan runtime over a small piece of program memory, and stand-ins for
// what it takes from the sanitizer's support library.
#pragma once
#include "vf.h"
#ifdef VF_THOROUGH
#define BOUND(q, t) (t)
#else
#define BOUND(q, t) (q)
#endif
static constexpr uintptr_t APP = 0x700010000000ull;
static constexpr uintptr_t SHADOW = (APP & ~0x700000000000ull) << 2;
static uint8_t *const app = (uint8_t *)APP;
static uint32_t *const shadow = (uint32_t *)SHADOW;
// n bytes of program memory, with their labels, between guards
static inline void app_memory(size_t n) {
  vf_map(APP, n);
  vf_map(SHADOW, 4 * n);
}
extern "C" {
void vfx__ZN11__sanitizer6ReportEPKcz(const char *, ...) {}
void vfx__ZN11__sanitizer6PrintfEPKcz(const char *, ...) {}
void vfx__ZN11__sanitizer3DieEv() { vf_exit(1); }
void vfx__ZN11__sanitizer11CheckFailedEPKciS1_yy(const char *, int, const char *, unsigned long long, unsigned long long) { vf_exit(1); }
uintptr_t vfx__ZN11__sanitizer11GetPageSizeEv() { return 4096; }
bool vfx__ZN11__sanitizer11mem_is_zeroEPKcm(const char *p, size_t n) {
  for (size_t i = 0; i < n; i++)
    if (p[i])
      return false;
  return true;
}
void *vfx__ZN11__sanitizer15internal_memsetEPvim(void *p, int c, size_t n) {
  for (size_t i = 0; i < n; i++)
    ((volatile char *)p)[i] = (char)c;
  return p;
}
void *vfx__ZN11__sanitizer15internal_memcpyEPvPKvm(void *d, const void *s, size_t n) {
  for (size_t i = 0; i < n; i++)
    ((volatile char *)d)[i] = ((const char *)s)[i];
  return d;
}
void *vfx__ZN11__sanitizer16internal_memmoveEPvPKvm(void *d, const void *s, size_t n) {
  if ((uintptr_t)d <= (uintptr_t)s)
    for (size_t i = 0; i < n; i++)
      ((volatile char *)d)[i] = ((const char *)s)[i];
  else
    for (size_t i = n; i-- > 0;)
      ((volatile char *)d)[i] = ((const char *)s)[i];
  return d;
}
}
