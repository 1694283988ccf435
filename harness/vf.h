// Interface between the harnesses and the symbolic executor (symir).  The same
// harness is compiled natively with vf_native.cpp to replay a counterexample.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t vf_sym(const char *name, unsigned bits);          // arbitrary value
void vf_sym_bytes(void *p, size_t n, const char *name);    // arbitrary bytes
void vf_assume(int c);
void vf_assert(int c, const char *msg);
void vf_cover(const char *name);                           // vacuity witness
void vf_exit_ok(int c);                                    // may the code under test end the process now?
int vf_is_symbolic(void);
uint64_t vf_concretize(uint64_t v);                        // case split over every value
void vf_map(uintptr_t addr, size_t n);                     // zeroed memory at a fixed address
void vf_unmap(uintptr_t addr);
void vf_output(const char *name, const void *p, size_t n); // bytes handed to the reader side
void vf_output_u64(const char *name, uint64_t v);
void vf_spawn(void (*f)(void *), void *arg);
void vf_join_all(void);
void vf_log(const char *msg);
void vf_end(void);
void vf_exit(int);
}
#define SYM8(n) ((uint8_t)vf_sym(n, 8))
#define SYM16(n) ((uint16_t)vf_sym(n, 16))
#define SYM32(n) ((uint32_t)vf_sym(n, 32))
#define SYM64(n) ((uint64_t)vf_sym(n, 64))
#define SYMBOOL(n) ((bool)vf_sym(n, 1))
#define VF_ENTRY extern "C" __attribute__((noinline, used)) void
static inline uint64_t vf_upto(const char *name, uint64_t max) { // 0..max
  uint64_t v = vf_sym(name, 64);
  vf_assume(v <= max);
  return v;
}
