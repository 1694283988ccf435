// Native side of vf.h: replays the inputs of a counterexample.
// usage: replay INPUTFILE ENTRY  (lines "name#k value")
// exit status: 1 assertion failed (counterexample confirmed), 3 process ended
// where it must not, 77 an assumption does not hold, 0 nothing happened.
#include "vf.h"
#include <dlfcn.h>
#include <map>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
static std::map<std::string, uint64_t> *vals;
static std::map<std::string, unsigned> *cnt;
static int exit_ok = 0, finished = 0;
static void say(const char *a, const char *b) {
  (void)!write(2, a, strlen(a));
  (void)!write(2, b, strlen(b));
  (void)!write(2, "\n", 1);
}
static void at_exit(void) {
  if (finished)
    return;
  if (exit_ok) {
    _exit(0);
  }
  say("REPLAY: process ended by the code under test", "");
  _exit(3);
}
extern "C" {
static uint64_t one(const char *name) {
  std::string full = std::string(name) + "#" + std::to_string((*cnt)[name]++);
  for (char &c : full)
    c = c == ' ' ? '_' : c;
  auto it = vals->find(full);
  return it == vals->end() ? 0 : it->second;
}
uint64_t vf_sym(const char *name, unsigned bits) {
  uint64_t v = one(name);
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void vf_sym_bytes(void *p, size_t n, const char *name) {
  for (size_t i = 0; i < n; i++)
    ((uint8_t *)p)[i] = (uint8_t)one(name);
}
void vf_assume(int c) {
  if (!c) {
    finished = 1;
    say("REPLAY: assumption does not hold", "");
    _exit(77);
  }
}
void vf_assert(int c, const char *msg) {
  if (!c) {
    finished = 1;
    say("REPLAY: assertion failed: ", msg);
    _exit(1);
  }
}
void vf_cover(const char *) {}
void vf_exit_ok(int c) { exit_ok = c; }
int vf_is_symbolic(void) { return 0; }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_map(uintptr_t a, size_t n) {
  uintptr_t b = a & ~4095ull;
  size_t len = ((a + n + 4095) & ~4095ull) - b;
  mmap((void *)b, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (n <= 1 << 20)
    memset((void *)a, 0, n);
}
void vf_unmap(uintptr_t) {}
void vf_output(const char *, const void *, size_t) {}
void vf_output_u64(const char *, uint64_t) {}
void vf_spawn(void (*f)(void *), void *arg) { f(arg); }
void vf_join_all(void) {}
void vf_log(const char *m) { say("LOG ", m); }
void vf_end(void) {
  finished = 1;
  _exit(0);
}
void vf_exit(int) { exit(0); }
}
int main(int argc, char **argv) {
  vals = new std::map<std::string, uint64_t>;
  cnt = new std::map<std::string, unsigned>;
  FILE *f = fopen(argv[1], "r");
  char nm[512], v[64];
  while (f && fscanf(f, "%511s %63s", nm, v) == 2)
    (*vals)[nm] = strtoull(v, nullptr, 10);
  atexit(at_exit);
  auto entry = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
  if (!entry)
    _exit(78);
  entry();
  finished = 1;
  _exit(0);
}
