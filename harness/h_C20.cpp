// @sources dfsan custom sources
// @bound blocks of up to 4 (thorough: 6) bytes at any distance, overlapping ones included, and strings of up to 3 (thorough: 4) characters, with any contents and labels; allocations that succeed or fail, of any old and new size up to that bound; zeroed allocations of 16 KB to 8 TB in multiples of 1 KB
// @assume labels are bit sets and the label union (decided by C03) is a stand-in that joins them; strcpy, strcat, malloc, calloc and realloc are stand-ins that behave as the C standard says; the bytes a realloc adds have no particular label
#include "custom.h"
#include <errno.h>
extern "C" {
void *__dfsw_memcpy(void *, const void *, size_t, L, L, L, L *);
void *__dfsw_memmove(void *, const void *, size_t, L, L, L, L *);
void *__dfsw_memset(void *, int, size_t, L, L, L, L *);
char *__dfsw_strcpy(char *, const char *, L, L, L *);
char *__dfsw_strncpy(char *, const char *, size_t, L, L, L, L *);
char *__dfsw_strcat(char *, const char *, L, L, L *);
char *__dfsw_strdup(const char *, L, L *);
void *__dfsw_malloc(size_t, L, L *);
void *__dfsw_calloc(size_t, size_t, L, L, L *);
void *__dfsw_realloc(void *, size_t, L, L, L *);
void __dfsw_free(void *, L);
}
static constexpr unsigned N = BOUND(4, 6); // bytes
static L one(const char *n) { return (L)vf_sym(n, 4); }
static void from_args(L got, L args) { vf_assert((got & ~args) == 0, "the label of the returned pointer comes from the arguments"); }
// dst[i] now is what src[i] was
static void copied(unsigned dst, unsigned src, unsigned n) {
  for (unsigned i = 0; i < n; i++) {
    vf_assert(app[dst + i] == old_byte[src + i], "the bytes are copied");
    vf_assert(shadow[dst + i] == old_label[src + i], "every byte brings its label along");
  }
}
VF_ENTRY move() {
  choose_mode();
  memory(2 * N);
  unsigned n = vf_concretize(vf_upto("n", N));
  unsigned d = vf_concretize(vf_upto("d", 2 * N - n)), s = vf_concretize(vf_upto("s", 2 * N - n));
  bool overlap = d < s + n && s < d + n;
  bool move = vf_concretize(vf_upto("memmove", 1));
  vf_assume(move || !overlap);
  L dl = one("dl"), sl = one("sl"), nl = one("nl"), ret = SYM32("ret");
  void *r = move ? __dfsw_memmove(app + d, app + s, n, dl, sl, nl, &ret) : __dfsw_memcpy(app + d, app + s, n, dl, sl, nl, &ret);
  vf_assert(r == app + d, "the destination is returned");
  from_args(ret, dl | sl | nl);
  copied(d, s, n);
  unchanged(0, d);
  unchanged(d + n, 2 * N);
  if (overlap)
    vf_cover("overlapping");
  else
    vf_cover("apart");
}
VF_ENTRY fill() {
  choose_mode();
  memory(N + 2);
  unsigned n = vf_concretize(vf_upto("n", N)), d = vf_concretize(vf_upto("d", 2));
  int c = (int)SYM32("c");
  L dl = one("dl"), cl = one("cl"), nl = one("nl"), ret = SYM32("ret");
  void *r = __dfsw_memset(app + d, c, n, dl, cl, nl, &ret);
  vf_assert(r == app + d, "the destination is returned");
  from_args(ret, dl | cl | nl);
  for (unsigned i = d; i < d + n; i++) {
    vf_assert(app[i] == (uint8_t)c, "every byte gets the value");
    vf_assert(shadow[i] == cl, "every byte gets the label of the value");
  }
  unchanged(0, d);
  unchanged(d + n, N + 2);
  vf_cover("done");
}
// strings: a destination of D bytes, then the source with its terminator
static constexpr unsigned K = BOUND(4, 5), D = 2 * K;
static char *const S = (char *)app + D;
static unsigned source() {
  choose_mode();
  memory(D + K);
  fix(D + K - 1, 0);
  return len_of(D);
}
static size_t stub_len(const char *s) {
  size_t n = 0;
  while (s[n])
    n++;
  return n;
}
extern "C" {
char *vfx_strcpy(char *d, const char *s) {
  size_t n = stub_len(s);
  for (size_t i = 0; i <= n; i++)
    ((volatile char *)d)[i] = s[i];
  return d;
}
char *vfx_stpcpy(char *d, const char *s) {
  size_t n = stub_len(s);
  for (size_t i = 0; i <= n; i++)
    ((volatile char *)d)[i] = s[i];
  return d + n;
}
char *vfx_strcat(char *d, const char *s) {
  vfx_strcpy(d + stub_len(d), s);
  return d;
}
size_t vfx_strnlen(const char *s, size_t m) {
  size_t n = 0;
  while (n < m && s[n])
    n++;
  return n;
}
}
VF_ENTRY copy_string() {
  unsigned n = source();
  L dl = one("dl"), sl = one("sl"), ret = SYM32("ret");
  char *r = __dfsw_strcpy((char *)app, S, dl, sl, &ret);
  vf_assert(r == (char *)app, "the destination is returned");
  from_args(ret, dl | sl);
  copied(0, D, n + 1);
  unchanged(n + 1, D + K);
  vf_cover("done");
}
// the source need not be terminated within the bound
VF_ENTRY copy_string_n() {
  choose_mode();
  memory(D + K);
  unsigned n = vf_concretize(vf_upto("n", D));
  unsigned len = 0;
  while (len < K && old_byte[D + len])
    len++;
  vf_assume(len < K || n <= K);
  L dl = one("dl"), sl = one("sl"), nl = one("nl"), ret = SYM32("ret");
  char *r = __dfsw_strncpy((char *)app, S, n, dl, sl, nl, &ret);
  vf_assert(r == (char *)app, "the destination is returned");
  from_args(ret, dl | sl | nl);
  unsigned c = n < len ? n : len < n && len < K ? len + 1 : len;
  copied(0, D, c);
  for (unsigned i = c; i < n; i++) {
    vf_assert(app[i] == 0, "the rest is filled with zeros");
    vf_assert(shadow[i] == 0, "the padding has no label");
  }
  unchanged(n, D + K);
  if (c < n)
    vf_cover("padded");
  else if (len >= n)
    vf_cover("cut off");
}
VF_ENTRY append_string() {
  unsigned n = source();
  fix(K - 1, 0);
  unsigned at = len_of(0);
  L dl = one("dl"), sl = one("sl"), ret = SYM32("ret");
  char *r = __dfsw_strcat((char *)app, S, dl, sl, &ret);
  vf_assert(r == (char *)app, "the destination is returned");
  from_args(ret, dl | sl);
  unchanged(0, at);
  copied(at, D, n + 1);
  unchanged(at + n + 1, D + K);
  if (at == 0)
    vf_cover("to an empty string");
  if (n == 0)
    vf_cover("an empty string");
}
// Allocation: a heap at the beginning of the memory
static uint8_t *heap;
static size_t asked;
static bool fails;
static unsigned allocations, old_size;
static const unsigned OLD = D; // where the old block is
static bool in_place;
static void *freed;
static bool large; // an allocation of any size succeeds; its bytes are not there
extern "C" {
void *vfx_malloc(size_t n) {
  allocations++;
  asked = n;
  if (large) {
    fails = false;
    return app;
  }
  fails = n > D || vf_concretize(vf_upto("fails", 1));
  if (fails)
    errno = ENOMEM;
  return fails ? nullptr : app;
}
void *vfx_calloc(size_t n, size_t m) {
  size_t total;
  if (__builtin_mul_overflow(n, m, &total))
    total = ~0ull;
  void *p = vfx_malloc(total);
  for (size_t i = 0; p && !large && i < total; i++)
    ((volatile uint8_t *)p)[i] = 0;
  return p;
}
static uintptr_t released_from, released_to;
void vfx__ZN11__sanitizer22ReleaseMemoryPagesToOSEmm(uintptr_t a, uintptr_t b) {
  released_from = a;
  released_to = b;
}
void vfx_free(void *p) { freed = p; }
size_t vfx_malloc_usable_size(void *p) { return p ? old_size : 0; }
void *vfx_realloc(void *p, size_t n) {
  if (!p)
    return vfx_malloc(n);
  vf_assert(p == app + OLD, "the block is the program's");
  in_place = n <= N && vf_concretize(vf_upto("in_place", 1));
  if (in_place) {
    asked = n;
    allocations++;
    return p;
  }
  void *q = vfx_malloc(n);
  for (size_t i = 0; q && i < n && i < old_size; i++)
    ((volatile uint8_t *)q)[i] = app[OLD + i];
  return q;
}
}
VF_ENTRY duplicate_string() {
  unsigned n = source();
  L sl = one("sl"), ret = SYM32("ret");
  char *r = __dfsw_strdup(S, sl, &ret);
  vf_assert(r == nullptr || allocations == 1, "one block is allocated");
  from_args(ret, sl);
  if (fails) {
    vf_assert(r == nullptr, "a failed allocation is reported");
    unchanged(0, D + K);
    vf_cover("out of memory");
    return;
  }
  vf_assert((int)(r == (char *)app) & (int)(asked == n + 1), "the block holds the string");
  copied(0, D, n + 1);
  unchanged(n + 1, D + K);
  vf_cover("done");
}
VF_ENTRY allocate() {
  choose_mode();
  memory(D + N);
  L nl = one("nl"), sl = one("sl"), ret = SYM32("ret");
  size_t n = SYM64("n");
  void *r = __dfsw_malloc(n, nl, &ret);
  vf_assert(r == (fails ? nullptr : app), "the real result is returned");
  vf_assert((int)(asked == n) & (int)(allocations == 1), "the size is the program's");
  from_args(ret, nl);
  unchanged(D, D + N);
  __dfsw_free(app, sl);
  vf_assert(freed == app, "the block is freed");
  vf_cover("done");
}
VF_ENTRY allocate_zeroed() {
  choose_mode();
  memory(D + N);
  L nl = one("nl"), sl = one("sl"), ret = SYM32("ret");
  size_t n, m;
  if (vf_concretize(vf_upto("small", 1))) {
    n = vf_concretize(vf_upto("n", N));
    m = vf_concretize(vf_upto("m", 2));
  } else { // too large, or overflowing
    n = SYM64("large");
    m = SYM64("size");
    vf_assume(n > D);
    vf_assume(m > D);
  }
  void *r = __dfsw_calloc(n, m, nl, sl, &ret);
  from_args(ret, nl | sl);
  vf_assert(r == (fails ? nullptr : app), "the real result is returned");
  unsigned z = fails ? 0 : n * m;
  for (unsigned i = 0; i < z; i++) {
    vf_assert(app[i] == 0, "the memory is cleared");
    vf_assert(shadow[i] == 0, "cleared memory has no label");
  }
  unchanged(z, D + N);
  if (fails)
    vf_cover("out of memory");
  else
    vf_cover("done");
}
// Clearing the labels of a large block gives the pages that hold them back (C18).
VF_ENTRY allocate_zeroed_large() {
  large = true;
  vf_map(SHADOW, 4096);
  uint64_t pages = SYM64("pages");
  vf_assume(pages > 16);
  vf_assume(pages < 1ull << 33);
  bool one_each = vf_concretize(vf_upto("bytes", 1));
  L nl = one("nl"), sl = one("sl"), ret = SYM32("ret");
  void *r = one_each ? __dfsw_calloc(pages * 1024, 1, nl, sl, &ret) : __dfsw_calloc(pages, 1024, nl, sl, &ret);
  from_args(ret, nl | sl);
  vf_assert((int)(r == app) & (int)(asked == pages * 1024), "the real result is returned");
  vf_assert((int)(released_from == SHADOW) & (int)(released_to == SHADOW + 4096 * pages), "cleared memory has no label");
  vf_cover("done");
}
VF_ENTRY reallocate() {
  choose_mode();
  memory(D + N);
  old_size = vf_concretize(vf_upto("old_size", N));
  size_t n;
  if (vf_concretize(vf_upto("small", 1)))
    n = vf_concretize(vf_upto("n", N));
  else {
    n = SYM64("large");
    vf_assume(n > D);
  }
  vf_assume(n > 0);
  L pl = one("pl"), sl = one("sl"), ret = SYM32("ret");
  bool fresh = vf_concretize(vf_upto("null", 1));
  void *r = __dfsw_realloc(fresh ? nullptr : app + OLD, n, pl, sl, &ret);
  from_args(ret, pl | sl);
  vf_assert((int)(asked == n) & (int)(allocations == 1), "the size is the program's");
  if (fails) {
    vf_assert(r == nullptr, "a failed allocation is reported");
    unchanged(0, D + N);
    vf_cover("out of memory");
    return;
  }
  unsigned keep = fresh ? 0 : n < old_size ? n : old_size;
  vf_assert(r == (in_place ? app + OLD : app), "the real result is returned");
  copied(in_place ? OLD : 0, OLD, keep);
  unchanged(in_place ? 0 : n, D);
  if (in_place)
    vf_cover("in place");
  else
    vf_cover("moved");
}
