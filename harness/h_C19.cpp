// @sources dfsan custom
// @bound strings of up to 3 (thorough: 4) characters and buffers of up to 3 (thorough: 4) bytes with any contents and labels (strpbrk, strstr: one fixed, distinct label per byte), any character argument and count; both settings of strict_data_dependencies
// @assume labels are bit sets and the label union (decided by C03) is a stand-in that joins them; the C locale; strtol and its like are stand-ins with an arbitrary result and end
#include "custom.h"
extern "C" {
char *__dfsw_strchr(const char *, int, L, L, L *);
char *__dfsw_strrchr(const char *, int, L, L, L *);
char *__dfsw_strpbrk(const char *, const char *, L, L, L *);
char *__dfsw_strstr(const char *, const char *, L, L, L *);
int __dfsw_memcmp(const void *, const void *, size_t, L, L, L, L *);
int __dfsw_bcmp(const void *, const void *, size_t, L, L, L, L *);
int __dfsw_strcmp(const char *, const char *, L, L, L *);
int __dfsw_strcasecmp(const char *, const char *, L, L, L *);
int __dfsw_strncmp(const char *, const char *, size_t, L, L, L, L *);
int __dfsw_strncasecmp(const char *, const char *, size_t, L, L, L, L *);
size_t __dfsw_strlen(const char *, L, L *);
void *__dfsw_memchr(void *, int, size_t, L, L, L, L *);
long __dfsw_strtol(const char *, char **, int, L, L, L, L *);
long long __dfsw_strtoll(const char *, char **, int, L, L, L, L *);
unsigned long __dfsw_strtoul(const char *, char **, int, L, L, L, L *);
unsigned long long __dfsw_strtoull(const char *, char **, int, L, L, L, L *);
double __dfsw_strtod(const char *, char **, L, L, L *);
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vfx_tolower(int c) { return lower(c); }
static int tolower_table[384];
static const int *tolower_at;
const int **vfx___ctype_tolower_loc() {
  for (int i = 0; i < 384; i++)
    tolower_table[i] = lower(i - 128);
  tolower_at = tolower_table + 128;
  return &tolower_at;
}
static bool in(const char *set, char c) {
  unsigned r = 0;
  for (; *set; set++)
    r |= (unsigned)(*set == c);
  return r;
}
char *vfx_strpbrk(const char *s, const char *set) {
  for (; *s; s++)
    if (in(set, *s))
      return (char *)s;
  return nullptr;
}
size_t vfx_strcspn(const char *s, const char *set) {
  size_t i = 0;
  while (s[i] && !in(set, s[i]))
    i++;
  return i;
}
char *vfx_strstr(const char *h, const char *n) {
  size_t m = 0, k = 0;
  while (n[m])
    m++;
  while (h[k])
    k++;
  for (size_t i = 0; i + m <= k; i++) {
    unsigned eq = 1;
    for (size_t j = 0; j < m; j++)
      eq &= (unsigned)(h[i + j] == n[j]);
    if (eq)
      return (char *)h + i;
  }
  return nullptr;
}
char *vfx_strchrnul(const char *s, int c) {
  while (*s && *s != (char)c)
    s++;
  return (char *)s;
}
}
static constexpr unsigned K = BOUND(4, 5); // a string with its terminator
static char *const S = (char *)app, *const T = (char *)app + K;
// distinct: byte i has label 1 << i, and each argument a label of its own; which bytes
// contribute to the result is still visible
static bool distinct;
static void two_strings(bool d = false) {
  distinct = d;
  choose_mode();
  memory(2 * K);
  for (unsigned i = 0; d && i < 2 * K; i++)
    shadow[i] = old_label[i] = 1u << i;
  fix(K - 1, 0);
  fix(2 * K - 1, 0);
}
static L one(const char *n) {
  static unsigned next = 16;
  return distinct ? 1u << next++ : (L)vf_sym(n, 4);
}
// The label covers what was examined and nothing but the arguments; with strict data
// dependencies it is at most the label of the pointer that is returned.
static void label_is(L got, L examined, L args, L pointer) {
  if (strict)
    vf_assert((got & ~pointer) == 0, "under strict data dependencies the result has no label of its own");
  else {
    vf_assert((examined & ~got) == 0, "the label covers the bytes that were examined");
    vf_assert((got & ~(args | pointer)) == 0, "the label comes from the arguments");
  }
}
static void nothing_changed() { unchanged(0, mem_size); }
VF_ENTRY find_first() {
  two_strings();
  int c = (int)SYM32("c");
  L sl = one("s"), cl = one("cl"), ret = SYM32("ret");
  char *r = __dfsw_strchr(S, c, sl, cl, &ret);
  unsigned n = len_of(0), i = 0;
  while (i < n && S[i] != (char)c)
    i++;
  bool found = S[i] == (char)c;
  vf_assert(r == (found ? S + i : nullptr), "strchr finds the first occurrence");
  label_is(ret, labels(0, i + 1), labels(0, n + 1) | cl, sl);
  nothing_changed();
  if (found)
    vf_cover("found");
  else
    vf_cover("not found");
}
VF_ENTRY find_last() {
  two_strings();
  int c = (int)SYM32("c");
  L sl = one("s"), cl = one("cl"), ret = SYM32("ret");
  char *r = __dfsw_strrchr(S, c, sl, cl, &ret);
  unsigned n = len_of(0);
  char *want = nullptr;
  for (unsigned i = 0; i <= n; i++)
    if (S[i] == (char)c)
      want = S + i;
  vf_assert(r == want, "strrchr finds the last occurrence");
  label_is(ret, labels(0, n + 1), labels(0, n + 1) | cl, sl);
  nothing_changed();
  vf_cover("done");
}
VF_ENTRY find_any() {
  two_strings(true);
  L sl = one("s"), tl = one("t"), ret = SYM32("ret");
  char *r = __dfsw_strpbrk(S, T, sl, tl, &ret);
  unsigned n = len_of(0), m = len_of(K), i = 0;
  while (i < n && !in(T, S[i]))
    i++;
  vf_assert(r == (i < n ? S + i : nullptr), "strpbrk finds the first character of the set");
  label_is(ret, labels(0, i + 1) | labels(K, m + 1), labels(0, n + 1) | labels(K, m + 1) | tl, sl);
  nothing_changed();
  vf_cover("done");
}
VF_ENTRY find_string() {
  two_strings(true);
  L sl = one("s"), tl = one("t"), ret = SYM32("ret");
  char *r = __dfsw_strstr(S, T, sl, tl, &ret);
  unsigned n = len_of(0), m = len_of(K);
  char *want = nullptr;
  for (unsigned i = 0; i + m <= n && !want; i++) {
    unsigned eq = 1;
    for (unsigned k = 0; k < m; k++)
      eq &= (unsigned)(S[i + k] == T[k]);
    if (eq)
      want = S + i;
  }
  vf_assert(r == want, "strstr finds the first occurrence");
  label_is(ret, labels(0, want ? want - S + m : n + 1) | labels(K, m + 1), labels(0, n + 1) | labels(K, m + 1) | tl, sl);
  nothing_changed();
  if (want)
    vf_cover("found");
  else
    vf_cover("not found");
}
VF_ENTRY find_byte() {
  two_strings();
  int c = (int)SYM32("c");
  size_t n = vf_concretize(vf_upto("n", K));
  L sl = one("s"), cl = one("cl"), nl = one("nl"), ret = SYM32("ret");
  void *r = __dfsw_memchr(S, c, n, sl, cl, nl, &ret);
  unsigned i = 0;
  while (i < n && (uint8_t)S[i] != (uint8_t)c)
    i++;
  vf_assert(r == (i < n ? S + i : nullptr), "memchr finds the first occurrence");
  label_is(ret, labels(0, i < n ? i + 1 : n), labels(0, n) | cl | nl, sl);
  nothing_changed();
  vf_cover("done");
}
// memcmp, bcmp
VF_ENTRY compare_bytes() {
  two_strings();
  bool b = vf_concretize(vf_upto("bcmp", 1));
  size_t n = vf_concretize(vf_upto("n", K));
  L sl = one("s"), tl = one("t"), nl = one("nl"), ret = SYM32("ret");
  int r = b ? __dfsw_bcmp(S, T, n, sl, tl, nl, &ret) : __dfsw_memcmp(S, T, n, sl, tl, nl, &ret);
  unsigned i = 0;
  while (i < n && S[i] == T[i])
    i++;
  int want = i < n ? (int)(uint8_t)S[i] - (int)(uint8_t)T[i] : 0;
  if (b)
    vf_assert((r != 0) == (want != 0), "bcmp tells equal from different");
  else
    vf_assert(sgn(r) == sgn(want), "memcmp compares bytes as unsigned");
  unsigned e = i < n ? i + 1 : n;
  label_is(ret, labels(0, e) | labels(K, e), labels(0, n) | labels(K, n) | sl | tl | nl, 0);
  nothing_changed();
  vf_cover("done");
}
// strcmp and its variants
static void compare(bool limited, bool fold) {
  two_strings();
  size_t n = limited ? vf_concretize(vf_upto("n", K + 1)) : ~0ull;
  L sl = one("s"), tl = one("t"), nl = one("nl"), ret = SYM32("ret");
  int r = limited ? fold ? __dfsw_strncasecmp(S, T, n, sl, tl, nl, &ret) : __dfsw_strncmp(S, T, n, sl, tl, nl, &ret)
          : fold  ? __dfsw_strcasecmp(S, T, sl, tl, &ret)
                  : __dfsw_strcmp(S, T, sl, tl, &ret);
  unsigned i = 0, e = 0;
  int want = 0;
  for (; i < n; i++) {
    int a = (uint8_t)S[i], b = (uint8_t)T[i];
    if (fold)
      a = lower(a), b = lower(b);
    want = a - b;
    e = i + 1;
    if (want || !S[i])
      break;
  }
  vf_assert(sgn(r) == sgn(want), "strings are compared as unsigned characters");
  label_is(ret, labels(0, e) | labels(K, e), labels(0, len_of(0) + 1) | labels(K, len_of(K) + 1) | sl | tl | nl, 0);
  nothing_changed();
}
VF_ENTRY compare_strings() {
  compare(false, false);
  vf_cover("done");
}
VF_ENTRY compare_strings_n() {
  compare(true, false);
  vf_cover("done");
}
VF_ENTRY compare_strings_case() {
  compare(false, true);
  vf_cover("done");
}
VF_ENTRY compare_strings_case_n() {
  compare(true, true);
  vf_cover("done");
}
VF_ENTRY length() {
  two_strings();
  L sl = one("s"), ret = SYM32("ret");
  size_t r = __dfsw_strlen(S, sl, &ret);
  unsigned n = len_of(0);
  vf_assert(r == n, "strlen counts the characters");
  label_is(ret, labels(0, n + 1), labels(0, n + 1) | sl, 0);
  nothing_changed();
  vf_cover("done");
}
// Numbers: the value comes from the characters that were used.
static unsigned used;
static uint64_t value;
static double dvalue;
static const char *last_s;
static int last_base;
static bool last_unsigned;
static uint64_t number(const char *s, char **end, int base, bool is_unsigned = false) {
  last_unsigned = is_unsigned;
  last_s = s;
  last_base = base;
  if (end)
    *end = (char *)s + used;
  return value;
}
extern "C" {
long vfx_strtol(const char *s, char **end, int base) { return number(s, end, base); }
long long vfx_strtoll(const char *s, char **end, int base) { return number(s, end, base); }
unsigned long vfx_strtoul(const char *s, char **end, int base) { return number(s, end, base, true); }
unsigned long long vfx_strtoull(const char *s, char **end, int base) { return number(s, end, base, true); }
long vfx___isoc23_strtol(const char *s, char **end, int base) { return number(s, end, base); }
long long vfx___isoc23_strtoll(const char *s, char **end, int base) { return number(s, end, base); }
unsigned long vfx___isoc23_strtoul(const char *s, char **end, int base) { return number(s, end, base, true); }
unsigned long long vfx___isoc23_strtoull(const char *s, char **end, int base) { return number(s, end, base, true); }
double vfx_strtod(const char *s, char **end) {
  number(s, end, 0);
  return dvalue;
}
}
VF_ENTRY numbers() {
  two_strings();
  strict = false; // numbers do not depend on the mode
  unsigned which = vf_concretize(vf_upto("function", 4));
  unsigned n = len_of(0);
  used = vf_concretize(vf_upto("used", n));
  value = SYM64("value");
  dvalue = 2.5;
  int base = (int)SYM32("base");
  L sl = one("s"), el = one("e"), bl = one("b"), ret = SYM32("ret");
  char *end = (char *)1;
  char **ep = vf_concretize(vf_upto("end", 1)) ? &end : nullptr;
  uint64_t r = 0;
  double d = 0;
  if (which == 0)
    r = __dfsw_strtol(S, ep, base, sl, el, bl, &ret);
  else if (which == 1)
    r = __dfsw_strtoll(S, ep, base, sl, el, bl, &ret);
  else if (which == 2)
    r = __dfsw_strtoul(S, ep, base, sl, el, bl, &ret);
  else if (which == 3)
    r = __dfsw_strtoull(S, ep, base, sl, el, bl, &ret);
  else
    d = __dfsw_strtod(S, ep, sl, el, &ret);
  if (which == 4) {
    vf_assert(d == dvalue, "the value is the real one");
    bl = 0;
  } else
    vf_assert((int)(r == value) & (int)(last_base == base) & (int)(last_unsigned == (which > 1)), "the value is the real one");
  vf_assert(last_s == S, "the string is the program's");
  vf_assert(!ep || end == S + used, "the end is the real one");
  if (used) {
    label_is(ret, labels(0, used + (used == n)) | bl, labels(0, n + 1) | bl | sl, 0);
    vf_cover("number");
  } else {
    vf_assert((ret & ~(labels(0, n + 1) | bl | sl)) == 0, "the label comes from the arguments");
    vf_cover("no number");
  }
  nothing_changed();
}
