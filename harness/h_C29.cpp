// @sources dfsan custom
// @bound every format made of up to 2 of the pieces listed, the second of 7 (thorough: 22) kinds (text, %%, %n and the integer, character, pointer, string and double conversions, with length modifiers, widths, precisions and stars), every buffer size from 0 to 5, strings of up to 2 characters, numbers written as 1 or 2 arbitrary characters; any memory; %n and doubles with any labels, the others with one distinct label per byte and arguments that have a label or not
// @assume the C library's own snprintf, called with one piece or several, is a stand-in that follows the standard; numbers are written as arbitrary text, whatever their width
#include "custom.h"
#include <stdarg.h>
#include <stdio.h>
extern "C" {
int __dfsw_sprintf(char *, const char *, L, L, L *, L *, ...);
int __dfsw_snprintf(char *, size_t, const char *, L, L, L, L *, L *, ...);
}
static constexpr unsigned OUT = 0, OUTN = 14, STR = OUTN, STRN = 3, CNT = STR + 2 * STRN, CNTN = 8, ALL = CNT + CNTN;
static_assert(ALL <= 28, "");
// what each number is written as
static constexpr unsigned NUMS = 4;
static uint64_t num_value[NUMS];
static char num_text[NUMS][2];
static unsigned num_len[NUMS], num_count;
static int want_star[NUMS][2], want_stars[NUMS];
static bool in_order = true;
static unsigned stub_out(char *s, size_t n, unsigned at, char c) {
  if (at + 1 < n)
    s[at] = c;
  return at + 1;
}
static int reference(char *s, size_t n, const char *f, va_list a) {
  unsigned at = 0;
  while (*f) {
    if (*f != '%') {
      at = stub_out(s, n, at, *f++);
      continue;
    }
    f++;
    bool left = false;
    int width = 0, prec = -1, stars[2], nstars = 0;
    unsigned longs = 0, shorts = 0, big = 0;
    while (*f == '-' || *f == '0' || *f == '#' || *f == '+' || *f == ' ')
      left |= *f++ == '-';
    if (*f == '*') {
      stars[nstars++] = width = va_arg(a, int);
      f++;
      if (width < 0) {
        left = true;
        width = -width;
      }
    } else
      while (*f >= '0' && *f <= '9')
        width = width * 10 + *f++ - '0';
    if (*f == '.') {
      f++;
      prec = 0;
      if (*f == '*') {
        stars[nstars++] = prec = va_arg(a, int);
        f++;
      } else
        while (*f >= '0' && *f <= '9')
          prec = prec * 10 + *f++ - '0';
    }
    for (;; f++)
      if (*f == 'l')
        longs++;
      else if (*f == 'h')
        shorts++;
      else if (*f == 'z' || *f == 'j' || *f == 't' || *f == 'q')
        big++;
      else
        break;
    char c = *f++;
    if (c == '%')
      at = stub_out(s, n, at, '%');
    else if (c == 'c')
      at = stub_out(s, n, at, (char)va_arg(a, int));
    else if (c == 's') {
      const char *p = va_arg(a, const char *);
      int len = 0;
      while ((prec < 0 || len < prec) && p[len])
        len++;
      if (!left)
        for (int i = len; i < width; i++)
          at = stub_out(s, n, at, ' ');
      for (int i = 0; i < len; i++)
        at = stub_out(s, n, at, p[i]);
      if (left)
        for (int i = len; i < width; i++)
          at = stub_out(s, n, at, ' ');
    } else if (c == 'n')
      *va_arg(a, int *) = at;
    else {
      uint64_t v;
      if (c == 'f' || c == 'g' || c == 'e' || c == 'a') {
        double d = va_arg(a, double);
        v = __builtin_bit_cast(uint64_t, d);
      } else if (c == 'p' || longs || big)
        v = va_arg(a, uint64_t);
      else
        v = va_arg(a, uint32_t);
      unsigned k = 0;
      while (k < num_count && num_value[k] != v)
        k++;
      vf_assert(k < num_count, "the arguments are passed on");
      vf_assert(nstars == want_stars[k], "widths and precisions are passed on");
      for (int i = 0; i < nstars; i++)
        vf_assert(stars[i] == want_star[k][i], "widths and precisions are passed on");
      for (unsigned i = 0; i < num_len[k]; i++)
        at = stub_out(s, n, at, num_text[k][i]);
    }
  }
  if (n)
    s[at < n ? at : n - 1] = 0;
  return at;
}
extern "C" {
int vfx_snprintf(char *s, size_t n, const char *f, ...) {
  va_list a;
  va_start(a, f);
  int r = reference(s, n, f, a);
  va_end(a);
  return r;
}
int vfx_vsnprintf(char *s, size_t n, const char *f, va_list a) { return reference(s, n, f, a); }
int vfx_sprintf(char *s, const char *f, ...) {
  va_list a;
  va_start(a, f);
  int r = reference(s, ~0ul >> 1, f, a);
  va_end(a);
  return r;
}
size_t vfx__ZN11__sanitizer16internal_strnlenEPKcm(const char *s, size_t n) {
  size_t i = 0;
  while (i < n && s[i])
    i++;
  return i;
}
size_t vfx_strnlen(const char *s, size_t n) {
  size_t i = 0;
  while (i < n && s[i])
    i++;
  return i;
}
}
static uint8_t byte_[32];
static L label_[32];
static unsigned mem_end;
static bool any_labels = true;
static void start() {
  app_memory(ALL);
  for (unsigned i = 0; i < ALL; i++) {
    label_[i] = any_labels ? (L)vf_sym("label", 32) : i + 1;
    shadow[i] = label_[i];
    byte_[i] = SYM8("byte");
    app[i] = byte_[i];
  }
}
// the text the whole format stands for
static char text[32];
static L text_label[32];
static unsigned text_len;
static void emit(char c, L l) {
  text[text_len] = c;
  text_label[text_len++] = l;
}
static char format[64];
static unsigned format_len, strings, counts;
static uint64_t args[8];
static L va_labels[8];
static unsigned nargs;
static void piece_text(const char *f) {
  while (*f)
    format[format_len++] = *f++;
}
static L arg(uint64_t v, bool may_be_clean = false) {
  va_labels[nargs] = any_labels ? SYM32("argument label") : may_be_clean && vf_concretize(vf_upto("clean", 1)) ? 0 : 101 + nargs;
  args[nargs] = v;
  return va_labels[nargs++];
}
static void number(const char *f, uint64_t v, int stars = 0, int s0 = 0, int s1 = 0) {
  piece_text(f);
  unsigned k = num_count++;
  want_stars[k] = stars;
  if (stars)
    arg((uint32_t)(want_star[k][0] = s0));
  if (stars > 1)
    arg((uint32_t)(want_star[k][1] = s1));
  num_value[k] = v + k;
  num_len[k] = 1 + vf_concretize(vf_upto("digits", 1));
  L l = arg(num_value[k], true);
  for (unsigned i = 0; i < num_len[k]; i++) {
    num_text[k][i] = SYM8("digit");
    emit(num_text[k][i], l);
  }
}
static void string(const char *f, int width, int prec, bool left, int stars = 0, int s0 = 0, int s1 = 0) {
  piece_text(f);
  if (stars)
    arg((uint32_t)s0);
  if (stars > 1)
    arg((uint32_t)s1);
  unsigned at = STR + STRN * strings++;
  int n = (int)vf_concretize(vf_upto("string length", STRN - 1));
  for (int i = 0; i < n; i++)
    vf_assume(byte_[at + i] != 0);
  vf_assume(byte_[at + n] == 0);
  app[at + n] = byte_[at + n] = 0;
  arg((uint64_t)(app + at));
  if (prec >= 0 && n > prec)
    n = prec;
  if (!left)
    for (int i = n; i < width; i++)
      emit(' ', 0);
  for (int i = 0; i < n; i++)
    emit((char)byte_[at + i], label_[at + i]);
  if (left)
    for (int i = n; i < width; i++)
      emit(' ', 0);
}
static constexpr unsigned PIECES = 22;
static bool piece(unsigned k) {
  if (strings >= 2 && (k >= 4 && k <= 10))
    return false;
  switch (k) {
  case 0:
    return true;
  case 1:
    piece_text("ab");
    emit('a', 0);
    emit('b', 0);
    return true;
  case 2:
    piece_text("%%");
    emit('%', 0);
    return true;
  case 3: {
    piece_text("%c");
    char c = SYM8("character");
    vf_assume(c != 0);
    L l = arg((uint8_t)c, true);
    emit(c, l);
    return true;
  }
  case 4: string("%s", 0, -1, false); return true;
  case 5: string("%3s", 3, -1, false); return true;
  case 6: string("%-3s", 3, -1, true); return true;
  case 7: string("%.1s", 0, 1, false); return true;
  case 8: string("%*s", 2, -1, false, 1, 2); return true;
  case 9: string("%*s", 3, -1, true, 1, -3); return true;
  case 10: string("%*.*s", 3, 1, false, 2, 3, 1); return true;
  case 11: number("%d", 0x80000000u); return true;
  case 12: number("%hhx", 0xc0); return true;
  case 13: number("%ld", 0x8000000000000010ull); return true;
  case 14: number("%llu", 0x1000000020ull); return true;
  case 15: number("%zu", 0x1000000030ull); return true;
  case 16: number("%jx", 0x1000000040ull); return true;
  case 17: number("%p", 0x7fff00000050ull); return true;
  case 18: number("%-05i", 60); return true;
  case 19: number("%*o", 70, 1, 5); return true;
  case 20: number("%.*ld", 0x1000000080ull, 1, 4); return true;
  case 21: number("%-*.*X", 90, 2, -7, 2); return true;
  }
  return false;
}
static void compare(int r, L ret, unsigned size) {
  vf_assert(r == (int)text_len, "the result is the length of the whole text");
  vf_assert(ret == 0, "the result is untainted");
  unsigned n = size == 0 ? 0 : text_len < size ? text_len : size - 1;
  for (unsigned i = 0; i < n; i++) {
    vf_assert(app[OUT + i] == (uint8_t)text[i], "the text is what the C library writes");
    vf_assert(shadow[OUT + i] == text_label[i], "each character carries the labels of what it was written from");
  }
  unsigned rest = OUT + n;
  if (size) {
    vf_assert(app[rest] == 0, "the text ends with a zero byte");
    vf_assert(shadow[rest] == 0, "the zero byte is untainted");
    rest++;
  }
  for (unsigned i = rest; i < ALL; i++) {
    if (counts && i >= CNT && i < CNT + 4) {
      vf_assert(shadow[i] == 0, "the count written by %n is untainted");
      continue;
    }
    vf_assert(app[i] == byte_[i], "other memory is not changed");
    vf_assert(shadow[i] == label_[i], "other memory keeps its labels");
  }
}
static unsigned size_;
static void pieces() {
  any_labels = false;
  start();
  unsigned total = 0;
  static const unsigned few[] = {0, 1, 3, 4, 5, 11, 13};
  for (unsigned i = 0; i < 2; i++) {
    unsigned k = i == 0 || BOUND(0, 1) ? vf_concretize(vf_upto("piece", PIECES - 1)) : few[vf_concretize(vf_upto("piece", 6))];
    if (!piece(k))
      vf_end();
    // the empty piece only at the end
    if (i && k && !total)
      vf_end();
    total += k != 0;
  }
  format[format_len] = 0;
}
VF_ENTRY to_limited_buffer() {
  pieces();
  size_ = vf_concretize(vf_upto("size", 5));
  L ret = SYM32("old return label");
  int r = __dfsw_snprintf((char *)app, size_, format, SYM32("l1"), SYM32("l2"), SYM32("l3"), va_labels, &ret, args[0], args[1], args[2], args[3], args[4], args[5], args[6]);
  compare(r, ret, size_);
  vf_cover("done");
}
VF_ENTRY to_unlimited_buffer() {
  pieces();
  L ret = SYM32("old return label");
  int r = __dfsw_sprintf((char *)app, format, SYM32("l1"), SYM32("l2"), va_labels, &ret, args[0], args[1], args[2], args[3], args[4], args[5], args[6]);
  compare(r, ret, OUTN);
  vf_cover("done");
}
VF_ENTRY doubles() {
  start();
  double d = 1.5;
  unsigned k = vf_concretize(vf_upto("format", 3));
  bool first = vf_concretize(vf_upto("before", 1));
  if (first)
    piece(1);
  number(k == 0 ? "%f" : k == 1 ? "%.2g" : k == 2 ? "%e" : "%a", __builtin_bit_cast(uint64_t, d));
  if (!first)
    piece(2);
  format[format_len] = 0;
  size_ = vf_concretize(vf_upto("size", 5));
  L ret = SYM32("old return label");
  int r = __dfsw_snprintf((char *)app, size_, format, 0, 0, 0, va_labels, &ret, d);
  compare(r, ret, size_);
  vf_cover("done");
}
// %n stores how much has been written so far.
VF_ENTRY counted() {
  start();
  piece(vf_concretize(vf_upto("piece", 4)));
  unsigned so_far = text_len;
  counts = 1;
  piece_text("%n");
  arg((uint64_t)(app + CNT));
  piece(vf_concretize(vf_upto("piece", 4)));
  format[format_len] = 0;
  size_ = vf_concretize(vf_upto("size", 5));
  L ret = SYM32("old return label");
  int r = __dfsw_snprintf((char *)app, size_, format, 0, 0, 0, va_labels, &ret, args[0], args[1], args[2], args[3], args[4], args[5], args[6]);
  vf_assert(*(int *)(app + CNT) == (int)so_far, "%n stores the length written so far");
  compare(r, ret, size_);
  vf_cover("done");
}
