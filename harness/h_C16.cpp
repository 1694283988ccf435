// @sources dag
// @bound no bound on results, sizes, counts and positions; strings of up to 5 bytes
// @assume lseek and ftello return an arbitrary position or failure
#include "taintdag/error.h"
#include "taintdag/util.h"
#include "vf.h"
#include <string.h>
using namespace util;
static int64_t position;
static int asked_fd;
static FILE *asked_file;
extern "C" {
long vfx_lseek(int fd, long off, int whence) {
  vf_assert(off == 0 && whence == 1, "the position is only asked for");
  asked_fd = fd;
  return position;
}
long vfx_lseek64(int fd, long off, int whence) { return vfx_lseek(fd, off, whence); }
long vfx_ftello(FILE *f) {
  asked_file = f;
  return position;
}
long vfx_ftello64(FILE *f) { return vfx_ftello(f); }
long vfx_ftell(FILE *f) { return vfx_ftello(f); }
}
VF_ENTRY length_of_result() {
  int64_t r = (int64_t)SYM64("result");
  Length l = Length::from_returned_size(r);
  vf_assert(l.valid() == (r > 0), "a length is usable exactly if something was transferred");
  vf_assert(l.value().has_value() == l.valid(), "validity and value agree");
  if (l.valid())
    vf_assert(*l.value() == (uint64_t)r, "the length is the number of bytes");
  vf_assert(!Length{}.valid(), "no length is not usable");
  vf_cover("done");
}
VF_ENTRY length_of_items() {
  uint64_t size = SYM64("size"), items = SYM64("items");
  unsigned __int128 p = (unsigned __int128)size * items;
  bool over = p >> 64;
  vf_exit_ok(over);
  vf_cover("asked");
  Length l = Length::from_returned_size_count(size, items);
  vf_assert(!over, "a product that cannot be represented stops the run");
  vf_assert(l.valid() == (p != 0), "a length is usable exactly if something was transferred");
  if (l.valid())
    vf_assert(*l.value() == (uint64_t)p, "the length is the number of bytes");
}
VF_ENTRY length_of_string() {
  char s[6];
  vf_sym_bytes(s, 5, "char");
  s[5] = 0;
  bool null = SYMBOOL("null");
  Length l = Length::from_returned_string(null ? nullptr : s);
  size_t n = 0;
  while (s[n])
    n++;
  vf_assert(l.valid() == (!null && n > 0), "a string length is usable exactly if the string has bytes");
  if (l.valid())
    vf_assert(*l.value() == n, "the length is that of the string");
  vf_cover("done");
}
static void check_offset(Offset o, int64_t p) {
  vf_assert(p < (1ll << 54), "a position that cannot be represented stops the run");
  vf_assert(o.valid() == (p >= 0), "an offset is usable exactly if the position is known");
  vf_assert(o.value().has_value() == o.valid(), "validity and value agree");
  if (o.valid())
    vf_assert((int64_t)*o.value() == p, "the offset is the position");
}
VF_ENTRY offset_of_position() {
  int64_t p = (int64_t)SYM64("position");
  vf_exit_ok(p >= (1ll << 54));
  vf_cover("asked");
  check_offset(Offset::from_off_t(p), p);
}
VF_ENTRY offset_of_descriptor() {
  position = (int64_t)SYM64("position");
  int fd = (int)SYM32("fd");
  vf_exit_ok(position >= (1ll << 54));
  vf_cover("asked");
  Offset o = Offset::from_fd(fd);
  vf_assert(asked_fd == fd, "the position of this descriptor");
  check_offset(o, position);
}
VF_ENTRY offset_of_stream() {
  position = (int64_t)SYM64("position");
  FILE *f = (FILE *)0x1230;
  vf_exit_ok(position >= (1ll << 54));
  vf_cover("asked");
  Offset o = Offset::from_file(f);
  vf_assert(asked_file == f, "the position of this stream");
  check_offset(o, position);
  vf_assert(!Offset{}.valid(), "no offset is not usable");
}
