// @sources dag main sources dfsan
// @bound buffers of 3 (thorough: 4) bytes with any labels; every result of the real call from failure to the whole buffer; any position below 2^40, known or unknown; tracked and other files; two calls in sequence; the sink log nearly full
// @assume the real call writes at most what was asked for from the start of the buffer; lseek and ftello report the position or fail; putc returns the character written, converted to unsigned char, or EOF
#include "io.h"
typedef uint32_t L;
extern "C" {
ssize_t __dfsw_write(int, void *, size_t, L, L, L, L *);
size_t __dfsw_fwrite(void *, size_t, size_t, FILE *, L, L, L, L, L *);
int __dfsw_putc(int, FILE *, L, L, L *);
int __dfsw_fputc(int, FILE *, L, L, L *);
ssize_t __dfsw_send(int, void *, size_t, int, L, L, L, L, L *);
}
static constexpr unsigned N = BOUND(3, 4);
static int64_t result;
static void *last_buf;
static uint64_t last_size, item_size;
static int last_flags, last_char;
static int64_t real_write(int fd, const void *p, size_t n) {
  calls++;
  last_fd = fd;
  last_buf = (void *)p;
  last_size = n;
  if (result > 0)
    position += result;
  return result;
}
static int real_putc(int c, FILE *f) {
  calls++;
  last_char = c;
  last_file = f;
  if (result < 0)
    return EOF;
  position++;
  return (unsigned char)c;
}
extern "C" {
int vfx_open(const char *, int, ...) { return 99; }
int vfx_open64(const char *, int, ...) { return 99; }
int vfx_close(int) { return 0; }
void *vfx_mmap(void *, size_t n, int, int, int, long) { return map_output(n); }
void *vfx_mmap64(void *, size_t n, int, int, int, long) { return map_output(n); }
int vfx_munmap(void *, size_t) { return 0; }
ssize_t vfx_write(int fd, const void *p, size_t n) { return real_write(fd, p, n); }
ssize_t vfx_send(int fd, const void *p, size_t n, int f) {
  last_flags = f;
  return real_write(fd, p, n);
}
size_t vfx_fwrite(const void *p, size_t s, size_t n, FILE *f) {
  calls++;
  last_file = f;
  last_buf = (void *)p;
  item_size = s;
  last_size = n;
  position += result * s;
  return result;
}
size_t vfx_fwrite_unlocked(const void *p, size_t s, size_t n, FILE *f) { return vfx_fwrite(p, s, n, f); }
int vfx_putc(int c, FILE *f) { return real_putc(c, f); }
int vfx_fputc(int c, FILE *f) { return real_putc(c, f); }
int vfx__IO_putc(int c, FILE *f) { return real_putc(c, f); }
int vfx_putc_unlocked(int c, FILE *f) { return real_putc(c, f); }
int vfx_fputc_unlocked(int c, FILE *f) { return real_putc(c, f); }
}
static unsigned wanted;
static OutFile::Sink want[2 * MEM];
static void expect(uint64_t off, uint32_t label) {
  if (label) {
    want[wanted].offset = off;
    want[wanted].label = label;
    want[wanted++].sink = 1;
  }
}
static void unchanged() {
  for (unsigned i = 0; i < MEM; i++)
    vf_assert((int)(shadow[i] == old_shadow[i]) & (int)(app[i] == old_app[i]), "the program's memory and its labels are not changed");
  calls = 0;
}
static void done() {
  polytracker_end();
  vf_assert(out.size(2) == 8 * LABELS, "writing makes no label");
  vf_assert(out.nsources() == 2, "writing adds no source");
  vf_assert(out.size(4) == wanted * sizeof(OutFile::Sink), "each tainted byte written is recorded once");
  for (unsigned i = 0; i < wanted; i++) {
    auto &s = out.sinks()[i];
    vf_assert((int)(s.offset == want[i].offset), "a record has the place of the byte");
    vf_assert((int)(s.label == want[i].label), "a record has the label of the byte");
    vf_assert((int)(s.sink == want[i].sink), "a record has the file");
  }
}
static void raw(unsigned which) {
  begin();
  bool tracked = pick_tracked();
  int fd = tracked ? TRACKED : OTHER;
  uint64_t unknown = 0;
  for (unsigned k = 0; k < 2; k++) {
    unsigned at = k ? 1 : vf_concretize(vf_upto("at", MEM - N));
    uint64_t n = k ? 2 : vf_concretize(vf_upto("size", N));
    int64_t r = (int64_t)vf_concretize(vf_upto("result", n + 1)) - 1;
    result = r;
    uint64_t from = position;
    int flags = SYM32("flags");
    L a = SYM32("l"), b = SYM32("l"), c = SYM32("l"), d = SYM32("l"), ret = SYM32("ret");
    ssize_t got = which ? __dfsw_send(fd, app + at, n, flags, a, b, c, d, &ret) : __dfsw_write(fd, app + at, n, a, b, c, &ret);
    vf_assert(calls == 1 && last_fd == fd && last_buf == app + at && last_size == n, "the program's call is made once as it was");
    if (which)
      vf_assert(last_flags == flags, "the program's flags are used");
    vf_assert(got == r, "the result is the real one");
    vf_assert(ret == 0, "the result is not tainted");
    unsigned cnt = r > 0 ? r : 0;
    if (!seekable) {
      from = unknown;
      unknown += cnt;
    }
    if (tracked)
      for (unsigned i = 0; i < cnt; i++)
        expect(from + i, old_shadow[at + i]);
    if (r < 0)
      vf_cover("failed");
    else if (r == 0)
      vf_cover("nothing");
    else if (tracked)
      vf_cover("recorded");
    else
      vf_cover("not tracked");
    unchanged();
  }
  done();
}
VF_ENTRY out_write() { raw(0); }
VF_ENTRY out_send() { raw(1); }
VF_ENTRY out_fwrite() {
  begin();
  bool tracked = pick_tracked();
  FILE *f = tracked ? tracked_file : other_file;
  uint64_t unknown = 0;
  for (unsigned k = 0; k < 2; k++) {
    unsigned at = k ? 1 : vf_concretize(vf_upto("at", MEM - N));
    uint64_t s = k ? 1 : vf_concretize(vf_upto("item", N));
    uint64_t n = vf_concretize(vf_upto("count", N));
    vf_assume(s * n <= N);
    int64_t r = (int64_t)vf_concretize(vf_upto("result", s == 0 ? 0 : n));
    result = r;
    uint64_t from = position;
    L ret = SYM32("ret");
    size_t got = __dfsw_fwrite(app + at, s, n, f, SYM32("l"), SYM32("l"), SYM32("l"), SYM32("l"), &ret);
    vf_assert(calls == 1 && last_file == f && last_buf == app + at && item_size == s && last_size == n, "the program's call is made once as it was");
    vf_assert(got == (size_t)r, "the result is the real one");
    vf_assert(ret == 0, "the result is not tainted");
    if (!seekable) {
      from = unknown;
      unknown += r * s;
    }
    if (tracked)
      for (unsigned i = 0; i < r * s; i++)
        expect(from + i, old_shadow[at + i]);
    if (r == 0)
      vf_cover("nothing");
    else if (tracked)
      vf_cover("recorded");
    else
      vf_cover("not tracked");
    unchanged();
  }
  done();
}
VF_ENTRY out_putc() {
  begin();
  unsigned which = vf_concretize(vf_upto("function", 1));
  bool tracked = pick_tracked();
  FILE *f = tracked ? tracked_file : other_file;
  uint64_t unknown = 0;
  for (unsigned k = 0; k < 2; k++) {
    result = -(int64_t)vf_concretize(vf_upto("fails", 1));
    int c = (int)SYM32("character");
    uint64_t from = position;
    L ret = SYM32("ret"), cl = SYM32("label");
    vf_assume(cl < LABELS);
    int got = which ? __dfsw_putc(c, f, cl, SYM32("l"), &ret) : __dfsw_fputc(c, f, cl, SYM32("l"), &ret);
    vf_assert(calls == 1 && last_file == f && (unsigned char)last_char == (unsigned char)c, "the program's call is made once as it was");
    vf_assert(got == (result < 0 ? EOF : (int)(unsigned char)c), "the result is the real one");
    vf_assert(ret == 0, "the result is not tainted");
    if (result == 0) {
      if (!seekable)
        from = unknown++;
      if (tracked)
        expect(from, cl);
      vf_cover("written");
    } else
      vf_cover("failed");
    unchanged();
  }
  done();
}
// A sink log with room for a few more entries.
VF_ENTRY log_full() {
  NoFile nf;
  TaintSinkBase<4, 3> log(SectionArg<NoFile>{nf, fresh(3 * sizeof(SinkLogEntry))});
  unsigned n = vf_concretize(vf_upto("entries", 5));
  for (unsigned i = 0; i < n; i++) {
    vf_exit_ok(i >= 3);
    log.log_single(i, i + 1, 1);
  }
  vf_assert(n <= 3, "running out of space is never silent");
  vf_assert(log.size() == n * sizeof(SinkLogEntry), "each entry is kept");
  vf_cover("fits");
}
