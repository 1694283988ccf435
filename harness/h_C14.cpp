// @sources dag main sources dfsan
// @bound buffers of 3 (thorough: 4) bytes at any place of 5 bytes of memory with any contents and old labels; every result of the real call from failure to the whole buffer; any position below 2^40, known or unknown; tracked and other files; two calls in sequence
// @assume the real call delivers at most what was asked for at the start of the buffer; recv without MSG_TRUNC and MSG_PEEK; lseek and ftello report the position or fail
// @assume fgets delivers a string: bytes after a NUL that was read are not part of it
#include "io.h"
#include <sys/socket.h>
typedef uint32_t L;
extern "C" {
ssize_t __dfsw_read(int, void *, size_t, L, L, L, L *);
ssize_t __dfsw_pread(int, void *, size_t, off_t, L, L, L, L, L *);
ssize_t __dfsw_pread64(int, void *, size_t, off_t, L, L, L, L, L *);
size_t __dfsw_fread(void *, size_t, size_t, FILE *, L, L, L, L, L *);
size_t __dfsw_fread_unlocked(void *, size_t, size_t, FILE *, L, L, L, L, L *);
int __dfsw_fgetc(FILE *, L, L *);
int __dfsw_fgetc_unlocked(FILE *, L, L *);
int __dfsw__IO_getc(FILE *, L, L *);
int __dfsw_getc(FILE *, L, L *);
int __dfsw_getc_unlocked(FILE *, L, L *);
int __dfsw_getchar(L *);
int __dfsw_getchar_unlocked(L *);
char *__dfsw_fgets(char *, int, FILE *, L, L, L, L *);
ssize_t __dfsw_getdelim(char **, size_t *, int, FILE *, L, L, L, L, L *);
ssize_t __dfsw___getdelim(char **, size_t *, int, FILE *, L, L, L, L, L *);
void *__dfsw_mmap(void *, size_t, int, int, int, off_t, L, L, L, L, L, L, L *);
int __dfsw_munmap(void *, size_t, L, L, L *);
ssize_t __dfsw_recv(int, void *, size_t, int, L, L, L, L, L *);
ssize_t __dfsw_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *, L, L, L, L, L, L, L *);
}
static constexpr unsigned N = BOUND(3, 4);
static int64_t result; // what the real call returned
static uint8_t content[MEM];
static uint8_t *last_buf;
static uint64_t last_size;
static int64_t last_offset;
static int last_flags;
// the real call: delivers 'result' bytes at p
static void deliver(void *p, uint64_t n) {
  for (uint64_t i = 0; i < n; i++)
    ((uint8_t *)p)[i] = content[i];
  position += n;
}
static int64_t real_read(int fd, void *p, size_t n) {
  calls++;
  last_fd = fd;
  last_buf = (uint8_t *)p;
  last_size = n;
  if (result > 0)
    deliver(p, result);
  return result;
}
extern "C" {
int vfx_open(const char *, int, ...) { return 99; }
int vfx_open64(const char *, int, ...) { return 99; }
int vfx_close(int) { return 0; }
ssize_t vfx_read(int fd, void *p, size_t n) { return real_read(fd, p, n); }
ssize_t vfx_pread(int fd, void *p, size_t n, long o) {
  last_offset = o;
  int64_t r = real_read(fd, p, n);
  if (r > 0)
    position -= r;
  return r;
}
ssize_t vfx_pread64(int fd, void *p, size_t n, long o) { return vfx_pread(fd, p, n, o); }
ssize_t vfx_recv(int fd, void *p, size_t n, int f) {
  last_flags = f;
  return real_read(fd, p, n);
}
static struct sockaddr *last_addr;
static socklen_t *last_addrlen;
ssize_t vfx_recvfrom(int fd, void *p, size_t n, int f, struct sockaddr *a, socklen_t *l) {
  last_flags = f;
  last_addr = a;
  last_addrlen = l;
  return real_read(fd, p, n);
}
static uint64_t item_size;
size_t vfx_fread(void *p, size_t s, size_t n, FILE *f) {
  calls++;
  last_file = f;
  last_buf = (uint8_t *)p;
  item_size = s;
  last_size = n;
  deliver(p, result * s);
  return result;
}
size_t vfx_fread_unlocked(void *p, size_t s, size_t n, FILE *f) { return vfx_fread(p, s, n, f); }
static int real_getc(FILE *f) {
  calls++;
  last_file = f;
  if (result == EOF)
    return EOF;
  position++;
  return (int)result;
}
int vfx_fgetc(FILE *f) { return real_getc(f); }
int vfx_fgetc_unlocked(FILE *f) { return real_getc(f); }
int vfx_getc(FILE *f) { return real_getc(f); }
int vfx__IO_getc(FILE *f) { return real_getc(f); }
int vfx_getc_unlocked(FILE *f) { return real_getc(f); }
int vfx___uflow(FILE *f) { return real_getc(f); }
int vfx_getchar() { return real_getc(stdin); }
int vfx_getchar_unlocked() { return real_getc(stdin); }
char *vfx_fgets(char *p, int n, FILE *f) {
  calls++;
  last_file = f;
  last_buf = (uint8_t *)p;
  last_size = n;
  if (result <= 0)
    return nullptr;
  deliver(p, result);
  p[result] = 0;
  return p;
}
static int last_delim;
static char **last_line;
static size_t *last_cap;
static bool moves; // the line buffer moves
ssize_t vfx_getdelim(char **line, size_t *cap, int d, FILE *f) {
  calls++;
  last_file = f;
  last_line = line;
  last_cap = cap;
  last_delim = d;
  if (moves) {
    *line = (char *)app + 1;
    *cap = 4;
  }
  if (result > 0) {
    deliver(*line, result);
    (*line)[result] = 0;
  }
  return result;
}
ssize_t vfx___getdelim(char **line, size_t *cap, int d, FILE *f) { return vfx_getdelim(line, cap, d, f); }
static int last_prot;
static void *last_start;
void *vfx_mmap(void *a, size_t n, int prot, int flags, int fd, long o) {
  if (!started)
    return map_output(n);
  calls++;
  last_start = a;
  last_size = n;
  last_prot = prot;
  last_flags = flags;
  last_fd = fd;
  last_offset = o;
  return result < 0 ? (void *)-1 : (void *)(app + result);
}
void *vfx_mmap64(void *a, size_t n, int prot, int flags, int fd, long o) { return vfx_mmap(a, n, prot, flags, fd, o); }
int vfx_munmap(void *a, size_t n) {
  if (!started)
    return 0;
  calls++;
  last_start = a;
  last_size = n;
  return (int)result;
}
}
static unsigned made; // labels that have been made
static void begin_input() {
  begin();
  made = LABELS;
  for (unsigned i = 0; i < MEM; i++)
    content[i] = SYM8("byte");
}
// Labels are on memory [at, at+n) exactly, in order, for the source's bytes from 'from'.
static void labelled(unsigned at, unsigned n, bool tracked, unsigned src, uint64_t from) {
  for (unsigned i = 0; i < MEM; i++) {
    bool in = i >= at && i < at + n;
    if (in && tracked) {
      vf_assert(shadow[i] == made + i - at, "each byte delivered has its own label");
      vf_assert(out.labels()[made + i - at] == source_word(src, from + i - at), "the label is the byte of the source");
    } else if (in)
      vf_assert((int)(shadow[i] == old_shadow[i]) | (int)(shadow[i] == 0), "bytes of other files are not tainted");
    else
      vf_assert(shadow[i] == old_shadow[i], "no other byte changes its label");
  }
  if (tracked)
    made += n;
}
static void contents(unsigned at, unsigned n) {
  for (unsigned i = 0; i < MEM; i++)
    vf_assert(app[i] == (i >= at && i < at + n ? content[i - at] : old_app[i]), "the program's memory is as the call left it");
}
static void again() { // for a second call
  calls = 0;
  for (unsigned i = 0; i < MEM; i++) {
    old_shadow[i] = shadow[i];
    old_app[i] = app[i];
  }
}
static void done() {
  started = false;
  polytracker_end();
  vf_assert(out.size(2) == 8 * (uint64_t)made, "no other label is made");
  vf_assert(out.nsinks() == 0, "reading is not writing");
  vf_assert(out.nsources() == 2, "reading adds no source");
  uint64_t bits = out.bitmap()[0];
  vf_assert(bits == (((1ull << made) - 1) & ~0x11ull), "exactly the input bytes are listed");
}
// read, pread, recv
static void raw(unsigned which) {
  begin_input();
  bool tracked = pick_tracked();
  int fd = tracked ? TRACKED : OTHER;
  uint64_t unknown = 0;
  for (unsigned k = 0; k < 2; k++) {
    unsigned at = k ? 1 : vf_concretize(vf_upto("at", MEM - N));
    uint64_t n = k ? 2 : vf_concretize(vf_upto("size", N));
    int64_t r = (int64_t)vf_concretize(vf_upto("result", n + 1)) - 1;
    result = r;
    uint64_t from = position;
    int64_t o = (int64_t)vf_upto("offset", 1ull << 40);
    int flags = SYM32("flags");
    vf_assume(!(flags & (MSG_TRUNC | MSG_PEEK)));
    L a = SYM32("l"), b = SYM32("l"), c = SYM32("l"), d = SYM32("l"), ret = SYM32("ret");
    ssize_t got;
    struct sockaddr *sa = (struct sockaddr *)SYM64("address");
    socklen_t *sl = (socklen_t *)SYM64("address length");
    if (which == 0)
      got = __dfsw_read(fd, app + at, n, a, b, c, &ret);
    else if (which == 1)
      got = __dfsw_pread(fd, app + at, n, o, a, b, c, d, &ret);
    else if (which == 2)
      got = __dfsw_pread64(fd, app + at, n, o, a, b, c, d, &ret);
    else if (which == 3)
      got = __dfsw_recv(fd, app + at, n, flags, a, b, c, d, &ret);
    else
      got = __dfsw_recvfrom(fd, app + at, n, flags, sa, sl, a, b, c, d, 0, 0, &ret);
    vf_assert(calls == 1 && last_fd == fd && last_buf == app + at && last_size == n, "the program's call is made once as it was");
    if (which == 1 || which == 2)
      vf_assert(last_offset == o, "the program's offset is used");
    if (which >= 3)
      vf_assert(last_flags == flags, "the program's flags are used");
    if (which == 4)
      vf_assert(last_addr == sa && last_addrlen == sl, "the program's address is used");
    vf_assert(got == r, "the result is the real one");
    vf_assert(ret == 0, "the result is not tainted");
    unsigned cnt = r > 0 ? r : 0;
    if (which == 1 || which == 2)
      from = o;
    else if (!seekable) {
      from = unknown;
      unknown += cnt;
    }
    labelled(at, cnt, tracked, 1, from);
    contents(at, cnt);
    if (r < 0)
      vf_cover("failed");
    else if (r == 0)
      vf_cover("end");
    else if (tracked)
      vf_cover("tainted");
    else
      vf_cover("not tracked");
    again();
  }
  done();
}
VF_ENTRY in_read() { raw(0); }
VF_ENTRY in_pread() { raw(1); }
VF_ENTRY in_pread64() { raw(2); }
VF_ENTRY in_recv() { raw(3); }
VF_ENTRY in_recvfrom() { raw(4); }
// fread
static void fread_like(unsigned which) {
  begin_input();
  bool tracked = pick_tracked();
  FILE *f = tracked ? tracked_file : other_file;
  uint64_t unknown = 0;
  for (unsigned k = 0; k < 2; k++) {
    unsigned at = k ? 1 : vf_concretize(vf_upto("at", MEM - N));
    uint64_t s = k ? 1 : vf_concretize(vf_upto("item", N));
    uint64_t n = vf_concretize(vf_upto("count", N));
    vf_assume(s * n <= N);
    int64_t r = (int64_t)vf_concretize(vf_upto("result", s == 0 ? 0 : n));
    result = r;
    uint64_t from = position;
    L ret = SYM32("ret");
    size_t got = which ? __dfsw_fread_unlocked(app + at, s, n, f, SYM32("l"), SYM32("l"), SYM32("l"), SYM32("l"), &ret)
                       : __dfsw_fread(app + at, s, n, f, SYM32("l"), SYM32("l"), SYM32("l"), SYM32("l"), &ret);
    vf_assert(calls == 1 && last_file == f && last_buf == app + at && item_size == s && last_size == n, "the program's call is made once as it was");
    vf_assert(got == (size_t)r, "the result is the real one");
    vf_assert(ret == 0, "the result is not tainted");
    if (!seekable) {
      from = unknown;
      unknown += r * s;
    }
    labelled(at, r * s, tracked, 1, from);
    contents(at, r * s);
    if (r == 0)
      vf_cover("nothing");
    else if (tracked)
      vf_cover("tainted");
    else
      vf_cover("not tracked");
    again();
  }
  done();
}
VF_ENTRY in_fread() { fread_like(0); }
VF_ENTRY in_fread_unlocked() { fread_like(1); }
// getc
VF_ENTRY in_getc() {
  begin_input();
  unsigned which = vf_concretize(vf_upto("function", 6));
  bool tracked = pick_tracked();
  FILE *f = tracked ? tracked_file : other_file;
  unsigned src = 1;
  if (which >= 5) {
    f = stdin;
    tracked = true;
    src = 0;
  }
  uint64_t unknown = 0;
  for (unsigned k = 0; k < 2; k++) {
    uint64_t v = vf_upto("result", 256);
    result = (int64_t)v - 1;
    uint64_t from = position;
    L ret = SYM32("ret"), l = SYM32("l");
    int c = which == 0   ? __dfsw_fgetc(f, l, &ret)
            : which == 1 ? __dfsw_fgetc_unlocked(f, l, &ret)
            : which == 2 ? __dfsw__IO_getc(f, l, &ret)
            : which == 3 ? __dfsw_getc(f, l, &ret)
            : which == 4 ? __dfsw_getc_unlocked(f, l, &ret)
            : which == 5 ? __dfsw_getchar(&ret)
                         : __dfsw_getchar_unlocked(&ret);
    vf_assert(calls == 1 && last_file == f, "the program's call is made once as it was");
    vf_assert(c == (int)result, "the result is the real one");
    if (v && tracked) {
      vf_assert(ret == made, "the byte has its own label");
      if (!seekable)
        from = unknown++;
      vf_assert(out.labels()[made] == source_word(src, from), "the label is the byte of the source");
      made++;
      vf_cover("tainted");
    } else {
      vf_assert(ret == 0, "the result is not tainted");
      vf_cover("nothing");
    }
    labelled(0, 0, false, 0, 0);
    contents(0, 0);
    again();
  }
  done();
}
// fgets: the string delivered
VF_ENTRY in_fgets() {
  begin_input();
  bool tracked = pick_tracked();
  FILE *f = tracked ? tracked_file : other_file;
  unsigned at = vf_concretize(vf_upto("at", MEM - N - 1));
  int n = 1 + vf_concretize(vf_upto("size", N));
  result = vf_concretize(vf_upto("result", n - 1));
  L ret = SYM32("ret"), sl = SYM32("label of the pointer");
  uint64_t from = seekable ? position : 0;
  char *got = __dfsw_fgets((char *)app + at, n, f, sl, SYM32("l"), SYM32("l"), &ret);
  vf_assert(calls == 1 && last_file == f && last_buf == app + at && last_size == (uint64_t)n, "the program's call is made once as it was");
  vf_assert(got == (result ? (char *)app + at : nullptr), "the result is the real one");
  vf_assert((int)(ret == 0) | ((int)(got != nullptr) & (int)(ret == sl)), "the result is tainted only if the pointer is");
  unsigned len = 0;
  while (len < (unsigned)result && content[len])
    len++;
  labelled(at, len, tracked, 1, from);
  for (unsigned i = 0; i < MEM; i++)
    vf_assert(app[i] == (i >= at && i < at + result ? content[i - at] : result && i == at + result ? 0 : old_app[i]), "the program's memory is as the call left it");
  if (!result)
    vf_cover("end");
  else if (len == 0)
    vf_cover("empty");
  else
    vf_cover("string");
  done();
}
VF_ENTRY in_getdelim() {
  begin_input();
  unsigned which = vf_concretize(vf_upto("function", 1));
  bool tracked = pick_tracked();
  FILE *f = tracked ? tracked_file : other_file;
  moves = vf_concretize(vf_upto("moves", 1));
  char *line = moves && vf_concretize(vf_upto("no buffer", 1)) ? nullptr : (char *)app;
  size_t cap = 4;
  uint64_t r1 = vf_concretize(vf_upto("result", 4));
  result = (int64_t)r1 - 1;
  vf_assume(result < 4);
  L ret = SYM32("ret");
  int delim = (int)SYM32("delimiter");
  uint64_t from = seekable ? position : 0;
  ssize_t got = which ? __dfsw___getdelim(&line, &cap, delim, f, SYM32("l"), SYM32("l"), SYM32("l"), SYM32("l"), &ret)
                      : __dfsw_getdelim(&line, &cap, delim, f, SYM32("l"), SYM32("l"), SYM32("l"), SYM32("l"), &ret);
  vf_assert(calls == 1 && last_file == f && last_line == &line && last_cap == &cap && last_delim == delim, "the program's call is made once as it was");
  vf_assert(got == result, "the result is the real one");
  vf_assert(ret == 0, "the result is not tainted");
  unsigned at = moves ? 1 : 0;
  unsigned cnt = result > 0 ? result : 0;
  vf_assert(line == (char *)app + at, "the program's buffer is as the call left it");
  labelled(at, cnt, tracked, 1, from);
  for (unsigned i = 0; i < MEM; i++)
    vf_assert(app[i] == (i >= at && i < at + cnt ? content[i - at] : cnt && i == at + cnt ? 0 : old_app[i]), "the program's memory is as the call left it");
  if (result < 0)
    vf_cover("end");
  else
    vf_cover("line");
  done();
}
VF_ENTRY in_mmap() {
  begin_input();
  unsigned k = vf_concretize(vf_upto("file", 2));
  bool tracked = k == 0;
  int fd = k == 0 ? TRACKED : k == 1 ? OTHER : -1;
  uint64_t n = 1 + vf_concretize(vf_upto("size", N - 1));
  result = (int64_t)vf_concretize(vf_upto("result", MEM - N + 1)) - 1;
  int64_t o = (int64_t)vf_upto("offset", 1ull << 40);
  void *hint = (void *)SYM64("hint");
  int prot = SYM32("prot"), flags = SYM32("flags");
  L ret = SYM32("ret");
  void *got = __dfsw_mmap(hint, n, prot, flags, fd, o, SYM32("l"), SYM32("l"), SYM32("l"), SYM32("l"), SYM32("l"), SYM32("l"), &ret);
  vf_assert(calls == 1 && last_start == hint && last_size == n && last_prot == prot && last_flags == flags && last_fd == fd && last_offset == o, "the program's call is made once as it was");
  vf_assert(got == (result < 0 ? (void *)-1 : (void *)(app + result)), "the result is the real one");
  vf_assert(ret == 0, "the result is not tainted");
  labelled(result < 0 ? 0 : result, result < 0 ? 0 : n, tracked, 1, o);
  contents(0, 0);
  if (result < 0)
    vf_cover("failed");
  else if (tracked)
    vf_cover("tainted");
  else
    vf_cover("not tracked");
  done();
}
VF_ENTRY in_munmap() {
  begin_input();
  unsigned at = vf_concretize(vf_upto("at", MEM - N));
  uint64_t n = vf_concretize(vf_upto("size", N));
  result = -(int64_t)vf_concretize(vf_upto("fails", 1));
  L ret = SYM32("ret");
  int got = __dfsw_munmap(app + at, n, SYM32("l"), SYM32("l"), &ret);
  vf_assert(calls == 1 && last_start == app + at && last_size == n, "the program's call is made once as it was");
  vf_assert(got == result, "the result is the real one");
  vf_assert(ret == 0, "the result is not tainted");
  for (unsigned i = 0; i < MEM; i++)
    vf_assert(shadow[i] == (result == 0 && i >= at && i < at + n ? 0 : old_shadow[i]), "memory loses its labels exactly when it is unmapped");
  contents(0, 0);
  if (result)
    vf_cover("failed");
  else
    vf_cover("unmapped");
  done();
}
