// @sources dag main sources dfsan
// @bound any flags, modes, descriptors, paths of 1 to 3 characters and results of the real call; two calls in sequence
// @assume the real calls return a non-negative descriptor or fail; getsockname, getpeername and inet_ntop succeed; the text of a socket's name is not looked at
#include "io.h"
#include <fcntl.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <netinet/in.h>
typedef uint32_t L;
extern "C" {
int __dfsw_open(const char *, int, L, L, L *, L *, ...);
int __dfsw_open64(const char *, int, L, L, L *, L *, ...);
int __dfsw_openat(int, const char *, int, L, L, L *, L *, ...);
FILE *__dfsw_fopen(const char *, const char *, L, L, L *);
FILE *__dfsw_fopen64(const char *, const char *, L, L, L *);
int __dfsw_close(int, L, L *);
int __dfsw_fclose(FILE *, L, L *);
int __dfsw_accept(int, struct sockaddr *, socklen_t *, L, L, L, L *);
int __dfsw_accept4(int, struct sockaddr *, socklen_t *, int, L, L, L, L, L *);
int __dfsw_connect(int, const struct sockaddr *, socklen_t, L, L, L, L *);
}
static int result;
static const char *last_path, *last_mode_text;
static int last_flags, last_dir;
static uint32_t last_mode;
static const void *last_addr;
static uint64_t last_len;
static uint16_t family;
static bool needs_mode(int f) { return (f & O_CREAT) || (f & O_TMPFILE) == O_TMPFILE; }
static int real_open(const char *p, int f, uint32_t mode) {
  if (!started)
    return 99;
  calls++;
  last_path = p;
  last_flags = f;
  last_mode = mode;
  return result;
}
extern "C" {
int vfx_open(const char *p, int f, ...) {
  uint32_t mode = 0;
  if (needs_mode(f)) {
    va_list a;
    va_start(a, f);
    mode = va_arg(a, uint32_t);
    va_end(a);
  }
  return real_open(p, f, mode);
}
int vfx_open64(const char *p, int f, ...) {
  uint32_t mode = 0;
  if (needs_mode(f)) {
    va_list a;
    va_start(a, f);
    mode = va_arg(a, uint32_t);
    va_end(a);
  }
  return real_open(p, f, mode);
}
int vfx_openat(int dir, const char *p, int f, ...) {
  uint32_t mode = 0;
  if (needs_mode(f)) {
    va_list a;
    va_start(a, f);
    mode = va_arg(a, uint32_t);
    va_end(a);
  }
  last_dir = dir;
  return real_open(p, f, mode);
}
int vfx_openat64(int dir, const char *p, int f, ...) {
  uint32_t mode = 0;
  if (needs_mode(f)) {
    va_list a;
    va_start(a, f);
    mode = va_arg(a, uint32_t);
    va_end(a);
  }
  last_dir = dir;
  return real_open(p, f, mode);
}
FILE *vfx_fopen(const char *p, const char *m) {
  calls++;
  last_path = p;
  last_mode_text = m;
  return result < 0 ? nullptr : tracked_file;
}
FILE *vfx_fopen64(const char *p, const char *m) { return vfx_fopen(p, m); }
int vfx_close(int fd) {
  if (!started)
    return 0;
  calls++;
  last_fd = fd;
  return result < 0 ? -1 : 0;
}
int vfx_fclose(FILE *f) {
  calls++;
  last_file = f;
  return result < 0 ? -1 : 0;
}
int vfx_accept(int fd, struct sockaddr *a, socklen_t *n) {
  calls++;
  last_fd = fd;
  last_addr = a;
  last_len = (uint64_t)n;
  return result;
}
int vfx_accept4(int fd, struct sockaddr *a, socklen_t *n, int f) {
  last_flags = f;
  return vfx_accept(fd, a, n);
}
int vfx_connect(int fd, const struct sockaddr *a, socklen_t n) {
  calls++;
  last_fd = fd;
  last_addr = a;
  last_len = n;
  return result < 0 ? -1 : 0;
}
int vfx_getsockname(int, struct sockaddr *a, socklen_t *n) {
  a->sa_family = family;
  return 0;
}
int vfx_getpeername(int, struct sockaddr *a, socklen_t *n) {
  a->sa_family = family;
  return 0;
}
const char *vfx_inet_ntop(int, const void *, char *p, socklen_t) {
  p[0] = 'x';
  p[1] = 0;
  return p;
}
void *vfx_mmap(void *, size_t n, int, int, int, long) { return map_output(n); }
void *vfx_mmap64(void *, size_t n, int, int, int, long) { return map_output(n); }
int vfx_munmap(void *, size_t) { return 0; }
}
static char path[4];
static unsigned path_len;
static L ret;
static uint64_t sources_before;
static void setup() {
  begin();
  path_len = 1 + vf_concretize(vf_upto("length", 2));
  for (unsigned i = 0; i < path_len; i++) {
    path[i] = SYM8("char");
    vf_assume((int)(path[i] != 0) & (int)(path[i] != '/'));
  }
  result = (int)SYM32("result");
  vf_assume(result >= -1);
  ret = SYM32("old return label");
  // the used part of the table of sources is counted when the run ends
  sources_before = 0;
  while (out.sources()[sources_before].size)
    sources_before++;
}
static uint64_t nsources() {
  uint64_t n = sources_before;
  while (n < sources_before + 2 && out.sources()[n].size)
    n++;
  return n;
}
static void registered(bool want, int fd, bool named) {
  vf_assert(calls == 1, "the real call is made once");
  vf_assert(ret == 0, "the result is untainted");
  vf_assert(nsources() == sources_before + (want ? 1 : 0), "a source is registered exactly when the call succeeded");
  if (want) {
    auto &s = out.sources()[sources_before];
    vf_assert(s.fd == fd, "the source has the descriptor that was opened");
    if (named) {
      auto *p = out.at(3) + s.name;
      vf_assert(*(uint16_t *)p == path_len, "the source has the name that was opened");
      for (unsigned i = 0; i < path_len; i++)
        vf_assert(p[2 + i] == (uint8_t)path[i], "the source has the name that was opened");
    }
    // what is read from it is attributed to it
    auto &t = get_polytracker_tdag();
    auto r = t.source_taint(fd, util::Offset::from_off_t(9), 1);
    vf_assert(r.has_value(), "reads from it are tracked");
    vf_assert((out.labels()[r->first] & 0xff) == sources_before, "reads from it are attributed to it");
    vf_cover("opened");
  } else
    vf_cover("failed");
  for (unsigned i = 0; i < MEM; i++)
    vf_assert(shadow[i] == old_shadow[i] && app[i] == old_app[i], "program memory is left alone");
}
static void opening(unsigned which) {
  setup();
  int flags = (int)SYM32("flags"), dir = (int)SYM32("directory");
  uint32_t mode = SYM32("mode");
  L va[1] = {SYM32("mode label")};
  int r;
  if (which == 0)
    r = __dfsw_open(path, flags, 0, 0, va, &ret, mode);
  else if (which == 1)
    r = __dfsw_open64(path, flags, 0, 0, va, &ret, mode);
  else {
    r = __dfsw_openat(dir, path, flags, 0, 0, va, &ret, mode);
    vf_assert(last_dir == dir, "the directory is passed on");
  }
  vf_assert(r == result, "the real result is returned");
  vf_assert(last_path == path, "the path is passed on");
  vf_assert((last_flags & ~O_LARGEFILE) == (flags & ~O_LARGEFILE), "the flags are passed on");
  if (needs_mode(flags)) {
    vf_assert(last_mode == mode, "the mode of a new file is passed on");
  }
}
VF_ENTRY do_open() {
  opening(0);
  registered(result >= 0, result, true);
}
VF_ENTRY do_open64() {
  opening(1);
  registered(result >= 0, result, true);
}
VF_ENTRY do_openat() {
  opening(2);
  registered(result >= 0, result, true);
}
static void opening_stream(bool big) {
  setup();
  static const char mode[] = "r";
  FILE *f = big ? __dfsw_fopen64(path, mode, 0, 0, &ret) : __dfsw_fopen(path, mode, 0, 0, &ret);
  vf_assert(f == (result < 0 ? nullptr : tracked_file), "the real result is returned");
  vf_assert(last_path == path && last_mode_text == mode, "the arguments are passed on");
  registered(result >= 0, TRACKED, true);
}
VF_ENTRY do_fopen() { opening_stream(false); }
VF_ENTRY do_fopen64() { opening_stream(true); }
VF_ENTRY do_close() {
  setup();
  int fd = (int)SYM32("fd");
  int r = __dfsw_close(fd, 0, &ret);
  vf_assert(r == (result < 0 ? -1 : 0) && last_fd == fd, "the argument and the result are passed on");
  registered(false, 0, false);
}
VF_ENTRY do_fclose() {
  setup();
  FILE *f = pick_tracked() ? tracked_file : other_file;
  int r = __dfsw_fclose(f, 0, &ret);
  vf_assert(r == (result < 0 ? -1 : 0) && last_file == f, "the argument and the result are passed on");
  registered(false, 0, false);
}
static void socket_call(unsigned which) {
  setup();
  family = SYM16("family");
  int fd = (int)SYM32("fd"), flags = (int)SYM32("flags");
  vf_assume(fd >= 0);
  struct sockaddr_in a;
  socklen_t n = sizeof a;
  int r, opened = result;
  if (which == 0)
    r = __dfsw_accept(fd, (struct sockaddr *)&a, &n, 0, 0, 0, &ret);
  else if (which == 1) {
    r = __dfsw_accept4(fd, (struct sockaddr *)&a, &n, flags, 0, 0, 0, 0, &ret);
    vf_assert(last_flags == flags, "the arguments are passed on");
  } else {
    r = __dfsw_connect(fd, (struct sockaddr *)&a, n, 0, 0, 0, &ret);
    opened = fd;
  }
  vf_assert(last_fd == fd && last_addr == &a && last_len == (which == 2 ? n : (uint64_t)&n), "the arguments are passed on");
  vf_assert(r == (which == 2 ? (result < 0 ? -1 : 0) : result), "the real result is returned");
  registered(result >= 0 && family == AF_INET, opened, false);
}
VF_ENTRY do_accept() { socket_call(0); }
VF_ENTRY do_accept4() { socket_call(1); }
VF_ENTRY do_connect() { socket_call(2); }
// A descriptor that is closed and opened again stands for the new file.
VF_ENTRY reopened() {
  setup();
  vf_assume(result >= 0);
  int fd = result;
  __dfsw_open(path, 0, 0, 0, nullptr, &ret);
  result = 0;
  __dfsw_close(fd, 0, &ret);
  result = fd;
  __dfsw_open("z", 0, 0, 0, nullptr, &ret);
  auto r = get_polytracker_tdag().source_taint(fd, util::Offset::from_off_t(9), 1);
  vf_assert(r.has_value() && (out.labels()[r->first] & 0xff) == sources_before + 1, "reads are attributed to the file opened last");
  vf_cover("done");
}
