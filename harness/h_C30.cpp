// @sources dfsan custom
// @bound any result of the real call (success, failure, how much it filled: up to 3 elements or characters), each optional argument given or not; one call; the memory around the arguments is watched; a distinct label on every byte
// @assume the real calls are stand-ins that fill what their documentation says; labels are bit sets joined by a stand-in (C03); an address returned by recvmsg fits the space given for it; signals are numbered 1 to 64
#include "custom.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <poll.h>
#include <pthread.h>
#include <pwd.h>
#include <sched.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static constexpr unsigned ALL = 640;
static unsigned n_all;
static L was[ALL], want[ALL];
static uint8_t content[ALL];
static bool either[ALL], same[ALL]; // any label; content must be as the real call left it
static unsigned calls, bad_args;
static int64_t result;
static bool ok;
static L ret = 77;
static unsigned next_at;
static void world() {
  app_memory(ALL);
  for (unsigned i = 0; i < ALL; i++) {
    was[i] = want[i] = i + 1;
    shadow[i] = i + 1;
    content[i] = (uint8_t)(i * 7 + 3);
    app[i] = content[i];
  }
  ok = vf_concretize(vf_upto("succeeds", 1));
  next_at = 8;
}
template <class T> static T *take(unsigned n = 1) { // room for n Ts, with a gap behind
  next_at = (next_at + 15) / 16 * 16;
  T *p = (T *)(app + next_at);
  next_at += n * sizeof(T) + 8;
  return p;
}
template <class T> static T *maybe(unsigned n = 1) { return vf_concretize(vf_upto("given", 1)) ? take<T>(n) : nullptr; }
static unsigned place(const void *p) { return (unsigned)((uintptr_t)p - APP); }
// the real call writes n bytes at p, which come from `from`
static void fill(void *p, size_t n, L from = 0) {
  for (size_t i = 0; i < n; i++) {
    unsigned k = place(p) + i;
    content[k] = SYM8("content");
    app[k] = content[k];
    want[k] = from;
  }
}
static void set_text(char *p, unsigned n, L from = 0) {
  fill(p, n + 1, from);
  for (unsigned i = 0; i < n; i++)
    app[place(p) + i] = content[place(p) + i] = 'a' + i;
  app[place(p) + n] = content[place(p) + n] = 0;
}
template <class T> static void store(T *p, T v) { // program's own, or the call's after fill
  __builtin_memcpy(app + place(p), &v, sizeof v);
  __builtin_memcpy(content + place(p), &v, sizeof v);
}
static void unspecified(const void *p, size_t n) {
  for (size_t i = 0; i < n; i++)
    either[place(p) + i] = true;
}
static L all_labels(const void *p, size_t n) {
  L r = 0;
  for (size_t i = 0; i < n; i++)
    r |= was[place(p) + i];
  return r;
}
static void done(L want_ret = 0) {
  vf_assert(calls == 1, "the real call is made once");
  vf_assert(!bad_args, "the arguments are passed on");
  vf_assert(ret == want_ret, "the result's label");
  for (unsigned i = 0; i < ALL; i++) {
    vf_assert(app[i] == content[i], "memory holds what the real call left");
    if (either[i])
      continue;
    if (want[i] != was[i])
      vf_assert(shadow[i] == want[i], "memory that the call filled has the labels of what it was filled from");
    else
      vf_assert(shadow[i] == was[i], "other memory keeps its labels");
  }
}
static const void *expected[6];
static int64_t expected_n[6];
static void arg(bool c) { bad_args += !c; }
extern "C" {
int __dfsw_stat(const char *, struct stat *, L, L, L *);
int __dfsw_fstat(int, struct stat *, L, L, L *);
int __dfsw_clock_gettime(clockid_t, struct timespec *, L, L, L *);
int __dfsw_pthread_join(pthread_t, void **, L, L, L *);
char *__dfsw_ctime_r(const time_t *, char *, L, L, L *);
char *__dfsw_getcwd(char *, size_t, L, L, L *);
char *__dfsw_get_current_dir_name(L *);
int __dfsw_gethostname(char *, size_t, L, L, L *);
int __dfsw_getrlimit(int, struct rlimit *, L, L, L *);
int __dfsw_getrusage(int, struct rusage *, L, L, L *);
time_t __dfsw_time(time_t *, L, L *);
int __dfsw_inet_pton(int, const char *, void *, L, L, L, L *);
struct tm *__dfsw_localtime_r(const time_t *, struct tm *, L, L, L *);
int __dfsw_getpwuid_r(id_t, struct passwd *, char *, size_t, struct passwd **, L, L, L, L, L, L *);
int __dfsw_epoll_wait(int, struct epoll_event *, int, int, L, L, L, L, L *);
int __dfsw_poll(struct pollfd *, nfds_t, int, L, L, L, L *);
int __dfsw_select(int, fd_set *, fd_set *, fd_set *, struct timeval *, L, L, L, L, L, L *);
int __dfsw_sched_getaffinity(pid_t, size_t, cpu_set_t *, L, L, L, L *);
int __dfsw_sigemptyset(sigset_t *, L, L *);
int __dfsw_sigaction(int, const struct sigaction *, struct sigaction *, L, L, L, L *);
int __dfsw_sigaltstack(const stack_t *, stack_t *, L, L, L *);
int __dfsw_gettimeofday(struct timeval *, struct timezone *, L, L, L *);
int __dfsw_nanosleep(const struct timespec *, struct timespec *, L, L, L *);
int __dfsw_recvmmsg(int, struct mmsghdr *, unsigned, int, struct timespec *, L, L, L, L, L, L *);
ssize_t __dfsw_recvmsg(int, struct msghdr *, int, L, L, L, L *);
int __dfsw_socketpair(int, int, int, int *, L, L, L, L, L *);
int __dfsw_getsockopt(int, int, int, void *, socklen_t *, L, L, L, L, L, L *);
int __dfsw_getsockname(int, struct sockaddr *, socklen_t *, L, L, L, L *);
int __dfsw_getpeername(int, struct sockaddr *, socklen_t *, L, L, L, L *);

int vfx_stat(const char *p, struct stat *b) {
  calls++;
  arg(p == expected[0] && b == expected[1]);
  if (ok)
    fill(b, sizeof *b);
  return ok ? 0 : -1;
}
int vfx_stat64(const char *p, struct stat *b) { return vfx_stat(p, b); }
int vfx_fstat(int fd, struct stat *b) {
  arg(fd == expected_n[0]);
  return vfx_stat((const char *)expected[0], b);
}
int vfx_fstat64(int fd, struct stat *b) { return vfx_fstat(fd, b); }
int vfx_clock_gettime(clockid_t c, struct timespec *t) {
  calls++;
  arg(c == expected_n[0] && t == expected[0]);
  if (ok)
    fill(t, sizeof *t);
  return ok ? 0 : -1;
}
int vfx_pthread_join(pthread_t t, void **r) {
  calls++;
  arg((int64_t)t == expected_n[0] && r == expected[0]);
  if (ok && r)
    fill(r, sizeof *r);
  return ok ? 0 : 22;
}
static L text_from;
static unsigned text_len;
char *vfx_ctime_r(const time_t *t, char *b) {
  calls++;
  arg(t == expected[0] && b == expected[1]);
  if (ok)
    set_text(b, text_len, text_from);
  return ok ? b : nullptr;
}
char *vfx_getcwd(char *b, size_t n) {
  calls++;
  arg(b == expected[0] && (int64_t)n == expected_n[0]);
  char *r = b ? b : (char *)expected[1];
  if (ok)
    set_text(r, text_len);
  return ok ? r : nullptr;
}
char *vfx_get_current_dir_name() {
  calls++;
  if (ok)
    set_text((char *)expected[0], text_len);
  return ok ? (char *)expected[0] : nullptr;
}
int vfx_gethostname(char *b, size_t n) {
  calls++;
  arg(b == expected[0] && (int64_t)n == expected_n[0]);
  if (ok)
    set_text(b, text_len);
  return ok ? 0 : -1;
}
int vfx_getrlimit(__rlimit_resource_t k, struct rlimit *r) {
  calls++;
  arg((int64_t)k == expected_n[0] && r == expected[0]);
  if (ok)
    fill(r, sizeof *r);
  return ok ? 0 : -1;
}
int vfx_getrlimit64(__rlimit_resource_t k, struct rlimit *r) { return vfx_getrlimit(k, r); }
int vfx_getrusage(__rusage_who_t k, struct rusage *r) {
  calls++;
  arg((int64_t)k == expected_n[0] && r == expected[0]);
  if (ok)
    fill(r, sizeof *r);
  return ok ? 0 : -1;
}
time_t vfx_time(time_t *t) {
  calls++;
  arg(t == expected[0]);
  if (ok && t)
    fill(t, sizeof *t);
  return ok ? 1234 : -1;
}
int vfx_inet_pton(int af, const char *s, void *d) {
  calls++;
  arg(af == expected_n[0] && s == expected[0] && d == expected[1]);
  if (result == 1)
    fill(d, af == AF_INET ? 4 : 16, text_from);
  return (int)result;
}
struct tm *vfx_localtime_r(const time_t *t, struct tm *r) {
  calls++;
  arg(t == expected[0] && r == expected[1]);
  if (ok)
    fill(r, sizeof *r, text_from);
  return ok ? r : nullptr;
}
static bool found;
int vfx_getpwuid_r(id_t u, struct passwd *p, char *b, size_t n, struct passwd **r) {
  calls++;
  arg(u == (id_t)expected_n[0] && p == expected[0] && b == expected[1] && (int64_t)n == expected_n[1] && r == expected[2]);
  unspecified(b, n);
  fill(r, sizeof *r);
  store(r, ok && found ? p : nullptr);
  if (ok && found) {
    fill(p, sizeof *p);
    set_text(b, 2);
    set_text(b + 3, text_len);
    for (unsigned i = 0; i < 4 + text_len; i++)
      either[place(b) + i] = false;
  } else
    unspecified(p, sizeof *p);
  return ok ? 0 : 5;
}
int vfx_epoll_wait(int fd, struct epoll_event *e, int n, int t) {
  calls++;
  arg(fd == expected_n[0] && e == expected[0] && n == expected_n[1] && t == expected_n[2]);
  if (result > 0)
    fill(e, sizeof *e * result);
  return (int)result;
}
int vfx_poll(struct pollfd *p, nfds_t n, int t) {
  calls++;
  arg(p == expected[0] && (int64_t)n == expected_n[0] && t == expected_n[1]);
  if (result >= 0)
    for (nfds_t i = 0; i < n; i++)
      fill(&p[i].revents, sizeof p[i].revents);
  return (int)result;
}
int vfx_select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *t) {
  calls++;
  arg(n == expected_n[0] && a == expected[0] && b == expected[1] && c == expected[2] && t == expected[3]);
  fd_set *s[] = {a, b, c};
  for (auto *p : s)
    if (p) {
      if (ok)
        fill(p, sizeof *p);
      else
        unspecified(p, sizeof *p);
    }
  if (t) {
    if (ok)
      fill(t, sizeof *t);
    else
      unspecified(t, sizeof *t);
  }
  return ok ? 1 : -1;
}
int vfx_sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
  calls++;
  arg(p == expected_n[0] && (int64_t)n == expected_n[1] && m == expected[0]);
  if (ok)
    fill(m, n);
  return ok ? 0 : -1;
}
int vfx_sigemptyset(sigset_t *s) {
  calls++;
  arg(s == expected[0]);
  if (ok)
    fill(s, sizeof *s);
  else
    unspecified(s, sizeof *s);
  return ok ? 0 : -1;
}
int vfx_sigaltstack(const stack_t *a, stack_t *b) {
  calls++;
  arg(a == expected[0] && b == expected[1]);
  if (ok && b)
    fill(b, sizeof *b);
  return ok ? 0 : -1;
}
int vfx_gettimeofday(struct timeval *t, void *z) {
  calls++;
  arg(t == expected[0] && z == expected[1]);
  if (t) {
    if (ok)
      fill(t, sizeof *t);
    else
      unspecified(t, sizeof *t);
  }
  if (z) {
    if (ok)
      fill(z, sizeof(struct timezone));
    else
      unspecified(z, sizeof(struct timezone));
  }
  return ok ? 0 : -1;
}
int vfx_nanosleep(const struct timespec *a, struct timespec *b) {
  calls++;
  arg(a == expected[0] && b == expected[1]);
  if (!ok && b)
    fill(b, sizeof *b);
  return ok ? 0 : -1;
}
static void receive(struct msghdr *m, size_t got) {
  unspecified(m, sizeof *m);
  if (m->msg_name)
    fill(m->msg_name, m->msg_namelen);
  if (m->msg_control)
    fill(m->msg_control, m->msg_controllen);
  for (size_t i = 0; i < m->msg_iovlen; i++) {
    size_t n = got < m->msg_iov[i].iov_len ? got : m->msg_iov[i].iov_len;
    fill(m->msg_iov[i].iov_base, n);
    got -= n;
  }
}
static unsigned sizes[2];
int vfx_recvmmsg(int fd, struct mmsghdr *m, unsigned n, int f, struct timespec *t) {
  calls++;
  arg(fd == expected_n[0] && m == expected[0] && n == expected_n[1] && f == expected_n[2] && t == expected[1]);
  for (int i = 0; i < result; i++) {
    unspecified(&m[i], sizeof m[i]);
    receive(&m[i].msg_hdr, sizes[i]);
    fill(&m[i].msg_len, sizeof m[i].msg_len);
    store(&m[i].msg_len, sizes[i]);
    for (unsigned k = 0; k < sizeof m[i].msg_len; k++)
      either[place(&m[i].msg_len) + k] = false;
  }
  return (int)result;
}
ssize_t vfx_recvmsg(int fd, struct msghdr *m, int f) {
  calls++;
  arg(fd == expected_n[0] && m == expected[0] && f == expected_n[1]);
  if (result >= 0)
    receive(m, result);
  return result;
}
int vfx_socketpair(int d, int t, int p, int *s) {
  calls++;
  arg(d == expected_n[0] && t == expected_n[1] && p == expected_n[2] && s == expected[0]);
  if (ok)
    fill(s, 2 * sizeof *s);
  return ok ? 0 : -1;
}
static unsigned length_was, length_is;
static int named(int fd, struct sockaddr *a, socklen_t *n) {
  calls++;
  arg(fd == expected_n[0] && a == expected[0] && n == expected[1]);
  if (ok) {
    fill(a, length_was < length_is ? length_was : length_is);
    fill(n, sizeof *n);
    store(n, (socklen_t)length_is);
  }
  return ok ? 0 : -1;
}
int vfx_getsockname(int fd, struct sockaddr *a, socklen_t *n) { return named(fd, a, n); }
int vfx_getpeername(int fd, struct sockaddr *a, socklen_t *n) { return named(fd, a, n); }
int vfx_getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
  calls++;
  arg(fd == expected_n[0] && l == expected_n[1] && o == expected_n[2] && v == expected[0] && n == expected[1]);
  if (ok && v && n) {
    fill(v, length_is);
    fill(n, sizeof *n);
    store(n, (socklen_t)length_is);
  }
  return ok ? 0 : -1;
}
}
#define ARG(i, name) (expected_n[i] = (int32_t)SYM32(name))
#define PTR(i, p) (expected[i] = (p))
VF_ENTRY do_stat() {
  world();
  auto *b = take<struct stat>();
  PTR(0, "name");
  PTR(1, b);
  int r = vf_concretize(vf_upto("by descriptor", 1)) ? __dfsw_fstat((int)ARG(0, "fd"), b, 0, 0, &ret) : __dfsw_stat((const char *)expected[0], b, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_clock_gettime() {
  world();
  auto *b = take<struct timespec>();
  PTR(0, b);
  int r = __dfsw_clock_gettime((clockid_t)ARG(0, "clock"), b, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_pthread_join() {
  world();
  auto *b = maybe<void *>();
  PTR(0, b);
  int r = __dfsw_pthread_join((pthread_t)ARG(0, "thread"), b, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : 22), "the real result is returned");
  done();
}
VF_ENTRY do_ctime_r() {
  world();
  auto *t = take<time_t>();
  auto *b = take<char>(26);
  PTR(0, t);
  PTR(1, b);
  text_len = 1 + vf_concretize(vf_upto("length", 2));
  text_from = all_labels(t, sizeof *t);
  char *r = __dfsw_ctime_r(t, b, 1, 99, &ret);
  vf_assert(r == (ok ? b : nullptr), "the real result is returned");
  done(ok ? 99 : 0);
}
VF_ENTRY do_getcwd() {
  world();
  text_len = vf_concretize(vf_upto("length", 3));
  auto *b = maybe<char>(16);
  auto *o = take<char>(16);
  PTR(0, b);
  PTR(1, o);
  char *r = __dfsw_getcwd(b, (size_t)ARG(0, "size"), 99, 0, &ret);
  vf_assert(r == (ok ? b ? b : o : nullptr), "the real result is returned");
  done(ok ? 99 : 0);
}
VF_ENTRY do_get_current_dir_name() {
  world();
  text_len = vf_concretize(vf_upto("length", 3));
  auto *o = take<char>(16);
  PTR(0, o);
  char *r = __dfsw_get_current_dir_name(&ret);
  vf_assert(r == (ok ? o : nullptr), "the real result is returned");
  done();
}
VF_ENTRY do_gethostname() {
  world();
  text_len = vf_concretize(vf_upto("length", 3));
  auto *b = take<char>(16);
  PTR(0, b);
  int r = __dfsw_gethostname(b, (size_t)ARG(0, "size"), 99, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_getrlimit() {
  world();
  auto *b = take<struct rlimit>();
  PTR(0, b);
  expected_n[0] = (int)vf_upto("resource", 9);
  int r = __dfsw_getrlimit((int)expected_n[0], b, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_getrusage() {
  world();
  auto *b = take<struct rusage>();
  PTR(0, b);
  int r = __dfsw_getrusage((int)ARG(0, "who"), b, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_time() {
  world();
  auto *b = maybe<time_t>();
  PTR(0, b);
  time_t r = __dfsw_time(b, 0, &ret);
  vf_assert(r == (ok ? 1234 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_inet_pton() {
  world();
  expected_n[0] = vf_concretize(vf_upto("v6", 1)) ? AF_INET6 : AF_INET;
  result = (int)vf_concretize(vf_upto("result", 2)) - 1;
  text_len = vf_concretize(vf_upto("length", 3));
  auto *s = take<char>(4);
  auto *d = take<char>(16);
  for (unsigned i = 0; i <= text_len; i++)
    store(s + i, (char)(i < text_len ? '1' : 0));
  text_from = all_labels(s, text_len + 1);
  PTR(0, s);
  PTR(1, d);
  int r = __dfsw_inet_pton((int)expected_n[0], s, d, 0, 0, 0, &ret);
  vf_assert(r == result, "the real result is returned");
  done();
}
VF_ENTRY do_localtime_r() {
  world();
  auto *t = take<time_t>();
  auto *b = take<struct tm>();
  PTR(0, t);
  PTR(1, b);
  text_from = all_labels(t, sizeof *t);
  auto *r = __dfsw_localtime_r(t, b, 1, 99, &ret);
  vf_assert(r == (ok ? b : nullptr), "the real result is returned");
  done(ok ? 99 : 0);
}
VF_ENTRY do_getpwuid_r() {
  world();
  found = vf_concretize(vf_upto("found", 1));
  text_len = vf_concretize(vf_upto("length", 2));
  auto *p = take<struct passwd>();
  auto *b = take<char>(16);
  auto **r = take<struct passwd *>();
  PTR(0, p);
  PTR(1, b);
  PTR(2, r);
  expected_n[1] = 16;
  int k = __dfsw_getpwuid_r((id_t)ARG(0, "uid"), p, b, 16, r, 0, 0, 0, 0, 0, &ret);
  vf_assert(k == (ok ? 0 : 5), "the real result is returned");
  done();
}
VF_ENTRY do_epoll_wait() {
  world();
  auto *e = take<struct epoll_event>(3);
  PTR(0, e);
  result = (int)vf_concretize(vf_upto("result", 4)) - 1;
  int r = __dfsw_epoll_wait((int)ARG(0, "fd"), e, (int)ARG(1, "count"), (int)ARG(2, "timeout"), 0, 0, 0, 0, &ret);
  vf_assert(r == result, "the real result is returned");
  done();
}
VF_ENTRY do_poll() {
  world();
  auto *e = take<struct pollfd>(3);
  PTR(0, e);
  expected_n[0] = vf_concretize(vf_upto("count", 3));
  result = (int)vf_concretize(vf_upto("result", 4)) - 1;
  vf_assume(result <= expected_n[0]);
  int r = __dfsw_poll(e, (nfds_t)expected_n[0], (int)ARG(1, "timeout"), 0, 0, 0, &ret);
  vf_assert(r == result, "the real result is returned");
  done();
}
VF_ENTRY do_select() {
  world();
  auto *a = maybe<fd_set>(), *b = maybe<fd_set>(), *c = maybe<fd_set>();
  auto *t = maybe<struct timeval>();
  PTR(0, a);
  PTR(1, b);
  PTR(2, c);
  PTR(3, t);
  int r = __dfsw_select((int)ARG(0, "count"), a, b, c, t, 0, 0, 0, 0, 0, &ret);
  vf_assert(r == (ok ? 1 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_sched_getaffinity() {
  world();
  auto *m = take<cpu_set_t>();
  PTR(0, m);
  expected_n[1] = 8 * (1 + vf_concretize(vf_upto("words", 15)));
  int r = __dfsw_sched_getaffinity((pid_t)ARG(0, "process"), (size_t)expected_n[1], m, 0, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_sigemptyset() {
  world();
  auto *m = take<sigset_t>();
  PTR(0, m);
  int r = __dfsw_sigemptyset(m, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_sigaltstack() {
  world();
  auto *a = maybe<stack_t>(), *b = maybe<stack_t>();
  PTR(0, a);
  PTR(1, b);
  int r = __dfsw_sigaltstack(a, b, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_gettimeofday() {
  world();
  auto *a = maybe<struct timeval>();
  auto *b = maybe<struct timezone>();
  PTR(0, a);
  PTR(1, b);
  int r = __dfsw_gettimeofday(a, b, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_nanosleep() {
  world();
  auto *a = take<struct timespec>(), *b = maybe<struct timespec>();
  PTR(0, a);
  PTR(1, b);
  int r = __dfsw_nanosleep(a, b, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
static unsigned space;
static void message(struct msghdr *m) {
  struct msghdr h = {};
  unsigned n = vf_concretize(vf_upto("pieces", 2));
  auto *v = take<struct iovec>(2);
  space = 0;
  for (unsigned i = 0; i < n; i++) {
    size_t k = vf_concretize(vf_upto("piece", 2));
    struct iovec x = {take<char>(4), k};
    store(&v[i], x);
    space += k;
  }
  h.msg_iov = v;
  h.msg_iovlen = n;
  if (vf_concretize(vf_upto("named", 1))) {
    h.msg_name = take<char>(8);
    h.msg_namelen = vf_concretize(vf_upto("name", 1)) * 5;
  }
  if (vf_concretize(vf_upto("with control data", 1))) {
    h.msg_control = take<char>(8);
    h.msg_controllen = vf_concretize(vf_upto("control", 1)) * 7;
  }
  store(m, h);
}
VF_ENTRY do_recvmsg() {
  world();
  auto *m = take<struct msghdr>();
  message(m);
  PTR(0, m);
  // with MSG_TRUNC the result may exceed the space given
  result = (int)vf_concretize(vf_upto("received", space + 2)) - 1;
  ssize_t r = __dfsw_recvmsg((int)ARG(0, "fd"), m, (int)ARG(1, "flags"), 0, 0, 0, &ret);
  vf_assert(r == result, "the real result is returned");
  done();
}
VF_ENTRY do_recvmmsg() {
  world();
  auto *m = take<struct mmsghdr>(2);
  result = (int)vf_concretize(vf_upto("messages", 3)) - 1;
  message(&m[0].msg_hdr);
  sizes[0] = vf_concretize(vf_upto("received", space));
  if (result == 2) {
    struct msghdr h = {};
    auto *v = take<struct iovec>(1);
    struct iovec x = {take<char>(4), 3};
    store(v, x);
    h.msg_iov = v;
    h.msg_iovlen = 1;
    store(&m[1].msg_hdr, h);
    sizes[1] = vf_concretize(vf_upto("received", 3));
  }
  PTR(0, m);
  PTR(1, maybe<struct timespec>());
  int r = __dfsw_recvmmsg((int)ARG(0, "fd"), m, (unsigned)(expected_n[1] = 2), (int)ARG(2, "flags"), (struct timespec *)expected[1], 0, 0, 0, 0, 0, &ret);
  vf_assert(r == result, "the real result is returned");
  done();
}
VF_ENTRY do_socketpair() {
  world();
  auto *s = take<int>(2);
  PTR(0, s);
  int r = __dfsw_socketpair((int)ARG(0, "domain"), (int)ARG(1, "type"), (int)ARG(2, "protocol"), s, 0, 0, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
static void socket_name(bool peer) {
  world();
  auto *a = take<struct sockaddr>();
  auto *n = take<socklen_t>();
  length_was = 2 * vf_concretize(vf_upto("space", 4));
  length_is = 2 * vf_concretize(vf_upto("length", 5));
  store(n, (socklen_t)length_was);
  PTR(0, a);
  PTR(1, n);
  int fd = (int)ARG(0, "fd");
  int r = peer ? __dfsw_getpeername(fd, a, n, 0, 0, 0, &ret) : __dfsw_getsockname(fd, a, n, 0, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
VF_ENTRY do_getsockname() { socket_name(false); }
VF_ENTRY do_getpeername() { socket_name(true); }
VF_ENTRY do_getsockopt() {
  world();
  auto *a = maybe<char>(16);
  auto *n = maybe<socklen_t>();
  if (n)
    store(n, (socklen_t)8);
  length_is = vf_concretize(vf_upto("length", 8));
  PTR(0, a);
  PTR(1, n);
  int r = __dfsw_getsockopt((int)ARG(0, "fd"), (int)ARG(1, "level"), (int)ARG(2, "option"), a, n, 0, 0, 0, 0, 0, &ret);
  vf_assert(r == (ok ? 0 : -1), "the real result is returned");
  done();
}
