// @sources dag main sources dfsan custom thread
// @bound sequences of up to 3 (thorough: 4) calls of signal and sigaction and deliveries over two signals, one of which the system refuses to change, with two handlers of the program, SIG_DFL and SIG_IGN; up to 2 threads; up to 3 loaded objects with names of up to 2 characters and up to 2 headers; any exit status, fork result and message
// @assume the system's calls are stand-ins that behave as documented; no signal arrives while its handler is being changed by another thread; the stack bounds of a thread are those of its stack; signals are numbered 1 to 64
#define PT_OWN_ATEXIT
#include "run.h"
#include "polytracker/early_construct.h"
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <ucontext.h>
typedef uint32_t L;
extern "C" {
int __dfsw_sigaction(int, const struct sigaction *, struct sigaction *, L, L, L, L *);
typedef void (*handler_t)(int);
handler_t __dfsw_signal(int, void *(*)(void *, int, L, L *), handler_t, L, L, L *);
int __dfsw_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *, void *, L, L *), void *, void *, L, L, L, L, L *);
int __dfsw_dl_iterate_phdr(int (*)(void *, struct dl_phdr_info *, size_t, void *, L, L, L, L *), void *, void *, L, L, L *);
pid_t __dfsw_fork(L *);
void __dfsw_exit(int, L);
void __dfsw___assert_fail(const char *, const char *, unsigned, const char *, L, L, L, L);
int __dfsw__putc(int, FILE *, L, L, L *);
int __dfsw_pthread_cond_broadcast(pthread_cond_t *, L, L *);
extern __thread uint64_t __dfsan_arg_tls[], __dfsan_retval_tls[];
}
// ---- signals
// What the system does.
struct Installed {
  uintptr_t handler;
  bool info;
  int flags;
};
static Installed in_system[2], by_program[2];
static const int SIGNO[2] = {SIGUSR1, SIGKILL};
static int which(int s) { return s == SIGNO[1]; }
static unsigned masked, unmasked;
extern "C" {
int vfx_sigfillset(sigset_t *) { return 0; }
int vfx_pthread_sigmask(int, const sigset_t *, sigset_t *old) {
  (old ? masked : unmasked)++;
  return 0;
}
int vfx_sigaction(int s, const struct sigaction *a, struct sigaction *old) {
  int k = which(s);
  if (a && k == 1)
    return -1;
  if (old) {
    old->sa_flags = in_system[k].flags;
    old->sa_handler = (handler_t)in_system[k].handler;
  }
  if (a)
    in_system[k] = {(uintptr_t)a->sa_handler, (a->sa_flags & SA_SIGINFO) != 0, a->sa_flags};
  return 0;
}
handler_t vfx_signal(int s, handler_t h) {
  int k = which(s);
  if (k == 1)
    return SIG_ERR;
  handler_t old = (handler_t)in_system[k].handler;
  in_system[k] = {(uintptr_t)h, false, SA_RESTART};
  return old;
}
}
// The program's handlers.
static unsigned runs[2];
static int got_signo;
static void *got_info, *got_context;
static bool args_clean;
static void note_call(unsigned h, int s) {
  runs[h]++;
  got_signo = s;
  args_clean = true;
  auto *l = (L *)__dfsan_arg_tls;
  args_clean &= l[0] == 0;
}
static void h0(int s) { note_call(0, s); }
static void h1(int s) { note_call(1, s); }
static void note_info(unsigned h, int s, void *i, void *c) {
  note_call(h, s);
  auto *l = (L *)__dfsan_arg_tls;
  args_clean &= (l[1] | l[2]) == 0;
  got_info = i;
  got_context = c;
}
static void a0(int s, siginfo_t *i, void *c) { note_info(0, s, i, c); }
static void a1(int s, siginfo_t *i, void *c) { note_info(1, s, i, c); }
static uintptr_t handler(unsigned n, bool info) {
  switch (n) {
  case 0: return (uintptr_t)SIG_DFL;
  case 1: return (uintptr_t)SIG_IGN;
  case 2: return info ? (uintptr_t)a0 : (uintptr_t)h0;
  default: return info ? (uintptr_t)a1 : (uintptr_t)h1;
  }
}
static bool look; // at every label
static void deliver() {
  Installed s = in_system[0], p = by_program[0];
  bool own = p.handler != (uintptr_t)SIG_DFL && p.handler != (uintptr_t)SIG_IGN;
  if (!own) {
    vf_assert(s.handler == p.handler, "a signal that the program ignores or leaves alone is not caught");
    return;
  }
  vf_cover("a handler runs");
  vf_assert(s.info == p.info, "a handler is installed for the arguments it takes");
  unsigned n = p.handler == (uintptr_t)h1 || p.handler == (uintptr_t)a1;
  unsigned before[2] = {runs[0], runs[1]};
  // the signal interrupts anything, with labels of arguments pending
  for (unsigned i = 0; i < 3; i++)
    ((L *)__dfsan_arg_tls)[i] = 7;
  ((L *)__dfsan_retval_tls)[0] = 7;
  if (p.info) {
    app_memory(sizeof(siginfo_t) + sizeof(ucontext_t) + 2);
    siginfo_t *si = (siginfo_t *)app;
    uint8_t *uc = app + sizeof(siginfo_t) + 1;
    if (look)
      for (unsigned i = 0; i < sizeof(siginfo_t) + sizeof(ucontext_t) + 2; i++)
        shadow[i] = 9;
    ((void (*)(int, siginfo_t *, void *))s.handler)(SIGNO[0], si, uc);
    vf_assert(got_info == si && got_context == uc, "a handler gets what the system passes");
    for (unsigned i = 0; look && i < sizeof(siginfo_t); i++)
      vf_assert(shadow[i] == 0, "what the system passes has no labels");
    for (unsigned i = 0; look && i < sizeof(ucontext_t); i++)
      vf_assert(shadow[sizeof(siginfo_t) + 1 + i] == 0, "what the system passes has no labels");
    vf_assert(!look || shadow[sizeof(siginfo_t)] == 9 && shadow[sizeof(siginfo_t) + 1 + sizeof(ucontext_t)] == 9, "other memory keeps its labels");
    vf_unmap(APP);
    vf_unmap(SHADOW);
  } else
    ((handler_t)s.handler)(SIGNO[0]);
  vf_assert(runs[n] == before[n] + 1 && runs[1 - n] == before[1 - n], "the program's handler runs, once, and no other");
  vf_assert(got_signo == SIGNO[0], "a handler gets the signal's number");
  vf_assert(args_clean, "a handler's arguments have no labels");
  L left = 0;
  for (unsigned i = 0; i < 3; i++)
    left |= ((L *)__dfsan_arg_tls)[i];
  vf_assert((left | ((L *)__dfsan_retval_tls)[0]) == 0, "a handler leaves no labels of arguments behind");
}
static constexpr unsigned OPS = BOUND(3, 4);
VF_ENTRY signals() {
  for (unsigned step = 0; step < OPS; step++) {
    unsigned op = vf_concretize(vf_upto("operation", 3));
    if (op == 0)
      break;
    if (op == 3) {
      deliver();
      continue;
    }
    unsigned k = vf_concretize(vf_upto("signal", 1));
    L ret = 5;
    if (op == 1) {
      uintptr_t h = handler(k ? 2 : vf_concretize(vf_upto("handler", 3)), false);
      uintptr_t old = (uintptr_t)__dfsw_signal(SIGNO[k], nullptr, (handler_t)h, 0, 0, &ret);
      vf_assert(old == (k ? (uintptr_t)SIG_ERR : by_program[k].handler), "the program is told of its own previous handler");
      if (!k)
        by_program[k] = {h, false, SA_RESTART};
    } else if (op == 2) {
      bool set = vf_concretize(vf_upto("sets", 1)), get = !set || k || vf_concretize(vf_upto("asks", 1));
      bool info = set && (k || vf_concretize(vf_upto("info", 1)));
      uintptr_t h = set ? handler(k ? 2 : vf_concretize(vf_upto("handler", 3)), info) : 0;
      struct sigaction a = {}, before, *old = nullptr;
      a.sa_handler = (handler_t)h;
      a.sa_flags = (info ? SA_SIGINFO : 0) | SA_NODEFER;
      before = a;
      if (get) {
        app_memory(sizeof(struct sigaction) + 1);
        for (unsigned i = 0; i <= sizeof(struct sigaction); i++)
          shadow[i] = 9;
        old = (struct sigaction *)app;
      }
      int r = __dfsw_sigaction(SIGNO[k], set ? &a : nullptr, old, 0, 0, 0, &ret);
      vf_assert(r == (set && k ? -1 : 0), "the real result is returned");
      vf_assert(a.sa_handler == before.sa_handler && a.sa_flags == before.sa_flags, "the program's request is not changed");
      if (get) {
        if (r == 0) {
          vf_assert((uintptr_t)old->sa_handler == by_program[k].handler, "the program is told of its own previous handler");
          vf_assert(old->sa_flags == by_program[k].flags, "the program is told of its own previous flags");
          for (unsigned i = 0; i < sizeof(struct sigaction); i++)
            vf_assert(shadow[i] == 0, "what the system fills in has no labels");
        }
        vf_assert(shadow[sizeof(struct sigaction)] == 9, "other memory keeps its labels");
        vf_unmap(APP);
        vf_unmap(SHADOW);
      }
      if (set && !k)
        by_program[k] = {h, info, a.sa_flags};
    }
    vf_assert(ret == 0, "the result has no label");
    vf_assert(masked == unmasked, "the mask of signals is restored");
    vf_assert(in_system[0].flags == by_program[0].flags, "the flags that the program asked for are set");
  }
  deliver();
  vf_cover("done");
}
VF_ENTRY handler_arguments() {
  look = true;
  struct sigaction a = {};
  a.sa_sigaction = vf_concretize(vf_upto("handler", 1)) ? a1 : a0;
  a.sa_flags = SA_SIGINFO;
  L ret;
  vf_assert(__dfsw_sigaction(SIGNO[0], &a, nullptr, 0, 0, 0, &ret) == 0, "the real result is returned");
  by_program[0] = {(uintptr_t)a.sa_handler, true, SA_SIGINFO};
  deliver();
}
// ---- threads
static unsigned created, started, inits, destroys;
static const pthread_attr_t *got_attr[2];
static void *(*body[2])(void *);
static void *body_arg[2];
static int create_result[2];
static uintptr_t thread_ids[2];
static uint8_t thread_mem[2][4096];
static unsigned thread_mems;
static unsigned current;
static pthread_attr_t *inited;
extern "C" {
int vfx_pthread_attr_init(pthread_attr_t *a) {
  inits++;
  inited = a;
  return 0;
}
int vfx_pthread_attr_destroy(pthread_attr_t *a) {
  vf_assert(a == inited, "only attributes of the runtime are destroyed");
  destroys++;
  return 0;
}
void vfx__ZN11__sanitizer15AdjustStackSizeEPv(void *) {}
void *vfx__ZN11__sanitizer9MmapOrDieEmPKcb(size_t n, const char *, bool) {
  vf_assert(n <= 4096 && thread_mems < 2, "a thread's record fits");
  return thread_mem[thread_mems++];
}
uintptr_t vfx__ZN11__sanitizer30GetPthreadDestructorIterationsEv() { return 4; }
void vfx__ZN11__sanitizer20GetThreadStackAndTlsEbPmS0_S0_S0_(bool, uintptr_t *bottom, uintptr_t *size, uintptr_t *tls, uintptr_t *tls_size) {
  *bottom = 0;
  *size = ~(uintptr_t)0;
  *tls = *tls_size = 0;
}
int vfx_pthread_key_create(pthread_key_t *k, void (*)(void *)) {
  *k = 1;
  return 0;
}
int vfx_pthread_setspecific(pthread_key_t, const void *) { return 0; }
int vfx_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  vf_assert(created < 2, "one thread is started per call");
  if (create_result[created] == 0) {
    *t = thread_ids[created];
    body[created] = f;
    body_arg[created] = arg;
  }
  got_attr[created] = a;
  return create_result[created++];
}
}
static uintptr_t start_fn[2], start_arg[2], start_ret[2];
static void *trampoline(void *f, void *arg, L l, L *rl) {
  unsigned n = current;
  started++;
  vf_assert((uintptr_t)f == start_fn[n], "a thread runs the function it was given");
  vf_assert((uintptr_t)arg == start_arg[n], "a thread gets the argument it was given");
  vf_assert(l == 0, "a thread's argument has no label");
  *rl = 3;
  return (void *)start_ret[n];
}
namespace __dfsan {
void DFsanTSDInit(void (*)(void *));
void DFsanTSDDtor(void *);
}
static void run_thread(void *p) {
  current = *(unsigned *)p;
  void *r = body[current](body_arg[current]);
  vf_assert((uintptr_t)r == start_ret[current], "a thread's result is its function's");
}
VF_ENTRY threads() {
  __dfsan::DFsanTSDInit(__dfsan::DFsanTSDDtor);
  unsigned n = 1 + vf_concretize(vf_upto("threads", 1));
  static pthread_attr_t own[2];
  static unsigned number[2] = {0, 1};
  for (unsigned i = 0; i < n; i++) {
    start_fn[i] = SYM64("function");
    vf_assume(start_fn[i] != 0);
    start_arg[i] = SYM64("argument");
    start_ret[i] = SYM64("result");
    thread_ids[i] = SYM64("id");
    create_result[i] = vf_concretize(vf_upto("fails", 1)) ? (int)(1 + vf_upto("error", 100)) : 0;
    bool given = vf_concretize(vf_upto("attributes", 1));
    pthread_t t = 0;
    L ret = 5;
    int r = __dfsw_pthread_create(&t, given ? &own[i] : nullptr, trampoline, (void *)start_fn[i], (void *)start_arg[i], 1, 2, 3, 4, &ret);
    vf_assert(created == i + 1, "one thread is started per call");
    vf_assert(r == create_result[i], "the real result is returned");
    vf_assert(r != 0 || t == thread_ids[i], "the thread's identifier is returned");
    vf_assert(ret == 0, "the result has no label");
    if (given)
      vf_assert(got_attr[i] == &own[i], "the program's attributes are used");
    vf_assert(inits == destroys, "the runtime's attributes are destroyed");
  }
  // in either order
  bool swap = n == 2 && vf_concretize(vf_upto("order", 1));
  unsigned good = 0;
  for (unsigned j = 0; j < n; j++) {
    unsigned i = swap ? 1 - j : j;
    if (create_result[i])
      continue;
    good++;
    vf_spawn(run_thread, &number[i]);
    vf_join_all();
  }
  vf_assert(started == good, "a thread runs its function once");
  vf_cover("done");
}
// ---- loaded objects
static constexpr unsigned OBJ = 128;
static unsigned objects, object_headers[3], object_name[3], visited, stop_at;
static int stop_with;
static uintptr_t phdr_data;
static size_t info_size;
static bool bad_visit;
static struct dl_phdr_info *info_of(unsigned i) { return (struct dl_phdr_info *)(app + i * 256); }
static char *name_of(unsigned i) { return (char *)app + i * 256 + 72; }
static ElfW(Phdr) *headers_of(unsigned i) { return (ElfW(Phdr) *)(app + i * 256 + 80); }
extern "C" int vfx_dl_iterate_phdr(int (*cb)(struct dl_phdr_info *, size_t, void *), void *data) {
  int r = 0;
  for (unsigned i = 0; i < objects && !r; i++)
    r = cb(info_of(i), info_size, data);
  return r;
}
static int on_object(void *cb, struct dl_phdr_info *i, size_t size, void *data, L a, L b, L c, L *rl) {
  bad_visit |= cb != (void *)0x1234 || i != info_of(visited) || size != info_size || (uintptr_t)data != phdr_data || a || b || c;
  *rl = 3;
  return ++visited == stop_at ? stop_with : 0;
}
VF_ENTRY loaded_objects() {
  objects = vf_concretize(vf_upto("objects", 3));
  app_memory(3 * 256);
  static L want[3 * 256];
  for (unsigned i = 0; i < 3 * 256; i++)
    shadow[i] = want[i] = i + 1;
  phdr_data = SYM64("data");
  info_size = SYM64("size");
  stop_at = vf_concretize(vf_upto("stop", 3));
  stop_with = (int)SYM32("with");
  for (unsigned i = 0; i < objects; i++) {
    object_headers[i] = vf_concretize(vf_upto("headers", 2));
    object_name[i] = vf_concretize(vf_upto("name", 2));
    info_of(i)->dlpi_name = name_of(i);
    info_of(i)->dlpi_phdr = headers_of(i);
    info_of(i)->dlpi_phnum = object_headers[i];
    for (unsigned c = 0; c < object_name[i]; c++)
      name_of(i)[c] = 'a';
    name_of(i)[object_name[i]] = 0;
  }
  L ret = 5;
  int r = __dfsw_dl_iterate_phdr(on_object, (void *)0x1234, (void *)phdr_data, 1, 2, &ret);
  bool stops = stop_at && stop_at <= objects && stop_with;
  vf_assert(visited == (stops ? stop_at : objects), "the callback is called for every object until it stops");
  vf_assert(!bad_visit, "the callback gets what the system passes, without labels");
  vf_assert(r == (stop_at && visited >= stop_at ? visited == stop_at ? stop_with : 0 : 0), "the callback's last result is returned");
  vf_assert(ret == 0, "the result has no label");
  for (unsigned i = 0; i < visited; i++) {
    for (unsigned k = 0; k < sizeof(struct dl_phdr_info); k++)
      want[i * 256 + k] = 0;
    for (unsigned k = 0; k <= object_name[i]; k++)
      want[i * 256 + 72 + k] = 0;
    for (unsigned k = 0; k < object_headers[i] * sizeof(ElfW(Phdr)); k++)
      want[i * 256 + 80 + k] = 0;
  }
  for (unsigned i = 0; i < 3 * 256; i++)
    vf_assert(shadow[i] == want[i], "what the system fills in has no labels, and other memory keeps its labels");
  vf_cover("done");
}
// ---- ends
extern "C" {
static void (*at_exit[4])();
static unsigned exits_registered, forks, real_puts, broadcasts;
int vfx_atexit(void (*f)()) {
  vf_assert(exits_registered < 4, "exit handlers fit");
  at_exit[exits_registered++] = f;
  return 0;
}
int vfx_fileno(FILE *f) { return f == stdin ? 0 : f == stdout ? 1 : 2; }
static int expected_code;
static bool by_exit;
static bool file_done;
static L expected_label;
int vfx_munmap(void *, size_t);
static void complete() {
  vf_assert(out.size(2) == 8 + 8 * 2, "a trace that ends has its labels");
  vf_assert(out.nsources() == 1, "a trace that ends has its sources");
  vf_assert(out.nsinks() == 1, "a trace that ends has its outputs");
  vf_assert(out.labels()[1] == source_word(0, 5) && out.labels()[2] == source_word(0, 6), "a trace that ends has its labels");
  vf_assert(out.sinks()[0].label == 2, "a trace that ends has its outputs");
}
void vfx_exit(int code) {
  vf_assert(by_exit, "the run ends the way it was asked to");
  vf_assert(code == expected_code, "the exit status is passed on");
  while (exits_registered)
    at_exit[--exits_registered]();
  complete();
  vf_cover("exits");
  vf_end();
}
static const char *want_msg, *want_file, *want_fn;
static unsigned want_line;
void vfx___assert_fail(const char *m, const char *f, unsigned l, const char *fn) {
  vf_assert(!by_exit, "the run ends the way it was asked to");
  vf_assert(m == want_msg && f == want_file && l == want_line && fn == want_fn, "a failed assertion is reported as it was");
  complete(); // nothing of the runtime runs after this
  vf_cover("aborts");
  vf_end();
}
int fork_result;
int vfx_fork() {
  forks++;
  return fork_result;
}
}
EARLY_CONSTRUCT_EXTERN_GETTER(taintdag::PolyTracker, polytracker_tdag);
VF_ENTRY ends() {
  standard_streams();
  __taint_start();
  auto &t = get_polytracker_tdag();
  app_memory(4);
  t.open_file(7, "in");
  t.source_taint(7, app, util::Offset::from_off_t(5), 2);
  t.taint_sink(7, util::Offset::from_off_t(3), (label_t)2, 1);
  by_exit = vf_concretize(vf_upto("exits", 1));
  if (by_exit) {
    expected_code = (int)SYM32("status");
    __dfsw_exit(expected_code, SYM32("label"));
  } else {
    want_msg = (const char *)SYM64("message");
    want_file = (const char *)SYM64("file");
    want_fn = (const char *)SYM64("function");
    want_line = SYM32("line");
    __dfsw___assert_fail(want_msg, want_file, want_line, want_fn, 1, 2, 3, 4);
  }
  vf_assert(0, "the run ends");
}
VF_ENTRY forks_() {
  fork_result = (int)SYM32("result");
  L ret = 5;
  vf_assert(__dfsw_fork(&ret) == fork_result, "the real result is returned");
  vf_assert(ret == 0 && forks == 1, "the result has no label");
  vf_cover("done");
}
