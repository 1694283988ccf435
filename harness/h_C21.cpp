// @sources dag main sources dfsan
// @bound settings that are unset or have 0 to 2 arbitrary characters; up to 2 (thorough: 3) arguments of up to 2 (thorough: 3) arbitrary characters; any descriptors for the standard streams
// @assume open, ftruncate, mmap and file_size succeed; the output file is memory
#include "run.h"
extern "C" {
int fd_in, fd_out, fd_err;
int vfx_fileno(FILE *f) { return f == stdin ? fd_in : f == stdout ? fd_out : fd_err; }
}
static const char *setting(char *buf) {
  unsigned n = vf_concretize(vf_upto("setting", 3));
  if (n == 3)
    return nullptr;
  vf_sym_bytes(buf, n, "value");
  for (unsigned i = 0; i < n; i++)
    vf_assume(buf[i] != 0);
  buf[n] = 0;
  return buf;
}
static bool is_one(const char *s) { return s && s[0] == '1' && s[1] == 0; }
static void expect_source(unsigned k, const char *name, int fd) {
  auto &s = out.sources()[k];
  vf_assert(s.fd == fd, "a tracked stream has its descriptor");
  uint8_t *p = out.at(3) + s.name;
  unsigned n = 0;
  for (; name[n]; n++)
    vf_assert(p[2 + n] == name[n], "a source has its name");
  vf_assert(*(uint16_t *)p == n, "a source has its name's length");
}
VF_ENTRY streams() {
  static char b[3][4];
  env_stdin = setting(b[0]);
  env_stdout = setting(b[1]);
  env_stderr = setting(b[2]);
  fd_in = (int)SYM32("stdin");
  fd_out = (int)SYM32("stdout");
  fd_err = (int)SYM32("stderr");
  bool in = is_one(env_stdin) && fd_in >= 0, o = is_one(env_stdout) && fd_out >= 0, e = is_one(env_stderr) && fd_err >= 0;
  standard_streams();
  __taint_start();
  polytracker_end();
  vf_assert(out.nsources() == (unsigned)in + o + e, "exactly the requested streams are tracked");
  // in any order
  for (unsigned i = 0; i < out.nsources(); i++) {
    uint8_t *p = out.at(3) + out.sources()[i].name;
    if (p[2 + 8] == 'i') {
      vf_assert(in, "standard input is tracked only on request");
      in = false;
      expect_source(i, "/dev/stdin", fd_in);
      vf_cover("stdin");
    } else if (p[2 + 8] == 'o') {
      vf_assert(o, "standard output is tracked only on request");
      o = false;
      expect_source(i, "/dev/stdout", fd_out);
      vf_cover("stdout");
    } else {
      vf_assert(e, "standard error is tracked only on request");
      e = false;
      expect_source(i, "/dev/stderr", fd_err);
      vf_cover("stderr");
    }
  }
  vf_assert(!in && !o && !e, "each requested stream is tracked");
  vf_assert(out.size(2) == 8, "no label is made");
}
// Command-line arguments.
static constexpr unsigned ARGS = BOUND(2, 3), LEN = BOUND(2, 3);
VF_ENTRY arguments() {
  static char v[4];
  env_argv = setting(v);
  app_memory(ARGS * (LEN + 2));
  char *argv[ARGS + 1];
  unsigned len[ARGS];
  uint32_t old[ARGS * (LEN + 2)];
  for (unsigned i = 0; i < ARGS * (LEN + 2); i++)
    shadow[i] = old[i] = SYM32("label");
  unsigned argc = vf_concretize(vf_upto("argc", ARGS));
  for (unsigned i = 0; i < argc; i++) {
    argv[i] = (char *)app + i * (LEN + 2);
    len[i] = vf_concretize(vf_upto("length", LEN));
    vf_sym_bytes(argv[i], len[i], "char");
    for (unsigned k = 0; k < len[i]; k++)
      vf_assume(argv[i][k] != 0);
    argv[i][len[i]] = 0;
  }
  argv[argc] = nullptr;
  standard_streams();
  __taint_start();
  bool on = env_argv && env_argv[0] == '1';
  vf_assume(!on || env_argv[1] == 0); // other values that start with 1 are not documented
  __polytracker_taint_argv(argc, argv);
  polytracker_end();
  unsigned labels = 1;
  vf_assert(out.nsources() == (on ? argc : 0), "each argument is a source exactly if arguments are tracked");
  for (unsigned i = 0; i < argc; i++)
    for (unsigned k = 0; k < LEN + 2; k++) {
      unsigned at = i * (LEN + 2) + k;
      if (on && k < len[i]) {
        vf_assert(shadow[at] == labels, "each byte of an argument has its own label");
        vf_assert(out.labels()[labels] == source_word(i, k), "the label denotes the argument and the position");
        vf_assert(out.bitmap()[0] >> labels & 1, "the label is recorded as an input byte");
        labels++;
      } else
        vf_assert(shadow[at] == old[at], "no other byte is tainted");
    }
  vf_assert(out.size(2) == 8 * labels, "no other label is made");
  if (on)
    for (unsigned i = 0; i < argc; i++) {
      char nm[] = "argv[0]";
      nm[5] += i;
      expect_source(i, nm, -1);
      vf_cover("tracked");
    }
  else
    vf_cover("off");
}
// More than ten arguments have different names.
VF_ENTRY many_arguments() {
  static char one[] = "1";
  env_argv = one;
  app_memory(4);
  app[0] = 'a';
  app[1] = 0;
  constexpr unsigned N = 12;
  char *argv[N];
  for (unsigned i = 0; i < N; i++)
    argv[i] = (char *)app + (i & 1);
  standard_streams();
  __taint_start();
  __polytracker_taint_argv(N, argv);
  polytracker_end();
  vf_assert(out.nsources() == N, "each argument is a source");
  for (unsigned i = 0; i < N; i++) {
    char nm[] = "argv[0]\0";
    if (i < 10)
      nm[5] += i;
    else {
      nm[5] = '1';
      nm[6] = '0' + i - 10;
      nm[7] = ']';
    }
    expect_source(i, nm, -1);
  }
  vf_cover("done");
}
// Where the trace goes.
VF_ENTRY output_name() {
  static char b[4];
  env_db = setting(b);
  standard_streams();
  __taint_start();
  const char *want = env_db && *env_db ? env_db : "polytracker.tdag";
  for (unsigned i = 0;; i++) {
    vf_assert(opened[i] == want[i], "the trace is written to the file that was asked for");
    if (!want[i])
      break;
  }
  vf_cover("done");
}
