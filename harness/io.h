// A stand-in for the C library's input and output: every result, position and
// content is arbitrary, and each call is recorded.
#pragma once
#define PT_OWN_OPEN
#define PT_OWN_MMAP
#include "run.h"
#include "table.h"
#include "polytracker/early_construct.h"
EARLY_CONSTRUCT_EXTERN_GETTER(taintdag::PolyTracker, polytracker_tdag);
static constexpr int TRACKED = 3, OTHER = 5;
static uint64_t other_files[2][64];
static FILE *const tracked_file = (FILE *)other_files[0];
static FILE *const other_file = (FILE *)other_files[1];
static bool started; // before: the runtime's own calls
static bool seekable;
static int64_t position;  // of the descriptor or stream in use
static unsigned calls;    // of the function the program called
static int last_fd;
static FILE *last_file;
static int number_of(FILE *f) {
  return f == tracked_file ? TRACKED : f == other_file ? OTHER : f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : -1;
}
extern "C" {
int vfx_fileno(FILE *f) { return number_of(f); }
int vfx_fileno_unlocked(FILE *f) { return number_of(f); }
long vfx_lseek(int fd, long o, int whence) {
  vf_assert(o == 0 && whence == 1, "positions are only asked for");
  return seekable ? position : -1;
}
long vfx_lseek64(int fd, long o, int whence) { return vfx_lseek(fd, o, whence); }
long vfx_ftello(FILE *) { return seekable ? position : -1; }
long vfx_ftello64(FILE *) { return seekable ? position : -1; }
long vfx_ftell(FILE *) { return seekable ? position : -1; }
}
// Tracking has started, the program has one tracked and one other file, and four
// labels exist: 1, 2, 3 are bytes 500.. of standard input and 4 combines 1 and 3.
static constexpr unsigned LABELS = 5;
static constexpr unsigned MEM = 5;
static uint32_t old_shadow[MEM];
static uint8_t old_app[MEM];
static int opened_files;
static void begin() {
  standard_streams();
  static char one[] = "1", zero[] = "0";
  env_stdin = one;
  env_stdout = zero;
  env_stderr = zero;
  app_memory(MEM);
  __taint_start();
  auto &t = get_polytracker_tdag();
  t.open_file(TRACKED, "f");
  t.source_taint(0, util::Offset::from_off_t(500), 3);
  t.union_labels(1, 3);
  vf_assert(out.labels()[4] != 0 && out.labels()[5] == 0, "set up");
  for (unsigned i = 0; i < MEM; i++) {
    uint32_t l = SYM32("old label");
    vf_assume(l < LABELS);
    shadow[i] = l;
    old_shadow[i] = l;
    app[i] = SYM8("old byte");
    old_app[i] = app[i];
  }
  seekable = vf_concretize(vf_upto("seekable", 1));
  position = vf_upto("position", 1ull << 40);
  started = true;
}
static bool pick_tracked() { return vf_concretize(vf_upto("tracked", 1)); }
