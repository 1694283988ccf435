// @sources dag dfsan
// @bound 2 events with any 32-bit function numbers and labels, and 4 (thorough: 5) events with numbers below 128, in a whole traced run; a log with any amount of room from 0 to 12 bytes
// @assume open, ftruncate, mmap and file_size succeed; the output file is memory
// @assume events are those of a program: functions are left, and branches taken, only in functions that have been entered
#include "pt.h"
#include "table.h"
#include "taintdag/control_flow_log.h"
static unsigned nlog;
static uint8_t want[64];
static void number(uint32_t v) {
  while (v >= 0x80) {
    want[nlog++] = 0x80 | (v & 0x7f);
    v >>= 7;
  }
  want[nlog++] = v;
}
template <class T> static void event(T &t, unsigned kind, uint32_t fn, uint32_t label) {
  if (kind == 0)
    t.enter_function(fn);
  else if (kind == 1)
    t.leave_function(fn);
  else
    t.log_tainted_control_flow(label, fn);
}
static void expect(unsigned kind, uint32_t fn, uint32_t label) {
  want[nlog++] = kind;
  number(fn);
  if (kind == 2)
    number(label);
}
// A log with little room.
VF_ENTRY full() {
  unsigned room = vf_concretize(vf_upto("room", 12));
  NoFile nf;
  auto mem = fresh(room + 4);
  for (unsigned i = 0; i < 4; i++)
    mem[room + i] = 0xee;
  ControlFlowLog log(SectionArg<NoFile>{nf, mem.first(room)});
  for (unsigned i = 0; i < 2; i++) {
    unsigned kind = vf_concretize(vf_upto("kind", 2));
    uint32_t fn = SYM32("function"), label = SYM32("label");
    expect(kind, fn, label);
    vf_exit_ok(nlog > room);
    if (kind == 0)
      log.enter_function(fn);
    else if (kind == 1)
      log.leave_function(fn);
    else
      log.tainted_control_flow(label, fn);
    vf_exit_ok(0);
    vf_assert(nlog <= room, "an event is never dropped silently");
    vf_assert(log.size() == nlog, "each event is stored once");
    for (unsigned k = 0; k < nlog; k++)
      vf_assert(mem[k] == want[k], "events are stored in order");
    for (unsigned k = 0; k < 4; k++)
      vf_assert(mem[room + k] == 0xee, "nothing is written outside the log");
  }
  vf_cover("fits");
}
static void run(unsigned n, bool small) {
  auto *t = start();
  for (unsigned i = 0; i < n; i++) {
    unsigned kind = vf_concretize(vf_upto("kind", 2));
    uint32_t fn = SYM32("function"), label = SYM32("label");
    if (small)
      vf_assume((int)(fn < 128) & (int)(label < 128));
    event(*t, kind, fn, label);
    expect(kind, fn, label);
    vf_output_u64("kind", kind);
    vf_output_u64("function", fn);
    vf_output_u64("label", label);
  }
  finish();
  vf_assert(out.size(8) == nlog, "each event is stored once");
  for (unsigned k = 0; k < nlog; k++)
    vf_assert(out.at(8)[k] == want[k], "events are stored in order");
  vf_output("log", out.at(8), out.size(8));
}
// @paths
VF_ENTRY any_numbers() {
  run(2, false);
  vf_cover("done");
}
// @paths
VF_ENTRY sequences() {
  run(BOUND(4, 5), true);
  vf_cover("done");
}
