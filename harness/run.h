// The whole runtime, started the way an instrumented program starts it.
#pragma once
#include "pt.h"
#include <stdio.h>
#include <stdarg.h>
extern "C" {
// settings of the environment
const char *env_stdin, *env_stdout, *env_stderr, *env_argv, *env_db;
static bool same(const char *a, const char *b) {
  while (*a && *a == *b)
    a++, b++;
  return *a == *b;
}
char *vfx_getenv(const char *n) {
  if (same(n, "POLYTRACKER_STDIN_SOURCE"))
    return (char *)env_stdin;
  if (same(n, "POLYTRACKER_STDOUT_SINK"))
    return (char *)env_stdout;
  if (same(n, "POLYTRACKER_STDERR_SINK"))
    return (char *)env_stderr;
  if (same(n, "POLYTRACKER_TAINT_ARGV"))
    return (char *)env_argv;
  if (same(n, "POLYDB"))
    return (char *)env_db;
  return nullptr;
}
int vfx_printf(const char *, ...) { return 0; }
int vfx_puts(const char *) { return 0; }
int vfx_putchar(int) { return 0; }
#ifndef PT_OWN_ATEXIT
int vfx_atexit(void (*)()) { return 0; }
#endif
void __taint_start();
void __polytracker_taint_argv(int, char **);
}
void polytracker_end();
static uint64_t std_files[3][64];
static inline void standard_streams() {
  stdin = (FILE *)std_files[0];
  stdout = (FILE *)std_files[1];
  stderr = (FILE *)std_files[2];
}
extern bool polytracker_taint_argv;
