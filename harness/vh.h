/* Shared harness vocabulary.  One source text serves two purposes:
 *   - compiled to LLVM bitcode (-DSYMX), every sym_*() is a solver variable and
 *     CHECK is an assertion decided for all values within the harness bounds;
 *   - compiled natively (replay), sym_*() reads the values of one solver
 *     assignment back from a file, so a counterexample (or a reachability
 *     witness, or a sampled path) runs on the real code under sanitizers.
 */
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define VH_UNUSED __attribute__((unused))

#ifdef SYMX
unsigned char __symx_sym_u8(void);
unsigned short __symx_sym_u16(void);
unsigned int __symx_sym_u32(void);
unsigned long __symx_sym_u64(void);
void __symx_assume(int);
void __symx_check(int, const char *);
void __symx_cover(const char *);
void __symx_observe(unsigned long);
unsigned int __symx_choose(unsigned int, unsigned int);
unsigned long __symx_allocsize(const void *);
unsigned long __symx_concrete(unsigned long);
int __symx_initialised(const void *, unsigned long);
#define sym_u8 __symx_sym_u8
#define sym_u16 __symx_sym_u16
#define sym_u32 __symx_sym_u32
#define sym_u64 __symx_sym_u64
#define ASSUME(c) __symx_assume(!!(c))
#define CHECK(c, msg) __symx_check(!!(c), msg)
#define COVER(label) __symx_cover(label)
#define COVER_IF(c, label) do { if (c) __symx_cover(label); } while (0)
#define OBSERVE(v) __symx_observe((unsigned long)(v))
/* a value in [lo,hi]; the engine explores each one on its own path */
#define CHOOSE(lo, hi) __symx_choose((lo), (hi))
#define CONCRETE(v) __symx_concrete((unsigned long)(v))
#define INITIALISED(p, n) __symx_initialised((p), (n))
#else
#include <unistd.h>
static FILE *vh_f;
static VH_UNUSED unsigned long vh_next(void)
{
  unsigned long v = 0;
  if (!vh_f) {
    const char *fn = getenv("VH_INPUT");
    vh_f = fopen(fn ? fn : "/dev/null", "r");
    if (!vh_f) { fprintf(stderr, "VHREPLAY NOINPUT\n"); _Exit(78); }
  }
  if (fscanf(vh_f, "%lu", &v) != 1) { fprintf(stderr, "VHREPLAY INPUT-EXHAUSTED\n"); v = 0; }
  return v;
}
static VH_UNUSED unsigned char sym_u8(void) { return (unsigned char) vh_next(); }
static VH_UNUSED unsigned short sym_u16(void) { return (unsigned short) vh_next(); }
static VH_UNUSED unsigned int sym_u32(void) { return (unsigned int) vh_next(); }
static VH_UNUSED unsigned long sym_u64(void) { return vh_next(); }
static VH_UNUSED void vh_say(const char *k, const char *m, const char *f, long l)
{ fprintf(stderr, "VHREPLAY %s:%s (%s:%ld)\n", k, m, f, l); fflush(stderr); }
#define ASSUME(c) do { if (!(c)) { vh_say("ASSUME-FALSE", #c, __FILE__, __LINE__); _Exit(77); } } while (0)
#define CHECK(c, msg) do { if (!(c)) { vh_say("FAIL", msg, __FILE__, __LINE__); _Exit(1); } } while (0)
#define COVER(label) vh_say("COVER", label, __FILE__, __LINE__)
#define COVER_IF(c, label) do { if (c) vh_say("COVER", label, __FILE__, __LINE__); } while (0)
#define OBSERVE(v) fprintf(stderr, "VHREPLAY OBS %lu\n", (unsigned long)(v))
static VH_UNUSED unsigned int vh_choose(unsigned int lo, unsigned int hi)
{ unsigned int v = sym_u32(); ASSUME(v >= lo && v <= hi); return v; }
#define CHOOSE(lo, hi) vh_choose((lo), (hi))
#define CONCRETE(v) ((unsigned long)(v))
#define INITIALISED(p, n) 1
#endif

/* value in [lo,hi], kept symbolic */
static VH_UNUSED unsigned int sym_range(unsigned int lo, unsigned int hi)
{ unsigned int v = sym_u32(); ASSUME(v >= lo && v <= hi); return v; }
static VH_UNUSED int sym_bool(void)
{ unsigned char v = sym_u8(); ASSUME(v <= 1); return v; }
/* branch-free boolean helpers for reference models: no path fork */
static VH_UNUSED int vand(int a, int b) { return (a != 0) & (b != 0); }
static VH_UNUSED int vor(int a, int b) { return (a != 0) | (b != 0); }

/* n arbitrary bytes in a block of exactly n bytes */
static VH_UNUSED unsigned char *sym_block(size_t n)
{ size_t i; unsigned char *p = malloc(n ? n : 1); for (i = 0; i < n; i++) p[i] = sym_u8(); return p; }
/* a string of exactly n arbitrary non-NUL bytes, in a block of n+1 */
static VH_UNUSED char *sym_str(size_t n)
{ size_t i; char *p = malloc(n + 1); for (i = 0; i < n; i++) { p[i] = (char) sym_u8(); ASSUME(p[i] != 0); } p[n] = 0; return p; }

/* globals and helpers that mairix.c defines in the real program */
#ifndef VH_NO_GLOBALS
int verbose = 0;
int do_hardlinks = 0;
void out_of_mem(char *file, int line, size_t size) { ASSUME(0); }
void report_error(const char *str, const char *filename) { }
#endif

/* The "give up with a diagnostic" exit of the program: by default simply the
 * end of the run.  A harness whose inputs must be handled defines
 * VH_EXIT_IS_FAILURE. */
#ifndef VH_NO_EXIT
void unlock_and_exit(int code)
{
#ifdef VH_EXIT_IS_FAILURE
  CHECK(0, "program gave up with an error on an input it must handle");
#endif
#ifdef VH_ON_EXIT
  VH_ON_EXIT(code);
#endif
  exit(0);
}
#endif

void harness(void);
#ifndef SYMX
int main(void) { harness(); vh_say("DONE", "end", "", 0); return 0; }
#endif
#endif
