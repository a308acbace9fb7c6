/* Native side of the symbolic primitives: replays a recorded input.
 * HARNESS_INPUT: file with the concatenated symbolic bytes; HARNESS_OUT: file
 * that receives one line per event. Exit codes: 3 assertion failed, 4 an
 * assumption does not hold, 5 input exhausted. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdbool.h>
#include <string.h>
static FILE *in, *out;
static void open_all(void) {
  static int done; if (done) return; done = 1;
  const char *i = getenv("HARNESS_INPUT"), *o = getenv("HARNESS_OUT");
  in = i ? fopen(i, "rb") : 0; out = o ? fopen(o, "w") : stdout;
}
static uint8_t next(void) { open_all(); if (!in) return 0; int c = fgetc(in); if (c == EOF) return 0; return (uint8_t)c; }
void sym_bytes(uint8_t *p, size_t n) { for (size_t k = 0; k < n; k++) p[k] = next(); }
uint64_t sym_var(uint32_t n) { uint64_t v = 0; for (uint32_t k = 0; k < n; k++) v |= (uint64_t)next() << (8 * k); return v; }
void sym_assume(bool c) { if (!c) { open_all(); fprintf(out, "assume\n"); fflush(out); _Exit(4); } }
void sym_assert(bool c, const char *p, size_t n) { open_all(); if (!c) { fprintf(out, "assert %.*s\n", (int)n, p); fflush(out); _Exit(3); } }
void sym_cover(const char *p, size_t n) { (void)p; (void)n; }
void sym_observe(uint64_t v) { open_all(); fprintf(out, "o %llu\n", (unsigned long long)v); fflush(out); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_fmt_real(void) {}
void sym_empty_string(const uint8_t *p) { (void)p; }
