// Shared by the replay drivers: search for a concrete failing input against the real code.
#pragma once
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <random>
#include <stdexcept>
static std::mt19937_64 rng(12345);
static inline uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
static void (*on_fail)() = nullptr;   // clean up
[[noreturn]] static inline void FAIL(const char *f, ...) {
  va_list a;
  va_start(a, f);
  printf("FAILING INPUT: ");
  vprintf(f, a);
  printf("\n");
  fflush(stdout);
  if (on_fail) on_fail();
  _Exit(1);
}
static inline std::string hex(const void *p, size_t n) {
  std::string s;
  char b[4];
  for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", ((const unsigned char *)p)[i]); s += b; }
  return s;
}
