/* Native drivers: run the compiled code against spec.h on concrete inputs
 * (boundary values first, then pseudo random ones).  They replay verifier
 * counterexamples and serve as labelled bounded cross-checks; they prove
 * nothing. */
#ifndef UTIL_H
#define UTIL_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "pbtools.h"
#include "../spec.h"

static char now[4000];           /* the case being run */
static unsigned long cases;
static unsigned long long rng;
static const char *filter;

static inline uint64_t rnd(void)
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng;
}

static inline void at(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt); vsnprintf(now, sizeof(now), fmt, ap); va_end(ap);
    cases++;
}

static inline void fail(const char *fmt, ...)
{
    va_list ap;
    printf("FAIL %s\n  ", now);
    va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
    printf("\n");
    fflush(stdout);
    _Exit(1);
}

/* sanitizer reports end up here */
void __sanitizer_set_death_callback(void (*cb)(void));
static void dead(void)
{
    printf("FAIL %s\n  sanitizer report, see below\n", now);
    fflush(stdout);
}

static inline void hex(char *out, const uint8_t *p, int n)
{
    int i;
    out[0] = 0;
    for (i = 0; i < n && i < 400; i++) sprintf(out + 2 * i, "%02x", p[i]);
}

static inline int wanted(const char *name)
{
    return filter == NULL || strstr(filter, name) != NULL;
}

static inline void setup(int argc, char **argv)
{
    rng = 88172645463325252ull + 7919ull * (argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    filter = argc > 2 && argv[2][0] ? argv[2] : NULL;
    __sanitizer_set_death_callback(dead);
    strcpy(now, "startup");
}

/* interesting 64 bit patterns */
static const uint64_t V[] = {
    0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x3fff, 0x4000, 0x7fff, 0x8000,
    0xffff, 0x10000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0x7fffffff,
    0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001,
    0x1ffffffff, 0x7ffffffff, 0x800000000, 0x3ffffffffff, 0x40000000000,
    0x1ffffffffffff, 0x2000000000000, 0xffffffffffffff, 0x100000000000000,
    0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001,
    0xfffffffffffffffe, 0xffffffffffffffff, 0x3f800000, 0x7f800000,
    0x7fc00000, 0x7ff0000000000000, 0x3ff0000000000000, 0x12345678,
    0x123456789abcdef0, 0xffffffff80000000, 0xffffffff7fffffff,
    0x5555555555555555, 0xaaaaaaaaaaaaaaaa
};
#define NV ((int)(sizeof(V) / sizeof(V[0])))

static inline uint64_t value(int i)
{
    return i < NV ? V[i] : rnd() >> (rnd() % 64);
}

static const int FIELDS[] = { 1, 2, 15, 16, 17, 31, 127, 128, 2047, 2048, 2049,
    5000, 262143, 262144, 33554431, 33554432, 268435455, 268435456, 536870910,
    536870911 };
#define NF ((int)(sizeof(FIELDS) / sizeof(FIELDS[0])))

/* an exact heap block */
static inline uint8_t *block(size_t n)
{
    uint8_t *p = malloc(n);
    return p;
}
#endif
