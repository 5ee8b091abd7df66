/* Assumed contracts of the C library functions pbtools.c calls, as executable
 * specifications.  Up to SMALL bytes are copied exactly.  Larger blocks are
 * copied at the tracked offsets g_t1 and g_t2 of the destination object only:
 * these are arbitrary (chosen before the call), no other cell of the
 * destination is looked at by the contracts, and the cells not copied keep
 * their arbitrary value.  Validity of both blocks is asserted in full. */
#ifndef LIBC_H
#define LIBC_H
#include <stdint.h>
#include <stddef.h>

#define SMALL 10

/* the accesses below are inside the blocks asserted to be valid */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"

int64_t g_t1 = -1, g_t2 = -1;

static void tracked_copy(char *d, const char *s, size_t n, int64_t t)
{
    int64_t o = (int64_t)__CPROVER_POINTER_OFFSET(d);

    if (t >= o && t - o < (int64_t)n)
        d[t - o] = s[t - o];
}

#define CP(i) if (n > i) d[i] = s[i];
void *memcpy(void *dst, const void *src, size_t n)
{
    char *d = dst; const char *s = src;

    __CPROVER_assert(n == 0 || __CPROVER_w_ok(dst, n), "memcpy destination");
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(src, n), "memcpy source");

#ifndef TRACK_ONE
    if (n <= SMALL) {
        CP(0) CP(1) CP(2) CP(3) CP(4) CP(5) CP(6) CP(7) CP(8) CP(9)
    } else {
        tracked_copy(d, s, n, g_t1);
        tracked_copy(d, s, n, g_t2);
    }
#else
    tracked_copy(d, s, n, g_t1);
#endif

    return dst;
}
#undef CP

/* a move has one tracked cell only, so that overlap needs no care */
void *memmove(void *dst, const void *src, size_t n)
{
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(dst, n), "memmove destination");
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(src, n), "memmove source");
    tracked_copy(dst, src, n, g_t1);

    return dst;
}

void *memset(void *dst, int c, size_t n)
{
    char *d = dst;
    int64_t o = (int64_t)__CPROVER_POINTER_OFFSET(d);

    __CPROVER_assert(n == 0 || __CPROVER_w_ok(dst, n), "memset destination");

    if (g_t1 >= o && g_t1 - o < (int64_t)n)
        d[g_t1 - o] = (char)c;

#ifndef TRACK_ONE
    if (g_t2 >= o && g_t2 - o < (int64_t)n)
        d[g_t2 - o] = (char)c;
#endif

    return dst;
}


#pragma CPROVER check pop

#define HAVOC_TRACKED { int64_t a, b; g_t1 = a; g_t2 = b; }

#endif
