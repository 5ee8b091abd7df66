/* memcpy for loops of any number of items: an executable specification that
 * copies to the output buffer (the object of g_bufp) exactly, but at up to three tracked cells of the destination only
 * (g_j, TRACK2, TRACK3: offsets in the output buffer).  No other cell is looked
 * at by the contracts, all of which are stated for an arbitrary g_j, g_x, g_i
 * and g_k.  Validity of both blocks is asserted in full. */
#include <stdint.h>
#include <stddef.h>
#ifndef TRACK_SRC
#define TRACK_SRC(d_off, src, n, t)
#endif
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
#define CP(i) if (n > i) d[i] = s[i];
void *memcpy(void *dst, const void *src, size_t n)
{
    char *d = dst; const char *s = src;
    int64_t o = (int64_t)__CPROVER_POINTER_OFFSET(d), m = (int64_t)n;
    int64_t t1 = (int64_t)g_j - o, t2 = (int64_t)(TRACK2) - o;
    _Bool w1 = t1 >= 0 && t1 < m, w2 = t2 >= 0 && t2 < m;
    char v1, v2;
#ifdef TRACK3
    int64_t t3 = (int64_t)(TRACK3) - o;
    _Bool w3 = t3 >= 0 && t3 < m;
    char v3;
#endif

    __CPROVER_assert(n == 0 || __CPROVER_w_ok(dst, n), "memcpy destination");

    if (!__CPROVER_same_object(dst, g_bufp)) {
        __CPROVER_assert(n <= 10, "no other block than a number");
        __CPROVER_assert(n == 0 || __CPROVER_r_ok(src, n), "memcpy source");
        CP(0) CP(1) CP(2) CP(3) CP(4) CP(5) CP(6) CP(7) CP(8) CP(9)
        return dst;
    }

    TRACK_SRC(o, src, n, t)
    {
        __CPROVER_assert(n <= 10, "no other block than a number");
        __CPROVER_assert(n == 0 || __CPROVER_r_ok(src, n), "memcpy source");

        if (w1)
            v1 = s[t1];
        if (w2)
            v2 = s[t2];
#ifdef TRACK3
        if (w3)
            v3 = s[t3];
#endif
    }

    if (w1)
        d[t1] = v1;
    if (w2)
        d[t2] = v2;
#ifdef TRACK3
    if (w3)
        d[t3] = v3;
#endif

    return dst;
}
#pragma CPROVER check pop
