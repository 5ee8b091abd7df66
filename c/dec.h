/* Contracts of the decoder API.  The state of a decoder is given by its public
 * struct: the input is buf_p[pos .. size - 1]; after a failure both size and
 * pos are minus the error. */
#ifndef DEC_H
#define DEC_H
#include "spec.h"

#undef bool

int g_size, g_pos;       /* entry state */
int g_wt;                /* wire type given by the caller */
int g_avail;             /* bytes left on entry, 0 in a failed decoder */
uint8_t g_b[10];         /* the first bytes left on entry */
int g_scan;
uint64_t g_value;
int g_j;                 /* an arbitrary position in the input (frame) */
uint8_t g_jv;

#define ERR_WIRE     (-PBTOOLS_BAD_WIRE_TYPE)
#define ERR_DATA     (-PBTOOLS_OUT_OF_DATA)
#define ERR_MEMORY   (-PBTOOLS_OUT_OF_MEMORY)
#define ERR_FIELD    (-PBTOOLS_BAD_FIELD_NUMBER)
#define ERR_VARINT   (-PBTOOLS_VARINT_OVERFLOW)
#define ERR_LENGTH   (-PBTOOLS_LENGTH_DELIMITED_OVERFLOW)

#define DEC_FAILED(d) \
    ((d)->size == (d)->pos && (d)->pos < 0 && (d)->pos >= -8)
#define DEC_FAILED_WITH(d, e) ((d)->size == (e) && (d)->pos == (e))
#define DEC_OK(d) \
    ((d)->size >= 0 && (d)->size <= MAXBUF \
     && (d)->pos >= 0 && (d)->pos <= (d)->size)

#define B_TIE(i) (g_avail > (i) ==> g_b[i] == self_p->buf_p[g_pos + (i)])

#define DEC_REQUIRES \
    __CPROVER_requires(__CPROVER_is_fresh(self_p, sizeof(*self_p))) \
    __CPROVER_requires(DEC_FAILED(self_p) || DEC_OK(self_p)) \
    __CPROVER_requires(__CPROVER_is_fresh(self_p->buf_p, \
                           self_p->size >= 0 ? self_p->size : 0)) \
    __CPROVER_requires(g_size == self_p->size && g_pos == self_p->pos) \
    __CPROVER_requires(g_avail == g_size - g_pos) \
    __CPROVER_requires(B_TIE(0) && B_TIE(1) && B_TIE(2) && B_TIE(3) \
                       && B_TIE(4) && B_TIE(5) && B_TIE(6) && B_TIE(7) \
                       && B_TIE(8) && B_TIE(9)) \
    __CPROVER_requires(g_scan == spec_vscan(g_b, g_avail)) \
    __CPROVER_requires(g_value == spec_vvalue(g_b, g_scan)) \
    __CPROVER_requires((g_j >= 0 && g_j < g_size) \
                       ==> g_jv == self_p->buf_p[g_j])

#define DEC_ASSIGNS __CPROVER_assigns(self_p->pos, self_p->size)

/* a failure is sticky, the input never changes */
#define DEC_ENSURES_FRAME \
    __CPROVER_ensures(g_size < 0 ==> DEC_FAILED_WITH(self_p, g_size)) \
    __CPROVER_ensures((g_j >= 0 && g_j < g_size) \
                      ==> self_p->buf_p[g_j] == g_jv)

#define DEC_ENSURES_ERR(COND, ERR) \
    __CPROVER_ensures((g_size >= 0 && (COND)) \
                      ==> DEC_FAILED_WITH(self_p, ERR))

#define DEC_ENSURES_OK(COND, N) \
    __CPROVER_ensures((g_size >= 0 && (COND)) \
        ==> (self_p->size == g_size && self_p->pos == g_pos + (N)))

/* length of the varint at the read position (0: truncated, -1: too long) and
 * its value */
#define SCAN g_scan
#define VALUE g_value

#define PROBE(COND) __CPROVER_ensures(0x50524f42 && !(COND))

#define HAVOC_GHOSTS \
    { int a, b, c, d, e, f; uint8_t u; uint8_t v[10]; uint64_t w; \
      g_size = a; g_pos = b; g_wt = c; g_avail = d; g_j = e; g_jv = u; \
      g_scan = f; g_value = w; \
      for (int k = 0; k < 10; k++) g_b[k] = v[k]; }

#endif
