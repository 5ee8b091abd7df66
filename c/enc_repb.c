/* Writing repeated strings (with -DSTRING) and bytes, any number of items of
 * any size.  The content of items is not kept in memory: the block g_blob
 * stands for the content of the item at hand, of g_curlen bytes (the assumption
 * at the start of the loop body gives its name, no other item is accessible
 * during that iteration), and copying it copies arbitrary bytes, except for the
 * one byte of item g_k at hand. */
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include "spec.h"

int64_t g_sum, g_off;
int g_k, g_n, g_cur;
extern int g_size, g_pos, g_j, g_i, g_field;
extern uint8_t g_jv, g_cv;
extern int64_t g_len;
int64_t g_curlen;          /* content size of the item at hand */
char *g_blob;
uint8_t *g_bufp;           /* the output buffer */
int64_t g_x;               /* a position in the record of item g_k */
uint8_t g_xv;              /* the byte there */
int g_khead;               /* bytes of tag and length of item g_k */
int64_t g_cell = -1;       /* where this byte is, once written */

#define HEADLEN(n) \
    (SPEC_VLEN((uint64_t)(uint32_t)g_field * 8u + K_LEN) + SPEC_VLEN((uint64_t)(n)))
#define OKAY (g_size >= 0 && g_sum <= (int64_t)g_pos + 1)
#define KVALID (g_k >= 0 && g_k < g_n)
#define XVALID (g_x >= 0 && g_x < g_khead + g_len)

#define TRACK2 g_cell
/* the content of an item: any bytes, but for the one at hand */
#define TRACK_SRC(d_off, src, n, t) \
    if ((src) == (const void *)g_blob) { \
        __CPROVER_assert((int64_t)(n) <= g_curlen, "memcpy source"); \
        if (g_cur == g_k && g_cell - (d_off) == g_x - g_khead) \
            v2 = (char)g_xv; \
    } else
#include "track.h"

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
size_t strlen(const char *s)
{
    __CPROVER_assert(s == g_blob, "strlen of the item at hand");
    return (size_t)g_curlen;
}
#pragma CPROVER check pop

#define LOOP(i, ...) \
__CPROVER_assigns(__VA_ARGS__, self_p->pos, self_p->size, g_sum, g_off, g_cur, \
    g_curlen, g_cell; \
    self_p->size > 0: __CPROVER_object_whole(self_p->buf_p)) \
__CPROVER_loop_invariant(i >= -1 && i < g_n) \
__CPROVER_loop_invariant(g_sum >= 2 * ((int64_t)g_n - 1 - i) \
                         && g_sum <= ((int64_t)g_n - 1 - i) << 32) \
__CPROVER_loop_invariant(OKAY \
    ? (self_p->size == g_size && self_p->pos == g_pos - g_sum) \
    : (self_p->size == -PBTOOLS_ENCODE_BUFFER_FULL \
       && self_p->pos == -PBTOOLS_ENCODE_BUFFER_FULL)) \
__CPROVER_loop_invariant((g_j >= 0 && (g_j > g_pos \
        || (self_p->size >= 0 && g_j <= self_p->pos))) \
    ==> self_p->buf_p[g_j] == g_jv) \
__CPROVER_loop_invariant((i < g_k && KVALID) \
    ? (g_off <= g_sum && g_off >= g_khead + g_len \
       && g_cell == g_pos + 1 - g_off + g_x && (i == g_k - 1 ==> g_off == g_sum)) \
    : g_cell == -1) \
__CPROVER_loop_invariant((i < g_k && KVALID && OKAY && XVALID) \
    ==> self_p->buf_p[g_cell] == g_xv) \
__CPROVER_decreases(i + 1)

#define BEGIN(i) \
    { if (i == g_k && self_p->size >= 0) \
          g_cell = (int64_t)self_p->pos + 1 - (g_khead + g_len) + g_x; }
#define END(i) \
    { g_sum += HEADLEN(g_curlen) + g_curlen; \
      if (i == g_k) { g_off = g_sum; g_cell = g_pos + 1 - g_off + g_x; } }

#ifdef STRING
#define FN pbtools_encoder_write_repeated_string
#define CONTRACT pbtools_encoder_write_repeated_string_contract
#define TYPE struct pbtools_repeated_string_t
#define ITEMS items_pp
#define ITEM char *
#define REPS_LOOP LOOP
#define REPS_BEGIN(i) \
    { int64_t l; __CPROVER_assume(l >= 0 && l < MAXBUF); \
      g_curlen = (i == g_k ? g_len : l); g_cur = i; \
      __CPROVER_assume(repeated_p->items_pp[i] == g_blob); BEGIN(i) }
#define REPS_END(i) END(i)
#else
#define FN pbtools_encoder_write_repeated_bytes
#define CONTRACT pbtools_encoder_write_repeated_bytes_contract
#define TYPE struct pbtools_repeated_bytes_t
#define ITEMS items_p
#define ITEM struct pbtools_bytes_t
#define REPB_LOOP LOOP
#define REPB_BEGIN(i) \
    { __CPROVER_assume(repeated_p->items_p[i].size < MAXBUF); \
      g_curlen = (int64_t)repeated_p->items_p[i].size; g_cur = i; \
      __CPROVER_assume((char *)repeated_p->items_p[i].buf_p == g_blob); BEGIN(i) }
#define REPB_END(i) END(i)
#endif

#include "pbtools.c"
#include "specmode.h"
#include "enc.h"

#define HEADBYTE(I) \
    ((I) < spec_vlen(spec_tag(g_field, K_LEN)) \
     ? spec_vbyte(spec_tag(g_field, K_LEN), (I)) \
     : spec_vbyte((uint64_t)g_len, (I) - spec_vlen(spec_tag(g_field, K_LEN))))
#define DONE (OKAY && g_n > 0)

void CONTRACT(struct pbtools_encoder_t *self_p, int field_number,
              TYPE *repeated_p)
ENC_REQUIRES
__CPROVER_requires(__CPROVER_is_fresh(repeated_p, sizeof(*repeated_p)))
__CPROVER_requires(g_n >= 0 && g_n <= MAXN && repeated_p->length == g_n)
__CPROVER_requires(__CPROVER_is_fresh(repeated_p->ITEMS, g_n * sizeof(ITEM)))
__CPROVER_requires(__CPROVER_pointer_equals(g_bufp, self_p->buf_p))
__CPROVER_requires(__CPROVER_is_fresh(g_blob, 1))
__CPROVER_requires(g_len >= 0 && g_len < MAXBUF && g_khead == HEADLEN(g_len))
#ifndef STRING
__CPROVER_requires(KVALID ==> repeated_p->items_p[g_k].size == (size_t)g_len)
#endif
__CPROVER_requires((g_x >= 0 && g_x < g_khead) ==> g_xv == HEADBYTE((int)g_x))
__CPROVER_requires((g_x >= g_khead && g_x < g_khead + g_len) ==> g_xv == g_cv)
__CPROVER_requires(g_sum == 0 && g_cell == -1)
ENC_ASSIGNS
__CPROVER_assigns(g_sum, g_off, g_cur, g_curlen, g_cell)
ENC_ENSURES_FRAME
/* each item is a record of its own, in order and without gaps */
__CPROVER_ensures((g_size >= 0 && g_n == 0)
    ==> (self_p->size == g_size && self_p->pos == g_pos))
__CPROVER_ensures((g_size >= 0 && g_n > 0 && !OKAY) ==> ENC_FAILED(self_p))
__CPROVER_ensures(DONE
    ==> (self_p->size == g_size && self_p->pos == g_pos - g_sum))
__CPROVER_ensures((DONE && KVALID && XVALID)
    ==> self_p->buf_p[g_pos + 1 - g_off + g_x] == g_xv)
__CPROVER_ensures((DONE && g_k == 0) ==> g_off == g_sum)
PROBE(DONE && g_n > 3 && g_k == 1 && g_len > 200 && g_x == 100)
PROBE(g_size >= 0 && self_p->size < 0)
PROBE(g_size >= 0 && g_n == 0)
PROBE(g_size < 0 && g_n > 1)
PROBE(DONE && self_p->pos == -1 && g_n > 3)
;
void h_repb(void)
{
    struct pbtools_encoder_t *self_p; int field_number; TYPE *repeated_p;
    int n, k, h; int64_t x; uint8_t xv; char *b;
    HAVOC_GHOSTS
    g_n = n; g_k = k; g_sum = 0; g_khead = h; g_x = x; g_xv = xv; g_blob = b;
    __CPROVER_assume(x >= -1 && x <= 1ll << 40);
    FN(self_p, field_number, repeated_p);
}
