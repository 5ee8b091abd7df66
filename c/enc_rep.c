/* Writing packed repeated fields, any number of items.  Compiled once per item
 * type: ITEM, ELEM, KIND and PAYLOAD(x) are given on the command line. */
#include <stdint.h>
#include <stdbool.h>
#include "spec.h"

/* ghosts of the loop: bytes of the items written so far, and the distance of
 * the first byte of item g_k from the end of the content */
int64_t g_sum, g_off;
int g_k;
int g_klen;             /* its size */
uint8_t g_kbyte;        /* its byte at g_i */
int g_n;
extern int g_size, g_pos, g_j, g_i;
extern uint8_t g_jv;
extern uint64_t g_payload;

#define ITEMLEN(x) spec_paylen(KIND, PAYLOAD(x))
#define LOOP_OK(e) (g_size >= 0 && g_sum <= (int64_t)g_pos + 1)
#define BUF_AT(e, x) ((e)->buf_p[x])

#define REP_LOOP(i, ...) \
__CPROVER_assigns(__VA_ARGS__, self_p->pos, self_p->size, g_sum, g_off, g_cell; \
    self_p->size > 0: __CPROVER_object_whole(self_p->buf_p)) \
__CPROVER_loop_invariant(i >= -1 && i < g_n) \
__CPROVER_loop_invariant(g_sum >= 0 && g_sum <= 10 * ((int64_t)g_n - 1 - i) \
                         && g_sum >= (int64_t)g_n - 1 - i) \
__CPROVER_loop_invariant(LOOP_OK(self_p) \
    ? (self_p->size == g_size && self_p->pos == g_pos - g_sum) \
    : (self_p->size == -PBTOOLS_ENCODE_BUFFER_FULL \
       && self_p->pos == -PBTOOLS_ENCODE_BUFFER_FULL)) \
__CPROVER_loop_invariant((g_j >= 0 && (g_j > g_pos \
        || (self_p->size >= 0 && g_j <= self_p->pos))) \
    ==> BUF_AT(self_p, g_j) == g_jv) \
__CPROVER_loop_invariant((i < g_k && g_k >= 0 && g_k < g_n) \
    ? (g_off <= g_sum && g_off >= g_klen && (i == g_k - 1 ==> g_off == g_sum) \
       && g_cell == (int64_t)g_pos + 1 - g_off + g_i) : g_cell == -1) \
__CPROVER_loop_invariant((i < g_k && g_k >= 0 && g_k < g_n && LOOP_OK(self_p) \
        && !g_inhead && g_i >= 0 && g_i < g_klen) \
    ==> BUF_AT(self_p, g_pos + 1 - g_off + g_i) \
        == g_kbyte) \
__CPROVER_decreases(i + 1)

#define REP_BEGIN(i) \
    { if (i == g_k && self_p->size >= 0) \
          g_cell = (int64_t)self_p->pos + 1 - g_klen + g_i; }
#define REP_END(i) \
    { g_sum += ITEMLEN(((ELEM *)repeated_p->items_p)[i]); \
      if (i == g_k) { g_off = g_sum; g_cell = g_pos + 1 - g_off + g_i; } }

uint8_t *g_bufp;        /* the output buffer */
extern int g_field;
#define SPEC_TAGLEN SPEC_VLEN((uint64_t)(uint32_t)g_field * 8u + K_LEN)
int64_t g_cell = -1;    /* where the byte of item g_k is */
_Bool g_inhead;         /* whether a byte of the header is looked at instead */
#define TRACK2 (g_inhead ? (int64_t)g_pos + 1 - (SPEC_TAGLEN \
                           + SPEC_VLEN((uint64_t)g_sum) + g_sum) + g_i : g_cell)
#include "track.h"
#include "pbtools.c"
#include "specmode.h"
#include "enc.h"

#define CAT(a, b) a##b
#define XCAT(a, b) CAT(a, b)
#define FN XCAT(pbtools_encoder_write_repeated_, ITEM)
#define CONTRACT XCAT(FN, _contract)
#define REPSTRUCT struct XCAT(XCAT(pbtools_repeated_, STRUCT), _t)

#define HEADLEN (spec_vlen(spec_tag(g_field, K_LEN)) + spec_vlen((uint64_t)g_sum))
#define TOTAL (HEADLEN + g_sum)
#define HEADBYTE(I) \
    ((I) < spec_vlen(spec_tag(g_field, K_LEN)) \
     ? spec_vbyte(spec_tag(g_field, K_LEN), (I)) \
     : spec_vbyte((uint64_t)g_sum, (I) - spec_vlen(spec_tag(g_field, K_LEN))))
#define DONE (g_size >= 0 && g_n > 0 && TOTAL <= (int64_t)g_pos + 1)

void CONTRACT(struct pbtools_encoder_t *self_p, int field_number,
              REPSTRUCT *repeated_p)
ENC_REQUIRES
__CPROVER_requires(__CPROVER_is_fresh(repeated_p, sizeof(*repeated_p)))
__CPROVER_requires(g_n >= 0 && g_n <= (int)(MAXITEMS / sizeof(ELEM)))
__CPROVER_requires(repeated_p->length == g_n)
__CPROVER_requires(__CPROVER_is_fresh(repeated_p->items_p, g_n * sizeof(ELEM)))
__CPROVER_requires((g_k >= 0 && g_k < g_n)
                   ==> g_payload == PAYLOAD(repeated_p->items_p[g_k]))
__CPROVER_requires(__CPROVER_pointer_equals(g_bufp, self_p->buf_p))
__CPROVER_requires(g_sum == 0 && g_cell == -1 && g_i >= -1)
__CPROVER_requires(g_klen == spec_paylen(KIND, g_payload)
                   && ((g_i >= 0 && g_i < g_klen)
                       ==> g_kbyte == spec_paybyte(KIND, g_payload, g_i)))
ENC_ASSIGNS
__CPROVER_assigns(g_sum, g_off, g_cell)
ENC_ENSURES_FRAME
ENC_ENSURES_LEN(g_n == 0, TOTAL)
/* one length delimited record ... */
__CPROVER_ensures((DONE && g_inhead && g_i >= 0 && g_i < HEADLEN)
    ==> self_p->buf_p[g_pos + 1 - TOTAL + g_i] == HEADBYTE(g_i))
/* ... that holds every item, in order and without gaps: the content from item
 * g_k on has g_off bytes, the sum of the sizes of item g_k and those behind */
__CPROVER_ensures((DONE && !g_inhead && g_k >= 0 && g_k < g_n && g_i >= 0
                   && g_i < g_klen)
    ==> self_p->buf_p[g_pos + 1 - g_off + g_i] == g_kbyte)
__CPROVER_ensures((DONE && g_k == 0) ==> g_off == g_sum)
PROBE(DONE && g_n > 3 && g_k == 1)
PROBE(g_size >= 0 && self_p->size < 0)
PROBE(g_size >= 0 && g_n == 0)
PROBE(g_size < 0 && g_n > 1)
PROBE(DONE && self_p->pos == -1 && g_n > 3)
;
void h_rep(void)
{
    struct pbtools_encoder_t *self_p; int field_number;
    REPSTRUCT *repeated_p; int n, k;
    HAVOC_GHOSTS
    g_n = n; g_k = k; g_sum = 0; { int a; uint8_t b; g_klen = a; g_kbyte = b; }
    { _Bool b; g_inhead = b; }
    FN(self_p, field_number, repeated_p);
}
