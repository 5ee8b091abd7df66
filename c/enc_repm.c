/* Writing repeated nested messages, any number of items.  The nested encoder
 * is any function that meets the contract every generated encoder is shown to
 * meet: it puts some bytes in front, or fails.  ITEMSIZE, the size of the item
 * structure, is a constant of the caller (sizeof). */
#include <stdint.h>
#include <stdbool.h>
#include "spec.h"

int64_t g_sum, g_off;
int g_k, g_n;
extern int g_size, g_pos, g_j, g_i, g_field;
extern uint8_t g_jv, g_cv;
extern int64_t g_len;
int64_t g_last;            /* size of the item just written */
_Bool g_bad;               /* a nested encoder failed */
uint64_t g_itemoff;        /* expected offset of the item written last */
uint64_t g_itemsize;
int g_calls;
char *g_base;
int g_khead;               /* bytes of tag and length of item g_k */
uint8_t *g_bufp;           /* the output buffer */
int64_t g_x;               /* a position in the record of item g_k */
uint8_t g_xv;              /* the byte there */
int64_t g_cell = -1;       /* where this byte is, once written */

#define HEADLEN(n) \
    (SPEC_VLEN((uint64_t)(uint32_t)g_field * 8u + K_LEN) + SPEC_VLEN((uint64_t)(n)))
#define KVALID (g_k >= 0 && g_k < g_n)
#define XVALID (g_x >= 0 && g_x < g_khead + g_len)
#define TRACK2 g_cell
#include "track.h"

#define OKAY (g_size >= 0 && !g_bad && g_sum <= (int64_t)g_pos + 1)

#define REPM_LOOP(i, ...) \
__CPROVER_assigns(__VA_ARGS__, encoder_p->pos, encoder_p->size, g_sum, g_off, \
    g_last, g_bad, g_itemoff, g_calls, g_cell; \
    encoder_p->size > 0: __CPROVER_object_whole(encoder_p->buf_p)) \
__CPROVER_loop_invariant(i >= 0 && i <= g_n && g_calls == i) \
__CPROVER_loop_invariant(g_sum >= 2 * (int64_t)i \
                         && g_sum <= ((int64_t)i << 32)) \
__CPROVER_loop_invariant(item_p == g_base + g_itemoff) \
__CPROVER_loop_invariant(OKAY \
    ? (encoder_p->size == g_size && encoder_p->pos == g_pos - g_sum) \
    : (encoder_p->size == -PBTOOLS_ENCODE_BUFFER_FULL \
       && encoder_p->pos == -PBTOOLS_ENCODE_BUFFER_FULL)) \
__CPROVER_loop_invariant((g_j >= 0 && (g_j > g_pos \
        || (encoder_p->size >= 0 && g_j <= encoder_p->pos))) \
    ==> encoder_p->buf_p[g_j] == g_jv) \
__CPROVER_loop_invariant((g_n - i <= g_k && KVALID) \
    ? (g_off <= g_sum && g_off >= g_khead + g_len \
       && g_cell == g_pos + 1 - g_off + g_x \
       && (g_n - i == g_k ==> g_off == g_sum)) \
    : g_cell == -1) \
__CPROVER_loop_invariant((g_n - i <= g_k && KVALID && OKAY && XVALID) \
    ==> encoder_p->buf_p[g_cell] == g_xv) \
__CPROVER_decreases(g_n - i)

#define REPM_BEGIN(i) \
    { if (g_n - 1 - i == g_k && encoder_p->size >= 0) \
          g_cell = (int64_t)encoder_p->pos + 1 - (g_khead + g_len) + g_x; }
#define REPM_END(i) \
    { g_sum += HEADLEN(g_last) + g_last; \
      if (g_n - 1 - i == g_k) { g_off = g_sum; g_cell = g_pos + 1 - g_off + g_x; } }

#include "pbtools.c"
#include "specmode.h"
#include "enc.h"

#define HEADBYTE(I) \
    ((I) < spec_vlen(spec_tag(g_field, K_LEN)) \
     ? spec_vbyte(spec_tag(g_field, K_LEN), (I)) \
     : spec_vbyte((uint64_t)g_len, (I) - spec_vlen(spec_tag(g_field, K_LEN))))

static void item_encode(struct pbtools_encoder_t *encoder_p, void *msg_p)
{
    int64_t len; _Bool fails;

    __CPROVER_assume(len >= 0 && len < MAXBUF);

    if (g_calls == g_n - 1 - g_k)
        len = g_len;

    g_itemoff -= g_itemsize;
    __CPROVER_assert((char *)msg_p == g_base + g_itemoff,
                     "items are encoded from the last to the first");
    g_calls++;
    g_last = len;

    if (fails)
        g_bad = 1;

    if (encoder_p->size >= 0) {
        if (fails || len > (int64_t)encoder_p->pos + 1) {
            encoder_p->size = -PBTOOLS_ENCODE_BUFFER_FULL;
            encoder_p->pos = -PBTOOLS_ENCODE_BUFFER_FULL;
        } else {
            encoder_p->pos -= (int)len;

            /* the bytes are any, but for the one at hand */
            if (g_calls - 1 == g_n - 1 - g_k && g_x >= g_khead
                && g_x - g_khead < len)
                encoder_p->buf_p[encoder_p->pos + 1 + g_x - g_khead] = g_xv;
        }
    }
}

#define self_p encoder_p
#define DONE (OKAY && g_n > 0)
void pbtools_encode_repeated_inner_contract(
    struct pbtools_encoder_t *encoder_p, int field_number,
    struct pbtools_repeated_message_t *repeated_p, size_t item_size,
    pbtools_message_encode_inner_t message_encode_inner)
ENC_REQUIRES
__CPROVER_requires(__CPROVER_is_fresh(repeated_p, sizeof(*repeated_p)))
__CPROVER_requires(item_size == ITEMSIZE && g_itemsize == ITEMSIZE)
__CPROVER_requires(g_n >= 0 && g_n <= MAXBUF && repeated_p->length == g_n)
__CPROVER_requires(__CPROVER_is_fresh(repeated_p->items_p, 1))
__CPROVER_requires(g_base == (char *)repeated_p->items_p
                   && g_itemoff == (uint64_t)g_n * ITEMSIZE)
__CPROVER_requires(g_len >= 0 && g_len < MAXBUF && g_khead == HEADLEN(g_len))
__CPROVER_requires((g_x >= 0 && g_x < g_khead) ==> g_xv == HEADBYTE((int)g_x))
__CPROVER_requires(__CPROVER_pointer_equals(g_bufp, self_p->buf_p))
__CPROVER_requires(g_sum == 0 && g_calls == 0 && !g_bad && g_cell == -1)
ENC_ASSIGNS
__CPROVER_assigns(g_sum, g_off, g_last, g_bad, g_itemoff, g_calls, g_cell)
ENC_ENSURES_FRAME
/* every item is encoded once; each as a record of its own */
__CPROVER_ensures(g_calls == g_n)
__CPROVER_ensures((g_size >= 0 && g_n == 0)
    ==> (self_p->size == g_size && self_p->pos == g_pos))
__CPROVER_ensures((g_size >= 0 && g_n > 0 && !OKAY) ==> ENC_FAILED(self_p))
__CPROVER_ensures(DONE
    ==> (self_p->size == g_size && self_p->pos == g_pos - g_sum))
__CPROVER_ensures((DONE && KVALID && XVALID)
    ==> self_p->buf_p[g_pos + 1 - g_off + g_x] == g_xv)
__CPROVER_ensures((DONE && g_k == 0) ==> g_off == g_sum)
PROBE(DONE && g_n > 3 && g_k == 1 && g_len > 200 && g_x == 100)
PROBE(g_size >= 0 && self_p->size < 0 && g_bad)
PROBE(g_size >= 0 && self_p->size < 0 && !g_bad)
PROBE(g_size >= 0 && g_n == 0)
PROBE(g_size < 0 && g_n > 1)
PROBE(DONE && self_p->pos == -1 && g_n > 3)
;
#undef self_p
void h_repm(void)
{
    struct pbtools_encoder_t *encoder_p; int field_number;
    struct pbtools_repeated_message_t *repeated_p; size_t item_size = ITEMSIZE;
    int n, k, h; int64_t x; uint8_t xv; uint64_t o; char *b;
    HAVOC_GHOSTS
    __CPROVER_assume(x >= -1 && x <= 1ll << 40);
    g_n = n; g_k = k; g_sum = 0; g_calls = 0; g_bad = 0; g_khead = h;
    g_x = x; g_xv = xv; g_itemsize = ITEMSIZE; g_itemoff = o; g_base = b;
    pbtools_encode_repeated_inner(encoder_p, field_number, repeated_p,
                                  item_size, item_encode);
}
