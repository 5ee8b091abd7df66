/* Reading strings, bytes and nested messages. */
#define TRACK_ONE       /* only g_t1 is looked at below */
#include "libc.h"
#include "pbtools.c"
#include "specmode.h"
#include "dec.h"
#include "ws.h"

#define RET __CPROVER_return_value
#define HEAP self_p->heap_p

#define DECWS_REQUIRES \
DEC_REQUIRES \
WS_REQUIRES(HEAP) \
__CPROVER_requires(g_wt == wire_type)

#define DECWS_ENSURES \
DEC_ENSURES_FRAME \
__CPROVER_ensures((void *)HEAP == g_heap && WS_STATE_OK(HEAP)) \
__CPROVER_ensures(WS_KEEPS(HEAP))

void *g_heap;

/* the record is whole: length and that many bytes */
#define WHOLE (g_wt == K_LEN && SCAN > 0 && VALUE < INT_MAX \
               && VALUE <= (uint64_t)(g_avail - SCAN))

/* what is common to all length delimited records; FITS: the workspace has
 * room for the content */
#define LEN_ENSURES(FITS) \
DEC_ENSURES_ERR(g_wt != K_LEN && (FITS), ERR_WIRE) \
__CPROVER_ensures((g_size >= 0 && !WHOLE) ==> DEC_FAILED(self_p)) \
DEC_ENSURES_ERR(g_wt == K_LEN && SCAN == 0 && (FITS), ERR_DATA) \
DEC_ENSURES_ERR(g_wt == K_LEN && SCAN < 0 && (FITS), ERR_VARINT) \
DEC_ENSURES_ERR(g_wt == K_LEN && SCAN > 0 && VALUE >= INT_MAX && (FITS), \
                ERR_LENGTH) \
DEC_ENSURES_ERR(g_wt == K_LEN && SCAN > 0 && VALUE < INT_MAX && (FITS) \
                && VALUE > (uint64_t)(g_avail - SCAN), ERR_DATA) \
DEC_ENSURES_ERR(WHOLE && !(FITS), ERR_MEMORY)

#define STR_FITS WS_FITS(g_clamped + 1, 1)
uint64_t g_clamped;          /* the length, 0 if there is none */
#define CLAMP \
__CPROVER_requires(g_heap == (void *)HEAP) \
__CPROVER_requires(g_clamped == ((g_size >= 0 && g_wt == K_LEN && SCAN > 0 \
                                  && VALUE < INT_MAX) ? VALUE : 0))

void pbtools_decoder_read_string_contract(
    struct pbtools_decoder_t *self_p, int wire_type, char **value_pp)
DECWS_REQUIRES
CLAMP
__CPROVER_requires(__CPROVER_is_fresh(value_pp, sizeof(*value_pp)))
__CPROVER_assigns(self_p->pos, self_p->size, *value_pp,
                  __CPROVER_object_whole(HEAP))
DECWS_ENSURES
LEN_ENSURES(STR_FITS)
__CPROVER_ensures((g_size >= 0 && WHOLE && STR_FITS)
    ==> (self_p->size == g_size && self_p->pos == g_pos + SCAN + (int)VALUE))
__CPROVER_ensures((g_size >= 0 && WHOLE && STR_FITS)
    ==> WS_NEW(HEAP, *value_pp, VALUE + 1, 1))
__CPROVER_ensures((g_size >= 0 && WHOLE && STR_FITS)
    ==> (*value_pp)[VALUE] == 0)
__CPROVER_ensures((g_size >= 0 && WHOLE && STR_FITS
                   && g_t1 >= OFF(HEAP, *value_pp)
                   && g_t1 < OFF(HEAP, *value_pp) + (int64_t)VALUE
                   && g_j == g_pos + SCAN + (g_t1 - OFF(HEAP, *value_pp)))
    ==> ((uint8_t *)HEAP)[g_t1] == g_jv)
/* whatever the outcome, the pointer is null or points to something valid */
__CPROVER_ensures(*value_pp == NULL || WS_NEW(HEAP, *value_pp, 1, 1))
PROBE(g_size >= 0 && WHOLE && STR_FITS && VALUE > 300
      && g_t1 >= OFF(HEAP, *value_pp) + 200
      && g_t1 < OFF(HEAP, *value_pp) + (int64_t)VALUE
      && g_j == g_pos + SCAN + (g_t1 - OFF(HEAP, *value_pp)))
PROBE(g_size >= 0 && WHOLE && STR_FITS && VALUE == 0)
PROBE(g_size >= 0 && WHOLE && STR_FITS && HEAP->pos == g_hsize && VALUE > 20)
PROBE(g_size >= 0 && WHOLE && !STR_FITS)
PROBE(g_size >= 0 && WHOLE && !STR_FITS && g_hpos == g_hsize)
PROBE(g_size >= 0 && g_wt == K_LEN && SCAN == 10)
PROBE(g_size >= 0 && g_wt == K_LEN && SCAN == 0)
PROBE(g_size >= 0 && g_wt == K_LEN && SCAN == 1 && self_p->pos == ERR_DATA)
PROBE(g_size >= 0 && g_wt == 7)
PROBE(g_size < 0)
;
void h_string(void)
{
    struct pbtools_decoder_t *self_p; int wire_type; char **value_pp;
    HAVOC_GHOSTS HAVOC_WS HAVOC_TRACKED
    { void *p; g_heap = p; uint64_t c; g_clamped = c; }
    pbtools_decoder_read_string(self_p, wire_type, value_pp);
}

#define BYTES_FITS WS_FITS(g_clamped, 1)
void pbtools_decoder_read_bytes_contract(
    struct pbtools_decoder_t *self_p, int wire_type,
    struct pbtools_bytes_t *bytes_p)
DECWS_REQUIRES
CLAMP
__CPROVER_requires(__CPROVER_is_fresh(bytes_p, sizeof(*bytes_p)))
__CPROVER_assigns(self_p->pos, self_p->size, *bytes_p,
                  __CPROVER_object_whole(HEAP))
DECWS_ENSURES
LEN_ENSURES(BYTES_FITS)
__CPROVER_ensures((g_size >= 0 && WHOLE && BYTES_FITS)
    ==> (self_p->size == g_size && self_p->pos == g_pos + SCAN + (int)VALUE))
__CPROVER_ensures((g_size >= 0 && WHOLE && BYTES_FITS)
    ==> (bytes_p->size == VALUE && WS_NEW(HEAP, bytes_p->buf_p, VALUE, 1)))
__CPROVER_ensures((g_size >= 0 && WHOLE && BYTES_FITS
                   && g_t1 >= OFF(HEAP, bytes_p->buf_p)
                   && g_t1 < OFF(HEAP, bytes_p->buf_p) + (int64_t)VALUE
                   && g_j == g_pos + SCAN + (g_t1 - OFF(HEAP, bytes_p->buf_p)))
    ==> ((uint8_t *)HEAP)[g_t1] == g_jv)
PROBE(g_size >= 0 && WHOLE && BYTES_FITS && VALUE > 300)
PROBE(g_size >= 0 && WHOLE && BYTES_FITS && VALUE == 0)
PROBE(g_size >= 0 && WHOLE && BYTES_FITS && HEAP->pos == g_hsize && VALUE > 20)
PROBE(g_size >= 0 && WHOLE && !BYTES_FITS)
PROBE(g_size >= 0 && g_wt == K_LEN && SCAN == 0)
PROBE(g_size >= 0 && g_wt == 7)
PROBE(g_size < 0)
;
void h_bytes(void)
{
    struct pbtools_decoder_t *self_p; int wire_type;
    struct pbtools_bytes_t *bytes_p;
    HAVOC_GHOSTS HAVOC_WS HAVOC_TRACKED
    { void *p; g_heap = p; uint64_t c; g_clamped = c; }
    pbtools_decoder_read_bytes(self_p, wire_type, bytes_p);
}

/* --- nested messages --------------------------------------------------------
 * The nested decoder is any function that meets the contract every generated
 * decoder is shown to meet: it reads its slice to the end, or fails. */
int g_dec_calls;
void *g_dec_msg;
int g_dec_size, g_dec_pos;   /* the slice it was given */
const uint8_t *g_dec_buf;
int g_dec_error;             /* 0, or the error it fails with */
void *g_dec_heap;

void inner_decode(struct pbtools_decoder_t *decoder_p, void *msg_p)
{
    g_dec_calls++;
    g_dec_msg = msg_p;
    g_dec_size = decoder_p->size;
    g_dec_pos = decoder_p->pos;
    g_dec_buf = decoder_p->buf_p;
    g_dec_heap = decoder_p->heap_p;

    if (decoder_p->pos >= 0) {
        if (g_dec_error < 0) {
            decoder_p->size = g_dec_error;
            decoder_p->pos = g_dec_error;
        } else {
            decoder_p->pos = decoder_p->size;
        }
    }
}

void *g_old_msg;
#define MSG_FITS WS_FITS(g_init_size, 8)
void pbtools_decoder_sub_message_decode_contract(
    struct pbtools_decoder_t *self_p, int wire_type,
    struct pbtools_message_base_t **message_pp, size_t sub_message_size,
    pbtools_message_init_t message_init,
    pbtools_message_decode_inner_t decode_inner)
DECWS_REQUIRES
__CPROVER_requires(g_heap == (void *)HEAP)
__CPROVER_requires(__CPROVER_is_fresh(message_pp, sizeof(*message_pp)))
__CPROVER_requires(g_old_msg == (void *)*message_pp)
__CPROVER_requires(sub_message_size >= sizeof(struct pbtools_message_base_t)
                   && sub_message_size <= MAXBUF)
__CPROVER_requires(g_init_calls == 0 && g_init_size == sub_message_size)
__CPROVER_requires(g_dec_calls == 0 && g_dec_error <= 0 && g_dec_error >= -8)
__CPROVER_assigns(self_p->pos, self_p->size, *message_pp,
                  __CPROVER_object_whole(HEAP),
                  g_init_calls, g_init_msg, g_init_heap,
                  g_dec_calls, g_dec_msg, g_dec_size, g_dec_pos, g_dec_buf,
                  g_dec_heap)
DECWS_ENSURES
LEN_ENSURES(MSG_FITS)
/* success: the nested decoder saw exactly the content */
__CPROVER_ensures((g_size >= 0 && WHOLE && MSG_FITS && g_dec_error == 0)
    ==> (self_p->size == g_size && self_p->pos == g_pos + SCAN + (int)VALUE))
__CPROVER_ensures((g_size >= 0 && WHOLE && MSG_FITS && g_dec_error < 0)
    ==> DEC_FAILED_WITH(self_p, g_dec_error))
__CPROVER_ensures((g_size >= 0 && WHOLE && MSG_FITS)
    ==> (g_dec_calls == 1 && g_dec_size == (int)VALUE && g_dec_pos == 0
         && g_dec_buf == &self_p->buf_p[g_pos + SCAN]
         && g_dec_heap == (void *)HEAP))
__CPROVER_ensures((g_size >= 0 && WHOLE && MSG_FITS)
    ==> (g_init_calls == 1 && g_init_msg == g_dec_msg
         && g_init_heap == (void *)HEAP
         && WS_NEW(HEAP, g_dec_msg, g_init_size, 8)))
__CPROVER_ensures((g_size >= 0 && WHOLE && MSG_FITS && g_dec_error == 0)
    ==> (void *)*message_pp == g_dec_msg)
/* whatever the outcome, the field holds what it held or an initialised
 * message, and no decoder ran on anything else */
__CPROVER_ensures((void *)*message_pp == g_old_msg
    || (g_init_calls == 1 && (void *)*message_pp == g_init_msg))
__CPROVER_ensures(g_dec_calls <= 1 && g_init_calls <= 1)
__CPROVER_ensures(g_dec_calls == 1 ==> g_dec_msg == g_init_msg)
__CPROVER_ensures((g_dec_calls == 1 && g_dec_size > 0)
    ==> (g_size >= 0 && WHOLE))
PROBE(g_size >= 0 && WHOLE && MSG_FITS && VALUE > 300 && g_dec_error == 0)
PROBE(g_size >= 0 && WHOLE && MSG_FITS && VALUE == 0 && g_dec_error == 0)
PROBE(g_size >= 0 && WHOLE && MSG_FITS && g_dec_error == -8)
PROBE(g_size >= 0 && WHOLE && !MSG_FITS)
PROBE(g_size >= 0 && g_wt == K_LEN && SCAN == 0)
PROBE(g_size >= 0 && g_wt == 7)
PROBE(g_size < 0)
;
void h_sub_message(void)
{
    struct pbtools_decoder_t *self_p; int wire_type;
    struct pbtools_message_base_t **message_pp; size_t sub_message_size, n;
    int e;
    HAVOC_GHOSTS HAVOC_WS HAVOC_TRACKED
    { void *p; g_heap = p; void *q; g_old_msg = q; }
    g_init_calls = 0; g_init_size = n; g_dec_calls = 0; g_dec_error = e;
    pbtools_decoder_sub_message_decode(self_p, wire_type, message_pp,
                                       sub_message_size, init_stub,
                                       inner_decode);
}

/* --- the top level --------------------------------------------------------- */
int pbtools_message_decode_contract(
    struct pbtools_message_base_t *self_p, const uint8_t *encoded_p,
    size_t size, pbtools_message_decode_inner_t message_decode_inner)
__CPROVER_requires(__CPROVER_is_fresh(self_p, sizeof(*self_p)))
WS_REQUIRES(HEAP)
__CPROVER_requires(g_heap == (void *)HEAP)
__CPROVER_requires(size <= MAXBUF && g_size == (int)size)
__CPROVER_requires(__CPROVER_is_fresh(encoded_p, size))
__CPROVER_requires(g_dec_calls == 0 && g_dec_error <= 0 && g_dec_error >= -8)
__CPROVER_assigns(g_dec_calls, g_dec_msg, g_dec_size, g_dec_pos, g_dec_buf,
                  g_dec_heap)
__CPROVER_ensures(g_dec_calls == 1 && g_dec_msg == (void *)self_p
                  && g_dec_size == g_size && g_dec_pos == 0
                  && g_dec_buf == encoded_p && g_dec_heap == g_heap)
__CPROVER_ensures(RET == (g_dec_error < 0 ? g_dec_error : g_size))
PROBE(RET > 300)
PROBE(RET == 0)
PROBE(RET == -8)
;
void h_message_decode(void)
{
    struct pbtools_message_base_t *self_p; const uint8_t *encoded_p;
    size_t size; int e;
    HAVOC_GHOSTS HAVOC_WS HAVOC_TRACKED
    { void *p; g_heap = p; }
    g_dec_calls = 0; g_dec_error = e;
    (void)pbtools_message_decode(self_p, encoded_p, size, inner_decode);
}
