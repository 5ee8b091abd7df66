#include "pbtools.c"
#include "specmode.h"
#include "enc.h"

/* strlen is not part of the code under contract: its contract (the length of
 * the string, given by the ghost g_len) is assumed. */
size_t strlen(const char *s)
{
    return (size_t)g_len;
}

#define BLOB_LEN \
    ((int64_t)spec_vlen(spec_tag(g_field, K_LEN)) \
     + spec_vlen((uint64_t)g_len) + g_len)
#define BLOB_HEAD \
    (spec_vlen(spec_tag(g_field, K_LEN)) + spec_vlen((uint64_t)g_len))

/* bytes of tag and length */
#define BLOB_HEADBYTE(I) \
    ((I) < spec_vlen(spec_tag(g_field, K_LEN)) \
     ? spec_vbyte(spec_tag(g_field, K_LEN), (I)) \
     : spec_vbyte((uint64_t)g_len, (I) - spec_vlen(spec_tag(g_field, K_LEN))))

#define BLOB_ENSURES(SKIP) \
ENC_ENSURES_FRAME \
ENC_ENSURES_LEN(SKIP, BLOB_LEN) \
__CPROVER_ensures((g_size >= 0 && !(SKIP) && BLOB_LEN <= (int64_t)g_pos + 1 \
                   && g_i >= -BLOB_HEAD && g_i < 0) \
    ==> self_p->buf_p[g_pos + 1 - g_len + g_i] == BLOB_HEADBYTE(g_i + BLOB_HEAD)) \
__CPROVER_ensures((g_size >= 0 && !(SKIP) && BLOB_LEN <= (int64_t)g_pos + 1 \
                   && g_i >= 0 && g_i < g_len) \
    ==> self_p->buf_p[g_pos + 1 - g_len + g_i] == g_cv) \
PROBE(self_p->size >= 0 && self_p->pos < g_pos && g_len > 300) \
PROBE(g_size >= 0 && self_p->size < 0) \
PROBE(g_size < 0) \
PROBE(g_size > 0 && self_p->pos == -1 && g_pos >= 0) \
PROBE(self_p->size >= 0 && g_len > 300 && g_i >= 200 && g_i < g_len \
      && self_p->buf_p[g_pos + 1 - g_len + g_i] == 0x5a)

#define STRING(NAME, SKIP) \
void pbtools_encoder_write_##NAME##_contract( \
    struct pbtools_encoder_t *self_p, int field_number, char *value_p) \
ENC_REQUIRES \
__CPROVER_requires(g_len >= 0 && g_len < MAXBUF) \
__CPROVER_requires(__CPROVER_is_fresh(value_p, g_len + 1)) \
__CPROVER_requires(value_p[g_len] == 0) \
__CPROVER_requires((g_i >= 0 && g_i < g_len) ==> (uint8_t)value_p[g_i] == g_cv) \
ENC_ASSIGNS \
BLOB_ENSURES(SKIP) \
; \
void h_##NAME(void) \
{ \
    struct pbtools_encoder_t *self_p; int field_number; char *value_p; \
    HAVOC_GHOSTS \
    pbtools_encoder_write_##NAME(self_p, field_number, value_p); \
}

STRING(string, g_len == 0)
STRING(string_always, 0)

#define BYTES(NAME, SKIP) \
void pbtools_encoder_write_##NAME##_contract( \
    struct pbtools_encoder_t *self_p, int field_number, \
    struct pbtools_bytes_t *value_p) \
ENC_REQUIRES \
__CPROVER_requires(g_len >= 0 && g_len < MAXBUF) \
__CPROVER_requires(__CPROVER_is_fresh(value_p, sizeof(*value_p))) \
__CPROVER_requires(value_p->size == (size_t)g_len) \
__CPROVER_requires(__CPROVER_is_fresh(value_p->buf_p, g_len)) \
__CPROVER_requires((g_i >= 0 && g_i < g_len) ==> value_p->buf_p[g_i] == g_cv) \
ENC_ASSIGNS \
BLOB_ENSURES(SKIP) \
; \
void h_##NAME(void) \
{ \
    struct pbtools_encoder_t *self_p; int field_number; \
    struct pbtools_bytes_t *value_p; \
    HAVOC_GHOSTS \
    pbtools_encoder_write_##NAME(self_p, field_number, value_p); \
}

BYTES(bytes, g_len == 0)
BYTES(bytes_always, 0)

#include "inner.h"

#define SUB(NAME, NULLOK) \
void pbtools_encoder_sub_message_##NAME##_contract( \
    struct pbtools_encoder_t *self_p, int field_number, \
    struct pbtools_message_base_t *message_p, \
    pbtools_message_encode_inner_t encode_inner) \
ENC_REQUIRES \
__CPROVER_requires(g_len >= 0 && g_len < MAXBUF) \
__CPROVER_requires(g_inner_calls == 0) \
__CPROVER_requires(g_inner_fails ==> !(NULLOK && message_p == NULL)) \
__CPROVER_requires((NULLOK && message_p == NULL) \
                   || __CPROVER_is_fresh(message_p, sizeof(*message_p))) \
ENC_ASSIGNS \
__CPROVER_assigns(g_inner_calls, g_inner_msg) \
ENC_ENSURES_FRAME \
__CPROVER_ensures(g_inner_calls == ((NULLOK && message_p == NULL) ? 0 : 1)) \
__CPROVER_ensures(g_inner_calls == 1 ==> g_inner_msg == (void *)message_p) \
__CPROVER_ensures((g_size >= 0 && g_inner_fails) ==> ENC_FAILED(self_p)) \
__CPROVER_ensures((g_size >= 0 && NULLOK && message_p == NULL) \
    ==> (self_p->size == g_size && self_p->pos == g_pos)) \
__CPROVER_ensures((g_size >= 0 && !g_inner_fails && message_p != NULL \
                   && BLOB_LEN <= (int64_t)g_pos + 1) \
    ==> (self_p->size == g_size && self_p->pos == g_pos - BLOB_LEN)) \
__CPROVER_ensures((g_size >= 0 && !g_inner_fails && message_p != NULL \
                   && BLOB_LEN > (int64_t)g_pos + 1) \
    ==> ENC_FAILED(self_p)) \
__CPROVER_ensures((g_size >= 0 && !g_inner_fails && message_p != NULL \
                   && BLOB_LEN <= (int64_t)g_pos + 1 \
                   && g_i >= -BLOB_HEAD && g_i < 0) \
    ==> self_p->buf_p[g_pos + 1 - g_len + g_i] == BLOB_HEADBYTE(g_i + BLOB_HEAD)) \
__CPROVER_ensures((g_size >= 0 && !g_inner_fails && message_p != NULL \
                   && BLOB_LEN <= (int64_t)g_pos + 1 \
                   && g_i >= 0 && g_i < g_len) \
    ==> self_p->buf_p[g_pos + 1 - g_len + g_i] == g_cv) \
PROBE(self_p->size >= 0 && self_p->pos < g_pos && g_len > 300) \
PROBE(self_p->size >= 0 && self_p->pos < g_pos && g_len == 0) \
PROBE(g_size >= 0 && self_p->size < 0 && !g_inner_fails) \
PROBE(g_size >= 0 && self_p->size < 0 && g_inner_fails) \
PROBE(g_size < 0) \
; \
void h_sub_##NAME(void) \
{ \
    struct pbtools_encoder_t *self_p; int field_number; \
    struct pbtools_message_base_t *message_p; _Bool f; \
    HAVOC_GHOSTS \
    g_inner_calls = 0; g_inner_fails = f; \
    pbtools_encoder_sub_message_##NAME(self_p, field_number, message_p, \
                                       inner_encode); \
}

SUB(encode, 1)
SUB(encode_always, 0)
