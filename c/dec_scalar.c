#include "pbtools.c"
#include "specmode.h"
#include "dec.h"

#define COMMON(NAME, CTYPE) \
CTYPE pbtools_decoder_read_##NAME##_contract( \
    struct pbtools_decoder_t *self_p, int wire_type) \
DEC_REQUIRES \
__CPROVER_requires(g_wt == wire_type) \
DEC_ASSIGNS \
DEC_ENSURES_FRAME

#define HARNESS(NAME, CTYPE) \
void h_##NAME(void) \
{ \
    struct pbtools_decoder_t *self_p; int wire_type; \
    HAVOC_GHOSTS \
    (void)pbtools_decoder_read_##NAME(self_p, wire_type); \
}

#define RET __CPROVER_return_value

/* EQ: the returned value, as a bit pattern, and the value on the wire U */
#define VARINT(NAME, CTYPE, EQ) \
COMMON(NAME, CTYPE) \
DEC_ENSURES_ERR(g_wt != K_VARINT, ERR_WIRE) \
DEC_ENSURES_ERR(g_wt == K_VARINT && SCAN == 0, ERR_DATA) \
DEC_ENSURES_ERR(g_wt == K_VARINT && SCAN < 0, ERR_VARINT) \
DEC_ENSURES_OK(g_wt == K_VARINT && SCAN > 0, SCAN) \
__CPROVER_ensures((g_size >= 0 && g_wt == K_VARINT && SCAN > 0) ==> (EQ)) \
PROBE(g_size >= 0 && g_wt == K_VARINT && SCAN == 10) \
PROBE(g_size >= 0 && g_wt == K_VARINT && SCAN == 1) \
PROBE(g_size >= 0 && g_wt == K_VARINT && SCAN == 0) \
PROBE(g_size >= 0 && g_wt == K_VARINT && SCAN < 0) \
PROBE(g_size >= 0 && g_wt == 7) \
PROBE(g_size == -8) \
; \
HARNESS(NAME, CTYPE)

#define FIXED(NAME, CTYPE, KIND, N, EQ) \
COMMON(NAME, CTYPE) \
DEC_ENSURES_ERR(g_wt != (KIND), ERR_WIRE) \
DEC_ENSURES_ERR(g_wt == (KIND) && g_avail < (N), ERR_DATA) \
DEC_ENSURES_OK(g_wt == (KIND) && g_avail >= (N), N) \
__CPROVER_ensures((g_size >= 0 && g_wt == (KIND) && g_avail >= (N)) ==> (EQ)) \
PROBE(g_size >= 0 && g_wt == (KIND) && g_avail == (N)) \
PROBE(g_size >= 0 && g_wt == (KIND) && g_avail == (N) - 1) \
PROBE(g_size >= 0 && g_wt == 7) \
PROBE(g_size == -8) \
; \
HARNESS(NAME, CTYPE)

VARINT(int32, int32_t, RET == (int32_t)(uint32_t)VALUE)
VARINT(int64, int64_t, RET == (int64_t)VALUE)
VARINT(sint32, int32_t, RET == spec_unzz32(VALUE))
VARINT(sint64, int64_t, RET == spec_unzz64(VALUE))
VARINT(uint32, uint32_t, RET == (uint32_t)VALUE)
VARINT(uint64, uint64_t, RET == VALUE)
VARINT(bool, _Bool, RET == (VALUE != 0))
VARINT(enum, int, RET == (int32_t)(uint32_t)VALUE)
FIXED(fixed32, uint32_t, K_I32, 4, RET == spec_le32(g_b))
FIXED(fixed64, uint64_t, K_I64, 8, RET == spec_le64(g_b))
FIXED(sfixed32, int32_t, K_I32, 4, RET == (int32_t)spec_le32(g_b))
FIXED(sfixed64, int64_t, K_I64, 8, RET == (int64_t)spec_le64(g_b))
FIXED(float, float, K_I32, 4, spec_fbits(RET) == spec_le32(g_b))
FIXED(double, double, K_I64, 8, spec_dbits(RET) == spec_le64(g_b))

/* Tags.  The value of a tag is taken modulo 2^32, as for uint32. */
#define TAG ((uint32_t)VALUE)
int pbtools_decoder_read_tag_contract(
    struct pbtools_decoder_t *self_p, int *wire_type_p)
DEC_REQUIRES
__CPROVER_requires(__CPROVER_is_fresh(wire_type_p, sizeof(*wire_type_p)))
__CPROVER_assigns(self_p->pos, self_p->size, *wire_type_p)
DEC_ENSURES_FRAME
DEC_ENSURES_ERR(SCAN == 0, ERR_DATA)
DEC_ENSURES_ERR(SCAN < 0, ERR_VARINT)
DEC_ENSURES_ERR(SCAN > 0 && TAG / 8 == 0, ERR_FIELD)
DEC_ENSURES_OK(SCAN > 0 && TAG / 8 != 0, SCAN)
__CPROVER_ensures((g_size >= 0 && SCAN > 0 && TAG / 8 != 0)
    ==> (RET == (int)(TAG / 8) && *wire_type_p == (int)(TAG % 8)))
PROBE(g_size >= 0 && SCAN == 10 && TAG / 8 != 0)
PROBE(g_size >= 0 && SCAN == 1 && TAG / 8 == 0)
PROBE(g_size >= 0 && SCAN == 0)
PROBE(g_size >= 0 && SCAN < 0)
PROBE(g_size == -8)
PROBE(RET == 536870911 && *wire_type_p == 7)
;
void h_tag(void)
{
    struct pbtools_decoder_t *self_p; int *wire_type_p;
    HAVOC_GHOSTS
    (void)pbtools_decoder_read_tag(self_p, wire_type_p);
}

/* Unknown fields */
#define LEN_OK (SCAN > 0 && VALUE < INT_MAX)
void pbtools_decoder_skip_field_contract(
    struct pbtools_decoder_t *self_p, int wire_type)
DEC_REQUIRES
__CPROVER_requires(g_wt == wire_type)
DEC_ASSIGNS
DEC_ENSURES_FRAME
DEC_ENSURES_OK(g_wt == K_VARINT && SCAN > 0, SCAN)
DEC_ENSURES_ERR(g_wt == K_VARINT && SCAN == 0, ERR_DATA)
DEC_ENSURES_ERR(g_wt == K_VARINT && SCAN < 0, ERR_VARINT)
DEC_ENSURES_OK(g_wt == K_I64 && g_avail >= 8, 8)
DEC_ENSURES_ERR(g_wt == K_I64 && g_avail < 8, ERR_DATA)
DEC_ENSURES_OK(g_wt == K_I32 && g_avail >= 4, 4)
DEC_ENSURES_ERR(g_wt == K_I32 && g_avail < 4, ERR_DATA)
DEC_ENSURES_ERR(g_wt == K_LEN && SCAN == 0, ERR_DATA)
DEC_ENSURES_ERR(g_wt == K_LEN && SCAN < 0, ERR_VARINT)
__CPROVER_ensures((g_size >= 0 && g_wt == K_LEN && SCAN > 0
                   && VALUE <= (uint64_t)(g_avail - SCAN))
    ==> (self_p->size == g_size
         && self_p->pos == g_pos + SCAN + (int)VALUE))
__CPROVER_ensures((g_size >= 0 && g_wt == K_LEN && SCAN > 0
                   && VALUE > (uint64_t)(g_avail - SCAN))
    ==> DEC_FAILED(self_p))
DEC_ENSURES_ERR(g_wt != K_VARINT && g_wt != K_I64 && g_wt != K_LEN
                && g_wt != K_I32, ERR_WIRE)
PROBE(g_size >= 0 && g_wt == K_LEN && self_p->pos >= 300 && g_pos == 0)
PROBE(g_size >= 0 && g_wt == K_LEN && self_p->pos == 1 && g_pos == 0)
PROBE(g_size >= 0 && g_wt == K_LEN && self_p->pos < 0 && SCAN > 0)
PROBE(g_size >= 0 && g_wt == K_VARINT && SCAN == 10)
PROBE(g_size >= 0 && g_wt == 3)
PROBE(g_size == -8)
;
void h_skip(void)
{
    struct pbtools_decoder_t *self_p; int wire_type;
    HAVOC_GHOSTS
    pbtools_decoder_skip_field(self_p, wire_type);
}

_Bool pbtools_decoder_available_contract(struct pbtools_decoder_t *self_p)
DEC_REQUIRES
__CPROVER_assigns()
__CPROVER_ensures(self_p->size == g_size && self_p->pos == g_pos)
__CPROVER_ensures(RET == (g_size >= 0 && g_pos < g_size))
PROBE(RET)
PROBE(!RET && g_size >= 0)
PROBE(g_size < 0)
;
void h_available(void)
{
    struct pbtools_decoder_t *self_p;
    HAVOC_GHOSTS
    (void)pbtools_decoder_available(self_p);
}
