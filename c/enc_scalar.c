#include "pbtools.c"
#include "specmode.h"
#include "enc.h"

#define SCALAR(NAME, CTYPE, KIND, PAY, SKIP) \
void pbtools_encoder_write_##NAME##_contract( \
    struct pbtools_encoder_t *self_p, int field_number, CTYPE value) \
ENC_REQUIRES \
__CPROVER_requires(g_payload == (PAY)) \
ENC_ASSIGNS \
ENC_ENSURES_FRAME \
ENC_ENSURES_LEN(SKIP, REC_SCALAR(KIND)) \
ENC_ENSURES_BYTE(SKIP, REC_SCALAR(KIND), \
                 spec_recbyte(KIND, g_field, g_payload, g_i)) \
PROBE(self_p->size >= 0 && self_p->pos < g_pos) \
PROBE(g_size >= 0 && self_p->size < 0) \
PROBE(g_size < 0) \
PROBE(g_size > 0 && self_p->pos == -1 && g_pos >= 0) \
; \
void h_##NAME(void) \
{ \
    struct pbtools_encoder_t *self_p; int field_number; CTYPE value; \
    HAVOC_GHOSTS \
    pbtools_encoder_write_##NAME(self_p, field_number, value); \
}

#define BOTH(NAME, CTYPE, KIND, PAY) \
    SCALAR(NAME, CTYPE, KIND, PAY, g_payload == 0) \
    SCALAR(NAME##_always, CTYPE, KIND, PAY, 0)

BOTH(int32, int32_t, K_VARINT, (uint64_t)(int64_t)value)
BOTH(int64, int64_t, K_VARINT, (uint64_t)value)
BOTH(sint32, int32_t, K_VARINT, spec_zz32(value))
BOTH(sint64, int64_t, K_VARINT, spec_zz64(value))
BOTH(uint32, uint32_t, K_VARINT, (uint64_t)value)
BOTH(uint64, uint64_t, K_VARINT, value)
BOTH(fixed32, uint32_t, K_I32, (uint64_t)value)
BOTH(fixed64, uint64_t, K_I64, value)
BOTH(sfixed32, int32_t, K_I32, (uint64_t)(uint32_t)value)
BOTH(sfixed64, int64_t, K_I64, (uint64_t)value)
BOTH(float, float, K_I32, (uint64_t)spec_fbits(value))
BOTH(double, double, K_I64, spec_dbits(value))
BOTH(bool, _Bool, K_VARINT, value ? 1 : 0)
BOTH(enum, int, K_VARINT, (uint64_t)(int64_t)value)
