/* Independent statement of the proto3 wire format (written from the protobuf
 * encoding documentation, not from pbtools.c).  Pure, loop-free functions, so
 * that they can be used in contracts and compiled natively for replays. */
#ifndef SPEC_H
#define SPEC_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <limits.h>

#ifndef MAXBUF
#define MAXBUF 2147483632      /* INT_MAX - 15 */
#endif

enum { K_VARINT = 0, K_I64 = 1, K_LEN = 2, K_I32 = 5 };

/* number of bytes of the minimal varint of v */
#define SPEC_VLEN(v) \
    (1 + ((v) >= 1ull << 7) + ((v) >= 1ull << 14) + ((v) >= 1ull << 21) \
     + ((v) >= 1ull << 28) + ((v) >= 1ull << 35) + ((v) >= 1ull << 42) \
     + ((v) >= 1ull << 49) + ((v) >= 1ull << 56) + ((v) >= 1ull << 63))

static inline int spec_vlen(uint64_t v)
{
    return SPEC_VLEN(v);
}

/* byte i of the minimal varint of v */
static inline uint8_t spec_vbyte(uint64_t v, int i)
{
    return (uint8_t)(((v >> (7 * i)) & 0x7f)
                     | ((i + 1 < spec_vlen(v)) ? 0x80 : 0));
}

static inline uint64_t spec_tag(int field_number, int kind)
{
    return (uint64_t)(uint32_t)field_number * 8u + (uint64_t)kind;
}

static inline int spec_paylen(int kind, uint64_t v)
{
    return kind == K_VARINT ? spec_vlen(v) : kind == K_I64 ? 8 : 4;
}

static inline uint8_t spec_paybyte(int kind, uint64_t v, int i)
{
    return kind == K_VARINT ? spec_vbyte(v, i) : (uint8_t)(v >> (8 * i));
}

/* record = tag ++ payload */
static inline int spec_reclen(int kind, int field, uint64_t v)
{
    return spec_vlen(spec_tag(field, kind)) + spec_paylen(kind, v);
}

static inline uint8_t spec_recbyte(int kind, int field, uint64_t v, int i)
{
    int t = spec_vlen(spec_tag(field, kind));

    return i < t ? spec_vbyte(spec_tag(field, kind), i)
                 : spec_paybyte(kind, v, i - t);
}

static inline uint64_t spec_zz32(int32_t v)
{
    return v >= 0 ? 2 * (uint64_t)v : 2 * (uint64_t)(-(int64_t)v) - 1;
}

static inline uint64_t spec_zz64(int64_t v)
{
    return v >= 0 ? 2 * (uint64_t)v : 2 * (0 - (uint64_t)v) - 1;
}

static inline int64_t spec_unzz64(uint64_t u)
{
    return (u & 1) ? -(int64_t)(u / 2) - 1 : (int64_t)(u / 2);
}

/* zigzag of 32 bit types is taken on the low 32 bits */
static inline int32_t spec_unzz32(uint64_t u)
{
    uint32_t w = (uint32_t)u;

    return (w & 1) ? -(int32_t)(w / 2) - 1 : (int32_t)(w / 2);
}

/* --- decoding ------------------------------------------------------------ */

/* Length of the varint at b[0..avail): 1..10, 0 if it is truncated, -1 if it
 * has more than ten bytes. */
static inline int spec_vscan(const uint8_t *b, int64_t avail)
{
#define SC(i) if (avail <= (i)) return 0; if (!(b[i] & 0x80)) return (i) + 1;
    SC(0) SC(1) SC(2) SC(3) SC(4) SC(5) SC(6) SC(7) SC(8) SC(9)
#undef SC
    return -1;
}

static inline uint64_t spec_vvalue(const uint8_t *b, int n)
{
    uint64_t v = 0;
#define AC(i) if (n > (i)) v |= (uint64_t)(b[i] & 0x7f) << (7 * (i));
    AC(0) AC(1) AC(2) AC(3) AC(4) AC(5) AC(6) AC(7) AC(8) AC(9)
#undef AC
    return v;
}

static inline uint32_t spec_le32(const uint8_t *b)
{
    return (uint32_t)b[0] | (uint32_t)b[1] << 8 | (uint32_t)b[2] << 16
        | (uint32_t)b[3] << 24;
}

static inline uint64_t spec_le64(const uint8_t *b)
{
    return (uint64_t)spec_le32(b) | (uint64_t)spec_le32(b + 4) << 32;
}

static inline uint32_t spec_fbits(float f)
{
    union { float f; uint32_t u; } x; x.f = f; return x.u;
}

static inline uint64_t spec_dbits(double f)
{
    union { double f; uint64_t u; } x; x.f = f; return x.u;
}

#endif
