/* Encoder API against the wire format. */
#include "util.h"

struct call {
    const char *name; int kind; int always; int type;
};
enum { I32, I64, S32, S64, U32, U64, F32, F64, SF32, SF64, FLT, DBL, BOO, ENU };
static const struct call T[] = {
    {"int32", K_VARINT, 0, I32}, {"int64", K_VARINT, 0, I64},
    {"sint32", K_VARINT, 0, S32}, {"sint64", K_VARINT, 0, S64},
    {"uint32", K_VARINT, 0, U32}, {"uint64", K_VARINT, 0, U64},
    {"fixed32", K_I32, 0, F32}, {"fixed64", K_I64, 0, F64},
    {"sfixed32", K_I32, 0, SF32}, {"sfixed64", K_I64, 0, SF64},
    {"float", K_I32, 0, FLT}, {"double", K_I64, 0, DBL},
    {"bool", K_VARINT, 0, BOO}, {"enum", K_VARINT, 0, ENU},
};

static float flt(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static double dbl(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }

/* the pattern on the wire */
static uint64_t payload(int type, uint64_t v)
{
    switch (type) {
    case I32: case ENU: return (uint64_t)(int64_t)(int32_t)v;
    case I64: case U64: case F64: case SF64: case DBL: return v;
    case S32: return spec_zz32((int32_t)v);
    case S64: return spec_zz64((int64_t)v);
    case BOO: return v & 1;
    default: return (uint32_t)v;
    }
}

static void call(struct pbtools_encoder_t *e, int type, int always, int f, uint64_t v)
{
#define C(TY, N, X) case TY: if (always) pbtools_encoder_write_##N##_always(e, f, X); \
    else pbtools_encoder_write_##N(e, f, X); break;
    switch (type) {
    C(I32, int32, (int32_t)v) C(I64, int64, (int64_t)v) C(S32, sint32, (int32_t)v)
    C(S64, sint64, (int64_t)v) C(U32, uint32, (uint32_t)v) C(U64, uint64, v)
    C(F32, fixed32, (uint32_t)v) C(F64, fixed64, v) C(SF32, sfixed32, (int32_t)v)
    C(SF64, sfixed64, (int64_t)v) C(FLT, float, flt((uint32_t)v)) C(DBL, double, dbl(v))
    C(BOO, bool, (v & 1) != 0) C(ENU, enum, (int)v)
    }
}

/* expected state after writing rec[0..n) at (size, pos) over old[] */
static void expect(struct pbtools_encoder_t *e, const uint8_t *old, int size,
                   int pos, const uint8_t *rec, long n)
{
    int i;

    if (size < 0) {
        if (e->size != -PBTOOLS_ENCODE_BUFFER_FULL || e->pos != e->size)
            fail("a failed encoder did not stay failed: size %d pos %d", e->size, e->pos);
        return;
    }
    if (n > (long)pos + 1) {
        if (e->size != -PBTOOLS_ENCODE_BUFFER_FULL || e->pos != e->size)
            fail("%ld bytes do not fit in %d, but size %d pos %d", n, pos + 1, e->size, e->pos);
        for (i = pos + 1; i < size; i++)
            if (e->buf_p[i] != old[i]) fail("byte %d behind the position changed", i);
        return;
    }
    if (e->size != size || e->pos != pos - n)
        fail("expected size %d pos %ld, got size %d pos %d", size, pos - n, e->size, e->pos);
    for (i = 0; i < size; i++) {
        uint8_t want = i > pos || i <= pos - n ? old[i] : rec[i - (pos + 1 - n)];
        if (e->buf_p[i] != want)
            fail("byte %d of the buffer is 0x%02x, expected 0x%02x", i, e->buf_p[i], want);
    }
}

static int put(uint8_t *r, int k, int field, uint64_t v)
{
    int i, n = spec_reclen(k, field, v);
    for (i = 0; i < n; i++) r[i] = spec_recbyte(k, field, v, i);
    return n;
}

static void start(struct pbtools_encoder_t *e, uint8_t *old, int size, int pos)
{
    int i;
    e->size = size; e->pos = pos;
    e->buf_p = block(size > 0 ? (size_t)size : 0);
    for (i = 0; i < size; i++) old[i] = e->buf_p[i] = (uint8_t)(0xa0 + i * 7);
}

static void one(int t, int always, int field, uint64_t v, int size, int pos)
{
    struct pbtools_encoder_t e; uint8_t old[400], rec[64]; int n = 0;
    uint64_t p = payload(T[t].type, v);

    at("pbtools_encoder_write_%s%s(field_number=%d, value=0x%llx) size=%d pos=%d",
       T[t].name, always ? "_always" : "", field, (unsigned long long)v, size, pos);
    start(&e, old, size, pos);
    call(&e, T[t].type, always, field, v);
    if (always || p != 0) n = put(rec, T[t].kind, field, p);
    expect(&e, old, size, pos, rec, n);
    free(e.buf_p);
}

static void scalars(void)
{
    int t, a, f, i, s;
    for (t = 0; t < 14; t++) {
        char nm[64]; sprintf(nm, "write_%s", T[t].name);
        if (!wanted(nm)) continue;
        for (a = 0; a < 2; a++)
            for (f = 0; f < NF; f++)
                for (i = 0; i < NV + 30; i++) {
                    uint64_t v = value(i);
                    int n = spec_reclen(T[t].kind, FIELDS[f], payload(T[t].type, v));
                    one(t, a, FIELDS[f], v, 40, 39);
                    one(t, a, FIELDS[f], v, n, n - 1);
                    one(t, a, FIELDS[f], v, n + 3, n - 1);
                    one(t, a, FIELDS[f], v, -4, -4);
                    for (s = 0; s < n; s++) one(t, a, FIELDS[f], v, n + 2, s - 1);
                    one(t, a, FIELDS[f], v, 0, -1);
                }
    }
}

static const int LENS[] = { 0, 1, 2, 5, 126, 127, 128, 129, 200, 255, 256 };

static void blobs(void)
{
    int l, f, a, k, d;
    struct pbtools_encoder_t e; uint8_t old[700], rec[700];
    for (k = 0; k < 2; k++) {
        if (!wanted(k ? "write_bytes" : "write_string")) continue;
        for (a = 0; a < 2; a++)
            for (f = 0; f < NF; f++)
                for (l = 0; l < 11; l++)
                    for (d = -4; d < 12; d++) {
                        int n = LENS[l], i, m = 0, pos, size;
                        uint8_t *c = block((size_t)n + 1);
                        struct pbtools_bytes_t b = { c, (size_t)n };
                        for (i = 0; i < n; i++) c[i] = (uint8_t)(k ? rnd() : rnd() % 255 + 1);
                        c[n] = 0;
                        if (n > 0 || a) {
                            uint64_t tag = spec_tag(FIELDS[f], K_LEN);
                            for (i = 0; i < spec_vlen(tag); i++) rec[m++] = spec_vbyte(tag, i);
                            for (i = 0; i < spec_vlen((uint64_t)n); i++) rec[m++] = spec_vbyte((uint64_t)n, i);
                            memcpy(rec + m, c, (size_t)n); m += n;
                        }
                        pos = m - 1 + (d == 11 ? 0 : d);
                        if (pos < -1) pos = -1;
                        size = pos + 1 + (d & 3);
                        if (d == 11) pos = size = -4;
                        at("pbtools_encoder_write_%s%s(field_number=%d, length=%d) size=%d pos=%d",
                           k ? "bytes" : "string", a ? "_always" : "", FIELDS[f], n, size, pos);
                        start(&e, old, size, pos);
                        if (k) { if (a) pbtools_encoder_write_bytes_always(&e, FIELDS[f], &b);
                                 else pbtools_encoder_write_bytes(&e, FIELDS[f], &b); }
                        else { if (a) pbtools_encoder_write_string_always(&e, FIELDS[f], (char *)c);
                               else pbtools_encoder_write_string(&e, FIELDS[f], (char *)c); }
                        expect(&e, old, size, pos, rec, m);
                        free(e.buf_p); free(c);
                    }
    }
}

/* nested messages: an inner encoder that writes n bytes of content */
static int in_n, in_calls; static void *in_msg; static uint8_t in_c[300];
static void inner(struct pbtools_encoder_t *e, void *m)
{
    int i;
    in_calls++; in_msg = m;
    if (e->size < 0) return;
    if (in_n > e->pos + 1) { e->size = e->pos = -PBTOOLS_ENCODE_BUFFER_FULL; return; }
    e->pos -= in_n;
    for (i = 0; i < in_n; i++) e->buf_p[e->pos + 1 + i] = in_c[i];
}

static void subs(void)
{
    int a, f, l, d, i, null;
    struct pbtools_encoder_t e; uint8_t old[700], rec[700];
    struct pbtools_message_base_t m;
    if (!wanted("sub_message_encode")) return;
    for (i = 0; i < 300; i++) in_c[i] = (uint8_t)rnd();
    for (a = 0; a < 2; a++) for (null = 0; null < (a ? 1 : 2); null++)
        for (f = 0; f < NF; f++) for (l = 0; l < 11; l++) for (d = -6; d < 12; d++) {
            uint64_t tag = spec_tag(FIELDS[f], K_LEN); int n = 0, pos, size;
            in_n = LENS[l]; in_calls = 0; in_msg = NULL;
            if (!null) {
                for (i = 0; i < spec_vlen(tag); i++) rec[n++] = spec_vbyte(tag, i);
                for (i = 0; i < spec_vlen((uint64_t)in_n); i++) rec[n++] = spec_vbyte((uint64_t)in_n, i);
                memcpy(rec + n, in_c, (size_t)in_n); n += in_n;
            }
            pos = n - 1 + (d == 11 ? 0 : d); if (pos < -1) pos = -1;
            size = pos + 1 + (d & 3);
            if (d == 11) pos = size = -4;
            at("pbtools_encoder_sub_message_encode%s(field_number=%d, %s, inner length=%d) size=%d pos=%d",
               a ? "_always" : "", FIELDS[f], null ? "NULL" : "message", in_n, size, pos);
            start(&e, old, size, pos);
            if (a) pbtools_encoder_sub_message_encode_always(&e, FIELDS[f], &m, inner);
            else pbtools_encoder_sub_message_encode(&e, FIELDS[f], null ? NULL : &m, inner);
            if (in_calls != (null ? 0 : 1) || in_msg != (null ? NULL : (void *)&m))
                fail("inner encoder called %d times, on %p", in_calls, in_msg);
            expect(&e, old, size, pos, rec, n);
            free(e.buf_p);
        }
}

static void top(void)
{
    int l, s, i, r;
    struct pbtools_message_base_t m;
    if (!wanted("message_encode")) return;
    for (i = 0; i < 300; i++) in_c[i] = (uint8_t)rnd();
    for (l = 0; l < 260; l++)
        for (s = 0; s < 262; s++) {
            uint8_t *b = block((size_t)s);
            in_n = l; in_calls = 0;
            at("pbtools_message_encode(encoded length=%d) size=%d", l, s);
            r = pbtools_message_encode(&m, b, (size_t)s, inner);
            if (l <= s) {
                if (r != l) fail("returned %d", r);
                if (memcmp(b, in_c, (size_t)l)) fail("content is not at the front");
            } else if (r != -PBTOOLS_ENCODE_BUFFER_FULL) fail("returned %d", r);
            if (in_calls != 1) fail("inner encoder called %d times", in_calls);
            free(b);
        }
}

/* repeated fields of numbers */
static void repeated(void)
{
    int t, n, f, i, j, d, rep;
    static uint8_t old[700], rec[700];
    for (t = 0; t < 13; t++) {
        char nm[64]; sprintf(nm, "write_repeated_%s", T[t].name);
        if (!wanted(nm)) continue;
        for (n = 0; n < 6; n++) for (f = 0; f < NF; f++) for (rep = 0; rep < 12; rep++)
        for (d = -3; d < 4; d++) {
            uint64_t v[6]; uint8_t body[80]; int m = 0, k = 0, size, pos;
            struct pbtools_encoder_t e;
            int w = T[t].type == BOO ? 1 : T[t].type == I32 || T[t].type == S32
                || T[t].type == U32 || T[t].kind == K_I32 ? 4 : 8;
            uint8_t *items = block((size_t)(n * w));
            for (i = 0; i < n; i++) {
                uint64_t p;
                v[i] = value((int)(rnd() % (NV + 10)));
                if (T[t].type == BOO) v[i] &= 1;
                memcpy(items + i * w, &v[i], (size_t)w);
                p = payload(T[t].type, v[i]);
                for (j = 0; j < spec_paylen(T[t].kind, p); j++) body[m++] = spec_paybyte(T[t].kind, p, j);
            }
            if (n > 0) {
                uint64_t tag = spec_tag(FIELDS[f], K_LEN);
                for (i = 0; i < spec_vlen(tag); i++) rec[k++] = spec_vbyte(tag, i);
                for (i = 0; i < spec_vlen((uint64_t)m); i++) rec[k++] = spec_vbyte((uint64_t)m, i);
                memcpy(rec + k, body, (size_t)m); k += m;
            }
            pos = k - 1 + d; if (pos < -1) pos = -1;
            size = pos + 1 + (rep & 1);
            if (rep == 3) size = pos = -4;
            at("pbtools_encoder_write_repeated_%s(field_number=%d, length=%d, first=0x%llx) size=%d pos=%d",
               T[t].name, FIELDS[f], n, n ? (unsigned long long)v[0] : 0ull, size, pos);
            start(&e, old, size, pos);
#define R(TY, N, S) case TY: { struct pbtools_repeated_##S##_t r = { n, (void *)items }; \
            pbtools_encoder_write_repeated_##N(&e, FIELDS[f], &r); break; }
            switch (T[t].type) {
            R(I32, int32, int32) R(I64, int64, int64) R(S32, sint32, int32) R(S64, sint64, int64)
            R(U32, uint32, uint32) R(U64, uint64, uint64) R(F32, fixed32, uint32)
            R(F64, fixed64, uint64) R(SF32, sfixed32, int32) R(SF64, sfixed64, int64)
            R(FLT, float, float) R(DBL, double, double) R(BOO, bool, bool)
            }
            expect(&e, old, size, pos, rec, k);
            free(e.buf_p); free(items);
        }
    }
}

/* repeated strings, bytes and messages */
static int mi_n[6]; static uint8_t mi_c[6][140]; static char *mi_base; static size_t mi_w;
static void mi_inner(struct pbtools_encoder_t *e, void *m)
{
    int k = (int)(((char *)m - mi_base) / (long)mi_w), i;
    if (e->size < 0) return;
    if (mi_n[k] > e->pos + 1) { e->size = e->pos = -PBTOOLS_ENCODE_BUFFER_FULL; return; }
    e->pos -= mi_n[k];
    for (i = 0; i < mi_n[k]; i++) e->buf_p[e->pos + 1 + i] = mi_c[k][i];
}

static void repeated_blobs(void)
{
    int kind, n, f, i, rep, d;
    static uint8_t old[1500], rec[1500];
    static const char *names[] = { "write_repeated_string", "write_repeated_bytes", "encode_repeated_inner" };
    for (kind = 0; kind < 3; kind++) {
        if (!wanted(names[kind])) continue;
        for (n = 0; n < 6; n++) for (f = 0; f < NF; f++) for (rep = 0; rep < 12; rep++)
        for (d = -3; d < 4; d++) {
            struct pbtools_encoder_t e; int k = 0, size, pos, j;
            char **pp = (char **)block((size_t)n * sizeof(char *));
            struct pbtools_bytes_t *bp = (void *)block((size_t)n * sizeof(*bp));
            char *mp; uint64_t tag = spec_tag(FIELDS[f], K_LEN);
            mi_w = 24; mi_base = mp = (char *)block((size_t)n * mi_w);
            for (i = 0; i < n; i++) {
                mi_n[i] = (int)(rnd() % 4) == 0 ? (int)(126 + rnd() % 4) : (int)(rnd() % 5);
                for (j = 0; j < mi_n[i]; j++) mi_c[i][j] = (uint8_t)(kind == 0 ? rnd() % 255 + 1 : rnd());
                pp[i] = (char *)block((size_t)mi_n[i] + 1);
                memcpy(pp[i], mi_c[i], (size_t)mi_n[i]); pp[i][mi_n[i]] = 0;
                bp[i].buf_p = (uint8_t *)pp[i]; bp[i].size = (size_t)mi_n[i];
                for (j = 0; j < spec_vlen(tag); j++) rec[k++] = spec_vbyte(tag, j);
                for (j = 0; j < spec_vlen((uint64_t)mi_n[i]); j++) rec[k++] = spec_vbyte((uint64_t)mi_n[i], j);
                memcpy(rec + k, mi_c[i], (size_t)mi_n[i]); k += mi_n[i];
            }
            pos = k - 1 + d; if (pos < -1) pos = -1;
            size = pos + 1 + (rep & 1);
            if (rep == 3) size = pos = -4;
            at("%s(field_number=%d, length=%d, sizes %d %d..) size=%d pos=%d", names[kind],
               FIELDS[f], n, n ? mi_n[0] : 0, n > 1 ? mi_n[1] : 0, size, pos);
            start(&e, old, size, pos);
            if (kind == 0) { struct pbtools_repeated_string_t r = { n, pp };
                pbtools_encoder_write_repeated_string(&e, FIELDS[f], &r); }
            else if (kind == 1) { struct pbtools_repeated_bytes_t r = { n, bp };
                pbtools_encoder_write_repeated_bytes(&e, FIELDS[f], &r); }
            else { struct pbtools_repeated_message_t r = { n, mp };
                pbtools_encode_repeated_inner(&e, FIELDS[f], &r, mi_w, mi_inner); }
            expect(&e, old, size, pos, rec, k);
            for (i = 0; i < n; i++) free(pp[i]);
            free(pp); free(bp); free(mp); free(e.buf_p);
        }
    }
}

int main(int argc, char **argv)
{
    setup(argc, argv);
    if (argc > 3) {
        /* replay: type always field value size pos */
        int t;
        for (t = 0; t < 14; t++)
            if (!strcmp(T[t].name, argv[3])) {
                int size = atoi(argv[7]), pos = atoi(argv[8]);
                if (size > 390) return 0;
                one(t, atoi(argv[4]), atoi(argv[5]), strtoull(argv[6], 0, 0), size, pos);
            }
        printf("OK %lu\n", cases);
        return 0;
    }
    scalars(); blobs(); subs(); top(); repeated(); repeated_blobs();
    printf("OK %lu\n", cases);
    return 0;
}
