/* Decoder and workspace API against the wire format. */
#include "util.h"

enum { I32, I64, S32, S64, U32, U64, F32, F64, SF32, SF64, FLT, DBL, BOO, ENU };
static const struct { const char *name; int kind, type; } T[] = {
    {"int32", K_VARINT, I32}, {"int64", K_VARINT, I64}, {"sint32", K_VARINT, S32},
    {"sint64", K_VARINT, S64}, {"uint32", K_VARINT, U32}, {"uint64", K_VARINT, U64},
    {"fixed32", K_I32, F32}, {"fixed64", K_I64, F64}, {"sfixed32", K_I32, SF32},
    {"sfixed64", K_I64, SF64}, {"float", K_I32, FLT}, {"double", K_I64, DBL},
    {"bool", K_VARINT, BOO}, {"enum", K_VARINT, ENU},
};

static struct pbtools_decoder_t d;
static uint8_t *in, copy[600];
static int size, pos;
static char hx[900];

static void start(const uint8_t *b, int n, int at_pos, int failed)
{
    in = block((size_t)n);
    memcpy(in, b, (size_t)n); memcpy(copy, b, (size_t)n);
    d.buf_p = in; d.heap_p = NULL;
    if (failed) { d.size = d.pos = -failed; }
    else { d.size = n; d.pos = at_pos; }
    size = d.size; pos = d.pos;
    hex(hx, b, n);
}

static void finish(int n) { if (memcmp(in, copy, (size_t)n)) fail("the input changed"); free(in); }

static void want_err(int e)
{
    if (d.pos != e || d.size != e) fail("expected error %d, got size %d pos %d", e, d.size, d.pos);
}

static void want_ok(int n)
{
    if (d.size != size || d.pos != pos + n)
        fail("expected %d bytes to be read, got size %d pos %d (was %d %d)", n, d.size, d.pos, size, pos);
}

static void scalar(int t, int wt, const uint8_t *b, int n, int at_pos, int failed)
{
    uint64_t got = 0, want = 0; int used = 0, err = 0, avail;
    float f; double g; uint32_t fb;
    start(b, n, at_pos, failed);
    at("pbtools_decoder_read_%s(wire_type=%d) input=%s pos=%d%s", T[t].name, wt, hx, at_pos, failed ? " failed" : "");
    switch (T[t].type) {
    case I32: got = (uint64_t)(int64_t)pbtools_decoder_read_int32(&d, wt); break;
    case ENU: got = (uint64_t)(int64_t)pbtools_decoder_read_enum(&d, wt); break;
    case I64: got = (uint64_t)pbtools_decoder_read_int64(&d, wt); break;
    case S32: got = (uint64_t)(int64_t)pbtools_decoder_read_sint32(&d, wt); break;
    case S64: got = (uint64_t)pbtools_decoder_read_sint64(&d, wt); break;
    case U32: got = pbtools_decoder_read_uint32(&d, wt); break;
    case U64: got = pbtools_decoder_read_uint64(&d, wt); break;
    case F32: got = pbtools_decoder_read_fixed32(&d, wt); break;
    case F64: got = pbtools_decoder_read_fixed64(&d, wt); break;
    case SF32: got = (uint64_t)(int64_t)pbtools_decoder_read_sfixed32(&d, wt); break;
    case SF64: got = (uint64_t)pbtools_decoder_read_sfixed64(&d, wt); break;
    case FLT: f = pbtools_decoder_read_float(&d, wt); memcpy(&fb, &f, 4); got = fb; break;
    case DBL: g = pbtools_decoder_read_double(&d, wt); memcpy(&got, &g, 8); break;
    case BOO: got = pbtools_decoder_read_bool(&d, wt); break;
    }
    if (failed) { want_err(-failed); finish(n); return; }
    avail = n - at_pos;
    if (wt != T[t].kind) err = -PBTOOLS_BAD_WIRE_TYPE;
    else if (T[t].kind == K_VARINT) {
        used = spec_vscan(b + at_pos, avail);
        if (used == 0) err = -PBTOOLS_OUT_OF_DATA;
        else if (used < 0) err = -PBTOOLS_VARINT_OVERFLOW;
        else {
            uint64_t u = spec_vvalue(b + at_pos, used);
            switch (T[t].type) {
            case I32: case ENU: want = (uint64_t)(int64_t)(int32_t)u; break;
            case S32: want = (uint64_t)(int64_t)spec_unzz32(u); break;
            case S64: want = (uint64_t)spec_unzz64(u); break;
            case U32: want = (uint32_t)u; break;
            case BOO: want = u != 0; break;
            default: want = u;
            }
        }
    } else {
        used = T[t].kind == K_I32 ? 4 : 8;
        if (avail < used) err = -PBTOOLS_OUT_OF_DATA;
        else if (used == 8) want = spec_le64(b + at_pos);
        else { want = spec_le32(b + at_pos); if (T[t].type == SF32) want = (uint64_t)(int64_t)(int32_t)want; }
    }
    if (err) want_err(err);
    else {
        want_ok(used);
        if (got != want) fail("value is 0x%llx, expected 0x%llx", (unsigned long long)got, (unsigned long long)want);
    }
    finish(n);
}

/* candidate varints, canonical and not, and junk */
static int varint(uint8_t *b, int i)
{
    int n = 0, k, pad; uint64_t v = value(i % (NV + 20));
    n = spec_vlen(v);
    for (k = 0; k < n; k++) b[k] = spec_vbyte(v, k);
    if (i % 3 == 1 && n < 10) {           /* pad: not minimal */
        pad = 1 + (int)(rnd() % (uint64_t)(10 - n));
        b[n - 1] |= 0x80;
        for (k = 0; k < pad; k++) b[n++] = 0x80;
        b[n - 1] = 0;
    }
    if (i % 7 == 2) { for (k = 0; k < 10; k++) b[k] = (uint8_t)(0x80 | rnd()); b[9] = (uint8_t)(rnd() & 0x7f); n = 10; }
    if (i % 11 == 3) { for (k = 0; k < 11; k++) b[k] = (uint8_t)(0x80 | rnd()); b[10] = 0; n = 11; }
    return n;
}

static void scalars(void)
{
    static const int W[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, -1, 1000 };
    uint8_t b[64]; int t, i, k, c, w;
    for (t = 0; t < 14; t++) {
        char nm[64]; sprintf(nm, "read_%s", T[t].name);
        if (!wanted(nm)) continue;
        for (i = 0; i < 400; i++) {
            int n;
            for (k = 0; k < 64; k++) b[k] = (uint8_t)rnd();
            n = 3 + varint(b + 3, i);
            scalar(t, T[t].kind, b, n, 3, 0);
            scalar(t, T[t].kind, b, n + 5, 3, 0);
            for (c = 3; c < n; c++) scalar(t, T[t].kind, b, c, 3, 0);
            for (k = 0; k < 20; k++) b[k] = (uint8_t)rnd();
            for (k = 0; k <= 9; k++) scalar(t, T[t].kind, b, 5 + k, 5, 0);
            scalar(t, T[t].kind, b, 20, 0, 0);
            for (w = 0; w < 11; w++) scalar(t, W[w], b, 20, 2, 0);
            scalar(t, T[t].kind, b, 20, 0, 1 + i % 8);
            scalar(t, 7, b, 20, 0, 1 + i % 8);
        }
    }
}

static void tags(void)
{
    uint8_t b[32]; int i, c, k;
    if (!wanted("read_tag")) return;
    for (i = 0; i < 3000; i++) {
        int n, w = -5, r, used; uint64_t u;
        for (k = 0; k < 32; k++) b[k] = (uint8_t)rnd();
        n = 1 + varint(b + 1, i);
        for (c = 1; c <= n + 1; c++) {
            start(b, c, 1, 0);
            at("pbtools_decoder_read_tag() input=%s pos=1", hx);
            r = pbtools_decoder_read_tag(&d, &w);
            used = spec_vscan(b + 1, c - 1);
            if (used == 0) want_err(-PBTOOLS_OUT_OF_DATA);
            else if (used < 0) want_err(-PBTOOLS_VARINT_OVERFLOW);
            else {
                u = (uint32_t)spec_vvalue(b + 1, used);
                if (u / 8 == 0) want_err(-PBTOOLS_BAD_FIELD_NUMBER);
                else { want_ok(used); if (r != (int)(u / 8) || w != (int)(u % 8)) fail("tag %d wire type %d", r, w); }
            }
            finish(c);
        }
        start(b, 10, 0, 1 + i % 8);
        at("pbtools_decoder_read_tag() on a failed decoder (%d)", 1 + i % 8);
        (void)pbtools_decoder_read_tag(&d, &w);
        want_err(-(1 + i % 8)); finish(10);
    }
}

static const uint64_t L[] = { 0, 1, 2, 3, 5, 8, 20, 126, 127, 128, 129, 300, 0x3fff, 0x7ffffffd,
    0x7ffffffe, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001,
    0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffffff6 };
#define NL 24

/* a length delimited record: length value len (padded), then have bytes */
static int lenrec(uint8_t *b, uint64_t len, int padded, int have)
{
    int n = spec_vlen(len), k;
    for (k = 0; k < n; k++) b[k] = spec_vbyte(len, k);
    if (padded && n < 10) { b[n - 1] |= 0x80; b[n++] = 0; }
    for (k = 0; k < have; k++) b[n + k] = (uint8_t)rnd();
    return n;
}

static void skips(void)
{
    uint8_t b[600]; int i, l, w, c, have, p;
    if (!wanted("skip_field")) return;
    for (w = -1; w < 10; w++) for (i = 0; i < 400; i++) {
        int n, k, used, e = 0;
        for (k = 0; k < 40; k++) b[k] = (uint8_t)rnd();
        n = 2 + varint(b + 2, i);
        for (c = 2; c < n + 9; c++) {
            if (w == K_LEN) break;
            start(b, c, 2, 0); used = 0; e = 0;
            at("pbtools_decoder_skip_field(wire_type=%d) input=%s pos=2", w, hx);
            pbtools_decoder_skip_field(&d, w);
            if (w == K_VARINT) { used = spec_vscan(b + 2, c - 2); e = used == 0 ? -2 : used < 0 ? -6 : 0; }
            else if (w == K_I64) { used = 8; e = c - 2 < 8 ? -2 : 0; }
            else if (w == K_I32) { used = 4; e = c - 2 < 4 ? -2 : 0; }
            else e = -1;
            if (e) want_err(e); else want_ok(used);
            finish(c);
        }
        start(b, 10, 0, 1 + i % 8);
        at("pbtools_decoder_skip_field(wire_type=%d) on a failed decoder", w);
        pbtools_decoder_skip_field(&d, w); want_err(-(1 + i % 8)); finish(10);
    }
    for (l = 0; l < NL; l++) for (p = 0; p < 2; p++) for (have = 0; have < 310; have++) {
        int n = lenrec(b + 1, L[l], p, have);
        b[0] = 0x55;
        start(b, 1 + n + have, 1, 0);
        at("pbtools_decoder_skip_field(wire_type=2) length=%llu with %d bytes left", (unsigned long long)L[l], have);
        pbtools_decoder_skip_field(&d, K_LEN);
        if (L[l] <= (uint64_t)have) want_ok(n + (int)L[l]);
        else if (d.pos >= 0 || d.size != d.pos || d.pos < -8) fail("accepted: size %d pos %d", d.size, d.pos);
        finish(1 + n + have);
    }
}

/* --- workspaces ------------------------------------------------------------ */
static uint8_t *ws, *shadow; static int wsize, wpos; static struct pbtools_heap_t *heap;

static void ws_start(int total, int used)
{
    int i;
    ws = block((size_t)total); shadow = block((size_t)total);
    for (i = 0; i < total; i++) ws[i] = (uint8_t)(0x30 + i * 5);
    heap = (struct pbtools_heap_t *)ws;
    heap->buf_p = (char *)ws; heap->size = total; heap->pos = used;
    memcpy(shadow, ws, (size_t)total);
    wsize = total; wpos = used;
}

static void ws_check(void)
{
    int i, h = (int)sizeof(struct pbtools_heap_t);
    if (heap->buf_p != (char *)ws || heap->size != wsize || heap->pos < wpos || heap->pos > wsize)
        fail("workspace bookkeeping is broken: size %d pos %d (was %d %d)", heap->size, heap->pos, wsize, wpos);
    for (i = h; i < wpos; i++) if (ws[i] != shadow[i]) fail("allocated byte %d changed", i);
}

static void ws_end(void) { free(ws); free(shadow); }

static void ws_new(void *p, size_t n, int align)
{
    long o = (long)((uint8_t *)p - ws);
    if (o < wpos || o + (long)n > heap->pos) fail("object at %ld..%ld is not in %d..%d", o, o + (long)n, wpos, heap->pos);
    if (o % align) fail("object at %ld is not aligned to %d", o, align);
}

static int fits(uint64_t n, int align)
{
    int a = (wpos + align - 1) / align * align;
    return a <= wsize && n <= (uint64_t)(wsize - a);
}

static int dcalls, ierr, icalls; static void *dmsg, *imsg; static const uint8_t *dbuf; static int dsize, dpos;
static size_t isize; static void *iheap;
static void init(void *m, struct pbtools_heap_t *h)
{
    icalls++; imsg = m; iheap = h; memset(m, 0, isize);
    ((struct pbtools_message_base_t *)m)->heap_p = h;
}
static void inner(struct pbtools_decoder_t *dd, void *m)
{
    dcalls++; dmsg = m; dsize = dd->size; dpos = dd->pos; dbuf = dd->buf_p;
    if (dd->pos >= 0) { if (ierr) dd->size = dd->pos = ierr; else dd->pos = dd->size; }
}

static void blobs(void)
{
    static uint8_t b[700]; int l, p, have, h, kind, w, f;
    static const int room[] = { 0, 1, 2, 4, 7, 8, 9, 31, 32, 40, 130, 400 };
    static const char *nm[] = { "read_string", "read_bytes", "sub_message_decode" };
    for (kind = 0; kind < 3; kind++) {
        if (!wanted(nm[kind])) continue;
        for (l = 0; l < NL; l++) for (p = 0; p < 2; p++) for (have = 0; have < 303; have += (have < 12 || have > 120 && have < 132) ? 1 : 17)
        for (h = 0; h < 12; h++) for (w = 1; w < 4; w++) for (f = 0; f < (w == 2 ? 4 : 1); f++) {
            int n = lenrec(b + 1, L[l], p, have), whole, fit, off = 16 + (h * 3 + l) % 9, bad = 0, c = have + n;
            char *s = (char *)&bad; struct pbtools_bytes_t by = { NULL, 77 };
            struct pbtools_message_base_t *m = (void *)&bad;
            uint64_t need;
            if (f == 3) c = n - 1 < 0 ? 0 : (int)(rnd() % (uint64_t)n);    /* truncated length */
            b[0] = 0x55;
            ws_start(off + room[h], off);
            start(b, 1 + c, 1, f == 2 ? 1 + l % 8 : 0);
            d.heap_p = heap;
            at("%s(wire_type=%d) length=%llu with %d bytes left, %d bytes of workspace left at %d%s", nm[kind], w,
               (unsigned long long)L[l], c - n, room[h], off, f == 2 ? ", failed decoder" : "");
            dcalls = icalls = 0; dmsg = imsg = NULL; isize = 24; ierr = f == 1 ? -(1 + h % 8) : 0;
            if (kind == 0) pbtools_decoder_read_string(&d, w, &s);
            else if (kind == 1) pbtools_decoder_read_bytes(&d, w, &by);
            else pbtools_decoder_sub_message_decode(&d, w, &m, isize, init, inner);
            whole = w == K_LEN && f != 2 && spec_vscan(b + 1, c) > 0 && L[l] < INT_MAX && L[l] <= (uint64_t)(c - n);
            need = kind == 2 ? isize : (w == K_LEN && f != 2 && spec_vscan(b + 1, c) > 0 && L[l] < INT_MAX ? L[l] : 0) + (kind == 0);
            fit = fits(need, kind == 2 ? 8 : 1);
            ws_check();
            if (d.heap_p != heap) fail("the workspace was replaced");
            if (f == 2) want_err(-(1 + l % 8));
            else if (!whole) {
                if (fit) {
                    int e = w != K_LEN ? -1 : spec_vscan(b + 1, c) == 0 ? -2 : L[l] >= INT_MAX ? -8 : -2;
                    want_err(e);
                } else if (d.pos >= 0 || d.pos != d.size || d.pos < -8) fail("accepted: size %d pos %d", d.size, d.pos);
            } else if (!fit) want_err(-PBTOOLS_OUT_OF_MEMORY);
            else if (kind == 2 && ierr) want_err(ierr);
            else {
                want_ok(n + (int)L[l]);
                if (kind == 0) {
                    ws_new(s, L[l] + 1, 1);
                    if (memcmp(s, b + 1 + n, L[l]) || s[L[l]]) fail("wrong string content");
                } else if (kind == 1) {
                    if (by.size != L[l]) fail("size is %zu", by.size);
                    ws_new(by.buf_p, L[l], 1);
                    if (memcmp(by.buf_p, b + 1 + n, L[l])) fail("wrong bytes content");
                } else {
                    ws_new(m, isize, 8);
                    if (icalls != 1 || imsg != (void *)m || iheap != heap) fail("message not initialised");
                    if (dcalls != 1 || dmsg != (void *)m || dsize != (int)L[l] || dpos != 0 || dbuf != in + 1 + n)
                        fail("nested decoder got size %d pos %d", dsize, dpos);
                }
            }
            if (kind == 2 && dcalls && (dcalls > 1 || dmsg != imsg)) fail("nested decoder ran on a bad message");
            if (kind == 2 && (void *)m != (void *)&bad && (void *)m != imsg) fail("field holds a bad message");
            finish(1 + c); ws_end();
        }
    }
}

static void creation(void)
{
    int n, i, k, off;
    static const size_t S[] = { 8, 9, 16, 17, 24, 40, 100, 0x7fffffff, 0x80000000, 0x100000000ull, 0x100000010ull, SIZE_MAX, SIZE_MAX - 7 };
    if (wanted("message_new")) for (n = 0; n < 140; n++) for (i = 0; i < 13; i++) {
        void *m; struct pbtools_heap_t *hp; int h = (int)sizeof(struct pbtools_heap_t);
        ws = block((size_t)n); icalls = 0; isize = S[i] > 4096 ? 8 : S[i];
        at("pbtools_message_new(size=%d, message_size=%zu)", n, S[i]);
        m = pbtools_message_new(ws, (size_t)n, S[i], init);
        if ((m != NULL) != (n >= h && S[i] <= (size_t)(n - h))) fail("returned %p", m);
        if (m) {
            hp = iheap; long o = (long)((uint8_t *)m - ws);
            if (icalls != 1 || imsg != m || (uint8_t *)hp < ws || (uint8_t *)hp + h > (uint8_t *)m) fail("bad heap");
            if (hp->buf_p != (char *)ws || hp->size != n || hp->pos > n || o % 8 || o < h || o + (long)S[i] > hp->pos)
                fail("object at %ld, heap size %d pos %d", o, hp->size, hp->pos);
        } else if (icalls) fail("initialised nothing");
        free(ws);
    }
    if (wanted("sub_message_alloc")) for (n = 0; n < 140; n++) for (off = 16; off < 26; off++) for (i = 0; i < 13; i++) {
        struct pbtools_message_base_t *m, *old = (void *)&n; int r;
        m = old; ws_start(off + n, off); icalls = 0; isize = S[i] > 4096 ? 8 : S[i];
        at("pbtools_sub_message_alloc(size=%zu) with %d bytes of workspace left at %d", S[i], n, off);
        r = pbtools_sub_message_alloc(&m, heap, S[i], init);
        ws_check();
        if ((r == 0) != fits(S[i], 8)) fail("returned %d", r);
        if (r == 0) { ws_new(m, S[i], 8); if (icalls != 1 || imsg != (void *)m || iheap != heap) fail("not initialised"); }
        else if (m != old || icalls) fail("failed, but changed the field");
        ws_end();
    }
    for (k = 0; k < 16; k++) {
        static const char *K[] = { "int32", "int64", "sint32", "sint64", "uint32", "uint64", "fixed32", "fixed64",
            "sfixed32", "sfixed64", "float", "double", "bool", "bytes", "string", "message" };
        static const int W[] = { 4, 8, 4, 8, 4, 8, 4, 8, 4, 8, 4, 8, 1, 16, 8, 24 };
        static const int N[] = { 0, 1, 2, 3, 4, 5, 7, 12, -1, -2, -8, INT_MIN, INT_MIN + 1, INT_MAX, 0x10000000, 0x20000000, 0x20000001, 0x40000000, 0x40000001, -0x40000000 };
        char nm[64]; sprintf(nm, "alloc_repeated_%s", K[k]);
        if (k == 15 ? !(filter == NULL || strstr(filter, "pbtools_alloc_repeated ") || strstr(filter, "alloc_repeated_message")) : !wanted(nm)) continue;
        for (i = 0; i < 20; i++) for (off = 16; off < 26; off++) for (n = 0; n < 130; n += 1 + n / 20) {
            struct pbtools_repeated_message_t r = { 4711, NULL }; struct pbtools_message_base_t m; int x = -9, j;
            ws_start(off + n, off); m.heap_p = heap; icalls = 0; isize = 24;
            at("pbtools_alloc_repeated_%s(length=%d) with %d bytes of workspace left at %d", K[k], N[i], n, off);
#define A(I, F, S) case I: x = pbtools_alloc_repeated_##F(&m, N[i], (struct pbtools_repeated_##S##_t *)&r); break;
            switch (k) {
            A(0, int32, int32) A(1, int64, int64) A(2, sint32, int32) A(3, sint64, int64) A(4, uint32, uint32)
            A(5, uint64, uint64) A(6, fixed32, uint32) A(7, fixed64, uint64) A(8, sfixed32, int32) A(9, sfixed64, int64)
            A(10, float, float) A(11, double, double) A(12, bool, bool) A(13, bytes, bytes) A(14, string, string)
            case 15: x = pbtools_alloc_repeated(&r, N[i], heap, 24, init); break;
            }
            ws_check();
            if ((x == 0) != (N[i] >= 0 && fits((uint64_t)N[i] * (uint64_t)W[k], 8))) fail("returned %d", x);
            if (x != 0) { if (r.length != 4711) fail("failed, but the length is %d", r.length); }
            else {
                if (r.length != N[i]) fail("length is %d", r.length);
                ws_new(r.items_p, (size_t)N[i] * (size_t)W[k], 8);
                for (j = 0; j < N[i] * W[k] && k != 15; j++)
                    if (k == 14) { if (j % 8 == 0 && ((char **)r.items_p)[j / 8][0]) fail("item %d is not empty", j / 8); }
                    else if (((char *)r.items_p)[j]) fail("item byte %d is not zero", j);
                if (k == 15) {
                    if (icalls != N[i]) fail("%d messages initialised", icalls);
                    for (j = 0; j < N[i]; j++) if (((struct pbtools_message_base_t *)((char *)r.items_p + 24 * j))->heap_p != heap) fail("item %d", j);
                }
            }
            ws_end();
        }
    }
}

static void top(void)
{
    int n; struct pbtools_message_base_t m; uint8_t b[300]; int r;
    if (!wanted("message_decode")) return;
    for (n = 0; n < 300; n++) for (ierr = -8; ierr <= 0; ierr++) {
        in = block((size_t)n); memset(b, 7, sizeof(b)); memset(in, 7, (size_t)n); dcalls = 0;
        ws_start(40, 24); m.heap_p = heap;
        at("pbtools_message_decode(size=%d), inner decoder %d", n, ierr);
        r = pbtools_message_decode(&m, in, (size_t)n, inner);
        if (r != (ierr ? ierr : n)) fail("returned %d", r);
        if (dcalls != 1 || dmsg != (void *)&m || dsize != n || dpos != 0 || dbuf != in) fail("inner decoder got size %d pos %d", dsize, dpos);
        ws_check(); ws_end(); free(in);
    }
}

static void strings(void)
{
    static const char *S[] = { "Ok", "Bad wire type", "Out of data", "Out of memory", "Encode buffer full",
        "Bad field number", "Varint overflow", "Seek overflow", "Length delimited overflow" };
    int i;
    if (!wanted("error_code_to_string")) return;
    for (i = -50; i < 50; i++) {
        int a = i < 0 ? -i : i;
        at("pbtools_error_code_to_string(%d)", i);
        if (strcmp(pbtools_error_code_to_string(i), a <= 8 ? S[a] : "Unknown error")) fail("%s", pbtools_error_code_to_string(i));
    }
}

int main(int argc, char **argv)
{
    setup(argc, argv);
    scalars(); tags(); skips(); blobs(); creation(); top(); strings();
    printf("OK %lu\n", cases);
    return 0;
}
