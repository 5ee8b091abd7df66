/* The runtime API as generated code sees it: every function of pbtools.h that
 * generated code calls is replaced by its contract, phrased over an abstract
 * wire.  An encoder call appends one record (field number, wire type, payload);
 * a decoder call consumes one.  That the real functions turn such records into
 * bytes and back is what C01, C02, C06 and C07 prove about lib/src/pbtools.c.
 *
 * The including file defines MAXS (slots, one per declared field) and the
 * schema's tables before the harnesses run. */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include "pbtools.h"

#define A(c, text) __CPROVER_assert(c, text)
#define ASSUME(c) __CPROVER_assume(c)

enum { OP_NONE, OP_VARINT, OP_W32, OP_W64, OP_STRING, OP_BYTES, OP_MESSAGE,
       OP_REPEATED };
/* item kinds of repeated fields, by wire form and item type */
enum { K_NONE, K_I32, K_I64, K_U32, K_S32, K_S64, K_W32, K_W64, K_BOOL,
       K_STRING, K_BYTES, K_MESSAGE };
/* what the first pass of repeated decoding counts */
enum { P_VARINT, P_32, P_64, P_LENGTH };

struct rec {
    int count;
    int op;
    uint64_t value;             /* varint or fixed payload */
    const void *p;              /* string, bytes, message or items */
    size_t size;                /* bytes size, item size */
    int length;                 /* items */
    int kind;                   /* of items */
    void (*fn)();               /* of nested messages */
    void (*init)();
};

/* slot MAXS collects everything with an undeclared number */
static struct rec g_rec[MAXS + 1];
static int g_n;
static int g_num[MAXS + 1];
static struct pbtools_encoder_t *g_encoder;
static struct pbtools_decoder_t *g_decoder;
static struct pbtools_heap_t g_heap;

static int slot_of(int number)
{
    int i;
    for (i = 0; i < g_n; i++)
        if (g_num[i] == number) return i;
    return MAXS;
}

static void put(struct pbtools_encoder_t *e, int number, int op, uint64_t value,
                const void *p, size_t size, int length, int kind, void (*fn)())
{
    struct rec *r = &g_rec[slot_of(number)];
    A(e == g_encoder, "C10 writes through the encoder it was given");
    r->count++;
    r->op = op;
    r->value = value;
    r->p = p;
    r->size = size;
    r->length = length;
    r->kind = kind;
    r->fn = fn;
}

static uint64_t zz32(int32_t v) { return (uint32_t)v << 1 ^ (v < 0 ? 0xffffffffu : 0); }
static uint64_t zz64(int64_t v) { return (uint64_t)v << 1 ^ (v < 0 ? ~(uint64_t)0 : 0); }
static int32_t unzz32(uint64_t v)
{
    uint32_t u = (uint32_t)v;
    return (int32_t)(u >> 1 ^ (u & 1 ? 0xffffffffu : 0));
}
static int64_t unzz64(uint64_t v) { return (int64_t)(v >> 1 ^ (v & 1 ? ~(uint64_t)0 : 0)); }
static uint64_t bits_f(float v) { uint32_t u; memcpy(&u, &v, 4); return u; }
static uint64_t bits_d(double v) { uint64_t u; memcpy(&u, &v, 8); return u; }
static float float_of(uint64_t v) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; }
static double double_of(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }

/* -- encoding -- */
#define WRITER(name, type, op, expr)                                          \
    void pbtools_encoder_write_##name(struct pbtools_encoder_t *e, int n, type v) \
    { uint64_t x = (expr); if (x) put(e, n, op, x, 0, 0, 0, 0, 0); }          \
    void pbtools_encoder_write_##name##_always(struct pbtools_encoder_t *e, int n, type v) \
    { uint64_t x = (expr); put(e, n, op, x, 0, 0, 0, 0, 0); }
WRITER(int32, int32_t, OP_VARINT, (uint64_t)(int64_t)v)
WRITER(int64, int64_t, OP_VARINT, (uint64_t)v)
WRITER(sint32, int32_t, OP_VARINT, zz32(v))
WRITER(sint64, int64_t, OP_VARINT, zz64(v))
WRITER(uint32, uint32_t, OP_VARINT, v)
WRITER(uint64, uint64_t, OP_VARINT, v)
WRITER(bool, bool, OP_VARINT, v ? 1 : 0)
WRITER(enum, int, OP_VARINT, (uint64_t)(int64_t)v)
WRITER(fixed32, uint32_t, OP_W32, v)
WRITER(sfixed32, int32_t, OP_W32, (uint32_t)v)
WRITER(float, float, OP_W32, bits_f(v))
WRITER(fixed64, uint64_t, OP_W64, v)
WRITER(sfixed64, int64_t, OP_W64, (uint64_t)v)
WRITER(double, double, OP_W64, bits_d(v))

void pbtools_encoder_write_string_always(struct pbtools_encoder_t *e, int n, char *v)
{ put(e, n, OP_STRING, 0, v, 0, 0, 0, 0); }
void pbtools_encoder_write_string(struct pbtools_encoder_t *e, int n, char *v)
{ if (v[0]) put(e, n, OP_STRING, 0, v, 0, 0, 0, 0); }
void pbtools_encoder_write_bytes_always(struct pbtools_encoder_t *e, int n, struct pbtools_bytes_t *v)
{ put(e, n, OP_BYTES, 0, v->buf_p, v->size, 0, 0, 0); }
void pbtools_encoder_write_bytes(struct pbtools_encoder_t *e, int n, struct pbtools_bytes_t *v)
{ if (v->size) put(e, n, OP_BYTES, 0, v->buf_p, v->size, 0, 0, 0); }
void pbtools_encoder_sub_message_encode_always(
    struct pbtools_encoder_t *e, int n, struct pbtools_message_base_t *m,
    pbtools_message_encode_inner_t f)
{ put(e, n, OP_MESSAGE, 0, m, 0, 0, 0, (void (*)())f); }
void pbtools_encoder_sub_message_encode(
    struct pbtools_encoder_t *e, int n, struct pbtools_message_base_t *m,
    pbtools_message_encode_inner_t f)
{ if (m) put(e, n, OP_MESSAGE, 0, m, 0, 0, 0, (void (*)())f); }

#define REPEATED_WRITER(name, ctype, items, kind)                             \
    void pbtools_encoder_write_repeated_##name(struct pbtools_encoder_t *e, int n, \
                                               struct pbtools_repeated_##ctype##_t *r) \
    { if (r->length) put(e, n, OP_REPEATED, 0, r->items, 0, r->length, kind, 0); }
REPEATED_WRITER(int32, int32, items_p, K_I32)
REPEATED_WRITER(int64, int64, items_p, K_I64)
REPEATED_WRITER(sint32, int32, items_p, K_S32)
REPEATED_WRITER(sint64, int64, items_p, K_S64)
REPEATED_WRITER(uint32, uint32, items_p, K_U32)
REPEATED_WRITER(uint64, uint64, items_p, K_I64)
REPEATED_WRITER(fixed32, uint32, items_p, K_W32)
REPEATED_WRITER(fixed64, uint64, items_p, K_W64)
REPEATED_WRITER(sfixed32, int32, items_p, K_W32)
REPEATED_WRITER(sfixed64, int64, items_p, K_W64)
REPEATED_WRITER(float, float, items_p, K_W32)
REPEATED_WRITER(double, double, items_p, K_W64)
REPEATED_WRITER(bool, bool, items_p, K_BOOL)
REPEATED_WRITER(string, string, items_pp, K_STRING)
REPEATED_WRITER(bytes, bytes, items_p, K_BYTES)
void pbtools_encode_repeated_inner(
    struct pbtools_encoder_t *e, int n, struct pbtools_repeated_message_t *r,
    size_t item_size, pbtools_message_encode_inner_t f)
{
    if (r->length)
        put(e, n, OP_REPEATED, 0, r->items_p, item_size, r->length, K_MESSAGE,
            (void (*)())f);
}

/* -- decoding -- */

/* What pbtools_decoder_available does: MODE_STEP enters the loop for one
 * arbitrary iteration from an arbitrary message; MODE_REPLAY goes through the
 * records in g_rec. */
enum { MODE_STEP, MODE_REPLAY };
static int g_mode;
static int g_calls;             /* of available */
static bool g_more;             /* MODE_STEP: there is a record */
static bool g_done;             /* the loop is over */
static int g_tag, g_wire_type;
static int g_consumed;          /* calls that consumed the record */
static int g_wire;              /* OP_ class the record was consumed as */
static bool g_skipped;
static uint64_t g_varint, g_w32, g_w64;
static char *g_string;
static struct pbtools_bytes_t g_bytes;
static void *g_message;
static size_t g_sub_size;
static void (*g_sub_init)(), (*g_sub_decode)();
static int g_index;             /* MODE_REPLAY: record */
static int g_unknown;           /* an undeclared field number */
static struct pbtools_repeated_info_t *g_info[MAXS + 1];
static int g_info_count[MAXS + 1];
static int g_pass;              /* class of the first pass, or -1 */
static struct rec g_final[MAXS + 1];

static void entered(void);      /* checks the state before the loop */
static void havoc_message(void);
static void stepped(void);      /* checks one iteration */

int nondet_int(void);
bool nondet_bool(void);
uint64_t nondet_u64(void);
void *nondet_ptr(void);

bool pbtools_decoder_available(struct pbtools_decoder_t *d)
{
    A(d == g_decoder, "C10 reads through the decoder it was given");
    A(!g_done, "C10 one decode loop");
    g_calls++;
    if (g_mode == MODE_REPLAY) {
        g_index++;
        if (g_index == g_n) g_done = true;
        return !g_done;
    }
    if (g_calls == 1) {
        int i;
        entered();
        g_more = nondet_bool();
        havoc_message();
        for (i = 0; i <= MAXS; i++)
            if (g_info[i]) {
                g_info[i]->length = nondet_int();
                g_info[i]->wire_type = nondet_int();
            }
        if (!g_more) { g_done = true; stepped(); }
        return g_more;
    }
    stepped();
    g_done = true;
    return false;
}

int pbtools_decoder_read_tag(struct pbtools_decoder_t *d, int *wire_type_p)
{
    A(d == g_decoder, "C10 reads through the decoder it was given");
    A(!g_done && g_calls > 0, "C10 reads records inside the loop");
    if (g_mode == MODE_REPLAY) {
        struct rec *r = &g_rec[g_index];
        g_tag = r->count ? g_num[g_index] : g_unknown;
        g_wire_type = !r->count || r->op == OP_VARINT ? 0 : r->op == OP_W64 ? 1
            : r->op == OP_W32 ? 5 : 2;
        g_varint = g_w32 = g_w64 = r->value;
        g_string = (char *)r->p;
        g_bytes.buf_p = (uint8_t *)r->p;
        g_bytes.size = r->size;
        g_message = (void *)r->p;
    } else {
        A(g_tag == -1, "C10 reads one tag per record");
        g_tag = nondet_int();
        ASSUME(g_tag >= 0);
        g_wire_type = nondet_int();
        ASSUME(g_wire_type >= 0 && g_wire_type < 8);
        g_varint = nondet_u64();
        g_w32 = (uint32_t)nondet_u64();
        g_w64 = nondet_u64();
    }
    *wire_type_p = g_wire_type;
    g_consumed = 0;
    g_skipped = false;
    g_pass = -1;
    return g_tag;
}

static void consume(struct pbtools_decoder_t *d, int wire_type, int op)
{
    A(d == g_decoder, "C10 reads through the decoder it was given");
    A(!g_done && g_calls > 0, "C10 reads records inside the loop");
    A(wire_type == g_wire_type, "C10 passes on the wire type of the record");
    g_consumed++;
    g_wire = op;
}

#define READER(name, type, op, expr)                                          \
    type pbtools_decoder_read_##name(struct pbtools_decoder_t *d, int w)      \
    { consume(d, w, op); return (expr); }
READER(int32, int32_t, OP_VARINT, (int32_t)g_varint)
READER(int64, int64_t, OP_VARINT, (int64_t)g_varint)
READER(sint32, int32_t, OP_VARINT, unzz32(g_varint))
READER(sint64, int64_t, OP_VARINT, unzz64(g_varint))
READER(uint32, uint32_t, OP_VARINT, (uint32_t)g_varint)
READER(uint64, uint64_t, OP_VARINT, g_varint)
READER(bool, bool, OP_VARINT, g_varint != 0)
READER(enum, int, OP_VARINT, (int32_t)g_varint)
READER(fixed32, uint32_t, OP_W32, (uint32_t)g_w32)
READER(sfixed32, int32_t, OP_W32, (int32_t)g_w32)
READER(float, float, OP_W32, float_of(g_w32))
READER(fixed64, uint64_t, OP_W64, g_w64)
READER(sfixed64, int64_t, OP_W64, (int64_t)g_w64)
READER(double, double, OP_W64, double_of(g_w64))

void pbtools_decoder_read_string(struct pbtools_decoder_t *d, int w, char **pp)
{ consume(d, w, OP_STRING); *pp = g_string; }
void pbtools_decoder_read_bytes(struct pbtools_decoder_t *d, int w, struct pbtools_bytes_t *p)
{ consume(d, w, OP_BYTES); *p = g_bytes; }
void pbtools_decoder_sub_message_decode(
    struct pbtools_decoder_t *d, int w, struct pbtools_message_base_t **pp,
    size_t size, pbtools_message_init_t init, pbtools_message_decode_inner_t f)
{
    consume(d, w, OP_MESSAGE);
    *pp = g_message;
    g_sub_size = size;
    g_sub_init = (void (*)())init;
    g_sub_decode = (void (*)())f;
}
void pbtools_decoder_skip_field(struct pbtools_decoder_t *d, int w)
{ consume(d, w, OP_NONE); g_skipped = true; }

void pbtools_repeated_info_init(struct pbtools_repeated_info_t *p, int tag)
{
    int s = slot_of(tag);
    A(g_calls == 0, "C10 repeated infos are initialised before the loop");
    g_info[s] = p;
    g_info_count[s]++;
    p->length = 0;
    p->tag = tag;
}

static void pass(struct pbtools_repeated_info_t *p, struct pbtools_decoder_t *d,
                 int w, int class)
{
    int s = slot_of(g_tag);
    consume(d, w, OP_REPEATED);
    A(s < MAXS && p == g_info[s], "C10 C06 counts items in the info of that field");
    g_pass = class;
}
#define PASS(name, class)                                                     \
    void pbtools_repeated_info_decode_##name(struct pbtools_repeated_info_t *p, \
                                             struct pbtools_decoder_t *d, int w) \
    { pass(p, d, w, class); }
PASS(int32, P_VARINT) PASS(int64, P_VARINT) PASS(sint32, P_VARINT)
PASS(sint64, P_VARINT) PASS(uint32, P_VARINT) PASS(uint64, P_VARINT)
PASS(bool, P_VARINT)
PASS(fixed32, P_32) PASS(sfixed32, P_32) PASS(float, P_32)
PASS(fixed64, P_64) PASS(sfixed64, P_64) PASS(double, P_64)
PASS(string, P_LENGTH) PASS(bytes, P_LENGTH)
void pbtools_repeated_info_decode(struct pbtools_repeated_info_t *p,
                                  struct pbtools_decoder_t *d, int w)
{ pass(p, d, w, P_LENGTH); }

static struct rec *final(struct pbtools_decoder_t *d, struct pbtools_repeated_info_t *info,
                         void *dest, int kind)
{
    int i, s = MAXS;
    struct rec *r;
    A(d == g_decoder, "C10 reads through the decoder it was given");
    A(g_done, "C10 repeated fields are decoded after the loop");
    for (i = 0; i < g_n; i++)
        if (g_info[i] == info) s = i;
    r = &g_final[s];
    r->count++;
    r->p = dest;
    r->kind = kind;
    return r;
}
#define FINAL(name, ctype, items, k)                                          \
    void pbtools_decoder_decode_repeated_##name(                              \
        struct pbtools_decoder_t *d, struct pbtools_repeated_info_t *info,    \
        struct pbtools_repeated_##ctype##_t *p)                               \
    {                                                                         \
        struct rec *r = final(d, info, p, k);                                 \
        if (g_mode == MODE_REPLAY) {                                          \
            struct rec *q = &g_rec[r - g_final];                              \
            if (q->count) { p->length = q->length; p->items = (void *)q->p; } \
        }                                                                     \
    }
FINAL(int32, int32, items_p, K_I32)
FINAL(int64, int64, items_p, K_I64)
FINAL(sint32, int32, items_p, K_S32)
FINAL(sint64, int64, items_p, K_S64)
FINAL(uint32, uint32, items_p, K_U32)
FINAL(uint64, uint64, items_p, K_I64)
FINAL(fixed32, uint32, items_p, K_W32)
FINAL(fixed64, uint64, items_p, K_W64)
FINAL(sfixed32, int32, items_p, K_W32)
FINAL(sfixed64, int64, items_p, K_W64)
FINAL(float, float, items_p, K_W32)
FINAL(double, double, items_p, K_W64)
FINAL(bool, bool, items_p, K_BOOL)
FINAL(string, string, items_pp, K_STRING)
FINAL(bytes, bytes, items_p, K_BYTES)
void pbtools_decode_repeated_inner(
    struct pbtools_decoder_t *d, struct pbtools_repeated_info_t *info,
    struct pbtools_repeated_message_t *p, size_t item_size,
    pbtools_message_init_t init, pbtools_message_decode_inner_t f)
{
    struct rec *r = final(d, info, p, K_MESSAGE);
    r->size = item_size;
    r->fn = (void (*)())f;
    r->init = (void (*)())init;
    if (g_mode == MODE_REPLAY) {
        struct rec *q = &g_rec[r - g_final];
        if (q->count) { p->length = q->length; p->items_p = (void *)q->p; }
    }
}

/* -- messages and allocation: recorded, checked by the harness -- */
static struct {
    int count, ret, length, kind;
    void *base, *dest, *heap, *buf, *result;
    size_t size, item_size;
    void (*init)(), (*fn)();
} g_call;

void pbtools_bytes_init(struct pbtools_bytes_t *p) { p->size = 0; }

void *pbtools_message_new(void *w, size_t size, size_t n, pbtools_message_init_t init)
{
    g_call.count++; g_call.buf = w; g_call.size = size; g_call.item_size = n;
    g_call.init = (void (*)())init;
    g_call.kind = 'n';
    return g_call.result;
}
int pbtools_message_encode(struct pbtools_message_base_t *m, uint8_t *p, size_t n,
                           pbtools_message_encode_inner_t f)
{
    g_call.count++; g_call.base = m; g_call.buf = p; g_call.size = n;
    g_call.fn = (void (*)())f;
    g_call.kind = 'e';
    return g_call.ret;
}
int pbtools_message_decode(struct pbtools_message_base_t *m, const uint8_t *p, size_t n,
                           pbtools_message_decode_inner_t f)
{
    g_call.count++; g_call.base = m; g_call.buf = (void *)p; g_call.size = n;
    g_call.fn = (void (*)())f;
    g_call.kind = 'd';
    return g_call.ret;
}
int pbtools_sub_message_alloc(struct pbtools_message_base_t **pp,
                              struct pbtools_heap_t *heap, size_t n,
                              pbtools_message_init_t init)
{
    g_call.count++; g_call.dest = pp; g_call.heap = heap; g_call.item_size = n;
    g_call.init = (void (*)())init;
    g_call.kind = 'a';
    return g_call.ret;
}
int pbtools_alloc_repeated(struct pbtools_repeated_message_t *r, int length,
                           struct pbtools_heap_t *heap, size_t n,
                           pbtools_message_init_t init)
{
    g_call.count++; g_call.dest = r; g_call.length = length; g_call.heap = heap;
    g_call.item_size = n; g_call.init = (void (*)())init;
    g_call.kind = K_MESSAGE;
    return g_call.ret;
}
/* kinds by what the items look like in memory */
#define ALLOC(name, ctype, k)                                                 \
    int pbtools_alloc_repeated_##name(struct pbtools_message_base_t *m, int length, \
                                      struct pbtools_repeated_##ctype##_t *r) \
    {                                                                         \
        g_call.count++; g_call.base = m; g_call.length = length;              \
        g_call.dest = r; g_call.kind = k;                                     \
        return g_call.ret;                                                    \
    }
ALLOC(int32, int32, K_W32) ALLOC(sint32, int32, K_W32) ALLOC(sfixed32, int32, K_W32)
ALLOC(uint32, uint32, K_W32) ALLOC(fixed32, uint32, K_W32) ALLOC(float, float, K_W32)
ALLOC(int64, int64, K_W64) ALLOC(sint64, int64, K_W64) ALLOC(sfixed64, int64, K_W64)
ALLOC(uint64, uint64, K_W64) ALLOC(fixed64, uint64, K_W64) ALLOC(double, double, K_W64)
ALLOC(bool, bool, K_BOOL) ALLOC(string, string, K_STRING) ALLOC(bytes, bytes, K_BYTES)
