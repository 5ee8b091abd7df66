/* Whole messages: generated code against a reference codec that is driven by
 * a table made from the schema model (table.h, generated).  Bounded: concrete
 * pseudo-random messages and wire inputs. */
#include "util.h"
#include <stddef.h>
#include <pthread.h>

enum { T_I32, T_I64, T_S32, T_S64, T_U32, T_U64, T_F32, T_F64, T_SF32, T_SF64,
       T_FLOAT, T_DOUBLE, T_BOOL, T_STRING, T_BYTES, T_ENUM, T_MESSAGE };
enum { L_PLAIN, L_OPTIONAL, L_REPEATED, L_ONEOF };

struct mdesc;
struct fdesc {
    const char *name;
    int number, kind, label;
    size_t off;                 /* value, or repeated struct */
    size_t sel;                 /* is_present or oneof selector */
    int choice;                 /* oneof selector value */
    const struct mdesc *sub;
    int (*alloc)(void *);
    int (*alloc_n)(void *, int);
    void (*init)(void *);
};
struct mdesc {
    const char *name;
    size_t size;
    int n, public;
    const struct fdesc *f;      /* sorted by number */
    void *(*new)(void *, size_t);
    int (*encode)(void *, uint8_t *, size_t);
    int (*decode)(void *, const uint8_t *, size_t);
    void (*init)(void *, struct pbtools_heap_t *);
    void (*encode_inner)(struct pbtools_encoder_t *, void *);
    void (*decode_inner)(struct pbtools_decoder_t *, void *);
};

#include "table.h"

static void *m_new(const struct mdesc *d, void *ws, size_t n)
{
    return d->public ? d->new(ws, n)
        : pbtools_message_new(ws, n, d->size, (pbtools_message_init_t)d->init);
}

static int m_encode(const struct mdesc *d, void *m, uint8_t *p, size_t n)
{
    return d->public ? d->encode(m, p, n)
        : pbtools_message_encode(m, p, n, (pbtools_message_encode_inner_t)d->encode_inner);
}

static int m_decode(const struct mdesc *d, void *m, const uint8_t *p, size_t n)
{
    return d->public ? d->decode(m, p, n)
        : pbtools_message_decode(m, p, n, (pbtools_message_decode_inner_t)d->decode_inner);
}

/* -- byte buffers ---------------------------------------------------------- */

struct buf { uint8_t *p; size_t n, cap; };

static void put(struct buf *b, const void *p, size_t n)
{
    if (b->n + n > b->cap) {
        b->cap = (b->n + n) * 2 + 64;
        b->p = realloc(b->p, b->cap);
    }
    if (n) memcpy(b->p + b->n, p, n);
    b->n += n;
}
static void put64(struct buf *b, uint64_t v) { put(b, &v, 8); }

static size_t item_size(const struct fdesc *f)
{
    switch (f->kind) {
    case T_I32: case T_S32: case T_U32: case T_F32: case T_SF32: case T_FLOAT:
    case T_ENUM: return 4;
    case T_BOOL: return sizeof(bool);
    case T_STRING: return sizeof(char *);
    case T_BYTES: return sizeof(struct pbtools_bytes_t);
    case T_MESSAGE: return f->sub->size;
    default: return 8;
    }
}

/* canonical 64 bit value of a scalar in memory */
static uint64_t load(const struct fdesc *f, const void *p)
{
    uint32_t u; uint64_t v; int32_t i; uint8_t b;
    switch (f->kind) {
    case T_BOOL: memcpy(&b, p, 1); return b;
    case T_I32: case T_S32: case T_SF32: case T_ENUM:
        memcpy(&i, p, 4); return (uint64_t)(int64_t)i;
    case T_U32: case T_F32: case T_FLOAT: memcpy(&u, p, 4); return u;
    default: memcpy(&v, p, 8); return v;
    }
}

static void store(const struct fdesc *f, void *p, uint64_t v)
{
    if (f->kind == T_BOOL) *(bool *)p = v & 1;
    else memcpy(p, &v, item_size(f));
}

static void dump(const struct mdesc *d, const void *m, struct buf *b);

static void dump_one(const struct fdesc *f, const char *p, struct buf *b, int in_array)
{
    if (f->kind == T_STRING) {
        const char *s = *(char *const *)p;
        if (s == NULL) fail("string %s is NULL", f->name);
        put64(b, strlen(s)); put(b, s, strlen(s));
    } else if (f->kind == T_BYTES) {
        const struct pbtools_bytes_t *y = (const void *)p;
        put64(b, y->size); put(b, y->buf_p, y->size);
    } else if (f->kind == T_MESSAGE) {
        const void *m = in_array ? p : *(void *const *)p;
        put64(b, m != NULL);
        if (m) dump(f->sub, m, b);
    } else {
        put64(b, load(f, p));
    }
}

static void dump(const struct mdesc *d, const void *m, struct buf *b)
{
    int i, j;
    const char *p = m;
    for (i = 0; i < d->n; i++) {
        const struct fdesc *f = &d->f[i];
        put64(b, f->number);
        if (f->label == L_REPEATED) {
            const struct pbtools_repeated_message_t *r = (const void *)(p + f->off);
            put64(b, (uint64_t)(int64_t)r->length);
            for (j = 0; j < r->length; j++)
                dump_one(f, (const char *)r->items_p + j * item_size(f), b, 1);
        } else if (f->label == L_OPTIONAL) {
            uint8_t on; memcpy(&on, p + f->sel, 1);
            put64(b, on);
            if (on) dump_one(f, p + f->off, b, 0);
        } else if (f->label == L_ONEOF) {
            int s; memcpy(&s, p + f->sel, sizeof(s));
            put64(b, s == f->choice);
            if (s == f->choice) dump_one(f, p + f->off, b, 0);
        } else {
            dump_one(f, p + f->off, b, 0);
        }
    }
}

/* -- reference decoder ------------------------------------------------------ */

struct val { uint64_t u; const uint8_t *p; size_t n; };
struct acc { int count; struct val *v; int cap; };

static void push(struct acc *a, struct val v)
{
    if (a->count == a->cap) {
        a->cap = a->cap * 2 + 8;
        a->v = realloc(a->v, a->cap * sizeof(v));
    }
    a->v[a->count++] = v;
}

struct in { const uint8_t *p; size_t n, i; int err, far; };

static uint64_t r_varint(struct in *s)
{
    uint64_t v = 0; int k;
    for (k = 0; k < 10; k++) {
        uint8_t x;
        if (s->i >= s->n) { s->err = 2; return 0; }
        x = s->p[s->i++];
        if (k < 9) v |= (uint64_t)(x & 0x7f) << (7 * k);
        else v |= (uint64_t)(x & 1) << 63;
        if (!(x & 0x80)) return v;
    }
    s->err = 6;
    return 0;
}

static struct val r_span(struct in *s, size_t n)
{
    struct val v = { 0, s->p + s->i, n };
    if (n > s->n - s->i) { s->err = 2; v.n = 0; return v; }
    s->i += n;
    return v;
}

static struct val r_len(struct in *s)
{
    uint64_t n = r_varint(s);
    struct val v = { 0, 0, 0 };
    if (s->err) return v;
    if (n >= 2147483647) { s->err = 8; return v; }
    /* both out of data and past the largest position */
    if (n > 2147483647 - 100000) s->far = 1;
    return r_span(s, n);
}

static int wire(int kind)
{
    switch (kind) {
    case T_F32: case T_SF32: case T_FLOAT: return 5;
    case T_F64: case T_SF64: case T_DOUBLE: return 1;
    case T_STRING: case T_BYTES: case T_MESSAGE: return 2;
    default: return 0;
    }
}

static struct val r_item(struct in *s, int kind)
{
    struct val v = { 0, 0, 0 };
    int w = wire(kind);
    uint64_t u;
    if (w == 2) return r_len(s);
    if (w == 0) {
        u = r_varint(s);
        switch (kind) {
        case T_I32: case T_ENUM: u = (uint64_t)(int64_t)(int32_t)u; break;
        case T_U32: u = (uint32_t)u; break;
        case T_S32: u = (uint32_t)u; u = (uint64_t)(int64_t)(int32_t)((uint32_t)(u >> 1) ^ (0u - (uint32_t)(u & 1))); break;
        case T_S64: u = (u >> 1) ^ (0ull - (u & 1)); break;
        case T_BOOL: u = u != 0; break;
        }
    } else {
        struct val x = r_span(s, w == 5 ? 4 : 8);
        if (s->err) return v;
        u = 0;
        memcpy(&u, x.p, w == 5 ? 4 : 8);
        if (kind == T_SF32) u = (uint64_t)(int64_t)(int32_t)u;
    }
    v.u = u;
    return v;
}

/* decodes and dumps; returns the set of acceptable error codes, 0 if none */
static unsigned ref_decode(const struct mdesc *d, const uint8_t *p, size_t n, struct buf *out);

static void ref_one(const struct fdesc *f, struct val v, struct buf *b)
{
    if (f->kind == T_STRING) {
        size_t n = strnlen((const char *)v.p, v.n);
        if (v.n == 0) n = 0;
        put64(b, n); put(b, v.p, n);
    } else if (f->kind == T_BYTES) {
        put64(b, v.n); put(b, v.p, v.n);
    } else if (f->kind == T_MESSAGE) {
        put64(b, 1);
        ref_decode(f->sub, v.p, v.n, b);
    } else {
        put64(b, v.u);
    }
}

static unsigned ref_decode(const struct mdesc *d, const uint8_t *p, size_t n, struct buf *out)
{
    struct in s = { p, n, 0, 0, 0 };
    struct acc *a = calloc(d->n + 1, sizeof(*a));
    struct buf scrap = { 0, 0, 0 };
    const struct fdesc *last[64];
    size_t nlast = 0;
    unsigned mask = 0;
    int i, j;

    while (s.i < s.n && !mask) {
        uint32_t tag = (uint32_t)r_varint(&s);
        int w = tag & 7;
        const struct fdesc *f = NULL;
        if (!s.err && tag >> 3 == 0) s.err = 5;
        if (s.err) break;
        for (i = 0; i < d->n; i++)
            if (d->f[i].number == (int)(tag >> 3)) { f = &d->f[i]; break; }
        if (f == NULL) {
            if (w == 0) r_varint(&s);
            else if (w == 1) r_span(&s, 8);
            else if (w == 2) r_len(&s);
            else if (w == 5) r_span(&s, 4);
            else s.err = 1;
            if (s.err) break;
            continue;
        }
        if (f->label == L_REPEATED && w == 2 && wire(f->kind) != 2) {
            struct val span = r_len(&s);
            struct in t = { span.p, span.n, 0, 0, 0 };
            if (s.err) break;
            while (t.i < t.n && !t.err) {
                struct val v = r_item(&t, f->kind);
                if (!t.err) push(&a[i], v);
            }
            s.err = t.err;
            if (s.err) break;
            continue;
        }
        if (w != wire(f->kind)) { s.err = 1; break; }
        {
            struct val v = r_item(&s, f->kind);
            if (s.err) break;
            if (f->kind == T_MESSAGE && f->label != L_REPEATED) {
                scrap.n = 0;
                mask = ref_decode(f->sub, v.p, v.n, &scrap);
                if (mask) break;
            }
            if (f->label != L_REPEATED) a[i].count = 0;
            if (f->label == L_ONEOF)
                for (j = 0; j < d->n; j++)
                    if (d->f[j].label == L_ONEOF && d->f[j].sel == f->sel) a[j].count = 0;
            push(&a[i], v);
        }
    }
    if (s.err) mask = 1u << s.err;
    if (s.err == 2 && s.far) mask |= 1u << 7;
    if (!mask)
        for (i = 0; i < d->n; i++)
            if (d->f[i].label == L_REPEATED && d->f[i].kind == T_MESSAGE)
                for (j = 0; j < a[i].count; j++) {
                    scrap.n = 0;
                    mask |= ref_decode(d->f[i].sub, a[i].v[j].p, a[i].v[j].n, &scrap);
                }
    if (!mask)
        for (i = 0; i < d->n; i++) {
            const struct fdesc *f = &d->f[i];
            struct acc *c = &a[i];
            struct val zero = { 0, (const uint8_t *)"", 0 };
            put64(out, f->number);
            if (f->label == L_REPEATED) {
                put64(out, c->count);
                for (j = 0; j < c->count; j++) ref_one(f, c->v[j], out);
            } else if (f->label == L_PLAIN) {
                if (c->count) ref_one(f, c->v[0], out);
                else if (f->kind == T_MESSAGE) put64(out, 0);
                else ref_one(f, zero, out);
            } else {
                put64(out, c->count != 0);
                if (c->count) ref_one(f, c->v[0], out);
            }
        }
    for (i = 0; i < d->n; i++) free(a[i].v);
    free(a); free(scrap.p);
    (void)last; (void)nlast;
    return mask;
}

/* -- reference size --------------------------------------------------------- */

static size_t vsize(uint64_t v) { size_t n = 1; while (v >>= 7) n++; return n; }

static size_t ref_size(const struct mdesc *d, const void *m);

static size_t value_size(const struct fdesc *f, const char *p, int in_array)
{
    uint64_t u;
    size_t n;
    switch (f->kind) {
    case T_STRING: n = strlen(*(char *const *)p); return vsize(n) + n;
    case T_BYTES: n = ((const struct pbtools_bytes_t *)(const void *)p)->size; return vsize(n) + n;
    case T_MESSAGE:
        n = ref_size(f->sub, in_array ? p : *(void *const *)p); return vsize(n) + n;
    }
    u = load(f, p);
    switch (f->kind) {
    case T_S32: return vsize((uint32_t)(((uint32_t)u << 1) ^ (uint32_t)((int32_t)u >> 31)));
    case T_S64: return vsize((u << 1) ^ (uint64_t)((int64_t)u >> 63));
    case T_F32: case T_SF32: case T_FLOAT: return 4;
    case T_F64: case T_SF64: case T_DOUBLE: return 8;
    default: return vsize(u);
    }
}

static size_t ref_size(const struct mdesc *d, const void *m)
{
    size_t total = 0, n;
    int i, j;
    for (i = 0; i < d->n; i++) {
        const struct fdesc *f = &d->f[i];
        const char *p = (const char *)m + f->off;
        size_t tag = vsize((uint64_t)f->number << 3);
        if (f->label == L_REPEATED) {
            const struct pbtools_repeated_message_t *r = (const void *)p;
            for (n = 0, j = 0; j < r->length; j++)
                n += value_size(f, (const char *)r->items_p + j * item_size(f), 1)
                    + (wire(f->kind) == 2 ? tag : 0);
            if (wire(f->kind) != 2 && r->length > 0) n += tag + vsize(n);
            total += n;
        } else if (f->label == L_OPTIONAL) {
            uint8_t on; memcpy(&on, (const char *)m + f->sel, 1);
            if (on) total += tag + value_size(f, p, 0);
        } else if (f->label == L_ONEOF) {
            int s; memcpy(&s, (const char *)m + f->sel, sizeof(s));
            if (s == f->choice) total += tag + value_size(f, p, 0);
        } else if (f->kind == T_MESSAGE) {
            if (*(void *const *)p) total += tag + value_size(f, p, 0);
        } else if (f->kind == T_STRING ? **(char *const *)p != 0
                   : f->kind == T_BYTES ? ((const struct pbtools_bytes_t *)(const void *)p)->size != 0
                   : load(f, p) != 0) {
            total += tag + value_size(f, p, 0);
        }
    }
    return total;
}

/* -- random messages -------------------------------------------------------- */

static uint8_t pool[1 << 16];
static size_t pool_n;

static uint8_t *space(size_t n)
{
    if (pool_n + n > sizeof(pool)) pool_n = 0;
    pool_n += n;
    return pool + pool_n - n;
}

static int small_len(void)
{
    switch (rnd() % 12) {
    case 0: case 1: return 0;
    case 2: return 127 + rnd() % 3;
    case 3: return rnd() % 300;
    default: return rnd() % 6;
    }
}

static void fill_one(const struct fdesc *f, char *p, int depth, int in_array);

static void populate(const struct mdesc *d, void *m, int depth)
{
    int i, j, n;
    int density = rnd() % 4;
    for (i = 0; i < d->n; i++) {
        const struct fdesc *f = &d->f[i];
        char *p = (char *)m + f->off;
        if (density != 3 && rnd() % 4 < (unsigned)density) continue;
        if (f->label == L_REPEATED) {
            n = rnd() % 4;
            if (f->kind == T_MESSAGE && depth > 2) n = 0;
            if (f->kind != T_MESSAGE && rnd() % 8 == 0) n = rnd() % 40;
            if (f->alloc_n(m, n) != 0) fail("%s.%s: alloc of %d items failed", d->name, f->name, n);
            {
                struct pbtools_repeated_message_t *r = (void *)p;
                if (r->length != n) fail("%s.%s: length %d after alloc of %d", d->name, f->name, r->length, n);
                for (j = 0; j < n; j++) fill_one(f, (char *)r->items_p + j * item_size(f), depth, 1);
            }
        } else if (f->label == L_OPTIONAL) {
            *(bool *)((char *)m + f->sel) = true;
            if (f->kind == T_STRING) *(char **)p = "";
            fill_one(f, p, depth, 0);
        } else {
            if (f->label == L_ONEOF && f->init) f->init(m);
            if (f->kind == T_MESSAGE) {
                /* a oneof that selects a message needs one */
                if (depth > 3 && f->label != L_ONEOF) continue;
                if (f->alloc(m) != 0) fail("%s.%s: alloc failed", d->name, f->name);
                if (depth > 4) continue;
            }
            fill_one(f, p, depth, 0);
        }
    }
}

static void fill_one(const struct fdesc *f, char *p, int depth, int in_array)
{
    int n, i;
    if (f->kind == T_STRING) {
        char *s;
        n = small_len();
        s = (char *)space(n + 1);
        for (i = 0; i < n; i++) s[i] = (char)(1 + rnd() % 255);
        s[n] = 0;
        *(char **)p = s;
    } else if (f->kind == T_BYTES) {
        struct pbtools_bytes_t *y = (void *)p;
        n = small_len();
        y->buf_p = space(n + 1);
        y->size = n;
        for (i = 0; i < n; i++) y->buf_p[i] = (uint8_t)rnd();
    } else if (f->kind == T_MESSAGE) {
        populate(f->sub, in_array ? (void *)p : *(void **)p, depth + 1);
    } else {
        store(f, p, value(rnd() % (NV * 2)));
    }
}

/* -- random wire input ------------------------------------------------------- */

static void w_varint(struct buf *b, uint64_t v)
{
    uint8_t x[10]; int n = 0;
    do { x[n++] = (uint8_t)(v | 0x80); v >>= 7; } while (v);
    x[n - 1] &= 0x7f;
    if (rnd() % 12 == 0)
        while (n < 10 && rnd() % 3) { x[n - 1] |= 0x80; x[n++] = 0; }
    put(b, x, n);
}

static void w_message(const struct mdesc *d, struct buf *b, int depth);

static void w_item(const struct fdesc *f, int kind, struct buf *b, int depth)
{
    uint64_t v = value(rnd() % (NV * 2));
    struct buf t = { 0, 0, 0 };
    int i, n;
    switch (wire(kind)) {
    case 0:
        if (kind == T_BOOL && rnd() % 4) v &= 1;
        w_varint(b, v);
        break;
    case 1: put(b, &v, 8); break;
    case 5: put(b, &v, 4); break;
    default:
        if (kind == T_MESSAGE) {
            if (depth < 4) w_message(f->sub, &t, depth + 1);
        } else {
            n = small_len();
            for (i = 0; i < n; i++) { uint8_t c = (uint8_t)rnd(); put(&t, &c, 1); }
        }
        w_varint(b, t.n);
        put(b, t.p, t.n);
        free(t.p);
    }
}

static void w_message(const struct mdesc *d, struct buf *b, int depth)
{
    int records = rnd() % (depth ? 5 : 12), i, j, n;
    for (i = 0; i < records; i++) {
        if (d->n == 0 || rnd() % 6 == 0) {
            /* an unknown field */
            static const int kinds[] = { T_U64, T_F32, T_F64, T_BYTES };
            struct fdesc u;
            uint32_t number;
            memset(&u, 0, sizeof(u));
            u.kind = kinds[rnd() % 4];
            for (;;) {
                number = rnd() % 3 ? 1 + rnd() % 50 : 1 + rnd() % 536870911;
                for (j = 0; j < d->n; j++) if (d->f[j].number == (int)number) break;
                if (j == d->n) break;
            }
            w_varint(b, (uint64_t)number << 3 | wire(u.kind));
            w_item(&u, u.kind, b, depth);
        } else {
            const struct fdesc *f = &d->f[rnd() % d->n];
            if (f->label == L_REPEATED && wire(f->kind) != 2 && rnd() % 2) {
                struct buf t = { 0, 0, 0 };
                w_varint(b, (uint64_t)f->number << 3 | 2);
                n = rnd() % 5;
                for (j = 0; j < n; j++) w_item(f, f->kind, &t, depth);
                w_varint(b, t.n);
                put(b, t.p, t.n);
                free(t.p);
            } else {
                w_varint(b, (uint64_t)f->number << 3 | wire(f->kind));
                w_item(f, f->kind, b, depth);
            }
        }
    }
}

/* -- tests ------------------------------------------------------------------ */

static void *exact(size_t n, int fill)
{
    void *p = malloc(n ? n : 1);
    memset(p, fill, n ? n : 1);
    if (n == 0) { free(p); p = malloc(0); }
    return p;
}

static int BIG = 1 << 17;     /* workspaces and buffers */

static void show(struct buf *text, const uint8_t *p, size_t n)
{
    size_t i;
    for (i = 0; i < n && i < 600; i++) {
        char x[3];
        sprintf(x, "%02x", p[i]);
        put(text, x, 2);
    }
    put(text, "", 1);
}

static int same(struct buf *a, struct buf *b)
{
    return a->n == b->n && (a->n == 0 || memcmp(a->p, b->p, a->n) == 0);
}

/* a new message has every field at its default */
static void t_new(const struct mdesc *d)
{
    int fill;
    for (fill = 0; fill < 2; fill++) {
        void *ws = exact(BIG, fill ? 0xa5 : 0), *m;
        struct buf a = { 0, 0, 0 }, b = { 0, 0, 0 };
        at("new %s workspace filled with %02x", d->name, fill ? 0xa5 : 0);
        m = m_new(d, ws, BIG);
        if (!m) fail("no message");
        dump(d, m, &a);
        ref_decode(d, (const uint8_t *)"", 0, &b);
        if (!same(&a, &b)) fail("a new message is not at its defaults");
        free(ws); free(a.p); free(b.p);
    }
    /* oneof init functions select their member at its default */
    {
        int i;
        for (i = 0; i < d->n; i++) {
            const struct fdesc *f = &d->f[i];
            void *ws, *m;
            int s;
            if (f->label != L_ONEOF) continue;
            ws = exact(BIG, 0xa5);
            m = m_new(d, ws, BIG);
            at("init of %s.%s", d->name, f->name);
            if (f->init) {
                /* garbage in the member first */
                memset((char *)m + f->off, 0x5a, f->kind == T_BYTES ? sizeof(struct pbtools_bytes_t) : f->kind == T_BOOL ? 1 : f->kind == T_STRING ? 8 : item_size(f));
                f->init(m);
            } else if (f->alloc(m) != 0) fail("alloc failed");
            memcpy(&s, (char *)m + f->sel, sizeof(s));
            if (s != f->choice) fail("selects %d, not %d", s, f->choice);
            if (f->kind == T_STRING ? **(char **)((char *)m + f->off) != 0
                : f->kind == T_BYTES ? ((struct pbtools_bytes_t *)(void *)((char *)m + f->off))->size != 0
                : f->kind == T_MESSAGE ? *(void **)((char *)m + f->off) == NULL
                : load(f, (char *)m + f->off) != 0)
                fail("the selected member is not at its default");
            free(ws);
        }
    }
}

/* thousands of items in one field, so that positions exceed 16 bits */
static void populate_large(const struct mdesc *d, void *m, const struct fdesc *f)
{
    struct pbtools_repeated_message_t *r = (void *)((char *)m + f->off);
    int n = 9000 + rnd() % 5000, i, j;
    if (f->alloc_n(m, n) != 0) fail("%s.%s: alloc of %d items failed", d->name, f->name, n);
    if (r->length != n) fail("%s.%s: length %d after alloc of %d", d->name, f->name, r->length, n);
    for (i = 0; i < n; i++) {
        char *p = (char *)r->items_p + i * item_size(f);
        if (f->kind == T_STRING || f->kind == T_BYTES) {
            int k = 1 + rnd() % 12;
            char *s = (char *)pool + rnd() % (sizeof(pool) / 16) * 16;
            if (f->kind == T_STRING) {
                *(char **)p = s;
            } else {
                ((struct pbtools_bytes_t *)(void *)p)->buf_p = (uint8_t *)s;
                ((struct pbtools_bytes_t *)(void *)p)->size = k;
            }
        } else if (f->kind == T_MESSAGE) {
            for (j = 0; j < f->sub->n; j++) {
                const struct fdesc *g = &f->sub->f[j];
                if (g->label == L_PLAIN && g->kind < T_STRING) {
                    store(g, p + g->off, value(rnd() % (NV * 2)));
                    break;
                }
            }
        } else {
            store(f, p, value(rnd() % (NV * 2)));
        }
    }
}

/* encode -> decode -> encode */
static void t_round(const struct mdesc *d, int k, const struct fdesc *large)
{
    void *ws = exact(BIG, 0xa5), *copy = malloc(BIG), *m, *ws2 = exact(BIG, 0x5a), *m2;
    struct buf a = { 0, 0, 0 }, b = { 0, 0, 0 }, c = { 0, 0, 0 }, text = { 0, 0, 0 };
    size_t n;
    int r, cut;
    uint8_t *big = exact(BIG, 0xee), *e, *e2;

    at("encode %s number %d", d->name, k);
    m = m_new(d, ws, BIG);
    if (large) populate_large(d, m, large); else populate(d, m, 0);
    dump(d, m, &a);
    n = ref_size(d, m);
    memcpy(copy, ws, BIG);
    r = m_encode(d, m, big, BIG);
    if (r < 0 || r > BIG) fail("result %d into a big buffer, expected %zu", r, n);
    show(&text, big, r > 400 ? 400 : r);
    at("encode %s number %d gives %s", d->name, k, (char *)text.p);
    if ((size_t)r != n) fail("result %d, expected %zu", r, n);
    if (memcmp(copy, ws, BIG)) fail("encoding changed the message");
    if (ref_decode(d, big, n, &b)) fail("the encoded message is malformed");
    if (!same(&a, &b)) fail("the encoded message has other fields or values than the message");
    /* exact fit */
    e = exact(n, 0);
    r = m_encode(d, m, e, n);
    if (r != (int)n) fail("result %d into a buffer of exactly %zu bytes", r, n);
    if (n && memcmp(e, big, n)) fail("other bytes in a buffer of exactly %zu bytes", n);
    if (n > 0) {
        for (cut = 0; cut < 6; cut++) {
            size_t q = cut == 0 ? n - 1 : rnd() % n;
            uint8_t *s = exact(q, 0);
            r = m_encode(d, m, s, q);
            if (r != -4) fail("result %d into a buffer of %zu bytes, expected -4", r, q);
            free(s);
        }
    }
    if (memcmp(copy, ws, BIG)) fail("encoding changed the message");
    /* decode */
    m2 = m_new(d, ws2, BIG);
    r = m_decode(d, m2, e, n);
    if (r != (int)n) fail("decoding it returns %d, expected %zu", r, n);
    dump(d, m2, &c);
    if (!same(&a, &c)) fail("decoding it gives another message");
    e2 = exact(n, 0);
    r = m_encode(d, m2, e2, n);
    if (r != (int)n || (n && memcmp(e2, e, n))) fail("encoding the decoded message gives %d and other bytes", r);
    free(ws); free(ws2); free(big); free(e); free(e2); free(a.p); free(b.p); free(c.p);
    free(copy); free(text.p);
}

static int documented(int r) { return r <= -1 && r >= -8; }

static void decode_one(const struct mdesc *d, const uint8_t *p, size_t n, const char *what)
{
    uint8_t *in = exact(n, 0), *copy = malloc(n + 1);
    struct buf a = { 0, 0, 0 }, b = { 0, 0, 0 }, text = { 0, 0, 0 };
    unsigned mask;
    int r, r2, pass;
    size_t q;
    void *ws, *m;

    if (n) memcpy(in, p, n);
    if (n) memcpy(copy, p, n);
    show(&text, p, n);
    at("decode %s %s input %s", d->name, what, (char *)text.p);
    mask = ref_decode(d, in, n, &b);
    for (pass = 0; pass < 2; pass++) {
        ws = exact(BIG, pass ? 0xa5 : 0);
        m = m_new(d, ws, BIG);
        r = m_decode(d, m, in, n);
        if (n && memcmp(in, copy, n)) fail("the input was modified");
        if (mask) {
            if (!documented(r)) fail("result %d, expected an error", r);
            /* a declared length may also exceed the workspace first */
            if (r != -3 && !(mask >> -r & 1)) fail("result %d, expected another error (set %x)", r, mask);
        } else {
            if (r != (int)n) fail("result %d, expected %zu", r, n);
            a.n = 0;
            dump(d, m, &a);
            if (!same(&a, &b)) fail("decoded to another message");
        }
        free(ws);
    }
    /* a workspace of a random size */
    q = d->size + 16 + (rnd() % 3 ? rnd() % 64 : rnd() % 600);
    ws = exact(q, 0xa5);
    m = m_new(d, ws, q);
    if (m) {
        r2 = m_decode(d, m, in, n);
        if (r2 != r && r2 != -3 && !(mask && documented(r2) && (mask >> -r2 & 1)))
            fail("result %d with a workspace of %zu bytes, expected %d or -3", r2, q, r);
        if (r2 == (int)n && !mask) {
            a.n = 0;
            dump(d, m, &a);
            if (!same(&a, &b)) fail("decoded to another message with a workspace of %zu bytes", q);
        }
    }
    free(ws);
    free(in); free(copy); free(a.p); free(b.p); free(text.p);
}

static void t_wire(const struct mdesc *d, int mutate)
{
    struct buf b = { 0, 0, 0 };
    int k;
    w_message(d, &b, 0);
    if (mutate && b.n) {
        int n = 1 + rnd() % 3;
        for (k = 0; k < n && b.n; k++) {
            size_t i = rnd() % b.n;
            switch (rnd() % 5) {
            case 0: b.n = i; break;
            case 1: b.p[i] ^= 1 << rnd() % 8; break;
            case 2: b.p[i] = (uint8_t)rnd(); break;
            case 3: b.p[i] |= 0x80; break;
            case 4: memmove(b.p + i, b.p + i + 1, b.n - i - 1); b.n--; break;
            }
        }
    }
    decode_one(d, b.p ? b.p : (uint8_t *)"", b.n, mutate ? "mutated" : "valid");
    free(b.p);
}

/* one call on one message leaves every other message alone */
static void t_independent(const struct mdesc *d, int k)
{
    const struct mdesc *o = TABLE[rnd() % NTABLE];
    void *ws = exact(BIG, 0), *ws2 = exact(BIG, 0), *copy = malloc(BIG), *m, *m2;
    struct buf b = { 0, 0, 0 };
    uint8_t *e = exact(BIG, 0), *e2 = exact(BIG, 0);
    int r, r2;
    at("independence of %s from %s number %d", d->name, o->name, k);
    m = m_new(d, ws, BIG);
    populate(d, m, 0);
    memcpy(copy, ws, BIG);
    r = m_encode(d, m, e, BIG);
    m2 = m_new(o, ws2, BIG);
    populate(o, m2, 0);
    m_encode(o, m2, e2, BIG);
    w_message(o, &b, 0);
    m_decode(o, m_new(o, ws2, BIG), b.p ? b.p : (uint8_t *)"", b.n);
    m_encode(o, m2, e2, 1);
    if (memcmp(copy, ws, BIG)) fail("calls on another message changed this one");
    memset(e2, 0, BIG);
    r2 = m_encode(d, m, e2, BIG);
    if (r2 != r || memcmp(e, e2, r > 0 ? r : 0)) fail("encoding again gives %d, first %d, or other bytes", r2, r);
    free(ws); free(ws2); free(copy); free(b.p); free(e); free(e2);
}

/* two threads with messages of their own */
struct worker { const struct mdesc *d; void *ws, *ws2, *m; uint8_t *ref, *e, *e2; int n; };

static void *work(void *p)
{
    struct worker *w = p;
    int i, r;
    for (i = 0; i < 4; i++) {
        void *m2;
        r = m_encode(w->d, w->m, w->e, BIG);
        if (r != w->n || memcmp(w->e, w->ref, r)) fail("encoding %s beside another thread gives %d or other bytes", w->d->name, r);
        m2 = m_new(w->d, w->ws2, BIG);
        r = m_decode(w->d, m2, w->e, w->n);
        if (r != w->n) fail("decoding %s beside another thread gives %d", w->d->name, r);
        r = m_encode(w->d, m2, w->e2, BIG);
        if (r != w->n || memcmp(w->e2, w->ref, r)) fail("decoding %s beside another thread gives another message", w->d->name);
    }
    return NULL;
}

static void t_threads(const struct mdesc *d, int k)
{
    struct worker w[2];
    pthread_t t[2];
    int i;
    for (i = 0; i < 2; i++) {
        w[i].d = i ? TABLE[rnd() % NTABLE] : d;
        w[i].ws = exact(BIG, 0); w[i].ws2 = exact(BIG, 0);
        w[i].ref = exact(BIG, 0); w[i].e = exact(BIG, 0); w[i].e2 = exact(BIG, 0);
        w[i].m = m_new(w[i].d, w[i].ws, BIG);
        populate(w[i].d, w[i].m, 0);
        w[i].n = m_encode(w[i].d, w[i].m, w[i].ref, BIG);
        if (w[i].n < 0) fail("encoding gives %d", w[i].n);
    }
    at("%s and %s in two threads, number %d", w[0].d->name, w[1].d->name, k);
    for (i = 0; i < 2; i++)
        if (pthread_create(&t[i], NULL, work, &w[i])) exit(3);
    for (i = 0; i < 2; i++) {
        pthread_join(t[i], NULL);
    }
    for (i = 0; i < 2; i++) {
        free(w[i].ws); free(w[i].ws2); free(w[i].ref); free(w[i].e); free(w[i].e2);
    }
}

int main(int argc, char **argv)
{
    int i, k, n;
    setup(argc, argv);
    n = argc > 3 ? atoi(argv[3]) : 60;
    for (i = 0; i < NTABLE; i++) {
        const struct mdesc *d = TABLE[i];
        if (wanted("t_new")) t_new(d);
        if (wanted("t_round")) for (k = 0; k < n; k++) t_round(d, k, NULL);
        if (wanted("t_large")) {
            size_t j;
            for (j = 0; j < sizeof(pool); j++)
                pool[j] = j % 16 == 15 || rnd() % 8 == 0 ? 0 : (uint8_t)(1 + rnd() % 255);
            for (k = 0; k < d->n; k++) {
                if (d->f[k].label != L_REPEATED) continue;
                BIG = 14000 * (int)item_size(&d->f[k]) + (1 << 20);
                t_round(d, k, &d->f[k]);
            }
            BIG = 1 << 17;
        }
        if (filter && wanted("t_threads")) for (k = 0; k < n; k++) t_threads(d, k);
        if (wanted("t_valid")) for (k = 0; k < 3 * n; k++) t_wire(d, 0);
        if (wanted("t_mutated")) for (k = 0; k < 6 * n; k++) t_wire(d, 1);
        if (wanted("t_independent")) for (k = 0; k < n / 2; k++) t_independent(d, k);
    }
    printf("OK %lu\n", cases);
    return 0;
}
