/* The workspace: one block whose first bytes hold the heap structure, which
 * describes the block itself; [pos, size) is free. */
#ifndef WS_H
#define WS_H
#include "spec.h"

#define WS_MIN ((int)sizeof(struct pbtools_heap_t))

int g_hsize, g_hpos;     /* workspace size and first free offset on entry */
int g_hj;                /* an arbitrary offset in the workspace */
char g_hjv;              /* its content on entry */

#define WS_FRESH(h) \
    (g_hsize >= WS_MIN && g_hsize <= MAXBUF \
     && __CPROVER_is_fresh(h, g_hsize))
#define WS_TIE(h) \
    (__CPROVER_pointer_equals((h)->buf_p, (char *)(h)) && (h)->size == g_hsize && (h)->pos == g_hpos)
#define WS_OK(h) (g_hpos >= WS_MIN && g_hpos <= g_hsize)
#define WS_REQUIRES(h) \
    __CPROVER_requires(WS_FRESH(h)) \
    __CPROVER_requires(WS_TIE(h)) \
    __CPROVER_requires(WS_OK(h)) \
    __CPROVER_requires((g_hj >= WS_MIN && g_hj < g_hsize) \
                       ==> g_hjv == ((char *)(h))[g_hj])

/* the object [p, p + n) is a new one: free before, allocated now */
#define OFF(h, p) ((int64_t)((char *)(p) - (char *)(h)))
#define WS_NEW(h, p, n, align) \
    (__CPROVER_same_object(p, h) && OFF(h, p) >= g_hpos \
     && OFF(h, p) + (int64_t)(n) <= (h)->pos \
     && OFF(h, p) % (align) == 0)
#define WS_STATE_OK(h) \
    ((h)->buf_p == (char *)(h) && (h)->size == g_hsize \
     && (h)->pos >= g_hpos && (h)->pos <= g_hsize)
/* nothing allocated before has changed */
#define WS_KEEPS(h) \
    ((g_hj >= WS_MIN && g_hj < g_hpos) ==> ((char *)(h))[g_hj] == g_hjv)
#define ALIGNUP(x, a) (((int64_t)(x) + (a) - 1) / (a) * (a))
/* n bytes (unsigned 64 bit) fit */
#define WS_FITS(n, a) \
    (ALIGNUP(g_hpos, a) <= g_hsize \
     && (uint64_t)(n) <= (uint64_t)(g_hsize - ALIGNUP(g_hpos, a)))

#ifndef PROBE
#define PROBE(COND) __CPROVER_ensures(0x50524f42 && !(COND))
#endif

#define HAVOC_WS \
    { int a, b, c; char d; g_hsize = a; g_hpos = b; g_hj = c; g_hjv = d; }

/* message_init: any function that initialises the message it is given */
int g_init_calls;
void *g_init_msg;
void *g_init_heap;
size_t g_init_size;

void init_stub(void *self_p, struct pbtools_heap_t *heap_p)
{
    g_init_calls++;
    g_init_msg = self_p;
    g_init_heap = heap_p;
    __CPROVER_assert(__CPROVER_w_ok(self_p, g_init_size), "message is writable");
    ((struct pbtools_message_base_t *)self_p)->heap_p = heap_p;
}

#endif
