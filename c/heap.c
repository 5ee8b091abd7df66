/* Creation of messages and arrays in a workspace. */
#include "libc.h"
#include "pbtools.c"
#include "specmode.h"
#undef bool
#include "ws.h"

#define RET __CPROVER_return_value

/* --- a new message in a raw workspace ------------------------------------ */
size_t g_wsize;
void *pbtools_message_new_contract(
    void *workspace_p, size_t size, size_t message_size,
    pbtools_message_init_t message_init)
__CPROVER_requires(size <= MAXBUF && size == g_wsize && g_hsize == (int)size)
__CPROVER_requires(__CPROVER_is_fresh(workspace_p, size))
__CPROVER_requires(message_size >= sizeof(struct pbtools_message_base_t))
__CPROVER_requires(g_init_calls == 0 && g_init_size == message_size)
__CPROVER_assigns(g_init_calls, g_init_msg, g_init_heap; \
    size > 0: __CPROVER_object_whole(workspace_p))
__CPROVER_ensures((RET == NULL)
    == !(size >= (size_t)WS_MIN && message_size <= size - (size_t)WS_MIN))
__CPROVER_ensures(RET != NULL ==> (__CPROVER_same_object(RET, workspace_p)
    && OFF(workspace_p, RET) % 8 == 0))
__CPROVER_ensures(RET != NULL ==> (g_init_calls == 1 && g_init_msg == RET
    && __CPROVER_same_object(g_init_heap, workspace_p)))
/* the heap given to the message is well formed and disjoint from it */
__CPROVER_ensures(RET != NULL ==>
    (((struct pbtools_heap_t *)g_init_heap)->buf_p == (char *)workspace_p
     && ((struct pbtools_heap_t *)g_init_heap)->size == (int)size
     && ((struct pbtools_heap_t *)g_init_heap)->pos <= (int)size
     && OFF(workspace_p, RET) + (int64_t)message_size
        <= ((struct pbtools_heap_t *)g_init_heap)->pos
     && (OFF(workspace_p, g_init_heap) + WS_MIN <= OFF(workspace_p, RET))))
__CPROVER_ensures(RET == NULL ==> g_init_calls == 0)
__CPROVER_ensures(RET != NULL
    ==> (void *)((struct pbtools_message_base_t *)RET)->heap_p == g_init_heap)
PROBE(RET != NULL && message_size > 500)
PROBE(RET != NULL && message_size + (size_t)WS_MIN == size)
PROBE(RET == NULL && size == 0)
PROBE(RET == NULL && size >= 100 && message_size == 100)
PROBE(RET == NULL && message_size > (1ull << 40))
;
void h_message_new(void)
{
    void *workspace_p; size_t size, message_size, a;
    HAVOC_WS
    g_wsize = a; g_init_calls = 0; { size_t b; g_init_size = b; }
    (void)pbtools_message_new(workspace_p, size, message_size, init_stub);
}

/* --- a nested message ----------------------------------------------------- */
void *g_old_ptr;
int pbtools_sub_message_alloc_contract(
    struct pbtools_message_base_t **message_pp, struct pbtools_heap_t *heap_p,
    size_t sub_message_size, pbtools_message_init_t message_init)
WS_REQUIRES(heap_p)
__CPROVER_requires(__CPROVER_is_fresh(message_pp, sizeof(*message_pp)))
__CPROVER_requires(g_old_ptr == (void *)*message_pp)
__CPROVER_requires(sub_message_size >= sizeof(struct pbtools_message_base_t))
__CPROVER_requires(g_init_calls == 0 && g_init_size == sub_message_size)
__CPROVER_assigns(g_init_calls, g_init_msg, g_init_heap, *message_pp,
    __CPROVER_object_whole(heap_p))
__CPROVER_ensures(WS_STATE_OK(heap_p))
__CPROVER_ensures(WS_KEEPS(heap_p))
__CPROVER_ensures(RET == 0 || RET == -1)
__CPROVER_ensures((RET == 0) == WS_FITS(sub_message_size, 8))
__CPROVER_ensures(RET == 0 ==> WS_NEW(heap_p, *message_pp, sub_message_size, 8))
__CPROVER_ensures(RET == 0 ==> (g_init_calls == 1
    && g_init_msg == (void *)*message_pp && g_init_heap == (void *)heap_p))
__CPROVER_ensures(RET == 0 ==> (*message_pp)->heap_p == heap_p)
__CPROVER_ensures(RET != 0 ==> (g_init_calls == 0
    && (void *)*message_pp == g_old_ptr))
PROBE(RET == 0 && sub_message_size > 300)
PROBE(RET == 0 && heap_p->pos == g_hsize)
PROBE(RET != 0 && g_hpos < g_hsize)
PROBE(RET != 0 && sub_message_size > (1ull << 40))
;
void h_sub_message_alloc(void)
{
    struct pbtools_message_base_t **message_pp; struct pbtools_heap_t *heap_p;
    size_t sub_message_size, a; void *p;
    HAVOC_WS
    g_init_calls = 0; g_init_size = a; g_old_ptr = p;
    (void)pbtools_sub_message_alloc(message_pp, heap_p, sub_message_size,
                                    init_stub);
}

/* --- arrays --------------------------------------------------------------- */
int g_length;            /* elements asked for */
int g_old_length;

/* the tracked cell g_t1 of the workspace lies in the new array */
#define IN_ARRAY(T) \
    (g_t1 >= OFF(self_p->heap_p, repeated_p->items_p) \
     && g_t1 < OFF(self_p->heap_p, repeated_p->items_p) + (int64_t)NBYTES(T))
#define NBYTES(T) ((uint64_t)sizeof(T) * (uint64_t)(int64_t)g_length)

#define ARRAY_CONTRACT(NAME, STRUCT, T) \
int pbtools_alloc_repeated_##NAME##_contract( \
    struct pbtools_message_base_t *self_p, int length, \
    struct pbtools_repeated_##STRUCT##_t *repeated_p) \
__CPROVER_requires(__CPROVER_is_fresh(self_p, sizeof(*self_p))) \
WS_REQUIRES(self_p->heap_p) \
__CPROVER_requires(__CPROVER_is_fresh(repeated_p, sizeof(*repeated_p))) \
__CPROVER_requires(length == g_length && repeated_p->length == g_old_length) \
ARRAY_LIMIT \
__CPROVER_assigns(*repeated_p, __CPROVER_object_whole(self_p->heap_p)) \
__CPROVER_ensures(WS_STATE_OK(self_p->heap_p)) \
__CPROVER_ensures(WS_KEEPS(self_p->heap_p)) \
__CPROVER_ensures(RET == 0 || RET == -1) \
__CPROVER_ensures((RET == 0) == (g_length >= 0 && WS_FITS(NBYTES(T), 8))) \
__CPROVER_ensures(RET == 0 ==> (repeated_p->length == g_length \
    && WS_NEW(self_p->heap_p, repeated_p->ITEMS, NBYTES(T), 8))) \
__CPROVER_ensures(RET != 0 ==> repeated_p->length == g_old_length)

#define ARRAY_HARNESS(NAME, STRUCT) \
void h_alloc_##NAME(void) \
{ \
    struct pbtools_message_base_t *self_p; int length; int a, b; \
    struct pbtools_repeated_##STRUCT##_t *repeated_p; \
    HAVOC_WS HAVOC_TRACKED \
    g_length = a; g_old_length = b; \
    (void)pbtools_alloc_repeated_##NAME(self_p, length, repeated_p); \
}

#define ARRAY_LIMIT
#define ITEMS items_p
#define ARRAY(NAME, STRUCT, T) \
ARRAY_CONTRACT(NAME, STRUCT, T) \
__CPROVER_ensures((RET == 0 && IN_ARRAY(T)) \
    ==> ((char *)self_p->heap_p)[g_t1] == 0) \
PROBE(RET == 0 && g_length > 20 && IN_ARRAY(T)) \
PROBE(RET == 0 && g_length == 0) \
PROBE(RET != 0 && g_length == -1) \
PROBE(RET != 0 && g_length == 0x40000000) \
PROBE(RET != 0 && g_length == 1 && g_hpos < g_hsize) \
PROBE(RET == 0 && self_p->heap_p->pos == g_hsize && g_length > 0) \
; \
ARRAY_HARNESS(NAME, STRUCT)

ARRAY(int32, int32, int32_t)
ARRAY(int64, int64, int64_t)
ARRAY(sint32, int32, int32_t)
ARRAY(sint64, int64, int64_t)
ARRAY(uint32, uint32, uint32_t)
ARRAY(uint64, uint64, uint64_t)
ARRAY(fixed32, uint32, uint32_t)
ARRAY(fixed64, uint64, uint64_t)
ARRAY(sfixed32, int32, int32_t)
ARRAY(sfixed64, int64, int64_t)
ARRAY(float, float, float)
ARRAY(double, double, double)
ARRAY(bool, bool, _Bool)
ARRAY(bytes, bytes, struct pbtools_bytes_t)

