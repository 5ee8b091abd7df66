/* Creation of arrays of strings and of messages, of any length. */
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

int g_length;            /* elements asked for */
int g_k;                 /* an arbitrary element */
int g_calls;             /* calls of message_init */
void *g_kitem;           /* what it was given for element g_k */
char *g_items;           /* the array, once it is allocated */

/* the item size is a constant of the caller */
#define ITEMSIZE 24

#define ALLOCS_LOOP(i, ...) \
__CPROVER_assigns(__VA_ARGS__, \
    __CPROVER_object_upto(repeated_p->items_pp, (size_t)g_length * sizeof(char *))) \
__CPROVER_loop_invariant(i >= 0 && i <= g_length) \
__CPROVER_loop_invariant((g_k >= 0 && g_k < i) ==> repeated_p->items_pp[g_k] == "") \
__CPROVER_decreases(g_length - i)
#define ALLOCS_BEGIN(i)
#define ALLOCS_END(i)

#define ALLOCM_LOOP(i, ...) \
__CPROVER_assigns(__VA_ARGS__, g_calls, g_kitem, \
    __CPROVER_object_upto(repeated_p->items_p, (size_t)g_length * ITEMSIZE)) \
__CPROVER_loop_invariant(i >= 0 && i <= g_length && g_calls == i) \
__CPROVER_loop_invariant(__CPROVER_same_object(item_p, repeated_p->items_p) \
    && item_p == (char *)repeated_p->items_p + (size_t)i * ITEMSIZE) \
__CPROVER_loop_invariant((g_k >= 0 && g_k < i) \
    ==> g_kitem == (void *)((char *)repeated_p->items_p + (size_t)g_k * ITEMSIZE)) \
__CPROVER_decreases(g_length - i)
#define ALLOCM_BEGIN(i)
#define ALLOCM_END(i)

#include "libc.h"
#include "pbtools.c"
#include "specmode.h"
#undef bool
#include "ws.h"

#define RET __CPROVER_return_value
int g_old_length;

#define ARRAY(HEAP, ITEMS, SIZE) \
__CPROVER_ensures(WS_STATE_OK(HEAP)) \
__CPROVER_ensures(WS_KEEPS(HEAP)) \
__CPROVER_ensures(RET == 0 || RET == -1) \
__CPROVER_ensures((RET == 0) == (g_length >= 0 && WS_FITS((uint64_t)(SIZE) * (uint64_t)(int64_t)g_length, 8))) \
__CPROVER_ensures(RET == 0 ==> (repeated_p->length == g_length \
    && WS_NEW(HEAP, repeated_p->ITEMS, (uint64_t)(SIZE) * (uint64_t)(int64_t)g_length, 8))) \
__CPROVER_ensures(RET != 0 ==> repeated_p->length == g_old_length)
#define ARRAY_PROBES(HEAP) \
PROBE(RET == 0 && g_length > 20 && g_k == 13) \
PROBE(RET == 0 && g_length == 0) \
PROBE(RET != 0 && g_length == -1) \
PROBE(RET != 0 && g_length == 0x40000000) \
PROBE(RET != 0 && g_length == 1 && g_hpos < g_hsize) \
PROBE(RET == 0 && (HEAP)->pos == g_hsize && g_length > 0)

int pbtools_alloc_repeated_string_contract(
    struct pbtools_message_base_t *self_p, int length,
    struct pbtools_repeated_string_t *repeated_p)
__CPROVER_requires(__CPROVER_is_fresh(self_p, sizeof(*self_p)))
WS_REQUIRES(self_p->heap_p)
__CPROVER_requires(__CPROVER_is_fresh(repeated_p, sizeof(*repeated_p)))
__CPROVER_requires(length == g_length && repeated_p->length == g_old_length)
__CPROVER_assigns(*repeated_p, __CPROVER_object_whole(self_p->heap_p))
ARRAY(self_p->heap_p, items_pp, sizeof(char *))
/* every element is the empty string */
__CPROVER_ensures((RET == 0 && g_k >= 0 && g_k < g_length)
                  ==> repeated_p->items_pp[g_k] == "")
ARRAY_PROBES(self_p->heap_p)
;
void h_alloc_string(void)
{
    struct pbtools_message_base_t *self_p; int length; int a, b, c;
    struct pbtools_repeated_string_t *repeated_p;
    HAVOC_WS HAVOC_TRACKED
    g_length = a; g_old_length = b; g_k = c;
    (void)pbtools_alloc_repeated_string(self_p, length, repeated_p);
}

void init_item(void *self_p, struct pbtools_heap_t *heap_p)
{
    if (g_calls == g_k)
        g_kitem = self_p;
    g_calls++;
    __CPROVER_assert(heap_p == g_init_heap, "item gets the workspace");
    __CPROVER_assert(__CPROVER_w_ok(self_p, ITEMSIZE), "item is writable");
}

int pbtools_alloc_repeated_contract(
    struct pbtools_repeated_message_t *repeated_p, int length,
    struct pbtools_heap_t *heap_p, size_t item_size,
    pbtools_message_init_t message_init)
WS_REQUIRES(heap_p)
__CPROVER_requires(__CPROVER_is_fresh(repeated_p, sizeof(*repeated_p)))
__CPROVER_requires(item_size == ITEMSIZE && g_calls == 0
                   && g_init_heap == (void *)heap_p)
__CPROVER_requires(length == g_length && repeated_p->length == g_old_length)
__CPROVER_assigns(*repeated_p, g_calls, g_kitem, __CPROVER_object_whole(heap_p))
ARRAY(heap_p, items_p, ITEMSIZE)
/* every element is initialised once, in order */
__CPROVER_ensures(g_calls == (RET == 0 ? g_length : 0))
__CPROVER_ensures((RET == 0 && g_k >= 0 && g_k < g_length)
    ==> g_kitem == (void *)((char *)repeated_p->items_p + (size_t)g_k * ITEMSIZE))
ARRAY_PROBES(heap_p)
;
void h_alloc_message(void)
{
    struct pbtools_heap_t *heap_p; int length; int a, b, c; size_t s; void *p;
    struct pbtools_repeated_message_t *repeated_p;
    HAVOC_WS HAVOC_TRACKED
    g_length = a; g_old_length = b; g_k = c; g_calls = 0; g_init_heap = p;
    (void)pbtools_alloc_repeated(repeated_p, length, heap_p, s, init_item);
}
