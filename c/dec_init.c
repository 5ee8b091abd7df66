/* The initialisers of bytes and of the state of the first pass. */
#include <stdint.h>
#include <stdbool.h>
#include "pbtools.c"
#include "specmode.h"

#define PROBE(COND) __CPROVER_ensures(0x50524f42 && !(COND))

void pbtools_repeated_info_init_contract(struct pbtools_repeated_info_t *self_p, int tag)
__CPROVER_requires(__CPROVER_is_fresh(self_p, sizeof(*self_p)))
__CPROVER_assigns(*self_p)
__CPROVER_ensures(self_p->length == 0 && self_p->tag == tag)
PROBE(tag == 77)
;
void h_info_init(void)
{
    struct pbtools_repeated_info_t *self_p; int tag;
    pbtools_repeated_info_init(self_p, tag);
}

void pbtools_bytes_init_contract(struct pbtools_bytes_t *self_p)
__CPROVER_requires(__CPROVER_is_fresh(self_p, sizeof(*self_p)))
__CPROVER_assigns(*self_p)
__CPROVER_ensures(self_p->size == 0)
PROBE(1)
;
void h_bytes_init(void)
{
    struct pbtools_bytes_t *self_p;
    pbtools_bytes_init(self_p);
}
