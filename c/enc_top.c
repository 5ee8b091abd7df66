/* pbtools_message_encode, with memmove replaced by its (assumed) contract. */
#include "libc.h"
#include "pbtools.c"
#include "specmode.h"
#include "enc.h"
#include "inner.h"

/* Top level: the result is at the front of the buffer. */
int pbtools_message_encode_contract(
    struct pbtools_message_base_t *self_p, uint8_t *encoded_p, size_t size,
    pbtools_message_encode_inner_t message_encode_inner)
__CPROVER_requires(__CPROVER_is_fresh(self_p, sizeof(*self_p)))
__CPROVER_requires(size <= MAXBUF && g_size == (int)size)
__CPROVER_requires(__CPROVER_is_fresh(encoded_p, size))

__CPROVER_requires(g_inner_calls == 0 && g_len >= 0 && g_len <= MAXBUF)
__CPROVER_requires(g_t1 == g_i)
__CPROVER_assigns(g_inner_calls, g_inner_msg; size > 0: __CPROVER_object_whole(encoded_p))
__CPROVER_ensures(g_inner_calls == 1 && g_inner_msg == (void *)self_p)
__CPROVER_ensures((!g_inner_fails && g_len <= g_size)
    ==> __CPROVER_return_value == g_len)
__CPROVER_ensures((!g_inner_fails && g_len <= g_size && g_i >= 0 && g_i < g_len)
    ==> encoded_p[g_i] == g_cv)
__CPROVER_ensures((g_inner_fails || g_len > g_size)
    ==> __CPROVER_return_value == -PBTOOLS_ENCODE_BUFFER_FULL)
PROBE(__CPROVER_return_value > 300)
PROBE(__CPROVER_return_value == 0)
PROBE(__CPROVER_return_value == 0 && g_size == 0)
PROBE(__CPROVER_return_value == g_size && g_size > 10)
PROBE(__CPROVER_return_value < 0 && !g_inner_fails)
PROBE(__CPROVER_return_value < 0 && g_inner_fails)
;
void h_message_encode(void)
{
    struct pbtools_message_base_t *self_p; uint8_t *encoded_p; size_t size;
    _Bool f;
    HAVOC_GHOSTS HAVOC_TRACKED
    g_inner_calls = 0; g_inner_fails = f;
    pbtools_message_encode(self_p, encoded_p, size, inner_encode);
}
