/* Contracts of the encoder API.  The state of an encoder is given by its
 * public struct: the output occupies buf_p[pos + 1 .. size - 1] and grows
 * towards the front; after a failure both size and pos are minus the error. */
#ifndef ENC_H
#define ENC_H
#include "spec.h"

#undef bool               /* used as a name in the macros below */

/* ghosts: entry state, the value written, and two arbitrary positions */
int g_i;                 /* position inside the record written             */
int g_j;                 /* position inside the buffer (frame)             */
uint8_t g_jv;            /* its content on entry                           */
int g_size, g_pos, g_field;
uint64_t g_payload;      /* the value on the wire, as a 64 bit pattern     */
int64_t g_len;           /* content length of strings and bytes            */
uint8_t g_cv;            /* content byte at g_i                            */

#define MAXFIELD 536870911

#define ENC_FAILED(e) \
    ((e)->size == -PBTOOLS_ENCODE_BUFFER_FULL \
     && (e)->pos == -PBTOOLS_ENCODE_BUFFER_FULL)
#define ENC_OK(e) \
    ((e)->size >= 0 && (e)->size <= MAXBUF \
     && (e)->pos >= -1 && (e)->pos < (e)->size)

#define ENC_REQUIRES \
    __CPROVER_requires(field_number >= 1 && field_number <= MAXFIELD) \
    __CPROVER_requires(__CPROVER_is_fresh(self_p, sizeof(*self_p))) \
    __CPROVER_requires(ENC_FAILED(self_p) || ENC_OK(self_p)) \
    __CPROVER_requires(__CPROVER_is_fresh(self_p->buf_p, \
                           self_p->size >= 0 ? self_p->size : 0)) \
    __CPROVER_requires(g_size == self_p->size && g_pos == self_p->pos \
                       && g_field == field_number) \
    __CPROVER_requires(g_j >= 0 ==> (g_j < self_p->size \
                                     && g_jv == self_p->buf_p[g_j]))

#define ENC_ASSIGNS \
    __CPROVER_assigns(self_p->pos, self_p->size; \
        self_p->size > 0: __CPROVER_object_whole(self_p->buf_p))

/* a failure is sticky; nothing behind the old position, nor in front of the
 * new one after a success, changes */
#define ENC_ENSURES_FRAME \
    __CPROVER_ensures(g_size < 0 ==> ENC_FAILED(self_p)) \
    __CPROVER_ensures((g_j >= 0 \
                       && (g_j > g_pos \
                           || (self_p->size >= 0 && g_j <= self_p->pos))) \
                      ==> self_p->buf_p[g_j] == g_jv)

/* the record of LEN bytes is put in front, or the encoder fails */
#define ENC_ENSURES_LEN(SKIP, LEN) \
    __CPROVER_ensures((g_size >= 0 && (SKIP)) \
        ==> (self_p->size == g_size && self_p->pos == g_pos)) \
    __CPROVER_ensures((g_size >= 0 && !(SKIP) && (LEN) <= (int64_t)g_pos + 1) \
        ==> (self_p->size == g_size && self_p->pos == g_pos - (LEN))) \
    __CPROVER_ensures((g_size >= 0 && !(SKIP) && (LEN) > (int64_t)g_pos + 1) \
        ==> ENC_FAILED(self_p))

#define ENC_ENSURES_BYTE(SKIP, LEN, BYTE) \
    __CPROVER_ensures((g_size >= 0 && !(SKIP) \
                       && (LEN) <= (int64_t)g_pos + 1 \
                       && g_i >= 0 && g_i < (LEN)) \
        ==> self_p->buf_p[g_pos + 1 - (LEN) + g_i] == (BYTE))

#define REC_SCALAR(K) spec_reclen(K, g_field, g_payload)

/* Every path class of a contract must be reachable, otherwise its obligations
 * are vacuous.  A probe is a postcondition that must be REFUTED; probes come
 * last in each contract and the runner checks that each of them fails. */
#define PROBE(COND) __CPROVER_ensures(0x50524f42 && !(COND))

#define HAVOC_GHOSTS \
    { int a, b, c, d, e; uint8_t u, w; uint64_t v; int64_t l; \
      g_i = a; g_j = b; g_size = c; g_pos = d; g_field = e; \
      g_jv = u; g_cv = w; g_payload = v; g_len = l; }

#endif
