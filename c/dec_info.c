/* First pass over repeated fields: pbtools_repeated_info_decode_*.  It counts
 * the items of every occurrence and keeps where the first one starts.
 * FN is the function; ITEM is 1 for varints, 4 and 8 for fixed size items and
 * 0 for length delimited ones. */
#include <stdint.h>
#include <stdbool.h>
#include "spec.h"

const uint8_t *g_inp;   /* the input */
int g_at;               /* ghost parser: bytes of the packed record consumed, */
int g_cnt;              /* varints found in them */
int g_err;              /* and its failure */
int g_n;
extern int g_size, g_pos, g_scan, g_slen, g_avail;
extern int g_length;

#define INFO_BYTE(i) (g_inp[g_pos + g_scan + g_at + (i)])
#define INFO_LOOP(x, y, ...) \
__CPROVER_assigns(x.pos, x.size, self_p->length, g_at, g_cnt, g_err, g_n \
                  __VA_OPT__(,) __VA_ARGS__) \
__CPROVER_loop_invariant(x.pos >= 0 \
    ? (g_err == 0 && x.size == g_slen && x.pos == g_at && g_at >= 0 && g_at <= g_slen \
       && g_cnt >= 0 && g_cnt <= g_at && self_p->length == g_length + g_cnt) \
    : (x.size == x.pos && x.pos == (g_err != 0 ? g_err : -PBTOOLS_OUT_OF_DATA) \
       && g_cnt >= 0 && (g_err != 0 || g_slen > g_avail - g_scan) \
       && (g_err == 0 || g_err == -PBTOOLS_OUT_OF_DATA || g_err == -PBTOOLS_VARINT_OVERFLOW))) \
__CPROVER_decreases((int64_t)x.size - x.pos)
#define INFO_BEGIN(x) \
    { uint8_t b[10]; \
      b[0] = INFO_BYTE(0); b[1] = INFO_BYTE(1); b[2] = INFO_BYTE(2); \
      b[3] = INFO_BYTE(3); b[4] = INFO_BYTE(4); b[5] = INFO_BYTE(5); \
      b[6] = INFO_BYTE(6); b[7] = INFO_BYTE(7); b[8] = INFO_BYTE(8); \
      b[9] = INFO_BYTE(9); \
      g_n = spec_vscan(b, g_slen - g_at); }
#define INFO_END(x) \
    { if (g_n > 0) { g_at += g_n; g_cnt++; } \
      else g_err = g_n == 0 ? -PBTOOLS_OUT_OF_DATA : -PBTOOLS_VARINT_OVERFLOW; }

#include "pbtools.c"
#include "specmode.h"
#include "dec.h"

int g_slen;             /* the declared length of the packed record */
int g_length, g_tag, g_iwt, g_ipos, g_isize;   /* the info on entry */
const uint8_t *g_ibuf;
struct pbtools_heap_t *g_iheap, *g_heap;

#define CAT(a, b) a##b
#define XCAT(a, b) CAT(a, b)
#define CONTRACT XCAT(FN, _contract)

/* the record is whole: length and that many bytes */
#define WHOLE (g_wt == K_LEN && SCAN > 0 && VALUE < INT_MAX \
               && VALUE <= (uint64_t)(g_avail - SCAN))
/* bytes an item takes at least */
#define PER (ITEM > 1 ? ITEM : 1)
#define KIND (ITEM == 1 ? K_VARINT : ITEM == 4 ? K_I32 : ITEM == 8 ? K_I64 : K_LEN)
/* one item on its own */
#define ALONE(OK, N) \
    __CPROVER_ensures((g_wt == KIND && (OK)) \
        ==> (self_p->size == g_size && self_p->pos == g_pos + (N) \
             && info_p->length == g_length + 1))

void CONTRACT(struct pbtools_repeated_info_t *info_p,
              struct pbtools_decoder_t *self_p, int wire_type)
__CPROVER_requires(__CPROVER_is_fresh(info_p, sizeof(*info_p)))
DEC_REQUIRES
/* called behind a tag that could be read, with as many items as the bytes so far can hold */
__CPROVER_requires(g_size >= 0 && g_pos >= 1)
__CPROVER_requires(__CPROVER_pointer_equals(g_inp, self_p->buf_p))
__CPROVER_requires(g_wt == wire_type)
__CPROVER_requires(g_length == info_p->length && g_length >= 0 && g_length <= g_pos / PER)
__CPROVER_requires(g_tag == info_p->tag && g_iwt == info_p->wire_type)
__CPROVER_requires(g_ibuf == info_p->decoder.buf_p && g_ipos == info_p->decoder.pos
                   && g_isize == info_p->decoder.size && g_iheap == info_p->decoder.heap_p)
__CPROVER_requires(g_heap == self_p->heap_p)
__CPROVER_requires(g_slen == (int)VALUE && g_at == 0 && g_cnt == 0 && g_err == 0)
__CPROVER_assigns(self_p->pos, self_p->size, *info_p, g_at, g_cnt, g_err, g_n)
DEC_ENSURES_FRAME
/* the first occurrence is remembered, and only that */
__CPROVER_ensures(g_length == 0
    ==> (info_p->wire_type == g_wt && info_p->decoder.buf_p == g_inp + g_pos
         && info_p->decoder.pos == 0 && info_p->decoder.size == g_avail
         && info_p->decoder.heap_p == g_heap))
__CPROVER_ensures(g_length != 0
    ==> (info_p->wire_type == g_iwt && info_p->decoder.buf_p == g_ibuf
         && info_p->decoder.pos == g_ipos && info_p->decoder.size == g_isize
         && info_p->decoder.heap_p == g_iheap))
__CPROVER_ensures(info_p->tag == g_tag)
/* the invariant of the length is kept */
__CPROVER_ensures(self_p->size >= 0
    ==> (info_p->length >= g_length && info_p->length <= self_p->pos / PER))
DEC_ENSURES_ERR(g_wt != KIND && g_wt != K_LEN, ERR_WIRE)
__CPROVER_ensures((g_wt == K_LEN && !WHOLE) ==> DEC_FAILED(self_p))
DEC_ENSURES_ERR(g_wt == K_LEN && SCAN == 0, ERR_DATA)
DEC_ENSURES_ERR(g_wt == K_LEN && SCAN < 0, ERR_VARINT)
DEC_ENSURES_ERR(g_wt == K_LEN && SCAN > 0 && VALUE >= INT_MAX, ERR_LENGTH)
#if ITEM == 1
ALONE(SCAN > 0, SCAN)
DEC_ENSURES_ERR(g_wt == KIND && SCAN == 0, ERR_DATA)
DEC_ENSURES_ERR(g_wt == KIND && SCAN < 0, ERR_VARINT)
/* packed: every varint of the record is one item, and the record ends with
 * one; g_at, g_cnt and g_err are those of the specification's own parser */
__CPROVER_ensures((WHOLE && g_err == 0)
    ==> (self_p->size == g_size && self_p->pos == g_pos + SCAN + (int)VALUE
         && g_at == (int)VALUE && info_p->length == g_length + g_cnt))
DEC_ENSURES_ERR(WHOLE && g_err != 0, g_err)
PROBE(WHOLE && g_err == 0 && g_cnt > 40 && g_length > 3)
PROBE(WHOLE && g_err == ERR_VARINT && g_cnt > 2)
PROBE(WHOLE && g_err == ERR_DATA && g_cnt > 2)
PROBE(WHOLE && VALUE == 0 && g_length == 0)
#elif ITEM > 1
ALONE(g_avail >= ITEM, ITEM)
DEC_ENSURES_ERR(g_wt == KIND && g_avail < ITEM, ERR_DATA)
__CPROVER_ensures((WHOLE && VALUE % ITEM == 0)
    ==> (self_p->size == g_size && self_p->pos == g_pos + SCAN + (int)VALUE
         && info_p->length == g_length + (int)(VALUE / ITEM)))
DEC_ENSURES_ERR(WHOLE && VALUE % ITEM != 0, ERR_DATA)
PROBE(WHOLE && VALUE == ITEM * 40 && g_length > 3)
PROBE(WHOLE && VALUE == ITEM + 1)
PROBE(WHOLE && VALUE == 0 && g_length == 0)
PROBE(g_wt == KIND && g_avail == ITEM)
PROBE(g_wt == KIND && g_avail == ITEM - 1)
#else
ALONE(WHOLE, SCAN + (int)VALUE)
PROBE(WHOLE && VALUE > 300 && g_length > 3)
PROBE(WHOLE && VALUE == 0 && g_length == 0)
#endif
PROBE(g_wt == 7)
PROBE(g_wt == K_LEN && SCAN == 10)
PROBE(g_wt == K_LEN && SCAN == 0)
PROBE(g_wt == K_LEN && SCAN > 0 && VALUE < 400 && !WHOLE)
;
void h_info(void)
{
    struct pbtools_repeated_info_t *info_p;
    struct pbtools_decoder_t *self_p; int wire_type;
    HAVOC_GHOSTS
    { int a, b, c, d, e, f; g_slen = a; g_length = b; g_tag = c; g_iwt = d;
      g_ipos = e; g_isize = f; }
    { const uint8_t *p, *q; struct pbtools_heap_t *r, *s;
      g_inp = p; g_ibuf = q; g_iheap = r; g_heap = s; }
    g_at = 0; g_cnt = 0; g_err = 0;
    FN(info_p, self_p, wire_type);
}
