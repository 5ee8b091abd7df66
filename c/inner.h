#ifndef INNER_H
#define INNER_H
/* Nested messages.  The nested encoder is any function that meets the
 * contract every generated encoder is shown to meet: it puts some bytes in
 * front (here g_len bytes) or fails. */
int g_inner_calls;
void *g_inner_msg;
_Bool g_inner_fails;

void inner_encode(struct pbtools_encoder_t *encoder_p, void *msg_p)
{
    g_inner_calls++;
    g_inner_msg = msg_p;

    if (encoder_p->size >= 0) {
        if (g_inner_fails || g_len > (int64_t)encoder_p->pos + 1) {
            encoder_p->size = -PBTOOLS_ENCODE_BUFFER_FULL;
            encoder_p->pos = -PBTOOLS_ENCODE_BUFFER_FULL;
        } else {
            encoder_p->pos -= (int)g_len;
            if (g_i >= 0 && g_i < g_len)
                encoder_p->buf_p[encoder_p->pos + 1 + g_i] = g_cv;
        }
    }
}

#endif
