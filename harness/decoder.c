/* The heatshrink decoder: memory safe from every state of its invariant, and
 * fulfils the contract used by the patch reader (heatshrink.h). */
#include <stdlib.h>
#include "sa.h"
#include "heatshrink_decoder.h"

#ifndef WINDOW
#    define WINDOW HEATSHRINK_STATIC_WINDOW_BITS
#    define LOOKAHEAD HEATSHRINK_STATIC_LOOKAHEAD_BITS
#endif

#define LIMIT (1L << 40)

#if HEATSHRINK_DYNAMIC_ALLOC == 0
#    define INPUT_SIZE HEATSHRINK_STATIC_INPUT_BUFFER_SIZE
#    define BUFFERS (INPUT_SIZE + (1 << HEATSHRINK_STATIC_WINDOW_BITS))
static heatshrink_decoder decoder;
#else
#    define INPUT_SIZE 256
#    define BUFFERS (INPUT_SIZE + (1 << WINDOW))
#endif

#if HEATSHRINK_DYNAMIC_ALLOC == 0
#    define DECODER_SIZE sizeof(heatshrink_decoder)
#else
#    define DECODER_SIZE (sizeof(heatshrink_decoder) + BUFFERS)
#endif

static heatshrink_decoder *d;
static uint8_t *out_p;
static size_t out_size;
static size_t used;
static int kept;

static void control(void)
{
    sa_control(&d->state);
    sa_plain(&d->bit_index);
    sa_control(&d->input_size);
    sa_control(&out_p);
    sa_plain(&d->input_index);
    sa_plain(&d->output_count);
    sa_plain(&d->output_index);
    sa_plain(&d->head_index);
}

void sa_inv_check(void)
{
    sa_check(d->state <= 6, "inv: decoder state");
    if (d->input_size == 0) {
        sa_check(d->input_index == 0, "inv: decoder input left");
    } else {
        sa_check(d->input_index < d->input_size, "inv: decoder input left");
    }

#if WINDOW <= 8
    sa_check(d->state != 2, "inv: bits of the index");
#endif
#if LOOKAHEAD <= 8
    sa_check(d->state != 4, "inv: bits of the count");
#endif
    sa_check(d->input_size <= INPUT_SIZE,
             "inv: decoder input is within the input buffer");
#if WINDOW <= 9
    sa_use(&d->buffers[0], BUFFERS);
#endif
    sa_use(&d->current_byte, 1);
    sa_use(&d->bit_index, 1);
    sa_use(&d->output_count, 2);
    sa_use(&d->output_index, 2);
    sa_use(&d->head_index, 2);

    if (out_p != NULL) {
        sa_check(used <= out_size, "output is within the output buffer");
        sa_use(out_p, used);
    }
#if HEATSHRINK_DYNAMIC_ALLOC == 1
    sa_check(sizeof(*d) + BUFFERS <= sa_objsize(d),
             "inv: decoder buffers");
    sa_check(d->window_sz2 == WINDOW, "inv: window size");
    sa_check(d->lookahead_sz2 == LOOKAHEAD, "inv: lookahead size");
    sa_check(d->input_buffer_size == INPUT_SIZE, "inv: input buffer size");
#endif
}

void sa_inv_havoc(void)
{
    switch (
#ifdef ONLY
ONLY
#else
sa_range(0, 6)
#endif
) {
    case 0:
        d->state = 0;
        break;
    case 1:
        d->state = 1;
        break;
#if WINDOW > 8
    case 2:
        d->state = 2;
        break;
#endif
    case 3:
        d->state = 3;
        break;
#if LOOKAHEAD > 8
    case 4:
        d->state = 4;
        break;
#endif
    case 5:
        d->state = 5;
        break;
    default:
        d->state = 6;
        break;
    }

    if (sa_range(0, 1)) {
        d->input_size = 0;
        d->input_index = 0;
    } else {
        d->input_size = (uint16_t)sa_range(1, INPUT_SIZE);
        d->input_index = (uint16_t)sa_range(0, INPUT_SIZE - 1);
        sa_assume(d->input_index < d->input_size);
    }

    d->bit_index = (uint8_t)sa_range(0, 255);
    d->current_byte = (uint8_t)sa_range(0, 255);
    d->output_count = (uint16_t)sa_range(0, 65535);
    d->output_index = (uint16_t)sa_range(0, 65535);
    d->head_index = (uint16_t)sa_range(0, 65535);

    if (out_p != NULL) {
        used = (size_t)sa_range(0, LIMIT);
        sa_assume(used <= out_size);
        sa_forget(out_p, out_size);
        sa_fill(out_p, used);
    }
}

static void create(void)
{
#if HEATSHRINK_DYNAMIC_ALLOC == 0
    d = &decoder;
    sa_forget(d, sizeof(*d));
    heatshrink_decoder_reset(d);
#else
    d = heatshrink_decoder_alloc(INPUT_SIZE, WINDOW, LOOKAHEAD);

    if (d == NULL) {
        sa_stop();
    }
#endif
}

int entry(void)
{
    uint8_t *in_p;
    uint8_t *buf_p;
    size_t size;
    int res;

    out_p = NULL;
    out_size = 0;
    used = 0;
    sa_watch(&kept, 0);         /* keep distances in loops */
    create();
    sa_inv_check();

#if HEATSHRINK_DYNAMIC_ALLOC == 1
    if (sa_range(0, 1)) {
        heatshrink_decoder_free(d);
        d = NULL;
        sa_released();

        return (0);
    }

    free(d);
    d = sa_uninit(DECODER_SIZE);
#endif

    control();
    size = (size_t)sa_range(1, LIMIT);
    buf_p = sa_uninit(size);
    sa_forget(d, sizeof(*d));
    sa_fill(d, DECODER_SIZE);
#if HEATSHRINK_DYNAMIC_ALLOC == 1
    d->window_sz2 = WINDOW;
    d->lookahead_sz2 = LOOKAHEAD;
    d->input_buffer_size = INPUT_SIZE;
#endif
    sa_inv_havoc();

    switch (sa_range(0, 2)) {

    case 0:
        /* Poll. */
        out_size = size;
        out_p = buf_p;
        sa_cut(1);
        res = heatshrink_decoder_poll(d, out_p, size, &used);
        sa_cut(0);
        sa_inv_check();
        sa_check(res == HSDR_POLL_MORE || res == HSDR_POLL_EMPTY,
                 "decoding never fails");

        if (res == HSDR_POLL_MORE) {
            sa_check(used == size, "the output buffer is full");
        } else {
            sa_check(used <= size, "output is within the output buffer");
        }

        sa_use(out_p, used);
        break;

    case 1:
        /* Sink. */
        in_p = (uint8_t *)sa_input(size);
        res = heatshrink_decoder_sink(d, in_p, size, &used);
        sa_inv_check();
        sa_check(res == HSDR_SINK_OK || res == HSDR_SINK_FULL,
                 "giving input never fails");

        if (res == HSDR_SINK_OK) {
            sa_check(used > 0 && used <= size, "some input is used");
        } else {
            sa_check(used == 0, "no input is used");
        }

        break;

    default:
        res = heatshrink_decoder_finish(d);
        sa_check(res == HSDR_FINISH_DONE || res == HSDR_FINISH_MORE,
                 "finishing never fails");
        break;
    }

    return (res);
}
