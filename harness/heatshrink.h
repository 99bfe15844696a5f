/* The heatshrink patch reader, using the contract of the heatshrink decoder
 * (heatshrink_decoder.c shows that the decoder fulfils it). */

#include <stdlib.h>

#ifdef WITH_DELIVERY
/* See deliver.c. */
static HSD_sink_res d_sink(uint8_t *in_buf, size_t size, size_t *input_size);
static HSD_poll_res d_poll(uint8_t *out_buf,
                           size_t out_buf_size,
                           size_t *output_size);
static void d_setup(int window_sz2, int lookahead_sz2);
#endif

#define HS(r) ((r)->compression.heatshrink)

static struct {
    int ready;
    heatshrink_decoder *decoder_p;
} hs;

static void control_compression(reader_t *r)
{
    sa_control(&HS(r).window_sz2);
    sa_control(&HS(r).decoder_p);
    sa_control(&hs.ready);
}

static void check_ready(heatshrink_decoder *decoder_p)
{
    sa_check(hs.ready && decoder_p == hs.decoder_p,
             "the decoder is used only when it is set up");
}

#if HEATSHRINK_DYNAMIC_ALLOC == 0

void heatshrink_decoder_reset(heatshrink_decoder *decoder_p)
{
    sa_fill(decoder_p, sizeof(*decoder_p));
#ifdef WITH_DELIVERY
    d_setup(HEATSHRINK_STATIC_WINDOW_BITS, HEATSHRINK_STATIC_LOOKAHEAD_BITS);
#endif
    hs.ready = 1;
    hs.decoder_p = decoder_p;
}

#else

heatshrink_decoder *heatshrink_decoder_alloc(uint16_t input_buffer_size,
                                             uint8_t window_sz2,
                                             uint8_t lookahead_sz2)
{
    (void)window_sz2;
    (void)lookahead_sz2;

#ifdef WITH_DELIVERY
    d_setup(window_sz2, lookahead_sz2);
#endif
    sa_check(!hs.ready, "the decoder is set up once");

    if (sa_range(0, 1)) {
        return (NULL);
    }

    sa_check(input_buffer_size > 0, "the decoder has an input buffer");
    hs.decoder_p = sa_heap(sizeof(*hs.decoder_p));
    hs.ready = 1;

    return (hs.decoder_p);
}

void heatshrink_decoder_free(heatshrink_decoder *decoder_p)
{
    check_ready(decoder_p);
    hs.ready = 0;
    hs.decoder_p = NULL;
    free(decoder_p);
}

#endif

HSD_sink_res heatshrink_decoder_sink(heatshrink_decoder *decoder_p,
                                     uint8_t *in_buf,
                                     size_t size,
                                     size_t *input_size)
{
    size_t used;

    check_ready(decoder_p);
    sa_use(in_buf, size);
    sa_check(size > 0, "input is given to the decoder");

#ifdef WITH_DELIVERY
    return (d_sink(in_buf, size, input_size));
#endif

    switch (sa_range(0, 1)) {

    case 0:
        used = sa_size();
        sa_assume(used > 0);
        sa_assume(used <= size);
        *input_size = used;

        return (HSDR_SINK_OK);

    default:
        *input_size = 0;

        return (HSDR_SINK_FULL);
    }
}

HSD_poll_res heatshrink_decoder_poll(heatshrink_decoder *decoder_p,
                                     uint8_t *out_buf,
                                     size_t out_buf_size,
                                     size_t *output_size)
{
    size_t size;

    check_ready(decoder_p);
    sa_check(out_buf_size > 0, "there is room for decoder output");

#ifdef WITH_DELIVERY
    return (d_poll(out_buf, out_buf_size, output_size));
#endif

    if (sa_range(0, 1)) {
        size = out_buf_size;
        sa_fill_from(out_buf, size, "patch");
        *output_size = size;

        return (HSDR_POLL_MORE);
    } else {
        size = sa_size();
        sa_assume(size <= out_buf_size);
        sa_fill_from(out_buf, size, "patch");
        *output_size = size;

        return (HSDR_POLL_EMPTY);
    }
}

HSD_finish_res heatshrink_decoder_finish(heatshrink_decoder *decoder_p)
{
    check_ready(decoder_p);

    return (sa_range(0, 1) ? HSDR_FINISH_DONE : HSDR_FINISH_MORE);
}

static void check_compression(reader_t *r)
{
    if (HS(r).window_sz2 == -1) {
        sa_check(HS(r).decoder_p == NULL, "inv: no decoder");
        sa_check(!hs.ready, "inv: no decoder");
    } else {
        sa_check(hs.ready && HS(r).decoder_p == hs.decoder_p,
                 "inv: the decoder");
#if HEATSHRINK_DYNAMIC_ALLOC == 0
        sa_check(HS(r).decoder_p == &HS(r).decoder, "inv: the decoder");
#endif
    }
}

static void havoc_compression(reader_t *r)
{
    if (sa_range(0, 1)) {
        HS(r).window_sz2 = -1;
        HS(r).lookahead_sz2 = -1;
        HS(r).decoder_p = NULL;
        hs.ready = 0;
        hs.decoder_p = NULL;
    } else {
        HS(r).window_sz2 = (int8_t)sa_range(4, 19);
        HS(r).lookahead_sz2 = (int8_t)sa_range(3, 18);
#if HEATSHRINK_DYNAMIC_ALLOC == 0
        HS(r).decoder_p = &HS(r).decoder;
        sa_fill(HS(r).decoder_p, sizeof(*HS(r).decoder_p));
#else
        HS(r).decoder_p = sa_heap(sizeof(*HS(r).decoder_p));
#endif
        hs.ready = 1;
        hs.decoder_p = HS(r).decoder_p;
    }
}
