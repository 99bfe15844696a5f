/* What the patch readers deliver: the decompressed data, all of it and in
 * order, made from the bytes of the patch, all of them and in order.
 *
 * One byte of the patch and one of the decompressed data, at any positions
 * (counted from where the call begins), are followed. */
#include "sa.h"
#include <stdlib.h>

static long in_at;              /* of the patch byte */
static int in_byte;
static long fed;                /* patch bytes given to the decoder */
static long out_at;             /* of the decompressed byte */
static int out_byte;
static long made;               /* bytes decompressed */

#define WITH_DELIVERY
#include "seq.h"

#define LIMIT (1L << 40)

void sa_inv_havoc(void)
{
}

/* The patch byte, if it is among these size bytes, at position. */
static void check_in(const uint8_t *p, size_t size, long position)
{
    if (size == 1) {
        if (in_at == position) {
            sa_check(p[0] == in_byte,
                     "patch bytes are decompressed in order");
        }
    } else if (in_at >= position && in_at - position < (long)size) {
        sa_check(p[in_at - position] == in_byte,
                 "patch bytes are decompressed in order");
    }
}

static void watch_in(const uint8_t *p, size_t size, long position)
{
    if (in_at >= position && in_at - position < (long)size) {
        sa_watch(p + (in_at - position), in_byte);
    }
}

static void check_out(const uint8_t *p, size_t size, long position)
{
    if (out_at >= position && out_at - position < (long)size) {
        sa_check(p[out_at - position] == out_byte,
                 "decompressed data is delivered in order");
    }
}

static void watch_out(const uint8_t *p, size_t size, long position)
{
    if (out_at >= position && out_at - position < (long)size) {
        sa_watch(p + (out_at - position), out_byte);
    }
}

#if K == 0

#define R (ap.patch_reader.compression.none)

static void begin(const uint8_t *p, size_t size)
{
    watch_in(p + ap.chunk.offset, size - ap.chunk.offset, 0);
}

static void end(int res, const uint8_t *buf_p, size_t size, size_t consumed)
{
    if (res == 0) {
        check_in(buf_p, size, 0);
        sa_check(size == consumed, "patch bytes are used exactly once");
    } else if (res == 1) {
        sa_check(consumed == 0, "patch bytes are used exactly once");
    }
}

#elif K == 1

#define R (ap.patch_reader.compression.lzma)

static size_t in_left;          /* before the call */
static size_t out_left;
static int turn;                /* calls made */
static int exact;               /* what is left is a few bytes */

lzma_ret lzma_code(lzma_stream *s, lzma_action action)
{
    size_t used;
    size_t size;

    sa_check(sa_lzma_open(s), "the decoder is open");
    sa_check(action == LZMA_RUN, "the decoder is run");
    sa_use(s->next_in, s->avail_in);
    check_in(s->next_in, s->avail_in, fed);

    if (exact) {
        sa_control(&used);

        switch (sa_range(0, 2)) {

        case 0:
            used = 0;
            break;

        case 1:
            used = (s->avail_in > 0);
            break;

        default:
            used = s->avail_in;
            break;
        }
    } else {
        used = sa_size();
        sa_assume(used <= s->avail_in);
    }

    size = sa_size();
    sa_assume(size <= s->avail_out);

    if (size > 0) {
        sa_fill_from(s->next_out, size, "patch");
        watch_out(s->next_out, size, made);
    }

    if (turn < 3) {
        turn++;
    }

    fed += (long)used;
    made += (long)size;
    s->next_in += used;
    s->avail_in -= used;
    s->next_out += size;
    s->avail_out -= size;

    switch (sa_range(0, 2)) {

    case 0:
        return (LZMA_OK);

    case 1:
        return (LZMA_STREAM_END);

    default:
        return (LZMA_DATA_ERROR);
    }
}

static void begin(const uint8_t *p, size_t size)
{
    in_left = R.stream.avail_in;
    out_left = R.output_size;
    turn = 0;
    sa_control(&turn);
    exact = 0;
    made = (long)out_left;

    if (in_left > 0 && sa_range(0, 1)) {
        /* Bytes of the patch left since the call before. */
        uint8_t *left_p;

        free(R.input_p);
        left_p = sa_heap(4);
        R.input_p = left_p;
        R.stream.next_in = &left_p[1];
        R.stream.avail_in = 3;
        in_left = 3;
        exact = 1;
        sa_control(&exact);
        sa_control(&fed);
        sa_control(&in_at);

        if (sa_range(0, 1)) {
            in_at = 0;
            sa_watch(&left_p[1], in_byte);
        } else {
            in_at = 2;
            sa_watch(&left_p[3], in_byte);
        }
    } else {
        sa_assume(in_at >= (long)in_left);
        watch_in(p + ap.chunk.offset, size - ap.chunk.offset, (long)in_left);
    }

    if (out_left > 0) {
        watch_out(R.output_p, out_left, 0);
    }
}

static void end(int res, const uint8_t *buf_p, size_t size, size_t consumed)
{
    if (res < 0) {
        return;
    }

    sa_check((long)(in_left + consumed) == fed + (long)R.stream.avail_in,
             "patch bytes are used exactly once");

    if (R.stream.avail_in > 0) {
        check_in(R.stream.next_in, R.stream.avail_in, fed);
    }

    if (res == 0) {
        check_out(buf_p, size, 0);
    } else {
        sa_check(R.output_size < size, "what is decompressed is delivered");
        size = 0;
    }

    sa_check(made == (long)(size + R.output_size),
             "decompressed data is delivered exactly once");

    if (R.output_size > 0) {
        check_out(R.output_p, R.output_size, (long)size);
    }
}

#elif K == 4

#define R (ap.patch_reader.compression.heatshrink)

static int first;               /* the header is read first */
static int window;
static int lookahead;

static HSD_sink_res d_sink(uint8_t *in_buf, size_t size, size_t *input_size)
{
    size_t used;

    check_in(in_buf, size, fed);

    if (sa_range(0, 1)) {
        used = sa_size();
        sa_assume(used > 0);
        sa_assume(used <= size);
        *input_size = used;
        fed += (long)used;

        return (HSDR_SINK_OK);
    } else {
        *input_size = 0;

        return (HSDR_SINK_FULL);
    }
}

static HSD_poll_res d_poll(uint8_t *out_buf,
                           size_t out_buf_size,
                           size_t *output_size)
{
    size_t size;
    HSD_poll_res res;

    if (sa_range(0, 1)) {
        size = out_buf_size;
        res = HSDR_POLL_MORE;
    } else {
        size = sa_size();
        sa_assume(size <= out_buf_size);
        res = HSDR_POLL_EMPTY;
    }

    sa_fill_from(out_buf, size, "patch");
    watch_out(out_buf, size, made);
    made += (long)size;
    *output_size = size;

    return (res);
}

static void d_setup(int window_sz2, int lookahead_sz2)
{
    sa_check(first, "the header is read first");

    if (window > 0) {
        sa_check(window_sz2 == window && lookahead_sz2 == lookahead,
                 "the decoder is set up as the header says");
    }
}

static void begin(const uint8_t *p, size_t size)
{
    first = (R.window_sz2 == -1);
    window = -1;
    lookahead = -1;

    if (first) {
        if (size > ap.chunk.offset && sa_range(0, 1)) {
            watch_in(p + ap.chunk.offset + 1, size - ap.chunk.offset - 1, 0);
        } else if (size > ap.chunk.offset) {
            int high = 0;

            in_at = -1;

            /* The header is the first byte. */
            switch (sa_range(0, 3)) {

            case 0:
                high = 0;
                break;

            case 1:
                high = 4;
                break;

            case 2:
                high = 5;
                break;

            default:
                high = 11;
                break;
            }

            lookahead = (int)sa_range(0, 15);
            sa_watch(p + ap.chunk.offset, 16 * high + lookahead);
            window = high + 4;
            lookahead += 3;
        }
    } else {
        watch_in(p + ap.chunk.offset, size - ap.chunk.offset, 0);
    }
}

static void end(int res, const uint8_t *buf_p, size_t size, size_t consumed)
{
    if (res < 0) {
#if HEATSHRINK_DYNAMIC_ALLOC == 0
        if (res == -DETOOLS_HEATSHRINK_HEADER && window > 0) {
            sa_check(window != HEATSHRINK_STATIC_WINDOW_BITS
                     || lookahead != HEATSHRINK_STATIC_LOOKAHEAD_BITS,
                     "the decoder is set up as the header says");
        }
#endif
        return;
    }

    if (first && hs.ready) {
        fed++;
    }

    sa_check((long)consumed == fed, "patch bytes are used exactly once");

    if (res == 0) {
        check_out(buf_p, size, 0);
    } else {
        size = 0;
    }

    sa_check(made == (long)size,
             "decompressed data is delivered exactly once");
}

#endif

#if K == 2

/* Segments of the data: 0, a size and that many bytes, or 1, a number of
 * repetitions and a byte. */

#define R (ap.patch_reader.compression.crle)

enum { idle_t, size_t_t, data_t, repetitions_t, value_t, repeat_t };

/* What is left to do after the call. */
static void check_left(int state, size_t left, int value)
{
    struct detools_unpack_usize_t *u;

    switch (state) {

    case idle_t:
        sa_check(R.state == detools_crle_state_idle_t,
                 "the segment has ended");
        break;

    case data_t:
        sa_check(R.state == detools_crle_state_scattered_data_t
                 && R.kind.scattered.number_of_bytes_left == left,
                 "bytes left in the segment");
        break;

    case value_t:
        sa_check(R.state == detools_crle_state_repeated_data_t
                 && R.kind.repeated.number_of_bytes_left == left,
                 "bytes left in the segment");
        break;

    case repeat_t:
        sa_check(R.state == detools_crle_state_repeated_data_read_t
                 && R.kind.repeated.number_of_bytes_left == left
                 && R.kind.repeated.value == value,
                 "bytes left in the segment");
        break;

    default:
        if (state == size_t_t) {
            sa_check(R.state == detools_crle_state_scattered_size_t,
                     "the kind of the segment");
            u = &R.kind.scattered.size;
        } else {
            sa_check(R.state == detools_crle_state_repeated_repetitions_t,
                     "the kind of the segment");
            u = &R.kind.repeated.size;
        }

        if (value < 0) {
            sa_check(u->state == detools_unpack_usize_state_first_t
                     || (u->offset == 0 && u->value == 0),
                     "the size of the segment");
        } else {
            sa_check(u->state != detools_unpack_usize_state_first_t
                     && u->offset == 7 && u->value == value,
                     "the size of the segment");
        }

        break;
    }
}

/* The first bytes of a size of three or four. */
static void most_of_size(struct detools_unpack_usize_t *u,
                         int value,
                         int offset)
{
    u->state = detools_unpack_usize_state_consecutive_t;
    u->value = value;
    u->offset = offset;
}

static void part_of_size(struct detools_unpack_usize_t *u, int value)
{
    if (value < 0) {
        u->state = detools_unpack_usize_state_first_t;
        u->value = sa_int();
        u->offset = sa_int();
    } else {
        u->state = detools_unpack_usize_state_consecutive_t;
        u->value = value;
        u->offset = 7;
    }
}

int entry(void)
{
    uint8_t head[4];
    uint8_t *p;
    uint8_t *buf_p;
    size_t max;
    size_t size;
    size_t more;
    size_t heads;
    size_t left;                /* of the segment, when its bytes come */
    long at;
    int state;                  /* when its bytes come */
    int value;
    int big;
    int n;
    int res;
    int which;

    learn();
    max = (size_t)sa_range(1, 128);
    more = (size_t)sa_range(0, LIMIT);
    n = (int)sa_range(0, 127);
    left = (size_t)sa_range(1, (1L << 27) - 1);
    value = (int)sa_range(0, 255);
    big = (int)sa_range(0, (1 << 21) - 1);
    in_byte = (int)sa_range(0, 255);
    out_at = sa_range(0, 127);
    buf_p = sa_heap(max);
    heads = 0;
    which = 0;
    sa_control(&which);
    sa_control(&heads);
    sa_control(&state);
    sa_control(&R.state);
    sa_control(&R.kind.scattered.size.state);
    sa_control(&R.kind.repeated.size.state);
    ap.patch_reader = tpl.patch_reader;
    ap.patch_reader.patch_chunk_p = &ap.chunk;
    R.state = detools_crle_state_idle_t;
    part_of_size(&R.kind.scattered.size, 3);
    part_of_size(&R.kind.repeated.size, 3);

    switch (sa_range(0, 19)) {

    case 0:
        which = 0;
        sa_assume(n > 0);
        head[0] = 0;
        head[1] = (uint8_t)n;
        heads = 2;
        state = data_t;
        left = (size_t)n;
        break;

    case 1:
        which = 1;
        head[0] = 0;
        head[1] = 0;
        heads = 2;
        state = idle_t;
        break;

    case 2:
        which = 2;
        sa_assume(n > 0);
        head[0] = 1;
        head[1] = (uint8_t)n;
        head[2] = (uint8_t)value;
        heads = 3;
        state = repeat_t;
        left = (size_t)n;
        break;

    case 3:
        which = 3;
        head[0] = 1;
        head[1] = 0;
        head[2] = (uint8_t)value;
        heads = 3;
        state = idle_t;
        break;

    case 4:
        which = 4;
        head[0] = 0;
        heads = 1;
        state = size_t_t;
        value = -1;
        break;

    case 5:
        which = 5;
        head[0] = 0;
        head[1] = (uint8_t)(0x80 + n);
        heads = 2;
        state = size_t_t;
        value = n;
        break;

    case 6:
        which = 6;
        head[0] = 1;
        heads = 1;
        state = repetitions_t;
        value = -1;
        break;

    case 7:
        which = 7;
        head[0] = 1;
        head[1] = (uint8_t)(0x80 + n);
        heads = 2;
        state = repetitions_t;
        value = n;
        break;

    case 8:
        which = 8;
        head[0] = 1;
        head[1] = (uint8_t)n;
        heads = 2;
        state = value_t;
        left = (size_t)n;
        break;

    case 9:
        which = 9;
        R.state = detools_crle_state_scattered_size_t;
        sa_assume(value < 128);
        part_of_size(&R.kind.scattered.size, value);
        sa_assume(n > 0);
        head[0] = (uint8_t)n;
        heads = 1;
        state = data_t;
        left = (size_t)value + 128 * (size_t)n;
        break;

    case 10:
        which = 10;
        R.state = detools_crle_state_repeated_repetitions_t;
        sa_assume(value < 128);
        part_of_size(&R.kind.repeated.size, value);
        head[0] = (uint8_t)n;
        heads = 1;
        state = value_t;
        left = (size_t)value + 128 * (size_t)n;
        break;

    case 11:
        which = 11;
        R.state = detools_crle_state_scattered_data_t;
        R.kind.scattered.number_of_bytes_left = left;
        state = data_t;
        break;

    case 12:
        which = 12;
        R.state = detools_crle_state_repeated_data_t;
        R.kind.repeated.number_of_bytes_left = left;
        head[0] = (uint8_t)value;
        heads = 1;
        state = repeat_t;
        break;

    case 13:
        which = 13;
        R.state = detools_crle_state_repeated_data_read_t;
        R.kind.repeated.number_of_bytes_left = left;
        R.kind.repeated.value = (uint8_t)value;
        state = repeat_t;
        break;

    case 14:
        which = 14;
        R.state = detools_crle_state_scattered_size_t;
        part_of_size(&R.kind.scattered.size, -1);
        sa_assume(n > 0);
        head[0] = (uint8_t)n;
        heads = 1;
        state = data_t;
        left = (size_t)n;
        break;

    case 15:
        which = 15;
        R.state = detools_crle_state_scattered_size_t;
        sa_assume(big < (1 << 14));
        most_of_size(&R.kind.scattered.size, big, 14);
        sa_assume(n > 0);
        head[0] = (uint8_t)n;
        heads = 1;
        state = data_t;
        left = (size_t)big + ((size_t)n << 14);
        break;

    case 16:
        which = 16;
        R.state = detools_crle_state_scattered_size_t;
        most_of_size(&R.kind.scattered.size, big, 21);
        sa_assume(n > 0);
        head[0] = (uint8_t)n;
        heads = 1;
        state = data_t;
        left = (size_t)big + ((size_t)n << 21);
        break;

    case 17:
        which = 17;
        R.state = detools_crle_state_repeated_repetitions_t;
        sa_assume(big < (1 << 14));
        most_of_size(&R.kind.repeated.size, big, 14);
        sa_assume(n > 0);
        head[0] = (uint8_t)n;
        heads = 1;
        state = value_t;
        left = (size_t)big + ((size_t)n << 14);
        break;

    case 18:
        which = 18;
        R.state = detools_crle_state_repeated_repetitions_t;
        most_of_size(&R.kind.repeated.size, big, 21);
        sa_assume(n > 0);
        head[0] = (uint8_t)n;
        heads = 1;
        state = value_t;
        left = (size_t)big + ((size_t)n << 21);
        break;

    default:
        which = 19;
        R.state = detools_crle_state_repeated_repetitions_t;
        part_of_size(&R.kind.repeated.size, -1);
        head[0] = (uint8_t)n;
        heads = 1;
        state = value_t;
        left = (size_t)n;
        break;
    }

    if (state != data_t && state != repeat_t) {
        more = 0;
    }

    p = sa_heap(heads + more);

    if (heads > 0) {
        p[0] = head[0];
    }

    if (heads > 1) {
        p[1] = head[1];
    }

    if (heads > 2) {
        p[2] = head[2];
    }

    at = (long)heads + out_at;

    if (out_at < (long)more) {
        sa_watch(p + at, in_byte);
    }

    ap.chunk.buf_p = p;
    ap.chunk.size = heads + more;
    ap.chunk.offset = 0;
    size = max;

    if (state == repeat_t && out_at < (long)max) {
        sa_watch(buf_p + out_at, (value + 1) & 0xff);
    }

    res = ap.patch_reader.decompress(&ap.patch_reader, buf_p, &size);

    if (state == repeat_t) {
        sa_check(res == 0, "what is decompressed is delivered");
        sa_check(size > 0 && size <= max && size <= left,
                 "decompressed data is delivered exactly once");
        sa_check(ap.chunk.offset == heads, "patch bytes are used exactly once");

        if (out_at < (long)size) {
            sa_check(buf_p[out_at] == value,
                     "decompressed data is delivered in order");
        }

        check_left(size == left ? idle_t : repeat_t, left - size, value);
    } else if (state == data_t && more > 0) {
        sa_check(res == 0, "what is decompressed is delivered");
        sa_check(size > 0 && size <= max && size <= left && size <= more,
                 "decompressed data is delivered exactly once");
        sa_check(ap.chunk.offset == heads + size,
                 "patch bytes are used exactly once");

        if (out_at < (long)size) {
            sa_check(buf_p[out_at] == in_byte,
                     "decompressed data is delivered in order");
        }

        check_left(size == left ? idle_t : data_t, left - size, value);
    } else {
        sa_check(res == 1, "more of the patch is needed");
        sa_check(ap.chunk.offset == heads, "patch bytes are used exactly once");
        check_left(state, left, value);
    }

    free(p);
    free(buf_p);

    return (res);
}

#else

int entry(void)
{
    const uint8_t *p;
    uint8_t *buf_p;
    size_t size;
    size_t max;
    size_t offset;
    int res;

    learn();
    in_at = sa_range(0, LIMIT);
    out_at = sa_range(0, LIMIT);
    in_byte = (int)sa_range(0, 255);
    out_byte = (int)sa_range(0, 255);
    fed = 0;
    made = 0;
#if K == 1
    size = 5;
    offset = 2 + (sa_range(0, 1) ? 3 : 0);
    sa_control(&ap.chunk.offset);
#else
    size = (size_t)sa_range(0, LIMIT);
    offset = sa_size();
    sa_assume(offset <= size);
#endif
    p = sa_input(size);
    max = (size_t)sa_range(1, 128);
    buf_p = sa_uninit(max);
    ap.chunk.buf_p = p;
    ap.chunk.size = size;
    ap.chunk.offset = offset;
    havoc_reader(&ap.patch_reader, &tpl.patch_reader, &ap.chunk);
    begin(p, size);
    size = max;
    res = ap.patch_reader.decompress(&ap.patch_reader, buf_p, &size);

    if (res >= 0) {
        sa_check(ap.chunk.offset >= offset, "patch bytes are used once");
    }

    end(res, buf_p, size, ap.chunk.offset - offset);

    return (res);
}

#endif
