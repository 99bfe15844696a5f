/* Patch readers (one per compression): representation invariants.
 *
 * The machines are analysed against the contract of the readers only (see
 * contract.h); each reader is shown to fulfil the contract from every state
 * in which its invariant holds. */
#ifndef READER_H
#define READER_H

typedef struct detools_apply_patch_patch_reader_t reader_t;

/* Limits of what the wire format can express. */
#define SIZE_LIMIT (1L << 28)

static void check_bits(int state, int offset, int value, int first)
{
    if (state != detools_unpack_usize_state_first_t) {
        sa_check(state == detools_unpack_usize_state_consecutive_t,
                 "inv: size state");
        sa_check(offset == first || offset == first + 7
                 || offset == first + 14 || offset == first + 21
                 || offset == first + 28,
                 "inv: bits of a size read so far");
        sa_check(offset <= 28, "inv: at most 28 bits in a size");
        sa_check(value >= 0 && value < SIZE_LIMIT, "inv: size value");
        sa_check(first == 0 || value < (1L << offset), "inv: size value");
    }
}

static int havoc_bits(int first)
{
    switch (sa_range(0, 3)) {
    case 0:
        return (first);
    case 1:
        return (first + 7);
    case 2:
        return (first + 14);
    default:
        return (first + 21);
    }
}

#ifdef WITH_MODEL
static int sa_whole;            /* no number is being read */
#endif

static void havoc_size(struct detools_apply_patch_size_t *self_p)
{
#ifdef WITH_MODEL
    if (sa_whole || sa_range(0, 1)) {
#else
    if (sa_range(0, 1)) {
#endif
        self_p->state = detools_unpack_usize_state_first_t;
        self_p->value = sa_int();
        self_p->offset = sa_int();
        self_p->is_signed = (bool)sa_range(0, 1);
    } else {
        self_p->state = detools_unpack_usize_state_consecutive_t;
        self_p->offset = havoc_bits(6);
        self_p->value = (int)sa_range(0, (1L << self_p->offset) - 1);

        if (sa_range(0, 1)) {
            self_p->is_signed = true;
        } else {
            self_p->is_signed = false;
        }
    }
}

static void control_size(struct detools_apply_patch_size_t *self_p)
{
    sa_control(&self_p->state);
    sa_control(&self_p->offset);
}

#ifdef WITH_MODEL
#include "model.h"
#endif

#if K >= 0

#if K == 0

static void control_compression(reader_t *r)
{
    (void)r;
}

static void check_compression(reader_t *r)
{
    sa_check(r->compression.none.patch_offset
             <= r->compression.none.patch_size,
             "inv: patch bytes read");
}

static void havoc_compression(reader_t *r)
{
    r->compression.none.patch_size = sa_size();
    r->compression.none.patch_offset = sa_size();
    sa_assume(r->compression.none.patch_offset
              <= r->compression.none.patch_size);
}

#elif K == 1

#define BUFFER_LIMIT (1L << 40)

static void control_compression(reader_t *r)
{
    sa_control(&r->compression.lzma.input_p);
    sa_control(&r->compression.lzma.output_p);
}

static void check_compression(reader_t *r)
{
    struct detools_apply_patch_patch_reader_lzma_t *c = &r->compression.lzma;

    sa_check(sa_lzma_open(&c->stream), "inv: the decoder is open");

    if (c->input_p != NULL) {
        sa_check(sa_within(c->stream.next_in, c->stream.avail_in,
                           c->input_p),
                 "inv: decoder input is within the input buffer");
    } else {
        sa_check(c->stream.avail_in == 0, "inv: no decoder input");
    }

    if (c->output_p != NULL) {
        sa_check(c->output_size <= sa_objsize(c->output_p),
                 "inv: output size is within the output buffer");
    } else {
        sa_check(c->output_size == 0, "inv: no decoder output");
    }
}

static void havoc_compression(reader_t *r)
{
    struct detools_apply_patch_patch_reader_lzma_t *c = &r->compression.lzma;
    size_t size;
    size_t offset;

    sa_lzma_havoc(&c->stream);

    if (sa_range(0, 1)) {
        size = (size_t)sa_range(1, BUFFER_LIMIT);
        c->input_p = sa_heap(size);
        offset = (size_t)sa_range(0, BUFFER_LIMIT);
        c->stream.avail_in = (size_t)sa_range(0, BUFFER_LIMIT);
        sa_assume(offset + c->stream.avail_in <= size);
        c->stream.next_in = c->input_p + offset;
    } else {
        c->input_p = NULL;
        c->stream.avail_in = 0;
    }

    if (sa_range(0, 1)) {
        size = (size_t)sa_range(1, BUFFER_LIMIT);
        c->output_p = sa_heap(size);
        c->output_size = (size_t)sa_range(0, BUFFER_LIMIT);
        sa_assume(c->output_size <= size);
    } else {
        c->output_p = NULL;
        c->output_size = 0;
    }
}

#elif K == 2

static void control_compression(reader_t *r)
{
    sa_control(&r->compression.crle.state);
    sa_control(&r->compression.crle.kind.scattered.size.state);
    sa_control(&r->compression.crle.kind.repeated.size.state);
}

static void check_compression(reader_t *r)
{
    struct detools_apply_patch_patch_reader_crle_t *c = &r->compression.crle;

    switch (c->state) {

    case detools_crle_state_idle_t:
        break;

    case detools_crle_state_scattered_size_t:
        check_bits(c->kind.scattered.size.state,
                   c->kind.scattered.size.offset,
                   c->kind.scattered.size.value,
                   0);
        break;

    case detools_crle_state_scattered_data_t:
        sa_check(c->kind.scattered.number_of_bytes_left > 0,
                 "inv: bytes left in segment");
        sa_check(c->kind.scattered.number_of_bytes_left < SIZE_LIMIT,
                 "inv: bytes left in segment");
        break;

    case detools_crle_state_repeated_repetitions_t:
        check_bits(c->kind.repeated.size.state,
                   c->kind.repeated.size.offset,
                   c->kind.repeated.size.value,
                   0);
        break;

    case detools_crle_state_repeated_data_t:
        sa_check(c->kind.repeated.number_of_bytes_left < SIZE_LIMIT,
                 "inv: bytes left in segment");
        break;

    case detools_crle_state_repeated_data_read_t:
        sa_check(c->kind.repeated.number_of_bytes_left > 0,
                 "inv: bytes left in segment");
        sa_check(c->kind.repeated.number_of_bytes_left < SIZE_LIMIT,
                 "inv: bytes left in segment");
        sa_use(&c->kind.repeated.value, 1);
        break;

    default:
        sa_check(0, "inv: segment state");
        break;
    }
}

static void havoc_usize(struct detools_unpack_usize_t *u)
{
    if (sa_range(0, 1)) {
        u->state = detools_unpack_usize_state_first_t;
        u->value = sa_int();
        u->offset = sa_int();
    } else {
        u->state = detools_unpack_usize_state_consecutive_t;
        u->value = (int)sa_range(0, SIZE_LIMIT - 1);

        if (sa_range(0, 1)) {
            u->offset = 28;
        } else {
            u->offset = havoc_bits(0);
        }
    }
}

static void havoc_compression(reader_t *r)
{
    struct detools_apply_patch_patch_reader_crle_t *c = &r->compression.crle;

    switch (sa_range(0, 5)) {

    case 0:
        c->state = detools_crle_state_idle_t;
        break;

    case 1:
        c->state = detools_crle_state_scattered_size_t;
        havoc_usize(&c->kind.scattered.size);
        break;

    case 2:
        c->state = detools_crle_state_scattered_data_t;
        c->kind.scattered.number_of_bytes_left
            = (size_t)sa_range(1, SIZE_LIMIT - 1);
        break;

    case 3:
        c->state = detools_crle_state_repeated_repetitions_t;
        havoc_usize(&c->kind.repeated.size);
        break;

    case 4:
        c->state = detools_crle_state_repeated_data_t;
        c->kind.repeated.number_of_bytes_left
            = (size_t)sa_range(0, SIZE_LIMIT - 1);
        break;

    default:
        c->state = detools_crle_state_repeated_data_read_t;
        c->kind.repeated.number_of_bytes_left
            = (size_t)sa_range(1, SIZE_LIMIT - 1);
        c->kind.repeated.value = (uint8_t)sa_range(0, 255);
        break;
    }
}

#elif K == 4

#include "heatshrink.h"

#endif

static void check_reader(reader_t *r, reader_t *tpl_p, void *chunk_p)
{
    sa_check(sa_same((void *)r->destroy, (void *)tpl_p->destroy)
             && sa_same((void *)r->decompress, (void *)tpl_p->decompress),
             "inv: patch reader of the compression");
    sa_check((void *)r->patch_chunk_p == chunk_p, "inv: patch reader input");
    check_bits(r->size.state, r->size.offset, r->size.value, 6);
    check_compression(r);
}

static void havoc_reader(reader_t *r, reader_t *tpl_p, void *chunk_p)
{
    r->destroy = tpl_p->destroy;
    r->decompress = tpl_p->decompress;
    r->patch_chunk_p = chunk_p;
    havoc_size(&r->size);
    havoc_compression(r);
}

#else

/* The contract of the readers. */

static struct {
    int live;
    int failed;
    reader_t *reader_p;
    struct detools_apply_patch_chunk_t *chunk_p;
} c;

static void havoc_failed(void)
{
    switch (sa_range(0, 2)) {

    case 0:
        c.failed = 0;
        break;

    case 1:
        c.failed = 1;
        break;

    default:
        c.failed = 2;
        break;
    }
}

/* Some input may be consumed; all of it if more is needed. */
static void c_consume(struct detools_apply_patch_chunk_t *chunk_p, int all)
{
    size_t offset;

    if (all) {
        chunk_p->offset = chunk_p->size;
    } else {
        offset = sa_size();
        sa_assume(offset >= chunk_p->offset);
        sa_assume(offset <= chunk_p->size);
        chunk_p->offset = offset;
    }
}

static int c_decompress(reader_t *r, uint8_t *buf_p, size_t *size_p)
{
    size_t size;

    sa_check(r == c.reader_p, "the patch reader gets itself");
    sa_check(c.live, "the patch reader is used only until it is released");
    sa_check(!c.failed, "the patch reader is not used after a failure");
    sa_check(*size_p > 0, "at least one byte is read from the patch");

    switch (sa_range(0, 2)) {

    case 0:
#ifdef CONTENT
        size = c_content(buf_p, *size_p);
#else
        size = sa_size();
        sa_assume(size > 0);
        sa_assume(size <= *size_p);
        sa_fill_from(buf_p, size, "patch");
#endif
        *size_p = size;
        c_consume(c.chunk_p, 0);

        return (0);

    case 1:
        c_consume(c.chunk_p, 1);

        return (1);

    default:
        /* Any error but -DETOOLS_ALREADY_DONE. */
        if (sa_range(0, 1)) {
            c.failed = 1;

            return ((int)sa_range(-27, -12));
        } else {
            c.failed = 2;

            return ((int)sa_range(-10, -1));
        }
    }
}

static int c_destroy(reader_t *r)
{
    sa_check(r == c.reader_p, "the patch reader gets itself");
    sa_check(c.live, "the patch reader is released once");
    c.live = 0;

    if (sa_range(0, 1)) {
        return (0);
    } else {
        return ((int)sa_range(-27, -1));
    }
}

static void check_reader(reader_t *r, reader_t *tpl_p, void *chunk_p)
{
    (void)tpl_p;

    sa_check(r->destroy == c_destroy && r->decompress == c_decompress,
             "inv: the patch reader is kept");
    sa_check(c.live, "the patch reader is released only when finalizing");
    sa_check((void *)r->patch_chunk_p == chunk_p, "inv: patch reader input");
    check_bits(r->size.state, r->size.offset, r->size.value, 6);
}

static void havoc_reader(reader_t *r, reader_t *tpl_p, void *chunk_p)
{
    (void)tpl_p;

    c.live = 1;
    c.failed = 0;
    c.reader_p = r;
    c.chunk_p = chunk_p;
    r->destroy = c_destroy;
    r->decompress = c_decompress;
    r->patch_chunk_p = chunk_p;
    havoc_size(&r->size);
}

#endif

#endif
