/* The contents of the header of an in-place patch. */
#define HEAD_MODEL
#include "sa.h"

static void head_done(void);

#include "ip.h"

#define TYPE 1
#define FIELDS 5
#define SEG 64
#include "head.h"

static int layout_ok;
static int layout;             /* keeps layouts apart */

void sa_inv_havoc(void)
{
}

/* Whether the layout is possible has been decided when it was chosen, but
 * for the last number read. */
static void head_end(void)
{
    if (!layout_ok) {
        h.bad = 1;
    }

    if (h.sizes[5] > (long)ap.memory_size) {
        h.bad = 1;
    }
}

/* Layouts that are not possible may be rejected before the last number. */
static void head_next(void)
{
    switch (h.field - 1) {

    case 2:
        if (h.sizes[2] == 0) {
            h.maybe = 1;
        }

        break;

    case 3:
        h.maybe = 1;
        break;

    case 4:
        if (h.sizes[4] > (long)ap.memory_size) {
            h.maybe = 1;
        }

        break;

    default:
        break;
    }
}

static void check_known(void)
{
    if (h.field > 0) {
        sa_check(ap.compression == h.compression, HEAD);
    }

    if (h.field > 1) {
        sa_check((long)ap.memory_size == h.sizes[1], HEAD);
    }

    if (h.field > 2) {
        sa_check((long)ap.segment_size == h.sizes[2], HEAD);
    }

    if (h.field > 3) {
        sa_check((long)ap.shift_size == h.sizes[3], HEAD);
    }

    if (h.field > 4) {
        sa_check((long)ap.from_size == h.sizes[4], HEAD);
    }

    if (h.field > 5) {
        sa_check((long)ap.to_size == h.sizes[5], HEAD);
        sa_check(ap.to_pos == 0, "the data begins at offset 0");
    }
}

/* A callback is called: the header must be complete. */
static void head_done(void)
{
    if (h.minus) {
        sa_stop();
    }

    sa_check(!h.bad, "bad headers are rejected");
    sa_check(h.field > FIELDS,
             "no callback is called before the header is read");
    check_known();
    sa_check(ap.to_size > 0, "memory is not touched without data");
    sa_stop();
}

static void head_started(void)
{
    long k;

    switch (ap.init_state) {

    case detools_apply_patch_in_place_init_state_fixed_header_t:
        h.field = 0;
        break;

    case detools_apply_patch_in_place_init_state_memory_size_t:
        h.field = 1;
        break;

    case detools_apply_patch_in_place_init_state_segment_size_t:
        h.field = 2;
        break;

    case detools_apply_patch_in_place_init_state_shift_size_t:
        h.field = 3;
        break;

    case detools_apply_patch_in_place_init_state_from_size_t:
        h.field = 4;
        break;

    default:
        h.field = 5;

        switch (sa_range(0, 5)) {

        case 0:
            /* A possible layout. */
            layout = 0;
            ap.segment_size = SEG;
            k = sa_range(0, 1000000);
            ap.memory_size = (size_t)(SEG * k);
            k = sa_range(0, 1000000);
            ap.shift_size = (size_t)(SEG * k);
            layout_ok = 1;
            sa_assume(ap.shift_size <= ap.memory_size);
            break;

        case 1:
            layout = 1;
            ap.segment_size = SEG;
            k = sa_range(0, 1000000);
            ap.memory_size = (size_t)(SEG * k);
            k = sa_range(0, 1000000);
            ap.shift_size = (size_t)(SEG * k) + (size_t)sa_range(1, SEG - 1);
            layout_ok = 0;
            break;

        case 2:
            layout = 2;
            ap.segment_size = SEG;
            k = sa_range(0, 1000000);
            ap.memory_size = (size_t)(SEG * k) + (size_t)sa_range(1, SEG - 1);
            k = sa_range(0, 1000000);
            ap.shift_size = (size_t)(SEG * k);
            layout_ok = 0;
            break;

        case 3:
            layout = 3;
            ap.segment_size = SEG;
            k = sa_range(0, 1000000);
            ap.memory_size = (size_t)(SEG * k);
            k = sa_range(0, 1000000);
            ap.shift_size = (size_t)(SEG * k);
            layout_ok = 0;
            sa_assume(ap.shift_size > ap.memory_size);
            break;

        case 4:
            layout = 4;
            ap.segment_size = 1;
            layout_ok = 1;
            sa_assume(ap.shift_size <= ap.memory_size);
            break;

        default:
            layout = 5;
            ap.segment_size = 0;
            layout_ok = 0;
            break;
        }

        break;
    }

    h.compression = ap.compression;
    h.sizes[1] = (long)ap.memory_size;
    h.sizes[2] = (long)ap.segment_size;
    h.sizes[3] = (long)ap.shift_size;
    h.sizes[4] = (long)ap.from_size;

    if (h.field > 0) {
        head_start(&ap.size);
    }
}

static void check_field(void)
{
    switch (ap.init_state) {

    case detools_apply_patch_in_place_init_state_fixed_header_t:
        sa_check(h.field == 0, HEAD);
        break;

    case detools_apply_patch_in_place_init_state_memory_size_t:
        sa_check(h.field == 1, HEAD);
        break;

    case detools_apply_patch_in_place_init_state_segment_size_t:
        sa_check(h.field == 2, HEAD);
        break;

    case detools_apply_patch_in_place_init_state_shift_size_t:
        sa_check(h.field == 3, HEAD);
        break;

    case detools_apply_patch_in_place_init_state_from_size_t:
        sa_check(h.field == 4, HEAD);
        break;

    default:
        sa_check(h.field == 5, HEAD);
        break;
    }
}

int entry(void)
{
    static uint8_t chunk[COUNT];
    int res;
    int i;

    learn();
    choose_mode();
    head_control();
    sa_control(&layout_ok);
    sa_control(&layout);
    w.shifting = 1;
    ap.chunk.size = 0;
    ap.chunk.offset = 0;
    havoc_init();

    if (ap.init_state
        == detools_apply_patch_in_place_init_state_fixed_header_t) {
        if (detools_apply_patch_in_place_init(&ap, w_mem_read, w_mem_write,
                                              w_mem_erase,
                                              w.steps ? w_step_set : NULL,
                                              w.steps ? w_step_get : NULL,
                                              sa_size(), &w) != 0) {
            sa_check(0, "initialisation succeeds");
        }
    }

    head_started();

    for (i = 0; i < COUNT; i++) {
        if (h.field == 5 && i > 0) {
            sa_stop();
        }

        chunk[i] = (uint8_t)head_any();
        head_byte(chunk[i]);

        if ((h.bad || h.field > FIELDS || (h.minus && h.off == 0))
            && i + 1 < COUNT) {
            sa_stop();
        }
    }

    res = detools_apply_patch_in_place_process(&ap, chunk, COUNT);

    if (res < 0) {
        sa_check(h.bad || h.minus || h.maybe, "a header is rejected only if it is bad");

        return (res);
    }

    if (h.minus && h.off == 0) {
        sa_stop();
    }

    sa_check(!h.bad, "bad headers are rejected");

    if (h.field > FIELDS) {
        check_known();

        if (ap.to_size > 0) {
            sa_check(ap.state == detools_apply_patch_state_dfpatch_size_t,
                     "the data follows the header");
            sa_check(ap.patch_reader.size.state
                     == detools_unpack_usize_state_first_t,
                     "the data follows the header");
        } else {
            sa_check(ap.state == detools_apply_patch_state_done_t,
                     "without data the patch ends after the header");
        }
    } else {
        sa_check(ap.state == detools_apply_patch_state_init_t, HEAD);
        check_field();
        check_known();

        if (h.field > 0) {
            head_number(&ap.size);
        }
    }

    return (res);
}
