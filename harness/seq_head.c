/* The contents of the header of a sequential patch. */
#include "seq.h"

#define TYPE 0
#define FIELDS 1
#include "head.h"

void sa_inv_havoc(void)
{
}

static void head_end(void)
{
}

static void head_next(void)
{
}

int entry(void)
{
    static uint8_t chunk[COUNT];
    int res;
    int i;

    learn();
    head_control();
    ap.chunk.size = 0;
    ap.chunk.offset = 0;

    if (sa_range(0, 1)) {
        if (detools_apply_patch_init(&ap, w_from_read, w_from_seek, sa_size(),
                                     w_to_write, &w) != 0) {
            sa_check(0, "initialisation succeeds");
        }

        h.field = 0;
        h.bad = 0;
        h.minus = 0;
    } else {
        havoc_init();
        sa_assume(ap.init_state
                  == detools_apply_patch_init_state_to_size_t);
        h.field = 1;
        h.compression = ap.compression;
        head_start(&ap.size);
    }

    for (i = 0; i < COUNT; i++) {
        chunk[i] = (uint8_t)head_any();
        head_byte(chunk[i]);

        if ((h.bad || h.field > FIELDS || (h.minus && h.off == 0))
            && i + 1 < COUNT) {
            sa_stop();
        }
    }

    res = detools_apply_patch_process(&ap, chunk, COUNT);

    if (res < 0) {
        sa_check(h.bad || h.minus, "a header is rejected only if it is bad");

        return (res);
    }

    sa_check(!h.bad, "bad headers are rejected");

    if (h.field > FIELDS) {
        sa_check(ap.compression == h.compression, HEAD);

        if (!h.minus) {
            sa_check(ap.to_size == (size_t)h.sizes[1], HEAD);
        }

        sa_check(ap.to_offset == 0 && ap.from_offset == 0,
                 "the data begins at offset 0");

        if (ap.to_size > 0) {
            sa_check(ap.state == detools_apply_patch_state_dfpatch_size_t,
                     "the data follows the header");
            sa_check(ap.patch_reader.size.state
                     == detools_unpack_usize_state_first_t,
                     "the data follows the header");
        } else {
            sa_check(ap.state == detools_apply_patch_state_done_t,
                     "without data the patch ends after the header");
        }
    } else {
        sa_check(ap.state == detools_apply_patch_state_init_t, HEAD);

        if (h.field == 0) {
            sa_check(ap.init_state
                     == detools_apply_patch_init_state_fixed_header_t, HEAD);
        } else {
            sa_check(ap.init_state
                     == detools_apply_patch_init_state_to_size_t, HEAD);
            sa_check(ap.compression == h.compression, HEAD);
            head_number(&ap.size);
        }
    }

    return (res);
}
