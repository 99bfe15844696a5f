/* Reading the header of an in-place patch, and making room for the new data
 * by moving the from data. */
#include "ip.h"

void sa_inv_havoc(void)
{
    havoc_init();
}

int entry(void)
{
    const uint8_t *p;
    size_t size;
    int res;

    learn();
    choose_mode();
    w.shifting = 1;
    size = (size_t)sa_range(0, 1L << 62);
    p = sa_input(size);

    if (detools_apply_patch_in_place_init(&ap, w_mem_read, w_mem_write,
                                          w_mem_erase,
                                          w.steps ? w_step_set : NULL,
                                          w.steps ? w_step_get : NULL,
                                          sa_size(), &w) != 0) {
        sa_check(0, "initialisation succeeds");
    }

    ap.chunk.size = 0;
    ap.chunk.offset = 0;
    sa_inv_check();
    sa_check(ap.state == detools_apply_patch_state_init_t
             && ap.init_state
             == detools_apply_patch_in_place_init_state_fixed_header_t,
             "processing starts with the header");
    havoc_init();

    switch (ap.init_state) {

    case detools_apply_patch_in_place_init_state_fixed_header_t:
    case detools_apply_patch_in_place_init_state_memory_size_t:
    case detools_apply_patch_in_place_init_state_segment_size_t:
        ap.segment_size = (size_t)sa_range(0, SIZE_LIMIT - 1);
        break;

    default:
        break;
    }

    sa_header = 1;
    sa_cut(1);
    res = detools_apply_patch_in_place_process(&ap, p, size);
    sa_cut(0);
    sa_check(res <= 0 && res >= -27, "documented return values");
    sa_check((res < 0)
             == (ap.state == detools_apply_patch_state_failed_t),
             "an error makes the application fail for good");
    sa_check(!w.failed || res < 0, "a callback failure is reported");

    return (res);
}
