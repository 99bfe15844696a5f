/* Reading the header of a sequential patch. */
#include "seq.h"

void sa_inv_havoc(void)
{
    havoc_init();
}

int entry(void)
{
    const uint8_t *p;
    size_t size;
    int res;

    learn();
    size = (size_t)sa_range(0, 1L << 62);
    p = sa_input(size);

    if (detools_apply_patch_init(&ap, w_from_read, w_from_seek, sa_size(),
                                 w_to_write, &w) != 0) {
        sa_check(0, "initialisation succeeds");
    }

    ap.chunk.size = 0;
    ap.chunk.offset = 0;
    sa_inv_check();
    sa_check(ap.state == detools_apply_patch_state_init_t
             && ap.init_state == detools_apply_patch_init_state_fixed_header_t,
             "processing starts with the header");
    havoc_init();
    sa_header = 1;
    sa_cut(1);
    res = detools_apply_patch_process(&ap, p, size);
    sa_cut(0);
    sa_check(res <= 0 && res >= -27, "documented return values");
    sa_check((res < 0)
             == (ap.state == detools_apply_patch_state_failed_t),
             "an error makes the application fail for good");
    sa_check(!w.failed && w.written == 0 && w.from_pos == 0,
             "no callback is called before the header is read");

    return (res);
}
