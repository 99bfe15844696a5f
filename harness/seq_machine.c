/* Processing patch data of a sequential patch after the header: from every
 * state of the invariant, any data, any (contract abiding) patch reader. */
#include "seq.h"

void sa_inv_havoc(void)
{
    havoc_machine();
}

int entry(void)
{
    const uint8_t *p;
    size_t size;
    int res;
    int was_failed;

    learn();
    size = (size_t)sa_range(0, 1L << 62);
    p = sa_input(size);
    ap.chunk.size = 0;
    ap.chunk.offset = 0;
    havoc_machine();
    was_failed = (ap.state == detools_apply_patch_state_failed_t);
    sa_control(&was_failed);
    sa_cut(1);
    res = detools_apply_patch_process(&ap, p, size);
    sa_cut(0);
    sa_check(res <= 0 && res >= -27, "documented return values");

    if (res < 0) {
        sa_check(ap.state == detools_apply_patch_state_failed_t,
                 "an error makes the application fail for good");
    } else {
        sa_check(size == 0
                 || ap.state != detools_apply_patch_state_failed_t,
                 "a failed application reports the failure");
        sa_check(ap.chunk.offset == ap.chunk.size
                 || ap.state == detools_apply_patch_state_done_t,
                 "everything is consumed");
        sa_check(!w.failed || was_failed, "a callback failure is reported");
    }

    return (res);
}
