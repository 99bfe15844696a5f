/* Finalizing a sequential patch in every state after the header. */
#include "seq.h"

void sa_inv_havoc(void)
{
    havoc_machine();
}

int entry(void)
{
    int res;
    int was_done;
    int was_failed;

    learn();
    ap.chunk.size = 0;
    ap.chunk.offset = 0;
    havoc_machine();
    was_done = (ap.state == detools_apply_patch_state_done_t);
    was_failed = (ap.state == detools_apply_patch_state_failed_t);
    sa_control(&was_done);
    sa_control(&was_failed);
    sa_cut(1);
    res = detools_apply_patch_finalize(&ap);
    sa_cut(0);

    if (res >= 0) {
        sa_check((size_t)res == ap.to_size,
                 "success returns the size declared by the patch");
        sa_check(w.written == ap.to_size,
                 "success only when all output is written");
        sa_check(!was_failed, "a failed application reports the failure");
        sa_check(!w.failed, "a callback failure is reported");
        sa_check(!c.failed, "a patch reader failure is reported");
        sa_check(ap.state == detools_apply_patch_state_done_t,
                 "success only when the patch is complete");
    } else {
        sa_check(res >= -27, "documented return values");
    }

    sa_check(!c.live, "finalizing releases the patch reader");

    return (res);
}
