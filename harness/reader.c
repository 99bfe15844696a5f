/* A patch reader fulfils its contract from every state of its invariant. */
#include "seq.h"

void sa_inv_havoc(void)
{
}

int entry(void)
{
    const uint8_t *p;
    uint8_t *buf_p;
    size_t size;
    size_t max;
    int res;

    learn();
    size = (size_t)sa_range(0, 1L << 62);
    p = sa_input(size);
    ap.chunk.buf_p = p;
    ap.chunk.size = size;
    ap.chunk.offset = sa_size();
    sa_assume(ap.chunk.offset <= ap.chunk.size);
    havoc_reader(&ap.patch_reader, &tpl.patch_reader, &ap.chunk);

    if (sa_range(0, 1)) {
        max = (size_t)sa_range(1, 128);
        buf_p = sa_uninit(max);
        size = max;
        res = ap.patch_reader.decompress(&ap.patch_reader, buf_p, &size);
        sa_check(ap.chunk.offset <= ap.chunk.size, "inv: chunk offset");

        if (res >= 0) {
            check_reader(&ap.patch_reader, &tpl.patch_reader, &ap.chunk);
        }

        if (res == 0) {
            sa_check(size > 0, "success gives at least one byte");
            sa_check(size <= max, "no more bytes than asked for");
            sa_use(buf_p, size);
        } else if (res == 1) {
            sa_check(ap.chunk.offset == ap.chunk.size,
                     "more input is asked for only when all is consumed");
        } else {
            sa_check(res < 0 && res >= -27, "documented return values");
            sa_check(res != -DETOOLS_ALREADY_DONE,
                     "a patch reader failure is not taken for the end");

            /* Only released after a failure. */
            (void)ap.patch_reader.destroy(&ap.patch_reader);
            sa_released();
        }
    } else {
        res = ap.patch_reader.destroy(&ap.patch_reader);
        sa_check(res <= 0 && res >= -27, "documented return values");
        sa_released();
    }

    return (res);
}
