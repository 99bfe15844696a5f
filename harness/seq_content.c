/* What a sequential patch makes the applier do: the reference model
 * (model.h) says which bytes are read from where and written. */
#define WITH_MODEL
#include "seq.h"

static void model_df(long size)
{
    if (size > 0) {
        bad(4);
    } else {
        g.phase = phase_diff;
    }
}

static void model_adjustment(long offset)
{
    g.from += offset;

    if (g.from < INT_MIN) {
        bad(5);
    } else if (g.from > INT_MAX) {
        bad(6);
    } else if (g.read == g.limit) {
        g.phase = phase_end;
    } else {
        g.phase = phase_diff;
    }
}

static void model_readable(long size)
{
    if (g.from + size > INT_MAX) {
        bad(7);
    }
}

static void havoc_content(void)
{
    havoc_machine();

    if (ap.state != detools_apply_patch_state_failed_t) {
        havoc_model((int)ap.state, &ap.patch_reader.size, ap.chunk_size);
        g.read = w.written;
        g.limit = ap.to_size;
        g.from = w.from_pos;
    } else {
        g.phase = phase_bad;
        g.kind = 2;
        g.side = 0;
        g.off = 0;
        g.neg = 0;
    }
}

void sa_inv_havoc(void)
{
    havoc_content();
}

int entry(void)
{
    const uint8_t *p;
    size_t size;

    learn();
    model_init();
    sa_control(&ap.patch_reader.size.is_signed);
    size = (size_t)sa_range(0, 1L << 62);
    p = sa_input(size);
    ap.chunk.size = 0;
    ap.chunk.offset = 0;
    havoc_content();
    sa_cut(1);
#ifdef FINALIZE
    (void)detools_apply_patch_finalize(&ap);
#else
    (void)detools_apply_patch_process(&ap, p, size);
#endif
    sa_cut(0);

    return (0);
}
