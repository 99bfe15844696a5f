/* What an in-place patch makes the applier do: the reference model (model.h)
 * says which bytes are read from where and written. */
#define WITH_MODEL
#include "ip.h"

/* A segment begins. */
static void model_df(long size)
{
    if (size > 0) {
        bad(4);
    } else {
        g.phase = phase_diff;
        g.limit = ap.segment_size;
        g.way = 1;

        if (ap.to_size - g.read < g.limit) {
            g.limit = ap.to_size - g.read;
            g.way = 2;
        }

        g.limit += g.read;
        g.from = (long)(g.read + ap.segment_size);

        if (g.from < (long)ap.shift_size) {
            g.from = (long)ap.shift_size;
            g.way += 2;
        }
    }
}

static void model_adjustment(long offset)
{
    if (g.read == ap.to_size) {
        g.phase = phase_end;
    } else if (g.read == g.limit) {
        g.phase = phase_df;
    } else {
        g.from += offset;

        if (g.from < INT_MIN) {
            bad(5);
        } else if (g.from > INT_MAX) {
            bad(6);
        } else {
            g.phase = phase_diff;
        }
    }
}

/* From data not yet overwritten, and not beyond the memory. */
static void model_readable(long size)
{
    if (g.from < (long)g.limit) {
        bad(7);
    } else if (g.from > (long)ap.memory_size) {
        bad(8);
    } else if (g.from + size > (long)ap.memory_size) {
        bad(9);
    }
}

static void havoc_content(void)
{
    havoc_machine();

    if (ap.state != detools_apply_patch_state_failed_t) {
        havoc_model((int)ap.state, &ap.patch_reader.size, ap.chunk_size);
        g.read = ap.to_pos;

        if (g.phase != phase_df && g.phase != phase_end) {
            g.limit = ap.segment.to_offset + ap.segment.to_size;
            g.from = ap.segment.from_offset;
        } else {
            g.limit = sa_size();
            g.from = sa_int();
        }
    } else {
        g.phase = phase_bad;
        g.kind = 2;
        g.side = 0;
        g.off = 0;
        g.neg = 0;
    }
}

void sa_inv_havoc(void)
{
    havoc_content();
}

int entry(void)
{
    const uint8_t *p;
    size_t size;

    learn();
    model_init();
    sa_control(&ap.patch_reader.size.is_signed);
    choose_mode();
    size = (size_t)sa_range(0, 1L << 62);
    p = sa_input(size);
    ap.chunk.size = 0;
    ap.chunk.offset = 0;
    havoc_content();
    sa_cut(1);
#ifdef FINALIZE
    (void)detools_apply_patch_in_place_finalize(&ap);
#else
    (void)detools_apply_patch_in_place_process(&ap, p, size);
#endif
    sa_cut(0);

    return (0);
}
