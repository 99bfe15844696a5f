/* Reference model of the data of a patch (after the header): what is read
 * from the patch reader must be this, in this order, and makes this:
 *
 *   data format patch size, { diff size, diff, extra size, extra, adjustment }
 *
 * One byte of the new data, at any position (target), is followed. */
#define CONTENT
#include <limits.h>

enum phase {
    phase_df = 0,
    phase_diff,
    phase_diff_data,
    phase_extra,
    phase_extra_data,
    phase_adjustment,
    phase_end,
    phase_bad
};

static struct {
    int phase;
    int off;                    /* number of bits read of a number */
    int neg;
    int value;
    size_t rest;                /* diff or extra bytes left */
    size_t read;                /* new bytes read */
    size_t limit;               /* new bytes in all */
    long from;                  /* position in the from data */
    int kind;                   /* of the target byte: 0 diff, 1 extra */
    int side;                   /* of the data read the target is on */
    int last;                   /* high bits of the last number byte read */
    int way;                    /* why it is bad, how a segment begins */
} g;

static size_t target;
static int patch_byte;
static int from_byte;

static int within(size_t begin, size_t size)
{
#ifdef NOWATCH
    return (0);
#endif
    if (target < begin) {
        g.side = 0;
    } else if (target - begin < size) {
        g.side = 1;
    } else {
        g.side = 2;
    }

    return (g.side == 1);
}

/* The patch is to be rejected (reasons are kept apart). */
static void bad(int why)
{
    g.phase = phase_bad;
    g.way = 4 + why;
}

static void model_data(int phase, long size)
{
    if (size < 0) {
        bad(1);
    } else if ((size_t)size > g.limit - g.read) {
        bad(2);
    } else if (size > 0) {
        g.phase = phase;
        g.rest = (size_t)size;
    } else {
        g.phase = phase + 1;
        g.rest = 0;
    }
}

static void model_df(long size);
static void model_adjustment(long offset);
static void model_readable(long size);

static void model_number(long value)
{
    switch (g.phase) {

    case phase_df:
        model_df(value);
        break;

    case phase_diff:
        model_data(phase_diff_data, value);
        break;

    case phase_extra:
        model_data(phase_extra_data, value);
        break;

    case phase_adjustment:
        model_adjustment(value);
        break;

    default:
        sa_check(0, "patch data is read as its format says");
        break;
    }
}

static void model_byte(int byte)
{
    if (g.off == 0) {
        g.neg = ((byte & 0x40) != 0);
        g.value = (byte & 0x3f);
        g.off = 6;
    } else {
        g.value |= ((byte & 0x7f) << g.off);
        g.off += 7;
    }

    if ((byte & 0x80) == 0) {
        long value = g.value;

        if (g.neg) {
            value = -value;
        }

        g.off = 0;
        g.neg = 0;
        g.value = 0;
        model_number(value);
    }
}

/* The patch reader gives at most size bytes: returns how many. */
static size_t c_content(uint8_t *buf_p, size_t size)
{
    size_t n;
    int byte;

    switch (g.phase) {

    case phase_df:
    case phase_diff:
    case phase_extra:
    case phase_adjustment:
        /* Keeps bytes with different high bits apart. */
        byte = (int)sa_range(0, 0x3f);
        g.last = 0;
        g.way = 0;

        if (sa_range(0, 1)) {
            byte += 0x40;
            g.last = 1;
        }

        if (sa_range(0, 1)) {
            byte += 0x80;
            g.last += 2;
        }

        *buf_p = (uint8_t)byte;

        if (g.off < 27) {
            model_byte(byte);
        } else {
            bad(3);
        }

        return (1);

    case phase_diff_data:
    case phase_extra_data:
        sa_check(size <= g.rest, "no more data is read than there is");
        n = sa_size();
        sa_assume(n > 0);
        sa_assume(n <= size);
        sa_fill_from(buf_p, n, "patch");
        g.kind = 2;

        if (within(g.read, n)) {
#ifndef NOWATCH
            sa_watch(buf_p + (target - g.read), patch_byte);
#endif
            g.kind = (g.phase == phase_extra_data);
        }

        g.read += n;
        g.rest -= n;

        if (g.phase == phase_diff_data) {
            model_readable((long)n);
            g.from += (long)n;
        }

        if (g.phase == phase_bad) {
            g.rest = 0;
        } else if (g.rest == 0) {
            g.phase++;
        }

        return (n);

    case phase_bad:
        sa_check(0, "bad sizes of data are rejected");
        sa_stop();

        return (0);

    default:
        sa_check(0, "nothing is read after the end of the patch");
        sa_stop();

        return (0);
    }
}

/* From data is read from the position. */
static void model_from(void *buf_p, size_t size, long position)
{
    long at = g.from - (long)g.read + (long)target;

#ifdef NOWATCH
    return;
#endif

    if (at >= position && at - position < (long)size) {
        sa_watch((uint8_t *)buf_p + (at - position), from_byte);
    }
}

/* New data is written to the position. */
static void model_write(const uint8_t *buf_p, size_t size, size_t position)
{
    if (within(position, size)) {
        sa_check(g.kind == 0 || g.kind == 1,
                 "what is written is patch data");

        if (g.kind == 0) {
            sa_check(buf_p[target - position]
                     == (uint8_t)(patch_byte + from_byte),
                     "diff data is added to the from data it belongs to");
        } else {
            sa_check(buf_p[target - position] == patch_byte,
                     "extra data is written as it is");
        }
    }

    g.kind = 2;
    g.side = 0;
}

/* The state of the applier says the phase is this. */
static void check_number(int phase, struct detools_apply_patch_size_t *size_p)
{
    sa_check(g.phase == phase, "numbers are read in the right order");

    if (g.off != 0) {
        sa_check(size_p->state == detools_unpack_usize_state_consecutive_t
                 && size_p->offset == g.off && size_p->value == (int)g.value
                 && size_p->is_signed == (g.neg != 0),
                 "numbers are made of the bits read");
    } else {
        sa_check(size_p->state == detools_unpack_usize_state_first_t,
                 "numbers are made of the bits read");
    }
}

static void check_data(int phase, size_t left)
{
    if (left > 0) {
        sa_check(g.phase == phase, "patch data is used as its format says");
        sa_check(g.rest == left, "diff and extra data have the size read");
    } else {
        sa_check(g.phase == phase + 1,
                 "patch data is used as its format says");
    }
}

static void check_model(int state, struct detools_apply_patch_size_t *size_p,
                        size_t left)
{
    sa_check(g.kind == 2, "patch data is written once it is read");
    sa_check(g.phase != phase_bad, "bad sizes of data are rejected");

    switch (state) {

    case detools_apply_patch_state_dfpatch_size_t:
        check_number(phase_df, size_p);
        break;

    case detools_apply_patch_state_diff_size_t:
        check_number(phase_diff, size_p);
        break;

    case detools_apply_patch_state_extra_size_t:
        check_number(phase_extra, size_p);
        break;

    case detools_apply_patch_state_adjustment_t:
        check_number(phase_adjustment, size_p);
        break;

    case detools_apply_patch_state_diff_data_t:
        check_data(phase_diff_data, left);
        sa_check(size_p->state == detools_unpack_usize_state_first_t,
                 "numbers are made of the bits read");
        break;

    case detools_apply_patch_state_extra_data_t:
        check_data(phase_extra_data, left);
        sa_check(size_p->state == detools_unpack_usize_state_first_t,
                 "numbers are made of the bits read");
        break;

    case detools_apply_patch_state_done_t:
        sa_check(g.phase == phase_end, "done only at the end of the patch");
        break;

    default:
        break;
    }
}

static void havoc_number(int phase, struct detools_apply_patch_size_t *size_p)
{
    g.phase = phase;

    if (size_p->state == detools_unpack_usize_state_first_t) {
        g.off = 0;
        g.neg = 0;
        g.value = 0;
    } else {
        g.off = size_p->offset;
        g.neg = size_p->is_signed;
        g.value = size_p->value;
    }
}

static void havoc_data(int phase, struct detools_apply_patch_size_t *size_p,
                       size_t left)
{
    size_p->state = detools_unpack_usize_state_first_t;

    if (left > 0) {
        g.phase = phase;
        g.rest = left;
    } else {
        g.phase = phase + 1;
    }
}

static void havoc_model(int state, struct detools_apply_patch_size_t *size_p,
                        size_t left)
{
    g.off = 0;
    g.neg = 0;
    g.value = 0;
    g.rest = 0;
    g.kind = 2;
    g.side = 0;
    g.last = sa_int();
    g.way = sa_int();

    switch (state) {

    case detools_apply_patch_state_dfpatch_size_t:
        havoc_number(phase_df, size_p);
        break;

    case detools_apply_patch_state_diff_size_t:
        havoc_number(phase_diff, size_p);
        break;

    case detools_apply_patch_state_extra_size_t:
        havoc_number(phase_extra, size_p);
        break;

    case detools_apply_patch_state_adjustment_t:
        havoc_number(phase_adjustment, size_p);
        break;

    case detools_apply_patch_state_diff_data_t:
        havoc_data(phase_diff_data, size_p, left);
        break;

    case detools_apply_patch_state_extra_data_t:
        havoc_data(phase_extra_data, size_p, left);
        break;

    default:
        g.phase = phase_end;
        break;
    }
}

static void model_init(void)
{
    sa_control(&g.phase);
    sa_control(&g.off);
    sa_control(&g.neg);
    sa_control(&g.kind);
    sa_control(&g.side);
    sa_control(&g.last);
    sa_control(&g.way);
    target = (size_t)sa_range(0, SIZE_LIMIT);
    patch_byte = (int)sa_range(0, 255);
    from_byte = (int)sa_range(0, 255);
}
