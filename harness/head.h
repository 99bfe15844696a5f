/* Reference model of the header of a patch: the byte with its type and
 * compression, and then FIELDS numbers. */
#include <limits.h>

struct head {
    int field;                  /* read next: 0 the first byte, numbers */
    int off;                    /* number of bits read of it */
    int value;
    int minus;                  /* a number is negative: what then happens
                                   is up to the applier */
    int maybe;                  /* it may be rejected already */
    int bad;                    /* to be rejected */
    int compression;
    long sizes[6];
    int last;                   /* keeps bytes apart */
};

static struct head h;

static void head_end(void);
static void head_next(void);

static void head_byte(int byte)
{
    if (h.field == 0) {
        if (((byte >> 4) & 7) != TYPE) {
            h.bad = 1;
        }

        h.compression = (byte & 15);
        h.field = 1;

        return;
    }

    if (h.off == 0) {
        h.value = (byte & 0x3f);
        h.off = 6;

        if (byte & 0x40) {
            h.minus = 1;
        }
    } else if (h.off < 27) {
        h.value |= ((byte & 0x7f) << h.off);
        h.off += 7;
    } else {
        h.bad = 1;

        return;
    }

    if ((byte & 0x80) == 0) {
        h.sizes[h.field] = h.value;
        h.field++;
        h.off = 0;

        if (h.field > FIELDS) {
            if (h.compression != K) {
                h.bad = 1;
            }

            head_end();
        } else {
            head_next();
        }
    }
}

/* One of all bytes; the bits with a meaning of their own are kept apart. */
static int head_any(void)
{
    int byte;

    if (h.field == 0) {
        h.last = 0;
        byte = (int)sa_range(0, 15) + 16 * (int)sa_range(0, 15);
    } else {
        byte = (int)sa_range(0, 0x3f);
        h.last = 0;

        if (sa_range(0, 1)) {
            byte += 0x40;
            h.last = 1;
        }

        if (sa_range(0, 1)) {
            byte += 0x80;
            h.last += 2;
        }
    }

    return (byte);
}

#define HEAD "the header is read as its format says"

static void head_number(struct detools_apply_patch_size_t *size_p)
{
    if (h.off == 0) {
        sa_check(size_p->state == detools_unpack_usize_state_first_t, HEAD);
    } else {
        sa_check(size_p->state == detools_unpack_usize_state_consecutive_t
                 && size_p->offset == h.off && size_p->value == h.value,
                 HEAD);
    }
}

static void head_control(void)
{
    static uint8_t kept;

    sa_control(&h.field);
    sa_control(&h.off);
    sa_control(&h.minus);
    sa_control(&h.maybe);
    sa_control(&h.bad);
    sa_control(&h.compression);
    sa_control(&h.last);
    sa_watch(&kept, 0);
}

static void head_start(struct detools_apply_patch_size_t *size_p)
{
    h.minus = 0;
    h.maybe = 0;
    h.bad = 0;

    if (size_p->state == detools_unpack_usize_state_first_t) {
        h.off = 0;
        h.value = 0;
    } else {
        h.off = size_p->offset;
        h.value = size_p->value;
    }
}
