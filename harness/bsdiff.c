/* Creating the data of a patch from two images: which parts of them it
 * consists of. */
#include "sa.h"
#include "detools/bsdiff.c"

#define LIMIT (1L << 29)

enum { diff_size_t = 0, diff_t, extra_size_t, extra_t, adjustment_t };

static struct {
    long phase;
    long to;                    /* Position in the new image. */
    long from;                  /* Position in the old image. */
    long size;                  /* Of the data that follows. */
} w;

static int64_t number;
static long number_size;
static int pending;

static long from_size;
static long to_size;
static PyObject object;
static uint8_t *work_p;
#if CONTENT
static long to_at;
static int to_byte;
#endif
#if CONTENT == 1
static long from_at;
static int from_byte;
#endif

static void got_number(int64_t value)
{
    switch (w.phase) {

    case diff_size_t:
        sa_check(value >= 0 && value <= to_size - w.to
                 && value <= from_size - w.from,
                 "diff data is within both images");
        w.size = value;
        w.phase = diff_t;
        break;

    case extra_size_t:
        sa_check(value >= 0 && value <= to_size - w.to,
                 "extra data is within the new image");
        w.size = value;
        w.phase = extra_t;
        break;

    case adjustment_t:
        sa_check(w.from + value >= 0 && w.from + value <= from_size,
                 "the from position is within the old image");
        w.from += value;
        w.phase = diff_size_t;
        break;

    default:
        sa_check(0, "sizes, data and adjustments in turn");
        break;
    }
}

static void got_data(const uint8_t *p, long size)
{
    sa_check(w.phase == diff_t || w.phase == extra_t,
             "sizes, data and adjustments in turn");
    sa_check(size == w.size, "as much data as its size says");
    sa_use(p, (size_t)size);
#if CONTENT
    if (to_at >= w.to && to_at < w.to + w.size) {
#if CONTENT == 2
        if (w.phase == extra_t) {
            sa_check(p[to_at - w.to] == to_byte,
                     "extra data is the new image");
        }
#else
        if (w.phase == diff_t && w.from + (to_at - w.to) == from_at) {
            sa_check(p[to_at - w.to] == ((to_byte - from_byte) & 0xff),
                     "diff data is the difference of the images");
        }
#endif
    }
#endif
    w.to += w.size;

    if (w.phase == diff_t) {
        w.from += w.size;
        w.phase = extra_size_t;
#if CONTENT == 2
        if (to_at >= w.to) {
            sa_watch(work_p + (to_at - w.to), (to_byte + 1) & 0xff);
        }
#endif
    } else {
        w.phase = adjustment_t;
    }
}

/* The Python API. */

PyObject *PyBytes_FromStringAndSize(const char *p, Py_ssize_t size)
{
    if (sa_int()) {
        return (NULL);
    }

    if (number_size > 0) {
        sa_check(size == number_size, "all of a number is written");
        number_size = 0;
        got_number(number);
    } else {
        got_data((const uint8_t *)p, size);
    }

    return (&object);
}

int PyList_Append(PyObject *list_p, PyObject *item_p)
{
    (void)list_p;
    (void)item_p;

    return (sa_int() ? -1 : 0);
}

void sa_contract_Py_DECREF(PyObject *object_p)
{
    (void)object_p;
}

/* Decided elsewhere. */

int sa_contract_pack_size(uint8_t *buf_p, int64_t value, size_t size)
{
    int res;

    sa_check(size >= 10, "space for a number");
    res = (int)sa_range(1, 10);
    sa_fill(buf_p, (size_t)res);
    number = value;
    number_size = res;

    return (res);
}

int32_t sa_contract_search(int32_t *sa_p,
                           uint8_t *from_p,
                           int32_t from_left,
                           uint8_t *to_p,
                           int32_t to_left,
                           int32_t from_begin,
                           int32_t from_end,
                           int32_t *pos_p)
{
    long pos;
    long len;

    (void)sa_p;
    (void)from_p;
    (void)to_p;
    sa_check(from_begin >= 0 && from_begin <= from_end && from_end <= from_size,
             "the search is within the suffix array");
    sa_check(from_left == from_size, "the search is in all of the old image");
    pos = sa_range(0, LIMIT);
    len = sa_range(0, LIMIT);
    sa_assume(pos <= from_size);
    sa_assume(len <= from_size - pos);
    sa_assume(len <= to_left);
    *pos_p = (int32_t)pos;

    return ((int32_t)len);
}

static int ended;

#ifdef LOOP
/* What PART decides, from any positions. */
int sa_contract_write_diff_extra_and_adjustment(PyObject *list_p,
                                                uint8_t *from_p,
                                                Py_ssize_t from_left,
                                                uint8_t *to_p,
                                                Py_ssize_t to_left,
                                                uint8_t *debuf_p,
                                                int32_t scan,
                                                int32_t pos,
                                                int32_t *last_scan_p,
                                                int32_t *last_pos_p,
                                                int32_t *last_offset_p)
{
    long back;

    (void)list_p;
    (void)from_p;
    (void)to_p;
    (void)debuf_p;
    sa_check(from_left == from_size && to_left == to_size,
             "the sizes are those of the images");
    sa_check(*last_scan_p == w.to && *last_pos_p == w.from,
             "the positions are those of the patch");
    sa_check(scan >= w.to && scan <= to_size,
             "the scan is within the new image");
    sa_check(pos >= 0 && pos <= from_size,
             "the match is within the old image");

    if (sa_int()) {
        return (-1);
    }

    back = sa_range(0, LIMIT);
    sa_assume(back <= scan - w.to);
    sa_assume(back <= pos);

    if (scan >= to_size) {
        sa_assume(back == 0);
        ended = 1;
    }

    w.to = scan - back;
    w.from = pos - back;
    *last_scan_p = (int32_t)w.to;
    *last_pos_p = (int32_t)w.from;
    *last_offset_p = (int32_t)(pos - scan);

    return (0);
}
#endif

#ifdef PART
/* One part of the patch, from any positions. */
static int create(uint8_t *from_p, uint8_t *to_p, int32_t *sa_p)
{
    int32_t last_scan;
    int32_t last_pos;
    int32_t last_offset;
    int32_t scan;
    int32_t pos;
    int res;

    (void)sa_p;
    last_offset = 0;
    last_scan = (int32_t)sa_range(0, LIMIT);
    last_pos = (int32_t)sa_range(0, LIMIT);
    scan = (int32_t)sa_range(0, LIMIT);
    pos = (int32_t)sa_range(0, LIMIT);
    sa_assume(last_scan <= scan);
    sa_assume(scan <= to_size);
    sa_assume(pos <= from_size);
    sa_assume(last_pos <= from_size);
    w.to = last_scan;
    w.from = last_pos;
#if CONTENT == 0
    sa_control(&ended);

    if (scan >= to_size) {
        ended = 1;
    }
#endif
#if CONTENT == 1
    sa_assume(to_at >= w.to);
    from_at = w.from + (to_at - w.to);
    sa_assume(from_at < from_size);
    from_byte = (int)sa_range(0, 255);
    sa_watch(from_p + from_at, from_byte);
    sa_watch(work_p + (to_at - w.to), (to_byte - from_byte + 1) & 0xff);
#endif
    res = write_diff_extra_and_adjustment(&object,
                                          from_p,
                                          from_size,
                                          to_p,
                                          to_size,
                                          work_p,
                                          scan,
                                          pos,
                                          &last_scan,
                                          &last_pos,
                                          &last_offset);

    if (res == 0) {
        sa_check(w.phase == diff_size_t,
                 "sizes, data and adjustments in turn");
        sa_check(w.to == last_scan && w.from == last_pos,
                 "the positions are those of the patch");
        sa_check(last_scan <= scan && last_scan >= 0,
                 "the scan is within the new image");
        sa_check(last_offset == pos - scan,
                 "the offset is the one of the match");
#if CONTENT == 0
        sa_check(!ended || last_scan == to_size,
                 "the whole new image is covered");
#endif
        sa_check(pos - last_pos == scan - last_scan,
                 "the match is extended backwards");
    }

    return (res);
}
#endif

#ifdef LOOP
static int create(uint8_t *from_p, uint8_t *to_p, int32_t *sa_p)
{
    int res;

    sa_control(&ended);
    res = create_patch_loop(&object,
                            sa_p,
                            from_p,
                            from_size,
                            to_p,
                            to_size,
                            work_p);

    if (res == 0) {
        sa_check(w.phase == diff_size_t && w.to == to_size,
                 "the whole new image is covered");
    }

    return (res);
}
#endif

#ifdef SEARCH
/* The match found, from any part of the suffix array and for any part of the
 * new image. */
static int create(uint8_t *from_p, uint8_t *to_p, int32_t *sa_p)
{
    long scan;
    long begin;
    long end;
    int32_t pos;
    int32_t len;

    scan = sa_range(0, LIMIT);
    begin = sa_range(0, LIMIT);
    end = sa_range(0, LIMIT);
    sa_assume(scan <= to_size);
    sa_assume(begin <= end);
    sa_assume(end <= from_size);
    pos = 0;
    len = search(sa_p,
                 from_p,
                 (int32_t)from_size,
                 to_p + scan,
                 (int32_t)(to_size - scan),
                 (int32_t)begin,
                 (int32_t)end,
                 &pos);
    sa_check(pos >= 0 && pos <= from_size,
             "the match is within the old image");
    sa_check(len >= 0 && len <= from_size - pos,
             "the match is within the old image");
    sa_check(len <= to_size - scan,
             "the match is within the new image");

    return (len);
}
#endif

int entry(void)
{
    uint8_t *from_p;
    uint8_t *to_p;
    int32_t *sa_p;

    from_size = sa_range(0, LIMIT);
    to_size = sa_range(0, LIMIT);
    from_p = (uint8_t *)sa_input((size_t)from_size);
    to_p = (uint8_t *)sa_input((size_t)to_size);
    work_p = sa_heap((size_t)to_size + 1);
    sa_p = sa_ints((size_t)from_size + 1, from_size);
#ifdef PART
    sa_no_status();
#endif
#if CONTENT == 0
    sa_rich();
#endif
    sa_control(&w.phase);
    w.phase = diff_size_t;
#if CONTENT
    to_at = sa_range(0, LIMIT);
    to_byte = (int)sa_range(0, 255);
    sa_assume(to_at < to_size);
    sa_watch(to_p + to_at, to_byte);
#endif

    return (create(from_p, to_p, sa_p));
}
