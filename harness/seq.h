/* Sequential patches: world model, invariant of the applier. */
#include "sa.h"
#include "detools.h"
#include "reader.h"

/* K is the compression number, or -1 for any patch reader that fulfils the
 * contract. */

struct world {
    size_t written;             /* bytes given to to_write */
    long from_pos;              /* current position in the from data */
    int failed;                 /* a callback has failed */
    size_t delivered;           /* from bytes delivered but not yet used */
};

static struct world w;
static struct detools_apply_patch_t ap;
static struct detools_apply_patch_t tpl;
static int sa_header;           /* stop after the header */

static int w_from_read(void *arg_p, uint8_t *buf_p, size_t size)
{
    int res = sa_int();

    sa_check(arg_p == (void *)&w, "callbacks get the argument given to init");
    sa_check(!w.failed, "no callback is called after a callback has failed");
    sa_check(size > 0, "reads at least one byte");
    sa_fill_from(buf_p, size, "from");
#ifdef CONTENT
    model_from(buf_p, size, w.from_pos);
#endif

    if (res != 0) {
        w.failed = 1;
    } else {
        w.from_pos += (long)size;
    }

    return (res);
}

static int w_from_seek(void *arg_p, int offset)
{
    int res = sa_int();

    sa_check(arg_p == (void *)&w, "callbacks get the argument given to init");
    sa_check(!w.failed, "no callback is called after a callback has failed");

    if (res != 0) {
        w.failed = 1;
    } else {
        w.from_pos += offset;
    }

    return (res);
}

static int w_to_write(void *arg_p, const uint8_t *buf_p, size_t size)
{
    int res = sa_int();

    sa_check(arg_p == (void *)&w, "callbacks get the argument given to init");
    sa_check(!w.failed, "no callback is called after a callback has failed");
    sa_use(buf_p, size);
#ifdef CONTENT
    model_write(buf_p, size, w.written);
#endif
    w.written += size;
    sa_check(ap.state == detools_apply_patch_state_failed_t
             || w.written <= ap.to_size,
             "output stays within the size declared by the patch");

    if (res != 0) {
        w.failed = 1;
    }

    return (res);
}

/* Applier ---------------------------------------------------------- */

static void check_data_state(void)
{
    switch (ap.state) {

    case detools_apply_patch_state_dfpatch_size_t:
    case detools_apply_patch_state_diff_size_t:
    case detools_apply_patch_state_extra_size_t:
    case detools_apply_patch_state_adjustment_t:
        break;

    case detools_apply_patch_state_diff_data_t:
    case detools_apply_patch_state_extra_data_t:
        sa_check(ap.chunk_size <= ap.to_size - ap.to_offset,
                 "data sizes stay within the size declared by the patch");
        break;

    case detools_apply_patch_state_done_t:
        sa_check(ap.to_offset == ap.to_size,
                 "done only when everything is written");
        break;

    default:
        sa_check(0, "inv: state");
        break;
    }
}

void sa_inv_check(void)
{
    sa_check(ap.chunk.offset <= ap.chunk.size, "inv: chunk offset");
    sa_check(ap.arg_p == (void *)&w, "inv: argument");
    sa_check(ap.from_read == w_from_read, "inv: from_read");
    sa_check(ap.from_seek == w_from_seek, "inv: from_seek");
    sa_check(ap.to_write == w_to_write, "inv: to_write");
    sa_check(ap.patch_offset >= ap.chunk.size, "inv: patch offset");

    if (ap.state == detools_apply_patch_state_failed_t) {
#ifdef CONTENT
        sa_check(w.failed || c.failed || g.phase == phase_bad,
                 "a patch is rejected only if it is bad");
#endif

        if (ap.patch_reader.destroy != NULL) {
            check_reader(&ap.patch_reader, &tpl.patch_reader, &ap.chunk);
        }

        return;
    }

    sa_check(!w.failed, "a failed callback fails the patch application");
    sa_check(ap.to_offset == w.written,
             "the to offset is the number of bytes written");
    sa_check((long)ap.from_offset == w.from_pos,
             "the from offset is the position in the from data");

    if (ap.state == detools_apply_patch_state_init_t) {
        sa_check(ap.patch_reader.destroy == NULL, "inv: no patch reader");
        sa_check(w.written == 0, "nothing is written before the header");

        if (ap.init_state
            != detools_apply_patch_init_state_fixed_header_t) {
            sa_check(ap.init_state
                     == detools_apply_patch_init_state_to_size_t,
                     "inv: init state");
            check_bits(ap.size.state, ap.size.offset, ap.size.value, 6);
            sa_check(ap.compression >= 0 && ap.compression <= 15,
                     "inv: compression");
        }

        return;
    }

    check_reader(&ap.patch_reader, &tpl.patch_reader, &ap.chunk);
#if K >= 0
    sa_check(ap.compression == K, "inv: compression");
#else
    sa_check(!c.failed, "a failed patch reader fails the patch application");
#endif
    sa_check(ap.to_size < SIZE_LIMIT, "inv: to size");
    sa_check(ap.to_offset <= ap.to_size,
             "output stays within the size declared by the patch");

    check_data_state();
#ifdef CONTENT
    sa_check(g.read == w.written, "everything read is written");
    sa_check(g.from == w.from_pos,
             "the from data is moved to where the patch says");
    sa_check(g.limit == ap.to_size, "inv: to size");
    check_model((int)ap.state, &ap.patch_reader.size, ap.chunk_size);
#endif

    if (sa_header) {
        sa_check(ap.state == detools_apply_patch_state_dfpatch_size_t
                 || ap.state == detools_apply_patch_state_done_t,
                 "the patch data is read after the header");
        sa_stop();
    }
}
static void havoc_common(void)
{
    ap.from_read = w_from_read;
    ap.from_seek = w_from_seek;
    ap.to_write = w_to_write;
    ap.arg_p = &w;
    ap.patch_size = sa_size();
    ap.patch_offset = (size_t)sa_range(0, 1L << 62);
    ap.chunk.offset = sa_size();
    sa_assume(ap.chunk.offset <= ap.chunk.size);
    sa_assume(ap.chunk.size <= ap.patch_offset);
    w.failed = 0;
}

static void havoc_progress(void)
{
    int from_offset = sa_int();
    size_t to_offset = (size_t)sa_range(0, SIZE_LIMIT - 1);

    ap.to_size = (size_t)sa_range(0, SIZE_LIMIT - 1);
    sa_assume(to_offset <= ap.to_size);
    ap.to_offset = to_offset;
    w.written = to_offset;
    ap.from_offset = from_offset;
    w.from_pos = from_offset;
#if K >= 0
    ap.compression = K;
#else
    ap.compression = sa_int();
#endif
    ap.chunk_size = sa_size();
    havoc_reader(&ap.patch_reader, &tpl.patch_reader, &ap.chunk);
}

/* Any state before the patch data (the header is not yet read). */
static void havoc_init(void)
{
    havoc_common();
    ap.state = detools_apply_patch_state_init_t;
    ap.patch_reader.destroy = NULL;
    ap.to_offset = 0;
    w.written = 0;
    ap.from_offset = 0;
    w.from_pos = 0;

    if (sa_range(0, 1)) {
        ap.init_state = detools_apply_patch_init_state_fixed_header_t;
    } else {
        ap.init_state = detools_apply_patch_init_state_to_size_t;
        ap.compression = (int)sa_range(0, 15);
        havoc_size(&ap.size);
    }
}

/* Any state after the header. */
#ifdef WITH_MODEL
#define WHOLE(on) sa_whole = on
#else
#define WHOLE(on)
#endif

static void havoc_machine(void)
{
    havoc_common();

    switch (sa_range(0, 8)) {

    case 0:
        havoc_progress();
        ap.state = detools_apply_patch_state_dfpatch_size_t;
        break;

    case 1:
        havoc_progress();
        ap.state = detools_apply_patch_state_diff_size_t;
        break;

    case 2:
        WHOLE(1);
        havoc_progress();
        WHOLE(0);
        ap.state = detools_apply_patch_state_diff_data_t;
        sa_assume(ap.chunk_size <= ap.to_size - ap.to_offset);
        break;

    case 3:
        havoc_progress();
        ap.state = detools_apply_patch_state_extra_size_t;
        break;

    case 4:
        WHOLE(1);
        havoc_progress();
        WHOLE(0);
        ap.state = detools_apply_patch_state_extra_data_t;
        sa_assume(ap.chunk_size <= ap.to_size - ap.to_offset);
        break;

    case 5:
        havoc_progress();
        ap.state = detools_apply_patch_state_adjustment_t;
        break;

    case 6:
        WHOLE(1);
        havoc_progress();
        WHOLE(0);
        ap.state = detools_apply_patch_state_done_t;
        ap.to_offset = ap.to_size;
        w.written = ap.to_size;
        break;

    case 7:
        WHOLE(1);
        havoc_progress();
        WHOLE(0);
#if K < 0
        havoc_failed();
#endif
        w.failed = (int)sa_range(0, 1);
        w.written = sa_size();
        ap.state = detools_apply_patch_state_failed_t;
        break;

    default:
        ap.state = detools_apply_patch_state_failed_t;
        ap.patch_reader.destroy = NULL;
#if K < 0
        c.failed = 0;
        c.live = 0;
#endif
        w.failed = (int)sa_range(0, 1);
        w.written = sa_size();
        break;
    }
}

static void control(void)
{
    sa_control(&w.failed);
    sa_control(&ap.state);
    sa_control(&ap.init_state);
    control_size(&ap.size);
    control_size(&ap.patch_reader.size);
#if K >= 0
    control_compression(&ap.patch_reader);
#else
    sa_control(&ap.patch_reader.destroy);
    sa_control(&c.live);
    sa_control(&c.failed);
#endif
}

/* The patch reader functions of the compression. */
static void learn(void)
{
    static const uint8_t header[2] = { (uint8_t)K, 1 };

    control();

#if K >= 0
    if (detools_apply_patch_init(&tpl, w_from_read, w_from_seek, 2,
                                 w_to_write, &w) != 0) {
        sa_stop();
    }

    if (detools_apply_patch_process(&tpl, header, 2) != 0) {
        sa_stop();
    }

    sa_assume(tpl.patch_reader.destroy != NULL);
#endif
}
