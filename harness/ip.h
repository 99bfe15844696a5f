/* In-place patches: world model (memory and steps), invariant of the
 * applier. */
#include "sa.h"
#include "detools.h"
#include "reader.h"

struct world {
    int failed;                 /* a callback has failed */
    int steps;                  /* the step callbacks are given */
    int fresh;                  /* no step was completed before */
    long completed;             /* last completed step */
    size_t written;             /* bytes of new data written (if fresh) */
    int erased;                 /* the ongoing step has erased */
    size_t erased_begin;
    size_t erased_size;
    size_t step_written;        /* written since then */
    int shifting;
    size_t src;                 /* last bytes read when shifting */
    size_t src_size;
    int finished;               /* the final step_set is done */
    int full;                   /* the segment is not the last, short one */
};

static struct world w;
static struct detools_apply_patch_in_place_t ap;
static struct detools_apply_patch_in_place_t tpl;
static int sa_header;

#define STEP_LIMIT (1L << 30)

/* Keep the last segment apart. */
static void note_segment(void)
{
    if (!w.shifting && ap.segment.to_size == ap.segment_size) {
        w.full = 1;
    } else {
        w.full = 0;
    }
}

static void w_called(void *arg_p)
{
#ifdef HEAD_MODEL
    head_done();
#endif
    note_segment();
    sa_check(arg_p == (void *)&w, "callbacks get the argument given to init");
    sa_check(!w.failed, "no callback is called after a callback has failed");
    sa_check(!w.finished, "nothing is done after the last step");
}

/* The memory is accessed only by the first step not completed. */
static void w_accessed(void)
{
    if (w.steps) {
        sa_check(ap.ongoing_step == w.completed + 1,
                 "memory is accessed only in the first step not completed");
    }
}

static int w_result(void)
{
    int res = sa_int();

    if (res != 0) {
        w.failed = 1;
    }

    return (res);
}

static int w_mem_read(void *arg_p, void *dst_p, uintptr_t src, size_t size)
{
    w_called(arg_p);
    w_accessed();
    sa_check(size > 0, "reads at least one byte");
    sa_check(src + size <= ap.memory_size && src + size >= src,
             "reads are within the memory");
    sa_check(w.erased, "a step starts with erasing what it writes");
    sa_check(src + size <= w.erased_begin
             || src >= w.erased_begin + w.erased_size,
             "a step reads nothing it has erased");
    sa_fill_from(dst_p, size, "from");

#ifdef CONTENT
    model_from(dst_p, size, (long)src);
#endif

    if (w.shifting) {
        w.src = src;
        w.src_size = size;
    } else {
        sa_check(src >= ap.shift_size || src >= w.erased_begin + w.erased_size,
                 "from data is read before it is overwritten");
    }

    return (w_result());
}

static int w_mem_write(void *arg_p, uintptr_t dst, void *src_p, size_t size)
{
    w_called(arg_p);
    w_accessed();
    sa_use(src_p, size);
#ifdef CONTENT
    model_write(src_p, size, dst);
#endif
    sa_check(dst + size <= ap.memory_size && dst + size >= dst,
             "writes are within the memory");
    sa_check(w.erased, "a step starts with erasing what it writes");
    sa_check(dst >= w.erased_begin
             && dst + size <= w.erased_begin + w.erased_size,
             "only erased memory is written");
    sa_check(w.step_written + size <= w.erased_size,
             "erased memory is written once");

    if (!w.shifting) {
        sa_check(dst == w.erased_begin + w.step_written,
                 "a step writes what it has erased in order");
    }

    w.step_written += size;

    if (w.shifting) {
        sa_check(dst == w.src + ap.shift_size && size == w.src_size,
                 "the from data is moved by the shift size");
        w.src = 0;
        w.src_size = 0;
    } else {
        sa_check(dst + size <= ap.to_size,
                 "output stays within the size declared by the patch");

        if (w.fresh) {
            sa_check(dst == w.written, "the output is written in order");
            w.written += size;
        }
    }

    return (w_result());
}

static int w_mem_erase(void *arg_p, uintptr_t addr, size_t size)
{
    w_called(arg_p);
    w_accessed();
    sa_check(size > 0, "erases at least one byte");
    sa_check(addr + size <= ap.memory_size && addr + size >= addr,
             "erases are within the memory");
    sa_check(!w.erased || !w.steps, "a step erases once");

    w.erased = 1;
    w.erased_begin = addr;
    w.erased_size = size;
    w.step_written = 0;

    return (w_result());
}

static int w_step_set(void *arg_p, int step)
{
    w_called(arg_p);
    sa_check(w.steps, "inv: step callbacks");

    if (step == 0) {
        sa_check(ap.to_pos == ap.to_size,
                 "the last step is completed when everything is written");
        w.finished = 1;
    } else {
        sa_check(step == w.completed + 1, "steps are completed in order");
        sa_check(w.erased && w.step_written == w.erased_size,
                 "a step is completed after its work is done");
        w.completed = step;
        w.erased = 0;
        w.erased_begin = 0;
        w.erased_size = 0;
        w.step_written = 0;
    }

    return (w_result());
}

static int w_step_get(void *arg_p, int *step_p)
{
    w_called(arg_p);
    *step_p = (int)w.completed;

    return (w_result());
}

/* Applier ---------------------------------------------------------- */

static void check_segment(void)
{
    sa_check(ap.segment.index > 0, "inv: segment index");
    sa_check(ap.segment.to_offset + ap.segment.to_pos == ap.to_pos,
             "inv: position in the segment");
    sa_check(ap.segment.to_pos <= ap.segment.to_size, "inv: segment size");
    sa_check(ap.segment.to_offset + ap.segment.to_size <= ap.to_size,
             "the segment is within the size declared by the patch");
    sa_check(ap.segment.to_size <= ap.segment_size, "inv: segment size");
    sa_check(ap.segment.to_size > 0, "inv: segment size");
    sa_check(ap.segment.to_offset + ap.segment_size
             == ap.segment.index * ap.segment_size,
             "inv: segments written");
    sa_check(ap.segment.to_size == ap.segment_size
             || ap.segment.to_offset + ap.segment.to_size == ap.to_size,
             "inv: segment size");
    note_segment();
    sa_check(ap.ongoing_step < STEP_LIMIT + (long)ap.segment.index,
             "inv: number of steps");

    if (!w.steps || ap.ongoing_step > w.completed) {
        sa_check(w.erased && w.erased_begin == ap.segment.to_offset
                 && w.erased_size == ap.segment.to_size,
                 "the segment is erased before it is written");
        sa_check(w.step_written == ap.segment.to_pos,
                 "everything of the segment is written");
    }
}

static void check_data_state(void)
{
    switch (ap.state) {

    case detools_apply_patch_state_dfpatch_size_t:
        sa_check(ap.to_pos < ap.to_size, "inv: more segments");
        sa_check(ap.to_pos == ap.segment.index * ap.segment_size,
                 "inv: segments written");
        sa_check(!w.erased || !w.steps, "inv: step completed");
        sa_check(ap.ongoing_step <= STEP_LIMIT + (long)ap.segment.index,
                 "inv: number of steps");
        break;

    case detools_apply_patch_state_diff_size_t:
    case detools_apply_patch_state_extra_size_t:
    case detools_apply_patch_state_adjustment_t:
        check_segment();
        break;

    case detools_apply_patch_state_diff_data_t:
    case detools_apply_patch_state_extra_data_t:
        check_segment();
        sa_check(ap.chunk_size <= ap.segment.to_size - ap.segment.to_pos,
                 "data sizes stay within the segment");
        break;

    case detools_apply_patch_state_done_t:
        sa_check(ap.to_pos == ap.to_size || sa_header,
                 "done only when everything is written");
        break;

    default:
        sa_check(0, "inv: state");
        break;
    }
}

static void check_layout(void)
{
#ifdef SEGMENT
    sa_check(ap.segment_size == SEGMENT, "inv: segment size");
#endif
    sa_check(ap.segment_size > 0 && ap.segment_size < SIZE_LIMIT,
             "inv: segment size");
    sa_check(ap.memory_size < SIZE_LIMIT, "inv: memory size");
    sa_check(ap.shift_size <= ap.memory_size, "inv: shift size");
    sa_check(ap.to_size <= ap.memory_size, "the output fits in the memory");
}

void sa_inv_check(void)
{
    w.full = 0;
    sa_check(ap.chunk.offset <= ap.chunk.size, "inv: chunk offset");
    sa_check(ap.arg_p == (void *)&w, "inv: argument");
    sa_check(ap.mem_read == w_mem_read, "inv: mem_read");
    sa_check(ap.mem_write == w_mem_write, "inv: mem_write");
    sa_check(ap.mem_erase == w_mem_erase, "inv: mem_erase");
    sa_check(ap.step_set == (w.steps ? w_step_set : NULL), "inv: step_set");
    sa_check(ap.step_get == (w.steps ? w_step_get : NULL), "inv: step_get");
    sa_check(ap.patch_offset >= ap.chunk.size, "inv: patch offset");

    if (ap.state == detools_apply_patch_state_failed_t) {
#ifdef CONTENT
        sa_check(w.failed || c.failed || g.phase == phase_bad,
                 "a patch is rejected only if it is bad");
#endif

        if (ap.patch_reader.destroy != NULL) {
            check_reader(&ap.patch_reader, &tpl.patch_reader, &ap.chunk);
        }

        return;
    }

    sa_check(!w.failed, "a failed callback fails the patch application");

    if (ap.state == detools_apply_patch_state_init_t) {
        sa_check(ap.patch_reader.destroy == NULL, "inv: no patch reader");
        sa_check(ap.ongoing_step == 1, "inv: the first step");
        sa_check(!w.erased && !w.finished && w.written == 0,
                 "memory is not touched before the header is read");

        switch (ap.init_state) {

        case detools_apply_patch_in_place_init_state_fixed_header_t:
            return;

        case detools_apply_patch_in_place_init_state_to_size_t:
            sa_check(ap.from_size < SIZE_LIMIT, "inv: from size");
            /* Fall through. */

        case detools_apply_patch_in_place_init_state_from_size_t:
            sa_check(ap.shift_size < SIZE_LIMIT, "inv: shift size");
            /* Fall through. */

        case detools_apply_patch_in_place_init_state_shift_size_t:
            sa_check(ap.segment_size < SIZE_LIMIT, "inv: segment size");
#ifdef SEGMENT
            sa_assume(ap.segment_size == SEGMENT);
#endif
            /* Fall through. */

        case detools_apply_patch_in_place_init_state_segment_size_t:
            sa_check(ap.memory_size < SIZE_LIMIT, "inv: memory size");
            /* Fall through. */

        case detools_apply_patch_in_place_init_state_memory_size_t:
            check_bits(ap.size.state, ap.size.offset, ap.size.value, 6);
            sa_check(ap.compression >= 0 && ap.compression <= 15,
                     "inv: compression");
            break;

        default:
            sa_check(0, "inv: init state");
            break;
        }

        return;
    }

    check_reader(&ap.patch_reader, &tpl.patch_reader, &ap.chunk);
#if K >= 0
    sa_check(ap.compression == K, "inv: compression");
#else
    sa_check(!c.failed, "a failed patch reader fails the patch application");
#endif
    check_layout();
    sa_check(ap.to_pos <= ap.to_size,
             "output stays within the size declared by the patch");
    sa_check(ap.ongoing_step >= 1, "inv: step");

    if (w.steps) {
        sa_check(w.completed >= 0 && ap.ongoing_step <= w.completed + 1,
                 "no step is skipped");
    }

    if (w.fresh) {
        sa_check(w.written == ap.to_pos, "everything is written");
        sa_check(!w.steps || ap.ongoing_step == w.completed + 1,
                 "every step is completed");
    }

    sa_check(w.finished == (w.steps
                            && ap.state == detools_apply_patch_state_done_t
                            && !sa_header),
             "the last step is completed when everything is written");

    if (sa_header) {
        w.erased = (w.erased && w.steps);
    }

    check_data_state();
#ifdef CONTENT
    if (w.steps && !w.fresh) {
        /* The step was completed before. */
        g.kind = 2;
        g.side = 0;
    }

    sa_check(g.read == ap.to_pos, "everything read is written");
    check_model((int)ap.state, &ap.patch_reader.size, ap.chunk_size);

    if (g.phase != phase_df && g.phase != phase_end) {
        sa_check(g.from == ap.segment.from_offset,
                 "the from data is moved to where the patch says");
        sa_check(g.limit == ap.segment.to_offset + ap.segment.to_size,
                 "the segment is within the size declared by the patch");
    }
#endif

    if (sa_header) {
        sa_check((ap.state == detools_apply_patch_state_dfpatch_size_t
                  && ap.to_size > 0)
                 || (ap.state == detools_apply_patch_state_done_t
                     && ap.to_size == 0),
                 "the patch data is read after the header");
        sa_check(ap.to_pos == 0 && ap.segment.index == 0, "inv: first segment");
        sa_stop();
    }
}

static void havoc_common(void)
{
    ap.mem_read = w_mem_read;
    ap.mem_write = w_mem_write;
    ap.mem_erase = w_mem_erase;
    ap.arg_p = &w;
    ap.patch_size = sa_size();
    ap.patch_offset = (size_t)sa_range(0, 1L << 62);
    ap.chunk.offset = sa_size();
    sa_assume(ap.chunk.offset <= ap.chunk.size);
    sa_assume(ap.chunk.size <= ap.patch_offset);
    w.failed = 0;
    w.finished = 0;
    w.shifting = 0;
    w.full = 0;
}

/* Which callbacks and whether resumed do not change. */
static void havoc_mode(void)
{
    if (w.steps) {
        ap.step_set = w_step_set;
        ap.step_get = w_step_get;
    } else {
        ap.step_set = NULL;
        ap.step_get = NULL;
    }
}

static void choose_mode(void)
{
#ifdef MODE
    switch (MODE) {
#else
    switch (sa_range(0, 2)) {
#endif

    case 0:
        w.steps = 0;
        w.fresh = 1;
        w.completed = 0;
        break;

    case 1:
        w.steps = 1;
        w.fresh = 1;
        w.completed = 0;
        break;

    default:
        w.steps = 1;
        w.fresh = 0;
        w.completed = sa_range(0, STEP_LIMIT);
        break;
    }
}

static void havoc_init(void)
{
    havoc_common();
    havoc_mode();
    ap.state = detools_apply_patch_state_init_t;
    ap.patch_reader.destroy = NULL;
    ap.ongoing_step = 1;
    w.written = 0;
    w.erased = 0;
    w.shifting = 1;

    if (w.steps && !w.fresh) {
        w.completed = sa_range(0, STEP_LIMIT);
    } else {
        w.completed = 0;
    }

    ap.memory_size = (size_t)sa_range(0, SIZE_LIMIT - 1);
#ifdef SEGMENT
    ap.segment_size = SEGMENT;
#else
    ap.segment_size = (size_t)sa_range(0, SIZE_LIMIT - 1);
#endif
    ap.shift_size = (size_t)sa_range(0, SIZE_LIMIT - 1);
    ap.from_size = (size_t)sa_range(0, SIZE_LIMIT - 1);
    ap.compression = (int)sa_range(0, 15);
    havoc_size(&ap.size);

    switch (sa_range(0, 5)) {

    case 0:
        ap.init_state = detools_apply_patch_in_place_init_state_fixed_header_t;
        break;

    case 1:
        ap.init_state = detools_apply_patch_in_place_init_state_memory_size_t;
        break;

    case 2:
        ap.init_state = detools_apply_patch_in_place_init_state_segment_size_t;
        break;

    case 3:
        ap.init_state = detools_apply_patch_in_place_init_state_shift_size_t;
        break;

    case 4:
        ap.init_state = detools_apply_patch_in_place_init_state_from_size_t;
        break;

    default:
        ap.init_state = detools_apply_patch_in_place_init_state_to_size_t;
        break;
    }
}

/* After the header. */
static void havoc_progress(void)
{
    havoc_common();
    havoc_mode();
    ap.memory_size = (size_t)sa_range(0, SIZE_LIMIT - 1);
#ifdef SEGMENT
    ap.segment_size = SEGMENT;
#else
    ap.segment_size = (size_t)sa_range(1, SIZE_LIMIT - 1);
#endif
    ap.shift_size = (size_t)sa_range(0, SIZE_LIMIT - 1);
    sa_assume(ap.shift_size <= ap.memory_size);
    ap.from_size = (size_t)sa_range(0, SIZE_LIMIT - 1);
    ap.to_size = (size_t)sa_range(0, SIZE_LIMIT - 1);
    sa_assume(ap.to_size <= ap.memory_size);
    ap.to_pos = (size_t)sa_range(0, SIZE_LIMIT - 1);
    sa_assume(ap.to_pos <= ap.to_size);
    ap.segment.index = (size_t)sa_range(0, SIZE_LIMIT - 1);
    ap.ongoing_step = (int)sa_range(1, STEP_LIMIT + (1L << 29));

    if (w.fresh) {
        w.written = ap.to_pos;
        w.completed = (w.steps ? ap.ongoing_step - 1 : 0);
    } else {
        w.completed = sa_range(0, STEP_LIMIT + (1L << 29));
        sa_assume(ap.ongoing_step <= w.completed + 1);
    }

#if K >= 0
    ap.compression = K;
#else
    ap.compression = sa_int();
#endif
    ap.chunk_size = sa_size();
    havoc_reader(&ap.patch_reader, &tpl.patch_reader, &ap.chunk);
}

static void havoc_segment(void)
{
    havoc_progress();
    sa_assume(ap.segment.index > 0);
    ap.segment.from_offset = sa_int();
    ap.segment.to_size = (size_t)sa_range(1, SIZE_LIMIT - 1);
    sa_assume(ap.segment.to_size <= ap.segment_size);
    ap.segment.to_pos = (size_t)sa_range(0, SIZE_LIMIT - 1);
    sa_assume(ap.segment.to_pos <= ap.segment.to_size);
    sa_assume(ap.segment.to_pos <= ap.to_pos);
    ap.segment.to_offset = ap.to_pos - ap.segment.to_pos;
    sa_assume(ap.segment.to_offset + ap.segment.to_size <= ap.to_size);
    sa_assume(ap.segment.to_offset + ap.segment_size
              == ap.segment.index * ap.segment_size);
    sa_assume(ap.ongoing_step < STEP_LIMIT + (long)ap.segment.index);

    if (sa_range(0, 1)) {
        sa_assume(ap.segment.to_size == ap.segment_size);
        w.full = 1;
    } else {
        sa_assume(ap.segment.to_size < ap.segment_size);
        sa_assume(ap.segment.to_offset + ap.segment.to_size == ap.to_size);
    }

    if (!w.steps || w.fresh || sa_range(0, 1)) {
        w.erased = 1;
        w.erased_begin = ap.segment.to_offset;
        w.erased_size = ap.segment.to_size;
        w.step_written = ap.segment.to_pos;

        if (w.steps) {
            w.completed = ap.ongoing_step - 1;
        }
    } else {
        /* The step was completed before. */
        w.erased = 0;
        sa_assume(ap.ongoing_step <= w.completed);
    }
}

/* Any state after the header. */
#ifdef WITH_MODEL
#define WHOLE(on) sa_whole = on
#else
#define WHOLE(on)
#endif

static void havoc_machine(void)
{
    switch (sa_range(0, 8)) {

    case 0:
        havoc_progress();
        ap.state = detools_apply_patch_state_dfpatch_size_t;
        sa_assume(ap.to_pos == ap.segment.index * ap.segment_size);
        sa_assume(ap.to_pos < ap.to_size);
        sa_assume(ap.ongoing_step <= STEP_LIMIT + (long)ap.segment.index);
        w.erased = 0;
        break;

    case 1:
        havoc_segment();
        ap.state = detools_apply_patch_state_diff_size_t;
        break;

    case 2:
        WHOLE(1);
        havoc_segment();
        WHOLE(0);
        ap.state = detools_apply_patch_state_diff_data_t;
        sa_assume(ap.chunk_size <= ap.segment.to_size - ap.segment.to_pos);
        break;

    case 3:
        havoc_segment();
        ap.state = detools_apply_patch_state_extra_size_t;
        break;

    case 4:
        WHOLE(1);
        havoc_segment();
        WHOLE(0);
        ap.state = detools_apply_patch_state_extra_data_t;
        sa_assume(ap.chunk_size <= ap.segment.to_size - ap.segment.to_pos);
        break;

    case 5:
        havoc_segment();
        ap.state = detools_apply_patch_state_adjustment_t;
        break;

    case 6:
        WHOLE(1);
        havoc_progress();
        WHOLE(0);
        ap.state = detools_apply_patch_state_done_t;
        ap.to_pos = ap.to_size;
        w.written = ap.to_size;
        w.erased = 0;
        w.finished = w.steps;
        break;

    case 7:
        WHOLE(1);
        havoc_progress();
        WHOLE(0);
#if K < 0
        havoc_failed();
#endif
        w.failed = (int)sa_range(0, 1);
        w.erased = 0;
        ap.state = detools_apply_patch_state_failed_t;
        break;

    default:
        havoc_common();
        havoc_mode();
        ap.state = detools_apply_patch_state_failed_t;
        ap.patch_reader.destroy = NULL;
#if K < 0
        c.failed = 0;
        c.live = 0;
#endif
        w.failed = (int)sa_range(0, 1);
        w.erased = 0;
        break;
    }
}

static void learn(void)
{
    sa_control(&w.failed);
    sa_control(&w.steps);
    sa_control(&w.fresh);
    sa_control(&w.erased);
    sa_control(&w.full);
    sa_plain(&ap.ongoing_step);
    sa_plain(&w.completed);
    sa_plain(&ap.segment.index);
    sa_control(&w.finished);
    sa_control(&ap.state);
    sa_control(&ap.init_state);
    control_size(&ap.size);
    control_size(&ap.patch_reader.size);
#if K >= 0
    {
        static const uint8_t header[2] = { (uint8_t)K, 1 };
        static struct detools_apply_patch_t seq;

        control_compression(&ap.patch_reader);

        if (detools_apply_patch_init(&seq, (void *)w_called,
                                     (void *)w_called, 2,
                                     (void *)w_called, &w) != 0) {
            sa_stop();
        }

        if (detools_apply_patch_process(&seq, header, 2) != 0) {
            sa_stop();
        }

        tpl.patch_reader = seq.patch_reader;
        sa_assume(tpl.patch_reader.destroy != NULL);
    }
#else
    sa_control(&ap.patch_reader.destroy);
    sa_control(&c.live);
    sa_control(&c.failed);
#endif
}
