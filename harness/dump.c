/* Dumping the state of a sequential application, and restoring it later. */
#include "seq.h"
#include <string.h>

#define STATE_LIMIT 65536

#ifndef HEATSHRINK_DYNAMIC_ALLOC
#define HEATSHRINK_DYNAMIC_ALLOC 0
#endif

static uint8_t dump[STATE_LIMIT];
static size_t dumped;
static size_t restored;
static int dump_failed;
static struct detools_apply_patch_t old;
static struct detools_apply_patch_t first;   /* in the first process */
static uint8_t kept;

void sa_inv_havoc(void)
{
}

static int other_destroy(reader_t *self_p)
{
    (void)self_p;
    sa_check(0, "no function of another process is called");

    return (0);
}

static int other_decompress(reader_t *self_p,
                            uint8_t *buf_p,
                            size_t *size_p)
{
    (void)self_p;
    (void)buf_p;
    (void)size_p;
    sa_check(0, "no function of another process is called");

    return (0);
}

static int w_state_write(void *arg_p, const void *buf_p, size_t size)
{
    int res = sa_int();

    sa_check(arg_p == (void *)&w, "callbacks get the argument given to init");
    sa_check(!dump_failed, "no callback is called after a callback has failed");
    sa_assume(dumped + size <= STATE_LIMIT);

    if (res != 0) {
        dump_failed = 1;
    } else {
        memcpy(&dump[dumped], buf_p, size);
        dumped += size;
    }

    return (res);
}

static int w_state_read(void *arg_p, void *buf_p, size_t size)
{
    int res = sa_int();

    sa_check(arg_p == (void *)&w, "callbacks get the argument given to init");
    sa_check(!w.failed, "no callback is called after a callback has failed");
    sa_check(restored + size <= dumped, "what was dumped is restored");

    if (res != 0) {
        w.failed = 1;
    } else {
        memcpy(buf_p, &dump[restored], size);
        restored += size;
    }

    return (res);
}

static void same_size(struct detools_apply_patch_size_t *a_p,
                      struct detools_apply_patch_size_t *b_p)
{
    sa_check(a_p->state == b_p->state, "numbers partly read are restored");

    if (b_p->state != detools_unpack_usize_state_first_t) {
        sa_check(a_p->value == b_p->value && a_p->offset == b_p->offset
                 && a_p->is_signed == b_p->is_signed,
                 "numbers partly read are restored");
    }
}

#define SAME(field, rule) sa_check(a_p->field == b_p->field, rule)
#define READER "the state of the decompressor is restored"

#if K == 0

static void same_compression(reader_t *r_p, reader_t *s_p)
{
    struct detools_apply_patch_patch_reader_none_t *a_p, *b_p;

    a_p = &r_p->compression.none;
    b_p = &s_p->compression.none;
    SAME(patch_size, READER);
    SAME(patch_offset, READER);
}

#elif K == 2

static void same_usize(struct detools_unpack_usize_t *a_p,
                       struct detools_unpack_usize_t *b_p)
{
    SAME(state, READER);

    if (b_p->state != detools_unpack_usize_state_first_t) {
        SAME(value, READER);
        SAME(offset, READER);
    }
}

static void same_compression(reader_t *r_p, reader_t *s_p)
{
    struct detools_apply_patch_patch_reader_crle_t *a_p, *b_p;

    a_p = &r_p->compression.crle;
    b_p = &s_p->compression.crle;
    SAME(state, READER);

    switch (b_p->state) {

    case detools_crle_state_scattered_size_t:
        same_usize(&a_p->kind.scattered.size, &b_p->kind.scattered.size);
        break;

    case detools_crle_state_scattered_data_t:
        SAME(kind.scattered.number_of_bytes_left, READER);
        break;

    case detools_crle_state_repeated_repetitions_t:
        same_usize(&a_p->kind.repeated.size, &b_p->kind.repeated.size);
        break;

    case detools_crle_state_repeated_data_t:
        SAME(kind.repeated.number_of_bytes_left, READER);
        break;

    case detools_crle_state_repeated_data_read_t:
        SAME(kind.repeated.number_of_bytes_left, READER);
        SAME(kind.repeated.value, READER);
        break;

    default:
        break;
    }
}

#elif K == 4 && HEATSHRINK_DYNAMIC_ALLOC == 0

static size_t at;
static int byte;

static void same_compression(reader_t *r_p, reader_t *s_p)
{
    struct detools_apply_patch_patch_reader_heatshrink_t *a_p, *b_p;

    a_p = &r_p->compression.heatshrink;
    b_p = &s_p->compression.heatshrink;
    SAME(window_sz2, READER);

    if (b_p->window_sz2 != -1) {
        sa_check(((uint8_t *)a_p->decoder_p)[at] == byte, READER);
    }
}

#else

static void same_compression(reader_t *r_p, reader_t *s_p)
{
    (void)r_p;
    (void)s_p;
}

#endif

static void same(struct detools_apply_patch_t *a_p,
                 struct detools_apply_patch_t *b_p)
{
    SAME(state, "the state is restored");
    SAME(to_offset, "the to offset is restored");
    SAME(to_size, "the to size is restored");
    SAME(patch_offset, "the patch offset is restored");
    SAME(patch_size, "the patch size is restored");
    SAME(compression, "the compression is restored");
    same_size(&a_p->patch_reader.size, &b_p->patch_reader.size);

    if (b_p->state == detools_apply_patch_state_diff_data_t
        || b_p->state == detools_apply_patch_state_extra_data_t) {
        SAME(chunk_size, "the size of the data left is restored");
    }

    same_compression(&a_p->patch_reader, &b_p->patch_reader);
}

/* The same after dump and restore. */
static void check_restored(void)
{
    sa_check(ap.from_read == w_from_read && ap.from_seek == w_from_seek
             && ap.to_write == w_to_write && ap.arg_p == &w,
             "the callbacks given to init are used");

    if (old.state == detools_apply_patch_state_init_t) {
        sa_check(ap.state == detools_apply_patch_state_init_t
                 && ap.init_state
                    == detools_apply_patch_init_state_fixed_header_t
                 && ap.patch_offset == 0 && ap.to_offset == 0
                 && ap.from_offset == 0 && w.from_pos == 0
                 && ap.patch_size == old.patch_size,
                 "an application dumped before its header starts over");
    } else if (old.state != detools_apply_patch_state_failed_t) {
        sa_check(ap.from_offset == old.from_offset,
                 "the from offset is restored");
        sa_check(w.from_pos == old.from_offset,
                 "the from data is moved to where it was");
        same(&ap, &old);
    } else {
        sa_check(ap.state == detools_apply_patch_state_failed_t,
                 "a failed application stays failed");
    }

    ap.chunk.size = 0;
    ap.chunk.offset = 0;
    w.failed = 0;
#if K == 4 && HEATSHRINK_DYNAMIC_ALLOC == 0
    if (old.patch_reader.destroy != NULL
        && old.patch_reader.compression.heatshrink.window_sz2 != -1) {
        hs.decoder_p = &ap.patch_reader.compression.heatshrink.decoder;
    }
#endif

    sa_inv_check();
}

int entry(void)
{
    int res;

    learn();
    sa_control(&dumped);
    sa_control(&restored);
    sa_control(&dump_failed);
    sa_control(&ap.patch_reader.destroy);
    sa_control(&old.patch_reader.destroy);
    sa_control(&old.state);
    sa_control(&old.init_state);
    control_size(&old.size);
    control_size(&old.patch_reader.size);
    control_compression(&old.patch_reader);
    ap.chunk.size = 0;
    ap.chunk.offset = 0;

    if (sa_range(0, 1)) {
        havoc_init();
    } else {
        havoc_machine();
    }

    if (ap.state == detools_apply_patch_state_failed_t) {
        sa_assume(ap.patch_reader.destroy != NULL);
    }

    w.failed = 0;
    first = ap;

    if (ap.patch_reader.destroy != NULL) {
        /* Functions and data are elsewhere in another process. */
        first.patch_reader.destroy = other_destroy;
        first.patch_reader.decompress = other_decompress;
        first.patch_reader.patch_chunk_p = &first.chunk;
#if K == 4 && HEATSHRINK_DYNAMIC_ALLOC == 0
        if (ap.patch_reader.compression.heatshrink.window_sz2 != -1) {
            first.patch_reader.compression.heatshrink.decoder_p =
                &first.patch_reader.compression.heatshrink.decoder;
        }
#endif
    }

    sa_watch(&kept, 0);
#if K == 4 && HEATSHRINK_DYNAMIC_ALLOC == 0
    if (ap.patch_reader.destroy != NULL) {
        at = sa_size();
        sa_assume(at < sizeof(heatshrink_decoder));
        byte = (int)sa_range(0, 255);
        sa_watch((uint8_t *)&first.patch_reader.compression.heatshrink.decoder
                 + at, byte);
    }
#endif
    old = ap;
    res = detools_apply_patch_dump(&first, w_state_write);

    sa_check(res <= 0 && res >= -27, "documented return values");

    if (dump_failed) {
        sa_check(res < 0, "a callback failure is reported");
    }

    if (res != 0) {
        sa_check(dump_failed || K == 1 || HEATSHRINK_DYNAMIC_ALLOC == 1,
                 "the state can be dumped");
        sa_stop();
    }

    sa_check((K != 1 && HEATSHRINK_DYNAMIC_ALLOC == 0)
             || old.patch_reader.destroy == NULL,
             "states that cannot be dumped are reported");

    /* Another process. */
    sa_forget(&first, sizeof(first));
    sa_forget(&ap, sizeof(ap));
    w.from_pos = 0;

    if (detools_apply_patch_init(&ap, w_from_read, w_from_seek, sa_size(),
                                 w_to_write, &w) != 0) {
        sa_check(0, "initialisation succeeds");
    }

    res = detools_apply_patch_restore(&ap, w_state_read);
    sa_check(res <= 0 && res >= -27, "documented return values");

    if (w.failed) {
        sa_check(res < 0, "a callback failure is reported");
    }

    if (res == 0) {
        sa_check(detools_apply_patch_get_to_offset(&ap) == w.written
                 || old.state == detools_apply_patch_state_failed_t,
                 "the to offset is restored");
        check_restored();
    } else {
        sa_check(w.failed, "the state can be restored");
    }

    return (res);
}
