/* How numbers in patches are read. */
#include "detools.c"

static const uint8_t *b_buf_p;
static size_t b_at;
static size_t b_end;

int b_header(const uint8_t *buf_p, size_t size, size_t split, int *number_p)
{
    struct detools_apply_patch_chunk_t chunk;
    struct detools_apply_patch_size_t state;
    int res;

    memset(&state, 0, sizeof(state));
    state.state = detools_unpack_usize_state_first_t;
    chunk.buf_p = buf_p;
    chunk.size = split;
    chunk.offset = 0;
    res = chunk_unpack_header_size(&chunk, &state, number_p);

    if (split < size) {
        if (res != 1) {
            return (res < 0 ? res : -1000);
        }

        chunk.buf_p = buf_p + split;
        chunk.size = size - split;
        chunk.offset = 0;
        res = chunk_unpack_header_size(&chunk, &state, number_p);
    }

    if (res == 0 && chunk.offset != chunk.size) {
        return (-1001);
    }

    return (res);
}

static int b_decompress(struct detools_apply_patch_patch_reader_t *self_p,
                        uint8_t *buf_p,
                        size_t *size_p)
{
    (void)self_p;

    if (b_at >= b_end || *size_p != 1) {
        return (1);
    }

    *buf_p = b_buf_p[b_at++];

    return (0);
}

int b_reader(const uint8_t *buf_p, size_t size, size_t split, int *number_p)
{
    struct detools_apply_patch_patch_reader_t reader;
    int res;

    memset(&reader, 0, sizeof(reader));
    reader.size.state = detools_unpack_usize_state_first_t;
    reader.decompress = b_decompress;
    b_buf_p = buf_p;
    b_at = 0;
    b_end = split;
    res = patch_reader_unpack_size(&reader, number_p);

    if (split < size) {
        if (res != 1) {
            return (res < 0 ? res : -1000);
        }

        b_end = size;
        res = patch_reader_unpack_size(&reader, number_p);
    }

    if (res == 0 && b_at != size) {
        return (-1001);
    }

    if (res == 0) {
        /* The next one starts over. */
        b_at = 0;
        res = patch_reader_unpack_size(&reader, number_p);
    }

    return (res);
}

int b_crle(const uint8_t *buf_p, size_t size, size_t split, int *number_p)
{
    struct detools_apply_patch_chunk_t chunk;
    struct detools_unpack_usize_t state;
    int res;

    unpack_usize_init(&state);
    chunk.buf_p = buf_p;
    chunk.size = split;
    chunk.offset = 0;
    res = unpack_usize(&state, &chunk, number_p);

    if (split < size) {
        if (res != 1) {
            return (res < 0 ? res : -1000);
        }

        chunk.buf_p = buf_p + split;
        chunk.size = size - split;
        chunk.offset = 0;
        res = unpack_usize(&state, &chunk, number_p);
    }

    if (res == 0 && chunk.offset != chunk.size) {
        return (-1001);
    }

    return (res);
}
