/* Applying patch files. */
#include "sa.h"
#include <stdio.h>
#include "detools.h"

enum { FROM = 0, TO, PATCH, COUNT };

#ifdef INPLACE
#define MEMORY FROM             /* the file with the old and the new data */
#endif

struct file {
    int opened;
    int closed;
    size_t size;
    long pos;
};

static struct file files[COUNT];
static char names[COUNT][8];
static int failed;              /* something has failed */
static int applied;             /* the application has been made */
static int result;
static int done;                /* it is over */

static size_t target;           /* a byte of a file, at any position */
static int bytes[COUNT];

void sa_inv_check(void)
{
}

void sa_inv_havoc(void)
{
}

static struct file *file_of(FILE *file_p)
{
    struct file *self_p;

    if (file_p == (FILE *)&files[FROM]) {
        self_p = &files[FROM];
    } else if (file_p == (FILE *)&files[TO]) {
        self_p = &files[TO];
    } else {
        sa_check(file_p == (FILE *)&files[PATCH], "open files are used only");
        self_p = &files[PATCH];
    }

    sa_check(self_p->opened && !self_p->closed, "open files are used only");

    return (self_p);
}

FILE *fopen(const char *name_p, const char *mode_p)
{
    int i;

    if (name_p == &names[FROM][0]) {
        i = FROM;
    } else if (name_p == &names[TO][0]) {
        i = TO;
    } else {
        sa_check(name_p == &names[PATCH][0], "the files given are opened");
        i = PATCH;
    }

#ifdef INPLACE
    if (i == MEMORY) {
        sa_check(mode_p[0] == 'r' && (mode_p[1] == '+' || mode_p[2] == '+'),
                 "the memory is opened for update and not truncated");
    } else {
        sa_check(i == PATCH, "the files given are opened");
        sa_check(mode_p[0] == 'r', "files that are read are not truncated");
    }
#else
    if (i == TO) {
        sa_check(mode_p[0] == 'w', "what was in the output is removed");
    } else {
        sa_check(mode_p[0] == 'r', "files that are read are not truncated");
    }
#endif
    sa_check(!files[i].opened, "files are opened once");

    if (sa_range(0, 1)) {
        failed = 1;

        return (NULL);
    }

    files[i].opened = 1;
    files[i].pos = 0;

    return ((FILE *)&files[i]);
}

int fclose(FILE *file_p)
{
    int res = sa_int();

    file_of(file_p)->closed = 1;

    if (res != 0) {
        failed = 1;
    }

    return (res);
}

int fseek(FILE *file_p, long offset, int whence)
{
    int res = sa_int();
    struct file *self_p = file_of(file_p);
    long pos = offset;

    if (whence == SEEK_CUR) {
        pos += self_p->pos;
    } else if (whence == SEEK_END) {
        pos += (long)self_p->size;
    } else {
        sa_check(whence == SEEK_SET, "files are moved to valid positions");
    }

    if (res != 0) {
        failed = 1;

        return (-1);
    }

    self_p->pos = pos;

    return (0);
}

void rewind(FILE *file_p)
{
    file_of(file_p)->pos = 0;
}

long ftell(FILE *file_p)
{
    if (sa_range(0, 1)) {
        failed = 1;

        return (-1);
    }

    return (file_of(file_p)->pos);
}

int fflush(FILE *file_p)
{
    int res = sa_int();

    (void)file_of(file_p);

    if (res != 0) {
        failed = 1;
    }

    return (res);
}

/* Number of bytes: one of the factors is 1 in all use there is. */
static size_t bytes_of(size_t size, size_t n)
{
    if (n == 1) {
        return (size);
    }

    sa_check(size == 1, "whole items are read and written");

    return (n);
}

size_t fread(void *buf_p, size_t size, size_t n, FILE *file_p)
{
    struct file *self_p = file_of(file_p);
    size_t total = bytes_of(size, n);

    sa_fill_from(buf_p, total, "file");

    if (sa_range(0, 1)) {
        size_t few = sa_size();

        sa_assume(few < n);
        failed = 1;

        return (few);
    }

    if (self_p->pos >= 0 && target >= (size_t)self_p->pos
        && target - (size_t)self_p->pos < total) {
        sa_watch((uint8_t *)buf_p + (target - (size_t)self_p->pos),
                 bytes[self_p - &files[0]]);
    }

    self_p->pos += (long)total;

    return (n);
}

size_t fwrite(const void *buf_p, size_t size, size_t n, FILE *file_p)
{
    struct file *self_p = file_of(file_p);
    size_t total = bytes_of(size, n);

#ifdef INPLACE
    sa_check(self_p == &files[MEMORY], "the patch is not written to");
#else
    sa_check(self_p == &files[TO], "only the output is written to");
#endif
    sa_use(buf_p, total);

    if (sa_range(0, 1)) {
        size_t few = sa_size();

        sa_assume(few < n);
        failed = 1;

        return (few);
    }

    if (self_p->pos >= 0 && target >= (size_t)self_p->pos
        && target - (size_t)self_p->pos < total) {
        sa_check(((const uint8_t *)buf_p)[target - (size_t)self_p->pos]
                 == bytes[self_p - &files[0]],
                 "data is written where it belongs");
    }

    self_p->pos += (long)total;

    return (n);
}

int fgetc(FILE *file_p)
{
    (void)file_of(file_p);
    sa_check(0, "analysed: only whole blocks are read");

    return (sa_int());
}

/* The functions given to the application. */

static uint8_t buf[64];

static void check_result(int res)
{
    if (failed) {
        sa_check(res != 0, "failures are reported");
        sa_stop();
    } else {
        sa_check(res == 0, "only failures are reported");
    }
}

static size_t any_size(void)
{
    return ((size_t)sa_range(1, sizeof(buf)));
}

static void check_patch_read(detools_read_t patch_read, void *arg_p)
{
    size_t size = any_size();
    long pos = (long)sa_range(0, 1L << 40);

    files[PATCH].pos = pos;
    check_result(patch_read(arg_p, &buf[0], size));
    sa_check(files[PATCH].pos == pos + (long)size,
             "the patch is read in order");

    if (target >= (size_t)pos && target - (size_t)pos < size) {
        sa_check(buf[target - (size_t)pos] == bytes[PATCH],
                 "the patch is read in order");
    }
}

static int apply_result(void)
{
    result = sa_int();

    if (result < 0) {
        failed = 1;
    }

    return (result);
}

static void check_files(size_t patch_size)
{
    int i;

    sa_check(!applied, "the patch is applied once");
    sa_check(!failed, "nothing is applied if opening fails");
    applied = 1;

    for (i = 0; i < COUNT; i++) {
#ifdef INPLACE
        if (i == TO) {
            continue;
        }
#endif
        sa_check(files[i].opened && !files[i].closed,
                 "all files are open while the patch is applied");
    }

    sa_check(files[PATCH].pos == 0, "the patch is read from the beginning");
    sa_check(patch_size == files[PATCH].size,
             "the application is given the size of the patch");
}

#ifdef INPLACE

static int w_step_set(void *arg_p, int step)
{
    (void)arg_p; (void)step;

    return (0);
}

static int w_step_get(void *arg_p, int *step_p)
{
    (void)arg_p; (void)step_p;

    return (0);
}

int sa_stub_detools_apply_patch_in_place_callbacks(
    detools_mem_read_t mem_read,
    detools_mem_write_t mem_write,
    detools_mem_erase_t mem_erase,
    detools_step_set_t step_set,
    detools_step_get_t step_get,
    detools_read_t patch_read,
    size_t patch_size,
    void *arg_p)
{
    size_t at = (size_t)sa_range(0, 0x7fffffff);
    size_t size = any_size();

    check_files(patch_size);
    sa_check(step_set == w_step_set && step_get == w_step_get,
             "the step callbacks given are used");
    files[MEMORY].pos = (long)sa_range(0, 1L << 40);

    switch (sa_range(0, 4)) {

    case 0:
        check_result(mem_read(arg_p, &buf[0], at, size));

        if (target >= at && target - at < size) {
            sa_check(buf[target - at] == bytes[MEMORY],
                     "data is read from where it is");
        }

        break;

    case 1:
        sa_fill(buf, sizeof(buf));

        if (target >= at && target - at < size) {
            sa_watch(&buf[target - at], bytes[MEMORY]);
        }

        check_result(mem_write(arg_p, at, &buf[0], size));
        sa_check(files[MEMORY].pos == (long)(at + size),
                 "data is written where it belongs");
        break;

    case 2:
        check_result(mem_erase(arg_p, at, size));
        break;

    case 3:
        check_patch_read(patch_read, arg_p);
        break;

    default:
        break;
    }

    return (apply_result());
}

#else

int sa_stub_detools_apply_patch_callbacks(detools_read_t from_read,
                                          detools_seek_t from_seek,
                                          detools_read_t patch_read,
                                          size_t patch_size,
                                          detools_write_t to_write,
                                          void *arg_p)
{
    size_t size = any_size();
    long pos;
    int offset;

    check_files(patch_size);
    sa_check(files[FROM].pos == 0,
             "the from data is read from the beginning");
    sa_check(files[TO].pos == 0, "the output is written from the beginning");
    pos = (long)sa_range(0, 1L << 40);

    switch (sa_range(0, 4)) {

    case 0:
        files[FROM].pos = pos;
        check_result(from_read(arg_p, &buf[0], size));
        sa_check(files[FROM].pos == pos + (long)size,
                 "data is read from where it is");

        if (target >= (size_t)pos && target - (size_t)pos < size) {
            sa_check(buf[target - (size_t)pos] == bytes[FROM],
                     "data is read from where it is");
        }

        break;

    case 1:
        offset = sa_int();
        files[FROM].pos = pos;
        check_result(from_seek(arg_p, offset));
        sa_check(files[FROM].pos == pos + offset,
                 "the from data is moved by what is asked for");
        break;

    case 2:
        files[TO].pos = pos;
        sa_fill(buf, sizeof(buf));

        if (target >= (size_t)pos && target - (size_t)pos < size) {
            sa_watch(&buf[target - (size_t)pos], bytes[TO]);
        }

        check_result(to_write(arg_p, &buf[0], size));
        sa_check(files[TO].pos == pos + (long)size,
                 "data is written where it belongs");
        break;

    case 3:
        check_patch_read(patch_read, arg_p);
        break;

    default:
        break;
    }

    return (apply_result());
}

#endif

int entry(void)
{
    int res;
    int i;

    sa_control(&failed);
    sa_control(&applied);

    for (i = 0; i < COUNT; i++) {
        sa_control(&files[i].opened);
        sa_control(&files[i].closed);
        files[i].size = (size_t)sa_range(0, 1L << 40);
        bytes[i] = (int)sa_range(0, 255);
    }

    target = sa_size();
#ifdef INPLACE
    res = detools_apply_patch_in_place_filenames(&names[MEMORY][0],
                                                 &names[PATCH][0],
                                                 w_step_set, w_step_get);
#else
    res = detools_apply_patch_filenames(&names[FROM][0], &names[PATCH][0],
                                        &names[TO][0]);
#endif
    done = 1;

    for (i = 0; i < COUNT; i++) {
        sa_check(files[i].opened == files[i].closed,
                 "all files that have been opened are closed");
    }

    if (failed) {
        sa_check(res < 0, "failures are reported");
    } else if (applied) {
        sa_check(res == result, "the result of the application is returned");
    } else {
        sa_check(res < 0 && files[PATCH].size == 0,
                 "only empty patches are not applied");
    }

    return (res);
}
