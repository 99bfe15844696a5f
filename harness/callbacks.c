/* Feeding a patch to an application through callbacks. */
#include "sa.h"
#include "detools.h"

#ifdef INPLACE
#define APPLY detools_apply_patch_in_place_t
#else
#define APPLY detools_apply_patch_t
#endif

static struct {
    size_t size;                /* of the patch */
    size_t read;                /* bytes read */
    size_t fed;                 /* bytes fed to the application */
    int failed;                 /* something has failed */
    int finalized;
    int result;                 /* of finalizing */
    struct APPLY *apply_p;
} w;

static size_t target;           /* one byte of the patch, at any position */
static int patch_byte;

void sa_inv_check(void)
{
}

void sa_inv_havoc(void)
{
}

static int w_patch_read(void *arg_p, uint8_t *buf_p, size_t size)
{
    int res = sa_int();

    sa_check(arg_p == (void *)&w, "callbacks get the argument given");
    sa_check(!w.failed, "nothing is read after a failure");
    sa_check(!w.finalized, "nothing is done after finalizing");
    sa_check(w.read == w.fed, "what is read is fed before more is read");
    sa_check(size > 0 && size <= w.size - w.read,
             "no more than the patch is read");
    sa_fill_from(buf_p, size, "patch");

    if (res != 0) {
        w.failed = 1;
    } else {
        if (target >= w.read && target - w.read < size) {
            sa_watch(buf_p + (target - w.read), patch_byte);
        }

        w.read += size;
    }

    return (res);
}

static void check_apply(struct APPLY *self_p);

static int stub_process(struct APPLY *self_p,
                        const uint8_t *patch_p,
                        size_t size)
{
    int res = sa_int();

    check_apply(self_p);
    sa_check(!w.failed, "nothing is fed after a failure");
    sa_check(!w.finalized, "nothing is done after finalizing");
    sa_check(w.fed + size <= w.read, "what has been read is fed");
    sa_use(patch_p, size);

    if (target >= w.fed && target - w.fed < size) {
        sa_check(patch_p[target - w.fed] == patch_byte,
                 "each byte of the patch is fed in order");
    }

    w.fed += size;
    sa_assume(res <= 0);

    if (res != 0) {
        w.failed = 1;
    }

    return (res);
}

static int stub_finalize(struct APPLY *self_p)
{
    int res = sa_int();

    check_apply(self_p);
    sa_check(!w.finalized, "the application is finalized once");
    w.finalized = 1;
    w.result = res;

    if (!w.failed) {
        sa_check(w.fed == w.size, "the whole patch is fed before finalizing");
    }

    return (res);
}

#ifdef INPLACE

static int w_mem_read(void *arg_p, void *dst_p, uintptr_t src, size_t size);
static int w_mem_write(void *arg_p, uintptr_t dst, void *src_p, size_t size);
static int w_mem_erase(void *arg_p, uintptr_t addr, size_t size);
static int w_step_set(void *arg_p, int step);
static int w_step_get(void *arg_p, int *step_p);

static void check_apply(struct APPLY *self_p)
{
    sa_check(self_p->mem_read == w_mem_read && self_p->mem_write == w_mem_write
             && self_p->mem_erase == w_mem_erase
             && self_p->step_set == w_step_set
             && self_p->step_get == w_step_get
             && self_p->arg_p == (void *)&w,
             "the application uses the callbacks given");
    sa_check(self_p->patch_size == w.size,
             "the application is given the size of the patch");
}

int sa_stub_detools_apply_patch_in_place_process(struct APPLY *self_p,
                                                 const uint8_t *patch_p,
                                                 size_t size)
{
    return (stub_process(self_p, patch_p, size));
}

int sa_stub_detools_apply_patch_in_place_finalize(struct APPLY *self_p)
{
    return (stub_finalize(self_p));
}

static int w_mem_read(void *arg_p, void *dst_p, uintptr_t src, size_t size)
{
    (void)arg_p; (void)dst_p; (void)src; (void)size;

    return (0);
}

static int w_mem_write(void *arg_p, uintptr_t dst, void *src_p, size_t size)
{
    (void)arg_p; (void)dst; (void)src_p; (void)size;

    return (0);
}

static int w_mem_erase(void *arg_p, uintptr_t addr, size_t size)
{
    (void)arg_p; (void)addr; (void)size;

    return (0);
}

static int w_step_set(void *arg_p, int step)
{
    (void)arg_p; (void)step;

    return (0);
}

static int w_step_get(void *arg_p, int *step_p)
{
    (void)arg_p; (void)step_p;

    return (0);
}

#else

static int w_from_read(void *arg_p, uint8_t *buf_p, size_t size);
static int w_from_seek(void *arg_p, int offset);
static int w_to_write(void *arg_p, const uint8_t *buf_p, size_t size);

static void check_apply(struct APPLY *self_p)
{
    sa_check(self_p->from_read == w_from_read
             && self_p->from_seek == w_from_seek
             && self_p->to_write == w_to_write
             && self_p->arg_p == (void *)&w,
             "the application uses the callbacks given");
    sa_check(self_p->patch_size == w.size,
             "the application is given the size of the patch");
}

int sa_stub_detools_apply_patch_process(struct APPLY *self_p,
                                        const uint8_t *patch_p,
                                        size_t size)
{
    return (stub_process(self_p, patch_p, size));
}

int sa_stub_detools_apply_patch_finalize(struct APPLY *self_p)
{
    return (stub_finalize(self_p));
}

static int w_from_read(void *arg_p, uint8_t *buf_p, size_t size)
{
    (void)arg_p; (void)buf_p; (void)size;

    return (0);
}

static int w_from_seek(void *arg_p, int offset)
{
    (void)arg_p; (void)offset;

    return (0);
}

static int w_to_write(void *arg_p, const uint8_t *buf_p, size_t size)
{
    (void)arg_p; (void)buf_p; (void)size;

    return (0);
}

#endif

int entry(void)
{
    int res;

    sa_control(&w.failed);
    sa_control(&w.finalized);
    w.size = sa_size();
    target = sa_size();
    patch_byte = (int)sa_range(0, 255);

#ifdef INPLACE
    res = detools_apply_patch_in_place_callbacks(w_mem_read, w_mem_write,
                                                 w_mem_erase, w_step_set,
                                                 w_step_get, w_patch_read,
                                                 w.size, &w);
#else
    res = detools_apply_patch_callbacks(w_from_read, w_from_seek,
                                        w_patch_read, w.size, w_to_write, &w);
#endif

    sa_check(w.finalized, "the application is finalized");

    if (w.failed) {
        sa_check(res < 0, "failures are reported");
    } else {
        sa_check(res == w.result, "the result of finalizing is returned");
    }

    return (res);
}
