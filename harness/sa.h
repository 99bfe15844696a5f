/* Intrinsics of the static analyser.  The harness is never executed: it is
 * compiled to LLVM IR together with the sources of /repo and interpreted
 * abstractly (sa/interp.py). */
#ifndef SA_H
#define SA_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

/* Any value of the type. */
extern int sa_int(void);
extern size_t sa_size(void);
/* Any value in [lo, hi]. */
extern long sa_range(long lo, long hi);
/* A read only object of exactly size bytes with any contents. */
extern const uint8_t *sa_input(size_t size);

/* Array of integers from 0 to given largest one. */
extern int32_t *sa_ints(size_t count, long largest);
/* The object is gone (its contents must not be read any more). */
extern void sa_release(const void *p);
/* The outside world writes any bytes to / reads [p, p + size). */
extern void sa_fill(void *p, size_t size);
/* The contents of [p, p + size) must not be read before written. */
extern void sa_forget(void *p, size_t size);
extern void sa_use(const void *p, size_t size);
/* Obligation: cond holds whenever this is reached. */
extern void sa_check(int cond, const char *rule);
extern void sa_assume(int cond);
/* Never reached. */
extern void sa_stop(void);
/* Forces the analysis to keep values of the variable apart. */
extern void sa_control(const void *p);
/* Never keep values of the variable apart. */
extern void sa_plain(const void *p);
/* From now on the outermost loop entered uses the invariant of the harness:
 * sa_inv_check() is an obligation at its entry and after each iteration, and
 * sa_inv_havoc() produces any state in which the invariant holds. */
extern void sa_cut(int on);
void sa_inv_check(void);
void sa_inv_havoc(void);
/* Size of the object p points to (0 for NULL). */
extern size_t sa_objsize(const void *p);
/* An allocated object of the size, with any contents. */
extern void *sa_heap(size_t size);
/* An object of the size with uninitialised contents. */
extern void *sa_uninit(size_t size);
/* As sa_fill, with the contents coming from the named source. */
extern void sa_fill_from(void *p, size_t size, const char *source);
/* From now on the byte p points to is watched: its value is kept track of
 * also when p, or where it is copied to, is not a constant. */
extern void sa_watch(const void *p, int value);
/* Keep relations of three values, too. */
extern void sa_rich(void);

/* Local variables that look like status codes do not tell states apart. */
extern void sa_no_status(void);
/* Whether [p, p + size) is within the object of base. */
extern int sa_within(const void *p, size_t size, const void *base);
/* Decoders of liblzma. */
extern int sa_lzma_open(const void *stream);
extern void sa_lzma_havoc(void *stream);
/* Obligation: no allocated memory and no open decoder is left. */
extern void sa_released(void);
extern int sa_same(const void *a, const void *b);
#endif
