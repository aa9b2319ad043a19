/*
 * vp.h - the one header every harness and every verified source is compiled with (-include).
 *
 * The same harness text is used in two ways:
 *   - by CBMC (-DVP_CBMC): inputs are nondeterministic, VP_REQUIRE is an
 *     assumption, VP_ENSURE is a proof obligation;
 *   - natively (gcc + ASan + UBSan), only to replay a CBMC counterexample on the real code: inputs come from
 *     a file (or, when searching for a failing input for an obligation that did not verify, from a PRNG).
 */
#ifndef VP_H_
#define VP_H_

#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

uint64_t vp_input(uint64_t lo, uint64_t hi, const char *tag);
void *vp_got(void *p);
void *vp_malloc(size_t n);
void *vp_calloc(size_t n, size_t m);
void *vp_realloc(void *p, size_t n);
void vp_free(void *p);
char *vp_strdup(const char *s);
void vp_exit(int rc) __attribute__((noreturn));

extern bool vp_oom; /* when set, every allocation may fail (input driven) */
extern int vp_oom_at, vp_oom_n; /* when vp_oom_at is k > 0, the k-th allocation from now on (vp_oom_n counts them) fails */
extern long vp_live; /* allocations not yet freed */

#define vp_range(lo, hi) vp_input((uint64_t)(lo), (uint64_t)(hi), "range")
/* a choice the driver splits into separate CBMC runs (one per value): concrete for CBMC, an input natively */
uint64_t vp_choice(uint64_t lo, uint64_t hi);
#define vp_bool() ((bool)vp_input(0, 1, "bool"))
#define vp_u8() ((uint8_t)vp_input(0, 255, "u8"))
#define vp_u64() vp_input(0, UINT64_MAX, "u64")
#define vp_i64() ((int64_t)vp_input(0, UINT64_MAX, "i64"))
#define vp_int() ((int)(uint32_t)vp_input(0, UINT32_MAX, "int"))

#ifdef VP_CBMC
#define VP_REQUIRE(c) __CPROVER_assume(c)
#define VP_ENSURE(c, name) __CPROVER_assert(c, "VP " name)
#define VP_COVER(name) __CPROVER_assert(0, "VPCOVER " name)
#else
void vp_discard(void) __attribute__((noreturn));
void vp_fail(const char *name, const char *file, int line) __attribute__((noreturn));
void vp_cover(const char *name);
#define VP_REQUIRE(c) do { if (!(c)) vp_discard(); } while (0)
#define VP_ENSURE(c, name) do { if (!(c)) vp_fail(name, __FILE__, __LINE__); } while (0)
#define VP_COVER(name) vp_cover(name)
#define __CPROVER_requires(...)
#define __CPROVER_ensures(...)
#define __CPROVER_assigns(...)
#define __CPROVER_frees(...)
#endif

#ifndef VP_IMPL
#ifdef VP_CBMC
/* the call to malloc stays at its own place: CBMC types the new object from the sizeof in the argument */
#define malloc(n) vp_got(malloc(n))
#define calloc(n, m) vp_got(calloc(n, m))
#else
#define malloc(n) vp_malloc(n)
#define calloc(n, m) vp_calloc(n, m)
#endif
#define realloc(p, n) vp_realloc(p, n)
#define free(p) vp_free(p)
#define strdup(s) vp_strdup(s)
#define exit(rc) vp_exit(rc)
#endif

#endif
