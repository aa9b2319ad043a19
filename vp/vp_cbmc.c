/* CBMC side of vp.h */
#ifndef VP_IMPL
#define VP_IMPL
#endif
#include "vp.h"

uint64_t vp_in_value; /* assignments to this variable, in trace order, are the counterexample's inputs */
bool vp_oom;
int vp_oom_at, vp_oom_n;
long vp_live;
bool __vp_failure_expected;

uint64_t nondet_vp_u64(void);

uint64_t vp_input(uint64_t lo, uint64_t hi, const char *tag)
{
	uint64_t v = nondet_vp_u64();
	__CPROVER_assume(v >= lo && v <= hi);
	vp_in_value = v;
	return v;
}

#ifdef VP_FIX
static const uint64_t vp_fix[] = { VP_FIX };
static unsigned vp_fix_n;
#endif

uint64_t vp_choice(uint64_t lo, uint64_t hi)
{
#ifdef VP_FIX
	if (vp_fix_n < sizeof(vp_fix) / sizeof(vp_fix[0])) {
		uint64_t v = vp_fix[vp_fix_n++];
		__CPROVER_assume(v >= lo && v <= hi);
		vp_in_value = v;
		return v;
	}
#endif
	return vp_input(lo, hi, "choice");
}

/* every allocation passes through here; under vp_oom any of them may be refused */
void *vp_got(void *p)
{
	if (vp_oom_at && ++vp_oom_n == vp_oom_at)
		return NULL;
	if (vp_oom && vp_input(0, 1, "oom"))
		return NULL;
	vp_live++;
	return p;
}

void *vp_realloc(void *p, size_t n)
{
	if (vp_oom_at && ++vp_oom_n == vp_oom_at)
		return NULL;
	if (vp_oom && vp_input(0, 1, "oom"))
		return NULL;
	if (!p)
		vp_live++;
	return realloc(p, n);
}

void vp_free(void *p)
{
	if (p)
		vp_live--;
	free(p);
}

void vp_exit(int rc)
{
	__CPROVER_assert(0, "VP the code stops itself (BUG_ON / exit) on a legal input");
	__CPROVER_assume(0);
}

int fprintf(FILE *f, const char *fmt, ...) { return 0; }
int vfprintf(FILE *f, const char *fmt, va_list ap) { return 0; }
int printf(const char *fmt, ...) { return 0; }
void perror(const char *s) { }

#ifdef VP_BYTE_MEM
/* short moves byte by byte (CBMC's own model forgets which bytes are known); long ones as CBMC models them */
void *memmove(void *d, const void *s, size_t n)
{
	__CPROVER_precondition(__CPROVER_r_ok(s, n), "memmove source region readable");
	__CPROVER_precondition(__CPROVER_w_ok(d, n), "memmove destination region writeable");
	if (n > VP_BYTE_MEM) {
		char src_n[n];
		__CPROVER_array_copy(src_n, (char*)s);
		__CPROVER_array_replace((char*)d, src_n);
	} else if (!__CPROVER_same_object(d, s) || (const char*)d < (const char*)s) {
		for (size_t i = 0; i < n; i++)
			((char*)d)[i] = ((const char*)s)[i];
	} else {
		for (size_t i = n; i > 0; i--)
			((char*)d)[i - 1] = ((const char*)s)[i - 1];
	}
	return d;
}
#endif
