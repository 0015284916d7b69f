/*
 * Shared by every specification unit. Three modes:
 *   VF_PROOF    contracts are enforced by goto-instrument/cbmc, no bound;
 *   VF_BOUNDED  the fallback: plain harness, loops unwound up to a bound;
 *   VF_NATIVE   the bounded harness compiled by clang with sanitizers, fed with
 *               the values of a counterexample (or with a random stream) in
 *               order to replay a violation on the compiled code.
 */
#ifndef VF_H
#define VF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#ifdef VF_PROOF
#define VF_CONTRACT(...) __VA_ARGS__
#else
#define VF_CONTRACT(...)
#endif

#ifdef VF_NATIVE
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
void vf_fail(const char *, const char *, int) __attribute__((noreturn));
void vf_skip(void) __attribute__((noreturn));
unsigned long long vf_next(void);
int vf_random(void);
#define VF_ASSERT(c, m) do { if (!(c)) vf_fail((m), __FILE__, __LINE__); } while (0)
#define VF_ASSUME(c) do { if (!(c)) vf_skip(); } while (0)
#define VF_REACH(m) do { } while (0)
static inline unsigned long long nd(void) { return vf_next(); }
#define __CPROVER_r_ok(p, n) 1
#define __CPROVER_w_ok(p, n) 1
#define __CPROVER_assert(c, m) VF_ASSERT(c, m)
#define __CPROVER_assume(c) VF_ASSUME(c)
#else
#include <stdlib.h>
#define VF_ASSERT(c, m) __CPROVER_assert((c), "VF: " m)
#define VF_ASSUME(c) __CPROVER_assume(c)
#ifdef VF_PROOF
#define VF_REACH(m) __CPROVER_assert(0, "VF-REACH: " m)
#else
#define VF_REACH(m) ((void)0)
#endif
unsigned long long nondet_vf_ull(void);
#ifdef VF_BOUNDED
#ifndef VF_MAXREC
#define VF_MAXREC 256
#endif
unsigned long long vf_rec[VF_MAXREC];
unsigned int vf_nrec;
static inline unsigned long long
nd(void)
{
	unsigned long long v = nondet_vf_ull();

	vf_rec[vf_nrec] = v;
	vf_nrec++;
	return v;
}
#else
static inline unsigned long long nd(void) { return nondet_vf_ull(); }
#endif
#endif

#define nd_int() ((int)nd())
#define nd_bool() ((nd() & 1) != 0)
#define nd_char() ((char)nd())
#define nd_size() ((size_t)nd())

/* Size bound of the fallback harness. */
#ifndef VF_N
#define VF_N 5
#endif

/* A size within 0..max. */
static inline size_t
nd_upto(size_t max)
{
	size_t n;
#ifdef VF_NATIVE
	if (vf_random())
		return (size_t)(nd() % (max + 1));
#endif
	n = nd_size();
	VF_ASSUME(n <= max);
	return n;
}

/* A character of the given alphabet, or sometimes any. */
static inline char
nd_alpha(const char *alphabet)
{
#ifdef VF_NATIVE
	if (vf_random()) {
		size_t n = strlen(alphabet);

		if (nd() % 16 != 0)
			return alphabet[nd() % n];
		return (char)nd();
	}
#endif
	(void)alphabet;
	return nd_char();
}

/*
 * Stubs of system calls fail with any errno.
 */
#include <errno.h>
int vf_errno;
#ifndef VF_REAL_ERRNO
#undef errno
#define errno vf_errno
#endif
static inline int
vf_fails(void)
{
#ifdef VF_NATIVE
	static const int v[] = { EINTR, EAGAIN, EIO, ENOENT, EPERM, ENOSPC,
	    EACCES, EINVAL };

	if (vf_random()) {
		vf_errno = v[nd() % (sizeof(v) / sizeof(v[0]))];
		return -1;
	}
#endif
	vf_errno = nd_int();
	VF_ASSUME(vf_errno > 0 && vf_errno < 134);
	return -1;
}

#ifdef VF_BMAIN
void VF_BMAIN(void);
static void
vf_bmain(void)
{
	VF_BMAIN();
#ifdef VF_BEND
	__CPROVER_assert(0, "VF-END");
#endif
}
#endif

#ifdef VF_PROOF
#define PEQ(a, b) __CPROVER_pointer_equals((a), (b))
#else
#define PEQ(a, b) ((a) == (b))
#endif

/*
 * goto-instrument --dfcc appends a parameter to every function, which variadic
 * stubs cannot tell from their own arguments: give them a fixed arity.
 */
#define VF_FIRST1(a, ...) (a)
#define VF_FIRST2(a, b, ...) (a), (b)
#define VF_FIRST3(a, b, c, ...) (a), (b), (c)
#define VF_FIRST9(a, b, c, d, e, f, g, h, i, ...) \
	(a), (b), (c), (d), (e), (f), (g), (h), (i)

#ifdef VF_BOUNDED
/* Not modelled by cbmc. */
void *
memchr(const void *s, int c, size_t n)
{
	const unsigned char *p = s;
	size_t i;

	for (i = 0; i < n; i++) {
		if (p[i] == (unsigned char)c)
			return (void *)&p[i];
	}
	return NULL;
}
#endif

#define VF_IMPLIES(a, b) (!(a) || (b))

#endif
