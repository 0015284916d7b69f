/*@ {
 'inst': ['libks/arena.c'],
 'loops': {'libks/arena.c': {
   'arena_scope_leave': ['''__CPROVER_assigns(ac, g.ncleanup, vf_cnode)
     __CPROVER_loop_invariant(g.ncleanup <= g0.ncleanup && ac == CNAME(g.ncleanup))
     __CPROVER_decreases(g0.ncleanup - g.ncleanup)
     @ghost VF_GHOST(ac = vf_cleanup_node();)''',
     '''__CPROVER_assigns(a->frame, a->stats, g.nfreed, vf_cur, vf_fnode)
     __CPROVER_loop_invariant(g.nfreed <= g0.nframes && (g0.last || g.nfreed <= g0.keep))
     __CPROVER_loop_invariant(a->frame == FNAME(g.nfreed))
     __CPROVER_decreases(g0.nframes - g.nfreed)
     @ghost VF_GHOST(a->frame = vf_frame_node();)
     @after VF_GHOST(a->frame = vf_frame_left(a->frame);)'''],
   'arena_scope_validate': ['''__CPROVER_assigns(i, scope_location)
     __CPROVER_loop_invariant(i <= a->refs)
     __CPROVER_decreases(i)'''],
   'arena_malloc': ['''__CPROVER_assigns(frame_size)
     __CPROVER_loop_invariant(frame_size >= a->frame_size && frame_size % 8 == 0 && (frame_size == a->frame_size || frame_size / 2 <= total_size))
     __CPROVER_decreases(~(size_t)0 - frame_size)'''],
 }},
 'assumes': [
   'malloc(3) and calloc(3) return distinct blocks or fail; err and errx do not return',
   'built without AddressSanitizer: no poison bytes between allocations',
   'memcpy, memset, strlen, vsnprintf: contracts written out as stubs in specs/arena.c',
   'frames of an arena form a finite list of distinct blocks, likewise the cleanups of a scope: nodes of both lists are materialised one by one while the loops visit them',
   'an arena is not used by anything but its functions; frames smaller than 2^40 bytes',
 ],
 'proofs': [
  {'name': 'push', 'fn': 'arena_push', 'harness': 'h_push', 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'alloc', 'fn': 'arena_alloc', 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'malloc', 'fn': 'arena_malloc', 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'calloc', 'fn': 'arena_calloc', 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'realloc_null', 'fn': 'arena_realloc', 'harness': 'h_realloc', 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'realloc_cur', 'fn': 'arena_realloc', 'harness': 'h_realloc', 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'realloc_old', 'fn': 'arena_realloc', 'harness': 'h_realloc', 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'strndup', 'fn': 'arena_strndup', 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'sprintf', 'fn': 'arena_sprintf', 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'cleanup', 'fn': 'arena_cleanup', 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'enter', 'fn': 'arena_scope_enter_impl', 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'leave', 'fn': 'arena_scope_leave', 'rfp': ['arena_scope_leave.function_pointer_call.1/vf_cleanup_fn'], 'bounded': 'b_arena', 'nobmc': True},
  {'name': 'validate', 'fn': 'arena_scope_validate', 'bounded': 'b_arena', 'nobmc': True},
 ],
} @*/
/*
 * The arena. A frame is a block handed out from the front to the back; the
 * allocations alive lie below its length. Hence an allocation is disjoint from
 * every other one iff it begins at or after the former length and ends before
 * the new one, and stays intact as long as the length is not lowered below its
 * end, the frame is not freed and nothing writes below the length: all of them
 * postconditions and frame conditions of the functions below.
 */
#include "vf.h"

#include <err.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "libks/arena.h"
#include "libks/arithmetic.h"
#include "libks/compiler.h"

#define MAXLEN ((size_t)1 << 40)
#undef __SANITIZE_ADDRESS__
#ifdef __has_feature
#undef __has_feature
#define __has_feature(x) 0
#endif
#undef HAVE_ASAN

struct ghost {
	size_t ncleanup;	/* cleanups executed */
	size_t nfreed;		/* frames freed */
	int afreed;		/* arena freed */
	int exhausted;		/* malloc failed */
};
struct ghost g;

struct ghost0 {
	size_t k;		/* arbitrary byte */
	char val;
	size_t fsize;		/* size of the current frame */
	size_t off;		/* offset of the allocation within */
	size_t ncleanup;	/* number of cleanups */
	size_t nframes;		/* number of frames */
	size_t keep;		/* frames newer than the scope */
	int last;		/* no other scope is left */
	void *kept;		/* frame of the scope */
	void *arena;
	char *names;		/* what nodes are named after */
	int fmtlen;
	size_t nmemb, size, total;	/* product of calloc */
};
struct ghost0 g0;

struct arena_frame;
struct arena_cleanup;

#ifdef VF_PROOF
#define VF_GHOST(...) __VA_ARGS__
/* Names of the nodes not materialised. */
#define CNAME(i) ((i) == g0.ncleanup ? NULL : (struct arena_cleanup *)(g0.names + (i)))
#define FNAME(i) ((i) == g0.nframes ? NULL : (i) == g0.keep ? (struct arena_frame *)g0.kept : \
    (struct arena_frame *)(g0.names + (i)))
static struct arena_cleanup *vf_cleanup_node(void);
static struct arena_frame *vf_frame_node(void);
static struct arena_frame *vf_frame_left(struct arena_frame *);
static void *vf_cur;
extern struct arena_cleanup vf_cnode;
extern struct arena_frame vf_fnode;

static void vf_scramble(void);

static void *
vf_malloc(size_t siz)
{
	void *p;

	if (nd_bool() || siz > MAXLEN) {
#ifdef P_malloc
		g.exhausted = 1;
#endif
		return NULL;
	}
	p = malloc(siz);
	VF_ASSUME(p != NULL);
	return p;
}

static void *
vf_calloc(size_t n, size_t siz)
{
	void *p;

	VF_ASSERT(n == 1, "calloc");
	if (nd_bool())
		return NULL;
	p = calloc(1, siz);
	VF_ASSUME(p != NULL);
	return p;
}

static void
vf_free(void *p)
{
	if (p == g0.arena) {
		VF_ASSERT(!g.afreed, "the arena is freed once");
		g.afreed = 1;
		return;
	}
	VF_ASSERT(!g.afreed, "frames are freed in front of the arena");
	VF_ASSERT(p == vf_cur && vf_cur != NULL, "frames are freed one by one");
	VF_ASSERT(g0.last || g.nfreed < g0.keep, "frames of the enclosing scope are kept");
	VF_ASSERT(g.ncleanup == g0.ncleanup, "cleanups are executed before any frame is freed");
	g.nfreed++;
	vf_cur = NULL;
	vf_scramble();
}

static void *
vf_memcpy(void *d, const void *s, size_t n)
{
	VF_ASSERT(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "memcpy operands");
	__CPROVER_havoc_slice(d, n);
	if (g0.k < n)
		VF_ASSUME(((char *)d)[g0.k] == ((const char *)s)[g0.k]);
	return d;
}

static void *
vf_memset(void *d, int c, size_t n)
{
	VF_ASSERT(__CPROVER_w_ok(d, n), "memset operand");
	__CPROVER_havoc_slice(d, n);
	if (g0.k < n)
		VF_ASSUME(((char *)d)[g0.k] == (char)c);
	return d;
}

static int
vf_vsnprintf(char *s, size_t n)
{
	if (nd_bool())
		return -1;
	if (n > 0) {
		size_t len = (size_t)g0.fmtlen < n ? (size_t)g0.fmtlen : n - 1;

		VF_ASSERT(__CPROVER_w_ok(s, len + 1), "vsnprintf operand");
		__CPROVER_havoc_slice(s, len + 1);
		if (g0.k < len)
			VF_ASSUME(s[g0.k] == g0.val);
		s[len] = '\0';
	}
	return g0.fmtlen;
}

static int vf_noprintf(void) { return 0; }
#define malloc vf_malloc
#define calloc vf_calloc
#define free vf_free
#define memcpy vf_memcpy
#define memset vf_memset
#define vsnprintf(a, b, c, d) vf_vsnprintf((a), (b))
#define fprintf(...) vf_noprintf()
#ifdef P_calloc
/* The product is arithmetic.c's matter (C06). */
static int
vf_mul(size_t a, size_t b, size_t *c)
{
	if (a == 2)
		return __builtin_mul_overflow((size_t)2, b, c) ? 1 : 0;
	VF_ASSERT(a == g0.nmemb && b == g0.size, "number and size of elements are multiplied");
	*c = g0.total;
	return nd_bool();
}
#define KS_size_mul_overflow vf_mul
#endif
#define sysconf(x) 4096L
#define __builtin_trap() __CPROVER_assume(0)
#undef err
#undef errx
static void
vf_err(void)
{
#ifdef P_malloc
	VF_ASSERT(g.exhausted, "the process ends only if memory is exhausted");
#endif
	__CPROVER_assume(0);
}

static void
vf_errx(void)
{
#ifdef P_malloc
	VF_ASSERT(g0.size > ~(size_t)0 / 4, "the process ends only if the size cannot be represented");
#endif
	__CPROVER_assume(0);
}
#define err(...) vf_err()
#define errx(...) vf_errx()
#else
#define VF_GHOST(...)
/* Small frames, such that they run full. */
static size_t vf_pagesize = 16;
#define sysconf(x) ((long)vf_pagesize)
static size_t vf_live;

static void *
vf_xcalloc(size_t n, size_t siz)
{
	vf_live++;
	return calloc(n, siz);
}

static void *
vf_xmalloc(size_t siz)
{
	char *p = malloc(siz);

	if (p == NULL)
		abort();
	memset(p, 0x5a, siz);
	vf_live++;
	return p;
}

static void
vf_xfree(void *p)
{
	vf_live--;
	free(p);
}
#define malloc vf_xmalloc
#define calloc vf_xcalloc
#define free vf_xfree
#define err(...) VF_ASSERT(0, "the process ends only if memory is exhausted")
#define errx(...) VF_ASSERT(0, "the process ends only if the size cannot be represented")
#endif

#include "SRC/libks/arena.c"

#ifdef VF_PROOF
#undef malloc
#undef calloc
#undef free
#define R __CPROVER_return_value
#define OLD __CPROVER_old

struct arena_cleanup vf_cnode;
struct arena_frame vf_fnode;

static void
vf_scramble(void)
{
	vf_fnode.next = nd_bool() ? NULL : (struct arena_frame *)(g0.names + MAXLEN);
	vf_fnode.size = nd_size();
}

static void
vf_cleanup_fn(void *ptr)
{
	VF_ASSERT(ptr == (void *)(g.ncleanup + 1), "cleanups are executed last to first, once each, with their argument");
	g.ncleanup++;
}

static struct arena_cleanup *
vf_cleanup_node(void)
{
	struct arena_cleanup *ac = &vf_cnode;

	ac->fun = vf_cleanup_fn;
	ac->ptr = (void *)(g.ncleanup + 1);
	ac->next = CNAME(g.ncleanup + 1);
	return ac;
}

static struct arena_frame *
vf_frame_node(void)
{
	struct arena_frame *f = &vf_fnode;

	f->size = nd_size();
	f->next = FNAME(g.nfreed + 1);
	vf_cur = f;
	return f;
}

static struct arena_frame *
vf_frame_left(struct arena_frame *f)
{
	VF_ASSERT(f == NULL || f == g0.kept, "frames newer than the scope are freed");
	return f == NULL ? NULL : g0.kept;
}

/* The invariant of an arena, along with its current frame. */
#define FRAME(f) ((f)->size == g0.fsize && (f)->size % 8 == 0 && \
    (f)->len >= sizeof(struct arena_frame) && (f)->len <= (f)->size && (f)->len % 8 == 0)
#define ARENA(a) (__CPROVER_is_fresh((a), sizeof(struct arena)) && \
    (a)->frame_size >= 4096 && (a)->frame_size <= MAXLEN && (a)->frame_size % 8 == 0 && \
    (a)->poison_size == 0 && (a)->refs >= 1 && (a)->refs < INT32_MAX && \
    g0.fsize >= sizeof(struct arena_frame) && g0.fsize <= MAXLEN && \
    __CPROVER_is_fresh((a)->frame, g0.fsize) && PEQ((a)->frame->ptr, (char *)(a)->frame) && \
    FRAME((a)->frame))
#define SCOPE(s) (__CPROVER_is_fresh((s), sizeof(struct arena_scope)) && ARENA((s)->arena) && \
    (s)->id == (s)->arena->refs)

#ifdef P_push
static void *arena_push(struct arena *a, struct arena_frame *frame, size_t size)
__CPROVER_requires(__CPROVER_is_fresh(a, sizeof(struct arena)) && a->poison_size == 0)
__CPROVER_requires(__CPROVER_is_fresh(frame, sizeof(struct arena_frame)))
__CPROVER_requires(frame->size <= MAXLEN && frame->size % 8 == 0)
__CPROVER_requires(frame->len <= frame->size && frame->len % 8 == 0)
__CPROVER_requires(__CPROVER_is_fresh(frame->ptr, frame->size))
__CPROVER_assigns(frame->len, a->stats, errno)
__CPROVER_ensures((R != NULL) == (size <= frame->size - OLD(frame->len)))
__CPROVER_ensures(R == NULL || (char *)R == frame->ptr + OLD(frame->len))
__CPROVER_ensures(R != NULL || frame->len == OLD(frame->len))
__CPROVER_ensures(R == NULL || (frame->len >= OLD(frame->len) + size && frame->len - (OLD(frame->len) + size) < 8))
__CPROVER_ensures(frame->len <= frame->size && frame->len % 8 == 0)
;

static void
h_push(void)
{
	struct arena *a;
	struct arena_frame *f;
	size_t size;
	void *p;

	p = arena_push(a, f, size);
	if (p == NULL)
		VF_REACH("no space left");
	else
		VF_REACH("allocated");
}
#endif

#ifdef P_alloc
struct arena *arena_alloc(void)
__CPROVER_assigns(errno)
__CPROVER_ensures(R != NULL && R->refs == 1 && R->poison_size == 0)
__CPROVER_ensures(R->frame_size >= 4096 && R->frame_size % 8 == 0)
__CPROVER_ensures(R->frame->size == R->frame_size && R->frame->len == sizeof(struct arena_frame))
__CPROVER_ensures(R->frame->ptr == (char *)R->frame && R->frame->next == NULL)
__CPROVER_ensures(__CPROVER_OBJECT_SIZE(R->frame) == R->frame->size)
;

static void
h_alloc(void)
{
	arena_alloc();
	VF_REACH("allocated");
}
#endif

/* A block of len bytes, above everything allocated before. */
#define BLOCK(a, p, len_) ((p) != NULL && \
    __CPROVER_same_object((p), (a)->frame) && __CPROVER_OBJECT_SIZE((a)->frame) == (a)->frame->size && \
    __CPROVER_POINTER_OFFSET(p) % 8 == 0 && \
    (a)->frame->ptr == (char *)(a)->frame && \
    __CPROVER_POINTER_OFFSET(p) >= sizeof(struct arena_frame) && \
    (len_) <= (a)->frame->len && __CPROVER_POINTER_OFFSET(p) <= (a)->frame->len - (len_) && \
    (a)->frame->len <= (a)->frame->size && (a)->frame->len % 8 == 0 && (a)->frame->size % 8 == 0 && \
    ((a)->frame == OLD((a)->frame) ? \
     (char *)(p) == (a)->frame->ptr + OLD((a)->frame->len) : \
     ((a)->frame->next == OLD((a)->frame) && OLD((a)->frame)->len == OLD((a)->frame->len))))
#define KEPT(a) (OLD((a)->frame)->ptr == (char *)OLD((a)->frame) && \
    OLD((a)->frame)->size == g0.fsize && OLD((a)->frame)->next == OLD((a)->frame->next) && \
    OLD((a)->frame)->len >= OLD((a)->frame->len) && \
    (a)->refs == OLD((a)->refs) && (a)->frame_size == OLD((a)->frame_size) && (a)->poison_size == 0)
#define ALLOCATES(s) (s)->arena->frame, (s)->arena->frame->len, (s)->arena->stats, errno
/* The memory above the length is not in use. */
#define UNUSED_BYTES(s) __CPROVER_object_from((s)->arena->frame->ptr + (s)->arena->frame->len)

#ifdef P_malloc
void *arena_malloc(struct arena_scope *s, size_t size)
__CPROVER_requires(SCOPE(s) && size == g0.size && !g.exhausted)
__CPROVER_assigns(ALLOCATES(s), g.exhausted)
__CPROVER_ensures(BLOCK(s->arena, R, size))
__CPROVER_ensures(KEPT(s->arena))
;

static void
h_malloc(void)
{
	struct arena_scope *s;
	size_t size;

	arena_malloc(s, size);
	VF_REACH("allocated");
}
#endif

#ifdef P_calloc
void *arena_calloc(struct arena_scope *s, size_t nmemb, size_t size)
__CPROVER_requires(nmemb == g0.nmemb && size == g0.size && (nmemb != 2 || g0.total == 2 * size))
__CPROVER_requires(SCOPE(s))
__CPROVER_assigns(ALLOCATES(s), UNUSED_BYTES(s))
__CPROVER_ensures(BLOCK(s->arena, R, g0.total))
__CPROVER_ensures(g0.k >= g0.total || ((char *)R)[g0.k] == 0)
__CPROVER_ensures(KEPT(s->arena))
;

static void
h_calloc(void)
{
	struct arena_scope *s;
	size_t nmemb, size;

	arena_calloc(s, nmemb, size);
	VF_REACH("allocated");
}
#endif

#if defined(P_realloc_null) || defined(P_realloc_cur) || defined(P_realloc_old)
#define ROUND8(x) (((x) + 7) & ~(size_t)7)
void *arena_realloc(struct arena_scope *s, void *ptr, size_t old_size, size_t new_size)
__CPROVER_requires(SCOPE(s))
#if defined(P_realloc_null)
__CPROVER_requires(ptr == NULL && old_size == 0)
#elif defined(P_realloc_cur)
__CPROVER_requires(g0.off % 8 == 0 && g0.off >= sizeof(struct arena_frame) && g0.off <= g0.fsize)
__CPROVER_requires(old_size <= s->arena->frame->len && g0.off <= s->arena->frame->len - old_size)
__CPROVER_requires(PEQ((char *)ptr, s->arena->frame->ptr + g0.off))
__CPROVER_requires(g0.k >= old_size || ((char *)ptr)[g0.k] == g0.val)
#else
__CPROVER_requires(old_size <= MAXLEN && old_size > 0 && __CPROVER_is_fresh(ptr, old_size))
__CPROVER_requires(g0.k >= old_size || ((char *)ptr)[g0.k] == g0.val)
#endif
__CPROVER_assigns(ALLOCATES(s), UNUSED_BYTES(s), *s->arena->frame)
__CPROVER_ensures(R == ptr || BLOCK(s->arena, R, new_size))
__CPROVER_ensures(R != ptr || new_size <= old_size ||
    /* Grown in place: no other allocation follows. */
    (R != NULL && ROUND8(g0.off + old_size) == OLD(s->arena->frame->len) &&
     s->arena->frame == OLD(s->arena->frame) &&
     g0.off + new_size <= s->arena->frame->len && s->arena->frame->len <= s->arena->frame->size))
__CPROVER_ensures(R == NULL || g0.k >= old_size || g0.k >= new_size || ((char *)R)[g0.k] == g0.val)
__CPROVER_ensures(s->arena->frame->len % 8 == 0)
__CPROVER_ensures(KEPT(s->arena))
;

static void
h_realloc(void)
{
	struct arena_scope *s;
	void *ptr;
	size_t old_size, new_size;
	void *p;

	p = arena_realloc(s, ptr, old_size, new_size);
	if (p == ptr) {
#ifndef P_realloc_null
		VF_REACH("in place");
#endif
	} else {
		VF_REACH("moved");
	}
}
#endif

#ifdef P_strndup
char *arena_strndup(struct arena_scope *s, const char *src, size_t len)
__CPROVER_requires(len <= MAXLEN && __CPROVER_is_fresh(src, len))
__CPROVER_requires(SCOPE(s))
__CPROVER_assigns(ALLOCATES(s), UNUSED_BYTES(s))
__CPROVER_ensures(BLOCK(s->arena, R, len + 1))
__CPROVER_ensures(R[len] == '\0' && (g0.k >= len || R[g0.k] == src[g0.k]))
__CPROVER_ensures(KEPT(s->arena))
;

static void
h_strndup(void)
{
	struct arena_scope *s;
	const char *src;
	size_t len;

	arena_strndup(s, src, len);
	VF_REACH("copied");
}
#endif

#ifdef P_sprintf
char *arena_sprintf(struct arena_scope *s, const char *fmt, ...)
__CPROVER_requires(g0.fmtlen >= 0 && g0.fmtlen < INT32_MAX)
__CPROVER_requires(SCOPE(s))
__CPROVER_assigns(ALLOCATES(s), UNUSED_BYTES(s))
__CPROVER_ensures(BLOCK(s->arena, R, (size_t)g0.fmtlen + 1))
__CPROVER_ensures(R[g0.fmtlen] == '\0' && (g0.k >= (size_t)g0.fmtlen || R[g0.k] == g0.val))
__CPROVER_ensures(KEPT(s->arena))
;

static void
h_sprintf(void)
{
	struct arena_scope *s;

	arena_sprintf(s, "");
	VF_REACH("formatted");
}
#endif

#ifdef P_cleanup
void arena_cleanup(struct arena_scope *s, void (*fun)(void *), void *ptr)
__CPROVER_requires(SCOPE(s))
__CPROVER_assigns(ALLOCATES(s), UNUSED_BYTES(s), s->cleanup)
__CPROVER_ensures(BLOCK(s->arena, s->cleanup, sizeof(struct arena_cleanup)))
__CPROVER_ensures(s->cleanup->next == OLD(s->cleanup))
__CPROVER_ensures(s->cleanup->fun == fun && s->cleanup->ptr == ptr)
__CPROVER_ensures(KEPT(s->arena))
;

static void
h_cleanup(void)
{
	struct arena_scope *s;
	void (*fun)(void *) = vf_cleanup_fn;
	void *ptr = nd_bool() ? NULL : &g;

	arena_cleanup(s, fun, ptr);
	VF_REACH("registered");
}
#endif

#ifdef P_enter
struct arena_scope arena_scope_enter_impl(struct arena *a, const char *fun, int lno)
__CPROVER_requires(ARENA(a))
__CPROVER_assigns(a->scope_locations, a->refs, a->stats)
__CPROVER_ensures(R.arena == a && R.frame == a->frame && R.frame_len == a->frame->len)
__CPROVER_ensures(R.cleanup == NULL)
__CPROVER_ensures(a->refs == OLD(a->refs) + 1 && R.id == a->refs)
__CPROVER_ensures(R.scopes == OLD(a->stats.scopes.now) && R.bytes == OLD(a->stats.bytes.now) &&
    R.frames == OLD(a->stats.frames.now))
;

static void
h_enter(void)
{
	struct arena *a;
	int lno;

	arena_scope_enter_impl(a, NULL, lno);
	VF_REACH("entered");
}
#endif

#ifdef P_leave
#define KEEP ((struct arena_frame *)g0.kept)
void arena_scope_leave(struct arena_scope *s)
__CPROVER_assigns(s->arena->scope_locations, s->arena->frame, KEEP->len, s->arena->stats,
    s->arena->refs, s->cleanup, g.ncleanup, g.nfreed, g.afreed, vf_cur, vf_cnode, vf_fnode)
__CPROVER_ensures(g.ncleanup == g0.ncleanup && s->cleanup == NULL)
__CPROVER_ensures(s->arena->refs == OLD(s->arena->refs) - 1)
__CPROVER_ensures(g.afreed == (OLD(s->arena->refs) == 1))
__CPROVER_ensures(g.nfreed == (g0.last ? g0.nframes : g0.keep))
__CPROVER_ensures(g0.last || (s->arena->frame == KEEP && KEEP->len == s->frame_len))
__CPROVER_ensures(s->arena->stats.scopes.now == s->scopes && s->arena->stats.bytes.now == s->bytes)
;

static void
h_leave(void)
{
	static struct arena vf_a;
	static struct arena_scope vf_s;
	static struct arena_frame vf_f;
	struct arena_scope *s = &vf_s;
	struct arena *a = &vf_a;
	struct arena_frame *f = &vf_f;
	size_t n = nd_size();

	s->arena = a;
	g0.arena = a;
	VF_ASSUME(n >= 2 * MAXLEN && n < 4 * MAXLEN);
	g0.names = malloc(n);
	VF_ASSUME(g0.names != NULL);
	g0.kept = f;
	VF_ASSUME(g0.nframes >= 1 && g0.nframes < MAXLEN && g0.keep < g0.nframes && g0.ncleanup < MAXLEN);
	VF_ASSUME(g.ncleanup == 0 && g.nfreed == 0 && !g.afreed);
	VF_ASSUME(a->refs >= 1 && a->refs < INT32_MAX && g0.last == (a->refs == 1));
	VF_ASSUME(a->poison_size == 0);
	if (g0.keep == 0)
		a->frame = f;
	else
		a->frame = FNAME(0);
	s->frame = f;
	s->cleanup = CNAME(0);
	VF_ASSUME(s->frame_len <= f->len);
	arena_scope_leave(s);
	if (g0.last)
		VF_REACH("last scope");
	else if (g.nfreed > 2)
		VF_REACH("frames freed");
}
#endif

#ifdef P_validate
static void arena_scope_validate(struct arena *a, const struct arena_scope *s, size_t size)
__CPROVER_requires(__CPROVER_is_fresh(a, sizeof(*a)) && __CPROVER_is_fresh(s, sizeof(*s)))
__CPROVER_requires(s->id >= 1 && a->refs >= 1)
__CPROVER_assigns()
__CPROVER_ensures(s->id == a->refs)
;

static void
h_validate(void)
{
	struct arena *a;
	struct arena_scope *s;

	arena_scope_validate(a, s, 1);
	VF_REACH("innermost scope");
}
#endif
#else
#undef malloc
#undef free
#undef calloc
#ifdef VF_NATIVE
#define NBLOCK 48
#define NSCOPE 10
static struct {
	char *ptr;
	size_t len;
	unsigned char pat;
	int depth;
} blk[NBLOCK];
static size_t nblk;
static int depth;
static struct {
	int depth, id, used;
} cln[NBLOCK];
static size_t ncln;

static void
b_cleanup(void *arg)
{
	VF_ASSERT(ncln > 0 && arg == &cln[ncln - 1] && cln[ncln - 1].depth == depth,
	    "cleanups are executed last to first, once each");
	ncln--;
}

static void
b_blocks(void)
{
	size_t i, j;

	for (i = 0; i < nblk; i++) {
		for (j = 0; j < blk[i].len; j++)
			VF_ASSERT((unsigned char)blk[i].ptr[j] == blk[i].pat, "allocations stay intact");
	}
}

static void
b_block(size_t i, char *p, size_t len)
{
	VF_ASSERT(p != NULL && (uintptr_t)p % sizeof(void *) == 0, "allocations are aligned");
	blk[i].ptr = p;
	blk[i].len = len;
	blk[i].pat = (unsigned char)nd();
	blk[i].depth = depth;
	memset(p, blk[i].pat, len);
}

static size_t
b_size(void)
{
	switch (nd_upto(5)) {
	case 0:
		return nd_upto(8);
	case 1:
		return nd_upto(64);
	case 2:
		return nd_upto(600);
	case 3:
		return 8 * nd_upto(30);
	case 4:
		return (size_t)256 - 32 - nd_upto(9);
	default:
		return nd_upto(24);
	}
}

void
b_arena(void)
{
	struct arena *a;
	struct arena_scope s[NSCOPE];
	size_t live[NSCOPE];
	int steps;

	depth = 0;
	nblk = ncln = 0;
	vf_live = 0;
	a = arena_alloc();
	live[0] = vf_live;
	s[0] = arena_scope_enter(a);
	for (steps = (int)nd_upto(40); steps > 0; steps--) {
		size_t len, i, olen;
		unsigned char opat;
		char tmp[700];
		char *p;

		switch (nd_upto(9)) {
		case 0:
		case 1:
			if (nblk == NBLOCK)
				break;
			len = b_size();
			b_block(nblk, arena_malloc(&s[depth], len), len);
			nblk++;
			break;
		case 2:
			if (nblk == NBLOCK)
				break;
			len = nd_upto(40);
			i = nd_upto(9);
			p = arena_calloc(&s[depth], len, i);
			for (olen = 0; olen < len * i; olen++)
				VF_ASSERT(p[olen] == 0, "calloc clears");
			b_block(nblk++, p, len * i);
			break;
		case 3:
		case 4:
			if (nblk == 0)
				break;
			i = nd_bool() ? nblk - 1 : nd_upto(nblk - 1);
			if (blk[i].depth != depth)
				break;
			len = b_size();
			olen = blk[i].len;
			opat = blk[i].pat;
			p = arena_realloc(&s[depth], blk[i].ptr, olen, len);
			for (olen = olen < len ? olen : len; olen > 0; olen--)
				VF_ASSERT((unsigned char)p[olen - 1] == opat, "realloc preserves");
			b_block(i, p, len);
			break;
		case 5:
			if (nblk == NBLOCK)
				break;
			len = nd_upto(300);
			memset(tmp, 'x', len);
			tmp[len] = '\0';
			if (nd_bool())
				p = arena_strndup(&s[depth], tmp, len);
			else if (nd_bool())
				p = arena_strdup(&s[depth], tmp);
			else
				p = arena_sprintf(&s[depth], "%s", tmp);
			VF_ASSERT(strcmp(p, tmp) == 0, "strings are copied");
			b_block(nblk++, p, len + 1);
			break;
		case 6:
			if (ncln == NBLOCK)
				break;
			cln[ncln].depth = depth;
			arena_cleanup(&s[depth], b_cleanup, &cln[ncln]);
			ncln++;
			break;
		case 7:
			if (depth + 1 == NSCOPE)
				break;
			depth++;
			live[depth] = vf_live;
			s[depth] = arena_scope_enter(a);
			break;
		case 8:
			if (depth == 0)
				break;
			arena_scope_leave(&s[depth]);
			VF_ASSERT(ncln == 0 || cln[ncln - 1].depth < depth, "every cleanup is executed");
			VF_ASSERT(vf_live == live[depth], "memory is released along with the scope");
			while (nblk > 0 && blk[nblk - 1].depth == depth)
				nblk--;
			depth--;
			break;
		case 9:
			if (nblk == NBLOCK)
				break;
			len = b_size();
			b_block(nblk, arena_realloc(&s[depth], NULL, 0, len), len);
			nblk++;
			break;
		}
		b_blocks();
	}
	if (nd_bool()) {
		arena_free(a);
		a = NULL;
		b_blocks();
	}
	for (;;) {
		arena_scope_leave(&s[depth]);
		VF_ASSERT(ncln == 0 || cln[ncln - 1].depth < depth, "every cleanup is executed");
		while (nblk > 0 && blk[nblk - 1].depth == depth)
			nblk--;
		if (depth == 0)
			break;
		depth--;
		b_blocks();
	}
	arena_free(a);
	VF_ASSERT(ncln == 0 && vf_live == 0, "everything is released in the end");
}
#endif
#endif
