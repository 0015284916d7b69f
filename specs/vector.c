/*@ {
 'inst': ['libks/vector.c', 'libks/arena-vector.c'],
 'link': ['libks/arena.c'],
 'loops': {'libks/vector.c': {
   'vector_reserve1': ['''__CPROVER_assigns(newsiz)
     __CPROVER_loop_invariant(newsiz >= 16 && newsiz >= vc->vc_siz)
     __CPROVER_decreases(ULONG_MAX - newsiz)'''],
 }},
 'assumes': [
   'calloc(3), realloc(3), qsort(3), memset(3): contracts written out as stubs in specs/vector.c',
   'arena_calloc, arena_realloc: contracts proved in the arena unit (C04)',
   'growing is proved for elements of 1, 4, 8, 12, 16, 24, 32, 40, 48 and 64 bytes (a product of two symbolic 64 bit integers is out of reach of the solver), and for less than 2^32 elements in use',
 ],
 'proofs': [
  {'name': 'reserve1_1', 'fn': 'vector_reserve1', 'harness': 'h_reserve1', 'defs': ['STRIDE=1', 'P_reserve1'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve1_4', 'fn': 'vector_reserve1', 'harness': 'h_reserve1', 'defs': ['STRIDE=4', 'P_reserve1'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve1_8', 'fn': 'vector_reserve1', 'harness': 'h_reserve1', 'defs': ['STRIDE=8', 'P_reserve1'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve1_12', 'fn': 'vector_reserve1', 'harness': 'h_reserve1', 'defs': ['STRIDE=12', 'P_reserve1'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve1_16', 'fn': 'vector_reserve1', 'harness': 'h_reserve1', 'defs': ['STRIDE=16', 'P_reserve1'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve1_24', 'fn': 'vector_reserve1', 'harness': 'h_reserve1', 'defs': ['STRIDE=24', 'P_reserve1'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve1_32', 'fn': 'vector_reserve1', 'harness': 'h_reserve1', 'defs': ['STRIDE=32', 'P_reserve1'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve1_40', 'fn': 'vector_reserve1', 'harness': 'h_reserve1', 'defs': ['STRIDE=40', 'P_reserve1'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve1_48', 'fn': 'vector_reserve1', 'harness': 'h_reserve1', 'defs': ['STRIDE=48', 'P_reserve1'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve1_64', 'fn': 'vector_reserve1', 'harness': 'h_reserve1', 'defs': ['STRIDE=64', 'P_reserve1'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'alloc_8', 'fn': 'vector_alloc', 'harness': 'h_alloc', 'defs': ['STRIDE=8', 'P_alloc'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve_8', 'fn': 'vector_reserve', 'harness': 'h_reserve', 'defs': ['STRIDE=8', 'P_reserve'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'alloc_12', 'fn': 'vector_alloc', 'harness': 'h_alloc', 'defs': ['STRIDE=12', 'P_alloc'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve_12', 'fn': 'vector_reserve', 'harness': 'h_reserve', 'defs': ['STRIDE=12', 'P_reserve'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'alloc_40', 'fn': 'vector_alloc', 'harness': 'h_alloc', 'defs': ['STRIDE=40', 'P_alloc'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'reserve_40', 'fn': 'vector_reserve', 'harness': 'h_reserve', 'defs': ['STRIDE=40', 'P_reserve'], 'rfp': ['vector_reserve1.function_pointer_call.1/vf_vrealloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'init', 'fn': 'vector_init_impl', 'rfp': ['vector_init_impl.function_pointer_call.1/vf_vcalloc'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'pop', 'fn': 'vector_pop', 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'clear', 'fn': 'vector_clear', 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'first', 'fn': 'vector_first', 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'last', 'fn': 'vector_last', 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'free', 'fn': 'vector_free', 'rfp': ['vector_free.function_pointer_call.1/vf_vfree'], 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'sort', 'fn': 'vector_sort', 'bounded': 'b_vector', 'nobmc': True},
  {'name': 'arena', 'fn': 'av_callback_realloc', 'bounded': 'b_vector', 'nobmc': True},
 ],
} @*/
/*
 * Vectors: a header followed by room for vc_siz elements of which p.len are in
 * use.
 */
#include "vf.h"

#include <limits.h>
#include <stdlib.h>
#include <string.h>

#include "libks/arena.h"
#include "libks/compiler.h"
#include "libks/vector.h"

#define MAXLEN ((size_t)1 << 32)
#define MAXSTRIDE 64

struct ghost0 {
	size_t k;		/* arbitrary byte */
	char val;
	size_t siz, len, stride;
	void *ptr;
	void *arg;
	size_t oldsize, newsize;
	int (*cmp)(const void *, const void *);
};
struct ghost0 g0;

struct ghost {
	int moved, cleared, freed;
	char *element;
	size_t newsize;
	int sorted;
	void *res;
};
struct ghost g;

#ifdef VF_PROOF
static void *
vf_memset(void *d, int c, size_t n)
{
	VF_ASSERT(c == 0 && n == g0.stride && !g.cleared, "a single element is cleared");
	g.cleared = 1;
	g.element = d;
	return d;
}
#define memset vf_memset

static void
vf_qsort(void *v, size_t n, size_t size, int (*cmp)(const void *, const void *))
{
	VF_ASSERT(v == g0.ptr && n == g0.len && size == g0.stride && cmp == g0.cmp,
	    "all elements are sorted according to the given order");
	g.sorted = 1;
}
#define qsort vf_qsort

static void *
vf_arena_realloc(struct arena_scope *s, void *ptr, size_t oldsize, size_t newsize)
{
	VF_ASSERT(s == g0.arg && ptr == g0.ptr && oldsize == g0.oldsize && newsize == g0.newsize,
	    "arguments are handed over in order");
	return g.res;
}
static void *vf_arena_calloc(struct arena_scope *s, size_t n, size_t size) { return NULL; }
#define arena_realloc vf_arena_realloc
#define arena_calloc vf_arena_calloc
#endif

#include "SRC/libks/vector.c"
#define callback_calloc av_callback_calloc
#define callback_realloc av_callback_realloc
#define callback_free av_callback_free
#include "SRC/libks/arena-vector.c"

#ifdef VF_PROOF
#define R __CPROVER_return_value
#define OLD __CPROVER_old
#define HDR sizeof(struct vector)
#define BYTES(vc) (HDR + (vc)->vc_siz * (vc)->vc_stride)

/*
 * Elements are not touched while growing and therefore not modelled: the
 * header is a block of its own.
 */
struct vector vf_old, vf_new;

static void *
vf_vrealloc(void *ptr, size_t oldsize, size_t newsize, void *arg)
{
	VF_ASSERT(ptr == &vf_old, "the vector is reallocated");
	VF_ASSERT(arg == g0.arg, "the argument is handed over");
	VF_ASSERT(!g.moved, "reallocated once");
	VF_ASSERT(oldsize >= HDR + g0.len * g0.stride && oldsize <= HDR + g0.siz * g0.stride,
	    "every element in use is preserved");
	if (nd_bool())
		return NULL;
	g.moved = 1;
	g.newsize = newsize;
	vf_new = vf_old;
	return &vf_new;
}

static void *
vf_vcalloc(size_t n, size_t size, void *arg)
{
	VF_ASSERT(arg == g0.arg, "the argument is handed over");
	VF_ASSERT(n == 1 && size == HDR, "room for the header");
	if (nd_bool())
		return NULL;
	return calloc(1, HDR);
}

#define G0_OK (g0.siz <= MAXLEN && g0.len <= g0.siz && (g0.siz == 0 || g0.siz >= 16))
#define SAME(vc) ((vc)->p.len == g0.len && (vc)->vc_stride == g0.stride && \
    (vc)->vc_callbacks.realloc == vf_vrealloc && (vc)->vc_callbacks.arg == g0.arg)

static void
vf_header(void)
{
#ifdef STRIDE
	g0.stride = STRIDE;
#endif
	vf_old.vc_stride = g0.stride;
	vf_old.vc_callbacks.realloc = vf_vrealloc;
	VF_ASSUME(g0.siz == vf_old.vc_siz && g0.len == vf_old.p.len && G0_OK && SAME(&vf_old));
	VF_ASSUME(!g.moved && !g.cleared && !g.sorted && !g.freed);
}

#ifdef P_reserve1
static enum vector_error vector_reserve1(struct vector **vv, size_t len)
__CPROVER_requires(*vv == &vf_old && G0_OK && SAME(*vv) && (*vv)->vc_siz == g0.siz && !g.moved)
__CPROVER_assigns(*vv, errno, g.moved, g.newsize, vf_new)
__CPROVER_ensures(R == VECTOR_SUCCESS || R == VECTOR_REALLOCATED || R == VECTOR_ERROR)
__CPROVER_ensures((R == VECTOR_REALLOCATED) == g.moved)
__CPROVER_ensures(R == VECTOR_REALLOCATED ? *vv == &vf_new : *vv == &vf_old)
__CPROVER_ensures(R != VECTOR_SUCCESS || len <= g0.siz - g0.len)
__CPROVER_ensures(R != VECTOR_REALLOCATED || (SAME(*vv) && (*vv)->vc_siz >= g0.len && len <= (*vv)->vc_siz - g0.len))
/* The new block has room for vc_siz elements, all of them. */
__CPROVER_ensures(R != VECTOR_REALLOCATED ||
    (g.newsize >= HDR && (unsigned __int128)(*vv)->vc_siz * g0.stride == g.newsize - HDR))
;

static void
h_reserve1(void)
{
	struct vector *vc = &vf_old;
	struct vector **vv = &vc;
	size_t len;

	vf_header();
	switch (vector_reserve1(vv, len)) {
	case VECTOR_SUCCESS:
		VF_REACH("room left");
		break;
	case VECTOR_REALLOCATED:
		VF_REACH("grown");
		break;
	case VECTOR_ERROR:
		VF_REACH("failed");
		break;
	}
}
#endif

#define CUR (g.moved ? &vf_new : &vf_old)
#ifdef P_reserve
int vector_reserve(void **vv, size_t n)
__CPROVER_assigns(*vv, errno, g.moved, g.newsize, vf_new)
__CPROVER_ensures(*vv == CUR + 1)
__CPROVER_ensures(R != 0 || n <= CUR->vc_siz - CUR->p.len)
__CPROVER_ensures(R == 0 || !g.moved)
;

static void
h_reserve(void)
{
	void *v = &vf_old + 1;
	size_t n;

	vf_header();
	if (vector_reserve(&v, n))
		VF_REACH("failed");
	else
		VF_REACH("reserved");
}
#endif

#ifdef P_alloc
size_t vector_alloc(void **vv, int zero)
__CPROVER_assigns(*vv, errno, g.moved, g.newsize, g.cleared, g.element, vf_new, vf_old.p.len)
__CPROVER_ensures(*vv == CUR + 1)
__CPROVER_ensures(R == ULONG_MAX ? (!g.moved && !g.cleared && vf_old.p.len == g0.len) :
    (R == g0.len && CUR->p.len == g0.len + 1 && CUR->p.len <= CUR->vc_siz))
__CPROVER_ensures(R == ULONG_MAX || !zero || g.cleared)
__CPROVER_ensures(!g.cleared || g.element == (char *)(CUR + 1) + g0.len * g0.stride)
;

static void
h_alloc(void)
{
	void *v = &vf_old + 1;
	int zero;

	vf_header();
	if (vector_alloc(&v, zero) == ULONG_MAX)
		VF_REACH("failed");
	else
		VF_REACH("allocated");
}
#endif

#ifdef P_init
int vector_init_impl(void **vv, size_t stride, const struct vector_callbacks *callbacks)
__CPROVER_assigns(*vv)
__CPROVER_ensures(R == 0 || *vv == NULL)
__CPROVER_ensures(R != 0 || (((struct vector *)*vv)[-1].p.len == 0 && ((struct vector *)*vv)[-1].vc_siz == 0 &&
    ((struct vector *)*vv)[-1].vc_stride == stride &&
    ((struct vector *)*vv)[-1].vc_callbacks.realloc == callbacks->realloc &&
    ((struct vector *)*vv)[-1].vc_callbacks.free == callbacks->free &&
    ((struct vector *)*vv)[-1].vc_callbacks.arg == callbacks->arg))
;

static void
h_init(void)
{
	static struct vector_callbacks cb;
	void *v = NULL;
	size_t stride;

	cb.calloc = vf_vcalloc;
	cb.realloc = vf_vrealloc;
	g0.arg = nd_bool() ? &g : NULL;
	cb.arg = g0.arg;
	if (vector_init_impl(&v, stride, &cb))
		VF_REACH("failed");
	else
		VF_REACH("empty");
}
#endif

#ifdef P_pop
size_t vector_pop(void *v)
__CPROVER_assigns(vf_old.p.len)
__CPROVER_ensures(g0.len == 0 ? (R == ULONG_MAX && vf_old.p.len == 0) : (R == g0.len - 1 && vf_old.p.len == g0.len - 1))
;

static void
h_pop(void)
{
	vf_header();
	if (vector_pop(&vf_old + 1) == ULONG_MAX)
		VF_REACH("empty");
	else
		VF_REACH("removed");
}
#endif

#ifdef P_clear
void vector_clear(void *v)
__CPROVER_assigns(vf_old.p.len)
__CPROVER_ensures(vf_old.p.len == 0)
;

static void
h_clear(void)
{
	vf_header();
	vector_clear(&vf_old + 1);
	VF_REACH("cleared");
}
#endif

#ifdef P_first
size_t vector_first(void *v)
__CPROVER_assigns()
__CPROVER_ensures(R == (g0.len == 0 ? ULONG_MAX : 0))
;

static void
h_first(void)
{
	vf_header();
	vector_first(&vf_old + 1);
	VF_REACH("first");
}
#endif

#ifdef P_last
size_t vector_last(void *v)
__CPROVER_assigns()
__CPROVER_ensures(R == (g0.len == 0 ? ULONG_MAX : g0.len - 1))
;

static void
h_last(void)
{
	vf_header();
	vector_last(&vf_old + 1);
	VF_REACH("last");
}
#endif

static void
vf_vfree(void *ptr, size_t size, void *arg)
{
	VF_ASSERT(ptr == &vf_old && arg == g0.arg, "the vector is freed");
	(void)size;
	g.freed++;
}

#ifdef P_free
void vector_free(void **vv)
__CPROVER_assigns(*vv, g.freed)
__CPROVER_ensures(*vv == NULL)
__CPROVER_ensures(g.freed == (OLD(*vv) != NULL))
;

static void
h_free(void)
{
	void *v = nd_bool() ? NULL : &vf_old + 1;

	vf_old.vc_callbacks.free = vf_vfree;
	vf_header();
	vector_free(&v);
	VF_REACH("freed");
}
#endif

#ifdef P_sort
void vector_sort(void *v, int (*cmp)(const void *, const void *))
__CPROVER_assigns(g.sorted)
__CPROVER_ensures(g.sorted || g0.len <= 1)
;
static int vf_cmp(const void *a, const void *b) { return nd_int(); }

static void
h_sort(void)
{
	vf_header();
	g0.ptr = &vf_old + 1;
	g0.cmp = vf_cmp;
	vector_sort(&vf_old + 1, vf_cmp);
	VF_REACH("sorted");
}
#endif

#ifdef P_arena
static void *av_callback_realloc(void *ptr, size_t oldsize, size_t newsize, void *arg)
__CPROVER_requires(ptr == g0.ptr && oldsize == g0.oldsize && newsize == g0.newsize && arg == g0.arg)
__CPROVER_assigns()
__CPROVER_ensures(R == g.res)
;

static void
h_arena(void)
{
	void *ptr, *arg;
	size_t oldsize, newsize;

	av_callback_realloc(ptr, oldsize, newsize, arg);
	VF_REACH("reallocated");
}
#endif
#endif

#ifdef VF_NATIVE
struct e24 { uint64_t a, b, c; };
struct e12 { uint32_t a, b, c; };
struct e1 { uint8_t a; };

static int
e24_cmp(const struct e24 *a, const struct e24 *b)
{
	return a->a < b->a ? -1 : a->a > b->a;
}

static int
e12_cmp(const struct e12 *a, const struct e12 *b)
{
	return a->a < b->a ? -1 : a->a > b->a;
}

static int
e1_cmp(const struct e1 *a, const struct e1 *b)
{
	return a->a < b->a ? -1 : a->a > b->a;
}

#define NREF 200
#define OPS(T) do {							\
	static T ref[NREF];						\
	VECTOR(T) v = NULL;						\
	T *e;								\
	size_t i, j, n = 0;						\
	int steps;							\
									\
	if (nd_bool())							\
		arena_vector_init(&s, (void **)&v, sizeof(T), nd_upto(3) == 0 ? nd_upto(40) : 0);\
	else								\
		VF_ASSERT(VECTOR_INIT(v) == 0, "init");			\
	for (steps = (int)nd_upto(120); steps > 0; steps--) {		\
		size_t op = nd_upto(11);				\
									\
		if (op < 4 && n < NREF) {				\
			e = VECTOR_ALLOC(v);				\
			VF_ASSERT(e == v + n, "the new element is last");\
			for (i = 0; i < sizeof(T); i++)			\
				((unsigned char *)e)[i] = (unsigned char)nd();\
			ref[n++] = *e;					\
		} else if (op < 6 && n < NREF) {			\
			e = VECTOR_CALLOC(v);				\
			VF_ASSERT(e == v + n, "the new element is last");\
			for (i = 0; i < sizeof(T); i++)			\
				VF_ASSERT(((unsigned char *)e)[i] == 0, "cleared");\
			ref[n++] = *e;					\
		} else if (op == 6) {					\
			e = VECTOR_POP(v);				\
			VF_ASSERT(n == 0 ? e == NULL : e == v + n - 1, "pop");\
			if (n > 0)					\
				n--;					\
		} else if (op == 7) {					\
			e = VECTOR_FIRST(v);				\
			VF_ASSERT(n == 0 ? e == NULL : e == v, "first");\
			e = VECTOR_LAST(v);				\
			VF_ASSERT(n == 0 ? e == NULL : e == v + n - 1, "last");\
		} else if (op == 8 && nd_upto(8) == 0) {		\
			VECTOR_CLEAR(v);				\
			n = 0;						\
		} else if (op == 9) {					\
			i = nd_upto(70);				\
			VF_ASSERT(VECTOR_RESERVE(v, i) == 0, "reserve");\
			memset(v + n, 0x55, i * sizeof(T));		\
			VF_ASSERT(VECTOR_RESERVE(v, SIZE_MAX - nd_upto(3) * 7) != 0, "overflow");\
			VF_ASSERT(VECTOR_RESERVE(v, SIZE_MAX / sizeof(T) - nd_upto(3)) != 0, "overflow");\
		} else if (op == 10) {					\
			(void)arena_malloc(&s, nd_upto(40));		\
		} else if (op == 11) {					\
			VECTOR_SORT(v, T##_cmp);			\
			qsort(ref, n, sizeof(T), (int (*)(const void *, const void *))T##_cmp);\
			for (i = 0; i < n; i++)				\
				VF_ASSERT(v[i].a == ref[i].a, "sorted");\
			for (i = 0; i < n; i++)				\
				ref[i] = v[i];				\
		}							\
		VF_ASSERT(VECTOR_LENGTH(v) == n, "number of elements");	\
		for (j = 0; j < n; j++)					\
			VF_ASSERT(memcmp(&v[j], &ref[j], sizeof(T)) == 0, "elements are kept");\
	}								\
	VECTOR_FREE(v);							\
	VF_ASSERT(v == NULL, "freed");					\
} while (0)

typedef struct e24 e24;
typedef struct e12 e12;
typedef struct e1 e1;

void
b_vector(void)
{
	struct arena *a = arena_alloc();
	arena_scope(a, s);

	switch (nd_upto(2)) {
	case 0:
		OPS(e24);
		break;
	case 1:
		OPS(e12);
		break;
	default:
		OPS(e1);
		break;
	}
	arena_free(a);
}
#endif
