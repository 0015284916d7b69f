/*@ {
 'inst': ['libks/arithmetic.c'],
 'assumes': [],
 'proofs': [
  {'name': 'i32_add', 'fn': 'KS_i32_add_overflow0', 'bounded': 'b_i32_add', 'nobmc': True},
  {'name': 'i32_sub', 'fn': 'KS_i32_sub_overflow0', 'bounded': 'b_i32_sub', 'nobmc': True},
  {'name': 'i32_mul', 'fn': 'KS_i32_mul_overflow0', 'mode': 'native', 'bounded': 'b_i32_mul', 'count': 400000, 'search_s': 20, 'reason': 'equivalence of multiplication and division'},
  {'name': 'i64_add', 'fn': 'KS_i64_add_overflow0', 'bounded': 'b_i64_add', 'nobmc': True},
  {'name': 'i64_sub', 'fn': 'KS_i64_sub_overflow0', 'bounded': 'b_i64_sub', 'nobmc': True},
  {'name': 'i64_mul', 'fn': 'KS_i64_mul_overflow0', 'mode': 'native', 'bounded': 'b_i64_mul', 'count': 400000, 'search_s': 20, 'reason': 'equivalence of 64 bit multiplication and division'},
  {'name': 'u32_add', 'fn': 'KS_u32_add_overflow0', 'bounded': 'b_u32_add', 'nobmc': True},
  {'name': 'u32_sub', 'fn': 'KS_u32_sub_overflow0', 'bounded': 'b_u32_sub', 'nobmc': True},
  {'name': 'u32_mul', 'fn': 'KS_u32_mul_overflow0', 'mode': 'native', 'bounded': 'b_u32_mul', 'count': 400000, 'search_s': 20, 'reason': 'equivalence of multiplication and division'},
  {'name': 'u64_add', 'fn': 'KS_u64_add_overflow0', 'bounded': 'b_u64_add', 'nobmc': True},
  {'name': 'u64_sub', 'fn': 'KS_u64_sub_overflow0', 'bounded': 'b_u64_sub', 'nobmc': True},
  {'name': 'u64_mul', 'fn': 'KS_u64_mul_overflow0', 'mode': 'native', 'bounded': 'b_u64_mul', 'count': 400000, 'search_s': 20, 'reason': 'equivalence of 64 bit multiplication and division'},
  {'name': 'size_add', 'fn': 'KS_size_add_overflow0', 'bounded': 'b_size_add', 'nobmc': True},
  {'name': 'size_sub', 'fn': 'KS_size_sub_overflow0', 'bounded': 'b_size_sub', 'nobmc': True},
  {'name': 'size_mul', 'fn': 'KS_size_mul_overflow0', 'mode': 'native', 'bounded': 'b_size_mul', 'count': 400000, 'search_s': 20, 'reason': 'equivalence of 64 bit multiplication and division'},
 ],
} @*/
/*
 * Arithmetic which detects overflow, in absence of compiler support.
 */
#include "vf.h"

#include <limits.h>
#include <stdint.h>

#include "SRC/libks/arithmetic.c"
#include "libks/arithmetic.h"

typedef __int128 wide;
#ifdef VF_PROOF
#define R __CPROVER_return_value
#define OLD __CPROVER_old
#define FITS(a, o, b, min, max) ((wide)(a) o (wide)(b) >= (wide)(min) && (wide)(a) o (wide)(b) <= (wide)(max))
#define FN(name, fn, type, o, min, max) \
int fn(type a, type b, type *c) \
__CPROVER_requires(__CPROVER_is_fresh(c, sizeof(*c))) \
__CPROVER_assigns(*c) \
__CPROVER_ensures((R == 0) == FITS(a, o, b, min, max)) \
__CPROVER_ensures(R != 0 || (wide)*c == (wide)a o (wide)b) \
; \
static void \
h_##name(void) \
{ \
	type a, b, *c; \
 \
	if (fn(a, b, c)) \
		VF_REACH("overflow"); \
	else \
		VF_REACH("fits"); \
}
FN(i32_add, KS_i32_add_overflow0, int32_t, +, INT32_MIN, INT32_MAX)
FN(i32_sub, KS_i32_sub_overflow0, int32_t, -, INT32_MIN, INT32_MAX)
FN(i32_mul, KS_i32_mul_overflow0, int32_t, *, INT32_MIN, INT32_MAX)
FN(i64_add, KS_i64_add_overflow0, int64_t, +, INT64_MIN, INT64_MAX)
FN(i64_sub, KS_i64_sub_overflow0, int64_t, -, INT64_MIN, INT64_MAX)
FN(u32_add, KS_u32_add_overflow0, uint32_t, +, 0, UINT32_MAX)
FN(u32_sub, KS_u32_sub_overflow0, uint32_t, -, 0, UINT32_MAX)
FN(u32_mul, KS_u32_mul_overflow0, uint32_t, *, 0, UINT32_MAX)
FN(u64_add, KS_u64_add_overflow0, uint64_t, +, 0, UINT64_MAX)
FN(u64_sub, KS_u64_sub_overflow0, uint64_t, -, 0, UINT64_MAX)
FN(size_add, KS_size_add_overflow0, size_t, +, 0, SIZE_MAX)
FN(size_sub, KS_size_sub_overflow0, size_t, -, 0, SIZE_MAX)
#endif

#ifdef VF_NATIVE
static uint64_t
b_value(void)
{
	static const uint64_t v[] = { 0, 1, 2, 3, INT32_MAX, UINT32_MAX, INT64_MAX, UINT64_MAX,
	    (uint64_t)INT32_MIN, (uint64_t)INT64_MIN };

	switch (nd_upto(3)) {
	case 0:
		return v[nd_upto(9)] + nd_upto(4) - 2;
	case 1:
		return nd() >> nd_upto(63);
	case 2:
		return ~(nd() >> nd_upto(63));
	default:
		return nd();
	}
}

/* The result, and the one of the inline variant which makes use of the compiler. */
#define B(name, fn, type, builtin, min, max, variant) \
void \
b_##name(void) \
{ \
	type a = (type)b_value(), b = (type)b_value(), c = 0, d = 0; \
	int r, e; \
 \
	if (nd_bool() && b != 0 && (wide)b > 0) \
		a = (type)((uint64_t)((type)(max) / b) + nd_upto(2) - 1); \
	e = builtin(a, b, &d); \
	r = fn(a, b, &c); \
	VF_ASSERT((r != 0) == (e != 0) && (e || c == d), "overflow is detected, the result is exact otherwise"); \
	r = variant(a, b, &c); \
	VF_ASSERT((r != 0) == (e != 0) && (e || c == d), "overflow is detected, the result is exact otherwise"); \
}
B(i32_add, KS_i32_add_overflow0, int32_t, __builtin_add_overflow, INT32_MIN, INT32_MAX, KS_i32_add_overflow)
B(i32_sub, KS_i32_sub_overflow0, int32_t, __builtin_sub_overflow, INT32_MIN, INT32_MAX, KS_i32_sub_overflow)
B(i32_mul, KS_i32_mul_overflow0, int32_t, __builtin_mul_overflow, INT32_MIN, INT32_MAX, KS_i32_mul_overflow)
B(i64_add, KS_i64_add_overflow0, int64_t, __builtin_add_overflow, INT64_MIN, INT64_MAX, KS_i64_add_overflow)
B(i64_sub, KS_i64_sub_overflow0, int64_t, __builtin_sub_overflow, INT64_MIN, INT64_MAX, KS_i64_sub_overflow)
B(i64_mul, KS_i64_mul_overflow0, int64_t, __builtin_mul_overflow, INT64_MIN, INT64_MAX, KS_i64_mul_overflow)
B(u32_add, KS_u32_add_overflow0, uint32_t, __builtin_add_overflow, 0, UINT32_MAX, KS_u32_add_overflow)
B(u32_sub, KS_u32_sub_overflow0, uint32_t, __builtin_sub_overflow, 0, UINT32_MAX, KS_u32_sub_overflow)
B(u32_mul, KS_u32_mul_overflow0, uint32_t, __builtin_mul_overflow, 0, UINT32_MAX, KS_u32_mul_overflow)
B(u64_add, KS_u64_add_overflow0, uint64_t, __builtin_add_overflow, 0, UINT64_MAX, KS_u64_add_overflow)
B(u64_sub, KS_u64_sub_overflow0, uint64_t, __builtin_sub_overflow, 0, UINT64_MAX, KS_u64_sub_overflow)
B(u64_mul, KS_u64_mul_overflow0, uint64_t, __builtin_mul_overflow, 0, UINT64_MAX, KS_u64_mul_overflow)
B(size_add, KS_size_add_overflow0, size_t, __builtin_add_overflow, 0, SIZE_MAX, KS_size_add_overflow)
B(size_sub, KS_size_sub_overflow0, size_t, __builtin_sub_overflow, 0, SIZE_MAX, KS_size_sub_overflow)
B(size_mul, KS_size_mul_overflow0, size_t, __builtin_mul_overflow, 0, SIZE_MAX, KS_size_mul_overflow)
#endif
