/*@ {
 'inst': ['util.c', 'libks/string.c'],
 'loops': {'util.c': {
   'colwidth': ['''__CPROVER_assigns(str, len, cno, g.pos, g.ref)
      __CPROVER_loop_invariant(g.pos <= g.len && len == g.len - g.pos && str == g.base + g.pos)
      __CPROVER_loop_invariant(cno == (unsigned int)g.ref)
      __CPROVER_decreases(len)''',
    '''__CPROVER_assigns(str, len, cno, g.pos, g.ref)
      __CPROVER_loop_invariant(g.pos <= g.len && len == g.len - g.pos && str == g.base + g.pos)
      __CPROVER_loop_invariant(cno == (unsigned int)g.ref && len <= __CPROVER_loop_entry(len))
      __CPROVER_decreases(len)
      @ghost if (is_tabnl(str[0])) vf_step_col();'''],
   'strwidth': ['''__CPROVER_assigns(str, len, pos, g.pos, g.ref)
      __CPROVER_loop_invariant(g.pos <= g.len && len == g.len - g.pos && str == g.base + g.pos)
      __CPROVER_loop_invariant(pos == g.ref)
      __CPROVER_decreases(len)''',
    '''__CPROVER_assigns(str, len, pos, g.pos, g.ref)
      __CPROVER_loop_invariant(g.pos <= g.len && len == g.len - g.pos && str == g.base + g.pos)
      __CPROVER_loop_invariant(pos == g.ref && len <= __CPROVER_loop_entry(len))
      __CPROVER_decreases(len)
      @ghost if (is_tabnl(str[0])) vf_step_pos();'''],
   'strindent_buffer': ['''__CPROVER_assigns(i, pos, g.pos, g.ref, g.last)
      __CPROVER_loop_invariant(i <= indent && i % 8 == 0 && pos == g.ref && g.last != ' ')
      __CPROVER_loop_invariant(pos == (i == 0 ? g.start : g.start / 8 * 8 + i))
      __CPROVER_decreases(indent - i)''',
    '''__CPROVER_assigns(i, pos, g.pos, g.ref, g.last)
      __CPROVER_loop_invariant(i <= indent && i >= __CPROVER_loop_entry(i) && pos == g.ref)
      __CPROVER_loop_invariant(g.pos == __CPROVER_loop_entry(g.pos) + (i - __CPROVER_loop_entry(i)))
      __CPROVER_loop_invariant(pos == __CPROVER_loop_entry(pos) + (i - __CPROVER_loop_entry(i)))
      __CPROVER_decreases(indent - i)'''],
   'strnice_buffer': ['''__CPROVER_assigns(i, g.pos)
      __CPROVER_loop_invariant(i <= len && g.pos == i)
      __CPROVER_decreases(len - i)'''],
  }, 'libks/string.c': {
   'KS_str_match_default': ['''__CPROVER_assigns(i, g.c)
      __CPROVER_loop_invariant(i <= len && (g.k >= i || g.kin))
      __CPROVER_decreases(len - i)
     @ghost g.c = str[i];''',
    '''__CPROVER_assigns(j, match)
      __CPROVER_loop_invariant(j % 2 == 0 && j <= g.nranges && match == 0)
      __CPROVER_loop_invariant(j < 2 || !IN1(g.c, 0))
      __CPROVER_loop_invariant(j < 4 || !IN1(g.c, 2))
      __CPROVER_loop_invariant(j < 6 || !IN1(g.c, 4))
      __CPROVER_loop_invariant(j < 8 || !IN1(g.c, 6))
      __CPROVER_decreases(g.nranges - j)'''],
   'KS_str_match_until_default': ['''__CPROVER_assigns(i, g.c)
      __CPROVER_loop_invariant(i <= len && (g.k >= i || !g.kin))
      __CPROVER_decreases(len - i)
     @ghost g.c = str[i];''',
    '''__CPROVER_assigns(j)
      __CPROVER_loop_invariant(j % 2 == 0 && j <= g.nranges)
      __CPROVER_loop_invariant(j < 2 || !IN1(g.c, 0))
      __CPROVER_loop_invariant(j < 4 || !IN1(g.c, 2))
      __CPROVER_loop_invariant(j < 6 || !IN1(g.c, 4))
      __CPROVER_loop_invariant(j < 8 || !IN1(g.c, 6))
      __CPROVER_decreases(g.nranges - j)'''],
 }},
 'assumes': [
   'KS_str_match_until as installed on this machine obeys the contract proved for its C implementation (the assembly version is outside)',
   'strings shorter than 2^40 bytes, at most four character ranges (the most any caller passes is three)',
   'lemma: a run of n bytes without tab and newline advances the column by n',
   'strrchr, strcmp, buffer_putc, buffer_printf: contracts',
 ],
 'proofs': [
  {'name': 'colwidth', 'fn': 'colwidth', 'n': 4, 'unwind': 8},
  {'name': 'strwidth', 'fn': 'strwidth', 'n': 4, 'unwind': 8},
  {'name': 'strindent', 'fn': 'strindent_buffer', 'n': 18, 'unwind': 20},
  {'name': 'match', 'fn': 'KS_str_match_default', 'n': 4, 'unwind': 8},
  {'name': 'match_until', 'fn': 'KS_str_match_until_default', 'n': 4, 'unwind': 8},
  {'name': 'is_path_header', 'fn': 'is_path_header', 'n': 5, 'unwind': 8},
 ],
} @*/
#include "vf.h"

#include <ctype.h>
#include <string.h>

#define MAXLEN ((size_t)1 << 40)

struct ghost {
	const char *base;	/* the string */
	size_t len;
	size_t pos;		/* bytes consumed, or emitted */
	size_t ref;		/* column according to the reference */
	size_t k;		/* arbitrary position */
	size_t nranges;		/* length of ranges */
	char r0, s0, r2, s2, r4, s4, r6, s6;	/* ranges */
	char c;			/* current byte */
	int kin;		/* byte k is within the ranges */
	size_t start;		/* initial column */
	int last;		/* last character emitted */
	size_t slash, dot;
};
struct ghost g;

#define IN1(c, j) ((c) >= g.r##j && (c) <= g.s##j)
static int
in_ranges(char c)
{
	return (g.nranges > 0 && IN1(c, 0)) || (g.nranges > 2 && IN1(c, 2)) ||
	    (g.nranges > 4 && IN1(c, 4)) || (g.nranges > 6 && IN1(c, 6));
}
#define INRANGES(c) in_ranges(c)

static int
is_tabnl(char c)
{
	return c == '\t' || c == '\n';
}

/* The reference: one column per byte, tabs stop at multiples of eight. */
static size_t
ref_col(size_t col, char c)
{
	if (c == '\n')
		return 1;
	if (c == '\t')
		return (col + 7) / 8 * 8 + 1;
	return col + 1;
}
static size_t
ref_pos(size_t col, char c)
{
	if (c == '\n')
		return 0;
	if (c == '\t')
		return col / 8 * 8 + 8;
	return col + 1;
}

#ifdef VF_PROOF
static void
vf_step_col(void)
{
	g.ref = (unsigned int)ref_col((unsigned int)g.ref, g.base[g.pos]);
	g.pos++;
}
static void
vf_step_pos(void)
{
	g.ref = ref_pos(g.ref, g.base[g.pos]);
	g.pos++;
}
#endif

#include "libks/string.h"
#include "libks/buffer.h"
#include "libks/arena.h"
#include "libks/arena-vector.h"
#include "libks/vector.h"

static size_t
vf_until(const char *str, size_t len, const char *ranges)
{
	size_t n;

	VF_ASSERT(str == g.base + g.pos && len == g.len - g.pos, "scan from the current position");
	VF_ASSERT(ranges[0] == '\t' && ranges[1] == '\t' && ranges[2] == '\n' &&
	    ranges[3] == '\n' && ranges[4] == '\0', "scan for tab and newline");
#ifdef VF_PROOF
	n = nd_size();
	VF_ASSUME(n <= len);
	VF_ASSUME(n == len || is_tabnl(str[n]));
	g.ref += n;
	g.pos += n;
#else
	for (n = 0; n < len && str[n] != '\t' && str[n] != '\n'; n++)
		continue;
	g.pos += n;
#endif
	return n;
}

static int
vf_putc(struct buffer *bf, char c)
{
	(void)bf;
	g.last = c;
	g.pos++;
	g.ref = ref_pos(g.ref, c);
	VF_ASSERT(c == ' ' || c == '\t', "indentation is made of tabs and spaces");
	return 0;
}

#if defined(P_colwidth) || defined(P_strwidth) || defined(P_strindent)
#ifdef VF_PROOF
#define KS_str_match_until(a, b, c) vf_until((a), (b), (c))
#else
size_t (*KS_str_match_until)(const char *, size_t, const char *);
#endif
#endif
#ifdef P_strindent
#define buffer_putc vf_putc
#endif
#ifdef VF_PROOF
#if defined(P_is_path_header)
static char *
vf_strrchr(const char *s, int c)
{
	VF_ASSERT(s == g.base && c == '.', "last dot");
	return g.dot < g.len ? (char *)&g.base[g.dot] : NULL;
}
#define strrchr vf_strrchr
#endif
#endif
#include "SRC/util.c"
#include "SRC/libks/string.c"

#ifdef VF_PROOF
#define R __CPROVER_return_value
#define STR(str, len) \
__CPROVER_requires((len) <= MAXLEN && __CPROVER_is_fresh(str, (len))) \
__CPROVER_requires(PEQ((char *)g.base, (char *)(str)) && g.len == (len) && g.pos == 0)

unsigned int colwidth(const char *str, size_t len, unsigned int cno)
STR(str, len)
__CPROVER_requires(g.ref == cno)
__CPROVER_assigns(g.pos, g.ref)
__CPROVER_ensures(g.pos == len && R == (unsigned int)g.ref)
;
size_t strwidth(const char *str, size_t len, size_t pos)
STR(str, len)
__CPROVER_requires(g.ref == pos)
__CPROVER_assigns(g.pos, g.ref)
__CPROVER_ensures(g.pos == len && R == g.ref)
;
/* Emits tabs followed by spaces, returns the resulting column. */
size_t strindent_buffer(struct buffer *bf, size_t indent, int usetabs, size_t pos)
__CPROVER_requires(indent <= MAXLEN && pos <= MAXLEN && g.ref == pos && g.start == pos && g.pos == 0 && g.last == 0)
__CPROVER_assigns(g.pos, g.ref, g.last)
__CPROVER_ensures(R == g.ref)
__CPROVER_ensures(usetabs || (R == pos + indent && g.pos == indent))
__CPROVER_ensures(!usetabs || pos % 8 != 0 || R == pos + indent)
;

size_t KS_str_match_default(const char *str, size_t len, const char *ranges)
STR(str, len)
__CPROVER_requires(g.nranges <= 8 && g.nranges % 2 == 0 && __CPROVER_is_fresh(ranges, 9) && ranges[g.nranges] == 0)
__CPROVER_requires(g.r0 == ranges[0] && g.s0 == ranges[1] && g.r2 == ranges[2] && g.s2 == ranges[3] &&
    g.r4 == ranges[4] && g.s4 == ranges[5] && g.r6 == ranges[6] && g.s6 == ranges[7])
__CPROVER_requires((g.nranges <= 0 || ranges[0] != 0) && (g.nranges <= 2 || ranges[2] != 0) &&
    (g.nranges <= 4 || ranges[4] != 0) && (g.nranges <= 6 || ranges[6] != 0))
__CPROVER_requires(g.k >= len || g.kin == INRANGES(str[g.k]))
__CPROVER_assigns(g.c)
__CPROVER_ensures(R <= len)
__CPROVER_ensures(g.k >= R || INRANGES(str[g.k]))
__CPROVER_ensures(R == len || !INRANGES(str[R]))
;
size_t KS_str_match_until_default(const char *str, size_t len, const char *ranges)
STR(str, len)
__CPROVER_requires(g.nranges <= 8 && g.nranges % 2 == 0 && __CPROVER_is_fresh(ranges, 9) && ranges[g.nranges] == 0)
__CPROVER_requires(g.r0 == ranges[0] && g.s0 == ranges[1] && g.r2 == ranges[2] && g.s2 == ranges[3] &&
    g.r4 == ranges[4] && g.s4 == ranges[5] && g.r6 == ranges[6] && g.s6 == ranges[7])
__CPROVER_requires((g.nranges <= 0 || ranges[0] != 0) && (g.nranges <= 2 || ranges[2] != 0) &&
    (g.nranges <= 4 || ranges[4] != 0) && (g.nranges <= 6 || ranges[6] != 0))
__CPROVER_requires(g.k >= len || g.kin == INRANGES(str[g.k]))
__CPROVER_assigns(g.c)
__CPROVER_ensures(R <= len)
__CPROVER_ensures(g.k >= R || !INRANGES(str[g.k]))
__CPROVER_ensures(R == len || INRANGES(str[R]))
;

/* A header is a path ending in ".h". */
int is_path_header(const char *path)
__CPROVER_requires(g.len <= MAXLEN && __CPROVER_is_fresh(path, g.len + 1))
__CPROVER_requires(PEQ((char *)g.base, (char *)path) && path[g.len] == 0)
__CPROVER_requires(g.k >= g.len || path[g.k] != 0)
__CPROVER_requires(g.dot >= g.len || path[g.dot] == '.')
/* dot is the last one, and the only NUL is the last byte: instances needed. */
__CPROVER_requires(g.dot < g.len ? (g.dot + 1 >= g.len || (path[g.dot + 1] != '.' && path[g.dot + 1] != 0)) :
    (g.len < 2 || path[g.len - 2] != '.'))
__CPROVER_requires(g.dot >= g.len || g.len < 2 || g.len - 2 <= g.dot || path[g.len - 2] != '.')
__CPROVER_requires(g.dot + 2 >= g.len || path[g.dot + 2] != 0)
__CPROVER_assigns()
__CPROVER_ensures((R != 0) == (g.len >= 2 && path[g.len - 2] == '.' && path[g.len - 1] == 'h'))
;

#define H1(name, fn, decl, ...) void h_##name(void) { decl; fn(__VA_ARGS__); VF_REACH("end"); }
H1(colwidth, colwidth, const char *s; size_t n; unsigned int c, s, n, c)
H1(strwidth, strwidth, const char *s; size_t n; size_t c, s, n, c)
H1(strindent, strindent_buffer, struct buffer *bf; size_t n; int t; size_t p, bf, n, t, p)
H1(match, KS_str_match_default, const char *s; size_t n; const char *r, s, n, r)
H1(match_until, KS_str_match_until_default, const char *s; size_t n; const char *r, s, n, r)
void
h_is_path_header(void)
{
	const char *s;

	if (is_path_header(s))
		VF_REACH("header");
	else
		VF_REACH("other");
}
#else
static char vf_str[VF_N + 1];
static size_t
vf_string(const char *alphabet)
{
	size_t i, n = nd_upto(VF_N);

	for (i = 0; i < n; i++)
		vf_str[i] = nd_alpha(alphabet);
	vf_str[n] = '\0';
	g.base = vf_str;
	g.len = n;
	g.pos = 0;
	return n;
}

#ifdef P_colwidth
void
b_colwidth(void)
{
	size_t i, n = vf_string("ab \t\t\n");
	unsigned int cno = (unsigned int)nd_upto(1 << 20);
	size_t ref = cno;

	KS_str_match_until = vf_until;
	for (i = 0; i < n; i++)
		ref = ref_col(ref, vf_str[i]);
	KS_str_match_until = KS_str_match_until_default;
	VF_ASSERT(colwidth(vf_str, n, cno) == ref, "column");
}
#endif
#ifdef P_strwidth
void
b_strwidth(void)
{
	size_t i, n = vf_string("ab \t\t\n");
	size_t ref, pos = nd_upto(1 << 20);

	ref = pos;
	for (i = 0; i < n; i++)
		ref = ref_pos(ref, vf_str[i]);
	KS_str_match_until = KS_str_match_until_default;
	VF_ASSERT(strwidth(vf_str, n, pos) == ref, "width");
}
#endif
#ifdef P_strindent
void
b_strindent(void)
{
	size_t indent = nd_upto(VF_N), pos = nd_upto(1 << 20), r;
	int usetabs = nd_bool();

	g.ref = pos;
	g.pos = 0;
	r = strindent_buffer(NULL, indent, usetabs, pos);
	VF_ASSERT(r == g.ref, "resulting column");
	VF_ASSERT(usetabs || (r == pos + indent && g.pos == indent), "spaces only");
	VF_ASSERT(!usetabs || pos % 8 != 0 || r == pos + indent, "indented by the requested amount");
}
#endif
static size_t
vf_ranges(char *r)
{
	size_t i, n = nd_upto(3);

	for (i = 0; i < n; i++) {
		r[2 * i] = nd_alpha("a0 \t");
		r[2 * i + 1] = nd_alpha("z9c \t");
		VF_ASSUME(r[2 * i] != '\0');
	}
	r[2 * n] = '\0';
	g.r0 = r[0]; g.s0 = r[1]; g.r2 = r[2]; g.s2 = r[3]; g.r4 = r[4]; g.s4 = r[5];
	g.nranges = 2 * n;
	return n;
}
void
b_match(void)
{
	char r[8] = {0};
	size_t i, n = vf_string("ab01 \t\xff");

	vf_ranges(r);
	for (i = 0; i < n && INRANGES(vf_str[i]); i++)
		continue;
	VF_ASSERT(KS_str_match_default(vf_str, n, r) == i, "longest prefix within the ranges");
}
void
b_match_until(void)
{
	char r[8] = {0};
	size_t i, n = vf_string("xy01 \t\xff");

	vf_ranges(r);
	for (i = 0; i < n && !INRANGES(vf_str[i]); i++)
		continue;
	VF_ASSERT(KS_str_match_until_default(vf_str, n, r) == i, "longest prefix outside the ranges");
}
void
b_is_path_header(void)
{
	size_t i, n = vf_string("ah./c");
	int h;

	for (i = 0; i < n; i++)
		VF_ASSUME(vf_str[i] != '\0');
	h = n >= 2 && vf_str[n - 2] == '.' && vf_str[n - 1] == 'h';
	VF_ASSERT((is_path_header(vf_str) != 0) == h, "header iff ending in .h");
}
#endif
