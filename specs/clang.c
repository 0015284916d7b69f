/*@ {
 'inst': ['clang.c'],
 'link': 'ALL',
 'loops': {'clang.c': {
   'clang_keyword': ['''__CPROVER_assigns(tk, pv, ch, g.off, g.eof, g.last, g.kwn, g.kwv, KWTOK_A)
       __CPROVER_loop_invariant(g.off <= k.len && g.off >= g.s && st.st_off == g.s && g.eof <= 1 && (!g.eof || g.off == k.len) && tk == NULL)
       __CPROVER_loop_invariant(g.kwn <= k.len && g.off - g.s == g.kwn + (g.eof ? 0 : 1))
       __CPROVER_loop_invariant(pv == NULL ? g.kwn == 0 : g.kwn >= 1 && g.kwv == 1 && pv == ((g.kwn & 1) ? &vf_kwtok1 : &vf_kwtok0) && !WORD(g.c0))
       __CPROVER_loop_invariant(pv == NULL || ((g.kwn & 1) ? PVTOK(vf_kwtok1) : PVTOK(vf_kwtok0)))
       __CPROVER_loop_invariant(pv == NULL || g.c0 != '.' || (g.kwn == 1 && !DIGIT(g.c1) && (g.c1 != '.' || g.c2 != '.')))
       __CPROVER_decreases(k.len - g.off, 1 - g.eof)'''],
   'clang_read_comment': ['''__CPROVER_assigns(ch, pch, oneline, g.off, g.eof, g.last)
       __CPROVER_loop_invariant(g.c + 2 <= g.off && g.off <= k.len && g.eof <= 1 && (!g.eof || g.off == k.len) && g.last == g.off)
       __CPROVER_loop_invariant(g.eof || (pch == 92) == (N1(g.off) == 92))
       __CPROVER_loop_invariant(!INS(k.K, st.st_off, g.off) || k.tk != 10 || N1(k.K) == 92 || FOL(k.K + 1))
       __CPROVER_decreases(k.len - g.off, 1 - g.eof)''',
      '''__CPROVER_assigns(ch, peek, oneline, g.off, g.eof, g.last)
       __CPROVER_loop_invariant(g.c + 2 <= g.off && g.off <= k.len && g.eof <= 1 && (!g.eof || g.off == k.len) && g.last == g.off)
       __CPROVER_loop_invariant(g.eof ? ch == 0 : g.off == g.c + 2 ? ch == 0 : ch == (unsigned char)k.base[g.off - 1])
       __CPROVER_loop_invariant(!INS(k.K, g.c + 2, g.off) || k.K + 1 >= g.off || k.tk != '*' || k.tk1 != '/')
       __CPROVER_decreases(k.len - g.off, 1 - g.eof)'''],
   'clang_read_cpp': ['''__CPROVER_assigns(ch, comment, quote, escape, g.off, g.eof, g.last)
       __CPROVER_loop_invariant(g.c < g.p0 && g.p0 <= g.off && g.off <= k.len && g.eof <= 1 && (!g.eof || g.off == k.len) && g.last <= g.off && (g.off == g.p0 || g.last == g.off))
       __CPROVER_loop_invariant(g.eof || (comment != 0) == (ST(g.off) == 2 || ST(g.off) == 3))
       __CPROVER_loop_invariant(g.eof || !comment || (quote == 0 && (ch == '*') == (ST(g.off) == 3)))
       __CPROVER_loop_invariant(g.eof || comment || (ch == 92) == (N1(g.off) == 92))
       __CPROVER_loop_invariant(g.eof || comment || quote || (ST(g.off) <= 1 && (ch == '/') == (ST(g.off) == 1)))
       __CPROVER_loop_invariant(g.eof || !quote || (quote == 34 && (ST(g.off) == 5 || ST(g.off) == 6)) || (quote == 39 && (ST(g.off) == 7 || ST(g.off) == 8)))
       __CPROVER_loop_invariant(quote || !escape)
       __CPROVER_loop_invariant(g.eof || !quote || (escape != 0) == (ST(g.off) == 6 || ST(g.off) == 8))
       __CPROVER_loop_invariant(!INS(k.K, g.p0, g.off) || k.tk != 10 || N1(k.K) == 92 || ST(k.K) == 2 || ST(k.K) == 3)
       __CPROVER_decreases(k.len - g.off, 1 - g.eof)'''],
   'clang_read': ['''__CPROVER_assigns(prefix, CURSOR_A, g.cov, g.pend[0], g.pend[1], g.pend[2], vf_slots[0], vf_slots[1], vf_cpptype)
       __CPROVER_loop_invariant(CURSOR && k.start <= g.off && COVERED && NOPEND)
       __CPROVER_decreases(k.len - g.off)''',
      '''__CPROVER_assigns(ch, pch, g.off, g.eof, g.last)
       __CPROVER_loop_invariant(g.qmark && g.q < g.off && CURSOR && (g.eof || (pch == 92) == (ESC(g.off) != 0)))
       __CPROVER_loop_invariant(!INS(k.K, g.q + 1, g.off) || k.tk != (char)delim || ESC(k.K))
       __CPROVER_decreases(k.len - g.off, 1 - g.eof)''',
      '''__CPROVER_assigns(ch, pch, g.off, g.eof, g.last, g.qmark, g.q)
       __CPROVER_loop_invariant(g.s < g.off && CURSOR && !g.eof && ch == (unsigned char)k.base[g.off - 1])
       __CPROVER_loop_invariant(!INS(k.K, g.s + 1, g.off) || NUM(k.tkm, k.tk))
       __CPROVER_decreases(k.len - g.off, 1 - g.eof)''',
      '''__CPROVER_assigns(ncomments, CURSOR_A, g.cov, g.pend[0], g.pend[1], g.pend[2], vf_slots[0])
       __CPROVER_loop_invariant(CURSOR && g.mend <= g.off && k.start <= g.off && COVERED && NOPEND && ncomments >= 0 && (size_t)ncomments <= g.off)
       __CPROVER_decreases(k.len - g.off)''', None],
   'sense_clang_format_comment': ['''__CPROVER_assigns(len, str)
       __CPROVER_loop_invariant(len <= tk->tk_len && str == tk->tk_str + (tk->tk_len - len) && tk->tk_len - len <= k.n)
       __CPROVER_decreases(len)'''],
 }},
 'cuts': {'clang.c': {'clang_read_comment': {'again': ('''
    vf_start();
    VF_ASSERT(AGAIN, "lines of comments: base");
    if (nd_bool()) {
        g.off = nd_size(); g.last = nd_size(); g.eof = 0; oneline = 0; g.lines = 1;
        VF_ASSUME(AGAIN);
    }
    vf_again();''', '''
    g.lines = 1; VF_ASSERT(AGAIN, "lines of comments: step"); VF_ASSERT(g.off > g.again, "lines of comments: decreases"); VF_ASSUME(0);''')}}},
 'assumes': [
   'the cursor (lexer_getc and so on) behaves as proved for C08; comment_trim, token_prolong (C10) and cpp_align (C16) only change blanks; cpp_include_add and cpp_include_leave (C15) only reorder',
   'N1, ESC, ST, FOL, NS (state of the reference scanner at an offset) are mathematical functions; instances of their recursive definitions are assumed where needed',
   'the table of keywords is seen through a ghost function of the length; no keyword is a single letter, digit, underscore or quote; the table itself is only covered by the stand-in',
   'character classification of the C locale; linking of #if branches (LIST_FOREACH at the end of clang_read) is dropped',
 ],
 'proofs': [
  {'name': 'isnum', 'fn': 'isnum', 'bounded': 'b_tokenize', 'nobmc': True},
  {'name': 'ellipsis', 'fn': 'clang_ellipsis', 'bounded': 'b_tokenize', 'nobmc': True},
  {'name': 'keyword', 'fn': 'clang_keyword', 'replace': ['clang_ellipsis'], 'bounded': 'b_tokenize', 'nobmc': True},
  {'name': 'find_cpp', 'fn': 'clang_find_cpp', 'bounded': 'b_tokenize', 'nobmc': True},
  {'name': 'peek_c99', 'fn': 'peek_c99_comment', 'bounded': 'b_tokenize', 'nobmc': True},
  {'name': 'read_comment', 'fn': 'clang_read_comment', 'timeout': 700, 'cost': 10, 'cbmc': ['--sat-solver', 'cadical'], 'replace': ['peek_c99_comment', 'sense_clang_format_comment'], 'bounded': 'b_tokenize', 'nobmc': True},
  {'name': 'sense', 'fn': 'sense_clang_format_comment', 'bounded': 'b_sense', 'nobmc': True},
  {'name': 'read_cpp', 'fn': 'clang_read_cpp', 'replace': ['clang_find_cpp'], 'bounded': 'b_tokenize', 'nobmc': True},
  {'name': 'read_prefix', 'fn': 'clang_read_prefix', 'replace': ['clang_read_comment', 'clang_read_cpp', 'token_prolong'], 'bounded': 'b_tokenize', 'nobmc': True},
  {'name': 'read', 'fn': 'clang_read', 'cbmc': ['--object-bits', '10', '--sat-solver', 'cadical'], 'replace': ['clang_read_prefix', 'clang_read_comment', 'clang_keyword'], 'bounded': 'b_tokenize', 'nobmc': True},
 ],
} @*/
#ifdef VF_NATIVE
#define VF_REAL_ERRNO
#endif
#include "vf.h"

#include <assert.h>
#include <ctype.h>
#include <err.h>
#include <stdio.h>
#include <string.h>

#include "libks/arena-buffer.h"
#include "libks/arena.h"
#include "libks/buffer.h"
#include "libks/list.h"
#include "libks/map.h"
#include "libks/vector.h"
#include "SRC/token.h"
#include "SRC/clang.h"
#include "SRC/lexer.h"
#include "SRC/trace-types.h"
#include "SRC/trace.h"
#include "SRC/comment.h"
#include "SRC/cpp-align.h"
#include "SRC/cpp-include.h"

#define MAXLEN ((size_t)1 << 30)

#define INS(k, a, b) ((k) >= (a) && (k) < (b))
#define BL(c) ((c) == ' ' || (c) == '\t' || (c) == '\r' || (c) == '\n' || (c) == '\f')
#define SP(c) ((c) == ' ' || (c) == '\t' || (c) == '\f')
#define DIGIT(c) ((c) >= '0' && (c) <= '9')
#define ALPHA(c) (((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z') || (c) == '_')
#define IDENT(c) (ALPHA(c) || DIGIT(c))
#define NUM(p, c) ((c) == '+' || (c) == '-' ? (p) == 'e' || (p) == 'E' || (p) == 'p' || (p) == 'P' : IDENT(c) || (c) == '.')

#ifdef VF_PROOF
/* Constants. */
struct gconst {
	const char *base;	/* source */
	size_t len;
	size_t start;		/* initial cursor */
	unsigned int eof0;
	size_t K;		/* arbitrary offset */
	char tkm, tk, tk1;	/* bytes around it */
	size_t n;		/* leading spaces */
};
struct gconst k;
struct ghost {
	size_t off;		/* cursor */
	unsigned int eof;
	size_t last;		/* cursor after the last byte (un)read */
	int mark, qmark;	/* c, q is set */
	size_t s, c, p0, q;	/* beginning of token, comment, directive, literal */
	char c0, c1, c2;	/* bytes at s */
	size_t again;
	int lines;
	int cov;		/* number of tokens covering K */
	int pend[3];		/* tokens not part of any list */
	size_t kwn;		/* length of the last candidate, and */
	int kwv;		/* 0 none, 1 ambiguous, 2 keyword */
	size_t beg, end;	/* range of the token last emitted */
	size_t mbeg, mend;	/* same for the main token */
	int mtype;
	unsigned int mflags;
};
struct ghost g;

/* Last byte in front of the offset, not counting carriage returns. */
char vf_n1[__CPROVER_constant_infinity_uint];
/* The byte is escaped, while inside a literal. */
__CPROVER_bool vf_esc[__CPROVER_constant_infinity_uint];
/*
 * State of a directive: 1 after slash, 2 comment, 3 after asterisk in comment, 5
 * string, 6 after backslash in string, 7 character, 8 likewise.
 */
unsigned char vf_st[__CPROVER_constant_infinity_uint];
/* Spaces and // follow. */
__CPROVER_bool vf_fol[__CPROVER_constant_infinity_uint];
/* First offset at or after which does not hold a space. */
size_t vf_ns[__CPROVER_constant_infinity_uint];
/* Offset after blank lines and spaces, and the beginning of that line. */
size_t vf_nb[__CPROVER_constant_infinity_uint];
size_t vf_nl[__CPROVER_constant_infinity_uint];
#define N1(o) (vf_n1[o])
#define ESC(o) (vf_esc[o])
#define ST(o) (vf_st[o])
#define FOL(o) (vf_fol[o])
#define NS(o) (vf_ns[o])
#define NB(o) (vf_nb[o])
#define NL(o) (vf_nl[o])

struct vf_slot {
	struct token t;
	unsigned char priv[64];
};
/* Comment, directive, space and everything else. */
struct vf_slot vf_slots[4];
struct token vf_kwtok0, vf_kwtok1, vf_kwtok2;
const struct token *vf_kwp0, *vf_kwp1, *vf_kwp2;
#define PVTOK(t) ((t).tk_len == g.kwn && (t).tk_str != NULL && (t).tk_flags == TOKEN_FLAG_AMBIGUOUS && ((t).tk_type == TOKEN_PERIOD || (t).tk_type == TOKEN_AMP))
#define KWTOK_A vf_kwtok0, vf_kwtok1, vf_kwtok2, vf_kwp0, vf_kwp1, vf_kwp2

#define CURSOR_A g.off, g.eof, g.last, g.mark, g.c, g.p0, g.again, g.lines, g.beg, g.end
#define CURSOR (g.off <= k.len && g.eof <= 1 && (!g.eof || g.off == k.len))
#define NOPEND (!g.pend[0] && !g.pend[1] && !g.pend[2])
#define WORD(c) (IDENT(c) || (c) == '"' || (c) == '\'' || BL(c))
#define BLANKS(a, b) (!INS(k.K, (a), (b)) || BL(k.tk))
#define COVERED (INS(k.K, k.start, g.off) ? g.cov == 1 || (g.cov == 0 && BL(k.tk)) : g.cov == 0)

static int
vf_isdigit(int c)
{
	return DIGIT(c);
}
static int
vf_isalpha(int c)
{
	return ALPHA(c) && c != '_';
}
static int
vf_isspace(int c)
{
	return BL(c) || c == '\v';
}
#undef isdigit
#undef isalpha
#undef isalnum
#undef isspace
#define isdigit(c) vf_isdigit(c)
#define isalpha(c) vf_isalpha(c)
#define isalnum(c) (vf_isalpha(c) || vf_isdigit(c))
#define isspace(c) vf_isspace(c)

static char
at(size_t i)
{
	return k.base[i];
}
/* The byte at the offset, NUL at the end. */
static char
at0(size_t i)
{
	return i < k.len ? k.base[i] : '\0';
}
/* The definition of the state after the byte at the given offset. */
static void
vf_def(size_t i)
{
	char c = k.base[i], n = N1(i);
	unsigned char s = ST(i), t;

	VF_ASSUME(N1(i + 1) == (c == '\r' ? n : c));
	VF_ASSUME(ESC(i + 1) == (c == '\\' && !ESC(i)));
	if (c == '\r')
		t = s;
	else if (s == 2 || s == 3)
		t = s == 3 && c == '/' ? 0 : c == '*' ? 3 : 2;
	else if (s == 5 || s == 7)
		t = c == '\\' ? s + 1 : c == (s == 5 ? '"' : '\'') ? 0 : s;
	else if (s == 6 || s == 8)
		t = s - 1;
	else if (s == 1 && c == '*')
		t = 2;
	else if (c == '"' || c == '\'')
		t = c == '"' ? 5 : 7;
	else
		t = c == '/';
	VF_ASSUME(ST(i + 1) == t);
}
static int
deffol(size_t o)
{
	size_t n = NS(o);

	return FOL(o) == (n < k.len && at(n) == '/' && at0(n + 1) == '/');
}
static int
defns(size_t o)
{
	size_t n = NS(o);

	return n >= o && n <= k.len && (!INS(k.K, o, n) || SP(k.tk)) && (n == k.len || !SP(at(n))) &&
	    (n == o || SP(at(n - 1)));
}
static int
defnb(size_t o)
{
	size_t n = NB(o), l = NL(o), s = NS(o);

	return n >= o && n <= k.len && l >= o && l <= n && BLANKS(o, n) &&
	    (!INS(k.K, l, n) || k.tk != '\n') &&
	    (l == o || at(l - 1) == '\n') && (n == k.len || !SP(at(n))) &&
	    /* Nothing but spaces, if something else follows them. */
	    ((s < k.len && BL(at(s))) || (n == s && l == o));
}

static void
vf_start(void)
{
	VF_ASSUME(defns(k.start));
	VF_ASSUME(defnb(k.start));
}
static void
vf_again(void)
{
	g.again = g.off;
	g.mark = 0;
	VF_ASSUME(defns(g.off));
	VF_ASSUME(deffol(g.off));
	VF_ASSUME(defnb(g.off));
	VF_ASSUME(defns(k.start));
	VF_ASSUME(defnb(k.start));
}

struct lexer_state
lexer_get_state(const struct lexer *lx)
{
	struct lexer_state st = {0};

	(void)lx;
	st.st_off = g.off;
	st.st_flags.eof = g.eof & 1;
	return st;
}

void
lexer_set_state(struct lexer *lx, const struct lexer_state *st)
{
	(void)lx;
	g.off = st->st_off;
	g.eof = st->st_flags.eof;
}

int
lexer_eof(const struct lexer *lx)
{
	(void)lx;
	return g.off == k.len;
}

int
lexer_getc(struct lexer *lx, unsigned char *ch)
{
	(void)lx;
	if (g.off == k.len) {
		if (g.eof)
			return 1;
		g.eof = 1;
		*ch = '\0';
		return 0;
	}
	vf_def(g.off);
	*ch = (unsigned char)k.base[g.off];
#if defined(P_read_comment) || defined(P_read_cpp)
	/* Where the comment or directive begins. */
	if (!g.mark) {
		g.c = g.off;
		g.mark = 1;
	}
#endif
#ifdef P_read
	if (!g.qmark && (*ch == '"' || *ch == '\'')) {
		g.q = g.off;
		g.qmark = 1;
		VF_ASSUME(!ESC(g.off + 1));
	}
#endif
	g.off++;
	g.last = g.off;
	return 0;
}

void
lexer_ungetc(struct lexer *lx)
{
	(void)lx;
	if (g.eof)
		return;
	VF_ASSERT(g.off > 0, "something to un-read");
	g.off--;
	g.last = g.off;
}

static struct token *
vf_emit1(struct token *t, int *pend, size_t beg, const struct token *tpl)
{
	VF_ASSERT(beg <= g.off, "range of the token");
	if (pend == NULL) {
		VF_ASSERT(tpl->tk_str == NULL || tpl->tk_len == g.off - beg, "text of the keyword");
		g.mbeg = beg;
		g.mend = g.off;
		g.mtype = tpl->tk_type;
		g.mflags = tpl->tk_flags;
	} else {
		VF_ASSERT(!*pend, "the previous token is kept");
		*pend = 1;
		g.beg = beg;
		g.end = g.off;
	}
	t->tk_type = tpl->tk_type;
	t->tk_flags = tpl->tk_flags;
	t->tk_str = tpl->tk_str == NULL ? k.base + beg : tpl->tk_str;
	t->tk_len = tpl->tk_str == NULL ? g.off - beg : tpl->tk_len;
	if (tpl->tk_type != TOKEN_SPACE && INS(k.K, beg, g.off))
		g.cov++;
	return t;
}
static struct token *
vf_emit(size_t beg, const struct token *tpl)
{
	if (tpl->tk_type == TOKEN_COMMENT || (tpl->tk_flags & TOKEN_FLAG_CPP) != 0)
		VF_ASSERT(tpl->tk_str == NULL, "text of the source");
	if (tpl->tk_type == TOKEN_COMMENT)
		return vf_emit1(&vf_slots[0].t, &g.pend[0], beg, tpl);
	if ((tpl->tk_flags & TOKEN_FLAG_CPP) != 0)
		return vf_emit1(&vf_slots[1].t, &g.pend[1], beg, tpl);
	if (tpl->tk_type == TOKEN_SPACE)
		return vf_emit1(&vf_slots[2].t, &g.pend[2], beg, tpl);
	return vf_emit1(&vf_slots[3].t, NULL, beg, tpl);
}

struct token *
lexer_emit(struct lexer *lx, const struct lexer_state *st, int token_type)
{
	struct token template = {0};

	(void)lx;
	template.tk_type = token_type;
	return vf_emit(st->st_off, &template);
}

struct token *
lexer_emit_template(struct lexer *lx, const struct lexer_state *st, const struct token *tk)
{
	(void)lx;
#ifdef P_keyword
	if (tk == &vf_kwtok0)
		return vf_emit1(&vf_slots[3].t, NULL, st->st_off, &vf_kwtok0);
	if (tk == &vf_kwtok1)
		return vf_emit1(&vf_slots[3].t, NULL, st->st_off, &vf_kwtok1);
	VF_ASSERT(tk == &vf_kwtok2, "one of the keywords");
	return vf_emit1(&vf_slots[3].t, NULL, st->st_off, &vf_kwtok2);
#else
	return vf_emit(st->st_off, tk);
#endif
}

int
lexer_eat_spaces(struct lexer *lx, struct token **tk)
{
	struct lexer_state st = lexer_get_state(lx);

	VF_ASSUME(defns(g.off));
	if (NS(g.off) == g.off)
		return 0;
	g.off = NS(g.off);
	vf_def(g.off - 1);
	if (tk != NULL)
		*tk = lexer_emit(lx, &st, TOKEN_SPACE);
	return 1;
}

int
lexer_eat_lines(struct lexer *lx, int threshold, struct token **tk)
{
	size_t o = nd_size();
	struct lexer_state st = lexer_get_state(lx);
	int n = nd_int();

	VF_ASSUME(o >= g.off && o <= k.len && n >= 0);
	VF_ASSUME(BLANKS(g.off, o));
	VF_ASSUME(o == g.off ? n == 0 : at(o - 1) == '\n' && (n > 0 || threshold > 0));
	g.off = o;
	if (n > 0 && tk != NULL) {
		struct token template = {0};

		template.tk_type = TOKEN_SPACE;
		template.tk_str = "\n";
		template.tk_len = 1;
		*tk = lexer_emit_template(lx, &st, &template);
	}
	return n;
}

void
lexer_eat_lines_and_spaces(struct lexer *lx, struct lexer_state *st)
{
	(void)lx;
	VF_ASSUME(defns(g.off) && defnb(g.off));
	if (st != NULL && NL(g.off) > g.off)
		st->st_off = NL(g.off);
	g.off = NB(g.off);
	if (g.off > 0)
		vf_def(g.off - 1);
#if defined(P_keyword) || defined(P_read)
	g.s = g.off;
	g.c0 = at0(g.s);
	g.c1 = at0(g.s + 1);
	g.c2 = at0(g.s + 2);
#endif
}

static int
inranges(char c, int ident)
{
	return ident ? IDENT(c) : c >= 'a' && c <= 'z';
}

size_t
lexer_match(struct lexer *lx, const char *ranges)
{
	size_t o = nd_size(), n;
	int ident = ranges[0] == 'A';

	(void)lx;
	if (ident)
		VF_ASSERT(ranges[1] == 'Z' && ranges[2] == 'a' && ranges[3] == 'z' && ranges[4] == '0' && ranges[5] == '9' && ranges[6] == '_' && ranges[7] == '_' && ranges[8] == '\0', "ranges of identifiers");
	else
		VF_ASSERT(ranges[0] == 'a' && ranges[1] == 'z' && ranges[2] == '\0', "ranges of directives");
	VF_ASSUME(o >= g.off && o <= k.len);
	VF_ASSUME(!INS(k.K, g.off, o) || inranges(k.tk, ident));
	if (o < k.len)
		VF_ASSUME(!inranges(at(o), ident));
	n = o - g.off;
	if (n > 0) {
		VF_ASSUME(inranges(at(o - 1), ident));
		vf_def(o - 1);
	}
	g.off = o;
#ifdef P_read_cpp
	g.p0 = o;
	VF_ASSUME(ST(o) == 0);
#endif
	return n;
}

const char *
lexer_buffer_slice(const struct lexer *lx, const struct lexer_state *st, size_t *len)
{
	(void)lx;
	VF_ASSERT(st->st_off <= g.off, "slice");
	*len = g.off - st->st_off;
	if (*len == 0)
		return NULL;
	return &k.base[st->st_off];
}

static const struct token **
vf_keyword1(struct token *t, const struct token **p, char c, size_t n)
{
	t->tk_str = "keyword";
	t->tk_len = n;
	t->tk_type = c == '.' ? (n == 1 ? TOKEN_PERIOD : TOKEN_ELLIPSIS) : c == '\\' ? TOKEN_BACKSLASH : TOKEN_AMP;
	t->tk_flags = g.kwv == 1 ? TOKEN_FLAG_AMBIGUOUS : c == '\\' ? TOKEN_FLAG_DISCARD : 0;
	*p = t;
	return p;
}
static const struct token **
vf_find_clang_tokens(const char *key, size_t n)
{
	char c = key[0];

	VF_ASSERT(key == k.base + g.s && n >= 1 && n <= k.len - g.s, "text of the candidate");
	if (n != g.kwn) {
#ifndef P_read
		VF_ASSERT((c == '.' && n == 3) || (n == g.kwn + 1 && (n == 1 || g.kwv == 1)), "candidates grow one byte at a time");
#endif
		g.kwn = n;
		g.kwv = nd_int();
		VF_ASSUME(g.kwv >= 0 && g.kwv <= 2);
		if (n == 1 && WORD(c))
			VF_ASSUME(g.kwv == 0);
		if (c == '.')
			VF_ASSUME(g.kwv == (n == 1 ? 1 : n == 3 && key[1] == '.' && key[2] == '.' ? 2 : 0));
		if (c == '\\')
			VF_ASSUME(g.kwv == (n == 1 ? 2 : 0));
	}
	if (g.kwv == 0)
		return NULL;
	if (c == '.' && n == 3)
		return vf_keyword1(&vf_kwtok2, &vf_kwp2, c, n);
	if ((n & 1) == 0)
		return vf_keyword1(&vf_kwtok0, &vf_kwp0, c, n);
	return vf_keyword1(&vf_kwtok1, &vf_kwp1, c, n);
}
static int vf_cpptype;
static int *
vf_find_cpp_token_types(const char *key, size_t n)
{
	VF_ASSERT(key == k.base + g.s && n == g.off - g.s, "text of the directive name");
	VF_ASSUME(vf_cpptype >= TOKEN_CPP_IF && vf_cpptype <= TOKEN_CPP_INCLUDE);
	return nd_bool() ? &vf_cpptype : NULL;
}
static int *
vf_find_clang_identifiers(const char *key, size_t n)
{
	(void)key;
	(void)n;
	return NULL;
}
#undef MAP_FIND_N
#define MAP_FIND_N(m, k, n) ((void *)vf_find_##m((k), (n)))

struct token vf_prefix;
#undef LIST_LAST
#define LIST_LAST(head) (nd_bool() ? &vf_prefix : (struct token *)NULL)
#undef LIST_CONCAT
#define LIST_CONCAT(a, b) vf_concat((a), (b))
#undef LIST_FOREACH
#define LIST_FOREACH(var, head) for ((var) = NULL; (var) != NULL; (var) = NULL)

static void vf_concat(struct token_list *dst, struct token_list *src);

void
token_list_append(struct token_list *list, struct token *tk)
{
	int i = tk == &vf_slots[0].t ? 0 : tk == &vf_slots[1].t ? 1 : 2;

	(void)list;
	VF_ASSERT(tk == &vf_slots[i].t && g.pend[i], "each token is added once");
	g.pend[i] = 0;
}

int
token_cmp(const struct token *a, const struct token *b)
{
	(void)a;
	(void)b;
	return nd_int();
}

void
token_set_str(struct token *tk, const char *str, size_t len)
{
	tk->tk_str = str;
	tk->tk_len = len;
}

static char vf_buffer[1];
struct buffer *
comment_trim(const struct token *tk, const struct style *st, struct arena_scope *s)
{
	(void)st;
	(void)s;
	VF_ASSERT(tk == &vf_slots[0].t, "text of the comment");
	return nd_bool() ? (struct buffer *)vf_buffer : NULL;
}
struct buffer *
cpp_align(struct token *tk, const struct style *st, struct arena_scope *e, struct arena *s, const struct options *op)
{
	(void)st;
	(void)s;
	(void)e;
	(void)op;
	VF_ASSERT(tk == &vf_slots[1].t, "text of the directive");
	return nd_bool() ? (struct buffer *)vf_buffer : NULL;
}
const char *
buffer_get_ptr(const struct buffer *bf)
{
	VF_ASSERT((char *)bf == vf_buffer, "buffer");
	return vf_buffer;
}
size_t
buffer_get_len(const struct buffer *bf)
{
	(void)bf;
	return nd_size();
}
void
cpp_include_add(struct cpp_include *ci, struct lexer *lx, struct token *tk)
{
	(void)ci;
	(void)lx;
	(void)tk;
}
void
cpp_include_leave(struct cpp_include *ci, struct lexer *lx)
{
	(void)ci;
	(void)lx;
}
#undef trace
#define trace(...) ((void)0)
#define err(...) VF_ASSUME(0)
static int
vf_strncmp(const char *a, const char *b, size_t n)
{
	VF_ASSERT(n < 16, "needle");
#define CMP(i) if (n <= i) return 0; if (a[i] != b[i]) return 1; if (b[i] == '\0') return 0
	CMP(0); CMP(1); CMP(2); CMP(3); CMP(4); CMP(5); CMP(6); CMP(7);
	CMP(8); CMP(9); CMP(10); CMP(11); CMP(12); CMP(13); CMP(14);
	return 0;
}
#define strncmp(a, b, n) vf_strncmp((a), (b), (n))
#undef arena_scope
static struct arena_scope vf_scope;
#define arena_scope(a, n) struct arena_scope n = vf_scope

/* At the beginning of each line of a sequence of line comments. */
#define COMMENT_AT (block ? NB(k.start) : NS(k.start))
#define AGAIN (g.cov == 0 && NOPEND && g.off <= k.len && oldst.st_off == k.start && oldst.st_flags.eof == k.eof0 && \
    st.st_off <= g.off && k.start <= st.st_off && BLANKS(k.start, st.st_off) && \
    (g.lines ? g.off > k.start && FOL(g.off) && g.eof == 0 && \
      COMMENT_AT + 2 <= g.off && at0(COMMENT_AT) == '/' && at0(COMMENT_AT + 1) == '/' && st.st_off <= COMMENT_AT && BLANKS(st.st_off, COMMENT_AT) && \
      (!INS(k.K, st.st_off, g.off) || k.tk != '\n' || N1(k.K) == '\\' || FOL(k.K + 1)) : \
      g.off == k.start && st.st_off == g.off && g.eof == k.eof0))
#endif

#include "SRC/clang.c"

#ifdef VF_PROOF
#define R __CPROVER_return_value
#define OLD(e) __CPROVER_old(e)

static void
vf_concat(struct token_list *dst, struct token_list *src)
{
	VF_ASSERT(dst == &vf_slots[3].t.tk_prefixes, "prefixes of the token");
	(void)src;
}

/* Any cursor. */
#define LX0 \
__CPROVER_requires(k.len <= MAXLEN && g.off <= k.len && k.start == g.off && g.eof <= 1 && (!g.eof || g.off == k.len) && k.eof0 == g.eof) \
__CPROVER_requires(__CPROVER_is_fresh(k.base, k.len + 1)) \
__CPROVER_requires(k.K >= k.len || (k.tk == k.base[k.K] && k.tk1 == k.base[k.K + 1] && (k.K == 0 || k.tkm == k.base[k.K - 1]))) \
__CPROVER_requires(g.cov == 0 && NOPEND && !g.mark && !g.qmark && !g.lines && g.again == g.off && g.kwn == 0)
/* Nothing is consumed. */
#define NOTHING (g.off == OLD(g.off) && g.eof == OLD(g.eof) && g.cov == OLD(g.cov))
/* Everything consumed is blank or part of the token. */
#define CONSUMED (g.off > OLD(g.off) && CURSOR && (INS(k.K, OLD(g.off), g.off) ? \
    g.cov == OLD(g.cov) + 1 || (g.cov == OLD(g.cov) && BL(k.tk)) : g.cov == OLD(g.cov)))

static int isnum(unsigned char pch, unsigned char ch)
__CPROVER_assigns()
__CPROVER_ensures((R != 0) == (NUM(pch, ch) != 0))
;

/* Two more dots, or nothing. */
static const struct token *clang_ellipsis(struct lexer *lx, const struct lexer_state *st)
#ifdef P_ellipsis
LX0
__CPROVER_requires(__CPROVER_is_fresh(st, sizeof(*st)))
#endif
__CPROVER_requires(CURSOR && g.s < k.len && st->st_off == g.s && g.off == g.s + 1)
__CPROVER_requires(k.base[g.s] == '.')
__CPROVER_assigns(g.off, g.eof, g.last, g.kwn, g.kwv, vf_kwtok2, vf_kwp2)
__CPROVER_ensures(R == NULL ? g.off == g.s + 1 && g.eof == OLD(g.eof) && !(at0(g.s + 1) == '.' && at0(g.s + 2) == '.') && g.kwn == OLD(g.kwn) && g.kwv == OLD(g.kwv) :
    g.off == g.s + 3 && g.eof == 0 && at0(g.s + 1) == '.' && at0(g.s + 2) == '.' && g.kwn == 3 && g.kwv == 2)
__CPROVER_ensures(R == NULL || PEQ(R, &vf_kwtok2))
__CPROVER_ensures(R == NULL || (vf_kwtok2.tk_len == 3 && vf_kwtok2.tk_str != NULL && vf_kwtok2.tk_type == TOKEN_ELLIPSIS && vf_kwtok2.tk_flags == 0))
;

/* The longest operator, if any. */
static struct token *clang_keyword(struct lexer *lx)
#ifdef P_keyword
LX0
__CPROVER_assigns(g.off, g.eof, g.last, g.cov, g.s, g.c0, g.c1, g.c2, g.kwn, g.kwv, g.mbeg, g.mend, g.mtype, g.mflags, KWTOK_A, vf_slots[3])
#else
__CPROVER_requires(CURSOR && g.kwn == 0 && NOPEND)
__CPROVER_assigns(g.off, g.eof, g.last, g.cov, g.s, g.c0, g.c1, g.c2, g.kwn, g.kwv, g.mbeg, g.mend, g.mtype, g.mflags, KWTOK_A, vf_slots[3])
#endif
__CPROVER_ensures(CURSOR && g.s >= OLD(g.off) && g.s <= k.len && BLANKS(OLD(g.off), g.s) && g.s == NB(OLD(g.off)))
__CPROVER_ensures(g.c0 == at0(g.s) && g.c1 == at0(g.s + 1) && g.c2 == at0(g.s + 2))
/* Nothing: not an operator. */
__CPROVER_ensures(R != NULL || (g.off == g.s && g.eof == OLD(g.eof) && g.cov == OLD(g.cov) && (g.s == k.len || (g.kwn == 1 && g.kwv == 0) || (g.c0 == '.' && DIGIT(g.c1)))))
__CPROVER_ensures(R == NULL || (PEQ(R, &vf_slots[3].t) && g.mbeg == g.s && g.mend == g.off && g.off > g.s && g.cov == OLD(g.cov) + (INS(k.K, g.s, g.off) ? 1 : 0) && !WORD(g.c0)))
__CPROVER_ensures(R != NULL || g.s == k.len || g.c0 != '.' || DIGIT(g.c1))
#define LONGEST ((g.kwn == g.mend - g.s && (g.kwv == 2 || (g.kwv == 1 && g.mend == k.len))) || (g.kwn == g.mend - g.s + 1 && g.kwv == 0))
__CPROVER_ensures(R == NULL || LONGEST)
__CPROVER_ensures(R == NULL || g.c0 != '.' || (g.c1 == '.' && g.c2 == '.' ? g.mend == g.s + 3 : g.mend == g.s + 1 && !DIGIT(g.c1)))
__CPROVER_ensures(R == NULL || (vf_slots[3].t.tk_flags == g.mflags && vf_slots[3].t.tk_type == g.mtype && (g.mtype == TOKEN_PERIOD || g.mtype == TOKEN_ELLIPSIS || g.mtype == TOKEN_BACKSLASH || g.mtype == TOKEN_AMP)))
;

static int clang_find_cpp(const struct lexer *lx, const struct lexer_state *st, int fallback)
#ifdef P_find_cpp
LX0
__CPROVER_requires(__CPROVER_is_fresh(st, sizeof(*st)) && st->st_off == g.s)
#endif
__CPROVER_requires(st->st_off <= g.off)
__CPROVER_assigns(vf_cpptype)
__CPROVER_ensures(R == fallback || (R >= TOKEN_CPP_IF && R <= TOKEN_CPP_INCLUDE))
;

static int peek_c99_comment(struct lexer *lx)
#ifdef P_peek_c99
LX0
__CPROVER_requires(defns(g.off) && deffol(g.off))
#endif
__CPROVER_requires(CURSOR)
__CPROVER_assigns(g.off, g.eof, g.last)
__CPROVER_ensures(NOTHING && (R != 0) == FOL(g.off))
;

static unsigned int sense_clang_format_comment(const struct token *tk)
#ifdef P_sense
__CPROVER_requires(k.len <= MAXLEN && k.n <= k.len && __CPROVER_is_fresh(tk, sizeof(*tk)) && __CPROVER_is_fresh(tk->tk_str, k.len))
__CPROVER_requires(tk->tk_len == k.len && PEQ((char *)k.base, (char *)tk->tk_str))
/* The first byte which is no space. */
__CPROVER_requires(k.n == k.len || !vf_isspace(k.base[k.n]))
#endif
__CPROVER_assigns()
#ifdef P_sense
__CPROVER_ensures(R == 0 || R == TOKEN_FLAG_COMMENT_CLANG_FORMAT_OFF || R == TOKEN_FLAG_COMMENT_CLANG_FORMAT_ON)
#else
__CPROVER_ensures((R & ~(TOKEN_FLAG_COMMENT_CLANG_FORMAT_OFF | TOKEN_FLAG_COMMENT_CLANG_FORMAT_ON)) == 0)
#endif
;

/* A comment is consumed from its opener up to its terminator. */
static struct token *clang_read_comment(struct clang *cl, struct lexer *lx, int block)
#ifdef P_read_comment
LX0
__CPROVER_requires(__CPROVER_is_fresh(cl, sizeof(*cl)))
#endif
__CPROVER_requires(CURSOR && !g.pend[0] && (block == 0 || block == 1))
__CPROVER_assigns(CURSOR_A, g.cov, g.pend[0], vf_slots[0])
__CPROVER_ensures(R == NULL ? NOTHING && g.pend[0] == 0 : CONSUMED && g.pend[0] == 1)
__CPROVER_ensures(R == NULL || (PEQ(R, &vf_slots[0].t) && vf_slots[0].t.tk_type == TOKEN_COMMENT))
#ifdef P_read_comment
/* None is missed. */
__CPROVER_ensures((R != NULL) == (COMMENT_AT < k.len && at0(COMMENT_AT) == '/' && (at0(COMMENT_AT + 1) == '/' || at0(COMMENT_AT + 1) == '*')))
__CPROVER_ensures(R == NULL || (g.beg <= g.c && g.c + 2 <= g.last && g.last <= g.end && g.end <= g.off && at0(g.c) == '/' && BLANKS(g.beg, COMMENT_AT) && BLANKS(g.last, g.off)))
/* Up to the first terminator. */
__CPROVER_ensures(R == NULL || at0(g.c + 1) != '*' || (g.c == COMMENT_AT && (!INS(k.K, g.c + 2, g.last) || k.K + 2 >= g.last || k.tk != '*' || k.tk1 != '/')))
__CPROVER_ensures(R == NULL || at0(g.c + 1) != '*' || g.eof || (g.last >= g.c + 4 && at0(g.last - 1) == '/' && at0(g.last - 2) == '*'))
/* Up to the end of the line, spliced lines and lines of comments included. */
__CPROVER_ensures(R == NULL || at0(g.c + 1) == '*' || !INS(k.K, g.beg, g.last) || k.tk != '\n' || N1(k.K) == '\\' || FOL(k.K + 1))
__CPROVER_ensures(R == NULL || at0(g.c + 1) == '*' || g.last == k.len || (at0(g.last) == '\n' && N1(g.last) != '\\' && !FOL(g.last + 1)))
__CPROVER_ensures(R == NULL || ((vf_slots[0].t.tk_flags & TOKEN_FLAG_COMMENT_C99) != 0) == (at0(g.c + 1) == '/'))
#else
__CPROVER_ensures(R != NULL || block == 0 || NB(g.off) >= k.len || at0(NB(g.off)) != '/' || (at0(NB(g.off) + 1) != '/' && at0(NB(g.off) + 1) != '*'))
#endif
;

/* A directive is consumed up to the end of its last line. */
static struct token *clang_read_cpp(struct clang *cl, struct lexer *lx)
#ifdef P_read_cpp
LX0
__CPROVER_requires(__CPROVER_is_fresh(cl, sizeof(*cl)))
#endif
__CPROVER_requires(CURSOR && !g.pend[1])
__CPROVER_assigns(CURSOR_A, g.cov, g.pend[1], vf_slots[1], vf_cpptype)
__CPROVER_ensures(R == NULL ? NOTHING && g.pend[1] == 0 : CONSUMED && g.pend[1] == 1)
__CPROVER_ensures(R == NULL || (PEQ(R, &vf_slots[1].t) && vf_slots[1].t.tk_type != TOKEN_COMMENT && (vf_slots[1].t.tk_flags & TOKEN_FLAG_CPP) != 0))
#ifdef P_read_cpp
__CPROVER_ensures((R != NULL) == (NB(k.start) < k.len && at0(NB(k.start)) == '#'))
__CPROVER_ensures(R == NULL || (g.c == NB(k.start) && g.beg <= g.c && g.c < g.p0 && g.p0 <= g.end && g.end <= g.off && BLANKS(g.beg, g.c)))
__CPROVER_ensures(R == NULL || g.last < g.p0 || (BLANKS(g.last, g.off) && (!INS(k.K, g.p0, g.last) || k.tk != '\n' || N1(k.K) == '\\' || ST(k.K) == 2 || ST(k.K) == 3)))
__CPROVER_ensures(R == NULL || g.last == k.len || g.eof || (g.last >= g.p0 && at0(g.last) == '\n' && N1(g.last) != '\\' && ST(g.last) != 2 && ST(g.last) != 3))
#else
__CPROVER_ensures(R != NULL || NB(g.off) >= k.len || at0(NB(g.off)) != '#')
#endif
;

static void token_prolong(struct clang *cl, struct token *dst, struct token *src)
__CPROVER_requires(src == &vf_slots[0].t && g.pend[0] && dst->tk_type == src->tk_type)
__CPROVER_assigns(g.pend[0])
__CPROVER_ensures(!g.pend[0])
;

/* A comment or directive, kept as prefix. */
static struct token *clang_read_prefix(struct clang *cl, struct lexer *lx)
#ifdef P_read_prefix
LX0
__CPROVER_requires(__CPROVER_is_fresh(cl, sizeof(*cl)))
#endif
__CPROVER_requires(CURSOR && NOPEND)
__CPROVER_assigns(CURSOR_A, g.cov, g.pend[0], g.pend[1], vf_slots[0], vf_slots[1], vf_cpptype)
__CPROVER_ensures(NOPEND)
__CPROVER_ensures(R == NULL ? NOTHING : CONSUMED)
__CPROVER_ensures(R != NULL || NB(g.off) >= k.len || (at0(NB(g.off)) != '#' && (at0(NB(g.off)) != '/' || (at0(NB(g.off) + 1) != '/' && at0(NB(g.off) + 1) != '*'))))
;

/* Everything consumed is blank or part of exactly one token which is kept. */
static struct token *clang_read(struct lexer *lx, void *arg)
LX0
__CPROVER_requires(__CPROVER_is_fresh(arg, sizeof(struct clang)))
__CPROVER_assigns(g, __CPROVER_object_whole(vf_slots), KWTOK_A, vf_cpptype)
__CPROVER_ensures(R == &vf_slots[3].t && CURSOR && COVERED && NOPEND)
__CPROVER_ensures(g.mbeg == g.s && g.s >= k.start && g.mend >= g.s && g.mend <= g.off && vf_slots[3].t.tk_type == g.mtype)
__CPROVER_ensures(g.mtype == LEXER_EOF ? g.s == k.len && g.mend == k.len : g.s < k.len && g.mend > g.s)
/* Comments and directives are not taken for operators. */
__CPROVER_ensures(g.c0 != '#' && (g.c0 != '/' || (g.c1 != '/' && g.c1 != '*')))
/* Literals end at the first delimiter which is not escaped. */
#define QUOTE(c) ((c) == '"' || (c) == '\'')
#define LIT0 QUOTE(g.c0)
#define LIT1 ((g.c0 == 'L' || g.c0 == 'U' || g.c0 == 'u') && QUOTE(g.c1))
#define LIT2 (g.c0 == 'u' && g.c1 == '8' && QUOTE(g.c2))
#define LIT (LIT0 || LIT1 || LIT2)
#define NUMBER (DIGIT(g.c0) || (g.c0 == '.' && DIGIT(g.c1)))
__CPROVER_ensures(!LIT || (g.q == g.s + (LIT0 ? 0 : LIT1 ? 1 : 2) && (!INS(k.K, g.q + 1, g.mend) || k.K + 1 == g.mend || k.tk != at0(g.q) || ESC(k.K))))
__CPROVER_ensures(!LIT || (g.mtype == TOKEN_NONE && g.mend == k.len) || (g.mtype == (at0(g.q) == '"' ? TOKEN_STRING : TOKEN_LITERAL) && g.mend >= g.q + 2 && at0(g.mend - 1) == at0(g.q) && !ESC(g.mend - 1)))
/* Numbers. */
__CPROVER_ensures(!NUMBER || (g.mtype == TOKEN_LITERAL && (!INS(k.K, g.s + 1, g.mend) || NUM(k.tkm, k.tk)) && (g.mend == k.len || !NUM(at0(g.mend - 1), at0(g.mend)))))
/* Identifiers and keywords. */
__CPROVER_ensures(LIT || !ALPHA(g.c0) || (g.mtype != LEXER_EOF && (!INS(k.K, g.s, g.mend) || IDENT(k.tk)) && (g.mend == k.len || !IDENT(at0(g.mend)))))
/* The longest operator, or a single byte. */
#define OPER (g.s < k.len && !LIT && !NUMBER && !ALPHA(g.c0))
__CPROVER_ensures(!OPER || (g.kwn == 1 && g.kwv == 0 && g.mend == g.s + 1) || LONGEST)
;

#define H1(name, fn, decl, ...) void h_##name(void) { decl; fn(__VA_ARGS__); VF_REACH("end"); }
#define H2(name, fn, decl, ...) void h_##name(void) { decl; if (fn(__VA_ARGS__)) VF_REACH("some"); else VF_REACH("none"); }
H2(isnum, isnum, unsigned char a; unsigned char b, a, b)
H2(ellipsis, clang_ellipsis, struct lexer *lx; const struct lexer_state *st, lx, st)
H2(keyword, clang_keyword, struct lexer *lx, lx)
H2(find_cpp, clang_find_cpp, struct lexer *lx; const struct lexer_state *st; int fb, lx, st, fb)
H2(peek_c99, peek_c99_comment, struct lexer *lx, lx)
H2(sense, sense_clang_format_comment, const struct token *tk, tk)
H2(read_comment, clang_read_comment, struct clang *cl; struct lexer *lx; int b, cl, lx, b)
H2(read_cpp, clang_read_cpp, struct clang *cl; struct lexer *lx, cl, lx)
H2(read_prefix, clang_read_prefix, struct clang *cl; struct lexer *lx, cl, lx)
H1(read, clang_read, struct lexer *lx; void *arg, lx, arg)
#endif

#ifdef VF_NATIVE
#include "libks/string.h"
#include "SRC/options.h"
#include "SRC/simple.h"
#include "SRC/style.h"
#include "ref.h"

size_t (*KS_str_match)(const char *, size_t, const char *) = KS_str_match_default;
size_t (*KS_str_match_until)(const char *, size_t, const char *) = KS_str_match_until_default;

static const struct {
	const char *str;
	int type;
} ref_words[] = {
	{"asm", TOKEN_ASSEMBLY},
	{"__attribute__", TOKEN_ATTRIBUTE},
	{"break", TOKEN_BREAK},
	{"case", TOKEN_CASE},
	{"char", TOKEN_CHAR},
	{"const", TOKEN_CONST},
	{"continue", TOKEN_CONTINUE},
	{"default", TOKEN_DEFAULT},
	{"do", TOKEN_DO},
	{"double", TOKEN_DOUBLE},
	{"else", TOKEN_ELSE},
	{"enum", TOKEN_ENUM},
	{"extern", TOKEN_EXTERN},
	{"float", TOKEN_FLOAT},
	{"for", TOKEN_FOR},
	{"goto", TOKEN_GOTO},
	{"if", TOKEN_IF},
	{"inline", TOKEN_INLINE},
	{"int", TOKEN_INT},
	{"long", TOKEN_LONG},
	{"register", TOKEN_REGISTER},
	{"restrict", TOKEN_RESTRICT},
	{"return", TOKEN_RETURN},
	{"short", TOKEN_SHORT},
	{"signed", TOKEN_SIGNED},
	{"sizeof", TOKEN_SIZEOF},
	{"static", TOKEN_STATIC},
	{"struct", TOKEN_STRUCT},
	{"switch", TOKEN_SWITCH},
	{"typedef", TOKEN_TYPEDEF},
	{"union", TOKEN_UNION},
	{"unsigned", TOKEN_UNSIGNED},
	{"void", TOKEN_VOID},
	{"volatile", TOKEN_VOLATILE},
	{"while", TOKEN_WHILE},
	{"[", TOKEN_LSQUARE},
	{"]", TOKEN_RSQUARE},
	{"(", TOKEN_LPAREN},
	{")", TOKEN_RPAREN},
	{"{", TOKEN_LBRACE},
	{"}", TOKEN_RBRACE},
	{".", TOKEN_PERIOD},
	{"...", TOKEN_ELLIPSIS},
	{"&", TOKEN_AMP},
	{"&&", TOKEN_AMPAMP},
	{"&=", TOKEN_AMPEQUAL},
	{"*", TOKEN_STAR},
	{"*=", TOKEN_STAREQUAL},
	{"+", TOKEN_PLUS},
	{"++", TOKEN_PLUSPLUS},
	{"+=", TOKEN_PLUSEQUAL},
	{"-", TOKEN_MINUS},
	{"->", TOKEN_ARROW},
	{"--", TOKEN_MINUSMINUS},
	{"-=", TOKEN_MINUSEQUAL},
	{"~", TOKEN_TILDE},
	{"!", TOKEN_EXCLAIM},
	{"!=", TOKEN_EXCLAIMEQUAL},
	{"/", TOKEN_SLASH},
	{"/=", TOKEN_SLASHEQUAL},
	{"%", TOKEN_PERCENT},
	{"%=", TOKEN_PERCENTEQUAL},
	{"<", TOKEN_LESS},
	{"<<", TOKEN_LESSLESS},
	{"<=", TOKEN_LESSEQUAL},
	{"<<=", TOKEN_LESSLESSEQUAL},
	{">", TOKEN_GREATER},
	{">>", TOKEN_GREATERGREATER},
	{">=", TOKEN_GREATEREQUAL},
	{">>=", TOKEN_GREATERGREATEREQUAL},
	{"^", TOKEN_CARET},
	{"^=", TOKEN_CARETEQUAL},
	{"|", TOKEN_PIPE},
	{"||", TOKEN_PIPEPIPE},
	{"|=", TOKEN_PIPEEQUAL},
	{"?", TOKEN_QUESTION},
	{":", TOKEN_COLON},
	{";", TOKEN_SEMI},
	{"=", TOKEN_EQUAL},
	{"==", TOKEN_EQUALEQUAL},
	{",", TOKEN_COMMA},
	{"_Bool", TOKEN_BOOL},
	{"int8_t", TOKEN_INT8},
	{"int16_t", TOKEN_INT16},
	{"int32_t", TOKEN_INT32},
	{"int64_t", TOKEN_INT64},
	{"uint8_t", TOKEN_UINT8},
	{"uint16_t", TOKEN_UINT16},
	{"uint32_t", TOKEN_UINT32},
	{"uint64_t", TOKEN_UINT64},
	{"va_list", TOKEN_VA_LIST},
	{"__asm", TOKEN_ASSEMBLY},
	{"__asm_", TOKEN_ASSEMBLY},
	{"__asm__", TOKEN_ASSEMBLY},
	{"_asm", TOKEN_ASSEMBLY},
	{"_asm_", TOKEN_ASSEMBLY},
	{"asm_", TOKEN_ASSEMBLY},
	{"asm_inline", TOKEN_ASSEMBLY},
	{"asm_volatile_goto", TOKEN_ASSEMBLY},
	{"__attribute", TOKEN_ATTRIBUTE},
	{"__attribute_", TOKEN_ATTRIBUTE},
	{"_attribute", TOKEN_ATTRIBUTE},
	{"_attribute_", TOKEN_ATTRIBUTE},
	{"_attribute__", TOKEN_ATTRIBUTE},
	{"attribute_", TOKEN_ATTRIBUTE},
	{"_inline", TOKEN_INLINE},
	{"_inline_", TOKEN_INLINE},
	{"_inline__", TOKEN_INLINE},
	{"inline_", TOKEN_INLINE},
	{"_restrict", TOKEN_RESTRICT},
	{"__volatile", TOKEN_VOLATILE},
	{"__volatile__", TOKEN_VOLATILE},
	{"_volatile", TOKEN_VOLATILE},
	{"_volatile_", TOKEN_VOLATILE},
	{"u_int8_t", TOKEN_UINT8},
	{"u_int16_t", TOKEN_UINT16},
	{"u_int32_t", TOKEN_UINT32},
	{"u_int64_t", TOKEN_UINT64},
};

static int
ref_type(enum ref_kind kind, const char *str, size_t len)
{
	size_t i;

	if (kind == REF_STRING)
		return TOKEN_STRING;
	if (kind == REF_CHAR || kind == REF_NUMBER)
		return TOKEN_LITERAL;
	for (i = 0; i < sizeof(ref_words) / sizeof(ref_words[0]); i++) {
		if (strlen(ref_words[i].str) == len && strncmp(ref_words[i].str, str, len) == 0)
			return ref_words[i].type;
	}
	return kind == REF_WORD ? TOKEN_IDENT : TOKEN_NONE;
}

static const char *const frags[] = {
	"a", "int", "L", "u8", "u", "U", "\"", "'", "\"a\"", "'b'", "\\", "\\\\", "\\\"", "\n", "\n", " ", " ", "\t",
	"\r\n", "/", "*", "//", "/*", "*/", "/* x */", "// y\n", "/*/", "1", "0x", "e+", "p-", "1e+5", ".", "..", "...", ".5",
	"+", "-", "=", "<", ">", "&", "|", "!", "^", "%", "->", "<<=", "#", "#define X", "#include <x.h>\n", "#if 1\n", "#endif\n", "#else\n",
	"\\\n", "\\\r\n", ";", "{", "}", "(", ")", "[", "]", ",", ":", "?", "~", "_", "9", "@", "$", "`", "static", "u_int8_t", "__attribute__", "\f",
};

static void
vf_text(char *text, size_t *len, size_t max)
{
	size_t n = nd_upto(1 + nd_upto(24)), i;

	*len = 0;
	for (i = 0; i < n; i++) {
		const char *f = frags[nd_upto(sizeof(frags) / sizeof(frags[0]) - 1)];
		size_t l = strlen(f);

		if (*len + l + 1 >= max)
			break;
		memcpy(&text[*len], f, l);
		*len += l;
	}
	text[*len] = '\0';
}

static void
vf_put(struct ref_text *t, const struct token *tk, int *pv)
{
	if (tk->tk_type == TOKEN_SPACE)
		return;
	ref_put_item(t, tk->tk_type == TOKEN_COMMENT ? REF_COMMENT : (tk->tk_flags & TOKEN_FLAG_CPP) ? REF_CPP : REF_OP,
	    tk->tk_str, tk->tk_len, pv);
}

#define VF_TEXT(c, m) do { if (!(c)) { ref_show("text", text, len); ref_show("want", want.str, want.len); ref_show("got", got.str, got.len); VF_ASSERT(c, m); } } while (0)

/* All tokens of some text, compared with a reference. */
void
b_tokenize(void)
{
	static char text[512];
	static struct ref ref;
	static struct ref_text want, got;
	static int init;
	struct arena *eternal = arena_alloc(), *scratch = arena_alloc();
	struct options op;
	size_t i, len;
	int pv, ok;

	if (!init) {
		clang_init();
		init = 1;
	}
	options_init(&op);
	vf_text(text, &len, sizeof(text));
	ok = ref_scan(&ref, text, len);
	for (i = 0; i < len; i++) {
		if (text[i] == '\r' && (i + 1 == len || text[i + 1] != '\n'))
			ok = 0;
	}
	want.len = got.len = 0;
	want.str[0] = got.str[0] = '\0';
	pv = -1;
	for (i = 0; i < ref.n; i++)
		ref_put_item(&want, ref.item[i].kind, &text[ref.item[i].beg], ref.item[i].end - ref.item[i].beg, &pv);
	{
		arena_scope(eternal, es);
		arena_scope(scratch, ss);
		struct buffer *bf = arena_buffer_alloc(&ss, 1024);
		struct style *st = style_parse_buffer(NULL, ".clang-format", &es, scratch, &op);
		struct simple *si = simple_alloc(&es, &op);
		struct clang *cl = clang_alloc(st, si, &es, scratch, &op);
		struct lexer *lx;
		struct token *tk, *tmp;

		buffer_puts(bf, text, len);
		lx = lexer_tokenize(&(const struct lexer_arg){
		    .path = "x.c", .bf = bf, .op = &op, .arena = {.eternal_scope = &es, .scratch = scratch},
		    .callbacks = clang_lexer_callbacks(cl),
		});
		VF_TEXT(lx != NULL, "tokenized");
		if (ok) {
			pv = -1;
			i = 0;
			VF_TEXT(lexer_peek_first(lx, &tk), "at least one token");
			for (; tk != NULL; tk = token_next(tk)) {
				LIST_FOREACH(tmp, &tk->tk_prefixes)
					vf_put(&got, tmp, &pv);
				if (tk->tk_type != LEXER_EOF) {
					while (i < ref.n && (ref.item[i].kind == REF_COMMENT || ref.item[i].kind == REF_CPP))
						i++;
					VF_TEXT(i < ref.n, "no more tokens than expected");
					VF_TEXT(tk->tk_off == ref.item[i].beg, "position of the token");
					VF_TEXT(tk->tk_type == ref_type(ref.item[i].kind, &text[ref.item[i].beg], ref.item[i].end - ref.item[i].beg), "type of the token");
					i++;
					vf_put(&got, tk, &pv);
				} else {
					VF_TEXT(tk->tk_len == 0, "nothing is part of the end");
				}
				LIST_FOREACH(tmp, &tk->tk_suffixes)
					vf_put(&got, tmp, &pv);
			}
			VF_TEXT(got.len == want.len && memcmp(got.str, want.str, got.len) == 0, "all lexical elements in order");
		}
	}
	arena_free(scratch);
	arena_free(eternal);
}

/* Comments which turn formatting off and on. */
void
b_sense(void)
{
	static const char *const parts[] = {"//", "/*", " ", "  ", "\t", "clang-format", "clang", "-format", "off", "on", "of", ":", "*/", "\n", "x", "o", "clang-format off", "clang-format on"};
	static char text[256];
	struct token tk = {0};
	size_t n = nd_upto(8), i, len = 0, o;
	unsigned int want = 0;
	char *copy;

	for (i = 0; i < n; i++) {
		const char *p = parts[nd_upto(sizeof(parts) / sizeof(parts[0]) - 1)];

		memcpy(&text[len], p, strlen(p));
		len += strlen(p);
	}
	copy = malloc(len + 1);
	memcpy(copy, text, len);
	tk.tk_str = copy;
	tk.tk_len = len;
	text[len] = '\0';
	o = strspn(text, " \t\n");
	if (len - o >= 2 && strncmp(&text[o + 2], " clang-format ", 14) == 0) {
		if (strncmp(&text[o + 16], "off", 3) == 0)
			want = TOKEN_FLAG_COMMENT_CLANG_FORMAT_OFF;
		else if (strncmp(&text[o + 16], "on", 2) == 0)
			want = TOKEN_FLAG_COMMENT_CLANG_FORMAT_ON;
	}
	VF_ASSERT(sense_clang_format_comment(&tk) == want, "formatting is turned off or on");
	free(copy);
}
#endif
