/*@ {
 'inst': ['lexer.c'],
 'link': ['libks/vector.c', 'libks/arena.c', 'libks/arena-buffer.c', 'libks/arena-vector.c', 'libks/buffer.c', 'libks/string.c', 'token.c', 'util.c', 'error.c', 'options.c', 'trace.c', 'diff.c', 'fs.c'],
 'loops': {'lexer.c': {
   'lexer_eat_lines': ['''__CPROVER_assigns(ch, nlines, oldst, lx->lx_st, __CPROVER_object_whole(vf_lines))
       __CPROVER_loop_invariant(LX_OK && LINES_OK)
       __CPROVER_loop_invariant(g.s0 <= oldst.st_off && oldst.st_off <= OFF && OFF <= g.len)
       __CPROVER_loop_invariant(!INS(g.K, g.s0, OFF) || WS(g.tk))
       __CPROVER_loop_invariant(!INS(g.K, oldst.st_off, OFF) || g.tk != '\\n')
       __CPROVER_loop_invariant(oldst.st_lno == LNO(oldst.st_off) && oldst.st_lno == lx->lx_st.st_lno)
       __CPROVER_loop_invariant(nlines >= 0 && (unsigned int)nlines == oldst.st_lno - LNO(g.s0) && (nlines == 0) == (oldst.st_off == g.s0))
       __CPROVER_loop_invariant(oldst.st_off == g.s0 || lx->lx_input.ptr[oldst.st_off - 1] == '\\n')
       __CPROVER_loop_invariant(threshold <= 0 || nlines < threshold)
       __CPROVER_loop_invariant(BR(OFF) && oldst.st_tk == g.tok && oldst.st_flags.error == g.error && oldst.st_flags.eof == (nlines > 0 ? 0 : g.eof))
       __CPROVER_loop_invariant(lx->lx_st.st_tk == g.tok && lx->lx_st.st_flags.error == g.error && lx->lx_st.st_flags.eof == g.eof && (!g.eof || OFF == g.len))
       __CPROVER_decreases(g.len - OFF)
       @ghost vf_axiom(OFF);'''],
   'lexer_eat_lines_and_spaces': ['''__CPROVER_assigns(gotspaces, lx->lx_st, g.s0, g.spaces, __CPROVER_object_whole(vf_lines); st != NULL: *st)
       __CPROVER_loop_invariant(LX_OK && LINES_OK && (gotspaces == 0 || gotspaces == 1))
       __CPROVER_loop_invariant(g.start <= OFF && OFF <= g.len && lx->lx_st.st_tk == g.tok && lx->lx_st.st_flags.error == g.error && (!g.eof || OFF == g.len))
       __CPROVER_loop_invariant(!INS(g.K, g.start, OFF) || WS(g.tk) || g.tk == '\\f')
       __CPROVER_loop_invariant(!gotspaces || OFF > g.start)
       __CPROVER_loop_invariant(st == NULL || (st->st_lno == LNO(st->st_off) && st->st_lno == lx->lx_st.st_lno && st->st_off <= OFF && st->st_off >= g.start))
       __CPROVER_loop_invariant(st == NULL || st->st_off == g.start || (st->st_off > 0 && lx->lx_input.ptr[st->st_off - 1] == '\\n'))
       __CPROVER_loop_invariant(st == NULL || !INS(g.K, st->st_off, OFF) || g.tk != '\\n')
       __CPROVER_loop_invariant(!gotspaces || OFF == g.len || !SP(lx->lx_input.ptr[OFF]))
       __CPROVER_decreases(g.len - OFF, 1 - gotspaces)'''],
 }},
 'assumes': [
   'LNO (line of an offset), LOFF (offset of a line) and BR (only blanks since) are mathematical functions; instances of their recursive definitions and of BR being antitone are assumed where needed',
   'KS_str_match, colwidth (C07), diff_get_chunk (C09) and vector_alloc (C05): contracts; the line table is seen as an array which is large enough',
   'sources shorter than 2^31 bytes',
 ],
 'proofs': [
  {'name': 'getc', 'fn': 'lexer_getc', 'bounded': 'b_ops', 'nobmc': True},
  {'name': 'ungetc', 'fn': 'lexer_ungetc', 'bounded': 'b_ops', 'nobmc': True},
  {'name': 'line_alloc', 'fn': 'lexer_line_alloc', 'bounded': 'b_ops', 'nobmc': True},
  {'name': 'match', 'fn': 'lexer_match', 'bounded': 'b_ops', 'nobmc': True},
  {'name': 'eat_spaces', 'fn': 'lexer_eat_spaces', 'bounded': 'b_ops', 'nobmc': True},
  {'name': 'eat_lines', 'fn': 'lexer_eat_lines', 'bounded': 'b_ops', 'nobmc': True, 'replace': ['lexer_line_alloc']},
  {'name': 'eat_lines_and_spaces', 'fn': 'lexer_eat_lines_and_spaces', 'replace': ['lexer_eat_lines', 'lexer_eat_spaces'], 'bounded': 'b_ops', 'nobmc': True},
  {'name': 'emit', 'fn': 'lexer_emit_template', 'bounded': 'b_ops', 'nobmc': True},
  {'name': 'slice', 'fn': 'lexer_buffer_slice', 'bounded': 'b_ops', 'nobmc': True},
  {'name': 'get_lines', 'fn': 'lexer_get_lines', 'bounded': 'b_ops', 'nobmc': True},
 ],
} @*/
#ifdef VF_NATIVE
#define VF_REAL_ERRNO
#endif
#include "vf.h"

#include <assert.h>
#include <err.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

#include "libks/arena.h"
#include "libks/buffer.h"
#include "libks/string.h"
#include "libks/vector.h"
#include "SRC/diff.h"
#include "SRC/lexer.h"
#include "SRC/token.h"
#include "SRC/util.h"
#include "SRC/options.h"
#include "SRC/trace.h"
#include "SRC/error.h"

#define MAXLEN ((size_t)1 << 31)

struct ghost {
	const char *base;	/* source */
	size_t len;
	size_t start, s0;	/* initial offset */
	size_t K;		/* arbitrary offset */
	char tk;		/* byte at K */
	unsigned int J, J2;	/* arbitrary lines */
	struct token *tok;
	unsigned int error, eof;
	unsigned int col;	/* column according to C07 */
	int indiff;		/* line is covered by the diff */
	int spaces;
	size_t n;		/* result of the character range scan */
	size_t cap;
	int hasalloc;
};
struct ghost g;

struct vf_lines {
	struct vector_public p;
	size_t e[1];
};
struct vf_lines *vf_lines;

#define INS(k, a, b) ((k) >= (a) && (k) < (b))
#define WS(c) ((c) == ' ' || (c) == '\t' || (c) == '\r' || (c) == '\n')
#define SP(c) ((c) == ' ' || (c) == '\t' || (c) == '\f')

#ifdef VF_PROOF
unsigned int vf_lno[__CPROVER_constant_infinity_uint];
size_t vf_loff[__CPROVER_constant_infinity_uint];
__CPROVER_bool vf_br[__CPROVER_constant_infinity_uint];
#define LNO(o) (vf_lno[o])
#define LOFF(l) (vf_loff[l])
#define BR(o) (vf_br[o])

static int
isnl(char c)
{
	return c == '\n';
}
static int
isblank1(char c)
{
	return WS(c);
}
static char
at(size_t off)
{
	return g.base[off];
}
/* The definitions of LNO, LOFF and BR at the given offset. */
static void
vf_axiom(size_t off)
{
	char c;

	if (off >= g.len)
		return;
	c = g.base[off];
	VF_ASSUME(LNO(off + 1) == LNO(off) + (c == '\n' ? 1 : 0));
	VF_ASSUME(LNO(off) >= 1 && LNO(off) <= off + 1);
	if (c == '\n')
		VF_ASSUME(LOFF(LNO(off + 1)) == off + 1);
	VF_ASSUME(BR(off + 1) == (BR(off) && WS(c)));
	/* Antitone. */
	VF_ASSUME(g.K < off + 1 || BR(off + 1) || !BR(g.K));
}
/* As a precondition. */
static int
vf_def(size_t off)
{
	char c;

	if (off >= g.len)
		return LNO(off) >= 1 && LNO(off) <= off + 1;
	c = g.base[off];
	return LNO(off + 1) == LNO(off) + (c == '\n' ? 1 : 0) &&
	    LNO(off) >= 1 && LNO(off) <= off + 1 &&
	    (c != '\n' || LOFF(LNO(off + 1)) == off + 1);
}

static size_t
vf_match(const char *str, size_t len, const char *ranges)
{
	VF_ASSERT(str == g.base + g.start && len == g.len - g.start, "scan of the rest");
#ifdef P_eat_spaces
	VF_ASSERT(ranges[0] == ' ' && ranges[1] == ' ' && ranges[2] == '\f' && ranges[3] == '\f' &&
	    ranges[4] == '\t' && ranges[5] == '\t' && ranges[6] == '\0', "scan for spaces");
#else
	(void)ranges;
#endif
	return g.n;
}
#define KS_str_match(a, b, c) vf_match((a), (b), (c))

size_t
vector_alloc(void **vv, int zero)
{
	size_t i = vf_lines->p.len;

	(void)zero;
	VF_ASSERT(*vv == (void *)vf_lines->e, "line table");
	VF_ASSUME(i < g.cap);
	vf_lines->p.len = i + 1;
	return i;
}

unsigned int
colwidth(const char *str, size_t len, unsigned int cno)
{
	VF_ASSERT(str == g.base + LOFF(g.J) && len == g.start - LOFF(g.J) && cno == 1, "column counted from the start of the line");
	return g.col;
}

const struct diffchunk *
diff_get_chunk(const struct diffchunk *chunks, unsigned int lno)
{
	VF_ASSERT(chunks != NULL && lno == g.J, "line of the token");
	return g.indiff ? chunks : NULL;
}

static struct token vf_token;
static struct token *
vf_alloc(struct arena_scope *s, const struct token *def)
{
	(void)s;
	g.hasalloc = 1;
	vf_token = *def;
	return &vf_token;
}
#define err(...) VF_ASSUME(0)
#define options_trace_level(...) 0
#define trace(...) ((void)0)
#undef arena_scope
static struct arena_scope vf_scope;
#define arena_scope(a, n) struct arena_scope n = vf_scope
#endif

#ifdef VF_PROOF
#define OFF lx->lx_st.st_off
#define NLINES vf_lines->p.len
/* The state is consistent: within the source, at the line the offset is on. */
#define LX_OK (OFF <= g.len && lx->lx_st.st_lno == LNO(OFF) && lx->lx_st.st_lno >= 1 && \
    lx->lx_st.st_lno <= NLINES && NLINES <= g.cap && \
    lx->lx_input.len == g.len && lx->lx_input.ptr == g.base && lx->lx_lines == vf_lines->e)
#define LINES_OK (g.J < 1 || g.J > NLINES || vf_lines->e[g.J - 1] == LOFF(g.J))
#endif
#include "SRC/lexer.c"

#ifdef VF_PROOF
#define R __CPROVER_return_value
#define OLD(e) __CPROVER_old(e)
/* What any lexer looks like. */
#define LXF(lx) \
__CPROVER_requires(g.len <= MAXLEN && g.cap <= MAXLEN && g.cap >= 1) \
__CPROVER_requires(__CPROVER_is_fresh(lx, sizeof(*lx)) && __CPROVER_is_fresh(g.base, g.len + 1) && __CPROVER_is_fresh(vf_lines, sizeof(size_t) + g.cap * sizeof(size_t))) \
__CPROVER_requires(PEQ((char *)lx->lx_input.ptr, (char *)g.base) && PEQ(lx->lx_lines, &vf_lines->e[0])) \
__CPROVER_requires(lx->lx_input.len == g.len && OFF <= g.len && lx->lx_st.st_lno == LNO(OFF) && lx->lx_st.st_lno >= 1 && lx->lx_st.st_lno <= NLINES && NLINES <= g.cap && g.start == OFF) \
__CPROVER_requires(LINES_OK)
#define LXR(lx) __CPROVER_requires(LX_OK && LINES_OK)

/* The next byte, or an extra NUL once the end is reached, and then failure. */
int lexer_getc(struct lexer *lx, unsigned char *ch)
LXF(lx)
__CPROVER_requires(__CPROVER_is_fresh(ch, 1) && vf_def(OFF))
__CPROVER_assigns(lx->lx_st, *ch, __CPROVER_object_whole(vf_lines))
__CPROVER_ensures(LX_OK && LINES_OK && lx->lx_st.st_tk == OLD(lx->lx_st.st_tk) && NLINES >= OLD(NLINES))
__CPROVER_ensures(g.start == g.len || (R == 0 && OFF == g.start + 1 && *ch == (unsigned char)g.base[g.start] && lx->lx_st.st_flags.eof == OLD(lx->lx_st).st_flags.eof))
__CPROVER_ensures(g.start < g.len || (OFF == g.start && lx->lx_st.st_flags.eof == 1 && R == (int)OLD(lx->lx_st).st_flags.eof && (R != 0 || *ch == 0)))
__CPROVER_ensures(lx->lx_st.st_flags.error == OLD(lx->lx_st).st_flags.error)
;

void lexer_ungetc(struct lexer *lx)
LXF(lx)
__CPROVER_requires(lx->lx_st.st_flags.eof || (OFF > 0 && vf_def(OFF - 1)))
__CPROVER_assigns(lx->lx_st)
__CPROVER_ensures(LX_OK && LINES_OK && lx->lx_st.st_tk == OLD(lx->lx_st.st_tk))
__CPROVER_ensures(OFF == (lx->lx_st.st_flags.eof ? g.start : g.start - 1))
__CPROVER_ensures(lx->lx_st.st_flags.error == OLD(lx->lx_st).st_flags.error && lx->lx_st.st_flags.eof == OLD(lx->lx_st).st_flags.eof)
;

static void lexer_line_alloc(struct lexer *lx, unsigned int lno)
#ifdef P_line_alloc
__CPROVER_requires(g.len <= MAXLEN && g.cap <= MAXLEN && g.cap >= 1)
__CPROVER_requires(__CPROVER_is_fresh(lx, sizeof(*lx)) && __CPROVER_is_fresh(vf_lines, sizeof(size_t) + g.cap * sizeof(size_t)))
__CPROVER_requires(PEQ(lx->lx_lines, &vf_lines->e[0]) && NLINES <= g.cap)
#endif
__CPROVER_requires(lx->lx_lines == &vf_lines->e[0] && NLINES <= g.cap && lno >= 1 && lno <= NLINES + 1 && LINES_OK)
__CPROVER_requires(lno == NLINES + 1 ? OFF == LOFF(lno) : 1)
__CPROVER_assigns(__CPROVER_object_whole(vf_lines))
__CPROVER_ensures(NLINES == (lno > OLD(NLINES) ? lno : OLD(NLINES)) && NLINES <= g.cap && LINES_OK)
;

/* Consumes the longest run of bytes within the ranges, which holds no newline. */
size_t lexer_match(struct lexer *lx, const char *ranges)
LXF(lx)
__CPROVER_requires(g.n <= g.len - OFF && LNO(OFF + g.n) == LNO(OFF))
__CPROVER_assigns(lx->lx_st)
__CPROVER_ensures(R == g.n && OFF == g.start + g.n && LX_OK)
;

int lexer_eat_spaces(struct lexer *lx, struct token **tk)
#ifdef P_eat_spaces
LXF(lx)
__CPROVER_requires(PEQ(tk, (struct token **)NULL))
__CPROVER_requires(g.n <= g.len - OFF && LNO(OFF + g.n) == LNO(OFF))
__CPROVER_assigns(lx->lx_st)
__CPROVER_ensures((R != 0) == (g.n > 0) && OFF == g.start + g.n && LX_OK)
__CPROVER_ensures(lx->lx_st.st_flags.error == OLD(lx->lx_st).st_flags.error && lx->lx_st.st_flags.eof == OLD(lx->lx_st).st_flags.eof && lx->lx_st.st_tk == OLD(lx->lx_st.st_tk))
#else
/* As above, in terms of C07: the scan stops at the first byte which is no space. */
LXR(lx)
__CPROVER_requires(tk == NULL)
__CPROVER_assigns(lx->lx_st)
__CPROVER_ensures(LX_OK && OFF >= OLD(OFF) && (R != 0) == (OFF > OLD(OFF)) && LNO(OFF) == LNO(OLD(OFF)))
__CPROVER_ensures(!INS(g.K, OLD(OFF), OFF) || SP(g.tk))
__CPROVER_ensures(OFF == g.len || !SP(lx->lx_input.ptr[OFF]))
__CPROVER_ensures(lx->lx_st.st_flags.error == OLD(lx->lx_st).st_flags.error && lx->lx_st.st_flags.eof == OLD(lx->lx_st).st_flags.eof && lx->lx_st.st_tk == OLD(lx->lx_st.st_tk))
#endif
;

/* Consumes blank lines: threshold ones at most, all if zero. */
int lexer_eat_lines(struct lexer *lx, int threshold, struct token **tk)
#ifdef P_eat_lines
LXF(lx)
__CPROVER_requires(PEQ(tk, (struct token **)NULL) && threshold >= 0)
__CPROVER_requires(g.s0 == OFF && g.tok == lx->lx_st.st_tk && g.error == lx->lx_st.st_flags.error && g.eof == lx->lx_st.st_flags.eof && (!g.eof || OFF == g.len))
__CPROVER_requires(g.K >= g.len || g.tk == g.base[g.K])
__CPROVER_requires(BR(OFF))
#define S0 g.s0
#else
LXR(lx)
__CPROVER_requires(tk == NULL && threshold == 0)
#define S0 OLD(OFF)
#endif
__CPROVER_assigns(lx->lx_st, __CPROVER_object_whole(vf_lines))
__CPROVER_ensures(LX_OK && LINES_OK && OFF >= S0 && lx->lx_st.st_tk == OLD(lx->lx_st.st_tk) && lx->lx_st.st_flags.error == OLD(lx->lx_st).st_flags.error)
/* Only blanks are consumed, up to and including a newline. */
__CPROVER_ensures(!INS(g.K, S0, OFF) || WS(g.tk))
__CPROVER_ensures(OFF == S0 ? lx->lx_st.st_flags.eof == OLD(lx->lx_st).st_flags.eof && LNO(OFF) == OLD(lx->lx_st.st_lno) : lx->lx_input.ptr[OFF - 1] == '\n')
/* Returns how many, unless there are too few. */
__CPROVER_ensures((unsigned int)R == (LNO(OFF) - OLD(lx->lx_st.st_lno) < (unsigned int)threshold ? 0 : LNO(OFF) - OLD(lx->lx_st.st_lno)))
__CPROVER_ensures(threshold == 0 || LNO(OFF) - OLD(lx->lx_st.st_lno) <= (unsigned int)threshold)
__CPROVER_ensures(threshold != 0 || (R > 0) == (OFF > S0))
#ifdef P_eat_lines
/* No blank line is left, unless the threshold is reached. */
__CPROVER_ensures((threshold > 0 && R == threshold) || !INS(g.K, OFF, g.len) || g.tk != '\n' || !BR(g.K))
#endif
;

/* Consumes blank lines and leading spaces; st is the beginning of the line. */
void lexer_eat_lines_and_spaces(struct lexer *lx, struct lexer_state *st)
LXF(lx)
__CPROVER_requires(PEQ(st, (struct lexer_state *)NULL) || (__CPROVER_is_fresh(st, sizeof(*st)) && st->st_off == OFF && st->st_lno == lx->lx_st.st_lno))
__CPROVER_requires(g.tok == lx->lx_st.st_tk && g.error == lx->lx_st.st_flags.error && g.eof == lx->lx_st.st_flags.eof && (!g.eof || OFF == g.len))
__CPROVER_requires(g.K >= g.len || g.tk == g.base[g.K])
__CPROVER_assigns(lx->lx_st, g.s0, g.spaces, __CPROVER_object_whole(vf_lines); st != NULL: *st)
__CPROVER_ensures(LX_OK && LINES_OK && OFF >= g.start && lx->lx_st.st_tk == g.tok && lx->lx_st.st_flags.error == g.error)
__CPROVER_ensures(!INS(g.K, g.start, OFF) || WS(g.tk) || g.tk == '\f')
/* Stops at the first byte which is no space. */
__CPROVER_ensures(OFF == g.len || !SP(lx->lx_input.ptr[OFF]))
__CPROVER_ensures(st == NULL || (st->st_off >= g.start && st->st_off <= OFF && st->st_lno == LNO(st->st_off) && st->st_lno == lx->lx_st.st_lno))
__CPROVER_ensures(st == NULL || st->st_off == g.start || lx->lx_input.ptr[st->st_off - 1] == '\n')
;

/* The token covers the source from st up to the current position. */
struct token *lexer_emit_template(struct lexer *lx, const struct lexer_state *st, const struct token *tk)
__CPROVER_requires(g.len <= MAXLEN && g.cap <= MAXLEN && g.cap >= 1)
__CPROVER_requires(__CPROVER_is_fresh(lx, sizeof(*lx)) && __CPROVER_is_fresh(g.base, g.len + 1) && __CPROVER_is_fresh(vf_lines, sizeof(size_t) + g.cap * sizeof(size_t)))
__CPROVER_requires(PEQ((char *)lx->lx_input.ptr, (char *)g.base) && PEQ(lx->lx_lines, &vf_lines->e[0]))
__CPROVER_requires(LX_OK && LINES_OK)
__CPROVER_requires(__CPROVER_is_fresh(st, sizeof(*st)) && __CPROVER_is_fresh(tk, sizeof(*tk)))
__CPROVER_requires(PEQ((char *)tk->tk_str, (char *)NULL) || __CPROVER_is_fresh(tk->tk_str, 1))
__CPROVER_requires(PEQ(lx->lx_diff, (struct diffchunk *)NULL) || __CPROVER_is_fresh(lx->lx_diff, 8))
__CPROVER_requires(lx->lx_callbacks.alloc == vf_alloc)
__CPROVER_requires(st->st_off <= OFF && st->st_lno == LNO(st->st_off) && st->st_lno >= 1 && st->st_lno <= NLINES && g.J == st->st_lno && g.start == st->st_off && LOFF(g.J) <= g.start && !g.hasalloc)
__CPROVER_assigns(vf_token, g.hasalloc)
__CPROVER_ensures(R == &vf_token && g.hasalloc && R->tk_type == tk->tk_type)
__CPROVER_ensures(R->tk_off == st->st_off && R->tk_lno == LNO(st->st_off) && R->tk_cno == g.col)
__CPROVER_ensures(R->tk_flags == (tk->tk_flags | (lx->lx_diff != NULL && g.indiff ? TOKEN_FLAG_DIFF : 0)))
__CPROVER_ensures(tk->tk_str == NULL ? R->tk_str == g.base + st->st_off && R->tk_len == OFF - st->st_off :
    R->tk_str == tk->tk_str && R->tk_len == tk->tk_len)
;

const char *lexer_buffer_slice(const struct lexer *lx, const struct lexer_state *st, size_t *len)
LXF(lx)
__CPROVER_requires(__CPROVER_is_fresh(st, sizeof(*st)) && __CPROVER_is_fresh(len, sizeof(*len)) && st->st_off <= OFF)
__CPROVER_assigns(*len)
__CPROVER_ensures(*len == OFF - st->st_off && R == (st->st_off == OFF ? NULL : g.base + st->st_off))
;

/* The text of the lines [beg, end), or up to the end of the source. */
int lexer_get_lines(const struct lexer *lx, unsigned int beg, unsigned int end, const char **str, size_t *len)
LXF(lx)
__CPROVER_requires(__CPROVER_is_fresh(str, sizeof(*str)) && __CPROVER_is_fresh(len, sizeof(*len)))
__CPROVER_requires(beg >= 1 && (end == 0 || end >= beg) && g.J == beg && g.J2 == end)
__CPROVER_requires(g.J2 < 1 || g.J2 > NLINES || (vf_lines->e[g.J2 - 1] == LOFF(g.J2) && LOFF(g.J2) <= g.len && LOFF(g.J) <= LOFF(g.J2)))
__CPROVER_requires(LOFF(g.J) <= g.len)
__CPROVER_assigns(*str, *len)
__CPROVER_ensures((R != 0) == (beg <= NLINES && end <= NLINES))
__CPROVER_ensures(R == 0 || (*str == g.base + LOFF(beg) && *len == (end == 0 ? g.len : LOFF(end)) - LOFF(beg)))
;

#define H1(name, fn, decl, ...) void h_##name(void) { decl; fn(__VA_ARGS__); VF_REACH("end"); }
H1(getc, lexer_getc, struct lexer *lx; unsigned char *ch, lx, ch)
H1(ungetc, lexer_ungetc, struct lexer *lx, lx)
H1(line_alloc, lexer_line_alloc, struct lexer *lx; unsigned int n, lx, n)
H1(match, lexer_match, struct lexer *lx; const char *r, lx, r)
H1(eat_spaces, lexer_eat_spaces, struct lexer *lx; struct token **tk, lx, tk)
void
h_eat_lines(void)
{
	struct lexer *lx; struct token **tk; int n;

	if (lexer_eat_lines(lx, n, tk))
		VF_REACH("some");
	else
		VF_REACH("none");
}
H1(eat_lines_and_spaces, lexer_eat_lines_and_spaces, struct lexer *lx; struct lexer_state *st, lx, st)
struct token *(*vf_allocp)(struct arena_scope *, const struct token *);
H1(emit, lexer_emit_template, vf_allocp = vf_alloc; struct lexer *lx; const struct lexer_state *st; const struct token *tk, lx, st, tk)
H1(slice, lexer_buffer_slice, const struct lexer *lx; const struct lexer_state *st; size_t *n, lx, st, n)
void
h_get_lines(void)
{
	const struct lexer *lx; unsigned int b, e; const char **s; size_t *n;

	if (lexer_get_lines(lx, b, e, s, n))
		VF_REACH("lines");
	else
		VF_REACH("none");
}
#endif

#ifdef VF_NATIVE
size_t (*KS_str_match)(const char *, size_t, const char *) = KS_str_match_default;
size_t (*KS_str_match_until)(const char *, size_t, const char *) = KS_str_match_until_default;
static struct token *
vf_token_alloc(struct arena_scope *s, const struct token *def)
{
	return token_alloc(s, 0, def);
}
static unsigned int
ref_lno(const char *str, size_t off)
{
	unsigned int n = 1;
	size_t i;

	for (i = 0; i < off; i++)
		n += str[i] == '\n';
	return n;
}
static size_t
ref_loff(const char *str, size_t off)
{
	while (off > 0 && str[off - 1] != '\n')
		off--;
	return off;
}
static unsigned int
ref_cno(const char *str, size_t off)
{
	unsigned int col = 1;
	size_t i;

	for (i = ref_loff(str, off); i < off; i++)
		col = str[i] == '\t' ? (col + 7) / 8 * 8 + 1 : col + 1;
	return col;
}
static int
in(const char *set, int c)
{
	return c != '\0' && strchr(set, c) != NULL;
}
/* Any sequence of operations, compared with a reference. */
void
b_ops(void)
{
	static char text[VF_N + 1];
	struct arena *arena = arena_alloc();
	struct lexer lx, *p = &lx;
	struct lexer_state saved;
	size_t i, n = nd_upto(VF_N), off = 0, nops = 10 + nd_upto(20), max = 0;
	struct diffchunk *diff;
	int eof = 0;

	for (i = 0; i < n; i++) {
		text[i] = nd_alpha("a1. \t\n \n\r\f/");
		if (text[i] == '\0')
			text[i] = ' ';
	}
	memset(&lx, 0, sizeof(lx));
	if (VECTOR_INIT(diff))
		abort();
	{
		arena_scope(arena, s);

		lx.lx_callbacks.alloc = vf_token_alloc;
		lx.lx_arena.eternal_scope = &s;
		lx.lx_input.ptr = text;
		lx.lx_input.len = n;
		lx.lx_st.st_lno = 1;
		if (VECTOR_INIT(lx.lx_lines))
			abort();
		lexer_line_alloc(&lx, 1);
		if (nd_bool()) {
			struct diffchunk *du = VECTOR_CALLOC(diff);

			du->du_beg = 1 + (unsigned int)nd_upto(4);
			du->du_end = du->du_beg + (unsigned int)nd_upto(2);
			lx.lx_diff = diff;
		}
		saved = lx.lx_st;
		while (nops-- > 0) {
			struct lexer_state st = lx.lx_st, beg;
			struct token *tk = NULL;
			unsigned char c;
			size_t o = off, e;
			const char *str;
			size_t len;
			int r, nl, want, t;

			switch (nd_upto(8)) {
			case 0:
			case 1:
				r = lexer_getc(p, &c);
				if (off < n) {
					VF_ASSERT(r == 0 && c == (unsigned char)text[off], "next byte");
					off++;
				} else {
					VF_ASSERT(eof ? r == 1 : r == 0 && c == '\0', "end of source");
					eof = 1;
				}
				break;
			case 2:
				if (off == 0)
					break;
				lexer_ungetc(p);
				if (!eof)
					off--;
				break;
			case 3:
				r = (int)lexer_match(p, "az09");
				while (off < n && ((text[off] >= 'a' && text[off] <= 'z') || (text[off] >= '0' && text[off] <= '9')))
					off++;
				VF_ASSERT((size_t)r == off - o, "length of the match");
				break;
			case 4:
				t = (int)nd_upto(3);
				r = lexer_eat_lines(p, t, nd_bool() ? NULL : &tk);
				nl = 0;
				for (e = off; e < n && in(" \t\r\n", text[e]); e++) {
					if (text[e] != '\n')
						continue;
					off = e + 1;
					eof = 0;
					if (++nl == t)
						break;
				}
				want = nl > 0 && nl >= t ? nl : 0;
				VF_ASSERT(r == want, "number of lines");
				if (tk != NULL)
					VF_ASSERT(r > 0 && tk->tk_type == TOKEN_SPACE && tk->tk_off == o && tk->tk_len == 1 && tk->tk_str[0] == '\n', "line token");
				break;
			case 5:
				r = lexer_eat_spaces(p, nd_bool() ? NULL : &tk);
				while (off < n && in(" \t\f", text[off]))
					off++;
				VF_ASSERT(r == (off > o), "spaces");
				if (tk != NULL)
					VF_ASSERT(tk->tk_type == TOKEN_SPACE && tk->tk_off == o && tk->tk_len == off - o && tk->tk_str == &text[o], "spaces token");
				break;
			case 6:
				beg = lx.lx_st;
				lexer_eat_lines_and_spaces(p, &beg);
				VF_ASSERT(lx.lx_st.st_off >= off, "forward");
				for (; off < lx.lx_st.st_off; off++)
					VF_ASSERT(in(" \t\f\r\n", text[off]), "only blanks are skipped");
				VF_ASSERT(off == n || !in(" \t\f", text[off]), "all spaces are skipped");
				for (e = off; e < n && in(" \t\r", text[e]); e++)
					continue;
				VF_ASSERT(e == n || text[e] != '\n', "all blank lines are skipped");
				e = ref_loff(text, off);
				VF_ASSERT(beg.st_off == (e > o ? e : o) && beg.st_lno == ref_lno(text, beg.st_off), "beginning of the line");
				if (off > o)
					eof = lx.lx_st.st_flags.eof;
				break;
			case 7:
				if (saved.st_off > off)
					break;
				str = lexer_buffer_slice(p, &saved, &len);
				VF_ASSERT(len == off - saved.st_off && (len == 0 ? str == NULL : str == &text[saved.st_off]), "slice");
				tk = lexer_emit(p, &saved, TOKEN_IDENT);
				VF_ASSERT(tk->tk_type == TOKEN_IDENT && tk->tk_off == saved.st_off && tk->tk_len == off - saved.st_off && tk->tk_str == &text[saved.st_off], "text of the token");
				VF_ASSERT(tk->tk_lno == ref_lno(text, saved.st_off), "line of the token");
				VF_ASSERT(tk->tk_cno == ref_cno(text, saved.st_off), "column of the token");
				VF_ASSERT(((tk->tk_flags & TOKEN_FLAG_DIFF) != 0) == (lx.lx_diff != NULL && diff[0].du_beg <= tk->tk_lno && tk->tk_lno <= diff[0].du_end), "covered by diff");
				break;
			case 8:
				if (nd_bool()) {
					saved = lexer_get_state(p);
				} else {
					lexer_set_state(p, &saved);
					off = saved.st_off;
					eof = saved.st_flags.eof;
				}
				break;
			}
			(void)st;
			if (off > max)
				max = off;
			VF_ASSERT(lx.lx_st.st_off == off, "offset");
			VF_ASSERT(lx.lx_st.st_lno == ref_lno(text, off), "line number");
			VF_ASSERT(lx.lx_st.st_flags.eof == (unsigned int)eof, "end of source seen");
			VF_ASSERT(lexer_eof(p) == (off == n), "at the end");
		}
		{
			unsigned int nlines = (unsigned int)VECTOR_LENGTH(lx.lx_lines), b, e;
			const char *str;
			size_t len;

			VF_ASSERT(nlines >= ref_lno(text, max), "all lines seen");
			b = 1 + (unsigned int)nd_upto(5);
			e = (unsigned int)nd_upto(6);
			if (e == 0 || e >= b) {
				int r = lexer_get_lines(p, b, e, &str, &len);

				VF_ASSERT(r == (b <= nlines && e <= nlines), "known lines");
				if (r) {
					VF_ASSERT(str == &text[ref_loff(text, (size_t)(str - text))] && ref_lno(text, (size_t)(str - text)) == b, "first line");
					VF_ASSERT(e == 0 ? str + len == &text[n] : ref_loff(text, (size_t)(str + len - text)) == (size_t)(str + len - text) && ref_lno(text, (size_t)(str + len - text)) == e, "last line");
				}
			}
		}
		VECTOR_FREE(lx.lx_lines);
	}
	VECTOR_FREE(diff);
	arena_free(arena);
}
#endif
