/*@ {
 'inst': ['doc.c'],
 'link': 'ALL',
 'loops': {'doc.c': {
   'doc_exec1': ['''__CPROVER_assigns(concat, vf_child.vf_lo, vf_child.vf_hi, vf_child.vf_min, vf_child.vf_mout, EMITTED, EXECUTED)
       __CPROVER_loop_invariant(concat == (struct doc *)0 || concat == &vf_child)
       __CPROVER_loop_invariant(g.pos == (concat != (struct doc *)0 ? vf_child.vf_lo : vf_dc.vf_hi) && vf_st.st_mute == (concat != (struct doc *)0 ? vf_child.vf_min : vf_dc.vf_mout))
       __CPROVER_loop_invariant(INV && vf_child.vf_min >= 0 && vf_st.st_flags == __CPROVER_loop_entry(vf_st.st_flags) && vf_st.st_mode == __CPROVER_loop_entry(vf_st.st_mode) && vf_st.st_indent.cur == __CPROVER_loop_entry(vf_st.st_indent.cur) && vf_st.st_parens == __CPROVER_loop_entry(vf_st.st_parens) && vf_st.st_maxlines == __CPROVER_loop_entry(vf_st.st_maxlines))'''],
   'doc_exec_align': ['''__CPROVER_assigns(indent, st->st_col, g.blen)
       __CPROVER_loop_invariant(g.blen <= g0.cap)
       __CPROVER_decreases(indent)'''],
   'doc_exec_minimize_indent': ['''__CPROVER_assigns(i, nlines, nexceeds, EMITTED, EXECUTED, vf_dc.dc_minimizers, __CPROVER_object_whole(g0.mi))
       __CPROVER_loop_invariant(i >= 0 && i <= nminimizers && nminimizers == g0.n && minimizers == g0.mi && vf_dc.dc_minimizers == g0.mi && vf_st.st_flags == __CPROVER_loop_entry(vf_st.st_flags))
       __CPROVER_loop_invariant(g.pos == vf_dc.vf_lo && vf_st.st_mute == vf_dc.vf_min && vf_st.st_minimize.idx == -1 && (vf_st.st_flags & 3) == 0)
       __CPROVER_loop_invariant(INV && vf_st.st_mode == __CPROVER_loop_entry(vf_st.st_mode) && vf_st.st_indent.cur == __CPROVER_loop_entry(vf_st.st_indent.cur) && vf_st.st_parens == __CPROVER_loop_entry(vf_st.st_parens) && vf_st.st_maxlines == __CPROVER_loop_entry(vf_st.st_maxlines))
       __CPROVER_decreases(nminimizers - i)''',
      '''__CPROVER_assigns(i, best, minpenality, __CPROVER_object_whole(g0.mi))
       __CPROVER_loop_invariant(i >= 0 && i <= nminimizers && best >= -1 && best < nminimizers && (i == 0 || best != -1) && (best != -1 || minpenality == 0x1.fffffffffffffp+1023))
       __CPROVER_decreases(nminimizers - i)''', None],
   'doc_trim_spaces': ['''__CPROVER_assigns(buflen, st->st_col, g.blen)
       __CPROVER_loop_invariant(buflen == g.blen && buflen <= __CPROVER_loop_entry(g.blen) && buf == g0.buf)
       __CPROVER_loop_invariant(g0.K < buflen || g0.K >= __CPROVER_loop_entry(g.blen) || g0.at == ' ' || g0.at == '\\t')
       __CPROVER_decreases(buflen)'''],
   'doc_trim_lines': ['''__CPROVER_assigns(buflen, ntrim, g.blen)
       __CPROVER_loop_invariant(buflen == g.blen && buflen <= __CPROVER_loop_entry(g.blen) && buf == g0.buf && ntrim >= 0 && (size_t)ntrim == __CPROVER_loop_entry(g.blen) - buflen)
       __CPROVER_loop_invariant(g0.K < buflen || g0.K >= __CPROVER_loop_entry(g.blen) || g0.at == '\\n')
       __CPROVER_loop_invariant(g.blen == __CPROVER_loop_entry(g.blen) || (g.blen > 0 && buf[g.blen - 1] == '\\n'))
       __CPROVER_decreases(buflen)'''],
 }},
 'assumes': [
   'doc: without -D and without tracing; a document is a finite tree whose node and children are arbitrary; the leaves of a node are numbered by ghost attributes which are defined by those of its children (LIST_FOREACH, LIST_ENTRY are redirected)',
   'doc: strindent_buffer emits blanks only (C07), buffer functions append and remove as specified (C03), doc_fits has no effect on the state; a document muted is unmuted as often as it is muted, all documents being minimized have the same number of alternatives, and no line comment is pending when formatting is turned on again (parser.c)',
 ],
 'proofs': [
  {'name': 'print', 'fn': 'doc_print', 'rec': True, 'replace': ['doc_trim_spaces', 'doc_print_indent'], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'print_indent', 'fn': 'doc_print_indent', 'bounded': 'b_format', 'nobmc': True},
  {'name': 'trim_spaces', 'fn': 'doc_trim_spaces', 'bounded': 'b_format', 'nobmc': True},
  {'name': 'trim_lines', 'fn': 'doc_trim_lines', 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_concat', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'slow': 400, 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_group', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_indent', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_noindent', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_align', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_literal', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_verbatim', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_line', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_softline', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_hardline', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_optline', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_mute', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_unmute', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_optional', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12', '--no-signed-overflow-check'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_minimize', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_scope', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec1_maxlines', 'fn': 'doc_exec1', 'rec': True, 'cbmc': ['--object-bits', '12'], 'replace': ['doc_trace_enter_impl', 'doc_trace_leave_impl', 'doc_diff_group_enter', 'doc_diff_group_leave', 'doc_diff_literal', 'doc_print', 'doc_trim_spaces', 'doc_fits', 'doc_exec_indent', 'doc_exec_align', 'doc_exec_verbatim', 'doc_exec_minimize', 'doc_exec_mute', 'doc_exec_scope', 'doc_exec_maxlines'], 'loopfns': [], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec_indent', 'fn': 'doc_exec_indent', 'cbmc': ['--no-signed-overflow-check'], 'replace': ['doc_exec1', 'doc_print_indent', 'doc_parens_align'], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec_align', 'fn': 'doc_exec_align', 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec_verbatim', 'fn': 'doc_exec_verbatim', 'replace': ['doc_diff_verbatim', 'doc_diff_leave_impl', 'doc_print', 'doc_trim_spaces', 'doc_print_indent'], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec_mute', 'fn': 'doc_exec_mute', 'replace': ['doc_diff_mute_leave'], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec_scope', 'fn': 'doc_exec_scope', 'replace': ['doc_exec1'], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec_maxlines', 'fn': 'doc_exec_maxlines', 'replace': ['doc_exec1'], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'exec_minimize', 'fn': 'doc_exec_minimize', 'replace': ['doc_exec_minimize_indent'], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'minimize', 'fn': 'doc_exec_minimize_indent', 'defs': ['VF_COPY'], 'cbmc': ['--object-bits', '12'], 'slow': 400, 'replace': ['doc_exec_minimize_indent1'], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'minimize1', 'fn': 'doc_exec_minimize_indent1', 'defs': ['VF_UNION'], 'replace': ['doc_exec_indent'], 'bounded': 'b_format', 'nobmc': True},
  {'name': 'diff_enter', 'fn': 'doc_diff_group_enter', 'bounded': 'b_format', 'nobmc': True},
  {'name': 'diff_leave', 'fn': 'doc_diff_group_leave', 'bounded': 'b_format', 'nobmc': True},
  {'name': 'diff_literal', 'fn': 'doc_diff_literal', 'bounded': 'b_format', 'nobmc': True},
  {'name': 'diff_verbatim', 'fn': 'doc_diff_verbatim', 'bounded': 'b_format', 'nobmc': True},
  {'name': 'diff_mute_leave', 'fn': 'doc_diff_mute_leave', 'bounded': 'b_format', 'nobmc': True},
  {'name': 'diff_leave_impl', 'fn': 'doc_diff_leave_impl', 'bounded': 'b_format', 'nobmc': True},
  {'name': 'diff_exit', 'fn': 'doc_diff_exit', 'bounded': 'b_format', 'nobmc': True},
 ],
} @*/
/*
 * Emission of documents: the leaves of a document which are not muted are
 * emitted once each and in order, and nothing else but blanks.
 */
#ifdef VF_NATIVE
#include "vf.h"
#undef errno
#include "config.h"
#include "e2e.h"
#else
#include "vf.h"

#include <assert.h>
#include <err.h>
#include <float.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

#include "libks/arena-buffer.h"
#include "libks/arena.h"
#include "libks/buffer.h"
#include "libks/list.h"
#include "libks/vector.h"
#include "SRC/token.h"
#include "SRC/doc.h"
#include "SRC/lexer.h"
#include "SRC/diff.h"
#include "SRC/style.h"
#include "SRC/util.h"

#undef LIST_ENTRY
#define LIST_ENTRY(name, type)						\
struct {								\
	struct type *tqe_next;						\
	union {								\
		struct name *list;					\
		struct type **ptr;					\
	} tqe_prev;							\
} list_entry;								\
	/* ghost: leaves emitted before/after, mute depth before/after */ \
	size_t vf_lo, vf_hi;						\
	int vf_min, vf_mout
#undef LIST_FOREACH
#define LIST_FOREACH(var, head)						\
	for ((var) = vf_first();					\
	    (var) != (struct doc *)0;					\
	    (var) = vf_next())

struct ghost {
	size_t pos;		/* leaves emitted so far */
	size_t str, len;	/* last leaf emitted */
	int lc;			/* line comment is emitted, new line is not */
	size_t blen;		/* length of buffer */
	int reset;		/* the buffer is about to be restored */
};
struct ghost g;
struct vf_hdr {			/* copy of the buffer */
	size_t pos, len;
	int lc, saved;
};
struct ghost0 {
	int mode, parens, optline;
	unsigned int cur, maxlines;
	int n;
	int line;		/* the leaf is a line comment */
	size_t cap, K;
	const char *buf, *str;
	size_t len;
	char at, last;
	struct doc_minimize *mi;
};
struct ghost0 g0;

static struct buffer *vf_bf;

static void
vf_puts(struct buffer *bf, const char *s, size_t len)
{
	VF_ASSERT(bf == vf_bf, "text goes to the buffer of the document");
#ifdef VF_COPY
	if (g.reset) {
		const struct vf_hdr *h = (const struct vf_hdr *)s;

		g.reset = 0;
		VF_ASSERT(h->saved && len == h->len, "the buffer is restored");
		g.pos = h->pos;
		g.lc = h->lc;
		g.blen = len;
		return;
	}
#endif
	VF_ASSERT(!g.reset, "the buffer is restored");
	if (len == 1 && s[0] == '\n') {
		g.lc = 0;
	}
	g.blen = nd_size();
	VF_ASSUME(g.blen <= g0.cap);
	if (len == 1 && (s[0] == '\n' || s[0] == ' '))
		return;
	VF_ASSERT(!g.lc, "nothing but a new line follows a line comment");
	g.lc = g0.line;
	g.pos++;
	g.str = (size_t)s;
	g.len = len;
}
static size_t
vf_pop(struct buffer *bf, size_t n)
{
	VF_ASSERT(n <= g.blen, "cannot remove more than there is");
	g.blen -= n;
	return n;
}
static void *
vf_copy(size_t len)
{
	struct vf_hdr *h = malloc(sizeof(*h));

	VF_ASSUME(h != NULL);
	h->saved = 0;
	h->len = len;
	return h;
}
static void
vf_memcpy(char *dst, const char *src, size_t len)
{
	struct vf_hdr *h = (struct vf_hdr *)dst;

	VF_ASSERT(src == g0.buf && len == g.blen && len <= h->len, "the buffer is saved");
	h->saved = 1;
	h->len = len;
	h->pos = g.pos;
	h->lc = g.lc;
}
static void
vf_reset(struct buffer *bf)
{
	VF_ASSERT(bf == vf_bf, "the buffer of the document is restored");
	g.reset = 1;
	g.blen = 0;
}
static unsigned int vf_u(void) { return (unsigned int)nd(); }

#ifdef VF_COPY
#define memcpy(a, b, c) vf_memcpy((char *)(a), (const char *)(b), (c))
#endif
#define buffer_puts(a, b, c) vf_puts((a), (b), (c))
#define arena_malloc(a, b) vf_copy(b)
#define buffer_reset(a) vf_reset(a)
#undef arena_scope
#define arena_scope(a, b) struct arena_scope b = {0}
#define buffer_pop(a, b) vf_pop((a), (b))
#define buffer_get_ptr(a) (g0.buf)
#define buffer_get_len(a) (g.blen)
#define strindent_buffer(a, b, c, d) vf_strindent((a), (b), (d))
#define strwidth(a, b, c) vf_u()
#define style(a, b) vf_u()
#define style_use_tabs(a) ((int)vf_u())
#undef VECTOR_LENGTH
#define VECTOR_LENGTH(a) ((size_t)g0.n)
static unsigned int
vf_strindent(struct buffer *bf, unsigned int indent, unsigned int col)
{
	g.blen = nd_size();
	VF_ASSUME(g.blen <= g0.cap);
	/* The column advances if asked to, see C07. */
	unsigned int n = vf_u();

	VF_ASSUME(indent == 0 || n > col);
	return n;
}

struct doc;
struct doc_state;
extern struct doc vf_dc, vf_child;
extern struct doc_state vf_st;
static struct doc *vf_first(void);
static struct doc *vf_next(void);

#define TEXT(s, n) (!((n) == 1 && ((s)[0] == '\n' || (s)[0] == ' ')))
#define EMITTED g.reset, g.pos, g.str, g.len, g.lc, g.blen
#define PRINTED vf_st.st_muteline, vf_st.st_comment, vf_st.st_newline, vf_st.st_refit, vf_st.st_nlines, vf_st.st_stats.nlines, vf_st.st_stats.nexceeds, vf_st.st_optline, vf_st.st_minimize.idx, vf_st.st_col, vf_st.st_indent.pre
#define EXECUTED vf_st
#define STOK ((vf_st.st_flags & (DOC_EXEC_DIFF | DOC_EXEC_TRACE)) == 0 && vf_st.st_maxlines >= 1 && (vf_st.st_mode == BREAK || vf_st.st_mode == MUNGE) && vf_st.st_mute >= 0 && vf_st.st_mute <= 1000000 && vf_st.st_bf == vf_bf && vf_st.st_minimize.idx >= -1 && vf_st.st_minimize.idx < g0.n)
/* A new line is bound to follow a line comment. */
#define INV (INVN && (!g.lc || vf_st.st_comment))
#define INVN (STOK && !g.reset && (vf_st.st_mute > 0 || vf_st.st_nlines == 0 || !g.lc) && g.blen <= g0.cap)
#define NL(s, n) ((n) == 1 && (s)[0] == '\n')
#define PRESERVED (vf_st.st_indent.cur == g0.cur && vf_st.st_parens == g0.parens && vf_st.st_maxlines == g0.maxlines)
#define REMEMBER ((int)vf_st.st_mode == g0.mode && PRESERVED)

/* Each member belongs to its own types, see SHAPE. */
#ifndef VF_UNION
#define union struct
#endif
#include "SRC/doc.c"
#undef union

struct doc vf_dc, vf_child;
struct doc_state vf_st;
static struct token vf_tk;

/* Children of a list, the ghost attributes are chosen as needed. */
static struct doc *
vf_pick(size_t lo, int min)
{
	vf_child.vf_lo = lo;
	vf_child.vf_min = min;
	if (nd_bool()) {
		/* This is how the attributes of the parent are defined. */
		VF_ASSUME(lo == vf_dc.vf_hi && min == vf_dc.vf_mout);
		return (struct doc *)0;
	}
	vf_child.vf_hi = nd_size();
	vf_child.vf_mout = nd_int();
	VF_ASSUME(vf_child.vf_mout >= 0 && vf_child.vf_mout <= 1000000);
	return &vf_child;
}
static struct doc *vf_first(void) { return vf_pick(vf_dc.vf_lo, vf_dc.vf_min); }
static struct doc *vf_next(void) { return vf_pick(vf_child.vf_hi, vf_child.vf_mout); }

#define LEAF(d) ((d)->dc_type == DOC_LITERAL || (d)->dc_type == DOC_VERBATIM)
#define MUTE(d) ((d)->dc_type == DOC_MUTE || (d)->dc_type == DOC_UNMUTE)
#define NONE(d) ((d)->dc_type == DOC_ALIGN || (d)->dc_type == DOC_LINE || (d)->dc_type == DOC_SOFTLINE || (d)->dc_type == DOC_HARDLINE || (d)->dc_type == DOC_OPTLINE)
/* The document under consideration and its child(ren). */
#define SHAPE (SHAPE1 && SHAPE2 && SHAPE3)
#define SHAPE1 (vf_dc.dc_type <= DOC_MAXLINES && vf_dc.vf_min >= 0 && vf_dc.vf_min <= 1000000 && vf_dc.vf_mout >= 0 && vf_dc.vf_mout <= 1000000)
#define SHAPE2 (LEAF(&vf_dc) ? g0.line == (vf_dc.dc_type == DOC_VERBATIM && (vf_tk.tk_flags & TOKEN_FLAG_COMMENT_C99) && g0.last != '\n') && vf_dc.vf_hi == vf_dc.vf_lo + (!(g0.len == 1 && (g0.last == '\n' || g0.last == ' ')) && vf_dc.vf_min == 0) && vf_dc.vf_mout == vf_dc.vf_min : \
    NONE(&vf_dc) ? vf_dc.vf_hi == vf_dc.vf_lo && vf_dc.vf_mout == vf_dc.vf_min : \
    MUTE(&vf_dc) ? vf_dc.vf_hi == vf_dc.vf_lo && vf_dc.dc_int >= -10 && vf_dc.dc_int <= 10 && vf_dc.vf_mout == vf_dc.vf_min + (vf_dc.dc_int > 0 || vf_dc.vf_min >= -vf_dc.dc_int ? vf_dc.dc_int : 0) : \
    vf_dc.dc_type == DOC_CONCAT ? 1 : \
    vf_dc.vf_lo == vf_child.vf_lo && vf_dc.vf_hi == vf_child.vf_hi && vf_dc.vf_min == vf_child.vf_min && vf_dc.vf_mout == vf_child.vf_mout)
#define SHAPE3 ((vf_dc.dc_type != DOC_MUTE || vf_dc.dc_int > 0 || vf_dc.vf_min > 0) && (vf_dc.dc_type != DOC_UNMUTE || !g.lc) && (vf_dc.dc_type != DOC_MAXLINES || vf_dc.dc_int >= 1))
#define BLANK(c) ((c) == ' ' || (c) == '\t')
#define MAXSTR ((size_t)1 << 31)
#define PTRS (LEAF(&vf_dc) ? vf_dc.dc_str == g0.str && vf_dc.dc_len == g0.len && vf_dc.dc_tk == &vf_tk : \
    NONE(&vf_dc) || MUTE(&vf_dc) || vf_dc.dc_type == DOC_CONCAT ? 1 : vf_dc.dc_doc == &vf_child)
#define MPTR (dc != &vf_dc || vf_dc.dc_type != DOC_MINIMIZE || vf_dc.dc_minimizers == g0.mi)
#define ISMINI (dc == &vf_dc && vf_dc.dc_type == DOC_MINIMIZE)

#define EXEC(T) EXEC0(T, PTRS && MPTR)
#define EXEC0(T, P) \
__CPROVER_requires(st == &vf_st && (dc == &vf_dc || dc == &vf_child) && (T)) \
__CPROVER_requires(P && SHAPE) \
__CPROVER_requires(g.pos == dc->vf_lo && vf_st.st_mute == dc->vf_min && INV) \
__CPROVER_assigns(EMITTED, vf_st; dc == &vf_dc && vf_dc.dc_type == DOC_CONCAT: vf_child.vf_lo, vf_child.vf_hi, vf_child.vf_min, vf_child.vf_mout; ISMINI: vf_dc.dc_minimizers, __CPROVER_object_whole(g0.mi)) \
__CPROVER_ensures(g.pos == dc->vf_hi) \
__CPROVER_ensures(vf_st.st_mute == dc->vf_mout) \
__CPROVER_ensures(INVN) \
__CPROVER_ensures(INV) \
__CPROVER_ensures(vf_st.st_mode == __CPROVER_old(vf_st.st_mode) && vf_st.st_indent.cur == __CPROVER_old(vf_st.st_indent.cur) && vf_st.st_parens == __CPROVER_old(vf_st.st_parens) && vf_st.st_maxlines == __CPROVER_old(vf_st.st_maxlines) && vf_st.st_flags == __CPROVER_old(vf_st.st_flags)) \
__CPROVER_ensures(dc == &vf_child || !LEAF(&vf_dc) || vf_dc.vf_hi == vf_dc.vf_lo || (g.str == (size_t)vf_dc.dc_str && g.len == vf_dc.dc_len))

#define NODIFF \
__CPROVER_requires(st == &vf_st && STOK) \
__CPROVER_assigns()

VF_CONTRACT(
static int doc_diff_group_enter(const struct doc *dc, struct doc_state *st, int nested)
NODIFF __CPROVER_ensures(__CPROVER_return_value == 0);
static void doc_diff_group_leave(const struct doc *dc, struct doc_state *st, int enter)
NODIFF;
static void doc_diff_literal(const struct doc *dc, struct doc_state *st)
NODIFF;
static unsigned int doc_diff_verbatim(const struct doc *dc, struct doc_state *st)
NODIFF __CPROVER_ensures(__CPROVER_return_value == 0);
static void doc_diff_mute_leave(const struct doc *dc, struct doc_state *st)
NODIFF;
static void doc_diff_exit(const struct doc *dc, struct doc_state *st)
NODIFF;
static void doc_diff_leave_impl(const struct doc *dc, struct doc_state *st, unsigned int end, const char *fun)
NODIFF __CPROVER_requires(end == 0);
static void doc_trace_enter_impl(const struct doc *dc, struct doc_state *st)
__CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(1);
static void doc_trace_leave_impl(const struct doc *dc, struct doc_state *st)
__CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(1);
static int doc_print(const struct doc *dc, struct doc_state *st, const char *str, size_t len, unsigned int flags)
__CPROVER_requires(st == &vf_st)
__CPROVER_requires(len >= 1 && len <= MAXSTR && __CPROVER_is_fresh(str, len))
__CPROVER_requires((NL(str, len) && vf_st.st_mute == 0 ? INVN : INV) && (flags & DOC_PRINT_FORCE) == 0)
__CPROVER_assigns(EMITTED, PRINTED)
__CPROVER_ensures(TEXT(str, len) && vf_st.st_mute == 0 ? STOK && !g.reset && g.blen <= g0.cap && vf_st.st_nlines == 0 : INV)
__CPROVER_ensures(g.pos == __CPROVER_old(g.pos) + (TEXT(str, len) && vf_st.st_mute == 0))
__CPROVER_ensures(!(TEXT(str, len) && vf_st.st_mute == 0) || (g.str == (size_t)str && g.len == len && g.lc == g0.line && !vf_st.st_newline && !vf_st.st_comment))
__CPROVER_ensures(!NL(str, len) || (!vf_st.st_newline && (vf_st.st_mute > 0 || (!vf_st.st_comment && !g.lc))))
;
static unsigned int doc_print_indent(const struct doc *dc, struct doc_state *st, unsigned int indent)
__CPROVER_requires(st == &vf_st)
__CPROVER_assigns(vf_st.st_col, vf_st.st_indent.pre, g.blen)
__CPROVER_ensures(g.blen <= g0.cap)
;
static void doc_trim_spaces(const struct doc *dc, struct doc_state *st)
__CPROVER_requires(st == &vf_st && STOK && g.blen <= g0.cap)
__CPROVER_assigns(vf_st.st_col, g.blen)
__CPROVER_ensures(g.blen <= __CPROVER_old(g.blen))
__CPROVER_ensures(g0.K < g.blen || g0.K >= __CPROVER_old(g.blen) || BLANK(g0.at))
__CPROVER_ensures(g.blen == 0 || g0.K != g.blen - 1 || !BLANK(g0.at))
;
static void doc_trim_lines(const struct doc *dc, struct doc_state *st)
__CPROVER_requires(st == &vf_st && STOK && g.blen <= g0.cap && g0.cap <= INT_MAX)
__CPROVER_assigns(g.blen)
__CPROVER_ensures(g.blen <= __CPROVER_old(g.blen) && (g.blen > 0 || __CPROVER_old(g.blen) == 0))
__CPROVER_ensures(g0.K < g.blen || g0.K >= __CPROVER_old(g.blen) || g0.at == '\n')
__CPROVER_ensures(g.blen == __CPROVER_old(g.blen) || g0.K != g.blen - 1 || g0.at == '\n')
;
static int doc_fits(const struct doc *dc, struct doc_state *st)
__CPROVER_requires(st == &vf_st)
__CPROVER_assigns(vf_st.st_stats.nfits)
;
static int doc_parens_align(const struct doc_state *st)
__CPROVER_requires(st == &vf_st)
__CPROVER_assigns()
;
static void doc_exec1(const struct doc *dc, struct doc_state *st)
EXEC(1)
;
static void doc_exec_indent(const struct doc *dc, struct doc_state *st)
EXEC0(dc == &vf_dc && (vf_dc.dc_type == DOC_INDENT || vf_dc.dc_type == DOC_MINIMIZE), PTRS)
;
static void doc_exec_align(const struct doc *dc, struct doc_state *st)
EXEC(dc == &vf_dc && vf_dc.dc_type == DOC_ALIGN)
;
static void doc_exec_verbatim(const struct doc *dc, struct doc_state *st)
EXEC(dc == &vf_dc && vf_dc.dc_type == DOC_VERBATIM)
;
static void doc_exec_mute(const struct doc *dc, struct doc_state *st)
EXEC(dc == &vf_dc && (vf_dc.dc_type == DOC_MUTE || vf_dc.dc_type == DOC_UNMUTE))
;
static void doc_exec_scope(const struct doc *dc, struct doc_state *st)
EXEC(dc == &vf_dc && vf_dc.dc_type == DOC_SCOPE)
;
static void doc_exec_maxlines(const struct doc *dc, struct doc_state *st)
EXEC(dc == &vf_dc && vf_dc.dc_type == DOC_MAXLINES)
;
static void doc_exec_minimize(const struct doc *dc, struct doc_state *st)
EXEC(dc == &vf_dc && vf_dc.dc_type == DOC_MINIMIZE)
;
static void doc_exec_minimize_indent1(struct doc *dc, struct doc_state *st, int idx)
__CPROVER_requires(idx >= 0 && idx < g0.n)
EXEC(dc == &vf_dc && vf_dc.dc_type == DOC_MINIMIZE)
__CPROVER_ensures(vf_dc.dc_minimizers == g0.mi)
;
static void doc_exec_minimize_indent(const struct doc *dc, struct doc_state *st)
EXEC(dc == &vf_dc && vf_dc.dc_type == DOC_MINIMIZE)
;
)

#ifdef VF_PROOF
/* Any document of the given type. */
static void
vf_tree(enum doc_type type)
{
	vf_dc.dc_type = type;
	VF_ASSUME(g0.n >= 1 && g0.n <= 1000000);
	g0.mi = malloc((size_t)g0.n * sizeof(*g0.mi));
	VF_ASSUME(g0.mi != NULL && g0.mi[0].type == DOC_MINIMIZE_INDENT);
	if (LEAF(&vf_dc)) {
		VF_ASSUME(g0.len >= 1 && g0.len <= MAXSTR);
		char *p = malloc(g0.len);
		VF_ASSUME(p != NULL);
		p[g0.len - 1] = g0.last;
		g0.str = p;
		vf_dc.dc_str = g0.str;
		vf_dc.dc_len = g0.len;
		vf_dc.dc_tk = &vf_tk;
	} else if (!NONE(&vf_dc) && !MUTE(&vf_dc) && type != DOC_CONCAT) {
		vf_dc.dc_doc = &vf_child;
		if (type == DOC_MINIMIZE)
			vf_dc.dc_minimizers = g0.mi;
	}
}
#define H(name, call) \
void \
h_##name(void) \
{ \
	const struct doc *dc = &vf_dc; struct doc_state *st = &vf_st; unsigned int u; \
	call; \
	VF_REACH("returns"); \
}
void
h_print(void)
{
	const struct doc *dc; struct doc_state *st = &vf_st; const char *s; size_t n; unsigned int u;

	if (doc_print(dc, st, s, n, u))
		VF_REACH("printed");
	else
		VF_REACH("suppressed");
	if (!g.lc && vf_st.st_mute)
		VF_REACH("mute");
}
H(print_indent, doc_print_indent(dc, st, u))
static void
vf_buf(void)
{
	VF_ASSUME(g0.cap <= MAXSTR);
	g0.buf = malloc(g0.cap);
	VF_ASSUME(g0.buf != NULL);
	if (g0.K < g0.cap)
		g0.at = g0.buf[g0.K];
}
H(trim_spaces, vf_buf(); doc_trim_spaces(dc, st))
H(trim_lines, vf_buf(); doc_trim_lines(dc, st))
H(exec_indent, vf_tree(nd_bool() ? DOC_INDENT : DOC_MINIMIZE); doc_exec_indent(dc, st))
H(exec_align, vf_tree(DOC_ALIGN); doc_exec_align(dc, st))
H(exec_verbatim, vf_tree(DOC_VERBATIM); doc_exec_verbatim(dc, st))
H(exec_mute, vf_tree(nd_bool() ? DOC_MUTE : DOC_UNMUTE); doc_exec_mute(dc, st))
H(exec_scope, vf_tree(DOC_SCOPE); doc_exec_scope(dc, st))
H(exec_maxlines, vf_tree(DOC_MAXLINES); doc_exec_maxlines(dc, st))
H(diff_enter, vf_st.st_flags = 0; int n; doc_diff_group_enter(dc, st, n))
H(diff_leave, vf_st.st_flags = 0; int n; doc_diff_group_leave(dc, st, n))
H(diff_literal, vf_st.st_flags = 0; doc_diff_literal(dc, st))
H(diff_verbatim, vf_st.st_flags = 0; doc_diff_verbatim(dc, st))
H(diff_mute_leave, vf_st.st_flags = 0; doc_diff_mute_leave(dc, st))
H(diff_leave_impl, vf_st.st_flags = 0; doc_diff_leave_impl(dc, st, 0, NULL))
H(diff_exit, vf_st.st_flags = 0; doc_diff_exit(dc, st))
H(exec_minimize, vf_tree(DOC_MINIMIZE); doc_exec_minimize(dc, st))
H(minimize, vf_tree(DOC_MINIMIZE); doc_exec_minimize_indent(dc, st))
H(minimize1, vf_tree(DOC_MINIMIZE); int i; doc_exec_minimize_indent1((struct doc *)dc, st, i))
#define H1(name, type) H(exec1_##name, vf_tree(type); doc_exec1(dc, st))
H1(concat, DOC_CONCAT)
H1(group, DOC_GROUP)
H1(indent, DOC_INDENT)
H1(noindent, DOC_NOINDENT)
H1(align, DOC_ALIGN)
H1(literal, DOC_LITERAL)
H1(verbatim, DOC_VERBATIM)
H1(line, DOC_LINE)
H1(softline, DOC_SOFTLINE)
H1(hardline, DOC_HARDLINE)
H1(optline, DOC_OPTLINE)
H1(mute, DOC_MUTE)
H1(unmute, DOC_UNMUTE)
H1(optional, DOC_OPTIONAL)
H1(minimize, DOC_MINIMIZE)
H1(scope, DOC_SCOPE)
H1(maxlines, DOC_MAXLINES)
#endif
#endif
