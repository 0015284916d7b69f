/*@ {
 'inst': ['cpp-align.c'],
 'link': 'ALL',
 'loops': {'cpp-align.c': {
   'nextline': ['''__CPROVER_assigns(p, g.te)
      __CPROVER_loop_invariant(g.te <= g.nl - 1 - g.pos && p == str + g.te)
      __CPROVER_loop_invariant(!KIN(g.pos + g.te, g.nl - 1) || SPACE(g0.at))
      __CPROVER_decreases(g.te)
      @ghost g.te--;'''],
   'cpp_align': ['''__CPROVER_assigns(str, len, nx, nlines, EMITTED)
      __CPROVER_loop_invariant(g.pos <= g0.len && len == g0.len - g.pos && str == g0.base + g.pos && !g.aligned && !g.slash && g.lit == 0)
      __CPROVER_loop_invariant(nlines >= 0 && (size_t)nlines <= g.pos)
      __CPROVER_loop_invariant((g.pos > 0) == (nlines > 0))
      __CPROVER_decreases(len)'''],
 }},
 'assumes': [
   'align: doc_literal emits its text and DOC_HARDLINE a new line (C12), ruler_insert and ruler_exec add blanks only, sense_alignment has no effect but on the alignment, memchr by the C standard; isspace of the C locale; directives shorter than 2^30 bytes and without NUL',
 ],
 'proofs': [
  {'name': 'nextline', 'fn': 'nextline', 'bounded': 'b_align', 'nobmc': True},
  {'name': 'whole', 'fn': 'cpp_align', 'mode': 'native', 'bounded': 'b_align', 'jobs': 4, 'count': 100000, 'search_s': 60, 'cost': 20, 'reason': 'alignment through ruler and document'},
  {'name': 'align', 'fn': 'cpp_align', 'replace': ['nextline', 'sense_alignment'], 'nobmc': True},
 ],
} @*/
/*
 * Line continuations: the text of every line is kept, nothing but the blanks
 * in front of the backslash change.
 */
#include "vf.h"

#include <ctype.h>
#include <limits.h>
#include <string.h>

#include "libks/arena-buffer.h"
#include "libks/arena.h"
#include "libks/buffer.h"
#include "SRC/token.h"
#include "SRC/doc.h"
#include "SRC/ruler.h"
#include "SRC/options.h"
#include "SRC/style.h"
#include "SRC/trace.h"
#include "SRC/util.h"
#include "SRC/cpp-align.h"

#define SPACE(c) ((c) == 32 || ((c) >= 9 && (c) <= 13))
#undef isspace
#define isspace(c) vf_isspace(c)
static int vf_isspace(int c) { return SPACE(c); }

#ifdef VF_PROOF
#define MAXLEN ((size_t)1 << 30)
struct ghost {
	size_t pos;		/* bytes of the directive dealt with */
	size_t nl;		/* end of the current line */
	size_t te;		/* length of the text of the current line */
	size_t lit;		/* length of pending literal */
	int cont;		/* current line is continued */
	int aligned, slash;
	int exec;
	int done;
};
static struct ghost g;
struct ghost0 {
	const char *base;
	size_t len, K;
	char at;
	int skip;
};
static struct ghost0 g0;
static char vf_lit[2], vf_doc[2];
#define KIN(a, b) (g0.K >= (a) && g0.K < (b))
#define EMITTED g.pos, g.nl, g.te, g.lit, g.cont, g.aligned, g.slash, g.exec, g.done

static const char *
vf_memchr(const char *s, int c, size_t n)
{
	VF_ASSERT(c == '\n' && s == g0.base + g.pos && n <= g0.len - g.pos, "looks for the end of the line");
	if (nd_bool()) {
		g.cont = 0;
		return NULL;
	}
	g.nl = nd_size();
	VF_ASSUME(g.nl >= g.pos && g.nl - g.pos < n && g0.base[g.nl] == '\n');
	g.cont = g.nl > g.pos && g0.base[g.nl - 1] == '\\';
	g.te = g.cont ? g.nl - 1 - g.pos : 0;
	return &g0.base[g.nl];
}
static char *
vf_strndup(const char *s, size_t n)
{
	VF_ASSERT(s == g0.base + g.pos && n > 0 && n <= g0.len - g.pos && g.lit == 0, "text of the line");
	g.lit = n;
	return vf_lit;
}
static void
vf_literal(const char *s)
{
	if (s == vf_lit) {
		VF_ASSERT(!g.aligned && g.lit == (g.cont ? g.te : g0.len - g.pos), "all text of the line");
		g.pos += g.lit;
		g.te = 0;
		g.lit = 0;
		if (!g.cont)
			g.done = 1;
	} else if (s[0] == ' ' && s[1] == 0) {
		VF_ASSERT(g.cont && g.te == 0 && !g.aligned, "a blank follows the text");
		g.aligned = 1;
	} else {
		VF_ASSERT(s[0] == '\\' && s[1] == 0 && g.cont && g.te == 0 && g.aligned && !g.slash, "one backslash per line");
		g.slash = 1;
	}
}
static void
vf_insert(void)
{
	VF_ASSERT(g.cont && g.te == 0 && !g.aligned, "alignment follows the text");
	g.aligned = 1;
}
static struct doc *
vf_alloc(enum doc_type type)
{
	if (type == DOC_CONCAT)
		return (struct doc *)vf_doc;
	VF_ASSERT(type == DOC_HARDLINE && g.cont && g.slash, "new line after the backslash");
	VF_ASSERT(g.nl >= 1 && g.pos <= g.nl - 1 && (!KIN(g.pos, g.nl - 1) || SPACE(g0.at)), "nothing but blanks are removed");
	g.pos = g.nl + 1;
	g.slash = g.aligned = 0;
	return (struct doc *)vf_doc;
}
#define memchr(a, b, c) vf_memchr((a), (b), (c))
#define arena_strndup(a, b, c) vf_strndup((b), (c))
#undef doc_literal
#define doc_literal(a, b) vf_literal(a)
#undef doc_alloc
#define doc_alloc(a, b) vf_alloc(a)
#undef doc_root
#define doc_root(a) ((struct doc *)vf_doc)
#undef ruler_insert
#define ruler_insert(a, b, c, d, e, f) vf_insert()
#define ruler_init(a, b, c) ((void)(a))
#define ruler_exec(a) ((void)(a))
#define ruler_free(a) ((void)(a))
#define doc_width(...) ((unsigned int)nd())
#define doc_exec(...) VF_ASSERT(!g.aligned && g.lit == 0 && (g.pos == g0.len || g.done), "everything is emitted"), g.exec = 1
#define arena_buffer_alloc(a, b) ((struct buffer *)vf_doc)
#define buffer_reset(a) ((void)(a))
#define style(a, b) ((unsigned int)nd())
#define style_use_tabs(a) nd_bool()
#undef arena_scope
#define arena_scope(a, b) struct arena_scope b = {0}
#undef trace
#define trace(a, b, ...) ((void)(b))
#define colwidth(a, b, c) ((unsigned int)nd())
#define strncmp(a, b, c) ((a)[0] != ' ' || (a)[1] != '\\')
#endif

#include "SRC/cpp-align.c"

#ifdef VF_PROOF
#define R __CPROVER_return_value
#define TEXT (g0.len <= MAXLEN && (g0.K >= g0.len || g0.at == g0.base[g0.K]))
VF_CONTRACT(
static const char *nextline(const char *str, size_t len, const char **nx)
__CPROVER_requires(TEXT && str == g0.base + g.pos && g.pos <= g0.len && len == g0.len - g.pos && __CPROVER_rw_ok(nx, sizeof(*nx)))
__CPROVER_assigns(*nx, g.nl, g.te, g.cont)
__CPROVER_ensures(!g.cont ? R == NULL : g.nl > g.pos && g.nl < g0.len && g0.base[g.nl - 1] == '\\' && g.te <= g.nl - 1 - g.pos)
__CPROVER_ensures(!g.cont || PEQ((char *)R, (char *)g0.base + g.pos + g.te))
__CPROVER_ensures(!g.cont || PEQ((char *)*nx, (char *)g0.base + g.nl + 1))
__CPROVER_ensures(!g.cont || !KIN(g.pos + g.te, g.nl - 1) || SPACE(g0.at))
__CPROVER_ensures(!g.cont || g.te == 0 || !SPACE(g0.base[g.pos + g.te - 1]))
;
static int sense_alignment(const char *str, size_t len, const struct style *st, struct alignment *alignment)
__CPROVER_requires(TEXT && g.pos == 0 && str == g0.base && len == g0.len)
__CPROVER_assigns(*alignment, g.nl, g.te, g.cont)
;
struct buffer *cpp_align(struct token *tk, const struct style *st, struct arena_scope *s, struct arena *scratch, const struct options *op)
__CPROVER_requires(TEXT && tk->tk_str == g0.base && tk->tk_len == g0.len)
__CPROVER_requires(g.pos == 0 && !g.aligned && !g.slash && g.lit == 0 && !g.done && !g.exec)
__CPROVER_assigns(EMITTED)
__CPROVER_ensures(R == NULL || g.exec)
;
)
static void
vf_text(void)
{
	VF_ASSUME(g0.len <= MAXLEN);
	g0.base = malloc(g0.len);
	VF_ASSUME(g0.base != NULL);
	VF_ASSUME(g0.K >= g0.len || g0.at == g0.base[g0.K]);
}
void
h_nextline(void)
{
	size_t n; const char *nx;

	vf_text();
	if (nextline(g0.base + g.pos, n, &nx) != NULL)
		VF_REACH("continued");
	else
		VF_REACH("last line");
}
void
h_align(void)
{
	struct token tk; const struct style *st; struct arena_scope *s; const struct options *op; struct arena *a;

	vf_text();
	tk.tk_str = g0.base;
	tk.tk_len = g0.len;
	if (cpp_align(&tk, st, s, a, op) != NULL)
		VF_REACH("aligned");
	else
		VF_REACH("unchanged");
}
#endif

#ifdef VF_NATIVE
#undef isspace
#define VF_SRC
#include "e2e.h"
/* Length of the text of a line and of the whole line. */
static size_t
vf_line(const char *s, size_t n, size_t *len, int *cont)
{
	size_t i;

	for (i = 0; i < n && s[i] != '\n'; i++)
		continue;
	*len = i < n ? i + 1 : n;
	*cont = i < n && i > 0 && s[i - 1] == '\\';
	if (!*cont)
		return *len;
	for (i--; i > 0 && SPACE(s[i - 1]); i--)
		continue;
	return i;
}
static void
vf_check(const char *src, size_t len, const char *config)
{
	struct token tk = { .tk_str = src, .tk_len = len };
	struct buffer *bf, *cf;
	struct style *st;
	size_t i = 0, j = 0, blen;
	const char *b;

	e2e_init();
	arena_scope(e2e.eternal, s);
	cf = arena_buffer_alloc(&s, 128);
	buffer_puts(cf, config, strlen(config));
	st = style_parse_buffer(cf, ".clang-format", &s, e2e.scratch, &e2e.op);
	VF_ASSERT(st != NULL, "style");
	bf = cpp_align(&tk, st, &s, e2e.scratch, &e2e.op);
	if (bf == NULL)
		return;
	b = buffer_get_ptr(bf);
	blen = buffer_get_len(bf);
	while (i < len) {
		size_t n, m, nn, mm;
		int c, d;

		n = vf_line(&src[i], len - i, &nn, &c);
		m = vf_line(&b[j], blen - j, &mm, &d);
		if (n != m || c != d || memcmp(&src[i], &b[j], n) != 0) {
			fprintf(stderr, "%s\nin:  %.*s\nout: %.*s\n", config, (int)len, src, (int)blen, b);
			VF_ASSERT(0, "the text of every line is kept");
		}
		i += nn;
		if (c)
			j += mm;
		else {
			VF_ASSERT(blen - j == len - i + nn && memcmp(&src[i - nn], &b[j], blen - j) == 0, "the rest is kept");
			return;
		}
	}
	VF_ASSERT(j == blen, "nothing is added");
}
void
b_align(void)
{
	static const char *modes[] = { "DontAlign", "Left", "Right" };
	static const char *tabs[] = { "Never", "Always" };
	size_t i, n = nd_upto(120);
	char *src = malloc(n + 1), config[256];

	snprintf(config, sizeof(config), "ColumnLimit: %d\nAlignEscapedNewlines: %s\nUseTab: %s\nIndentWidth: %d\n",
	    (int)nd_upto(100), modes[nd_upto(2)], tabs[nd_upto(1)], (int)nd_upto(10));
	for (i = 0; i < n; i++) {
		src[i] = nd_alpha("ab\\(\t \t\n  \\\\\\");
		if (src[i] == '\0')
			src[i] = 'x';
		if (i + 1 < n && src[i] == '\\' && nd_bool())
			src[++i] = '\n';
	}
	src[n] = '\0';
	vf_check(src, n, config);
	free(src);
}
#endif
