/*@ {
 'inst': ['comment.c'],
 'link': 'ALL',
 'loops': {'comment.c': {
   'comment_trim': ['''__CPROVER_assigns(sp, len, EMITTED)
      __CPROVER_loop_invariant(g.pos <= g0.len && len == g0.len - g.pos && sp == g0.base + g.pos && g.bol && !g.cr && g.wn == 0 && g.ws == 0)
      __CPROVER_decreases(len)'''],
   'skipws': ['''__CPROVER_assigns(i, len, g.ws)
      __CPROVER_loop_invariant(g.ws == i)
      __CPROVER_loop_invariant(len <= __CPROVER_loop_entry(len) && i == __CPROVER_loop_entry(len) - len)
      __CPROVER_loop_invariant(len >= 1 || __CPROVER_loop_entry(len) == 0)
      __CPROVER_loop_invariant(!KIN(g.pos, g.pos + i) || BLANK(g0.at))
      __CPROVER_decreases(len)
      @ghost g.ws = i + 1;'''],
   'rskipws': ['''__CPROVER_assigns(len)
      __CPROVER_loop_invariant(len <= __CPROVER_loop_entry(len))
      __CPROVER_loop_invariant(!KIN(g.pos + len, g.pos + __CPROVER_loop_entry(len)) || SPACE(g0.at))
      __CPROVER_decreases(len)'''],
 }},
 'assumes': [
   'comment: strwidth and strindent_buffer as specified by C07, buffer_puts and buffer_putc by C03, memchr by the C standard; isspace of the C locale; comments shorter than 2^40 bytes',
 ],
 'proofs': [
  {'name': 'trim', 'fn': 'comment_trim', 'replace': ['skipws', 'rskipws'], 'nobmc': True},
  {'name': 'file', 'fn': 'comment_trim', 'mode': 'native', 'bounded': 'b_file', 'jobs': 4, 'count': 100000, 'search_s': 60, 'cost': 20, 'reason': 'comments as part of a file, through lexer, parser and document'},
  {'name': 'skipws', 'fn': 'skipws', 'bounded': 'b_trim', 'nobmc': True},
  {'name': 'rskipws', 'fn': 'rskipws', 'bounded': 'b_trim', 'nobmc': True},
 ],
} @*/
/*
 * Comments: every byte of a comment is kept and so is the order of them, the
 * exceptions are blanks ending a line and those in front of a leading asterisk
 * or slash which are replaced by blanks of the same width.
 */
#include "vf.h"

#include <ctype.h>
#include <string.h>

#include "libks/arena-buffer.h"
#include "libks/arena.h"
#include "libks/buffer.h"
#include "SRC/token.h"
#include "SRC/style.h"
#include "SRC/util.h"
#include "SRC/comment.h"

#define BLANK(c) ((c) == 32 || (c) == 9)
#define SPACE(c) ((c) == 32 || ((c) >= 9 && (c) <= 13))
#undef isspace
#define isspace(c) vf_isspace(c)
static int vf_isspace(int c) { return SPACE(c); }

#ifdef VF_PROOF
#define MAXLEN ((size_t)1 << 40)
struct ghost {
	size_t pos;		/* bytes of the comment dealt with */
	size_t nl;		/* next new line */
	size_t wn, w;		/* blanks being replaced and their width */
	int bol, cr;
	int found;
	size_t ws;
};
static struct ghost g;
struct ghost0 {
	const char *base;
	size_t len, K;		/* an arbitrary byte */
	char at;
};
static struct ghost0 g0;
#define KIN(a, b) (g0.K >= (a) && g0.K < (b))
#define EMITTED g.pos, g.nl, g.wn, g.w, g.bol, g.cr, g.found, g.ws

static const void *
vf_memchr(const char *s, int c, size_t n)
{
	VF_ASSERT(c == '\n' && s == g0.base + g.pos && n == g0.len - g.pos, "looks for the end of the line");
	g.found = nd_bool();
	if (!g.found) {
		VF_ASSUME(n == 0 || s[n - 1] != '\n');
		VF_ASSUME(!KIN(g.pos, g0.len) || g0.at != '\n');
		return NULL;
	}
	g.nl = nd_size();
	VF_ASSUME(g.nl >= g.pos && g.nl < g0.len && g0.base[g.nl] == '\n');
	VF_ASSUME(!KIN(g.pos, g.nl) || g0.at != '\n');
	return &g0.base[g.nl];
}
static size_t
vf_strwidth(const char *s, size_t n, size_t pos)
{
	VF_ASSERT(g.bol && s == g0.base + g.pos && pos == 0 && n < g0.len - g.pos, "width of the leading blanks");
	VF_ASSERT(!KIN(g.pos, g.pos + n) || BLANK(g0.at), "width of blanks");
	g.wn = n;
	g.w = nd_size();
	return g.w;
}
static size_t
vf_strindent(size_t indent, size_t pos)
{
	VF_ASSERT(g.bol && indent == g.w && pos == 0, "blanks of the same width");
	VF_ASSERT(g0.base[g.pos + g.wn] == '*' || g0.base[g.pos + g.wn] == '/', "in front of an asterisk or slash");
	g.pos += g.wn;
	g.wn = 0;
	g.bol = 0;
	return nd_size();
}
static int
vf_puts(const char *s, size_t n)
{
	VF_ASSERT(!g.cr && g.found && s == g0.base + g.pos && n <= g.nl - g.pos, "text of the line");
	g.pos += n;
	g.bol = 0;
	return 0;
}
static int
vf_putc(char c)
{
	VF_ASSERT(c == '\r' ? !g.cr : c == '\n', "end of the line");
	if (c == '\r') {
		g.cr = 1;
		return 0;
	}
	VF_ASSERT(g.cr == (g0.len >= 2 && g0.base[g0.len - 2] == '\r'), "kind of line endings");
	VF_ASSERT(g.found && g.pos <= g.nl, "one new line each");
	VF_ASSERT(!KIN(g.pos, g.nl) || (SPACE(g0.at) && g0.at != '\n'), "nothing but trailing blanks is removed");
	g.pos = g.nl + 1;
	g.cr = 0;
	g.bol = 1;
	g.found = 0;
	g.ws = 0;
	return 0;
}
#define memchr(a, b, c) vf_memchr((a), (b), (c))
#define strwidth(a, b, c) vf_strwidth((a), (b), (c))
#define strindent_buffer(a, b, c, d) vf_strindent((b), (d))
#define buffer_puts(a, b, c) vf_puts((b), (c))
#define buffer_putc(a, b) vf_putc(b)
#define arena_buffer_alloc(a, b) ((struct buffer *)&g)
#define style_use_tabs(a) nd_bool()
#else
static int vf_tabs;
#endif

#include "SRC/comment.c"

#ifdef VF_PROOF
#define R __CPROVER_return_value
#define TEXT (g0.len <= MAXLEN && (g0.K >= g0.len || g0.at == g0.base[g0.K]))
VF_CONTRACT(
static const char *skipws(const char *str, size_t len)
__CPROVER_requires(TEXT && str == g0.base + g.pos && g.pos <= g0.len && len == g0.len - g.pos && g.ws == 0)
__CPROVER_requires(g0.len == 0 || g0.base[g0.len - 1] == '\n')
__CPROVER_assigns(g.ws)
__CPROVER_ensures(g.ws == 0 ? R == NULL : g.ws < len && PEQ((char *)R, (char *)g0.base + g.pos + g.ws))
__CPROVER_ensures(len == 0 || !BLANK(g0.base[g.pos + g.ws]))
__CPROVER_ensures(!KIN(g.pos, g.pos + g.ws) || BLANK(g0.at))
;
static size_t rskipws(const char *str, size_t len)
__CPROVER_requires(TEXT && str == g0.base + g.pos && g.pos <= g0.len && len <= g0.len - g.pos)
__CPROVER_assigns()
__CPROVER_ensures(R <= len)
__CPROVER_ensures(R == 0 || !SPACE(g0.base[g.pos + R - 1]))
__CPROVER_ensures(!KIN(g.pos + R, g.pos + len) || SPACE(g0.at))
;
struct buffer *comment_trim(const struct token *tk, const struct style *st, struct arena_scope *s)
__CPROVER_requires(TEXT && tk->tk_str == g0.base && tk->tk_len == g0.len)
__CPROVER_requires(g.pos == 0 && g.bol == 1 && !g.cr && g.wn == 0 && g.ws == 0 && !g.found)
__CPROVER_assigns(EMITTED)
__CPROVER_ensures((__CPROVER_return_value != NULL) == (g0.len > 0 && g0.base[g0.len - 1] == '\n'))
__CPROVER_ensures(__CPROVER_return_value == NULL || g.pos == g0.len)
;
)
static void
vf_text(void)
{
	VF_ASSUME(g0.len <= MAXLEN);
	g0.base = malloc(g0.len);
	VF_ASSUME(g0.base != NULL);
	VF_ASSUME(g0.K >= g0.len || g0.at == g0.base[g0.K]);
}
void
h_skipws(void)
{
	const char *s; size_t n;

	vf_text();
	if (skipws(g0.base + g.pos, n) != NULL)
		VF_REACH("blanks");
	else
		VF_REACH("none");
}
void
h_rskipws(void)
{
	size_t n;

	vf_text();
	rskipws(g0.base + g.pos, n);
	VF_REACH("returns");
}
void
h_trim(void)
{
	struct token tk; const struct style *st; struct arena_scope *s;

	vf_text();
	tk.tk_str = g0.base;
	tk.tk_len = g0.len;
	if (comment_trim(&tk, st, s) != NULL)
		VF_REACH("trimmed");
	else
		VF_REACH("unchanged");
}
#endif

#ifdef VF_NATIVE
#undef isspace
#define VF_SRC
#include "e2e.h"
static char ref[65536];
static size_t
vf_ref(const char *src, size_t len)
{
	size_t i, nref = 0;
	int crlf = len >= 2 && src[len - 1] == '\n' && src[len - 2] == '\r';

	for (i = 0; i < len;) {
		size_t e = i, b = i, w = 0, end;

		while (src[e] != '\n')
			e++;
		while (BLANK(src[b])) {
			w = src[b] == '\t' ? w / 8 * 8 + 8 : w + 1;
			b++;
		}
		if (b > i && (src[b] == '*' || src[b] == '/')) {
			if (vf_tabs) {
				for (; w >= 8; w -= 8)
					ref[nref++] = '\t';
			}
			for (; w > 0; w--)
				ref[nref++] = ' ';
			i = b;
		}
		for (end = e; end > i && SPACE(src[end - 1]); end--)
			continue;
		memcpy(&ref[nref], &src[i], end - i);
		nref += end - i;
		if (crlf)
			ref[nref++] = '\r';
		ref[nref++] = '\n';
		i = e + 1;
	}
	return nref;
}
static void
vf_check(const char *src, size_t len)
{
	struct token tk = { .tk_str = src, .tk_len = len };
	struct arena *a = arena_alloc();
	size_t nref;
	{
		arena_scope(a, s);
		struct buffer *cf = arena_buffer_alloc(&s, 128);
		buffer_printf(cf, "UseTab: %s\n", vf_tabs ? "Always" : "Never");
		e2e_init();
		struct style *st = style_parse_buffer(cf, ".clang-format", &s, e2e.scratch, &e2e.op);
		struct buffer *bf = comment_trim(&tk, st, &s);

		VF_ASSERT((bf != NULL) == (len > 0 && src[len - 1] == '\n'), "trimmed if ending with a new line");
		if (bf != NULL) {
			nref = vf_ref(src, len);
			VF_ASSERT(buffer_get_len(bf) == nref && memcmp(buffer_get_ptr(bf), ref, nref) == 0, "nothing but blanks change");
		}
	}
	arena_free(a);
}
/* A file starting with comment(s). */
void
b_file(void)
{
	static char src[8192], out[65536];
	size_t i, m, n = 0, nref, l;
	int line = nd_bool();

	e2e_init();
	vf_tabs = nd_bool();
	src[n++] = '/';
	src[n++] = line ? '/' : '*';
	m = nd_upto(40);
	for (i = 0; i < m; i++) {
		char c = nd_alpha(line ? "ab */\t \"'x?!" : "ab* \t \n\t*ab\n  \"'x?!/");

		if (c == '\0' || c == '\r' || c == '\\' || (line && c == '\n'))
			c = 'q';
		if (c == '/' && !line && src[n - 1] == '*')
			c = 'z';
		src[n++] = c;
	}
	if (!line) {
		src[n++] = '*';
		src[n++] = '/';
	}
	src[n++] = '\n';
	nref = vf_ref(src, n);
	memcpy(&src[n], "int x;\n", 7);
	memcpy(&ref[nref], "int x;\n", 7);
	l = e2e_format(src, n + 7, out, sizeof(out), vf_tabs ? "UseTab: Always\n" : "UseTab: Never\n");
	if (l != nref + 7 || memcmp(out, ref, l) != 0) {
		fprintf(stderr, "--- source\n%.*s--- formatted\n%.*s--- expected\n%.*s---\n", (int)n + 7, src, (int)(l == E2E_ERROR ? 0 : l), out, (int)nref + 7, ref);
		VF_ASSERT(0, "comments keep their text");
	}
}
void
b_trim(void)
{
	size_t i, n = nd_upto(40);
	char *src = malloc(n + 1);

	vf_tabs = nd_bool();
	for (i = 0; i < n; i++)
		src[i] = nd_alpha("ab */\\/\t \t\n\r\v\f*/\n  ");
	if (n > 0 && nd_bool())
		src[n - 1] = '\n';
	src[n] = '\0';
	vf_check(src, n);
	free(src);
}
#endif
