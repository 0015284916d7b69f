/*@ {
 'inst': ['cpp-include.c'],
 'link': 'ALL',
 'loops': {'cpp-include.c': {
   'token_trim_verbatim_line': ['''__CPROVER_assigns(len)
     __CPROVER_loop_invariant(len > g.stop + 1 && len <= g0.len)
     __CPROVER_decreases(len)'''],
   'cpp_include_reset': ['''__CPROVER_assigns(g.n, g.refs)
     __CPROVER_loop_invariant(g.n <= MAXLEN && g.refs >= 0 && (size_t)g.refs == g.n)
     __CPROVER_decreases(g.n)''', '''__CPROVER_assigns(it, g.groups, g.cleared)
     __CPROVER_loop_invariant(g.groups <= g0.groups && g.cleared == g0.groups - g.groups)
     __CPROVER_decreases(g.groups)'''],
 }},
 'assumes': [
   'include: token_strcmp and token_has_verbatim_line by their contracts (unit token), memchr by the C standard; vectors and maps of libks; texts shorter than 2^30 bytes; cpp_include_exec as a whole is covered by a stand-in, labelled bounded; qsort sorts by the comparison',
 ],
 'proofs': [
  {'name': 'cmp', 'fn': 'include_cmp', 'bounded': 'b_file', 'nobmc': True, 'loopfns': []},
  {'name': 'findpath', 'fn': 'findpath', 'bounded': 'b_file', 'nobmc': True, 'loopfns': []},
  {'name': 'trim', 'fn': 'token_trim_verbatim_line', 'bounded': 'b_file', 'nobmc': True},
  {'name': 'add', 'fn': 'cpp_include_add', 'replace': ['cpp_include_exec', 'cpp_include_reset'], 'bounded': 'b_diff', 'nobmc': True, 'loopfns': []},
  {'name': 'reset', 'fn': 'cpp_include_reset', 'bounded': 'b_diff', 'nobmc': True, 'defs': ['VF_RESET']},
  {'name': 'leave', 'fn': 'cpp_include_leave', 'replace': ['cpp_include_exec', 'cpp_include_reset'], 'bounded': 'b_diff', 'nobmc': True, 'loopfns': []},

  {'name': 'diff', 'fn': 'cpp_include_exec', 'mode': 'native', 'bounded': 'b_diff', 'jobs': 2, 'count': 60000, 'search_s': 60, 'cost': 20, 'reason': 'blocks of includes as part of a file, through lexer, parser and document'},
  {'name': 'file', 'fn': 'cpp_include_exec', 'mode': 'native', 'bounded': 'b_file', 'jobs': 4, 'count': 60000, 'search_s': 60, 'cost': 20, 'reason': 'blocks of includes as part of a file, through lexer, parser and document'},
 ],
} @*/
/*
 * Sorting of includes: a permutation within each block, ordered as documented.
 */
#include "vf.h"

#include <limits.h>
#include <string.h>

#include "libks/arena.h"
#include "libks/map.h"
#include "libks/string.h"
#include "libks/vector.h"
#include "SRC/cpp-include.h"
#include "SRC/lexer.h"
#include "SRC/options.h"
#include "SRC/simple.h"
#include "SRC/style.h"
#include "SRC/token.h"
#ifdef VF_PROOF
#define BLANK(c) ((c) == 32 || (c) == 9 || (c) == 13)
#define MAXLEN ((size_t)1 << 30)
struct ghost0 {
	const char *base;
	size_t len, K;
	char at;
	int enabled, lines, cmp;
	size_t groups;		/* groups of includes */
};
static struct ghost0 g0;
struct ghost {
	size_t first, stop;
	int exec, reset, refs;
	size_t n;		/* includes of the block */
	size_t so, eo, dup;
	size_t groups, cleared;	/* groups left to visit, groups cleared */
};
static struct ghost g;
static char vf_dup[2];
static struct include *vf_slot;
static struct token vf_prev;
#define KIN(a, b) (g0.K >= (a) && g0.K < (b))
static const char *
vf_memchr(const char *s, int c, size_t n)
{
	size_t off = (size_t)(s - g0.base), r;

	VF_ASSERT(off <= g0.len && n <= g0.len - off, "search within the token");
	if (nd_bool()) {
		VF_ASSUME(!KIN(off, off + n) || g0.at != c);
		return NULL;
	}
	r = nd_size();
	VF_ASSUME(r >= off && r - off < n && g0.base[r] == c && (!KIN(off, r) || g0.at != c));
	return &g0.base[r];
}
static char *
vf_strndup(const char *s, size_t n)
{
	VF_ASSERT(n > 0 && (size_t)(s - g0.base) <= g0.len && n <= g0.len - (size_t)(s - g0.base), "path is part of the token");
	g.so = (size_t)(s - g0.base);
	g.eo = g.so + n;
	g.dup = 1;
	return vf_dup;
}
static int
vf_verbatim(const struct token *tk, int nlines)
{
	(void)tk;
	VF_ASSERT(nlines == 2, "blank line");
	if (!g0.lines)
		return 0;
	VF_ASSUME(g.first < g0.len && g.stop < g.first && g0.base[g.first] == 10 && g0.base[g.stop] == 10);
	VF_ASSUME(!KIN(g.stop, g0.len) || BLANK(g0.at) || g0.K == g.first || g0.K == g.stop);
	return 1;
}
static int
vf_strcmp(const struct token *a, const struct token *b)
{
	VF_ASSERT(a != b, "texts of both tokens");
	return g0.cmp;
}
static struct include *
vf_alloc(void)
{
	VF_ASSERT(g.n < MAXLEN, "room");
	g.n++;
	return vf_slot;
}
struct include_group;
static struct include_group *vf_group;
static int
vf_iterate(void)
{
	if (g.groups == 0)
		return 0;
	g.groups--;
	return 1;
}
#define memchr(a, b, c) vf_memchr((a), (b), (c))
#define token_rele(a) (VF_ASSERT((a) == &vf_prev && g.refs > 0, "references taken are released"), (void)g.refs--)
#undef VECTOR_POP
#define VECTOR_POP(x) (g.n--, vf_slot)
#undef VECTOR_CLEAR
#define VECTOR_CLEAR(x) ((void)(x), g.cleared++)
#ifdef VF_RESET
#undef MAP_ITERATE
#define MAP_ITERATE(m, i) ((i)->val = vf_group, vf_iterate())
#endif
#define arena_strndup(a, b, c) vf_strndup((b), (c))
#define token_has_verbatim_line(a, b) vf_verbatim((a), (b))
#define token_strcmp(a, b) vf_strcmp((a), (b))
#define is_simple_enabled(a, b) (VF_ASSERT((b) == SIMPLE_CPP_SORT_INCLUDES, "the right option"), g0.enabled)
#define token_ref(a) (g.refs++, (void)(a))
#define token_prev(a) (&vf_prev)
#undef VECTOR_EMPTY
#define VECTOR_EMPTY(x) (g.n == 0)
#undef VECTOR_ALLOC
#define VECTOR_ALLOC(x) ((void *)vf_alloc())
#endif

#include "SRC/cpp-include.c"

#ifdef VF_PROOF
#define R __CPROVER_return_value
#define OLD(x) __CPROVER_old(x)
static struct include vf_a, vf_b;
static int include_cmp(struct include *const *aa, struct include *const *bb)
__CPROVER_requires(__CPROVER_r_ok(aa, sizeof(*aa)) && __CPROVER_r_ok(bb, sizeof(*bb)) && *aa == &vf_a && *bb == &vf_b)
__CPROVER_assigns()
__CPROVER_ensures((R < 0) == (vf_a.priority.sort < vf_b.priority.sort || (vf_a.priority.sort == vf_b.priority.sort && g0.cmp < 0)))
__CPROVER_ensures((R > 0) == (vf_a.priority.sort > vf_b.priority.sort || (vf_a.priority.sort == vf_b.priority.sort && g0.cmp > 0)))
;
static const char *findpath(const char *str, size_t len, struct arena_scope *s)
__CPROVER_requires(g0.len <= MAXLEN && str == g0.base && len == g0.len && (g0.K >= len || g0.at == str[g0.K]) && !g.dup)
__CPROVER_assigns(g.so, g.eo, g.dup)
__CPROVER_ensures((R != NULL) == (g.dup != 0))
/* From the first quote, or bracket, up to and including the next one. */
__CPROVER_ensures(R == NULL || (g.so < g.eo && g.eo <= g0.len && g.eo - g.so >= 2))
__CPROVER_ensures(R == NULL || g0.base[g.so] == 34 || g0.base[g.so] == 60)
__CPROVER_ensures(R == NULL || g0.base[g.eo - 1] == (g0.base[g.so] == 34 ? 34 : 62))
__CPROVER_ensures(R == NULL || g0.K >= g.so || g0.at != g0.base[g.so])
__CPROVER_ensures(R == NULL || g0.base[g.so] == 34 || g0.K >= g0.len || g0.at != 34)
__CPROVER_ensures(R == NULL || !KIN(g.so + 1, g.eo - 1) || g0.at != g0.base[g.eo - 1])
;
static void token_trim_verbatim_line(struct token *tk)
__CPROVER_requires(g0.len <= MAXLEN && tk->tk_str == g0.base && tk->tk_len == g0.len && (g0.K >= g0.len || g0.at == g0.base[g0.K]))
/* Texts end at a line. */
__CPROVER_requires(!g0.lines || (g0.len > 0 && g0.base[g0.len - 1] == 10))
__CPROVER_assigns(tk->tk_len)
__CPROVER_ensures(g0.lines || tk->tk_len == g0.len)
/* Nothing but white space removed, and a new line is kept. */
__CPROVER_ensures(!KIN(tk->tk_len, g0.len) || BLANK(g0.at) || g0.at == 10)
__CPROVER_ensures(!g0.lines || (tk->tk_len > 0 && tk->tk_len < g0.len && g0.base[tk->tk_len - 1] == 10))
;
static void cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
__CPROVER_requires(!g.exec && !g.reset)
__CPROVER_assigns(g.exec)
__CPROVER_ensures(g.exec == 1)
;
static void cpp_include_reset(struct cpp_include *ci)
#ifdef VF_RESET
__CPROVER_requires(g.n <= MAXLEN && g.refs >= 0 && (size_t)g.refs == g.n && g.groups == g0.groups && g.cleared == 0)
__CPROVER_requires(__CPROVER_r_ok(vf_slot, sizeof(*vf_slot)) && vf_slot->tk == &vf_prev)
__CPROVER_assigns(g.n, g.refs, g.groups, g.cleared, ci->after, ci->ignore)
/* All includes released, all groups cleared. */
__CPROVER_ensures(g.refs == 0 && g.cleared == g0.groups)
#else
__CPROVER_requires(g.exec && !g.reset)
__CPROVER_assigns(g.reset, g.n, ci->after, ci->ignore)
__CPROVER_ensures(g.reset == 1)
#endif
__CPROVER_ensures(g.n == 0 && ci->after == NULL && ci->ignore == 0)
;
#define INCLUDE (tk->tk_type == TOKEN_CPP_INCLUDE)
#define DONE (!INCLUDE || (!ci->regroup && g0.lines))
void cpp_include_add(struct cpp_include *ci, struct lexer *lx, struct token *tk)
__CPROVER_requires(!g.exec && !g.reset && g.refs == 0 && g.n < MAXLEN && __CPROVER_rw_ok(vf_slot, sizeof(*vf_slot)) && __CPROVER_rw_ok(ci, sizeof(*ci)) && __CPROVER_r_ok(ci->op, sizeof(*ci->op)))
__CPROVER_assigns(g0.enabled && tk->tk_type == TOKEN_CPP_INCLUDE: *vf_slot, g.refs)
__CPROVER_assigns(g0.enabled: ci->after, ci->ignore, g.n, g.exec, g.reset)
/* A block ends at a blank line, unless regrouping, and at anything else. */
__CPROVER_ensures(g.exec == (g0.enabled && DONE) && g.reset == g.exec)
__CPROVER_ensures(!g0.enabled || !INCLUDE || (vf_slot->tk == tk && g.refs == 1))
__CPROVER_ensures(g.n == (!g0.enabled ? OLD(g.n) : DONE ? 0 : OLD(g.n) + 1))
__CPROVER_ensures(g.exec || !g0.enabled || ci->after == (OLD(g.n) == 0 ? &vf_prev : OLD(ci->after)))
/* With -D, nothing but lines of the diff are touched. */
__CPROVER_ensures(g.exec || !g0.enabled || (ci->ignore != 0) == (OLD(ci->ignore) != 0 || (ci->op->diffparse && !(tk->tk_flags & TOKEN_FLAG_DIFF))))
;
void cpp_include_leave(struct cpp_include *ci, struct lexer *lx)
__CPROVER_requires(!g.exec && !g.reset && __CPROVER_rw_ok(ci, sizeof(*ci)))
__CPROVER_assigns(g0.enabled: ci->after, ci->ignore, g.n, g.exec, g.reset)
__CPROVER_ensures(g.exec == g0.enabled && g.reset == g0.enabled)
;
static void
vf_text(void)
{
	VF_ASSUME(g0.len <= MAXLEN);
	g0.base = malloc(g0.len);
	VF_ASSUME(g0.base != NULL);
	VF_ASSUME(g0.K >= g0.len || g0.at == g0.base[g0.K]);
}
void
h_cmp(void)
{
	struct include *a = &vf_a, *b = &vf_b;
	struct token x, y;

	vf_a.tk = &x;
	vf_b.tk = &y;
	if (include_cmp(&a, &b) < 0)
		VF_REACH("less");
	else
		VF_REACH("not less");
}
void
h_findpath(void)
{
	struct arena_scope *s;

	vf_text();
	if (findpath(g0.base, g0.len, s) != NULL)
		VF_REACH("found");
	else
		VF_REACH("missing");
}
void
h_trim(void)
{
	struct token tk;

	vf_text();
	tk.tk_str = g0.base;
	tk.tk_len = g0.len;
	token_trim_verbatim_line(&tk);
	VF_REACH("trimmed");
}
static struct cpp_include vf_ci;
static struct options vf_op;
void
h_add(void)
{
	struct lexer *lx;
	struct token tk;
	struct include slot;

	vf_text();
	VF_ASSUME(g0.enabled == 0 || g0.enabled == 1);
	vf_slot = &slot;
	vf_ci.op = &vf_op;
	cpp_include_add(&vf_ci, lx, &tk);
	if (g.exec)
		VF_REACH("sort");
	else
		VF_REACH("collect");
}
void
h_reset(void)
{
	struct include slot;
	struct include_group group;

	vf_group = &group;
	vf_slot = &slot;
	slot.tk = &vf_prev;
	cpp_include_reset(&vf_ci);
	VF_REACH("reset");
}
void
h_leave(void)
{
	struct lexer *lx;

	VF_ASSUME(g0.enabled == 0 || g0.enabled == 1);
	cpp_include_leave(&vf_ci, lx);
	VF_REACH("left");
}
#endif

#ifdef VF_NATIVE
#define VF_SRC
#include "e2e.h"
#define MAXI 24
struct item {
	char text[64];
	int include, blank;
	int group, sort;
	char path[32];
};
static struct item it[MAXI];
static size_t nit;
static struct { const char *re; int group, sort; int (*match)(const char *); } cat[4];
static size_t ncat;
static int vf_m0(const char *p) { return p[0] == '"'; }
static int vf_m1(const char *p) { return p[0] == '<'; }
static int vf_m2(const char *p) { return strncmp(p, "<a", 2) == 0 || strncmp(p, "<A", 2) == 0; }
static int vf_m3(const char *p) { return strchr(p, '/') != NULL; }
static const struct { const char *re; int (*match)(const char *); } pattern[] = {
	{ "^\"", vf_m0 }, { "^<", vf_m1 }, { "^<a", vf_m2 }, { "/", vf_m3 }, { NULL, NULL },
};
static int
vf_main(const char *path)
{
	char main[32];

	if (strcmp(path, "\"x.h\"") == 0)
		return 1;
	snprintf(main, sizeof(main), "\"%.*s.h\"", (int)strlen(e2e_path) - 2, e2e_path);
	return strcmp(path, main) == 0;
}
static int
vf_cmp(const void *aa, const void *bb)
{
	const struct item *a = aa, *b = bb;
	char x[80], y[80];

	if (a->group != b->group)
		return a->group < b->group ? -1 : 1;
	if (a->sort != b->sort)
		return a->sort < b->sort ? -1 : 1;
	snprintf(x, sizeof(x), "%s\n", a->text);
	snprintf(y, sizeof(y), "%s\n", b->text);
	return strcmp(x, y);
}
/* Sort a block, blank lines are found after the last include of each group. */
static void
vf_block(struct item *b, size_t n, int regroup)
{
	size_t i, j;
	int nb = 0, nq = 0, ns = 0, blank = n > 0 ? b[n - 1].blank : 0;

	if (n < 2)
		return;
	for (i = 0; i < n; i++) {
		if (b[i].path[0] == '\0')
			return;
		b[i].group = b[i].sort = 0;
		if (regroup) {
			if (vf_main(b[i].path))
				continue;
			for (j = 0; j < ncat; j++) {
				if (cat[j].match != NULL && cat[j].match(b[i].path))
					break;
			}
			b[i].group = j < ncat ? cat[j].group : INT_MAX;
			b[i].sort = j < ncat ? cat[j].sort : INT_MAX;
		} else {
			nb += b[i].path[0] == '<';
			nq += b[i].path[0] == '"';
			ns += strchr(b[i].path, '/') != NULL;
			if (i == 0 && vf_main(b[i].path))
				b[i].sort = -1;
		}
	}
	if (nb > 0 && (nq > 0 || ns > 0))
		return;
	qsort(b, n, sizeof(*b), vf_cmp);
	for (i = 0; i < n; i++)
		b[i].blank = i + 1 == n ? regroup || blank : b[i].group != b[i + 1].group;
}
static size_t
vf_render(char *buf)
{
	size_t i, n = 0;

	for (i = 0; i < nit; i++)
		n += (size_t)sprintf(&buf[n], "%s\n%s", it[i].text, it[i].blank ? "\n" : "");
	return n + (size_t)sprintf(&buf[n], "int x;\n");
}
void
b_file(void)
{
	static const char *sources[] = { "x.c", "a/x.c", "sys/x.c" };
	static const char *blocks[] = { "Preserve", "Regroup" };
	static const char *spaces[] = { " ", " ", " ", "\t", "", "  " };
	static const char *other[] = { "/* c */", "// c", "#define A 1", "#if 0", "int y;", "#pragma once" };
	static char src[8192], exp[8192], out[65536], config[2048];
	size_t i, j, k, l, n = 0, m;
	int regroup = nd_bool(), sort = nd_upto(7) != 0, mixed = nd_upto(3) == 0, kind = nd_bool(), depth = 0, slash = nd_bool();

	e2e_init();
	e2e_path = sources[nd_upto(2)];
	n = (size_t)sprintf(config, "SortIncludes: %s\nIncludeBlocks: %s\n", sort ? "CaseSensitive" : "Never", blocks[regroup]);
	ncat = 0;
	if (nd_bool()) {
		n += (size_t)sprintf(&config[n], "IncludeCategories:\n");
		ncat = 1 + nd_upto(3);
		for (i = 0; i < ncat; i++) {
			size_t p = nd_upto(4);
			const char *sep = "  - ";

			cat[i].match = pattern[p].match;
			cat[i].group = cat[i].sort = (int)nd_upto(6) - 2;
			if (pattern[p].re != NULL) {
				n += (size_t)sprintf(&config[n], "%sRegex: '%s'\n", sep, pattern[p].re);
				sep = "    ";
			}
			n += (size_t)sprintf(&config[n], "%sPriority: %d\n", sep, cat[i].group);
			if (nd_bool()) {
				cat[i].sort = (int)nd_upto(4) - 2;
				n += (size_t)sprintf(&config[n], "    SortPriority: %d\n", cat[i].sort);
			}
		}
	}
	nit = nd_upto(MAXI - 6);
	for (i = 0; i < nit; i++) {
		struct item *p = &it[i];

		memset(p, 0, sizeof(*p));
		p->blank = nd_upto(5) == 0;
		p->include = nd_upto(6) != 0;
		if (p->include) {
			int q = mixed ? nd_bool() : kind;
			static const char *names[] = { "a.h", "b.h", "B.h", "ab.h", "a-b.h", "x.h", "c.h", "a", "a.hh", "zz.h" };
			const char *dir = slash && nd_upto(2) == 0 ? (nd_bool() ? "a/" : "sys/") : "";

			j = nd_upto(40);
			if (j == 0) {
				sprintf(p->text, "#include FOO%d", (int)nd_upto(2));
				continue;
			}
			n = (size_t)sprintf(p->text, "#include%s", spaces[nd_upto(5)]);
			sprintf(p->path, "%c%s%s%c", q ? '"' : '<', dir, names[nd_upto(9)], q ? '"' : '>');
			n += (size_t)sprintf(&p->text[n], "%s", p->path);
			if (j == 1)
				sprintf(&p->text[n], " /* c */");
			if (j == 2)
				sprintf(&p->text[n], "\t// x/y");
		} else {
			k = nd_upto(5);
			strcpy(p->text, other[k]);
			if (k == 3)
				depth++;
			if (k == 4)
				p->blank = 1;
		}
	}
	/* Terminate conditionals. */
	for (; depth > 0; depth--) {
		memset(&it[nit], 0, sizeof(it[0]));
		strcpy(it[nit++].text, "#endif");
		if (nit == MAXI)
			break;
	}
	VF_ASSUME(depth == 0);
	n = vf_render(src);
	for (i = 0; sort && i < nit; i = j) {
		for (j = i; j < nit && it[j].include;) {
			if (it[j++].blank && !regroup)
				break;
		}
		if (j == i)
			j++;
		else
			vf_block(&it[i], j - i, regroup);
	}
	m = vf_render(exp);
	l = e2e_format(src, n, out, sizeof(out), config);
	if (l != m || memcmp(out, exp, l) != 0) {
		fprintf(stderr, "--- configuration\n%s--- source\n%.*s--- formatted\n%.*s--- expected\n%.*s---\n", config, (int)n, src, (int)(l == E2E_ERROR ? 0 : l), out, (int)m, exp);
		VF_ASSERT(0, "includes are sorted within their block");
	}
}
/* With -D, blocks are sorted only if covered by the diff. */
void
b_diff(void)
{
	static char src[8192], exp[8192], out[65536];
	int covered[MAXI * 2 + 2], lno[MAXI];
	size_t i, j, k, l, m, n;
	int line = 1, mixed = nd_upto(3) == 0, kind = nd_bool();

	e2e_init();
	e2e_path = "x.c";
	nit = 1 + nd_upto(10);
	for (i = 0; i < nit; i++) {
		memset(&it[i], 0, sizeof(it[i]));
		it[i].include = 1;
		it[i].blank = nd_upto(2) == 0;
		sprintf(it[i].path, (mixed ? nd_bool() : kind) ? "\"%c.h\"" : "<%c.h>", 'a' + (int)nd_upto(4));
		sprintf(it[i].text, "#include %s", it[i].path);
		lno[i] = line;
		line += 1 + it[i].blank;
	}
	it[nit - 1].blank = 1;
	e2e_diff = NULL;
	if (VECTOR_INIT(e2e_diff))
		abort();
	memset(covered, 0, sizeof(covered));
	for (i = 1; i < (size_t)line + 1; i = j + 1) {
		struct diffchunk *du;

		j = i + nd_upto(3);
		if (j > (size_t)line)
			j = (size_t)line;
		/* Blank lines belong to the include in front. */
		for (k = 0; k < nit; k++) {
			if (it[k].blank && (size_t)lno[k] == j)
				j++;
			if (it[k].blank && (size_t)lno[k] + 1 == i)
				i++;
		}
		if (j < i || nd_bool())
			continue;
		du = VECTOR_CALLOC(e2e_diff);
		du->du_beg = (unsigned int)i;
		du->du_end = (unsigned int)j;
		for (k = i; k <= j && k <= (size_t)line; k++)
			covered[k] = 1;
	}
	e2e.op.diffparse = 1;
	n = vf_render(src);
	for (i = 0; i < nit; i = j) {
		int all = 1;

		for (j = i; j < nit;) {
			if (!covered[lno[j]])
				all = 0;
			if (it[j++].blank)
				break;
		}
		if (all)
			vf_block(&it[i], j - i, 0);
	}
	m = vf_render(exp);
	if (getenv("VF_SHOW") != NULL) {
		for (i = 0; i < VECTOR_LENGTH(e2e_diff); i++)
			fprintf(stderr, "lines %u-%u\n", e2e_diff[i].du_beg, e2e_diff[i].du_end);
		fprintf(stderr, "%.*s---\n", (int)n, src);
	}
	l = e2e_format(src, n, out, sizeof(out), "SortIncludes: CaseSensitive\n");
	e2e.op.diffparse = 0;
	if (l != m || memcmp(out, exp, l) != 0) {
		for (i = 0; i < VECTOR_LENGTH(e2e_diff); i++)
			fprintf(stderr, "lines %u-%u\n", e2e_diff[i].du_beg, e2e_diff[i].du_end);
		fprintf(stderr, "--- source\n%.*s--- formatted\n%.*s--- expected\n%.*s---\n", (int)n, src, (int)(l == E2E_ERROR ? 0 : l), out, (int)m, exp);
		VF_ASSERT(0, "includes of the diff are sorted within their block");
	}
	VECTOR_FREE(e2e_diff);
	e2e_diff = NULL;
}
#endif
