/*
 * Whole program harness: format generated programs using the library code of
 * /repo and compare the lexical elements before and after.
 */
#ifndef VF_E2E_H
#define VF_E2E_H
#ifdef VF_NATIVE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libks/arena.h"
#include "libks/arena-buffer.h"
#include "libks/buffer.h"
#include "libks/string.h"
#include "libks/vector.h"
#ifdef VF_SRC
#include "SRC/clang.h"
#include "SRC/diff.h"
#include "SRC/expr.h"
#include "SRC/lexer.h"
#include "SRC/options.h"
#include "SRC/parser.h"
#include "SRC/simple.h"
#include "SRC/style.h"
#else
#include "clang.h"
#include "diff.h"
#include "expr.h"
#include "lexer.h"
#include "options.h"
#include "parser.h"
#include "simple.h"
#include "style.h"
#endif
#include "ref.h"
#include "progen.h"

static struct {
	struct arena *out, *eternal, *scratch, *doc, *buffer;
	struct options op;
	int init;
} e2e;
static const char *e2e_path = "x.c";
/* Lines of a diff, NULL unless -D. */
static struct diffchunk *e2e_diff;

#define E2E_ERROR ((size_t)-1)

static void
e2e_init(void)
{
	if (e2e.init)
		return;
	clang_init();
	style_init();
	expr_init();
	options_init(&e2e.op);
	e2e.out = arena_alloc();
	e2e.eternal = arena_alloc();
	e2e.scratch = arena_alloc();
	e2e.doc = arena_alloc();
	e2e.buffer = arena_alloc();
	e2e.init = 1;
}

static size_t
e2e_format(const char *text, size_t len, char *out, size_t max, const char *config)
{
	struct buffer *bf, *cf = NULL, *dst;
	struct clang *cl;
	struct lexer *lx;
	struct parser *pr;
	struct simple *si;
	struct style *st;

	arena_scope(e2e.eternal, es);
	arena_scope(e2e.out, s);
	bf = arena_buffer_alloc(&s, 1024);
	dst = arena_buffer_alloc(&s, 1024);
	if (config != NULL) {
		cf = arena_buffer_alloc(&s, 1024);
		buffer_puts(cf, config, strlen(config));
	}
	st = style_parse_buffer(cf, ".clang-format", &es, e2e.scratch, &e2e.op);
	si = simple_alloc(&es, &e2e.op);
	cl = clang_alloc(st, si, &es, e2e.scratch, &e2e.op);
	buffer_puts(bf, text, len);
	lx = lexer_tokenize(&(const struct lexer_arg){
	    .path = e2e_path, .diff = e2e_diff, .bf = bf, .op = &e2e.op,
	    .arena = { .eternal_scope = &es, .scratch = e2e.scratch },
	    .callbacks = clang_lexer_callbacks(cl) });
	if (lx == NULL)
		return E2E_ERROR;
	pr = parser_alloc(&(struct parser_arg){
	    .lexer = lx, .options = &e2e.op, .style = st, .simple = si, .clang = cl,
	    .arena = { .eternal_scope = &es, .scratch = e2e.scratch, .doc = e2e.doc, .buffer = e2e.buffer } });
	if (parser_exec(pr, e2e_diff, dst))
		return E2E_ERROR;
	len = buffer_get_len(dst);
	if (len > max)
		return E2E_ERROR;
	if (len > 0)
		memcpy(out, buffer_get_ptr(dst), len);
	return len;
}

static int
e2e_cmp(const void *a, const void *b)
{
	return strcmp(*(char *const *)a, *(char *const *)b);
}

/* Tokens and directives in order, followed by the comments in any order. */
static void
e2e_elements(struct ref_text *t, const char *s, size_t n)
{
	static struct ref r;
	static struct ref_text c;
	static char *v[4096];
	size_t i, m = 0;
	int pv = -1;

	t->len = 0;
	t->str[0] = '\0';
	ref_scan(&r, s, n);
	for (i = 0; i < r.n; i++) {
		const char *p = s + r.item[i].beg;
		size_t len = r.item[i].end - r.item[i].beg;

		if (r.item[i].kind != REF_COMMENT) {
			ref_put_item(t, r.item[i].kind, p, len, &pv);
		} else {
			int q = -1;

			c.len = 0;
			c.str[0] = '\0';
			ref_put_item(&c, REF_COMMENT, p, len, &q);
			v[m++] = strdup(c.str);
		}
	}
	qsort(v, m, sizeof(*v), e2e_cmp);
	for (i = 0; i < m; i++) {
		const char *q = v[i];

		while (*q != '\0')
			ref_put(t, *q++);
		free(v[i]);
	}
}

static void
e2e_report(const char *what, const char *text, size_t len, const char *out, size_t n, const char *config)
{
	fprintf(stderr, "%s\n--- configuration\n%s--- source\n", what, config != NULL ? config : "");
	fwrite(text, 1, len, stderr);
	fprintf(stderr, "--- formatted\n");
	fwrite(out, 1, n, stderr);
	fprintf(stderr, "---\n");
}

void
b_format(void)
{
	static char text[1 << 15], out[1 << 17];
	static struct ref_text a, b;
	static char sty[2048];
	static struct pg p;
	const char *config;
	size_t n;

	e2e_init();
	pg_program(&p, text, sizeof(text));
	config = pg_style(sty, sizeof(sty));
	n = e2e_format(text, p.len, out, sizeof(out), config);
	if (n == E2E_ERROR)
		return;
	e2e_elements(&a, text, p.len);
	e2e_elements(&b, out, n);
	if (a.len != b.len || memcmp(a.str, b.str, a.len) != 0) {
		size_t i = 0;

		while (a.str[i] == b.str[i])
			i++;
		i = i > 40 ? i - 40 : 0;
		e2e_report("elements differ", text, p.len, out, n, config);
		fprintf(stderr, "in : %.80s\nout: %.80s\n", a.str + i, b.str + i);
		VF_ASSERT(0, "formatting loses, adds, merges or reorders nothing but blanks");
	}
}

size_t (*KS_str_match)(const char *, size_t, const char *) = KS_str_match_default;
size_t (*KS_str_match_until)(const char *, size_t, const char *) = KS_str_match_until_default;
#endif
#endif
