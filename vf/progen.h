/*
 * Generator of the native harnesses: C source text of random shape, with
 * random blanks, lines, comments and directives between the tokens.
 */
#ifndef VF_PROGEN_H
#define VF_PROGEN_H
#include <stdarg.h>

struct pg {
	size_t len;
	size_t max;
	int depth;
	int budget;
	int noise;	/* blanks which are not needed, out of 16 */
	int comments;	/* comments, out of 64 */
	int directives;	/* directives between statements, out of 16 */
	int fn;		/* inside of a function */
	int inside;	/* directives anywhere, out of 64 */
	int cond;	/* inside of conditional parts */
	char *str;
};

static int pg_n(int n) { return n <= 1 ? 0 : (int)nd_upto((size_t)n - 1); }
static int pg_p(int n, int of) { return pg_n(of) < n; }
static const char *pg_one(const char *const *v, size_t n) { return v[pg_n((int)n)]; }
#define PG_ONE(...) pg_one((const char *const []){__VA_ARGS__}, sizeof((const char *const []){__VA_ARGS__}) / sizeof(const char *))

static void
pg_raw(struct pg *p, const char *s)
{
	size_t n = strlen(s);

	if (p->len + n + 1 > p->max)
		return;
	memcpy(&p->str[p->len], s, n + 1);
	p->len += n;
}

static int
pg_last(const struct pg *p)
{
	return p->len == 0 ? '\n' : (unsigned char)p->str[p->len - 1];
}

static void
pg_comment(struct pg *p)
{
	switch (pg_n(6)) {
	case 0: pg_raw(p, PG_ONE(" /* x */ ", " /* x */ /* y */ ", " /* a \" ' */ ")); break;
	case 1: pg_raw(p, PG_ONE(" /* x */\n", " /* x */\n", "\t/* if (x) { */\n")); break;
	case 2: pg_raw(p, " // x\n"); break;
	case 3: pg_raw(p, "\n/* x */\n"); break;
	case 4: pg_raw(p, "\n/*\n * x\n *  y\n */\n"); break;
	case 5: pg_raw(p, "\n// x\n// y\n"); break;
	}
}

/* Blanks between tokens. */
static void
pg_gap(struct pg *p)
{
	if (pg_p(p->comments, 64)) {
		pg_comment(p);
		return;
	}
	if (!pg_p(p->noise, 16)) {
		pg_raw(p, " ");
		return;
	}
	switch (pg_n(6)) {
	case 0: pg_raw(p, "  "); break;
	case 1: pg_raw(p, "\t"); break;
	case 2: pg_raw(p, " "); break;
	case 3: pg_raw(p, "\n"); break;
	case 4: pg_raw(p, "\n    "); break;
	case 5: pg_raw(p, "\n\n\t"); break;
	}
}

/* Directives inside of declarations, statements and expressions. */
static void
pg_inside(struct pg *p)
{
	if (!pg_p(p->inside, 96))
		return;
	switch (pg_n(2)) {
	case 0: pg_raw(p, "\n#define X 1\n"); break;
	case 1: pg_raw(p, "\n#if 0\n#endif\n"); break;
	}
}

/* Parts depending on conditions, valid whatever the conditions are. */
#define PG_BRANCH(...) do {						\
	if (p->cond == 0 && pg_p(p->inside, 12)) {			\
		p->cond++;						\
		pg_raw(p, "\n#ifdef X\n");				\
		{ __VA_ARGS__ }						\
		if (pg_p(1, 2)) {					\
			pg_raw(p, PG_ONE("\n#else\n", "\n#else\n", "\n#elif Y\n")); \
			{ __VA_ARGS__ }					\
		}							\
		pg_raw(p, "\n#endif\n");				\
		p->cond--;						\
	}								\
} while (0)

static int
pg_word(int c)
{
	return c == '_' || isalnum(c) || c == '"' || c == '\'' || c == '.';
}

static void
pg_tok(struct pg *p, const char *s)
{
	int l, tight;

	pg_inside(p);
	l = pg_last(p);
	tight = !(pg_word(l) && pg_word((unsigned char)s[0])) && (strchr("()[]{};,~?", l) != NULL || strchr("()[]{};,~?", s[0]) != NULL);
	if (p->len > 0 && l != '\n' && !(tight && pg_p(10, 16)))
		pg_gap(p);
	pg_raw(p, s);
	p->budget--;
}
#define T(...) do { const char *pg_v[] = {__VA_ARGS__}; size_t pg_i; for (pg_i = 0; pg_i < sizeof(pg_v) / sizeof(pg_v[0]); pg_i++) pg_tok(p, pg_v[pg_i]); } while (0)

static void pg_expr(struct pg *);
static void pg_stmt(struct pg *);
static void pg_decl(struct pg *, int);
static void pg_init(struct pg *);

static void pg_id(struct pg *p) { T(PG_ONE("a", "b", "foo", "x1", "some_long_identifier", "i", "ptr", "THE_CONSTANT")); }

static void
pg_type(struct pg *p)
{
	if (pg_p(1, 6)) T("const");
	if (pg_p(1, 20)) T("volatile");
	switch (pg_n(13)) {
	case 0: case 1: case 2: T("int"); break;
	case 3: T("char"); break;
	case 4: T("unsigned", "int"); break;
	case 5: T("size_t"); break;
	case 6: T("struct", PG_ONE("foo", "bar")); break;
	case 7: T("unsigned", "long", "long"); break;
	case 8: T("uint32_t"); break;
	case 9: T("enum", "foo"); break;
	case 10: T("foo_t"); break;
	case 11: T("double"); break;
	case 12: T("long"); break;
	}
	if (pg_p(1, 20)) T("const");
}

static void
pg_ptr(struct pg *p)
{
	while (pg_p(1, 4)) {
		T("*");
		if (pg_p(1, 10)) T("const");
	}
}

static void
pg_atom(struct pg *p)
{
	switch (pg_n(11)) {
	case 0: T(PG_ONE("0", "1", "42", "0x1f", "1e+5", "0x1p-3", "1UL", ".5", "3.", "'a'", "L'x'", "'\\''")); break;
	case 1: T(PG_ONE("\"str\"", "\"a\\\"b\"", "\"\"", "L\"x\"", "\"%s\\n\"", "\"/* no */\"", "\"a long string literal which takes some space\"")); break;
	case 2: if (pg_p(1, 4)) { T("\"a\"", "\"b\""); break; } pg_id(p); break;
	default: pg_id(p); break;
	}
}

static void
pg_args(struct pg *p)
{
	int n = pg_n(4);

	T("(");
	while (n-- > 0) {
		PG_BRANCH(pg_expr(p); T(","););
		pg_expr(p);
		if (n > 0) T(",");
	}
	T(")");
}

static void
pg_postfix(struct pg *p)
{
	switch (pg_n(14)) {
	case 0: pg_id(p); pg_args(p); break;
	case 1: pg_id(p); T("["); pg_expr(p); T("]"); break;
	case 2: pg_id(p); T("->"); pg_id(p); break;
	case 3: pg_id(p); T("."); pg_id(p); break;
	case 4: pg_id(p); T(PG_ONE("++", "--")); break;
	case 5: T("("); pg_expr(p); T(")"); break;
	case 6: T("sizeof", "("); pg_type(p); pg_ptr(p); T(")"); break;
	case 7: T("sizeof"); pg_id(p); break;
	case 8: pg_id(p); T("->"); pg_id(p); T("["); pg_expr(p); T("]"); T("."); pg_id(p); break;
	case 9: pg_id(p); T("->"); pg_id(p); pg_args(p); break;
	case 10: if (p->fn > 0 && p->depth < 3 && pg_p(1, 3)) { T("(", "{"); p->depth++; pg_stmt(p); p->depth--; T("}", ")"); } else pg_atom(p); break;
	case 11: if (p->depth < 3 && pg_p(1, 3)) { T("("); T("struct", "foo"); T(")"); p->depth++; pg_init(p); p->depth--; } else pg_atom(p); break;
	default: pg_atom(p); break;
	}
}

static void
pg_unary(struct pg *p)
{
	switch (pg_n(12)) {
	case 0: T("!"); pg_unary(p); break;
	case 1: T("~"); pg_unary(p); break;
	case 2: T("-"); pg_unary(p); break;
	case 3: T("&"); pg_postfix(p); break;
	case 4: T("*"); pg_unary(p); break;
	case 5: T("("); pg_type(p); pg_ptr(p); T(")"); pg_unary(p); break;
	case 6: T(PG_ONE("++", "--")); pg_id(p); break;
	case 7: T("+"); pg_unary(p); break;
	default: pg_postfix(p); break;
	}
}

static void
pg_expr(struct pg *p)
{
	if (p->budget <= 0 || p->depth > 5) {
		pg_atom(p);
		return;
	}
	p->depth++;
	switch (pg_n(10)) {
	case 0: case 1: case 2:
		pg_unary(p);
		break;
	case 3: case 4: case 5:
		pg_expr(p);
		T(PG_ONE("+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"));
		PG_BRANCH(pg_expr(p); T(PG_ONE("&&", "||", "+")););
		pg_expr(p);
		PG_BRANCH(T(PG_ONE("&&", "||", "|")); pg_expr(p););
		break;
	case 6:
		pg_expr(p); T("?"); pg_expr(p); T(":"); pg_expr(p);
		break;
	default:
		pg_postfix(p);
		break;
	}
	p->depth--;
}

static void
pg_assign(struct pg *p)
{
	switch (pg_n(4)) {
	case 0: pg_id(p); break;
	case 1: pg_id(p); T("->"); pg_id(p); break;
	case 2: T("*"); pg_id(p); break;
	case 3: pg_id(p); T("["); pg_expr(p); T("]"); break;
	}
	T(PG_ONE("=", "=", "=", "+=", "-=", "|=", "&=", "<<=", ">>=", "*=", "/=", "%=", "^="));
	pg_expr(p);
}

static void
pg_nl(struct pg *p)
{
	if (!pg_p(1, 8)) pg_raw(p, "\n");
	if (pg_p(1, 8)) pg_raw(p, "\n");
	if (pg_p(1, 16)) pg_raw(p, "\n\n");
}

static void
pg_directive(struct pg *p)
{
	pg_raw(p, "\n");
	switch (pg_n(8)) {
	case 0: pg_raw(p, "#define X 1\n"); break;
	case 1: pg_raw(p, "#define Y(a)\t((a) + 1)\n"); break;
	case 2: pg_raw(p, "#define Z(a) do {\\\n\tfoo(a);  \\\n} while (0)\n"); break;
	case 3: pg_raw(p, "#undef X\n"); break;
	case 4: pg_raw(p, "#pragma once\n"); break;
	case 5: pg_raw(p, "# define  W  \"a\" /* c */\n"); break;
	case 6: pg_raw(p, "#include <x.h>\n"); break;
	case 7: pg_raw(p, "#include \"y.h\"\n#include \"b.h\"\n"); break;
	}
}

static void
pg_block(struct pg *p)
{
	int n = pg_n(4);

	p->fn++;
	T("{");
	pg_nl(p);
	while (pg_p(1, 5) && p->budget > 0) pg_decl(p, 1);
	while (n-- > 0) pg_stmt(p);
	T("}");
	p->fn--;
}

static void
pg_body(struct pg *p)
{
	if (pg_p(2, 3)) {
		pg_block(p);
	} else {
		pg_nl(p);
		pg_stmt(p);
	}
}

static void
pg_stmt(struct pg *p)
{
	if (p->budget <= 0 || p->depth > 6) {
		pg_id(p); T("("); T(")"); T(";"); pg_raw(p, "\n");
		return;
	}
	p->depth++;
	if (pg_p(p->directives, 16)) {
		switch (pg_n(p->cond > 0 ? 1 : 3)) {
		case 0: pg_directive(p); break;
		case 1: p->cond++; pg_raw(p, "\n#if 1\n"); pg_stmt(p); pg_raw(p, "\n#endif\n"); p->cond--; break;
		case 2: p->cond++; pg_raw(p, "\n#ifdef X\n"); pg_stmt(p); pg_raw(p, "\n#else\n"); pg_stmt(p); pg_raw(p, "\n#endif\n"); p->cond--; break;
		}
	}
	PG_BRANCH(pg_stmt(p););
	if (p->cond == 0 && pg_p(p->inside, 16)) {
		p->cond++;
		pg_raw(p, "\n#ifdef X\n"); T("if", "("); pg_expr(p); T(")"); T("{"); if (pg_p(1, 2)) pg_stmt(p);
		if (pg_p(1, 2)) { pg_raw(p, "\n#else\n"); T("while", "("); pg_expr(p); T(")"); T("{"); } else { pg_raw(p, "\n#else\n"); T("{"); }
		pg_raw(p, "\n#endif\n"); pg_stmt(p); T("}"); pg_nl(p);
		p->cond--;
	}
	if (p->cond == 0 && pg_p(p->inside, 16)) {
		p->cond++;
		pg_raw(p, "\n#ifdef X\n"); T("if", "("); pg_expr(p); T(")"); pg_block(p); T("else"); pg_raw(p, "\n#endif\n"); pg_stmt(p); pg_nl(p);
		p->cond--;
	}
	switch (pg_n(26)) {
	case 0: T("if", "("); pg_expr(p); T(")"); pg_body(p); break;
	case 1: T("if", "("); pg_expr(p); T(")"); pg_block(p); T("else"); if (pg_p(1, 2)) { T("if", "("); pg_expr(p); T(")"); } pg_block(p); break;
	case 2: T("while", "("); pg_expr(p); T(")"); pg_body(p); break;
	case 3: T("do"); pg_block(p); T("while", "("); pg_expr(p); T(")", ";"); break;
	case 4:
		T("for", "(");
		if (pg_p(3, 4)) pg_assign(p);
		T(";");
		if (pg_p(3, 4)) pg_expr(p);
		T(";");
		if (pg_p(3, 4)) { pg_id(p); T("++"); }
		T(")");
		pg_body(p);
		break;
	case 5: {
		int n = 1 + pg_n(3);

		T("switch", "("); pg_expr(p); T(")", "{"); pg_nl(p);
		while (n-- > 0) {
			T("case"); pg_atom(p); T(":"); pg_nl(p);
			if (pg_p(1, 4)) pg_block(p); else if (pg_p(3, 4)) pg_stmt(p);
			if (pg_p(3, 4)) { T("break", ";"); pg_nl(p); }
		}
		if (pg_p(1, 2)) { T("default", ":"); pg_nl(p); T("break", ";"); }
		T("}");
		break;
	}
	case 6: T("return"); if (pg_p(3, 4)) pg_expr(p); T(";"); break;
	case 7: T("goto", "out", ";"); break;
	case 8: pg_raw(p, "\nout:\n"); pg_stmt(p); break;
	case 9: T("{"); pg_nl(p); pg_stmt(p); T("}"); break;
	case 10: case 11: case 12: pg_assign(p); T(";"); break;
	case 13: case 14: pg_id(p); pg_args(p); T(";"); break;
	case 15: T("continue", ";"); break;
	case 16: T("LIST_FOREACH", "("); pg_id(p); T(","); pg_expr(p); T(")"); pg_body(p); break;
	case 17: pg_id(p); T(PG_ONE("++", "--"), ";"); break;
	case 18: T("if", "("); pg_expr(p); T(")"); pg_nl(p); T("return", "0", ";"); break;
	case 20: T("asm", "volatile", "("); T("\"nop\""); if (pg_p(1, 2)) { T(":", "\"=r\"", "("); pg_id(p); T(")", ":", "\"r\"", "("); pg_expr(p); T(")"); } T(")", ";"); break;
	case 21: T("while", "("); pg_expr(p); T(")"); pg_nl(p); T(";"); break;
	case 22: if (!p->inside && !p->directives && pg_p(1, 4)) { pg_raw(p, "\n/* clang-format off */\n"); pg_stmt(p); pg_raw(p, "\n/* clang-format on */\n"); } pg_stmt(p); break;
	case 23: T("MACRO", "("); pg_expr(p); T(")"); pg_raw(p, "\n"); break;
	case 24: T("for", "(", "int", "i", "=", "0", ";"); pg_expr(p); T(";"); pg_id(p); T("++", ",", "b", "--"); T(")"); pg_body(p); break;
	case 25: T("if", "("); pg_expr(p); T(")"); pg_nl(p); T("return", ";"); pg_nl(p); T("else"); pg_nl(p); T("break", ";"); break;
	case 19: T("("); T("void"); T(")"); pg_id(p); pg_args(p); T(";"); break;
	}
	pg_nl(p);
	p->depth--;
}

static void
pg_init(struct pg *p)
{
	int n = 1 + pg_n(4), kind = pg_n(4), i;

	T("{");
	for (i = 0; i < n; i++) {
		if (pg_p(1, 3)) pg_nl(p);
		PG_BRANCH(if (kind == 1) { T("."); pg_id(p); T("="); } if (kind == 2) { T("["); pg_atom(p); T("]", "="); } pg_expr(p); T(","););
		if (kind == 1) { T("."); pg_id(p); T("="); }
		if (kind == 2) { T("["); pg_atom(p); T("]", "="); }
		if (p->depth < 4 && p->budget > 0 && pg_p(1, 4)) { p->depth++; pg_init(p); p->depth--; } else pg_expr(p);
		if (i + 1 < n || pg_p(1, 2)) T(",");
	}
	if (pg_p(1, 3)) pg_nl(p);
	T("}");
}

static void
pg_fields(struct pg *p)
{
	int n = 1 + pg_n(4);

	T("{");
	pg_nl(p);
	while (n-- > 0) {
		PG_BRANCH(pg_type(p); pg_ptr(p); pg_id(p); T(";"); pg_nl(p););
		switch (pg_n(6)) {
		case 0: if (p->depth < 3) { p->depth++; T(PG_ONE("struct", "union")); pg_fields(p); if (pg_p(3, 4)) pg_id(p); T(";"); p->depth--; break; } /* FALLTHROUGH */
		case 1: pg_type(p); pg_ptr(p); pg_id(p); T(":", "3", ";"); break;
		case 2: pg_type(p); pg_ptr(p); T("("); T("*"); pg_id(p); T(")", "("); pg_type(p); T(")", ";"); break;
		case 3: pg_type(p); pg_ptr(p); pg_id(p); T("["); pg_expr(p); T("]", ";"); break;
		case 4: pg_type(p); pg_ptr(p); pg_id(p); T(","); pg_ptr(p); pg_id(p); T(";"); break;
		default: pg_type(p); pg_ptr(p); pg_id(p); T(";"); break;
		}
		pg_nl(p);
	}
	T("}");
}

static void
pg_decl(struct pg *p, int local)
{
	if (pg_p(1, 6)) T(PG_ONE("static", "static", "extern", "register"));
	switch (pg_n(local ? 7 : 15)) {
	case 0: case 1: pg_type(p); pg_ptr(p); pg_id(p); T(";"); break;
	case 2: pg_type(p); pg_ptr(p); pg_id(p); T("="); pg_expr(p); T(";"); break;
	case 3: pg_type(p); pg_ptr(p); pg_id(p); T(","); pg_ptr(p); pg_id(p); if (pg_p(1, 2)) { T("="); pg_expr(p); } T(";"); break;
	case 4: pg_type(p); pg_ptr(p); pg_id(p); T("["); if (pg_p(1, 2)) pg_expr(p); T("]"); if (pg_p(1, 2)) { T("="); pg_init(p); } T(";"); break;
	case 5: T("struct", "foo"); pg_id(p); T("="); pg_init(p); T(";"); break;
	case 6: pg_type(p); pg_ptr(p); T("("); T("*"); pg_id(p); T(")", "("); pg_type(p); pg_ptr(p); T(","); pg_type(p); T(")", ";"); break;
	case 7: T("struct", "foo"); pg_fields(p); T(";"); break;
	case 8: T("typedef", "struct"); if (pg_p(1, 2)) T("foo"); pg_fields(p); T("foo_t", ";"); break;
	case 9: {
		int n = 1 + pg_n(4);

		T("enum", "foo", "{");
		while (n-- > 0) {
			PG_BRANCH(pg_id(p); T(","););
			pg_nl(p);
			pg_id(p);
			if (pg_p(1, 2)) { T("="); pg_expr(p); }
			if (n > 0 || pg_p(1, 2)) T(",");
		}
		T("}", ";");
		break;
	}
	case 11: T("DECLARE", "("); pg_id(p); T(","); pg_id(p); T(")", ";"); break;
	case 12: T("SIMPLEQ_HEAD", "("); pg_id(p); T(","); pg_id(p); T(")"); pg_id(p); T(";"); break;
	case 13: pg_raw(p, "\nextern \"C\" {\n"); pg_type(p); pg_id(p); T(";", "}"); break;
	case 14: T("union", "bar"); pg_fields(p); pg_id(p); T("="); pg_init(p); T(";"); break;
	case 10: T("typedef"); pg_type(p); pg_ptr(p); T("foo_t", ";"); break;
	}
	pg_nl(p);
}

static void
pg_func(struct pg *p)
{
	int n = pg_n(4), kr = pg_p(1, 12), i;

	PG_BRANCH(T("static"););
	if (pg_p(1, 3)) T("static");
	if (pg_p(1, 6)) T("inline");
	pg_type(p);
	pg_ptr(p);
	pg_nl(p);
	pg_id(p);
	T("(");
	if (n == 0) T("void");
	for (i = 0; i < n; i++) {
		if (kr) {
			pg_id(p);
		} else {
			pg_type(p); pg_ptr(p); pg_id(p);
			if (pg_p(1, 8)) T("[", "]");
		}
		if (i + 1 < n) T(",");
	}
	if (n > 0 && !kr && pg_p(1, 8)) T(",", "...");
	T(")");
	if (pg_p(1, 12)) T("__attribute__", "(", "(", "unused", ")", ")");
	if (pg_p(1, 3)) {
		T(";");
		pg_nl(p);
		return;
	}
	if (kr && n > 0) {
		pg_nl(p);
		pg_type(p); pg_id(p); T(";");
	}
	pg_nl(p);
	pg_block(p);
	pg_nl(p);
	pg_nl(p);
}

static void
pg_program(struct pg *p, char *str, size_t max)
{
	int n = 1 + pg_n(3);

	memset(p, 0, sizeof(*p));
	p->str = str;
	p->max = max;
	p->noise = pg_n(3) == 0 ? 0 : pg_n(8);
	p->comments = pg_n(3) == 0 ? pg_n(8) : 0;
	p->directives = pg_n(3) == 0 ? 1 : 0;
	p->inside = pg_n(6) == 0 ? 1 : 0;
	p->budget = 20 + pg_n(300);
	str[0] = '\0';
	while (n-- > 0) {
		if (pg_p(p->directives, 4)) pg_directive(p);
		if (pg_p(p->comments, 32)) pg_comment(p);
		if (pg_p(1, 2)) pg_decl(p, 0); else pg_func(p);
	}
	if (pg_last(p) != '\n') pg_raw(p, "\n");
}

/* Some configuration, or none. */
static const char *
pg_style(char *str, size_t max)
{
	static const char *const opts[] = {
		"BasedOnStyle: OpenBSD\n",
		"AlignAfterOpenBracket: Align\n", "AlignAfterOpenBracket: DontAlign\n", "AlignAfterOpenBracket: AlwaysBreak\n", "AlignAfterOpenBracket: BlockIndent\n",
		"AlignEscapedNewlines: Left\n", "AlignEscapedNewlines: Right\n", "AlignEscapedNewlines: DontAlign\n",
		"AlignOperands: Align\n", "AlignOperands: DontAlign\n",
		"AlwaysBreakAfterReturnType: None\n", "AlwaysBreakAfterReturnType: All\n", "AlwaysBreakAfterReturnType: AllDefinitions\n", "AlwaysBreakAfterReturnType: TopLevelDefinitions\n",
		"BitFieldColonSpacing: Both\n", "BitFieldColonSpacing: None\n", "BitFieldColonSpacing: Before\n", "BitFieldColonSpacing: After\n",
		"BreakBeforeBinaryOperators: All\n", "BreakBeforeBinaryOperators: NonAssignment\n", "BreakBeforeBinaryOperators: None\n",
		"BreakBeforeTernaryOperators: true\n", "BreakBeforeTernaryOperators: false\n",
		"BreakBeforeBraces: Allman\n", "BreakBeforeBraces: Attach\n", "BreakBeforeBraces: Linux\n", "BreakBeforeBraces: GNU\n", "BreakBeforeBraces: WebKit\n", "BreakBeforeBraces: Whitesmiths\n", "BreakBeforeBraces: Mozilla\n", "BreakBeforeBraces: Stroustrup\n",
		"BreakBeforeBraces: Custom\nBraceWrapping:\n  AfterFunction: true\n  BeforeElse: true\n  AfterControlStatement: Always\n  BeforeWhile: true\n", "BreakBeforeBraces: Custom\nBraceWrapping:\n  AfterCaseLabel: true\n  AfterEnum: true\n  AfterStruct: true\n  AfterUnion: true\n",
		"ColumnLimit: 0\n", "ColumnLimit: 20\n", "ColumnLimit: 40\n", "ColumnLimit: 100\n",
		"ContinuationIndentWidth: 2\n", "ContinuationIndentWidth: 8\n", "IndentWidth: 2\n", "IndentWidth: 4\n",
		"UseTab: Never\n", "UseTab: Always\n", "UseTab: ForIndentation\n", "UseTab: AlignWithSpaces\n",
	};
	int n = pg_n(2) ? 0 : 1 + pg_n(5);

	if (n == 0)
		return NULL;
	str[0] = '\0';
	while (n-- > 0) {
		const char *o = opts[pg_n(sizeof(opts) / sizeof(opts[0]))];

		if (strlen(str) + strlen(o) + 1 < max)
			strcat(str, o);
	}
	/* Sorting includes is another matter. */
	if (strlen(str) + 32 < max)
		strcat(str, "SortIncludes: Never\n");
	return str;
}
#undef T
#endif
