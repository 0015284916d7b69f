/*
 * Reference tokenizer of the native harnesses: the lexical elements of C text,
 * independent of /repo. Blanks inside comments and directives are insignificant
 * as they are reformatted.
 */
#ifndef VF_REF_H
#define VF_REF_H
#include <ctype.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum ref_kind { REF_COMMENT, REF_CPP, REF_WORD, REF_NUMBER, REF_CHAR, REF_STRING, REF_OP, REF_NONE };
struct ref_item {
	enum ref_kind kind;
	size_t beg, end;
};
struct ref {
	const char *str;
	size_t len;
	size_t n;
	struct ref_item item[4096];
};

static int
ref_blank(int c)
{
	return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f';
}

static int
ref_ident(int c)
{
	return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}

static int
ref_at(const struct ref *r, size_t i)
{
	return i < r->len ? (unsigned char)r->str[i] : -1;
}

/* Is the newline at the given offset spliced? */
static int
ref_spliced(const struct ref *r, size_t i, size_t beg)
{
	while (i > beg && r->str[i - 1] == '\r')
		i--;
	return i > beg && r->str[i - 1] == '\\';
}

static size_t
ref_block_comment(const struct ref *r, size_t i)
{
	for (i += 2; i < r->len; i++) {
		if (r->str[i] == '*' && ref_at(r, i + 1) == '/')
			return i + 2;
	}
	return r->len;
}

static size_t
ref_line_comment(const struct ref *r, size_t i)
{
	size_t beg = i + 2;

	for (i = beg; i < r->len; i++) {
		if (r->str[i] == '\n' && !ref_spliced(r, i, beg))
			break;
	}
	return i;
}

/* Literals inside directives end at the end of the line at the latest. */
static size_t
ref_directive(const struct ref *r, size_t i)
{
	size_t beg = i;
	int quote = 0;

	for (; i < r->len; i++) {
		int c = r->str[i];

		if (c == '\n' && !ref_spliced(r, i, beg))
			break;
		if (quote) {
			if (c == '\\' && i + 1 < r->len && r->str[i + 1] != '\n' && r->str[i + 1] != '\r')
				i++;
			else if (c == quote)
				quote = 0;
		} else if (c == '"' || c == '\'') {
			quote = c;
		} else if (c == '/' && ref_at(r, i + 1) == '*') {
			i = ref_block_comment(r, i) - 1;
		}
	}
	return i;
}

static const char *const ref_ops[] = {
	"...", "<<=", ">>=",
	"&&", "&=", "*=", "++", "+=", "->", "--", "-=", "!=", "/=", "%=", "<<",
	"<=", ">>", ">=", "^=", "||", "|=", "==",
	"[", "]", "(", ")", "{", "}", ".", "&", "*", "+", "-", "~", "!", "/",
	"%", "<", ">", "^", "|", "?", ":", ";", "=", ",",
};

/* Returns zero on unterminated literals. */
static int
ref_scan(struct ref *r, const char *str, size_t len)
{
	size_t i = 0;

	r->str = str;
	r->len = len;
	r->n = 0;
	while (i < len) {
		enum ref_kind kind = REF_NONE;
		size_t beg = i, q, j;
		int c = ref_at(r, i);

		if (ref_blank(c) || c == '\\') {
			i++;
			continue;
		}
		q = i;
		if (c == 'L' || c == 'U' || c == 'u')
			q++;
		if (c == 'u' && ref_at(r, q) == '8')
			q++;
		if (c == '/' && ref_at(r, i + 1) == '*') {
			kind = REF_COMMENT;
			i = ref_block_comment(r, i);
		} else if (c == '/' && ref_at(r, i + 1) == '/') {
			kind = REF_COMMENT;
			i = ref_line_comment(r, i);
		} else if (c == '#') {
			kind = REF_CPP;
			i = ref_directive(r, i);
		} else if (ref_at(r, q) == '"' || ref_at(r, q) == '\'') {
			c = ref_at(r, q);
			kind = c == '"' ? REF_STRING : REF_CHAR;
			for (i = q + 1; i < len && str[i] != c; i++) {
				if (str[i] == '\\')
					i++;
			}
			if (i >= len)
				return 0;
			i++;
		} else if (isdigit(c) || (c == '.' && isdigit(ref_at(r, i + 1)))) {
			kind = REF_NUMBER;
			for (i++; i < len; i++) {
				if ((str[i] == '+' || str[i] == '-') && strchr("eEpP", str[i - 1]) != NULL)
					continue;
				if (!ref_ident(str[i]) && str[i] != '.')
					break;
			}
		} else if (ref_ident(c)) {
			kind = REF_WORD;
			while (i < len && ref_ident(str[i]))
				i++;
		} else {
			for (j = 0; j < sizeof(ref_ops) / sizeof(ref_ops[0]); j++) {
				size_t n = strlen(ref_ops[j]);

				if (len - i >= n && strncmp(&str[i], ref_ops[j], n) == 0) {
					kind = REF_OP;
					i += n;
					break;
				}
			}
			if (kind == REF_NONE)
				i++;
		}
		if (r->n == sizeof(r->item) / sizeof(r->item[0]))
			return 0;
		r->item[r->n++] = (struct ref_item){kind, beg, i};
	}
	return 1;
}

/*
 * Everything but blanks, elements separated; adjacent comments are one element
 * as line comments on consecutive lines are read as one.
 */
struct ref_text {
	size_t len;
	char str[1 << 16];
};
static void
ref_put(struct ref_text *t, int c)
{
	if (t->len + 1 < sizeof(t->str))
		t->str[t->len++] = (char)c;
	t->str[t->len] = '\0';
}
static void
ref_put_item(struct ref_text *t, enum ref_kind kind, const char *str, size_t len, int *pv)
{
	size_t i;

	if (*pv != (int)kind || kind != REF_COMMENT)
		ref_put(t, '\1');
	*pv = (int)kind;
	for (i = 0; i < len; i++) {
		if (kind == REF_COMMENT || kind == REF_CPP) {
			if (ref_blank(str[i]))
				continue;
			/* Continuation of lines is aligned. */
			if (kind == REF_CPP && str[i] == '\\' && i + 1 < len && (str[i + 1] == '\n' || str[i + 1] == '\r'))
				continue;
		}
		ref_put(t, str[i]);
	}
}
static void
ref_show(const char *what, const char *str, size_t len)
{
	size_t i;

	fprintf(stderr, "%s: \"", what);
	for (i = 0; i < len; i++) {
		unsigned char c = (unsigned char)str[i];

		if (c == '\n')
			fprintf(stderr, "\\n");
		else if (c == '"' || c == '\\')
			fprintf(stderr, "\\%c", c);
		else if (c == 1)
			fprintf(stderr, " ~ ");
		else if (c < 32 || c > 126)
			fprintf(stderr, "\\x%02x", c);
		else
			fprintf(stderr, "%c", c);
	}
	fprintf(stderr, "\"\n");
}
#endif
