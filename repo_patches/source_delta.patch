From efd8bcf579b1bf63d171c21ab456c1c3ad5bd71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:37 +0000
Subject: [PATCH 01/34] fix: preserve set-id bits while formatting in place

chown(2) clears the set-user-ID and set-group-ID bits, change the owner before
the mode.
---
 knfmt.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/knfmt.c b/knfmt.c
index d04ca32..6fb2755 100644
--- a/knfmt.c
+++ b/knfmt.c
@@ -392,16 +392,20 @@ fileattr(const char *srcpath, int srcfd, const char *dstpath, int dstfd)
 		return 1;
 	}
 
-	if (srcsb.st_mode != dstsb.st_mode &&
-	    fchmod(srcfd, dstsb.st_mode) == -1) {
-		warn("chmod: %s", srcpath);
-		return 1;
-	}
+	/*
+	 * Change owner before mode as chown(2) clears the set-user-ID and
+	 * set-group-ID bits.
+	 */
 	if ((srcsb.st_uid != dstsb.st_uid || srcsb.st_gid != dstsb.st_gid) &&
 	    fchown(srcfd, dstsb.st_uid, dstsb.st_gid) == -1) {
 		warn("chown: %s", srcpath);
 		return 1;
 	}
+	if (srcsb.st_mode != dstsb.st_mode &&
+	    fchmod(srcfd, dstsb.st_mode) == -1) {
+		warn("chmod: %s", srcpath);
+		return 1;
+	}
 
 	return 0;
 }
-- 
2.43.0


From 9949121bbe57eff7bd185c06541cbeb04d8242e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:37 +0000
Subject: [PATCH 02/34] fix: do not count "\ No newline at end of file" as a
 line in diffs

Lines following the marker in a chunk were attributed to the wrong line,
causing changed lines to not be formatted.
---
 diff.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff.c b/diff.c
index f160e2e..1c67cbb 100644
--- a/diff.c
+++ b/diff.c
@@ -243,7 +243,8 @@ matchline(const char *str, unsigned int lno, struct file *fe)
 {
 	struct diffchunk *du;
 
-	if (str[0] == '-')
+	/* Neither removed lines nor "\ No newline at end of file" count. */
+	if (str[0] == '-' || str[0] == '\\')
 		return 0;
 
 	du = VECTOR_LAST(fe->fe_diff);
-- 
2.43.0


From 1f5566594d8a7e646d5b4a895f0b8f20d8172f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:37 +0000
Subject: [PATCH 03/34] fix: do not truncate the last of several comments on
 the same line

While prolonging a comment, the length of the trimmed token was used to extend
the not trimmed one. The end of the comment, including the new line or even the
comment terminator, was lost if trailing whitespace had been trimmed.
---
 clang.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/clang.c b/clang.c
index 0964df1..ca1d59e 100644
--- a/clang.c
+++ b/clang.c
@@ -111,7 +111,8 @@ static void		 token_branch_link(struct token *, struct token *);
 static void		 token_branch_parent(struct token *, struct token *);
 static void		 token_branch_parent_update_flags(struct token *);
 static void		 token_branch_revert(struct token *);
-static void		 token_prolong(struct token *, struct token *);
+static void		 token_prolong(struct clang *, struct token *,
+    struct token *);
 
 static int	isnum(unsigned char);
 
@@ -1023,7 +1024,7 @@ clang_read_prefix(struct clang *cl, struct lexer *lx)
 		if (pv != NULL &&
 		    pv->tk_type == TOKEN_COMMENT &&
 		    token_cmp(comment, pv) == 0) {
-			token_prolong(pv, comment);
+			token_prolong(cl, pv, comment);
 			return pv;
 		}
 		token_list_append(&cl->prefixes, comment);
@@ -1454,14 +1455,21 @@ token_branch_revert(struct token *tk)
 
 /*
  * Prolong the dst token to also cover the src token. They are required to be of
- * the same type and be adjacent to each other.
+ * the same type and be adjacent to each other. Note that the strings might not
+ * be adjacent in memory since trailing whitespace could have been trimmed.
  */
 static void
-token_prolong(struct token *dst, struct token *src)
+token_prolong(struct clang *cl, struct token *dst, struct token *src)
 {
+	struct buffer *bf;
+
 	assert(src->tk_type == dst->tk_type);
 	assert(src->tk_off >= dst->tk_off + dst->tk_len);
-	dst->tk_len += src->tk_len;
+	bf = arena_buffer_alloc(cl->arena.eternal_scope,
+	    dst->tk_len + src->tk_len);
+	buffer_puts(bf, dst->tk_str, dst->tk_len);
+	buffer_puts(bf, src->tk_str, src->tk_len);
+	token_set_str(dst, buffer_get_ptr(bf), buffer_get_len(bf));
 	token_rele(src);
 }
 
-- 
2.43.0


From 24b726582448b12f0e41a74565747f6364f9933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:15 +0000
Subject: [PATCH 04/34] fix: take the range of a hunk from the hunk header only

The greedy regular expression took the last +N of a hunk header for its
range, including the one found in the function context after it.
---
 diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff.c b/diff.c
index 1c67cbb..6e75441 100644
--- a/diff.c
+++ b/diff.c
@@ -47,7 +47,7 @@ diff_init(void)
 		regex_t		*r;
 		const char	*p;
 	} patterns[] = {
-		{ &rechunk,	"^@@.+\\+([[:digit:]]+)(,([[:digit:]]+))?.+@@" },
+		{ &rechunk,	"^@@[^+]+\\+([[:digit:]]+)(,([[:digit:]]+))?.+@@" },
 		{ &repath,	"^\\+\\+\\+[[:space:]]+([^[:space:]]+)" },
 	};
 	size_t n = sizeof(patterns) / sizeof(patterns[0]);
-- 
2.43.0


From 018fd506757da7e939d077660a5be7f9420728ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:09 +0000
Subject: [PATCH 05/34] fix: do not merge adjacent unary operators into another
 operator

---
 expr.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/expr.c b/expr.c
index f7d4319..2450ac8 100644
--- a/expr.c
+++ b/expr.c
@@ -798,10 +798,38 @@ expr_doc(struct expr *ex, struct expr_state *es, struct doc *dc)
 	return concat;
 }
 
+/*
+ * Returns non-zero if the given unary operator and the one of its operand would
+ * be read as another operator in the absence of space in between.
+ */
+static int
+expr_unary_needs_space(const struct expr *ex)
+{
+	const struct expr *lhs = ex->ex_lhs;
+
+	if (lhs == NULL ||
+	    (lhs->ex_type != EXPR_UNARY && lhs->ex_type != EXPR_PREFIX))
+		return 0;
+
+	switch (ex->ex_tk->tk_type) {
+	case TOKEN_AMP:
+		return lhs->ex_tk->tk_type == TOKEN_AMP;
+	case TOKEN_MINUS:
+		return lhs->ex_tk->tk_type == TOKEN_MINUS ||
+		    lhs->ex_tk->tk_type == TOKEN_MINUSMINUS;
+	case TOKEN_PLUS:
+		return lhs->ex_tk->tk_type == TOKEN_PLUS ||
+		    lhs->ex_tk->tk_type == TOKEN_PLUSPLUS;
+	}
+	return 0;
+}
+
 static struct doc *
 expr_doc_unary(struct expr *ex, struct expr_state *es, struct doc *dc)
 {
 	expr_doc_token(es, ex->ex_tk, dc);
+	if (expr_unary_needs_space(ex))
+		doc_literal(" ", dc);
 	if (ex->ex_lhs != NULL)
 		dc = expr_doc(ex->ex_lhs, es, dc);
 	return dc;
-- 
2.43.0


From 7e741af625580524b0dc7b235cfe4f1cf03007c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:25 +0000
Subject: [PATCH 06/34] fix: do not split numbers with a signed exponent or
 other suffixes

1e-5 was turned into 1e - 5.
---
 clang.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/clang.c b/clang.c
index ca1d59e..de47f57 100644
--- a/clang.c
+++ b/clang.c
@@ -114,7 +114,7 @@ static void		 token_branch_revert(struct token *);
 static void		 token_prolong(struct clang *, struct token *,
     struct token *);
 
-static int	isnum(unsigned char);
+static int	isnum(unsigned char, unsigned char);
 
 static MAP(const char, *, const struct token *) clang_tokens;
 static MAP(const char, *, int) cpp_token_types;
@@ -592,10 +592,13 @@ clang_read(struct lexer *lx, void *arg)
 		tk = lexer_emit(lx, &st,
 		    delim == '"' ? TOKEN_STRING : TOKEN_LITERAL);
 	} else if (isdigit(ch) || ch == '.') {
+		unsigned char pch;
+
 		do {
+			pch = ch;
 			if (lexer_getc(lx, &ch))
 				goto eof;
-		} while (isnum(ch));
+		} while (isnum(pch, ch));
 		lexer_ungetc(lx);
 		tk = lexer_emit(lx, &st, TOKEN_LITERAL);
 	} else if (isalpha(ch) || ch == '_') {
@@ -1473,10 +1476,14 @@ token_prolong(struct clang *cl, struct token *dst, struct token *src)
 	token_rele(src);
 }
 
+/*
+ * Returns non-zero if the character is part of a preprocessing number, given the
+ * previous character.
+ */
 static int
-isnum(unsigned char ch)
+isnum(unsigned char pch, unsigned char ch)
 {
-	ch = isupper(ch) ? (unsigned char)tolower(ch) : ch;
-	return isdigit(ch) || isxdigit(ch) || ch == 'l' || ch == 'x' ||
-	    ch == 'u' || ch == '.';
+	if (ch == '+' || ch == '-')
+		return pch == 'e' || pch == 'E' || pch == 'p' || pch == 'P';
+	return isalnum(ch) || ch == '_' || ch == '.';
 }
-- 
2.43.0


From 2aa8f1b2006c508705e99b24d8ed504e5c9fb526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:39 +0000
Subject: [PATCH 07/34] fix: do not split encoding prefixes from string and
 character literals

u8"x" was turned into u8 "x".
---
 clang.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clang.c b/clang.c
index de47f57..dee2f47 100644
--- a/clang.c
+++ b/clang.c
@@ -567,13 +567,19 @@ clang_read(struct lexer *lx, void *arg)
 	if (lexer_getc(lx, &ch))
 		goto eof;
 
-	if (ch == 'L') {
+	/* Encoding prefix is part of string and character literals. */
+	if (ch == 'L' || ch == 'U' || ch == 'u') {
+		struct lexer_state oldst = lexer_get_state(lx);
 		unsigned char peek;
+		int error;
 
-		if (lexer_getc(lx, &peek) == 0 && (peek == '"' || peek == '\''))
+		error = lexer_getc(lx, &peek);
+		if (!error && ch == 'u' && peek == '8')
+			error = lexer_getc(lx, &peek);
+		if (!error && (peek == '"' || peek == '\''))
 			ch = peek;
 		else
-			lexer_ungetc(lx);
+			lexer_set_state(lx, &oldst);
 	}
 
 	if (ch == '"' || ch == '\'') {
-- 
2.43.0


From ff52f61cda5730684522c1cce6b39206b22713ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:58 +0000
Subject: [PATCH 08/34] fix: let line comments extend over spliced lines

---
 clang.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/clang.c b/clang.c
index dee2f47..60f5e6e 100644
--- a/clang.c
+++ b/clang.c
@@ -1123,10 +1123,18 @@ again:
 	c99 = ch == '/';
 
 	if (c99) {
+		unsigned char pch = '\0';
+
 		for (;;) {
 			if (lexer_getc(lx, &ch))
 				break;
 			if (ch == '\n') {
+				/* The comment extends over spliced lines. */
+				if (pch == '\\') {
+					oneline = 0;
+					pch = '\0';
+					continue;
+				}
 				if (peek_c99_comment(lx)) {
 					oneline = 0;
 					goto again;
@@ -1134,6 +1142,8 @@ again:
 				lexer_ungetc(lx);
 				break;
 			}
+			if (ch != '\r')
+				pch = ch;
 		}
 	} else {
 		unsigned char peek;
-- 
2.43.0


From 4eea8f49a292899df1da9c977714ad062cd5c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:19 +0000
Subject: [PATCH 09/34] fix: honor block comments and spliced lines while
 finding the end of a directive

---
 clang.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clang.c b/clang.c
index 60f5e6e..dca374d 100644
--- a/clang.c
+++ b/clang.c
@@ -1221,15 +1221,19 @@ clang_read_cpp(struct clang *cl, struct lexer *lx)
 		 * Make block comments part of the preprocessor
 		 * directive.
 		 */
-		if (ch == '/' && peek == '*') {
+		if (!comment && ch == '/' && peek == '*') {
 			comment = 1;
+			/* The asterisk cannot also terminate the comment. */
+			peek = '\0';
 		} else if (comment && ch == '*' && peek == '/') {
 			comment = 0;
 		} else if (!comment && ch != '\\' && peek == '\n') {
 			lexer_ungetc(lx);
 			break;
 		}
-		ch = peek;
+		/* Lines might be terminated by carriage return and newline. */
+		if (peek != '\r')
+			ch = peek;
 	}
 
 	/*
-- 
2.43.0


From a9f8c26e9f030cda096bbf3fb44a9ab7fd581b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:51 +0000
Subject: [PATCH 10/34] fix: do not take quotes or the end of a comment for the
 beginning of a comment in directives

---
 clang.c | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/clang.c b/clang.c
index dca374d..68d2887 100644
--- a/clang.c
+++ b/clang.c
@@ -1192,8 +1192,8 @@ clang_read_cpp(struct clang *cl, struct lexer *lx)
 {
 	struct lexer_state kwst, oldst, st;
 	struct token *tk;
-	int comment, type;
-	unsigned char ch;
+	int comment, escape, type;
+	unsigned char ch, quote;
 
 	oldst = st = lexer_get_state(lx);
 	lexer_eat_lines_and_spaces(lx, &st);
@@ -1210,30 +1210,45 @@ clang_read_cpp(struct clang *cl, struct lexer *lx)
 	type = clang_find_cpp(lx, &kwst, TOKEN_CPP);
 
 	ch = '\0';
+	quote = '\0';
 	comment = 0;
+	escape = 0;
 	for (;;) {
 		unsigned char peek;
 
 		if (lexer_getc(lx, &peek))
 			break;
+		/* Lines might be terminated by carriage return and newline. */
+		if (peek == '\r')
+			continue;
 
-		/*
-		 * Make block comments part of the preprocessor
-		 * directive.
-		 */
-		if (!comment && ch == '/' && peek == '*') {
+		if (comment) {
+			/*
+			 * Make block comments part of the preprocessor
+			 * directive.
+			 */
+			if (ch == '*' && peek == '/') {
+				comment = 0;
+				peek = '\0';
+			}
+		} else if (ch != '\\' && peek == '\n') {
+			lexer_ungetc(lx);
+			break;
+		} else if (quote != '\0') {
+			if (escape)
+				escape = 0;
+			else if (peek == '\\')
+				escape = 1;
+			else if (peek == quote)
+				quote = '\0';
+		} else if (ch == '/' && peek == '*') {
 			comment = 1;
 			/* The asterisk cannot also terminate the comment. */
 			peek = '\0';
-		} else if (comment && ch == '*' && peek == '/') {
-			comment = 0;
-		} else if (!comment && ch != '\\' && peek == '\n') {
-			lexer_ungetc(lx);
-			break;
+		} else if (peek == '"' || peek == '\'') {
+			quote = peek;
 		}
-		/* Lines might be terminated by carriage return and newline. */
-		if (peek != '\r')
-			ch = peek;
+		ch = peek;
 	}
 
 	/*
-- 
2.43.0


From b5a618aece6326ca68d9b01640dc046b1a25a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:45 +0000
Subject: [PATCH 11/34] fix: report string and character literals which are not
 terminated

Everything from the opening quote to the end of the file was part of the EOF
token and silently discarded.
---
 clang.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clang.c b/clang.c
index 68d2887..2da166e 100644
--- a/clang.c
+++ b/clang.c
@@ -587,8 +587,11 @@ clang_read(struct lexer *lx, void *arg)
 		unsigned char pch = ch;
 
 		for (;;) {
-			if (lexer_getc(lx, &ch))
-				goto eof;
+			if (lexer_getc(lx, &ch)) {
+				/* Not terminated, must not be discarded. */
+				tk = lexer_emit(lx, &st, TOKEN_NONE);
+				goto out;
+			}
 			if (pch == '\\' && ch == '\\')
 				ch = '\0';
 			else if (pch != '\\' && ch == delim)
-- 
2.43.0


From 1130f054401b3d1c5e0c4e94cffc384e5c25db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:10 +0000
Subject: [PATCH 12/34] fix: report the last byte of the file if it is not part
 of any token

Such byte was part of the EOF token and silently discarded.
---
 clang.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clang.c b/clang.c
index 2da166e..8dc00e5 100644
--- a/clang.c
+++ b/clang.c
@@ -564,7 +564,7 @@ clang_read(struct lexer *lx, void *arg)
 		goto out;
 
 	st = lexer_get_state(lx);
-	if (lexer_getc(lx, &ch))
+	if (lexer_eof(lx) || lexer_getc(lx, &ch))
 		goto eof;
 
 	/* Encoding prefix is part of string and character literals. */
@@ -623,13 +623,13 @@ clang_read(struct lexer *lx, void *arg)
 			token_priv(tk, struct clang_token)->type =
 			    clang_find_identifier(tk->tk_str, tk->tk_len);
 		}
-	} else if (lexer_eof(lx)) {
-eof:
-		tk = lexer_emit(lx, &st, LEXER_EOF);
 	} else {
 		tk = lexer_emit(lx, &st, TOKEN_NONE);
 	}
+	goto out;
 
+eof:
+	tk = lexer_emit(lx, &st, LEXER_EOF);
 out:
 	LIST_CONCAT(&tk->tk_prefixes, &cl->prefixes);
 
-- 
2.43.0


From 461e54664188f2c0720fb08cce56c3af469a5958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 13/34] fix: do not let code follow a line comment on the same
 line

---
 doc.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/doc.c b/doc.c
index 6177cc2..877d969 100644
--- a/doc.c
+++ b/doc.c
@@ -128,6 +128,8 @@ struct doc_state {
 	unsigned int			 st_newline;
 	/* Missed new line while muted. */
 	unsigned int			 st_muteline;
+	/* Line comment emitted, must be followed by a new line. */
+	int				 st_comment;
 	/* Optional new line(s) honored. */
 	int				 st_optline;
 	/* Muted, doc_print() does not emit anything. */
@@ -825,6 +827,8 @@ doc_exec_verbatim(const struct doc *dc, struct doc_state *st)
 		st->st_newline = 1;
 
 	doc_print(dc, st, dc->dc_str, dc->dc_len, 0);
+	if ((tk->tk_flags & TOKEN_FLAG_COMMENT_C99) && !isblock)
+		st->st_comment = 1;
 
 	/* Unmute in diff mode. */
 	if (DOC_DIFF(st) && st->st_diff.verbatim == tk)
@@ -1194,6 +1198,13 @@ doc_print(const struct doc *dc, struct doc_state *st, const char *str,
 	if (isnewline && ismute)
 		st->st_muteline = 1;
 
+	/* Nothing but a new line can follow a line comment. */
+	if (st->st_comment) {
+		st->st_comment = 0;
+		if (!isnewline)
+			st->st_newline = 1;
+	}
+
 	/* Emit pending new line. */
 	if (st->st_newline) {
 		int isspace = len == 1 && str[0] == ' ';
-- 
2.43.0


From d9e7724d5bba4754615c785a73d42a61651b72a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 14/34] fix: do not discard operators which cannot follow a
 cast

---
 parser-expr.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser-expr.c b/parser-expr.c
index eb61f18..b2dbdd0 100644
--- a/parser-expr.c
+++ b/parser-expr.c
@@ -147,8 +147,19 @@ peek_binary_operator(struct lexer *lx, const struct token *rparen)
 {
 	struct token *op;
 
-	return lexer_peek_if_flags(lx, TOKEN_FLAG_BINARY, &op) &&
-	    token_has_spaces(rparen) &&
+	if (!lexer_peek_if_flags(lx, TOKEN_FLAG_BINARY, &op))
+		return 0;
+	switch (op->tk_type) {
+	case TOKEN_AMP:
+	case TOKEN_STAR:
+	case TOKEN_PLUS:
+	case TOKEN_MINUS:
+		break;
+	default:
+		/* Cannot be an unary operator. */
+		return 1;
+	}
+	return token_has_spaces(rparen) &&
 	    (token_has_spaces(op) || token_has_line(op, 1));
 }
 
-- 
2.43.0


From 22e846b92c7e3051520acdcd0524b03ed3b2c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 15/34] fix: do not turn division followed by dereference into
 a comment

---
 expr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/expr.c b/expr.c
index 2450ac8..e64895e 100644
--- a/expr.c
+++ b/expr.c
@@ -1246,7 +1246,7 @@ expr_doc_indent_parens(const struct expr_state *es, struct doc *dc)
 static int
 expr_doc_has_spaces(const struct expr *ex)
 {
-	struct token *pv;
+	struct token *nx, *pv;
 
 	/*
 	 * Only applicable to binary operators where spaces around it are
@@ -1255,6 +1255,12 @@ expr_doc_has_spaces(const struct expr *ex)
 	if ((ex->ex_tk->tk_flags & TOKEN_FLAG_SPACE) == 0)
 		return 1;
 
+	/* Do not confuse division and dereference with a comment. */
+	nx = token_next(ex->ex_tk);
+	if (ex->ex_tk->tk_type == TOKEN_SLASH &&
+	    nx != NULL && nx->tk_type == TOKEN_STAR)
+		return 1;
+
 	if (token_has_spaces(ex->ex_tk))
 		return 1;
 	pv = token_prev(ex->ex_tk);
-- 
2.43.0


From e7910a0343c4e2334667385a20386412ca9c58bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 16/34] fix: do not discard the operator taking the address of
 a label

---
 expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expr.c b/expr.c
index e64895e..41e24e1 100644
--- a/expr.c
+++ b/expr.c
@@ -259,6 +259,7 @@ static const struct expr_rule rules[] = {
 	{ PC14 | PCUNARY,	1,	TOKEN_MINUS,			expr_exec_unary },
 	{ PC14 | PCUNARY,	1,	TOKEN_STAR,			expr_exec_unary },
 	{ PC14 | PCUNARY,	1,	TOKEN_AMP,			expr_exec_unary },
+	{ PC14 | PCUNARY,	1,	TOKEN_AMPAMP,			expr_exec_unary },
 	{ PC14 | PCUNARY,	1,	TOKEN_SIZEOF,			expr_exec_sizeof },
 	{ PC15,			0,	TOKEN_LPAREN,			expr_exec_parens },
 	{ PC15 | PCUNARY,	0,	TOKEN_LPAREN,			expr_exec_parens },
-- 
2.43.0


From 7c5d9d575664e27fe842e5e66e3cdeb76773e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 17/34] fix: do not discard code between branches while
 recovering

---
 clang.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/clang.c b/clang.c
index 8dc00e5..bc479cb 100644
--- a/clang.c
+++ b/clang.c
@@ -36,6 +36,8 @@ struct clang {
 	struct token_list	 prefixes;
 	VECTOR(struct token *)	 branches;
 	VECTOR(struct token *)	 stamps;
+	/* First token not covered by branches taken since the last stamp. */
+	struct token		*unmute;
 
 	struct {
 		struct arena_scope	*eternal_scope;
@@ -92,6 +94,7 @@ static const char		*clang_token_serialize_prefix(
     const struct token *,
     struct arena_scope *);
 
+static void		 clang_set_unmute(struct clang *, struct token *);
 static struct token	*clang_end_of_branch(struct lexer *, struct token *,
     void *);
 
@@ -248,6 +251,16 @@ clang_lexer_callbacks(struct clang *cl)
 	};
 }
 
+static void
+clang_set_unmute(struct clang *cl, struct token *tk)
+{
+	if (tk != NULL)
+		token_ref(tk);
+	if (cl->unmute != NULL)
+		token_rele(cl->unmute);
+	cl->unmute = tk;
+}
+
 /*
  * Take note of the last consumed token, later used while branching and
  * recovering.
@@ -261,6 +274,7 @@ clang_stamp(struct clang *cl, struct lexer *lx)
 	if (!lexer_back(lx, &back))
 		return;
 	clang_trace(cl, "stamp %s", lexer_serialize(lx, back));
+	clang_set_unmute(cl, NULL);
 	token_ref(back);
 	dst = VECTOR_ALLOC(cl->stamps);
 	if (dst == NULL)
@@ -316,6 +330,7 @@ clang_branch(struct clang *cl, struct lexer *lx, struct token **unmute)
 	 * emitted again.
 	 */
 	*unmute = dst;
+	clang_set_unmute(cl, dst);
 
 	/* Rewind to last stamped token. */
 	seek = clang_last_stamped(cl);
@@ -369,6 +384,15 @@ clang_recover(struct clang *cl, struct lexer *lx, struct token **unmute)
 	    lexer_serialize(lx, cpp_src), lexer_serialize(lx, cpp_dst),
 	    lexer_serialize(lx, src), lexer_serialize(lx, dst));
 
+	/*
+	 * Everything up to the unmute token is already emitted and cannot be
+	 * turned into a prefix.
+	 */
+	if (cl->unmute != NULL && cl->unmute != src &&
+	    cl->unmute->tk_off >= src->tk_off &&
+	    cl->unmute->tk_off < dst->tk_off)
+		return 0;
+
 	/*
 	 * Find the offset of the first stamped token before the branch.
 	 * Must be done before getting rid of the branch as stamped tokens might
@@ -388,6 +412,10 @@ clang_recover(struct clang *cl, struct lexer *lx, struct token **unmute)
 	 */
 	token_ref(cpp_src);
 	clang_branch_fold(cl, lx, cpp_src, unmute);
+	if (cl->unmute == src)
+		clang_set_unmute(cl, dst);
+	else if (cl->unmute != NULL)
+		*unmute = cl->unmute;
 
 	/* Find first stamped token before the branch. */
 	for (i = VECTOR_LENGTH(cl->stamps); i > 0; i--) {
@@ -527,6 +555,7 @@ clang_before_free(struct lexer *lx, void *arg)
 		tail = VECTOR_POP(cl->stamps);
 		token_rele(*tail);
 	}
+	clang_set_unmute(cl, NULL);
 }
 
 static enum clang_token_type
-- 
2.43.0


From 1776318309e5aa66b8130100d000d2cecc6db44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:32 +0000
Subject: [PATCH 18/34] fix: do not move operators past preprocessor directives

---
 expr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expr.c b/expr.c
index 41e24e1..65a6816 100644
--- a/expr.c
+++ b/expr.c
@@ -1352,10 +1352,13 @@ token_move_next_line(struct token *tk)
 	if (!token_has_line(tk, 1))
 		return;
 
+	/* The token must not be moved past a directive. */
+	nx = token_next(tk);
+	if (token_has_cpp(nx))
+		return;
+
 	pv = token_prev(tk);
 	token_move_suffixes(tk, pv);
-
-	nx = token_next(tk);
 	clang_token_move_prefixes(nx, tk);
 }
 
-- 
2.43.0


From 0e802951e227bccad0bf552a06484ebc81dfaa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:58 +0000
Subject: [PATCH 19/34] fix: do not discard code after formatting is turned off
 more than once

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index f65bd2b..2bdb012 100644
--- a/parser.c
+++ b/parser.c
@@ -89,6 +89,10 @@ clang_format_off(struct parser *pr, struct token *comment, struct doc *dc)
 	/* Ignore while peeking and branching. */
 	if (lexer_get_peek(pr->pr_lx) || pr->pr_token.unmute != NULL)
 		return;
+	/* Ignore if already turned off by another comment. */
+	if (pr->pr_token.clang_format_off != NULL &&
+	    pr->pr_token.clang_format_off != comment)
+		return;
 
 	parser_trace(pr, "%s", lexer_serialize(pr->pr_lx, comment));
 
-- 
2.43.0


From 4fc4636288c1798758c1d72c0f3c754a5a5a69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:50 +0000
Subject: [PATCH 20/34] fix: do not discard code after formatting is turned off
 before a branch

---
 parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 2bdb012..d4c49df 100644
--- a/parser.c
+++ b/parser.c
@@ -159,7 +159,11 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 		} else if (error & BRCH) {
 			if (!clang_branch(clang, lx, &pr->pr_token.unmute))
 				break;
-			parser_reset(pr);
+			/*
+			 * Everything emitted so far is kept, including the last
+			 * clang-format off.
+			 */
+			lexer_error_reset(lx);
 		} else if (error & (FAIL | NONE)) {
 			int r;
 
-- 
2.43.0


From e0c0593b6b09cb81145bb0b6e4c4c6731767fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:31 +0000
Subject: [PATCH 21/34] fix: do not discard code while branching inside of
 braces in expressions

---
 parser-expr.c | 6 +++++-
 parser-priv.h | 2 ++
 parser.c      | 5 +++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser-expr.c b/parser-expr.c
index b2dbdd0..6ff6eff 100644
--- a/parser-expr.c
+++ b/parser-expr.c
@@ -129,9 +129,13 @@ expr_recover(const struct expr_exec_arg *ea, void *arg)
 			dc = doc_root(pr->pr_arena.doc_scope);
 			parser_reset(pr);
 			lexer_seek(lx, lbrace);
-			if (parser_stmt_expr_gnu(pr, dc) & GOOD)
+			error = parser_stmt_expr_gnu(pr, dc);
+			if (error & GOOD)
 				return dc;
 		}
+		/* Taking the branch would discard the consumed tokens. */
+		if ((error & BRCH) && !lexer_get_peek(lx))
+			pr->pr_nobranch = 1;
 	} else if (lexer_if(lx, TOKEN_COMMA, &tk)) {
 		/* Some macros allow empty arguments such as queue(3). */
 		dc = doc_root(pr->pr_arena.doc_scope);
diff --git a/parser-priv.h b/parser-priv.h
index 75409ea..38b2215 100644
--- a/parser-priv.h
+++ b/parser-priv.h
@@ -49,6 +49,8 @@ struct parser {
 		struct token	*unmute;
 		struct token	*clang_format_off;
 	} pr_token;
+
+	int			 pr_nobranch;	/* consumed tokens not emitted */
 };
 
 struct parser_arena_scope_cookie {
diff --git a/parser.c b/parser.c
index d4c49df..3376d2d 100644
--- a/parser.c
+++ b/parser.c
@@ -156,7 +156,7 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 		error = parser_root(pr, concat);
 		if (error & GOOD) {
 			clang_stamp(clang, lx);
-		} else if (error & BRCH) {
+		} else if ((error & BRCH) && !pr->pr_nobranch) {
 			if (!clang_branch(clang, lx, &pr->pr_token.unmute))
 				break;
 			/*
@@ -164,7 +164,7 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 			 * clang-format off.
 			 */
 			lexer_error_reset(lx);
-		} else if (error & (FAIL | NONE)) {
+		} else if (error & (BRCH | FAIL | NONE)) {
 			int r;
 
 			r = clang_recover(clang, lx, &pr->pr_token.unmute);
@@ -318,6 +318,7 @@ parser_reset(struct parser *pr)
 	struct token *nx;
 
 	lexer_error_reset(pr->pr_lx);
+	pr->pr_nobranch = 0;
 
 	/* Remove last clang-format off if about to be traversed again. */
 	if (pr->pr_token.clang_format_off != NULL &&
-- 
2.43.0


From 9e4cb226d59218d6029721db7352c3d6439e5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:19 +0000
Subject: [PATCH 22/34] fix: do not align line continuations to an absent
 column limit

---
 cpp-align.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cpp-align.c b/cpp-align.c
index d48a4b6..b920c9a 100644
--- a/cpp-align.c
+++ b/cpp-align.c
@@ -3,6 +3,7 @@
 #include "config.h"
 
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 
 #include "libks/arena-buffer.h"
@@ -172,9 +173,10 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 {
 	struct alignment alignment = {
 		.mode	= style(st, AlignEscapedNewlines),
-		.width	= style(st, ColumnLimit) - style(st, IndentWidth),
 		.tabs	= style_use_tabs(st) ? 1 : 0,
 	};
+	unsigned int indent_width = style(st, IndentWidth);
+	unsigned int limit = style(st, ColumnLimit);
 	struct ruler rl;
 	struct buffer *out = NULL;
 	struct buffer *bf;
@@ -188,6 +190,13 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 	if (nextline(str, len, &nx) == NULL)
 		return NULL;
 
+	/* Without a usable limit there is nothing to align to. */
+	if (limit > INT_MAX || limit < indent_width) {
+		if (alignment.mode == Right)
+			alignment.mode = Left;
+	} else {
+		alignment.width = limit - indent_width;
+	}
 	if (sense_alignment(str, len, st, &alignment)) {
 		cpp_trace(op, "mode %s, width %u, tabs %d, skip %d",
 		    style_keyword_str(alignment.mode), alignment.width,
-- 
2.43.0


From 87f1cdcc8852b7d16d48212c89ccdfa43e9a5abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:46 +0000
Subject: [PATCH 23/34] fix: do not take a branch if it would discard tokens
 not yet emitted

---
 parser.c | 43 ++++++++++++++++++++++++++++++++++++++++---
 token.h  |  2 ++
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index 3376d2d..44b5386 100644
--- a/parser.c
+++ b/parser.c
@@ -124,6 +124,30 @@ parser_alloc(const struct parser_arg *arg)
 	return pr;
 }
 
+/*
+ * Returns non-zero if all tokens up to the branch, starting after the given
+ * token, are emitted.
+ */
+static int
+is_branch_emitted(const struct parser *pr, struct token *beg)
+{
+	struct token *end, *tk;
+
+	if (pr->pr_nobranch || !lexer_back(pr->pr_lx, &end))
+		return 0;
+	if (beg == end)
+		return 1;
+	if (beg != NULL)
+		tk = token_next(beg);
+	else if (!lexer_peek_first(pr->pr_lx, &tk))
+		return 0;
+	for (; tk != NULL && tk != end; tk = token_next(tk)) {
+		if ((tk->tk_flags & TOKEN_FLAG_EMITTED) == 0)
+			return 0;
+	}
+	return 1;
+}
+
 int
 parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
     struct buffer *bf)
@@ -141,7 +165,7 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 
 	for (;;) {
 		struct doc *concat;
-		struct token *tk;
+		struct token *beg, *tk;
 
 		/* Always emit EOF token as it could have prefixes. */
 		if (lexer_if(lx, LEXER_EOF, &tk)) {
@@ -153,10 +177,15 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 
 		concat = doc_alloc(DOC_CONCAT, dc);
 
+		if (!lexer_back(lx, &beg))
+			beg = NULL;
 		error = parser_root(pr, concat);
+		/* Taking the branch would discard tokens not yet emitted. */
+		if ((error & BRCH) && !is_branch_emitted(pr, beg))
+			error = FAIL;
 		if (error & GOOD) {
 			clang_stamp(clang, lx);
-		} else if ((error & BRCH) && !pr->pr_nobranch) {
+		} else if (error & BRCH) {
 			if (!clang_branch(clang, lx, &pr->pr_token.unmute))
 				break;
 			/*
@@ -164,7 +193,7 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 			 * clang-format off.
 			 */
 			lexer_error_reset(lx);
-		} else if (error & (BRCH | FAIL | NONE)) {
+		} else if (error & (FAIL | NONE)) {
 			int r;
 
 			r = clang_recover(clang, lx, &pr->pr_token.unmute);
@@ -320,6 +349,12 @@ parser_reset(struct parser *pr)
 	lexer_error_reset(pr->pr_lx);
 	pr->pr_nobranch = 0;
 
+	/* Everything about to be traversed again is not yet emitted. */
+	if (lexer_peek(pr->pr_lx, &nx)) {
+		for (; nx != NULL; nx = token_next(nx))
+			nx->tk_flags &= ~TOKEN_FLAG_EMITTED;
+	}
+
 	/* Remove last clang-format off if about to be traversed again. */
 	if (pr->pr_token.clang_format_off != NULL &&
 	    lexer_peek(pr->pr_lx, &nx) &&
@@ -353,6 +388,8 @@ parser_doc_token_impl(struct parser *pr, struct token *tk, struct doc *dc,
 	}
 
 	out = doc_token(tk, dc, DOC_LITERAL, fun, lno);
+	if (!lexer_get_peek(pr->pr_lx))
+		tk->tk_flags |= TOKEN_FLAG_EMITTED;
 
 	LIST_FOREACH(suffix, &tk->tk_suffixes) {
 		if (suffix->tk_flags & TOKEN_FLAG_DISCARD)
diff --git a/token.h b/token.h
index 83c7e43..a022852 100644
--- a/token.h
+++ b/token.h
@@ -218,6 +218,8 @@ struct token {
 #define TOKEN_FLAG_TYPE_FUNC					0x00004000u
 #define TOKEN_FLAG_COMMENT_CLANG_FORMAT_OFF			0x00008000u
 #define TOKEN_FLAG_COMMENT_CLANG_FORMAT_ON			0x00010000u
+/* Token emitted by the parser. */
+#define TOKEN_FLAG_EMITTED					0x00020000u
 
 	const char		*tk_str;
 	size_t			 tk_len;
-- 
2.43.0


From e555d1c57f25bb9c6a9338a02221fca67a484007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:25 +0000
Subject: [PATCH 24/34] fix: keep track of formatting being turned off while
 recovering after a branch

---
 parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 44b5386..df13fce 100644
--- a/parser.c
+++ b/parser.c
@@ -355,10 +355,16 @@ parser_reset(struct parser *pr)
 			nx->tk_flags &= ~TOKEN_FLAG_EMITTED;
 	}
 
-	/* Remove last clang-format off if about to be traversed again. */
+	/*
+	 * Remove last clang-format off if about to be traversed again. Unless
+	 * already emitted before the last taken branch.
+	 */
 	if (pr->pr_token.clang_format_off != NULL &&
 	    lexer_peek(pr->pr_lx, &nx) &&
-	    token_cmp(nx, pr->pr_token.clang_format_off) < 0) {
+	    token_cmp(nx, pr->pr_token.clang_format_off) < 0 &&
+	    (pr->pr_token.unmute == NULL ||
+	     token_cmp(pr->pr_token.unmute,
+	     pr->pr_token.clang_format_off) < 0)) {
 		token_rele(pr->pr_token.clang_format_off);
 		pr->pr_token.clang_format_off = NULL;
 	}
-- 
2.43.0


From 433de5631a800344b7cb43b3fa76c6f0fb91fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:55 +0000
Subject: [PATCH 25/34] fix: do not ignore formatting being turned off while
 recovering

---
 clang.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/clang.c b/clang.c
index bc479cb..9f17c62 100644
--- a/clang.c
+++ b/clang.c
@@ -102,7 +102,7 @@ static struct token	*clang_last_stamped(struct clang *);
 static struct token	*clang_recover_find_branch(struct token *,
     struct token *, int);
 static void		 clang_branch_fold(struct clang *, struct lexer *,
-    struct token *, struct token **);
+    struct token *);
 
 static void		 remove_token(struct lexer *, struct token *);
 
@@ -411,11 +411,14 @@ clang_recover(struct clang *cl, struct lexer *lx, struct token **unmute)
 	 * removed, grab a reference since it's needed below.
 	 */
 	token_ref(cpp_src);
-	clang_branch_fold(cl, lx, cpp_src, unmute);
+	clang_branch_fold(cl, lx, cpp_src);
 	if (cl->unmute == src)
 		clang_set_unmute(cl, dst);
-	else if (cl->unmute != NULL)
-		*unmute = cl->unmute;
+	/*
+	 * Instruct caller that crossing this token must cause tokens to be
+	 * emitted again.
+	 */
+	*unmute = cl->unmute;
 
 	/* Find first stamped token before the branch. */
 	for (i = VECTOR_LENGTH(cl->stamps); i > 0; i--) {
@@ -856,8 +859,7 @@ clang_recover_find_branch(struct token *tk, struct token *threshold,
  * Fold tokens covered by the branch into a prefix.
  */
 static void
-clang_branch_fold(struct clang *cl, struct lexer *lx, struct token *cpp_src,
-    struct token **unmute)
+clang_branch_fold(struct clang *cl, struct lexer *lx, struct token *cpp_src)
 {
 	const struct lexer_state st = {
 		.st_lno	= cpp_src->tk_lno,
@@ -939,12 +941,6 @@ clang_branch_fold(struct clang *cl, struct lexer *lx, struct token *cpp_src,
 		rm = nx;
 	}
 
-	/*
-	 * Instruct caller that crossing this token must cause tokens to be
-	 * emitted again.
-	 */
-	*unmute = dst;
-
 	token_rele(dst);
 	token_rele(cpp_dst);
 	token_rele(src);
-- 
2.43.0


From 4da0feaaad523f797188b6ec2fdf4e01c07d4814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:59 +0000
Subject: [PATCH 26/34] fix: do not move comments past preprocessor directives

---
 expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expr.c b/expr.c
index 65a6816..85526f1 100644
--- a/expr.c
+++ b/expr.c
@@ -1354,7 +1354,7 @@ token_move_next_line(struct token *tk)
 
 	/* The token must not be moved past a directive. */
 	nx = token_next(tk);
-	if (token_has_cpp(nx))
+	if (token_has_cpp(tk) || token_has_cpp(nx))
 		return;
 
 	pv = token_prev(tk);
@@ -1371,6 +1371,10 @@ token_move_prev_line(struct token *tk)
 	struct token *pv;
 	unsigned int lno;
 
+	/* The token must not be moved past a directive. */
+	if (token_has_cpp(tk))
+		return;
+
 	pv = token_prev(tk);
 	lno = tk->tk_lno - pv->tk_lno;
 	if (token_has_line(pv, 1) && lno == 1)
-- 
2.43.0


From e036e413c3e8f3f01d295a93a55e34c89e359558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:19 +0000
Subject: [PATCH 27/34] fix: do not move comments from or to already emitted
 tokens

---
 expr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expr.c b/expr.c
index 85526f1..1b3c419 100644
--- a/expr.c
+++ b/expr.c
@@ -1357,7 +1357,11 @@ token_move_next_line(struct token *tk)
 	if (token_has_cpp(tk) || token_has_cpp(nx))
 		return;
 
+	/* Nothing can be moved from or to already emitted tokens. */
 	pv = token_prev(tk);
+	if ((pv->tk_flags | nx->tk_flags) & TOKEN_FLAG_EMITTED)
+		return;
+
 	token_move_suffixes(tk, pv);
 	clang_token_move_prefixes(nx, tk);
 }
@@ -1375,7 +1379,11 @@ token_move_prev_line(struct token *tk)
 	if (token_has_cpp(tk))
 		return;
 
+	/* Nothing can be moved from already emitted tokens. */
 	pv = token_prev(tk);
+	if (pv->tk_flags & TOKEN_FLAG_EMITTED)
+		return;
+
 	lno = tk->tk_lno - pv->tk_lno;
 	if (token_has_line(pv, 1) && lno == 1)
 		token_move_suffixes(pv, tk);
-- 
2.43.0


From ec7d3dd5b4d76320710cb94373c021d442082e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:09 +0000
Subject: [PATCH 28/34] fix: do not lose track of a line comment followed by a
 space while muted

---
 doc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/doc.c b/doc.c
index 877d969..73ade92 100644
--- a/doc.c
+++ b/doc.c
@@ -1194,12 +1194,15 @@ doc_print(const struct doc *dc, struct doc_state *st, const char *str,
 {
 	int ismute = doc_is_mute(st) && (flags & DOC_PRINT_FORCE) == 0;
 	int isnewline = len == 1 && str[0] == '\n';
+	int isspace = len == 1 && str[0] == ' ';
 
 	if (isnewline && ismute)
 		st->st_muteline = 1;
 
 	/* Nothing but a new line can follow a line comment. */
-	if (st->st_comment) {
+	if (st->st_comment && !ismute) {
+		if (isspace)
+			return 0;
 		st->st_comment = 0;
 		if (!isnewline)
 			st->st_newline = 1;
@@ -1207,8 +1210,6 @@ doc_print(const struct doc *dc, struct doc_state *st, const char *str,
 
 	/* Emit pending new line. */
 	if (st->st_newline) {
-		int isspace = len == 1 && str[0] == ' ';
-
 		/* Redundant if a new line is about to be emitted. */
 		if (isspace)
 			return 0;
-- 
2.43.0


From f413dec717fceb00307d8500cecc0b13224f5bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:38 +0000
Subject: [PATCH 29/34] fix: honor lines holding white space while sorting
 includes

Such lines, as used by files with carriage returns, did not terminate a
block of includes.
---
 cpp-include.c | 12 ++++++++++--
 token.c       |  7 ++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cpp-include.c b/cpp-include.c
index 17d75a6..62b905b 100644
--- a/cpp-include.c
+++ b/cpp-include.c
@@ -361,6 +361,14 @@ findpath(const char *str, size_t len, struct arena_scope *s)
 static void
 token_trim_verbatim_line(struct token *tk)
 {
-	if (token_has_verbatim_line(tk, 2))
-		tk->tk_len--;
+	size_t len = tk->tk_len;
+
+	if (!token_has_verbatim_line(tk, 2))
+		return;
+
+	/* Keep the first line, the next one might hold white space. */
+	do {
+		len--;
+	} while (tk->tk_str[len - 1] != '\n');
+	tk->tk_len = len;
 }
diff --git a/token.c b/token.c
index dbe206d..9fcf436 100644
--- a/token.c
+++ b/token.c
@@ -296,7 +296,12 @@ token_has_verbatim_line(const struct token *tk, int nlines)
 	size_t len = tk->tk_len;
 
 	for (; len > 0; len--) {
-		if (str[len - 1] != '\n')
+		char c = str[len - 1];
+
+		/* Lines might hold nothing but white space. */
+		if (c == '\r' || c == ' ' || c == '\t')
+			continue;
+		if (c != '\n')
 			break;
 		if (--nlines == 0)
 			break;
-- 
2.43.0


From 4ca4073c9d01474e700c496e4a51febf238f3e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:42 +0000
Subject: [PATCH 30/34] fix: do not search for the end of an include path past
 the token

---
 cpp-include.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp-include.c b/cpp-include.c
index 62b905b..17c9ba0 100644
--- a/cpp-include.c
+++ b/cpp-include.c
@@ -351,7 +351,7 @@ findpath(const char *str, size_t len, struct arena_scope *s)
 	if (so == NULL)
 		return NULL;
 	c = so[0] == '"' ? '"' : '>';
-	len -= (size_t)(so - str);
+	len -= (size_t)(so - str) + 1;
 	eo = memchr(&so[1], c, len);
 	if (eo == NULL)
 		return NULL;
-- 
2.43.0


From 454723bd8dfacd4084305845da78d4c7e9a67825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:06 +0000
Subject: [PATCH 31/34] fix: do not match includes against missing or invalid
 patterns

An include category without a pattern, or one which does not compile,
caused a crash.
---
 style.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/style.c b/style.c
index ad694c1..37115e0 100644
--- a/style.c
+++ b/style.c
@@ -79,6 +79,7 @@ struct style {
 struct include_category {
 	const char		*pattern;
 	regex_t			 regex;
+	int			 compiled;
 	struct include_priority	 priority;
 };
 
@@ -508,6 +509,8 @@ style_include_priority(const struct style *st, const char *include_path)
 		const struct include_category *ic = &st->include_categories[i];
 		int error;
 
+		if (!ic->compiled)
+			continue;
 		error = regexec(&ic->regex, include_path, 0, NULL, 0);
 		if (error == 0)
 			return ic->priority;
@@ -751,7 +754,8 @@ style_dump_IncludeCategories(const struct style *st)
 	for (i = 0; i < VECTOR_LENGTH(st->include_categories); i++) {
 		const struct include_category *ic = &st->include_categories[i];
 
-		fprintf(stderr, "[s] - Regex: '%s'\n", ic->pattern);
+		fprintf(stderr, "[s] - Regex: '%s'\n",
+		    ic->pattern != NULL ? ic->pattern : "");
 		fprintf(stderr, "[s]   Priority: %d\n", ic->priority.group);
 		fprintf(stderr, "[s]   SortPriority: %d\n", ic->priority.sort);
 	}
@@ -1293,6 +1297,7 @@ parse_Regex(struct style *st, struct lexer *lx, const struct style_option *so)
 	    tk->tk_str, tk->tk_len);
 	/* Allow the pattern to be redefined. */
 	regfree(&ic->regex);
+	ic->compiled = 0;
 	error = regcomp(&ic->regex, ic->pattern,
 	    REG_EXTENDED | REG_NOSUB | REG_ICASE);
 	if (error) {
@@ -1309,6 +1314,7 @@ parse_Regex(struct style *st, struct lexer *lx, const struct style_option *so)
 		lexer_error(lx, tk, __func__, __LINE__, "%s", errbuf);
 		return FAIL;
 	}
+	ic->compiled = 1;
 	return GOOD;
 }
 
-- 
2.43.0


From 3e100a7623da0241fda04ebc95133ae530a02779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:27 +0000
Subject: [PATCH 32/34] fix: do not lose sorted includes in diff mode

Sorted includes kept the line they were found on, causing other includes
not to be emitted.
---
 cpp-include.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp-include.c b/cpp-include.c
index 17c9ba0..0f1a4f0 100644
--- a/cpp-include.c
+++ b/cpp-include.c
@@ -33,6 +33,7 @@ struct cpp_include {
 struct include {
 	struct token		*tk;
 	struct include_priority	 priority;
+	unsigned int		 lno;
 };
 
 struct include_group {
@@ -222,6 +223,7 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 	MAP_ITERATOR(ci->groups) it = {0};
 	struct token *after = ci->after;
 	const char *path = lexer_get_path(lx);
+	size_t nsorted = 0;
 	size_t i, nincludes;
 	unsigned int nbrackets = 0;
 	unsigned int nquotes = 0;
@@ -268,6 +270,7 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 				priority.sort = -1;
 		}
 		include->priority = priority;
+		include->lno = tk->tk_lno;
 		add_to_include_group(ci, include);
 	}
 
@@ -290,6 +293,8 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 			struct include *include = group->includes[i];
 
 			token_trim_verbatim_line(include->tk);
+			/* Keep the lines in order, presumed in diff mode. */
+			include->tk->tk_lno = ci->includes[nsorted++].lno;
 			token_list_remove(ci->prefixes, include->tk);
 			token_ref(include->tk);
 			if (after != NULL) {
-- 
2.43.0


From a4fabfbab72cb94145d95fc1fa7e6c188eae7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:19 +0000
Subject: [PATCH 33/34] fix: crash while a group is covered by many diff chunks

Verbatim tokens already emitted must not be taken into account while
entering the next chunk.
---
 doc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doc.c b/doc.c
index 73ade92..bedd80b 100644
--- a/doc.c
+++ b/doc.c
@@ -1615,9 +1615,6 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 
 	switch (dc->dc_type) {
 	case DOC_VERBATIM:
-		if ((dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) == 0)
-			dd->dd_verbatim = dc->dc_tk;
-		FALLTHROUGH;
 	case DOC_LITERAL:
 		if (dc->dc_tk != NULL) {
 			unsigned int lno = dc->dc_tk->tk_lno;
@@ -1625,6 +1622,9 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 			if (lno < dd->dd_threshold)
 				return dd->dd_below_threshold;
 
+			if (dc->dc_type == DOC_VERBATIM &&
+			    (dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) == 0)
+				dd->dd_verbatim = dc->dc_tk;
 			if (dd->dd_first == 0)
 				dd->dd_first = lno;
 			if (dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) {
-- 
2.43.0


From 1a1b6b17c90a1c6d4ff2b593ff7557ab1401621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:00 +0000
Subject: [PATCH 34/34] fix: division by zero in multiplication lacking
 compiler support

---
 libks/arithmetic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libks/arithmetic.c b/libks/arithmetic.c
index 277b016..1c4c083 100644
--- a/libks/arithmetic.c
+++ b/libks/arithmetic.c
@@ -62,7 +62,7 @@
 } while (0)
 
 #define UNSIGNED_MUL_OVERFLOW(max, a, b, c) do {			\
-	if ((a) > (max) / (b))						\
+	if ((b) > 0 && (a) > (max) / (b))				\
 		return 1;						\
 	*(c) = (a) * (b);						\
 	return 0;							\
-- 
2.43.0

