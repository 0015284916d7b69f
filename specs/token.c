/*@ {
 'inst': ['token.c'],
 'link': 'ALL',
 'loops': {'token.c': {
   'token_has_verbatim_line': ['''__CPROVER_assigns(len, nlines, g.first, g.stop, g.n)
     __CPROVER_loop_invariant(len <= g0.len && g.stop == len && g.n >= 0 && g.n < g0.nlines && nlines == g0.nlines - g.n)
     __CPROVER_loop_invariant(g.n == 0 || (g.first >= len && g.first < g0.len && g0.base[g.first] == 10))
     __CPROVER_loop_invariant(!KIN(len, g0.len) || BLANK(g0.at) || (g.n > 0 && g0.K == g.first))
     __CPROVER_decreases(len)
     @ghost if (str[len - 1] == 10) { if (g.n == 0) g.first = len - 1; g.n++; } if (str[len - 1] == 10 || BLANK(str[len - 1])) g.stop = len - 1;'''],
 }},
 'assumes': [
   'token: strncmp by the C standard, texts without NUL; texts shorter than 2^30 bytes; token_rele releases a token no longer referenced and touches no other list',
 ],
 'proofs': [
  {'name': 'memcmp', 'fn': 'token_memcmp', 'bounded': 'b_memcmp', 'nobmc': True, 'loopfns': []},
  {'name': 'strcmp', 'fn': 'token_strcmp', 'replace': ['token_memcmp'], 'bounded': 'b_memcmp', 'nobmc': True, 'loopfns': []},
  {'name': 'verbatim', 'fn': 'token_has_verbatim_line', 'bounded': 'b_verbatim', 'nobmc': True},
  {'name': 'append', 'fn': 'token_list_append', 'bounded': 'b_list', 'nobmc': True, 'loopfns': []},
  {'name': 'prepend', 'fn': 'token_list_prepend', 'bounded': 'b_list', 'nobmc': True, 'loopfns': []},
  {'name': 'after', 'fn': 'token_list_append_after', 'bounded': 'b_list', 'nobmc': True, 'loopfns': []},
  {'name': 'remove', 'fn': 'token_list_remove', 'replace': ['token_rele'], 'bounded': 'b_list', 'nobmc': True, 'loopfns': []},
  {'name': 'lists', 'fn': 'token_list_swap', 'mode': 'native', 'bounded': 'b_list', 'jobs': 2, 'count': 200000, 'search_s': 30, 'cost': 5, 'reason': 'loops over linked lists of unbounded length'},
 ],
} @*/
/*
 * Tokens: comparison of texts and lists of tokens.
 */
#include "vf.h"

#include <string.h>

#define BLANK(c) ((c) == 32 || (c) == 9 || (c) == 13)
#ifdef VF_PROOF
#define MAXLEN ((size_t)1 << 30)
struct ghost0 {
	const char *base;
	size_t len, K;
	char at;
	int nlines;
	const char *b;
	size_t blen;
};
static struct ghost0 g0;
struct ghost {
	size_t D;	/* first difference */
	size_t first, stop;	/* last new line, start of white space */
	int n;			/* new lines seen */
};
static struct ghost g;
#define KIN(a, b) (g0.K >= (a) && g0.K < (b))
static int
vf_strncmp(const char *a, const char *b, size_t n)
{
	VF_ASSERT(n <= g0.len && n <= g0.blen && a == g0.base && b == g0.b, "no more than both texts are compared");
	g.D = nd_size();
	VF_ASSUME(g.D <= n);
	if (g.D == n)
		return 0;
	VF_ASSUME(g0.base[g.D] != g0.b[g.D]);
	int r = nd_int();
	VF_ASSUME(r != 0 && (r < 0) == ((unsigned char)g0.base[g.D] < (unsigned char)g0.b[g.D]));
	return r;
}
#define strncmp(a, b, c) vf_strncmp((a), (b), (c))
#endif

#include "SRC/lexer.h"
#include "SRC/util.h"
#ifdef VF_PROOF
#define union struct
#endif
#include "SRC/token.c"
#ifdef VF_PROOF
#undef union
#endif

#ifdef VF_PROOF
#define R __CPROVER_return_value
#define MIN (g0.len < g0.blen ? g0.len : g0.blen)
#define UC(c) ((unsigned char)(c))
/* Order of the texts given their first difference. */
#define LESS (g.D < MIN ? UC(g0.base[g.D]) < UC(g0.b[g.D]) : g0.len < g0.blen)
#define GREATER (g.D < MIN ? UC(g0.base[g.D]) > UC(g0.b[g.D]) : g0.len > g0.blen)
/*
 * A window into a list of any length: the token (or head) in front of a position
 * and the token following it, if any.
 */
static struct token_list vf_tl;
static struct token vf_a, vf_b, vf_new;
static struct token *vf_end;
static int vf_hasa, vf_hasb;
#define NEXT(x) (x).list_entry.tqe_next
#define PREV(x) (x).list_entry.tqe_prev.ptr
#define SLOT (vf_hasa ? &NEXT(vf_a) : &vf_tl.tqh_first)
#define OLD(x) __CPROVER_old(x)
/* Linked in between. */
#define LINKED (*SLOT == &vf_new && PREV(vf_new) == SLOT && NEXT(vf_new) == (vf_hasb ? &vf_b : NULL) && \
    (vf_hasb ? PREV(vf_b) == &NEXT(vf_new) : vf_tl.tqh_last == &NEXT(vf_new)))
#define UNLINKED (*SLOT == (vf_hasb ? &vf_b : NULL) && \
    (vf_hasb ? PREV(vf_b) == SLOT : vf_tl.tqh_last == SLOT))
#define FRAME vf_hasa: NEXT(vf_a); !vf_hasa: vf_tl.tqh_first; vf_hasb: vf_b.list_entry.tqe_prev; !vf_hasb: vf_tl.tqh_last; vf_new.list_entry
VF_CONTRACT(
int token_memcmp(const struct token *tk, const char *str, size_t len)
__CPROVER_requires(g0.len <= MAXLEN && g0.blen <= MAXLEN && tk->tk_str == g0.base && tk->tk_len == g0.len && str == g0.b && len == g0.blen)
__CPROVER_assigns(g.D)
__CPROVER_ensures(g.D <= MIN)
__CPROVER_ensures((R < 0) == LESS && (R > 0) == GREATER)
;
int token_strcmp(const struct token *a, const struct token *b)
__CPROVER_requires(g0.len <= MAXLEN && g0.blen <= MAXLEN && a->tk_str == g0.base && a->tk_len == g0.len && b->tk_str == g0.b && b->tk_len == g0.blen)
__CPROVER_assigns(g.D)
__CPROVER_ensures(g.D <= MIN)
__CPROVER_ensures((R < 0) == LESS && (R > 0) == GREATER)
;
void token_rele(struct token *tk)
__CPROVER_requires(tk != NULL && tk->tk_refs > 0)
__CPROVER_assigns(tk->tk_refs)
__CPROVER_ensures(tk->tk_refs == __CPROVER_old(tk->tk_refs) - 1)
;
void token_list_append(struct token_list *tl, struct token *tk)
__CPROVER_requires(tl == &vf_tl && tk == &vf_new && UNLINKED && !vf_hasb)
__CPROVER_assigns(FRAME)
__CPROVER_ensures(LINKED)
;
void token_list_prepend(struct token_list *tl, struct token *tk)
__CPROVER_requires(tl == &vf_tl && tk == &vf_new && UNLINKED && !vf_hasa)
__CPROVER_assigns(FRAME)
__CPROVER_ensures(LINKED)
;
void token_list_append_after(struct token_list *tl, struct token *after, struct token *tk)
__CPROVER_requires(tl == &vf_tl && tk == &vf_new && after == &vf_a && UNLINKED && vf_hasa)
__CPROVER_assigns(FRAME)
__CPROVER_ensures(LINKED)
;
void token_list_remove(struct token_list *tl, struct token *tk)
__CPROVER_requires(tl == &vf_tl && tk == &vf_new && LINKED && vf_new.tk_refs > 0)
__CPROVER_assigns(FRAME; vf_new.tk_refs)
__CPROVER_ensures(UNLINKED && NEXT(vf_new) == NULL && PREV(vf_new) == NULL)
__CPROVER_ensures(vf_new.tk_refs == OLD(vf_new.tk_refs) - 1)
;
int token_has_verbatim_line(const struct token *tk, int nlines)
__CPROVER_requires(g0.len <= MAXLEN && tk->tk_str == g0.base && tk->tk_len == g0.len && (nlines == 1 || nlines == 2) && nlines == g0.nlines)
__CPROVER_requires(g0.K >= g0.len || g0.at == g0.base[g0.K])
__CPROVER_requires(g.n == 0 && g.stop == g0.len)
__CPROVER_assigns(g.first, g.stop, g.n)
__CPROVER_ensures((R != 0) == (g.n == g0.nlines) && g.n >= 0 && g.n <= g0.nlines && g.stop <= g0.len)
__CPROVER_ensures(g.n == 0 || (g.first >= g.stop && g.first < g0.len && g0.base[g.first] == 10))
/* Nothing but white space and the counted new lines at the end. */
__CPROVER_ensures(!KIN(g.stop, g0.len) || BLANK(g0.at) || (g.n > 0 && g0.K == g.first) || (g.n == 2 && g0.K == g.stop))
__CPROVER_ensures(g.n < 2 || (g.stop < g.first && g0.base[g.stop] == 10))
/* All of it is considered. */
__CPROVER_ensures(R != 0 || g.stop == 0 || !(BLANK(g0.base[g.stop - 1]) || g0.base[g.stop - 1] == 10))
;
)

static void
vf_texts(struct token *a, struct token *b)
{
	VF_ASSUME(g0.len <= MAXLEN && g0.blen <= MAXLEN);
	g0.base = malloc(g0.len);
	g0.b = malloc(g0.blen);
	VF_ASSUME(g0.base != NULL && g0.b != NULL);
	a->tk_str = g0.base;
	a->tk_len = g0.len;
	b->tk_str = g0.b;
	b->tk_len = g0.blen;
}
void
h_verbatim(void)
{
	struct token a, b; int n;

	vf_texts(&a, &b);
	if (token_has_verbatim_line(&a, n))
		VF_REACH("has lines");
	else
		VF_REACH("lacks lines");
}
void
h_memcmp(void)
{
	struct token a, b;

	vf_texts(&a, &b);
	if (token_memcmp(&a, b.tk_str, b.tk_len) == 0)
		VF_REACH("equal");
	else
		VF_REACH("different");
}
void
h_strcmp(void)
{
	struct token a, b;

	vf_texts(&a, &b);
	if (token_strcmp(&a, &b) == 0)
		VF_REACH("equal");
	else
		VF_REACH("different");
}
static void
vf_list(int a, int b, int linked)
{
	vf_hasa = a;
	vf_hasb = b;
	vf_tl.tqh_first = vf_end;
	vf_tl.tqh_last = &vf_end;
	NEXT(vf_b) = vf_end;
	if (linked) {
		*SLOT = &vf_new;
		PREV(vf_new) = SLOT;
		NEXT(vf_new) = b ? &vf_b : NULL;
		if (b)
			PREV(vf_b) = &NEXT(vf_new);
		else
			vf_tl.tqh_last = &NEXT(vf_new);
	} else {
		*SLOT = b ? &vf_b : NULL;
		if (b)
			PREV(vf_b) = SLOT;
		else
			vf_tl.tqh_last = SLOT;
	}
}
void
h_append(void)
{
	vf_list(nd_bool(), 0, 0);
	token_list_append(&vf_tl, &vf_new);
	VF_REACH("appended");
}
void
h_prepend(void)
{
	vf_list(0, nd_bool(), 0);
	token_list_prepend(&vf_tl, &vf_new);
	VF_REACH("prepended");
}
void
h_after(void)
{
	vf_list(1, nd_bool(), 0);
	token_list_append_after(&vf_tl, &vf_a, &vf_new);
	VF_REACH("appended");
}
void
h_remove(void)
{
	vf_list(nd_bool(), nd_bool(), 1);
	token_list_remove(&vf_tl, &vf_new);
	VF_REACH("removed");
}
#endif

#ifdef VF_NATIVE
#define VF_SRC
#include "e2e.h"
#define N 8
static struct token *vf_v[2][64];
static size_t vf_n[2];
static struct token_list vf_l[2];
static void
vf_same(int l)
{
	struct token *tk;
	size_t i = 0;

	LIST_FOREACH(tk, &vf_l[l]) {
		VF_ASSERT(i < vf_n[l] && vf_v[l][i] == tk, "tokens of the list in order");
		i++;
	}
	VF_ASSERT(i == vf_n[l] && LIST_EMPTY(&vf_l[l]) == (i == 0) && token_list_first(&vf_l[l]) == (i > 0 ? vf_v[l][0] : NULL), "all tokens are listed");
	if (i > 0) {
		VF_ASSERT(token_list_last(&vf_l[l]) == vf_v[l][i - 1], "last token");
		LIST_FOREACH_REVERSE(tk, &vf_l[l]) {
			VF_ASSERT(i > 0 && vf_v[l][--i] == tk, "tokens of the list in reverse");
		}
		VF_ASSERT(i == 0, "all tokens in reverse");
	}
}
static void
vf_ins(int l, size_t at, struct token *tk)
{
	memmove(&vf_v[l][at + 1], &vf_v[l][at], (vf_n[l] - at) * sizeof(tk));
	vf_v[l][at] = tk;
	vf_n[l]++;
}
static struct token *
vf_del(int l, size_t at)
{
	struct token *tk = vf_v[l][at];

	vf_n[l]--;
	memmove(&vf_v[l][at], &vf_v[l][at + 1], (vf_n[l] - at) * sizeof(tk));
	return tk;
}
void
b_list(void)
{
	static struct token src, dst;
	size_t i, j, n = nd_upto(20);
	int l;

	e2e_init();
	arena_scope(e2e.eternal, s);
	LIST_INIT(&vf_l[0]);
	LIST_INIT(&vf_l[1]);
	vf_n[0] = vf_n[1] = 0;
	for (i = 0; i < n; i++) {
		struct token *tk;

		l = nd_bool();
		switch (nd_upto(5)) {
		case 0:
		case 1:
		case 2:
			tk = token_alloc(&s, 0, &(struct token){ .tk_type = nd_bool() ? TOKEN_SPACE : TOKEN_COMMENT, .tk_flags = nd_bool() });
			VF_ASSERT(tk->tk_refs == 1 && token_is_dangling(tk), "fresh token");
			j = nd_upto(2);
			if (j == 0) {
				token_list_prepend(&vf_l[l], tk);
				vf_ins(l, 0, tk);
			} else if (j == 1 || vf_n[l] == 0) {
				token_list_append(&vf_l[l], tk);
				vf_ins(l, vf_n[l], tk);
			} else {
				j = nd_upto(vf_n[l] - 1);
				token_list_append_after(&vf_l[l], vf_v[l][j], tk);
				vf_ins(l, j + 1, tk);
			}
			break;
		case 3:
			if (vf_n[l] == 0)
				break;
			j = nd_upto(vf_n[l] - 1);
			tk = vf_v[l][j];
			token_ref(tk);
			token_list_remove(&vf_l[l], tk);
			vf_del(l, j);
			VF_ASSERT(tk->tk_refs == 1 && token_is_dangling(tk), "removed token");
			token_rele(tk);
			break;
		case 4: {
			int t = nd_bool(), all = nd_bool();

			src.tk_suffixes = vf_l[l];
			dst.tk_suffixes = vf_l[!l];
			if (vf_n[l] == 0)
				LIST_INIT(&src.tk_suffixes);
			else
				vf_v[l][0]->list_entry.tqe_prev.ptr = &src.tk_suffixes.tqh_first;
			if (vf_n[!l] == 0)
				LIST_INIT(&dst.tk_suffixes);
			else
				vf_v[!l][0]->list_entry.tqe_prev.ptr = &dst.tk_suffixes.tqh_first;
			if (all)
				token_move_suffixes(&src, &dst);
			else
				token_move_suffixes_if(&src, &dst, t ? TOKEN_SPACE : TOKEN_COMMENT);
			for (j = 0; j < vf_n[l];) {
				if (all || vf_v[l][j]->tk_type == (t ? TOKEN_SPACE : TOKEN_COMMENT)) {
					tk = vf_del(l, j);
					vf_ins(!l, vf_n[!l], tk);
				} else {
					j++;
				}
			}
			vf_l[l] = src.tk_suffixes;
			vf_l[!l] = dst.tk_suffixes;
			for (j = 0; j < 2; j++) {
				if (vf_n[j] == 0)
					LIST_INIT(&vf_l[j]);
				else
					vf_v[j][0]->list_entry.tqe_prev.ptr = &vf_l[j].tqh_first;
			}
			break;
		}
		case 5: {
			int t = nd_bool() ? TOKEN_SPACE : TOKEN_COMMENT;
			unsigned int flags = nd_bool();

			tk = token_list_find(&vf_l[l], t, flags);
			for (j = 0; j < vf_n[l]; j++) {
				if (vf_v[l][j]->tk_type == t && (flags == 0 || (vf_v[l][j]->tk_flags & flags)))
					break;
			}
			VF_ASSERT(tk == (j < vf_n[l] ? vf_v[l][j] : NULL), "first token of the type");
			break;
		}
		}
		vf_same(0);
		vf_same(1);
	}
}
void
b_memcmp(void)
{
	struct token a = {0}, b = {0};
	size_t i, n = nd_upto(6), m = nd_upto(6);
	char *x = malloc(n), *y = malloc(m);
	int r, e;

	for (i = 0; i < n; i++)
		x[i] = (char)(nd_upto(9) == 0 ? 200 : 'a' + nd_bool());
	for (i = 0; i < m; i++)
		y[i] = (char)(nd_upto(9) == 0 ? 200 : 'a' + nd_bool());
	a.tk_str = x;
	a.tk_len = n;
	b.tk_str = y;
	b.tk_len = m;
	r = token_strcmp(&a, &b);
	e = memcmp(x, y, n < m ? n : m);
	if (e == 0)
		e = n < m ? -1 : n > m;
	VF_ASSERT((r < 0) == (e < 0) && (r > 0) == (e > 0), "order of texts");
	free(x);
	free(y);
}
void
b_verbatim(void)
{
	struct token a = {0};
	size_t i, n = nd_upto(8);
	char *x = malloc(n);
	int e = 0, want = 1 + nd_bool();

	for (i = 0; i < n; i++)
		x[i] = "a \t\r\n\n"[nd_upto(5)];
	a.tk_str = x;
	a.tk_len = n;
	for (; i > 0 && x[i - 1] != 'a'; i--)
		e += x[i - 1] == '\n';
	VF_ASSERT(token_has_verbatim_line(&a, want) == (e >= want), "trailing lines");
	free(x);
}
#endif
