/*@ {
 'inst': ['style.c'],
 'link': 'ALL',
 'loops': {'style.c': {
   'style_include_priority': ['''__CPROVER_assigns(i, g.hit)
     __CPROVER_loop_invariant(i <= n && n == g0.n && g.hit == g0.n)
     __CPROVER_loop_invariant(g0.K >= i || !(g0.compiled && g0.match))
     __CPROVER_decreases(n - i)'''],
 }},
 'assumes': [
   'category: regexec of the C library decides whether a pattern matches; fewer than 2^20 categories',
 ],
 'proofs': [
  {'name': 'priority', 'fn': 'style_include_priority', 'bounded': 'b_category', 'nobmc': True},
 ],
} @*/
/*
 * Include categories: the first one matching decides.
 */
#include "vf.h"

#include <limits.h>
#include <regex.h>
#include "libks/vector.h"
#include "SRC/style.h"

#ifdef VF_PROOF
struct ghost0 {
	size_t n, K;		/* number of categories, any category */
	int match, compiled;	/* ... matches the path */
	const char *path;
};
static struct ghost0 g0;
struct ghost {
	size_t hit;		/* category found */

};
static struct ghost g;
static int vf_regexec(const regex_t *, const char *);
#define regexec(a, b, c, d, e) vf_regexec((a), (b))
#undef VECTOR_LENGTH
#define VECTOR_LENGTH(x) (g0.n)
#endif

#include "SRC/style.c"

#ifdef VF_PROOF
#define R __CPROVER_return_value
static struct style vf_st;
static int
vf_regexec(const regex_t *re, const char *path)
{
	size_t off = (size_t)((const char *)re - (const char *)vf_st.include_categories), i = off / sizeof(struct include_category);
	int match = nd_bool();

	VF_ASSERT(path == g0.path, "path is matched");
	VF_ASSERT(i < g0.n && vf_st.include_categories[i].compiled, "valid patterns only");
	if (i == g0.K)
		match = g0.match;
	if (match)
		g.hit = i;
	return match ? 0 : REG_NOMATCH;
}
VF_CONTRACT(
struct include_priority style_include_priority(const struct style *st, const char *include_path)
__CPROVER_requires(st == &vf_st && include_path == g0.path && g.hit == g0.n)
__CPROVER_assigns(g.hit)
__CPROVER_ensures(g.hit <= g0.n)
__CPROVER_ensures(g.hit < g0.n || (R.group == INT_MAX && R.sort == INT_MAX))
__CPROVER_ensures(g.hit >= g0.n || (R.group == vf_st.include_categories[g.hit].priority.group && R.sort == vf_st.include_categories[g.hit].priority.sort))
/* No earlier category matches. */
__CPROVER_ensures(g0.K >= g.hit || !(g0.match && g0.compiled))
;
)
void
h_priority(void)
{
	VF_ASSUME(g0.n <= ((size_t)1 << 20));
	vf_st.include_categories = malloc(g0.n * sizeof(struct include_category));
	VF_ASSUME(vf_st.include_categories != NULL);
	VF_ASSUME(g0.K >= g0.n || (g0.compiled != 0) == (vf_st.include_categories[g0.K].compiled != 0));
	g.hit = g0.n;

	style_include_priority(&vf_st, g0.path);
	VF_REACH("decided");
	if (g.hit < g0.n)
		VF_REACH("matched");
}
#endif

#ifdef VF_NATIVE
#define VF_SRC
#include "e2e.h"
void
b_category(void)
{
	static const char *re[] = { "a", "b", "^<", "^\"", "." };
	static const char *paths[] = { "<a.h>", "\"b.h\"", "<c.h>", "\"ab.h\"" };
	char config[1024];
	size_t i, n = nd_upto(5), l, p = nd_upto(3);
	struct include_priority r, e = { .group = INT_MAX, .sort = INT_MAX };

	e2e_init();
	arena_scope(e2e.eternal, s);
	l = (size_t)sprintf(config, "IncludeCategories:\n");
	for (i = 0; i < n; i++) {
		size_t k = nd_upto(4);
		int prio = (int)nd_upto(5), m = 0;

		l += (size_t)sprintf(&config[l], "  - Regex: '%s'\n    Priority: %d\n", re[k], prio);
		switch (k) {
		case 0: m = strchr(paths[p], 'a') != NULL; break;
		case 1: m = strchr(paths[p], 'b') != NULL; break;
		case 2: m = paths[p][0] == '<'; break;
		case 3: m = paths[p][0] == '"'; break;
		case 4: m = 1; break;
		}
		if (m && e.group == INT_MAX)
			e.group = e.sort = prio;
	}
	struct buffer *bf = arena_buffer_alloc(&s, 128);
	buffer_puts(bf, config, l);
	struct style *st = style_parse_buffer(bf, ".clang-format", &s, e2e.scratch, &e2e.op);
	VF_ASSERT(st != NULL, "style");
	r = style_include_priority(st, paths[p]);
	VF_ASSERT(r.group == e.group && r.sort == e.sort, "first category matching decides");
}
#endif
