/*@ {
 'inst': ['diff.c'],
 'link': ['libks/vector.c', 'libks/arena.c', 'libks/arena-buffer.c', 'libks/buffer.c'],
 'loops': {'diff.c': {
   'diff_parse': ['''__CPROVER_assigns(line, fe, it, ASG, vf_line[0])
       __CPROVER_loop_invariant(fe == NULL || fe == &vf_file)
       __CPROVER_loop_invariant(IDLE && !OPEN && vf_covered(&g, &vf_last[0]) == g.ref && WF)
       __CPROVER_loop_invariant((fe != NULL) == (g.nfiles > 0) && vf_file.fe_diff == vf_last)''',
     '''__CPROVER_assigns(line, it, sl, ASG, vf_line[0])
       __CPROVER_loop_invariant(sl == g.rsl && el == g.rel && sl > 0 && WF && g.nfiles == __CPROVER_loop_entry(g.nfiles))
       __CPROVER_loop_invariant(sl <= el || sl == el + 1u || (sl == __CPROVER_loop_entry(sl) && !OPEN))
       __CPROVER_loop_invariant(!OPEN || vf_last[0].du_beg < sl)
       __CPROVER_loop_invariant(g.ref == (COVERED || (OPEN && vf_last[0].du_beg <= g.K && g.K < sl)))
       __CPROVER_loop_invariant(vf_file.fe_diff == vf_last)''', '', ''],
   'diff_get_chunk': ['''__CPROVER_assigns(i)
       __CPROVER_loop_invariant(i <= g.len && chunks == &vf_vec->e[0])
       __CPROVER_loop_invariant(g.k >= i || !(g.K >= g.kbeg && g.K <= g.kend))
       __CPROVER_decreases(g.len - i)'''],
   'matchpath': ['''__CPROVER_assigns(ntrim, buf, len, g.off, g.ntrim, g.exhausted)
       __CPROVER_loop_invariant(ntrim >= 0 && ntrim <= git_ndirs)
       __CPROVER_loop_invariant(g.off <= g.len && buf == g.base + g.off && len == g.len - g.off)
       __CPROVER_loop_invariant(g.exhausted || g.ntrim == __CPROVER_loop_entry(g.ntrim) + (unsigned)(git_ndirs - ntrim))
       __CPROVER_loop_invariant(g.ntrim <= __CPROVER_loop_entry(g.ntrim) + (unsigned)(git_ndirs - ntrim))
       __CPROVER_decreases(ntrim)'''],
 }},
 'assumes': [
   'arena_buffer_getline yields the lines of the diff (C03); vectors behave as specified (C05), seen here through their last element',
   'regexec reports offsets within the string; strtoul as specified by C; the meaning of the two regular expressions is only covered by the native stand-in diff:parse',
   'no hunk reaches beyond line 2^32 - 2; tracing is disabled',
   'strings shorter than 2^29 bytes',
 ],
 'proofs': [
  {'name': 'diff_parse', 'fn': 'diff_parse', 'replace': ['matchline', 'matchpath', 'matchchunk'], 'bounded': 'b_parse', 'nobmc': True},
  {'name': 'matchline', 'fn': 'matchline', 'n': 3, 'unwind': 3, 'link': []},
  {'name': 'matchchunk', 'fn': 'matchchunk', 'replace': ['strtou'], 'bounded': 'b_parse', 'nobmc': True},
  {'name': 'strtou', 'fn': 'strtou', 'bounded': 'b_parse', 'nobmc': True},
  {'name': 'matchpath', 'fn': 'matchpath', 'bounded': 'b_path', 'nobmc': True},
  {'name': 'trimprefix', 'fn': 'trimprefix', 'n': 5, 'unwind': 8, 'link': []},
  {'name': 'get_chunk', 'fn': 'diff_get_chunk', 'n': 4, 'unwind': 6, 'link': []},
  {'name': 'parse', 'fn': 'diff_init', 'mode': 'native', 'bounded': 'b_parse', 'reason': 'regular expressions'},
  {'name': 'path', 'fn': 'diff_init', 'mode': 'native', 'bounded': 'b_path', 'reason': 'regular expressions'},
 ],
} @*/
#ifdef VF_NATIVE
#define VF_REAL_ERRNO
#endif
#include "vf.h"

#include <sys/stat.h>
#include <sys/types.h>
#include <err.h>
#include <errno.h>
#include <limits.h>
#include <regex.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define MAXLEN ((size_t)1 << 29)

#include "SRC/diff.h"
#include "SRC/file.h"
#include "SRC/fs.h"
#include "SRC/options.h"
#include "SRC/trace-types.h"
#include "SRC/trace.h"
#include "libks/arena.h"
#include "libks/vector.h"

/*
 * The chunks of the file being parsed, as seen by an arbitrary line K: whether
 * it is covered by any chunk but the last one, and the last one itself.
 */
struct ghost {
	unsigned int K;
	int cov;		/* covered by an earlier chunk */
	int some;		/* there is a last chunk */
	int ref;		/* line K was added, according to the reference */
	unsigned int rsl, rel;	/* reference: next line and last line of hunk */
	size_t nfiles;

	/* diff_get_chunk */
	size_t len, k;
	unsigned int kbeg, kend;

	/* matchpath, trimprefix */
	const char *base;
	size_t off;
	unsigned int ntrim;
	int exhausted;
	int enoent, bprefix, statted;
	const char *dup;
	size_t duplen, slash;
	long so[4], eo[4];
	int matched;
	unsigned int n1, n3;
	unsigned long num;
	int numerr;
	const char *str;
};
struct ghost g;
struct diffchunk vf_last[1];
struct file vf_file;
char vf_line[2];

#define ASG g.cov, g.some, g.ref, g.rsl, g.rel, g.nfiles, vf_last[0], vf_file, vf_errno
#define O __CPROVER_old
#define OLDOPEN (O(g.some) && O(vf_last[0].du_end) == 0)
#define OLDCOVERED (O(g.cov) || (O(g.some) && O(vf_last[0].du_end) != 0 && \
    O(vf_last[0].du_beg) <= g.K && g.K <= O(vf_last[0].du_end)))
#define COVERED (g.cov || (g.some && vf_last[0].du_end != 0 && \
    vf_last[0].du_beg <= g.K && g.K <= vf_last[0].du_end))
#define OPEN (g.some && vf_last[0].du_end == 0)
#define IDLE (g.rsl > g.rel)
#define WF ((g.cov == 0 || g.cov == 1) && (g.ref == 0 || g.ref == 1) && \
    (!g.some || vf_last[0].du_beg > 0) && g.K > 0)
#define vf_covered(gp, l) COVERED

struct vf_vec {
	struct vector_public p;
	struct diffchunk e[1];
};
struct vf_vec *vf_vec;

#ifndef VF_NATIVE
#include "libks/arena-buffer.h"
#include "libks/buffer.h"

static void
vf_erri(int rc)
{
	VF_ASSERT(rc != 0, "fatal errors exit nonzero");
	VF_ASSUME(0);
}
#define err(...) vf_erri(VF_FIRST1(__VA_ARGS__, 0))
#define errx(...) vf_erri(VF_FIRST1(__VA_ARGS__, 0))

size_t
vector_last(void *v)
{
	VF_ASSERT(v == (void *)vf_last, "chunks of the current file");
	return g.some ? 0 : ULONG_MAX;
}

size_t
vector_alloc(void **vv, int zero)
{
	VF_ASSERT(*vv == (void *)vf_last, "chunks of the current file");
	if (nd_bool())
		return ULONG_MAX;
	VF_ASSERT(!OPEN, "previous chunk was ended");
	g.cov = COVERED;
	g.some = 1;
	if (zero) {
		vf_last[0].du_beg = 0;
		vf_last[0].du_end = 0;
	} else {
		vf_last[0].du_beg = (unsigned int)nd();
		vf_last[0].du_end = (unsigned int)nd();
	}
	return 0;
}
#endif

#ifdef VF_PROOF
struct file *
files_alloc(struct files *files, const char *path, struct arena_scope *s)
{
	(void)files; (void)path; (void)s;
	VF_ASSERT(!OPEN && COVERED == g.ref, "chunks of the previous file are the added lines");
	g.cov = 0;
	g.some = 0;
	g.ref = 0;
	g.nfiles = 1;
	vf_file.fe_diff = vf_last;
	return &vf_file;
}

static const char *
vf_getline(struct arena_scope *s, const struct buffer *bf, struct buffer_getline *it)
{
	char c = nd_char();

	(void)s; (void)bf; (void)it;
	if (nd_bool())
		return NULL;
	vf_line[0] = c;
	if (g.rsl <= g.rel) {
		/* Reference: a line of the hunk. */
		if (c != '-' && c != '\\') {
			VF_ASSUME(g.rsl < UINT_MAX);
			if (c == '+' && g.rsl == g.K)
				g.ref = 1;
			g.rsl++;
		}
	}
	return vf_line;
}
#define arena_buffer_getline vf_getline

struct buffer;
static struct buffer *
vf_read(struct arena_scope *s, const char *path)
{
	(void)s;
	VF_ASSERT(path[0] == '/' && path[5] == 's' && path[9] == 'n' && path[10] == '\0', "diff is read from stdin");
	return nd_bool() ? NULL : (struct buffer *)vf_line;
}
#define arena_buffer_read vf_read
#define options_trace_level(...) 0
#define trace(...) ((void)0)

#undef arena_scope
static struct arena_scope vf_scope;
#define arena_scope(a, n) struct arena_scope n = vf_scope

static int
vf_regexec(const regex_t *re, const char *str, size_t n, regmatch_t *rm, int flags)
{
	(void)re; (void)flags;
	VF_ASSERT(str == g.str, "whole line");
	if (!g.matched)
		return 1;
	VF_ASSERT(n == 2 || n == 4, "subexpressions");
	rm[1].rm_so = (regoff_t)g.so[1];
	rm[1].rm_eo = (regoff_t)g.eo[1];
	if (n == 4) {
		rm[3].rm_so = (regoff_t)g.so[3];
		rm[3].rm_eo = (regoff_t)g.eo[3];
	}
	return 0;
}
#define regexec vf_regexec

static char *
vf_strndup(struct arena_scope *s, const char *str, size_t n)
{
	(void)s;
	VF_ASSERT(str == g.base + g.off && n == g.len - g.off, "what is left of the path");
	g.dup = str;
	g.duplen = n;
	return (char *)g.base;	/* only its first byte is looked at */
}
#define arena_strndup vf_strndup
static int
vf_stat(const char *path, struct stat *sb)
{
	(void)path; (void)sb;
	VF_ASSERT(g.ntrim == (unsigned)g.bprefix, "path of the diff is tried first");
	g.statted = 1;
	if (g.enoent) {
		vf_errno = ENOENT;
		return -1;
	}
	if (nd_bool()) {
		vf_errno = EACCES;
		return -1;
	}
	return 0;
}
#define stat(p, b) vf_stat(p, b)
static int
vf_strncmp(const char *a, const char *b, size_t n)
{
	VF_ASSERT(a == g.base && n == 2 && b[0] == 'b' && b[1] == '/', "git prefix");
	return !g.bprefix;
}
#define strncmp vf_strncmp
/* The first slash of what is left of the path. */
static void *
vf_memchr(const void *p, int c, size_t n)
{
	size_t i = nd_size();

	VF_ASSERT(p == g.base + g.off && n == g.len - g.off && c == '/', "first slash");
	if (g.exhausted)
		return NULL;
	VF_ASSUME(!g.bprefix || g.off > 0 || i == 1);
	if (i >= n) {
		g.exhausted = 1;
		return NULL;
	}
	g.off += i + 1;
	g.ntrim++;
	return (char *)p + i;
}
#define memchr vf_memchr
static unsigned long
vf_strtoul(const char *s, char **end, int base)
{
	(void)end;
	VF_ASSERT(s == g.str && base == 10, "decimal number");
	if (g.numerr)
		vf_errno = ERANGE;
	return g.num;
}
#define strtoul vf_strtoul
#elif defined(VF_NATIVE)
#include "libks/arena-buffer.h"
#include "libks/buffer.h"
static struct buffer *vf_input;
#define arena_buffer_read(s, p) vf_input
#define options_trace_level(...) 0
#define trace(...) ((void)0)
static int vf_enoent;
static int
vf_stat(const char *p, struct stat *sb)
{
	(void)p; (void)sb;
	if (vf_enoent) {
		errno = ENOENT;
		return -1;
	}
	return 0;
}
#define stat(p, b) vf_stat(p, b)
#else
#define options_trace_level(...) 0
#define trace(...) ((void)0)
#endif

#include "SRC/diff.c"

#ifdef VF_PROOF
#define R __CPROVER_return_value

static int matchline(const char *str, unsigned int lno, struct file *fe)
#ifdef P_matchline
__CPROVER_requires(__CPROVER_is_fresh(str, 1))
#endif
__CPROVER_requires(__CPROVER_r_ok(str, 1) && PEQ(fe, &vf_file) && PEQ(vf_file.fe_diff, (struct diffchunk *)vf_last))
__CPROVER_requires(lno > 0 && WF && (!OPEN || vf_last[0].du_beg < lno))
__CPROVER_assigns(g.cov, g.some, vf_last[0])
__CPROVER_ensures(WF && (g.cov == 1 || !OLDCOVERED || g.some))
/* Removed lines and "\ No newline" neither count nor change anything. */
__CPROVER_ensures((R != 0) == (str[0] != '-' && str[0] != '\\'))
__CPROVER_ensures(R || (OPEN == OLDOPEN && COVERED == OLDCOVERED &&
    vf_last[0].du_beg == __CPROVER_old(vf_last[0].du_beg)))
/* Otherwise the lines up to and including lno are covered if added. */
__CPROVER_ensures(!R || OPEN == (str[0] == '+'))
__CPROVER_ensures(!OPEN || vf_last[0].du_beg <= lno)
__CPROVER_ensures(!R || !OPEN || (OLDOPEN ? vf_last[0].du_beg == __CPROVER_old(vf_last[0].du_beg) : vf_last[0].du_beg == lno))
__CPROVER_ensures(!R || (COVERED || (OPEN && vf_last[0].du_beg <= g.K && g.K <= lno)) ==
    ((OLDCOVERED || (OLDOPEN && O(vf_last[0].du_beg) <= g.K && g.K < lno)) || (str[0] == '+' && g.K == lno)))
;

static int matchpath(const char *str, const char **out, struct arena_scope *s)
#ifdef P_matchpath
__CPROVER_requires(g.len > 0 && g.len <= MAXLEN && g.so[1] >= 0 && g.so[1] < (long)MAXLEN && g.eo[1] == g.so[1] + (long)g.len)
__CPROVER_requires(__CPROVER_is_fresh(str, (size_t)g.eo[1] + 1) && PEQ((char *)g.str, (char *)str) &&
    PEQ((char *)g.base, (char *)str + g.so[1]))
__CPROVER_requires(__CPROVER_is_fresh(out, sizeof(*out)))
__CPROVER_requires(git_ndirs >= 0 && g.off == 0 && g.ntrim == 0 && !g.statted && !g.exhausted)
__CPROVER_requires((g.bprefix == 0 || g.bprefix == 1) && (g.enoent == 0 || g.enoent == 1))
__CPROVER_requires(!g.bprefix || g.len >= 2)
__CPROVER_assigns(*out, g.off, g.ntrim, g.exhausted, g.dup, g.duplen, g.statted, vf_errno)
__CPROVER_ensures((R != 0) == (g.matched != 0))
__CPROVER_ensures(!R || (g.dup == g.base + g.off && g.duplen == g.len - g.off && *out == g.base))
__CPROVER_ensures(!R || g.statted == (git_ndirs > 0 && g.base[0] != '/'))
/* As many leading components as there are directories in between are removed, if the path does not exist. */
__CPROVER_ensures(!R || g.exhausted || g.ntrim == (unsigned)g.bprefix + (g.statted && g.enoent ? (unsigned)git_ndirs : 0u))
__CPROVER_ensures(!R || g.ntrim <= (unsigned)g.bprefix + (g.statted && g.enoent ? (unsigned)git_ndirs : 0u))
#else
__CPROVER_requires(__CPROVER_w_ok(out, sizeof(*out)))
__CPROVER_requires(IDLE)
__CPROVER_assigns(*out)
#endif
;

static const char *trimprefix(const char *str, size_t *len)
__CPROVER_requires(g.len <= MAXLEN && __CPROVER_is_fresh(str, g.len) && __CPROVER_is_fresh(len, sizeof(*len)) && *len == g.len)
__CPROVER_requires(PEQ((char *)g.base, (char *)str) && g.off == 0 && !g.exhausted && g.ntrim == 0)
__CPROVER_assigns(*len, g.off, g.ntrim, g.exhausted)
__CPROVER_ensures(R == g.base + g.off && *len == g.len - g.off && (g.exhausted ? g.off == 0 : g.ntrim == 1))
;

/* A positive number, or zero if it is none or out of range. */
static unsigned int strtou(const char *str)
#ifdef P_strtou
__CPROVER_requires(__CPROVER_is_fresh(str, 1) && PEQ((char *)g.str, (char *)str))
__CPROVER_assigns(vf_errno)
__CPROVER_ensures(R == (g.numerr || g.num > UINT_MAX ? 0 : g.num))
#else
__CPROVER_requires(str == g.str + g.so[1] || str == g.str + g.so[3])
__CPROVER_assigns(vf_errno)
__CPROVER_ensures(str != g.str + g.so[1] || R == g.n1)
__CPROVER_ensures(str != g.str + g.so[3] || R == g.n3)
#endif
;

static int matchchunk(const char *str, unsigned int *sl, unsigned int *el)
#ifdef P_matchchunk
__CPROVER_requires(g.len > 0 && g.len <= MAXLEN && __CPROVER_is_fresh(str, g.len) && PEQ((char *)g.str, (char *)str))
__CPROVER_requires(__CPROVER_is_fresh(sl, sizeof(*sl)) && __CPROVER_is_fresh(el, sizeof(*el)))
__CPROVER_requires(g.so[1] >= 0 && g.so[1] < g.eo[1] && g.eo[1] < (long)g.len)
__CPROVER_requires((g.so[3] == -1 && g.eo[3] == -1) || (g.eo[1] < g.so[3] && g.so[3] < g.eo[3] && g.eo[3] < (long)g.len))
__CPROVER_assigns(*sl, *el, vf_errno)
/* +START or +START,COUNT; lines numbered zero or a count of zero mean no lines. */
__CPROVER_ensures((R != 0) == (g.matched && g.n1 > 0 && (g.so[3] == -1 || g.n3 > 0)))
__CPROVER_ensures(!R || (*sl == g.n1 && *el == (g.so[3] == -1 ? g.n1 : g.n1 + g.n3 - 1)))
#else
__CPROVER_requires(__CPROVER_w_ok(sl, sizeof(*sl)) && __CPROVER_w_ok(el, sizeof(*el)))
__CPROVER_requires(IDLE)
__CPROVER_assigns(*sl, *el, g.rsl, g.rel)
__CPROVER_ensures(!R || (*sl > 0 && g.rsl == *sl && g.rel == *el))
__CPROVER_ensures(R || (g.rsl == __CPROVER_old(g.rsl) && g.rel == __CPROVER_old(g.rel)))
#endif
;

int diff_parse(struct files *files, struct arena_scope *eternal_scope, struct arena *scratch, const struct options *op)
__CPROVER_requires(WF && !g.some && !g.cov && !g.ref && g.nfiles == 0 && IDLE)
__CPROVER_requires(PEQ(vf_file.fe_diff, (struct diffchunk *)vf_last))
__CPROVER_assigns(ASG, vf_line[0])
/* Of the last file; the ones before are checked when the next one begins. */
__CPROVER_ensures(R != 0 || (!OPEN && COVERED == g.ref))
;

const struct diffchunk *diff_get_chunk(const struct diffchunk *chunks, unsigned int lno)
__CPROVER_requires(g.len <= MAXLEN && __CPROVER_is_fresh(vf_vec, sizeof(size_t) + (g.len + 1) * sizeof(struct diffchunk)))
__CPROVER_requires(vf_vec->p.len == g.len && PEQ(chunks, &vf_vec->e[0]) && g.K == lno)
__CPROVER_requires(g.k >= g.len || (chunks[g.k].du_beg == g.kbeg && chunks[g.k].du_end == g.kend))
__CPROVER_assigns()
__CPROVER_ensures(R == NULL || (R->du_beg <= lno && lno <= R->du_end))
__CPROVER_ensures(R == NULL || (__CPROVER_same_object(R, chunks) && (size_t)(R - chunks) < g.len))
__CPROVER_ensures(R != NULL || g.k >= g.len || !(g.kbeg <= lno && lno <= g.kend))
;

void
h_matchline(void)
{
	const char *s; unsigned int l; struct file *fe;

	if (matchline(s, l, fe))
		VF_REACH("counts");
	else
		VF_REACH("removed");
}
void
h_matchpath(void)
{
	const char *s; const char **o; struct arena_scope *a;

	git_ndirs = nd_int();
	if (matchpath(s, o, a))
		VF_REACH("path");
	else
		VF_REACH("other");
}
void
h_trimprefix(void)
{
	const char *s; size_t *l;

	trimprefix(s, l);
	VF_REACH("end");
}
void
h_strtou(void)
{
	const char *s;

	if (strtou(s))
		VF_REACH("number");
	else
		VF_REACH("none");
}
void
h_matchchunk(void)
{
	const char *s; unsigned int *a, *b;

	if (matchchunk(s, a, b))
		VF_REACH("chunk");
	else
		VF_REACH("none");
}
void
h_diff_parse(void)
{
	struct files *f; struct arena_scope *e; struct arena *a; const struct options *o;

	if (diff_parse(f, e, a, o))
		VF_REACH("error");
	else
		VF_REACH("parsed");
}
void
h_get_chunk(void)
{
	const struct diffchunk *c; unsigned int l;

	if (diff_get_chunk(c, l) == NULL)
		VF_REACH("none");
	else
		VF_REACH("found");
}
#else
#ifndef VF_NATIVE
struct file *files_alloc(struct files *f, const char *p, struct arena_scope *s) { (void)f; (void)p; (void)s; return NULL; }
#endif
#ifdef P_matchline
#ifdef VF_NATIVE
size_t vector_last(void *v) { (void)v; return g.some ? 0 : ULONG_MAX; }
size_t
vector_alloc(void **vv, int zero)
{
	(void)vv;
	g.cov = COVERED;
	g.some = 1;
	if (zero)
		memset(vf_last, 0, sizeof(vf_last));
	else
		memset(vf_last, 0xaa, sizeof(vf_last));
	return 0;
}
#endif
void
b_matchline(void)
{
	size_t i, n = nd_upto(VF_N);
	unsigned int lno = 1 + (unsigned int)nd_upto(3);
	int ref = 0;

	memset(&g, 0, sizeof(g));
	memset(vf_last, 0, sizeof(vf_last));
	g.K = 1 + (unsigned int)nd_upto(VF_N + 3);
	vf_file.fe_diff = vf_last;
	for (i = 0; i < n; i++) {
		char str[2] = { nd_alpha("+- \\"), 0 };
		int r = matchline(str, lno, &vf_file);

		VF_ASSERT((r != 0) == (str[0] != '-' && str[0] != '\\'), "counted lines");
		if (r) {
			if (str[0] == '+' && lno == g.K)
				ref = 1;
			lno++;
		}
		VF_ASSERT(ref == (COVERED || (OPEN && vf_last[0].du_beg <= g.K && g.K < lno)), "added lines are covered");
	}
}
#endif
#ifdef P_trimprefix
void
b_trimprefix(void)
{
	char str[VF_N + 1];
	size_t i, len, n = nd_upto(VF_N), first;
	const char *r;

	for (i = 0; i < n; i++)
		str[i] = nd_alpha("ab/");
	for (first = 0; first < n && str[first] != '/'; first++)
		continue;
	len = n;
	r = trimprefix(str, &len);
	VF_ASSERT(r == (first < n ? &str[first + 1] : str), "first component removed");
	VF_ASSERT(len == (first < n ? n - first - 1 : n), "length of the rest");
}
#endif
#ifdef P_get_chunk
void
b_get_chunk(void)
{
	struct { struct vector_public p; struct diffchunk e[VF_N]; } v;
	const struct diffchunk *r;
	unsigned int lno = (unsigned int)nd_upto(20);
	size_t i, n = nd_upto(VF_N);
	int in = 0;

	v.p.len = n;
	for (i = 0; i < n; i++) {
		v.e[i].du_beg = 1 + (unsigned int)nd_upto(20);
		v.e[i].du_end = 1 + (unsigned int)nd_upto(20);
		if (v.e[i].du_beg <= lno && lno <= v.e[i].du_end)
			in = 1;
	}
	r = diff_get_chunk(v.e, lno);
	VF_ASSERT((r != NULL) == in, "chunk found");
	VF_ASSERT(r == NULL || (r->du_beg <= lno && lno <= r->du_end), "chunk holds the line");
}
#endif
#if defined(VF_NATIVE) && !defined(P_matchline) && !defined(P_trimprefix) && !defined(P_get_chunk)
#include <stdio.h>
int searchpath(const char *f, int *n) { (void)f; (void)n; return -1; }
struct file *
files_alloc(struct files *files, const char *path, struct arena_scope *eternal_scope)
{
	struct file *fe = VECTOR_CALLOC(files->fs_vc);

	fe->fe_path = arena_strdup(eternal_scope, path);
	if (VECTOR_INIT(fe->fe_diff))
		abort();
	fe->fe_fd = -1;
	return fe;
}
#define MAXF 4
#define MAXL 400
static int vf_inited;
static void
vf_setup(void)
{
	if (vf_inited++)
		return;
	diff_init();
}
/* A diff of up to three files, and the lines it adds. */
void
b_parse(void)
{
	static char added[MAXF][MAXL];
	static char text[1 << 16];
	struct files files;
	struct arena *eternal = arena_alloc(), *scratch = arena_alloc();
	size_t nf = nd_upto(3), f, tlen = 0;
	unsigned int l;
	int error;

	vf_setup();
	memset(added, 0, sizeof(added));
	if (VECTOR_INIT(files.fs_vc))
		abort();
#define P(...) tlen += (size_t)snprintf(&text[tlen], sizeof(text) - tlen, __VA_ARGS__)
	git_ndirs = 0;
	text[0] = 0;
	for (f = 0; f < nf; f++) {
		unsigned int new = 1 + (unsigned int)nd_upto(9), old = 1 + (unsigned int)nd_upto(9);
		size_t nh = nd_upto(3), h;

		if (nd_bool())
			P("diff --git a/file%d.c b/file%d.c\nindex 123..456 100644\n", (int)f, (int)f);
		P("--- a/file%d.c\n+++ b/file%d.c%s\n", (int)f, (int)f, nd_bool() ? "\t2020-01-01" : "");
		for (h = 0; h < nh; h++) {
			char kinds[24];
			size_t i, n = 1 + nd_upto(12);
			unsigned int oc = 0, nc = 0;

			for (i = 0; i < n; i++) {
				kinds[i] = nd_bool() ? ' ' : nd_bool() ? '+' : '-';
				if (kinds[i] != '+')
					oc++;
				if (kinds[i] != '-')
					nc++;
			}
			if (nc == 0) {
				/* Nothing but removed lines. */
				P("@@ -%u,%u +%u,0 @@\n", old, oc, new - 1);
			} else if (nc == 1 && nd_bool()) {
				P("@@ -%u,%u +%u @@\n", old, oc, new);
			} else {
				P("@@ -%u,%u +%u,%u @@%s\n", old, oc, new, nc, nd_bool() ? "" : nd_bool() ? " int f(int a, int b)" : " x +9,2 @@");
			}
			for (i = 0; i < n; i++) {
				static const char *const body[] = { "", "x", "++ b/y.c\t1", "-- a/y.c", "@@ -1 +1 @@", " + 3", "\\ z" };
				const char *b = body[nd_upto(6)];

				if (kinds[i] == '+')
					added[f][new] = 1;
				if (kinds[i] != '-')
					new++;
				if (kinds[i] != '+')
					old++;
				if (kinds[i] == ' ' && b[0] == 0 && nd_bool())
					P("\n");	/* stripped of trailing space */
				else
					P("%c%s\n", kinds[i], b);
			}
			if (nd_upto(4) == 0)
				P("\\ No newline at end of file\n");
			new += 1 + (unsigned int)nd_upto(30);
			old += 1 + (unsigned int)nd_upto(30);
		}
	}
	{
		arena_scope(eternal, es);

		vf_input = arena_buffer_alloc(&es, 1 << 10);
		buffer_puts(vf_input, text, tlen);
		error = diff_parse(&files, &es, scratch, NULL);
		VF_ASSERT(error == 0, "well formed diff is accepted");
		VF_ASSERT(VECTOR_LENGTH(files.fs_vc) == nf, "each file is considered");
		for (f = 0; f < nf; f++) {
			char want[32];

			snprintf(want, sizeof(want), "file%d.c", (int)f);
			VF_ASSERT(strcmp(files.fs_vc[f].fe_path, want) == 0, "path of the file");
			for (l = 0; l < MAXL; l++) {
				if ((diff_get_chunk(files.fs_vc[f].fe_diff, l) != NULL) != added[f][l])
					fprintf(stderr, "%s: line %u of file %d\n", text, l, (int)f);
				VF_ASSERT((diff_get_chunk(files.fs_vc[f].fe_diff, l) != NULL) == added[f][l], "chunks are the added lines");
			}
			VECTOR_FREE(files.fs_vc[f].fe_diff);
		}
		VECTOR_FREE(files.fs_vc);
	}
	arena_free(eternal);
	arena_free(scratch);
}

void
b_path(void)
{
	static const char *const dirs[] = { "src", "b", "lib", "a.b" };
	struct arena *scratch = arena_alloc();
	char line[256], want[128];
	const char *out = NULL;
	size_t n = nd_upto(4), i, trim;
	int git = nd_bool(), r;

	vf_setup();
	git_ndirs = (int)nd_upto(3);
	vf_enoent = nd_bool();
	trim = vf_enoent ? (size_t)git_ndirs : 0;
	{
		arena_scope(scratch, s);

		want[0] = 0;
		snprintf(line, sizeof(line), "+++ %s", git ? "b/" : "");
		for (i = 0; i < n; i++) {
			const char *d = dirs[nd_upto(3)];

			if (i == 0 && !git && d[0] == 'b')
				d = "src";
			strcat(line, d);
			strcat(line, "/");
			if (i >= trim) {
				strcat(want, d);
				strcat(want, "/");
			}
		}
		strcat(line, "x.c");
		strcat(want, "x.c");
		if (nd_bool())
			strcat(line, "\tThu Jan 1");
		r = matchpath(line, &out, &s);
		VF_ASSERT(r, "path found");
		if (strcmp(out, want) != 0)
			fprintf(stderr, "%s: %s, not %s\n", line, out, want);
		VF_ASSERT(strcmp(out, want) == 0, "path adjusted");
		VF_ASSERT(!matchpath(" +++ b/x.c", &out, &s) && !matchpath("--- a/x.c", &out, &s), "no path");
	}
	arena_free(scratch);
}
#endif
#endif
