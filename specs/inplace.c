/*@ {
 'inst': ['knfmt.c', 'libks/buffer.c'],
 'loops': {'knfmt.c': {
   'filewrite': ['''__CPROVER_assigns(buf, buflen, g.written, g.out_k, vf_errno)
     __CPROVER_loop_invariant(g.written <= g.len && buflen == g.len - g.written)
     __CPROVER_loop_invariant(buf == g.dst + g.written)
     __CPROVER_loop_invariant(g.k >= g.written || g.out_k == g.dst[g.k])'''],
 }},
 'assumes': [
   'system calls umask, mkstemp, write, fstat, fchmod, fchown, rename, close, unlink behave as the ghost file system of specs/inplace.c (any of them may fail at any point, write may be short); chown(2) clears set-id bits',
   'memcmp, warn: assumed contracts',
   'buffers smaller than 2^40 bytes',
   'goto-cc drops __attribute__((cleanup)): leaving an arena scope is not modelled in this unit',
 ],
 'proofs': [
  {'name': 'fileattr', 'fn': 'fileattr'},
  {'name': 'filewrite', 'fn': 'filewrite', 'replace': ['fileattr', 'buffer_cmp']},
  {'name': 'buffer_cmp', 'fn': 'buffer_cmp'},
 ],
} @*/
#include "vf.h"

#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <err.h>
#include <fcntl.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "libks/arena.h"
#include "fs.h"

/*
 * Ghost file system: one target file, one temporary file.
 */
struct ghost {
	const char *path;	/* target path */
	int path_fd;		/* descriptor of the target */
	char *tmppath;		/* path of temporary */

	const char *src;	/* bytes of the target */
	size_t srclen;
	const char *dst;	/* bytes to be written */
	size_t len;
	size_t k;		/* arbitrary but fixed position */
	size_t w;		/* witness of a difference */

	int fd;			/* descriptor of the temporary */
	int open;		/* ... is open */
	int exists;		/* temporary present in directory */
	int renamed;		/* target replaced */
	int attempted;		/* a temporary was created */
	size_t written;		/* bytes written to the temporary */
	char out_k;		/* the byte at position k of the temporary */
	mode_t mode, omode;
	uid_t uid, ouid;
	gid_t gid, ogid;
};
struct ghost g;

#define ATTR_OK (g.mode == g.omode && g.uid == g.ouid && g.gid == g.ogid)

static void vf_warn(void) {}

static mode_t vf_umask(mode_t m) { (void)m; return (mode_t)nd(); }

static int
vf_mkstemp(char *path)
{
	int fd = nd_int();

	VF_ASSERT(path == g.tmppath, "temporary created from the template");
	VF_ASSERT(!g.exists && !g.open, "one temporary at a time");
	VF_ASSUME(fd >= -1 && fd != g.path_fd);
	if (fd == -1)
		return vf_fails();
	g.attempted = 1;
	g.fd = fd;
	g.open = 1;
	g.exists = 1;
	g.written = 0;
	g.mode = S_IFREG | 0600;
	g.uid = (uid_t)nd();
	g.gid = (gid_t)nd();
	return fd;
}

static ssize_t
vf_write(int fd, const void *buf, size_t n)
{
	ssize_t r = (ssize_t)nd();

	VF_ASSERT(g.open && fd == g.fd, "only the temporary is written");
	VF_ASSERT(!g.renamed, "no write once the target is replaced");
	VF_ASSERT(n <= g.len - g.written, "nothing but the formatted bytes is written");
	VF_ASSERT(__CPROVER_r_ok(buf, n), "written bytes readable");
#ifdef VF_NATIVE
	if (vf_random())
		r = r % 8 == 0 ? -1 : (ssize_t)((size_t)r % (n + 1));
#endif
	VF_ASSUME(r >= -1 && r <= (ssize_t)n);
	if (r > 0) {
		if (g.k >= g.written && g.k - g.written < (size_t)r)
			g.out_k = ((const char *)buf)[g.k - g.written];
		g.written += (size_t)r;
	}
	return r;
}

static int
vf_close(int fd)
{
	VF_ASSERT(g.open && fd == g.fd, "only the temporary is closed, once");
	g.open = 0;
	return nd_bool() ? -1 : 0;
}

static int
vf_unlink(const char *path)
{
	VF_ASSERT(path == g.tmppath && !g.renamed, "only the temporary is removed");
	g.exists = 0;
	return 0;
}

static int
vf_fstat(int fd, struct stat *sb)
{
	VF_ASSERT((g.open && fd == g.fd) || fd == g.path_fd, "fstat of an open file");
	if (nd_bool())
		return vf_fails();
	if (fd == g.path_fd) {
		sb->st_mode = g.omode;
		sb->st_uid = g.ouid;
		sb->st_gid = g.ogid;
	} else {
		sb->st_mode = g.mode;
		sb->st_uid = g.uid;
		sb->st_gid = g.gid;
	}
	return 0;
}

static int
vf_fchmod(int fd, mode_t mode)
{
	VF_ASSERT(g.open && fd == g.fd, "attributes of the target untouched");
	if (nd_bool())
		return vf_fails();
	g.mode = (g.mode & S_IFMT) | (mode & ~(mode_t)S_IFMT);
	return 0;
}

static int
vf_fchown(int fd, uid_t uid, gid_t gid)
{
	VF_ASSERT(g.open && fd == g.fd, "owner of the target untouched");
	if (nd_bool())
		return vf_fails();
	g.uid = uid;
	g.gid = gid;
	/* chown(2): set-user-ID and set-group-ID bits are cleared. */
	g.mode &= ~(mode_t)(S_ISUID | S_ISGID);
	return 0;
}

static int
vf_rename(const char *from, const char *to)
{
	VF_ASSERT(from == g.tmppath && to == g.path, "temporary renamed to the target");
	VF_ASSERT(g.exists, "rename of an existing temporary");
	VF_ASSERT(g.written == g.len, "all bytes written before the target is replaced");
	VF_ASSERT(g.k >= g.len || g.out_k == g.dst[g.k],
	    "bytes written equal the formatted bytes");
	VF_ASSERT(ATTR_OK, "mode and owner of the target carried over before it is replaced");
	if (nd_bool())
		return vf_fails();
	g.renamed = 1;
	g.exists = 0;
	return 0;
}

char *
tmptemplate(const char *path, struct arena_scope *s)
{
	(void)s;
	VF_ASSERT(path == g.path, "template made from the target path");
	return g.tmppath;
}

struct arena_scope
arena_scope_enter_impl(struct arena *a, const char *f, int l)
{
	struct arena_scope s = {0};

	(void)a; (void)f; (void)l;
	return s;
}
void arena_scope_leave(struct arena_scope *s) { (void)s; }

#ifdef VF_PROOF
static int
vf_memcmp(const void *a, const void *b, size_t n)
{
	int r = nd_int();
	size_t w = nd_size();

	VF_ASSERT(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "memcmp operands readable");
	if (r == 0) {
		VF_ASSUME(g.k >= n || ((const char *)a)[g.k] == ((const char *)b)[g.k]);
	} else {
		VF_ASSUME(w < n && ((const char *)a)[w] != ((const char *)b)[w]);
		g.w = w;
	}
	return r;
}
#define memcmp vf_memcmp
#endif
#define warn(...) vf_warn()
#define umask vf_umask
#define mkstemp vf_mkstemp
#define write vf_write
#define close vf_close
#define unlink vf_unlink
#define fstat vf_fstat
#define fchmod vf_fchmod
#define fchown vf_fchown
#define rename vf_rename
#define main knfmt_main
#include "SRC/libks/buffer.c"
#include "SRC/knfmt.c"
#undef main

#define MAXLEN ((size_t)1 << 40)

#ifdef VF_PROOF
int buffer_cmp(const struct buffer *a, const struct buffer *b)
__CPROVER_requires(__CPROVER_is_fresh(a, sizeof(*a)) && __CPROVER_is_fresh(b, sizeof(*b)))
__CPROVER_requires(a->bf_len <= MAXLEN && b->bf_len <= MAXLEN)
__CPROVER_requires(__CPROVER_is_fresh(a->bf_ptr, a->bf_len))
__CPROVER_requires(__CPROVER_is_fresh(b->bf_ptr, b->bf_len))
__CPROVER_assigns(g.w)
__CPROVER_ensures(__CPROVER_return_value != 0 || (a->bf_len == b->bf_len &&
    (g.k >= a->bf_len || a->bf_ptr[g.k] == b->bf_ptr[g.k])))
__CPROVER_ensures(__CPROVER_return_value == 0 || a->bf_len != b->bf_len ||
    (g.w < a->bf_len && a->bf_ptr[g.w] != b->bf_ptr[g.w]))
;

static int fileattr(const char *srcpath, int srcfd, const char *dstpath, int dstfd)
__CPROVER_requires(g.open && srcfd == g.fd && dstfd == g.path_fd && srcfd != dstfd)
__CPROVER_requires((g.mode & (S_IFMT | S_ISUID | S_ISGID)) == S_IFREG && (g.omode & S_IFMT) == S_IFREG)
__CPROVER_assigns(g.mode, g.uid, g.gid, vf_errno)
__CPROVER_ensures(__CPROVER_return_value != 0 || ATTR_OK)
;

static int filewrite(struct main_context *c, const struct file *fe)
__CPROVER_requires(__CPROVER_is_fresh(c, sizeof(*c)))
__CPROVER_requires(__CPROVER_is_fresh(fe, sizeof(*fe)))
__CPROVER_requires(__CPROVER_is_fresh(c->src, sizeof(struct buffer)))
__CPROVER_requires(__CPROVER_is_fresh(c->dst, sizeof(struct buffer)))
__CPROVER_requires(c->src->bf_len <= MAXLEN && c->dst->bf_len <= MAXLEN)
__CPROVER_requires(__CPROVER_is_fresh(c->src->bf_ptr, c->src->bf_len))
__CPROVER_requires(__CPROVER_is_fresh(c->dst->bf_ptr, c->dst->bf_len))
__CPROVER_requires(__CPROVER_is_fresh(g.path, 16) && __CPROVER_is_fresh(g.tmppath, 32))
__CPROVER_requires(PEQ(fe->fe_path, g.path) && fe->fe_fd == g.path_fd && g.path_fd >= 0)
__CPROVER_requires(PEQ(g.dst, c->dst->bf_ptr) && g.len == c->dst->bf_len)
__CPROVER_requires(PEQ(g.src, c->src->bf_ptr) && g.srclen == c->src->bf_len)
__CPROVER_requires(!g.open && !g.exists && !g.renamed && !g.attempted && g.written == 0)
__CPROVER_requires((g.omode & S_IFMT) == S_IFREG)
__CPROVER_assigns(vf_errno, g.w, g.fd, g.open, g.exists, g.renamed, g.attempted,
    g.written, g.out_k, g.mode, g.uid, g.gid)
/* No temporary and no descriptor survives, whatever failed. */
__CPROVER_ensures(!g.exists && !g.open)
/* Success means the target holds the formatted bytes. */
__CPROVER_ensures(__CPROVER_return_value != 0 || g.renamed ||
    (g.len == g.srclen && (g.k >= g.len || g.dst[g.k] == g.src[g.k])))
/* Failure means the target was not replaced. */
__CPROVER_ensures(__CPROVER_return_value == 0 || !g.renamed)
/* An already formatted file is not touched. */
__CPROVER_ensures(!g.attempted || g.len != g.srclen ||
    (g.w < g.len && g.dst[g.w] != g.src[g.w]))
;

void
h_buffer_cmp(void)
{
	struct buffer *a, *b;

	if (buffer_cmp(a, b) == 0)
		VF_REACH("equal");
	else
		VF_REACH("different");
}

void
h_fileattr(void)
{
	const char *a, *b;
	int x, y;

	if (fileattr(a, x, b, y))
		VF_REACH("failure");
	else
		VF_REACH("success");
}

void
h_filewrite(void)
{
	struct main_context *c;
	struct file *fe;

	if (filewrite(c, fe))
		VF_REACH("failure");
	else if (g.renamed)
		VF_REACH("replaced");
	else
		VF_REACH("unchanged");
}
#endif

#ifndef VF_PROOF
static void
setup_buffer(struct buffer *bf)
{
	size_t i, n = nd_upto(VF_N);

	bf->bf_siz = VF_N;
	bf->bf_ptr = malloc(n > 0 ? n : 1);
	bf->bf_len = n;
	for (i = 0; i < n; i++)
		bf->bf_ptr[i] = nd_alpha("ab");
}

static void
setup_ghost(void)
{
	static struct ghost zero;
	static char path[16], tmppath[32];

	g = zero;
	g.path = path;
	g.tmppath = tmppath;
	g.path_fd = 3;
	g.omode = S_IFREG | ((mode_t)nd() & 07777);
	g.ouid = (uid_t)nd();
	g.ogid = (gid_t)nd();
	g.k = nd_upto(VF_N);
}

void
b_filewrite(void)
{
	static struct main_context c;
	static struct file fe;
	static struct buffer src, dst;
	size_t i;
	bool equal;
	int r;

	setup_ghost();
	setup_buffer(&src);
	setup_buffer(&dst);
	c.src = &src;
	c.dst = &dst;
	fe.fe_path = (char *)g.path;
	fe.fe_fd = 3;
	g.dst = dst.bf_ptr;
	g.len = dst.bf_len;
	equal = src.bf_len == dst.bf_len;
	for (i = 0; equal && i < src.bf_len; i++)
		equal = src.bf_ptr[i] == dst.bf_ptr[i];
	r = filewrite(&c, &fe);
	VF_ASSERT(!g.exists && !g.open, "no temporary and no descriptor survives");
	VF_ASSERT(r != 0 || g.renamed || equal, "success means the target holds the formatted bytes");
	VF_ASSERT(r == 0 || !g.renamed, "failure means the target was not replaced");
	VF_ASSERT(!g.attempted || !equal, "an already formatted file is not touched");
}

void
b_fileattr(void)
{
	int r;

	setup_ghost();
	VF_ASSUME(vf_mkstemp(g.tmppath) != -1);
	r = fileattr(g.tmppath, g.fd, g.path, g.path_fd);
	VF_ASSERT(r != 0 || ATTR_OK, "success means mode and owner carried over");
}

void
b_buffer_cmp(void)
{
	static struct buffer a, b;
	size_t i;
	bool equal;

	setup_buffer(&a);
	setup_buffer(&b);
	equal = a.bf_len == b.bf_len;
	for (i = 0; equal && i < a.bf_len; i++)
		equal = a.bf_ptr[i] == b.bf_ptr[i];
	VF_ASSERT((buffer_cmp(&a, &b) == 0) == equal, "compares equal iff same bytes");
}
#endif
