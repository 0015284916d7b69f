/*@ {
 'inst': ['fs.c'],
 'loops': {'fs.c': {
   'searchpath': ['''__CPROVER_assigns(fd, dirfd, i, sb, dev, ino, g.slot, g.level, g.ndir, g.hit, g.broken, vf_errno)
     __CPROVER_loop_invariant(i >= 0 && (size_t)i == g.level && g.level <= g.depth)
     __CPROVER_loop_invariant((g.slot == 0 || g.slot == 1) && g.ndir == 1 && dirfd == DIRFD && g.hit == 0 && !g.broken)
     __CPROVER_loop_invariant(dev == DEV(g.level) && ino == INO(g.level))
     __CPROVER_loop_invariant(g.w >= g.level || !g.w_exists)
     __CPROVER_decreases(g.depth - g.level)'''],
 }},
 'assumes': [
   'open, openat, fstat, close: ghost directory tree of specs/fs.c, one mount point in between, any call may fail',
   'at most 2^20 directories between the current one and the root',
   'paths shorter than 2^20 bytes',
   'strrchr: contract; buffer_puts, buffer_printf, buffer_str: append to a ghost string (C03)',
 ],
 'proofs': [
  {'name': 'searchpath', 'fn': 'searchpath', 'n': 3, 'unwind': 6},
  {'name': 'tmptemplate', 'fn': 'tmptemplate', 'n': 4, 'unwind': 16, 'punwind': 18},
 ],
} @*/
#include "vf.h"

#include <sys/stat.h>
#include <sys/types.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>

struct ghost {
	const char *filename;
	size_t depth;		/* level of the root, the current directory being 0 */
	size_t mount;		/* levels from here on are on another device */
	size_t level;		/* level of the open directory */
	int slot;		/* descriptor of open directory is 10 + slot */
	int ndir;		/* directories open */
	int hit;		/* file opened */
	size_t w;		/* arbitrary level */
	int w_exists;		/* ... holds the file */
	int broken;		/* a directory could not be opened or examined */
};
struct ghost g;

#define DIRFD (10 + g.slot)
#define FILEFD 20
/* Roots of both devices have the same inode number. */
#define DEV(l) ((dev_t)((l) < g.mount ? 1 : 2))
#define INO(l) ((ino_t)((l) < g.mount ? g.mount - 1 - (l) + 2 : g.depth - (l) + 2))

static int
vf_open(const char *path, int flags)
{
	VF_ASSERT(path[0] == '.' && path[1] == '\0', "search starts at the current directory");
	(void)flags;
	if (nd_bool()) {
		g.broken = 1;
		return vf_fails();
	}
	g.ndir++;
	g.level = 0;
	return DIRFD;
}

static int
vf_openat(int dirfd, const char *path, int flags)
{
	VF_ASSERT(g.ndir > 0 && dirfd == DIRFD, "relative to the open directory");
	if (path == g.filename) {
		bool exists = nd_bool();

		VF_ASSERT((flags & O_ACCMODE) == O_RDONLY, "opened read only");
		if (g.level == g.w)
			exists = g.w_exists;
		if (!exists)
			return vf_fails();
		g.hit++;
		return FILEFD;
	}
	VF_ASSERT(path[0] == '.' && path[1] == '.' && path[2] == '\0', "parent directory");
	if (nd_bool()) {
		g.broken = 1;
		return vf_fails();
	}
	g.ndir++;
	g.slot = !g.slot;
	if (g.level < g.depth)
		g.level++;
	return DIRFD;
}

static int
vf_fstat(int fd, struct stat *sb)
{
	VF_ASSERT(g.ndir > 0 && fd == DIRFD, "fstat of the open directory");
	if (nd_bool()) {
		g.broken = 1;
		return vf_fails();
	}
	sb->st_dev = DEV(g.level);
	sb->st_ino = INO(g.level);
	return 0;
}

static int
vf_close(int fd)
{
	VF_ASSERT(fd == DIRFD || (fd == 10 + !g.slot && g.ndir == 2), "only directories are closed");
	VF_ASSERT(g.ndir > 0, "closed once");
	g.ndir--;
	return 0;
}
#define open vf_open
#define openat vf_openat
#define fstat vf_fstat
#define close vf_close

/*
 * tmptemplate: the expected string is the directory part of the path, a dot,
 * the last component and the suffix. Every append is compared with it.
 */
#include "libks/buffer.h"
struct tghost {
	const char *path;
	size_t len;		/* length of path */
	size_t d;		/* length of directory part, including slash */
	size_t pos;		/* bytes appended so far */
	size_t k;		/* arbitrary position */
	char kv;		/* byte expected there */
};
struct tghost t;
char t_bf[1], t_str[1];

#define MAXLEN ((size_t)1 << 20)
static const char vf_suffix[] = ".XXXXXXXX";

#ifdef VF_NATIVE
#define INPATH(p) ((p) >= t.path && (p) <= t.path + t.len)
#define PATHOFF(p) ((size_t)((p) - t.path))
#else
#define INPATH(p) (__CPROVER_same_object((p), t.path) && __CPROVER_POINTER_OFFSET(p) <= t.len)
#define PATHOFF(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
#endif
static char
expected(size_t k)
{
	if (k < t.d)
		return t.path[k];
	if (k == t.d)
		return '.';
	if (k <= t.len)
		return t.path[k - 1];
	return vf_suffix[k - t.len - 1];
}

static int
vf_buffer_puts(struct buffer *bf, const char *str, size_t n)
{
	VF_ASSERT((char *)bf == t_bf, "buffer");
	VF_ASSERT(__CPROVER_r_ok(str, n), "appended bytes readable");
	if (n == 0)
		return 0;
	VF_ASSERT(n <= t.len + 10 - t.pos, "length of the template");
	if (t.k >= t.pos && t.k - t.pos < n)
		VF_ASSERT(str[t.k - t.pos] == t.kv, "same directory, hidden, named after the file");
	t.pos += n;
	return 0;
}
static int
vf_buffer_putc(struct buffer *bf, char c)
{
	return vf_buffer_puts(bf, &c, 1);
}
static int
vf_buffer_printf(struct buffer *bf, const char *fmt, const char *arg)
{
	size_t i;

	for (i = 0; fmt[i] != '\0'; i++) {
		if (fmt[i] == '%') {
			VF_ASSERT(fmt[i + 1] == 's', "string conversion");
			VF_ASSERT(INPATH(arg), "component of the path");
			vf_buffer_puts(bf, arg, t.len - PATHOFF(arg));
			i++;
		} else {
			VF_ASSERT(t.pos < t.len + 10, "length of the template");
			VF_ASSERT(t.k != t.pos || fmt[i] == t.kv, "hidden, with a suffix");
			t.pos++;
		}
	}
	return 0;
}
static char *
vf_buffer_str(struct buffer *bf)
{
	VF_ASSERT((char *)bf == t_bf, "buffer");
	VF_ASSERT(t.pos == t.len + 1 + sizeof(vf_suffix) - 1, "whole template");
	return t_str;
}
struct arena_scope;
static struct buffer *
vf_arena_buffer_alloc(struct arena_scope *s, size_t n)
{
	(void)s; (void)n;
	return (struct buffer *)t_bf;
}
#ifdef VF_PROOF
static char *
vf_strrchr(const char *s, int c)
{
	VF_ASSERT(s == t.path && c == '/', "last slash of the path");
	return t.d > 0 ? (char *)&t.path[t.d - 1] : NULL;
}
#define strrchr vf_strrchr
static size_t
vf_strlen(const char *s)
{
	if (INPATH(s))
		return t.len - PATHOFF(s);
	return strlen(s);
}
#define strlen vf_strlen
#endif
#define buffer_puts vf_buffer_puts
#define buffer_putc vf_buffer_putc
#define buffer_printf(a, ...) vf_buffer_printf((a), VF_FIRST2(__VA_ARGS__, NULL))
#define buffer_str vf_buffer_str
#define arena_buffer_alloc vf_arena_buffer_alloc

#include "SRC/fs.c"

#ifdef VF_PROOF
#define R __CPROVER_return_value
int searchpath(const char *filename, int *nlevels)
__CPROVER_requires(__CPROVER_is_fresh(g.filename, 3) && PEQ(filename, g.filename))
__CPROVER_requires(nlevels == NULL || __CPROVER_is_fresh(nlevels, sizeof(int)))
__CPROVER_requires(g.depth <= (1 << 20) && g.ndir == 0 && g.hit == 0 && !g.broken)
__CPROVER_requires(g.slot == 0 || g.slot == 1)
__CPROVER_requires(g.w_exists == 0 || g.w_exists == 1)
__CPROVER_assigns(vf_errno, g.level, g.slot, g.ndir, g.hit, g.broken; nlevels != NULL: *nlevels)
/* No directory stays open. */
__CPROVER_ensures(g.ndir == 0)
/* Found: that file and nothing else is open, its level is told. */
__CPROVER_ensures(R == -1 || (R == FILEFD && g.hit == 1))
__CPROVER_ensures(R == -1 || nlevels == NULL || (size_t)*nlevels == g.level)
/* ... and it is the nearest one. */
__CPROVER_ensures(R == -1 || g.w >= g.level || !g.w_exists)
/* Not found: there is none up to the root. */
__CPROVER_ensures(R != -1 || g.hit == 0)
__CPROVER_ensures(R != -1 || g.broken || g.w > g.depth || !g.w_exists)
;

char *tmptemplate(const char *path, struct arena_scope *s)
__CPROVER_requires(t.len <= MAXLEN && __CPROVER_is_fresh(t.path, t.len + 1) && PEQ(path, t.path))
__CPROVER_requires(path[t.len] == '\0' && t.d <= t.len && (t.d == 0 || path[t.d - 1] == '/'))
__CPROVER_requires(t.pos == 0)
__CPROVER_requires(t.k >= t.d || t.kv == path[t.k])
__CPROVER_requires(t.k != t.d || t.kv == '.')
__CPROVER_requires(t.k <= t.d || t.k > t.len || t.kv == path[t.k - 1])
__CPROVER_requires(t.k != t.len + 1 || t.kv == '.')
__CPROVER_requires(t.k <= t.len + 1 || t.k > t.len + 9 || t.kv == 'X')
__CPROVER_assigns(t.pos)
__CPROVER_ensures(R == t_str)
;

void
h_searchpath(void)
{
	const char *f;
	int *n;

	if (searchpath(f, n) == -1)
		VF_REACH("not found");
	else
		VF_REACH("found");
}

void
h_tmptemplate(void)
{
	const char *p;
	struct arena_scope *s;

	tmptemplate(p, s);
	VF_REACH("end");
}
#else
void
b_searchpath(void)
{
	static struct ghost zero;
	static const char name[] = ".clang-format";
	int n = -7, fd;

	g = zero;
	g.filename = name;
	g.depth = nd_upto(VF_N);
	g.mount = nd_upto(VF_N + 1);
	g.w = nd_upto(VF_N + 1);
	g.w_exists = nd_bool();
	fd = searchpath(g.filename, nd_bool() ? &n : NULL);
	VF_ASSERT(g.ndir == 0, "no directory stays open");
	if (fd != -1) {
		VF_ASSERT(fd == FILEFD && g.hit == 1, "the file is open");
		VF_ASSERT(n == -7 || (size_t)n == g.level, "level of the file");
		VF_ASSERT(g.w >= g.level || !g.w_exists, "nearest file");
	} else {
		VF_ASSERT(g.hit == 0, "file does not leak");
		VF_ASSERT(g.broken || g.w > g.depth || !g.w_exists, "no file up to the root");
	}
}

void
b_tmptemplate(void)
{
	static char path[VF_N + 1];
	size_t i, n = nd_upto(VF_N);

	t.d = 0;
	for (i = 0; i < n; i++) {
		path[i] = nd_alpha("ab/.");
		VF_ASSUME(path[i] != '\0');
		if (path[i] == '/')
			t.d = i + 1;
	}
	path[n] = '\0';
	t.path = path;
	t.len = n;
	t.pos = 0;
	t.k = nd_upto(VF_N + 9);
	VF_ASSUME(t.k <= t.len + 9);
	t.kv = expected(t.k);
	VF_ASSERT(tmptemplate(path, NULL) == t_str, "result");
}
#endif
