/*@ {
 'inst': ['knfmt.c', 'libks/buffer.c', 'libks/tmp.c'],
 'loops': {
  'knfmt.c': {
   'fileprint': ['''__CPROVER_assigns(buf, buflen, g.nout, g.out_k, vf_errno)
     __CPROVER_loop_invariant(g.nout <= g.dstlen && buflen == g.dstlen - g.nout)
     __CPROVER_loop_invariant(buf == g.dst + g.nout)
     __CPROVER_loop_invariant(g.k >= g.nout || g.out_k == g.dst[g.k])'''],
   'filelist': ['''__CPROVER_assigns(i, g.nfiles, g.file_j)
     __CPROVER_loop_invariant(i >= 0 && i <= argc && g.nfiles == (size_t)i)
     __CPROVER_loop_invariant(g.j >= g.nfiles || g.file_j == argv[g.j])
     __CPROVER_decreases(argc - i)'''],
   'main': ['''__CPROVER_assigns(vf_errno, ch, clang_format, c.options, optarg, optind)
     __CPROVER_loop_invariant(optind >= 1 && optind <= argc)
     __CPROVER_loop_invariant(g.usage == 0)''',
     '''__CPROVER_assigns(vf_errno, i, error, g.nformatted, g.anyerror, vf_buf1.bf_len, vf_buf2.bf_len, g.closed)
     __CPROVER_loop_invariant(i <= g.nlisted && g.nformatted == i)
     __CPROVER_loop_invariant(vf_buf1.bf_len == 0 && vf_buf2.bf_len == 0 && g.closed)
     __CPROVER_loop_invariant((error == 0) == !g.anyerror && (error == 0 || error == 1))
     __CPROVER_decreases(g.nlisted - i)'''],
  },
  'libks/tmp.c': {
   'KS_tmpfd': ['''__CPROVER_assigns(vf_errno, buf, buflen, t.written, t.out_k)
     __CPROVER_loop_invariant(t.written <= t.len && buflen == t.len - t.written)
     __CPROVER_loop_invariant(buf == t.src + t.written)
     __CPROVER_loop_invariant(t.k >= t.written || t.out_k == t.src[t.k])'''],
  },
 },
 'assumes': [
   'system calls write, mkstemp, unlink, lseek, close, fork, execl, waitpid behave as the ghost model of specs/output.c; any of them may fail at any point and write may be short',
   'diff(1) prints the difference of the two files it is given',
   'snprintf formats as specified; getopt yields any sequence of the documented options',
   'buffers smaller than 2^40 bytes',
   'lexer_tokenize, parser_exec, style_parse and the other pipeline stages are opaque here: they may succeed or fail',
   'goto-cc drops __attribute__((cleanup)): leaving an arena scope is not modelled in this unit',
 ],
 'proofs': [
  {'name': 'fileprint', 'fn': 'fileprint'},
  {'name': 'tmpfd', 'fn': 'KS_tmpfd'},
  {'name': 'filediff', 'fn': 'filediff', 'replace': ['KS_tmpfd', 'buffer_cmp']},
  {'name': 'fileformat', 'fn': 'fileformat', 'replace': ['filediff', 'filewrite', 'fileprint']},
  {'name': 'filelist', 'fn': 'filelist', 'n': 3},
  {'name': 'main', 'fn': 'knfmt_main', 'btimeout': 300, 'loopfns': ['main'], 'replace': ['filelist', 'fileformat'], 'n': 2, 'nobmc': True, 'cost': 5},
 ],
} @*/
#include "vf.h"

#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <err.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "libks/arena.h"
#include "libks/vector.h"

struct ghost {
	/* One file going through the pipeline. */
	const char *src, *dst;
	size_t srclen, dstlen;
	size_t k, w;
	int readok, lexok, parsed;	/* pipeline progress */
	int did_diff, did_write, did_print;

	/* Standard output. */
	size_t nout;
	char out_k;

	/* Diff mode. */
	int srctmp, dsttmp, forked, execed, inchild, waited;
	const char *srcpath, *dstpath;
	int srcfd, dstfd;
	const char *label;
	const char *path;

	/* The list of files. */
	size_t nfiles, j;
	const char *file_j;

	/* The main program. */
	size_t nlisted, nformatted;
	int anyerror, closed, styled, listed, finished;
	int usage;
	int listerror, styleerror;
	int anyfail, inplace, diff, inmain, different;
	int sawdiffparse, initdiff;
};
struct ghost g;

struct tghost {
	const char *src;
	size_t len, k, written;
	char out_k;
	int fd;
	int open, exists, rewound, named;
	char *path;
	size_t pathsiz;
};
struct tghost t;

static void vf_warn(void) {}
static mode_t vf_umask(mode_t m) { (void)m; return (mode_t)nd(); }
static void
vf_err(int rc)
{
	VF_ASSERT(rc != 0, "fatal errors exit nonzero");
	VF_ASSUME(0);
}
static void
vf_exit(int rc)
{
	VF_ASSERT(rc != 0, "usage errors exit nonzero");
	VF_ASSUME(0);
}

static ssize_t
vf_write(int fd, const void *buf, size_t n)
{
	ssize_t r = (ssize_t)nd();

	VF_ASSERT(__CPROVER_r_ok(buf, n), "written bytes readable");
#ifdef VF_NATIVE
	if (vf_random())
		r = r % 8 == 0 ? -1 : (ssize_t)((size_t)r % (n + 1));
#endif
	VF_ASSUME(r >= -1 && r <= (ssize_t)n);
#ifndef VF_PROOF
	if (r == -1)
		g.anyfail = 1;
#endif
	if (fd == 1) {
#ifndef VF_PROOF
		VF_ASSERT(g.inmain == 0 || (!g.inplace && !g.diff), "printed on demand only");
		g.did_print = 1;
#endif
		VF_ASSERT(g.parsed, "nothing is printed unless the input was parsed");
		VF_ASSERT(n <= g.dstlen - g.nout, "nothing but the formatted bytes is printed");
		if (r > 0) {
			if (g.k >= g.nout && g.k - g.nout < (size_t)r)
				g.out_k = ((const char *)buf)[g.k - g.nout];
			g.nout += (size_t)r;
		}
	} else {
		VF_ASSERT(t.open && fd == t.fd, "only standard output and the temporary are written");
		VF_ASSERT(!t.rewound && !t.named, "no write once handed over");
		VF_ASSERT(n <= t.len - t.written, "nothing but the given bytes is written");
		if (r > 0) {
			if (t.k >= t.written && t.k - t.written < (size_t)r)
				t.out_k = ((const char *)buf)[t.k - t.written];
			t.written += (size_t)r;
		}
	}
	return r;
}

static int
vf_mkstemp(char *path)
{
	int fd = nd_int();

	VF_ASSERT(path[0] == '/' && path[1] == 't' && path[2] == 'm' && path[3] == 'p',
	    "temporary below /tmp");
	VF_ASSUME(fd == -1 || fd > 2);
	if (fd == -1)
		return vf_fails();
	t.fd = fd;
	t.open = 1;
	t.exists = 1;
	return fd;
}

static int
vf_unlink(const char *path)
{
	VF_ASSERT(path[0] == '/' && path[1] == 't' && path[2] == 'm' && path[3] == 'p',
	    "temporary below /tmp");
	if (nd_bool())
		return vf_fails();
	t.exists = 0;
	return 0;
}

static off_t
vf_lseek(int fd, off_t off, int whence)
{
	VF_ASSERT(t.open && fd == t.fd && off == 0 && whence == SEEK_SET, "rewound to the start");
	if (nd_bool())
		return vf_fails();
	t.rewound = 1;
	return 0;
}

static int
vf_snprintf(char *str, size_t siz, const char *fmt, int fd)
{
	int r = nd_int();

	VF_ASSERT(__CPROVER_w_ok(str, siz), "snprintf destination writable");
	VF_ASSUME(r >= -1);
	if (t.path != NULL && str == t.path) {
		VF_ASSERT(fmt[0] == '/' && fmt[1] == 'd' && fmt[5] == 'f' && fmt[8] == '%',
		    "path of the descriptor");
		VF_ASSERT(siz == t.pathsiz, "path size");
		VF_ASSERT(fd == t.fd, "path names the descriptor");
		if (r >= 0 && (size_t)r < siz)
			t.named = 1;
	} else if (r >= 0 && (size_t)r < siz) {
		str[0] = fmt[0];
		str[1] = fmt[1];
		str[2] = fmt[2];
		str[3] = fmt[3];
		str[4] = '\0';
		VF_ASSUME(r >= 4);
	}
	return r;
}

static int
vf_close(int fd)
{
	if (g.srctmp && fd == g.srcfd) {
		g.srctmp = 0;
	} else if (g.dsttmp && fd == g.dstfd) {
		g.dsttmp = 0;
	} else {
		VF_ASSERT(t.open && fd == t.fd, "close of an open descriptor");
		t.open = 0;
	}
	return 0;
}

static pid_t
vf_fork(void)
{
	pid_t pid = (pid_t)nd();

	VF_ASSUME(pid >= -1);
	VF_ASSERT(!g.forked, "forked once");
	VF_ASSERT(g.srctmp && g.dsttmp, "both sides available before the diff");
	if (pid != -1)
		g.forked = 1;
	if (pid == 0)
		g.inchild = 1;
	return pid;
}

static int
vf_execl(const char *path, const char *arg, const char *u, const char *l1,
    const char *label, const char *l2, const char *fe, const char *s,
    const char *d)
{
	VF_ASSERT(g.inchild, "diff runs in a child");
	(void)path; (void)arg;
	VF_ASSERT(u[0] == '-' && u[1] == 'u' && l1[0] == '-' && l1[1] == 'L' &&
	    l2[0] == '-' && l2[1] == 'L', "arguments to diff");
	VF_ASSERT(label == g.label && fe == g.path, "labels of the diff");
	VF_ASSERT(s == g.srcpath && d == g.dstpath, "diff from the original to the formatted");
	g.execed = 1;
	if (nd_bool())
		VF_ASSUME(0);
	return -1;
}

static void
vf__exit(int rc)
{
	VF_ASSERT(g.inchild && rc != 0, "child exit");
	VF_ASSUME(0);
}

static pid_t
vf_waitpid(pid_t pid, int *st, int options)
{
	VF_ASSERT(g.forked && !g.inchild && pid > 0 && options == 0, "wait for the child");
	if (st != NULL)
		*st = nd_int();
	g.waited = 1;
	return nd_bool() ? -1 : pid;
}

static char *
vf_arena_sprintf(struct arena_scope *s, const char *fmt, const char *path)
{
	(void)s; (void)fmt;
	VF_ASSERT(path == g.path, "label made from the path");
	return (char *)g.label;
}

char *tmptemplate(const char *path, struct arena_scope *s) { (void)path; (void)s; return NULL; }

struct arena_scope
arena_scope_enter_impl(struct arena *a, const char *f, int l)
{
	struct arena_scope s = {0};

	(void)a; (void)f; (void)l;
	return s;
}
void arena_scope_leave(struct arena_scope *s) { (void)s; }


#ifdef VF_PROOF
static int
vf_memcmp(const void *a, const void *b, size_t n)
{
	(void)a; (void)b; (void)n;
	return nd_int();
}
#define memcmp vf_memcmp
#endif

#define warn(...) vf_warn()
#define err(rc, ...) vf_err(rc)
#define exit vf_exit
#define fprintf(...) ((void)0)
#define umask vf_umask
#define mkstemp vf_mkstemp
#define write vf_write
#define close vf_close
#define unlink vf_unlink
#define lseek vf_lseek
#define snprintf(str, siz, ...) vf_snprintf((str), (siz), VF_FIRST2(__VA_ARGS__, 0, 0))
#define arena_sprintf(s, ...) vf_arena_sprintf((s), VF_FIRST2(__VA_ARGS__, NULL, NULL))
#define fork vf_fork
#define execl(...) vf_execl(VF_FIRST9(__VA_ARGS__, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL))
#define _exit vf__exit
#define waitpid vf_waitpid
#define getopt vf_getopt
static int vf_getopt(int, char *const *, const char *);

#define main knfmt_main
#include "SRC/libks/buffer.c"
static struct buffer vf_buf1, vf_buf2;
#include "SRC/libks/tmp.c"
#ifndef VF_PROOF
/* In-place mode is decided in specs/inplace.c, only note that it happened. */
static int
vf_KS_tmpfd(const char *buf, size_t buflen, char *path, size_t pathsiz)
{
	(void)pathsiz;
	if (nd_bool()) {
		g.anyfail = 1;
		return vf_fails();
	}
	if (buf == g.src && buflen == g.srclen && !g.srctmp) {
		g.srctmp = 1;
		g.srcfd = 5;
		g.srcpath = path;
		return 5;
	}
	VF_ASSERT(buf == g.dst && buflen == g.dstlen && !g.dsttmp,
	    "source and destination made available to diff");
	g.dsttmp = 1;
	g.dstfd = 6;
	g.dstpath = path;
	return 6;
}
static int
vf_mkstemp2(char *path)
{
	(void)path;
	VF_ASSERT(g.parsed && g.inplace && !g.diff, "files replaced on demand only");
	if (nd_bool()) {
		g.anyfail = 1;
		return vf_fails();
	}
	t.fd = 7;
	t.open = 1;
	t.len = g.dstlen;
	t.written = 0;
	t.named = 0;
	t.rewound = 0;
	return 7;
}
static int
vf_any(void)
{
	if (nd_bool()) {
		g.anyfail = 1;
		return vf_fails();
	}
	return 0;
}
static int
vf_rename2(void)
{
	if (vf_any())
		return vf_fails();
	g.did_write = 1;
	return 0;
}
#define KS_tmpfd vf_KS_tmpfd
#undef mkstemp
#define mkstemp vf_mkstemp2
#undef unlink
#define unlink(p) 0
#define fstat(fd, sb) (memset((sb), 0, sizeof(*(sb))), vf_any())
#define fchmod(fd, m) vf_any()
#define fchown(fd, u, g) vf_any()
#define rename(a, b) vf_rename2()
#endif
#include "SRC/knfmt.c"
#undef main
#undef KS_tmpfd
#ifndef VF_PROOF
#undef mkstemp
#define mkstemp vf_mkstemp
#endif
#undef exit
#undef fprintf

#define MAXLEN ((size_t)1 << 40)

static int
vf_failed(void)
{
#ifndef VF_PROOF
	g.anyfail = 1;
#endif
	return 1;
}
static struct file *vf_files;
static const struct buffer *vf_srcbf, *vf_dstbf;
static const struct file *vf_fe;
#ifndef VF_PROOF
static void settle(void);
static void
next_file(struct file *fe, struct buffer *bf)
{
	settle();
	VF_ASSERT(g.nformatted < g.nlisted && fe == &vf_files[g.nformatted],
	    "every file formatted in order");
	VF_ASSERT(bf->bf_len == 0 && vf_buf2.bf_len == 0, "formatted from empty buffers");
	VF_ASSERT(g.closed, "files closed");
	g.nformatted++;
	g.closed = 0;
	vf_fe = fe;
	g.path = fe->fe_path;
	g.readok = g.lexok = g.parsed = 0;
	g.did_diff = g.did_write = g.did_print = 0;
	g.nout = 0;
	g.forked = g.waited = g.execed = 0;
}
static void
fill(struct buffer *bf, const char **ptr, size_t *len)
{
	static char bytes[4][2];
	static int n;

	n = (n + 1) % 4;
	bytes[n][0] = nd_bool() ? 'a' : 'b';
	bf->bf_ptr = bytes[n];
	bf->bf_len = nd_upto(1);
	bf->bf_siz = 2;
	*ptr = bf->bf_ptr;
	*len = bf->bf_len;
}
/* Outcome of the last file. */
static void
settle(void)
{
	int equal;

	if (!g.readok || !g.lexok || !g.parsed) {
		VF_ASSERT(!g.did_diff && !g.did_write && !g.did_print && !g.forked,
		    "no output unless the input was parsed");
		return;
	}
	equal = g.srclen == g.dstlen && (g.srclen == 0 || g.src[0] == g.dst[0]);
	if (g.diff) {
		VF_ASSERT(!g.did_write && !g.did_print, "diff mode only");
		if (!equal)
			g.different = 1;
		VF_ASSERT(!g.srctmp && !g.dsttmp, "temporaries closed");
	} else if (g.inplace) {
		VF_ASSERT(!g.did_print && !g.forked, "in-place mode only");
		VF_ASSERT(g.did_write == !equal || g.anyfail, "rewritten iff changed");
	} else {
		VF_ASSERT(!g.did_write && !g.forked, "print mode only");
		VF_ASSERT(g.nout == g.dstlen || g.anyfail, "printed in full");
	}
}
#endif
/* Pipeline stages: opaque, may fail. */
int
file_read(struct file *fe, struct buffer *bf)
{
	(void)fe; (void)bf;
#ifndef VF_PROOF
	if (g.inmain)
		next_file(fe, bf);
#endif
	VF_ASSERT(!g.readok, "read once");
	if (nd_bool())
		return vf_failed();
	g.readok = 1;
#ifndef VF_PROOF
	if (g.inmain)
		fill(bf, &g.src, &g.srclen);
#endif
	return 0;
}

static char some_object[64];

struct clang *
clang_alloc(const struct style *st, struct simple *si,
    struct arena_scope *s, struct arena *a, const struct options *op)
{
	(void)st; (void)si; (void)s; (void)a; (void)op;
	return (struct clang *)some_object;
}

struct lexer_callbacks
clang_lexer_callbacks(struct clang *cl)
{
	struct lexer_callbacks cb = {0};

	(void)cl;
	return cb;
}

struct lexer *
lexer_tokenize(const struct lexer_arg *arg)
{
	VF_ASSERT(g.readok, "only what was read is tokenized");
	VF_ASSERT(arg->bf == vf_srcbf && arg->path == vf_fe->fe_path &&
	    arg->diff == vf_fe->fe_diff, "the source is tokenized");
	if (nd_bool()) {
		vf_failed();
		return NULL;
	}
	g.lexok = 1;
	return (struct lexer *)some_object;
}

struct parser *
parser_alloc(const struct parser_arg *arg)
{
	VF_ASSERT(arg->lexer != NULL, "parser gets the tokens");
	return (struct parser *)some_object;
}

int
parser_exec(struct parser *pr, const struct diffchunk *chunks, struct buffer *bf)
{
	(void)pr;
	VF_ASSERT(g.lexok, "only tokens are parsed");
	VF_ASSERT(bf == vf_dstbf && chunks == vf_fe->fe_diff, "formatted into the destination");
	if (nd_bool())
		return vf_failed();
	g.parsed = 1;
#ifndef VF_PROOF
	if (g.inmain)
		fill(bf, &g.dst, &g.dstlen);
#endif
	return 0;
}

struct file *
files_alloc(struct files *files, const char *path, struct arena_scope *s)
{
	(void)s;
#ifndef VF_PROOF
	g.listed = 1;
#endif
	if (g.j == g.nfiles)
		g.file_j = path;
	g.nfiles++;
	return files->fs_vc;
}

int
diff_parse(struct files *files, struct arena_scope *s, struct arena *a,
    const struct options *op)
{
	(void)files; (void)s; (void)a;
	VF_ASSERT(op->diffparse, "diffs read on demand only");
	g.listed = 1;
#ifndef VF_PROOF
	g.listerror = nd_bool();
	return g.listerror;
#else
	return nd_bool();
#endif
}

/* The main program. */
static int vf_argc;
static int
vf_getopt(int argc, char *const *argv, const char *opts)
{
	int r = nd_int();

	(void)argv; (void)opts;
	VF_ASSERT(argc == vf_argc, "options of the command line");
	if (nd_bool())
		return -1;
#ifndef VF_PROOF
	if (r == 'd')
		g.diff = 1;
	if (r == 'i')
		g.inplace = 1;
#endif
	VF_ASSUME(r == 'c' || r == 'D' || r == 'd' || r == 'i' || r == 's' || r == 't' || r == '?');
	optarg = (char *)some_object;
	if (optind < argc && nd_bool())
		optind++;
	return r;
}
int pledge(const char *a, const char *b) { (void)a; (void)b; return nd_bool() ? -1 : 0; }
void options_init(struct options *op) { static struct options zero; *op = zero; }
int options_trace_parse(struct options *op, const char *s) { (void)op; (void)s; return nd_bool(); }
void clang_init(void) {}
void expr_init(void) {}
void style_init(void) {}
void
diff_init(void)
{
	g.initdiff = 1;
}
void clang_shutdown(void) {}
void expr_shutdown(void) {}
void style_shutdown(void) {}
void diff_shutdown(void) {}
struct arena *arena_alloc(void) { return (struct arena *)some_object; }
void arena_free(struct arena *a) { (void)a; }
struct style *
style_parse(const char *path, struct arena_scope *s, struct arena *a,
    const struct options *op)
{
	(void)path; (void)s; (void)a; (void)op;
	if (nd_bool()) {
		g.styleerror = 1;
		return NULL;
	}
	return (struct style *)some_object;
}
struct simple *
simple_alloc(struct arena_scope *s, const struct options *op)
{
	(void)s; (void)op;
	return (struct simple *)some_object;
}
static int vf_nbuf;
struct buffer *
arena_buffer_alloc(struct arena_scope *s, size_t siz)
{
	(void)s; (void)siz;
	vf_nbuf++;
	if (vf_nbuf == 1) {
		vf_buf1.bf_len = 0;
		vf_srcbf = &vf_buf1;
		return &vf_buf1;
	}
	vf_buf2.bf_len = 0;
	vf_dstbf = &vf_buf2;
	return &vf_buf2;
}
int
vector_init(void **vv, size_t stride)
{
	(void)stride;
	*vv = vf_files;
	return nd_bool();
}
void files_free(struct files *f) { (void)f; g.finished = 1; }
void
file_close(struct file *fe)
{
	VF_ASSERT(g.nformatted > 0 && fe == &vf_files[g.nformatted - 1], "the formatted file is closed");
	g.closed = 1;
}

#ifdef VF_PROOF
int buffer_cmp(const struct buffer *a, const struct buffer *b)
__CPROVER_requires(__CPROVER_r_ok(a, sizeof(*a)) && __CPROVER_r_ok(b, sizeof(*b)))
__CPROVER_assigns(g.w)
__CPROVER_ensures(__CPROVER_return_value != 0 || (a->bf_len == b->bf_len &&
    (g.k >= a->bf_len || a->bf_ptr[g.k] == b->bf_ptr[g.k])))
__CPROVER_ensures(__CPROVER_return_value == 0 || a->bf_len != b->bf_len ||
    (g.w < a->bf_len && a->bf_ptr[g.w] != b->bf_ptr[g.w]))
;

static int fileprint(const struct buffer *dst)
#ifdef P_fileprint
__CPROVER_requires(__CPROVER_is_fresh(dst, sizeof(*dst)))
__CPROVER_requires(dst->bf_len <= MAXLEN && __CPROVER_is_fresh(dst->bf_ptr, dst->bf_len))
__CPROVER_requires(PEQ(g.dst, dst->bf_ptr) && g.dstlen == dst->bf_len && g.nout == 0)
__CPROVER_requires(g.parsed)
__CPROVER_assigns(vf_errno, g.nout, g.out_k)
__CPROVER_ensures(__CPROVER_return_value != 0 || (g.nout == g.dstlen &&
    (g.k >= g.dstlen || g.out_k == g.dst[g.k])))
#else
__CPROVER_requires(g.parsed && !g.did_write && !g.did_diff && !g.did_print && dst == vf_dstbf)
__CPROVER_assigns(vf_errno, g.did_print, g.nout, g.out_k)
__CPROVER_ensures(g.did_print == 1)
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == 1)
#endif
;

int KS_tmpfd(const char *buf, size_t buflen, char *path, size_t pathsiz)
#ifdef P_tmpfd
__CPROVER_requires(buflen <= MAXLEN && __CPROVER_is_fresh(buf, buflen))
__CPROVER_requires(pathsiz >= 1 && pathsiz <= 65536 && __CPROVER_is_fresh(path, pathsiz))
__CPROVER_requires(PEQ(t.src, buf) && t.len == buflen && t.written == 0)
__CPROVER_requires(!t.open && !t.exists && !t.rewound && !t.named)
__CPROVER_requires(PEQ(t.path, path) && t.pathsiz == pathsiz)
__CPROVER_requires(!g.srctmp && !g.dsttmp)
__CPROVER_assigns(t.written, t.out_k, t.fd, t.open, t.exists, t.rewound, t.named, errno)
__CPROVER_ensures(__CPROVER_return_value == -1 || (__CPROVER_return_value == t.fd &&
    t.open && !t.exists && t.rewound && t.named && t.written == t.len &&
    (t.k >= t.len || t.out_k == t.src[t.k])))
__CPROVER_ensures(__CPROVER_return_value != -1 || !t.open)
#else
__CPROVER_requires((!g.srctmp && buf == g.src && buflen == g.srclen) ||
    (!g.dsttmp && buf == g.dst && buflen == g.dstlen))
__CPROVER_requires(__CPROVER_w_ok(path, pathsiz))
__CPROVER_assigns(vf_errno; buf == g.src: g.srctmp, g.srcfd, g.srcpath; buf == g.dst: g.dsttmp, g.dstfd, g.dstpath)
__CPROVER_ensures(__CPROVER_return_value >= -1)
__CPROVER_ensures(buf != g.src || (__CPROVER_return_value == -1 ? !g.srctmp :
    (g.srctmp && g.srcfd == __CPROVER_return_value && g.srcpath == path)))
__CPROVER_ensures(buf != g.dst || (__CPROVER_return_value == -1 ? !g.dsttmp :
    (g.dsttmp && g.dstfd == __CPROVER_return_value && g.dstpath == path)))
__CPROVER_ensures(!g.srctmp || !g.dsttmp || g.srcfd != g.dstfd)
#endif
;

static int filediff(struct main_context *c, const struct file *fe)
#ifdef P_filediff
__CPROVER_requires(__CPROVER_is_fresh(c, sizeof(*c)) && __CPROVER_is_fresh(fe, sizeof(*fe)))
__CPROVER_requires(__CPROVER_is_fresh(c->src, sizeof(struct buffer)))
__CPROVER_requires(__CPROVER_is_fresh(c->dst, sizeof(struct buffer)))
__CPROVER_requires(c->src->bf_len <= MAXLEN && c->dst->bf_len <= MAXLEN)
__CPROVER_requires(__CPROVER_is_fresh(c->src->bf_ptr, c->src->bf_len))
__CPROVER_requires(__CPROVER_is_fresh(c->dst->bf_ptr, c->dst->bf_len))
__CPROVER_requires(PEQ(g.src, c->src->bf_ptr) && g.srclen == c->src->bf_len)
__CPROVER_requires(PEQ(g.dst, c->dst->bf_ptr) && g.dstlen == c->dst->bf_len)
__CPROVER_requires(!g.srctmp && !g.dsttmp && !g.forked && !g.execed && !g.inchild && !g.waited)
__CPROVER_requires(__CPROVER_is_fresh(g.label, 8) && __CPROVER_is_fresh(g.path, 8) && PEQ(fe->fe_path, g.path))
__CPROVER_requires(!t.open)
__CPROVER_assigns(vf_errno, g.w, g.srctmp, g.dsttmp, g.srcfd, g.dstfd, g.srcpath, g.dstpath,
    g.forked, g.execed, g.inchild, g.waited)
/* Zero iff nothing to report, in which case no diff is produced. */
__CPROVER_ensures(__CPROVER_return_value != 0 || (g.srclen == g.dstlen &&
    (g.k >= g.dstlen || g.src[g.k] == g.dst[g.k]) && !g.forked))
__CPROVER_ensures(__CPROVER_return_value == 0 || g.srclen != g.dstlen ||
    (g.w < g.dstlen && g.src[g.w] != g.dst[g.w]))
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == 1)
__CPROVER_ensures(!g.srctmp && !g.dsttmp && !g.inchild)
__CPROVER_ensures(!g.forked || g.waited)
#else
__CPROVER_requires(g.parsed && !g.did_write && !g.did_diff && !g.did_print)
__CPROVER_requires(c->src == vf_srcbf && c->dst == vf_dstbf && fe == vf_fe)
__CPROVER_assigns(vf_errno, g.did_diff)
__CPROVER_ensures(g.did_diff == 1)
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == 1)
#endif
;

static int filewrite(struct main_context *c, const struct file *fe)
__CPROVER_requires(g.parsed && !g.did_write && !g.did_diff && !g.did_print)
__CPROVER_requires(c->src == vf_srcbf && c->dst == vf_dstbf && fe == vf_fe)
__CPROVER_assigns(vf_errno, g.did_write)
__CPROVER_ensures(g.did_write == 1)
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == 1)
;

static int fileformat(struct main_context *c, struct file *fe)
#ifdef P_fileformat
__CPROVER_requires(__CPROVER_is_fresh(c, sizeof(*c)) && __CPROVER_is_fresh(fe, sizeof(*fe)))
__CPROVER_requires(PEQ(c->src, &vf_buf1) && PEQ(c->dst, &vf_buf2))
__CPROVER_requires(PEQ(vf_srcbf, &vf_buf1) && PEQ(vf_dstbf, &vf_buf2) && PEQ(vf_fe, fe))
__CPROVER_requires(!g.readok && !g.lexok && !g.parsed && !g.did_diff && !g.did_write && !g.did_print)
__CPROVER_assigns(vf_errno, g.readok, g.lexok, g.parsed, g.did_diff, g.did_write, g.did_print,
    g.nout, g.out_k)
/* Success means that the file went through the output stage asked for. */
__CPROVER_ensures(__CPROVER_return_value != 0 || (g.parsed &&
    g.did_diff == (c->options.diff != 0) &&
    g.did_write == (c->options.inplace && !c->options.diff ? 1 : 0) &&
    g.did_print == (!c->options.inplace && !c->options.diff)))
__CPROVER_ensures(g.parsed || __CPROVER_return_value != 0)
__CPROVER_ensures(!c->options.diff || (!g.did_write && !g.did_print))
__CPROVER_ensures(c->options.inplace || !g.did_write)
#else
/* Files are formatted in order, each from empty buffers. */
__CPROVER_requires(vf_buf1.bf_len == 0 && vf_buf2.bf_len == 0 && g.closed)
__CPROVER_requires(g.listed && !g.listerror && !g.styleerror)
__CPROVER_requires(c->src == vf_srcbf && c->dst == vf_dstbf && c->src != c->dst)
__CPROVER_requires(g.nformatted < g.nlisted && fe == &vf_files[g.nformatted])
__CPROVER_assigns(vf_errno, g.nformatted, g.anyerror, vf_buf1.bf_len, vf_buf2.bf_len, g.closed)
__CPROVER_ensures(g.nformatted == __CPROVER_old(g.nformatted) + 1)
__CPROVER_ensures(g.anyerror == (__CPROVER_old(g.anyerror) || __CPROVER_return_value != 0))
__CPROVER_ensures(!g.closed)
#endif
;

static int filelist(int argc, char **argv, struct files *files,
    struct arena_scope *eternal_scope, struct arena *scratch,
    const struct options *op)
#ifdef P_filelist
__CPROVER_requires(__CPROVER_is_fresh(op, sizeof(*op)) && __CPROVER_is_fresh(files, sizeof(*files)))
__CPROVER_requires(argc >= 0 && argc < (1 << 24))
__CPROVER_requires(__CPROVER_is_fresh(argv, ((size_t)argc + 1) * sizeof(*argv)))
__CPROVER_requires(g.nfiles == 0)
__CPROVER_assigns(g.nfiles, g.file_j, g.listed)
__CPROVER_ensures(op->diffparse || (__CPROVER_return_value == 0 &&
    g.nfiles == (argc == 0 ? 1 : (size_t)argc)))
__CPROVER_ensures(op->diffparse || argc == 0 || g.j >= g.nfiles || g.file_j == argv[g.j])
__CPROVER_ensures(!op->diffparse || g.nfiles == 0)
#else
__CPROVER_requires(g.styleerror == 0 && !g.listed)
__CPROVER_requires(!op->diffparse || (argc == 0 && g.initdiff))
__CPROVER_requires(op->diffparse || !op->inplace || argc > 0)
__CPROVER_requires(argc >= 0)
__CPROVER_assigns(g.listed, g.listerror)
__CPROVER_ensures(g.listed && g.listerror == (__CPROVER_return_value != 0))
#endif
;

int knfmt_main(int argc, char **argv)
__CPROVER_requires(argc >= 1 && argc < 4096 && optind == 1 && vf_argc == argc)
__CPROVER_requires(__CPROVER_is_fresh(argv, ((size_t)argc + 1) * sizeof(*argv)))
__CPROVER_requires(g.nformatted == 0 && !g.anyerror && !g.styled && !g.listed && !g.finished)
__CPROVER_requires(!g.listerror && !g.styleerror && !g.usage && vf_nbuf == 0 && g.closed && !g.initdiff)
__CPROVER_assigns(vf_errno, g.nformatted, g.anyerror, vf_buf1.bf_len, vf_buf2.bf_len, g.closed, g.styled,
    g.listed, g.finished, g.listerror, g.styleerror, g.initdiff, vf_nbuf, vf_srcbf, vf_dstbf,
    optind, optarg)
__CPROVER_ensures(__CPROVER_return_value != 0 || (g.listed && !g.listerror && !g.styleerror &&
    g.nformatted == g.nlisted && !g.anyerror))
/* Nothing is skipped because of an earlier failure. */
__CPROVER_ensures(!g.listed || g.listerror || g.nformatted == g.nlisted)
__CPROVER_ensures(!g.anyerror || __CPROVER_return_value != 0)
__CPROVER_ensures(__CPROVER_return_value == 0 || !g.listed || g.listerror || g.anyerror)
;

#ifdef P_main
/* buffer_reset is reached through the real code: observe its effect. */
#endif

void
h_fileprint(void)
{
	struct buffer *bf;

	if (fileprint(bf))
		VF_REACH("failure");
	else
		VF_REACH("success");
}

void
h_tmpfd(void)
{
	const char *buf;
	char *path;
	size_t n, m;

	if (KS_tmpfd(buf, n, path, m) == -1)
		VF_REACH("failure");
	else
		VF_REACH("success");
}

void
h_filediff(void)
{
	struct main_context *c;
	struct file *fe;

	if (filediff(c, fe))
		VF_REACH("different");
	else
		VF_REACH("same");
}

void
h_fileformat(void)
{
	struct main_context *c;
	struct file *fe;

	if (fileformat(c, fe))
		VF_REACH("failure");
	else
		VF_REACH("success");
}

void
h_filelist(void)
{
	int argc;
	char **argv;
	struct files *files;
	struct arena_scope *s;
	struct arena *a;
	struct options *op;

	if (filelist(argc, argv, files, s, a, op))
		VF_REACH("failure");
	else
		VF_REACH("success");
}

#define MAXFILES 4096
struct {
	struct vector_public p;
	struct file f[MAXFILES];
} vf_filevec;

void
h_main(void)
{
	int argc;
	char **argv;

	VF_ASSUME(g.nlisted <= MAXFILES);
	vf_filevec.p.len = g.nlisted;
	vf_files = vf_filevec.f;
	if (knfmt_main(argc, argv))
		VF_REACH("failure");
	else
		VF_REACH("success");
}
#endif

#ifndef VF_PROOF
static void
setup(void)
{
	static struct ghost zero;
	static struct tghost tzero;

	g = zero;
	t = tzero;
	g.k = nd_upto(VF_N);
	t.k = g.k;
}

static void
setup_buffer(struct buffer *bf)
{
	size_t i, n = nd_upto(VF_N);

	bf->bf_siz = VF_N;
	bf->bf_ptr = malloc(n > 0 ? n : 1);
	bf->bf_len = n;
	for (i = 0; i < n; i++)
		bf->bf_ptr[i] = nd_alpha("ab");
}

void
b_fileprint(void)
{
	static struct buffer bf;
	int r;

	setup();
	setup_buffer(&bf);
	g.parsed = 1;
	g.dst = bf.bf_ptr;
	g.dstlen = bf.bf_len;
	r = fileprint(&bf);
	VF_ASSERT(r != 0 || (g.nout == g.dstlen && (g.k >= g.dstlen || g.out_k == g.dst[g.k])),
	    "success means all formatted bytes printed");
}

void
b_tmpfd(void)
{
	static struct buffer bf;
	static char path[64];
	int r;

	setup();
	setup_buffer(&bf);
	t.src = bf.bf_ptr;
	t.len = bf.bf_len;
	t.path = path;
	t.pathsiz = sizeof(path);
	r = KS_tmpfd(bf.bf_ptr, bf.bf_len, path, sizeof(path));
	VF_ASSERT(r == -1 || (r == t.fd && t.open && !t.exists && t.rewound && t.named &&
	    t.written == t.len && (t.k >= t.len || t.out_k == t.src[t.k])),
	    "success means a rewound descriptor with exactly the given bytes");
	VF_ASSERT(r != -1 || !t.open, "no descriptor left behind");
}

static int
setup_context(struct main_context *c, struct file *fe)
{
	static struct main_context zero;
	size_t i;
	int equal;

	*c = zero;
	setup();
	setup_buffer(&vf_buf1);
	setup_buffer(&vf_buf2);
	vf_srcbf = c->src = &vf_buf1;
	vf_dstbf = c->dst = &vf_buf2;
	g.src = c->src->bf_ptr;
	g.srclen = c->src->bf_len;
	g.dst = c->dst->bf_ptr;
	g.dstlen = c->dst->bf_len;
	g.label = "x.orig";
	g.path = "x";
	fe->fe_path = (char *)g.path;
	fe->fe_fd = 3;
	vf_fe = fe;
	equal = g.srclen == g.dstlen;
	for (i = 0; equal && i < g.srclen; i++)
		equal = g.src[i] == g.dst[i];
	return equal;
}

void
b_filediff(void)
{
	static struct main_context c;
	static struct file fe;
	int equal, r;

	equal = setup_context(&c, &fe);
	g.parsed = 1;
	r = filediff(&c, &fe);
	VF_ASSERT((r == 0) == equal, "zero iff nothing to report");
	VF_ASSERT(r == 0 || r == 1, "zero or one");
	VF_ASSERT(!g.forked || !equal, "no diff of equal files");
	VF_ASSERT(equal || g.waited || g.anyfail || !g.forked, "diff awaited");
	VF_ASSERT(!g.srctmp && !g.dsttmp && !g.inchild, "descriptors closed");
}

void
b_fileformat(void)
{
	static struct main_context c;
	static struct file fe;
	int equal, r;

	equal = setup_context(&c, &fe);
	g.diff = c.options.diff = nd_bool();
	g.inplace = c.options.inplace = nd_bool();
	r = fileformat(&c, &fe);
	VF_ASSERT(g.parsed || r != 0, "failures are reported");
	VF_ASSERT(g.parsed || (!g.forked && !g.did_write && !g.did_print),
	    "no output unless the input was parsed");
	VF_ASSERT(!g.diff || (!g.did_write && !g.did_print), "diff mode only");
	VF_ASSERT(!g.diff || r != 0 || equal, "differences are reported");
	VF_ASSERT(g.diff || !g.inplace || !g.did_print, "in-place mode only");
	VF_ASSERT(g.diff || !g.inplace || r != 0 || g.did_write == !equal, "rewritten iff changed");
	VF_ASSERT(g.diff || g.inplace || r != 0 || g.nout == g.dstlen, "printed in full");
	VF_ASSERT(r == 0 || g.anyfail || g.diff, "success unless something failed");
}

void
b_filelist(void)
{
	static char strs[VF_N + 1];
	static char *argv[VF_N + 1];
	static struct options op;
	static struct files files;
	size_t i;
	int argc, r;

	setup();
	g.j = g.k;
	argc = (int)nd_upto(VF_N);
	for (i = 0; i < (size_t)argc; i++)
		argv[i] = &strs[i];
	op.diffparse = nd_bool();
	r = filelist(argc, argv, &files, NULL, NULL, &op);
	VF_ASSERT(op.diffparse || (r == 0 && g.nfiles == (argc == 0 ? 1 : (size_t)argc)),
	    "every argument listed");
	VF_ASSERT(op.diffparse || argc == 0 || g.j >= g.nfiles || g.file_j == argv[g.j],
	    "arguments listed in order");
}
struct {
	struct vector_public p;
	struct file f[VF_N + 1];
} vf_filevec;

void
b_main(void)
{
	static char *argv[VF_N + 3];
	size_t i;
	int r;

	setup();
	g.inmain = 1;
	g.closed = 1;
	vf_nbuf = 0;
	optind = 1;
	vf_argc = 1 + (int)nd_upto(VF_N);
	for (i = 0; i < VF_N + 3; i++)
		argv[i] = (char *)"x";
	g.nlisted = nd_upto(VF_N);
	g.label = "x.orig";
	vf_filevec.p.len = g.nlisted;
	vf_files = vf_filevec.f;
	for (i = 0; i < VF_N; i++)
		vf_files[i].fe_path = (char *)"x";
	r = knfmt_main(vf_argc, argv);
	if (g.finished && !g.styleerror && !g.listerror) {
		settle();
		VF_ASSERT(g.nformatted == g.nlisted, "every file formatted");
		VF_ASSERT((r != 0) == (g.anyfail || g.different), "exit status tells about every file");
	} else {
		VF_ASSERT(r != 0, "failures are reported");
	}
}
#endif
