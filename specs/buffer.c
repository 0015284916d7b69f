/*@ {
 'inst': ['libks/buffer.c', 'libks/arena-buffer.c', 'file.c'],
 'loops': {'libks/buffer.c': {
   'buffer_reserve': ['''__CPROVER_assigns(newsiz)
     __CPROVER_loop_invariant(newsiz >= 1 && newsiz >= bf->bf_siz)
     __CPROVER_loop_invariant(newsiz == bf->bf_siz || newsiz == 16 || newsiz / 2 < newlen)
     __CPROVER_decreases(ULONG_MAX - newsiz)'''],
   'buffer_read_fd_impl': ['''__CPROVER_assigns(bf->bf_ptr, bf->bf_siz, bf->bf_len, vf_errno, g.cur, g.pos, g.done)
     __CPROVER_loop_invariant(bf->bf_siz >= 16 && bf->bf_siz <= MAXLEN && bf->bf_len < bf->bf_siz)
     __CPROVER_loop_invariant(bf->bf_ptr == g.cur)
     __CPROVER_loop_invariant(bf->bf_len == g.len0 + g.pos && !g.done)'''],
 }},
 'assumes': [
   'realloc, malloc, memcpy, memset, memchr, vsnprintf: contracts written out as stubs in specs/buffer.c',
   'read(2) returns the next bytes of the file, any number up to the amount asked for, or fails; open(2) of a path yields a descriptor of that file or fails',
   'arena_malloc, arena_realloc: contracts proved in the arena unit (C04)',
   'in the read loop the reallocated block is one of two blocks of which the stale one is scrambled',
   'buffers smaller than 2^40 bytes',
 ],
 'proofs': [
  {'name': 'reserve', 'fn': 'buffer_reserve', 'bounded': 'b_ops', 'n': 3, 'nobmc': True},
  {'name': 'puts', 'fn': 'buffer_puts', 'replace': ['buffer_reserve'], 'bounded': 'b_ops', 'n': 3, 'nobmc': True},
  {'name': 'putc', 'fn': 'buffer_putc', 'replace': ['buffer_puts'], 'bounded': 'b_ops', 'n': 3, 'nobmc': True},
  {'name': 'vprintf', 'fn': 'buffer_vprintf', 'replace': ['buffer_reserve'], 'bounded': 'b_ops', 'n': 3, 'nobmc': True},
  {'name': 'str', 'fn': 'buffer_str', 'replace': ['buffer_putc', 'buffer_release'], 'bounded': 'b_ops', 'n': 3, 'nobmc': True},
  {'name': 'release', 'fn': 'buffer_release', 'bounded': 'b_ops', 'n': 3, 'nobmc': True},
  {'name': 'pop', 'fn': 'buffer_pop', 'bounded': 'b_ops', 'n': 3, 'nobmc': True},
  {'name': 'reset', 'fn': 'buffer_reset', 'bounded': 'b_ops', 'n': 3, 'nobmc': True},
  {'name': 'alloc', 'fn': 'buffer_alloc_impl', 'replace': ['buffer_reserve', 'buffer_free'], 'bounded': 'b_ops', 'n': 3, 'nobmc': True},
  {'name': 'getline', 'fn': 'buffer_getline_impl', 'replace': ['buffer_puts', 'buffer_putc', 'buffer_reset', 'buffer_getline_free'], 'bounded': 'b_getline', 'n': 4, 'nobmc': True},
  {'name': 'read', 'fn': 'buffer_read_fd_impl', 'replace': ['buffer_reserve'], 'bounded': 'b_read', 'n': 4, 'nobmc': True, 'nn': 300},
  {'name': 'readpath', 'fn': 'buffer_read_impl', 'replace': ['buffer_read_fd_impl'], 'bounded': 'b_readpath', 'n': 2, 'nobmc': True, 'nn': 300},
  {'name': 'abuf_realloc', 'fn': 'ab_callback_realloc', 'bounded': 'b_abuf', 'n': 2, 'nobmc': True},
  {'name': 'abuf_alloc', 'fn': 'ab_callback_alloc', 'bounded': 'b_abuf', 'n': 2, 'nobmc': True},
  {'name': 'abuf_read_fd', 'fn': 'arena_buffer_read_fd', 'replace': ['arena_buffer_alloc', 'buffer_read_fd_impl', 'buffer_free'], 'bounded': 'b_readpath', 'n': 2, 'nobmc': True, 'nn': 300},
  {'name': 'abuf_read', 'fn': 'arena_buffer_read', 'replace': ['arena_buffer_alloc', 'buffer_read_impl', 'buffer_free'], 'bounded': 'b_readpath', 'n': 2, 'nobmc': True, 'nn': 300},
  {'name': 'file_read', 'fn': 'file_read', 'replace': ['buffer_read_fd_impl'], 'bounded': 'b_file', 'n': 2, 'nobmc': True, 'nn': 300},
  {'name': 'file_close', 'fn': 'file_close', 'bounded': 'b_file', 'n': 2, 'nobmc': True, 'nn': 300},
 ],
} @*/
#include "vf.h"

#include <sys/types.h>
#include <err.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "libks/arena.h"
#define MAXLEN ((size_t)1 << 40)

struct buffer;

struct ghost {
	size_t k;		/* arbitrary but fixed position */
	char val;		/* byte at that position */
	size_t len0;		/* initial length */
	size_t pos;		/* bytes read so far */
	int done;		/* end of file seen */
	int failed;		/* read failed */
	char *cur;		/* block of the read loop */
	const size_t *siz;	/* size of the buffer read into */
	const char *newline;	/* memchr result */
	int fmtlen;		/* length of formatted string */
	const char *path;
	int isopen, fd, opened;	/* descriptor opened */
	size_t w;
	int nul;		/* last byte is NUL */
};
struct ghost g;

static void vf_warn(void) {}

#ifdef VF_PROOF
void *
vf_realloc(void *ptr, size_t siz)
{
	char *p;

	if (nd_bool() || siz > MAXLEN)
		return NULL;
	p = malloc(siz);
	VF_ASSUME(p != NULL);
	if (ptr != NULL) {
		size_t osiz = __CPROVER_OBJECT_SIZE(ptr);

		VF_ASSERT(__CPROVER_POINTER_OFFSET(ptr) == 0, "realloc of an allocated block");
		if (g.k < osiz && g.k < siz)
			VF_ASSUME(p[g.k] == ((char *)ptr)[g.k]);
	}
	return p;
}

static void *
vf_memcpy(void *d, const void *s, size_t n)
{
	VF_ASSERT(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "memcpy operands");
	__CPROVER_havoc_slice(d, n);
	{
		size_t o = __CPROVER_POINTER_OFFSET(d);

		if (g.k >= o && g.k - o < n)
			VF_ASSUME(((char *)d)[g.k - o] == ((const char *)s)[g.k - o]);
	}
	return d;
}

static void *
vf_memchr(const void *s, int c, size_t n)
{
	size_t i = nd_size();

	VF_ASSERT(__CPROVER_r_ok(s, n), "memchr operand");
	if (nd_bool()) {
		VF_ASSUME(g.w >= n || ((const char *)s)[g.w] != (char)c);
		return NULL;
	}
	VF_ASSUME(i < n && ((const char *)s)[i] == (char)c);
	VF_ASSUME(g.w >= i || ((const char *)s)[g.w] != (char)c);
	return (char *)s + i;
}

static int
vf_vsnprintf(char *s, size_t n)
{
	if (nd_bool())
		return vf_fails();
	VF_ASSUME(g.fmtlen >= 0);
	if (n > 0) {
		size_t len = (size_t)g.fmtlen < n ? (size_t)g.fmtlen : n - 1;
		size_t o = __CPROVER_POINTER_OFFSET(s);

		VF_ASSERT(__CPROVER_w_ok(s, len + 1), "vsnprintf operand");
		__CPROVER_havoc_slice(s, len + 1);
		if (g.k >= o && g.k - o < len)
			VF_ASSUME(s[g.k - o] == g.val);
		s[len] = '\0';
	}
	return g.fmtlen;
}

static ssize_t
vf_read(int fd, void *buf, size_t n)
{
	ssize_t r = (ssize_t)nd();

	VF_ASSERT(g.isopen && fd == g.fd, "read of the opened file");
	VF_ASSERT(!g.done, "no read past the end of file");
	VF_ASSERT(n > 0, "a full buffer is not mistaken for the end of file");
	VF_ASSERT(buf == g.cur + (g.len0 + g.pos), "bytes are stored one after another");
	VF_ASSERT(n <= *g.siz - (g.len0 + g.pos), "read within the buffer");
	VF_ASSUME(r >= -1 && r <= (ssize_t)n);
	if (r == -1)
		return vf_fails();
	if (r == 0) {
		g.done = 1;
		return 0;
	}
	g.pos += (size_t)r;
	return r;
}
#define vsnprintf(a, b, c, d) vf_vsnprintf((a), (b))
#define memcpy vf_memcpy
#define memchr vf_memchr
#define realloc vf_realloc
#define read vf_read
#else
static const char *vf_file;
static size_t vf_filelen;
#define vf_read2 vf_read

static ssize_t
vf_read(int fd, void *buf, size_t n)
{
	size_t r;
	ssize_t i;

	VF_ASSERT(g.isopen && fd == g.fd, "read of the opened file");
	VF_ASSERT(n > 0, "a full buffer is not mistaken for the end of file");
	r = nd_upto(VF_N + 1);
	if (r == VF_N + 1) {
		g.failed = 1;
		return vf_fails();
	}
	if (r == 0 && g.pos < vf_filelen)
		r = 1;
	if (r > n)
		r = n;
	if (r > vf_filelen - g.pos)
		r = vf_filelen - g.pos;
	if (r == 0)
		g.done = 1;
	for (i = 0; (size_t)i < r; i++)
		((char *)buf)[i] = vf_file[g.pos + (size_t)i];
	g.pos += r;
	return (ssize_t)r;
}
#define read vf_read
#endif

static int
vf_open(const char *path, int flags)
{
	VF_ASSERT(path == g.path, "the given path is opened");
	VF_ASSERT((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_TRUNC | O_CREAT)),
	    "opened read only");
	VF_ASSERT(!g.isopen, "opened once");
	if (nd_bool())
		return vf_fails();
	g.isopen = 1;
	g.opened = 1;
	return g.fd;
}

static int
vf_close(int fd)
{
	VF_ASSERT(g.isopen && fd == g.fd, "only an open descriptor is closed");
	g.isopen = 0;
	return 0;
}
#define open vf_open
#define close vf_close
#define warn(...) vf_warn()
#undef err
#define err(...) __CPROVER_assume(0)

#include "SRC/libks/buffer.c"
#define callback_alloc ab_callback_alloc
#define callback_realloc ab_callback_realloc
#define callback_free ab_callback_free
#ifdef VF_PROOF
void *vf_arena_malloc(struct arena_scope *, size_t);
void *vf_arena_realloc(struct arena_scope *, void *, size_t, size_t);
#undef arena_malloc
#undef arena_realloc
#define arena_malloc vf_arena_malloc
#define arena_realloc vf_arena_realloc
#endif
#undef arena_poison
#define arena_poison(...) ((void)0)
#ifndef VF_PROOF
static void *vf_xrealloc(void *p, size_t o, size_t n);
#undef arena_malloc
#undef arena_realloc
#define arena_malloc(s, n) ((void)(s), malloc(n))
#define arena_realloc(s, p, o, n) ((void)(s), vf_xrealloc((p), (o), (n)))
#endif
#include "SRC/libks/arena-buffer.c"
#undef callback_alloc
#undef callback_realloc
#undef callback_free
#include "libks/vector.h"
void *vf_vector(void);
#include "SRC/file.c"

#ifdef VF_PROOF
#define FRESHBUF(bf) (__CPROVER_is_fresh(bf, sizeof(struct buffer)) && \
    (bf)->bf_siz <= MAXLEN && (bf)->bf_len <= (bf)->bf_siz && \
    ((bf)->bf_siz == 0 || (bf)->bf_siz >= 16) && \
    ((bf)->bf_siz == 0 ? (bf)->bf_ptr == NULL : __CPROVER_is_fresh((bf)->bf_ptr, (bf)->bf_siz)) && \
    (bf)->bf_callbacks.realloc == callback_realloc)
/* Byte k is val as long as k is within the buffer. */
#define BYTE(bf) (g.k >= (bf)->bf_len || (bf)->bf_ptr[g.k] == g.val)
#define R __CPROVER_return_value
#define OLD __CPROVER_old

#ifdef P_read
/*
 * The read loop: what matters is where bytes are put, the memory itself is not
 * modelled. The block may move, its first bf_len bytes are then preserved
 * according to the contract below.
 */
static int buffer_reserve(struct buffer *bf, size_t len)
__CPROVER_requires(bf->bf_siz >= 16 && bf->bf_len <= bf->bf_siz && bf->bf_siz <= MAXLEN && bf->bf_ptr == g.cur)
__CPROVER_assigns(bf->bf_ptr, bf->bf_siz, vf_errno, g.cur)
__CPROVER_ensures(bf->bf_ptr == g.cur)
__CPROVER_ensures(bf->bf_siz >= OLD(bf->bf_siz) && bf->bf_siz <= MAXLEN)
__CPROVER_ensures(R != 0 || (bf->bf_siz >= bf->bf_len && bf->bf_siz - bf->bf_len >= len))
;
#else
static int buffer_reserve(struct buffer *bf, size_t len)
__CPROVER_requires(FRESHBUF(bf) && BYTE(bf))
__CPROVER_assigns(bf->bf_ptr, bf->bf_siz, vf_errno)
__CPROVER_ensures(R != 0 || bf->bf_siz - bf->bf_len >= len)
__CPROVER_ensures(R != 0 || bf->bf_siz >= 16)
__CPROVER_ensures(bf->bf_len <= bf->bf_siz && bf->bf_siz <= MAXLEN)
__CPROVER_ensures(R == 0 || bf->bf_siz == OLD(bf->bf_siz))
__CPROVER_ensures(bf->bf_siz >= OLD(bf->bf_siz))
__CPROVER_ensures(bf->bf_siz != OLD(bf->bf_siz) || PEQ(bf->bf_ptr, OLD(bf->bf_ptr)))
__CPROVER_ensures(bf->bf_siz == OLD(bf->bf_siz) || __CPROVER_is_fresh(bf->bf_ptr, bf->bf_siz))
__CPROVER_ensures(BYTE(bf))
;
#endif

#ifdef P_getline
#define NOFAIL __CPROVER_ensures(R == 0)
#else
#define NOFAIL
#endif
#define APPENDED(bf, n) \
    (R != 0 ? (bf)->bf_len == OLD((bf)->bf_len) : (bf)->bf_len == OLD((bf)->bf_len) + (n))
#define KEPT(bf) (g.k >= OLD((bf)->bf_len) || (bf)->bf_ptr[g.k] == g.val)

int buffer_puts(struct buffer *bf, const char *str, size_t len)
__CPROVER_requires(FRESHBUF(bf) && BYTE(bf))
__CPROVER_requires(len <= MAXLEN && __CPROVER_is_fresh(str, len))
__CPROVER_assigns(bf->bf_ptr, bf->bf_siz, bf->bf_len, vf_errno;
    bf->bf_ptr != NULL: __CPROVER_object_whole(bf->bf_ptr))
__CPROVER_ensures(APPENDED(bf, len) && bf->bf_len <= bf->bf_siz && bf->bf_siz <= MAXLEN)
__CPROVER_ensures(bf->bf_siz >= OLD(bf->bf_siz))
__CPROVER_ensures(R != 0 || len == 0 || bf->bf_siz >= 16)
__CPROVER_ensures(bf->bf_siz != OLD(bf->bf_siz) || PEQ(bf->bf_ptr, OLD(bf->bf_ptr)))
__CPROVER_ensures(bf->bf_siz == OLD(bf->bf_siz) || __CPROVER_is_fresh(bf->bf_ptr, bf->bf_siz))
__CPROVER_ensures(KEPT(bf))
__CPROVER_ensures(g.k < OLD(bf->bf_len) || g.k >= bf->bf_len ||
    bf->bf_ptr[g.k] == str[g.k - OLD(bf->bf_len)])
NOFAIL
;

int buffer_putc(struct buffer *bf, char ch)
__CPROVER_requires(FRESHBUF(bf) && BYTE(bf))
__CPROVER_assigns(bf->bf_ptr, bf->bf_siz, bf->bf_len, vf_errno;
    bf->bf_ptr != NULL: __CPROVER_object_whole(bf->bf_ptr))
__CPROVER_ensures(APPENDED(bf, 1) && bf->bf_len <= bf->bf_siz && bf->bf_siz <= MAXLEN)
__CPROVER_ensures(bf->bf_siz >= OLD(bf->bf_siz))
__CPROVER_ensures(R != 0 || bf->bf_siz >= 16)
__CPROVER_ensures(bf->bf_siz != OLD(bf->bf_siz) || PEQ(bf->bf_ptr, OLD(bf->bf_ptr)))
__CPROVER_ensures(bf->bf_siz == OLD(bf->bf_siz) || __CPROVER_is_fresh(bf->bf_ptr, bf->bf_siz))
__CPROVER_ensures(KEPT(bf))
__CPROVER_ensures(g.k != OLD(bf->bf_len) || g.k >= bf->bf_len || bf->bf_ptr[g.k] == ch)
NOFAIL
;

int buffer_vprintf(struct buffer *bf, const char *fmt, va_list ap)
__CPROVER_requires(FRESHBUF(bf) && BYTE(bf) && g.fmtlen >= 0)
__CPROVER_assigns(bf->bf_ptr, bf->bf_siz, bf->bf_len, vf_errno;
    bf->bf_ptr != NULL: __CPROVER_object_whole(bf->bf_ptr))
__CPROVER_ensures(APPENDED(bf, (size_t)g.fmtlen) && bf->bf_len <= bf->bf_siz)
/* Bytes already there are kept, what follows is the formatted string. */
__CPROVER_ensures(BYTE(bf))
;

char *buffer_release(struct buffer *bf)
__CPROVER_requires(FRESHBUF(bf))
__CPROVER_assigns(bf->bf_ptr, bf->bf_siz, bf->bf_len)
__CPROVER_ensures(PEQ(R, OLD(bf->bf_ptr)))
__CPROVER_ensures(bf->bf_ptr == NULL && bf->bf_siz == 0 && bf->bf_len == 0)
;

char *buffer_str(struct buffer *bf)
__CPROVER_requires(FRESHBUF(bf) && BYTE(bf) && g.len0 == bf->bf_len)
__CPROVER_requires(g.nul == (bf->bf_len > 0 && bf->bf_ptr[bf->bf_len - 1] == '\0'))
__CPROVER_assigns(bf->bf_ptr, bf->bf_siz, bf->bf_len, vf_errno;
    bf->bf_ptr != NULL: __CPROVER_object_whole(bf->bf_ptr))
__CPROVER_ensures(R == NULL || (bf->bf_ptr == NULL && bf->bf_siz == 0 && bf->bf_len == 0))
__CPROVER_ensures(R == NULL || g.k >= g.len0 || R[g.k] == g.val)
/* NUL terminated. */
__CPROVER_ensures(R == NULL || g.nul || g.k != g.len0 || R[g.k] == '\0')
;

size_t buffer_pop(struct buffer *bf, size_t n)
__CPROVER_requires(FRESHBUF(bf))
__CPROVER_assigns(bf->bf_len)
__CPROVER_ensures(R <= n && R <= OLD(bf->bf_len) && (R == n || R == OLD(bf->bf_len)))
__CPROVER_ensures(bf->bf_len == OLD(bf->bf_len) - R)
;

void buffer_reset(struct buffer *bf)
__CPROVER_requires(__CPROVER_rw_ok(bf, sizeof(struct buffer)))
__CPROVER_assigns(bf->bf_len)
__CPROVER_ensures(bf->bf_len == 0)
;

void buffer_free(struct buffer *bf)
__CPROVER_requires(true)
__CPROVER_assigns()
__CPROVER_ensures(true)
;

struct buffer *buffer_alloc_impl(size_t init_size, struct buffer_callbacks *callbacks)
__CPROVER_requires(__CPROVER_is_fresh(callbacks, sizeof(*callbacks)))
__CPROVER_requires(callbacks->alloc == callback_alloc && callbacks->realloc == callback_realloc)
__CPROVER_assigns(vf_errno)
__CPROVER_ensures(R == NULL || (R->bf_len == 0 && R->bf_siz >= 16 && R->bf_siz >= init_size &&
    __CPROVER_rw_ok(R->bf_ptr, R->bf_siz)))
__CPROVER_ensures(R == NULL || (R->bf_callbacks.alloc == callbacks->alloc &&
    R->bf_callbacks.realloc == callbacks->realloc && R->bf_callbacks.arg == callbacks->arg))
;

#define READ_OK(bf) (g.done && (bf)->bf_len == g.len0 + g.pos && BYTE(bf))
int buffer_read_fd_impl(struct buffer *bf, int fd)
#ifdef P_read
__CPROVER_requires(__CPROVER_is_fresh(bf, sizeof(*bf)))
__CPROVER_requires(PEQ((void *)g.siz, (void *)&bf->bf_siz))
__CPROVER_requires(__CPROVER_is_fresh(g.cur, 1) && PEQ(bf->bf_ptr, g.cur))
#endif
__CPROVER_requires(bf->bf_siz >= 16 && bf->bf_siz <= MAXLEN && bf->bf_len < bf->bf_siz)
__CPROVER_requires(bf->bf_len == g.len0 && g.pos == 0)
__CPROVER_requires(!g.done && g.isopen && fd == g.fd)
__CPROVER_assigns(bf->bf_ptr, bf->bf_siz, bf->bf_len, vf_errno, g.cur, g.pos, g.done)
#ifdef P_read
/* The whole file up to its end follows what was there. */
__CPROVER_ensures(R != 0 || (g.done && bf->bf_len == g.len0 + g.pos && bf->bf_ptr == g.cur))
__CPROVER_ensures(bf->bf_len <= bf->bf_siz)
#else
__CPROVER_requires(__CPROVER_rw_ok(bf, sizeof(*bf)) && __CPROVER_rw_ok(bf->bf_ptr, bf->bf_siz) && BYTE(bf))
__CPROVER_assigns(__CPROVER_object_whole(bf->bf_ptr))
__CPROVER_ensures(bf->bf_siz >= 16 && bf->bf_siz <= MAXLEN && bf->bf_len <= bf->bf_siz &&
    __CPROVER_is_fresh(bf->bf_ptr, bf->bf_siz))
__CPROVER_ensures(R != 0 || READ_OK(bf))
#endif
;

int buffer_read_impl(struct buffer *bf, const char *path)
__CPROVER_requires(__CPROVER_is_fresh(bf, sizeof(*bf)) && bf->bf_siz >= 16 && bf->bf_siz <= MAXLEN)
__CPROVER_requires(__CPROVER_is_fresh(bf->bf_ptr, bf->bf_siz))
__CPROVER_requires(bf->bf_len < bf->bf_siz && BYTE(bf) && bf->bf_len == g.len0 && g.pos == 0)
__CPROVER_requires(__CPROVER_is_fresh(g.path, 1) && PEQ(path, g.path) && !g.done && !g.isopen && g.fd >= 0)
__CPROVER_assigns(bf->bf_ptr, bf->bf_siz, bf->bf_len, vf_errno, g.cur, g.pos, g.done, g.isopen, g.opened,
    __CPROVER_object_whole(bf->bf_ptr))
__CPROVER_ensures(R != 0 || (bf->bf_siz <= MAXLEN && bf->bf_len <= bf->bf_siz &&
    __CPROVER_is_fresh(bf->bf_ptr, bf->bf_siz)))
__CPROVER_ensures(!g.isopen)
__CPROVER_ensures(R != 0 || READ_OK(bf))
;

#define LINELEN (getline->off - 1 - OLD(getline->off))
/* Lines: the next line without its newline, NUL terminated. */
const char *buffer_getline_impl(const struct buffer *bf, struct buffer_getline *getline)
__CPROVER_requires(__CPROVER_is_fresh(bf, sizeof(*bf)) && bf->bf_siz >= 16 && bf->bf_siz <= MAXLEN)
__CPROVER_requires(bf->bf_len <= bf->bf_siz && __CPROVER_is_fresh(bf->bf_ptr, bf->bf_siz))
__CPROVER_requires(__CPROVER_is_fresh(getline, sizeof(*getline)) && getline->off <= MAXLEN + 1)
__CPROVER_requires(FRESHBUF(getline->bf) && getline->bf->bf_siz >= 16)
__CPROVER_requires(g.k >= MAXLEN || getline->off + g.k >= bf->bf_len || bf->bf_ptr[getline->off + g.k] == g.val)
__CPROVER_assigns(__CPROVER_object_whole(getline), __CPROVER_object_whole(getline->bf),
    __CPROVER_object_whole(getline->bf->bf_ptr), vf_errno)
__CPROVER_ensures((R == NULL) == (OLD(getline->off) >= bf->bf_len))
__CPROVER_ensures(R == NULL || (getline->off > OLD(getline->off) && getline->off <= bf->bf_len + 1 &&
    PEQ((char *)R, getline->bf->bf_ptr)))
/* The line ends before the next newline, or at the end. */
__CPROVER_ensures(R == NULL || getline->off == bf->bf_len + 1 || bf->bf_ptr[getline->off - 1] == '\n')
__CPROVER_ensures(R == NULL || g.w >= LINELEN || bf->bf_ptr[OLD(getline->off) + g.w] != '\n')
/* Its bytes are copied and NUL terminated. */
__CPROVER_ensures(R == NULL || g.k >= LINELEN || R[g.k] == g.val)
__CPROVER_ensures(R == NULL || g.k != LINELEN || R[g.k] == '\0')
;

void buffer_getline_free(struct buffer_getline *getline)
__CPROVER_requires(__CPROVER_rw_ok(getline, sizeof(*getline)))
__CPROVER_assigns(__CPROVER_object_whole(getline))
;

static void *ab_callback_realloc(void *ptr, size_t old_size, size_t new_size, void *arg)
__CPROVER_requires(__CPROVER_is_fresh(arg, sizeof(struct arena_scope)))
__CPROVER_requires(old_size <= MAXLEN && new_size <= MAXLEN && new_size >= old_size)
__CPROVER_requires(__CPROVER_is_fresh(ptr, old_size))
__CPROVER_requires(g.k >= old_size || ((char *)ptr)[g.k] == g.val)
__CPROVER_assigns()
__CPROVER_ensures(R == NULL || (__CPROVER_rw_ok(R, new_size) && (g.k >= old_size || ((char *)R)[g.k] == g.val)))
;
static void *ab_callback_alloc(size_t size, void *arg)
__CPROVER_requires(__CPROVER_is_fresh(arg, sizeof(struct arena_scope)) && size <= MAXLEN)
__CPROVER_assigns()
__CPROVER_ensures(R == NULL || __CPROVER_rw_ok(R, size))
;

struct buffer *arena_buffer_alloc(struct arena_scope *s, size_t init_size)
__CPROVER_requires(init_size <= MAXLEN)
__CPROVER_assigns(vf_errno)
__CPROVER_ensures(__CPROVER_is_fresh(R, sizeof(struct buffer)) && R->bf_siz >= 16 &&
    R->bf_siz >= init_size && R->bf_siz <= MAXLEN && R->bf_len == 0 &&
    __CPROVER_is_fresh(R->bf_ptr, R->bf_siz))
;

struct buffer *arena_buffer_read_fd(struct arena_scope *s, int fd)
__CPROVER_requires(g.len0 == 0 && g.pos == 0 && !g.done && g.isopen && fd == g.fd)
__CPROVER_assigns(vf_errno, g.cur, g.pos, g.done)
__CPROVER_ensures(R == NULL || READ_OK(R))
;
struct buffer *arena_buffer_read(struct arena_scope *s, const char *path)
__CPROVER_requires(__CPROVER_is_fresh(g.path, 1) && PEQ(path, g.path))
__CPROVER_requires(g.len0 == 0 && g.pos == 0 && !g.done && !g.isopen && g.fd >= 0)
__CPROVER_assigns(vf_errno, g.cur, g.pos, g.done, g.isopen, g.opened)
__CPROVER_ensures(R == NULL || READ_OK(R))
__CPROVER_ensures(!g.isopen)
;

int file_read(struct file *fe, struct buffer *bf)
__CPROVER_requires(__CPROVER_is_fresh(fe, sizeof(*fe)))
__CPROVER_requires(__CPROVER_is_fresh(g.path, 1) && PEQ(fe->fe_path, g.path))
__CPROVER_requires(__CPROVER_is_fresh(bf, sizeof(*bf)) && bf->bf_siz >= 16 && bf->bf_siz <= MAXLEN)
__CPROVER_requires(__CPROVER_is_fresh(bf->bf_ptr, bf->bf_siz))
__CPROVER_requires(bf->bf_len < bf->bf_siz && BYTE(bf) && bf->bf_len == g.len0 && g.pos == 0)
__CPROVER_requires(!g.done && !g.isopen && g.fd >= 0 && fe->fe_fd == -1)
__CPROVER_assigns(fe->fe_fd, bf->bf_ptr, bf->bf_siz, bf->bf_len, vf_errno, g.cur, g.pos, g.done, g.isopen, g.opened,
    __CPROVER_object_whole(bf->bf_ptr))
/* Success: the whole file was read and its descriptor is kept. */
__CPROVER_ensures(R != 0 || (READ_OK(bf) && g.isopen && fe->fe_fd == g.fd))
/* Failure: no descriptor leaks. */
__CPROVER_ensures(R == 0 || (!g.isopen && fe->fe_fd == -1))
;
void file_close(struct file *fe)
__CPROVER_requires(__CPROVER_is_fresh(fe, sizeof(*fe)))
__CPROVER_requires(g.fd >= 0 && (g.isopen ? fe->fe_fd == g.fd : fe->fe_fd == -1))
__CPROVER_assigns(fe->fe_fd, g.isopen)
__CPROVER_ensures(!g.isopen && fe->fe_fd == -1)
;

void *
vf_arena_malloc(struct arena_scope *s, size_t n)
{
	(void)s;
	return nd_bool() ? NULL : malloc(n);
}
void *
vf_arena_realloc(struct arena_scope *s, void *p, size_t o, size_t n)
{
	char *q = malloc(n);

	(void)s;
	if (q == NULL)
		return NULL;
	VF_ASSERT(__CPROVER_rw_ok(p, o), "arena_realloc: old size");
	if (g.k < o && g.k < n)
		VF_ASSUME(q[g.k] == ((char *)p)[g.k]);
	return q;
}

#define H2(name, fn, decl, ...) void h_##name(void) { decl; \
	if (fn(__VA_ARGS__)) VF_REACH("nonzero"); else VF_REACH("zero"); }
#define H1(name, fn, decl, ...) void h_##name(void) { decl; fn(__VA_ARGS__); VF_REACH("end"); }

H2(reserve, buffer_reserve, struct buffer *bf; size_t len, bf, len)
H2(puts, buffer_puts, struct buffer *bf; const char *str; size_t len, bf, str, len)
H2(putc, buffer_putc, struct buffer *bf; char ch, bf, ch)
H2(vprintf, buffer_vprintf, struct buffer *bf; const char *fmt; va_list ap, bf, fmt, ap)
H2(str, buffer_str, struct buffer *bf, bf)
H2(release, buffer_release, struct buffer *bf, bf)
H2(pop, buffer_pop, struct buffer *bf; size_t n, bf, n)
H1(reset, buffer_reset, struct buffer *bf = malloc(sizeof(*bf)), bf)
H2(alloc, buffer_alloc_impl, size_t n; struct buffer_callbacks *cb, n, cb)
H2(read, buffer_read_fd_impl, struct buffer *bf; int fd, bf, fd)
H2(readpath, buffer_read_impl, struct buffer *bf; const char *path, bf, path)
H2(getline, buffer_getline_impl, struct buffer *bf; struct buffer_getline *gl; vf_errno = 0, bf, gl)
H2(abuf_realloc, ab_callback_realloc, void *p; size_t o; size_t n; void *arg, p, o, n, arg)
H2(abuf_alloc, ab_callback_alloc, size_t n; void *arg, n, arg)
H2(abuf_read_fd, arena_buffer_read_fd, struct arena_scope *s; int fd, s, fd)
H2(abuf_read, arena_buffer_read, struct arena_scope *s; const char *path, s, path)
H2(file_read, file_read, struct file *fe; struct buffer *bf, fe, bf)
H1(file_close, file_close, struct file *fe, fe)
#endif

#ifndef VF_PROOF
#include <stdio.h>
static void *
vf_xrealloc(void *p, size_t o, size_t n)
{
	char *q = malloc(n);
	size_t i;

	for (i = 0; i < o && i < n; i++)
		q[i] = ((char *)p)[i];
	free(p);
	return q;
}

static void
vf_same(struct buffer *bf, const char *model, size_t len)
{
	size_t i;

	VF_ASSERT(buffer_get_len(bf) == len, "length of the buffer");
	VF_ASSERT(buffer_get_size(bf) >= len, "size of the buffer");
	for (i = 0; i < len; i++)
		VF_ASSERT(buffer_get_ptr(bf)[i] == model[i], "bytes of the buffer");
}

#define MODEL (20 * (VF_N + 1) + 20)
void
b_ops(void)
{
	char model[MODEL], chunk[20];
	struct arena_scope s;
	struct buffer *bf;
	size_t i, j, n, nops, len = 0;
	char *str;

	bf = nd_bool() ? buffer_alloc(nd_upto(20)) : arena_buffer_alloc(&s, nd_upto(20));
	VF_ASSUME(bf != NULL);
	nops = nd_upto(VF_N);
	for (i = 0; i < nops; i++) {
		switch (nd_upto(5)) {
		case 0:
			n = nd_upto(18);
			for (j = 0; j < n; j++)
				chunk[j] = model[len + j] = nd_alpha("abc\n");
			VF_ASSUME(buffer_puts(bf, n > 0 ? chunk : NULL, n) == 0);
			len += n;
			break;
		case 1:
			model[len] = nd_alpha("abc\n");
			VF_ASSUME(buffer_putc(bf, model[len]) == 0);
			len++;
			break;
		case 2:
			n = nd_upto(20);
			j = buffer_pop(bf, n);
			VF_ASSERT(j == (n < len ? n : len), "bytes removed");
			len -= j;
			break;
		case 3:
			if (nd_upto(3) == 0) {
				buffer_reset(bf);
				len = 0;
			}
			break;
#ifdef VF_NATIVE
		case 4: {
			char tmp[40];
			int x = nd_int();

			n = (size_t)snprintf(tmp, sizeof(tmp), "<%d>", x);
			VF_ASSERT(buffer_printf(bf, "<%d>", x) == 0, "printf");
			for (j = 0; j < n; j++)
				model[len++] = tmp[j];
			break;
		}
#endif
		default:
			break;
		}
		VF_ASSUME(len + 19 < MODEL);
		vf_same(bf, model, len);
	}
	if (nd_bool()) {
		bool nul = len > 0 && model[len - 1] == '\0';

		str = buffer_str(bf);
		VF_ASSUME(str != NULL);
		for (i = 0; i < len; i++)
			VF_ASSERT(str[i] == model[i], "bytes of the string");
		VF_ASSERT(nul || str[len] == '\0', "NUL terminated");
		VF_ASSERT(buffer_get_len(bf) == 0 && buffer_get_ptr(bf) == NULL, "released");
		free(str);
	}
	buffer_free(bf);
}

static struct buffer *
vf_buffer(const char *bytes, size_t len, size_t siz)
{
	struct buffer *bf = malloc(sizeof(*bf));
	size_t i;

	memset(bf, 0, sizeof(*bf));
	bf->bf_callbacks.alloc = callback_alloc;
	bf->bf_callbacks.realloc = callback_realloc;
	bf->bf_callbacks.free = callback_free;
	bf->bf_ptr = malloc(siz);
	bf->bf_siz = siz;
	bf->bf_len = len;
	for (i = 0; i < len; i++)
		bf->bf_ptr[i] = bytes[i];
	return bf;
}

void
b_getline(void)
{
	char bytes[VF_N + 1];
	struct buffer_getline it = {0};
	struct buffer *bf;
	const char *line;
	size_t i, len, off = 0;

	len = nd_upto(VF_N);
	for (i = 0; i < len; i++)
		bytes[i] = nd_alpha("ab\n\n");
	bf = vf_buffer(bytes, len, len > 0 ? len : 1);
	while ((line = buffer_getline(bf, &it)) != NULL) {
		VF_ASSERT(off < len, "no line past the end");
		for (i = 0; off + i < len && bytes[off + i] != '\n'; i++)
			VF_ASSERT(line[i] == bytes[off + i], "bytes of the line");
		VF_ASSERT(line[i] == '\0', "line is NUL terminated");
		off += i + 1;
	}
	VF_ASSERT(off >= len, "every line returned");
	buffer_free(bf);
}

static void
vf_setup_file(void)
{
	static char *content;
	static char path[1];
	size_t i;
#ifdef VF_NATIVE
	size_t len = nd_upto(nd_bool() ? VF_N * 64 : VF_N);
#else
	size_t len = nd_upto(VF_N + 14);
#endif

	free(content);
	content = malloc(len + 1);
	for (i = 0; i < len; i++)
		content[i] = nd_char();
	vf_file = content;
	vf_filelen = len;
	g.pos = 0;
	g.done = 0;
	g.failed = 0;
	g.isopen = 0;
	g.opened = 0;
	g.fd = 5;
	g.path = path;
}

static void
vf_whole(const struct buffer *bf, size_t off)
{
	size_t i;

	VF_ASSERT(bf->bf_len == off + vf_filelen, "the whole file is read");
	for (i = 0; i < vf_filelen; i++)
		VF_ASSERT(bf->bf_ptr[off + i] == vf_file[i], "bytes of the file");
}

void
b_read(void)
{
	struct buffer *bf;
	int r;

	vf_setup_file();
	g.isopen = 1;
	bf = vf_buffer("xy", 2, 16);
	r = buffer_read_fd_impl(bf, 5);
	if (r == 0) {
		VF_ASSERT(!g.failed, "a failing read is reported");
		VF_ASSERT(bf->bf_ptr[0] == 'x' && bf->bf_ptr[1] == 'y', "prefix kept");
		vf_whole(bf, 2);
	}
	buffer_free(bf);
}

void
b_readpath(void)
{
	struct arena_scope s;
	struct buffer *bf = NULL;
	int fd = -1;

	vf_setup_file();
	switch (nd_upto(3)) {
	case 0:
		bf = arena_buffer_read(&s, g.path);
		VF_ASSERT(!g.isopen, "closed");
		break;
	case 1:
		g.isopen = 1;
		bf = arena_buffer_read_fd(&s, 5);
		break;
	case 2:
		bf = buffer_read(g.path);
		VF_ASSERT(!g.isopen, "closed");
		break;
	default:
		g.isopen = 1;
		bf = buffer_read_fd(5);
		break;
	}
	(void)fd;
	if (bf != NULL) {
		VF_ASSERT(!g.failed, "a failing read is reported");
		vf_whole(bf, 0);
	}
}

void
b_abuf(void)
{
	b_ops();
}

void
b_file(void)
{
	struct file fe = {0};
	struct buffer *bf;

	vf_setup_file();
	fe.fe_path = (char *)g.path;
	fe.fe_fd = -1;
	bf = vf_buffer("", 0, 16);
	if (file_read(&fe, bf) == 0) {
		VF_ASSERT(!g.failed && g.opened, "a failing read is reported");
		vf_whole(bf, 0);
		VF_ASSERT(g.isopen && fe.fe_fd == 5, "descriptor kept");
	} else {
		VF_ASSERT(!g.isopen && fe.fe_fd == -1, "no descriptor leaks");
	}
	file_close(&fe);
	VF_ASSERT(!g.isopen && fe.fe_fd == -1, "closed");
	file_close(&fe);
	buffer_free(bf);
}
#endif
