/*
 * simlibc: the seam between the real knfmt code and the simulated kernel.
 *
 * All knfmt objects are linked into one relocatable object in which every
 * operating system and allocator symbol FOO has been renamed to sim_FOO (see
 * build.py). The functions below forward each call to the simulator over a
 * socket and block until it answers: the process is parked at every call and
 * only the simulator decides what happens next.
 *
 * The program itself is a fork server: every simulated process is a fresh
 * fork of it.
 */
#define _GNU_SOURCE
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <glob.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <regex.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

enum {
#define OP(x) OP_##x,
#include "ops.def"
#undef OP
};

int	knfmt_main(int, char **);

struct req {
	uint32_t	op;
	uint32_t	plen;
	int64_t		a[4];
};

struct rep {
	int64_t		ret;
	int32_t		err;
	uint32_t	plen;
};

static int sock = -1;
static int incall;	/* inside the simulator seam */

static void
die(const char *what)
{
	dprintf(2, "simlibc: %s: %s\n", what, strerror(errno));
	_exit(120);
}

static void
xwritev(int fd, struct iovec *iov, int n)
{
	while (n > 0) {
		ssize_t w = writev(fd, iov, n);
		if (w == -1) {
			if (errno == EINTR)
				continue;
			die("writev");
		}
		while (n > 0 && (size_t)w >= iov->iov_len) {
			w -= (ssize_t)iov->iov_len;
			iov++;
			n--;
		}
		if (n > 0) {
			iov->iov_base = (char *)iov->iov_base + w;
			iov->iov_len -= (size_t)w;
		}
	}
}

/* Returns 0 on EOF. */
static int
xread(int fd, void *buf, size_t len)
{
	char *p = buf;

	while (len > 0) {
		ssize_t n = read(fd, p, len);
		if (n == -1) {
			if (errno == EINTR)
				continue;
			die("read");
		}
		if (n == 0)
			return 0;
		p += n;
		len -= (size_t)n;
	}
	return 1;
}

static int
recv_hdr(int fd, void *buf, size_t len, int *passed)
{
	union {
		char buf[CMSG_SPACE(sizeof(int))];
		struct cmsghdr align;
	} u;
	struct iovec iov = { .iov_base = buf, .iov_len = len };
	struct msghdr msg = {
	    .msg_iov = &iov, .msg_iovlen = 1,
	    .msg_control = u.buf, .msg_controllen = sizeof(u.buf),
	};
	struct cmsghdr *c;
	ssize_t n;

	*passed = -1;
	do {
		n = recvmsg(fd, &msg, 0);
	} while (n == -1 && errno == EINTR);
	if (n <= 0)
		return 0;
	for (c = CMSG_FIRSTHDR(&msg); c != NULL; c = CMSG_NXTHDR(&msg, c))
		if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS)
			memcpy(passed, CMSG_DATA(c), sizeof(int));
	if ((size_t)n < len)
		return xread(fd, (char *)buf + n, len - (size_t)n);
	return 1;
}

static int64_t
call_full(uint32_t op, const int64_t *a, const void *pay, size_t plen,
    const void *pay2, size_t plen2, void *out, size_t outsiz, size_t *outlen,
    int *passed)
{
	struct req rq = { .op = op, .plen = (uint32_t)(plen + plen2) };
	struct rep rp;
	struct iovec iov[3];
	int pfd = -1;

	memcpy(rq.a, a, sizeof(rq.a));
	iov[0].iov_base = &rq;
	iov[0].iov_len = sizeof(rq);
	iov[1].iov_base = (void *)pay;
	iov[1].iov_len = plen;
	iov[2].iov_base = (void *)pay2;
	iov[2].iov_len = plen2;
	incall++;
	xwritev(sock, iov, 3);
	if (!recv_hdr(sock, &rp, sizeof(rp), &pfd))
		_exit(121);	/* Simulator killed us. */
	if (rp.plen > 0) {
		if (rp.plen > outsiz)
			die("oversized reply");
		if (!xread(sock, out, rp.plen))
			_exit(121);
	}
	incall--;
	if (outlen != NULL)
		*outlen = rp.plen;
	if (passed != NULL)
		*passed = pfd;
	else if (pfd != -1)
		close(pfd);
	if (rp.ret == -1)
		errno = rp.err;
	return rp.ret;
}

#define A(...) ((int64_t[4]){ __VA_ARGS__ })
#define call(op, a) call_full(op, a, NULL, 0, NULL, 0, NULL, 0, NULL, NULL)
#define call_path(op, a, p) \
	call_full(op, a, p, strlen(p) + 1, NULL, 0, NULL, 0, NULL, NULL)
#define call_path2(op, a, p, q) \
	call_full(op, a, p, strlen(p) + 1, q, strlen(q) + 1, NULL, 0, NULL, NULL)

/* --- allocator ---------------------------------------------------------- */

static struct {
	uint64_t	seed;
	uint32_t	fill;		/* 0: zero, 1: pattern from seed, 2: 0xff */
	uint32_t	topdown;
	uint32_t	move;		/* realloc always moves */
	uint32_t	gaps;
	uint64_t	limit;		/* largest allocation served, 0: any */
	uint32_t	noom;
	uint32_t	oom_sticky;
	uint32_t	cpu;		/* 1: portable string match, 2: unstable sort */
	uint32_t	poison;		/* overwrite freed memory */
	uint32_t	reuse;		/* hand freed memory out again */
	uint32_t	oom[16];
	uint32_t	nenv;
} cfg;

#define NSITES 16384
struct shared {
	volatile uint64_t	nalloc;
	volatile uint64_t	oom_fired;
	volatile uint64_t	bytes;
	volatile uint64_t	peak;
	volatile uint64_t	work;
	volatile uint32_t	site[NSITES];	/* who allocates, by number */
};
static struct shared *shared;	/* read by the simulator */
static uint64_t nalloc;
static uint64_t live __attribute__((unused));
static int in_main;

static uint64_t
rnd(void)
{
	uint64_t z = (cfg.seed += 0x9e3779b97f4a7c15ull);

	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

/*
 * Processor time, counted rather than measured: edges of the control flow graph
 * taken and memory walked by library functions, in the variant instrumented for
 * it.
 */
void
__sanitizer_cov_trace_pc_guard_init(uint32_t *beg, uint32_t *end)
{
	(void)beg;
	(void)end;
}

void
__sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
	(void)guard;
	if (shared != NULL)
		shared->work++;
}

static void
walked(size_t n)
{
	if (shared != NULL)
		shared->work += 1 + n / 16;
}

void *
work_memchr(const void *p, int c, size_t n)
{
	void *q = memchr(p, c, n);

	walked(q != NULL ? (size_t)((char *)q - (char *)p) : n);
	return q;
}

int
work_memcmp(const void *a, const void *b, size_t n)
{
	walked(n);
	return memcmp(a, b, n);
}

void *
work_memcpy(void *a, const void *b, size_t n)
{
	walked(n);
	return memcpy(a, b, n);
}

void *
work_memmove(void *a, const void *b, size_t n)
{
	walked(n);
	return memmove(a, b, n);
}

void *
work_memset(void *a, int c, size_t n)
{
	walked(n);
	return memset(a, c, n);
}

size_t
work_strlen(const char *s)
{
	size_t n = strlen(s);

	walked(n);
	return n;
}

size_t
work_strnlen(const char *s, size_t max)
{
	size_t n = strnlen(s, max);

	walked(n);
	return n;
}

static size_t
common(const char *a, const char *b, size_t n)
{
	size_t i;

	for (i = 0; i < n && a[i] == b[i] && a[i] != '\0'; i++)
		continue;
	return i;
}

int
work_strcmp(const char *a, const char *b)
{
	walked(common(a, b, (size_t)-1));
	return strcmp(a, b);
}

int
work_strncmp(const char *a, const char *b, size_t n)
{
	walked(common(a, b, n));
	return strncmp(a, b, n);
}

char *
work_strchr(const char *s, int c)
{
	char *q = strchr(s, c);

	walked(q != NULL ? (size_t)(q - s) : strlen(s));
	return q;
}

char *
work_strrchr(const char *s, int c)
{
	walked(strlen(s));
	return strrchr(s, c);
}

char *
work_strstr(const char *s, const char *t)
{
	walked(strlen(s));
	return strstr(s, t);
}

/*
 * Identifies the chain of callers, so that allocations can be told apart by
 * purpose. Relative to the program, which may lie anywhere.
 */
extern char __executable_start[], etext[];
static char *stack_top;

static uint32_t
callers(void **fp)
{
	uint32_t h = 2166136261u;
	int i;

	for (i = 0; i < 7; i++) {
		void **next;
		char *ret;

		if (((uintptr_t)fp & 7) != 0 || (char *)fp >= stack_top)
			break;
		ret = fp[1];
		if (ret < __executable_start || ret >= etext)
			break;
		h = (h ^ (uint32_t)(ret - __executable_start)) * 16777619u;
		next = fp[0];
		if (next <= fp)
			break;
		fp = next;
	}
	return h;
}

static int __attribute__((noinline))
alloc_fails(size_t size)
{
	uint64_t n;
	uint32_t i;

	if (!in_main)
		return 0;
	n = ++nalloc;
	if (shared != NULL) {
		shared->nalloc = n;
		shared->bytes += size;
		if (n <= NSITES)
			shared->site[n - 1] =
			    callers(__builtin_frame_address(0));
	}
	if (cfg.limit != 0 && size > cfg.limit)
		goto fail;
	for (i = 0; i < cfg.noom; i++) {
		if (cfg.oom[i] == n || (cfg.oom_sticky && n >= cfg.oom[i]))
			goto fail;
	}
	return 0;
fail:
	if (shared != NULL)
		shared->oom_fired++;
	errno = ENOMEM;
	return 1;
}

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define REAL_MALLOC 1
#  endif
#endif

static void
fillmem(void *p, size_t n)
{
	if (cfg.fill == 1) {
		uint64_t v = rnd() | 0x0101010101010101ull;
		unsigned char *c = p;
		size_t i;

		for (i = 0; i + 8 <= n; i += 8)
			memcpy(c + i, &v, 8);
		for (; i < n; i++)
			c[i] = (unsigned char)(v >> ((i & 7) * 8));
	} else {
		memset(p, cfg.fill == 2 ? 0xff : 0, n);
	}
}

#ifdef REAL_MALLOC
void *
sim_malloc(size_t n)
{
	void *p;

	if (alloc_fails(n))
		return NULL;
	p = malloc(n);
	if (p != NULL)
		fillmem(p, n);
	return p;
}

void *
sim_calloc(size_t a, size_t b)
{
	size_t n;

	if (__builtin_mul_overflow(a, b, &n) || alloc_fails(n)) {
		errno = ENOMEM;
		return NULL;
	}
	return calloc(a, b);
}

void *
sim_realloc(void *p, size_t n)
{
	if (alloc_fails(n))
		return NULL;
	return realloc(p, n);
}

void
sim_free(void *p)
{
	free(p);
}
#else
/*
 * Seeded allocator: where a block lands, what it contains before the program
 * writes to it, whether realloc moves and what a freed block turns into are
 * all decided by the seed. Blocks freed more than once or not handed out by us
 * trap.
 */
#define REGION (1ull << 32)
#define MAGIC_LIVE 0x5ca1ab1e0badcafeull
#define MAGIC_FREE 0xdeadbeeff00dfaceull
struct blk {
	uint64_t	magic;
	uint64_t	size;
	uint64_t	cap;
	struct blk	*next;
};
static char *region, *lo, *hi;
static struct blk *freelist[64];

static int
ours(const void *p)
{
	return region != NULL && (const char *)p >= region &&
	    (const char *)p < region + REGION;
}

static int
sizeclass(size_t n)
{
	return 64 - __builtin_clzll(n | 1);
}

static void *
blk_alloc(size_t n, int zero)
{
	struct blk *b;
	size_t total, cap;
	int sc;

	cap = (n + 15) & ~(size_t)15;
	if (cap == 0)
		cap = 16;
	if (region == NULL) {
		region = mmap((void *)0x200000000000ull, REGION,
		    PROT_READ | PROT_WRITE,
		    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (region == MAP_FAILED)
			die("mmap");
		lo = region;
		hi = region + REGION;
	}
	sc = sizeclass(cap);
	if (cfg.reuse && freelist[sc] != NULL && freelist[sc]->cap >= cap) {
		b = freelist[sc];
		freelist[sc] = b->next;
		goto out;
	}
	total = cap + sizeof(*b);
	if (cfg.gaps)
		total += 16 * (rnd() % 5);
	if ((size_t)(hi - lo) < total && freelist[sc] != NULL &&
	    freelist[sc]->cap >= cap) {
		b = freelist[sc];
		freelist[sc] = b->next;
		goto out;
	}
	if ((size_t)(hi - lo) < total) {
		errno = ENOMEM;
		return NULL;
	}
	if (cfg.topdown) {
		hi -= total;
		b = (struct blk *)hi;
	} else {
		b = (struct blk *)lo;
		lo += total;
	}
	b->cap = cap;
out:
	b->magic = MAGIC_LIVE;
	b->size = n;
	b->next = NULL;
	live += b->cap;
	if (shared != NULL && live > shared->peak)
		shared->peak = live;
	if (zero)
		memset(&b[1], 0, n);
	else
		fillmem(&b[1], b->cap);
	return &b[1];
}

void
sim_free(void *p)
{
	struct blk *b;
	int sc;

	if (p == NULL)
		return;
	if (!ours(p)) {
		free(p);	/* handed out inside the C library */
		return;
	}
	b = (struct blk *)p - 1;
	if (b->magic != MAGIC_LIVE)
		__builtin_trap();
	b->magic = MAGIC_FREE;
	live -= b->cap;
	if (cfg.poison)
		memset(p, 0xd5, b->cap);
	sc = sizeclass(b->cap);
	b->next = freelist[sc];
	freelist[sc] = b;
}

void *
sim_malloc(size_t n)
{
	if (alloc_fails(n))
		return NULL;
	return blk_alloc(n, 0);
}

void *
sim_calloc(size_t a, size_t b)
{
	size_t n;

	if (__builtin_mul_overflow(a, b, &n) || alloc_fails(n)) {
		errno = ENOMEM;
		return NULL;
	}
	return blk_alloc(n, 1);
}

void *
sim_realloc(void *p, size_t n)
{
	struct blk *b;
	void *q;

	if (alloc_fails(n))
		return NULL;
	if (p == NULL)
		return blk_alloc(n, 0);
	if (!ours(p))
		return realloc(p, n);
	b = (struct blk *)p - 1;
	if (b->magic != MAGIC_LIVE)
		__builtin_trap();
	if (n <= b->cap && !cfg.move) {
		b->size = n;
		return p;
	}
	q = blk_alloc(n, 0);
	if (q == NULL)
		return NULL;
	memcpy(q, p, b->size < n ? b->size : n);
	sim_free(p);
	return q;
}
#endif

void *
sim_reallocarray(void *p, size_t a, size_t b)
{
	size_t n;

	if (__builtin_mul_overflow(a, b, &n)) {
		errno = ENOMEM;
		return NULL;
	}
	return sim_realloc(p, n);
}

char *
sim_strndup(const char *s, size_t n)
{
	size_t l = strnlen(s, n);
	char *p = sim_malloc(l + 1);

	if (p == NULL)
		return NULL;
	memcpy(p, s, l);
	p[l] = '\0';
	return p;
}

char *
sim_strdup(const char *s)
{
	return sim_strndup(s, strlen(s));
}

/*
 * Sorting: stable as long as there is memory to do so, as in the GNU C library.
 * Otherwise, and on other systems, equal elements end up in any order.
 */
static void
swap_bytes(char *a, char *b, size_t size)
{
	while (size-- > 0) {
		char c = *a;

		*a++ = *b;
		*b++ = c;
	}
}

static void
sift(char *v, size_t i, size_t n, size_t size,
    int (*cmp)(const void *, const void *))
{
	size_t c;

	for (; (c = 2 * i + 1) < n; i = c) {
		if (c + 1 < n && cmp(v + c * size, v + (c + 1) * size) < 0)
			c++;
		if (cmp(v + i * size, v + c * size) >= 0)
			break;
		swap_bytes(v + i * size, v + c * size, size);
	}
}

void
sim_qsort(void *base, size_t n, size_t size,
    int (*cmp)(const void *, const void *))
{
	char *v = base;
	void *tmp = NULL;
	size_t i;

	if ((cfg.cpu & 2) == 0 &&
	    (n * size <= 1024 || (tmp = sim_malloc(n * size)) != NULL)) {
		qsort(base, n, size, cmp);
		sim_free(tmp);
		return;
	}
	for (i = n / 2; i-- > 0;)
		sift(v, i, n, size, cmp);
	for (i = n; i-- > 1;) {
		swap_bytes(v, v + i * size, size);
		sift(v, 0, i, size, cmp);
	}
}

/* Regular expressions need memory, for compilation and for execution. */
int
sim_regcomp(regex_t *re, const char *pattern, int flags)
{
	if (alloc_fails(1)) {
		/* Like glibc: nothing to free. */
		memset(re, 0, sizeof(*re));
		return REG_ESPACE;
	}
	return regcomp(re, pattern, flags);
}

int
sim_regexec(const regex_t *re, const char *str, size_t n, regmatch_t rm[],
    int flags)
{
	/* glibc has no other way to tell than errno. */
	if (alloc_fails(1))
		return REG_NOMATCH;
	return regexec(re, str, n, rm, flags);
}

int
sim_vasprintf(char **out, const char *fmt, va_list ap)
{
	va_list cp;
	int n;

	va_copy(cp, ap);
	n = vsnprintf(NULL, 0, fmt, cp);
	va_end(cp);
	if (n < 0)
		return -1;
	*out = sim_malloc((size_t)n + 1);
	if (*out == NULL)
		return -1;
	return vsnprintf(*out, (size_t)n + 1, fmt, ap);
}

int
sim_asprintf(char **out, const char *fmt, ...)
{
	va_list ap;
	int n;

	va_start(ap, fmt);
	n = sim_vasprintf(out, fmt, ap);
	va_end(ap);
	return n;
}

/* --- files -------------------------------------------------------------- */

int
sim_open(const char *path, int flags, ...)
{
	va_list ap;
	int mode = 0;

	if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) {
		va_start(ap, flags);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	return (int)call_path(OP_OPEN, A(flags, mode), path);
}

int
sim_creat(const char *path, mode_t mode)
{
	return (int)call_path(OP_OPEN, A(O_CREAT | O_WRONLY | O_TRUNC, mode),
	    path);
}

int
sim_openat(int dirfd, const char *path, int flags, ...)
{
	va_list ap;
	int mode = 0;

	if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) {
		va_start(ap, flags);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	return (int)call_path(OP_OPENAT, A(dirfd, flags, mode), path);
}

int
sim_close(int fd)
{
	return (int)call(OP_CLOSE, A(fd));
}

ssize_t
sim_read(int fd, void *buf, size_t n)
{
	/* Bounded as the kernel bounds it. */
	size_t want = n > (1 << 20) ? (1 << 20) : n;

	return call_full(OP_READ, A(fd, (int64_t)want), NULL, 0, NULL, 0, buf,
	    want, NULL, NULL);
}

ssize_t
sim_write(int fd, const void *buf, size_t n)
{
	return call_full(OP_WRITE, A(fd, (int64_t)n), buf,
	    n > (1 << 24) ? (1 << 24) : n, NULL, 0, NULL, 0, NULL, NULL);
}

ssize_t
sim_pread(int fd, void *buf, size_t n, off_t off)
{
	size_t want = n > (1 << 20) ? (1 << 20) : n;

	return call_full(OP_PREAD, A(fd, (int64_t)want, off), NULL, 0, NULL, 0,
	    buf, want, NULL, NULL);
}

ssize_t
sim_pwrite(int fd, const void *buf, size_t n, off_t off)
{
	return call_full(OP_PWRITE, A(fd, (int64_t)n, off), buf, n, NULL, 0,
	    NULL, 0, NULL, NULL);
}

ssize_t
sim_writev(int fd, const struct iovec *iov, int cnt)
{
	char *buf;
	size_t len = 0, off = 0;
	ssize_t ret;
	int i;

	for (i = 0; i < cnt; i++)
		len += iov[i].iov_len;
	buf = malloc(len + 1);
	for (i = 0; i < cnt; i++) {
		memcpy(buf + off, iov[i].iov_base, iov[i].iov_len);
		off += iov[i].iov_len;
	}
	ret = sim_write(fd, buf, len);
	free(buf);
	return ret;
}

ssize_t
sim_readv(int fd, const struct iovec *iov, int cnt)
{
	ssize_t total = 0;
	int i;

	for (i = 0; i < cnt; i++) {
		ssize_t n;

		if (iov[i].iov_len == 0)
			continue;
		n = sim_read(fd, iov[i].iov_base, iov[i].iov_len);
		if (n == -1)
			return total > 0 ? total : -1;
		total += n;
		if ((size_t)n < iov[i].iov_len)
			break;
	}
	return total;
}

off_t
sim_lseek(int fd, off_t off, int whence)
{
	return call(OP_LSEEK, A(fd, off, whence));
}

static int
do_stat(uint32_t op, const int64_t *a, const char *path, struct stat *sb)
{
	int64_t v[10];
	size_t n;
	int64_t ret;

	ret = call_full(op, a, path, path != NULL ? strlen(path) + 1 : 0, NULL,
	    0, v, sizeof(v), &n, NULL);
	if (ret == -1)
		return -1;
	memset(sb, 0, sizeof(*sb));
	sb->st_dev = (dev_t)v[0];
	sb->st_ino = (ino_t)v[1];
	sb->st_mode = (mode_t)v[2];
	sb->st_nlink = (nlink_t)v[3];
	sb->st_uid = (uid_t)v[4];
	sb->st_gid = (gid_t)v[5];
	sb->st_size = v[6];
	sb->st_mtime = v[7];
	sb->st_ctime = v[8];
	sb->st_atime = v[9];
	sb->st_blksize = 4096;
	sb->st_blocks = (sb->st_size + 511) / 512;
	return 0;
}

int
sim_fstat(int fd, struct stat *sb)
{
	return do_stat(OP_FSTAT, A(fd), NULL, sb);
}

int
sim_stat(const char *path, struct stat *sb)
{
	return do_stat(OP_STAT, A(0), path, sb);
}

int
sim_lstat(const char *path, struct stat *sb)
{
	return do_stat(OP_LSTAT, A(0), path, sb);
}

int
sim_fstatat(int fd, const char *path, struct stat *sb, int flags)
{
	return do_stat(OP_FSTATAT, A(fd, flags), path, sb);
}

int
sim_access(const char *path, int mode)
{
	return (int)call_path(OP_ACCESS, A(mode, AT_FDCWD), path);
}

int
sim_faccessat(int fd, const char *path, int mode, int flags)
{
	(void)flags;
	return (int)call_path(OP_ACCESS, A(mode, fd), path);
}

static int
do_mkstemp(char *tmpl, int flags, int suffixlen)
{
	size_t n = strlen(tmpl), m = 0;
	char out[PATH_MAX];
	int64_t ret;

	ret = call_full(OP_MKSTEMP, A(flags, suffixlen), tmpl, n + 1, NULL, 0,
	    out, sizeof(out), &m, NULL);
	if (ret != -1 && m == n)
		memcpy(tmpl, out, n);
	return (int)ret;
}

int
sim_mkstemp(char *tmpl)
{
	return do_mkstemp(tmpl, 0, 0);
}

int
sim_mkostemp(char *tmpl, int flags)
{
	return do_mkstemp(tmpl, flags, 0);
}

int
sim_mkstemps(char *tmpl, int suffixlen)
{
	return do_mkstemp(tmpl, 0, suffixlen);
}

int
sim_rename(const char *a, const char *b)
{
	return (int)call_path2(OP_RENAME, A(0), a, b);
}

int
sim_renameat(int fa, const char *a, int fb, const char *b)
{
	return (int)call_path2(OP_RENAMEAT, A(fa, fb), a, b);
}

int
sim_link(const char *a, const char *b)
{
	return (int)call_path2(OP_LINK, A(0), a, b);
}

int
sim_symlink(const char *a, const char *b)
{
	return (int)call_path2(OP_SYMLINK, A(0), a, b);
}

ssize_t
sim_readlink(const char *p, char *buf, size_t n)
{
	return call_full(OP_READLINK, A((int64_t)n), p, strlen(p) + 1, NULL, 0,
	    buf, n, NULL, NULL);
}

int
sim_unlink(const char *p)
{
	return (int)call_path(OP_UNLINK, A(0), p);
}

int
sim_remove(const char *p)
{
	return (int)call_path(OP_UNLINK, A(0), p);
}

int
sim_unlinkat(int fd, const char *p, int flags)
{
	return (int)call_path(OP_UNLINKAT, A(fd, flags), p);
}

int
sim_rmdir(const char *p)
{
	return (int)call_path(OP_RMDIR, A(0), p);
}

int
sim_mkdir(const char *p, mode_t mode)
{
	return (int)call_path(OP_MKDIR, A(mode), p);
}

int
sim_fchmod(int fd, mode_t mode)
{
	return (int)call(OP_FCHMOD, A(fd, mode));
}

int
sim_chmod(const char *p, mode_t mode)
{
	return (int)call_path(OP_CHMOD, A(mode), p);
}

int
sim_fchown(int fd, uid_t u, gid_t g)
{
	return (int)call(OP_FCHOWN, A(fd, (int)u, (int)g));
}

int
sim_chown(const char *p, uid_t u, gid_t g)
{
	return (int)call_path(OP_CHOWN, A((int)u, (int)g), p);
}

int
sim_lchown(const char *p, uid_t u, gid_t g)
{
	return (int)call_path(OP_LCHOWN, A((int)u, (int)g), p);
}

mode_t
sim_umask(mode_t m)
{
	return (mode_t)call(OP_UMASK, A(m));
}

int
sim_fsync(int fd)
{
	return (int)call(OP_FSYNC, A(fd));
}

int
sim_fdatasync(int fd)
{
	return (int)call(OP_FDATASYNC, A(fd));
}

void
sim_sync(void)
{
	(void)call(OP_SYNC, A(0));
}

int
sim_ftruncate(int fd, off_t n)
{
	return (int)call(OP_FTRUNCATE, A(fd, n));
}

int
sim_truncate(const char *p, off_t n)
{
	return (int)call_path(OP_TRUNCATE, A(n), p);
}

int
sim_pipe2(int fds[2], int flags)
{
	int32_t v[2];
	int64_t ret;

	ret = call_full(OP_PIPE, A(flags), NULL, 0, NULL, 0, v, sizeof(v), NULL,
	    NULL);
	if (ret == -1)
		return -1;
	fds[0] = v[0];
	fds[1] = v[1];
	return 0;
}

int
sim_pipe(int fds[2])
{
	return sim_pipe2(fds, 0);
}

int
sim_dup(int fd)
{
	return (int)call(OP_DUP, A(fd));
}

int
sim_dup2(int a, int b)
{
	return (int)call(OP_DUP2, A(a, b));
}

int
sim_dup3(int a, int b, int flags)
{
	(void)flags;
	return (int)call(OP_DUP2, A(a, b));
}

int
sim_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	long arg;

	va_start(ap, cmd);
	arg = va_arg(ap, long);
	va_end(ap);
	return (int)call(OP_FCNTL, A(fd, cmd, arg));
}

int
sim_flock(int fd, int op)
{
	(void)fd;
	(void)op;
	return 0;
}

int
sim_isatty(int fd)
{
	return call(OP_ISATTY, A(fd)) == 1;
}

int
sim_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	void *arg;
	int64_t ret;

	va_start(ap, req);
	arg = va_arg(ap, void *);
	va_end(ap);
	ret = call(OP_ISATTY, A(fd, 1));
	if (ret == -1)
		return -1;
	if (req == TIOCGWINSZ && arg != NULL) {
		struct winsize *ws = arg;

		memset(ws, 0, sizeof(*ws));
		ws->ws_row = 24;
		ws->ws_col = (unsigned short)ret;
		return 0;
	}
	errno = EINVAL;
	return -1;
}

char *
sim_realpath(const char *path, char *resolved)
{
	char out[PATH_MAX + 1];
	size_t n = 0;
	int64_t ret;

	ret = call_full(OP_REALPATH, A(0), path, strlen(path) + 1, NULL, 0, out,
	    sizeof(out), &n, NULL);
	if (ret == -1)
		return NULL;
	if (resolved == NULL)
		resolved = sim_malloc(n + 1);
	if (resolved == NULL)
		return NULL;
	memcpy(resolved, out, n);
	resolved[n] = '\0';
	return resolved;
}

char *
sim_getcwd(char *buf, size_t siz)
{
	char out[PATH_MAX + 1];
	size_t n = 0;

	if (call_full(OP_GETCWD, A(0), NULL, 0, NULL, 0, out, sizeof(out), &n,
	    NULL) == -1)
		return NULL;
	if (buf == NULL) {
		buf = sim_malloc(n + 1);
		if (buf == NULL)
			return NULL;
	} else if (siz < n + 1) {
		errno = ERANGE;
		return NULL;
	}
	memcpy(buf, out, n);
	buf[n] = '\0';
	return buf;
}

int
sim_chdir(const char *p)
{
	return (int)call_path(OP_CHDIR, A(0), p);
}

int
sim_fchdir(int fd)
{
	return (int)call(OP_FCHDIR, A(fd));
}

int
sim_futimens(int fd, const struct timespec *ts)
{
	(void)ts;
	return (int)call_path(OP_UTIMENS, A(fd), "");
}

int
sim_utimensat(int fd, const char *path, const struct timespec *ts, int flags)
{
	(void)ts;
	(void)flags;
	return (int)call_path(OP_UTIMENS, A(fd), path != NULL ? path : "");
}

int
sim_utimes(const char *path, const struct timeval *tv)
{
	(void)tv;
	return (int)call_path(OP_UTIMENS, A(AT_FDCWD), path);
}

int
sim_utime(const char *path, const void *t)
{
	(void)t;
	return (int)call_path(OP_UTIMENS, A(AT_FDCWD), path);
}

/* --- directories -------------------------------------------------------- */

struct simdir {
	int		 fd;
	size_t		 len, off;
	struct dirent	 de;
	char		 names[1 << 16];
};

static int
dir_fill(struct simdir *d)
{
	d->off = 0;
	return call_full(OP_READDIR, A(d->fd), NULL, 0, NULL, 0, d->names,
	    sizeof(d->names), &d->len, NULL) == -1 ? -1 : 0;
}

DIR *
sim_fdopendir(int fd)
{
	struct simdir *d = calloc(1, sizeof(*d));

	d->fd = fd;
	if (dir_fill(d) == -1) {
		free(d);
		return NULL;
	}
	return (DIR *)d;
}

DIR *
sim_opendir(const char *path)
{
	DIR *d;
	int fd;

	fd = sim_open(path, O_RDONLY | O_DIRECTORY | O_CLOEXEC);
	if (fd == -1)
		return NULL;
	d = sim_fdopendir(fd);
	if (d == NULL)
		sim_close(fd);
	return d;
}

struct dirent *
sim_readdir(DIR *dp)
{
	struct simdir *d = (struct simdir *)dp;
	const char *p;

	if (d->off >= d->len)
		return NULL;
	p = d->names + d->off;
	d->off += strlen(p) + 1;
	memset(&d->de, 0, sizeof(d->de));
	d->de.d_ino = 1;
	d->de.d_type = p[0] == 'd' ? DT_DIR : p[0] == 'l' ? DT_LNK : DT_REG;
	snprintf(d->de.d_name, sizeof(d->de.d_name), "%s", p + 1);
	return &d->de;
}

int
sim_closedir(DIR *dp)
{
	int fd = ((struct simdir *)dp)->fd;

	free(dp);
	return sim_close(fd);
}

int
sim_dirfd(DIR *dp)
{
	return ((struct simdir *)dp)->fd;
}

void
sim_rewinddir(DIR *dp)
{
	((struct simdir *)dp)->off = 0;
}

int
sim_glob(const char *pat, int flags, int (*fn)(const char *, int), glob_t *g)
{
	g->gl_opendir = (void *(*)(const char *))sim_opendir;
	g->gl_readdir = (struct dirent *(*)(void *))sim_readdir;
	g->gl_closedir = (void (*)(void *))sim_closedir;
	g->gl_stat = sim_stat;
	g->gl_lstat = sim_lstat;
	return glob(pat, flags | GLOB_ALTDIRFUNC, fn, g);
}

/* --- less common ways of doing the same --------------------------------- */

char *
sim_mkdtemp(char *tmpl)
{
	size_t n = strlen(tmpl);
	int i;

	for (i = 0; i < 100; i++) {
		int j;

		for (j = 1; n >= 6 && j <= 6; j++)
			tmpl[n - j] = (char)('a' +
			    call(OP_RANDOM, A(0)) % 26);
		if (call_path(OP_MKDIR, A(0700), tmpl) == 0)
			return tmpl;
		if (errno != EEXIST)
			break;
	}
	return NULL;
}

int
sim_renameat2(int fa, const char *a, int fb, const char *b, unsigned int flags)
{
	if (flags != 0) {
		errno = EINVAL;
		return -1;
	}
	return (int)call_path2(OP_RENAMEAT, A(fa, fb), a, b);
}

#define CWDONLY(fd, p) do {						\
	if ((fd) != AT_FDCWD && (p)[0] != '/') {			\
		errno = EINVAL;						\
		return -1;						\
	}								\
} while (0)

int
sim_linkat(int fa, const char *a, int fb, const char *b, int flags)
{
	(void)flags;
	CWDONLY(fa, a);
	CWDONLY(fb, b);
	return (int)call_path2(OP_LINK, A(0), a, b);
}

int
sim_symlinkat(const char *a, int fb, const char *b)
{
	CWDONLY(fb, b);
	return (int)call_path2(OP_SYMLINK, A(0), a, b);
}

ssize_t
sim_readlinkat(int fd, const char *p, char *buf, size_t n)
{
	CWDONLY(fd, p);
	return sim_readlink(p, buf, n);
}

int
sim_mkdirat(int fd, const char *p, mode_t mode)
{
	CWDONLY(fd, p);
	return sim_mkdir(p, mode);
}

int
sim_fchmodat(int fd, const char *p, mode_t mode, int flags)
{
	(void)flags;
	CWDONLY(fd, p);
	return sim_chmod(p, mode);
}

int
sim_fchownat(int fd, const char *p, uid_t u, gid_t g, int flags)
{
	CWDONLY(fd, p);
	return flags & AT_SYMLINK_NOFOLLOW ? sim_lchown(p, u, g) :
	    sim_chown(p, u, g);
}

ssize_t
sim_copy_file_range(int a, off_t *ao, int b, off_t *bo, size_t n,
    unsigned int flags)
{
	static char buf[1 << 16];
	ssize_t r, w;

	(void)flags;
	if (n > sizeof(buf))
		n = sizeof(buf);
	r = ao != NULL ? sim_pread(a, buf, n, *ao) : sim_read(a, buf, n);
	if (r <= 0)
		return r;
	w = bo != NULL ? sim_pwrite(b, buf, (size_t)r, *bo) :
	    sim_write(b, buf, (size_t)r);
	if (w == -1)
		return -1;
	if (ao != NULL)
		*ao += w;
	else if (w < r)
		sim_lseek(a, w - r, SEEK_CUR);
	if (bo != NULL)
		*bo += w;
	return w;
}

ssize_t
sim_sendfile(int out, int in, off_t *off, size_t n)
{
	return sim_copy_file_range(in, off, out, NULL, n, 0);
}

int
sim_fallocate(int fd, int mode, off_t off, off_t len)
{
	struct stat sb;

	if (mode != 0)
		return 0;
	if (sim_fstat(fd, &sb) == -1)
		return -1;
	return sb.st_size >= off + len ? 0 : sim_ftruncate(fd, off + len);
}

int
sim_posix_fallocate(int fd, off_t off, off_t len)
{
	return sim_fallocate(fd, 0, off, len) == -1 ? errno : 0;
}

int
sim_syncfs(int fd)
{
	(void)fd;
	(void)call(OP_SYNC, A(0));
	return 0;
}

int
sim_posix_fadvise(int fd, off_t off, off_t len, int advice)
{
	(void)fd;
	(void)off;
	(void)len;
	(void)advice;
	return 0;
}

unsigned int
sim_sleep(unsigned int n)
{
	(void)n;
	(void)call(OP_TIME, A(0));
	return 0;
}

int
sim_usleep(unsigned int n)
{
	(void)n;
	(void)call(OP_TIME, A(0));
	return 0;
}

int
sim_nanosleep(const struct timespec *a, struct timespec *b)
{
	(void)a;
	(void)b;
	(void)call(OP_TIME, A(0));
	return 0;
}

unsigned int
sim_alarm(unsigned int n)
{
	(void)n;
	return 0;
}

int
sim_poll(struct pollfd *p, nfds_t n, int timeout)
{
	nfds_t i;

	(void)timeout;
	(void)call(OP_TIME, A(0));
	for (i = 0; i < n; i++)
		p[i].revents = p[i].events;
	return (int)n;
}

int
sim_getrlimit(int what, struct rlimit *rl)
{
	rl->rlim_cur = rl->rlim_max = what == RLIMIT_NOFILE ? 1024 :
	    RLIM_INFINITY;
	return 0;
}

int
sim_setrlimit(int what, const struct rlimit *rl)
{
	(void)what;
	(void)rl;
	return 0;
}

int
sim_gethostname(char *buf, size_t n)
{
	snprintf(buf, n, "sim%d", (int)(call(OP_RANDOM, A(0)) % 1000));
	return 0;
}

void *
sim_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
	char *p;
	size_t done = 0;

	if (fd == -1 || (flags & MAP_ANONYMOUS))
		return mmap(addr, len, prot, flags, fd, off);
	p = mmap(NULL, len, PROT_READ | PROT_WRITE,
	    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED)
		return p;
	while (done < len) {
		ssize_t n = sim_pread(fd, p + done, len - done,
		    off + (off_t)done);
		if (n == -1) {
			munmap(p, len);
			return MAP_FAILED;
		}
		if (n == 0)
			break;
		done += (size_t)n;
	}
	return p;
}

/* --- processes ---------------------------------------------------------- */

pid_t
sim_fork(void)
{
	int64_t ret;
	pid_t pid;
	int fd = -1;

	ret = call_full(OP_FORK, A(0), NULL, 0, NULL, 0, NULL, 0, NULL, &fd);
	if (ret == -1)
		return -1;
	pid = fork();
	if (pid == -1)
		die("fork");
	if (pid == 0) {
		close(sock);
		sock = fd;
		return 0;
	}
	close(fd);
	return (pid_t)ret;
}

void	sim__exit(int);

static int
do_exec(const char *path, int search, char *const argv[])
{
	char buf[65536];
	size_t n = 0;
	int i;

	n = strlen(path) + 1;
	memcpy(buf, path, n);
	for (i = 0; argv[i] != NULL; i++) {
		size_t l = strlen(argv[i]) + 1;

		if (n + l > sizeof(buf)) {
			errno = E2BIG;
			return -1;
		}
		memcpy(buf + n, argv[i], l);
		n += l;
	}
	if (call_full(OP_EXEC, A(search, i), buf, n, NULL, 0, NULL, 0, NULL,
	    NULL) == -1)
		return -1;
	/* The simulator runs the new image. */
	_exit(0);
}

#define VARARGV(first)							\
	char *argv[128];						\
	va_list ap;							\
	int n = 0;							\
	argv[n++] = (char *)first;					\
	va_start(ap, first);						\
	while (n < 127 && (argv[n] = va_arg(ap, char *)) != NULL)	\
		n++;							\
	argv[n] = NULL;							\
	va_end(ap)

int
sim_execl(const char *path, const char *arg0, ...)
{
	VARARGV(arg0);
	return do_exec(path, 0, argv);
}

int
sim_execlp(const char *path, const char *arg0, ...)
{
	VARARGV(arg0);
	return do_exec(path, 1, argv);
}

int
sim_execv(const char *path, char *const argv[])
{
	return do_exec(path, 0, argv);
}

int
sim_execve(const char *path, char *const argv[], char *const envp[])
{
	(void)envp;
	return do_exec(path, 0, argv);
}

int
sim_execvp(const char *path, char *const argv[])
{
	return do_exec(path, 1, argv);
}

struct spawn_action {
	struct spawn_action	*next;
	int			 kind, a, b, mode;
	char			*path;
};

int
sim_posix_spawn_file_actions_init(posix_spawn_file_actions_t *fa)
{
	memset(fa, 0, sizeof(*fa));
	return 0;
}

int
sim_posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *fa)
{
	(void)fa;
	return 0;
}

static int
spawn_add(posix_spawn_file_actions_t *fa, int kind, int a, int b, int mode,
    const char *path)
{
	struct spawn_action *sa = calloc(1, sizeof(*sa));
	struct spawn_action **tail;

	sa->kind = kind;
	sa->a = a;
	sa->b = b;
	sa->mode = mode;
	sa->path = path != NULL ? strdup(path) : NULL;
	for (tail = (struct spawn_action **)&fa->__actions; *tail != NULL;
	    tail = &(*tail)->next)
		continue;
	*tail = sa;
	return 0;
}

int
sim_posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *fa, int fd)
{
	return spawn_add(fa, 0, fd, 0, 0, NULL);
}

int
sim_posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *fa, int a,
    int b)
{
	return spawn_add(fa, 1, a, b, 0, NULL);
}

int
sim_posix_spawn_file_actions_addopen(posix_spawn_file_actions_t *fa, int fd,
    const char *path, int flags, mode_t mode)
{
	return spawn_add(fa, 2, fd, flags, (int)mode, path);
}

static int
do_spawn(pid_t *out, const char *path, int search,
    const posix_spawn_file_actions_t *fa, char *const argv[])
{
	struct spawn_action *sa;
	pid_t pid;

	pid = sim_fork();
	if (pid == -1)
		return errno;
	if (pid > 0) {
		/* Like glibc: failure to execute is reported right here. */
		int64_t error;

		error = call_full(OP_SPAWNED, A(pid), NULL, 0, NULL, 0, NULL, 0,
		    NULL, NULL);
		if (error > 0)
			return (int)error;
		if (out != NULL)
			*out = pid;
		return 0;
	}
	sa = fa != NULL ? (struct spawn_action *)fa->__actions : NULL;
	for (; sa != NULL; sa = sa->next) {
		if (sa->kind == 0) {
			(void)sim_close(sa->a);
		} else if (sa->kind == 1) {
			if (sim_dup2(sa->a, sa->b) == -1)
				goto fail;
		} else {
			int fd = sim_open(sa->path, sa->b, sa->mode);

			if (fd == -1)
				goto fail;
			if (fd != sa->a) {
				(void)sim_dup2(fd, sa->a);
				(void)sim_close(fd);
			}
		}
	}
	(void)do_exec(path, search, argv);
fail:
	(void)call(OP_EXIT, A(127, errno));
	_exit(0);
}

int
sim_posix_spawn(pid_t *pid, const char *path,
    const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at,
    char *const argv[], char *const envp[])
{
	(void)at;
	(void)envp;
	return do_spawn(pid, path, 0, fa, argv);
}

int
sim_posix_spawnp(pid_t *pid, const char *path,
    const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at,
    char *const argv[], char *const envp[])
{
	(void)at;
	(void)envp;
	return do_spawn(pid, path, 1, fa, argv);
}

pid_t
sim_waitpid(pid_t pid, int *status, int flags)
{
	int32_t st = 0;
	int64_t ret;

	ret = call_full(OP_WAITPID, A(pid, flags), NULL, 0, NULL, 0, &st,
	    sizeof(st), NULL, NULL);
	if (ret > 0 && status != NULL)
		*status = st;
	return (pid_t)ret;
}

pid_t
sim_wait(int *status)
{
	return sim_waitpid(-1, status, 0);
}

pid_t
sim_wait4(pid_t pid, int *status, int flags, struct rusage *ru)
{
	if (ru != NULL)
		memset(ru, 0, sizeof(*ru));
	return sim_waitpid(pid, status, flags);
}

void
sim__exit(int code)
{
	(void)call(OP_EXIT, A(code));
	_exit(0);
}

pid_t
sim_getpid(void)
{
	return (pid_t)call(OP_GETPID, A(0));
}

pid_t
sim_getppid(void)
{
	return (pid_t)call(OP_GETPPID, A(0));
}

uid_t
sim_getuid(void)
{
	return (uid_t)call(OP_GETUID, A(0));
}

gid_t
sim_getgid(void)
{
	return (gid_t)call(OP_GETGID, A(0));
}

int
sim_raise(int sig)
{
	return (int)call(OP_KILL, A(call(OP_GETPID, A(0)), sig));
}

int
sim_kill(pid_t pid, int sig)
{
	return (int)call(OP_KILL, A(pid, sig));
}

typedef void (*sighandler)(int);

sighandler
sim_signal(int sig, sighandler h)
{
	if (sig == SIGPIPE)
		(void)call(OP_SIGPIPE, A(h == SIG_DFL ? 0 : 1));
	return SIG_DFL;
}

int
sim_sigaction(int sig, const struct sigaction *sa, struct sigaction *old)
{
	if (old != NULL)
		memset(old, 0, sizeof(*old));
	if (sa != NULL && sig == SIGPIPE)
		(void)call(OP_SIGPIPE, A(sa->sa_handler == SIG_DFL ? 0 : 1));
	return 0;
}

void
sim___assert_fail(const char *expr, const char *file, unsigned int line,
    const char *fun)
{
	char buf[1024];

	snprintf(buf, sizeof(buf), "%s: %s:%u: %s", fun, file, line, expr);
	(void)call_path(OP_ASSERT, A(0), buf);
	_exit(0);
}

void
sim_abort(void)
{
	(void)call_path(OP_ASSERT, A(0), "abort");
	_exit(0);
}

/* --- clocks and randomness ---------------------------------------------- */

time_t
sim_time(time_t *t)
{
	time_t now = (time_t)call(OP_TIME, A(0));

	if (t != NULL)
		*t = now;
	return now;
}

int
sim_gettimeofday(struct timeval *tv, void *tz)
{
	(void)tz;
	tv->tv_sec = (time_t)call(OP_TIME, A(0));
	tv->tv_usec = 0;
	return 0;
}

int
sim_clock_gettime(clockid_t id, struct timespec *ts)
{
	(void)id;
	ts->tv_sec = (time_t)call(OP_TIME, A(0));
	ts->tv_nsec = 0;
	return 0;
}

uint32_t
sim_arc4random(void)
{
	return (uint32_t)call(OP_RANDOM, A(0));
}

ssize_t
sim_getrandom(void *buf, size_t n, unsigned int flags)
{
	size_t i;

	(void)flags;
	for (i = 0; i < n; i++)
		((unsigned char *)buf)[i] =
		    (unsigned char)call(OP_RANDOM, A(0));
	return (ssize_t)n;
}

int
sim_getentropy(void *buf, size_t n)
{
	sim_getrandom(buf, n, 0);
	return 0;
}

/* --- stdio -------------------------------------------------------------- */

static struct {
	FILE	*fp;
	int	 fd;
} streams[64];

struct cookie {
	int fd;
};

static ssize_t
ck_read(void *c, char *buf, size_t n)
{
	return sim_read(((struct cookie *)c)->fd, buf, n);
}

static ssize_t
ck_write(void *c, const char *buf, size_t n)
{
	size_t done = 0;

	/* As stdio does: a short write is not an error. */
	while (done < n) {
		ssize_t r = sim_write(((struct cookie *)c)->fd, buf + done,
		    n - done);

		if (r <= 0)
			break;
		done += (size_t)r;
	}
	return (ssize_t)done;
}

static int
ck_seek(void *c, off64_t *off, int whence)
{
	off_t r = sim_lseek(((struct cookie *)c)->fd, *off, whence);

	if (r == -1)
		return -1;
	*off = r;
	return 0;
}

static int
ck_close(void *c)
{
	size_t i;
	int fd = ((struct cookie *)c)->fd;

	for (i = 0; i < 64; i++)
		if (streams[i].fp != NULL && streams[i].fd == fd)
			streams[i].fp = NULL;
	free(c);
	return sim_close(fd);
}

FILE *
sim_fdopen(int fd, const char *mode)
{
	cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
	struct cookie *c = malloc(sizeof(*c));
	FILE *fp;
	size_t i;

	c->fd = fd;
	fp = fopencookie(c, mode, io);
	for (i = 0; fp != NULL && i < 64; i++) {
		if (streams[i].fp == NULL) {
			streams[i].fp = fp;
			streams[i].fd = fd;
			break;
		}
	}
	return fp;
}

FILE *
sim_fopen(const char *path, const char *mode)
{
	int flags = strchr(mode, '+') ? O_RDWR :
	    mode[0] == 'r' ? O_RDONLY : O_WRONLY;
	int fd;

	if (mode[0] == 'w')
		flags |= O_CREAT | O_TRUNC;
	else if (mode[0] == 'a')
		flags |= O_CREAT | O_APPEND;
	if (strchr(mode, 'x'))
		flags |= O_EXCL;
	fd = sim_open(path, flags, 0666);
	if (fd == -1)
		return NULL;
	return sim_fdopen(fd, mode);
}

int
sim_fileno(FILE *fp)
{
	size_t i;

	for (i = 0; i < 64; i++)
		if (streams[i].fp == fp)
			return streams[i].fd;
	errno = EBADF;
	return -1;
}

static ssize_t
do_vdprintf(int fd, const char *fmt, va_list ap)
{
	struct cookie c = { .fd = fd };
	char *buf;
	int n = vasprintf(&buf, fmt, ap);
	ssize_t r;

	if (n == -1)
		return -1;
	r = ck_write(&c, buf, (size_t)n);
	free(buf);
	return r == n ? r : -1;
}

int
sim_vdprintf(int fd, const char *fmt, va_list ap)
{
	return (int)do_vdprintf(fd, fmt, ap);
}

int
sim_dprintf(int fd, const char *fmt, ...)
{
	va_list ap;
	ssize_t n;

	va_start(ap, fmt);
	n = do_vdprintf(fd, fmt, ap);
	va_end(ap);
	return (int)n;
}

/* --- fork server -------------------------------------------------------- */

extern size_t (*KS_str_match)(const char *, size_t, const char *)
    __attribute__((weak));
extern size_t (*KS_str_match_until)(const char *, size_t, const char *)
    __attribute__((weak));
size_t KS_str_match_default(const char *, size_t, const char *)
    __attribute__((weak));
size_t KS_str_match_until_default(const char *, size_t, const char *)
    __attribute__((weak));

static void
at_exit_hook(int code, void *arg)
{
	(void)arg;
	fflush(NULL);
	in_main = 0;
	(void)call(OP_EXIT, A(code));
	_exit(0);
}

static void
run_child(int argc, char **argv)
{
	struct rlimit rl = { .rlim_cur = 20, .rlim_max = 20 };

	signal(SIGCHLD, SIG_IGN);
	setrlimit(RLIMIT_CPU, &rl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	if (getrlimit(RLIMIT_STACK, &rl) == 0) {
		rl.rlim_cur = 8 << 20;
		setrlimit(RLIMIT_STACK, &rl);
	}
	stdin = sim_fdopen(0, "r");
	stdout = sim_fdopen(1, "w");
	stderr = sim_fdopen(2, "w");
	setvbuf(stderr, NULL, _IONBF, 0);
	on_exit(at_exit_hook, NULL);
	if (cfg.cpu & 1) {
		if (&KS_str_match != NULL && KS_str_match_default != NULL)
			KS_str_match = KS_str_match_default;
		if (&KS_str_match_until != NULL &&
		    KS_str_match_until_default != NULL)
			KS_str_match_until = KS_str_match_until_default;
	}
	program_invocation_short_name = (char *)"knfmt";
	program_invocation_name = (char *)"knfmt";
	stack_top = __builtin_frame_address(0);
	in_main = 1;
	exit(knfmt_main(argc, argv));
}

int
main(int argc, char *argv[])
{
	static char buf[1 << 20];
	int ctl;

	if (argc > 1 && strcmp(argv[1], "norandom") == 0) {
		if (personality(ADDR_NO_RANDOMIZE) != -1) {
			argv[1] = (char *)"ready";
			execv("/proc/self/exe", argv);
		}
	}
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	ctl = atoi(argv[2]);
	if (argc > 3) {
		shared = mmap(NULL, sizeof(*shared), PROT_READ | PROT_WRITE, MAP_SHARED,
		    atoi(argv[3]), 0);
		if (shared == MAP_FAILED)
			shared = NULL;
	}
	for (;;) {
		struct {
			uint32_t cmd;
			uint32_t len;
			int32_t	 pid;
			int32_t	 argc;
		} h;
		int32_t out[2];
		pid_t pid;
		int fd, i;

		if (!recv_hdr(ctl, &h, sizeof(h), &fd))
			_exit(0);
		if (h.cmd == 'W') {
			int st = 0;

			out[0] = waitpid(h.pid, &st, 0);
			out[1] = st;
			if (write(ctl, out, sizeof(out)) != sizeof(out))
				_exit(1);
			continue;
		}
		if (h.len > sizeof(buf) || !xread(ctl, buf, h.len))
			_exit(1);
		if (shared != NULL)
			memset((void *)shared, 0, sizeof(*shared));
		pid = fork();
		if (pid == -1)
			die("fork");
		if (pid == 0) {
			char **av = calloc((size_t)h.argc + 1, sizeof(*av));
			char *p;

			close(ctl);
			sock = fd;
			memcpy(&cfg, buf, sizeof(cfg));
			p = buf + sizeof(cfg);
			for (i = 0; i < h.argc; i++) {
				av[i] = p;
				p += strlen(p) + 1;
			}
			clearenv();
			for (i = 0; i < (int)cfg.nenv; i++) {
				putenv(p);
				p += strlen(p) + 1;
			}
			run_child(h.argc, av);
		}
		close(fd);
		out[0] = pid;
		out[1] = 0;
		if (write(ctl, out, sizeof(out)) != sizeof(out))
			_exit(1);
	}
}
