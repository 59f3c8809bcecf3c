// The system calls of the library, with faults: link with FSIM_WRAP (lib/vf.py).
// The successive entries to the system made while a call is armed take their
// behaviour from a script: 0 or none: as is; n > 0: transfers at most n bytes;
// -1000: a write that takes nothing; -e: error e. A close fails only after it
// has closed the descriptor, as the system does.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/mman.h>
extern "C" void __sanitizer_set_report_fd (void*);

enum { MaxFd = 16 };
struct FSim {
    bool	begun, armed;
    const long*	q;
    int		nq, iq, bad, base;
    const long*	rq;		// limits of reads, over and over
    int		nrq, irq;
    int		fd [4];		// a read at this place of this descriptor has the error, once
    long	at [4], err [4];
    long	wrote, error;	// bytes taken and the first error given to a write
    bool	wonly;		// the script is for writes
    bool	open [MaxFd];
    int next (void)		{ return armed && !wonly && iq < nq ? int(q[iq++]) : 0; }
    bool ours (int fd) const	{ return fd >= base && fd < base + MaxFd && open [fd - base]; }
    void use (int fd)		{ if (armed && fd >= 0 && !ours (fd)) ++bad; }
    void took (int fd)		{ if (armed && fd >= base && fd < base + MaxFd) open [fd - base] = true; }
    int id (int fd) const	{ return fd < 0 ? 0 : fd - base + 1; }
};
static FSim S;

extern "C" {
int __real_open (const char*, int, ...); int __real_close (int); ssize_t __real_read (int, void*, size_t); ssize_t __real_write (int, const void*, size_t);
off_t __real_lseek (int, off_t, int); int __real_fstat (int, struct stat*); int __real_fsync (int); int __real_fcntl (int, int, ...);
void* __real_mmap (void*, size_t, int, int, int, off_t); int __real_munmap (void*, size_t); int __real_msync (void*, size_t, int);
#define NOFD		if (fd < 0) { errno = EBADF; return -1; }
#define FAULT(rv)	const int f = S.next(); if (f < 0) { errno = -f; return rv; }
int __wrap_open (const char* p, int fl, ...)
{
    va_list va; va_start (va, fl); int m = va_arg (va, int); va_end (va);
    FAULT (-1)
    int fd = __real_open (p, fl, m); S.took (fd); return fd;
}
int __wrap_close (int fd)
{
    S.use (fd);
    const int f = S.next();
    int r = __real_close (fd);
    if (S.armed && S.ours (fd)) S.open [fd - S.base] = false;
    if (f < 0) { errno = -f; return -1; }
    return r;
}
ssize_t __wrap_read (int fd, void* p, size_t n)
{
    S.use (fd); NOFD FAULT (-1)
    if (f > 0 && size_t(f) < n) n = f;
    if (S.armed && S.nrq) { const int g = S.rq [S.irq++ % S.nrq]; if (g < 0) { errno = -g; return -1; } if (g && size_t(g) < n) n = g; }
    for (int k = 0; k < 4; ++k) if (S.err[k] && S.fd[k] == fd) {
	const long left = S.at[k] - __real_lseek (fd, 0, SEEK_CUR);
	if (!left) { errno = S.err[k]; S.err[k] = 0; return -1; }
	if (left > 0 && size_t(left) < n) n = left;
    }
    return __real_read (fd, p, n);
}
ssize_t __wrap_write (int fd, const void* p, size_t n)
{
    S.use (fd);
    if (fd < 0) { if (!S.error) S.error = EBADF; errno = EBADF; return -1; }
    const int f = S.armed && S.iq < S.nq ? int(S.q[S.iq++]) : 0;
    if (f == -1000) { if (!S.error) S.error = -1; return 0; }
    if (f < 0) { if (!S.error && f != -EINTR && f != -EAGAIN) S.error = -f; errno = -f; return -1; }
    const ssize_t r = __real_write (fd, p, f > 0 && size_t(f) < n ? size_t(f) : n);
    if (r > 0) S.wrote += r; else if (r < 0 && !S.error) S.error = errno;
    return r;
}
off_t __wrap_lseek (int fd, off_t o, int w)	{ S.use (fd); NOFD FAULT (-1) return __real_lseek (fd, o, w); }
int __wrap_fstat (int fd, struct stat* b)	{ S.use (fd); NOFD FAULT (-1) return __real_fstat (fd, b); }
int __wrap_fsync (int fd)			{ S.use (fd); NOFD FAULT (-1) return __real_lseek (fd, 0, SEEK_CUR) < 0 ? -1 : 0; }
int __wrap_fcntl (int fd, int c, ...)
{
    va_list va; va_start (va, c); long m = va_arg (va, long); va_end (va);
    S.use (fd); NOFD FAULT (-1)
    return __real_fcntl (fd, c, m);
}
void* __wrap_mmap (void* p, size_t n, int pr, int fl, int fd, off_t o)	{ S.use (fd); if (fd < 0) { errno = EBADF; return MAP_FAILED; } FAULT (MAP_FAILED) return __real_mmap (p, n, pr, fl, fd, o); }
int __wrap_munmap (void* p, size_t n)	{ const int f = S.next(); int r = __real_munmap (p, n); if (f < 0) { errno = -f; return -1; } return r; }
int __wrap_msync (void* p, size_t n, int fl)	{ FAULT (-1) return __real_msync (p, n, fl); }
}

// A scratch directory in the current one, made at the first segment
static void fsim_begin (void)
{
    static bool made = false;
    if (!made) { char d[] = "files.XXXXXX"; if (!mkdtemp (d) || chdir (d)) _exit (98); made = true; umask (022);
	int o = __real_fcntl (_ofd, F_DUPFD, 200L), e = __real_fcntl (2, F_DUPFD, 200L); if (o < 0) _exit (98); __real_close (_ofd); _ofd = o;
	// descriptors 0, 1 and 2 are as good as any other
	__sanitizer_set_report_fd ((void*) (long) e);
	for (int k = 0; k < 3; ++k) __real_close (k);
    }
    int fd = __real_open ("/dev/null", O_RDONLY, 0); __real_close (fd);
    memset (&S, 0, sizeof(S)); S.base = fd; S.begun = true;
}
static const char* fname (int f)	{ static char n [2][8]; char* p = n [f & 1]; snprintf (p, 8, "f%d", f); return p; }
static int fnumber (const char* n)	{ return n && n[0] == 'f' && n[1] >= '1' && n[1] <= '9' && !n[2] ? n[1] - '0' : n && *n ? -1 : 0; }
// the descriptors that are open, and those the library does not know it should have
static void fsim_state (W& w)
{
    int last = 0;
    for (int k = 0; k < MaxFd; ++k) if (__real_fcntl (S.base + k, F_GETFD, 0) >= 0) last = k + 1;
    w.open(); for (int k = 0; k < last; ++k) w.i (__real_fcntl (S.base + k, F_GETFD, 0) >= 0); w.close();
    w.i (S.bad);
}
static void file_state (W& w, int f)
{
    struct stat st;
    w.open();
    if (stat (fname (f), &st)) { w.i (0); w.i (0); w.bytes (NULL, 0); }
    else {
	static unsigned char b [20000];
	int fd = __real_open (fname (f), O_RDONLY, 0); long n = __real_read (fd, b, sizeof(b)); __real_close (fd);
	w.i (1); w.i (st.st_mode & 0777); w.bytes (b, n > 0 ? n : 0);
    }
    w.close();
}
static void fsim_end (int nf)
{
    for (int k = 0; k < MaxFd; ++k) __real_close (S.base + k);
    for (int f = 1; f <= nf; ++f) unlink (fname (f));
}
static int callnumber (const char* op)
{
    static const char* const n[] = { "open", "close", "seek", "read", "write", "sync", "stat", "mmap", "munmap", "msync", "fcntl" };
    for (int k = 0; k < 11; ++k) if (!strncmp (op, n[k], strlen (n[k]))) return k + 1;
    return 0;
}
