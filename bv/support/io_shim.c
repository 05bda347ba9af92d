// Interposes the calls by which a program changes the file system: logs each of them and injects one fault.
// VT_IO_LOG=file  VT_IO_FAULT=n:action   (n-th logged call, counted from 1; actions: errno number, short, kill, killmid)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#undef fopen64
static int lfd = -1, fault_at, counter, inited;
static char action[32];
static char *paths[1024];
static void init(void)
{
	if( inited ) return;
	inited = 1;
	char *l = getenv("VT_IO_LOG"), *f = getenv("VT_IO_FAULT");
	if( l ) { lfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644); if( lfd >= 0 ) { int n = syscall(SYS_dup3, lfd, 1000, O_CLOEXEC); if( n >= 0 ) { syscall(SYS_close, lfd); lfd = n; } } }
	if( f && sscanf(f, "%d:%31s", &fault_at, action) != 2 ) fault_at = 0;
}
// returns 1 when the fault has to be injected into this call
static int event(char const *op, char const *path)
{
	init();
	++counter;
	if( lfd >= 0 ) { char b[5000]; int n = snprintf(b, sizeof b, "%d\t%s\t%s\n", counter, op, path ? path : "?"); syscall(SYS_write, lfd, b, n < (int)sizeof b ? n : (int)sizeof b - 1); }
	if( counter != fault_at ) return 0;
	if( lfd >= 0 ) { char b[64]; int n = snprintf(b, sizeof b, "!\t%s\t%s\n", op, action); syscall(SYS_write, lfd, b, n); }
	if( !strcmp(action, "kill") ) { syscall(SYS_kill, getpid(), SIGKILL); for( ;; ) pause(); }
	return 1;
}
static int fail(void) { errno = atoi(action) ? atoi(action) : EIO; return -1; }
static void track(int fd, char const *p) { if( fd >= 0 && fd < 1024 ) { free(paths[fd]); paths[fd] = p ? strdup(p) : 0; } }
#define REAL(name) static __typeof__(&name) real; if( !real ) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static FILE *do_fopen(FILE *(*real)(char const *, char const *), char const *p, char const *m)
{
	int w = strpbrk(m, "wa+") != 0;
	if( w && event("open", p) && strcmp(action, "short") && strcmp(action, "killmid") ) { fail(); return 0; }
	FILE *f = real(p, m);
	if( f ) track(fileno(f), w ? p : 0);
	return f;
}
FILE *fopen(char const *p, char const *m) { REAL(fopen); return do_fopen(real, p, m); }
FILE *fopen64(char const *p, char const *m) { REAL(fopen64); return do_fopen(real, p, m); }
static int do_open(int dfd, char const *p, int flags, int mode)
{
	int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
	if( p && !strncmp(p, "/dev/", 5) ) w = 0;
	if( w && event("open", p) && strcmp(action, "short") && strcmp(action, "killmid") ) return fail();
	int fd = syscall(SYS_openat, dfd, p, flags, mode);
	if( fd >= 0 ) track(fd, w ? p : 0);
	return fd;
}
#define MODE int mode = 0; if( flags & (O_CREAT | O_TMPFILE) ) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(char const *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(char const *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, char const *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, char const *p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(char const *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t write(int fd, void const *b, size_t n)
{
	if( fd > 2 && fd < 1000 && paths[fd] && event("write", paths[fd]) ) {
		if( !strcmp(action, "short") && n > 1 ) return syscall(SYS_write, fd, b, n / 2);
		if( !strcmp(action, "killmid") ) { syscall(SYS_write, fd, b, n / 2); syscall(SYS_kill, getpid(), SIGKILL); for( ;; ) pause(); }
		if( strcmp(action, "short") ) return fail();
	}
	return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, struct iovec const *v, int c)
{
	if( fd > 2 && fd < 1000 && paths[fd] && event("write", paths[fd]) ) {
		if( !strcmp(action, "short") && v[0].iov_len > 1 ) return syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2);
		if( !strcmp(action, "killmid") ) { syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2); syscall(SYS_kill, getpid(), SIGKILL); for( ;; ) pause(); }
		if( strcmp(action, "short") ) return fail();
	}
	return syscall(SYS_writev, fd, v, c);
}
int close(int fd)
{
	int bad = 0;
	if( fd > 2 && fd < 1000 && paths[fd] ) { bad = event("close", paths[fd]) && atoi(action); track(fd, 0); }
	int r = syscall(SYS_close, fd);
	return bad ? fail() : r;
}
int fclose(FILE *f)
{
	REAL(fclose);
	int fd = fileno(f), bad = 0;
	if( fd > 2 && fd < 1000 && paths[fd] ) { bad = event("close", paths[fd]) && atoi(action); track(fd, 0); }
	int r = real(f);
	if( bad ) { fail(); return EOF; }
	return r;
}
#define PATHOP(ret, name, decl, args, p, op) ret name decl { REAL(name); if( event(op, p) && atoi(action) ) return fail(); return real args; }
PATHOP(int, mkdir, (char const *p, mode_t m), (p, m), p, "mkdir")
PATHOP(int, rename, (char const *a, char const *p), (a, p), p, "rename")
PATHOP(int, unlink, (char const *p), (p), p, "unlink")
PATHOP(int, rmdir, (char const *p), (p), p, "rmdir")
PATHOP(int, remove, (char const *p), (p), p, "unlink")
PATHOP(int, truncate, (char const *p, off_t n), (p, n), p, "truncate")
PATHOP(int, symlink, (char const *t, char const *p), (t, p), p, "symlink")
PATHOP(int, link, (char const *t, char const *p), (t, p), p, "link")
PATHOP(int, system, (char const *p), (p), p, "system")
