/* Fault injection under stdio (and raw descriptors): every device-level call of the code under test is numbered and can fail. */
#ifndef IOFAULT_H
#define IOFAULT_H
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/types.h>
#include <unistd.h>
#include "vp.h"
enum { IO_OPEN, IO_READ, IO_WRITE, IO_SEEK, IO_CLOSE, IO_RENAME, IO_NKINDS };
static const char *const io_names[] = {"open", "read", "write", "seek", "close", "rename"};
enum { FK_FAIL, FK_SHORT, FK_EOF, FK_STICKY, FK_N };  /* fails once; short transfer; premature end of file; fails from here on */
static const char *const fk_names[] = {"fails", "is cut short", "meets a premature end of file", "and all later calls fail"};
static int io_armed, io_count, io_open_streams, io_bufmode;
static struct { int at, kind; } io_f[2]; static int io_nf;
static uint8_t io_kind_at[100000];
FILE *__real_fopen(const char *, const char *); FILE *__real_fdopen(int, const char *);
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); off_t __real_lseek(int, off_t, int); int __real_close(int); int __real_rename(const char *, const char *);
/* the fault for this call, or -1 */
static int io_hit(int kind)
{
    int n = io_count++; if (n < (int)sizeof io_kind_at) io_kind_at[n] = (uint8_t)kind;
    for (int i = 0; i < io_nf; i++) { if (io_f[i].at == n) return io_f[i].kind; if (io_f[i].kind == FK_STICKY && n > io_f[i].at) return FK_STICKY; }
    return -1;
}
static int io_pick_errno(int k) { return k == IO_OPEN ? EMFILE : k == IO_WRITE ? ENOSPC : EIO; }
typedef struct { int fd; off_t last_at; size_t last_n; int wrote; } cookie;
static ssize_t ck_read(void *c, char *b, size_t n)
{
    int h = io_hit(IO_READ); cookie *k = c;
    if (h == FK_FAIL || h == FK_STICKY) { errno = EIO; return -1; }
    if (h == FK_EOF) return 0;
    if (h == FK_SHORT && n > 1) n = 1;
    return __real_read(k->fd, b, n);
}
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    int h = io_hit(IO_WRITE); cookie *k = c;
    if (h == FK_FAIL || h == FK_STICKY || h == FK_EOF) { errno = ENOSPC; return 0; }
    if (h == FK_SHORT) { if (n / 2) __real_write(k->fd, b, n / 2); errno = ENOSPC; return n / 2; }
    k->last_at = __real_lseek(k->fd, 0, SEEK_CUR); k->last_n = n; k->wrote = 1;
    return __real_write(k->fd, b, n);
}
static int ck_seek(void *c, off64_t *o, int w)
{
    int h = io_hit(IO_SEEK); cookie *k = c;
    if (h >= 0) { errno = EIO; return -1; }
    off_t r = __real_lseek(k->fd, *o, w); if (r < 0) return -1; *o = r; return 0;
}
static int ck_close(void *c)
{
    int h = io_hit(IO_CLOSE); cookie *k = c; io_open_streams--;
    if (h >= 0 && k->wrote) { /* what close could not bring to the disk is lost */ if (ftruncate(k->fd, k->last_at)) {} }
    __real_close(k->fd); free(k);
    if (h >= 0) { errno = EIO; return -1; }
    return 0;
}
static FILE *mkstream(int fd, const char *mode)
{
    cookie *k = calloc(1, sizeof *k); k->fd = fd;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(k, mode, io); io_open_streams++;
    if (f && io_bufmode) setvbuf(f, NULL, io_bufmode == 1 ? _IONBF : _IOFBF, io_bufmode == 1 ? 0 : (size_t)io_bufmode);
    return f;
}
FILE *__wrap_fopen(const char *p, const char *m)
{
    if (!io_armed) return __real_fopen(p, m);
    if (io_hit(IO_OPEN) >= 0) { errno = EMFILE; return NULL; }
    int plus = strchr(m, '+') != NULL, fl = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND);
    if (strchr(m, 'x')) fl |= O_EXCL;
    int fd = __real_open(p, fl, 0644); if (fd < 0) return NULL;
    return mkstream(fd, m);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) { return io_armed ? mkstream(fd, m) : __real_fdopen(fd, m); }
int __wrap_open(const char *p, int fl, ...)
{
    va_list ap; va_start(ap, fl); int mode = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
    if (io_armed && io_hit(IO_OPEN) >= 0) { errno = EMFILE; return -1; }
    return __real_open(p, fl, mode);
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (io_armed) { int h = io_hit(IO_READ); if (h == FK_FAIL || h == FK_STICKY) { errno = EIO; return -1; } if (h == FK_EOF) return 0; if (h == FK_SHORT && n > 1) n = 1; }
    return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (io_armed) { int h = io_hit(IO_WRITE); if (h == FK_FAIL || h == FK_STICKY || h == FK_EOF) { errno = ENOSPC; return -1; } if (h == FK_SHORT && n > 1) n = n / 2; }
    return __real_write(fd, b, n);
}
off_t __wrap_lseek(int fd, off_t o, int w) { if (io_armed && io_hit(IO_SEEK) >= 0) { errno = EIO; return -1; } return __real_lseek(fd, o, w); }
int __wrap_close(int fd) { if (io_armed) { int h = io_hit(IO_CLOSE); int r = __real_close(fd); if (h >= 0) { errno = EIO; return -1; } return r; } return __real_close(fd); }
int __wrap_rename(const char *a, const char *b) { if (io_armed && io_hit(IO_RENAME) >= 0) { errno = EIO; return -1; } return __real_rename(a, b); }
static void io_arm(int nf) { io_nf = nf; io_count = 0; io_armed = 1; }
static void io_disarm(void) { io_armed = 0; io_nf = 0; }
#define IO_LDFLAGS "--wrap=fopen,--wrap=fopen64,--wrap=fdopen,--wrap=open,--wrap=read,--wrap=write,--wrap=lseek,--wrap=close,--wrap=rename"
#endif
