// LD_PRELOAD shim: counts the file operations a conversion makes on files under FAULT_DIR and makes the nth of
// them fail (FAULT_KIND = error number) or move fewer bytes than asked for (FAULT_KIND = short).
// FAULT_LOG receives one line per operation:  <index> <call> <file> <result>
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static const char *dir; static size_t dirlen; static long target = -1; static int kind; static int shortk; static long counter; static int logfd = -1; static int ready;
static char names[1024][128];     // fd -> file name below FAULT_DIR ("" = not watched)
static void init(void) {
    if (ready) return; ready = 1;
    const char *s;
    if ((dir = getenv("FAULT_DIR"))) dirlen = strlen(dir);
    if ((s = getenv("FAULT_N"))) target = atol(s);
    if ((s = getenv("FAULT_KIND"))) { if (!strcmp(s, "short")) shortk = 1; else kind = atoi(s); }
    if ((s = getenv("FAULT_LOG"))) { logfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND, 0600); if (logfd >= 0 && logfd < 900) { int n = syscall(SYS_dup2, logfd, 900); if (n == 900) { syscall(SYS_close, logfd); logfd = 900; } } }
}
static int watched_path(const char *p) {
    init(); if (!dir || !p) return 0;
    if (strncmp(p, dir, dirlen) == 0) return 1;
    return p[0] != '/' && strncmp(p, "./", 2) == 0;
}
static int watched_fd(int fd) { init(); return dir && fd >= 0 && fd < 1024 && names[fd][0]; }
static void remember(int fd, const char *p) { if (fd >= 0 && fd < 1024) { const char *b = strrchr(p, '/'); snprintf(names[fd], sizeof names[fd], "%s", b ? b + 1 : p); } }
static void note(const char *call, const char *file, const char *what) {
    if (logfd < 0) return; char b[400]; int n = snprintf(b, sizeof b, "%ld %s %s %s\n", counter, call, file, what); syscall(SYS_write, logfd, b, n);
}
// 0 go on, 1 fail (errno set), 2 short
static int hit(const char *call, const char *file, int can_short) {
    counter++;
    if (counter != target) { note(call, file, "-"); return 0; }
    if (shortk) { if (!can_short) { note(call, file, "notshort"); return 0; } note(call, file, "SHORT"); return 2; }
    note(call, file, "FAULT"); errno = kind; return 1;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
#define OPEN(fn) int fn(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } \
    REAL(int, fn, const char *, int, ...); int w = watched_path(p); if (w && hit(#fn, p, 0) == 1) return -1; int fd = real(p, fl, m); if (w) remember(fd, p); return fd; }
OPEN(open) OPEN(open64)
#define OPENAT(fn) int fn(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } \
    REAL(int, fn, int, const char *, int, ...); int w = watched_path(p); if (w && hit(#fn, p, 0) == 1) return -1; int fd = real(d, p, fl, m); if (w) remember(fd, p); return fd; }
OPENAT(openat) OPENAT(openat64)
#define CREAT(fn) int fn(const char *p, mode_t m) { REAL(int, fn, const char *, mode_t); int w = watched_path(p); if (w && hit(#fn, p, 0) == 1) return -1; int fd = real(p, m); if (w) remember(fd, p); return fd; }
CREAT(creat) CREAT(creat64)
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); if (watched_fd(fd)) { int h = hit("read", names[fd], n > 1); if (h == 1) return -1; if (h == 2) n = n / 2 ? (n > 64 ? 17 : n / 2) : 1; } return real(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, pread, int, void *, size_t, off_t); if (watched_fd(fd)) { int h = hit("pread", names[fd], n > 1); if (h == 1) return -1; if (h == 2) n = n / 2; } return real(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); if (watched_fd(fd)) { int h = hit("write", names[fd], n > 1); if (h == 1) return -1; if (h == 2) n = n / 2; } return real(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); if (watched_fd(fd)) { int h = hit("pwrite", names[fd], n > 1); if (h == 1) return -1; if (h == 2) n = n / 2; } return real(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, writev, int, const struct iovec *, int); if (watched_fd(fd) && hit("writev", names[fd], 0) == 1) return -1; return real(fd, v, c); }
int close(int fd) { REAL(int, close, int); if (watched_fd(fd)) { int h = hit("close", names[fd], 0); names[fd][0] = 0; int e = errno; int r = real(fd); if (h == 1) { errno = e; return -1; } return r; } return real(fd); }
int fsync(int fd) { REAL(int, fsync, int); if (watched_fd(fd) && hit("fsync", names[fd], 0) == 1) return -1; return real(fd); }
int fdatasync(int fd) { REAL(int, fdatasync, int); if (watched_fd(fd) && hit("fdatasync", names[fd], 0) == 1) return -1; return real(fd); }
off_t lseek(int fd, off_t o, int w) { REAL(off_t, lseek, int, off_t, int); if (watched_fd(fd) && hit("lseek", names[fd], 0) == 1) return -1; return real(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { REAL(off64_t, lseek64, int, off64_t, int); if (watched_fd(fd) && hit("lseek64", names[fd], 0) == 1) return -1; return real(fd, o, w); }
int ftruncate(int fd, off_t o) { REAL(int, ftruncate, int, off_t); if (watched_fd(fd) && hit("ftruncate", names[fd], 0) == 1) return -1; return real(fd, o); }
int posix_fallocate(int fd, off_t o, off_t l) { REAL(int, posix_fallocate, int, off_t, off_t); if (watched_fd(fd) && hit("posix_fallocate", names[fd], 0) == 1) return errno; return real(fd, o, l); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); if (watched_path(a) && hit("rename", a, 0) == 1) return -1; return real(a, b); }
int unlink(const char *a) { REAL(int, unlink, const char *); if (watched_path(a)) note("unlink", a, "-"); return real(a); }
void *mmap(void *a, size_t l, int p, int f, int fd, off_t o) { REAL(void *, mmap, void *, size_t, int, int, int, off_t); if (watched_fd(fd) && hit("mmap", names[fd], 0) == 1) return MAP_FAILED; return real(a, l, p, f, fd, o); }
int msync(void *a, size_t l, int f) { REAL(int, msync, void *, size_t, int); init(); if (dir && hit("msync", "map", 0) == 1) return -1; return real(a, l, f); }
#define STAT(fn, T) int fn(const char *p, struct T *s) { REAL(int, fn, const char *, struct T *); if (watched_path(p) && hit(#fn, p, 0) == 1) return -1; return real(p, s); }
STAT(stat, stat) STAT(stat64, stat64) STAT(lstat, stat) STAT(lstat64, stat64)
#define FSTAT(fn, T) int fn(int fd, struct T *s) { REAL(int, fn, int, struct T *); if (watched_fd(fd) && hit(#fn, names[fd], 0) == 1) return -1; return real(fd, s); }
FSTAT(fstat, stat) FSTAT(fstat64, stat64)
int access(const char *p, int m) { REAL(int, access, const char *, int); if (watched_path(p) && hit("access", p, 0) == 1) return -1; return real(p, m); }
// stdio
static FILE *fnames_f[64]; static char fnames[64][128];
static int fslot(FILE *f) { for (int i = 0; i < 64; i++) if (fnames_f[i] == f) return i; return -1; }
#define FOPEN(fn) FILE *fn(const char *p, const char *m) { REAL(FILE *, fn, const char *, const char *); int w = watched_path(p); if (w && hit(#fn, p, 0) == 1) return 0; FILE *f = real(p, m); if (w && f) { int i = fslot(0); if (i >= 0) { fnames_f[i] = f; const char *b = strrchr(p, '/'); snprintf(fnames[i], 128, "%s", b ? b + 1 : p); } } return f; }
FOPEN(fopen) FOPEN(fopen64)
size_t fread(void *b, size_t s, size_t n, FILE *f) { REAL(size_t, fread, void *, size_t, size_t, FILE *); init(); int i = f ? fslot(f) : -1; if (i >= 0) { int h = hit("fread", fnames[i], n > 1); if (h == 1) { f->_flags |= 0x20; return 0; } if (h == 2) n = n > 64 ? 17 : n / 2; } return real(b, s, n, f); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { REAL(size_t, fwrite, const void *, size_t, size_t, FILE *); init(); int i = f ? fslot(f) : -1; if (i >= 0) { int h = hit("fwrite", fnames[i], n > 1); if (h == 1) { f->_flags |= 0x20; return 0; } if (h == 2) n = n / 2; } return real(b, s, n, f); }
int fclose(FILE *f) { REAL(int, fclose, FILE *); init(); int i = f ? fslot(f) : -1; if (i >= 0) { int h = hit("fclose", fnames[i], 0); fnames_f[i] = 0; int e = errno; int r = real(f); if (h == 1) { errno = e; return -1; } return r; } return real(f); }
