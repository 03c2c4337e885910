/* Counts the file-changing system calls of the process once armed and ends it at the k-th one,
   before the call (mode 0) or, for writes, after writing half of the bytes (mode 1). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/types.h>
static volatile int armed = 0, at = 0, mode = 0; static volatile long count = 0;
void crash_arm(int k, int m) { count = 0; at = k; mode = m; armed = 1; }
long crash_count(void) { return count; }
void crash_disarm(void) { armed = 0; }
static int hit(void) { return armed && ++count == at; }
#define REAL(name) static __typeof__(&name) real = 0; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); if (hit()) { if (mode) real(fd, b, n / 2, o); _exit(77); } return real(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); if (hit()) { if (mode) real(fd, b, n / 2, o); _exit(77); } return real(fd, b, n, o); }
int fsync(int fd) { REAL(fsync); if (hit()) _exit(77); return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (hit()) _exit(77); return real(fd); }
int unlink(const char *p) { REAL(unlink); if (hit()) _exit(77); return real(p); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (hit()) _exit(77); return real(fd, n); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (hit()) _exit(77); return real(fd, n); }
