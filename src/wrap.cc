#include "wrap.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/vfs.h>
#include <sys/uio.h>
#include <unistd.h>

const char *const wcall_name[W_MAX] = {"pwrite", "pwritev", "write", "writev", "msync", "fdatasync", "fsync", "ftruncate",
                                       "fallocate", "copy_file_range", "sendfile", "open", "mmap", "mremap", "munmap",
                                       "madvise", "fcntl", "pread", "read", "fstat", "stat", "unlink", "alloc", "mincore", "mlock"};
bool (*wrap_pre)(WCall, const WArgs &, long *);
void (*wrap_post)(WCall, const WArgs &, long);
thread_local int wrap_quiet;
static int boot_fd = -1;

template <class F> static inline long go(WCall c, const WArgs &a, F real) {
  if (wrap_quiet)
    return real();
  long r;
  if (wrap_pre) {
    ++wrap_quiet;
    bool stop = wrap_pre(c, a, &r);
    int e = errno;
    --wrap_quiet;
    errno = e;
    if (stop)
      return r;
  }
  r = real();
  if (wrap_post) {
    int e = errno;
    ++wrap_quiet;
    wrap_post(c, a, r);
    --wrap_quiet;
    errno = e;
  }
  return r;
}
static WArgs A(int fd, const void *p = nullptr, size_t n = 0, off_t off = 0, int flags = 0) {
  WArgs a;
  a.fd = fd;
  a.p = (void *)p;
  a.n = n;
  a.off = off;
  a.flags = flags;
  return a;
}
static size_t iolen(const struct iovec *v, int n) {
  size_t r = 0;
  while (n--)
    r += v++->iov_len;
  return r;
}

extern "C" {
#define REAL(t, name, ...) t __real_##name(__VA_ARGS__)
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
ssize_t __wrap_pwrite64(int fd, const void *p, size_t n, off64_t o) {
  return go(W_PWRITE, A(fd, p, n, o), [&] { return (long)__real_pwrite64(fd, p, n, o); });
}
REAL(ssize_t, pwritev64, int, const struct iovec *, int, off64_t);
ssize_t __wrap_pwritev64(int fd, const struct iovec *v, int n, off64_t o) {
  return go(W_PWRITEV, A(fd, nullptr, iolen(v, n), o), [&] { return (long)__real_pwritev64(fd, v, n, o); });
}
REAL(ssize_t, write, int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  return go(W_WRITE, A(fd, p, n), [&] { return (long)__real_write(fd, p, n); });
}
REAL(ssize_t, writev, int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
  return go(W_WRITEV, A(fd, nullptr, iolen(v, n)), [&] { return (long)__real_writev(fd, v, n); });
}
REAL(int, msync, void *, size_t, int);
int __wrap_msync(void *p, size_t n, int f) {
  return go(W_MSYNC, A(-1, p, n, 0, f), [&] { return (long)__real_msync(p, n, f); });
}
REAL(int, fdatasync, int);
int __wrap_fdatasync(int fd) {
  return go(W_FDATASYNC, A(fd), [&] { return (long)__real_fdatasync(fd); });
}
REAL(int, fsync, int);
int __wrap_fsync(int fd) {
  return go(W_FSYNC, A(fd), [&] { return (long)__real_fsync(fd); });
}
REAL(int, ftruncate64, int, off64_t);
int __wrap_ftruncate64(int fd, off64_t o) {
  return go(W_FTRUNCATE, A(fd, nullptr, 0, o), [&] { return (long)__real_ftruncate64(fd, o); });
}
REAL(int, posix_fallocate64, int, off64_t, off64_t);
int __wrap_posix_fallocate64(int fd, off64_t o, off64_t n) {
  return go(W_FALLOCATE, A(fd, nullptr, n, o), [&] { return (long)__real_posix_fallocate64(fd, o, n); });
}
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
ssize_t __wrap_copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
  return go(W_COPY, A(o, nullptr, n, oo ? *oo : 0), [&] { return (long)__real_copy_file_range(i, oi, o, oo, n, f); });
}
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
ssize_t __wrap_sendfile64(int o, int i, off64_t *off, size_t n) {
  return go(W_SENDFILE, A(o, nullptr, n), [&] { return (long)__real_sendfile64(o, i, off, n); });
}
REAL(int, open64, const char *, int, ...);
int __wrap_open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  WArgs a = A(-1, nullptr, 0, 0, flags);
  a.path = path;
  int fd = (int)go(W_OPEN, a, [&] { return (long)__real_open64(path, flags, mode); });
  if (fd >= 0 && !strcmp(path, "/proc/sys/kernel/random/boot_id"))
    boot_fd = fd;
  return fd;
}
REAL(ssize_t, read, int, void *, size_t);
ssize_t __wrap_read(int fd, void *p, size_t n) {
  ssize_t r = go(W_READ, A(fd, p, n), [&] { return (long)__real_read(fd, p, n); });
  if (fd == boot_fd && fd >= 0) {
    // another boot of the machine: VF_BOOT is a hex digit
    boot_fd = -1;
    if (const char *b = getenv("VF_BOOT"))
      for (int i = 0; i < 8 && i < r; ++i)
        ((char *)p)[i] = *b;
  }
  return r;
}
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
ssize_t __wrap_pread64(int fd, void *p, size_t n, off64_t o) {
  return go(W_PREAD, A(fd, p, n, o), [&] { return (long)__real_pread64(fd, p, n, o); });
}
REAL(void *, mmap64, void *, size_t, int, int, int, off64_t);
void *__wrap_mmap64(void *p, size_t n, int prot, int flags, int fd, off64_t o) {
  return (void *)go(W_MMAP, A(fd, p, n, o, prot), [&] { return (long)__real_mmap64(p, n, prot, flags, fd, o); });
}
REAL(void *, mremap, void *, size_t, size_t, int, ...);
void *__wrap_mremap(void *p, size_t o, size_t n, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  void *q = va_arg(ap, void *);
  va_end(ap);
  return (void *)go(W_MREMAP, A(-1, p, n, o, flags), [&] { return (long)__real_mremap(p, o, n, flags, q); });
}
REAL(int, munmap, void *, size_t);
int __wrap_munmap(void *p, size_t n) {
  return go(W_MUNMAP, A(-1, p, n), [&] { return (long)__real_munmap(p, n); });
}
REAL(int, madvise, void *, size_t, int);
int __wrap_madvise(void *p, size_t n, int adv) {
  return go(W_MADVISE, A(-1, p, n, 0, adv), [&] { return (long)__real_madvise(p, n, adv); });
}
REAL(int, mincore, void *, size_t, unsigned char *);
int __wrap_mincore(void *p, size_t n, unsigned char *v) {
  return go(W_MINCORE, A(-1, p, n), [&] { return (long)__real_mincore(p, n, v); });
}
REAL(int, mlock, const void *, size_t);
int __wrap_mlock(const void *p, size_t n) {
  return go(W_MLOCK, A(-1, p, n), [&] { return (long)__real_mlock(p, n); });
}
REAL(int, fcntl64, int, int, ...);
int __wrap_fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void *x = va_arg(ap, void *);
  va_end(ap);
  return go(W_FCNTL, A(fd, nullptr, 0, 0, cmd), [&] { return (long)__real_fcntl64(fd, cmd, x); });
}
REAL(int, fstat64, int, struct stat *);
int __wrap_fstat64(int fd, struct stat *st) {
  return go(W_FSTAT, A(fd), [&] { return (long)__real_fstat64(fd, st); });
}
// scratch files live in memory, but the library shall believe in a real disk
REAL(int, fstatfs64, int, struct statfs64 *);
int __wrap_fstatfs64(int fd, struct statfs64 *st) {
  int r = __real_fstatfs64(fd, st);
  if (r == 0 && (st->f_type == 0x01021994 /* tmpfs */ || st->f_type == 0x858458f6 /* ramfs */))
    st->f_type = 0xEF53 /* ext4 */;
  return r;
}
REAL(int, stat64, const char *, struct stat *);
int __wrap_stat64(const char *p, struct stat *st) {
  WArgs a;
  a.path = p;
  return go(W_STAT, a, [&] { return (long)__real_stat64(p, st); });
}
REAL(int, unlink, const char *);
int __wrap_unlink(const char *p) {
  WArgs a;
  a.path = p;
  return go(W_UNLINK, a, [&] { return (long)__real_unlink(p); });
}
}
