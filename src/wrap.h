// The libc boundary of the library: linked with -Wl,--wrap=..., every call the
// library (and the harness) makes goes through the hooks below.
#pragma once
#include <cstddef>
#include <cstdint>
#include <sys/types.h>

enum WCall {
  W_PWRITE, W_PWRITEV, W_WRITE, W_WRITEV, W_MSYNC, W_FDATASYNC, W_FSYNC, W_FTRUNCATE, W_FALLOCATE, W_COPY, W_SENDFILE,
  W_OPEN, W_MMAP, W_MREMAP, W_MUNMAP, W_MADVISE, W_FCNTL, W_PREAD, W_READ, W_FSTAT, W_STAT, W_UNLINK, W_ALLOC, W_MINCORE,
  W_MLOCK, W_MAX
};
extern const char *const wcall_name[W_MAX];
struct WArgs {
  int fd = -1;
  void *p = nullptr;
  size_t n = 0;
  off_t off = 0;
  const char *path = nullptr;
  int flags = 0;
};
// pre: may refuse the call: sets *ret (and errno) and returns true
extern bool (*wrap_pre)(WCall c, const WArgs &a, long *ret);
extern void (*wrap_post)(WCall c, const WArgs &a, long ret);
extern thread_local int wrap_quiet; // >0: the harness' own calls
struct Quiet {
  Quiet() { ++wrap_quiet; }
  ~Quiet() { --wrap_quiet; }
};
