// Allocations of the library, for programs linked with -Wl,--wrap=malloc,...
#include "wrap.h"
#include <cerrno>
#include <cstdlib>
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
static bool refuse(size_t n) {
  long r = 0;
  if (wrap_quiet || !wrap_pre)
    return false;
  WArgs a;
  a.n = n;
  ++wrap_quiet;
  const bool stop = wrap_pre(W_ALLOC, a, &r);
  --wrap_quiet;
  return stop;
}
void *__wrap_malloc(size_t n) {
  if (refuse(n))
    return errno = ENOMEM, nullptr;
  return __real_malloc(n);
}
void *__wrap_calloc(size_t n, size_t m) {
  if (refuse(n * m))
    return errno = ENOMEM, nullptr;
  return __real_calloc(n, m);
}
void *__wrap_realloc(void *p, size_t n) {
  if (refuse(n))
    return errno = ENOMEM, nullptr;
  return __real_realloc(p, n);
}
int __wrap_posix_memalign(void **p, size_t a, size_t n) {
  if (refuse(n))
    return ENOMEM;
  return __real_posix_memalign(p, a, n);
}
}
