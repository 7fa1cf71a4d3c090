// TSan flavour only: accesses to volatile objects (the `.weak` views of the
// library's atomics, fields of meta-pages) count as relaxed atomic ones: they
// never race with atomics or with each other, but still race with plain accesses
// and order nothing.
#include <sanitizer/tsan_interface_atomic.h>
#include <stdint.h>
extern "C" {
#define VOLATILE(bytes, bits)                                                                                          \
  __attribute__((no_sanitize("thread"))) void __tsan_volatile_read##bytes(void *p) {                                   \
    __tsan_atomic##bits##_load((const volatile __tsan_atomic##bits *)p, __tsan_memory_order_relaxed);                  \
  }                                                                                                                    \
  __attribute__((no_sanitize("thread"))) void __tsan_volatile_write##bytes(void *p) {                                  \
    __tsan_atomic##bits##_fetch_add((volatile __tsan_atomic##bits *)p, 0, __tsan_memory_order_relaxed);                \
  }                                                                                                                    \
  void __tsan_unaligned_volatile_read##bytes(void *) {}                                                                \
  void __tsan_unaligned_volatile_write##bytes(void *) {}
VOLATILE(1, 8)
VOLATILE(2, 16)
VOLATILE(4, 32)
VOLATILE(8, 64)
}
extern "C" {
void __tsan_volatile_read16(void *) {}
void __tsan_volatile_write16(void *) {}
}
