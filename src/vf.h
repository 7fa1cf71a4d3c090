// Shared utilities of the monitoring harnesses: seeded RNG, operation log,
// observation counters, violation reporting.
#pragma once
#include "mdbx.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using Bytes = std::string;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(unsigned pct) { return below(100) < pct; }
  bool permille(unsigned pm) { return below(1000) < pm; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

static inline uint64_t mix64(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const uint8_t *b = (const uint8_t *)p;
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, b, 8);
    h = mix64(h ^ w) + 0x9E3779B97F4A7C15ull;
    b += 8;
    n -= 8;
  }
  uint64_t w = n;
  while (n--)
    w = (w << 8) | *b++;
  return mix64(h ^ w);
}

// ---------------------------------------------------------------------------
// Observation counters and reporting. One process = one job. Output protocol:
//   COUNT <name> <n>      what the monitors observed
//   SAMPLE <text>         an actual case written out
//   HASH <hex>...         hashes of distinct non-trivial cases
//   FINDING <sig> <text>  a recorded misbehaviour (driver matches known list)
//   FAIL <sig> <text>     a violation; the process exits 1
struct Vf {
  std::map<std::string, uint64_t> counts;
  std::deque<std::string> log;
  size_t log_max = 400;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::string> samples;
  std::set<std::string> findings;
  std::string prop = "?", context, case_desc;
  bool verbose = false;
  uint64_t step = 0;
  bool in_child = false;
};
extern Vf vf;

static inline std::string hexs(const void *p, size_t n, size_t lim = 24) {
  static const char d[] = "0123456789abcdef";
  std::string r;
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n && i < lim; ++i) {
    r += d[b[i] >> 4];
    r += d[b[i] & 15];
  }
  if (n > lim)
    r += "..";
  r += "(" + std::to_string(n) + ")";
  return r;
}
static inline std::string hexs(const Bytes &b, size_t lim = 24) { return hexs(b.data(), b.size(), lim); }
static inline std::string hexs(const MDBX_val &v) { return v.iov_base ? hexs(v.iov_base, v.iov_len) : "null(" + std::to_string(v.iov_len) + ")"; }

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void vf_fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void vf_harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vf_finding(const char *sig, const std::string &text);
void vf_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vf_sample(const std::string &s);
void vf_case(const std::string &desc); // starts a case: clears the log, tells the driver where we are
void vf_finish(); // prints counters and exits 0
static inline void cnt(const char *name, uint64_t n = 1) { vf.counts[name] += n; }
// one evaluated, non-trivial case identified by its hash
static inline void distinct(uint64_t h) {
  cnt("evaluations");
  if (vf.hashes.size() < 60000)
    vf.hashes.insert(h);
}

static inline MDBX_val mv(const Bytes &b) {
  MDBX_val v;
  v.iov_base = (void *)b.data();
  v.iov_len = b.size();
  return v;
}
static inline Bytes bs(const MDBX_val &v) { return Bytes((const char *)v.iov_base, v.iov_len); }
static inline bool eqv(const MDBX_val &v, const Bytes &b) {
  return v.iov_len == b.size() && (b.empty() || memcmp(v.iov_base, b.data(), b.size()) == 0);
}

// setup calls that must succeed for the harness to make sense; a failure of
// one is still a failure of the code under test, since all inputs are valid
#define MUST(expr)                                                                                                     \
  do {                                                                                                                 \
    int rc__ = (expr);                                                                                                 \
    if (rc__ != MDBX_SUCCESS)                                                                                          \
      vf_fail("unexpected-error", "%s -> %d (%s) at %s:%d", #expr, rc__, mdbx_strerror(rc__), __FILE__, __LINE__);     \
  } while (0)

// command line: key=value
struct Args {
  std::map<std::string, std::string> m;
  void parse(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) {
      const char *e = strchr(argv[i], '=');
      if (e)
        m[std::string((const char*)argv[i], e)] = e + 1;
    }
  }
  std::string str(const char *k, const char *d = "") const {
    auto i = m.find(k);
    return i == m.end() ? d : i->second;
  }
  uint64_t num(const char *k, uint64_t d = 0) const {
    auto i = m.find(k);
    return i == m.end() ? d : strtoull(i->second.c_str(), nullptr, 0);
  }
};
extern Args args;
std::string scratch_dir(); // unique to the process, made below $VF_SCRATCH
void scratch_drop();
void vf_init(int argc, char **argv);
double now_s();
