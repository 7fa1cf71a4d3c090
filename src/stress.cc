// Concurrent monitors: processes x threads run readers and writers of every
// kind against one database. The whole contents of the database are summed
// into a digest that the writer keeps in shared memory for each snapshot id
// BEFORE it commits; every reader recomputes the digest of what it sees. So a
// snapshot that mixes versions, moves under a reader, loses an update or is
// older than something already committed is seen at once, whatever the schedule.
#include "audit.h"
#include "vf.h"
#include <atomic>
#include <mutex>
#include <pthread.h>
#include <thread>
#include <sys/syscall.h>

#define RLX std::memory_order_relaxed

#define COUNTERS(X)                                                                                                     \
  X(commits) X(aborts) X(nested_commits) X(nested_aborts) X(writer_busy) X(writer_waited) X(checkpoints) X(rollbacks)  \
  X(embarks) X(amends_ok) X(amends_late) X(snapshots_verified) X(items_read) X(pointers_reverified) X(renews)          \
  X(refresh_new) X(refresh_same) X(clones) X(handoffs) X(parks) X(unpark_same) X(unpark_ousted) X(unpark_restarted)    \
  X(autounpark_same) X(autounpark_ousted) X(cache_gets) X(cache_hits) X(cache_races) X(cache_confirmed)               \
  X(cache_refreshed) X(reader_lists) X(reader_checks) X(syncs) X(geometry_changes) X(dbi_opens) X(infos)               \
  X(writer_took_over_while_reading) X(snapshots_older_than_last) X(kills) X(kills_in_writer) X(respawns)              \
  X(ops_after_kill) X(hsr_calls) X(map_full) X(sequences) X(env_reopens) X(drops) X(reader_thread_exits)             \
  X(bunch_deletes) X(copies) X(snapshot_bumped)                                                                         \
  X(geometry_in_txn)
enum {
#define X(n) C_##n,
  COUNTERS(X)
#undef X
      C_MAX
};
static const char *const cname[] = {
#define X(n) #n,
    COUNTERS(X)
#undef X
};

struct Ev {
  uint32_t pid, th;
  uint64_t n;
  char t[104];
};
enum { RING = 1 << 16, EVN = 4096, CACHE = 24, MAXPROC = 16, SEEN = 1 << 14 };
struct Slot {
  std::atomic<uint64_t> id, dig;
  std::atomic<uint32_t> pid, done;
};
struct Shared {
  std::atomic<uint64_t> last, inside, failed, stop, progress;
  std::atomic<uint32_t> nkilled, killed[1024];
  std::atomic<uint64_t> c[C_MAX];
  Slot ring[RING];
  std::atomic<uint32_t> evn;
  Ev ev[EVN];
  std::atomic<uint64_t> seen[SEEN]; // hashes of (snapshot, schedule position) seen by readers
};
static Shared *S;

struct Cfg {
  std::string mode, path;
  unsigned procs = 2, threads = 3, ops = 200, writers_pct = 35;
  unsigned env_flags = 0, pagesize = 0, keys = 600, max_val = 300, large_pm = 20;
  unsigned mv_keys = 30;
  bool nosticky = false, env_calls = false, hsr = false, small = false, jitter = false, tsan = false, dupfixed = false;
  unsigned kills = 0;
  uint64_t seed = 0;
  intptr_t upper = 256 << 20;
} cfg;

extern "C" void __asan_init(void) __attribute__((weak));
static thread_local Rng *rng;
static thread_local unsigned th_no;
static MDBX_env *env;
static MDBX_dbi d_kv, d_mv;
static volatile MDBX_cache_entry_t cache_kv[CACHE];
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
extern "C" void AnnotateBenignRaceSized(const char *, int, const volatile void *, size_t, const char *);
#define BENIGN(p, n) AnnotateBenignRaceSized(__FILE__, __LINE__, p, n, "entries of the cache are a seqlock")
#endif
#endif
#ifndef BENIGN
#define BENIGN(p, n) ((void)0)
#endif
static std::mutex fail_mx;
// With MDBX_NOSTICKYTHREADS the functions of the environment that take part in a
// write transaction (sync, geometry, statistics) regard a write transaction of ANY
// thread of the process as the caller's own (see DESIGN.md, known finding), so
// there the threads take turns.
static std::mutex env_mx;

static void bump(int c, uint64_t n = 1) { S->c[c].fetch_add(n, RLX); }
static void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void ev(const char *fmt, ...) {
  uint32_t n = S->evn.fetch_add(1, RLX);
  Ev &e = S->ev[n % EVN];
  e.pid = getpid();
  e.th = th_no;
  e.n = n;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(e.t, sizeof e.t, fmt, ap);
  va_end(ap);
}
[[noreturn]] static void die(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
static void die(const char *sig, const char *fmt, ...) {
  if (S->failed.exchange(1)) // somebody else reports
    for (;;)
      pause();
  char b[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  uint32_t n = S->evn.load();
  vf.log.clear();
  for (uint32_t i = n > 250 ? n - 250 : 0; i < n; ++i) {
    Ev &e = S->ev[i % EVN];
    e.t[sizeof e.t - 1] = 0;
    vf.log.push_back(strf("%u/%u #%llu %s", e.pid, e.th, (unsigned long long)e.n, e.t));
  }
  vf_fail(sig, "%s (process %d thread %u)", b, getpid(), th_no);
}
#define OK(expr)                                                                                                       \
  do {                                                                                                                 \
    int rc_ = (expr);                                                                                                  \
    if (rc_ != MDBX_SUCCESS)                                                                                           \
      die("unexpected-error", "%s -> %d (%s) line %d", #expr, rc_, mdbx_strerror(rc_), __LINE__);                      \
  } while (0)

static void nap() {
  switch (rng->below(12)) {
  case 0:
    usleep(rng->below(300));
    break;
  case 1:
  case 2:
    sched_yield();
    break;
  case 3:
    for (volatile unsigned i = rng->below(3000); i; i = i - 1)
      ;
    break;
  default:
    break;
  }
}

// ---------------------------------------------------------------------------
// contents
static Bytes kv_key(unsigned i) {
  uint64_t h = mix64(i * 77 + cfg.seed);
  Bytes k((const char *)&h, 2 + h % 6);
  k += std::to_string(i);
  if (h % 9 == 0)
    k.append(h % 30, 'k');
  return k;
}
static Bytes gen_val(Rng &r) {
  size_t n = r.permille(cfg.large_pm) ? r.below(cfg.small ? 3000 : 14000) : r.below(cfg.max_val);
  Bytes b(n, 0);
  uint64_t x = r.next();
  for (size_t i = 0; i < n; ++i)
    b[i] = char((x >> (i & 31)) + i * 7);
  return b;
}
static Bytes mv_key(unsigned i) { return "m" + std::to_string(i); }
static Bytes mv_val(unsigned i) {
  uint64_t h = mix64(i + 5);
  Bytes b((const char *)&h, 8);
  return cfg.dupfixed ? b : b + Bytes(h % 40, 'd') + std::to_string(i);
}
static uint64_t item(unsigned t, const MDBX_val &k, const MDBX_val &v) {
  return hash_bytes(v.iov_base, v.iov_len, hash_bytes(k.iov_base, k.iov_len, t + 1));
}
static uint64_t aux(const char *what, uint64_t v) { return v ? mix64(hash_bytes(what, strlen(what), v)) : 0; }

struct Kept {
  const void *p;
  size_t n;
  uint64_t h;
};

// digest of everything a transaction sees
static uint64_t scan(MDBX_txn *txn, std::vector<Kept> *keep = nullptr, bool slow = false) {
  uint64_t d = 0, items = 0;
  for (unsigned t = 0; t < 2; ++t) {
    MDBX_dbi dbi = t ? d_mv : d_kv;
    MDBX_cursor *c;
    OK(mdbx_cursor_open(txn, dbi, &c));
    uint64_t n = 0;
    const bool back = rng->chance(30);
    MDBX_val k, v;
    unsigned how = rng->below(t ? 2 : 3);
    int rc;
    if (how == 2) {
      MDBX_val pairs[64];
      size_t got = 0;
      rc = mdbx_cursor_get_batch(c, &got, pairs, 64, MDBX_FIRST);
      while (rc == MDBX_SUCCESS || rc == MDBX_RESULT_TRUE) {
        for (size_t i = 0; i + 1 < got; i += 2, ++n)
          d += item(t, pairs[i], pairs[i + 1]);
        if (slow)
          nap();
        rc = mdbx_cursor_get_batch(c, &got, pairs, 64, MDBX_NEXT);
      }
    } else {
      rc = mdbx_cursor_get(c, &k, &v, back ? MDBX_LAST : MDBX_FIRST);
      while (rc == MDBX_SUCCESS) {
        d += item(t, k, v);
        ++n;
        if (keep && keep->size() < 24 && rng->chance(4))
          keep->push_back({v.iov_base, v.iov_len, hash_bytes(v.iov_base, v.iov_len)});
        if (slow && rng->chance(3))
          nap();
        rc = mdbx_cursor_get(c, &k, &v, back ? MDBX_PREV : MDBX_NEXT);
      }
    }
    if (rc != MDBX_NOTFOUND && rc != MDBX_ENODATA)
      die("scan-error", "scan of table %u stopped by %d (%s)", t, rc, mdbx_strerror(rc));
    mdbx_cursor_close(c);
    MDBX_stat st;
    OK(mdbx_dbi_stat(txn, dbi, &st, sizeof st));
    if (st.ms_entries != n)
      die("scan-count", "table %u holds %llu entries by its statistics, %llu were read", t, (unsigned long long)st.ms_entries,
          (unsigned long long)n);
    items += n;
    uint64_t seq = 0;
    OK(mdbx_dbi_sequence(txn, dbi, &seq, 0));
    d += aux(t ? "mv" : "kv", seq);
  }
  MDBX_canary cn;
  OK(mdbx_canary_get(txn, &cn));
  d += aux("x", cn.x) + aux("y", cn.y) + aux("z", cn.z);
  bump(C_items_read, items);
  return d;
}

static bool was_killed(uint32_t pid);
// Shrinking the file, opening it or changing its geometry makes a snapshot id
// of its own with the contents of the one before; such an id is in no slot.
static uint64_t ring_digest(uint64_t id, const char *who, uint64_t *other = nullptr) {
  for (uint64_t i = id; i && i + 40 > id; --i) {
    Slot &p = S->ring[i % RING];
    if (p.id.load(RLX) == i) {
      // a writer that was killed while it committed: before or after
      if (other && !p.done.load(RLX) && was_killed(p.pid.load(RLX)))
        *other = ring_digest(i - 1, who);
      return p.dig.load(RLX);
    }
  }
  die("unknown-snapshot", "%s sees snapshot %llu which no writer has produced (last committed %llu)", who,
      (unsigned long long)id, (unsigned long long)S->last.load(RLX));
}
static void saw(uint64_t id, unsigned kind) {
  uint64_t h = mix64(id * 64 + kind) | 1;
  S->seen[h % SEEN].store(h, RLX);
}
// checks one snapshot completely; lower = newest commit known before it began
static void verify(MDBX_txn *txn, uint64_t id, const char *who, bool slow, std::vector<Kept> *keep = nullptr) {
  if (mdbx_txn_id(txn) != id)
    die("snapshot-id-changed", "%s: id of the transaction changed from %llu to %llu", who, (unsigned long long)id,
        (unsigned long long)mdbx_txn_id(txn));
  uint64_t got = scan(txn, keep, slow), want2 = 0, want = ring_digest(id, who, &want2);
  if (got != want && want2 && got == want2)
    return;
  if (got != want)
    die("snapshot-mismatch", "%s: contents of snapshot %llu differ from what was committed (%016llx, must be %016llx; last %llu)",
        who, (unsigned long long)id, (unsigned long long)got, (unsigned long long)want, (unsigned long long)S->last.load(RLX));
  bump(C_snapshots_verified);
  if (S->last.load(RLX) > id)
    bump(C_snapshots_older_than_last);
}
static uint64_t fresh_id(MDBX_txn *txn, uint64_t lower, const char *who) {
  uint64_t id = mdbx_txn_id(txn);
  if (id < lower)
    die("stale-snapshot", "%s got snapshot %llu though %llu had been committed before it began", who, (unsigned long long)id,
        (unsigned long long)lower);
  ring_digest(id, who);
  return id;
}
static void reverify(const std::vector<Kept> &keep, uint64_t id, const char *who) {
  for (auto &k : keep) {
    if (hash_bytes(k.p, k.n) != k.h)
      die("pointer-changed", "%s: bytes of an item read in snapshot %llu changed while the transaction was running", who,
          (unsigned long long)id);
    bump(C_pointers_reverified);
  }
}

// ---------------------------------------------------------------------------
// writers
static bool was_killed(uint32_t pid) {
  uint32_t n = S->nkilled.load();
  for (uint32_t i = 0; i < n && i < 1024; ++i)
    if (S->killed[i].load() == pid)
      return true;
  return false;
}
static uint64_t me() { return ((uint64_t)getpid() << 32) | th_no | 0x80000000u; }
static void enter(uint64_t id) {
  uint64_t old = S->inside.exchange(me(), RLX);
  if (old && !was_killed(old >> 32)) {
    if (old >> 32 != (uint64_t)getpid())
      sleep(2); // did the other process crash? Then that is what the parent reports
    die("two-writers", "write transaction %llu began while one of process %u thread %u was running", (unsigned long long)id,
        unsigned(old >> 32), unsigned(old & 0x7fffffff));
  }
}
static void leave() { S->inside.store(0, RLX); }
static void committed(uint64_t id) {
  uint64_t l = S->last.load(RLX);
  while (l < id && !S->last.compare_exchange_weak(l, id, RLX))
    ;
  S->ring[id % RING].done.store(1, RLX);
  S->progress.fetch_add(1, RLX);
}
static uint64_t base_of(MDBX_txn *txn, uint64_t lower) {
  MDBX_envinfo in;
  OK(mdbx_env_info_ex(env, txn, &in, sizeof in));
  uint64_t base = in.mi_recent_txnid;
  if (base < lower)
    die("stale-writer", "write transaction based on snapshot %llu though %llu had been committed before",
        (unsigned long long)base, (unsigned long long)lower);
  if (mdbx_txn_id(txn) <= base)
    die("writer-id", "id %llu of a write transaction is not above its base %llu", (unsigned long long)mdbx_txn_id(txn),
        (unsigned long long)base);
  return base;
}
static void publish(uint64_t id, uint64_t dig) {
  S->ring[id % RING].id.store(0, RLX);
  S->ring[id % RING].done.store(0, RLX);
  S->ring[id % RING].pid.store(getpid(), RLX);
  S->ring[id % RING].dig.store(dig, RLX);
  S->ring[id % RING].id.store(id, RLX);
}

static void unpublish(uint64_t id) {
  uint64_t w = id;
  S->ring[id % RING].id.compare_exchange_strong(w, 0, RLX);
}
static void touch(MDBX_txn *txn, uint64_t &dig);

struct Full {}; // no space: the transaction is to be aborted
static int W(int rc) {
  if (rc == MDBX_MAP_FULL || rc == MDBX_TXN_FULL || rc == MDBX_DBS_FULL)
    throw Full();
  return rc;
}

static void change(MDBX_txn *txn, uint64_t &dig, unsigned n, unsigned phase) {
  for (unsigned i = 0; i < n; ++i) {
    MDBX_val k, v, old;
    unsigned op = rng->below(100);
    if (op < 62) {
      Bytes key = kv_key(rng->below(cfg.keys)), val;
      k = mv(key);
      int rc = mdbx_get(txn, d_kv, &k, &old);
      uint64_t oh = 0;
      if (rc == MDBX_SUCCESS)
        oh = item(0, k, old);
      else if (rc != MDBX_NOTFOUND)
        die("writer-get", "get -> %d", rc);
      if (rng->chance(phase)) {
        rc = mdbx_del(txn, d_kv, &k, nullptr);
        if (rc != (oh ? MDBX_SUCCESS : MDBX_NOTFOUND) && W(rc))
          die("writer-del", "del -> %d", rc);
        if (rc == MDBX_SUCCESS)
          dig -= oh;
      } else {
        val = gen_val(*rng);
        v = mv(val);
        OK(W(mdbx_put(txn, d_kv, &k, &v, MDBX_UPSERT)));
        v = mv(val);
        k = mv(key);
        dig += item(0, k, v) - oh;
      }
    } else if (op < 94) {
      Bytes key = mv_key(rng->below(cfg.mv_keys)), val = mv_val(rng->below(200));
      k = mv(key);
      v = mv(val);
      if (rng->chance(phase)) {
        int rc = mdbx_del(txn, d_mv, &k, &v);
        if (rc == MDBX_SUCCESS)
          dig -= item(1, k, v);
        else if (W(rc) != MDBX_NOTFOUND)
          die("writer-del", "del -> %d", rc);
      } else {
        int rc = mdbx_put(txn, d_mv, &k, &v, MDBX_NODUPDATA);
        if (rc == MDBX_SUCCESS) {
          k = mv(key);
          v = mv(val);
          dig += item(1, k, v);
        } else if (W(rc) != MDBX_KEYEXIST)
          die("writer-put", "put -> %d", rc);
      }
    } else if (op < 96) {
      bool t = rng->chance(50);
      uint64_t was = 0, inc = rng->below(5), chk = 0;
      OK(mdbx_dbi_sequence(txn, t ? d_mv : d_kv, &was, inc));
      OK(mdbx_dbi_sequence(txn, t ? d_mv : d_kv, &chk, 0));
      if (chk != was + inc)
        die("sequence", "sequence %llu + %llu gives %llu", (unsigned long long)was, (unsigned long long)inc, (unsigned long long)chk);
      dig += aux(t ? "mv" : "kv", chk) - aux(t ? "mv" : "kv", was);
      bump(C_sequences);
    } else if (op < 98) {
      MDBX_canary o, c;
      OK(mdbx_canary_get(txn, &o));
      c.x = rng->below(1000), c.y = rng->below(3), c.z = rng->next(), c.v = 0;
      OK(mdbx_canary_put(txn, &c));
      dig += aux("x", c.x) + aux("y", c.y) + aux("z", c.z) - aux("x", o.x) - aux("y", o.y) - aux("z", o.z);
    } else if (op == 98 && rng->chance(30)) { // delete a key with all of its values
      Bytes key = mv_key(rng->below(cfg.mv_keys));
      k = mv(key);
      MDBX_cursor *c;
      OK(mdbx_cursor_open(txn, d_mv, &c));
      int rc = mdbx_cursor_get(c, &k, &v, MDBX_SET_KEY);
      while (rc == MDBX_SUCCESS) {
        dig -= item(1, k, v);
        rc = mdbx_cursor_get(c, &k, &v, MDBX_NEXT_DUP);
      }
      mdbx_cursor_close(c);
      k = mv(key);
      rc = mdbx_del(txn, d_mv, &k, nullptr);
      if (rc && W(rc) != MDBX_NOTFOUND)
        die("writer-del", "del key -> %d", rc);
    } else if (op == 99 && rng->chance(8)) { // empty a table
      bool t = rng->chance(50);
      uint64_t seq = 0, seq2 = 0;
      OK(mdbx_dbi_sequence(txn, t ? d_mv : d_kv, &seq, 0));
      MDBX_cursor *c;
      OK(mdbx_cursor_open(txn, t ? d_mv : d_kv, &c));
      int rc = mdbx_cursor_get(c, &k, &v, MDBX_FIRST);
      while (rc == MDBX_SUCCESS) {
        dig -= item(t, k, v);
        rc = mdbx_cursor_get(c, &k, &v, MDBX_NEXT);
      }
      mdbx_cursor_close(c);
      OK(W(mdbx_drop(txn, t ? d_mv : d_kv, false)));
      OK(mdbx_dbi_sequence(txn, t ? d_mv : d_kv, &seq2, 0)); // may start over
      dig += aux(t ? "mv" : "kv", seq2) - aux(t ? "mv" : "kv", seq);
      bump(C_drops);
    }
    if (rng->permille(15))
      nap();
  }
}

// makes sure that there is something to commit
static void touch(MDBX_txn *txn, uint64_t &dig) {
  MDBX_canary o, c;
  OK(mdbx_canary_get(txn, &o));
  c = o;
  c.z = rng->next() | 1;
  OK(mdbx_canary_put(txn, &c));
  dig += aux("z", c.z) - aux("z", o.z);
}
static uint64_t reader_lower() { return S->last.load(RLX); }

static void op_write() {
  std::unique_lock<std::mutex> turn(env_mx, std::defer_lock);
  if (cfg.nosticky && cfg.env_calls)
    turn.lock();
  uint64_t lower = reader_lower();
  MDBX_txn *txn = nullptr;
  unsigned fl = 0;
  if (rng->chance(15))
    fl |= MDBX_TXN_TRY;
  if (rng->chance(10))
    fl |= rng->chance(50) ? MDBX_TXN_NOMETASYNC : MDBX_TXN_NOSYNC;
  int rc = MDBX_RESULT_TRUE;
  if (rng->chance(10)) {
    // amend: continue writing from the very snapshot that was read
    MDBX_txn *r = nullptr;
    OK(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &r));
    uint64_t id = fresh_id(r, lower, "reader before amend");
    if (rng->chance(50))
      nap();
    rc = mdbx_txn_amend(r, &txn, MDBX_txn_flags_t(fl & MDBX_TXN_TRY), nullptr);
    if (rc == MDBX_RESULT_TRUE || rc == MDBX_BUSY) {
      bump(rc == MDBX_BUSY ? C_writer_busy : C_amends_late);
      // the reader was parked while it waited for its turn
      int u = mdbx_txn_unpark(r, true);
      if (u == MDBX_RESULT_TRUE)
        id = fresh_id(r, lower, "reader restarted after refused amend");
      else
        OK(u);
      verify(r, id, "reader after refused amend", false);
      OK(mdbx_txn_abort(r));
      return;
    }
    OK(rc);
    bump(C_amends_ok);
    uint64_t b = base_of(txn, lower);
    if (b != id)
      die("amend-base", "amend of snapshot %llu gave a transaction based on %llu", (unsigned long long)id, (unsigned long long)b);
  } else {
    rc = mdbx_txn_begin(env, nullptr, MDBX_txn_flags_t(fl), &txn);
    if (rc == MDBX_BUSY && (fl & MDBX_TXN_TRY)) {
      bump(C_writer_busy);
      return;
    }
    OK(rc);
  }
  uint64_t id = mdbx_txn_id(txn);
  enter(id);
  uint64_t alt = 0, base = base_of(txn, lower), dig = ring_digest(base, "writer", &alt);
  if (alt && alt != dig) { // see which of the two it was and settle it
    uint64_t got = scan(txn);
    if (got != alt && got != dig)
      die("lost-update", "writer after a killed one sees %016llx, neither %016llx nor %016llx", (unsigned long long)got,
          (unsigned long long)alt, (unsigned long long)dig);
    publish(base, dig = got);
    S->ring[base % RING].done.store(1, RLX);
  }
  ev("write %llu on %llu", (unsigned long long)id, (unsigned long long)base);
  if (S->last.load(RLX) > base)
    die("lost-update", "write transaction %llu is based on %llu, but %llu is committed", (unsigned long long)id,
        (unsigned long long)base, (unsigned long long)S->last.load(RLX));
  if (rng->chance(8)) {
    uint64_t got = scan(txn);
    if (got != dig)
      die("lost-update", "writer at snapshot %llu sees %016llx instead of %016llx", (unsigned long long)base,
          (unsigned long long)got, (unsigned long long)dig);
  }
  const unsigned phase = (S->progress.load(RLX) / 60) % 2 ? 75 : 25;
  bool ended = false;
  try {
    for (;;) {
      change(txn, dig, 1 + rng->below(rng->chance(10) ? 300 : 40), phase);
      if (!(cfg.env_flags & MDBX_WRITEMAP) && rng->chance(12)) {
        MDBX_txn *n = nullptr;
        OK(mdbx_txn_begin(env, txn, MDBX_TXN_READWRITE, &n));
        uint64_t nd = dig;
        try {
          change(n, nd, 1 + rng->below(30), phase);
        } catch (Full &) {
          OK(mdbx_txn_abort(n));
          throw;
        }
        if (rng->chance(50)) {
          OK(mdbx_txn_abort(n));
          bump(C_nested_aborts);
        } else {
          rc = mdbx_txn_commit(n);
          if (rc) {
            W(rc);
            die("nested-commit", "commit of a nested transaction -> %d", rc);
          }
          dig = nd;
          bump(C_nested_commits);
        }
      }
      if (rng->chance(6)) {
        uint64_t got = scan(txn);
        if (got != dig)
          die("writer-view", "writer %llu sees %016llx instead of %016llx", (unsigned long long)id, (unsigned long long)got,
              (unsigned long long)dig);
      }
      if (rng->chance(15))
        nap();
      if (rng->chance(5) && !cfg.tsan) {
        intptr_t g = intptr_t(rng->below(4) + 1) << 16;
        rc = mdbx_env_set_geometry(env, -1, -1, -1, g, rng->chance(50) ? g : g * 2, -1);
        if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE) {
          W(rc);
          die("set-geometry", "inside of a transaction -> %d (%s)", rc, mdbx_strerror(rc));
        }
        bump(C_geometry_in_txn);
      }
      if (rng->chance(7)) {
        touch(txn, dig);
        publish(id, dig);
        ev("checkpoint %llu", (unsigned long long)id);
        rc = mdbx_txn_checkpoint(txn, rng->chance(50) ? MDBX_TXN_READWRITE : MDBX_TXN_NOSYNC, nullptr);
        if (rc == MDBX_SUCCESS) {
          bump(C_checkpoints);
          committed(id);
          uint64_t nid = mdbx_txn_id(txn), b = base_of(txn, id);
          if (b < id || nid <= b || ring_digest(b, "checkpoint") != dig)
            die("checkpoint-base", "after the checkpoint of %llu the transaction is %llu on %llu", (unsigned long long)id,
                (unsigned long long)nid, (unsigned long long)b);
          id = nid;
          base = b;
          continue;
        }
        unpublish(id);
        {
          ended = true; // a failed checkpoint ends the transaction
          W(rc);
          die("checkpoint", "checkpoint -> %d", rc);
        }
      }
      if (rng->chance(4)) {
        rc = mdbx_txn_rollback(txn);
        ev("rollback %llu -> %d", (unsigned long long)id, rc);
        if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
          die("rollback", "rollback -> %d", rc);
        if (mdbx_txn_id(txn) != id)
          die("rollback-id", "rollback turned transaction %llu into %llu", (unsigned long long)id, (unsigned long long)mdbx_txn_id(txn));
        bump(C_rollbacks);
        dig = ring_digest(base, "writer after rollback");
        continue;
      }
      break;
    }
  } catch (Full &) {
    bump(C_map_full);
    leave();
    if (!ended)
      OK(mdbx_txn_abort(txn));
    return;
  }
  if (rng->chance(15)) {
    ev("abort %llu", (unsigned long long)id);
    leave();
    OK(mdbx_txn_abort(txn));
    bump(C_aborts);
    return;
  }
  touch(txn, dig);
  publish(id, dig);
  ev("commit %llu", (unsigned long long)id);
  leave();
  if (rng->chance(12)) {
    rc = mdbx_txn_commit_embark_read(&txn, nullptr);
    if (rc == MDBX_SUCCESS) {
      committed(id);
      bump(C_commits);
      bump(C_embarks);
      if (mdbx_txn_id(txn) < id || ring_digest(mdbx_txn_id(txn), "embark") != dig)
        die("embark", "the reader embarked by commit %llu got snapshot %llu", (unsigned long long)id, (unsigned long long)mdbx_txn_id(txn));
      verify(txn, mdbx_txn_id(txn), "embarked reader", true);
      OK(mdbx_txn_abort(txn));
      return;
    }
  } else
    rc = mdbx_txn_commit(txn);
  if (rc == MDBX_SUCCESS) {
    committed(id);
    bump(C_commits);
  } else if (rc == MDBX_MAP_FULL || rc == MDBX_TXN_FULL) {
    unpublish(id);
    bump(C_map_full);
  }
  else
    die("commit", "commit -> %d (%s)", rc, mdbx_strerror(rc));
}

// ---------------------------------------------------------------------------
// readers
static thread_local MDBX_txn *t_saved; // reset handle of this thread
static int begin_read(MDBX_txn **t) {
  int rc = mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, t);
  return rc;
}

struct Offer {
  MDBX_txn *txn = nullptr;
  uint64_t id = 0;
};
static std::mutex offer_mx;
static Offer offer, hand;

static void cache_reads(MDBX_txn *txn, uint64_t id) {
  for (unsigned i = 0; i < 12; ++i) {
    unsigned n = rng->below(CACHE);
    Bytes key = kv_key(n);
    MDBX_val k = mv(key), a, b;
    memset(&a, 0, sizeof a);
    MDBX_cache_result_t r = mdbx_cache_get(txn, d_kv, &k, &a, &cache_kv[n]);
    int rc = mdbx_get(txn, d_kv, &k, &b);
    bump(C_cache_gets);
    if (r.status == MDBX_CACHE_HIT)
      bump(C_cache_hits);
    if (r.status == MDBX_CACHE_RACE)
      bump(C_cache_races);
    if (r.status == MDBX_CACHE_CONFIRMED)
      bump(C_cache_confirmed);
    if (r.status == MDBX_CACHE_REFRESHED)
      bump(C_cache_refreshed);
    if ((int)r.errcode != rc || (rc == MDBX_SUCCESS && (a.iov_len != b.iov_len || memcmp(a.iov_base, b.iov_base, a.iov_len))))
      die("cache-mismatch", "cached lookup in snapshot %llu: %d/%zu status %d, plain lookup %d/%zu", (unsigned long long)id,
          (int)r.errcode, a.iov_len, (int)r.status, rc, b.iov_len);
  }
}

static void op_read(bool parks, bool caches) {
  uint64_t lower = reader_lower();
  MDBX_txn *txn = t_saved;
  t_saved = nullptr;
  if (txn) {
    OK(mdbx_txn_renew(txn));
    bump(C_renews);
  } else
    OK(begin_read(&txn));
  uint64_t id = fresh_id(txn, lower, "reader");
  ev("read %llu", (unsigned long long)id);
  saw(id, 0);
  std::vector<Kept> keep;
  bool slow = rng->chance(40);
  unsigned rounds = 1 + rng->below(4);
  if (rng->chance(90))
    verify(txn, id, "reader", slow, &keep);
  for (unsigned r = 0; r < rounds; ++r) {
    unsigned op = rng->below(100);
    if (op < 14) { // refresh
      reverify(keep, id, "reader");
      keep.clear();
      lower = reader_lower();
      int rc = mdbx_txn_refresh(txn);
      if (rc == MDBX_RESULT_TRUE) {
        if (mdbx_txn_id(txn) != id)
          die("refresh-id", "refresh changed nothing but the id");
        fresh_id(txn, lower, "reader told to be up to date");
        bump(C_refresh_same);
      } else {
        OK(rc);
        uint64_t nid = fresh_id(txn, lower, "refreshed reader");
        if (nid <= id)
          die("refresh-id", "refresh went from %llu to %llu", (unsigned long long)id, (unsigned long long)nid);
        id = nid;
        bump(C_refresh_new);
      }
      saw(id, 1);
    } else if (op < 24) { // restart
      keep.clear();
      OK(mdbx_txn_reset(txn));
      if (rng->chance(30))
        nap();
      lower = reader_lower();
      OK(mdbx_txn_renew(txn));
      id = fresh_id(txn, lower, "renewed reader");
      bump(C_renews);
      saw(id, 2);
    } else if (op < 34 && cfg.nosticky) { // clone
      MDBX_txn *c = nullptr;
      OK(mdbx_txn_clone(txn, &c, nullptr));
      bump(C_clones);
      if (rng->chance(50)) {
        verify(c, id, "clone", false);
        verify(txn, id, "cloned reader", false);
        OK(mdbx_txn_abort(c));
      } else {
        // the clone has to keep the snapshot by itself
        reverify(keep, id, "reader");
        keep.clear();
        OK(mdbx_txn_abort(txn));
        txn = c;
        nap();
      }
      saw(id, 3);
    } else if (op < 44 && cfg.nosticky) { // hand over to another thread
      std::unique_lock<std::mutex> g(offer_mx);
      if (!hand.txn) {
        reverify(keep, id, "reader");
        keep.clear();
        hand.txn = txn;
        hand.id = id;
        bump(C_handoffs);
        return;
      } else {
        std::swap(hand.txn, txn);
        std::swap(hand.id, id);
        g.unlock();
        keep.clear();
        bump(C_handoffs);
        saw(id, 4);
      }
    } else if (op < 54 && !cfg.nosticky) { // clone of a reader of another thread
      std::unique_lock<std::mutex> g(offer_mx);
      if (!offer.txn) {
        offer.txn = txn;
        offer.id = id;
        g.unlock();
        usleep(rng->below(400));
        g.lock();
        if (offer.txn == txn)
          offer.txn = nullptr;
        g.unlock();
      } else if (rng->chance(70)) {
        // this thread's own transaction must end first
        reverify(keep, id, "reader");
        keep.clear();
        OK(mdbx_txn_reset(txn));
        uint64_t oid = offer.id;
        MDBX_txn *c = rng->chance(50) ? txn : nullptr;
        if (!c)
          OK(mdbx_txn_abort(txn));
        OK(mdbx_txn_clone(offer.txn, &c, nullptr));
        offer.txn = nullptr;
        txn = c;
        id = oid;
        g.unlock();
        bump(C_clones);
        saw(id, 5);
      }
    } else if (op < 80 && parks) {
      reverify(keep, id, "reader");
      keep.clear();
      bool autoun = rng->chance(40);
      OK(mdbx_txn_park(txn, autoun));
      bump(C_parks);
      unsigned w = rng->below(4);
      if (w)
        usleep(rng->below(w == 1 ? 3000 : 300));
      lower = reader_lower();
      if (autoun && rng->chance(80)) {
        Bytes key = kv_key(rng->below(cfg.keys));
        MDBX_val k = mv(key), v;
        int rc = mdbx_get(txn, d_kv, &k, &v);
        if (rc == MDBX_OUSTED) {
          bump(C_autounpark_ousted);
          // it must stay unusable until restarted
          rc = mdbx_get(txn, d_kv, &k, &v);
          if (rc == MDBX_SUCCESS || rc == MDBX_NOTFOUND)
            die("ousted-usable", "an ousted reader still reads (%d)", rc);
          OK(mdbx_txn_renew(txn));
          id = fresh_id(txn, lower, "reader renewed after ousting");
        } else if (rc == MDBX_SUCCESS || rc == MDBX_NOTFOUND) {
          bump(C_autounpark_same);
          if (mdbx_txn_id(txn) != id)
            die("unpark-id", "auto-unparked reader moved from %llu to %llu", (unsigned long long)id,
                (unsigned long long)mdbx_txn_id(txn));
        } else
          die("autounpark", "get -> %d", rc);
      } else {
        bool restart = rng->chance(50);
        int rc = mdbx_txn_unpark(txn, restart);
        if (rc == MDBX_SUCCESS) {
          bump(C_unpark_same);
          if (mdbx_txn_id(txn) != id)
            die("unpark-id", "unparked reader moved from %llu to %llu", (unsigned long long)id, (unsigned long long)mdbx_txn_id(txn));
        } else if (rc == MDBX_OUSTED && !restart) {
          bump(C_unpark_ousted);
          if (rng->chance(50)) {
            OK(mdbx_txn_abort(txn));
            txn = nullptr;
            OK(begin_read(&txn));
          } else
            OK(mdbx_txn_renew(txn));
          id = fresh_id(txn, lower, "reader renewed after ousting");
        } else if (rc == MDBX_RESULT_TRUE && restart) {
          bump(C_unpark_restarted);
          id = fresh_id(txn, lower, "reader restarted by unpark");
        } else
          die("unpark", "unpark(restart=%d) -> %d (%s)", restart, rc, mdbx_strerror(rc));
      }
      ev("unparked %llu", (unsigned long long)id);
      saw(id, 6);
    } else if (op < 90 && caches) {
      cache_reads(txn, id);
      saw(id, 7);
    } else if (op < 96) {
      nap();
      reverify(keep, id, "reader");
    } else {
      MDBX_txn_info ti;
      OK(mdbx_txn_info(txn, &ti, true));
      if (ti.txn_id != id)
        die("txn-info", "txn_info says %llu in snapshot %llu", (unsigned long long)ti.txn_id, (unsigned long long)id);
    }
    if (rng->chance(60)) {
      verify(txn, id, "reader again", slow && rng->chance(50), &keep);
    }
  }
  reverify(keep, id, "reader at its end");
  if (cfg.tsan == false && rng->chance(25))
    verify(txn, id, "reader at its end", false);
  if (rng->chance(30)) {
    OK(mdbx_txn_reset(txn));
    t_saved = txn;
  } else if (rng->chance(50)) {
    OK(mdbx_txn_abort(txn));
  } else
    OK(mdbx_txn_commit(txn));
}

static int list_cb(void *ctx, int num, int slot, mdbx_pid_t pid, mdbx_tid_t thread, uint64_t txnid, uint64_t lag,
                   size_t used, size_t retained) MDBX_CXX17_NOEXCEPT {
  (void)num, (void)slot, (void)pid, (void)thread, (void)lag, (void)used, (void)retained;
  if (txnid) {
    ++*(unsigned *)ctx;
    ev("listed reader pid %ld thread %lx txnid %llu lag %llu", long(pid), long(thread), (unsigned long long)txnid, (unsigned long long)lag);
  }
  return 0;
}

static void op_misc() {
  int rc;
  unsigned n = 0;
  unsigned what = rng->below(9);
  std::unique_lock<std::mutex> turn(env_mx, std::defer_lock);
  if (cfg.nosticky && what > 1 && what != 6) {
    if (!cfg.env_calls)
      return;
    turn.lock();
  }
  switch (what) {
  case 0:
    rc = mdbx_reader_list(env, list_cb, &n);
    if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
      die("reader-list", "-> %d", rc);
    bump(C_reader_lists);
    break;
  case 1: {
    int dead = 0;
    rc = mdbx_reader_check(env, &dead);
    if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
      die("reader-check", "-> %d", rc);
    bump(C_reader_checks);
    break;
  }
  case 2:
  case 3:
    rc = mdbx_env_sync_ex(env, rng->chance(50), rng->chance(60));
    if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE && rc != MDBX_BUSY)
      die("sync", "-> %d", rc);
    bump(C_syncs);
    break;
  case 4: {
    MDBX_envinfo in;
    uint64_t lower = reader_lower();
    OK(mdbx_env_info_ex(env, nullptr, &in, sizeof in));
    if (in.mi_recent_txnid < lower)
      die("info-stale", "env_info says the last transaction is %llu, %llu was committed before", (unsigned long long)in.mi_recent_txnid,
          (unsigned long long)lower);
    MDBX_stat st;
    OK(mdbx_env_stat_ex(env, nullptr, &st, sizeof st));
    bump(C_infos);
    break;
  }
  case 5:
    if (rng->chance(40) && !cfg.kills) {
      bump(C_geometry_changes);
      intptr_t g = intptr_t(rng->below(4) + 1) << 16;
      rc = mdbx_env_set_geometry(env, -1, -1, -1, g, rng->chance(50) ? g : g * 2, -1);
      if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE && rc != MDBX_BUSY)
        die("set-geometry", "-> %d (%s)", rc, mdbx_strerror(rc));
    }
    break;
  case 6: {
    MDBX_txn *t = nullptr;
    uint64_t lower = reader_lower();
    if (t_saved) {
      t = t_saved;
      t_saved = nullptr;
      OK(mdbx_txn_renew(t));
    } else
      OK(begin_read(&t));
    fresh_id(t, lower, "reader opening a table");
    MDBX_dbi d = 0;
    OK(mdbx_dbi_open(t, rng->chance(50) ? "kv" : "mv", MDBX_DB_ACCEDE, &d));
    if (d != d_kv && d != d_mv)
      die("dbi-handle", "a second handle %u for an open table", d);
    rc = mdbx_dbi_open(t, "nosuch", MDBX_DB_ACCEDE, &d);
    if (rc != MDBX_NOTFOUND)
      die("dbi-open", "opening a missing table -> %d", rc);
    OK(mdbx_txn_abort(t));
    bump(C_dbi_opens);
    break;
  }
  case 7:
    OK(mdbx_env_set_option(env, MDBX_opt_dp_reserve_limit, rng->below(200)));
    OK(mdbx_env_set_option(env, MDBX_opt_rp_augment_limit, rng->below(3) ? 256 : 4096));
    OK(mdbx_env_set_option(env, MDBX_opt_sync_bytes, rng->chance(50) ? 1 << 20 : 1 << 16));
    break;
  case 8: {
    MDBX_stat st;
    (void)st;
    rc = mdbx_env_sync_poll(env);
    if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE && rc != MDBX_BUSY)
      die("sync-poll", "-> %d", rc);
    bump(C_syncs);
    break;
  }
  }
}

static int hsr_cb(const MDBX_env *, const MDBX_txn *, mdbx_pid_t, mdbx_tid_t, uint64_t, unsigned, size_t, int retry) MDBX_CXX17_NOEXCEPT {
  bump(C_hsr_calls);
  if (retry < 0)
    return 0;
  if (retry < 2) {
    usleep(200);
    return 0;
  }
  return -1;
}

// ---------------------------------------------------------------------------
static MDBX_env *open_env(unsigned flags, bool create = false) {
  MDBX_env *e = nullptr;
  OK(mdbx_env_create(&e));
  OK(mdbx_env_set_maxdbs(e, 8));
  OK(mdbx_env_set_maxreaders(e, 126));
  if (create) // later openings take what the file says
    OK(mdbx_env_set_geometry(e, 0, -1, cfg.upper, 1 << 16, 1 << 16, cfg.pagesize ? (intptr_t)cfg.pagesize : -1));
  if (cfg.hsr)
    OK(mdbx_env_set_hsr(e, hsr_cb));
  int rc = mdbx_env_open(e, cfg.path.c_str(), MDBX_env_flags_t(flags | MDBX_NOSUBDIR), 0644);
  if (rc != MDBX_SUCCESS)
    die("open", "env_open -> %d (%s)", rc, mdbx_strerror(rc));
  return e;
}

static void thread_main(unsigned no, uint64_t seed) {
  th_no = no;
  Rng r(seed);
  rng = &r;
  const bool parks = cfg.mode == "C21" || (cfg.mode != "C23" && cfg.mode != "C07" && r.chance(30));
  const bool caches = cfg.nosticky && (cfg.mode == "C23" || r.chance(30));
  for (unsigned i = 0; i < cfg.ops && !S->stop.load(RLX); ++i) {
    if (S->failed.load(RLX))
      for (;;)
        pause();
    unsigned w = r.below(100);
    if (w < cfg.writers_pct)
      op_write();
    else if (w < 92)
      op_read(parks, caches);
    else
      op_misc();
    if (S->nkilled.load(RLX))
      bump(C_ops_after_kill);
    if (!cfg.nosticky && r.permille(4))
      break; // a thread that ends early leaves its reader slot behind
  }
  if (t_saved)
    OK(mdbx_txn_abort(t_saved));
  t_saved = nullptr;
}

static void open_tables() {
  MDBX_txn *t = nullptr;
  OK(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t));
  OK(mdbx_dbi_open(t, "kv", MDBX_DB_ACCEDE, &d_kv));
  OK(mdbx_dbi_open(t, "mv", MDBX_DB_ACCEDE, &d_mv));
  OK(mdbx_txn_commit(t));
}

static void worker(unsigned proc, uint64_t seed) {
  vf.in_child = true;
  Rng r(seed);
  rng = &r;
  th_no = 999;
  for (unsigned cycle = 0;; ++cycle) {
    for (unsigned i = 0; i < CACHE; ++i)
      mdbx_cache_init((MDBX_cache_entry_t *)&cache_kv[i]);
    env = open_env(cfg.env_flags);
    open_tables();
    std::vector<std::thread> th;
    for (unsigned i = 0; i < cfg.threads; ++i)
      th.emplace_back(thread_main, proc * 100 + i, mix64(seed + cycle * 1000 + i));
    for (auto &t : th)
      t.join();
    if (hand.txn) {
      verify(hand.txn, hand.id, "handed over reader", false);
      OK(mdbx_txn_abort(hand.txn));
      hand.txn = nullptr;
    }
    // readers left by threads that ended are fine: closing takes care of them
    OK(mdbx_env_close(env));
    env = nullptr;
    if (S->stop.load(RLX) || !r.chance(25) || cycle > 2)
      break;
    bump(C_env_reopens);
  }
  fflush(stdout);
  _exit(0);
}

static void setup_db() {
  env = open_env(cfg.env_flags, true);
  MDBX_txn *t = nullptr;
  OK(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t));
  OK(mdbx_dbi_open(t, "kv", MDBX_CREATE, &d_kv));
  OK(mdbx_dbi_open(t, "mv", MDBX_db_flags_t(MDBX_CREATE | MDBX_DUPSORT | (cfg.dupfixed ? MDBX_DUPFIXED : 0)), &d_mv));
  uint64_t dig = 0;
  try {
    change(t, dig, cfg.keys, 10);
  } catch (Full &) {
    vf_harness_error("no room for the initial contents");
  }
  uint64_t id = mdbx_txn_id(t);
  publish(id, dig);
  OK(mdbx_txn_commit(t));
  S->last = id;
  OK(mdbx_env_close(env));
  env = nullptr;
}

static void final_check() {
  AuditResult a = audit_path(cfg.path, false);
  for (auto &e : a.errs)
    die("audit", "%s", e.c_str());
  env = open_env(cfg.env_flags & ~MDBX_EXCLUSIVE);
  open_tables();
  int dead = -1;
  int rc = mdbx_reader_check(env, &dead);
  if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
    die("reader-check", "-> %d", rc);
  MDBX_txn *t = nullptr;
  OK(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t));
  uint64_t id = fresh_id(t, S->last, "final reader");
  verify(t, id, "final reader", false);
  OK(mdbx_txn_abort(t));
  unsigned n = 0;
  rc = mdbx_reader_list(env, list_cb, &n);
  // the kernel may release the locks of a killed process some time after it was reaped
  for (int i = 0; n && i < 1000; ++i) {
    usleep(10000);
    rc = mdbx_reader_check(env, &dead);
    if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
      die("reader-check", "-> %d", rc);
    n = 0;
    rc = mdbx_reader_list(env, list_cb, &n);
  }
  if (n)
    die("reader-left", "%u readers are listed as running after all processes have gone", n);
  // and it is still writable
  OK(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t));
  uint64_t alt = 0, dig = ring_digest(base_of(t, id), "final writer", &alt);
  if (alt)
    dig = scan(t);
  try {
    change(t, dig, 20, 50);
    if (scan(t) != dig)
      die("writer-view", "the final writer sees something else than it should");
  } catch (Full &) {
  }
  OK(mdbx_txn_abort(t));
  OK(mdbx_env_close(env));
  env = nullptr;
}

static pid_t spawn(unsigned proc, uint64_t seed) {
  fflush(stdout);
  pid_t p = fork();
  if (p < 0)
    vf_harness_error("fork: %s", strerror(errno));
  if (p == 0)
    worker(proc, seed);
  return p;
}

static void one_case(uint64_t seed) {
  Rng r(seed);
  rng = &r;
  cfg.seed = seed;
  static const unsigned sizes[] = {256, 512, 1024, 4096, 4096, 8192, 16384};
  cfg.pagesize = sizes[r.below(7)];
  cfg.small = cfg.pagesize <= 1024;
  cfg.env_flags = 0;
  switch (r.below(5)) {
  case 0:
    cfg.env_flags |= MDBX_NOMETASYNC;
    break;
  case 1:
    cfg.env_flags |= MDBX_SAFE_NOSYNC;
    break;
  case 2:
    break;
  default:
    cfg.env_flags |= MDBX_UTTERLY_NOSYNC;
  }
  if (r.chance(35) && !cfg.tsan)
    cfg.env_flags |= MDBX_WRITEMAP;
  if (r.chance(30))
    cfg.env_flags |= MDBX_LIFORECLAIM;
  if (r.chance(20))
    cfg.env_flags |= MDBX_NOMEMINIT;
  if (r.chance(20))
    cfg.env_flags |= MDBX_NORDAHEAD;
  cfg.nosticky = r.chance(cfg.mode == "C23" ? 100 : 60);
  if (cfg.nosticky)
    cfg.env_flags |= MDBX_NOSTICKYTHREADS;
  cfg.env_calls = !cfg.nosticky || r.chance(50);
  cfg.dupfixed = r.chance(50);
  cfg.hsr = r.chance(30);
  cfg.keys = r.chance(50) ? 80 : 700;
  cfg.max_val = r.chance(50) ? 60 : 400;
  cfg.large_pm = r.chance(50) ? 10 : 60;
  cfg.upper = r.chance(25) && !cfg.small ? 24 << 20 : 256 << 20;
  cfg.writers_pct = r.chance(50) ? 25 : 50;
  if (cfg.mode == "C07")
    cfg.writers_pct = 75;
  cfg.procs = 1 + r.below(args.num("procs", 4));
  cfg.threads = 2 + r.below(args.num("threads", 4));
  if (&__asan_init) {
    // there the library poisons the unused end of the map when a transaction ends,
    // while other threads of the process may be starting theirs
    cfg.threads = 1;
    cfg.procs = 2 + r.below(3);
  }
  cfg.ops = args.num("ops", 60);
  cfg.kills = args.num("kills", 0);
  if (cfg.kills && cfg.procs < 2 && r.chance(70))
    cfg.procs = 2 + r.below(2);
  if (cfg.kills)
    cfg.ops *= 4;
  cfg.path = scratch_dir() + strf("/s%llu", (unsigned long long)seed);
  cfg.jitter = args.num("jitter");
  vf_case(strf("mode=%s seed=%llu ps=%u flags=0x%x procs=%u threads=%u keys=%u kills=%u", cfg.mode.c_str(),
               (unsigned long long)seed, cfg.pagesize, cfg.env_flags, cfg.procs, cfg.threads, cfg.keys, cfg.kills));
  memset((void *)S, 0, sizeof *S);
  if (cfg.jitter)
    mdbx_setup_debug(MDBX_LOG_FATAL, MDBX_DBG_JITTER, nullptr);
  // the parent never holds the environment while it forks
  setup_db();
  std::map<pid_t, unsigned> alive;
  for (unsigned p = 0; p < cfg.procs; ++p)
    alive[spawn(p, mix64(seed * 31 + p))] = p;
  unsigned kills = 0;
  double t0 = now_s();
  uint64_t progress = 0;
  double tprog = t0;
  while (!alive.empty()) {
    int st = 0;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      unsigned pr = alive[p];
      alive.erase(p);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        continue;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && was_killed(p)) {
        if (kills < cfg.kills || r.chance(60)) {
          alive[spawn(pr, mix64(seed * 31 + pr + 100 * kills))] = pr;
          bump(C_respawns);
        }
        continue;
      }
      for (auto &a : alive)
        kill(a.first, SIGKILL);
      if (WIFSIGNALED(st)) {
        for (auto &a : alive)
          waitpid(a.first, nullptr, 0);
        printf("CASE %s worker killed by signal %d\n", vf.case_desc.c_str(), WTERMSIG(st));
        uint32_t n = S->evn.load();
        for (uint32_t i = n > 60 ? n - 60 : 0; i < n; ++i)
          printf("LOG %u/%u %.100s\n", S->ev[i % EVN].pid, S->ev[i % EVN].th, S->ev[i % EVN].t);
        fflush(stdout);
        scratch_drop();
        signal(WTERMSIG(st), SIG_DFL);
        raise(WTERMSIG(st));
      }
      fflush(stdout);
      scratch_drop();
      _exit(WEXITSTATUS(st));
    }
    uint64_t pg = S->progress.load();
    if (pg != progress) {
      progress = pg;
      tprog = now_s();
    }
    if (kills < cfg.kills && !alive.empty() && pg > 3 + 12 * kills) {
      // prefer the writer: that is where dying hurts most
      usleep(r.below(2000));
      auto it = alive.begin();
      std::advance(it, r.below(alive.size()));
      pid_t victim = it->first;
      if (r.chance(70))
        for (int spin = 0; spin < 2000; ++spin) {
          uint64_t in = S->inside.load();
          if (in && alive.count(pid_t(in >> 32))) {
            victim = pid_t(in >> 32);
            break;
          }
        }
      uint32_t n = S->nkilled.load();
      S->killed[n].store(victim);
      S->nkilled.store(n + 1);
      uint64_t in = S->inside.load();
      kill(victim, SIGKILL);
      if (in >> 32 == (uint64_t)victim)
        bump(C_kills_in_writer);
      bump(C_kills);
      ev("killed %d", victim);
      kills++;
    }
    usleep(300);
  }
  // whoever was killed inside a transaction is out now
  S->inside = 0;
  final_check();
  for (unsigned i = 0; i < C_MAX; ++i)
    if (S->c[i])
      cnt(cname[i], S->c[i]);
  for (unsigned i = 0; i < SEEN; ++i)
    if (S->seen[i])
      distinct(S->seen[i] ^ mix64(seed));
  cnt("cases");
  cnt("committed_snapshots", S->last);
  unlink(cfg.path.c_str());
  unlink((cfg.path + "-lck").c_str());
  if (vf.samples.size() < 2)
    vf_sample(strf("%s: %llu commits, %llu snapshots verified item by item", vf.case_desc.c_str(), (unsigned long long)S->c[C_commits],
                   (unsigned long long)S->c[C_snapshots_verified]));
}

/* Known finding: with MDBX_NOSTICKYTHREADS the library can't tell which thread runs the write transaction, so a call on the environment from
 * another thread works on the running transaction of a foreign thread, and thus also races with it. */
static void nosticky_case() {
  cfg.path = scratch_dir() + "/nosticky.db";
  MDBX_env *env = nullptr;
  MUST(mdbx_env_create(&env));
  MUST(mdbx_env_set_geometry(env, -1, -1, 1 << 24, -1, -1, 4096));
  MUST(mdbx_env_open(env, cfg.path.c_str(), MDBX_NOSUBDIR | MDBX_NOSTICKYTHREADS, 0644));
  MDBX_txn *txn = nullptr;
  MDBX_dbi dbi = 0;
  MUST(mdbx_txn_begin(env, nullptr, (MDBX_txn_flags_t)0, &txn));
  MUST(mdbx_dbi_open(txn, nullptr, (MDBX_db_flags_t)0, &dbi));
  for (uint32_t i = 0; i < 100; ++i) {
    MDBX_val k = {&i, 4}, v = {&i, 4};
    MUST(mdbx_put(txn, dbi, &k, &v, (MDBX_put_flags_t)0));
  }
  MDBX_stat st{};
  int rc = 0;
  std::thread([&] { rc = mdbx_env_stat_ex(env, nullptr, &st, sizeof st); }).join();
  if (rc == MDBX_SUCCESS && st.ms_entries == 100)
    vf_finding("nosticky-env-call", "mdbx_env_stat_ex() without a transaction, called by another thread, showed the uncommitted state of the "
                                    "running write transaction (MDBX_NOSTICKYTHREADS)");
  else if (rc != MDBX_SUCCESS || st.ms_entries != 0)
    vf_fail("nosticky-env-stat", "mdbx_env_stat_ex() by another thread: rc %d, %llu entries, but nothing was committed", rc,
            (unsigned long long)st.ms_entries);
  mdbx_txn_abort(txn);
  mdbx_env_close(env);
  unlink(cfg.path.c_str());
  unlink((cfg.path + "-lck").c_str());
}

int main(int argc, char **argv) {
  vf_init(argc, argv);
  BENIGN(cache_kv, sizeof cache_kv);
  mdbx_setup_debug(MDBX_LOG_FATAL, MDBX_DBG_NONE, nullptr);
  cfg.mode = args.str("mode", "C06");
  cfg.tsan = args.num("tsan");
  S = (Shared *)mmap(nullptr, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED)
    vf_harness_error("mmap");
  uint64_t seed = args.num("seed", 1), first = args.num("first", 0), n = args.num("n", 3);
  if (args.num("nosticky"))
    nosticky_case();
  for (uint64_t i = first; i < first + n; ++i)
    one_case(mix64(seed * 1000003 + i) % 1000000007);
  vf_finish();
}
