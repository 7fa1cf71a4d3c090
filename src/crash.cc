// Crash monitor. The library runs a workload while every call it makes on the
// database file is observed at the libc boundary. At each of these points the
// monitor builds images of what a disk may hold after a power failure there:
// for every 512-byte sector (or 4K page) the last content known to be flushed
// or any content written since. A second process, which believes to run after
// a reboot, opens each image and tells which snapshot it holds; contents must
// be those of a committed transaction, not older than the last durable one.
// In write-mapped mode every single store into the meta pages is a crash point.
#include "audit.h"
#include "wrap.h"
#include <array>
#include <spawn.h>
#include <sys/wait.h>
#include <ucontext.h>

extern char **environ;
enum { SEC = 512 };

// ---------------------------------------------------------------------------
// what has been committed, shared with the recovering processes
struct Book {
  uint64_t n;
  struct {
    uint64_t id, dig, step;
  } e[60000];
};
static Book *book;
static std::string book_path;

static Book *map_book(const std::string &p, bool create) {
  int fd = open(p.c_str(), O_RDWR | (create ? O_CREAT : 0), 0600);
  if (fd < 0 || (create && ftruncate(fd, sizeof(Book))))
    vf_harness_error("book %s", p.c_str());
  void *m = mmap(nullptr, sizeof(Book), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  return (Book *)m;
}

// ---------------------------------------------------------------------------
// digest of everything a transaction sees
struct ScanError {
  std::string s;
};
static void ok(int rc, const char *what) {
  if (rc != MDBX_SUCCESS)
    throw ScanError{strf("%s -> %d (%s)", what, rc, mdbx_strerror(rc))};
}
#define TRY(e) ok((e), #e)

static uint64_t digest(MDBX_txn *txn, uint64_t *items = nullptr) {
  uint64_t d = 0, n = 0;
  MDBX_dbi m;
  TRY(mdbx_dbi_open(txn, nullptr, MDBX_DB_DEFAULTS, &m));
  std::vector<Bytes> names;
  {
    MDBX_cursor *c;
    TRY(mdbx_cursor_open(txn, m, &c));
    MDBX_val k, v;
    int rc = mdbx_cursor_get(c, &k, &v, MDBX_FIRST);
    for (; rc == MDBX_SUCCESS; rc = mdbx_cursor_get(c, &k, &v, MDBX_NEXT))
      names.push_back(bs(k));
    mdbx_cursor_close(c);
    if (rc != MDBX_NOTFOUND && rc != MDBX_ENODATA)
      throw ScanError{strf("scan of the main table stopped by %d (%s)", rc, mdbx_strerror(rc))};
  }
  for (auto &name : names) {
    MDBX_dbi t;
    MDBX_val nv = mv(name);
    TRY(mdbx_dbi_open2(txn, &nv, MDBX_DB_ACCEDE, &t));
    unsigned fl = 0, st = 0;
    TRY(mdbx_dbi_flags_ex(txn, t, &fl, &st));
    uint64_t h = hash_bytes(name.data(), name.size(), fl + 1), x = 0, seq = 0;
    MDBX_cursor *c;
    TRY(mdbx_cursor_open(txn, t, &c));
    MDBX_val k, v;
    int rc = mdbx_cursor_get(c, &k, &v, MDBX_FIRST);
    for (; rc == MDBX_SUCCESS; rc = mdbx_cursor_get(c, &k, &v, MDBX_NEXT), ++x)
      h = hash_bytes(v.iov_base, v.iov_len, hash_bytes(k.iov_base, k.iov_len, h));
    mdbx_cursor_close(c);
    if (rc != MDBX_NOTFOUND && rc != MDBX_ENODATA)
      throw ScanError{strf("scan of table %s stopped by %d (%s)", name.c_str(), rc, mdbx_strerror(rc))};
    MDBX_stat s;
    TRY(mdbx_dbi_stat(txn, t, &s, sizeof s));
    if (s.ms_entries != x)
      throw ScanError{strf("table %s has %llu entries by its statistics, %llu were read", name.c_str(),
                           (unsigned long long)s.ms_entries, (unsigned long long)x)};
    TRY(mdbx_dbi_sequence(txn, t, &seq, 0));
    h = mix64(h + seq);
    d += h;
    n += x;
  }
  MDBX_canary cn;
  TRY(mdbx_canary_get(txn, &cn));
  d += mix64(cn.x * 3 + 1) + mix64(cn.y * 5 + 2);
  if (items)
    *items = n;
  return d ? d : 1;
}

// ---------------------------------------------------------------------------
// what is on the disk and what is only in the cache
struct Track {
  bool on = false;
  std::string path;
  dev_t dev = 0;
  ino_t ino = 0;
  std::vector<uint8_t> cur, dur;
  size_t dur_size = 0;
  std::vector<size_t> sizes; // not yet durable
  std::map<uint32_t, std::vector<std::pair<uint64_t, std::array<uint8_t, SEC>>>> pend;
  uint64_t ev = 0;
  size_t ps = 4096;
  uint8_t *base = nullptr;
  size_t len = 0;
  bool guarded = false;
  uint64_t trapped = 0;
  std::deque<std::string> trace;

  void start(const std::string &p, size_t page) {
    Quiet q;
    path = p;
    ps = page;
    struct stat st;
    if (stat(p.c_str(), &st))
      vf_harness_error("stat %s", p.c_str());
    dev = st.st_dev;
    ino = st.st_ino;
    std::vector<uint8_t> b;
    read_file(p, b);
    cur = dur = b;
    dur_size = b.size();
    pend.clear();
    sizes.clear();
    trace.clear();
    ev = 0;
    on = true;
  }
  bool mine(int fd) {
    struct stat st;
    return on && fd >= 0 && fstat(fd, &st) == 0 && st.st_ino == ino && st.st_dev == dev;
  }
  void sector_changed(uint32_t s, const uint8_t *p, size_t n) {
    auto &v = pend[s];
    v.emplace_back();
    v.back().first = ev;
    v.back().second.fill(0);
    memcpy(v.back().second.data(), p, n);
    if (v.size() > 40)
      v.erase(v.begin() + 1 + ev % 38);
  }
  // notes what has changed in the file; lim: only its beginning
  void observe(size_t lim = SIZE_MAX) {
    if (!on)
      return;
    ++ev;
    int fd = open(path.c_str(), O_RDONLY);
    struct stat st;
    if (fd < 0 || fstat(fd, &st))
      vf_harness_error("observe");
    size_t n = st.st_size;
    if (lim == SIZE_MAX && n != cur.size()) {
      size_t old = cur.size();
      if (n < old) { // cut: what was there is gone, and reads as zeros if the file grows again
        static const uint8_t z[SEC] = {};
        for (uint32_t s = uint32_t(n / SEC); size_t(s) * SEC < old; ++s)
          sector_changed(s, z, SEC);
      }
      cur.resize(n, 0);
      sizes.push_back(n);
    }
    n = std::min(std::min(n, lim), cur.size());
    static std::vector<uint8_t> b;
    b.resize(n);
    for (size_t o = 0; o < n;) {
      ssize_t r = pread(fd, b.data() + o, n - o, o);
      if (r <= 0)
        vf_harness_error("observe read");
      o += r;
    }
    close(fd);
    for (size_t o = 0; o < n; o += 65536) {
      size_t m = std::min<size_t>(65536, n - o);
      if (!memcmp(&b[o], &cur[o], m))
        continue;
      for (size_t i = o; i < o + m; i += SEC) {
        size_t k = std::min<size_t>(SEC, o + m - i);
        if (memcmp(&b[i], &cur[i], k)) {
          memcpy(&cur[i], &b[i], k);
          sector_changed(uint32_t(i / SEC), &b[i], k);
        }
      }
    }
  }
  void durable(size_t from, size_t to, uint64_t upto) {
    for (auto i = pend.lower_bound(uint32_t(from / SEC)); i != pend.end() && size_t(i->first) * SEC < to;) {
      auto &v = i->second;
      size_t k = 0;
      while (k < v.size() && v[k].first <= upto)
        ++k;
      if (k) {
        size_t o = size_t(i->first) * SEC;
        if (dur.size() < o + SEC)
          dur.resize(o + SEC, 0);
        memcpy(&dur[o], v[k - 1].second.data(), SEC);
        v.erase(v.begin(), v.begin() + k);
      }
      i = v.empty() ? pend.erase(i) : std::next(i);
    }
    dur_size = cur.size();
    sizes.clear();
  }
  bool image(Rng &r, std::vector<uint8_t> &out, std::string &how) {
    unsigned m = r.below(12);
    size_t gran = r.chance(60) ? 1 : 8;
    size_t size = dur_size;
    if (!sizes.empty())
      size = m == 0 ? dur_size : m == 1 || r.chance(50) ? cur.size() : r.chance(50) ? sizes[r.below(sizes.size())] : dur_size;
    out.assign(size, 0);
    memcpy(out.data(), dur.data(), std::min(size, dur.size()));
    const size_t metas = 3 * ps;
    uint64_t cut_all = ev - r.below(std::min<uint64_t>(ev, 40) + 1);
    std::vector<uint32_t> groups;
    for (auto &x : pend)
      if (groups.empty() || groups.back() != x.first / gran)
        groups.push_back(uint32_t(x.first / gran));
    uint32_t single = groups.empty() ? 0 : groups[r.below(groups.size())];
    size_t taken = 0;
    auto i = pend.begin();
    for (uint32_t g : groups) {
      bool meta = size_t(g) * gran * SEC < metas;
      uint64_t cut = 0;
      switch (m) {
      case 0:
        break;
      case 1:
        cut = ev;
        break;
      case 2:
        cut = r.chance(50) ? ev - r.below(60) : 0;
        break;
      case 3:
        cut = r.chance(10) ? ev : 0;
        break;
      case 4:
        cut = r.chance(92) ? ev : 0;
        break;
      case 5:
        cut = cut_all;
        break;
      case 6:
        cut = g == single ? 0 : ev;
        break;
      case 7:
        cut = g == single ? ev : 0;
        break;
      case 8:
        cut = meta ? ev : 0;
        break;
      case 9:
        cut = meta ? 0 : ev;
        break;
      case 10:
        cut = meta ? ev : r.chance(50) ? ev : 0;
        break;
      default:
        cut = meta ? ev - r.below(30) : r.chance(70) ? ev : 0;
      }
      for (; i != pend.end() && i->first / gran == g; ++i) {
        const std::array<uint8_t, SEC> *best = nullptr;
        for (auto &v : i->second)
          if (v.first <= cut)
            best = &v.second;
        size_t o = size_t(i->first) * SEC;
        if (best && o < size) {
          memcpy(&out[o], best->data(), std::min<size_t>(SEC, size - o));
          ++taken;
        }
      }
    }
    how = strf("pattern %u gran %zu: %zu of %zu unflushed sectors, size %zu (flushed %zu, now %zu)", m, gran * SEC, taken, pend.size(),
               size, dur_size, cur.size());
    vf.counts[strf("images_pattern_%02u", m)]++;
    return true;
  }
};
static Track tr;
static Rng srng; // what to sample
static uint64_t g_floor, g_ceil;
static bool g_vulnerable; // no promise holds at the moment
static bool g_kill;       // the process dies, the machine stays up
static unsigned g_level, sample_pct = 40;
static uint64_t images, image_limit = 700;
static std::string img_path;

// ---------------------------------------------------------------------------
// the process after the reboot
struct Req {
  char path[300];
  uint64_t seed, floor, ceil, ps;
  uint32_t kill;
};
struct Resp {
  uint32_t bad, recovered_old, pad;
  uint64_t id, base, subimages, wanna, bumped;
  char sig[40];
  char err[900];
};
struct Server {
  pid_t pid = 0;
  int in = -1, out = -1;
  char boot = 0;
  void start(char b, unsigned level) {
    Quiet q;
    boot = b;
    int a[2], c[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(c, O_CLOEXEC))
      vf_harness_error("pipe");
    std::string lv = strf("server=%u", level), bk = "book=" + book_path, si = strf("in=%d", 200), so = strf("out=%d", 201),
                vb = vf.verbose ? "verbose=1" : "verbose=0";
    std::string exe = "/proc/self/exe";
    char self[1000];
    ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1);
    self[l > 0 ? l : 0] = 0;
    pid_t p = fork();
    if (p == 0) {
      dup2(a[0], 200);
      dup2(c[1], 201);
      char env[16] = "VF_BOOT=x";
      env[8] = b;
      putenv(env);
      std::string scr = "VF_SCRATCH=" + scratch_dir();
      putenv((char *)scr.c_str());
      execl(self, self, lv.c_str(), bk.c_str(), si.c_str(), so.c_str(), vb.c_str(), (char *)nullptr);
      _exit(97);
    }
    close(a[0]);
    close(c[1]);
    pid = p;
    in = a[1];
    out = c[0];
  }
  bool ask(const Req &q, Resp &r) {
    Quiet qq;
    if (write(in, &q, sizeof q) != sizeof q)
      return false;
    size_t n = 0;
    while (n < sizeof r) {
      ssize_t k = read(out, (char *)&r + n, sizeof r - n);
      if (k <= 0)
        return false;
      n += k;
    }
    return true;
  }
  void stop() {
    if (pid) {
      Quiet q;
      close(in);
      close(out);
      waitpid(pid, nullptr, 0);
      pid = 0;
    }
  }
};
static Server rebooted, sameboot;
static bool g_stop;
static uint64_t n_old, n_newest, n_wanna, n_sub, n_bumped;

static void keep_image(const std::vector<uint8_t> &img, const Req &q) {
  if (const char *k = getenv("VF_KEEP")) {
    std::string r = strf("%s.%u", k, g_level);
    FILE *f = fopen((r + ".req").c_str(), "w");
    fwrite(&q, sizeof q, 1, f);
    fclose(f);
    f = fopen((r + ".book").c_str(), "w");
    fwrite(book, sizeof *book, 1, f);
    fclose(f);
    k = r.c_str();
    int fd = open(k, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    (void)!write(fd, img.data(), img.size());
    close(fd);
  }
}

// tries one image of the disk at this very moment
static void sample(const char *where) {
  if (g_stop || !tr.on || g_vulnerable || images >= image_limit)
    return;
  Quiet q;
  std::vector<uint8_t> img;
  std::string how;
  if (g_kill) {
    img = tr.cur;
    how = "process killed";
  } else
    tr.image(srng, img, how);
  uint64_t h = hash_bytes(img.data(), img.size(), g_floor);
  cnt("images");
  ++images;
  if (!vf.hashes.insert(h).second && srng.chance(90)) {
    cnt("images_seen_before");
    return;
  }
  cnt("evaluations");
  int fd = open(img_path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd < 0 || write(fd, img.data(), img.size()) != (ssize_t)img.size())
    vf_harness_error("image: %s", strerror(errno));
  close(fd);
  unlink((img_path + "-lck").c_str());
  if (g_kill) { // the lock file stays as it was
    std::vector<uint8_t> l;
    if (read_file(tr.path + "-lck", l) && !l.empty()) {
      fd = open((img_path + "-lck").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      if (fd < 0 || write(fd, l.data(), l.size()) != (ssize_t)l.size())
        vf_harness_error("image lck");
      close(fd);
    }
  }
  Req rq{};
  snprintf(rq.path, sizeof rq.path, "%s", img_path.c_str());
  rq.seed = srng.next();
  rq.floor = g_floor;
  rq.ceil = g_ceil;
  rq.ps = tr.ps;
  rq.kill = g_kill;
  Resp rs{};
  Server &s = g_kill ? sameboot : rebooted;
  if (!s.ask(rq, rs)) {
    int st = 0;
    waitpid(s.pid, &st, 0);
    s.pid = 0;
    keep_image(img, rq);
    rs.bad = 1;
    snprintf(rs.sig, sizeof rs.sig, "recovery-crashed");
    snprintf(rs.err, sizeof rs.err, "the process which opened the image died (status 0x%x)", st);
  }
  n_old += rs.recovered_old;
  n_newest += !rs.recovered_old;
  n_wanna += rs.wanna;
  n_sub += rs.subimages;
  n_bumped += rs.bumped;
  if (rs.bad) {
    keep_image(img, rq);
    for (auto &t : tr.trace)
      vf.log.push_back(t);
    g_stop = true;
    tr.on = false;
    vf_fail(rs.sig, "crash %s (event %llu), %s: %s [durable %llu, committed or in commit %llu]", where, (unsigned long long)tr.ev,
            how.c_str(), rs.err, (unsigned long long)g_floor, (unsigned long long)g_ceil);
  }
}
static void maybe(const char *where, unsigned pct) {
  while (srng.chance(pct)) {
    sample(where);
    pct = pct > 30 ? pct - 20 : pct / 2;
  }
}

// ---------------------------------------------------------------------------
// libc boundary
static bool is_write(WCall c) {
  return c == W_PWRITE || c == W_PWRITEV || c == W_WRITE || c == W_WRITEV || c == W_FTRUNCATE || c == W_FALLOCATE;
}
static uint64_t pre_ev;
static bool dirty_map() { return tr.base && tr.guarded; }

static bool on_pre(WCall c, const WArgs &a, long *) {
  if (!tr.on)
    return false;
  if (c == W_MUNMAP && tr.base && a.p <= tr.base && (uint8_t *)a.p + a.n >= tr.base + tr.len) {
    tr.observe();
    tr.base = nullptr;
    tr.guarded = false;
  }
  bool sync = ((c == W_FDATASYNC || c == W_FSYNC) && tr.mine(a.fd)) || (c == W_MSYNC && tr.base && (a.flags & MS_SYNC));
  if (sync || (is_write(c) && tr.mine(a.fd))) {
    tr.observe();
    pre_ev = tr.ev;
    maybe(strf("before %s", wcall_name[c]).c_str(), sync ? sample_pct : sample_pct / 3);
  }
  return false;
}
static void guard_on();
static void on_post(WCall c, const WArgs &a, long r) {
  if (!tr.on)
    return;
  if (c == W_MMAP && r != -1 && tr.mine(a.fd)) {
    tr.base = (uint8_t *)r;
    tr.len = a.n;
    tr.guarded = (a.flags & PROT_WRITE) != 0;
    guard_on();
  }
  if (c == W_MREMAP && r != -1 && a.p == tr.base) {
    tr.base = (uint8_t *)r;
    tr.len = a.off ? a.n : a.n;
    guard_on();
  }
  if (is_write(c) && tr.mine(a.fd)) {
    tr.observe();
    tr.trace.push_back(strf("%llu %s off %lld len %zu -> %ld", (unsigned long long)tr.ev, wcall_name[c], (long long)a.off, a.n, r));
    int fl = c == W_PWRITE || c == W_PWRITEV ? fcntl(a.fd, F_GETFL) : 0;
    if ((fl & O_DSYNC) && r > 0) {
      tr.durable(a.off, a.off + r, tr.ev);
      cnt("write_through");
    }
    cnt(c == W_FTRUNCATE ? "truncates" : "writes");
    maybe(strf("after %s", wcall_name[c]).c_str(), sample_pct);
  }
  if ((c == W_FDATASYNC || c == W_FSYNC) && tr.mine(a.fd)) {
    if (r == 0)
      tr.durable(0, SIZE_MAX / 2, pre_ev);
    tr.trace.push_back(strf("%llu %s -> %ld", (unsigned long long)tr.ev, wcall_name[c], r));
    cnt("syncs");
    maybe("after sync", sample_pct);
  }
  if (c == W_MSYNC && tr.base && (uint8_t *)a.p >= tr.base && (uint8_t *)a.p < tr.base + tr.len) {
    if (r == 0 && (a.flags & MS_SYNC))
      tr.durable((uint8_t *)a.p - tr.base, (uint8_t *)a.p - tr.base + (a.n + 4095) / 4096 * 4096, pre_ev);
    tr.trace.push_back(strf("%llu msync%s off %zd len %zu -> %ld", (unsigned long long)tr.ev, (a.flags & MS_SYNC) ? "" : " async",
                            (uint8_t *)a.p - tr.base, a.n, r));
    cnt("msyncs");
    maybe("after msync", sample_pct);
  }
  while (tr.trace.size() > 200)
    tr.trace.pop_front();
}

// every store into the meta pages of a writable map is seen one by one
static size_t guard_len() { return std::min(tr.len, (3 * tr.ps + 4095) / 4096 * 4096); }
static bool g_guard = true;
static void guard_on() {
  if (tr.base && tr.guarded && g_guard && tr.ps >= 1024)
    mprotect(tr.base, guard_len(), PROT_READ);
}
static void on_segv(int sig, siginfo_t *si, void *uc) {
  uint8_t *p = (uint8_t *)si->si_addr;
  if (!tr.base || p < tr.base || p >= tr.base + guard_len()) {
    signal(sig, SIG_DFL);
    return;
  }
  mprotect(tr.base, guard_len(), PROT_READ | PROT_WRITE);
  ((ucontext_t *)uc)->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void on_trap(int, siginfo_t *, void *uc) {
  int e = errno;
  ((ucontext_t *)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
  ++wrap_quiet;
  if (tr.on && tr.base) {
    ++tr.trapped;
    // only the meta pages themselves are interesting
    const bool take = srng.chance(g_kill ? 15 : 10);
    tr.observe(take && g_kill ? SIZE_MAX : 3 * tr.ps);
    if (take)
      sample("between stores into a meta page");
    guard_on();
  }
  --wrap_quiet;
  errno = e;
}
static void install() {
  struct sigaction sa {};
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sa.sa_sigaction = on_segv;
  sigaction(SIGSEGV, &sa, nullptr);
  sa.sa_sigaction = on_trap;
  sigaction(SIGTRAP, &sa, nullptr);
  wrap_pre = on_pre;
  wrap_post = on_post;
}

// ---------------------------------------------------------------------------
// recovery
static void book_add(uint64_t id, uint64_t dig) {
  if (book->n < sizeof book->e / sizeof book->e[0]) {
    book->e[book->n].id = id;
    book->e[book->n].dig = dig;
    book->n++;
  }
}
struct Bad {
  std::string sig, err;
};
[[noreturn]] static void bad(const char *sig, const std::string &err) { throw Bad{sig, err}; }

// which committed snapshot is this? 0 = none of those allowed
static uint64_t whose(uint64_t id, uint64_t dig, uint64_t floor, uint64_t ceil) {
  uint64_t best = 0;
  for (uint64_t i = 0; i < book->n; ++i)
    if (book->e[i].dig == dig && book->e[i].id >= floor && book->e[i].id <= ceil && book->e[i].id <= id)
      best = std::max(best, book->e[i].id);
  return best;
}
static uint64_t check_env(MDBX_env *env, const Req &q, Resp &rs, const char *what) {
  MDBX_txn *t;
  int rc = mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t);
  if (rc != MDBX_SUCCESS)
    bad("recovered-unreadable", strf("%s: read transaction -> %d (%s)", what, rc, mdbx_strerror(rc)));
  uint64_t id = mdbx_txn_id(t), d;
  try {
    d = digest(t);
  } catch (ScanError &e) {
    mdbx_txn_abort(t);
    bad("recovered-unreadable", strf("%s: snapshot %llu: %s", what, (unsigned long long)id, e.s.c_str()));
  }
  mdbx_txn_abort(t);
  uint64_t b = whose(id, d, q.floor, q.ceil);
  if (!b) {
    uint64_t other = whose(id, d, 0, ~0ull);
    if (other)
      bad(other < q.floor ? "durable-lost" : "recovered-too-new",
          strf("%s: snapshot %llu holds the contents of transaction %llu", what, (unsigned long long)id, (unsigned long long)other));
    bad("recovered-mixture", strf("%s: contents of snapshot %llu are those of no transaction (digest %016llx)", what,
                                  (unsigned long long)id, (unsigned long long)d));
  }
  rs.id = id;
  rs.base = b;
  rs.bumped += id != b;
  return d;
}
static int chk_issues;
static std::string chk_text;
static void chk_issue(MDBX_chk_context_t *, const char *object, uint64_t n, const char *issue, const char *fmt, va_list va) noexcept {
  if (chk_issues++)
    return;
  char b[300] = "";
  if (fmt)
    vsnprintf(b, sizeof b, fmt, va);
  chk_text = strf("%s #%llu %s %s", object ? object : "", (unsigned long long)n, issue ? issue : "", b);
}

static MDBX_env *open_image(const Req &q, unsigned flags, int *prc) {
  MDBX_env *env;
  MUST(mdbx_env_create(&env));
  MUST(mdbx_env_set_maxdbs(env, 20));
  *prc = mdbx_env_open(env, q.path, MDBX_env_flags_t(MDBX_NOSUBDIR | MDBX_ACCEDE * 0 | flags), 0600);
  if (*prc != MDBX_SUCCESS) {
    mdbx_env_close_ex(env, true);
    return nullptr;
  }
  return env;
}
static void small_change(MDBX_txn *t, Rng &r) {
  MDBX_dbi d;
  ok(mdbx_dbi_open(t, "after", MDBX_CREATE, &d), "dbi_open after recovery");
  unsigned n = 1 + r.below(60);
  while (n--) {
    uint64_t k = r.below(200);
    Bytes v(r.below(r.chance(5) ? 9000 : 100), 'a' + k % 20);
    MDBX_val kv{&k, sizeof k}, vv = mv(v);
    ok(mdbx_put(t, d, &kv, &vv, MDBX_UPSERT), "put after recovery");
  }
  MDBX_canary cn{r.next(), r.next(), 0, 0};
  ok(mdbx_canary_put(t, &cn), "canary");
}

static void recover(const Req &q, Resp &rs) {
  Rng r(q.seed);
  int rc;
  MDBX_env *env;
  if (r.chance(20)) {
    if ((env = open_image(q, MDBX_RDONLY, &rc))) {
      check_env(env, q, rs, "opened read-only");
      MUST(mdbx_env_close(env));
    } else if (rc == MDBX_WANNA_RECOVERY)
      rs.wanna++;
    else
      bad("recovered-unopenable", strf("opening read-only -> %d (%s)", rc, mdbx_strerror(rc)));
  }
  unsigned fl = 0;
  if (r.chance(35))
    fl |= MDBX_WRITEMAP;
  if (r.chance(20))
    fl |= MDBX_EXCLUSIVE;
  switch (r.below(4)) {
  case 0:
    fl |= MDBX_SAFE_NOSYNC;
    break;
  case 1:
    fl |= MDBX_NOMETASYNC;
    break;
  }
  const bool may_nest = r.chance(5), nested = may_nest && g_level == 1 && !q.kill;
  uint64_t before = images;
  if (nested) {
    // the machine may fail again while recovering
    srng = Rng(r.next());
    g_floor = q.floor;
    g_ceil = q.ceil;
    g_vulnerable = false;
    image_limit = images + 12;
    g_guard = fl & MDBX_WRITEMAP;
    tr.start(q.path, q.ps);
  }
  env = open_image(q, fl, &rc);
  if (!env)
    bad("recovered-unopenable", strf("opening -> %d (%s)", rc, mdbx_strerror(rc)));
  if (nested) {
    tr.observe();
    maybe("after the recovering open", 60);
  }
  uint64_t d = check_env(env, q, rs, "after recovery");
  rs.recovered_old = rs.base < q.ceil;
  if (r.chance(15)) {
    MDBX_chk_callbacks_t cb{};
    cb.issue = chk_issue;
    MDBX_chk_context_t ctx{};
    chk_issues = 0;
    chk_text.clear();
    Quiet qq;
    if (q.kill && (rc = mdbx_env_sync_ex(env, true, false)) != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
      bad("recovered-unwritable", strf("sync after recovery -> %d (%s)", rc, mdbx_strerror(rc)));
    rc = mdbx_env_chk(env, &cb, &ctx, MDBX_chk_flags_t(MDBX_CHK_READWRITE * 0), MDBX_chk_severity(MDBX_chk_info), 0);
    if (rc != MDBX_SUCCESS || chk_issues)
      bad("recovered-unsound", strf("mdbx_env_chk of the recovered database -> %d, %d problems: %s", rc, chk_issues, chk_text.c_str()));
  }
  if (r.chance(45)) {
    MDBX_txn *t;
    rc = mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t);
    if (rc != MDBX_SUCCESS)
      bad("recovered-unwritable", strf("write transaction after recovery -> %d (%s)", rc, mdbx_strerror(rc)));
    uint64_t nid = mdbx_txn_id(t);
    if (nid <= rs.base)
      bad("recovered-id", strf("the transaction after recovery got id %llu, the recovered one was %llu", (unsigned long long)nid,
                               (unsigned long long)rs.base));
    try {
      if (r.chance(30)) {
        small_change(t, r);
        MUST(mdbx_txn_abort(t));
        MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t));
        if (digest(t) != d)
          bad("recovered-abort", "an aborted transaction after recovery left something behind");
      }
      small_change(t, r);
      d = digest(t);
    } catch (ScanError &e) {
      bad("recovered-unwritable", e.s);
    }
    if (nested) {
      book_add(nid, d);
      g_ceil = std::max(g_ceil, nid);
      if (g_ceil > nid)
        g_vulnerable = true; // ids of lost transactions are used again
    }
    rc = mdbx_txn_commit(t);
    if (rc != MDBX_SUCCESS)
      bad("recovered-unwritable", strf("commit after recovery -> %d (%s)", rc, mdbx_strerror(rc)));
    MUST(mdbx_env_close_ex(env, r.chance(30)));
    if (nested)
      tr.on = false;
    env = open_image(q, fl, &rc);
    if (!env)
      bad("recovered-unwritable", strf("opening again -> %d (%s)", rc, mdbx_strerror(rc)));
    MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t));
    uint64_t d2 = 0;
    try {
      d2 = digest(t);
    } catch (ScanError &e) {
      bad("recovered-unwritable", e.s);
    }
    MUST(mdbx_txn_abort(t));
    if (d2 != d)
      bad("recovered-unwritable", "the transaction committed after recovery is not there after opening again");
  }
  MUST(mdbx_env_close(env));
  tr.on = false;
  rs.subimages = images - before;
  AuditResult a = audit_path(q.path, false);
  if (!a.ok())
    bad("recovered-unsound", "audit: " + a.err());
}

[[noreturn]] static void serve() {
  g_level = (unsigned)args.num("server");
  book_path = args.str("book");
  book = map_book(book_path, false);
  signal(SIGPIPE, SIG_IGN);
  int in = (int)args.num("in"), out = (int)args.num("out");
  img_path = scratch_dir() + "/sub";
  if (g_level == 1) {
    rebooted.start('c', 2);
    install();
  }
  Req q;
  for (;;) {
    size_t n = 0;
    while (n < sizeof q) {
      ssize_t k = read(in, (char *)&q + n, sizeof q - n);
      if (k <= 0) {
        rebooted.stop();
        scratch_drop();
        _exit(0);
      }
      n += k;
    }
    Resp rs{};
    try {
      recover(q, rs);
    } catch (Bad &b) {
      rs.bad = 1;
      snprintf(rs.sig, sizeof rs.sig, "%s", b.sig.c_str());
      snprintf(rs.err, sizeof rs.err, "%s", b.err.c_str());
    }
    (void)!write(out, &rs, sizeof rs);
  }
}

// ---------------------------------------------------------------------------
// workload
static Rng w;
static MDBX_env *env;
static unsigned env_flags, ps;
static std::string path;
static uint64_t last_id, pending_nms;
static bool autosync;
static std::vector<MDBX_txn *> readers;
static unsigned vmax, keyspan, large_pm;
static intptr_t upper;

#define OK(e) MUST(e)
static unsigned tflags(unsigned i) {
  static const unsigned f[] = {0, MDBX_DUPSORT, MDBX_INTEGERKEY, MDBX_DUPSORT | MDBX_DUPFIXED, 0};
  return f[i % 5];
}
struct Full {};
static int F(int rc) {
  if (rc == MDBX_MAP_FULL || rc == MDBX_TXN_FULL || rc == MDBX_UNABLE_EXTEND_MAPSIZE)
    throw Full();
  return rc;
}
static void change(MDBX_txn *t, unsigned n) {
  while (n--) {
    unsigned i = w.below(5);
    std::string name = strf("t%u", i);
    MDBX_dbi d;
    OK(F(mdbx_dbi_open(t, name.c_str(), MDBX_db_flags_t(tflags(i) | MDBX_CREATE), &d)));
    vf_log("%s is %u", name.c_str(), d);
    if (w.permille(8)) {
      bool whole = w.chance(70);
      vf_log("drop %u %d", d, whole);
      OK(F(mdbx_drop(t, d, whole)));
      continue;
    }
    unsigned m = 1 + w.below(w.chance(10) ? 60 : 8);
    bool del = w.chance(30);
    uint64_t k = w.below(keyspan);
    while (m--) {
      if (w.chance(50))
        k = w.below(keyspan);
      else
        ++k;
      MDBX_val kv{&k, 8};
      uint64_t dk = k % 7;
      if (tflags(i) & MDBX_DUPSORT)
        kv.iov_base = &dk;
      Bytes v;
      if (tflags(i) & MDBX_DUPFIXED)
        v = Bytes((const char *)&k, 8);
      else if (tflags(i) & MDBX_DUPSORT)
        v = Bytes(k % 40, 'x') + std::to_string(k);
      else
        v = Bytes(w.permille(large_pm) ? w.below(ps * 5) : w.below(vmax), char('a' + w.below(26)));
      MDBX_val vv = mv(v);
      if (del) {
        int rc = F(mdbx_del(t, d, &kv, (tflags(i) & MDBX_DUPSORT) && w.chance(80) ? &vv : nullptr));
        if (rc != MDBX_NOTFOUND)
          OK(rc);
      } else
        OK(F(mdbx_put(t, d, &kv, &vv, MDBX_UPSERT)));
    }
    if (w.permille(30)) {
      uint64_t s;
      OK(F(mdbx_dbi_sequence(t, d, &s, 1 + w.below(5))));
    }
  }
}
static bool c08;
static unsigned effective(unsigned tf) {
  unsigned f = env_flags;
  if (tf & MDBX_TXN_NOSYNC & ~MDBX_TXN_NOMETASYNC)
    f |= MDBX_SAFE_NOSYNC;
  if (tf & MDBX_TXN_NOMETASYNC)
    f |= MDBX_NOMETASYNC;
  return f;
}
static bool utterly() { return (env_flags & MDBX_UTTERLY_NOSYNC) == MDBX_UTTERLY_NOSYNC; }
static void steady(uint64_t id) {
  g_floor = id;
  pending_nms = 0;
  g_vulnerable = false;
}
static void write_txn() {
  unsigned tf = 0;
  if (w.chance(12) && !c08 && !args.num("no_nms"))
    tf = MDBX_TXN_NOMETASYNC;
  if (w.chance(12) && !c08)
    tf = MDBX_TXN_NOSYNC;
  MDBX_txn *t;
  OK(mdbx_txn_begin(env, nullptr, MDBX_txn_flags_t(MDBX_TXN_READWRITE | tf), &t));
  vf_log("begin");
  if (utterly() && !g_kill)
    g_vulnerable = true; // the steady snapshot may be dropped at any moment
  uint64_t id = mdbx_txn_id(t);
  try {
    unsigned parts = 1 + w.below(3);
    while (parts--) {
      if (w.chance(20) && !(env_flags & MDBX_WRITEMAP)) {
        MDBX_txn *n;
        OK(mdbx_txn_begin(env, t, MDBX_TXN_READWRITE, &n));
        vf_log("nested");
        try {
          change(n, 1 + w.below(6));
        } catch (Full &) {
          OK(mdbx_txn_abort(n));
          throw;
        }
        if (w.chance(50)) {
          vf_log("nested commit");
          OK(F(mdbx_txn_commit(n)));
        } else {
          vf_log("nested abort");
          OK(mdbx_txn_abort(n));
        }
      } else
        change(t, 1 + w.below(w.chance(15) ? 40 : 8));
    }
    if (w.chance(80)) {
      MDBX_canary cn{w.next(), w.next(), 0, 0};
      OK(mdbx_canary_put(t, &cn));
    }
    if (w.chance(5)) {
      tr.observe();
      int rc = mdbx_env_set_geometry(env, -1, w.chance(50) ? 0 : -1, -1, w.chance(50) ? ps * 8 : -1, w.chance(50) ? ps * 16 : -1, -1);
      if (rc != MDBX_MAP_FULL)
        OK(rc);
    }
  } catch (Full &) {
    OK(mdbx_txn_abort(t));
    cnt("txn_full");
    return;
  }
  if (w.chance(12)) {
    OK(mdbx_txn_abort(t));
    cnt("aborts");
    if (tr.on) {
      tr.observe();
      maybe("after an abort", 20);
    }
    return;
  }
  uint64_t d;
  {
    Quiet q;
    try {
      d = digest(t);
    } catch (ScanError &e) {
      vf_fail("writer-unreadable", "%s", e.s.c_str());
    }
  }
  vf_log("commit %llu flags 0x%x txn 0x%x", (unsigned long long)id, env_flags, tf);
  book_add(id, d);
  unsigned eff = effective(tf);
  bool ut = (eff & MDBX_UTTERLY_NOSYNC) == MDBX_UTTERLY_NOSYNC && !g_kill;
  g_ceil = id;
  if (g_kill)
    g_floor = last_id;
  if (ut)
    g_vulnerable = true;
  tr.observe();
  int rc;
  bool keep = w.chance(10);
  if (keep)
    rc = mdbx_txn_checkpoint(t, MDBX_TXN_NOWEAKING, nullptr);
  else
    rc = mdbx_txn_commit(t);
  if (rc == MDBX_MAP_FULL || rc == MDBX_UNABLE_EXTEND_MAPSIZE) {
    cnt("commits_full");
    if (keep)
      mdbx_txn_abort(t);
    return;
  }
  if (rc != MDBX_SUCCESS && !(keep && rc == MDBX_RESULT_TRUE))
    vf_fail("unexpected-error", "commit -> %d (%s)", rc, mdbx_strerror(rc));
  {
    MDBX_envinfo in;
    OK(mdbx_env_info_ex(env, nullptr, &in, sizeof in));
    if (in.mi_recent_txnid < id) { // nothing to commit
      cnt("commits_of_nothing");
      if (keep)
        OK(mdbx_txn_abort(t));
      return;
    }
  }
  uint64_t unsynced = 0;
  {
    MDBX_envinfo in;
    OK(mdbx_env_info_ex(env, nullptr, &in, sizeof in));
    unsynced = in.mi_unsync_volume;
  }
  last_id = id;
  cnt("commits");
  if (g_kill)
    g_floor = id;
  else if (!(eff & MDBX_SAFE_NOSYNC)) {
    if (eff & MDBX_NOMETASYNC) {
      cnt("commits_nometasync");
      if (pending_nms && !g_vulnerable)
        g_floor = std::max(g_floor, pending_nms);
      pending_nms = id;
    } else {
      cnt("commits_durable");
      steady(id);
    }
  } else if (autosync && !ut && !unsynced) {
    cnt("commits_autosync");
    steady(id);
  } else if (autosync && !ut && unsynced > 2 * ps && !g_vulnerable) {
    vf_fail("no-autosync", "%llu bytes not synced after a commit despite mdbx_env_set_syncbytes(1)", (unsigned long long)unsynced);
  } else
    cnt("commits_nosync");
  tr.observe();
  maybe("after a commit", sample_pct);
  if (keep) {
    // the transaction goes on as the next one
    if (w.chance(50)) {
      try {
        change(t, 1 + w.below(4));
      } catch (Full &) {
      }
    }
    OK(mdbx_txn_abort(t));
  }
}
static void drop_readers(unsigned keep) {
  while (readers.size() > keep) {
    size_t i = w.below(readers.size());
    OK(mdbx_txn_abort(readers[i]));
    readers.erase(readers.begin() + i);
  }
}
static unsigned pick_sync(bool c08) {
  if (c08)
    return 0;
  static const unsigned s[] = {MDBX_NOMETASYNC, MDBX_SAFE_NOSYNC, MDBX_SAFE_NOSYNC, MDBX_UTTERLY_NOSYNC, 0, MDBX_NOMETASYNC};
  unsigned f = s[w.below(6)];
  if (args.num("no_nms") && f == MDBX_NOMETASYNC)
    f = 0;
  return f;
}
static void open_db(bool create) {
  OK(mdbx_env_create(&env));
  OK(mdbx_env_set_maxdbs(env, 20));
  if (create)
    OK(mdbx_env_set_geometry(env, -1, -1, upper, w.chance(70) ? ps * (4 + w.below(40)) : -1,
                             w.chance(70) ? ps * (8 + w.below(60)) : -1, ps));
  if (w.chance(30))
    OK(mdbx_env_set_option(env, MDBX_opt_txn_dp_limit, 128 + w.below(100)));
  if (w.chance(30))
    OK(mdbx_env_set_option(env, MDBX_opt_writethrough_threshold, w.below(6)));
  if (w.chance(20))
    OK(mdbx_env_set_option(env, MDBX_opt_rp_augment_limit, 1 + w.below(2000)));
  OK(mdbx_env_open(env, path.c_str(), MDBX_env_flags_t(MDBX_NOSUBDIR | env_flags), 0600));
  autosync = !c08 && w.chance(20);
  OK(mdbx_env_set_syncbytes(env, autosync ? 1 : w.chance(20) ? ps * 30 : 0));
}
static void one_case(uint64_t seed, const std::string &mode) {
  w = Rng(seed);
  srng = Rng(mix64(seed));
  c08 = mode == "C08";
  g_kill = mode == "C10";
  static const unsigned sizes[] = {256, 512, 1024, 2048, 4096, 4096, 8192};
  ps = sizes[w.below(7)];
  static const unsigned extra[] = {MDBX_LIFORECLAIM, MDBX_NOMEMINIT, MDBX_EXCLUSIVE, MDBX_NOSTICKYTHREADS, MDBX_PAGEPERTURB};
  unsigned base_flags = 0;
  for (unsigned e : extra)
    if (w.chance(25))
      base_flags |= e;
  env_flags = base_flags | (w.chance(45) ? MDBX_WRITEMAP : 0) | pick_sync(c08);
  vmax = w.chance(50) ? 60 : ps / 3;
  keyspan = w.chance(50) ? 60 : 600;
  large_pm = w.chance(50) ? 10 : 100;
  upper = 32 << 20;
  if (upper / ps > 65536)
    upper = ps * 65536;
  path = scratch_dir() + "/db";
  img_path = scratch_dir() + "/img";
  unlink(path.c_str());
  unlink((path + "-lck").c_str());
  vf_case(strf("mode=%s seed=%llu ps=%u flags=0x%x", mode.c_str(), (unsigned long long)seed, ps, env_flags));
  book->n = 0;
  images = 0;
  image_limit = 500;
  tr.on = false;
  tr.base = nullptr;
  tr.guarded = false;
  last_id = g_floor = g_ceil = pending_nms = 0;
  g_vulnerable = false;
  g_guard = true;
  readers.clear();
  sample_pct = 25 + w.below(40);
  // the first durable state
  unsigned ef = env_flags;
  env_flags &= ~(MDBX_UTTERLY_NOSYNC | MDBX_NOMETASYNC);
  open_db(true);
  MDBX_txn *t;
  OK(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t));
  try {
    change(t, 10 + w.below(60));
  } catch (Full &) {
    vf_harness_error("full at once");
  }
  book_add(mdbx_txn_id(t), digest(t));
  last_id = g_floor = g_ceil = mdbx_txn_id(t);
  OK(mdbx_txn_commit(t));
  if (int rc = mdbx_env_sync_ex(env, true, false); rc != MDBX_RESULT_TRUE)
    OK(rc);
  OK(mdbx_env_close(env));
  env_flags = ef;
  tr.start(path, ps);
  open_db(false);
  unsigned steps = 14 + w.below(25);
  for (unsigned s = 0; s < steps && images < image_limit; ++s) {
    switch (w.below(16)) {
    case 0: // forced sync
    {
      int rc = mdbx_env_sync_ex(env, true, false);
      if (rc != MDBX_RESULT_TRUE)
        OK(rc);
      vf_log("sync -> %d", rc);
      if (!g_kill)
        steady(last_id);
      cnt("forced_syncs");
      tr.observe();
      maybe("after a forced sync", 60);
      break;
    }
    case 1: {
      int rc = mdbx_env_sync_ex(env, false, w.chance(50));
      if (rc != MDBX_RESULT_TRUE)
        OK(rc);
      tr.observe();
      break;
    }
    case 2:
      if (!c08) { // other durability
        unsigned n = pick_sync(false);
        OK(mdbx_env_set_flags(env, MDBX_env_flags_t(MDBX_UTTERLY_NOSYNC | MDBX_NOMETASYNC), false));
        if (n)
          OK(mdbx_env_set_flags(env, MDBX_env_flags_t(n), true));
        env_flags = (env_flags & ~(MDBX_UTTERLY_NOSYNC | MDBX_NOMETASYNC)) | n;
        vf_log("mode 0x%x", n);
        cnt("mode_changes");
      }
      break;
    case 3:
      if (w.chance(50)) {
        bool dontsync = w.chance(40);
        drop_readers(0);
        OK(mdbx_env_close_ex(env, dontsync));
        if (!dontsync && !g_kill)
          steady(last_id);
        vf_log("close dontsync=%d", dontsync);
        tr.observe();
        maybe("after closing", 50);
        env_flags = base_flags | (w.chance(45) ? MDBX_WRITEMAP : 0) | pick_sync(c08);
        open_db(false);
        vf_log("open 0x%x", env_flags);
        tr.observe();
        maybe("after opening", 50);
        cnt("reopens");
      }
      break;
    case 4:
      if (readers.size() < ((env_flags & MDBX_NOSTICKYTHREADS) ? 2u : 1u) && w.chance(60)) {
        MDBX_txn *x;
        OK(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &x));
        readers.push_back(x);
      } else
        drop_readers(0);
      break;
    case 5:
      if (w.chance(40) && readers.empty()) {
        // a limited number of pages for a new upper limit: shrinking and growing outside of transactions
        MDBX_envinfo in;
        OK(mdbx_env_info_ex(env, nullptr, &in, sizeof in));
        intptr_t now = w.chance(50) ? intptr_t(in.mi_geo.lower) : intptr_t(in.mi_geo.current + ps * w.below(100));
        if (!g_kill)
          g_ceil = std::max(g_ceil, last_id);
        int rc = mdbx_env_set_geometry(env, -1, now, -1, -1, -1, -1);
        if (rc != MDBX_MAP_FULL && rc != MDBX_UNABLE_EXTEND_MAPSIZE)
          OK(rc);
        vf_log("geometry now=%zd -> %d", (ssize_t)now, rc);
        cnt("geometry");
        tr.observe();
        maybe("after changing the geometry", 50);
      }
      break;
    default:
      if (!w.chance(90))
        break;
      // one reader in the same thread is enough to keep old pages
      if (!readers.empty() && !(env_flags & MDBX_NOSTICKYTHREADS))
        drop_readers(0);
      write_txn();
    }
  }
  drop_readers(0);
  OK(mdbx_env_close(env));
  if (!g_kill)
    steady(last_id);
  tr.observe();
  maybe("after the last close", 80);
  tr.on = false;
  cnt("cases");
  cnt("meta_stores", tr.trapped);
  tr.trapped = 0;
  AuditResult a = audit_path(path, false);
  if (!a.ok())
    vf_fail("audit", "%s", a.err().c_str());
  if (vf.samples.size() < 2)
    vf_sample(strf("%s: %llu images of %llu events", vf.case_desc.c_str(), (unsigned long long)images, (unsigned long long)tr.ev));
}

int main(int argc, char **argv) {
  vf_init(argc, argv);
  mdbx_setup_debug(MDBX_LOG_FATAL, MDBX_DBG_NONE, nullptr);
  if (args.num("server"))
    serve();
  if (!args.str("try").empty()) { // a kept image once more
    std::string k = args.str("try");
    std::vector<uint8_t> b;
    read_file(k + ".req", b);
    Req q;
    memcpy(&q, b.data(), sizeof q);
    book = map_book(k + ".book", false);
    snprintf(q.path, sizeof q.path, "%s", k.c_str());
    unlink((k + "-lck").c_str());
    g_level = 2;
    Resp rs{};
    if (args.num("lib"))
      mdbx_setup_debug(MDBX_log_level_t(args.num("lib")), MDBX_DBG_NONE, [](MDBX_log_level_t l, const char *f, int n, const char *fmt, va_list a) noexcept {
        fprintf(stdout, "%d %s:%d ", l, f, n);
        vfprintf(stdout, fmt, a);
      });
    try {
      recover(q, rs);
      printf("fine\n");
    } catch (Bad &x) {
      printf("%s: %s\n", x.sig.c_str(), x.err.c_str());
    }
    return 0;
  }
  book_path = scratch_dir() + "/book";
  book = map_book(book_path, true);
  if (!getenv("VF_BOOT")) { // the boot this process believes to live in must be known
    setenv("VF_BOOT", "a", 1);
    execv("/proc/self/exe", argv);
  }
  rebooted.start('b', 1);
  sameboot.start('a', 1);
  install();
  uint64_t seed = args.num("seed", 1), first = args.num("first", 0), n = args.num("n", 3);
  for (uint64_t i = first; i < first + n; ++i)
    one_case(mix64(seed * 1000003 + i) % 1000000007, args.str("mode", "C08"));
  rebooted.stop();
  sameboot.stop();
  cnt("recovered_newest", n_newest);
  cnt("recovered_older", n_old);
  cnt("readonly_needed_recovery", n_wanna);
  cnt("images_of_interrupted_recovery", n_sub);
  cnt("id_bumped_by_opening", n_bumped);
  vf_finish();
}
