// C19: system calls and allocations fail. One random script of API calls is
// first run undisturbed to count the calls of the library to the system, then
// again with a call (or a run of them) failing. Whatever a call returned,
// the database has to hold exactly what was committed: checked by an
// independent reader of the file, by an old snapshot held through the faults,
// and by the work going on after them.
#include "dbgen.h"
#include "wrap.h"

static const struct {
  const char *name;
  uint64_t calls;
  int err[3];
} classes[] = {
    {"alloc", 1ull << W_ALLOC, {ENOMEM, ENOMEM, ENOMEM}},
    {"write", 1ull << W_PWRITE | 1ull << W_PWRITEV, {EIO, ENOSPC, EDQUOT}},
    {"sync", 1ull << W_MSYNC | 1ull << W_FDATASYNC | 1ull << W_FSYNC, {EIO, ENOSPC, EDQUOT}},
    {"resize", 1ull << W_FTRUNCATE | 1ull << W_FALLOCATE, {ENOSPC, EIO, EFBIG}},
    {"map", 1ull << W_MMAP | 1ull << W_MREMAP, {ENOMEM, EAGAIN, ENOMEM}},
    {"lock", 1ull << W_FCNTL, {ENOLCK, EDEADLK, EIO}},
    {"open", 1ull << W_OPEN, {EMFILE, EACCES, EIO}},
    {"stat", 1ull << W_FSTAT | 1ull << W_STAT, {EIO, EOVERFLOW, ENOMEM}},
    {"copy", 1ull << W_WRITE | 1ull << W_WRITEV | 1ull << W_COPY | 1ull << W_SENDFILE, {EIO, ENOSPC, EIO}},
    {"read", 1ull << W_READ | 1ull << W_PREAD, {EIO, EIO, EIO}},
    {"advise", 1ull << W_MADVISE | 1ull << W_MINCORE | 1ull << W_MLOCK, {EINVAL, EAGAIN, ENOMEM}},
    {"any", ~0ull & ~(1ull << W_MUNMAP | 1ull << W_UNLINK), {EIO, ENOMEM, ENOSPC}},
};
static const unsigned nclass = sizeof(classes) / sizeof(classes[0]);

static struct Plan {
  uint64_t mask = 0, seen = 0, from = ~0ull, count = 0, injected = 0;
  uint64_t hist[nclass] = {};
  int err = 0;
  bool off = true;
  std::string what;
} plan;

static bool pre(WCall c, const WArgs &a, long *ret) {
  if (plan.off)
    return false;
  if (c == W_FCNTL && !(a.flags == F_SETLK || a.flags == F_SETLKW || a.flags == F_OFD_SETLK || a.flags == F_OFD_SETLKW))
    return false;
  for (unsigned i = 0; i < nclass; ++i)
    if (classes[i].calls >> c & 1)
      ++plan.hist[i];
  if (!(plan.mask >> c & 1))
    return false;
  const uint64_t n = plan.seen++;
  if (n < plan.from || n - plan.from >= plan.count)
    return false;
  ++plan.injected;
  if (plan.injected <= 3)
    plan.what += strf(" %s", wcall_name[c]);
  errno = plan.err;
  *ret = c == W_FALLOCATE ? plan.err : -1;
  return true;
}

static Rng r;
static GenDb g;
static DbM committed;
static MDBX_txn *wtxn, *reader;
static std::vector<std::pair<MDBX_txn *, DbM>> outer; // of nested ones
static DbM cur, snap;
static bool broken_seen; // an error inside of the write transaction
static unsigned openflags;
static uint64_t sig;

static void allowed(const char *call, int rc) {
  if (rc == MDBX_SUCCESS || rc == MDBX_RESULT_TRUE)
    return;
  sig = mix64(sig ^ (uint64_t)(unsigned)rc);
  vf_log("%s: %d, injected %llu", call, rc, (unsigned long long)plan.injected);
  if (!plan.injected)
    vf_fail("error-without-fault", "%s: %d (%s); %s", call, rc, mdbx_strerror(rc), vf.case_desc.c_str());
  if (rc == MDBX_CORRUPTED || rc == MDBX_PAGE_NOTFOUND || rc == MDBX_CURSOR_FULL || rc == MDBX_KEYEXIST || rc == MDBX_NOTFOUND || rc == MDBX_EBADSIGN)
    vf_fail("wrong-error", "%s: %d (%s) because of%s; %s", call, rc, mdbx_strerror(rc), plan.what.c_str(), vf.case_desc.c_str());
  cnt("errors");
}

static Bytes why() { return strf("failing:%s (%s); %s", plan.what.c_str(), strerror(plan.err), vf.case_desc.c_str()); }

// reads everything of a snapshot through the API
static std::string read_differs(MDBX_txn *t, const DbM &want) {
  for (auto &s : g.sh) {
    auto it = want.t.find(s.name);
    if (it == want.t.end())
      continue;
    MDBX_cursor *c;
    int rc = mdbx_cursor_open(t, s.dbi, &c);
    if (rc)
      return strf("cursor: %d", rc);
    MDBX_val k, v;
    auto row = it->second->rows.begin();
    size_t vi = 0;
    rc = mdbx_cursor_get(c, &k, &v, MDBX_FIRST);
    for (;; rc = mdbx_cursor_get(c, &k, &v, MDBX_NEXT)) {
      if (s.name.empty() && rc == MDBX_SUCCESS && want.t.count(bs(k)) && !it->second->rows.count(bs(k)))
        continue; // record of a table
      if (row == it->second->rows.end())
        break;
      if (rc || !eqv(k, row->first) || !eqv(v, row->second[vi]))
        break;
      if (++vi == row->second.size())
        vi = 0, ++row;
    }
    mdbx_cursor_close(c);
    if (row != it->second->rows.end() || rc != MDBX_NOTFOUND)
      return strf("table %s differs (%d)", hexs(s.name).c_str(), rc);
  }
  return "";
}

static std::string file_differs(const DbM &want) {
  AuditResult a = audit_path(g.path, true);
  if (!a.ok())
    return "audit: " + a.err();
  return db_diff(a.tables, want);
}
static std::string pending; // the last difference
// the file shall hold one of the two
static void settle(const char *call, const DbM *maybe) {
  const std::string d = file_differs(committed);
  if (d.empty())
    return;
  std::string e = "-";
  if (maybe && (e = file_differs(*maybe)).empty()) {
    committed = *maybe;
    cnt("failed_but_done");
    return;
  }
  vf_fail("committed-changed", "after %s: %s%s%s; %s", call, d.c_str(), maybe ? " and " : "", maybe ? e.c_str() : "", why().c_str());
}

static bool open_it(bool quiet) {
  Quiet *q = quiet ? new Quiet : nullptr;
  int rc = mdbx_env_create(&g.env);
  if (rc) {
    allowed("env_create", rc);
    g.env = nullptr;
  } else {
    rc = mdbx_env_set_maxdbs(g.env, 64);
    if (!rc)
      rc = mdbx_env_open(g.env, g.path.c_str(), (MDBX_env_flags_t)(openflags | MDBX_NOSUBDIR | MDBX_NOSTICKYTHREADS), 0644);
    if (rc) {
      allowed("env_open", rc);
      rc = mdbx_env_close(g.env);
      allowed("env_close", rc);
      g.env = nullptr;
    }
  }
  delete q;
  return g.env != nullptr;
}
static void handles() {
  Quiet q;
  plan.off = true;
  MDBX_txn *t;
  MUST(mdbx_txn_begin(g.env, nullptr, MDBX_TXN_RDONLY, &t));
  for (auto &s : g.sh)
    if (committed.t.count(s.name)) {
      MDBX_val nm = mv(s.name);
      MUST(s.name.empty() ? mdbx_dbi_open(t, nullptr, (MDBX_db_flags_t)s.flags, &s.dbi) : mdbx_dbi_open2(t, &nm, (MDBX_db_flags_t)s.flags, &s.dbi));
    }
  MUST(mdbx_txn_commit(t));
  plan.off = false;
}

static void finish(bool commit) { // of the innermost level
  MDBX_txn *t = wtxn;
  DbM mine = cur;
  const bool nested = !outer.empty();
  int rc = commit ? mdbx_txn_commit(t) : mdbx_txn_abort(t);
  allowed(commit ? "commit" : "abort", rc);
  if (nested) {
    wtxn = outer.back().first;
    DbM up = outer.back().second;
    outer.pop_back();
    cur = commit && rc == MDBX_SUCCESS ? mine : up;
    cnt(commit ? "nested_commits" : "nested_aborts");
    return;
  }
  wtxn = nullptr;
  broken_seen = false;
  if (commit && rc == MDBX_SUCCESS)
    committed = mine;
  if (commit) {
    Quiet q;
    if (rc && rc != MDBX_RESULT_TRUE)
      settle(strf("a failed commit (%d)", rc).c_str(), &mine);
    else if (plan.injected)
      settle(rc ? "a refused commit" : "a commit", nullptr);
    cnt(rc ? "failed_commits" : "commits");
  }
}

static void change() {
  Shape &s = g.sh[r.below(g.sh.size())];
  if (!cur.t.count(s.name))
    return;
  TableM &m = cur.w(s.name);
  if (r.chance(70) || m.rows.empty()) {
    for (unsigned n = r.chance(15) ? (unsigned)r.range(5, 60) : 1; n; --n) {
      const Bytes k = s.key(r.below(s.U));
      Bytes v = s.val(r);
      if (v.size() > 40000)
        v.resize(40000);
      MDBX_val mk = mv(k), md = mv(v);
      int rc;
      if (!m.dup() && r.chance(20)) {
        rc = mdbx_put(wtxn, s.dbi, &mk, &md, MDBX_RESERVE);
        if (!rc && v.size())
          memcpy(md.iov_base, v.data(), v.size());
      } else
        rc = mdbx_put(wtxn, s.dbi, &mk, &md, MDBX_UPSERT);
      allowed("put", rc);
      if (rc)
        return;
      m.put(k, v);
      cnt("puts");
    }
  } else {
    for (unsigned n = r.chance(15) ? (unsigned)r.range(5, 60) : 1; n && !m.rows.empty(); --n) {
      auto it = m.rows.lower_bound(s.key(r.below(s.U)));
      if (it == m.rows.end())
        it = m.rows.begin();
      const Bytes k = it->first;
      MDBX_val mk = mv(k);
      Bytes v;
      const bool one = m.dup() && r.chance(60);
      if (one)
        v = it->second[r.below(it->second.size())];
      MDBX_val md = mv(v);
      int rc = mdbx_del(wtxn, s.dbi, &mk, one ? &md : nullptr);
      allowed("del", rc);
      if (rc)
        return;
      if (one)
        m.del(k, v);
      else
        m.del(k);
      cnt("dels");
    }
  }
}

static void step() {
  if (!g.env) {
    if (open_it(false))
      handles();
    return;
  }
  const unsigned k = (unsigned)r.below(100);
  if (!wtxn) {
    if (k < 55) {
      int rc = mdbx_txn_begin(g.env, nullptr, MDBX_TXN_READWRITE, &wtxn);
      allowed("begin", rc);
      if (rc)
        wtxn = nullptr;
      cur = committed;
      broken_seen = false;
    } else if (k < 68) {
      MDBX_txn *t;
      int rc = mdbx_txn_begin(g.env, nullptr, MDBX_TXN_RDONLY, &t);
      allowed("begin ro", rc);
      if (rc)
        return;
      if (!plan.injected || r.chance(50)) {
        const std::string d = read_differs(t, committed);
        if (!d.empty() && !plan.injected)
          vf_fail("wrong-contents", "%s; %s", d.c_str(), why().c_str());
        if (!d.empty()) { // reading itself may be refused, but shall not show something else
          Quiet q;
          const bool was = plan.off;
          plan.off = true;
          const std::string e = read_differs(t, committed);
          plan.off = was;
          if (!e.empty())
            vf_fail("wrong-contents", "%s; %s", e.c_str(), why().c_str());
        }
      }
      rc = mdbx_txn_abort(t);
      allowed("abort ro", rc);
    } else if (k < 74)
      allowed("sync", mdbx_env_sync_ex(g.env, r.chance(50), false));
    else if (k < 79) {
      const Bytes to = g.path + "-copy";
      unlink(to.c_str());
      const unsigned f = (r.chance(50) ? (unsigned)MDBX_CP_COMPACT : 0) | (r.chance(30) ? (unsigned)MDBX_CP_FORCE_DYNAMIC_SIZE : 0);
      int rc = mdbx_env_copy(g.env, to.c_str(), (MDBX_copy_flags_t)f);
      allowed("copy", rc);
      if (!rc) {
        Quiet q;
        AuditResult a = audit_path(to, true);
        std::string d = a.ok() ? db_diff(a.tables, committed) : a.err();
        if (!d.empty())
          vf_fail("bad-copy", "%s; %s", d.c_str(), why().c_str());
        cnt("copies");
      }
      unlink(to.c_str());
      unlink((to + "-lck").c_str());
    } else if (k < 84) {
      MDBX_envinfo i;
      Quiet *q = new Quiet;
      int rc = mdbx_env_info_ex(g.env, nullptr, &i, sizeof i);
      delete q;
      if (!rc) {
        const intptr_t page = (intptr_t)g.cfg.page, want = (intptr_t)i.mi_geo.current + page * (intptr_t)(r.below(400)) - page * 100;
        allowed("set_geometry", mdbx_env_set_geometry(g.env, -1, std::max<intptr_t>(want, page * 32), -1, -1, -1, -1));
      }
    } else if (k < 88 && !reader) {
      int rc = mdbx_txn_begin(g.env, nullptr, MDBX_TXN_RDONLY, &reader);
      allowed("begin reader", rc);
      if (rc)
        reader = nullptr;
      snap = committed;
    } else if (k < 93 && !reader) {
      int rc = mdbx_env_close_ex(g.env, r.chance(20));
      allowed("close", rc);
      if (rc == MDBX_BUSY || rc == MDBX_THREAD_MISMATCH)
        vf_fail("close", "%d; %s", rc, why().c_str());
      g.env = nullptr;
      cnt("closings");
    } else {
      MDBX_stat st;
      allowed("stat", mdbx_env_stat_ex(g.env, nullptr, &st, sizeof st));
    }
    return;
  }
  if (k < 64)
    change();
  else if (k < 70) {
    Shape &s = g.sh[r.below(g.sh.size())];
    if (!s.name.empty() || r.chance(20)) {
      if (!cur.t.count(s.name) || s.name.empty())
        return;
      int rc = mdbx_drop(wtxn, s.dbi, false);
      allowed("clear", rc);
      if (!rc) {
        cur.t[s.name] = std::make_shared<TableM>(s.flags);
        cnt("cleared");
      }
    }
  } else if (k < 76) {
    MDBX_dbi d;
    const bool has = cur.t.count("extra") != 0;
    int rc = mdbx_dbi_open(wtxn, "extra", MDBX_CREATE, &d);
    allowed("dbi_open", rc);
    if (rc)
      return;
    if (!has)
      cur.t["extra"] = std::make_shared<TableM>(0);
    if (has && r.chance(40)) {
      rc = mdbx_drop(wtxn, d, true);
      allowed("drop", rc);
      if (!rc)
        cur.t.erase("extra"), cnt("dropped");
      return;
    }
    for (unsigned n = 1 + (unsigned)r.below(20); n; --n) {
      const Bytes kk = strf("k%llu", (unsigned long long)r.below(300)), vv(r.below(r.chance(10) ? 9000 : 90), 'x');
      MDBX_val mk = mv(kk), md = mv(vv);
      rc = mdbx_put(wtxn, d, &mk, &md, MDBX_UPSERT);
      allowed("put extra", rc);
      if (rc)
        return;
      cur.w("extra").put(kk, vv);
    }
  } else if (k < 82 && !(openflags & MDBX_WRITEMAP) && outer.size() < 3) {
    MDBX_txn *t;
    int rc = mdbx_txn_begin(g.env, wtxn, MDBX_TXN_READWRITE, &t);
    allowed("begin nested", rc);
    if (!rc) {
      outer.push_back({wtxn, cur});
      wtxn = t;
      cnt("nested");
    }
  } else if (k < 86) {
    const std::string d = read_differs(wtxn, cur);
    if (!d.empty() && !plan.injected)
      vf_fail("wrong-contents", "in a write transaction: %s; %s", d.c_str(), why().c_str());
  } else if (k < 97)
    finish(true);
  else
    finish(false);
}

static void run(uint64_t steps, uint64_t seed, const std::vector<uint8_t> &image, const DbM &start) {
  r = Rng(seed);
  committed = start;
  wtxn = reader = nullptr;
  outer.clear();
  sig = 0;
  {
    Quiet q;
    unlink((g.path + "-lck").c_str());
    FILE *f = fopen(g.path.c_str(), "wb");
    if (!f || fwrite(image.data(), 1, image.size(), f) != image.size() || fclose(f))
      vf_harness_error("cannot write %s", g.path.c_str());
  }
  plan.off = false;
  g.env = nullptr;
  for (uint64_t i = 0; i < steps; ++i)
    step();
  // the fault is over
  plan.off = true;
  Quiet q;
  while (wtxn) {
    MDBX_txn *t = wtxn;
    int rc = mdbx_txn_abort(t);
    if (rc && !plan.injected)
      vf_fail("abort", "%d; %s", rc, why().c_str());
    wtxn = outer.empty() ? nullptr : outer.back().first;
    if (!outer.empty())
      outer.pop_back();
  }
  if (g.env)
    settle("the end of the fault", nullptr);
  if (reader) {
    const std::string d = read_differs(reader, snap);
    if (!d.empty())
      vf_fail("snapshot-changed", "%s; %s", d.c_str(), why().c_str());
    const int rc = mdbx_txn_abort(reader);
    // after a fatal error of the environment everything answers so
    if (rc && rc != MDBX_PANIC)
      vf_fail("abort", "of a reader: %d; %s", rc, why().c_str());
    reader = nullptr;
    cnt("snapshots");
  }
  for (int round = 0; round < 2; ++round) {
    if (!g.env && !open_it(true))
      vf_fail("cannot-reopen", "%s", why().c_str());
    MDBX_txn *t;
    int rc = mdbx_txn_begin(g.env, nullptr, MDBX_TXN_RDONLY, &t);
    if (rc == MDBX_SUCCESS) {
      for (auto &s : g.sh)
        if (committed.t.count(s.name)) {
          MDBX_val nm = mv(s.name);
          MUST(s.name.empty() ? mdbx_dbi_open(t, nullptr, (MDBX_db_flags_t)s.flags, &s.dbi) : mdbx_dbi_open2(t, &nm, (MDBX_db_flags_t)s.flags, &s.dbi));
        }
      const std::string d = read_differs(t, committed);
      if (!d.empty())
        vf_fail("wrong-contents", "after the fault: %s; %s", d.c_str(), why().c_str());
      MUST(mdbx_txn_abort(t));
      rc = mdbx_txn_begin(g.env, nullptr, MDBX_TXN_READWRITE, &t);
    }
    if (rc == MDBX_SUCCESS) {
      Shape &s = g.sh[0];
      DbM next = committed;
      for (int n = 0; n < 30; ++n) {
        const Bytes k = s.key(r.below(s.U));
        Bytes v = s.val(r);
        if (v.size() > 40000)
          v.resize(40000);
        MDBX_val mk = mv(k), md = mv(v);
        rc = mdbx_put(t, s.dbi, &mk, &md, MDBX_UPSERT);
        if (rc)
          vf_fail("stuck", "put after the fault: %d (%s); %s", rc, mdbx_strerror(rc), why().c_str());
        next.w(s.name).put(k, v);
      }
      rc = mdbx_txn_commit(t);
      if (rc)
        vf_fail("stuck", "commit after the fault: %d (%s); %s", rc, mdbx_strerror(rc), why().c_str());
      committed = next;
      settle("work after the fault", nullptr);
      cnt("resumed");
    } else if (round || (rc != MDBX_PANIC && rc != MDBX_UNABLE_EXTEND_MAPSIZE))
      vf_fail("stuck", "a transaction cannot be started after the fault: %d (%s); %s", rc, mdbx_strerror(rc), why().c_str());
    else
      cnt("panics");
    rc = mdbx_env_close(g.env);
    if (rc && !plan.injected)
      vf_fail("close", "%d; %s", rc, why().c_str());
    g.env = nullptr;
    unlink((g.path + "-copy").c_str());
  }
  settle("closing", nullptr);
}

static void one_case(uint64_t seed, uint64_t cs) {
  Rng q(mix64(seed * 1000003 + cs));
  std::vector<uint8_t> image;
  const Bytes dir = scratch_dir();
  DbM start;
  {
    Quiet z;
    g = GenDb();
    g.path = dir + "/f.db";
    GenOpt o;
    o.maxpage = 4096;
    o.vlimit = 40000;
    gen_build(q, g, o);
    read_file(g.path, image);
    start = g.db;
  }
  static const unsigned modes[] = {MDBX_SYNC_DURABLE, MDBX_SYNC_DURABLE, MDBX_NOMETASYNC, MDBX_SAFE_NOSYNC, MDBX_UTTERLY_NOSYNC};
  openflags = modes[q.below(5)] | (q.chance(35) ? (unsigned)MDBX_WRITEMAP : 0) | (q.chance(30) ? (unsigned)MDBX_LIFORECLAIM : 0);
  const uint64_t steps = q.range(10, 70), sseed = q.next();
  plan = Plan();
  vf_case(strf("case=%llu variant=0 page=%zu flags=%x steps=%llu", (unsigned long long)cs, g.cfg.page, openflags, (unsigned long long)steps));
  run(steps, sseed, image, start);
  uint64_t hist[nclass];
  memcpy(hist, plan.hist, sizeof hist);
  for (unsigned i = 0; i < nclass; ++i)
    cnt((std::string("calls_") + classes[i].name).c_str(), hist[i]);
  const uint64_t only = args.num("variant", 0);
  for (uint64_t v = 1; v <= args.num("variants", 40); ++v) {
    Rng z(mix64(mix64(seed * 1000003 + cs) + v));
    unsigned c;
    do
      c = (unsigned)z.below(nclass);
    while (!hist[c]);
    plan = Plan();
    plan.mask = classes[c].calls;
    plan.from = z.below(hist[c]);
    plan.count = z.chance(60) ? 1 : z.chance(50) ? z.range(2, 12) : z.chance(50) ? z.range(10, 100) : ~0ull;
    plan.err = classes[c].err[z.below(3)];
    if (only && v != only)
      continue;
    vf_case(strf("case=%llu variant=%llu page=%zu flags=%x steps=%llu fail=%s from=%llu count=%lld errno=%d", (unsigned long long)cs, (unsigned long long)v, g.cfg.page,
                 openflags, (unsigned long long)steps, classes[c].name, (unsigned long long)plan.from, (long long)plan.count, plan.err));
    const Plan keep = plan;
    run(steps, sseed, image, start);
    cnt("variants");
    cnt("injected", plan.injected);
    if (plan.injected) {
      cnt((std::string("faults_") + classes[c].name).c_str());
      distinct(mix64(sig ^ c << 8 ^ (uint64_t)plan.err << 16 ^ hash_bytes(plan.what.data(), plan.what.size())));
    }
    (void)keep;
  }
  vf_sample(vf.case_desc);
  cnt("cases");
}

int main(int argc, char **argv) {
  vf.prop = "C19";
  vf_init(argc, argv);
  wrap_pre = pre;
  const uint64_t seed = args.num("seed", 1), first = args.num("first", 0), n = args.num("n", 1);
  for (uint64_t c = first; c < first + n; ++c) {
    one_case(seed, c);
    Quiet q;
    scratch_drop();
  }
  vf_finish();
}
