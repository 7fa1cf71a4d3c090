// Operations between (and around) transactions: hot copies, defragmentation,
// geometry changes, the library's own integrity check, running into the size
// limit.
#include "fuzz.h"
#include <thread>

std::vector<uint8_t> slurp(const std::string &p) {
  std::vector<uint8_t> v;
  if (!read_file(p, v))
    vf_harness_error("can't read %s", p.c_str());
  return v;
}
static bool exists(const std::string &p) { return access(p.c_str(), F_OK) == 0; }

// ------------------------------------------------ the library's own checker
struct ChkNote {
  uint64_t issues = 0;
  std::string first;
};
static bool chk_break(MDBX_chk_context_t *) { return false; }
static void chk_issue(MDBX_chk_context_t *ctx, const char *object, uint64_t n, const char *issue, const char *fmt,
                      va_list ap) {
  ChkNote *note = (ChkNote *)mdbx_env_get_userctx(ctx->env);
  if (!note->issues++) {
    char b[200] = "";
    if (fmt)
      vsnprintf(b, sizeof b, fmt, ap);
    note->first = strf("%s #%llu: %s %s", object ? object : "", (unsigned long long)n, issue, b);
  }
}
int run_chk(MDBX_env *env, unsigned flags, ChkOut &out) {
  MDBX_chk_callbacks_t cb;
  memset(&cb, 0, sizeof cb);
  cb.check_break = chk_break;
  cb.issue = chk_issue;
  MDBX_chk_context_t ctx;
  memset(&ctx, 0, sizeof ctx);
  ChkNote note;
  void *prev = mdbx_env_get_userctx(env);
  MUST(mdbx_env_set_userctx(env, &note));
  int rc = mdbx_env_chk(env, &cb, &ctx, (MDBX_chk_flags_t)flags, MDBX_chk_result, 0);
  MUST(mdbx_env_set_userctx(env, prev));
  out.problems = ctx.result.total_problems;
  out.issues = note.issues;
  out.first = note.first;
  out.tables = ctx.result.table_total;
  out.alloc_pages = ctx.result.alloc_pages;
  out.gc_pages = ctx.result.gc_pages;
  out.processed_pages = ctx.result.processed_pages;
  out.reclaimable = ctx.result.reclaimable_pages;
  out.recent = ctx.result.recent_txnid;
  out.unused = ctx.result.unused_pages;
  return rc;
}

void Fuzz::op_chk() {
  // the head has to be on the disk, or the check says so rightly
  int rc = mdbx_env_sync_ex(env, true, false);
  if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
    vf_fail("sync", "mdbx_env_sync_ex -> %d", rc);
  unsigned fl = r.chance(50) ? MDBX_CHK_READWRITE : 0;
  if (r.chance(15))
    fl |= MDBX_CHK_SKIP_KV_TRAVERSAL;
  std::vector<uint8_t> before = slurp(path);
  ChkOut o;
  rc = run_chk(env, fl, o);
  std::vector<uint8_t> after = slurp(path);
  if (rc != MDBX_SUCCESS || o.problems || o.issues)
    vf_fail("chk-noise", "mdbx_env_chk(0x%x) on a sound database -> %d, %llu problems, %llu issues: %s", fl, rc,
            (unsigned long long)o.problems, (unsigned long long)o.issues, o.first.c_str());
  if (before != after)
    vf_fail("chk-writes", "mdbx_env_chk(0x%x) changed the data file", fl);
  AuditResult a = audit_image(after.data(), after.size(), false);
  if (!a.ok())
    vf_fail("audit", "after chk: %s", a.err().c_str());
  const AuditMeta &m = a.metas[a.head];
  if (o.recent != m.txnid || o.alloc_pages != m.first_unalloc)
    vf_fail("chk-totals", "chk reports txn %llu, %llu allocated pages; the file has %llu, %u", (unsigned long long)o.recent,
            (unsigned long long)o.alloc_pages, (unsigned long long)m.txnid, m.first_unalloc);
  if (o.gc_pages != a.gcpages)
    vf_fail("chk-totals", "chk reports %llu pages in the free list, the file has %llu", (unsigned long long)o.gc_pages,
            (unsigned long long)a.gcpages);
  if (o.processed_pages != a.used + 3) // and the meta-pages
    vf_fail("chk-totals", "chk walked %llu pages, the trees have %llu", (unsigned long long)o.processed_pages,
            (unsigned long long)a.used + 3);
  uint64_t named = 0;
  for (auto &t : committed.t)
    named += !t.first.empty();
  if (!(fl & MDBX_CHK_SKIP_KV_TRAVERSAL) && o.tables != named && o.tables != named + 2)
    vf_fail("chk-totals", "chk counts %llu tables, there are %llu", (unsigned long long)o.tables,
            (unsigned long long)named + 2);
  cnt("chk_quiet");
  if (rd.size())
    cnt("chk_with_readers");
}

// ------------------------------------------------------------------- copies
// everything about a copy: the bytes on disk, then through the library
void Fuzz::verify_copy(const std::string &cp, const DbM &db, unsigned flags, const char *how) {
  std::string tag = strf("%s flags 0x%x", how, flags);
  AuditResult a = audit_path(cp, true);
  if (!a.ok())
    vf_fail("copy-audit", "%s: %s", tag.c_str(), a.err().c_str());
  std::string d = db_diff(a.tables, db);
  if (!d.empty())
    vf_fail("copy-contents", "%s: %s", tag.c_str(), d.c_str());
  const AuditMeta &m = a.metas[a.head];
  for (auto &t : db.t) {
    if (t.first.empty())
      continue;
    auto tr = a.trees.find(t.first);
    if (tr == a.trees.end() || tr->second.flags != (t.second->flags & 0xfff))
      vf_fail("copy-flags", "%s: table %s has flags 0x%x", tag.c_str(), hexs(t.first).c_str(),
              tr == a.trees.end() ? 0xffff : tr->second.flags);
  }
  if (m.canary[0] != db.canary.x || m.canary[1] != db.canary.y || m.canary[2] != db.canary.z)
    vf_fail("copy-canary", "%s: canary differs", tag.c_str());
  if (a.file_pages < m.first_unalloc || m.now > m.upper || m.now < m.lower)
    vf_fail("copy-geometry", "%s: file of %llu pages, geometry %u/%u/%u, used %u", tag.c_str(),
            (unsigned long long)a.file_pages, m.lower, m.now, m.upper, m.first_unalloc);
  if ((flags & MDBX_CP_COMPACT) && (a.gcpages || a.gcrecords))
    vf_fail("copy-compact", "%s: %llu free pages left in a compacted copy", tag.c_str(), (unsigned long long)a.gcpages);
  if ((flags & MDBX_CP_FORCE_DYNAMIC_SIZE) && (!m.grow_pv || !m.shrink_pv || m.upper <= m.lower))
    vf_fail("copy-dynamic", "%s: the copy is not resizable", tag.c_str());
  MDBX_env *e;
  MUST(mdbx_env_create(&e));
  MUST(mdbx_env_set_maxdbs(e, 40));
  MUST(mdbx_env_set_option(e, MDBX_opt_max_readers, 20));
  unsigned of = MDBX_NOSUBDIR | MDBX_NOSTICKYTHREADS | (r.chance(40) ? MDBX_VALIDATION : 0) |
                (r.chance(30) ? MDBX_EXCLUSIVE : 0) | (r.chance(30) ? MDBX_WRITEMAP : 0) |
                (r.chance(50) ? MDBX_UTTERLY_NOSYNC : 0);
  int rc = mdbx_env_open(e, cp.c_str(), (MDBX_env_flags_t)of, 0644);
  if (rc != MDBX_SUCCESS)
    vf_fail("copy-open", "%s: the copy can't be opened: %d %s", tag.c_str(), rc, mdbx_strerror(rc));
  MDBX_txn *txn;
  MUST(mdbx_txn_begin(e, nullptr, MDBX_TXN_READWRITE, &txn));
  for (auto &s : sh) {
    MDBX_dbi dbi;
    MDBX_val nm = mv(s.name);
    auto fl = (MDBX_db_flags_t)s.flags;
    rc = s.name.empty() ? mdbx_dbi_open(txn, nullptr, fl, &dbi) : mdbx_dbi_open2(txn, &nm, fl, &dbi);
    if (rc != MDBX_SUCCESS)
      vf_fail("copy-open", "%s: table %s of the copy can't be opened: %d", tag.c_str(), hexs(s.name).c_str(), rc);
    verify_table(txn, dbi, db.r(s.name), "a copy", r.chance(50));
    uint64_t q = 0;
    MUST(mdbx_dbi_sequence(txn, dbi, &q, 0));
    if (q != db.r(s.name).seq)
      vf_fail("copy-sequence", "%s: table %s has sequence %llu, expected %llu", tag.c_str(), hexs(s.name).c_str(),
              (unsigned long long)q, (unsigned long long)db.r(s.name).seq);
    Bytes kb = s.key(r.below(s.U));
    MDBX_val k = mv(kb), v;
    rc = mdbx_del(txn, dbi, &k, nullptr);
    if (rc == MDBX_SUCCESS)
      cnt("copy_writes");
    else if (rc != MDBX_NOTFOUND)
      vf_fail("copy-write", "%s: delete in the copy -> %d", tag.c_str(), rc);
  }
  MUST(r.chance(80) ? mdbx_txn_commit(txn) : mdbx_txn_abort(txn));
  rc = mdbx_env_sync_ex(e, true, false);
  if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
    vf_fail("copy-write", "%s: sync of the copy -> %d", tag.c_str(), rc);
  ChkOut o;
  rc = run_chk(e, 0, o);
  if (rc != MDBX_SUCCESS || o.problems)
    vf_fail("copy-chk", "%s: mdbx_env_chk of the copy -> %d, %llu problems: %s", tag.c_str(), rc,
            (unsigned long long)o.problems, o.first.c_str());
  MUST(mdbx_env_close(e));
  AuditResult b = audit_path(cp, false);
  if (!b.ok())
    vf_fail("copy-audit", "%s, after a write: %s", tag.c_str(), b.err().c_str());
  cnt("copies");
  if (flags & MDBX_CP_COMPACT)
    cnt("copies_compact");
  cnt("copied_pages", m.first_unalloc);
}

void Fuzz::op_copy(bool inside) {
  const std::string cp = path + ".copy";
  unlink(cp.c_str());
  unlink((cp + "-lck").c_str());
  unsigned fl = 0;
  if (r.chance(50))
    fl |= MDBX_CP_COMPACT;
  if (r.chance(30))
    fl |= MDBX_CP_FORCE_DYNAMIC_SIZE;
  if (r.chance(60))
    fl |= MDBX_CP_DONT_FLUSH;
  if (r.chance(30))
    fl |= MDBX_CP_THROTTLE_MVCC;
  // source: the environment, an old reader, a fresh reader, an unchanged write transaction
  enum { ENV, OLD, FRESH, WR } src = ENV;
  unsigned w = (unsigned)r.below(10);
  if (w < 4)
    src = ENV;
  else if (w < 8 && rd.size())
    src = OLD;
  else if (w < 9 || inside)
    src = FRESH;
  else
    src = WR;
  MDBX_txn *txn = nullptr;
  DbM db = committed;
  size_t ri = 0;
  if (src == OLD) {
    ri = (size_t)r.below(rd.size());
    txn = rd[ri].txn;
    db = rd[ri].db;
  } else if (src == FRESH)
    MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &txn));
  else if (src == WR) {
    MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &txn));
    fl &= ~(unsigned)MDBX_CP_THROTTLE_MVCC;
  }
  bool dispose = txn && r.chance(40);
  if (dispose)
    fl |= MDBX_CP_DISPOSE_TXN;
  if (txn && src != WR && r.chance(30))
    fl |= MDBX_CP_RENEW_TXN;
  enum { PATH, FD, PIPE } dst = r.chance(60) ? PATH : r.chance(50) ? FD : PIPE;
  bool must_fail = false;
  std::vector<uint8_t> junk;
  if (dst == PATH && r.chance(45)) { // something is there already
    junk.resize(r.below(3) * 4096 + r.below(400000) + 1);
    for (auto &b : junk)
      b = (uint8_t)r.next();
    if (r.chance(30)) // another database
      junk = slurp(path);
    FILE *f = fopen(cp.c_str(), "wb");
    if (!f || fwrite(junk.data(), 1, junk.size(), f) != junk.size())
      vf_harness_error("can't write %s", cp.c_str());
    fclose(f);
    if (r.chance(50))
      fl |= MDBX_CP_OVERWRITE;
    else
      must_fail = true;
  } else if (dst == PATH && r.chance(20))
    fl |= MDBX_CP_OVERWRITE;
  const bool quiet = !inside && r.chance(40);
  std::vector<uint8_t> before;
  if (quiet)
    before = slurp(path);
  std::string how = strf("%s to %s", src == ENV ? "env copy" : src == OLD ? "copy of an old reader" : src == FRESH ? "copy of a reader" : "copy of a write txn",
                         dst == PATH ? "path" : dst == FD ? "file descriptor" : "pipe");
  auto flags = (MDBX_copy_flags_t)fl;
  int rc;
  if (dst == PATH)
    rc = txn ? mdbx_txn_copy2pathname(txn, cp.c_str(), flags) : mdbx_env_copy(env, cp.c_str(), flags);
  else if (dst == FD) {
    int fd = open(cp.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (r.chance(30))
      (void)!write(fd, "some junk at the head", 21);
    rc = txn ? mdbx_txn_copy2fd(txn, fd, flags) : mdbx_env_copy2fd(env, fd, flags);
    close(fd);
  } else {
    int p[2];
    if (pipe(p))
      vf_harness_error("pipe");
    std::thread th([&] {
      int o = open(cp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      char buf[30000];
      ssize_t n;
      while ((n = read(p[0], buf, sizeof buf)) > 0)
        if (write(o, buf, (size_t)n) != n)
          vf_harness_error("short write");
      close(o);
      close(p[0]);
    });
    rc = txn ? mdbx_txn_copy2fd(txn, p[1], flags) : mdbx_env_copy2fd(env, p[1], flags);
    close(p[1]);
    th.join();
  }
  vf_log("%s flags 0x%x must_fail=%d -> %d", how.c_str(), fl, must_fail, rc);
  if (must_fail) {
    if (rc == MDBX_SUCCESS)
      vf_fail("copy-overwrote", "%s flags 0x%x replaced an existing file", how.c_str(), fl);
    if (!exists(cp) || slurp(cp) != junk)
      vf_fail("copy-overwrote", "%s flags 0x%x was refused (%d) yet changed the target", how.c_str(), fl, rc);
    cnt("copies_refused");
  } else if (rc != MDBX_SUCCESS)
    vf_fail("copy", "%s flags 0x%x -> %d %s", how.c_str(), fl, rc, mdbx_strerror(rc));
  if (quiet && slurp(path) != before)
    vf_fail("copy-source", "%s flags 0x%x changed the source", how.c_str(), fl);
  // the transaction used
  if (txn && !dispose) {
    if (fl & MDBX_CP_THROTTLE_MVCC) { // left parked
      rc = mdbx_txn_unpark(txn, false);
      if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
        vf_fail("copy-txn", "%s: unpark -> %d", how.c_str(), rc);
    }
    full_verify(txn, db, "a transaction that was copied", false);
    if (src != OLD)
      MUST(mdbx_txn_abort(txn));
  } else if (src == OLD)
    rd.erase(rd.begin() + (long)ri);
  if (!must_fail)
    verify_copy(cp, db, fl, how.c_str());
  unlink(cp.c_str());
  unlink((cp + "-lck").c_str());
  if (inside)
    cnt("copies_while_writing");
}

// ---------------------------------------------------------- defragmentation
struct DefragCtx {
  Rng r{1};
  int mode = 0;
  uint64_t calls = 0;
  bool stopped = false;
};
static int defrag_cb(void *p, const MDBX_defrag_result_t *) noexcept {
  DefragCtx *c = (DefragCtx *)p;
  ++c->calls;
  if (c->mode && c->r.chance(20)) {
    c->stopped = true;
    return c->mode;
  }
  return 0;
}
void Fuzz::op_defrag(bool inside) {
  DefragCtx c;
  c.r = Rng(r.next());
  c.mode = r.chance(60) ? 0 : r.chance(50) ? -1 : 1;
  bool cb = r.chance(70);
  size_t enough = r.chance(60) ? 0 : 1 + r.below(200), atleast = r.chance(70) ? 0 : r.below(enough + 1);
  size_t tl = r.chance(85) ? 0 : 1 + r.below(2000);
  intptr_t backlash = r.chance(40) ? -1 : (intptr_t)r.below(20);
  intptr_t batch = r.chance(50) ? 0 : (intptr_t)(1 + r.below(60));
  MDBX_defrag_result_t res;
  memset(&res, 0, sizeof res);
  AuditResult a0;
  if (!inside)
    a0 = audit_path(path, false);
  int rc = mdbx_env_defrag(env, atleast, 0, enough, tl, backlash, batch, cb ? defrag_cb : nullptr, cb ? &c : nullptr,
                           &res);
  vf_log("defrag(atleast %zu enough %zu tl %zu backlash %zd batch %zd cb %d) -> %d, shrunk %zd moved %zu cycles %u reasons 0x%x",
         atleast, enough, tl, backlash, batch, cb ? c.mode : 9, rc, res.pages_shrinked, res.pages_moved, res.cycles,
         res.stopping_reasons);
  if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE && rc != MDBX_LAGGARD_READER)
    W(rc == MDBX_TXN_FULL && inside ? rc : (vf_fail("defrag", "mdbx_env_defrag -> %d %s", rc, mdbx_strerror(rc)), 0));
  cnt("defrags");
  cnt("defrag_moved", res.pages_moved);
  cnt("defrag_cycles", res.cycles);
  if (c.stopped)
    cnt("defrag_interrupted");
  if (rd.size())
    cnt("defrag_with_readers");
  if (rc == MDBX_LAGGARD_READER && rd.empty())
    vf_fail("defrag-laggard", "mdbx_env_defrag blames a reader, there is none");
  if (inside)
    return;
  AuditResult a1 = audit_path(path, true);
  if (!a1.ok())
    vf_fail("audit", "after defragmentation: %s", a1.err().c_str());
  std::string d = db_diff(a1.tables, committed);
  if (!d.empty())
    vf_fail("defrag-contents", "after defragmentation: %s", d.c_str());
  uint64_t u0 = a0.metas[a0.head].first_unalloc, u1 = a1.metas[a1.head].first_unalloc;
  // the documentation grants a few pages in the worst case
  uint64_t grant = rd.size() || !a1.metas[a1.head].steady() || !a0.metas[a0.head].steady()
                       ? 8 + a1.metas[a1.head].gc.leaf + a1.metas[a1.head].gc.branch + a1.metas[a1.head].gc.large
                       : 2;
  if (u1 > u0 + grant)
    vf_fail("defrag-grew", "used size grew from %llu to %llu pages by defragmentation (readers: %zu)", (unsigned long long)u0,
            (unsigned long long)u1, rd.size());
  if (res.pages_shrinked != (intptr_t)(u0 - u1) )
    vf_fail("defrag-result", "reported %zd pages less, from %llu to %llu in fact", res.pages_shrinked,
            (unsigned long long)u0, (unsigned long long)u1);
  if (u1 < u0)
    cnt("defrag_shrunk_pages", u0 - u1);
  // an unlimited one without obstacles has to leave next to nothing free
  if (rc == MDBX_SUCCESS && rd.empty() && !enough && !atleast && !tl && !c.stopped) {
    cnt("defrag_complete");
    uint64_t freep = a1.gcpages;
    if (vf.counts["defrag_max_left"] < freep)
      vf.counts["defrag_max_left"] = freep;
  }
  MDBX_txn *txn;
  MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &txn));
  full_verify(txn, committed, "after defragmentation", r.chance(50));
  MUST(mdbx_txn_abort(txn));
  for (auto &x : rd)
    full_verify(x.txn, x.db, "reader over a defragmentation", false);
}

// ------------------------------------------------------------------ geometry
void Fuzz::check_geo(const char *why) {
  MDBX_envinfo i;
  MUST(mdbx_env_info_ex(env, lv.empty() ? nullptr : T(), &i, sizeof i));
  if (lv.empty() && (i.mi_geo.current < i.mi_geo.lower || i.mi_geo.current > i.mi_geo.upper))
    vf_fail("geo-bounds", "%s: current size %llu outside of %llu..%llu", why, (unsigned long long)i.mi_geo.current,
            (unsigned long long)i.mi_geo.lower, (unsigned long long)i.mi_geo.upper);
  if (lv.empty() && (i.mi_last_pgno + 1) * cfg.page > i.mi_geo.current)
    vf_fail("geo-bounds", "%s: last page %llu beyond the current size %llu", why, (unsigned long long)i.mi_last_pgno,
            (unsigned long long)i.mi_geo.current);
  struct stat st;
  if (stat(path.c_str(), &st))
    vf_harness_error("stat %s", path.c_str());
  if ((uint64_t)st.st_size > std::max<uint64_t>(upper_bound, 1))
    vf_fail("geo-bounds", "%s: the file has %llu bytes, the limit is %llu", why, (unsigned long long)st.st_size,
            (unsigned long long)upper_bound);
  // (a change made inside a transaction takes effect on the file at once, even when that transaction is aborted then)
  if (lv.empty() && !geo_was_in_txn && (uint64_t)st.st_size < i.mi_geo.current)
    vf_fail("geo-bounds", "%s: the file has %llu bytes, the current size is %llu", why, (unsigned long long)st.st_size,
            (unsigned long long)i.mi_geo.current);
  cnt("geo_checks");
}
static uint64_t up(uint64_t v, uint64_t to) { return (v + to - 1) / to * to; }

void Fuzz::op_geo() {
  MDBX_envinfo i;
  MUST(mdbx_env_info_ex(env, lv.empty() ? nullptr : T(), &i, sizeof i));
  const uint64_t ps = cfg.page, used = (i.mi_last_pgno + 1) * ps;
  auto some = [&](bool limit) -> intptr_t {
    switch (r.below(limit ? 6 : 8)) {
    case 0: return -1;
    case 1: return (intptr_t)(used + r.below(20) * ps);
    case 2: return (intptr_t)(used * (2 + r.below(4)));
    case 3: return (intptr_t)(used / (2 + r.below(4)));
    case 4: return (intptr_t)(65536 + r.below(4096) * 4096);
    case 5: return (intptr_t)((i.mi_geo.upper / 2) + r.below(i.mi_geo.upper));
    case 6: return 0;
    default: return (intptr_t)(ps * r.below(300));
    }
  };
  intptr_t lo = r.chance(50) ? -1 : some(false), now = r.chance(40) ? -1 : some(false),
           hi = r.chance(50) ? -1 : some(true);
  intptr_t grow = r.chance(50) ? -1 : (intptr_t)(ps * (1 + r.below(64))), shr = r.chance(50) ? -1 : (intptr_t)(ps * r.below(128));
  int rc = mdbx_env_set_geometry(env, lo, now, hi, grow, shr, r.chance(50) ? -1 : (intptr_t)ps);
  struct stat fst {};
  stat(path.c_str(), &fst);
  vf_log("set_geometry(%zd, %zd, %zd, %zd, %zd) used %llu cur %llu upper %llu -> %d, file %llu, level %zu", lo, now, hi, grow,
         shr, (unsigned long long)used, (unsigned long long)i.mi_geo.current, (unsigned long long)i.mi_geo.upper, rc,
         (unsigned long long)fst.st_size, lv.size());
  MDBX_envinfo n;
  MUST(mdbx_env_info_ex(env, lv.empty() ? nullptr : T(), &n, sizeof n));
  if (rc == MDBX_SUCCESS) {
    cnt("geo_changes");
    const uint64_t unit = std::max<uint64_t>(ps, 4096);
    if (lv.empty() && hi > 0 && (n.mi_geo.upper < (uint64_t)hi || n.mi_geo.upper >= up((uint64_t)hi, unit) + std::max<uint64_t>(65536, unit)))
      vf_fail("geo-upper", "asked for the upper limit %zd, got %llu", hi, (unsigned long long)n.mi_geo.upper);
    if (lv.empty() && lo > 0 && n.mi_geo.lower < (uint64_t)lo)
      vf_fail("geo-lower", "asked for the lower limit %zd, got %llu", lo, (unsigned long long)n.mi_geo.lower);
    if (lo < 0 && hi < 0 && (n.mi_geo.lower != i.mi_geo.lower || n.mi_geo.upper < i.mi_geo.upper || n.mi_geo.upper > up(i.mi_geo.upper, 65536)))
      vf_fail("geo-keep", "limits changed from %llu..%llu to %llu..%llu unasked", (unsigned long long)i.mi_geo.lower,
              (unsigned long long)i.mi_geo.upper, (unsigned long long)n.mi_geo.lower, (unsigned long long)n.mi_geo.upper);
    if (n.mi_geo.current > i.mi_geo.current)
      cnt("geo_grown");
    if (n.mi_geo.current < i.mi_geo.current)
      cnt("geo_shrunk");
    // inside a transaction the new limits come with its commit, and what is left of the old ones with its abort
    if (!lv.empty())
      upper_bound = up(upper_bound, 65536); // an untouched limit may be rounded up too
    upper_bound = lv.empty() && !geo_was_in_txn ? n.mi_geo.upper
                             : std::max<uint64_t>({upper_bound, n.mi_geo.upper, hi > 0 ? up((uint64_t)hi, 65536) + 65536 : 0});
    if (!lv.empty())
      geo_in_txn = geo_was_in_txn = true;
    if (lv.size() > 1)
      cnt("geo_in_nested");
    else if (!lv.empty())
      cnt("geo_in_txn");
  } else {
    if (rc != MDBX_EINVAL && rc != MDBX_MAP_FULL && rc != MDBX_UNABLE_EXTEND_MAPSIZE && rc != MDBX_TOO_LARGE)
      vf_fail("geo-error", "mdbx_env_set_geometry -> %d %s", rc, mdbx_strerror(rc));
    if (rc == MDBX_MAP_FULL && !(hi >= 0 && (uint64_t)hi < up(upper_used(), 65536)))
      vf_fail("geo-error", "mdbx_env_set_geometry(upper %zd) -> MAP_FULL, used %llu", hi, (unsigned long long)used);
    if (n.mi_geo.upper != i.mi_geo.upper || n.mi_geo.lower != i.mi_geo.lower || n.mi_geo.current != i.mi_geo.current)
      vf_fail("geo-error", "mdbx_env_set_geometry failed (%d) and changed the geometry", rc);
    cnt("geo_refused");
  }
  check_geo("after set_geometry");
  if (!lv.empty())
    full_verify(T(), L().db, "after set_geometry", false);
  for (auto &x : rd)
    if (r.chance(50))
      full_verify(x.txn, x.db, "reader over a geometry change", false);
}
// the most pages any snapshot that is still in use may occupy
uint64_t Fuzz::upper_used() {
  MDBX_envinfo i;
  MUST(mdbx_env_info_ex(env, lv.empty() ? nullptr : T(), &i, sizeof i));
  struct stat st;
  if (stat(path.c_str(), &st))
    vf_harness_error("stat %s", path.c_str());
  return std::max<uint64_t>((i.mi_last_pgno + 1) * cfg.page, (uint64_t)st.st_size);
}

// the size limit was hit inside the write transaction T()
void Fuzz::note_map_full() {
  MDBX_txn_info ti;
  cnt("map_full");
  if (lv.size() != 1 || mdbx_txn_info(T(), &ti, false) != MDBX_SUCCESS)
    return; // the failed transaction may be unusable by now
  const uint64_t slack = cfg.page * 160; // the largest value takes 41
  if (!geo_in_txn && ti.txn_space_used + slack < ti.txn_space_limit_hard)
    vf_fail("map-full", "MDBX_MAP_FULL with %llu of %llu bytes used",
            (unsigned long long)ti.txn_space_used, (unsigned long long)ti.txn_space_limit_hard);
}

// after the failed transaction is gone: nothing of it remains, and work goes on
void Fuzz::after_full(int rc) {
  MDBX_txn *txn;
  MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &txn));
  full_verify(txn, committed, "after a full database", false);
  MUST(mdbx_txn_abort(txn));
  if (rc != MDBX_MAP_FULL)
    return;
  if (r.chance(50))
    audit_file("after a full database");
  AuditResult a = audit_path(path, false);
  if (!a.ok())
    vf_fail("audit", "after a full database: %s", a.err().c_str());
  const AuditMeta &m = a.metas[a.head];
  bool roomy = rd.empty() && m.upper - m.first_unalloc + a.gcpages > 200 && a.metas[a.head].steady();
  for (int tries = 0; tries < 4; ++tries) {
    unsigned t = (unsigned)r.below(sh.size());
    const TableM &tm = committed.r(sh[t].name);
    if (tm.rows.empty())
      continue;
    auto it = tm.rows.lower_bound(sh[t].key(r.below(sh[t].U)));
    if (it == tm.rows.end())
      it = tm.rows.begin();
    Bytes k = it->first;
    if (it->second.size() > 50)
      continue;
    MDBX_val kv = mv(k);
    int e = mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &txn);
    if (e == MDBX_UNABLE_EXTEND_MAPSIZE && geo_was_in_txn)
      break;
    if (e != MDBX_SUCCESS)
      vf_fail("begin", "mdbx_txn_begin -> %d %s", e, mdbx_strerror(e));
    e = mdbx_del(txn, sh[t].dbi, &kv, nullptr);
    if (e == MDBX_SUCCESS) {
      e = mdbx_txn_commit(txn);
      if (e == MDBX_SUCCESS) {
        committed.w(sh[t].name).del(k);
        cnt("deletes_after_full");
      }
    } else
      MUST(mdbx_txn_abort(txn));
    if (e != MDBX_SUCCESS && (e != MDBX_MAP_FULL || roomy))
      vf_fail("full-stuck", "a deletion in a full database -> %d (%u of %u pages used, %llu free)", e, m.first_unalloc, m.upper,
              (unsigned long long)a.gcpages);
  }
  if (r.chance(50)) {
    uint64_t up2 = upper_bound + cfg.page * (200 + r.below(1000));
    int e = mdbx_env_set_geometry(env, -1, -1, (intptr_t)up2, -1, -1, -1);
    if (e == MDBX_SUCCESS) {
      MDBX_envinfo n;
      MUST(mdbx_env_info_ex(env, nullptr, &n, sizeof n));
      upper_bound = std::max<uint64_t>(n.mi_geo.upper, geo_was_in_txn ? upper_bound : 0);
      cnt("raised_after_full");
    } else if (e != MDBX_UNABLE_EXTEND_MAPSIZE)
      vf_fail("geo-error", "raising the upper limit -> %d", e);
  }
}

void Fuzz::between() {
  if (r.chance(p.copy_pct))
    op_copy(false);
  if (r.chance(p.defrag_pct))
    op_defrag(false);
  if (r.chance(p.geo_pct))
    op_geo();
  if (r.chance(p.chk_pct))
    op_chk();
  if (p.geo_pct)
    check_geo("between transactions");
}
