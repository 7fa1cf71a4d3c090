// Damaged files. Every variant of a valid database file is opened and used by
// a child process; whatever the damage, calls have to return (C15), and the
// integrity check has to notice what an independent audit notices (C29).
#include "dbgen.h"
#include <signal.h>
#include <sys/resource.h>

static const char *volatile at = "";
static bool loud;
static uint8_t *map_lo, *map_hi;

static void put16(uint8_t *p, uint16_t v) { memcpy(p, &v, 2); }
static void put32(uint8_t *p, uint32_t v) { memcpy(p, &v, 4); }
static void put64(uint8_t *p, uint64_t v) { memcpy(p, &v, 8); }
static uint16_t get16(const uint8_t *p) { uint16_t v; memcpy(&v, p, 2); return v; }
static uint32_t get32(const uint8_t *p) { uint32_t v; memcpy(&v, p, 4); return v; }
static uint64_t get64(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }

struct Image {
  std::vector<uint8_t> b;
  size_t ps;
  std::string what;
};
static uint64_t odd(Rng &r, uint64_t v, unsigned bits) {
  static const uint64_t edge[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 20, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, ~0ull, 1ull << 63};
  uint64_t n;
  switch (r.below(6)) {
  case 0: n = edge[r.below(sizeof edge / sizeof *edge)]; break;
  case 1: n = v + 1; break;
  case 2: n = v - 1; break;
  case 3: n = v ^ (1ull << r.below(bits)); break;
  case 4: n = r.next() >> r.below(64); break;
  default: n = v + (uint64_t)r.range(-64, 64); break;
  }
  return bits == 64 ? n : n & ((1ull << bits) - 1);
}
static void mutate_tree(Rng &r, Image &m, uint8_t *p, const std::string &w, uint32_t used) {
  static const struct { int off, bits; const char *n; } f[] = {{0, 16, "flags"}, {2, 16, "height"}, {4, 32, "dupfix"}, {8, 32, "root"}, {12, 32, "branches"},
                                                              {16, 32, "leaves"}, {20, 32, "larges"}, {24, 64, "seq"}, {32, 64, "items"}, {40, 64, "mod"}};
  const auto &x = f[r.below(10)];
  uint64_t v = x.bits == 16 ? get16(p + x.off) : x.bits == 32 ? get32(p + x.off) : get64(p + x.off);
  uint64_t n = x.off == 8 && r.chance(60) ? r.below(used) : odd(r, v, (unsigned)x.bits);
  if (x.bits == 16) put16(p + x.off, (uint16_t)n);
  else if (x.bits == 32) put32(p + x.off, (uint32_t)n);
  else put64(p + x.off, n);
  m.what += strf(" %s.%s %llx->%llx", w.c_str(), x.n, (unsigned long long)v, (unsigned long long)n);
}
static void mutate_node_at(Rng &r, Image &m, uint8_t *pg, uint32_t pgno, size_t limit, uint32_t used, int depth);
// pg: page or sub-page header, limit: bytes up to the end of the page
static void mutate_page(Rng &r, Image &m, uint8_t *pg, uint32_t pgno, size_t limit, uint32_t used, int depth = 0) {
  const uint16_t fl = get16(pg + 10);
  const unsigned pick = (unsigned)r.below(100);
  if (pick < 30) { // header
    static const struct { int off, bits; const char *n; } f[] = {{0, 64, "txnid"}, {8, 16, "ksize"}, {10, 16, "flags"}, {12, 16, "lower"}, {14, 16, "upper"}, {12, 32, "pages"}, {16, 32, "pgno"}};
    const auto &x = f[r.below(7)];
    uint64_t v = x.bits == 16 ? get16(pg + x.off) : x.bits == 32 ? get32(pg + x.off) : get64(pg + x.off);
    uint64_t n = odd(r, v, (unsigned)x.bits);
    if (x.off == 10 && r.chance(60)) {
      static const uint16_t ff[] = {1, 2, 4, 8, 0x20, 0x22, 0x40, 0x42, 0x62, 0x4000, 0x8000, 0x10, 3, 6};
      n = ff[r.below(14)];
    }
    if (x.bits == 16) put16(pg + x.off, (uint16_t)n);
    else if (x.bits == 32) put32(pg + x.off, (uint32_t)n);
    else put64(pg + x.off, n);
    m.what += strf(" page%u%s.%s %llx->%llx", pgno, depth ? "/sub" : "", x.n, (unsigned long long)v, (unsigned long long)n);
    return;
  }
  if ((fl & 3) && !(fl & 0x24))
    return mutate_node_at(r, m, pg, pgno, limit, used, depth);
  // some byte inside
  size_t o = 20 + r.below(limit > 20 ? limit - 20 : 1);
  if (o < limit) {
    uint8_t was = pg[o];
    pg[o] = (uint8_t)odd(r, was, 8);
    m.what += strf(" page%u%s[%zu] %x->%x", pgno, depth ? "/sub" : "", o, was, pg[o]);
  }
}
static void mutate_node_at(Rng &r, Image &m, uint8_t *pg, uint32_t pgno, size_t limit, uint32_t used, int depth) {
  const uint16_t fl = get16(pg + 10), lower = get16(pg + 12);
  const unsigned n = lower / 2;
  if (!n || 20 + (size_t)lower > limit)
    return;
  const unsigned i = (unsigned)r.below(n), i2 = (unsigned)r.below(n);
  uint8_t *off = pg + 20 + i * 2;
  const std::string w = strf(" page%u%s#%u", pgno, depth ? "/sub" : "", i);
  if (r.chance(15)) { // entries of the table of offsets
    uint16_t v = get16(off), x = r.chance(50) ? get16(pg + 20 + i2 * 2) : (uint16_t)odd(r, v, 16);
    if (r.chance(40)) {
      uint16_t t = get16(pg + 20 + i2 * 2);
      put16(pg + 20 + i2 * 2, v);
      x = t;
    }
    put16(off, x);
    m.what += w + strf(".offset %x->%x", v, x);
    return;
  }
  const size_t no = (size_t)get16(off) + 20;
  if (no + 8 > limit)
    return;
  uint8_t *nd = pg + no;
  const uint16_t ks = get16(nd + 6);
  const uint8_t nf = nd[4];
  const unsigned pick = (unsigned)r.below(100);
  if (fl & 1) {
    if (pick < 50) {
      uint32_t v = get32(nd), x = r.chance(70) ? (uint32_t)r.below(used + 3) : (uint32_t)odd(r, v, 32);
      put32(nd, x);
      m.what += w + strf(".child %u->%u", v, x);
      return;
    }
  } else {
    if (pick < 20) {
      uint32_t v = get32(nd), x = (uint32_t)odd(r, v, 32);
      put32(nd, x);
      m.what += w + strf(".dsize %u->%u", v, x);
      return;
    }
    if (pick < 40) {
      uint8_t x = (uint8_t)(r.chance(70) ? r.below(8) : odd(r, nf, 8));
      nd[4] = x;
      m.what += w + strf(".nflags %x->%x", nf, x);
      return;
    }
    uint8_t *data = nd + 8 + ks;
    if (pick < 80 && (size_t)(data - pg) + 4 <= limit) {
      if ((nf & 7) == 1) {
        uint32_t v = get32(data), x = r.chance(60) ? (uint32_t)r.below(used + 3) : (uint32_t)odd(r, v, 32);
        put32(data, x);
        m.what += w + strf(".large %u->%u", v, x);
        return;
      }
      if ((nf & 2) && (size_t)(data - pg) + 48 <= limit)
        return mutate_tree(r, m, data, w, used);
      if ((nf & 6) == 4 && get32(nd) >= 20 && (size_t)(data - pg) + get32(nd) <= limit)
        return mutate_page(r, m, data, pgno, get32(nd), used, depth + 1);
      if (ks == 8 && get32(nd) >= 4 && (size_t)(data - pg) + get32(nd) <= limit) { // maybe a record of the free list
        const uint32_t cntr = get32(data);
        const unsigned e = r.chance(40) ? 0 : 1 + (unsigned)r.below(std::max<uint32_t>(1, std::min<uint32_t>(cntr, (uint32_t)(limit / 4))));
        if ((size_t)(data + e * 4 - pg) + 4 <= limit) {
          uint32_t v = get32(data + e * 4), x = r.chance(50) ? (uint32_t)r.below(used) : (uint32_t)odd(r, v, 32);
          put32(data + e * 4, x);
          m.what += w + strf(".word%u %u->%u", e, v, x);
          return;
        }
      }
    }
  }
  if (pick < 90) {
    uint16_t x = (uint16_t)odd(r, ks, 16);
    put16(nd + 6, x);
    m.what += w + strf(".ksize %u->%u", ks, x);
    return;
  }
  size_t o = no + r.below(std::max<size_t>(1, std::min<size_t>(limit - no, 16 + ks)));
  if (o < limit) {
    uint8_t was = pg[o];
    pg[o] = (uint8_t)odd(r, was, 8);
    m.what += w + strf("[%zu] %x->%x", o, was, pg[o]);
  }
}

static void mutate(Rng &r, Image &m, const AuditResult &base) {
  const AuditMeta &h = base.metas[base.head];
  const uint32_t used = h.first_unalloc;
  unsigned k = (unsigned)r.below(100);
  if (loud)
    k = 20 + k * 8 / 10;
  if (k < 8) { // truncated or extended
    size_t n = r.chance(40) ? r.below(m.b.size() + 1) : r.chance(50) ? m.ps * r.below(used + 2) : m.b.size() - std::min<size_t>(m.b.size(), r.below(64));
    m.b.resize(std::min(n, m.b.size()));
    m.what += strf(" truncate %zu", n);
    return;
  }
  if (k < 20) { // meta pages
    const unsigned i = (unsigned)r.below(3);
    const bool all = r.chance(50);
    static const struct { int off, bits; const char *n; } f[] = {{-20, 64, "txnid"}, {-10, 16, "flags"}, {-4, 32, "pgno"}, {0, 64, "magic"}, {8, 64, "txnid_a"}, {16, 16, "reserve"},
                                                                {18, 8, "validator"}, {19, 8, "extra"}, {20, 16, "grow"}, {22, 16, "shrink"}, {24, 32, "lower"}, {28, 32, "upper"}, {32, 32, "now"},
                                                                {36, 32, "next"}, {44, 32, "pagesize"}, {136, 64, "canary"}, {168, 64, "sign"}, {176, 64, "txnid_b"}, {184, 64, "retired"}, {192, 64, "bootid"}};
    const unsigned nf = sizeof f / sizeof *f;
    const unsigned x = (unsigned)r.below(nf + 8);
    const uint64_t s = r.next();
    for (unsigned j = 0; j < 3; ++j) {
      if (!all && j != i && j != (unsigned)base.head)
        continue;
      uint8_t *p = m.b.data() + j * m.ps + 20;
      Rng q(s);
      if (x >= nf)
        mutate_tree(q, m, p + (x & 1 ? 40 : 88), strf("meta%u.%s", j, x & 1 ? "gc" : "main"), used);
      else {
        p += f[x].off;
        uint64_t v = f[x].bits == 8 ? *p : f[x].bits == 16 ? get16(p) : f[x].bits == 32 ? get32(p) : get64(p), n = odd(q, v, (unsigned)f[x].bits);
        if (f[x].bits == 8) *p = (uint8_t)n;
        else if (f[x].bits == 16) put16(p, (uint16_t)n);
        else if (f[x].bits == 32) put32(p, (uint32_t)n);
        else put64(p, n);
        m.what += strf(" meta%u.%s %llx->%llx", j, f[x].n, (unsigned long long)v, (unsigned long long)n);
      }
    }
    return;
  }
  if (used <= 3)
    return;
  const uint32_t pg = 3 + (uint32_t)r.below(used - 3);
  if ((size_t)(pg + 1) * m.ps > m.b.size())
    return;
  uint8_t *p = m.b.data() + (size_t)pg * m.ps;
  if (k < 90)
    return mutate_page(r, m, p, pg, m.ps, used);
  if (k < 93) {
    uint32_t o = 3 + (uint32_t)r.below(used - 3);
    if ((size_t)(o + 1) * m.ps <= m.b.size()) {
      memcpy(p, m.b.data() + (size_t)o * m.ps, m.ps);
      if (r.chance(60))
        put32(p + 16, pg);
      m.what += strf(" copy page%u over page%u", o, pg);
    }
  } else if (k < 95) {
    memset(p, r.chance(50) ? 0 : 255, m.ps);
    m.what += strf(" wipe page%u", pg);
  } else if (k < 97) {
    for (size_t i = r.chance(50) ? 0 : 20; i < m.ps; ++i)
      p[i] = (uint8_t)r.next();
    m.what += strf(" noise page%u", pg);
  } else {
    for (unsigned i = 0, n = 1 + (unsigned)r.below(8); i < n; ++i) {
      size_t o = r.below(m.b.size());
      m.b[o] ^= (uint8_t)(1u << r.below(8));
      m.what += strf(" flip[%zu]", o);
    }
  }
}

// ------------------------------------------------------------------ the child
static uint64_t sink;
static bool touch(const MDBX_val &v, const char *where) {
  const uint8_t *p = (const uint8_t *)v.iov_base;
  if (v.iov_len && map_lo && (p < map_lo || p + v.iov_len > map_hi || p + v.iov_len < p))
    vf_fail("outside-of-file", "%s gave a range of %zu bytes that lies outside of the database file, %s", where, v.iov_len, vf.case_desc.c_str());
  for (size_t i = 0; i < v.iov_len; ++i)
    sink += p[i];
  return true;
}
static void find_map(const std::string &path) {
  map_lo = map_hi = nullptr;
  FILE *f = fopen("/proc/self/maps", "r");
  char line[600];
  struct stat st;
  if (!f || stat(path.c_str(), &st))
    return;
  while (fgets(line, sizeof line, f))
    if (strstr(line, path.c_str()) && !strstr(line, "-lck")) {
      unsigned long lo, hi, off;
      char prot[8];
      if (sscanf(line, "%lx-%lx %7s %lx", &lo, &hi, prot, &off) == 4 && off == 0) {
        map_lo = (uint8_t *)lo;
        map_hi = (uint8_t *)lo + st.st_size;
        break;
      }
    }
  fclose(f);
}
static uint64_t steps;
static void scan(MDBX_txn *txn, MDBX_dbi dbi, Rng &r) {
  MDBX_cursor *c;
  at = "cursor_open";
  if (mdbx_cursor_open(txn, dbi, &c))
    return;
  MDBX_val k, d;
  static const MDBX_cursor_op ops[] = {MDBX_FIRST, MDBX_LAST, MDBX_NEXT, MDBX_PREV, MDBX_NEXT_NODUP, MDBX_PREV_NODUP, MDBX_NEXT_DUP, MDBX_PREV_DUP, MDBX_FIRST_DUP,
                                       MDBX_LAST_DUP, MDBX_GET_CURRENT, MDBX_GET_MULTIPLE, MDBX_NEXT_MULTIPLE, MDBX_PREV_MULTIPLE};
  for (int dir = 0; dir < 2; ++dir) {
    at = dir ? "scan-back" : "scan";
    unsigned n = 0;
    int rc = mdbx_cursor_get(c, &k, &d, dir ? MDBX_LAST : MDBX_FIRST);
    while (rc == MDBX_SUCCESS && n++ < 20000) {
      touch(k, "scanning");
      touch(d, "scanning");
      ++steps;
      rc = mdbx_cursor_get(c, &k, &d, dir ? MDBX_PREV : MDBX_NEXT);
    }
  }
  std::vector<Bytes> keys;
  for (unsigned i = 0; i < 60; ++i) {
    MDBX_cursor_op op = ops[r.below(14)];
    at = "cursor_get";
    k = d = MDBX_val{nullptr, 0};
    int rc = mdbx_cursor_get(c, &k, &d, op);
    if (rc == MDBX_SUCCESS && op < MDBX_GET_MULTIPLE) {
      touch(k, "cursor_get");
      touch(d, "cursor_get");
      if (k.iov_len < 3000 && keys.size() < 20)
        keys.push_back(bs(k));
    }
    ++steps;
    size_t n;
    at = "cursor_count";
    (void)mdbx_cursor_count(c, &n);
    if (r.chance(20)) {
      at = "get_batch";
      MDBX_val pairs[16];
      if (mdbx_cursor_get_batch(c, &n, pairs, 16, r.chance(50) ? MDBX_FIRST : MDBX_NEXT) == MDBX_SUCCESS)
        for (size_t j = 0; j < n; ++j)
          touch(pairs[j], "get_batch");
    }
  }
  for (unsigned i = 0; i < 30; ++i) {
    Bytes q = keys.empty() || r.chance(20) ? Bytes(8, (char)r.next()) : keys[r.below(keys.size())];
    if (r.chance(30) && !q.empty())
      q[r.below(q.size())] ^= 1;
    MDBX_val qk = mv(q), qd = mv(q);
    at = "get";
    if (mdbx_get(txn, dbi, &qk, &d) == MDBX_SUCCESS)
      touch(d, "get");
    at = "get_equal_or_great";
    qk = mv(q);
    qd = mv(q);
    int rc = mdbx_get_equal_or_great(txn, dbi, &qk, &qd);
    if (rc == MDBX_SUCCESS || rc == MDBX_RESULT_TRUE) {
      touch(qk, "get_equal_or_great");
      touch(qd, "get_equal_or_great");
    }
    at = "seek";
    qk = mv(q);
    if (mdbx_cursor_get(c, &qk, &d, MDBX_SET_RANGE) == MDBX_SUCCESS) {
      touch(qk, "set_range");
      touch(d, "set_range");
    }
    MDBX_cursor *c2;
    if (mdbx_cursor_open(txn, dbi, &c2) == MDBX_SUCCESS) {
      at = "estimate/distance";
      ptrdiff_t dist;
      if (mdbx_cursor_get(c2, &k, &d, r.chance(50) ? MDBX_FIRST : MDBX_LAST) == MDBX_SUCCESS)
        (void)mdbx_estimate_distance(c, c2, &dist);
      mdbx_cursor_close(c2);
    }
    steps += 4;
  }
  mdbx_cursor_close(c);
}
static int each_table(void *ctx, const MDBX_txn *, const MDBX_val *name, MDBX_db_flags_t, const struct MDBX_stat *, MDBX_dbi) noexcept {
  auto *v = (std::vector<Bytes> *)ctx;
  touch(*name, "enumerate_tables");
  if (v->size() < 40)
    v->push_back(bs(*name));
  return MDBX_SUCCESS;
}
struct Note {
  uint64_t issues = 0;
};
static bool chk_break(MDBX_chk_context_t *) noexcept { return false; }
static void chk_issue(MDBX_chk_context_t *c, const char *, uint64_t, const char *, const char *, va_list) noexcept { ++((Note *)mdbx_env_get_userctx(c->env))->issues; }
static int check_env(MDBX_env *env, unsigned flags, uint64_t &problems) {
  MDBX_chk_callbacks_t cb;
  memset(&cb, 0, sizeof cb);
  cb.check_break = chk_break;
  cb.issue = chk_issue;
  MDBX_chk_context_t ctx;
  memset(&ctx, 0, sizeof ctx);
  Note n;
  mdbx_env_set_userctx(env, &n);
  at = "env_chk";
  int rc = mdbx_env_chk(env, &cb, &ctx, (MDBX_chk_flags_t)flags, MDBX_chk_result, 0);
  mdbx_env_set_userctx(env, nullptr);
  problems = ctx.result.total_problems + n.issues;
  return rc;
}

// exit status of the child: 0 opened, 1 open refused
static int use(const std::string &path, Rng &r, unsigned flags) {
  MDBX_env *env;
  MUST(mdbx_env_create(&env));
  MUST(mdbx_env_set_maxdbs(env, 50));
  at = "env_open";
  int rc = mdbx_env_open(env, path.c_str(), (MDBX_env_flags_t)(flags | MDBX_NOSUBDIR | MDBX_VALIDATION), 0644);
  if (rc) {
    mdbx_env_close(env);
    return 1;
  }
  find_map(path);
  MDBX_txn *txn;
  at = "txn_begin";
  rc = mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &txn);
  if (rc == MDBX_SUCCESS) {
    MDBX_envinfo info;
    MDBX_stat st;
    at = "info";
    (void)mdbx_env_info_ex(env, txn, &info, sizeof info);
    (void)mdbx_env_stat_ex(env, txn, &st, sizeof st);
    MDBX_canary can;
    (void)mdbx_canary_get(txn, &can);
    std::vector<Bytes> names;
    at = "enumerate_tables";
    (void)mdbx_enumerate_tables(txn, each_table, &names);
    MDBX_dbi dbi;
    at = "dbi_open(main)";
    if (mdbx_dbi_open(txn, nullptr, MDBX_DB_ACCEDE, &dbi) == MDBX_SUCCESS)
      scan(txn, dbi, r);
    for (auto &n : names) {
      MDBX_val nm = mv(n);
      at = "dbi_open";
      if (mdbx_dbi_open2(txn, &nm, MDBX_DB_ACCEDE, &dbi) == MDBX_SUCCESS) {
        at = "dbi_stat";
        (void)mdbx_dbi_stat(txn, dbi, &st, sizeof st);
        uint32_t mask;
        (void)mdbx_dbi_dupsort_depthmask(txn, dbi, &mask);
        scan(txn, dbi, r);
      }
    }
    at = "gc_info";
    MDBX_gc_info_t gi;
    memset(&gi, 0, sizeof gi);
    (void)mdbx_gc_info(txn, &gi, sizeof gi, nullptr, nullptr);
    at = "txn_abort";
    (void)mdbx_txn_abort(txn);
  }
  uint64_t problems;
  (void)check_env(env, (unsigned)r.below(4), problems);
  at = "env_copy";
  for (int i = 0; i < 2; ++i) {
    const std::string cp = path + ".copy";
    at = i ? "env_copy(compact)" : "env_copy";
    rc = mdbx_env_copy(env, cp.c_str(), (MDBX_copy_flags_t)(i ? MDBX_CP_COMPACT : 0));
    unlink(cp.c_str());
    unlink((cp + "-lck").c_str());
  }
  at = "env_close";
  (void)mdbx_env_close(env);
  return 0;
}
static int use_loud(const std::string &path, const AuditResult &a) {
  MDBX_env *env;
  MUST(mdbx_env_create(&env));
  MUST(mdbx_env_set_maxdbs(env, 50));
  at = "env_open";
  int rc = mdbx_env_open(env, path.c_str(), (MDBX_env_flags_t)(MDBX_RDONLY | MDBX_EXCLUSIVE | MDBX_NOSUBDIR | MDBX_VALIDATION), 0644);
  if (rc) {
    mdbx_env_close(env);
    return 1;
  }
  uint64_t problems;
  rc = check_env(env, 0, problems);
  (void)mdbx_env_close(env);
  if (rc == MDBX_SUCCESS && problems == 0) {
    // not what the check is expected to notice: the separators inside branch pages and the counters of
    // the trees of duplicates, spare room inside pages
    bool strong = false;
    std::string ks;
    for (auto &k : a.kinds) {
      ks += "|" + k;
      if (k.compare(0, 7, "nested ") && k.find("separator") == k.npos && k.find("parent bound") == k.npos &&
          k.find("nodes occupy") == k.npos && k.find("large value of %u bytes holds") == k.npos && k.find("empty tree of height") == k.npos)
        strong = true;
    }
    if (!strong) {
      cnt("quiet_on_weak");
      return 0;
    }
    if (args.num("all")) {
      printf("MISSED %s\n", ks.c_str());
      fflush(stdout);
      return 0;
    }
    vf_fail("damage-not-reported", "mdbx_env_chk reported no problem though: %s; %s", a.err().c_str(), vf.case_desc.c_str());
  }
  return 0;
}

int main(int argc, char **argv) {
  vf_init(argc, argv);
  loud = args.str("mode") == "C29";
  vf.prop = loud ? "C29" : "C15";
  const bool all = args.num("all");
  const uint64_t only = args.num("variant", ~0ull);
  const unsigned nv = (unsigned)args.num("variants", 40);
  std::map<std::string, unsigned> hist;
  for (uint64_t cs = args.num("first"), end = cs + args.num("n", 1); cs < end; ++cs) {
    vf_case(strf("case=%llu", (unsigned long long)cs));
    Rng r(mix64(args.num("seed", 1) * 1000003 + cs));
    GenDb g;
    GenOpt o;
    o.maxpage = 4096;
    o.seqs = true;
    const std::string dir = scratch_dir();
    g.path = dir + "/base.db";
    gen_build(r, g, o);
    cnt("cases");
    Image base;
    base.ps = g.cfg.page;
    if (!read_file(g.path, base.b))
      vf_harness_error("no base file");
    AuditResult ba = audit_image(base.b.data(), base.b.size(), true);
    if (!ba.ok())
      vf_fail("audit", "the undamaged database: %s", ba.err().c_str());
    for (uint64_t v = 0; v < nv; ++v) {
      Rng q(r.next());
      if (only != ~0ull && v != only)
        continue;
      Image m = base;
      m.what.clear();
      // one meta page is enough: the others may be made useless first
      for (unsigned i = 0, k = loud || q.chance(70) ? 1 : 1 + (unsigned)q.below(4); i < k; ++i)
        mutate(q, m, ba);
      if (m.b == base.b)
        continue;
      AuditResult ma;
      if (loud) {
        ma = audit_image(m.b.data(), m.b.size(), false);
        if (ma.ok()) {
          cnt("unnoticed_by_audit");
          continue;
        }
      }
      const std::string path = dir + "/v.db";
      FILE *f = fopen(path.c_str(), "wb");
      if (!f || fwrite(m.b.data(), 1, m.b.size(), f) != m.b.size() || fclose(f))
        vf_harness_error("cannot write %s", path.c_str());
      unlink((path + "-lck").c_str());
      unsigned flags = loud ? 0 : q.chance(60) ? MDBX_RDONLY | (q.chance(50) ? MDBX_EXCLUSIVE : 0) : (q.chance(50) ? MDBX_WRITEMAP : MDBX_SYNC_DURABLE);
      vf.case_desc = strf("case=%llu variant=%llu page=%zu open=0x%x%s", (unsigned long long)cs, (unsigned long long)v, g.cfg.page, flags, m.what.c_str());
      vf_sample(vf.case_desc);
      if (const char *keep = getenv("VF_KEEP")) {
        FILE *kf = fopen(keep, "wb");
        fwrite(m.b.data(), 1, m.b.size(), kf);
        fclose(kf);
      }
      fflush(stdout);
      struct Shared { const char *at; uint64_t steps; char fail[600]; };
      auto *sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      pid_t pid = args.num("nofork") ? 0 : fork();
      if (pid == 0) {
        alarm(all ? 20 : 60);
        struct rlimit lim = {768u << 20, 768u << 20}; // the scratch directory is memory
        setrlimit(RLIMIT_FSIZE, &lim);
        signal(SIGXFSZ, SIG_IGN);
        auto *t = new std::shared_ptr<void>();
        (void)t;
        // tell the parent where we are, whatever happens
        static Shared *gs;
        gs = sh;
        auto h = [](int s) {
          gs->at = at;
          signal(s, SIG_DFL);
          raise(s);
        };
        signal(SIGALRM, h);
        signal(SIGABRT, h);
#if !defined(__SANITIZE_ADDRESS__)
        signal(SIGSEGV, h);
        signal(SIGBUS, h);
        signal(SIGFPE, h);
#endif
        int rc = loud ? use_loud(path, ma) : use(path, q, flags);
        sh->steps = steps;
        _exit(args.num("nofork") ? rc : 40 + rc);
      }
      int st;
      waitpid(pid, &st, 0);
      if (WIFSIGNALED(st)) {
        const int s = WTERMSIG(st);
        const char *w = sh->at ? sh->at : "?";
        const std::string sig = strf("%s:%s", s == SIGALRM ? "hang" : s == SIGABRT ? "abort" : s == SIGBUS ? "sigbus" : "crash", w);
        if (all) {
          ++hist[sig];
          fprintf(stderr, "BAD %s %s\n", sig.c_str(), vf.case_desc.c_str());
        } else {
#if defined(__SANITIZE_ADDRESS__)
          if (s != SIGALRM)
            abort(); // the report of the sanitizer tells the rest
#endif
          vf_fail(sig.c_str(), "signal %d in %s; %s", s, w, vf.case_desc.c_str());
        }
      } else if (WEXITSTATUS(st) == 40 || WEXITSTATUS(st) == 41) {
        cnt(WEXITSTATUS(st) == 40 ? "opened" : "refused_at_open");
        cnt("calls", sh->steps);
        distinct(hash_bytes(m.b.data(), m.b.size()));
      } else {
        if (all) {
          ++hist["fail"];
        } else {
          // the child printed FAIL already
          fflush(stdout);
          _exit(1);
        }
      }
      munmap(sh, 4096);
    }
    unlink(g.path.c_str());
    unlink((g.path + "-lck").c_str());
  }
  for (auto &x : hist)
    printf("HIST %s %u\n", x.first.c_str(), x.second);
  scratch_drop();
  vf_finish();
}
