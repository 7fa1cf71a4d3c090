// C12: freed space is reused. A workload of constant live size runs by many
// small transactions; the used size of the file is watched through every
// phase: warm-up, steady state, behind a long/parked/reset reader or an
// unsynced state, and after the end of one. The independent audit looks for
// lost pages at the end, and long runs of pages are requested near the limit.
#include "audit.h"

static Rng r;
static MDBX_env *env;
static MDBX_dbi dbi[3];
static unsigned ntab, flags;
static size_t page, maxlarge;
static std::vector<std::map<uint32_t, uint32_t>> live; // key -> length, per table
static uint32_t universe, target;
static unsigned bigpct;

static Bytes value(uint32_t key, uint32_t len) {
  Bytes b(len, 0);
  uint64_t z = mix64(key * 7919ull + len);
  for (uint32_t i = 0; i < len; ++i)
    b[i] = (char)(z >> (i % 8 * 8)) + (char)(i >> 3);
  return b;
}
static uint32_t length() {
  if (r.below(100) < bigpct)
    return (uint32_t)(r.range(1, maxlarge) * page - 64 - r.below(page / 2));
  return (uint32_t)r.range(4, page / 6);
}
static void put(MDBX_txn *t, unsigned x, uint32_t key) {
  const uint32_t len = length();
  const Bytes v = value(key, len);
  char kb[16];
  const int kn = snprintf(kb, sizeof kb, "%08x", (unsigned)mix64(key));
  MDBX_val k = {kb, (size_t)kn}, d = mv(v);
  int rc = mdbx_put(t, dbi[x], &k, &d, MDBX_UPSERT);
  if (rc)
    vf_fail("put-failed", "%d (%s) for %u bytes; %s", rc, mdbx_strerror(rc), len, vf.case_desc.c_str());
  live[x][key] = len;
}
static void del(MDBX_txn *t, unsigned x, uint32_t key) {
  char kb[16];
  const int kn = snprintf(kb, sizeof kb, "%08x", (unsigned)mix64(key));
  MDBX_val k = {kb, (size_t)kn};
  MUST(mdbx_del(t, dbi[x], &k, nullptr));
  live[x].erase(key);
}
struct State {
  uint64_t used, livepages;
};
static State state(MDBX_txn *t) {
  MDBX_envinfo i;
  MUST(mdbx_env_info_ex(env, t, &i, sizeof i));
  State s{i.mi_last_pgno + 1, 3};
  for (unsigned x = 0; x < 2 + ntab; ++x) {
    MDBX_stat st;
    MUST(mdbx_dbi_stat(t, x < 2 ? x : dbi[x - 2], &st, sizeof st));
    s.livepages += st.ms_branch_pages + st.ms_leaf_pages + st.ms_overflow_pages;
  }
  return s;
}
static unsigned churn; // replacements in a transaction, at most
static State step() {
  MDBX_txn *t;
  MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t));
  MDBX_txn *top = t;
  const bool nest = !(flags & MDBX_WRITEMAP) && r.chance(8);
  const unsigned x = (unsigned)r.below(ntab);
  auto saved = live;
  if (nest)
    MUST(mdbx_txn_begin(env, top, MDBX_TXN_READWRITE, &t));
  for (unsigned n = 1 + (unsigned)r.below(churn); n; --n) {
    auto it = live[x].lower_bound((uint32_t)r.below(universe));
    if (it == live[x].end())
      it = live[x].begin();
    if (r.chance(50))
      put(t, x, it->first);
    else {
      del(t, x, it->first);
      uint32_t k;
      do
        k = (uint32_t)r.below(universe);
      while (live[x].count(k));
      put(t, x, k);
    }
  }
  const bool undo = r.chance(4);
  if (nest) {
    if (undo) {
      MUST(mdbx_txn_abort(t));
      live = saved;
    } else
      MUST(mdbx_txn_commit(t));
    t = top;
  }
  if (undo && !nest) {
    MUST(mdbx_txn_abort(t));
    live = saved;
    cnt("aborted");
  } else {
    int rc = mdbx_txn_commit(t);
    if (rc && rc != MDBX_RESULT_TRUE)
      vf_fail("commit-failed", "%d (%s); %s", rc, mdbx_strerror(rc), vf.case_desc.c_str());
  }
  cnt("txns");
  MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t));
  const State s = state(t);
  MUST(mdbx_txn_abort(t));
  return s;
}
static State run(unsigned n, bool sync = true) {
  State peak{0, 0};
  for (unsigned i = 0; i < n; ++i) {
    State s = step();
    if (sync && (flags & MDBX_SAFE_NOSYNC) && i % 5 == 4)
      (void)mdbx_env_sync_ex(env, true, false);
    peak.used = std::max(peak.used, s.used), peak.livepages = std::max(peak.livepages, s.livepages);
  }
  return peak;
}
static uint64_t max_share; // for calibration
static void bounded(const char *what, const State &base, const State &now, uint64_t part) {
  const uint64_t more = now.livepages > base.livepages ? now.livepages - base.livepages : 0;
  const uint64_t allow = base.used + std::max(base.used / part, part > 20 ? 12 + 2 * (uint64_t)maxlarge : 48 + 6 * (uint64_t)maxlarge) + 2 * more;
  const uint64_t pm = now.used > base.used ? (now.used - base.used) * 1000 / (allow - base.used) : 0;
  if (getenv("VF_CAL"))
    printf("CAL %s %llu\n", what, (unsigned long long)pm);
  max_share = std::max(max_share, pm);
  vf_log("%s: used %llu -> %llu, live %llu -> %llu, allowed %llu", what, (unsigned long long)base.used, (unsigned long long)now.used,
         (unsigned long long)base.livepages, (unsigned long long)now.livepages, (unsigned long long)allow);
  if (now.used > allow)
    vf_fail("growth", "%s: used pages grew from %llu to %llu (live %llu -> %llu), allowed %llu; %s", what, (unsigned long long)base.used,
            (unsigned long long)now.used, (unsigned long long)base.livepages, (unsigned long long)now.livepages, (unsigned long long)allow,
            vf.case_desc.c_str());
  cnt("phases");
}

static void check_contents() {
  MDBX_txn *t;
  MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t));
  for (unsigned x = 0; x < ntab; ++x) {
    for (auto &e : live[x]) {
      char kb[16];
      const int kn = snprintf(kb, sizeof kb, "%08x", (unsigned)mix64(e.first));
      MDBX_val k = {kb, (size_t)kn}, d;
      int rc = mdbx_get(t, dbi[x], &k, &d);
      if (rc || !eqv(d, value(e.first, e.second)))
        vf_fail("wrong-contents", "table %u key %u: %d; %s", x, e.first, rc, vf.case_desc.c_str());
    }
    MDBX_stat st;
    MUST(mdbx_dbi_stat(t, dbi[x], &st, sizeof st));
    if (st.ms_entries != live[x].size())
      vf_fail("wrong-contents", "table %u: %llu items instead of %zu; %s", x, (unsigned long long)st.ms_entries, live[x].size(), vf.case_desc.c_str());
  }
  MUST(mdbx_txn_abort(t));
}

static uint64_t used_now(MDBX_txn *t) {
  MDBX_envinfo i;
  MUST(mdbx_env_info_ex(env, t, &i, sizeof i));
  return i.mi_last_pgno + 1;
}

// long runs of pages: recycled or fresh, but no failure while there is room below the limit
static void long_runs() {
  MDBX_envinfo i;
  MUST(mdbx_env_info_ex(env, nullptr, &i, sizeof i));
  const uint64_t used0 = used_now(nullptr), room = r.range(40, 400);
  MUST(mdbx_env_set_geometry(env, -1, -1, (intptr_t)((used0 + room + 64) * page), -1, -1, -1));
  MUST(mdbx_env_info_ex(env, nullptr, &i, sizeof i));
  const uint64_t limit = i.mi_geo.upper / page;
  uint64_t peak = 0;
  for (unsigned n = 0; n < 24; ++n) {
    const uint64_t used = used_now(nullptr);
    if (used + 48 >= limit)
      break;
    const uint64_t want = 1 + r.below(r.chance(30) ? limit - used - 40 : std::min<uint64_t>(limit - used - 40, 24));
    Bytes v(want * page - page / 2, (char)n);
    MDBX_txn *t;
    MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t));
    MDBX_val k = mv("long"), d = mv(v);
    int rc = mdbx_put(t, dbi[0], &k, &d, MDBX_UPSERT);
    if (rc)
      vf_fail("long-value-refused", "%llu pages: %d (%s), used %llu of %llu; %s", (unsigned long long)want, rc, mdbx_strerror(rc), (unsigned long long)used,
              (unsigned long long)limit, vf.case_desc.c_str());
    rc = mdbx_txn_commit(t);
    if (rc)
      vf_fail("long-value-refused", "commit with %llu pages: %d, used %llu of %llu; %s", (unsigned long long)want, rc, (unsigned long long)used,
              (unsigned long long)limit, vf.case_desc.c_str());
    MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t));
    MUST(mdbx_get(t, dbi[0], &k, &d));
    if (!eqv(d, v))
      vf_fail("wrong-contents", "a value of %llu pages; %s", (unsigned long long)want, vf.case_desc.c_str());
    MUST(mdbx_del(t, dbi[0], &k, nullptr));
    MUST(mdbx_txn_commit(t));
    peak = std::max(peak, used_now(nullptr));
    cnt("long_values");
    if (flags & MDBX_SAFE_NOSYNC)
      (void)mdbx_env_sync_ex(env, true, false);
    churn = 1 + (unsigned)r.below(4);
  }
  vf_log("long runs: used %llu .. %llu of %llu", (unsigned long long)used0, (unsigned long long)peak, (unsigned long long)limit);
}

static void one_case(uint64_t seed, uint64_t cs) {
  r = Rng(mix64(seed * 1000003 + cs));
  page = (size_t)512 << r.below(5);
  ntab = 1 + (unsigned)r.below(3);
  maxlarge = r.chance(50) ? 1 + r.below(12) : 1 + r.below(3);
  bigpct = r.chance(30) ? 0 : (unsigned)r.range(1, 12);
  target = (uint32_t)r.range(60, 700);
  universe = target * (2 + (uint32_t)r.below(3));
  churn = (unsigned)r.range(1, std::max(2u, target / 8));
  static const unsigned modes[] = {MDBX_SYNC_DURABLE, MDBX_SYNC_DURABLE, MDBX_NOMETASYNC, MDBX_SAFE_NOSYNC, MDBX_UTTERLY_NOSYNC};
  flags = modes[r.below(5)] | (r.chance(35) ? MDBX_WRITEMAP : 0) | (r.chance(45) ? MDBX_LIFORECLAIM : 0);
  const Bytes path = scratch_dir() + "/s.db";
  vf_case(strf("case=%llu page=%zu flags=%x tables=%u items=%u churn=%u big=%u%%*%zu", (unsigned long long)cs, page, flags, ntab, target, churn, bigpct, maxlarge));
  MUST(mdbx_env_create(&env));
  MUST(mdbx_env_set_maxdbs(env, 8));
  MUST(mdbx_env_set_geometry(env, (intptr_t)(page * 16), -1, (intptr_t)std::max<size_t>(64 << 20, page << 14), (intptr_t)(page * r.range(1, 64)),
                             (intptr_t)(page * 256), (intptr_t)page));
  if (r.chance(30))
    MUST(mdbx_env_set_option(env, MDBX_opt_rp_augment_limit, r.range(64, 4096)));
  if (r.chance(30))
    MUST(mdbx_env_set_option(env, MDBX_opt_loose_limit, r.below(40)));
  if (r.chance(20))
    MUST(mdbx_env_set_option(env, MDBX_opt_dp_reserve_limit, r.below(200)));
  MUST(mdbx_env_open(env, path.c_str(), (MDBX_env_flags_t)(flags | MDBX_NOSUBDIR | MDBX_NOSTICKYTHREADS), 0644));
  live.assign(ntab, {});
  MDBX_txn *t;
  MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t));
  for (unsigned x = 0; x < ntab; ++x) {
    MUST(mdbx_dbi_open(t, strf("t%u", x).c_str(), MDBX_CREATE, &dbi[x]));
    while (live[x].size() < target)
      put(t, x, (uint32_t)r.below(universe));
  }
  MUST(mdbx_txn_commit(t));
  run(100 + std::min(1200u, 6 * ntab * target / churn)); // every item replaced some times
  State base = run(60);
  uint64_t sig = base.used;
  if (args.num("watch"))
    for (int i = 0; i < 30; ++i) {
      State q = run(100);
      printf("WATCH %llu %llu\n", (unsigned long long)q.used, (unsigned long long)q.livepages);
    }
  bounded("steady", base, run(200), 3);
  for (unsigned phase = 0; phase < 3; ++phase) {
    const unsigned kind = (unsigned)r.below(5);
    base = run(10);
    if (kind < 3) { // a reader: long, reset, or parked
      MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t));
      const State before = state(t);
      if (kind == 1)
        MUST(mdbx_txn_reset(t));
      if (kind == 2)
        MUST(mdbx_txn_park(t, r.chance(50)));
      State p = run((unsigned)r.range(20, 120));
      if (kind)
        bounded(kind == 1 ? "behind a reset reader" : "behind a parked reader", base, p, kind == 1 ? 6 : 2);
      if (kind == 0) {
        MDBX_txn_info ti;
        MUST(mdbx_txn_info(t, &ti, true));
        if (used_now(t) != before.used)
          vf_fail("reader-moved", "used pages of a snapshot changed from %llu to %llu; %s", (unsigned long long)before.used, (unsigned long long)used_now(t), vf.case_desc.c_str());
        cnt("held");
      }
      MUST(mdbx_txn_abort(t));
      if (kind == 0) {
        const State after = run(8); // what is retired has to pass through the list of freed pages
        State base2{std::max(p.used, after.used), after.livepages};
        base2.used = p.used;
        bounded("just after a long reader", base2, after, 32);
        bounded("after a long reader", base2, run(80), 32);
      }
    } else if (kind == 3 && (flags & MDBX_SAFE_NOSYNC)) {
      State p = run((unsigned)r.range(20, 120), false);
      (void)mdbx_env_sync_ex(env, true, false);
      run(3);
      State base2{p.used, base.livepages};
      bounded("after an unsynced state", base2, run(80), 8);
      cnt("unsynced");
    } else { // reopened
      MUST(mdbx_env_close(env));
      MUST(mdbx_env_create(&env));
      MUST(mdbx_env_set_maxdbs(env, 8));
      MUST(mdbx_env_open(env, path.c_str(), (MDBX_env_flags_t)(flags | MDBX_NOSUBDIR | MDBX_NOSTICKYTHREADS), 0644));
      MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t));
      for (unsigned x = 0; x < ntab; ++x)
        MUST(mdbx_dbi_open(t, strf("t%u", x).c_str(), MDBX_DB_DEFAULTS, &dbi[x]));
      MUST(mdbx_txn_commit(t));
      bounded("after reopening", base, run(60), 6);
      cnt("reopened");
    }
    sig = mix64(sig ^ kind ^ used_now(nullptr) << 8);
  }
  check_contents();
  long_runs();
  check_contents();
  MUST(mdbx_env_close(env));
  AuditResult a = audit_path(path, false);
  if (!a.ok())
    vf_fail("audit", "%s; %s", a.err().c_str(), vf.case_desc.c_str());
  cnt("cases");
  cnt("max_share_of_allowance_pm", 0);
  vf.counts["max_share_of_allowance_pm"] = std::max(vf.counts["max_share_of_allowance_pm"], max_share);
  distinct(sig);
  vf_sample(vf.case_desc);
}

int main(int argc, char **argv) {
  vf.prop = "C12";
  vf_init(argc, argv);
  const uint64_t seed = args.num("seed", 1), first = args.num("first", 0), n = args.num("n", 1);
  for (uint64_t c = first; c < first + n; ++c) {
    one_case(seed, c);
    scratch_drop();
  }
  vf_finish();
}
