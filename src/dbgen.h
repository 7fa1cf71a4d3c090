// Builds a random database through the ordinary API and the model of it.
#pragma once
#include "audit.h"
#include "gen.h"
#include <functional>

struct GenDb {
  std::string path;
  EnvCfg cfg;
  std::vector<Shape> sh;
  DbM db;
  MDBX_env *env = nullptr;
};
struct GenOpt {
  unsigned tables = 4, txns = 5, ops = 60;
  int kinds = 3;
  size_t maxpage = 65536;
  bool mainrows = true; // plain rows in the main table too, sometimes
  bool seqs = false;
  bool mainonly = false;  // sometimes one table only, the main one
  std::function<Bytes(Rng &, unsigned)> namer;
  size_t vlimit = 60000;  // longest value
};
static inline void gen_open(GenDb &g, unsigned flags, bool create) {
  MUST(mdbx_env_create(&g.env));
  MUST(mdbx_env_set_maxdbs(g.env, 64));
  if (create)
    MUST(mdbx_env_set_geometry(g.env, 0, 0, std::max<intptr_t>((intptr_t)1 << 26, (intptr_t)g.cfg.page << 13), (intptr_t)g.cfg.page * 16,
                               (intptr_t)g.cfg.page * 32, (intptr_t)g.cfg.page));
  for (auto &o : g.cfg.opts)
    (void)mdbx_env_set_option(g.env, (MDBX_option_t)o.first, o.second);
  MUST(mdbx_env_open(g.env, g.path.c_str(), (MDBX_env_flags_t)(flags | MDBX_NOSUBDIR), 0644));
}
static inline void gen_handles(GenDb &g, MDBX_txn *txn, bool create) {
  for (auto &s : g.sh) {
    MDBX_val nm = mv(s.name);
    MUST(s.name.empty() ? mdbx_dbi_open(txn, nullptr, (MDBX_db_flags_t)(s.flags | (create ? MDBX_CREATE : 0)), &s.dbi)
                        : mdbx_dbi_open2(txn, &nm, (MDBX_db_flags_t)(s.flags | (create ? MDBX_CREATE : 0)), &s.dbi));
  }
}
// one transaction of random changes, mirrored in the model
static inline void gen_txn(Rng &r, GenDb &g, const GenOpt &o, MDBX_txn *txn, unsigned ops) {
  for (unsigned i = 0; i < ops; ++i) {
    const Shape &s = g.sh[r.below(g.sh.size())];
    TableM &m = g.db.w(s.name);
    if (r.chance(70) || m.rows.empty()) {
      unsigned burst = r.chance(10) ? (unsigned)r.range(5, 80) : 1;
      for (; burst; --burst) {
        const Bytes k = s.key(r.below(s.U));
        Bytes v = s.val(r);
        if (v.size() > o.vlimit)
          v.resize(o.vlimit);
        MDBX_val mk = mv(k), md = mv(v);
        MUST(mdbx_put(txn, s.dbi, &mk, &md, MDBX_UPSERT));
        m.put(k, v);
      }
    } else {
      unsigned burst = r.chance(10) ? (unsigned)r.range(5, 40) : 1;
      for (; burst && !m.rows.empty(); --burst) {
        auto it = m.rows.lower_bound(s.key(r.below(s.U)));
        if (it == m.rows.end())
          it = m.rows.begin();
        const Bytes k = it->first;
        MDBX_val mk = mv(k);
        if (m.dup() && r.chance(60)) {
          const Bytes v = it->second[r.below(it->second.size())];
          MDBX_val md = mv(v);
          MUST(mdbx_del(txn, s.dbi, &mk, &md));
          m.del(k, v);
        } else {
          MUST(mdbx_del(txn, s.dbi, &mk, nullptr));
          m.del(k);
        }
      }
    }
  }
}
static inline void gen_build(Rng &r, GenDb &g, const GenOpt &o) {
  do
    g.cfg = make_cfg(r);
  while (g.cfg.page > o.maxpage);
  g.cfg.opts.clear();
  g.cfg.flags &= MDBX_WRITEMAP | MDBX_LIFORECLAIM | MDBX_NOMEMINIT;
  g.sh.clear();
  g.db = DbM();
  unsigned n = 1 + (unsigned)r.below(o.tables);
  static const char *names[] = {"alpha", "b", "gamma-table", "d_4", "Zz", "t-0", "t-1", "tt"};
  const bool mainonly = o.mainonly && r.chance(20);
  if (mainonly)
    n = 1;
  for (unsigned i = 0; i < n; ++i) {
    Bytes nm = mainonly ? Bytes() : o.namer ? o.namer(r, i) : Bytes(names[i % 8]);
    if (g.db.t.count(nm))
      continue;
    g.sh.push_back(make_shape(r, o.kinds, g.cfg.page, nm));
    g.db.t[g.sh.back().name] = std::make_shared<TableM>(g.sh.back().flags);
  }
  if (o.mainrows && !mainonly && r.chance(30)) { // rows beside the records of the named tables
    Shape s = make_shape(r, 1, g.cfg.page, "");
    s.flags = 0;
    s.kcls = 1;
    g.sh.push_back(s);
    g.db.t[""] = std::make_shared<TableM>(0);
  }
  gen_open(g, g.cfg.flags | MDBX_UTTERLY_NOSYNC, true);
  const unsigned txns = 1 + (unsigned)r.below(o.txns);
  for (unsigned t = 0; t < txns; ++t) {
    MDBX_txn *txn;
    MUST(mdbx_txn_begin(g.env, nullptr, MDBX_TXN_READWRITE, &txn));
    gen_handles(g, txn, t == 0);
    gen_txn(r, g, o, txn, t ? o.ops : o.ops * 2);
    if (o.seqs)
      for (auto &s : g.sh)
        if (r.chance(40)) {
          uint64_t was, inc = r.chance(10) ? r.next() >> 2 : r.below(1000);
          if (mdbx_dbi_sequence(txn, s.dbi, &was, inc) == MDBX_SUCCESS && inc)
            g.db.w(s.name).seq = was + inc;
        }
    if (o.seqs && r.chance(30)) {
      MDBX_canary c = {r.next(), r.next() >> r.below(64), r.below(3), 0};
      MUST(mdbx_canary_put(txn, &c));
      MUST(mdbx_canary_get(txn, &g.db.canary));
    }
    MUST(mdbx_txn_commit(txn));
  }
  MUST(mdbx_env_close(g.env));
  g.env = nullptr;
}
