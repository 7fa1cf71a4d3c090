#include "fuzz.h"

static const char *op_name(MDBX_cursor_op op) {
  static const char *n[] = {"FIRST", "FIRST_DUP", "GET_BOTH", "GET_BOTH_RANGE", "GET_CURRENT", "GET_MULTIPLE", "LAST",
                            "LAST_DUP", "NEXT", "NEXT_DUP", "NEXT_MULTIPLE", "NEXT_NODUP", "PREV", "PREV_DUP",
                            "PREV_NODUP", "SET", "SET_KEY", "SET_RANGE", "PREV_MULTIPLE", "SET_LOWERBOUND",
                            "SET_UPPERBOUND", "TO_KEY_LT", "TO_KEY_LE", "TO_KEY_EQ", "TO_KEY_GE", "TO_KEY_GT",
                            "TO_EXACT_LT", "TO_EXACT_LE", "TO_EXACT_EQ", "TO_EXACT_GE", "TO_EXACT_GT", "TO_PAIR_LT",
                            "TO_PAIR_LE", "TO_PAIR_EQ", "TO_PAIR_GE", "TO_PAIR_GT", "SEEK_AND_GET_MULTIPLE"};
  return (size_t)op < sizeof n / sizeof *n ? n[op] : "?";
}

// ---------------------------------------------------------------- environment
void Fuzz::open_env(bool create) {
  MUST(mdbx_env_create(&env));
  MUST(mdbx_env_set_maxdbs(env, 40));
  MUST(mdbx_env_set_option(env, MDBX_opt_max_readers, 60));
  if (create) {
    if (p.geo_pct) {
      Rng g(case_seed ^ 0x6E0);
      const intptr_t ps = (intptr_t)cfg.page;
      intptr_t hi = std::max<intptr_t>(ps * g.range(g.chance(50) ? 160 : 400, g.chance(50) ? 900 : 5000), 131072);
      MUST(mdbx_env_set_geometry(env, g.chance(50) ? 0 : hi / g.range(2, 9), g.chance(50) ? -1 : hi / g.range(1, 9), hi,
                                 g.chance(30) ? -1 : ps * g.range(1, 60), g.chance(30) ? -1 : ps * g.range(0, 120), ps));
      upper_bound = ((uint64_t)hi + 131071) & ~(uint64_t)65535;
    } else
      MUST(mdbx_env_set_geometry(env, 0, 0, std::max<intptr_t>((intptr_t)1 << 28, (intptr_t)cfg.page << 15), (intptr_t)std::max<size_t>(cfg.page * 16, 65536),
                               (intptr_t)std::max<size_t>(cfg.page * 32, 131072), (intptr_t)cfg.page));
  }
  for (auto &o : cfg.opts) {
    int rc = mdbx_env_set_option(env, (MDBX_option_t)o.first, o.second);
    if (rc != MDBX_SUCCESS && rc != MDBX_EINVAL && rc != MDBX_EPERM)
      vf_fail("set-option", "mdbx_env_set_option(%d, %llu) -> %d", o.first, (unsigned long long)o.second, rc);
  }
  unsigned f = cfg.flags | MDBX_NOSUBDIR | MDBX_NOSTICKYTHREADS;
  int rc = mdbx_env_open(env, path.c_str(), (MDBX_env_flags_t)f, 0644);
  if (rc != MDBX_SUCCESS)
    vf_fail("open", "mdbx_env_open(flags 0x%x) -> %d %s", f, rc, mdbx_strerror(rc));
}
void Fuzz::close_env() {
  geo_was_in_txn = false;
  cache.clear(); // offsets are meaningful within one environment only
  MUST(mdbx_env_close(env));
  env = nullptr;
}
void Fuzz::open_tables(bool create) {
  MDBX_txn *txn;
  MUST(mdbx_txn_begin(env, nullptr, create ? MDBX_TXN_READWRITE : MDBX_TXN_RDONLY, &txn));
  for (auto &s : sh) {
    MDBX_val nm = mv(s.name);
    int rc = s.name.empty()
                 ? mdbx_dbi_open(txn, nullptr, (MDBX_db_flags_t)(s.flags | (create ? MDBX_CREATE : 0)), &s.dbi)
                 : mdbx_dbi_open2(txn, &nm, (MDBX_db_flags_t)(s.flags | (create ? MDBX_CREATE : 0)), &s.dbi);
    if (rc != MDBX_SUCCESS)
      vf_fail("dbi-open", "dbi_open(%s, 0x%x, create=%d) -> %d", hexs(s.name).c_str(), s.flags, create, rc);
    if (create)
      committed.t[s.name] = std::make_shared<TableM>(s.flags);
  }
  MUST(create ? mdbx_txn_commit(txn) : mdbx_txn_abort(txn));
}

// --------------------------------------------------------------- verification
void verify_table(MDBX_txn *txn, MDBX_dbi dbi, const TableM &m, const char *why, bool backward) {
  MDBX_stat st;
  MUST(mdbx_dbi_stat(txn, dbi, &st, sizeof st));
  if (st.ms_entries != m.items)
    vf_fail("entry-count", "%s: dbi %u reports %llu entries, model has %llu", why, dbi,
            (unsigned long long)st.ms_entries, (unsigned long long)m.items);
  MDBX_cursor *c;
  MUST(mdbx_cursor_open(txn, dbi, &c));
  MDBX_val k, v;
  int rc = mdbx_cursor_get(c, &k, &v, backward ? MDBX_LAST : MDBX_FIRST);
  uint64_t n = 0;
  auto bad = [&](const Bytes &wk, const Bytes &wv) {
    vf_fail(backward ? "scan-backward" : "scan-forward", "%s: dbi %u item %llu of %llu: rc %d got %s=%s want %s=%s", why,
            dbi, (unsigned long long)n, (unsigned long long)m.items, rc,
            rc == MDBX_SUCCESS ? hexs(k).c_str() : "-", rc == MDBX_SUCCESS ? hexs(v).c_str() : "-", hexs(wk).c_str(),
            hexs(wv).c_str());
  };
  if (!backward) {
    for (auto &row : m.rows)
      for (auto &x : row.second) {
        if (rc != MDBX_SUCCESS || !eqv(k, row.first) || !eqv(v, x))
          bad(row.first, x);
        ++n;
        rc = mdbx_cursor_get(c, &k, &v, MDBX_NEXT);
      }
  } else {
    for (auto row = m.rows.rbegin(); row != m.rows.rend(); ++row)
      for (auto x = row->second.rbegin(); x != row->second.rend(); ++x) {
        if (rc != MDBX_SUCCESS || !eqv(k, row->first) || !eqv(v, *x))
          bad(row->first, *x);
        ++n;
        rc = mdbx_cursor_get(c, &k, &v, MDBX_PREV);
      }
  }
  if (rc != MDBX_NOTFOUND)
    vf_fail("scan-end", "%s: dbi %u: after %llu items rc %d instead of MDBX_NOTFOUND", why, dbi, (unsigned long long)n,
            rc);
  mdbx_cursor_close(c);
  cnt("pairs_scanned", n);
}
void Fuzz::full_verify(MDBX_txn *txn, const DbM &db, const char *why, bool deep) {
  for (auto &s : sh) {
    const TableM &m = db.r(s.name);
    verify_table(txn, s.dbi, m, why, false);
    if (deep)
      verify_table(txn, s.dbi, m, why, true);
    // point lookups: present and absent keys
    for (int i = 0; i < 6; ++i) {
      Bytes kk = s.key(r.below(s.U));
      MDBX_val k = mv(kk), v;
      int rc = mdbx_get(txn, s.dbi, &k, &v);
      auto it = m.rows.find(kk);
      if (it == m.rows.end() ? rc != MDBX_NOTFOUND : rc != MDBX_SUCCESS || !eqv(v, it->second[0]))
        vf_fail("get", "%s: get %s -> %d", why, hexs(kk).c_str(), rc);
    }
  }
  cnt("full_verifies");
}
void Fuzz::audit_file(const char *why) {
  AuditResult a = audit_path(path, true);
  if (!a.ok())
    vf_fail("audit", "%s: %s", why, a.err().c_str());
  std::string d = db_diff(a.tables, committed);
  if (!d.empty())
    vf_fail("audit-contents", "%s: on-disk contents differ: %s", why, d.c_str());
  cnt("audits");
  cnt("audited_pages", a.metas[a.head].first_unalloc);
  cnt("audited_gc_pages", a.gcpages);
  cnt("audited_nested_trees", a.nested);
  cnt("audited_subpages", a.subpages);
  cnt("audited_large_pages", a.large);
  if (vf.counts["max_height"] < a.maxheight)
    vf.counts["max_height"] = a.maxheight;
}

// -------------------------------------------------------------- key selection
bool Fuzz::rnd_pos(unsigned t, Pos &pos) {
  const TableM &m = tab(t);
  if (m.rows.empty())
    return false;
  auto it = m.rows.lower_bound(sh[t].key(r.below(sh[t].U)));
  unsigned w = (unsigned)r.below(20);
  if (w == 0)
    it = m.rows.begin();
  if (it == m.rows.end() || w == 1)
    it = std::prev(m.rows.end());
  pos.it = it;
  pos.i = r.chance(25) ? 0 : r.chance(25) ? it->second.size() - 1 : r.below(it->second.size());
  return true;
}
Bytes Fuzz::pick_key(unsigned t) {
  const Shape &s = sh[t];
  Pos pos;
  unsigned w = (unsigned)r.below(100);
  if (w < 35 && rnd_pos(t, pos))
    return pos.it->first;
  switch (keymode) {
  case 1: // ascending
    seq_id = (seq_id + 1) % s.U;
    return s.key(seq_id);
  case 2:
    seq_id = (seq_id + s.U - 1) % s.U;
    return s.key(seq_id);
  case 3: // hot range
    return s.key((seq_id + r.below(8)) % s.U);
  default:
    return s.key(r.below(s.U));
  }
}
Bytes Fuzz::pick_val(unsigned t, const Bytes &k) {
  const TableM &m = tab(t);
  if (m.dup() && r.chance(20)) {
    auto it = m.rows.find(k);
    if (it != m.rows.end())
      return it->second[r.below(it->second.size())];
  }
  return sh[t].val(r);
}

// -------------------------------------------------- cursor entry bookkeeping
void Fuzz::note_del_pair(unsigned t, const Bytes &k, const Bytes &v, MCur *self) {
  const TableM &m = tab(t);
  for (auto &c : cur)
    if (&c != self && c.t == t && (c.st == C_AT || c.st == C_DELETED) && m.rows.key_comp().f(c.k, k) == 0 &&
        (!m.dup() || m.vcmp(c.v, v) == 0))
      c.st = C_LOST;
}
void Fuzz::note_del_key(unsigned t, const Bytes &k, MCur *self) {
  const TableM &m = tab(t);
  for (auto &c : cur)
    if (&c != self && c.t == t && (c.st == C_AT || c.st == C_DELETED) && m.rows.key_comp().f(c.k, k) == 0)
      c.st = C_LOST;
}
// a cursor whose meaning depends on neighbours (after-delete, past-the-end)
// keeps it only until the table is modified by something else
void weaken(std::vector<MCur> &cur, unsigned t, MCur *self) {
  for (auto &c : cur)
    if (&c != self && c.t == t) {
      if (c.st == C_EOF || c.st == C_HOLLOW || c.st == C_DELETED)
        c.st = C_LOST;
      c.at_brim = false;
    }
}

bool locate(const TableM &m, const MCur &c, Pos &p) {
  p.it = m.rows.find(c.k);
  if (p.it == m.rows.end())
    return false;
  if (!m.dup()) {
    p.i = 0;
    return true;
  }
  p.i = m.vlower(p.it->second, c.v);
  return p.i < p.it->second.size() && m.vcmp(p.it->second[p.i], c.v) == 0;
}
void set_at(MCur &c, const Pos &p) {
  c.st = C_AT;
  c.k = p.it->first;
  c.v = p.it->second[p.i];
  c.at_brim = false;
}
// first position >= (k,v)
bool lower_pos(const TableM &m, const Bytes &k, const Bytes &v, Pos &p) {
  p.it = m.rows.lower_bound(k);
  if (p.it == m.rows.end())
    return false;
  p.i = 0;
  if (m.dup() && m.rows.key_comp().f(p.it->first, k) == 0) {
    p.i = m.vlower(p.it->second, v);
    if (p.i >= p.it->second.size()) {
      ++p.it;
      p.i = 0;
      return p.it != m.rows.end();
    }
  }
  return true;
}

struct Exp { // expectation of a cursor operation
  int rc = MDBX_SUCCESS;
  int rc2 = 1; // alternative accepted code, 1 = none
  Pos p{};
  bool has = false; // p is the resulting position
  CState fail_state = C_LOST;
  bool keep = false; // on failure the cursor keeps its place
};

static Exp expect_cget(const TableM &m, MCur &c, MDBX_cursor_op op, const Bytes *k, const Bytes *v) {
  Exp e;
  auto kc = m.rows.key_comp().f;
  auto at = [&](const Pos &p) {
    e.p = p;
    e.has = true;
    e.rc = MDBX_SUCCESS;
  };
  auto fail = [&](int rc, CState s, bool keep = false) {
    e.rc = rc;
    e.fail_state = s;
    e.keep = keep;
  };
  auto first = [&] {
    if (m.rows.empty())
      fail(MDBX_NOTFOUND, C_LOST);
    else
      at(Pos{m.rows.begin(), 0});
  };
  auto last = [&] {
    if (m.rows.empty())
      fail(MDBX_NOTFOUND, C_LOST);
    else {
      auto it = std::prev(m.rows.end());
      at(Pos{it, it->second.size() - 1});
    }
  };
  Pos p{};
  auto samekey = [&](const Pos &a, const Bytes &b) { return kc(a.it->first, b) == 0; };
  switch (op) {
  case MDBX_FIRST:
    first();
    return e;
  case MDBX_LAST:
    last();
    return e;
  case MDBX_GET_CURRENT:
    if (c.st == C_AT && locate(m, c, p))
      at(p);
    else if (c.st == C_DELETED) {
      if (lower_pos(m, c.k, c.v, p))
        at(p);
      else {
        fail(MDBX_NOTFOUND, C_LOST);
        e.rc2 = MDBX_ENODATA;
      }
    } else {
      fail(MDBX_ENODATA, c.st);
      e.rc2 = MDBX_NOTFOUND;
      e.keep = true;
    }
    return e;
  case MDBX_FIRST_DUP:
  case MDBX_LAST_DUP:
    if (c.st == C_AT && locate(m, c, p)) {
      p.i = op == MDBX_FIRST_DUP ? 0 : p.it->second.size() - 1;
      at(p);
    } else {
      fail(MDBX_ENODATA, c.st, true);
      e.rc2 = MDBX_NOTFOUND;
    }
    return e;
  case MDBX_NEXT:
  case MDBX_NEXT_DUP:
  case MDBX_NEXT_NODUP:
    if (c.st == C_FRESH)
      first();
    else if (c.st == C_AT && locate(m, c, p)) {
      if (op == MDBX_NEXT) {
        if (next_pos(m, p))
          at(p);
        else
          fail(MDBX_NOTFOUND, C_AT, true);
      } else if (op == MDBX_NEXT_DUP) {
        if (p.i + 1 < p.it->second.size()) {
          ++p.i;
          at(p);
        } else
          fail(MDBX_NOTFOUND, C_AT, true);
      } else {
        ++p.it;
        p.i = 0;
        if (p.it != m.rows.end())
          at(p);
        else
          fail(MDBX_NOTFOUND, C_AT, true);
      }
    } else if (c.st == C_DELETED) {
      bool have = lower_pos(m, c.k, c.v, p);
      if (op == MDBX_NEXT_DUP && have && !samekey(p, c.k))
        fail(MDBX_NOTFOUND, C_LOST);
      else if (op == MDBX_NEXT_NODUP && have && samekey(p, c.k)) {
        ++p.it;
        p.i = 0;
        if (p.it == m.rows.end())
          fail(MDBX_NOTFOUND, C_LOST);
        else
          at(p);
      } else if (have)
        at(p);
      else
        fail(MDBX_NOTFOUND, C_LOST);
    } else {
      fail(MDBX_NOTFOUND, c.st, true);
      e.rc2 = MDBX_ENODATA;
    }
    return e;
  case MDBX_PREV:
  case MDBX_PREV_DUP:
  case MDBX_PREV_NODUP:
    if (c.st == C_FRESH || (c.st == C_EOF && op != MDBX_PREV_DUP))
      last();
    else if (c.st == C_AT && locate(m, c, p)) {
      if (op == MDBX_PREV) {
        if (prev_pos(m, p))
          at(p);
        else
          fail(MDBX_NOTFOUND, C_AT, true);
      } else if (op == MDBX_PREV_DUP) {
        if (p.i > 0) {
          --p.i;
          at(p);
        } else
          fail(MDBX_NOTFOUND, C_AT, true);
      } else if (p.it != m.rows.begin()) {
        --p.it;
        p.i = p.it->second.size() - 1;
        at(p);
      } else
        fail(MDBX_NOTFOUND, C_AT, true);
    } else if (c.st == C_DELETED) {
      // predecessor of the deleted pair
      auto it = m.rows.lower_bound(c.k);
      bool same = it != m.rows.end() && kc(it->first, c.k) == 0;
      size_t idx = same && m.dup() ? m.vlower(it->second, c.v) : 0;
      if (same && idx > 0 && op != MDBX_PREV_NODUP)
        at(Pos{it, idx - 1});
      else if (op == MDBX_PREV_DUP)
        fail(MDBX_NOTFOUND, C_LOST);
      else if (it == m.rows.begin())
        fail(MDBX_NOTFOUND, C_LOST);
      else {
        --it;
        at(Pos{it, it->second.size() - 1});
      }
    } else {
      fail(MDBX_NOTFOUND, c.st, true);
      e.rc2 = MDBX_ENODATA;
    }
    return e;
  default:
    break;
  }
  // keyed operations
  auto it = m.rows.lower_bound(*k);
  const bool kx = it != m.rows.end() && kc(it->first, *k) == 0;
  auto step_next = [&](Pos q) {
    if (next_pos(m, q))
      at(q);
    else
      fail(MDBX_NOTFOUND, C_LOST);
  };
  auto step_prev = [&](Pos q) {
    if (prev_pos(m, q))
      at(q);
    else
      fail(MDBX_NOTFOUND, C_LOST);
  };
  auto prev_of_iter = [&](Rows::const_iterator x) { // last pair before key position x
    if (x == m.rows.begin())
      fail(MDBX_NOTFOUND, C_LOST);
    else {
      --x;
      at(Pos{x, x->second.size() - 1});
    }
  };
  switch (op) {
  case MDBX_SET:
  case MDBX_SET_KEY:
  case MDBX_SEEK_AND_GET_MULTIPLE:
    if (kx)
      at(Pos{it, 0});
    else
      fail(MDBX_NOTFOUND, C_HOLLOW);
    return e;
  case MDBX_SET_RANGE:
    if (it != m.rows.end())
      at(Pos{it, 0});
    else
      fail(MDBX_NOTFOUND, m.rows.empty() ? C_LOST : C_EOF);
    return e;
  case MDBX_GET_BOTH:
  case MDBX_GET_BOTH_RANGE: {
    if (!kx) {
      fail(MDBX_NOTFOUND, C_HOLLOW);
      return e;
    }
    size_t i = m.vlower(it->second, *v);
    if (i >= it->second.size() || (op == MDBX_GET_BOTH && m.vcmp(it->second[i], *v) != 0))
      fail(MDBX_NOTFOUND, C_LOST);
    else
      at(Pos{it, i});
    return e;
  }
  case MDBX_SET_LOWERBOUND:
  case MDBX_SET_UPPERBOUND: {
    if (it == m.rows.end()) {
      fail(MDBX_NOTFOUND, m.rows.empty() ? C_LOST : C_EOF);
      return e;
    }
    Pos q{it, 0};
    bool exact = kx;
    if (kx && m.dup()) {
      exact = false;
      if (v) {
        q.i = m.vlower(it->second, *v);
        exact = q.i < it->second.size() && m.vcmp(it->second[q.i], *v) == 0;
        if (q.i >= it->second.size()) {
          ++q.it;
          q.i = 0;
          if (q.it == m.rows.end()) {
            fail(MDBX_NOTFOUND, C_LOST);
            return e;
          }
        }
      }
    }
    if (op == MDBX_SET_UPPERBOUND) {
      if (exact)
        step_next(q);
      else
        at(q);
    } else {
      at(q);
      if (!exact)
        e.rc = MDBX_RESULT_TRUE;
    }
    return e;
  }
  case MDBX_TO_KEY_LESSER_THAN:
    prev_of_iter(it);
    return e;
  case MDBX_TO_KEY_LESSER_OR_EQUAL:
    if (kx)
      at(Pos{it, 0});
    else
      prev_of_iter(it);
    return e;
  case MDBX_TO_KEY_EQUAL:
    if (kx)
      at(Pos{it, 0});
    else
      fail(MDBX_NOTFOUND, C_LOST);
    return e;
  case MDBX_TO_KEY_GREATER_OR_EQUAL:
    if (it != m.rows.end())
      at(Pos{it, 0});
    else
      fail(MDBX_NOTFOUND, m.rows.empty() ? C_LOST : C_EOF);
    return e;
  case MDBX_TO_KEY_GREATER_THAN:
    if (kx)
      ++it;
    if (it != m.rows.end())
      at(Pos{it, 0});
    else
      fail(MDBX_NOTFOUND, C_LOST);
    return e;
  default:
    break;
  }
  if (op >= MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN && op <= MDBX_TO_EXACT_KEY_VALUE_GREATER_THAN) {
    if (!kx) {
      fail(MDBX_NOTFOUND, C_HOLLOW);
      return e;
    }
    size_t n = it->second.size(), i = m.vlower(it->second, *v);
    bool vx = i < n && m.vcmp(it->second[i], *v) == 0;
    intptr_t j = -1;
    switch (op) {
    case MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN:
      j = (intptr_t)i - 1;
      break;
    case MDBX_TO_EXACT_KEY_VALUE_LESSER_OR_EQUAL:
      j = vx ? (intptr_t)i : (intptr_t)i - 1;
      break;
    case MDBX_TO_EXACT_KEY_VALUE_EQUAL:
      j = vx ? (intptr_t)i : -1;
      break;
    case MDBX_TO_EXACT_KEY_VALUE_GREATER_OR_EQUAL:
      j = i < n ? (intptr_t)i : -1;
      break;
    default:
      i += vx;
      j = i < n ? (intptr_t)i : -1;
      break;
    }
    if (j < 0)
      fail(MDBX_NOTFOUND, C_LOST);
    else
      at(Pos{it, (size_t)j});
    return e;
  }
  // TO_PAIR_*
  Pos q{};
  const bool have = lower_pos(m, *k, *v, q);
  const bool px = have && kc(q.it->first, *k) == 0 && m.vcmp(q.it->second[q.i], *v) == 0;
  auto before = [&] { // last pair < (k,v)
    if (have)
      step_prev(q);
    else
      last();
  };
  switch (op) {
  case MDBX_TO_PAIR_LESSER_THAN:
    before();
    break;
  case MDBX_TO_PAIR_LESSER_OR_EQUAL:
    if (px)
      at(q);
    else
      before();
    break;
  case MDBX_TO_PAIR_EQUAL:
    if (px)
      at(q);
    else
      fail(MDBX_NOTFOUND, C_LOST);
    break;
  case MDBX_TO_PAIR_GREATER_OR_EQUAL:
    if (have)
      at(q);
    else
      fail(MDBX_NOTFOUND, C_LOST);
    break;
  default:
    if (px)
      step_next(q);
    else if (have)
      at(q);
    else
      fail(MDBX_NOTFOUND, C_LOST);
    break;
  }
  return e;
}

void Fuzz::do_cget(MCur &c, MDBX_cursor_op op, const Bytes *k, const Bytes *v) {
  const TableM &m = tab(c.t);
  const CState before = c.st;
  const bool brim = c.at_brim;
  (void)brim;
  Exp e = expect_cget(m, c, op, k, v);
  MDBX_val kk = {nullptr, 0}, vv = {nullptr, 0};
  if (k)
    kk = mv(*k);
  if (v)
    vv = mv(*v);
  int rc = mdbx_cursor_get(c.c, &kk, &vv, op);
  cnt("cursor_ops");
  cnt((std::string("cop_") + op_name(op)).c_str());
  if (vf.verbose || true)
    vf_log("cget c%u t%u st%d %s k=%s v=%s -> %d %s=%s", c.id, c.t, before, op_name(op), k ? hexs(*k, 12).c_str() : "-",
           v ? hexs(*v, 12).c_str() : "-", rc, rc <= 0 && rc >= -1 ? hexs(kk).c_str() : "-",
           rc <= 0 && rc >= -1 ? hexs(vv).c_str() : "-");
  // where the relative operations go from a place that is not promised is open;
  // whatever they return must exist, though
  const bool dupbrim = op == MDBX_FIRST_DUP || op == MDBX_LAST_DUP;
  if ((before == C_EOF && (op == MDBX_GET_CURRENT || dupbrim)) || (before == C_DELETED && dupbrim) ||
      (before == C_LOST && !k && op != MDBX_FIRST && op != MDBX_LAST)) {
    if (rc == MDBX_SUCCESS && dupbrim)
      rc = mdbx_cursor_get(c.c, &kk, &vv, MDBX_GET_CURRENT);
    if (rc == MDBX_SUCCESS) {
      Bytes gk = bs(kk), gv = bs(vv);
      auto it = m.rows.find(gk);
      if (it == m.rows.end() || !(m.dup() ? m.has(it->second, gv) : it->second[0] == gv))
        vf_fail("phantom", "%s on a cursor with an open place returned %s=%s which is not in the table", op_name(op),
                hexs(gk).c_str(), hexs(gv).c_str());
    } else if (rc != MDBX_NOTFOUND && rc != MDBX_ENODATA)
      vf_fail("cursor-rc", "%s on a cursor with an open place -> %d", op_name(op), rc);
    c.st = C_LOST;
    return;
  }
  static const char *stn[] = {"fresh", "at", "eof", "hollow", "deleted", "lost"};
  if (before == C_DELETED && op == MDBX_GET_CURRENT && rc == MDBX_SUCCESS && !m.rows.empty()) {
    bool prec = false;
    if (e.rc == MDBX_NOTFOUND) {
      auto z = std::prev(m.rows.end());
      prec = eqv(kk, z->first) && eqv(vv, z->second.back());
    } else if (m.dup()) { // the last value of a key was deleted
      auto it = m.rows.find(c.k);
      prec = it != m.rows.end() && eqv(kk, it->first) && eqv(vv, it->second.back()) && m.vcmp(it->second.back(), c.v) < 0;
    }
    if (prec) {
      vf_finding("get-current-after-deleting-the-last",
                 "after mdbx_cursor_del of the last entry MDBX_GET_CURRENT returns the preceding entry, "
                 "while MDBX_NEXT says there is nothing or goes to the next key, although both are documented to "
                 "return the same record");
      return;
    }
  }
  const char *sig = before == C_DELETED ? "cursor-after-delete" : "cursor-get";
  if (rc != e.rc && rc != e.rc2 && !(m.rows.empty() && e.rc == MDBX_NOTFOUND && rc == MDBX_ENODATA))
    vf_fail(sig, "%s (cursor %s at %s=%s) key %s val %s -> rc %d, expected %d [%s]", op_name(op), stn[before],
            hexs(c.k).c_str(), hexs(c.v).c_str(), k ? hexs(*k).c_str() : "-", v ? hexs(*v).c_str() : "-", rc, e.rc,
            flags_str(m.flags));
  if (e.has && (rc == MDBX_SUCCESS || rc == MDBX_RESULT_TRUE)) {
    const Bytes &wk = e.p.it->first, &wv = e.p.it->second[e.p.i];
    bool kok = eqv(kk, wk) || (op == MDBX_SET && k && eqv(kk, *k)) ||
               (op >= MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN && op <= MDBX_TO_EXACT_KEY_VALUE_GREATER_THAN && k &&
                eqv(kk, *k)) ||
               ((op == MDBX_GET_BOTH || op == MDBX_GET_BOTH_RANGE) && k && eqv(kk, *k)) ||
               ((op == MDBX_FIRST_DUP || op == MDBX_LAST_DUP));
    bool vok = eqv(vv, wv) || (op == MDBX_GET_BOTH && v && eqv(vv, *v));
    if (!kok || !vok)
      vf_fail(sig, "%s (cursor %s at %s=%s) key %s val %s returned %s=%s, expected %s=%s [%s]", op_name(op),
              stn[before], hexs(c.k).c_str(), hexs(c.v).c_str(), k ? hexs(*k).c_str() : "-",
              v ? hexs(*v).c_str() : "-", hexs(kk).c_str(), hexs(vv).c_str(), hexs(wk).c_str(), hexs(wv).c_str(),
              flags_str(m.flags));
    set_at(c, e.p);
  } else {
    if (!e.keep)
      c.st = e.fail_state;
    if (e.keep && before == C_AT)
      c.at_brim = true;
    if (before == C_EOF && (op == MDBX_NEXT || op == MDBX_NEXT_DUP || op == MDBX_NEXT_NODUP))
      c.st = C_LOST;
  }
  distinct(hash_bytes("cg", 2, op * 64 + before * 8 + (uint64_t)(rc == 0) + (m.flags << 12) + ((uint64_t)m.items << 24)));
}

// place check by GET_CURRENT, without moving
void Fuzz::verify_cursor(MCur &c, const char *why) {
  if (c.st != C_AT)
    return;
  const TableM &m = tab(c.t);
  Pos p;
  if (!locate(m, c, p))
    vf_harness_error("model lost the cursor entry (%s)", why);
  MDBX_val k, v;
  int rc = mdbx_cursor_get(c.c, &k, &v, MDBX_GET_CURRENT);
  if (rc != MDBX_SUCCESS || !eqv(k, p.it->first) || !eqv(v, p.it->second[p.i]))
    vf_fail("cursor-moved", "%s: cursor of table %u was at %s=%s, GET_CURRENT -> %d %s=%s [%s]", why, c.t,
            hexs(p.it->first).c_str(), hexs(p.it->second[p.i]).c_str(), rc, rc ? "-" : hexs(k).c_str(),
            rc ? "-" : hexs(v).c_str(), flags_str(m.flags));
  c.v = p.it->second[p.i];
  cnt("cursor_place_checks");
}
void Fuzz::check_cursors(const char *why, unsigned pct) {
  for (auto &c : cur)
    if (r.chance(pct))
      verify_cursor(c, why);
}

MCur *Fuzz::new_cursor(unsigned t) {
  MCur c;
  c.t = t;
  c.lvl = (unsigned)lv.size();
  c.id = ++next_cur;
  MUST(mdbx_cursor_open(T(), sh[t].dbi, &c.c));
  cur.push_back(c);
  return &cur.back();
}
MCur &Fuzz::any_cursor() {
  if (cur.size() < p.cursors)
    return *new_cursor((unsigned)r.below(sh.size()));
  return cur[r.below(cur.size())];
}
void Fuzz::close_cursors(unsigned minlvl) {
  for (size_t i = 0; i < cur.size();)
    if (cur[i].lvl >= minlvl) {
      mdbx_cursor_close(cur[i].c);
      cur.erase(cur.begin() + (long)i);
    } else
      ++i;
}

// ------------------------------------------------------------------ operations
static int put_flags_str(char *b, size_t n, unsigned f) {
  return snprintf(b, n, "%s%s%s%s%s%s%s%s", f & MDBX_NOOVERWRITE ? "NOOVERWRITE|" : "",
                  f & MDBX_NODUPDATA ? "NODUPDATA|" : "", f & MDBX_CURRENT ? "CURRENT|" : "",
                  f & MDBX_ALLDUPS ? "ALLDUPS|" : "", f & MDBX_RESERVE ? "RESERVE|" : "",
                  f & MDBX_APPEND ? "APPEND|" : "", f & MDBX_APPENDDUP ? "APPENDDUP|" : "",
                  f & MDBX_MULTIPLE ? "MULTIPLE|" : "");
}

// plain put (or through a cursor when c is given)
void Fuzz::op_put(unsigned t, MCur *c) {
  const Shape &s = sh[t];
  Bytes k = pick_key(t);
  Bytes v = pick_val(t, k);
  const TableM &m0 = tab(t);
  unsigned f = 0;
  switch (r.below(14)) {
  case 0:
  case 1:
    f = MDBX_NOOVERWRITE;
    break;
  case 2:
    f = c ? 0 : MDBX_CURRENT;
    break;
  case 3:
    f = m0.dup() ? 0 : MDBX_RESERVE;
    break;
  case 4:
    f = MDBX_APPEND;
    break;
  case 5:
    if (m0.dup())
      f = MDBX_APPENDDUP;
    break;
  case 6:
    if (m0.dup())
      f = MDBX_NODUPDATA;
    break;
  case 7:
    if (m0.dup())
      f = MDBX_ALLDUPS;
    break;
  case 8:
    if (m0.dup() && !c)
      f = MDBX_CURRENT | MDBX_ALLDUPS;
    break;
  case 9:
    if (!m0.dup())
      f = MDBX_NOOVERWRITE | MDBX_RESERVE;
    break;
  case 10:
    if (m0.dup())
      f = MDBX_NODUPDATA | MDBX_NOOVERWRITE;
    break;
  case 11:
    if (!m0.rows.empty() && r.chance(50)) { // a valid append
      f = MDBX_APPEND;
      for (int i = 0; i < 4; ++i) {
        Bytes k2 = s.key(r.below(s.U));
        if (m0.rows.key_comp().f(k2, m0.rows.rbegin()->first) > 0) {
          k = k2;
          break;
        }
      }
    }
    break;
  default:
    break;
  }
  // sometimes illegal sizes
  int badsize = 0;
  if (r.permille(15)) {
    switch (r.below(3)) {
    case 0:
      if (!(s.flags & MDBX_INTEGERKEY)) {
        k = Bytes(s.kmax + 1 + r.below(20), 'z');
        badsize = 1;
      } else {
        k = Bytes(1 + r.below(3) * 2, 'z');
        badsize = 1;
      }
      break;
    case 1:
      if (s.flags & MDBX_INTEGERDUP) {
        v = Bytes(5, 'z');
        badsize = 1;
      } else if ((s.flags & MDBX_DUPFIXED) && m0.items) {
        v = Bytes(v.size() + 1, 'z');
        badsize = 1;
      } else if (s.flags & MDBX_DUPSORT) {
        v = Bytes(s.vmax + 1 + r.below(9), 'z');
        badsize = 1;
      }
      break;
    default:
      if ((s.flags & MDBX_INTEGERKEY) && m0.items) { // the other legal width: mixing is refused
        k = Bytes(s.kint == 4 ? 8 : 4, 1);
        badsize = 1;
      }
      break;
    }
    if (badsize)
      f &= ~(MDBX_CURRENT | MDBX_RESERVE);
  }
  auto it = m0.rows.find(k);
  if (badsize)
    it = m0.rows.end();
  const bool kx = it != m0.rows.end();
  const bool vx = kx && m0.dup() && m0.has(it->second, v);
  Bytes existing = kx ? it->second[0] : Bytes();
  int want;
  enum { NOP, PUT, PUTONLY } act = NOP;
  bool know = true;
  if (badsize)
    want = MDBX_BAD_VALSIZE;
  else if (f & MDBX_NOOVERWRITE) {
    want = kx ? MDBX_KEYEXIST : MDBX_SUCCESS;
    act = kx ? NOP : PUT;
  } else if (f & MDBX_CURRENT) { // mdbx_put only
    if (!kx)
      want = MDBX_NOTFOUND;
    else if (!m0.dup() || (f & MDBX_ALLDUPS) || it->second.size() == 1)
      want = MDBX_SUCCESS, act = PUTONLY;
    else
      want = MDBX_EMULTIVAL;
  } else if (f & MDBX_APPEND) {
    int cmp = m0.rows.empty() ? 1 : m0.rows.key_comp().f(k, m0.rows.rbegin()->first);
    if (cmp < 0)
      want = MDBX_EKEYMISMATCH;
    else {
      want = MDBX_SUCCESS;
      act = PUT;
    }
  } else if (f & MDBX_APPENDDUP) {
    if (!kx)
      want = MDBX_SUCCESS, act = PUT;
    else {
      int cmp = m0.vcmp(v, it->second.back());
      want = cmp > 0 ? MDBX_SUCCESS : MDBX_EKEYMISMATCH;
      act = cmp > 0 ? PUT : NOP;
      if (cmp == 0)
        know = false; // equal to the last one: success or mismatch, no change either way
    }
  } else if (f & MDBX_NODUPDATA) {
    want = vx ? MDBX_KEYEXIST : MDBX_SUCCESS;
    act = vx ? NOP : PUT;
  } else if (f & MDBX_ALLDUPS) {
    want = MDBX_SUCCESS;
    act = PUTONLY;
  } else {
    want = MDBX_SUCCESS;
    act = PUT;
  }
  // unaligned input buffers are legal
  Bytes kbuf = r.chance(50) ? Bytes("x") + k : k;
  Bytes vbuf = r.chance(50) ? Bytes("xyz") + v : v;
  MDBX_val kk = {(void *)(kbuf.data() + (kbuf.size() - k.size())), k.size()};
  MDBX_val vv = {(void *)(vbuf.data() + (vbuf.size() - v.size())), v.size()};
  int rc = c ? W(mdbx_cursor_put(c->c, &kk, &vv, (MDBX_put_flags_t)f)) : W(mdbx_put(T(), s.dbi, &kk, &vv, (MDBX_put_flags_t)f));
  char fb[128];
  put_flags_str(fb, sizeof fb, f);
  vf_log("%sput t%u [%s] %s=%s -> %d", c ? strf("c%u ", c->id).c_str() : "", t, fb, hexs(k, 12).c_str(), hexs(v, 12).c_str(), rc);
  cnt("puts");
  if (!know && (rc == MDBX_SUCCESS || rc == MDBX_EKEYMISMATCH || rc == MDBX_KEYEXIST))
    want = rc;
  if (want == MDBX_EMULTIVAL && rc == MDBX_SUCCESS) {
    // known deviation from the documentation, see known_findings.json
    vf_finding("put-current-multival", strf("mdbx_put(MDBX_CURRENT) on key %s having %zu values succeeded and "
                                            "replaced them all; documented: MDBX_EMULTIVAL, no change",
                                            hexs(k).c_str(), it->second.size()));
    want = rc;
    act = PUTONLY;
  }
  if (rc != want)
    vf_fail("put-rc", "%sput[%s] table %s %s=%s -> %d, expected %d (key present %d)", c ? "cursor_" : "", fb,
            flags_str(s.flags), hexs(k).c_str(), hexs(v).c_str(), rc, want, kx);
  if (rc == MDBX_SUCCESS && (f & MDBX_RESERVE)) {
    if (vv.iov_len != v.size() || (!vv.iov_base && !v.empty()))
      vf_fail("reserve", "reserve of %zu bytes returned %zu at %p", v.size(), vv.iov_len, vv.iov_base);
    if (!v.empty())
      memcpy(vv.iov_base, v.data(), v.size());
  }
  if (rc == MDBX_KEYEXIST && (f & MDBX_NOOVERWRITE) && !m0.dup() && !eqv(vv, existing))
    vf_fail("noover-data", "put NOOVERWRITE reported %s instead of the existing %s", hexs(vv).c_str(),
            hexs(existing).c_str());
  if (act != NOP && rc == MDBX_SUCCESS) {
    if (act == PUTONLY && kx && m0.dup())
      note_del_key(t, k, c);
    TableM &m = wtab(t);
    if (act == PUT)
      m.put(k, v);
    else
      m.put_only(k, v);
    weaken(cur, t, c);
  }
  if (c) {
    if (rc == MDBX_SUCCESS) {
      c->st = C_AT;
      auto i2 = tab(t).rows.find(k);
      c->k = i2->first;
      c->v = v;
      c->at_brim = false;
    } else
      c->st = C_LOST;
  }
  // the result must be readable at once
  if (r.chance(30) && !badsize) {
    MDBX_val k2 = mv(k), v2;
    size_t n = 0;
    rc = mdbx_get_ex(T(), s.dbi, &k2, &v2, &n);
    auto i2 = tab(t).rows.find(k);
    if (i2 == tab(t).rows.end() ? rc != MDBX_NOTFOUND
                                : rc != MDBX_SUCCESS || !eqv(v2, i2->second[0]) || n != i2->second.size())
      vf_fail("get-after-put", "after put[%s] get_ex(%s) -> %d count %zu", fb, hexs(k).c_str(), rc, n);
  }
}

void Fuzz::op_del(unsigned t) {
  const Shape &s = sh[t];
  Bytes k = pick_key(t);
  const TableM &m0 = tab(t);
  auto it = m0.rows.find(k);
  const bool kx = it != m0.rows.end();
  MDBX_val kk = mv(k);
  int rc, want;
  if (m0.dup() ? r.chance(70) : r.chance(25)) {
    Bytes v = kx && r.chance(70) ? it->second[r.below(it->second.size())] : pick_val(t, k);
    MDBX_val vv = mv(v);
    bool vx = kx && (m0.dup() ? m0.has(it->second, v) : it->second[0] == v);
    want = vx ? MDBX_SUCCESS : MDBX_NOTFOUND;
    rc = W(mdbx_del(T(), s.dbi, &kk, &vv));
    vf_log("del t%u %s=%s -> %d", t, hexs(k, 12).c_str(), hexs(v, 12).c_str(), rc);
    if (rc != want)
      vf_fail("del-rc", "del %s=%s -> %d, expected %d [%s]", hexs(k).c_str(), hexs(v).c_str(), rc, want,
              flags_str(s.flags));
    if (vx) {
      note_del_pair(t, k, v, nullptr);
      TableM &m = wtab(t);
      if (m.dup())
        m.del(k, v);
      else
        m.del(k);
      weaken(cur, t, nullptr);
    }
  } else {
    want = kx ? MDBX_SUCCESS : MDBX_NOTFOUND;
    rc = W(mdbx_del(T(), s.dbi, &kk, nullptr));
    vf_log("del t%u %s -> %d", t, hexs(k, 12).c_str(), rc);
    if (rc != want)
      vf_fail("del-rc", "del %s -> %d, expected %d [%s]", hexs(k).c_str(), rc, want, flags_str(s.flags));
    if (kx) {
      note_del_key(t, k, nullptr);
      wtab(t).del(k);
      weaken(cur, t, nullptr);
    }
  }
  cnt("dels");
}

void Fuzz::op_get(unsigned t) {
  const Shape &s = sh[t];
  const TableM &m = tab(t);
  Bytes k = pick_key(t);
  auto it = m.rows.find(k);
  const bool kx = it != m.rows.end();
  MDBX_val kk = mv(k), vv = {nullptr, 0};
  int rc;
  cnt("gets");
  switch (r.below(3)) {
  case 0:
    rc = mdbx_get(T(), s.dbi, &kk, &vv);
    if (kx ? rc != MDBX_SUCCESS || !eqv(vv, it->second[0]) : rc != MDBX_NOTFOUND)
      vf_fail("get", "get %s -> %d %s [%s]", hexs(k).c_str(), rc, rc ? "-" : hexs(vv).c_str(), flags_str(s.flags));
    break;
  case 1: {
    size_t n = 77;
    rc = mdbx_get_ex(T(), s.dbi, &kk, &vv, &n);
    if (kx ? rc != MDBX_SUCCESS || !eqv(vv, it->second[0]) || n != it->second.size() || !eqv(kk, it->first)
           : rc != MDBX_NOTFOUND || n != 0)
      vf_fail("get-ex", "get_ex %s -> %d count %zu [%s]", hexs(k).c_str(), rc, n, flags_str(s.flags));
    break;
  }
  default: {
    Bytes v;
    bool hv = false;
    if (m.dup() && r.chance(70)) {
      v = pick_val(t, k);
      hv = true;
      vv = mv(v);
      if (v.empty())
        vv.iov_base = (void *)"";
    }
    MCur tmp;
    Exp e = expect_cget(m, tmp, MDBX_SET_LOWERBOUND, &k, hv ? &v : nullptr);
    rc = mdbx_get_equal_or_great(T(), s.dbi, &kk, &vv);
    if (rc != e.rc || (e.has && (!eqv(kk, e.p.it->first) || !eqv(vv, e.p.it->second[e.p.i]))))
      vf_fail("get-ge", "get_equal_or_great %s/%s -> %d, expected %d [%s]", hexs(k).c_str(), hv ? hexs(v).c_str() : "-",
              rc, e.rc, flags_str(s.flags));
    break;
  }
  }
}

static int preserve(void *ctx, MDBX_val *target, const void *src, size_t bytes) {
  Bytes *b = (Bytes *)ctx;
  b->assign((const char *)src, bytes);
  target->iov_base = (void *)b->data();
  target->iov_len = bytes;
  return MDBX_SUCCESS;
}
void Fuzz::op_replace(unsigned t) {
  const Shape &s = sh[t];
  Bytes k = pick_key(t);
  const TableM &m0 = tab(t);
  auto it = m0.rows.find(k);
  const bool kx = it != m0.rows.end();
  Bytes nv = pick_val(t, k);
  MDBX_val kk = mv(k), nn = mv(nv), old;
  if (nv.empty())
    nn.iov_base = (void *)"";
  int rc;
  cnt("replaces");
  if (m0.dup() && r.chance(60)) { // a particular value: update or delete
    Bytes ov = kx && r.chance(80) ? it->second[r.below(it->second.size())] : pick_val(t, k);
    old = mv(ov);
    if (ov.empty())
      old.iov_base = (void *)"";
    bool vx = kx && m0.has(it->second, ov);
    bool del = r.chance(30);
    if (!del && vx && m0.has(it->second, nv) && m0.vcmp(ov, nv) != 0)
      return; // replacing by another existing value: the result is not documented
    rc = W(mdbx_replace(T(), s.dbi, &kk, del ? nullptr : &nn, &old, (MDBX_put_flags_t)(MDBX_CURRENT | MDBX_NOOVERWRITE)));
    vf_log("replace1 t%u %s: %s -> %s rc %d", t, hexs(k, 12).c_str(), hexs(ov, 12).c_str(),
           del ? "del" : hexs(nv, 12).c_str(), rc);
    if (rc != (vx ? MDBX_SUCCESS : MDBX_NOTFOUND))
      vf_fail("replace-rc", "replace one value %s of %s -> %d (present %d) [%s]", hexs(ov).c_str(), hexs(k).c_str(), rc,
              vx, flags_str(s.flags));
    if (vx) {
      note_del_pair(t, k, ov, nullptr);
      TableM &m = wtab(t);
      m.del(k, ov);
      if (!del)
        m.put(k, nv);
      weaken(cur, t, nullptr);
    }
    return;
  }
  unsigned f = 0;
  int want;
  bool del = false;
  switch (r.below(4)) {
  case 0: // upsert
    f = 0;
    break;
  case 1:
    f = MDBX_NOOVERWRITE;
    break;
  case 2:
    f = MDBX_CURRENT;
    break;
  default:
    f = MDBX_CURRENT;
    del = true;
    break;
  }
  if (m0.dup() && f == 0)
    f = MDBX_CURRENT; // plain upsert through mdbx_replace on multi-values is not specified
  Bytes keep;
  std::vector<char> buf(r.chance(50) ? 16 : 1 << 17);
  const bool custom = r.chance(50);
  old.iov_base = buf.data();
  old.iov_len = buf.size();
  const Bytes ev = kx ? it->second[0] : Bytes();
  rc = custom ? W(mdbx_replace_ex(T(), s.dbi, &kk, del ? nullptr : &nn, &old, (MDBX_put_flags_t)f, preserve, &keep))
              : W(mdbx_replace(T(), s.dbi, &kk, del ? nullptr : &nn, &old, (MDBX_put_flags_t)f));
  vf_log("replace t%u f=0x%x %s -> %s rc %d", t, f, hexs(k, 12).c_str(), del ? "del" : hexs(nv, 12).c_str(), rc);
  if (f & MDBX_NOOVERWRITE)
    want = kx ? MDBX_KEYEXIST : MDBX_SUCCESS;
  else if (f & MDBX_CURRENT)
    want = !kx ? MDBX_NOTFOUND : it->second.size() > 1 ? MDBX_EMULTIVAL : MDBX_SUCCESS;
  else
    want = MDBX_SUCCESS;
  if (rc == MDBX_RESULT_TRUE && want == MDBX_SUCCESS && !custom) {
    // the buffer was too small for a dirty page's old value: nothing changed
    if (old.iov_len != ev.size() || ev.size() <= buf.size())
      vf_fail("replace-small-buf", "replace: RESULT_TRUE with size %zu, old value is %zu, buffer %zu", old.iov_len,
              ev.size(), buf.size());
    return;
  }
  if (rc != want)
    vf_fail("replace-rc", "replace f=0x%x key %s (%zu values) -> %d, expected %d [%s]", f, hexs(k).c_str(),
            kx ? it->second.size() : 0, rc, want, flags_str(s.flags));
  if (rc == MDBX_SUCCESS) {
    if (kx && !eqv(old, ev))
      vf_fail("replace-old", "replace returned old value %s, expected %s", hexs(old).c_str(), hexs(ev).c_str());
    if (!kx && (old.iov_base || old.iov_len))
      vf_fail("replace-old", "replace of an absent key returned an old value %s", hexs(old).c_str());
    if (kx && (del || (m0.dup() && ev != nv)))
      note_del_key(t, k, nullptr);
    TableM &m = wtab(t);
    if (del)
      m.del(k);
    else
      m.put_only(k, nv);
    weaken(cur, t, nullptr);
  } else if (rc == MDBX_KEYEXIST && !m0.dup() && !eqv(old, ev))
    vf_fail("replace-old", "replace NOOVERWRITE reported %s, existing is %s", hexs(old).c_str(), hexs(ev).c_str());
}

// store several fixed-size values at once
void Fuzz::op_multi(unsigned t) {
  const Shape &s = sh[t];
  if (!(s.flags & MDBX_DUPFIXED))
    return op_put(t, nullptr);
  Bytes k = pick_key(t);
  const TableM &m0 = tab(t);
  const size_t n = r.chance(10) ? r.below(400) : r.below(20);
  std::vector<Bytes> vs;
  for (size_t i = 0; i < n; ++i)
    vs.push_back(s.val(r));
  const bool sorted = r.chance(50);
  if (sorted)
    std::sort(vs.begin(), vs.end(), Less{m0.vcmp});
  const size_t es = (s.flags & MDBX_INTEGERDUP) ? s.vint : s.vfix;
  Bytes arr;
  for (auto &v : vs)
    arr += v;
  std::vector<uint64_t> aligned(arr.size() / 8 + 2);
  memcpy(aligned.data(), arr.data(), arr.size());
  MDBX_val d[2];
  d[0].iov_base = aligned.data();
  d[0].iov_len = es;
  d[1].iov_base = nullptr;
  d[1].iov_len = n;
  MDBX_val kk = mv(k);
  const bool all = r.chance(20) && n > 0;
  int rc;
  MCur *c = nullptr;
  if (r.chance(40)) {
    for (auto &x : cur)
      if (x.t == t)
        c = &x;
  }
  const unsigned f = MDBX_MULTIPLE | (all ? MDBX_ALLDUPS : 0);
  rc = c ? W(mdbx_cursor_put(c->c, &kk, d, (MDBX_put_flags_t)f)) : W(mdbx_put(T(), s.dbi, &kk, d, (MDBX_put_flags_t)f));
  vf_log("multi t%u %s n=%zu all=%d -> %d stored %zu", t, hexs(k, 12).c_str(), n, all, rc, d[1].iov_len);
  cnt("multi_puts");
  if (rc != MDBX_SUCCESS)
    vf_fail("multi-rc", "MDBX_MULTIPLE%s of %zu values of %zu bytes -> %d [%s]", all ? "|ALLDUPS" : "", n, es, rc,
            flags_str(s.flags));
  if (d[1].iov_len != n)
    vf_fail("multi-count", "MDBX_MULTIPLE stored count %zu of %zu", d[1].iov_len, n);
  if (all && m0.rows.count(k))
    note_del_key(t, k, c);
  TableM &m = wtab(t);
  if (all)
    m.del(k);
  for (auto &v : vs)
    m.put(k, v);
  weaken(cur, t, c);
  if (c)
    c->st = C_LOST;
  auto it = m.rows.find(k);
  MDBX_val v2;
  size_t cntv = 0;
  rc = mdbx_get_ex(T(), s.dbi, &kk, &v2, &cntv);
  if (it == m.rows.end() ? rc != MDBX_NOTFOUND
                         : rc != MDBX_SUCCESS || cntv != it->second.size() || !eqv(v2, it->second[0]))
    vf_fail("multi-result", "after MDBX_MULTIPLE get_ex -> %d count %zu, expected %zu", rc, cntv,
            it == m.rows.end() ? 0 : it->second.size());
}

// runs of insertions or deletions that reshape the tree
void Fuzz::op_bulk(unsigned t) {
  const Shape &s = sh[t];
  size_t n = 1 + r.below(std::min<size_t>(s.U, 120));
  const int how = (int)r.below(8);
  TableM &m = wtab(t);
  uint64_t id = r.below(s.U);
  vf_log("bulk t%u how=%d n=%zu", t, how, n);
  cnt("bulk_runs");
  if (how < 5) {
    if (m.items > 4000)
      return;
    if (m.dup() && how >= 3) { // many values under one key
      Bytes k = pick_key(t);
      for (size_t i = 0; i < n; ++i) {
        Bytes v = how == 3 ? s.dupval((id + i) % s.VU) : s.val(r);
        MDBX_val kk = mv(k), vv = mv(v);
        MUST(W(mdbx_put(T(), s.dbi, &kk, &vv, MDBX_UPSERT)));
        m.put(k, v);
      }
    } else
      for (size_t i = 0; i < n; ++i) {
        Bytes k = s.key(how == 0 ? (id + i) % s.U : how == 1 ? (id + s.U * 2 - i) % s.U : r.below(s.U));
        Bytes v = s.val(r);
        MDBX_val kk = mv(k), vv = mv(v);
        if (vf.verbose)
          vf_log("  bulk put %s=%s", hexs(k, 8).c_str(), hexs(v, 8).c_str());
        MUST(W(mdbx_put(T(), s.dbi, &kk, &vv, MDBX_UPSERT)));
        m.put(k, v);
      }
    cnt("puts", n);
  } else {
    Pos pos;
    for (size_t i = 0; i < n && rnd_pos(t, pos); ++i) {
      if (how == 5)
        pos.it = m.rows.begin();
      else if (how == 6)
        pos.it = std::prev(m.rows.end());
      else if (i) {
        auto x = m.rows.lower_bound(s.key(id));
        pos.it = x == m.rows.end() ? m.rows.begin() : x;
      }
      Bytes k = pos.it->first;
      if (m.dup() && pos.it->second.size() > 1 && r.chance(80)) {
        Bytes v = pos.it->second[r.below(pos.it->second.size())];
        MDBX_val kk = mv(k), vv = mv(v);
        MUST(W(mdbx_del(T(), s.dbi, &kk, &vv)));
        note_del_pair(t, k, v, nullptr);
        m.del(k, v);
      } else {
        MDBX_val kk = mv(k);
        MUST(W(mdbx_del(T(), s.dbi, &kk, nullptr)));
        note_del_key(t, k, nullptr);
        m.del(k);
      }
      cnt("dels");
      if (r.chance(10))
        check_cursors("bulk delete");
    }
  }
  weaken(cur, t, nullptr);
}

static MDBX_cursor_op pick_cop(Rng &r, const TableM &m) {
  static const MDBX_cursor_op rel[] = {MDBX_NEXT, MDBX_NEXT, MDBX_PREV, MDBX_PREV, MDBX_NEXT_NODUP, MDBX_PREV_NODUP,
                                       MDBX_GET_CURRENT, MDBX_FIRST, MDBX_LAST, MDBX_NEXT_DUP, MDBX_PREV_DUP,
                                       MDBX_FIRST_DUP, MDBX_LAST_DUP};
  static const MDBX_cursor_op key[] = {MDBX_SET, MDBX_SET_KEY, MDBX_SET_RANGE, MDBX_SET_LOWERBOUND,
                                       MDBX_SET_UPPERBOUND, MDBX_TO_KEY_LESSER_THAN, MDBX_TO_KEY_LESSER_OR_EQUAL,
                                       MDBX_TO_KEY_EQUAL, MDBX_TO_KEY_GREATER_OR_EQUAL, MDBX_TO_KEY_GREATER_THAN};
  static const MDBX_cursor_op both[] = {MDBX_GET_BOTH,
                                        MDBX_GET_BOTH_RANGE,
                                        MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN,
                                        MDBX_TO_EXACT_KEY_VALUE_LESSER_OR_EQUAL,
                                        MDBX_TO_EXACT_KEY_VALUE_EQUAL,
                                        MDBX_TO_EXACT_KEY_VALUE_GREATER_OR_EQUAL,
                                        MDBX_TO_EXACT_KEY_VALUE_GREATER_THAN,
                                        MDBX_TO_PAIR_LESSER_THAN,
                                        MDBX_TO_PAIR_LESSER_OR_EQUAL,
                                        MDBX_TO_PAIR_EQUAL,
                                        MDBX_TO_PAIR_GREATER_OR_EQUAL,
                                        MDBX_TO_PAIR_GREATER_THAN};
  unsigned w = (unsigned)r.below(100);
  if (w < 60)
    return rel[r.below(13)];
  if (w < (m.dup() ? 78u : 100u))
    return key[r.below(10)];
  return both[r.below(12)];
}

void Fuzz::op_cget() {
  MCur &c = any_cursor();
  const TableM &m = tab(c.t);
  unsigned n = 1 + (unsigned)r.below(6);
  while (n--) {
    MDBX_cursor_op op = pick_cop(r, m);
    Bytes k, v;
    const bool keyed = op == MDBX_SET || op == MDBX_SET_KEY || op == MDBX_SET_RANGE || op >= MDBX_SET_LOWERBOUND ||
                       op == MDBX_GET_BOTH || op == MDBX_GET_BOTH_RANGE;
    const bool wantv = op == MDBX_GET_BOTH || op == MDBX_GET_BOTH_RANGE || op >= MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN ||
                       ((op == MDBX_SET_LOWERBOUND || op == MDBX_SET_UPPERBOUND) && m.dup() && r.chance(60));
    if (keyed)
      k = pick_key(c.t);
    if (wantv)
      v = pick_val(c.t, k);
    do_cget(c, op, keyed ? &k : nullptr, wantv ? &v : nullptr);
  }
}

void Fuzz::op_cput() {
  MCur &c = any_cursor();
  const Shape &s = sh[c.t];
  const TableM &m0 = tab(c.t);
  if (c.st != C_AT || r.chance(40)) {
    op_put(c.t, &c);
    return;
  }
  // update at the current place
  Pos pos;
  if (!locate(m0, c, pos))
    vf_harness_error("cput locate");
  Bytes k = pos.it->first, ov = pos.it->second[pos.i], nv = pick_val(c.t, k);
  if (m0.dup() && m0.has(pos.it->second, nv) && m0.vcmp(nv, ov) != 0)
    return;
  cnt("cursor_updates");
  MDBX_val kk = mv(k), vv = mv(nv);
  if (r.chance(10)) { // key mismatch must be refused
    Bytes k2 = pick_key(c.t);
    if (m0.rows.key_comp().f(k2, k) != 0) {
      MDBX_val k3 = mv(k2);
      int rc = W(mdbx_cursor_put(c.c, &k3, &vv, MDBX_CURRENT));
      if (rc != MDBX_EKEYMISMATCH)
        vf_fail("cput-mismatch", "cursor_put(CURRENT) at %s with key %s -> %d", hexs(k).c_str(), hexs(k2).c_str(), rc);
      verify_cursor(c, "after refused cursor_put(CURRENT)");
      return;
    }
  }
  const bool all = m0.dup() && r.chance(15);
  const bool res = !m0.dup() && r.chance(20);
  int rc = W(mdbx_cursor_put(c.c, &kk, &vv, (MDBX_put_flags_t)(MDBX_CURRENT | (all ? MDBX_ALLDUPS : 0) | (res ? MDBX_RESERVE : 0))));
  vf_log("cput c%u CURRENT%s t%u %s: %s -> %s rc %d", c.id, all ? "|ALL" : "", c.t, hexs(k, 12).c_str(), hexs(ov, 12).c_str(),
         hexs(nv, 12).c_str(), rc);
  if (rc != MDBX_SUCCESS)
    vf_fail("cput-rc", "cursor_put(CURRENT) %s: %s -> %s rc %d [%s]", hexs(k).c_str(), hexs(ov).c_str(),
            hexs(nv).c_str(), rc, flags_str(s.flags));
  if (res) {
    if (vv.iov_len != nv.size())
      vf_fail("reserve", "cursor reserve");
    if (nv.size())
      memcpy(vv.iov_base, nv.data(), nv.size());
  }

  if (all)
    note_del_key(c.t, k, &c);
  else if (m0.dup()) // an update of one of several values is a deletion and an insertion
    note_del_pair(c.t, k, ov, &c);
  TableM &m = wtab(c.t);
  if (all)
    m.put_only(k, nv);
  else if (m.dup()) {
    m.del(k, ov);
    m.put(k, nv);
  } else
    m.put(k, nv);
  weaken(cur, c.t, &c);
  c.st = C_AT;
  c.v = nv;
  c.at_brim = false;
  verify_cursor(c, "after cursor_put(CURRENT)");
}

void Fuzz::op_cdel() {
  MCur &c = any_cursor();
  const TableM &m0 = tab(c.t);
  if (c.st != C_AT) {
    Pos pos;
    if (!rnd_pos(c.t, pos))
      return;
    Bytes k = pos.it->first;
    do_cget(c, MDBX_SET_KEY, &k, nullptr);
    if (c.st != C_AT)
      return;
  }
  unsigned n = r.chance(30) ? 1 + (unsigned)r.below(30) : 1;
  while (n-- && c.st == C_AT) {
    Pos pos;
    const TableM &mm = tab(c.t);
    if (!locate(mm, c, pos))
      vf_harness_error("cdel locate");
    Bytes k = pos.it->first, v = pos.it->second[pos.i];
    const bool all = m0.dup() && r.chance(25);
    const unsigned f = all ? (r.chance(50) ? MDBX_ALLDUPS : MDBX_NODUPDATA) : r.chance(50) ? MDBX_CURRENT : 0;
    vf_log("cdel c%u t%u f=0x%x ...", c.id, c.t, f);
    int rc = W(mdbx_cursor_del(c.c, (MDBX_put_flags_t)f));
    vf_log("cdel c%u t%u f=0x%x %s=%s -> %d", c.id, c.t, f, hexs(k, 12).c_str(), hexs(v, 12).c_str(), rc);
    cnt("cursor_dels");
    if (rc != MDBX_SUCCESS)
      vf_fail("cdel-rc", "cursor_del at %s=%s -> %d", hexs(k).c_str(), hexs(v).c_str(), rc);
    if (all) {
      note_del_key(c.t, k, &c);
      wtab(c.t).del(k);
    } else {
      note_del_pair(c.t, k, v, &c);
      TableM &m = wtab(c.t);
      if (m.dup())
        m.del(k, v);
      else
        m.del(k);
    }
    weaken(cur, c.t, &c);
    c.st = C_DELETED;
    c.k = k;
    c.v = all ? Bytes() : v;
    if (all && tab(c.t).rows.count(k))
      vf_harness_error("cdel all");
    static const MDBX_cursor_op nx[] = {MDBX_NEXT, MDBX_NEXT, MDBX_GET_CURRENT, MDBX_PREV, MDBX_NEXT_DUP,
                                        MDBX_PREV_DUP, MDBX_NEXT_NODUP, MDBX_PREV_NODUP};
    if (r.chance(85))
      do_cget(c, n ? MDBX_NEXT : nx[r.below(8)], nullptr, nullptr);
    if (r.chance(30))
      check_cursors("after cursor_del");
  }
}

void Fuzz::op_batch() {
  unsigned t = (unsigned)r.below(sh.size());
  const Shape &s = sh[t];
  const TableM &m = tab(t);
  MDBX_cursor *c;
  MUST(mdbx_cursor_open(T(), s.dbi, &c));
  cnt("batch_reads");
  if (!m.dup()) {
    size_t limit = 4 + r.below(r.chance(20) ? 600 : 20);
    std::vector<MDBX_val> pairs(limit);
    auto it = m.rows.begin();
    size_t n = 0;
    int rc = mdbx_cursor_get_batch(c, &n, pairs.data(), limit, MDBX_FIRST);
    unsigned rounds = 0;
    for (;;) {
      if (m.rows.empty()) {
        if (rc != MDBX_NOTFOUND || n)
          vf_fail("get-batch", "get_batch on an empty table -> %d n=%zu", rc, n);
        break;
      }
      if (rc == MDBX_NOTFOUND && n == 0 && it == m.rows.end())
        break;
      if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
        vf_fail("get-batch", "get_batch -> %d n=%zu", rc, n);
      if (n & 1 || n > limit || (rc == MDBX_SUCCESS && n + 1 < limit && n + 2 <= limit))
        vf_fail("get-batch", "get_batch -> %d n=%zu limit %zu", rc, n, limit);
      for (size_t i = 0; i < n; i += 2, ++it)
        if (it == m.rows.end() || !eqv(pairs[i], it->first) || !eqv(pairs[i + 1], it->second[0])) {
          verify_table(T(), s.dbi, m, "before a batch read", true);
          vf_fail("get-batch", "get_batch round %u item %zu: %s, expected %s", rounds, i / 2, hexs(pairs[i]).c_str(),
                  it == m.rows.end() ? "end" : hexs(it->first).c_str());
        }
      if (rc == MDBX_RESULT_TRUE) {
        if (it != m.rows.end())
          vf_fail("get-batch", "get_batch reported the end too early");
        break;
      }
      ++rounds;
      rc = mdbx_cursor_get_batch(c, &n, pairs.data(), limit, MDBX_NEXT);
    }
  } else {
    Pos pos;
    if (rnd_pos(t, pos)) {
      Bytes k = pos.it->first;
      MDBX_val kk = mv(k), vv;
      MUST(mdbx_cursor_get(c, &kk, &vv, MDBX_SET_KEY));
      size_t n = 0;
      MUST(mdbx_cursor_count(c, &n));
      if (n != pos.it->second.size())
        vf_fail("cursor-count", "cursor_count %zu, expected %zu", n, pos.it->second.size());
      if (s.flags & MDBX_DUPFIXED) {
        const size_t es = pos.it->second[0].size();
        auto eat = [&](MDBX_val &d, size_t from) {
          if (d.iov_len == 0 || d.iov_len % es)
            vf_fail("get-multiple", "chunk of %zu bytes for element size %zu", d.iov_len, es);
          for (size_t i = 0; i < d.iov_len / es; ++i)
            if (from + i >= pos.it->second.size() ||
                memcmp((char *)d.iov_base + i * es, pos.it->second[from + i].data(), es))
              vf_fail("get-multiple", "multi-fetch element %zu of key %s differs", from + i, hexs(k).c_str());
          return d.iov_len / es;
        };
        size_t got = 0;
        int rc;
        if (r.chance(50)) {
          rc = mdbx_cursor_get(c, &kk, &vv, MDBX_GET_MULTIPLE);
        } else {
          kk = mv(k);
          rc = mdbx_cursor_get(c, &kk, &vv, MDBX_SEEK_AND_GET_MULTIPLE);
        }
        while (rc == MDBX_SUCCESS) {
          got += eat(vv, got);
          rc = mdbx_cursor_get(c, &kk, &vv, MDBX_NEXT_MULTIPLE);
        }
        if (rc != MDBX_NOTFOUND || got != pos.it->second.size())
          vf_fail("get-multiple", "forward multi-fetch ended with %d after %zu of %zu values", rc, got,
                  pos.it->second.size());
        // backward: pages in reverse order
        if (pos.it->second.size() > 1) {
          MUST(mdbx_cursor_get(c, &kk, &vv, MDBX_LAST_DUP));
          rc = mdbx_cursor_get(c, &kk, &vv, MDBX_GET_MULTIPLE);
          size_t end = pos.it->second.size();
          while (rc == MDBX_SUCCESS) {
            if (vv.iov_len / es > end)
              vf_fail("prev-multiple", "backward multi-fetch overran");
            end -= vv.iov_len / es;
            eat(vv, end);
            rc = mdbx_cursor_get(c, &kk, &vv, MDBX_PREV_MULTIPLE);
          }
          if (rc != MDBX_NOTFOUND || end != 0)
            vf_fail("prev-multiple", "backward multi-fetch ended with %d, %zu values left", rc, end);
        }
      }
    }
  }
  mdbx_cursor_close(c);
}

struct ScanCtx {
  const TableM *m;
  Pos p;
  bool valid;
  int dir, mode; // mode 0 all, 1 nodup, 2 dup
  size_t stop, n;
  std::string bad;
};
static int scan_pred(void *ctx, MDBX_val *key, MDBX_val *value, void *) noexcept {
  ScanCtx &s = *(ScanCtx *)ctx;
  if (!s.valid) {
    s.bad = "predicate called past the end";
    return MDBX_RESULT_TRUE;
  }
  if (!eqv(*key, s.p.it->first) || !eqv(*value, s.p.it->second[s.p.i])) {
    s.bad = "item " + std::to_string(s.n) + ": " + hexs(*key) + "=" + hexs(*value) + " expected " + hexs(s.p.it->first) +
            "=" + hexs(s.p.it->second[s.p.i]);
    return MDBX_RESULT_TRUE;
  }
  if (s.n++ == s.stop)
    return MDBX_RESULT_TRUE;
  if (s.mode == 1) {
    if (s.dir > 0) {
      ++s.p.it;
      s.p.i = 0;
      s.valid = s.p.it != s.m->rows.end();
    } else if (s.p.it == s.m->rows.begin())
      s.valid = false;
    else {
      --s.p.it;
      s.p.i = s.p.it->second.size() - 1;
    }
  } else if (s.mode == 2) {
    if (s.dir > 0) {
      s.valid = s.p.i + 1 < s.p.it->second.size();
      ++s.p.i;
    } else {
      s.valid = s.p.i > 0;
      --s.p.i;
    }
  } else
    s.valid = s.dir > 0 ? next_pos(*s.m, s.p) : prev_pos(*s.m, s.p);
  return MDBX_RESULT_FALSE;
}
void Fuzz::op_scan() {
  unsigned t = (unsigned)r.below(sh.size());
  const Shape &s = sh[t];
  const TableM &m = tab(t);
  if (m.rows.empty())
    return;
  MDBX_cursor *c;
  MUST(mdbx_cursor_open(T(), s.dbi, &c));
  cnt("scans");
  ScanCtx x;
  x.m = &m;
  x.valid = true;
  x.n = 0;
  x.stop = r.chance(50) ? SIZE_MAX : r.below(30);
  x.mode = (int)r.below(m.dup() ? 3 : 2);
  x.dir = r.chance(50) ? 1 : -1;
  static const MDBX_cursor_op fw[] = {MDBX_NEXT, MDBX_NEXT_NODUP, MDBX_NEXT_DUP},
                              bw[] = {MDBX_PREV, MDBX_PREV_NODUP, MDBX_PREV_DUP};
  MDBX_cursor_op turn = x.dir > 0 ? fw[x.mode] : bw[x.mode];
  int rc;
  if (r.chance(50)) {
    if (r.chance(50)) {
      x.p = Pos{m.rows.begin(), 0};
      rc = mdbx_cursor_scan(c, scan_pred, &x, MDBX_FIRST, turn, nullptr);
    } else {
      auto it = std::prev(m.rows.end());
      x.p = Pos{it, it->second.size() - 1};
      rc = mdbx_cursor_scan(c, scan_pred, &x, MDBX_LAST, turn, nullptr);
    }
  } else {
    Bytes k = pick_key(t);
    MDBX_val kk = mv(k), vv = {nullptr, 0};
    auto it = m.rows.lower_bound(k);
    const bool ge = r.chance(50);
    const bool exact = it != m.rows.end() && m.rows.key_comp().f(it->first, k) == 0;
    if (it == m.rows.end() || (!ge && !exact)) {
      x.valid = false;
      rc = mdbx_cursor_scan_from(c, scan_pred, &x, ge ? MDBX_TO_KEY_GREATER_OR_EQUAL : MDBX_SET_KEY, &kk, &vv, turn,
                                 nullptr);
      if (rc != MDBX_NOTFOUND || x.n || !x.bad.empty())
        vf_fail("scan-from", "scan_from an absent key -> %d %s", rc, x.bad.c_str());
      mdbx_cursor_close(c);
      return;
    }
    x.p = Pos{it, 0};
    rc = mdbx_cursor_scan_from(c, scan_pred, &x, ge ? MDBX_TO_KEY_GREATER_OR_EQUAL : MDBX_SET_KEY, &kk, &vv, turn,
                               nullptr);
  }
  if (!x.bad.empty())
    vf_fail("scan", "cursor_scan turn %s: %s", op_name(turn), x.bad.c_str());
  const bool stopped = x.n > 0 && x.n - 1 == x.stop;
  // a NEXT_DUP/PREV_DUP scan over a single value may report NOTFOUND
  if (stopped ? rc != MDBX_RESULT_TRUE
              : !(x.valid == false && (rc == MDBX_RESULT_FALSE || (x.mode == 2 && (rc == MDBX_NOTFOUND || rc == MDBX_ENODATA)))))
    vf_fail("scan", "cursor_scan turn %s ended with %d after %zu items (stop %zu, at end %d)", op_name(turn), rc, x.n,
            x.stop, !x.valid);
  mdbx_cursor_close(c);
}

void Fuzz::op_seq(unsigned t) {
  uint64_t got = 0, inc = r.chance(30) ? 0 : r.below(1000);
  TableM &m = wtab(t);
  int rc = mdbx_dbi_sequence(T(), sh[t].dbi, &got, inc);
  vf_log("seq t%u +%llu -> %d %llu", t, (unsigned long long)inc, rc, (unsigned long long)got);
  cnt("sequence_calls");
  if (rc != MDBX_SUCCESS || got != m.seq)
    vf_fail("sequence", "dbi_sequence(+%llu) -> %d value %llu, expected %llu", (unsigned long long)inc, rc,
            (unsigned long long)got, (unsigned long long)m.seq);
  m.seq += inc;
  if (m.seq > 0 && r.chance(10)) { // overflow is refused
    rc = mdbx_dbi_sequence(T(), sh[t].dbi, &got, UINT64_MAX);
    if (rc != MDBX_RESULT_TRUE)
      vf_fail("sequence", "overflowing increment -> %d", rc);
    rc = mdbx_dbi_sequence(T(), sh[t].dbi, &got, 0);
    if (rc != MDBX_SUCCESS || got != m.seq)
      vf_fail("sequence", "after a refused increment value is %llu, expected %llu", (unsigned long long)got,
              (unsigned long long)m.seq);
  }
}

void Fuzz::op_drop(unsigned t) {
  if (!r.chance(30))
    return;
  vf_log("clear t%u", t);
  MUST(W(mdbx_drop(T(), sh[t].dbi, false)));
  cnt("clears");
  TableM &m = wtab(t);
  for (auto &c : cur)
    if (c.t == t)
      c.st = C_LOST;
  m.rows.clear();
  m.items = 0;
  // whether emptying a table also restarts its sequence is not promised
  uint64_t sq = 0;
  MUST(mdbx_dbi_sequence(T(), sh[t].dbi, &sq, 0));
  if (sq != 0 && sq != m.seq)
    vf_fail("sequence", "after clearing the table its sequence is %llu instead of 0 or %llu", (unsigned long long)sq,
            (unsigned long long)m.seq);
  m.seq = sq;
}

void Fuzz::op_cmisc() {
  MCur &c = any_cursor();
  const TableM &m = tab(c.t);
  switch (r.below(6)) {
  case 0: { // copy keeps the place
    MDBX_cursor *d = mdbx_cursor_create(nullptr);
    if (!d)
      vf_fail("cursor-create", "mdbx_cursor_create returned null");
    MUST(mdbx_cursor_copy(c.c, d));
    if (c.st == C_AT) {
      MCur tmp = c;
      tmp.c = d;
      verify_cursor(tmp, "copied cursor");
      int cmp = mdbx_cursor_compare(c.c, d, false);
      if (cmp != 0)
        vf_fail("cursor-compare", "cursor_compare with its copy -> %d", cmp);
    }
    mdbx_cursor_close(d);
    break;
  }
  case 1: {
    MUST(mdbx_cursor_reset(c.c));
    c.st = C_FRESH;
    break;
  }
  case 2:
    if (c.st == C_AT) {
      Pos pos;
      locate(m, c, pos);
      size_t n = 0;
      MUST(mdbx_cursor_count(c.c, &n));
      if (n != pos.it->second.size())
        vf_fail("cursor-count", "cursor_count %zu, expected %zu", n, pos.it->second.size());
      int f = mdbx_cursor_on_first(c.c), l = mdbx_cursor_on_last(c.c);
      bool wf = pos.it == m.rows.begin() && pos.i == 0;
      bool wl = std::next(pos.it) == m.rows.end() && pos.i + 1 == pos.it->second.size();
      // in a multi-value table the answer may be about the key: the values have their own on_first_dup/on_last_dup
      const bool of = pos.it == m.rows.begin() && pos.i != 0, ol = std::next(pos.it) == m.rows.end() && !wl;
      if (!of && f != (wf ? MDBX_RESULT_TRUE : MDBX_RESULT_FALSE))
        vf_fail("on-first", "cursor_on_first -> %d, expected %d [%s]", f, wf, flags_str(m.flags));
      if (!ol && l != (wl ? MDBX_RESULT_TRUE : MDBX_RESULT_FALSE))
        vf_fail("on-last", "cursor_on_last -> %d, expected %d [%s]", l, wl, flags_str(m.flags));
      int fd = mdbx_cursor_on_first_dup(c.c), ld = mdbx_cursor_on_last_dup(c.c);
      if (fd != (pos.i == 0 ? MDBX_RESULT_TRUE : MDBX_RESULT_FALSE) ||
          ld != (pos.i + 1 == pos.it->second.size() ? MDBX_RESULT_TRUE : MDBX_RESULT_FALSE))
        vf_fail("on-dup", "cursor_on_first_dup %d, on_last_dup %d at value %zu of %zu", fd, ld, pos.i,
                pos.it->second.size());
    }
    break;
  case 3: { // unbind and bind again
    if (c.lvl != lv.size())
      break;
    MUST(mdbx_cursor_unbind(c.c));
    MUST(mdbx_cursor_bind(T(), c.c, sh[c.t].dbi));
    c.st = C_FRESH;
    break;
  }
  case 4: // compare two cursors of the same table
    for (auto &d : cur)
      if (&d != &c && d.t == c.t && d.st == C_AT && c.st == C_AT) {
        int want = m.rows.key_comp().f(c.k, d.k);
        if (!want && m.dup())
          want = m.vcmp(c.v, d.v);
        int got = mdbx_cursor_compare(c.c, d.c, false);
        if ((got > 0) - (got < 0) != (want > 0) - (want < 0))
          vf_fail("cursor-compare", "cursor_compare -> %d, order is %d", got, want);
        break;
      }
    break;
  default:
    if (c.lvl == lv.size()) {
      mdbx_cursor_close(c.c);
      cur.erase(cur.begin() + (&c - cur.data()));
    }
    break;
  }
}

// ------------------------------------------------------------- transactions
void Fuzz::begin_nested() {
  Level n;
  n.db = L().db;
  n.saved = cur;
  int rc = W(mdbx_txn_begin(env, T(), MDBX_TXN_READWRITE, &n.txn));
  if (rc != MDBX_SUCCESS)
    vf_fail("nested-begin", "nested txn_begin -> %d", rc);
  vf_log("nested begin -> level %zu", lv.size() + 1);
  lv.push_back(std::move(n));
  cnt("nested_begun");
}
void Fuzz::end_nested(bool commit) {
  check_cursors("before nested end", 50);
  close_cursors((unsigned)lv.size());
  vf_log("nested %s level %zu", commit ? "commit" : "abort", lv.size());
  Level n = std::move(lv.back());
  lv.pop_back();
  if (commit) {
    MUST(mdbx_txn_commit(n.txn));
    L().db = std::move(n.db);
    cnt("nested_committed");
  } else {
    MUST(mdbx_txn_abort(n.txn));
    cnt("nested_aborted");
    if (geo_in_txn && (mdbx_txn_flags(T()) & MDBX_TXN_ERROR))
      throw TxnFull{MDBX_UNABLE_EXTEND_MAPSIZE, false}; // the mapping cut inside could not be extended back
    // cursors of the outer levels are back where they were
    std::vector<MCur> now = cur;
    cur.clear();
    for (auto &s : n.saved)
      for (auto &x : now)
        if (x.c == s.c)
          cur.push_back(s);
  }
  check_cursors(commit ? "after nested commit" : "after nested abort");
}

void Fuzz::reader_step() {
  if (rd.size() < p.readers && r.chance(50)) {
    Reader x;
    MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &x.txn));
    x.db = committed;
    rd.push_back(std::move(x));
    cnt("readers_begun");
  } else if (!rd.empty()) {
    size_t i = r.below(rd.size());
    if (r.chance(40))
      full_verify(rd[i].txn, rd[i].db, "old reader", false);
    cnt("reader_checks");
    if (p.cache)
      cache_check(rd[i].txn, rd[i].db, (unsigned)r.below(sh.size()), "old reader");
    unsigned w = (unsigned)r.below(10);
    if (w < 3) {
      MUST(mdbx_txn_abort(rd[i].txn));
      rd.erase(rd.begin() + (long)i);
    } else if (w < 5) {
      MUST(mdbx_txn_reset(rd[i].txn));
      MUST(mdbx_txn_renew(rd[i].txn));
      rd[i].db = committed;
    }
  }
}

void Fuzz::one_op() {
  unsigned t = (unsigned)r.below(sh.size());
  struct {
    unsigned w;
    int id;
  } tab_[] = {{p.put, 0},   {p.del, 1},   {p.get, 2},    {p.replace, 3}, {p.multi, 4}, {p.bulk, 5},  {p.cget, 6},
              {p.cput, 7},  {p.cdel, 8},  {p.batch, 9},  {p.scan, 10},   {p.bunch, 11}, {p.range, 12}, {p.seq, 13},
              {p.drop, 14}, {p.misuse, 15}, {p.cache, 16}, {p.verify, 17}, {p.cmisc, 18}, {p.canary, 19}, {p.est, 20}};
  unsigned total = 0;
  for (auto &x : tab_)
    total += x.w;
  unsigned w = (unsigned)r.below(total);
  int id = 0;
  for (auto &x : tab_) {
    if (w < x.w) {
      id = x.id;
      break;
    }
    w -= x.w;
  }
  if (r.permille(30)) {
    keymode = (int)r.below(4);
    seq_id = r.below(sh[t].U);
  }
  if (id <= 1 && r.chance(15))
    check_cursors("before modification", 50);
  switch (id) {
  case 0: op_put(t, nullptr); break;
  case 1: op_del(t); break;
  case 2: op_get(t); break;
  case 3: op_replace(t); break;
  case 4: op_multi(t); break;
  case 5: op_bulk(t); break;
  case 6: op_cget(); break;
  case 7: op_cput(); break;
  case 8: op_cdel(); break;
  case 9: op_batch(); break;
  case 10: op_scan(); break;
  case 11: op_bunch(); break;
  case 12: op_range(); break;
  case 13: op_seq(t); break;
  case 14: op_drop(t); break;
  case 15: op_misuse(t); break;
  case 16: op_cache(t); break;
  case 17:
    if (r.chance(40))
      full_verify(T(), L().db, "inside transaction", r.chance(30));
    break;
  case 18: op_cmisc(); break;
  case 19: {
    MDBX_canary c = {r.next(), r.next(), r.next(), 0};
    MUST(mdbx_canary_put(T(), &c));
    L().db.canary = c;
    MDBX_canary g;
    MUST(mdbx_canary_get(T(), &g));
    if (g.x != c.x || g.y != c.y || g.z != c.z)
      vf_fail("canary", "canary read back differs");
    cnt("canary_puts");
    break;
  }
  case 20: op_est(t); break;
  }
  cnt("ops");
  if (r.chance(id <= 8 ? 25 : 5))
    check_cursors("after operation", 60);
}

void Fuzz::write_txn() {
  lv.clear();
  cur.clear();
  Level l;
  l.db = committed;
  int rc = mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &l.txn);
  if (rc == MDBX_UNABLE_EXTEND_MAPSIZE && geo_was_in_txn) {
    cnt("remap_refused"); // the address space after a mapping cut by an aborted transaction is taken by now
    return;
  }
  if (rc != MDBX_SUCCESS)
    vf_fail("begin", "mdbx_txn_begin -> %d %s", rc, mdbx_strerror(rc));
  geo_in_txn = false;
  lv.push_back(std::move(l));
  cnt("write_txns");
  next_phase();
  unsigned n = 1 + (unsigned)r.below(p.ops_per_txn * 2);
  vf_log("txn begin, %u ops", n);
  keymode = (int)r.below(4);
  try {
    txn_body(n);
    while (geo_in_txn && lv.size() > 1)
      end_nested(!r.chance(p.nabort_pct));
  } catch (TxnFull &x) {
    bool small = false;
    for (auto &o : cfg.opts)
      small |= o.first == MDBX_opt_txn_dp_limit;
    vf_log(x.rc == MDBX_TXN_FULL ? "MDBX_TXN_FULL" : "MDBX_MAP_FULL");
    if (x.rc == MDBX_UNABLE_EXTEND_MAPSIZE) {
      if (!geo_was_in_txn)
        vf_fail("extend", "MDBX_UNABLE_EXTEND_MAPSIZE inside the limits the mapping was made with");
      cnt("remap_refused");
    } else if (x.rc == MDBX_MAP_FULL)
      note_map_full();
    else {
      if (!small)
        vf_fail("txn-full", "MDBX_TXN_FULL without a small limit of dirty pages");
      cnt("txn_full");
    }
    for (auto &c : cur)
      mdbx_cursor_close(c.c);
    cur.clear();
    while (!lv.empty()) {
      if (!x.ended)
        MUST(mdbx_txn_abort(T()));
      lv.pop_back();
    }
    after_full(x.rc);
    return;
  }
  txn_end();
}
void Fuzz::txn_body(unsigned n) {
  while (n--) {
    if (!next_step())
      continue;
    if (p.nested_pm && r.permille(p.nested_pm) && lv.size() < 5 && !(cfg.flags & MDBX_WRITEMAP))
      begin_nested();
    else if (lv.size() > 1 && r.permille(p.nested_pm * 2 + 5)) {
      end_nested(!r.chance(p.nabort_pct));
      if (r.chance(40))
        full_verify(T(), L().db, "after nested end", false);
    }
    one_op();
    if (args.num("paranoid") == step)
      full_verify(T(), L().db, "after a step", false);
    if (r.permille(8))
      reader_step();
    if (r.permille(p.copy_pm))
      op_copy(true);
    if (r.permille(p.geo_pm))
      op_geo();
    if (lv.size() == 1 && r.permille(p.defrag_pm)) {
      close_cursors(0);
      op_defrag(true);
      committed = L().db; // it commits on the way
      full_verify(T(), L().db, "after defragmentation inside a transaction", r.chance(30));
    }
    // keep what was done so far, go on in the same transaction object
    if (lv.size() == 1 && r.permille(4)) {
      close_cursors(1);
      int rc = mdbx_txn_checkpoint(T(), MDBX_TXN_NOWEAKING, nullptr);
      vf_log("checkpoint -> %d", rc);
      if (rc == MDBX_MAP_FULL && p.geo_pct)
        throw TxnFull{rc, true};
      if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
        vf_fail("checkpoint", "txn_checkpoint -> %d", rc);
      committed = L().db;
      cnt("checkpoints");
      if (r.chance(30))
        full_verify(T(), L().db, "after checkpoint", false);
    }
  }
}
void Fuzz::txn_end() {
  next_phase();
  while (lv.size() > 1)
    end_nested(!r.chance(p.nabort_pct));
  check_cursors("end of transaction");
  if (r.chance(30))
    full_verify(T(), L().db, "before commit", r.chance(30));
  // cursors may stay open over the end of the transaction
  if (r.chance(50))
    close_cursors(0);
  const bool abort = r.chance(p.abort_pct);
  int rc;
  if (abort) {
    rc = mdbx_txn_abort(T());
    cnt("aborts");
  } else if (r.chance(10)) {
    MDBX_txn *x = T();
    rc = mdbx_txn_commit_embark_read(&x, nullptr);
    if (rc == MDBX_SUCCESS || rc == MDBX_RESULT_TRUE) {
      committed = L().db;
      full_verify(x, committed, "commit_embark_read", false);
      MUST(mdbx_txn_abort(x));
      rc = MDBX_SUCCESS;
    } else if ((rc == MDBX_MAP_FULL || (rc == MDBX_UNABLE_EXTEND_MAPSIZE && geo_was_in_txn)) && p.geo_pct) {
      cnt("map_full_commit");
      for (auto &c : cur)
        mdbx_cursor_close(c.c);
      cur.clear();
      lv.clear();
      after_full(rc);
      return;
    }
    cnt("commits");
  } else {
    rc = mdbx_txn_commit(T());
    if ((rc == MDBX_MAP_FULL || (rc == MDBX_UNABLE_EXTEND_MAPSIZE && geo_was_in_txn)) && p.geo_pct) {
      cnt("map_full_commit");
      for (auto &c : cur)
        mdbx_cursor_close(c.c);
      cur.clear();
      lv.clear();
      after_full(rc);
      return;
    }
    committed = L().db;
    cnt("commits");
  }
  vf_log("txn %s -> %d", abort ? "abort" : "commit", rc);
  if (rc != MDBX_SUCCESS)
    vf_fail("txn-end", "%s -> %d", abort ? "abort" : "commit", rc);
  for (auto &c : cur)
    mdbx_cursor_close(c.c);
  cur.clear();
  lv.clear();
}

void Fuzz::run() {
  std::string sks = args.str("skip", "");
  if (!sks.empty() && sks[0] == '@') {
    if (FILE *f = fopen(sks.c_str() + 1, "r")) {
      unsigned long long x;
      while (fscanf(f, "%llu", &x) == 1)
        skip.insert(x);
      fclose(f);
    }
  }
  cfg = make_cfg(r);
  path = scratch_dir() + "/db";
  unlink(path.c_str());
  unlink((path + "-lck").c_str());
  // limits depend on the page size, so settle it first
  for (unsigned i = 0; i < p.tables; ++i)
    sh.push_back(make_shape(r, p.kinds, cfg.page, strf("t%u", i)));
  vf.context = cfg.str();
  for (auto &s : sh)
    vf.context += strf(" {%s[%s] U=%u k%d v%d VU=%u}", s.name.c_str(), flags_str(s.flags), s.U, s.kcls, s.vcls, s.VU);
  vf_log("case %s", vf.context.c_str());
  {
    MUST(mdbx_env_create(&env));
    MUST(mdbx_env_set_maxdbs(env, 40));
    MUST(mdbx_env_set_option(env, MDBX_opt_max_readers, 60));
    MUST(mdbx_env_close(env));
    env = nullptr;
  }
  open_env(true);
  open_tables(true);
  unsigned n = p.txns / 2 + (unsigned)r.below(p.txns);
  for (unsigned i = 0; i < n; ++i) {
    write_txn();
    next_phase();
    between();
    reader_step();
    if (r.chance(25)) {
      MDBX_txn *txn;
      MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &txn));
      full_verify(txn, committed, "fresh reader", r.chance(50));
      MDBX_canary g;
      MUST(mdbx_canary_get(txn, &g));
      if (g.x != committed.canary.x || g.y != committed.canary.y || g.z != committed.canary.z)
        vf_fail("canary", "committed canary differs");
      MUST(mdbx_txn_abort(txn));
    }
    if (r.chance(p.audit_pct))
      audit_file("between transactions");
    if (r.chance(p.reopen_pct)) {
      for (auto &x : rd)
        MUST(mdbx_txn_abort(x.txn));
      rd.clear();
      close_env();
      if (r.chance(50)) { // another mode on the same file
        EnvCfg o = make_cfg(r);
        o.page = cfg.page;
        cfg = o;
      }
      open_env(false);
      open_tables(false);
      cnt("reopens");
    }
  }
  for (auto &x : rd) {
    full_verify(x.txn, x.db, "last look of a reader", false);
    MUST(mdbx_txn_abort(x.txn));
  }
  rd.clear();
  MDBX_txn *txn;
  MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &txn));
  full_verify(txn, committed, "final", true);
  MUST(mdbx_txn_abort(txn));
  close_env();
  audit_file("final");
  uint64_t h = hash_bytes(vf.context.data(), vf.context.size());
  for (auto &t : committed.t)
    h = mix64(h ^ t.second->items ^ (uint64_t)t.second->rows.size() << 32);
  distinct(h);
  cnt("cases");
  vf_sample(strf("%s -> %s", vf.context.c_str(), [&] {
                   std::string s;
                   for (auto &t : committed.t)
                     s += strf("%s:%llu items ", t.first.c_str(), (unsigned long long)t.second->items);
                   return s;
                 }()
                                                     .c_str()));
}
