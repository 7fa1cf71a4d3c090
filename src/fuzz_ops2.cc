// Bulk deletion, range arithmetic, cached lookups, misuse.
#include "fuzz.h"

typedef std::vector<std::pair<Bytes, Bytes>> Pairs;

// ordinal number of a position
static uint64_t ordinal(const TableM &m, const Pos &p) {
  uint64_t n = 0;
  for (auto it = m.rows.begin(); it != p.it; ++it)
    n += it->second.size();
  return n + p.i;
}
static bool pos_at(const TableM &m, uint64_t n, Pos &p) {
  for (auto it = m.rows.begin(); it != m.rows.end(); ++it) {
    if (n < it->second.size()) {
      p.it = it;
      p.i = n;
      return true;
    }
    n -= it->second.size();
  }
  return false;
}
// a position with a bias to ends of the table, of pages and of values
static bool biased_pos(Fuzz &f, unsigned t, Pos &p) {
  const TableM &m = f.tab(t);
  if (m.rows.empty())
    return false;
  switch (f.r.below(8)) {
  case 0:
    return pos_at(m, f.r.below(std::min<uint64_t>(3, m.items)), p);
  case 1:
    return pos_at(m, m.items - 1 - f.r.below(std::min<uint64_t>(3, m.items)), p);
  default:
    return f.rnd_pos(t, p);
  }
}
static bool put_cursor(Fuzz &f, MDBX_cursor *c, unsigned t, const Pos &p) {
  const TableM &m = f.tab(t);
  MDBX_val k = mv(p.it->first), v = mv(p.it->second[p.i]);
  int rc = m.dup() ? mdbx_cursor_get(c, &k, &v, MDBX_GET_BOTH) : mdbx_cursor_get(c, &k, &v, MDBX_SET_KEY);
  if (rc != MDBX_SUCCESS)
    vf_fail("position", "seek of an existing pair -> %d", rc);
  (void)f;
  return true;
}
static bool lands_at(MDBX_cursor *c, const Pos &p) {
  MDBX_val k, v;
  int rc = mdbx_cursor_get(c, &k, &v, MDBX_GET_CURRENT);
  return rc == MDBX_SUCCESS && eqv(k, p.it->first) && eqv(v, p.it->second[p.i]);
}

static void drop_pairs(Fuzz &f, unsigned t, const Pairs &dels, MCur *self) {
  const uint64_t before = f.tab(t).items;
  if (dels.size() * 2 > before && dels.size() > 2000) { // the most: rebuild
    for (auto &c : f.cur)
      if (&c != self && c.t == t && (c.st == C_AT || c.st == C_DELETED))
        c.st = C_LOST;
  } else
    for (auto &d : dels)
      f.note_del_pair(t, d.first, d.second, self);
  TableM &m = f.wtab(t);
  for (size_t i = 0; i < dels.size();) {
    auto it = m.rows.find(dels[i].first);
    size_t j = i;
    while (j < dels.size() && m.rows.key_comp().f(dels[j].first, dels[i].first) == 0)
      ++j;
    if (j - i == it->second.size()) {
      m.items -= j - i;
      m.rows.erase(it);
    } else
      for (size_t x = i; x < j; ++x)
        if (!m.del(dels[x].first, dels[x].second))
          vf_harness_error("drop_pairs");
    i = j;
  }
  weaken(f.cur, t, self);
}

void Fuzz::op_bunch() {
  MCur &c = any_cursor();
  const unsigned t = c.t;
  const TableM &m = tab(t);
  Pos pos;
  if (r.chance(5)) { // not positioned
    MDBX_cursor *x;
    MUST(mdbx_cursor_open(T(), sh[t].dbi, &x));
    uint64_t n = 77;
    int a = (int)r.below(10);
    int rc = mdbx_cursor_bunch_delete(x, (MDBX_bunch_action_t)a, &n);
    if (rc != MDBX_ENODATA || n)
      vf_fail("bunch-unset", "bunch_delete (action %d) by an unset cursor -> %d, removed %llu items", a, rc, (unsigned long long)n);
    mdbx_cursor_close(x);
    return;
  }
  if (!biased_pos(*this, t, pos))
    return;
  put_cursor(*this, c.c, t, pos);
  set_at(c, pos);
  int a = (int)r.below(11);
  if (a >= MDBX_DELETE_BEFORE_EXCLUDING && m.items > 60 && r.chance(60))
    a = (int)r.below(6); // wiping most of the table all the time leaves nothing to look at
  Pairs d;
  const Vals &vs = pos.it->second;
  auto add_vals = [&](size_t from, size_t to) {
    for (size_t i = from; i < to; ++i)
      d.emplace_back(pos.it->first, vs[i]);
  };
  auto add_rows = [&](Rows::const_iterator from, Rows::const_iterator to) {
    for (auto it = from; it != to; ++it)
      for (auto &v : it->second)
        d.emplace_back(it->first, v);
  };
  const size_t i = pos.i, n = vs.size();
  bool keep = false;
  switch (a) {
  case MDBX_DELETE_CURRENT_VALUE: add_vals(i, i + 1); break;
  case MDBX_DELETE_CURRENT_MULTIVAL_BEFORE_EXCLUDING: add_vals(0, i), keep = true; break;
  case MDBX_DELETE_CURRENT_MULTIVAL_BEFORE_INCLUDING: add_vals(0, i + 1); break;
  case MDBX_DELETE_CURRENT_MULTIVAL_AFTER_INCLUDING: add_vals(i, n); break;
  case MDBX_DELETE_CURRENT_MULTIVAL_AFTER_EXCLUDING: add_vals(i + 1, n); break;
  case MDBX_DELETE_CURRENT_MULTIVAL_ALL: add_vals(0, n); break;
  case MDBX_DELETE_BEFORE_EXCLUDING: add_rows(m.rows.begin(), pos.it), add_vals(0, i), keep = true; break;
  case MDBX_DELETE_BEFORE_INCLUDING: add_rows(m.rows.begin(), pos.it), add_vals(0, i + 1); break;
  case MDBX_DELETE_AFTER_INCLUDING: add_vals(i, n), add_rows(std::next(pos.it), m.rows.end()); break;
  case MDBX_DELETE_AFTER_EXCLUDING: add_vals(i + 1, n), add_rows(std::next(pos.it), m.rows.end()); break;
  case MDBX_DELETE_WHOLE: add_rows(m.rows.begin(), m.rows.end()); break;
  }
  uint64_t got = 12345;
  vf_log("bunch c%u t%u action %d at %s=%s of %llu ...", c.id, t, a, hexs(c.k, 12).c_str(), hexs(c.v, 12).c_str(),
         (unsigned long long)m.items);
  int rc = W(mdbx_cursor_bunch_delete(c.c, (MDBX_bunch_action_t)a, &got));
  vf_log("bunch -> %d, %llu, expected %zu", rc, (unsigned long long)got, d.size());
  if (rc != MDBX_SUCCESS)
    vf_fail("bunch-rc", "bunch_delete action %d at %s=%s (value %zu of %zu) -> %d", a, hexs(c.k).c_str(),
            hexs(c.v).c_str(), i, n, rc);
  if (got != d.size())
    vf_fail("bunch-count", "bunch_delete action %d reported %llu items, expected %zu", a, (unsigned long long)got,
            d.size());
  cnt("bunch_deletes");
  cnt("bunch_deleted_items", got);
  drop_pairs(*this, t, d, &c);
  if (!keep)
    c.st = C_LOST;
  distinct(hash_bytes(&got, 8, mix64(m.items * 16 + a)));
  MDBX_stat st;
  MUST(mdbx_dbi_stat(T(), sh[t].dbi, &st, sizeof st));
  if (st.ms_entries != tab(t).items)
    vf_fail("bunch-items", "after bunch_delete action %d: %llu entries, expected %llu", a,
            (unsigned long long)st.ms_entries, (unsigned long long)tab(t).items);
  check_cursors("after bunch_delete");
  if (r.chance(50))
    verify_table(T(), sh[t].dbi, tab(t), "after bunch_delete", r.chance(30));
}

void Fuzz::op_range() {
  const unsigned t = (unsigned)r.below(sh.size());
  const TableM &m = tab(t);
  Pos a, b;
  if (!biased_pos(*this, t, a) || !biased_pos(*this, t, b))
    return;
  uint64_t oa = ordinal(m, a), ob = ordinal(m, b);
  if (r.chance(60)) { // near each other
    ob = oa + r.below(r.chance(50) ? 6 : 60);
    if (ob >= m.items)
      ob = m.items - 1;
    pos_at(m, ob, b);
  }
  if (oa > ob && !r.chance(10)) {
    std::swap(a, b);
    std::swap(oa, ob);
  }
  bool nobeg = r.chance(8), noend = !nobeg && r.chance(8);
  const bool incl = r.chance(50);
  CurG ca(T(), sh[t].dbi), cb(T(), sh[t].dbi);
  put_cursor(*this, ca, t, a);
  put_cursor(*this, cb, t, b);
  Pairs d;
  if (nobeg)
    oa = 0;
  if (noend)
    ob = m.items - 1;
  const bool inverted = oa > ob;
  if (!inverted) {
    Pos p;
    pos_at(m, oa, p);
    // without the end everything up to and including the last item goes, with `end_including`;
    for (uint64_t i = oa; i < ob + (incl ? 1 : 0); ++i) {
      d.emplace_back(p.it->first, p.it->second[p.i]);
      if (i + 1 < ob + (incl ? 1 : 0) && !next_pos(m, p))
        break;
    }
  }
  uint64_t got = 12345;
  vf_log("delete_range t%u [%lld..%lld%s of %llu %s%s ...", t, nobeg ? -1ll : (long long)oa,
         noend ? -1ll : (long long)ob, incl ? "]" : ")", (unsigned long long)m.items, hexs(a.it->first, 10).c_str(),
         hexs(b.it->first, 10).c_str());
  int rc = W(mdbx_cursor_delete_range(nobeg ? nullptr : ca, noend ? nullptr : cb, incl, &got));
  vf_log("delete_range -> %d, %llu, expected %zu", rc, (unsigned long long)got, d.size());
  if (inverted) {
    if (rc == MDBX_SUCCESS && got)
      vf_fail("range-inverted", "delete_range of an inverted range removed %llu items", (unsigned long long)got);
    if (rc != MDBX_ENODATA && rc != MDBX_SUCCESS)
      vf_fail("range-inverted", "delete_range of an inverted range -> %d", rc);
  } else {
    if (rc != MDBX_SUCCESS)
      vf_fail("range-rc", "delete_range [%llu..%llu incl=%d] -> %d", (unsigned long long)oa, (unsigned long long)ob,
              incl, rc);
    if (got != d.size() && !(noend && !incl && got == d.size() + 1))
      vf_fail("range-count", "delete_range reported %llu items, expected %zu", (unsigned long long)got, d.size());
    if (got == d.size() + 1) { // "up to the last item": whether the flag matters then is not documented
      Pos p;
      pos_at(m, m.items - 1, p);
      d.emplace_back(p.it->first, p.it->second[p.i]);
    }
  }
  cnt("range_deletes");
  cnt("range_deleted_items", d.size());
  drop_pairs(*this, t, d, nullptr);
  distinct(hash_bytes(&got, 8, mix64(m.items * 16 + 13 + oa)));
  MDBX_stat st;
  MUST(mdbx_dbi_stat(T(), sh[t].dbi, &st, sizeof st));
  if (st.ms_entries != tab(t).items)
    vf_fail("range-items", "after delete_range: %llu entries, expected %llu", (unsigned long long)st.ms_entries,
            (unsigned long long)tab(t).items);
  check_cursors("after delete_range");
  if (r.chance(50))
    verify_table(T(), sh[t].dbi, tab(t), "after delete_range", r.chance(30));
}

// distance, scroll, distribute, estimations
void Fuzz::op_est(unsigned t) {
  const TableM &m = tab(t);
  const MDBX_dbi dbi = sh[t].dbi;
  Pos a, b;
  if (!biased_pos(*this, t, a) || !biased_pos(*this, t, b)) {
    ptrdiff_t e = 77;
    int rc = mdbx_estimate_range(T(), dbi, nullptr, nullptr, nullptr, nullptr, &e);
    if (rc != MDBX_SUCCESS || e != 0)
      vf_fail("estimate-empty", "estimate_range over an empty table -> %d, %zd", rc, e);
    cnt("estimates");
    return;
  }
  const int64_t oa = (int64_t)ordinal(m, a), ob = (int64_t)ordinal(m, b), total = (int64_t)m.items;
  MDBX_cursor *ca, *cb;
  MUST(mdbx_cursor_open(T(), dbi, &ca));
  MUST(mdbx_cursor_open(T(), dbi, &cb));
  put_cursor(*this, ca, t, a);
  put_cursor(*this, cb, t, b);
  static const unsigned deeps[] = {42, INT_MAX, 100};
  const unsigned deep = deeps[r.below(3)];
  switch (r.below(5)) {
  case 0: { // distance
    intptr_t d = -777;
    bool nf = r.chance(10), nl = !nf && r.chance(10);
    int rc = mdbx_cursor_distance(nf ? nullptr : ca, nl ? nullptr : cb, &d, deep);
    const int64_t lo = nf ? 0 : oa, hi = nl ? total - 1 : ob;
    vf_log("distance t%u %lld..%lld of %lld -> %d %zd", t, (long long)lo, (long long)hi, (long long)total, rc, d);
    if (rc != MDBX_SUCCESS)
      vf_fail("distance-rc", "cursor_distance -> %d", rc);
    if (d != hi - lo)
      vf_fail("distance", "cursor_distance of items %lld and %lld of %lld -> %zd", (long long)lo, (long long)hi,
              (long long)total, d);
    if (!lands_at(ca, a) || !lands_at(cb, b))
      vf_fail("distance-moved", "cursor_distance moved a cursor");
    cnt("distances");
    distinct(mix64((uint64_t)lo * 100003 + (uint64_t)hi) ^ (uint64_t)total);
    break;
  }
  case 1: { // scroll
    int64_t n = r.chance(40) ? ob - oa : r.range(-oa - 3, total - oa + 3);
    if (r.chance(30))
      n = r.range(-5, 5);
    int rc = mdbx_cursor_scroll(ca, n, deep);
    vf_log("scroll t%u %lld by %lld of %lld -> %d", t, (long long)oa, (long long)n, (long long)total, rc);
    const bool in = oa + n >= 0 && oa + n < total;
    if (in) {
      Pos p;
      pos_at(m, (uint64_t)(oa + n), p);
      if (rc != MDBX_SUCCESS)
        vf_fail("scroll-rc", "cursor_scroll by %lld from item %lld of %lld -> %d", (long long)n, (long long)oa,
                (long long)total, rc);
      if (!lands_at(ca, p))
        vf_fail("scroll", "cursor_scroll by %lld from item %lld of %lld came to another item", (long long)n,
                (long long)oa, (long long)total);
    } else if (rc != MDBX_NOTFOUND)
      vf_fail("scroll-rc", "cursor_scroll by %lld from item %lld of %lld -> %d", (long long)n, (long long)oa,
              (long long)total, rc);
    cnt("scrolls");
    distinct(mix64((uint64_t)oa * 100003 + (uint64_t)n) ^ (uint64_t)total);
    break;
  }
  case 2: { // distribute
    int64_t lo = std::min(oa, ob), hi = std::max(oa, ob);
    if (oa > ob)
      std::swap(ca, cb);
    const unsigned n = 1 + (unsigned)r.below(r.chance(20) ? 40 : 9);
    std::vector<MDBX_cursor *> arr(n);
    for (auto &x : arr)
      MUST(mdbx_cursor_open(T(), dbi, &x));
    bool nf = r.chance(10), nl = !nf && r.chance(10);
    if (nf)
      lo = 0;
    if (nl)
      hi = total - 1;
    int rc = mdbx_cursor_distribute(nf ? nullptr : ca, nl ? nullptr : cb, arr.data(), n, deep);
    vf_log("distribute t%u %u over %lld..%lld of %lld -> %d", t, n, (long long)lo, (long long)hi, (long long)total, rc);
    if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
      vf_fail("distribute-rc", "cursor_distribute of %u cursors over %lld..%lld of %lld -> %d", n, (long long)lo,
              (long long)hi, (long long)total, rc);
    int64_t prev = lo - 1;
    unsigned unset = 0, set = 0;
    int64_t maxgap = 0, mingap = INT64_MAX;
    for (unsigned i = 0; i < n; ++i) {
      MDBX_val k, v;
      int e = mdbx_cursor_get(arr[i], &k, &v, MDBX_GET_CURRENT);
      if (e != MDBX_SUCCESS) {
        ++unset;
        continue;
      }
      if (unset)
        vf_fail("distribute-hole", "cursor %u of %u is set after unset ones", i, n);
      Pos p;
      p.it = m.rows.find(bs(k));
      if (p.it == m.rows.end())
        vf_fail("distribute", "cursor_distribute put a cursor at a key which is absent");
      p.i = m.dup() ? m.vlower(p.it->second, bs(v)) : 0;
      int64_t o = (int64_t)ordinal(m, p);
      if (o <= prev || o > hi)
        vf_fail("distribute-order", "cursor %u of %u over %lld..%lld stands at %lld, the previous one at %lld", i, n,
                (long long)lo, (long long)hi, (long long)o, (long long)prev);
      if (i) {
        maxgap = std::max(maxgap, o - prev);
        mingap = std::min(mingap, o - prev);
      }
      prev = o;
      ++set;
    }
    vf_log("  set %u gaps %lld..%lld", set, (long long)mingap, (long long)maxgap);
    if (rc == MDBX_SUCCESS && unset)
      vf_fail("distribute-unset", "cursor_distribute returned success with %u unset cursors of %u", unset, n);
    if (hi - lo + 1 >= (int64_t)n + 2 && unset)
      vf_fail("distribute-short", "cursor_distribute left %u of %u cursors unset over %lld items", unset, n,
              (long long)(hi - lo + 1));
    for (auto x : arr)
      mdbx_cursor_close(x);
    cnt("distributes");
    distinct(mix64((uint64_t)lo * 100003 + (uint64_t)hi + n * 77) ^ (uint64_t)total);
    break;
  }
  case 3: { // estimate_distance of cursors
    ptrdiff_t e = 0, e2 = 0;
    int rc = mdbx_estimate_distance(ca, cb, &e), rc2 = mdbx_estimate_distance(cb, ca, &e2);
    vf_log("estimate_distance t%u %lld..%lld of %lld -> %d %zd / %d %zd", t, (long long)oa, (long long)ob,
           (long long)total, rc, e, rc2, e2);
    if (rc != MDBX_SUCCESS || rc2 != MDBX_SUCCESS)
      vf_fail("estimate-rc", "estimate_distance -> %d/%d", rc, rc2);
    if (oa == ob ? e != 0 || e2 != 0 : oa < ob ? e < 0 || e2 > 0 : e > 0 || e2 < 0)
      vf_fail("estimate-sign", "estimate_distance of items %lld and %lld of %lld -> %zd, backwards %zd", (long long)oa,
              (long long)ob, (long long)total, e, e2);
    MDBX_stat st;
    MUST(mdbx_dbi_stat(T(), dbi, &st, sizeof st));
    if (st.ms_depth == 1 && !m.dup() && e != ob - oa)
      vf_fail("estimate-exact", "estimate_distance on the same page: %zd instead of %lld", e, (long long)(ob - oa));
    cnt("estimates");
    distinct(mix64((uint64_t)oa * 100003 + (uint64_t)ob + 5) ^ (uint64_t)total);
    break;
  }
  case 4: { // estimate_range by keys
    Bytes bk = r.chance(70) ? a.it->first : pick_key(t), ek = r.chance(70) ? b.it->first : pick_key(t);
    MDBX_val kb = mv(bk), ke = mv(ek);
    const bool nob = r.chance(15), noe = r.chance(15), eps = !nob && !noe && r.chance(15);
    ptrdiff_t e = 0;
    int rc = mdbx_estimate_range(T(), dbi, nob ? nullptr : &kb, nullptr, noe ? nullptr : eps ? MDBX_EPSILON : &ke,
                                 nullptr, &e);
    if (rc != MDBX_SUCCESS)
      vf_fail("estimate-rc", "estimate_range -> %d", rc);
    // the exact answer: pairs of keys within [bk, ek)
    auto bi = nob ? m.rows.begin() : m.rows.lower_bound(bk);
    auto ei = noe ? m.rows.end() : m.rows.lower_bound(ek);
    int kc = nob || noe ? -1 : m.rows.key_comp().f(bk, ek);
    int64_t n = 0;
    if (eps) {
      n = m.rows.count(bk) ? (int64_t)m.rows.find(bk)->second.size() : 0;
    } else if (kc <= 0)
      for (auto it = bi; it != ei; ++it)
        n += (int64_t)it->second.size();
    else
      for (auto it = ei; it != bi; ++it)
        n -= (int64_t)it->second.size();
    vf_log("estimate_range t%u -> %zd, exactly %lld%s", t, e, (long long)n, eps ? " (eps)" : "");
    MDBX_stat st;
    MUST(mdbx_dbi_stat(T(), dbi, &st, sizeof st));
    // begin_key == end_key means the key itself; without the end key the last item is the end
    const int64_t key_items = kc == 0 && m.rows.count(bk) ? (int64_t)m.rows.find(bk)->second.size() : 0;
    // an end beyond the last item may be taken for the last item
    const int64_t be = bi == m.rows.end(), ee = ei == m.rows.end();
    auto near = [&](int64_t x) {
      return e == x || (kc == 0 && e == key_items) || (ee && e == x - 1) || (be && e == x + 1) || (be && ee && e == 0);
    };
    if ((n == 0 && e != 0 && !eps && kc != 0) || (n > 0 && e < 0) || (n < 0 && e > 0))
      vf_fail("estimate-sign", "estimate_range nob=%d noe=%d eps=%d of %lld items (%lld in total) -> %zd", nob, noe,
              eps, (long long)n, (long long)total, e);
    if ((eps || kc == 0) && key_items == 0 && n == 0 && e != 0)
      vf_fail("estimate-absent", "estimate_range of an absent key -> %zd", e);
    if (st.ms_depth == 1 && !m.dup() && !near(n))
      vf_fail("estimate-exact", "estimate_range on one page nob=%d noe=%d eps=%d: %zd instead of %lld", nob, noe, eps, e,
              (long long)n);
    cnt("estimates");
    break;
  }
  }
  mdbx_cursor_close(ca);
  mdbx_cursor_close(cb);
}


// Wrong calls: each must be refused with an error of the documented kind, and
// the model, which does not change, is what later checks compare with.
static void refused(const char *what, int rc, std::initializer_list<int> ok) {
  cnt("misuses");
  for (int x : ok)
    if (rc == x) {
      cnt(strf("refused_%d", rc).c_str());
      return;
    }
  vf_fail("misuse", "%s -> %d (%s)", what, rc, mdbx_strerror(rc));
}
void Fuzz::op_misuse(unsigned t) {
  const Shape &s = sh[t];
  MDBX_txn *txn = T();
  const MDBX_dbi dbi = s.dbi;
  Bytes k = pick_key(t), v = pick_val(t, k);
  MDBX_val kk = mv(k), vv = mv(v), nil = {nullptr, 0};
  const unsigned what = (unsigned)r.below(34);
  vf_log("misuse %u t%u", what, t);
  distinct(what * 64 + lv.size() * 8 + (s.flags & 7) + (uint64_t)(cfg.flags >> 16) * 4096);
  switch (what) {
  case 0: { // too long key
    Bytes big(s.kmax + 1 + r.below(40), 'x');
    if (s.flags & MDBX_INTEGERKEY)
      big = Bytes(r.chance(50) ? 3 : r.chance(50) ? 16 : 0, 'x');
    MDBX_val b = mv(big), d = vv;
    refused("put with a wrong-sized key", mdbx_put(txn, dbi, &b, &d, MDBX_UPSERT), {MDBX_BAD_VALSIZE});
    d = nil;
    // searching for a key which could not exist is not an error of the database: any refusal is fine
    b = mv(big);
    refused("get with a wrong-sized key", mdbx_get(txn, dbi, &b, &d), {MDBX_BAD_VALSIZE, MDBX_NOTFOUND, MDBX_EINVAL});
    b = mv(big);
    refused("del with a wrong-sized key", mdbx_del(txn, dbi, &b, nullptr), {MDBX_BAD_VALSIZE, MDBX_NOTFOUND, MDBX_EINVAL});
    break;
  }
  case 1: { // wrong-sized value
    Bytes big;
    if (s.flags & MDBX_INTEGERDUP)
      big = Bytes(r.chance(50) ? 5 : 0, 'x');
    else if (s.flags & MDBX_DUPFIXED) {
      if (tab(t).rows.empty())
        return;
      big = Bytes(s.vfix + 1 + r.below(3), 'x');
    } else if (s.flags & MDBX_DUPSORT)
      big = Bytes(s.vmax + 1 + r.below(100), 'x');
    else {
      MDBX_val h = {(void *)k.data(), (size_t)0x7fffffff};
      refused("put of a 2 GB value", mdbx_put(txn, dbi, &kk, &h, MDBX_RESERVE), {MDBX_BAD_VALSIZE, MDBX_TOO_LARGE, MDBX_MAP_FULL, MDBX_TXN_FULL});
      return;
    }
    MDBX_val d = mv(big);
    refused("put of a wrong-sized multi-value", mdbx_put(txn, dbi, &kk, &d, MDBX_UPSERT), {MDBX_BAD_VALSIZE, MDBX_EINVAL, MDBX_INCOMPATIBLE});
    break;
  }
  case 2: // null arguments
    refused("put without key", mdbx_put(txn, dbi, nullptr, &vv, MDBX_UPSERT), {MDBX_EINVAL});
    refused("put without data", mdbx_put(txn, dbi, &kk, nullptr, MDBX_UPSERT), {MDBX_EINVAL});
    refused("get without key", mdbx_get(txn, dbi, nullptr, &vv), {MDBX_EINVAL});
    refused("get without data", mdbx_get(txn, dbi, &kk, nullptr), {MDBX_EINVAL});
    refused("del without key", mdbx_del(txn, dbi, nullptr, nullptr), {MDBX_EINVAL});
    refused("put without txn", mdbx_put(nullptr, dbi, &kk, &vv, MDBX_UPSERT), {MDBX_EINVAL});
    refused("commit of null", mdbx_txn_commit(nullptr), {MDBX_EINVAL});
    refused("abort of null", mdbx_txn_abort(nullptr), {MDBX_EINVAL});
    refused("txn_begin null result", mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, nullptr), {MDBX_EINVAL});
    refused("dbi_open null dbi", mdbx_dbi_open(txn, "x", MDBX_DB_DEFAULTS, nullptr), {MDBX_EINVAL});
    refused("cursor_get of null", mdbx_cursor_get(nullptr, &kk, &vv, MDBX_FIRST), {MDBX_EINVAL});
    refused("cursor_put of null", mdbx_cursor_put(nullptr, &kk, &vv, MDBX_UPSERT), {MDBX_EINVAL});
    refused("cursor_del of null", mdbx_cursor_del(nullptr, MDBX_CURRENT), {MDBX_EINVAL});
    refused("stat null", mdbx_dbi_stat(txn, dbi, nullptr, sizeof(MDBX_stat)), {MDBX_EINVAL});
    break;
  case 3: { // an unknown handle
    const MDBX_dbi bad = r.chance(50) ? 39 : r.chance(50) ? 1000 : (MDBX_dbi)r.next() | 0x8000;
    MDBX_cursor *c = nullptr;
    MDBX_stat st;
    unsigned f, st2;
    uint64_t q;
    refused("put to an unknown handle", mdbx_put(txn, bad, &kk, &vv, MDBX_UPSERT), {MDBX_BAD_DBI});
    refused("get from an unknown handle", mdbx_get(txn, bad, &kk, &vv), {MDBX_BAD_DBI});
    kk = mv(k);
    refused("del by an unknown handle", mdbx_del(txn, bad, &kk, nullptr), {MDBX_BAD_DBI});
    refused("drop by an unknown handle", mdbx_drop(txn, bad, r.chance(50)), {MDBX_BAD_DBI});
    refused("stat of an unknown handle", mdbx_dbi_stat(txn, bad, &st, sizeof st), {MDBX_BAD_DBI});
    refused("flags of an unknown handle", mdbx_dbi_flags_ex(txn, bad, &f, &st2), {MDBX_BAD_DBI});
    refused("sequence of an unknown handle", mdbx_dbi_sequence(txn, bad, &q, 1), {MDBX_BAD_DBI});
    refused("cursor for an unknown handle", mdbx_cursor_open(txn, bad, &c), {MDBX_BAD_DBI});
    refused("close of an unknown handle", mdbx_dbi_close(env, bad), {MDBX_BAD_DBI});
    refused("rename by an unknown handle", mdbx_dbi_rename(txn, bad, "zz"), {MDBX_BAD_DBI});
    break;
  }
  case 4: { // flags in conflict with the table
    if (s.flags & MDBX_DUPSORT) {
      refused("RESERVE in a multi-value table", mdbx_put(txn, dbi, &kk, &vv, MDBX_RESERVE), {MDBX_INCOMPATIBLE, MDBX_EINVAL});
      if (!(s.flags & MDBX_DUPFIXED)) {
        MDBX_val two[2] = {vv, {nullptr, 1}};
        refused("MULTIPLE without DUPFIXED", mdbx_put(txn, dbi, &kk, two, MDBX_MULTIPLE), {MDBX_INCOMPATIBLE, MDBX_EINVAL});
      }
    } else {
      MDBX_val two[2] = {vv, {nullptr, 1}};
      refused("MULTIPLE in a unique table", mdbx_put(txn, dbi, &kk, two, MDBX_MULTIPLE), {MDBX_INCOMPATIBLE, MDBX_EINVAL});
      MDBX_cursor *c;
      MUST(mdbx_cursor_open(txn, dbi, &c));
      size_t n = 1;
      int rc = mdbx_cursor_get(c, &kk, &vv, MDBX_FIRST);
      if (rc == MDBX_SUCCESS) {
        refused("GET_MULTIPLE in a unique table", mdbx_cursor_get(c, &kk, &vv, MDBX_GET_MULTIPLE), {MDBX_INCOMPATIBLE, MDBX_EINVAL});
        (void)n;
      }
      mdbx_cursor_close(c);
    }
    break;
  }
  case 5: // unknown flags
    refused("put with unknown flags", mdbx_put(txn, dbi, &kk, &vv, (MDBX_put_flags_t)0x4000000), {MDBX_EINVAL});
    refused("del with cursor-less flags", mdbx_replace(txn, dbi, &kk, nullptr, nullptr, (MDBX_put_flags_t)0x4000000), {MDBX_EINVAL});
    {
      MDBX_txn *x = (MDBX_txn *)1;
      refused("txn_begin with unknown flags", mdbx_txn_begin(env, nullptr, (MDBX_txn_flags_t)0x2, &x), {MDBX_EINVAL});
      refused("txn_begin with unknown flags", mdbx_txn_begin(env, nullptr, (MDBX_txn_flags_t)0x8000000, &x), {MDBX_EINVAL});
      MDBX_dbi d;
      refused("dbi_open with unknown flags", mdbx_dbi_open(txn, "q", (MDBX_db_flags_t)0x1000, &d), {MDBX_EINVAL});
      refused("dbi_open with DUPFIXED and without DUPSORT", mdbx_dbi_open(txn, "q", MDBX_DUPFIXED | MDBX_CREATE, &d), {MDBX_EINVAL});
      refused("dbi_open with INTEGERKEY and REVERSEKEY", mdbx_dbi_open(txn, "q", MDBX_INTEGERKEY | MDBX_REVERSEKEY | MDBX_CREATE, &d), {MDBX_EINVAL});
      refused("dbi_open of INTEGERDUP without DUPFIXED", mdbx_dbi_open(txn, "q", MDBX_DUPSORT | MDBX_INTEGERDUP | MDBX_CREATE, &d), {MDBX_EINVAL});
    }
    break;
  case 6:
  case 7:
  case 8: { // writing in a read transaction
    MDBX_txn *x;
    if (rd.empty() || r.chance(50)) {
      MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &x));
    } else
      x = rd[r.below(rd.size())].txn;
    uint64_t q;
    MDBX_dbi d;
    MDBX_canary cn = {1, 2, 3, 4};
    MDBX_cursor *c;
    MDBX_txn *y = nullptr;
    refused("put in a read transaction", mdbx_put(x, dbi, &kk, &vv, MDBX_UPSERT), {MDBX_EACCESS});
    kk = mv(k);
    refused("del in a read transaction", mdbx_del(x, dbi, &kk, nullptr), {MDBX_EACCESS});
    refused("replace in a read transaction", mdbx_replace(x, dbi, &kk, nullptr, nullptr, MDBX_CURRENT), {MDBX_EACCESS, MDBX_EINVAL});
    refused("drop in a read transaction", mdbx_drop(x, dbi, r.chance(50)), {MDBX_EACCESS});
    refused("sequence step in a read transaction", mdbx_dbi_sequence(x, dbi, &q, 1), {MDBX_EACCESS});
    refused("canary in a read transaction", mdbx_canary_put(x, &cn), {MDBX_EACCESS});
    refused("creation of a table in a read transaction", mdbx_dbi_open(x, "no-such-table", MDBX_CREATE, &d), {MDBX_EACCESS});
    refused("rename in a read transaction", mdbx_dbi_rename(x, dbi, "zz"), {MDBX_EACCESS});
    refused("nested in a read transaction", mdbx_txn_begin(env, x, MDBX_TXN_READWRITE, &y), {MDBX_BAD_TXN, MDBX_EINVAL, MDBX_EACCESS});
    refused("unpark of a transaction that is not parked", mdbx_txn_unpark(x, false), {MDBX_SUCCESS, MDBX_BAD_TXN});
    int rc = mdbx_cursor_open(x, dbi, &c);
    if (rc == MDBX_SUCCESS) {
      kk = mv(k);
      refused("cursor_put in a read transaction", mdbx_cursor_put(c, &kk, &vv, MDBX_UPSERT), {MDBX_EACCESS});
      rc = mdbx_cursor_get(c, &kk, &vv, r.chance(50) ? MDBX_FIRST : MDBX_LAST);
      if (rc == MDBX_SUCCESS) {
        refused("cursor_del in a read transaction", mdbx_cursor_del(c, r.chance(50) ? MDBX_CURRENT : MDBX_ALLDUPS), {MDBX_EACCESS});
        refused("bunch_delete in a read transaction", mdbx_cursor_bunch_delete(c, MDBX_DELETE_WHOLE, nullptr), {MDBX_EACCESS});
        uint64_t n = 0;
        refused("delete_range in a read transaction", mdbx_cursor_delete_range(c, c, true, &n), {MDBX_EACCESS});
      }
      mdbx_cursor_close(c);
    } else
      refused("cursor on a table the snapshot has not", rc, {MDBX_BAD_DBI, MDBX_NOTFOUND});
    bool mine = true;
    for (auto &o : rd)
      mine = mine && o.txn != x;
    if (mine)
      MUST(mdbx_txn_abort(x));
    break;
  }
  case 9:
  case 10: // the outer transaction while a nested one is running
    if (lv.size() > 1) {
      MDBX_txn *o = lv[r.below(lv.size() - 1)].txn;
      MDBX_txn *x = nullptr;
      MDBX_dbi d;
      MDBX_cursor *c = nullptr;
      refused("put in the outer of a nested transaction", mdbx_put(o, dbi, &kk, &vv, MDBX_UPSERT), {MDBX_BAD_TXN});
      kk = mv(k);
      refused("get in the outer of a nested transaction", mdbx_get(o, dbi, &kk, &vv), {MDBX_BAD_TXN});
      refused("del in the outer of a nested transaction", mdbx_del(o, dbi, &kk, nullptr), {MDBX_BAD_TXN});
      refused("dbi_open in the outer of a nested transaction", mdbx_dbi_open(o, "zz", MDBX_CREATE, &d), {MDBX_BAD_TXN});
      refused("a second nested transaction", mdbx_txn_begin(env, o, MDBX_TXN_READWRITE, &x), {MDBX_BAD_TXN});
      int rc = mdbx_cursor_open(o, dbi, &c);
      if (rc == MDBX_SUCCESS) {
        refused("cursor_get in the outer of a nested transaction", mdbx_cursor_get(c, &kk, &vv, MDBX_FIRST), {MDBX_BAD_TXN});
        mdbx_cursor_close(c);
      } else
        refused("cursor_open in the outer of a nested transaction", rc, {MDBX_BAD_TXN});
    }
    break;
  case 11: { // a second write transaction of the same thread
    MDBX_txn *x = nullptr;
    refused("a second write transaction", mdbx_txn_begin(env, nullptr, r.chance(50) ? MDBX_TXN_TRY : MDBX_TXN_READWRITE, &x), {MDBX_BUSY});
if (!(cfg.flags & MDBX_WRITEMAP)) { // a nested transaction for reading sees what the outer one does
      MUST(W(mdbx_txn_begin(env, txn, MDBX_TXN_RDONLY, &x)));
      full_verify(x, L().db, "nested read-only txn", false);
      uint64_t q;
      MDBX_dbi d;
      kk = mv(k);
      refused("put in a nested read-only transaction", mdbx_put(x, dbi, &kk, &vv, MDBX_UPSERT), {MDBX_EACCESS});
      kk = mv(k);
      refused("del in a nested read-only transaction", mdbx_del(x, dbi, &kk, nullptr), {MDBX_EACCESS});
      refused("drop in a nested read-only transaction", mdbx_drop(x, dbi, false), {MDBX_EACCESS});
      refused("sequence in a nested read-only transaction", mdbx_dbi_sequence(x, dbi, &q, 1), {MDBX_EACCESS});
      refused("creation of a table in a nested read-only transaction", mdbx_dbi_open(x, "zz", MDBX_CREATE, &d), {MDBX_EACCESS});
      kk = mv(k);
      refused("put in the outer of a nested read-only transaction", mdbx_put(txn, dbi, &kk, &vv, MDBX_UPSERT), {MDBX_BAD_TXN});
      MUST(r.chance(50) ? mdbx_txn_abort(x) : mdbx_txn_commit(x));
      cnt("nested_readonly");
      x = nullptr;
    }
    if (cfg.flags & MDBX_WRITEMAP)
      refused("a nested transaction with WRITEMAP", mdbx_txn_begin(env, txn, MDBX_TXN_READWRITE, &x), {MDBX_INCOMPATIBLE, MDBX_EINVAL});
    break;
  }
  case 12: // read-transaction verbs on a write transaction
    refused("reset of a write transaction", mdbx_txn_reset(txn), {MDBX_EINVAL, MDBX_BAD_TXN});
    refused("renew of a write transaction", mdbx_txn_renew(txn), {MDBX_EINVAL, MDBX_BAD_TXN, MDBX_BUSY});
    refused("park of a write transaction", mdbx_txn_park(txn, r.chance(50)), {MDBX_BAD_TXN, MDBX_EINVAL});
    refused("unpark of a write transaction", mdbx_txn_unpark(txn, r.chance(50)), {MDBX_BAD_TXN, MDBX_EINVAL, MDBX_SUCCESS});
    break;
  case 13: { // environment verbs out of order
    refused("open of an open environment", mdbx_env_open(env, path.c_str(), MDBX_NOSUBDIR, 0644), {MDBX_EINVAL, MDBX_BUSY, MDBX_EPERM});
    refused("set_maxdbs of an open environment", mdbx_env_set_maxdbs(env, 50), {MDBX_EPERM, MDBX_EINVAL});
    refused("set max_readers of an open environment", mdbx_env_set_option(env, MDBX_opt_max_readers, 70), {MDBX_EPERM, MDBX_EINVAL});
    refused("an unknown option", mdbx_env_set_option(env, (MDBX_option_t)99, 7), {MDBX_EINVAL});
    uint64_t q;
    refused("an unknown option", mdbx_env_get_option(env, (MDBX_option_t)99, &q), {MDBX_EINVAL});
    refused("unknown env flags", mdbx_env_set_flags(env, (MDBX_env_flags_t)0x40, true), {MDBX_EINVAL, MDBX_EPERM});
    refused("changing of open-time flags", mdbx_env_set_flags(env, MDBX_RDONLY, true), {MDBX_EINVAL, MDBX_EPERM});
    refused("copy inside of a write transaction", mdbx_env_copy(env, (path + ".cp").c_str(), MDBX_CP_DEFAULTS), {MDBX_SUCCESS, MDBX_TXN_OVERLAPPING, MDBX_BUSY});
    unlink((path + ".cp").c_str());
    MDBX_env *e2;
    MUST(mdbx_env_create(&e2));
    refused("a second opening in the process", mdbx_env_open(e2, path.c_str(), MDBX_NOSUBDIR | (cfg.flags & (MDBX_WRITEMAP | MDBX_EXCLUSIVE)), 0644), {MDBX_BUSY, EAGAIN, EBUSY});
    MUST(mdbx_env_close(e2));
    refused("deletion of a database in use", mdbx_env_delete(path.c_str(), MDBX_ENV_ENSURE_UNUSED), {MDBX_BUSY, EAGAIN, EBUSY});
    break;
  }
  case 14: { // wrong cursor verbs
    MCur &c = any_cursor();
    Bytes k2 = pick_key(c.t);
    kk = mv(k2);
    refused("an unknown cursor operation", mdbx_cursor_get(c.c, &kk, &vv, (MDBX_cursor_op)200), {MDBX_EINVAL, MDBX_INCOMPATIBLE});
    refused("SET_KEY without key", mdbx_cursor_get(c.c, nullptr, nullptr, MDBX_SET_KEY), {MDBX_EINVAL});
    refused("GET_BOTH without key", mdbx_cursor_get(c.c, nullptr, &vv, MDBX_GET_BOTH), {MDBX_EINVAL, MDBX_INCOMPATIBLE});
    refused("bind to an unknown handle", mdbx_cursor_bind(txn, nullptr, sh[c.t].dbi), {MDBX_EINVAL});
    refused("count without result", mdbx_cursor_count(c.c, nullptr), {MDBX_EINVAL});
    break;
  }
  case 15: { // an unbound and a fresh cursor
    MDBX_cursor *c = mdbx_cursor_create(nullptr);
    size_t n;
    refused("get by an unbound cursor", mdbx_cursor_get(c, &kk, &vv, MDBX_FIRST), {MDBX_EINVAL});
    kk = mv(k);
    vv = mv(v);
    refused("put by an unbound cursor", mdbx_cursor_put(c, &kk, &vv, MDBX_UPSERT), {MDBX_EINVAL});
    refused("del by an unbound cursor", mdbx_cursor_del(c, MDBX_CURRENT), {MDBX_EINVAL});
    refused("count by an unbound cursor", mdbx_cursor_count(c, &n), {MDBX_EINVAL});
    refused("eof of an unbound cursor", mdbx_cursor_eof(c), {MDBX_EINVAL});
    refused("on_first of an unbound cursor", mdbx_cursor_on_first(c), {MDBX_EINVAL});
    refused("renew of an unbound cursor", mdbx_cursor_renew(txn, c), {MDBX_EINVAL, MDBX_BAD_DBI});
    refused("renew to null", mdbx_cursor_renew(nullptr, c), {MDBX_EINVAL});
    refused("bunch_delete by an unbound cursor", mdbx_cursor_bunch_delete(c, MDBX_DELETE_WHOLE, nullptr), {MDBX_EINVAL});
    refused("batch by an unbound cursor", mdbx_cursor_get_batch(c, &n, &kk, 4, MDBX_FIRST), {MDBX_EINVAL});
    mdbx_cursor_close(c);
    c = nullptr;
    MUST(mdbx_cursor_open(txn, dbi, &c));
    vv = nil;
    kk = nil;
    refused("del by a fresh cursor", mdbx_cursor_del(c, MDBX_CURRENT), {MDBX_ENODATA});
    refused("GET_CURRENT by a fresh cursor", mdbx_cursor_get(c, &kk, &vv, MDBX_GET_CURRENT), {MDBX_ENODATA});
    n = 0;
    refused("count by a fresh cursor", mdbx_cursor_count(c, &n), {MDBX_ENODATA, MDBX_SUCCESS});
    if (n)
      vf_fail("misuse", "count of a fresh cursor is %zu", n);
    kk = mv(k);
    vv = mv(v);
    refused("put CURRENT by a fresh cursor", mdbx_cursor_put(c, &kk, &vv, MDBX_CURRENT), {MDBX_ENODATA, MDBX_EKEYMISMATCH});
    mdbx_cursor_close(c);
    break;
  }
  case 16: { // opening with other flags than the table has
    MDBX_dbi d = 0;
    unsigned other = s.flags ^ (r.chance(50) ? MDBX_REVERSEKEY : MDBX_DUPSORT);
    if (s.flags & MDBX_DUPSORT)
      other = 0 == (s.flags & MDBX_INTEGERKEY) ? s.flags ^ MDBX_REVERSEKEY : MDBX_DUPSORT;
    if (other == s.flags || s.name.empty() || tab(t).rows.empty()) // an empty table may be re-created with other flags
      return;
    MDBX_val nm = mv(s.name);
    refused("opening with conflicting flags", mdbx_dbi_open2(txn, &nm, (MDBX_db_flags_t)(other | (r.chance(50) ? MDBX_CREATE : 0)), &d), {MDBX_INCOMPATIBLE, MDBX_EINVAL});
    break;
  }
  case 17: { // absent names
    MDBX_dbi d = 77;
    refused("opening of an absent table", mdbx_dbi_open(txn, "no-such-table", MDBX_DB_DEFAULTS, &d), {MDBX_NOTFOUND, MDBX_INCOMPATIBLE});
    break;
  }
  case 18: { // cursors of different tables or transactions in one call
    if (sh.size() < 2)
      return;
    MDBX_cursor *a, *b;
    MUST(mdbx_cursor_open(txn, sh[0].dbi, &a));
    MUST(mdbx_cursor_open(txn, sh[1].dbi, &b));
    int ra = mdbx_cursor_get(a, &kk, &vv, MDBX_FIRST), rb = mdbx_cursor_get(b, &kk, &vv, MDBX_LAST);
    if (ra == MDBX_SUCCESS && rb == MDBX_SUCCESS) {
      uint64_t n = 7;
      ptrdiff_t d;
      refused("delete_range over two tables", mdbx_cursor_delete_range(a, b, true, &n), {MDBX_EINVAL, MDBX_BAD_TXN});
      refused("estimate over two tables", mdbx_estimate_distance(a, b, &d), {MDBX_EINVAL, MDBX_BAD_TXN});
      intptr_t dd;
      refused("distance over two tables", mdbx_cursor_distance(a, b, &dd, 0), {MDBX_EINVAL, MDBX_BAD_TXN});
      MDBX_cursor *arr[3] = {a, b, nullptr};
      refused("distribute over two tables", mdbx_cursor_distribute(a, b, arr, 2, 1), {MDBX_EINVAL, MDBX_BAD_TXN});
    }
    mdbx_cursor_close(a);
    mdbx_cursor_close(b);
    break;
  }
  case 19: { // a finished cursor of another transaction used with this one
    MDBX_txn *x;
    MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &x));
    MDBX_cursor *a = nullptr, *b;
    int rc = mdbx_cursor_open(x, dbi, &a);
    MUST(mdbx_cursor_open(txn, dbi, &b));
    if (rc == MDBX_SUCCESS) {
      if (mdbx_cursor_get(a, &kk, &vv, MDBX_FIRST) == MDBX_SUCCESS && mdbx_cursor_get(b, &kk, &vv, MDBX_LAST) == MDBX_SUCCESS) {
        uint64_t n = 7;
        ptrdiff_t d;
        intptr_t dd;
        refused("delete_range over two transactions", mdbx_cursor_delete_range(b, a, true, &n), {MDBX_EINVAL, MDBX_BAD_TXN, MDBX_EACCESS});
        refused("delete_range over two transactions", mdbx_cursor_delete_range(a, b, true, &n), {MDBX_EINVAL, MDBX_BAD_TXN, MDBX_EACCESS});
        refused("estimate over two transactions", mdbx_estimate_distance(a, b, &d), {MDBX_EINVAL, MDBX_BAD_TXN});
        refused("distance over two transactions", mdbx_cursor_distance(a, b, &dd, 0), {MDBX_EINVAL, MDBX_BAD_TXN});
      }
      MUST(mdbx_txn_reset(x));
      kk = mv(k);
      refused("cursor_get after reset of its transaction", mdbx_cursor_get(a, &kk, &vv, MDBX_FIRST), {MDBX_BAD_TXN, MDBX_EINVAL});
      refused("get after reset", mdbx_get(x, dbi, &kk, &vv), {MDBX_BAD_TXN});
      refused("cursor renew to a reset transaction", mdbx_cursor_renew(x, a), {MDBX_BAD_TXN, MDBX_EINVAL});
      mdbx_cursor_close(a);
    }
    mdbx_cursor_close(b);
    MUST(mdbx_txn_abort(x));
    break;
  }
  case 20: { // parked
    MDBX_txn *x;
    MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &x));
    MDBX_cursor *a = nullptr;
    int rc = mdbx_cursor_open(x, dbi, &a);
    MUST(mdbx_txn_park(x, false));
    kk = mv(k);
    refused("get while parked", mdbx_get(x, dbi, &kk, &vv), {MDBX_BAD_TXN});
    if (rc == MDBX_SUCCESS)
      refused("cursor_get while parked", mdbx_cursor_get(a, &kk, &vv, MDBX_FIRST), {MDBX_BAD_TXN});
    MDBX_cursor *b = nullptr;
    refused("cursor_open while parked", mdbx_cursor_open(x, dbi, &b), {MDBX_BAD_TXN, MDBX_BAD_DBI, MDBX_SUCCESS});
    if (b)
      mdbx_cursor_close(b);
    MUST(mdbx_txn_unpark(x, true));
    if (rc == MDBX_SUCCESS)
      mdbx_cursor_close(a);
    MUST(mdbx_txn_abort(x));
    break;
  }
  case 21: { // geometry nonsense
    refused("geometry with the lower size above the upper one", mdbx_env_set_geometry(env, 1 << 24, -1, 1 << 20, -1, -1, -1), {MDBX_EINVAL, MDBX_MAP_FULL, MDBX_TOO_LARGE, MDBX_UNABLE_EXTEND_MAPSIZE});
    refused("geometry with another page size", mdbx_env_set_geometry(env, -1, -1, -1, -1, -1, cfg.page == 4096 ? 8192 : 4096), {MDBX_EINVAL, MDBX_EPERM, MDBX_INCOMPATIBLE});
    refused("geometry below the used size", mdbx_env_set_geometry(env, -1, -1, (intptr_t)cfg.page * 2, -1, -1, -1), {MDBX_EINVAL, MDBX_MAP_FULL, MDBX_TOO_LARGE, MDBX_UNABLE_EXTEND_MAPSIZE});
    break;
  }
  case 22: { // a foreign cursor for a write through the API with a txn
    MDBX_txn *x;
    MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &x));
    MUST(mdbx_txn_abort(x));
    MDBX_val kx = mv(k);
    size_t n;
    refused("batch with a tiny room", mdbx_cursor_get_batch(any_cursor().c, &n, &kx, 3, MDBX_FIRST), {MDBX_EINVAL});
    break;
  }
  case 23: { // a transaction marked broken
    if (lv.size() < 2)
      return;
    break;
  }
  case 24: { // values given twice
    MDBX_val old = {nullptr, 0};
    refused("replace with the same buffer for old and new data", mdbx_replace(txn, dbi, &kk, &vv, &vv, MDBX_UPSERT), {MDBX_EINVAL});
    refused("replace with an unknown flag", mdbx_replace(txn, dbi, &kk, &vv, &old, MDBX_RESERVE | MDBX_MULTIPLE), {MDBX_EINVAL, MDBX_INCOMPATIBLE});
    break;
  }
  case 25: { // closing a handle that the transaction modified
    break;
  }
  case 26: { // MULTIPLE with nonsense
    if (!(s.flags & MDBX_DUPFIXED))
      return;
    MDBX_val two[2] = {{(void *)v.data(), 0}, {nullptr, 1}};
    kk = mv(k);
    refused("MULTIPLE of zero-sized items", mdbx_put(txn, dbi, &kk, two, MDBX_MULTIPLE), {MDBX_BAD_VALSIZE, MDBX_EINVAL});
    two[0].iov_len = v.size();
    two[1].iov_len = ~(size_t)0 >> 4;
    refused("MULTIPLE of too many items", mdbx_put(txn, dbi, &kk, two, MDBX_MULTIPLE), {MDBX_TOO_LARGE, MDBX_EINVAL, MDBX_BAD_VALSIZE});
    break;
  }
  default: { // stat structures of the wrong size, queries with nothing to fill
    MDBX_stat st;
    MDBX_envinfo inf;
    refused("stat of a wrong size", mdbx_env_stat_ex(env, txn, &st, 7), {MDBX_EINVAL});
    refused("info of a wrong size", mdbx_env_info_ex(env, txn, &inf, 7), {MDBX_EINVAL});
    refused("stat of a wrong size", mdbx_dbi_stat(txn, dbi, &st, 5), {MDBX_EINVAL});
    refused("canary_get to null", mdbx_canary_get(txn, nullptr), {MDBX_EINVAL});
    refused("txn_info to null", mdbx_txn_info(txn, nullptr, false), {MDBX_EINVAL});
    if (mdbx_txn_id(nullptr) != 0)
      vf_fail("misuse", "txn_id of null");
    break;
  }
  }
}

// Lookups through cache entries against the model of the transaction used.
void Fuzz::cache_check(MDBX_txn *txn, const DbM &db, unsigned t, const char *where) {
  const Shape &s = sh[t];
  auto mt = db.t.find(s.name);
  if (mt == db.t.end())
    return;
  const TableM &m = *mt->second;
  const unsigned n = 1 + (unsigned)r.below(12);
  for (unsigned j = 0; j < n; ++j) {
    Bytes k;
    if (r.chance(70) && !cache.empty()) { // an entry in use already
      auto it = cache.lower_bound({t, s.key(r.below(s.U))});
      if (it == cache.end() || it->first.first != t)
        k = lv.empty() ? s.key(r.below(s.U)) : pick_key(t);
      else
        k = it->first.second;
    } else
      k = lv.empty() ? s.key(r.below(s.U)) : pick_key(t);
    auto ins = cache.emplace(std::make_pair(t, k), std::pair<MDBX_cache_entry_t, MDBX_cache_entry_t>());
    auto &e = ins.first->second;
    if (ins.second) {
      mdbx_cache_init(&e.first);
      mdbx_cache_init(&e.second);
    }
    const bool single = r.chance(50);
    const MDBX_cache_entry_t was = single ? e.second : e.first;
    MDBX_val kk = mv(k), vv = {(void *)"?", 1}, pv = {nullptr, 0};
    MDBX_cache_result_t res =
        single ? mdbx_cache_get_SingleThreaded(txn, s.dbi, &kk, &vv, &e.second) : mdbx_cache_get(txn, s.dbi, &kk, &vv, &e.first);
    const int plain = mdbx_get(txn, s.dbi, &kk, &pv);
    auto it = m.rows.find(k);
    const bool kx = it != m.rows.end();
    cnt("cached_lookups");
    static const char *const names[] = {"cache_error", "cache_behind", "cache_unable", "cache_race",
                                        "cache_dirty", "cache_hit",    "cache_confirmed", "cache_refreshed"};
    if (res.status < -3 || res.status > 4)
      vf_fail("cache-status", "cache_get status %d", res.status);
    cnt(names[res.status + 3]);
    auto die = [&](const char *what) {
      vf_fail(what,
              "%s: cached lookup (%s) of %s -> rc %d status %d %s; plain lookup -> %d %s; entry was trunk %llu confirmed %llu "
              "offset %zu len %u, txn %llu [%s]",
              where, single ? "single" : "shared", hexs(k).c_str(), res.errcode, res.status,
              res.errcode == MDBX_SUCCESS ? hexs(vv).c_str() : "-", plain, plain == MDBX_SUCCESS ? hexs(pv).c_str() : "-",
              (unsigned long long)was.trunk_txnid, (unsigned long long)was.last_confirmed_txnid, was.offset, was.length,
              (unsigned long long)mdbx_txn_id(txn), flags_str(s.flags));
    };
    if (kx ? plain != MDBX_SUCCESS || !eqv(pv, it->second[0]) : plain != MDBX_NOTFOUND)
      die("cache-plain");
    if (m.dup() && res.errcode == MDBX_EMULTIVAL && kx) {
      cnt("cache_multival"); // documented: several values of a key are not supported
      if (it->second.size() == 1)
        cnt("cache_multival_of_one");
    } else if (kx ? res.errcode != MDBX_SUCCESS || it->second.size() > 1 || !eqv(vv, it->second[0])
                  : res.errcode != MDBX_NOTFOUND)
      die("cache-lookup");
    if (res.status == MDBX_CACHE_ERROR && (res.errcode == MDBX_SUCCESS || res.errcode == MDBX_NOTFOUND))
      die("cache-status");
    // "has not been changed", as told for these statuses
    const MDBX_cache_entry_t &now = single ? e.second : e.first;
    if (res.status <= MDBX_CACHE_HIT &&
        (was.trunk_txnid != now.trunk_txnid || was.last_confirmed_txnid != now.last_confirmed_txnid || was.offset != now.offset ||
         was.length != now.length))
      die("cache-entry-changed");
    distinct(hash_bytes(k.data(), k.size(), (uint64_t)mdbx_txn_id(txn) * 16 + (uint64_t)(res.status + 3) + (was.trunk_txnid << 20) + t));
  }
}
void Fuzz::op_cache(unsigned t) {
  if (!rd.empty() && r.chance(25)) {
    Reader &x = rd[r.below(rd.size())];
    cache_check(x.txn, x.db, t, "reader");
  }
  cache_check(T(), L().db, t, lv.size() > 1 ? "nested write txn" : "write txn");
  if (r.chance(15)) {
    MDBX_txn *x;
    MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &x));
    cache_check(x, committed, t, "fresh reader");
    MUST(mdbx_txn_abort(x));
  }
}
