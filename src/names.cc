// C22: the namespace of tables and the handles of them. A reference model
// holds what each transaction level sees and to what each handle is bound;
// every call's result, and the contents read through any handle, are judged.
#include "vf.h"

struct Tab {
  unsigned flags;
  std::set<std::pair<Bytes, Bytes>> rows;
};
typedef std::shared_ptr<Tab> TabP;
typedef std::map<Bytes, TabP> Names;

static const unsigned PERS = MDBX_REVERSEKEY | MDBX_DUPSORT | MDBX_INTEGERKEY | MDBX_DUPFIXED | MDBX_INTEGERDUP | MDBX_REVERSEDUP;
static const unsigned all_flags[] = {0, MDBX_REVERSEKEY, MDBX_INTEGERKEY, MDBX_DUPSORT, MDBX_DUPSORT | MDBX_DUPFIXED, MDBX_DUPSORT | MDBX_REVERSEDUP,
                                     MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_INTEGERDUP, MDBX_DUPSORT | MDBX_INTEGERKEY};

struct Bind {
  Bytes name;
  bool sure = true;   // has to work where the table exists
  unsigned flags = 0; // last known to the environment
  uint64_t since = 0; // event number of the binding
  std::set<MDBX_txn *> okin; // transactions which opened it by themselves
  void unsure() { sure = false, okin.clear(); }
};
struct Level {
  MDBX_txn *txn;
  Names names;
  std::set<MDBX_dbi> made; // handles closed if this level is aborted
  std::set<MDBX_dbi> renamed;
  uint64_t started; // of the outermost one
};
// whether a handle has to work in a transaction
static bool sure_in(const Bind &b, MDBX_txn *txn, uint64_t started);
struct Ro {
  MDBX_txn *txn;
  Names names;
  uint64_t started;
  std::set<Bytes> blurred; // names touched by a rename since the snapshot
};

static Rng r;
static MDBX_env *env;
static Bytes path;
static std::vector<Level> wr; // the write transaction and its nested ones
static std::vector<Ro> ro;
static Names committed;
static std::map<MDBX_dbi, Bind> binds;
static std::set<Bytes> ever; // names which had a handle since the opening of the environment
static uint64_t event;
static unsigned maxdbs;
static std::vector<Bytes> pool;
static bool wmap;
// One meaning per name, and readers beside the writer; or names with changing meanings, and one transaction at a time.
static bool settled;
static unsigned meaning(const Bytes &n) { return all_flags[std::hash<std::string>()(n) % 8]; }

static bool sure_in(const Bind &b, MDBX_txn *txn, uint64_t started) {
  if (!b.sure)
    return false;
  if (b.since <= started || b.okin.count(txn))
    return true;
  for (size_t i = wr.size(); i--;)
    if (wr[i].txn == txn) {
      while (i--)
        if (b.okin.count(wr[i].txn))
          return true;
      break;
    }
  return false;
}

static const char *nm(const Bytes &b) {
  static char t[8][80];
  static unsigned i;
  char *p = t[i++ % 8];
  snprintf(p, 80, "%s", b.size() <= 60 && b.find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789-_") == Bytes::npos ? b.c_str() : hexs(b).c_str());
  return p;
}

static Bytes rnd_name() {
  if (r.chance(85))
    return r.pick(pool);
  return r.chance(50) ? r.pick(pool) + "x" : r.pick(pool).substr(0, 1 + r.below(3));
}
static Bytes rnd_key(unsigned f) {
  if (f & MDBX_INTEGERKEY) {
    uint64_t u = r.below(500);
    return Bytes((char *)&u, 8);
  }
  return "k" + std::to_string(r.below(300));
}
static Bytes rnd_val(unsigned f) {
  if (f & MDBX_INTEGERDUP) {
    uint64_t u = r.next() >> r.below(60);
    return Bytes((char *)&u, 8);
  }
  if (f & MDBX_DUPFIXED) {
    uint64_t u = r.next();
    return Bytes((char *)&u, 6);
  }
  if (!(f & MDBX_DUPSORT) && r.chance(2))
    return Bytes(3000 + r.below(9000), 'L');
  return "v" + std::to_string(r.next() >> r.below(60));
}

static std::set<MDBX_dbi> maybe; // handles which may be closed or not
static void close_bind(MDBX_dbi d, bool surely = true) {
  binds.erase(d);
  if (surely)
    maybe.erase(d);
  else
    maybe.insert(d);
}
static MDBX_dbi bound_to(const Bytes &n, bool &sure) {
  for (auto &b : binds)
    if (b.second.name == n) {
      sure = b.second.sure;
      return b.first;
    }
  return 0;
}

// the whole contents through a handle
static int read_all(MDBX_txn *txn, MDBX_dbi dbi, std::set<std::pair<Bytes, Bytes>> &out) {
  MDBX_cursor *c;
  int rc = mdbx_cursor_open(txn, dbi, &c);
  if (rc)
    return rc;
  MDBX_val k, v;
  for (rc = mdbx_cursor_get(c, &k, &v, MDBX_FIRST); rc == MDBX_SUCCESS; rc = mdbx_cursor_get(c, &k, &v, MDBX_NEXT))
    out.emplace(bs(k), bs(v));
  mdbx_cursor_close(c);
  return rc == MDBX_NOTFOUND || rc == MDBX_ENODATA ? MDBX_SUCCESS : rc;
}

struct Pick {
  MDBX_txn *txn;
  Names *names;
  bool write;
  Ro *ro;
};
static Pick pick_txn(bool want_write = false) {
  if (!wr.empty() && (want_write || ro.empty() || r.chance(60)))
    return {wr.back().txn, &wr.back().names, true, nullptr};
  Ro &x = ro[r.below(ro.size())];
  return {x.txn, &x.names, false, &x};
}

static const char *where(const Pick &p) {
  static char b[32];
  if (p.ro)
    snprintf(b, sizeof b, "ro.%llu", (unsigned long long)p.ro->started);
  return p.ro ? b : "rw";
}

static void use(MDBX_dbi d, const Pick &p) {
  auto b = binds.find(d);
  if (b != binds.end() && p.ro && p.ro->blurred.count(b->second.name))
    return;
  const TabP *t = nullptr;
  if (b != binds.end()) {
    auto it = p.names->find(b->second.name);
    if (it != p.names->end())
      t = &it->second;
  }
  std::set<std::pair<Bytes, Bytes>> got;
  MDBX_stat st;
  unsigned fl, state;
  const int how = (int)r.below(4);
  int rc = how == 0 ? mdbx_dbi_stat(p.txn, d, &st, sizeof(st)) : how == 1 ? mdbx_dbi_flags_ex(p.txn, d, &fl, &state) : read_all(p.txn, d, got);
  static const char *hows[] = {"mdbx_dbi_stat", "mdbx_dbi_flags_ex", "reading", "reading"};
  vf_log("use %s handle %u (%s) in %s: %d", hows[how], d, b == binds.end() ? "unbound" : nm(b->second.name), where(p), rc);
  const bool unsure = b != binds.end() && !sure_in(b->second, p.txn, p.ro ? p.ro->started : wr.back().started);
  const bool must_fail = !t && !(b == binds.end() && maybe.count(d)), other_flags = t && ((*t)->flags != b->second.flags || !settled), must_work = t && !other_flags && sure_in(b->second, p.txn, p.ro ? p.ro->started : wr.back().started);
  if (rc == MDBX_SUCCESS) {
    if (how == 1 && (must_fail || other_flags) && b != binds.end())
      return; // flags of a handle may be told without looking the table up
    if (b == binds.end() && !must_fail)
      return;
    if (must_fail)
      vf_fail("stale-handle-accepted", "%s through handle %u succeeded, it is %s%s; %s", hows[how], d, b == binds.end() ? "closed" : "bound to the absent table ",
              b == binds.end() ? "" : nm(b->second.name), vf.case_desc.c_str());
    if (how >= 2 && got != (*t)->rows)
      vf_fail("wrong-contents", "handle %u of %s shows %zu rows instead of %zu; %s", d, nm(b->second.name), got.size(), (*t)->rows.size(), vf.case_desc.c_str());
    if (how == 0 && st.ms_entries != (*t)->rows.size())
      vf_fail("wrong-stat", "handle %u of %s: %llu items instead of %zu; %s", d, nm(b->second.name), (unsigned long long)st.ms_entries, (*t)->rows.size(),
              vf.case_desc.c_str());
    if (how == 1 && (fl & PERS) != (*t)->flags && !other_flags && !unsure)
      vf_fail("wrong-flags", "handle %u of %s: flags %x instead of %x; %s", d, nm(b->second.name), fl, (*t)->flags, vf.case_desc.c_str());
    cnt("uses");
  } else {
    if (rc != MDBX_BAD_DBI && rc != MDBX_NOTFOUND && !(rc == MDBX_INCOMPATIBLE && (other_flags || unsure)))
      vf_fail("use-error", "%s through handle %u (%s): %d; %s", hows[how], d, b == binds.end() ? "closed" : nm(b->second.name), rc, vf.case_desc.c_str());
    if (must_work)
      vf_fail("handle-rejected", "%s through the valid handle %u of %s: %d; %s", hows[how], d, nm(b->second.name), rc, vf.case_desc.c_str());
    if (!must_fail && b != binds.end() && rc == MDBX_BAD_DBI)
      b->second.unsure(); // until opened anew
    cnt(must_fail ? "refused_uses" : "lenient_refusals");
  }
}

static MDBX_dbi any_handle() {
  if (binds.empty() || r.chance(12))
    return (MDBX_dbi)(2 + r.below(maxdbs + 3));
  auto it = binds.begin();
  std::advance(it, r.below(binds.size()));
  return it->first;
}

static void change(MDBX_dbi d) {
  if (wr.empty() || !binds.count(d))
    return;
  auto &b = binds[d];
  auto it = wr.back().names.find(b.name);
  if (it != wr.back().names.end() && it->second->flags != b.flags)
    return;
  MDBX_val k, v;
  for (unsigned i = 0, n = 1 + (unsigned)r.below(r.chance(10) ? 200 : 8); i < n; ++i) {
    const unsigned f = it == wr.back().names.end() ? 0 : it->second->flags;
    Bytes kk = rnd_key(f), vv = rnd_val(f);
    const bool del = it != wr.back().names.end() && !it->second->rows.empty() && r.chance(25);
    if (del) {
      auto x = it->second->rows.lower_bound({kk, ""});
      if (x == it->second->rows.end())
        x = it->second->rows.begin();
      kk = x->first, vv = x->second;
    }
    k = mv(kk), v = mv(vv);
    int rc = del ? mdbx_del(wr.back().txn, d, &k, f & MDBX_DUPSORT ? &v : nullptr) : mdbx_put(wr.back().txn, d, &k, &v, MDBX_UPSERT);
    if (it == wr.back().names.end()) {
      if (rc == MDBX_SUCCESS)
        vf_fail("stale-handle-accepted", "put through handle %u of the absent table %s; %s", d, nm(b.name), vf.case_desc.c_str());
      cnt("refused_uses");
      return;
    }
    if (rc) {
      if (!sure_in(b, wr.back().txn, wr.back().started) && (rc == MDBX_BAD_DBI || rc == MDBX_INCOMPATIBLE))
        return;
      if ((rc == MDBX_INCOMPATIBLE || rc == MDBX_BAD_DBI) && !settled)
        return;
      vf_fail(rc == MDBX_BAD_DBI ? "handle-rejected" : "change-error", "%s through handle %u of %s: %d; %s", del ? "del" : "put", d, nm(b.name), rc, vf.case_desc.c_str());
    }
    auto &t = it->second;
    if (t.use_count() > 1)
      t = std::make_shared<Tab>(*t);
    if (!(f & MDBX_DUPSORT))
      for (auto x = t->rows.lower_bound({kk, ""}); x != t->rows.end() && x->first == kk;)
        x = t->rows.erase(x);
    if (del)
      t->rows.erase({kk, vv});
    else
      t->rows.emplace(kk, vv);
    cnt("changes");
  }
}

static void open_table(const Pick &p) {
  const Bytes name = rnd_name();
  if (p.ro && p.ro->blurred.count(name))
    return;
  auto it = p.names->find(name);
  const bool exists = it != p.names->end(), create = r.chance(p.write ? 60 : 10);
  unsigned flags = exists && r.chance(75) ? it->second->flags : all_flags[r.below(8)];
  const bool accede = r.chance(10);
  if (settled && (create || !exists))
    flags = meaning(name);
  if (!accede && create && exists && flags != it->second->flags && !ro.empty())
    return; // an empty table made anew under the eyes of readers
  MDBX_dbi d = 0;
  const unsigned uf = accede ? (unsigned)MDBX_DB_ACCEDE : flags | (create ? (unsigned)MDBX_CREATE : 0);
  MDBX_val nv = mv(name);
  int rc = r.chance(50) ? mdbx_dbi_open(p.txn, name.c_str(), (MDBX_db_flags_t)uf, &d) : mdbx_dbi_open2(p.txn, &nv, (MDBX_db_flags_t)uf, &d);
  vf_log("open %s flags %x in %s: %d -> %u", nm(name), uf, where(p), rc, d);
  const bool make = create && !accede;
  bool sure = false;
  const MDBX_dbi was = bound_to(name, sure);
  const bool rebound = was && p.ro && binds[was].since > p.ro->started;
  if (rc == MDBX_SUCCESS) {
    if (!exists && (!make || !p.write))
      vf_fail("opened-absent", "table %s does not exist in the %s transaction; %s", nm(name), p.ro ? "read" : "write", vf.case_desc.c_str());
    if (make && !p.write)
      vf_fail("create-in-read-txn", "%s; %s", nm(name), vf.case_desc.c_str());
    if (exists && !accede && flags != it->second->flags && !(make && it->second->rows.empty()))
      vf_fail("opened-with-other-flags", "%s has flags %x, %zu rows, opened with %x; %s", nm(name), it->second->flags, it->second->rows.size(), flags,
              vf.case_desc.c_str());
    if (was && sure && d != was && !rebound)
      vf_fail("second-handle", "%s is open as %u, given %u; %s", nm(name), was, d, vf.case_desc.c_str());
    auto o = binds.find(d);
    if (o != binds.end() && o->second.name != name && o->second.sure)
      vf_fail("shared-handle", "handle %u of %s given for %s; %s", d, nm(o->second.name), nm(name), vf.case_desc.c_str());
    ever.insert(name);
    const bool fresh = !(o != binds.end() && o->second.name == name);
    if (was && was != d)
      close_bind(was, false);
    maybe.erase(d);
    if (fresh)
      {
      Bind nb;
      nb.name = name, nb.since = ++event;
      binds[d] = nb;
    }
    else if (!binds[d].sure)
      binds[d].sure = true, binds[d].since = ++event;
    binds[d].okin.insert(p.txn);
    if (fresh || !exists || (!accede && flags != it->second->flags))
      binds[d].flags = exists && accede ? it->second->flags : flags;
    if (!exists) {
      auto t = std::make_shared<Tab>();
      t->flags = flags;
      (*p.names)[name] = t;
      wr.back().made.insert(d);
      cnt("created");
    } else if (!accede && flags != it->second->flags) {
      auto t = std::make_shared<Tab>();
      t->flags = flags;
      it->second = t;
      for (auto &l : wr)
        l.made.insert(d); // whether it survives an abort is not told
      binds[d].sure = true;
      binds[d].since = ++event;
      cnt("recreated");
    }
    cnt("opened");
    Pick q = p;
    use(d, q);
    return;
  }
  switch (rc) {
  case MDBX_NOTFOUND:
    if (exists || (make && p.write))
      vf_fail("open-error", "%s: not found, %s; %s", nm(name), exists ? "exists" : "had to be created", vf.case_desc.c_str());
    break;
  case MDBX_EACCESS:
    if (p.write || !make)
      vf_fail("open-error", "%s: %d; %s", nm(name), rc, vf.case_desc.c_str());
    break;
  case MDBX_INCOMPATIBLE:
    if (!settled)
      break;
    if ((accede || (exists && flags == it->second->flags)) && !(was && exists && binds[was].flags != it->second->flags))
      vf_fail("open-error", "%s: incompatible with flags %x of the same; %s", nm(name), flags, vf.case_desc.c_str());
    if (!exists && !was && !ever.count(name))
      vf_fail("open-error", "%s: absent but incompatible; %s", nm(name), vf.case_desc.c_str());
    break;
  case MDBX_DBS_FULL:
    if (binds.size() + 3 < maxdbs) // some may be held by a table the model has given up
      vf_fail("open-error", "no room with %zu handles of %u; %s", binds.size(), maxdbs, vf.case_desc.c_str());
    if (was && sure && !rebound)
      vf_fail("open-error", "no room for the handle %u already open; %s", was, vf.case_desc.c_str());
    cnt("full");
    break;
  case MDBX_BAD_DBI:
  case MDBX_DANGLING_DBI:
    if (!p.ro && (!was || sure_in(binds[was], p.txn, wr.back().started)))
      vf_fail("open-error", "%s: %d; %s", nm(name), rc, vf.case_desc.c_str());
    break;
  default:
    vf_fail("open-error", "%s: %d; %s", nm(name), rc, vf.case_desc.c_str());
  }
  if (!exists && was && rc == MDBX_NOTFOUND && p.write)
    close_bind(was, false); // the handle of a table which is gone is released
  cnt("open_refused");
}

struct Seen {
  std::map<Bytes, std::pair<unsigned, uint64_t>> t;
  std::map<Bytes, MDBX_dbi> dbi;
  bool twice = false;
  uint64_t left = ~0ull, calls = 0;
};
static int on_table(void *ctx, const MDBX_txn *, const MDBX_val *name, MDBX_db_flags_t flags, const struct MDBX_stat *st, MDBX_dbi dbi) noexcept {
  Seen &s = *(Seen *)ctx;
  ++s.calls;
  if (!s.t.emplace(bs(*name), std::make_pair((unsigned)flags & PERS, (uint64_t)st->ms_entries)).second)
    s.twice = true;
  s.dbi[bs(*name)] = dbi;
  return --s.left ? 0 : 77;
}
static void enumerate(const Pick &p) {
  Seen s;
  int rc = mdbx_enumerate_tables(p.txn, on_table, &s);
  if (rc || s.twice || s.t.size() != p.names->size())
    vf_fail("enumeration", "result %d, %zu tables told, %zu exist; %s", rc, s.t.size(), p.names->size(), vf.case_desc.c_str());
  for (auto &e : *p.names) {
    auto it = s.t.find(e.first);
    if (it == s.t.end() || it->second.first != e.second->flags || it->second.second != e.second->rows.size())
      vf_fail("enumeration", "table %s: told%s flags %x items %llu, really %x %zu; %s", nm(e.first), it == s.t.end() ? " absent" : "", it == s.t.end() ? 0 : it->second.first,
              it == s.t.end() ? 0 : (unsigned long long)it->second.second, e.second->flags, e.second->rows.size(), vf.case_desc.c_str());
    bool sure = false;
    const MDBX_dbi b = bound_to(e.first, sure), d = s.dbi[e.first];
    if (p.ro && (p.ro->blurred.count(e.first) || (b && binds[b].since > p.ro->started)))
      continue;
    if (d && binds.count(d) && binds[d].sure && d != b)
      vf_fail("enumeration-handle", "table %s is said to be open as %u, really %u; %s", nm(e.first), d, b, vf.case_desc.c_str());
  }
  if (s.calls > 1) {
    Seen q;
    q.left = 1 + r.below(s.calls - 1);
    const uint64_t want = q.left;
    rc = mdbx_enumerate_tables(p.txn, on_table, &q);
    if (rc != 77 || q.calls != want)
      vf_fail("enumeration-stop", "result %d after %llu of %llu; %s", rc, (unsigned long long)q.calls, (unsigned long long)want, vf.case_desc.c_str());
  }
  cnt("enumerations");
}

static void rename_table(MDBX_dbi d) {
  auto b = binds.find(d);
  if (b == binds.end() || wr.empty())
    return;
  Names &names = wr.back().names;
  const Bytes from = b->second.name, to = r.chance(5) ? Bytes(r.chance(50) ? 5000 : 70000, 'n') : rnd_name();
  if (settled && meaning(from) != meaning(to))
    return;
  MDBX_val nv = mv(to);
  int rc = r.chance(50) ? mdbx_dbi_rename2(wr.back().txn, d, &nv) : mdbx_dbi_rename(wr.back().txn, d, to.c_str());
  vf_log("rename %u %s -> %s: %d", d, nm(from), nm(to), rc);
  auto it = names.find(from);
  if (rc == MDBX_SUCCESS) {
    if (to == from)
      return; // nothing to do, told without a look at the table
    if (it == names.end())
      vf_fail("stale-handle-accepted", "rename of the absent table %s; %s", nm(from), vf.case_desc.c_str());
    if (names.count(to))
      vf_fail("rename-over", "%s over the existing %s; %s", nm(from), nm(to), vf.case_desc.c_str());
    if (to.size() > 4000)
      vf_fail("rename-long", "name of %zu bytes; %s", to.size(), vf.case_desc.c_str());
    names[to] = it->second;
    names.erase(from);
    for (auto o = binds.begin(); o != binds.end();) // a handle left behind by the former table of that name
      if (o->first != d && o->second.name == to)
        maybe.insert(o->first), o = binds.erase(o);
      else
        ++o;
    b->second.name = to;
    b->second.sure = true;
    wr.back().renamed.insert(d);
    for (auto &x : ro)
      x.blurred.insert(from), x.blurred.insert(to);
    cnt("renamed");
    use(d, pick_txn(true));
    return;
  }
  if (it == names.end() || !sure_in(b->second, wr.back().txn, wr.back().started)) {
    if (rc != MDBX_BAD_DBI && rc != MDBX_NOTFOUND && rc != MDBX_KEYEXIST && rc != MDBX_BAD_VALSIZE && rc != MDBX_EINVAL && rc != MDBX_INCOMPATIBLE)
      vf_fail("rename-error", "%s -> %s: %d; %s", nm(from), nm(to), rc, vf.case_desc.c_str());
    return;
  }
  if ((rc == MDBX_INCOMPATIBLE || rc == MDBX_BAD_DBI) && !settled)
    return;
  if (names.count(to) ? rc != MDBX_KEYEXIST : to.size() < 4000)
    vf_fail("rename-error", "%s -> %s: %d; %s", nm(from), nm(to), rc, vf.case_desc.c_str());
  cnt("rename_refused");
}

static void drop_table(MDBX_dbi d) {
  auto b = binds.find(d);
  if (b == binds.end() || wr.empty())
    return;
  Names &names = wr.back().names;
  const bool del = r.chance(60);
  const Bytes n = b->second.name;
  int rc = mdbx_drop(wr.back().txn, d, del);
  vf_log("%s %u %s: %d", del ? "drop" : "clear", d, nm(n), rc);
  auto it = names.find(n);
  if (rc == MDBX_SUCCESS) {
    if (it == names.end())
      vf_fail("stale-handle-accepted", "drop of the absent table %s; %s", nm(n), vf.case_desc.c_str());
    if (del) {
      names.erase(it);
      close_bind(d);
      for (auto &l : wr)
        l.made.erase(d), l.renamed.erase(d);
      cnt("dropped");
      use(d, pick_txn(true));
    } else {
      const unsigned f = it->second->flags;
      it->second = std::make_shared<Tab>();
      it->second->flags = f;
      cnt("cleared");
    }
    return;
  }
  if ((rc == MDBX_INCOMPATIBLE || rc == MDBX_BAD_DBI) && (!settled || !sure_in(b->second, wr.back().txn, wr.back().started)))
    return;
  if ((rc != MDBX_BAD_DBI && rc != MDBX_NOTFOUND) || (it != names.end() && sure_in(b->second, wr.back().txn, wr.back().started)))
    vf_fail("drop-error", "%s: %d; %s", nm(n), rc, vf.case_desc.c_str());
}

static void close_handle(MDBX_dbi d) {
  auto b = binds.find(d);
  // not while a transaction has changed the table
  if (b != binds.end() && !wr.empty())
    for (auto &l : wr) {
      auto x = l.names.find(b->second.name);
      auto y = committed.find(b->second.name);
      if (l.made.count(d) || l.renamed.count(d) || (x == l.names.end()) != (y == committed.end()) ||
          (x != l.names.end() && x->second != y->second))
        return;
    }
  int rc = mdbx_dbi_close(env, d);
  vf_log("close %u (%s): %d", d, b == binds.end() ? "unbound" : nm(b->second.name), rc);
  if (b == binds.end() ? rc != MDBX_BAD_DBI && !maybe.count(d) : rc != MDBX_SUCCESS && b->second.sure && rc != MDBX_DANGLING_DBI)
    vf_fail("close", "handle %u (%s): %d; %s", d, b == binds.end() ? "unbound" : nm(b->second.name), rc, vf.case_desc.c_str());
  if (rc == MDBX_SUCCESS || (b != binds.end() && !b->second.sure)) {
    close_bind(d);
    cnt("closed");
    if (!wr.empty() || !ro.empty())
      use(d, pick_txn());
  }
}

static void abort_level() {
  Level l = wr.back();
  MUST(mdbx_txn_abort(l.txn));
  wr.pop_back();
  for (auto &b : binds)
    if (b.second.okin.erase(l.txn))
      b.second.unsure(); // until opened anew
  vf_log("abort level %zu", wr.size());
  for (auto d : l.made)
    if (binds.count(d)) {
      auto it = (wr.empty() ? committed : wr.back().names).find(binds[d].name);
      if (it == (wr.empty() ? committed : wr.back().names).end())
        close_bind(d, false); // created here: closed together with the table
      else
        binds[d].unsure();
    }
  for (auto d : l.renamed) // the handle of a renamed table does not outlive an abort, whatever it was called
    if (binds.count(d))
      binds[d].unsure();
  cnt("aborts");
}
static void commit_level() {
  Level l = wr.back();
  int rc = mdbx_txn_commit(l.txn);
  if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE)
    vf_fail("commit", "%d; %s", rc, vf.case_desc.c_str());
  wr.pop_back();
  for (auto &b : binds)
    if (b.second.okin.erase(l.txn) && !wr.empty())
      b.second.okin.insert(wr.back().txn);
  vf_log("commit level %zu", wr.size());
  if (wr.empty())
    committed = l.names;
  else {
    wr.back().names = l.names;
    wr.back().made.insert(l.made.begin(), l.made.end());
    wr.back().renamed.insert(l.renamed.begin(), l.renamed.end());
  }
  cnt("commits");
}

static void open_env(bool fresh) {
  ever.clear();
  maybe.clear();
  if (fresh)
    mdbx_env_delete(path.c_str(), MDBX_ENV_JUST_DELETE);
  MUST(mdbx_env_create(&env));
  MUST(mdbx_env_set_maxdbs(env, maxdbs));
  MUST(mdbx_env_set_geometry(env, -1, -1, 256 << 20, -1, -1, fresh ? (intptr_t)(512u << r.below(4)) : -1));
  MUST(mdbx_env_open(env, path.c_str(), (MDBX_env_flags_t)(MDBX_NOSUBDIR | MDBX_UTTERLY_NOSYNC | MDBX_NOSTICKYTHREADS | (wmap ? MDBX_WRITEMAP : 0)), 0644));
  binds.clear();
}

static void one_case(uint64_t seed, uint64_t cs) {
  r = Rng(mix64(seed * 1000003 + cs));
  wmap = r.chance(25);
  settled = r.chance(75);
  maxdbs = 2 + (unsigned)r.below(r.chance(40) ? 5 : 90);
  pool.clear();
  for (unsigned i = 0, n = 2 + (unsigned)r.below(r.chance(30) ? 120 : 12); i < n; ++i)
    pool.push_back(r.chance(15) ? Bytes(1 + r.below(100), 'a' + (char)r.below(3)) : strf("t%u", (unsigned)r.below(n * 2)));
  path = scratch_dir() + "/n.db";
  committed.clear();
  wr.clear(), ro.clear();
  vf_case(strf("case=%llu maxdbs=%u names=%zu%s", (unsigned long long)cs, maxdbs, pool.size(), wmap ? " writemap" : ""));
  open_env(true);
  const unsigned steps = 200 + (unsigned)r.below(500);
  uint64_t sig = 0;
  for (unsigned i = 0; i < steps; ++i) {
    if (wr.empty() && (settled || ro.empty()) && r.chance(40)) {
      MDBX_txn *t;
      MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t));
      wr.push_back({t, committed, {}, {}, event});
      vf_log("begin");
      continue;
    }
    if (ro.size() < 3 && (settled || wr.empty()) && r.chance(6)) {
      MDBX_txn *t;
      MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t));
      ro.push_back({t, committed, event, {}});
      vf_log("begin ro");
      if (!wr.empty())
        for (auto &l : wr) // renames pending: the handles are already renamed
          for (auto d : l.renamed)
            if (binds.count(d))
              for (auto &n : l.names)
                ro.back().blurred.insert(n.first);
      if (!ro.back().blurred.empty())
        for (auto &n : committed)
          ro.back().blurred.insert(n.first);
      continue;
    }
    if (wr.empty() && ro.empty())
      continue;
    const unsigned k = (unsigned)r.below(100);
    if (k < 25)
      open_table(pick_txn());
    else if (k < 45)
      use(any_handle(), pick_txn());
    else if (k < 62)
      change(any_handle());
    else if (k < 68)
      rename_table(any_handle());
    else if (k < 74)
      drop_table(any_handle());
    else if (k < 77) {
      if (wr.size() < 2) // the state of a handle belongs to all the levels
        close_handle(any_handle());
    }
    else if (k < 82)
      enumerate(pick_txn());
    else if (k < 86 && !wr.empty() && wr.size() < 4 && !wmap && args.num("nested", 1)) {
      MDBX_txn *t;
      MUST(mdbx_txn_begin(env, wr.back().txn, MDBX_TXN_READWRITE, &t));
      wr.push_back({t, wr.back().names, {}, {}, wr.back().started});
      vf_log("begin nested %zu", wr.size());
      cnt("nested");
    } else if (k < 91 && !wr.empty())
      commit_level();
    else if (k < 94 && !wr.empty())
      abort_level();
    else if (k < 96 && !ro.empty()) {
      size_t x = r.below(ro.size());
      MUST(mdbx_txn_abort(ro[x].txn));
      for (auto &b : binds)
        b.second.okin.erase(ro[x].txn);
      ro.erase(ro.begin() + (long)x);
    } else if (k == 99 && wr.empty() && ro.empty()) {
      MUST(mdbx_env_close(env));
      open_env(false);
      vf_log("reopen");
      cnt("reopenings");
    }
    sig = mix64(sig ^ k ^ binds.size() << 8 ^ (wr.empty() ? 0 : wr.back().names.size()) << 16);
  }
  while (!wr.empty())
    if (r.chance(70))
      commit_level();
    else
      abort_level();
  for (auto &x : ro)
    MUST(mdbx_txn_abort(x.txn));
  ro.clear();
  MUST(mdbx_env_close(env));
  // everything once more, by a fresh environment
  maxdbs = 200;
  open_env(false);
  MDBX_txn *t;
  MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t));
  Pick p{t, &committed, false, nullptr};
  enumerate(p);
  for (auto &e : committed) {
    MDBX_dbi d;
    MUST(mdbx_dbi_open(t, e.first.c_str(), (MDBX_db_flags_t)e.second->flags, &d));
    std::set<std::pair<Bytes, Bytes>> got;
    MUST(read_all(t, d, got));
    if (got != e.second->rows)
      vf_fail("wrong-contents", "%s after reopening: %zu rows instead of %zu; %s", nm(e.first), got.size(), e.second->rows.size(), vf.case_desc.c_str());
    cnt("final_tables");
  }
  MUST(mdbx_txn_abort(t));
  MUST(mdbx_env_close(env));
  distinct(sig);
  cnt("cases");
}

// a rename over a dropped table's name, both rolled back: the handle of the first table must not show the second
static void rename_rolled_back(bool nested) {
  vf_case(nested ? "rename rolled back (nested)" : "rename rolled back");
  path = scratch_dir() + "/n.db";
  maxdbs = 8;
  wmap = false;
  open_env(true);
  MDBX_txn *t, *o = nullptr;
  MDBX_dbi a, b;
  Bytes ka = "ka", kb = "kb";
  MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t));
  MUST(mdbx_dbi_open(t, "a", MDBX_CREATE, &a));
  MUST(mdbx_dbi_open(t, "b", MDBX_CREATE, &b));
  MDBX_val k = mv(ka), v = mv(ka);
  MUST(mdbx_put(t, a, &k, &v, MDBX_UPSERT));
  k = mv(kb), v = mv(kb);
  MUST(mdbx_put(t, b, &k, &v, MDBX_UPSERT));
  MUST(mdbx_txn_commit(t));
  MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t));
  if (nested) {
    o = t;
    MUST(mdbx_txn_begin(env, o, MDBX_TXN_READWRITE, &t));
  }
  MUST(mdbx_drop(t, b, true));
  MUST(mdbx_dbi_rename(t, a, "b"));
  MUST(mdbx_txn_abort(t));
  if (!nested)
    MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &o));
  std::set<std::pair<Bytes, Bytes>> got;
  int rc = read_all(o, a, got);
  if (rc == MDBX_SUCCESS && (got.size() != 1 || got.begin()->first != ka))
    vf_finding("rename-rolled-back", strf("the handle of table 'a' shows table 'b' after {drop b; rename a to b} was rolled back%s", nested ? " in a nested transaction" : ""));
  else if (rc != MDBX_SUCCESS && rc != MDBX_BAD_DBI && rc != MDBX_NOTFOUND)
    vf_fail("use-error", "%d after a rename rolled back", rc);
  MUST(mdbx_txn_abort(o));
  MUST(mdbx_env_close(env));
  cnt("rename_rollbacks");
}

int main(int argc, char **argv) {
  vf.prop = "C22";
  vf_init(argc, argv);
  const uint64_t seed = args.num("seed", 1), first = args.num("first", 0), n = args.num("n", 1);
  if (first == 0) {
    rename_rolled_back(false);
    rename_rolled_back(true);
  }
  for (uint64_t i = first; i < first + n; ++i)
    one_case(seed, i);
  vf_sample(vf.case_desc);
  scratch_drop();
  vf_finish();
}
