// Round trips through the command line tools, judged by the reference model
// and the independent auditor; and the free-list report (mdbx_gc_info).
#include <functional>
#include "dbgen.h"
#include <sys/wait.h>

extern "C" {
int tool_dump(int, char **);
int tool_load(int, char **);
int tool_stat(int, char **);
int tool_chk(int, char **);
int tool_copy(int, char **);
int tool_drop(int, char **);
int tool_defrag(int, char **);
}
static std::string dir, cmdline;
struct Run {
  int rc;
  std::vector<uint8_t> out, err;
  std::string text() const { return std::string(out.begin(), out.end()); }
  std::string etext() const { return std::string(err.begin(), err.begin() + std::min<size_t>(err.size(), 300)); }
};
static Run tool(std::vector<std::string> a, const std::string &in = "/dev/null") {
  cmdline = "mdbx";
  for (auto &x : a)
    cmdline += (&x == &a[0] ? "_" : " ") + x;
  cmdline += " <" + in;
  vf_log("%s", cmdline.c_str());
  cnt("tool_runs");
  cnt(("runs_" + a[0]).c_str());
  const std::string o = dir + "/out", e = dir + "/err";
  fflush(stdout);
  pid_t pid = fork();
  if (!pid) {
    int i = open(in.c_str(), O_RDONLY), x = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), y = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (i < 0 || x < 0 || y < 0)
      _exit(98);
    dup2(i, 0);
    dup2(x, 1);
    dup2(y, 2);
    alarm(60);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=97", 1);
    std::vector<char *> v;
    v.push_back((char *)"--tool");
    for (auto &s : a)
      v.push_back((char *)s.c_str());
    v.push_back(nullptr);
    execv("/proc/self/exe", v.data());
    _exit(98);
  }
  int st;
  waitpid(pid, &st, 0);
  Run r;
  read_file(o, r.out);
  read_file(e, r.err);
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGKILL)
      vf_harness_error("tool was killed");
    vf_fail(WTERMSIG(st) == SIGALRM ? "tool-hang" : "tool-crash", "%s died of signal %d; %s; %s", cmdline.c_str(), WTERMSIG(st), r.etext().c_str(), vf.case_desc.c_str());
  }
  r.rc = WEXITSTATUS(st);
  if (r.rc == 98)
    vf_harness_error("cannot run a tool");
  if (r.rc == 97) {
    fwrite(r.err.data(), 1, r.err.size(), stderr);
    vf_fail("tool-sanitizer", "%s: %s; %s", cmdline.c_str(), r.etext().c_str(), vf.case_desc.c_str());
  }
  return r;
}
static void need0(const Run &r) {
  if (r.rc)
    vf_fail("tool-failed", "%s exits with %d: %s; %s", cmdline.c_str(), r.rc, r.etext().c_str(), vf.case_desc.c_str());
}
static void gone(const std::string &p) {
  unlink(p.c_str());
  unlink((p + "-lck").c_str());
}
static AuditResult must_audit(const std::string &p, const char *what) {
  AuditResult a = audit_path(p, true);
  if (!a.ok())
    vf_fail("unsound", "%s left %s; %s", what, a.err().c_str(), vf.case_desc.c_str());
  return a;
}
static std::string diff(const AuditResult &a, const DbM &want, bool canary, bool seq = true) {
  DbM w = want;
  if (!seq)
    for (auto &t : w.t) {
      auto n = std::make_shared<TableM>(*t.second);
      auto g = a.tables.find(t.first);
      n->seq = g == a.tables.end() ? 0 : g->second->seq;
      t.second = n;
    }
  std::string d = db_diff(a.tables, w);
  if (!d.empty())
    return d;
  for (auto &t : want.t)
    if (!t.first.empty() || want.t.size() == 1) {
      auto g = a.tables.find(t.first);
      if (g->second->flags != t.second->flags)
        return strf("table %s has flags 0x%x, expected 0x%x", hexs(t.first).c_str(), g->second->flags, t.second->flags);
    }
  const AuditMeta &m = a.metas[a.head];
  if (canary && (m.canary[0] != want.canary.x || m.canary[1] != want.canary.y || m.canary[2] != want.canary.z))
    return strf("markers %llu,%llu,%llu", (unsigned long long)m.canary[0], (unsigned long long)m.canary[1], (unsigned long long)m.canary[2]);
  return "";
}
static void same(const std::string &p, const DbM &want, bool canary, const char *what, bool seq = true) {
  AuditResult a = must_audit(p, what);
  std::string d = diff(a, want, canary, seq);
  if (!d.empty())
    vf_fail("contents-differ", "%s [%s]: %s; %s", what, cmdline.c_str(), d.c_str(), vf.case_desc.c_str());
}
static uint64_t file_hash(const std::string &p) {
  std::vector<uint8_t> b;
  read_file(p, b);
  return hash_bytes(b.data(), b.size());
}
static bool printable_name(const Bytes &n) {
  for (unsigned char c : n)
    if (c < 0x20 || c == 0x7f)
      return false;
  return !n.empty();
}
static void write_bytes(const std::string &p, const Bytes &b) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f))
    vf_harness_error("cannot write %s", p.c_str());
}

// ---- dump | load -----------------------------------------------------------
static std::string dump(Rng &r, const GenDb &g, const std::vector<std::string> &sel, bool rescue_ok, bool &print, bool &concise) {
  std::vector<std::string> a = {"dump"};
  if (r.chance(60))
    a.push_back("-q");
  if ((print = r.chance(50)))
    a.push_back("-p");
  if ((concise = r.chance(35)))
    a.push_back("-c");
  if (rescue_ok && r.chance(25))
    a.push_back("-r");
  if (r.chance(15))
    a.push_back("-u");
  for (auto &x : sel)
    a.push_back(x);
  const std::string d = dir + "/dump";
  const bool file = r.chance(50);
  if (file)
    a.insert(a.end(), {"-f", d});
  a.push_back(g.path);
  Run x = tool(a);
  need0(x);
  if (!file)
    rename((dir + "/out").c_str(), d.c_str());
  return d;
}
static void load(Rng &r, const std::string &d, const std::string &to, std::vector<std::string> extra, bool append_ok, bool &geo, size_t page) {
  std::vector<std::string> a = {"load", "-n"};
  if (r.chance(70))
    a.push_back("-q");
  if (append_ok && r.chance(30))
    a.push_back("-a");
  if (r.chance(25))
    a.insert(a.end(), {"-b", std::to_string(1 + r.below(r.chance(50) ? 5 : 200))});
  if (r.chance(15))
    a.insert(a.end(), {"-L", "1"});
  if (r.chance(25))
    a.insert(a.end(), {"-d", std::to_string(50 + r.below(51))});
  if (r.chance(15))
    a.push_back("-r");
  if ((geo = r.chance(20)))
    a.insert(a.end(), {"-G", strf("%zu:%zu:%zu:%zu:%zu", page * 32, std::max<size_t>((size_t)1 << 26, page << 13), page * 16, page * 32, page)});
  for (auto &x : extra)
    a.push_back(x);
  const bool file = r.chance(50);
  if (file)
    a.insert(a.end(), {"-f", d});
  a.push_back(to);
  Run x = tool(a, file ? "/dev/null" : d);
  need0(x);
}
static uint64_t rounded(uint64_t v, uint64_t to) { return (v + to - 1) / to * to; }
static void round_trip(Rng &r, const GenDb &g, const AuditResult &ga) {
  const bool mainonly = g.db.t.count("") != 0;
  const std::string to = dir + "/to.db";
  bool print, concise, geo;
  gone(to);
  const uint64_t h0 = file_hash(g.path);
  if (mainonly || r.chance(60)) {
    const std::string d = dump(r, g, mainonly ? std::vector<std::string>{} : std::vector<std::string>{"-a"}, true, print, concise);
    if (mainonly && r.chance(30)) { // the main table may be loaded as a named one
      load(r, d, to, {"-s", "into it"}, true, geo, g.cfg.page);
      DbM w;
      w.t["into it"] = g.db.t.at("");
      w.canary = g.db.canary;
      same(to, w, true, "load of the main table into another one");
      cnt("renaming_loads");
      gone(to);
    }
    load(r, d, to, {}, true, geo, g.cfg.page);
    same(to, g.db, true, "dump and load of everything");
    AuditResult a = audit_path(to, false);
    const AuditMeta &m = a.metas[a.head], &o = ga.metas[ga.head];
    if (m.pagesize != o.pagesize || (!geo && (m.upper != o.upper || m.lower != o.lower || m.grow_pv != o.grow_pv || m.shrink_pv != o.shrink_pv)))
      vf_fail("geometry-differs", "page %u lower %u upper %u grow %u shrink %u became %u %u %u %u %u; %s", o.pagesize, o.lower, o.upper, o.grow_pv,
              o.shrink_pv, m.pagesize, m.lower, m.upper, m.grow_pv, m.shrink_pv, vf.case_desc.c_str());
    cnt("round_trips");
    if (r.chance(40)) { // a second load over the first one changes nothing
      std::vector<std::string> how = r.chance(50) ? std::vector<std::string>{"-N"} : std::vector<std::string>{};
      const bool purge = how.empty() && r.chance(50);
      if (purge)
        how.push_back("-p");
      load(r, d, to, how, false, geo, g.cfg.page);
      same(to, g.db, true, purge ? "purging load over the same" : how.empty() ? "load over the same" : "load without overwriting over the same");
      cnt("reloads");
    }
  } else {
    const Shape &s = r.pick(g.sh);
    const std::string d = dump(r, g, {"-s", s.name}, false, print, concise);
    load(r, d, to, {}, true, geo, g.cfg.page);
    DbM w;
    w.t[s.name] = g.db.t.at(s.name);
    w.canary = g.db.canary;
    same(to, w, true, "dump and load of one table");
    cnt("single_table_trips");
  }
  if (file_hash(g.path) != h0)
    vf_fail("dump-writes", "a dump changed the data file; %s", vf.case_desc.c_str());
  gone(to);
}
// load into a database that holds other values already
static void load_over(Rng &r, const GenDb &g) {
  const std::string to = dir + "/to.db";
  const Shape &s = r.pick(g.sh);
  const TableM &src = *g.db.t.at(s.name);
  DbM w;
  w.t[s.name] = std::make_shared<TableM>(s.flags);
  TableM &m = w.w(s.name);
  {
    GenDb t;
    t.path = to;
    t.cfg = g.cfg;
    t.sh = {s};
    gen_open(t, MDBX_UTTERLY_NOSYNC, true);
    MDBX_txn *txn;
    MUST(mdbx_txn_begin(t.env, nullptr, MDBX_TXN_READWRITE, &txn));
    gen_handles(t, txn, true);
    t.db = w;
    GenOpt o;
    gen_txn(r, t, o, txn, 60);
    w = t.db;
    MUST(mdbx_txn_commit(txn));
    MUST(mdbx_env_close(t.env));
  }
  TableM &have = w.w(s.name);
  bool print, concise, geo;
  const std::string d = dump(r, g, s.name.empty() ? std::vector<std::string>{} : std::vector<std::string>{"-s", s.name}, false, print, concise);
  const unsigned how = (unsigned)r.below(3);
  std::vector<std::string> ex;
  if (how == 1)
    ex.push_back("-N");
  if (how == 2)
    ex.push_back("-p");
  load(r, d, to, ex, false, geo, g.cfg.page);
  if (how == 2)
    have = src;
  else
    for (auto &row : src.rows)
      for (auto &v : row.second)
        if (how == 0 || have.rows.find(row.first) == have.rows.end() || (have.dup() && false))
          have.put(row.first, v);
        else if (have.dup())
          ; // see below
  have.seq = src.seq;
  (void)m;
  if (how == 1 && have.dup()) {
    // NOOVERWRITE: a key that exists keeps just what it had; a new key gets its first value only
    AuditResult a = must_audit(to, "load without overwriting");
    auto t = a.tables.find(s.name);
    if (t == a.tables.end())
      vf_fail("contents-differ", "the table is missing; %s", vf.case_desc.c_str());
    for (auto &row : src.rows) {
      if (t->second->rows.find(row.first) == t->second->rows.end())
        vf_fail("contents-differ", "load without overwriting lost key %s; %s", hexs(row.first).c_str(), vf.case_desc.c_str());
    }
  } else
    same(to, w, false, how == 2 ? "purging load" : how ? "load without overwriting" : "load over other rows");
  cnt("loads_over");
  gone(to);
}
// plain text without header: every value comes from the case itself
static void plain_text(Rng &r, const GenDb &g) {
  const std::string to = dir + "/to.db", d = dir + "/dump";
  Bytes txt;
  DbM w;
  const Bytes name = r.chance(60) ? Bytes("plain") : Bytes();
  w.t[name] = std::make_shared<TableM>(0);
  const unsigned n = (unsigned)r.below(40);
  auto enc = [&](const Bytes &b) {
    for (unsigned char c : b) {
      if (c == '\\' && r.chance(50))
        txt += "\\\\";
      else if (c == '\n' || c == 0 || c == '\\' || r.chance(5))
        txt += strf(r.chance(50) ? "\\%02x" : "\\%02X", c);
      else
        txt += (char)c;
    }
    txt += '\n';
  };
  for (unsigned i = 0; i < n; ++i) {
    Bytes k, v;
    for (unsigned j = 0, l = 1 + (unsigned)r.below(20); j < l; ++j)
      k += r.chance(70) ? (char)(' ' + r.below(95)) : (char)r.below(256);
    for (unsigned j = 0, l = (unsigned)r.below(r.chance(10) ? 9000 : 60); j < l; ++j)
      v += r.chance(70) ? (char)(' ' + r.below(95)) : (char)r.below(256);
    enc(k);
    enc(v);
    w.w(name).put(k, v);
  }
  write_bytes(d, txt);
  std::vector<std::string> ex = {"-T"};
  if (!name.empty())
    ex.insert(ex.end(), {"-s", name});
  bool geo;
  load(r, d, to, ex, false, geo, g.cfg.page);
  same(to, w, false, "load of plain text");
  cnt("plain_texts");
  gone(to);
}
static void list(Rng &r, const GenDb &g) {
  Run x = tool({"dump", "-q", "-l", g.path});
  need0(x);
  std::string want;
  for (auto &t : g.db.t)
    if (!t.first.empty())
      want += t.first + "\n";
  if (x.text() != want)
    vf_fail("list-differs", "dump -l printed %s; %s", hexs(Bytes(x.text()), 60).c_str(), vf.case_desc.c_str());
  cnt("lists");
}
// ---- the other tools -------------------------------------------------------
static bool stat_nums(const std::string &txt, const std::string &head, const AuditTree &t, size_t page) {
  size_t p = txt.find(head + "\n");
  if (p == txt.npos)
    return false;
  unsigned long long ps, h, b, l, o, e;
  int n = sscanf(txt.c_str() + p + head.size() + 1, " Pagesize: %llu Tree depth: %llu Branch pages: %llu Leaf pages: %llu Large/Overflow pages: %llu Entries: %llu", &ps, &h, &b, &l, &o, &e);
  return n == 6 && ps == page && h == t.height && b == t.branch && l == t.leaf && o == t.large && e == t.items;
}
static void do_stat(Rng &r, const GenDb &g, const AuditResult &a) {
  const AuditMeta &m = a.metas[a.head];
  const uint64_t h0 = file_hash(g.path);
  std::vector<std::string> av = {"stat", "-q", "-e", "-f"};
  const bool mainonly = g.db.t.count("") != 0;
  const bool all = !mainonly && r.chance(60);
  const Shape &s = r.pick(g.sh);
  const bool one = !all && !mainonly && r.chance(70);
  if (all)
    av.push_back("-a");
  if (one)
    av.insert(av.end(), {"-s", s.name});
  if (r.chance(30))
    av.push_back("-r");
  av.push_back(g.path);
  Run x = tool(av);
  need0(x);
  const std::string t = x.text();
  auto has = [&](const char *fmt, uint64_t v) {
    const std::string l = strf(fmt, (unsigned long long)v);
    if (t.find(l) == t.npos)
      vf_fail("stat-differs", "%s does not print '%s'; %s", cmdline.c_str(), l.c_str(), vf.case_desc.c_str());
  };
  has("  Last transaction ID: %llu\n", m.txnid);
  has("  Pagesize: %llu\n", m.pagesize);
  has("  Total: %llu", m.upper);
  has("  Allocated: %llu", m.first_unalloc);
  const uint64_t gct = m.gc.branch + m.gc.leaf + m.gc.large; // the tree of the free list counts as a part of it
  has("  Used: %llu", m.first_unalloc - a.gcpages - gct);
  has("  GC|whole: %llu", a.gcpages + gct);
  has("  Remained: %llu", m.upper - m.first_unalloc);
  auto chk = [&](const std::string &hd, const AuditTree &tr) {
    if (!stat_nums(t, hd, tr, g.cfg.page))
      vf_fail("stat-differs", "%s: numbers of '%s' differ from the real ones (height %u pages %u/%u/%u items %llu); %s", cmdline.c_str(), hd.c_str(), tr.height,
              tr.branch, tr.leaf, tr.large, (unsigned long long)tr.items, vf.case_desc.c_str());
  };
  if (!one)
    chk("Status of Main DB", m.main);
  if (one)
    chk("Status of " + s.name, a.trees.at(s.name));
  if (all)
    for (auto &z : g.sh)
      chk("Status of " + z.name, a.trees.at(z.name));
  if (file_hash(g.path) != h0)
    vf_fail("stat-writes", "mdbx_stat changed the data file; %s", vf.case_desc.c_str());
  cnt("stats");
}
static void do_chk(Rng &r, const GenDb &g) {
  const uint64_t h0 = file_hash(g.path);
  std::vector<std::string> av = {"chk"};
  if (r.chance(50))
    av.push_back("-q");
  else
    for (unsigned i = (unsigned)r.below(5); i; --i)
      av.push_back("-v");
  if (r.chance(25))
    av.push_back("-c");
  if (r.chance(15))
    av.push_back("-d");
  if (r.chance(15))
    av.push_back("-u");
  if (r.chance(15))
    av.push_back("-i");
  const Shape &s = r.pick(g.sh);
  if (r.chance(20) && !s.name.empty())
    av.insert(av.end(), {"-s", s.name});
  const bool w = r.chance(15);
  if (w)
    av.push_back("-w");
  av.push_back(g.path);
  Run x = tool(av);
  need0(x);
  if (!w && file_hash(g.path) != h0)
    vf_fail("chk-writes", "mdbx_chk changed the data file; %s", vf.case_desc.c_str());
  same(g.path, g.db, true, "check");
  cnt("checks");
}
static void copy_file(const std::string &a, const std::string &b) {
  std::vector<uint8_t> v;
  read_file(a, v);
  gone(b);
  write_bytes(b, Bytes((char *)v.data(), v.size()));
}
static void do_drop(Rng &r, const GenDb &g) {
  const std::string to = dir + "/d.db";
  copy_file(g.path, to);
  DbM w = g.db;
  const Shape &s = r.pick(g.sh);
  std::vector<std::string> av = {"drop"};
  if (r.chance(70))
    av.push_back("-q");
  const bool del = r.chance(50);
  if (del)
    av.push_back("-d");
  const bool bogus = r.chance(10);
  if (bogus || !s.name.empty())
    av.insert(av.end(), {"-s", bogus ? "no such table" : s.name});
  av.push_back(to);
  Run x = tool(av);
  if (bogus) {
    if (!x.rc)
      vf_fail("drop-unknown", "dropping an unknown table succeeds; %s", vf.case_desc.c_str());
  } else {
    need0(x);
    if (del && !s.name.empty())
      w.t.erase(s.name);
    else {
      auto n = std::make_shared<TableM>(w.t.at(s.name)->flags);
      n->seq = w.t.at(s.name)->seq;
      w.t[s.name] = n;
    }
  }
  AuditResult a = must_audit(to, "drop");
  if (!bogus && w.t.count(s.name) && a.tables.count(s.name)) // clearing may restart the sequence
    w.w(s.name).seq = a.tables.at(s.name)->seq;
  if (!bogus && s.name.empty() && del)
    ; // deleting the main table resets its flags too
  std::string d = s.name.empty() && del ? db_diff(a.tables, w) : diff(a, w, true);
  if (!d.empty())
    vf_fail("contents-differ", "%s: %s; %s", cmdline.c_str(), d.c_str(), vf.case_desc.c_str());
  cnt("drops");
  gone(to);
}
static void do_copy(Rng &r, const GenDb &g) {
  const std::string to = dir + "/c.db";
  gone(to);
  std::vector<std::string> av = {"copy"};
  if (r.chance(50))
    av.push_back("-q");
  if (r.chance(50))
    av.push_back("-c");
  if (r.chance(20))
    av.push_back("-d");
  if (r.chance(20))
    av.push_back("-p");
  if (r.chance(10))
    av.push_back("-u");
  const unsigned how = (unsigned)r.below(10);
  if (how == 0) { // an existing file is refused, and kept
    write_bytes(to, "keep me");
    av.insert(av.end(), {g.path, to});
    Run x = tool(av);
    std::vector<uint8_t> b;
    read_file(to, b);
    if (!x.rc || Bytes((char *)b.data(), b.size()) != "keep me")
      vf_fail("copy-overwrites", "%s: exit %d; %s", cmdline.c_str(), x.rc, vf.case_desc.c_str());
  } else {
    if (how < 4) {
      av.push_back("-f");
      if (how < 3)
        write_bytes(to, Bytes(r.below(300000), 'x'));
    }
    av.push_back(g.path);
    if (how < 8)
      av.push_back(to);
    Run x = tool(av);
    need0(x);
    if (how >= 8)
      rename((dir + "/out").c_str(), to.c_str());
    same(to, g.db, true, "copy");
  }
  cnt("copies");
  gone(to);
}
static void do_defrag(Rng &r, const GenDb &g, const AuditResult &ga) {
  const std::string to = dir + "/f.db";
  copy_file(g.path, to);
  std::vector<std::string> av = {"defrag"};
  if (r.chance(60))
    av.push_back("-q");
  if (r.chance(40))
    av.push_back(strf("-%u", 1 + (unsigned)r.below(9)));
  if (r.chance(20))
    av.insert(av.end(), {"-f", std::to_string(1 + r.below(100))});
  if (r.chance(20))
    av.insert(av.end(), {"-r", std::to_string(r.below(101))});
  if (r.chance(20))
    av.insert(av.end(), {"-s", std::to_string(1 + r.below(4))});
  if (r.chance(20))
    av.push_back("-c");
  av.push_back(to);
  Run x = tool(av);
  need0(x);
  same(to, g.db, true, "defragmentation");
  AuditResult a = audit_path(to, false);
  // copies of the pages of the free list itself, which may be held by the unsynced snapshot
  const AuditMeta &om = ga.metas[ga.head];
  if (a.metas[a.head].first_unalloc > om.first_unalloc + 8 + om.gc.branch + om.gc.leaf + om.gc.large)
    vf_fail("defrag-grows", "%s: %u pages became %u; %s", cmdline.c_str(), ga.metas[ga.head].first_unalloc, a.metas[a.head].first_unalloc, vf.case_desc.c_str());
  cnt("defrags");
  gone(to);
}
// rescue of a file with broken pages: whatever is exported is what was stored
static void rescue(Rng &r, const GenDb &g) {
  const std::string bad = dir + "/bad.db", to = dir + "/to.db", d = dir + "/dump";
  std::vector<uint8_t> b;
  read_file(g.path, b);
  const size_t page = g.cfg.page, np = b.size() / page;
  std::vector<size_t> leafs;
  for (size_t i = 3; i < np; ++i) {
    uint16_t fl;
    uint32_t no;
    memcpy(&fl, &b[i * page + 10], 2);
    memcpy(&no, &b[i * page + 16], 4);
    if (no == i && (fl & ~0x8000u) == 2)
      leafs.push_back(i);
  }
  if (leafs.empty())
    return;
  for (unsigned i = 0, n = 1 + (unsigned)r.below(3); i < n; ++i) {
    uint8_t *p = &b[r.pick(leafs) * page];
    switch (r.below(3)) {
    case 0:
      memset(p, 0, page);
      break;
    case 1:
      p[16 + r.below(4)] ^= (uint8_t)(1 + r.below(255));
      break;
    default:
      p[10] ^= 0x44;
    }
  }
  gone(bad);
  write_bytes(bad, Bytes((char *)b.data(), b.size()));
  const bool mainonly = g.db.t.count("") != 0;
  std::vector<std::string> av = {"dump", "-q", "-r"};
  if (!mainonly)
    av.push_back("-a");
  const bool print = r.chance(50);
  if (print)
    av.push_back("-p");
  av.push_back(bad);
  Run x = tool(av);
  rename((dir + "/out").c_str(), d.c_str());
  struct stat st;
  if (stat(d.c_str(), &st) || !st.st_size) {
    cnt("rescues_empty");
    gone(bad);
    return;
  }
  gone(to);
  Run y = tool({"load", "-n", "-q", "-r", to}, d);
  need0(y);
  AuditResult a = must_audit(to, "load of a rescue dump");
  uint64_t n = 0;
  for (auto &t : a.tables) {
    if (t.first.empty() && !mainonly)
      continue;
    auto w = g.db.t.find(t.first);
    if (w == g.db.t.end())
      vf_fail("rescue-invents", "unknown table %s; %s", hexs(t.first).c_str(), vf.case_desc.c_str());
    if (w->second->flags != t.second->flags)
      vf_fail("rescue-invents", "flags of table %s; %s", hexs(t.first).c_str(), vf.case_desc.c_str());
    for (auto &row : t.second->rows) {
      auto o = w->second->rows.find(row.first);
      if (o == w->second->rows.end())
        vf_fail("rescue-invents", "table %s: key %s was never stored; %s", hexs(t.first).c_str(), hexs(row.first).c_str(), vf.case_desc.c_str());
      for (auto &v : row.second) {
        if (!w->second->has(o->second, v) || (!w->second->dup() && o->second[0] != v))
          vf_fail("rescue-invents", "table %s key %s: a value that was never stored; %s", hexs(t.first).c_str(), hexs(row.first).c_str(), vf.case_desc.c_str());
        ++n;
      }
    }
  }
  cnt("rescues");
  cnt("rescued_items", n);
  gone(to);
  gone(bad);
}
// ---- mdbx_gc_info ----------------------------------------------------------
struct Spans {
  std::vector<std::pair<size_t, size_t>> v;
  uint64_t reclaimable = 0, stop_after = ~0ull, calls = 0;
};
static int on_span(void *ctx, const MDBX_txn *, uint64_t, size_t pg, size_t len, bool rec) noexcept {
  Spans *s = (Spans *)ctx;
  s->v.push_back({pg, len});
  if (rec)
    s->reclaimable += len;
  return ++s->calls >= s->stop_after ? 1234 : 0;
}
static void gc_info(Rng &r, GenDb &g) {
  const std::string to = dir + "/g.db";
  copy_file(g.path, to);
  GenDb t = g;
  t.path = to;
  alarm(60);
  gen_open(t, MDBX_UTTERLY_NOSYNC | (r.chance(50) ? MDBX_WRITEMAP : 0), false);
  for (unsigned round = 0; round < 4; ++round) {
    MDBX_txn *txn;
    const bool wr = r.chance(70);
    MUST(mdbx_txn_begin(t.env, nullptr, wr ? MDBX_TXN_READWRITE : MDBX_TXN_RDONLY, &txn));
    AuditResult a = must_audit(to, "the previous transaction");
    GenOpt o;
    bool changed = false;
    if (wr && r.chance(70)) {
      gen_handles(t, txn, false);
      gen_txn(r, t, o, txn, 1 + (unsigned)r.below(40));
      changed = true;
    }
    MDBX_gc_info_t i;
    Spans s;
    const AuditMeta &m = a.metas[a.head];
    const uint64_t gct = m.gc.branch + m.gc.leaf + m.gc.large;
    int rc = mdbx_gc_info(txn, &i, sizeof(i), on_span, &s);
    if (rc != MDBX_SUCCESS && !(rc == MDBX_NOTFOUND && s.v.empty() && (changed || !a.gcpages)))
      vf_fail("gc-info-error", "%d with %llu pages in the free list; %s", rc, (unsigned long long)a.gcpages, vf.case_desc.c_str());
    uint64_t sum = 0;
    std::sort(s.v.begin(), s.v.end());
    size_t end = 3;
    for (auto &x : s.v) {
      if (x.first < end || x.first + x.second > i.pages_allocated || !x.second)
        vf_fail("gc-spans", "span %zu+%zu after %zu, allocated %zu; %s", x.first, x.second, end, i.pages_allocated, vf.case_desc.c_str());
      end = x.first + x.second;
      sum += x.second;
    }
    if (!changed && (sum != a.gcpages || i.pages_gc != a.gcpages + gct || i.pages_allocated != m.first_unalloc || i.pages_total != m.upper))
      vf_fail("gc-info", "spans %llu, pages_gc %zu allocated %zu total %zu; really %llu %u %u; %s", (unsigned long long)sum, i.pages_gc, i.pages_allocated,
              i.pages_total, (unsigned long long)(a.gcpages + gct), m.first_unalloc, m.upper, vf.case_desc.c_str());
    if (changed ? sum > i.pages_gc || s.reclaimable > i.gc_reclaimable.pages || i.pages_gc > i.pages_allocated
                : s.reclaimable + (wr ? gct : 0) != i.gc_reclaimable.pages)
      vf_fail("gc-info", "spans %llu (%llu reclaimable), told %zu (%zu) changed %d write %d; %s", (unsigned long long)sum, (unsigned long long)s.reclaimable, i.pages_gc,
              i.gc_reclaimable.pages, changed, wr, vf.case_desc.c_str());
    if (s.calls > 1) {
      Spans q;
      q.stop_after = 1 + r.below(s.calls - 1);
      int rc = mdbx_gc_info(txn, &i, sizeof(i), on_span, &q);
      if (rc != 1234 || q.calls != q.stop_after)
        vf_fail("gc-stop", "a callback asked to stop after %llu calls: result %d after %llu; %s", (unsigned long long)q.stop_after, rc,
                (unsigned long long)q.calls, vf.case_desc.c_str());
      cnt("gc_stops");
    }
    cnt("gc_infos");
    cnt("gc_spans", s.calls);
    if (wr)
      MUST(mdbx_txn_commit(txn));
    else
      MUST(mdbx_txn_abort(txn));
  }
  MUST(mdbx_env_close(t.env));
  alarm(0);
  same(to, t.db, false, "transactions", false);
  gone(to);
}

int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "--tool"))
    --argc, ++argv;
  if (argc > 1 && !strcmp(argv[0], "--tool")) {
    static const struct {
      const char *n;
      int (*f)(int, char **);
    } T[] = {{"dump", tool_dump}, {"load", tool_load}, {"stat", tool_stat}, {"chk", tool_chk}, {"copy", tool_copy}, {"drop", tool_drop}, {"defrag", tool_defrag}};
    for (auto &t : T)
      if (!strcmp(argv[1], t.n)) {
        int rc = t.f(argc - 1, argv + 1);
        fflush(nullptr);
        _exit(rc);
      }
    return 98;
  }
  vf_init(argc, argv);
  vf.prop = "C17";
  dir = getenv("VF_KEEP") ? getenv("VF_KEEP") : scratch_dir();
  signal(SIGALRM, [](int) {
    static const char m[] = "FAIL gc-info-hang mdbx_gc_info does not end\n";
    (void)!write(1, m, sizeof(m) - 1);
    _exit(1);
  });
  const uint64_t seed = args.num("seed", 1), first = args.num("first"), n = args.num("n", 10);
  for (uint64_t cs = first; cs < first + n; ++cs) {
    Rng r(mix64(seed * 1000003 + cs) ^ 0x700135);
    vf_case(strf("case=%llu", (unsigned long long)cs));
    GenDb g;
    g.path = dir + "/a.db";
    gone(g.path);
    GenOpt o;
    o.mainrows = false;
    o.mainonly = true;
    o.seqs = true;
    o.tables = 6;
    o.namer = [](Rng &r, unsigned i) -> Bytes {
      Bytes s;
      if (r.chance(40))
        return strf("table%u", i);
      for (unsigned j = 0, l = 1 + (unsigned)r.below(r.chance(10) ? 60 : 12); j < l; ++j)
        s += r.chance(80) ? (char)(' ' + r.below(95)) : (char)(0x80 + r.below(128));
      return s[0] == '-' ? "x" + s : s;
    };
    gen_build(r, g, o);
    vf.case_desc = strf("case=%llu page=%zu tables=%zu", (unsigned long long)cs, g.cfg.page, g.sh.size());
    AuditResult a = must_audit(g.path, "building");
    {
      std::string d = diff(a, g.db, true);
      if (!d.empty())
        vf_fail("build-differs", "%s; %s", d.c_str(), vf.case_desc.c_str());
    }
    cnt("cases");
    vf_sample(vf.case_desc);
    for (unsigned i = 0; i < 3; ++i)
      round_trip(r, g, a);
    if (r.chance(50))
      load_over(r, g);
    if (r.chance(30))
      plain_text(r, g);
    if (r.chance(30) && !g.db.t.count(""))
      list(r, g);
    if (r.chance(40))
      do_stat(r, g, a);
    if (r.chance(40))
      do_drop(r, g);
    if (r.chance(40))
      do_copy(r, g);
    if (r.chance(40))
      do_defrag(r, g, a);
    if (r.chance(40))
      rescue(r, g);
    if (r.chance(50))
      gc_info(r, g);
    if (r.chance(40))
      do_chk(r, g); // last: may write
    uint64_t items = 0, h = 0;
    for (auto &t : g.db.t)
      for (auto &row : t.second->rows) {
        h = hash_bytes(row.first.data(), row.first.size(), h);
        for (auto &v : row.second)
          h = hash_bytes(v.data(), v.size(), h), ++items;
      }
    cnt("items", items);
    if (items)
      distinct(h);
    gone(g.path);
  }
  scratch_drop();
  vf_finish();
}
