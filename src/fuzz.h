// Single-threaded model-checking-by-execution: random API calls against the
// real engine, each result compared with the reference model.
#pragma once
#include "gen.h"
#include "audit.h"

// MDBX_TXN_FULL is an honest answer when the limit of dirty pages was made
// small: the transaction has to be aborted, and nothing of it may remain
struct TxnFull {
  int rc;
  bool ended = false; // the transaction is finished already
};
static inline int W(int rc) {
  if (rc == MDBX_TXN_FULL || rc == MDBX_MAP_FULL || rc == MDBX_UNABLE_EXTEND_MAPSIZE)
    throw TxnFull{rc, false};
  return rc;
}

// closes the cursor whatever happens
struct CurG {
  MDBX_cursor *c = nullptr;
  CurG(MDBX_txn *txn, MDBX_dbi dbi) { MUST(mdbx_cursor_open(txn, dbi, &c)); }
  ~CurG() { mdbx_cursor_close(c); }
  operator MDBX_cursor *() const { return c; }
  CurG(const CurG &) = delete;
};

struct Prof {
  const char *name;
  int kinds = 3;           // 1 unique, 2 multi, 3 both
  unsigned tables = 2;
  // weights
  unsigned put = 30, del = 10, get = 10, replace = 8, multi = 4, bulk = 3, cget = 10, cput = 8, cdel = 6, batch = 3,
           scan = 2, bunch = 0, range = 0, seq = 0, drop = 1, misuse = 0, cache = 0, verify = 1, cmisc = 2, canary = 0,
           est = 0;
  unsigned cursors = 2;    // open cursors kept per write transaction
  unsigned nested_pm = 10; // permille per op: begin nested
  unsigned abort_pct = 15, nabort_pct = 40;
  unsigned ops_per_txn = 60, txns = 12;
  unsigned readers = 1;
  unsigned audit_pct = 25, reopen_pct = 8;
  // between transactions, percent; in a transaction, permille per operation
  unsigned copy_pct = 0, defrag_pct = 0, geo_pct = 0, chk_pct = 0, copy_pm = 0, defrag_pm = 0, geo_pm = 0;
};

enum CState { C_FRESH, C_AT, C_EOF, C_HOLLOW, C_DELETED, C_LOST };
struct MCur {
  MDBX_cursor *c = nullptr;
  unsigned t = 0, id = 0;
  CState st = C_FRESH;
  Bytes k, v;
  unsigned lvl = 0;    // nesting level at which it was opened
  bool at_brim = false; // NOTFOUND was reported by a forward step here
};

struct Level {
  MDBX_txn *txn;
  DbM db;
  std::vector<MCur> saved; // cursors of the outer level, as they were
};
struct Reader {
  MDBX_txn *txn;
  DbM db;
};

struct Fuzz {
  Rng r;
  Prof p;
  EnvCfg cfg;
  MDBX_env *env = nullptr;
  std::string path;
  std::vector<Shape> sh;
  DbM committed;
  std::vector<Level> lv;
  std::vector<MCur> cur;
  std::vector<Reader> rd;
  uint64_t casehash = 0;
  uint64_t seq_id = 0; // ascending key counter
  int keymode = 0;
  bool sub_audit = true;
  unsigned next_cur = 0;
  // cache entries, one pair per (table, key): shared and single-threaded API
  std::map<std::pair<unsigned, Bytes>, std::pair<MDBX_cache_entry_t, MDBX_cache_entry_t>> cache;

  uint64_t case_seed = 0, step = 0, phase = 0;
  std::set<uint64_t> skip; // steps left out (reduction of a failing case)

  Fuzz(uint64_t seed, const Prof &pr) : r(seed), p(pr), case_seed(seed) {}
  // every step has a random stream of its own, so that leaving one out does
  // not change what the others do more than the state of the model makes it
  bool next_step() {
    ++step;
    r = Rng(case_seed ^ mix64(step * 2 + 1));
    vf.step = step;
    return !skip.count(step);
  }
  void next_phase() { r = Rng(case_seed ^ mix64(++phase * 2)); }
  Level &L() { return lv.back(); }
  MDBX_txn *T() { return lv.back().txn; }
  const TableM &tab(unsigned t) { return L().db.r(sh[t].name); }
  TableM &wtab(unsigned t) { return L().db.w(sh[t].name); }
  void run();
  void open_env(bool create);
  void open_tables(bool create);
  void close_env();
  void write_txn();
  void txn_body(unsigned n);
  void txn_end();
  void one_op();
  Bytes pick_key(unsigned t);
  Bytes pick_val(unsigned t, const Bytes &k);
  bool rnd_pos(unsigned t, Pos &pos);
  // operations
  void op_put(unsigned t, MCur *c);
  void op_del(unsigned t);
  void op_get(unsigned t);
  void op_replace(unsigned t);
  void op_multi(unsigned t);
  void op_bulk(unsigned t);
  void op_cget();
  void op_cput();
  void op_cdel();
  void op_batch();
  void op_scan();
  void op_bunch();
  void op_range();
  void op_seq(unsigned t);
  void op_drop(unsigned t);
  void op_misuse(unsigned t);
  void op_cache(unsigned t);
  void cache_check(MDBX_txn *txn, const DbM &db, unsigned t, const char *where);
  void op_cmisc();
  void op_est(unsigned t);
  void check_cursors(const char *why, unsigned pct = 100);
  void do_cget(MCur &c, MDBX_cursor_op op, const Bytes *k, const Bytes *v);
  void verify_cursor(MCur &c, const char *why);
  // bookkeeping of what happens to the cursors' entries
  void note_del_pair(unsigned t, const Bytes &k, const Bytes &v, MCur *self);
  void note_del_key(unsigned t, const Bytes &k, MCur *self);
  MCur &any_cursor();
  MCur *new_cursor(unsigned t);
  void close_cursors(unsigned minlvl);
  void begin_nested();
  void end_nested(bool commit);
  void full_verify(MDBX_txn *txn, const DbM &db, const char *why, bool deep);
  void audit_file(const char *why);
  void reader_step();
  // around transactions
  bool geo_was_in_txn = false;
  bool geo_in_txn = false; // the limits were changed inside the running transaction
  uint64_t upper_bound = 0; // what the data file may never exceed
  void between();
  void op_chk();
  void op_copy(bool inside);
  void verify_copy(const std::string &cp, const DbM &db, unsigned flags, const char *how);
  void op_defrag(bool inside);
  void op_geo();
  void check_geo(const char *why);
  uint64_t upper_used();
  void note_map_full();
  void after_full(int rc);
};
struct ChkOut {
  uint64_t problems, issues, tables, alloc_pages, gc_pages, processed_pages, reclaimable, recent, unused;
  std::string first;
};
int run_chk(MDBX_env *env, unsigned flags, ChkOut &out);
std::vector<uint8_t> slurp(const std::string &p);

// shared: compare a table with the model by scanning it both ways
void verify_table(MDBX_txn *txn, MDBX_dbi dbi, const TableM &m, const char *why, bool backward);
void weaken(std::vector<MCur> &cur, unsigned t, MCur *self);
bool locate(const TableM &m, const MCur &c, Pos &p);
void set_at(MCur &c, const Pos &p);
bool lower_pos(const TableM &m, const Bytes &k, const Bytes &v, Pos &p);
