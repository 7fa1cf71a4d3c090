// Independent auditor: parses a libmdbx data file byte by byte (no engine
// code) and decides whether one meta page describes a structurally exact
// database: every allocated page has exactly one owner, every counter equals
// what is really there, every tree is ordered and balanced.
#pragma once
#include "model.h"

struct AuditTree {
  uint16_t flags, height;
  uint32_t dupfix, root, branch, leaf, large;
  uint64_t seq, items, mod;
};
struct AuditMeta {
  bool valid = false;
  uint64_t txnid = 0, sign = 0, retired = 0;
  uint16_t grow_pv = 0, shrink_pv = 0;
  uint32_t lower = 0, upper = 0, now = 0, first_unalloc = 0, pagesize = 0;
  AuditTree gc{}, main{};
  uint64_t canary[4] = {};
  uint8_t bootid[16] = {};
  bool steady() const { return sign > 1; }
};
struct AuditResult {
  std::vector<std::string> errs;
  std::set<std::string> kinds; // format strings of the errors
  AuditMeta metas[3];
  int head = -1;
  uint64_t file_pages = 0;
  uint64_t used = 0, gcpages = 0, gcrecords = 0, branch = 0, leaf = 0, large = 0, subpages = 0, nested = 0, maxheight = 0;
  uint64_t nodes = 0;
  std::vector<uint64_t> gc_txnids;
  std::map<Bytes, TableP> tables; // extracted contents, "" = main (plain rows only)
  std::map<Bytes, AuditTree> trees;
  bool ok() const { return errs.empty(); }
  std::string err() const {
    std::string s;
    for (size_t i = 0; i < errs.size() && i < 6; ++i)
      s += (i ? "; " : "") + errs[i];
    return s;
  }
};
// which: -1 newest valid meta, 0..2 a specific one. extract: fill `tables`.
AuditResult audit_image(const uint8_t *img, size_t len, bool extract, int which = -1, bool steady_only = false);
AuditResult audit_path(const std::string &file, bool extract, int which = -1, bool steady_only = false);
std::string db_diff(const std::map<Bytes, TableP> &got, const DbM &want);
bool read_file(const std::string &p, std::vector<uint8_t> &out);
