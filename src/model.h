// Reference model: ordered maps / multimaps with the key orders libmdbx
// documents, implemented independently of the code under test.
#pragma once
#include "vf.h"

static inline int cmp_lex(const Bytes &a, const Bytes &b) {
  size_t n = std::min(a.size(), b.size());
  int c = n ? memcmp(a.data(), b.data(), n) : 0;
  if (c)
    return c;
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
static inline int cmp_rev(const Bytes &a, const Bytes &b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 1; i <= n; ++i) {
    int d = (int)(uint8_t)a[a.size() - i] - (int)(uint8_t)b[b.size() - i];
    if (d)
      return d;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
static inline uint64_t int_of(const Bytes &a) {
  uint64_t v = 0;
  memcpy(&v, a.data(), std::min<size_t>(8, a.size()));
  return v;
}
static inline int cmp_int(const Bytes &a, const Bytes &b) {
  uint64_t x = int_of(a), y = int_of(b);
  return x < y ? -1 : x > y;
}
typedef int (*CmpFn)(const Bytes &, const Bytes &);
static inline CmpFn kcmp_for(unsigned flags) {
  return (flags & MDBX_INTEGERKEY) ? cmp_int : (flags & MDBX_REVERSEKEY) ? cmp_rev : cmp_lex;
}
static inline CmpFn vcmp_for(unsigned flags) {
  return (flags & MDBX_INTEGERDUP) ? cmp_int : (flags & MDBX_REVERSEDUP) ? cmp_rev : cmp_lex;
}
struct Less {
  CmpFn f;
  bool operator()(const Bytes &a, const Bytes &b) const { return f(a, b) < 0; }
};
typedef std::vector<Bytes> Vals; // sorted; exactly one element in unique tables
typedef std::map<Bytes, Vals, Less> Rows;

struct TableM {
  unsigned flags;
  Rows rows;
  uint64_t items = 0;
  uint64_t seq = 0;
  CmpFn vcmp;
  explicit TableM(unsigned f) : flags(f), rows(Less{kcmp_for(f)}), vcmp(vcmp_for(f)) {}
  bool dup() const { return flags & MDBX_DUPSORT; }
  size_t vlower(const Vals &v, const Bytes &x) const {
    return std::lower_bound(v.begin(), v.end(), x, Less{vcmp}) - v.begin();
  }
  bool has(const Vals &v, const Bytes &x) const {
    size_t i = vlower(v, x);
    return i < v.size() && vcmp(v[i], x) == 0;
  }
  // set semantics insert of a pair (multi) or upsert (unique)
  void put(const Bytes &k, const Bytes &v) {
    auto it = rows.find(k);
    if (it == rows.end()) {
      rows.emplace(k, Vals{v});
      ++items;
    } else if (!dup()) {
      it->second[0] = v;
    } else {
      size_t i = vlower(it->second, v);
      if (i < it->second.size() && vcmp(it->second[i], v) == 0)
        return;
      it->second.insert(it->second.begin() + i, v);
      ++items;
    }
  }
  void put_only(const Bytes &k, const Bytes &v) { // replace all values
    auto it = rows.find(k);
    if (it == rows.end())
      put(k, v);
    else {
      items -= it->second.size() - 1;
      it->second.assign(1, v);
    }
  }
  bool del(const Bytes &k) {
    auto it = rows.find(k);
    if (it == rows.end())
      return false;
    items -= it->second.size();
    rows.erase(it);
    return true;
  }
  bool del(const Bytes &k, const Bytes &v) {
    auto it = rows.find(k);
    if (it == rows.end())
      return false;
    size_t i = vlower(it->second, v);
    if (i >= it->second.size() || vcmp(it->second[i], v) != 0)
      return false;
    it->second.erase(it->second.begin() + i);
    --items;
    if (it->second.empty())
      rows.erase(it);
    return true;
  }
};
typedef std::shared_ptr<TableM> TableP;

struct DbM {
  std::map<Bytes, TableP> t; // "" is the main table when used for user data
  MDBX_canary canary{};
  TableM &w(const Bytes &name) { // copy on write
    TableP &p = t.at(name);
    if (p.use_count() > 1)
      p = std::make_shared<TableM>(*p);
    return *p;
  }
  const TableM &r(const Bytes &name) const { return *t.at(name); }
};

// position inside a table: row iterator + value index
struct Pos {
  Rows::const_iterator it;
  size_t i;
};
static inline bool next_pos(const TableM &t, Pos &p) {
  if (p.i + 1 < p.it->second.size()) {
    ++p.i;
    return true;
  }
  auto n = std::next(p.it);
  if (n == t.rows.end())
    return false;
  p.it = n;
  p.i = 0;
  return true;
}
static inline bool prev_pos(const TableM &t, Pos &p) {
  if (p.i > 0) {
    --p.i;
    return true;
  }
  if (p.it == t.rows.begin())
    return false;
  --p.it;
  p.i = p.it->second.size() - 1;
  return true;
}
