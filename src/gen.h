// Table shapes: deterministic key and value generators, environment configs.
#pragma once
#include "model.h"

static inline Bytes int_bytes(uint64_t v, unsigned width) {
  Bytes b(width, 0);
  memcpy(&b[0], &v, width);
  return b;
}

struct Shape {
  Bytes name;          // "" = main table
  unsigned flags = 0;  // MDBX_db_flags (without CREATE)
  uint64_t seed = 0;
  unsigned U = 100;    // key universe
  int kcls = 0;        // key class
  unsigned kint = 8;   // integer width
  size_t kmax = 0, vmax = 0; // limits told by the API
  int vcls = 0;
  unsigned VU = 50;    // value universe of multi-value tables
  unsigned vint = 8, vfix = 8;
  size_t page = 4096;
  MDBX_dbi dbi = 0;

  Bytes key(uint64_t id) const {
    Rng r(seed ^ (id * 0x9E37u + 17));
    if (flags & MDBX_INTEGERKEY) {
      uint64_t v;
      switch (kcls % 4) {
      case 0: v = id; break;
      case 1: v = id * 3 + (id % 7 == 0 ? 0x80000000ull : 0); break;
      case 2: v = r.next(); break;
      default: v = (r.next() & 0xff) << (8 * r.below(kint)); break;
      }
      if (kint == 4)
        v &= 0xffffffffu;
      return int_bytes(v, kint);
    }
    Bytes k;
    switch (kcls % 8) {
    case 0: { // short, small alphabet, includes the empty key
      size_t n = r.below(6);
      for (size_t i = 0; i < n; ++i)
        k += (char)("ab\0\xff"[r.below(4)]);
      break;
    }
    case 1: // ordered fixed text
      k = strf("%08llu", (unsigned long long)id);
      break;
    case 2: { // random binary, medium
      size_t n = 1 + r.below(24);
      for (size_t i = 0; i < n; ++i)
        k += (char)r.next();
      break;
    }
    case 3: { // long common prefix
      size_t n = kmax > 12 ? kmax / 2 + r.below(kmax / 2 - 8) : 4;
      k.assign(n, 'p');
      k += strf("%06llu", (unsigned long long)id);
      if (k.size() > kmax)
        k.erase(0, k.size() - kmax);
      break;
    }
    case 4: { // any length up to the maximum, both ends varied
      size_t n = r.chance(20) ? kmax - r.below(3) : r.below(kmax + 1);
      for (size_t i = 0; i < n; ++i)
        k += (char)(i < 2 || i + 2 >= n ? r.next() : (id >> (8 * (i & 3))));
      break;
    }
    case 5: // big-endian counter: natural insertion order
      for (int i = 3; i >= 0; --i)
        k += (char)(id >> (8 * i));
      break;
    case 6: { // reversed text (ordered for REVERSEKEY)
      k = strf("%08llu", (unsigned long long)id);
      std::reverse(k.begin(), k.end());
      break;
    }
    default: { // ordered, with long tails of varying size
      k = strf("%05llu", (unsigned long long)id);
      size_t n = r.below(kmax > 8 ? kmax - 6 : 1);
      k += Bytes(n, (char)('A' + id % 26));
      break;
    }
    }
    if (k.size() > kmax)
      k.resize(kmax);
    return k;
  }

  static Bytes fill(size_t n, uint64_t s) {
    Bytes b(n, 0);
    uint64_t x = s;
    for (size_t i = 0; i < n; i += 8) {
      x = mix64(x + 0x9E3779B97F4A7C15ull);
      memcpy(&b[i], &x, std::min<size_t>(8, n - i));
    }
    return b;
  }

  // a fresh value: unique tables take any contents, multi-value tables draw
  // from a universe so that collisions happen
  Bytes val(Rng &r) const {
    if (flags & MDBX_DUPSORT)
      return dupval(r.below(VU));
    size_t n;
    switch (vcls % 6) {
    case 0: n = r.below(24); break;
    case 1: n = r.below(page / 4 + 1); break;
    case 2: { // around the in-page limit
      size_t b = page / 2;
      n = b - std::min<size_t>(b, 40) + r.below(60);
      break;
    }
    case 3: n = r.chance(70) ? r.below(40) : r.below(page * 6); break;
    case 4: n = r.chance(90) ? r.below(page) : r.below(page * 40); break;
    default: // around whole-page boundaries of large values
      n = page * (1 + r.below(5)) - 20 - 30 + r.below(60);
      break;
    }
    if (vmax && n > vmax)
      n = vmax;
    return fill(n, r.next());
  }
  Bytes dupval(uint64_t id) const {
    Rng r(seed * 31 + id * 7919 + 5);
    if (flags & MDBX_INTEGERDUP) {
      uint64_t v = vcls % 2 ? r.next() : id;
      if (vint == 4)
        v &= 0xffffffffu;
      return int_bytes(v, vint);
    }
    if (flags & MDBX_DUPFIXED) {
      Bytes b(vfix, 0);
      for (size_t i = 0; i < vfix; ++i)
        b[i] = (char)(i < 4 ? id >> (8 * (3 - i)) : r.next());
      if (vcls % 3 == 1)
        std::reverse(b.begin(), b.end());
      return b;
    }
    Bytes b;
    size_t n;
    switch (vcls % 5) {
    case 0: n = r.below(12); break;
    case 1: n = r.below(std::min<size_t>(vmax, 60) + 1); break;
    case 2: n = r.below(vmax + 1); break;
    case 3: n = r.chance(15) ? vmax - r.below(3) : r.below(20); break;
    default: n = 4; break;
    }
    b = strf("%04llx", (unsigned long long)(vcls % 2 ? id : r.below(65536)));
    if (flags & MDBX_REVERSEDUP)
      std::reverse(b.begin(), b.end());
    b.resize(n, (char)('a' + id % 20));
    if (b.size() > vmax)
      b.resize(vmax);
    return b;
  }
};

static inline const char *flags_str(unsigned f) {
  static thread_local char b[64];
  snprintf(b, sizeof b, "%s%s%s%s%s%s", f & MDBX_REVERSEKEY ? "rk," : "", f & MDBX_INTEGERKEY ? "ik," : "",
           f & MDBX_DUPSORT ? "dup," : "", f & MDBX_DUPFIXED ? "fix," : "", f & MDBX_INTEGERDUP ? "idup," : "",
           f & MDBX_REVERSEDUP ? "rdup," : "");
  return b;
}

static const unsigned UNIQ_FLAGS[] = {0, 0, 0, MDBX_REVERSEKEY, MDBX_INTEGERKEY};
static const unsigned DUP_FLAGS[] = {
    MDBX_DUPSORT,
    MDBX_DUPSORT,
    MDBX_DUPSORT | MDBX_REVERSEDUP,
    MDBX_DUPSORT | MDBX_REVERSEKEY,
    MDBX_DUPSORT | MDBX_INTEGERKEY,
    MDBX_DUPSORT | MDBX_DUPFIXED,
    MDBX_DUPSORT | MDBX_DUPFIXED,
    MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_INTEGERDUP,
    MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_INTEGERDUP | MDBX_INTEGERKEY,
    MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_REVERSEDUP,
    MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_REVERSEDUP | MDBX_REVERSEKEY,
};

// random shape; kinds: 1 unique, 2 multi, 3 both
static inline Shape make_shape(Rng &r, int kinds, size_t page, const Bytes &name) {
  Shape s;
  s.name = name;
  s.page = page;
  s.seed = r.next();
  bool dup = kinds == 2 || (kinds == 3 && r.chance(50));
  s.flags = dup ? DUP_FLAGS[r.below(sizeof DUP_FLAGS / sizeof *DUP_FLAGS)] : UNIQ_FLAGS[r.below(5)];
  static const unsigned us[] = {4, 20, 100, 400, 1500};
  s.U = us[r.below(5)];
  s.kcls = (int)r.below(8);
  s.kint = r.chance(50) ? 4 : 8;
  s.vcls = (int)r.below(30);
  static const unsigned vus[] = {2, 6, 40, 300, 2000};
  s.VU = vus[r.below(5)];
  if (dup && s.VU > 100 && s.U > 100)
    s.U = 20;
  s.vint = r.chance(50) ? 4 : 8;
  int km = mdbx_limits_keysize_max((intptr_t)page, (MDBX_db_flags_t)s.flags);
  int vm = (int)mdbx_limits_valsize_max((intptr_t)page, (MDBX_db_flags_t)s.flags);
  if (km < 0 || vm < 0)
    vf_fail("limits", "mdbx_limits_*size_max(%zu, 0x%x) = %d/%d", page, s.flags, km, vm);
  s.kmax = (size_t)km;
  s.vmax = dup ? (size_t)vm : 0;
  static const unsigned fx[] = {1, 2, 3, 7, 8, 16, 31, 60};
  s.vfix = fx[r.below(8)];
  if (r.chance(10))
    s.vfix = (unsigned)std::min<size_t>((size_t)vm, 4 + r.below((size_t)vm));
  if (s.vfix > (size_t)vm)
    s.vfix = (unsigned)vm;
  const int vmin = (int)mdbx_limits_valsize_min((MDBX_db_flags_t)s.flags);
  if ((s.flags & MDBX_DUPFIXED) && (int)s.vfix < vmin)
    s.vfix = (unsigned)vmin;
  if ((s.flags & MDBX_DUPFIXED) && s.vfix < 3)
    s.VU = std::min(s.VU, 40u);
  return s;
}

struct EnvCfg {
  size_t page = 4096;
  unsigned flags = 0;
  std::vector<std::pair<int, uint64_t>> opts;
  std::string str() const {
    std::string s = strf("page=%zu flags=0x%x", page, flags);
    for (auto &o : opts)
      s += strf(" opt%d=%llu", o.first, (unsigned long long)o.second);
    return s;
  }
};

static inline EnvCfg make_cfg(Rng &r) {
  EnvCfg c;
  static const size_t ps[] = {256, 256, 512, 512, 1024, 1024, 2048, 4096, 4096, 8192, 16384, 65536};
  c.page = ps[r.below(12)];
  if (r.chance(35))
    c.flags |= MDBX_WRITEMAP;
  static const unsigned sync[] = {MDBX_UTTERLY_NOSYNC, MDBX_SAFE_NOSYNC, MDBX_NOMETASYNC, 0, MDBX_UTTERLY_NOSYNC,
                                  MDBX_SAFE_NOSYNC};
  c.flags |= sync[r.below(6)];
  if (r.chance(40))
    c.flags |= MDBX_LIFORECLAIM;
  if (r.chance(30))
    c.flags |= MDBX_NOMEMINIT;
  if (r.chance(20))
    c.flags |= MDBX_PAGEPERTURB;
  if (r.chance(30))
    c.flags |= MDBX_NORDAHEAD;
  if (r.chance(20))
    c.flags |= MDBX_EXCLUSIVE;
  if (r.chance(25))
    c.flags |= MDBX_VALIDATION;
  auto o = [&](int opt, uint64_t v) { c.opts.emplace_back(opt, v); };
  if (r.chance(30))
    o(MDBX_opt_txn_dp_limit, 128 + r.below(600));
  if (r.chance(20))
    o(MDBX_opt_txn_dp_initial, 16 + r.below(200));
  if (r.chance(20))
    o(MDBX_opt_spill_max_denominator, r.below(9));
  if (r.chance(20))
    o(MDBX_opt_spill_min_denominator, r.below(9));
  if (r.chance(20))
    o(MDBX_opt_spill_parent4child_denominator, r.below(9));
  if (r.chance(30))
    o(MDBX_opt_merge_threshold, 8192 + r.below(32768 - 8192 + 1)); // 12.5%..50%
  if (r.chance(30))
    o(MDBX_opt_rp_augment_limit, 256 + r.below(100));
  if (r.chance(20))
    o(MDBX_opt_loose_limit, r.below(256));
  if (r.chance(20))
    o(MDBX_opt_dp_reserve_limit, r.below(1024));
  if (r.chance(20))
    o(MDBX_opt_prefault_write_enable, r.below(2));
  if (r.chance(30))
    o(MDBX_opt_prefer_waf_insteadof_balance, r.below(2));
  if (r.chance(30))
    o(MDBX_opt_subpage_limit, r.below(65536));
  if (r.chance(20))
    o(MDBX_opt_subpage_room_threshold, r.below(32768));
  if (r.chance(20))
    o(MDBX_opt_subpage_reserve_prereq, r.below(65536));
  if (r.chance(20))
    o(MDBX_opt_subpage_reserve_limit, r.below(65536));
  if (r.chance(15))
    o(MDBX_opt_gc_time_limit, r.below(1000));
  if (r.chance(20))
    o(MDBX_opt_split_reserve, r.below(65536));
  if (r.chance(20))
    o(MDBX_opt_writethrough_threshold, r.below(3000));
  return c;
}
