// C27: the built-in orders and the number-to-key transforms against plain
// references: pairs and triples, whole tables, every exponent of the floats.
#include "vf.h"
#include <cmath>
#include <functional>

static int sgn(long long x) { return x < 0 ? -1 : x > 0; }
static int ref_lex(const Bytes &a, const Bytes &b) {
  const size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i)
    if (a[i] != b[i])
      return (uint8_t)a[i] < (uint8_t)b[i] ? -1 : 1;
  return sgn((long long)a.size() - (long long)b.size());
}
static int ref_rev(const Bytes &a, const Bytes &b) {
  return ref_lex(Bytes(a.rbegin(), a.rend()), Bytes(b.rbegin(), b.rend()));
}
static int ref_int(const Bytes &a, const Bytes &b) {
  if (a.size() == 4) {
    uint32_t x, y;
    memcpy(&x, a.data(), 4), memcpy(&y, b.data(), 4);
    return x < y ? -1 : x > y;
  }
  uint64_t x, y;
  memcpy(&x, a.data(), 8), memcpy(&y, b.data(), 8);
  return x < y ? -1 : x > y;
}
typedef int (*Ref)(const Bytes &, const Bytes &);

static Bytes hex(const Bytes &b) {
  Bytes r;
  char t[4];
  for (size_t i = 0; i < b.size() && i < 24; ++i)
    snprintf(t, 4, "%02x", (uint8_t)b[i]), r += t;
  return r + "(" + std::to_string(b.size()) + ")";
}

// edge-heavy 64-bit patterns
static uint64_t edge64(Rng &r) {
  switch (r.below(8)) {
  case 0:
    return r.next();
  case 1:
    return (1ull << r.below(64)) + r.range(-3, 3);
  case 2:
    return 0 - (1ull << r.below(64)) + r.range(-3, 3);
  case 3:
    return (uint64_t)r.range(-1100, 1100);
  case 4:
    return (r.next() >> r.below(64));
  case 5:
    return 0 - (r.next() >> r.below(64));
  case 6:
    return (r.next() << r.below(64));
  default: { // just below or above a rounding tie of 53 bits
    uint64_t m = (1ull << 52) | (r.next() >> 12);
    unsigned sh = 1 + (unsigned)r.below(10);
    uint64_t v = (m << sh) + (1ull << (sh - 1)) + r.range(-1, 1);
    return r.chance(50) ? v : 0 - v;
  }
  }
}
static uint64_t edge_double(Rng &r) {
  uint64_t s = r.below(2) << 63, e = r.below(2048), m = r.next() >> 12;
  switch (r.below(6)) {
  case 0:
    m = r.below(3);
    break;
  case 1:
    m = (1ull << 52) - 1 - r.below(3);
    break;
  case 2:
    e = r.below(3);
    break;
  case 3:
    e = 2044 + r.below(3);
    break;
  case 4:
    e = 1023 + r.range(-2, 66);
    m = (r.next() >> 12) & ~(r.next() >> (12 + r.below(50)));
    break;
  }
  return s | (e << 52) | (m & ((1ull << 52) - 1));
}

template <class T> static MDBX_val val_of(T &x) { return MDBX_val{&x, sizeof(T)}; }

static void d_pair(uint64_t ua, uint64_t ub) {
  double a, b;
  memcpy(&a, &ua, 8), memcpy(&b, &ub, 8);
  const uint64_t ka = mdbx_key_from_double(a), kb = mdbx_key_from_ptrdouble(&b);
  uint64_t t = ka;
  double back = mdbx_double_from_key(val_of(t));
  if (memcmp(&back, &ua, 8))
    vf_fail("double-roundtrip", "%016llx -> key %016llx -> other", (unsigned long long)ua, (unsigned long long)ka);
  if ((ua == ub) != (ka == kb))
    vf_fail("double-injective", "%016llx %016llx", (unsigned long long)ua, (unsigned long long)ub);
  if (a < b ? !(ka < kb) : a > b ? !(ka > kb) : false)
    vf_fail("double-order", "%.17g (%016llx) and %.17g (%016llx)", a, (unsigned long long)ka, b, (unsigned long long)kb);
  cnt("double_pairs");
  // the integer reading of a double key: truncated towards zero, saturated
  if (a == a) {
    t = ka;
    int64_t j = mdbx_jsonInteger_from_key(val_of(t));
    int64_t want = a >= 9223372036854775808.0 ? INT64_MAX : a < -9223372036854775808.0 ? INT64_MIN : (int64_t)a;
    if (j != want)
      vf_fail("json-truncation", "the key of %.17g read as an integer: %lld, expected %lld", a, (long long)j, (long long)want);
    cnt("json_truncations");
  }
}
static void f_pair(uint32_t ua, uint32_t ub) {
  float a, b;
  memcpy(&a, &ua, 4), memcpy(&b, &ub, 4);
  const uint32_t ka = mdbx_key_from_float(a), kb = mdbx_key_from_ptrfloat(&b);
  uint32_t t = ka;
  float back = mdbx_float_from_key(val_of(t));
  if (memcmp(&back, &ua, 4))
    vf_fail("float-roundtrip", "%08x -> key %08x -> other", ua, ka);
  if ((ua == ub) != (ka == kb))
    vf_fail("float-injective", "%08x %08x", ua, ub);
  if (a < b ? !(ka < kb) : a > b ? !(ka > kb) : false)
    vf_fail("float-order", "%.9g (%08x) and %.9g (%08x)", a, ka, b, kb);
}
static void i_pair(int64_t a, int64_t b) {
  const uint64_t ka = mdbx_key_from_int64(a), kb = mdbx_key_from_int64(b);
  uint64_t t = ka;
  if (mdbx_int64_from_key(val_of(t)) != a)
    vf_fail("int64-roundtrip", "%lld", (long long)a);
  if (sgn(a < b ? -1 : a > b) != (ka < kb ? -1 : ka > kb))
    vf_fail("int64-order", "%lld %lld", (long long)a, (long long)b);
  const int32_t a4 = (int32_t)a, b4 = (int32_t)b;
  const uint32_t k4 = mdbx_key_from_int32(a4), l4 = mdbx_key_from_int32(b4);
  uint32_t t4 = k4;
  if (mdbx_int32_from_key(val_of(t4)) != a4)
    vf_fail("int32-roundtrip", "%d", a4);
  if ((a4 < b4 ? -1 : a4 > b4) != (k4 < l4 ? -1 : k4 > l4))
    vf_fail("int32-order", "%d %d", a4, b4);
  // JSON numbers: the key of an integer is the key of the same number as a double
  const uint64_t ja = mdbx_key_from_jsonInteger(a), jb = mdbx_key_from_jsonInteger(b);
  if (ja != mdbx_key_from_double((double)a))
    vf_fail("json-as-double", "%lld: %016llx, as a double %016llx", (long long)a, (unsigned long long)ja,
            (unsigned long long)mdbx_key_from_double((double)a));
  if (a < b ? ja > jb : a > b ? ja < jb : ja != jb)
    vf_fail("json-order", "%lld %lld", (long long)a, (long long)b);
  if (a > -(1ll << 53) && a < (1ll << 53)) {
    t = ja;
    if (mdbx_jsonInteger_from_key(val_of(t)) != a)
      vf_fail("json-roundtrip", "%lld read back as %lld", (long long)a, (long long)mdbx_jsonInteger_from_key(val_of(t)));
    if (a != b && ja == jb)
      vf_fail("json-injective", "%lld %lld", (long long)a, (long long)b);
    cnt("json_roundtrips");
  }
  cnt("int_pairs");
}

// a reading at any alignment
static void unaligned_reads(Rng &r) {
  alignas(8) uint8_t buf[24];
  const size_t off = r.below(4) * 2;
  uint64_t u = edge64(r);
  memcpy(buf + off, &u, 8);
  MDBX_val v8 = {buf + off, 8}, v4 = {buf + off, 4};
  uint64_t al = u;
  uint32_t al4;
  memcpy(&al4, &u, 4);
  double d1 = mdbx_double_from_key(v8), d2 = mdbx_double_from_key(val_of(al));
  float f1 = mdbx_float_from_key(v4), f2 = mdbx_float_from_key(val_of(al4));
  if (memcmp(&d1, &d2, 8) || memcmp(&f1, &f2, 4) || mdbx_int64_from_key(v8) != mdbx_int64_from_key(val_of(al)) ||
      mdbx_int32_from_key(v4) != mdbx_int32_from_key(val_of(al4)) ||
      mdbx_jsonInteger_from_key(v8) != mdbx_jsonInteger_from_key(val_of(al)))
    vf_fail("unaligned-read", "%016llx at offset %zu", (unsigned long long)u, off);
  cnt("unaligned_reads");
}

static Bytes rnd_bytes(Rng &r, const std::vector<Bytes> &pool, size_t max) {
  Bytes b;
  if (!pool.empty() && r.chance(70)) {
    b = pool[r.below(pool.size())];
    switch (r.below(6)) {
    case 0:
      if (!b.empty())
        b[r.below(b.size())] ^= (char)(1 << r.below(8));
      break;
    case 1:
      b += (char)(r.chance(50) ? 0 : r.next());
      break;
    case 2:
      b.insert(b.begin(), (char)(r.chance(50) ? 0 : r.next()));
      break;
    case 3:
      b = b.substr(0, r.below(b.size() + 1));
      break;
    case 4:
      b = b.substr(r.below(b.size() + 1));
      break;
    }
  } else {
    b.resize(r.below(r.chance(20) ? max + 1 : 20));
    for (auto &c : b)
      c = r.chance(30) ? (char)(r.below(3) * 127) : (char)r.next();
  }
  if (b.size() > max)
    b.resize(max);
  return b;
}

struct Kind {
  const char *what;
  unsigned flags; // of the table
  Ref ref;        // keys
  Ref vref;       // values (multi-value tables)
  bool ik, iv;
};
static const Kind kinds[] = {
    {"bytes", 0, ref_lex, nullptr, false, false},
    {"reversed", MDBX_REVERSEKEY, ref_rev, nullptr, false, false},
    {"integers", MDBX_INTEGERKEY, ref_int, nullptr, true, false},
    {"multi", MDBX_DUPSORT, ref_lex, ref_lex, false, false},
    {"multi-reversed", MDBX_DUPSORT | MDBX_REVERSEKEY | MDBX_REVERSEDUP, ref_rev, ref_rev, false, false},
    {"multi-fixed", MDBX_DUPSORT | MDBX_DUPFIXED, ref_lex, ref_lex, false, false},
    {"multi-fixed-reversed", MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_REVERSEDUP, ref_lex, ref_rev, false, false},
    {"multi-integers", MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_INTEGERKEY | MDBX_INTEGERDUP, ref_int, ref_int, true, true},
};

static Bytes int_bytes(Rng &r, size_t w) {
  uint64_t u = edge64(r);
  if (w == 4 && r.chance(50))
    u = (uint64_t)edge64(r) >> 32;
  return Bytes((const char *)&u, w);
}

// every pair and triple of a sample through a comparator
static void check_cmp(const char *what, const std::vector<Bytes> &s, Ref ref, const std::function<int(const MDBX_val &, const MDBX_val &)> &f) {
  const size_t n = s.size();
  std::vector<int> m(n * n);
  alignas(8) static uint8_t ba[4200], bb[4200];
  Rng r(mix64(n * 77 + s[0].size()));
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      const size_t oa = r.below(4) * 2, ob = r.below(4) * 2;
      memcpy(ba + oa, s[i].data(), s[i].size()), memcpy(bb + ob, s[j].data(), s[j].size());
      const MDBX_val a = {ba + oa, s[i].size()}, b = {bb + ob, s[j].size()};
      const int c = sgn(f(a, b));
      m[i * n + j] = c;
      if (ref && c != ref(s[i], s[j]))
        vf_fail("comparator", "%s: %s against %s gives %d, expected %d", what, hex(s[i]).c_str(), hex(s[j]).c_str(), c, ref(s[i], s[j]));
      if ((c == 0) != (s[i] == s[j]))
        vf_fail("comparator-equality", "%s: %s against %s gives %d", what, hex(s[i]).c_str(), hex(s[j]).c_str(), c);
      cnt("comparisons");
    }
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      if (m[i * n + j] != -m[j * n + i])
        vf_fail("comparator-antisymmetry", "%s: %s and %s", what, hex(s[i]).c_str(), hex(s[j]).c_str());
      if (m[i * n + j] < 0)
        for (size_t k = 0; k < n; ++k)
          if (m[j * n + k] < 0 && m[i * n + k] >= 0)
            vf_fail("comparator-transitivity", "%s: %s %s %s", what, hex(s[i]).c_str(), hex(s[j]).c_str(), hex(s[k]).c_str());
    }
}

static void table_case(Rng &r, MDBX_env *env, const Kind &k, size_t page) {
  MDBX_txn *txn;
  MUST(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &txn));
  MDBX_dbi dbi;
  MUST(mdbx_dbi_open(txn, k.what, (MDBX_db_flags_t)(k.flags | MDBX_CREATE), &dbi));
  const size_t kw = r.chance(50) ? 4 : 8, vw = k.iv ? (r.chance(50) ? 4 : 8) : 2 + r.below(12);
  const size_t kmax = (size_t)mdbx_env_get_maxkeysize_ex(env, (MDBX_db_flags_t)k.flags);
  const size_t n = 20 + r.below(r.chance(30) ? 1500 : 150);
  std::vector<Bytes> keys, vals;
  auto newkey = [&] {
    Bytes b = k.ik ? int_bytes(r, kw) : rnd_bytes(r, keys, std::min<size_t>(kmax, 120));
    keys.push_back(b);
    return b;
  };
  auto newval = [&]() -> Bytes {
    Bytes b = k.iv ? int_bytes(r, vw) : rnd_bytes(r, vals, 60);
    if (k.flags & MDBX_DUPFIXED)
      b.resize(vw);
    if (!k.iv && vals.size() < 50)
      vals.push_back(b);
    return b;
  };
  auto less = [&](const Bytes &a, const Bytes &b) { return k.ref(a, b) < 0; };
  Ref vr = k.vref ? k.vref : ref_lex;
  auto vless = [vr](const Bytes &a, const Bytes &b) { return vr(a, b) < 0; };
  typedef std::set<Bytes, std::function<bool(const Bytes &, const Bytes &)>> VSet;
  std::map<Bytes, VSet, std::function<bool(const Bytes &, const Bytes &)>> model(less);
  alignas(8) static uint8_t kb[4200], vb[4200];
  for (size_t i = 0; i < n; ++i) {
    Bytes kk = k.vref && !keys.empty() && r.chance(60) ? keys[r.below(keys.size())] : newkey(), vv = newval();
    const size_t oa = r.below(8), ob = r.below(8); // any alignment
    memcpy(kb + oa, kk.data(), kk.size()), memcpy(vb + ob, vv.data(), vv.size());
    MDBX_val mk = {kb + oa, kk.size()}, md = {vb + ob, vv.size()};
    int rc = mdbx_put(txn, dbi, &mk, &md, MDBX_UPSERT);
    if (rc)
      vf_fail("put", "%s: key %s, value %s, page %zu, fixed %zu, row %zu: %d; keys %zu", k.what, hex(kk).c_str(), hex(vv).c_str(), page, vw, i, rc, model.size());
    auto it = model.emplace(kk, VSet(vless)).first;
    if (!k.vref)
      it->second.clear();
    it->second.insert(vv);
    cnt("rows_put");
  }
  MDBX_cursor *c;
  MUST(mdbx_cursor_open(txn, dbi, &c));
  // both directions agree with the reference order
  for (int dir = 0; dir < 2; ++dir) {
    std::vector<std::pair<Bytes, Bytes>> got, want;
    MDBX_val mk, md;
    int rc = mdbx_cursor_get(c, &mk, &md, dir ? MDBX_LAST : MDBX_FIRST);
    Bytes pk, pv;
    while (rc == MDBX_SUCCESS) {
      got.emplace_back(Bytes((char *)mk.iov_base, mk.iov_len), Bytes((char *)md.iov_base, md.iov_len));
      // the public comparisons agree with the order of iteration
      if (got.size() > 1) {
        MDBX_val a = {(void *)pk.data(), pk.size()}, b = {(void *)got.back().first.data(), got.back().first.size()};
        int x = sgn(mdbx_cmp(txn, dbi, &a, &b));
        if (k.vref && x == 0) {
          MDBX_val va = {(void *)pv.data(), pv.size()}, vb2 = {(void *)got.back().second.data(), got.back().second.size()};
          x = sgn(mdbx_dcmp(txn, dbi, &va, &vb2));
        }
        if (x != (dir ? 1 : -1))
          vf_fail("iteration-order", "%s: neighbours in iteration %s compare as %d", k.what, hex(pk).c_str(), x);
        cnt("neighbours");
      }
      pk = got.back().first, pv = got.back().second;
      rc = mdbx_cursor_get(c, &mk, &md, dir ? MDBX_PREV : MDBX_NEXT);
    }
    if (rc != MDBX_NOTFOUND)
      vf_fail("iteration", "%s: %d", k.what, rc);
    for (auto &e : model)
      for (auto &v : e.second)
        want.emplace_back(e.first, v);
    if (dir)
      std::reverse(want.begin(), want.end());
    if (got != want) {
      size_t i = 0;
      while (i < got.size() && i < want.size() && got[i] == want[i])
        ++i;
      vf_fail("iteration", "%s, %s: %zu items instead of %zu, differ at %zu: %s, expected %s", k.what, dir ? "backward" : "forward", got.size(), want.size(), i,
              i < got.size() ? hex(got[i].first).c_str() : "-", i < want.size() ? hex(want[i].first).c_str() : "-");
    }
  }
  // lookups with any alignment
  for (size_t i = 0; i < 120; ++i) {
    Bytes kk = r.chance(50) ? keys[r.below(keys.size())] : k.ik ? int_bytes(r, kw) : rnd_bytes(r, keys, std::min<size_t>(kmax, 120));
    const size_t oa = r.below(8);
    memcpy(kb + oa, kk.data(), kk.size());
    MDBX_val mk = {kb + oa, kk.size()}, md;
    int rc = mdbx_get(txn, dbi, &mk, &md);
    auto it = model.find(kk);
    if (rc != (it == model.end() ? MDBX_NOTFOUND : MDBX_SUCCESS))
      vf_fail("lookup", "%s: %s: %d", k.what, hex(kk).c_str(), rc);
    mk = {kb + oa, kk.size()};
    rc = mdbx_cursor_get(c, &mk, &md, MDBX_SET_RANGE);
    it = model.lower_bound(kk);
    if (it == model.end() ? rc != MDBX_NOTFOUND : rc || Bytes((char *)mk.iov_base, mk.iov_len) != it->first)
      vf_fail("lower-bound", "%s: %s: %d", k.what, hex(kk).c_str(), rc);
    cnt("lookups");
  }
  // the table's comparisons over a sample
  std::vector<Bytes> s;
  std::set<Bytes> us;
  for (size_t i = 0; i < 14; ++i) {
    Bytes b = keys[r.below(keys.size())];
    s.push_back(b);
  }
  check_cmp(k.what, s, k.ref, [&](const MDBX_val &a, const MDBX_val &b) { return mdbx_cmp(txn, dbi, &a, &b); });
  mdbx_cursor_close(c);
  if (r.chance(50))
    MUST(mdbx_drop(txn, dbi, true));
  mdbx_txn_abort(txn);
  distinct(hash_bytes(keys.back().data(), keys.back().size(), keys.size() * 31 + (size_t)(&k - kinds)));
  (void)page;
}

int main(int argc, char **argv) {
  vf.prop = "C27";
  vf_init(argc, argv);
  const uint64_t seed = args.num("seed", 1), first = args.num("first", 0), n = args.num("n", 1);
  if (args.str("mode") == "floats") { // every float, a slice at a time
    const uint64_t parts = args.num("parts", 4096);
    for (uint64_t p = first; p < first + n; ++p) {
      vf_case(strf("floats part %llu of %llu", (unsigned long long)p, (unsigned long long)parts));
      const uint64_t a = p * (0x100000000ull / parts), b = (p + 1) * (0x100000000ull / parts);
      // in the order of keys: the floats they decode to have to ascend
      uint32_t key = (uint32_t)a - (a ? 1 : 0);
      float prev = mdbx_float_from_key(val_of(key));
      uint64_t c = 0;
      for (uint64_t k = a; k < b; ++k) {
        key = (uint32_t)k;
        const float f = mdbx_float_from_key(val_of(key));
        if (mdbx_key_from_float(f) != key && f == f)
          vf_fail("float-roundtrip", "key %08x", key);
        if (f == f && prev == prev && k && !(f > prev) && !(f == 0 && prev == 0))
          vf_fail("float-order", "key %08x decodes to %g after %g", key, f, prev);
        prev = f;
        ++c;
      }
      cnt("floats", c);
      distinct(mix64(p));
    }
    vf_finish();
  }
  const Bytes dir = scratch_dir();
  for (uint64_t i = first; i < first + n; ++i) {
    Rng r(mix64(seed * 1000003 + i));
    vf_case(strf("case=%llu", (unsigned long long)i));
    for (int q = 0; q < 1500; ++q) {
      const uint64_t a = edge_double(r), b = r.chance(50) ? a + r.range(-2, 2) : r.chance(30) ? a ^ (1ull << r.below(64)) : edge_double(r);
      d_pair(a, b);
      const uint32_t fa = (uint32_t)(r.chance(50) ? r.next() : a >> 32), fb = r.chance(50) ? fa + (uint32_t)r.range(-2, 2) : (uint32_t)r.next();
      f_pair(fa, fb);
      cnt("float_pairs");
      const uint64_t ia = edge64(r), ib = r.chance(50) ? ia + r.range(-2, 2) : edge64(r);
      i_pair((int64_t)ia, (int64_t)ib);
      unaligned_reads(r);
      distinct(mix64(a ^ mix64(ia)));
    }
    // comparators by flags
    for (auto &k : kinds) {
      std::vector<Bytes> s, v;
      const size_t w = r.chance(50) ? 4 : 8;
      for (int q = 0; q < 24; ++q) {
        s.push_back(k.ik ? int_bytes(r, w) : rnd_bytes(r, s, r.chance(5) ? 4000 : 300));
        v.push_back(k.iv ? int_bytes(r, w) : rnd_bytes(r, v, 300));
      }
      MDBX_cmp_func kf = mdbx_get_keycmp((MDBX_db_flags_t)k.flags), vfn = mdbx_get_datacmp((MDBX_db_flags_t)k.flags);
      check_cmp(k.what, s, k.ref, [&](const MDBX_val &a, const MDBX_val &b) { return kf(&a, &b); });
      check_cmp((Bytes(k.what) + " values").c_str(), v, k.vref, [&](const MDBX_val &a, const MDBX_val &b) { return vfn(&a, &b); });
    }
    // whole tables
    const Bytes path = dir + "/k.db";
    mdbx_env_delete(path.c_str(), MDBX_ENV_JUST_DELETE);
    MDBX_env *env;
    MUST(mdbx_env_create(&env));
    MUST(mdbx_env_set_maxdbs(env, 16));
    const size_t page = 256u << r.below(9);
    MUST(mdbx_env_set_geometry(env, -1, -1, 64 << 20, -1, -1, (intptr_t)page));
    MUST(mdbx_env_open(env, path.c_str(), (MDBX_env_flags_t)(MDBX_NOSUBDIR | MDBX_UTTERLY_NOSYNC | (r.chance(30) ? MDBX_WRITEMAP : 0)), 0644));
    for (int q = 0; q < 3; ++q)
      table_case(r, env, kinds[r.below(sizeof(kinds) / sizeof(kinds[0]))], page);
    MUST(mdbx_env_close(env));
    if (i == first)
      vf_sample(strf("%s: pages of %zu bytes, 1500 numbers of each type, 8 orders over 24 strings each, 3 tables", vf.case_desc.c_str(), page));
  }
  scratch_drop();
  vf_finish();
}
