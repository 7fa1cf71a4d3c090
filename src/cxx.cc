// C28: the C++ layer. Codecs against plain references, buffers against std::string, maps, cursors and transactions against
// std::map / std::multimap-like models, exceptions against the codes of the C calls.
#include "vf.h"
#include "mdbx.h++"
#include <functional>
#include <sstream>

typedef mdbx::buffer<> Buf;
template <class X> static std::string S(const X &x) { return std::string(x.data(), x.size()); }
static Rng *R;

static std::string esc(const Bytes &b) { return hexs(b, 40); }

// ---------------------------------------------------------------- codecs
static const char B58[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static Bytes ref_hex(const Bytes &s, bool up) {
  Bytes r;
  for (unsigned char c : s)
    r += (up ? "0123456789ABCDEF" : "0123456789abcdef")[c >> 4], r += (up ? "0123456789ABCDEF" : "0123456789abcdef")[c & 15];
  return r;
}
static Bytes ref_b64(const Bytes &s) {
  Bytes r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned n = std::min<size_t>(3, s.size() - i), v = 0;
    for (unsigned j = 0; j < 3; ++j)
      v = v << 8 | (j < n ? (unsigned char)s[i + j] : 0);
    for (unsigned j = 0; j < 4; ++j)
      r += j <= n ? B64[v >> (18 - 6 * j) & 63] : '=';
  }
  return r;
}
static Bytes ref_b58(const Bytes &s) {
  size_t z = 0;
  while (z < s.size() && !s[z])
    ++z;
  std::vector<unsigned> d;
  for (size_t i = z; i < s.size(); ++i) {
    unsigned c = (unsigned char)s[i];
    for (auto &x : d)
      c += x << 8, x = c % 58, c /= 58;
    while (c)
      d.push_back(c % 58), c /= 58;
  }
  Bytes r(z, '1');
  for (size_t i = d.size(); i--;)
    r += B58[d[i]];
  return r;
}
static bool ref_unb58(const Bytes &t, Bytes &out) {
  size_t z = 0;
  while (z < t.size() && t[z] == '1')
    ++z;
  std::vector<unsigned> d;
  for (size_t i = z; i < t.size(); ++i) {
    const char *p = t[i] ? strchr(B58, t[i]) : nullptr;
    if (!p)
      return false;
    unsigned c = p - B58;
    for (auto &x : d)
      c += x * 58, x = c & 255, c >>= 8;
    while (c)
      d.push_back(c & 255), c >>= 8;
  }
  out = Bytes(z, 0);
  for (size_t i = d.size(); i--;)
    out += (char)d[i];
  return true;
}
static bool ref_unhex(const Bytes &t, Bytes &out) {
  out.clear();
  if (t.size() % 2)
    return false;
  auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
  for (size_t i = 0; i < t.size(); i += 2) {
    if (v(t[i]) < 0 || v(t[i + 1]) < 0)
      return false;
    out += (char)(v(t[i]) << 4 | v(t[i + 1]));
  }
  return true;
}
// 1 valid, 0 invalid, -1 left open (bits beyond the end are not zero)
static int ref_unb64(const Bytes &t, Bytes &out) {
  out.clear();
  if (t.size() % 4)
    return 0;
  int verdict = 1;
  for (size_t i = 0; i < t.size(); i += 4) {
    unsigned v = 0, n = 3;
    for (unsigned j = 0; j < 4; ++j) {
      const char c = t[i + j];
      const char *p = c ? strchr(B64, c) : nullptr;
      if (p) {
        if (n < 3)
          return 0;
        v = v << 6 | (p - B64);
      } else if (c == '=' && i + 4 == t.size() && j >= 2) {
        if (n == 3)
          n = j - 1;
        v <<= 6;
      } else
        return 0;
    }
    if (n < 3 && (v & ((1u << 8 * (3 - n)) - 1)))
      verdict = -1;
    for (unsigned j = 0; j < n; ++j)
      out += (char)(v >> (16 - 8 * j));
  }
  return verdict;
}

// exact copy in an own heap block, so that the sanitizer sees any excess
struct Exact {
  char *p;
  size_t n;
  explicit Exact(const Bytes &b) : p((char *)malloc(b.size() ? b.size() : 1)), n(b.size()) { memcpy(p, b.data(), n); }
  Exact(const Exact &) = delete;
  ~Exact() { free(p); }
  mdbx::slice s() const { return mdbx::slice(p, n); }
};

static Bytes strip(const Bytes &s) {
  Bytes r;
  for (char c : s)
    if (c != '\n' && c != '\r')
      r += c;
  return r;
}

template <class T> static void check_encoder(const char *name, const T &enc, const Bytes &src, const Bytes &want, unsigned wrap, unsigned unit) {
  const size_t room = enc.envisage_result_length();
  const Bytes text = S(enc.as_string());
  if ((wrap ? strip(text) : text) != want)
    vf_fail("encode", "%s of %s wrap %u gave '%.200s', expected '%.200s'", name, esc(src).c_str(), wrap, text.c_str(), want.c_str());
  if (text.size() > room)
    vf_fail("encode-length", "%s of %s wrap %u: %zu bytes, announced %zu", name, esc(src).c_str(), wrap, text.size(), room);
  if (wrap) {
    size_t line = 0;
    const size_t most = (wrap + unit - 1) / unit * unit;
    for (char c : text)
      if (c == '\n')
        line = 0;
      else if (++line > most)
        vf_fail("encode-wrap", "%s of %s wrap %u: a line is longer than %zu: '%.200s'", name, esc(src).c_str(), wrap, most, text.c_str());
  }
  char *dst = (char *)malloc(room ? room : 1);
  char *end = enc.write_bytes(dst, room);
  if (Bytes(dst, end) != text)
    vf_fail("encode-write", "%s::write_bytes differs from as_string for %s wrap %u", name, esc(src).c_str(), wrap);
  free(dst);
  if (text.size() > 1) {
    const size_t less = R->below(text.size());
    dst = (char *)malloc(less + 1);
    memset(dst, 0x5a, less + 1);
    try {
      enc.write_bytes(dst, less);
      vf_fail("encode-small", "%s::write_bytes to a buffer of %zu of %zu bytes did not throw", name, less, text.size());
    } catch (const std::length_error &) {
      cnt("too_small");
    }
    if (dst[less] != 0x5a)
      vf_fail("encode-overrun", "%s::write_bytes wrote beyond %zu bytes", name, less);
    free(dst);
  }
  std::ostringstream os;
  enc.output(os);
  if (strip(os.str()) != want)
    vf_fail("encode-output", "%s::output of %s wrap %u gave '%.200s', expected '%.200s'", name, esc(src).c_str(), wrap, os.str().c_str(), want.c_str());
  Buf b = enc.as_buffer();
  if (bs(b) != text)
    vf_fail("encode-buffer", "%s::as_buffer differs from as_string for %s", name, esc(src).c_str());
  if (enc.is_empty() != src.empty() || enc.is_erroneous())
    vf_fail("encode-state", "%s: is_empty/is_erroneous is wrong for %s", name, esc(src).c_str());
  cnt("encoded");
}

template <class T> static void check_decoder(const char *name, const T &dec, const Bytes &text, int valid, const Bytes &want) {
  const bool bad = dec.is_erroneous();
  if (valid >= 0 && bad != !valid)
    vf_fail("decode-judge", "%s::is_erroneous says %d for %s '%.200s'", name, bad, valid ? "valid" : "invalid", text.c_str());
  bool threw = false;
  Bytes got;
  try {
    got = S(dec.as_string());
  } catch (const std::exception &e) {
    threw = true;
  }
  if (valid >= 0 && threw != !valid)
    vf_fail("decode-accept", "%s %s %s '%.200s' (%s)", name, threw ? "rejected" : "accepted", valid ? "valid" : "invalid", text.c_str(), hexs(text, 100).c_str());
  if (valid < 0 && threw != bad)
    vf_fail("decode-agree", "%s: is_erroneous %d but decoding %s '%.200s'", name, bad, threw ? "threw" : "succeeded", text.c_str());
  if (threw) {
    cnt("rejected");
    return;
  }
  if (got != want)
    vf_fail("decode", "%s of '%.200s' gave %s, expected %s", name, text.c_str(), esc(got).c_str(), esc(want).c_str());
  const size_t room = dec.envisage_result_length();
  if (got.size() > room)
    vf_fail("decode-length", "%s: %zu bytes, announced %zu", name, got.size(), room);
  char *dst = (char *)malloc(room ? room : 1);
  char *end = dec.write_bytes(dst, room);
  if (Bytes(dst, end) != want)
    vf_fail("decode-write", "%s::write_bytes differs for '%.200s'", name, text.c_str());
  free(dst);
  if (got.size() > 1) {
    const size_t less = R->below(got.size());
    dst = (char *)malloc(less + 1);
    memset(dst, 0x5a, less + 1);
    try {
      dec.write_bytes(dst, less);
      vf_fail("decode-small", "%s::write_bytes to a buffer of %zu of %zu bytes did not throw", name, less, got.size());
    } catch (const std::length_error &) {
      cnt("too_small");
    }
    if (dst[less] != 0x5a)
      vf_fail("decode-overrun", "%s::write_bytes wrote beyond %zu bytes", name, less);
    free(dst);
  }
  if (bs(dec.as_buffer()) != want)
    vf_fail("decode-buffer", "%s::as_buffer differs", name);
  cnt("decoded");
}

static Bytes spaced(const Bytes &t) { // spaces between characters pairs / quads only where any decoder must skip them: at unit borders
  return t;
}

static Bytes rnd_bytes(size_t max) {
  Rng &r = *R;
  size_t n;
  switch (r.below(6)) {
  case 0:
    n = r.below(4);
    break;
  case 1:
    n = r.below(20);
    break;
  case 2:
    n = max / 2 + r.below(max / 2 + 1);
    break;
  default:
    n = r.below(80);
  }
  n = std::min(n, max);
  Bytes b(n, 0);
  const int kind = r.below(6);
  for (auto &c : b)
    c = kind == 0 ? 0 : kind == 1 ? (char)0xff : kind == 2 ? (char)(r.chance(70) ? 0 : r.next()) : kind == 3 ? "az09 \n=A+/1"[r.below(11)] : (char)r.next();
  if (r.chance(30))
    for (size_t i = 0, z = r.below(n + 1); i < z; ++i)
      b[i] = 0;
  return b;
}

static Bytes with_spaces(const Bytes &t, unsigned unit) {
  Bytes r;
  for (size_t i = 0; i < t.size(); ++i) {
    if (i % unit == 0)
      while (R->chance(20))
        r += " \t\n\r\v\f"[R->below(6)];
    r += t[i];
  }
  while (R->chance(30))
    r += ' ';
  return r;
}

static void codec_case() {
  Rng &r = *R;
  const Bytes src = rnd_bytes(r.chance(3) ? 3000 : r.chance(15) ? 600 : 150);
  Exact e(src);
  const unsigned wrap = r.chance(50) ? 0 : 1 + r.below(r.chance(50) ? 12 : 100);
  const bool up = r.chance(50);
  vf_log("source %s wrap %u", esc(src).c_str(), wrap);
  check_encoder("to_hex", mdbx::to_hex(e.s(), up, wrap), src, ref_hex(src, up), wrap, 2);
  check_encoder("to_base64", mdbx::to_base64(e.s(), wrap), src, ref_b64(src), wrap, 4);
  check_encoder("to_base58", mdbx::to_base58(e.s(), wrap), src, ref_b58(src), wrap, 1);
  distinct(hash_bytes(src.data(), src.size(), wrap));
  // what has been encoded decodes back, also wrapped and spaced
  struct One {
    const char *name;
    Bytes text, wrapped;
    unsigned unit;
  } ones[3] = {{"from_hex", ref_hex(src, up), S(mdbx::to_hex(e.s(), up, wrap).as_string()), 2},
               {"from_base64", ref_b64(src), S(mdbx::to_base64(e.s(), wrap).as_string()), 4},
               {"from_base58", ref_b58(src), S(mdbx::to_base58(e.s(), wrap).as_string()), 1}};
  auto dec = [&](int k, const Bytes &t, bool ign, int valid, const Bytes &want) {
    Exact x(t);
    k == 0   ? check_decoder(ones[k].name, mdbx::from_hex(x.s(), ign), t, valid, want)
    : k == 1 ? check_decoder(ones[k].name, mdbx::from_base64(x.s(), ign), t, valid, want)
             : check_decoder(ones[k].name, mdbx::from_base58(x.s(), ign), t, valid, want);
  };
  for (int k = 0; k < 3; ++k) {
    dec(k, ones[k].text, false, 1, src);
    dec(k, ones[k].wrapped, true, 1, src);
    dec(k, with_spaces(ones[k].text, ones[k].unit), true, 1, src);
    // damaged text
    Bytes t = ones[k].text;
    for (int m = 1 + r.below(2); m--;)
      switch (r.below(t.empty() ? 1 : 4)) {
      case 0:
        t.insert(r.below(t.size() + 1), 1, (char)r.next());
        break;
      case 1:
        t.erase(r.below(t.size()), 1);
        break;
      case 2:
        t[r.below(t.size())] = (char)r.next();
        break;
      default:
        t[r.below(t.size())] = "=0OIl1 \n-_+/gGzZ"[r.below(16)];
      }
    Bytes want;
    const int valid = k == 0 ? ref_unhex(t, want) : k == 1 ? ref_unb64(t, want) : ref_unb58(t, want);
    dec(k, t, false, valid, want);
    // with spaces ignored: judged if the text without spaces is invalid because of a wrong character
    bool alien = false;
    for (unsigned char c : t)
      if (!isspace(c) && !(k == 0 ? isxdigit(c) != 0 : c && strchr(k == 1 ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=" : B58, c)))
        alien = true;
    if (alien)
      dec(k, t, true, 0, want);
    else { // whatever it answers, it must not read beyond the text
      Exact x(t);
      try {
        k == 0 ? (void)mdbx::from_hex(x.s(), true).as_string() : k == 1 ? (void)mdbx::from_base64(x.s(), true).as_string() : (void)mdbx::from_base58(x.s(), true).as_string();
      } catch (const std::exception &) {
      }
      k == 0 ? (void)mdbx::from_hex(x.s(), true).is_erroneous() : k == 1 ? (void)mdbx::from_base64(x.s(), true).is_erroneous() : (void)mdbx::from_base58(x.s(), true).is_erroneous();
    }
  }
}

// ---------------------------------------------------------------- buffers
struct B {
  Buf b;
  Bytes m;
};
static void buf_same(const B &x, const char *op) {
  if (bs(x.b) != x.m || x.b.size() != x.m.size() || x.b.length() != x.m.size() || x.b.empty() != x.m.empty())
    vf_fail("buffer", "after %s a buffer holds %s, expected %s", op, esc(bs(x.b)).c_str(), esc(x.m).c_str());
  if (!x.b.is_reference() && x.b.headroom() + x.b.length() + x.b.tailroom() > x.b.capacity() + 0)
    vf_fail("buffer-room", "after %s: headroom %zu + length %zu + tailroom %zu > capacity %zu", op, x.b.headroom(), x.b.length(), x.b.tailroom(), x.b.capacity());
}
static void buffer_case() {
  Rng &r = *R;
  std::deque<Exact> ext; // stable foreign memory for references
  std::vector<std::unique_ptr<B>> v;
  for (int i = 0; i < 4; ++i)
    v.emplace_back(new B);
  uint64_t h = 0;
  const int n = 20 + r.below(60);
  for (int i = 0; i < n; ++i) {
    const size_t ix = r.below(v.size()), jx = r.below(v.size());
    B &x = *v[ix], &y = *v[jx];
    const Bytes d = rnd_bytes(r.chance(10) ? 2000 : 60);
    ext.emplace_back(d);
    const mdbx::slice s = ext.back().s();
    const int op = r.below(32);
    const char *name = "?";
    vf_log("op %d on %zu (%zu bytes, %s) with %zu, data %s", op, ix, x.m.size(), x.b.is_reference() ? "reference" : "own", jx, esc(d).c_str());
    switch (op) {
    case 0:
      name = "assign(slice)", x.b = s, x.m = d;
      break;
    case 1:
      name = "assign(slice, reference)", x.b.assign(s, true), x.m = d;
      break;
    case 2:
      name = "copy assignment", x.b = y.b, x.m = y.m; // also of itself
      break;
    case 3:
      if (ix != jx) {
        name = "move assignment", x.b = std::move(y.b), x.m = y.m;
        y.b.clear(), y.m.clear();
      }
      break;
    case 4:
      name = "copy construction", v[ix].reset(new B{Buf(y.b), y.m});
      break;
    case 5: {
      name = "move construction";
      std::unique_ptr<B> nb(new B{Buf(std::move(x.b)), x.m});
      v[ix] = std::move(nb);
    } break;
    case 6:
    case 7:
    case 8:
      name = "append(slice)", x.b.append(s), x.m += d;
      break;
    case 9:
    case 10:
      name = "add_header", x.b.add_header(s), x.m = d + x.m;
      break;
    case 11: {
      name = "append(byte)";
      const char c = (char)r.next();
      x.b.append((mdbx::byte)c), x.m += c;
    } break;
    case 12:
      name = "reserve", x.b.reserve(r.below(300), r.below(300));
      break;
    case 13:
      name = "shrink_to_fit", x.b.shrink_to_fit();
      break;
    case 14:
      name = "clear", x.b.clear(), x.m.clear();
      break;
    case 15: {
      name = "clear_and_reserve";
      const size_t head = r.below(200);
      x.b.clear_and_reserve(head + r.below(400), head), x.m.clear();
    } break;
    case 16:
      name = "make_freestanding", x.b.make_freestanding();
      if (x.b.is_reference())
        vf_fail("buffer-reference", "make_freestanding() left a reference");
      break;
    case 17:
      name = "swap", x.b.swap(y.b);
      if (ix != jx)
        x.m.swap(y.m);
      break;
    case 18:
      name = "std::swap", swap(x.b, y.b);
      if (ix != jx)
        x.m.swap(y.m);
      break;
    case 19: {
      name = "append_hex";
      const bool up = r.chance(50);
      x.b.append_hex(s, up), x.m += ref_hex(d, up);
    } break;
    case 20:
      name = "append_base58", x.b.append_base58(s), x.m += ref_b58(d);
      break;
    case 21:
      name = "append_base64", x.b.append_base64(s), x.m += ref_b64(d);
      break;
    case 22: {
      const Bytes t = r.chance(50) ? ref_hex(d, r.chance(50)) : Bytes();
      ext.emplace_back(t);
      name = "append_decoded_hex", x.b.append_decoded_hex(ext.back().s());
      if (t.size())
        x.m += d;
    } break;
    case 23: {
      ext.emplace_back(ref_b64(d));
      name = "append_decoded_base64", x.b.append_decoded_base64(ext.back().s()), x.m += d;
    } break;
    case 24: {
      ext.emplace_back(ref_b58(d));
      name = "append_decoded_base58", x.b.append_decoded_base58(ext.back().s()), x.m += d;
    } break;
    case 25: {
      name = "append_uN";
      const uint64_t u = r.next();
      switch (r.below(6)) {
      case 0:
        x.b.append_u8(u), x.m += Bytes((const char *)&u, 1);
        break;
      case 1:
        x.b.append_u16(u), x.m += Bytes((const char *)&u, 2);
        break;
      case 2:
        x.b.append_u24(u), x.m += Bytes((const char *)&u, 3);
        break;
      case 3:
        x.b.append_u32(u), x.m += Bytes((const char *)&u, 4);
        break;
      case 4:
        x.b.append_u48(u), x.m += Bytes((const char *)&u, 6);
        break;
      default:
        x.b.append_u64(u), x.m += Bytes((const char *)&u, 8);
      }
    } break;
    case 26: {
      name = "construct with rooms";
      v[ix].reset(new B{Buf(r.below(150), s, r.below(150)), d});
    } break;
    case 27: {
      name = "remove_prefix/suffix";
      const size_t a = r.below(x.m.size() + 1), b = r.below(x.m.size() - a + 1);
      if (r.chance(50))
        x.b.remove_prefix(a), x.b.remove_suffix(b);
      else
        x.b.safe_remove_prefix(a), x.b.safe_remove_suffix(b);
      x.m = x.m.substr(a, x.m.size() - a - b);
      try {
        const size_t big = x.m.size() + 1 + r.below(10);
        r.chance(50) ? x.b.safe_remove_prefix(big) : x.b.safe_remove_suffix(big);
        vf_fail("buffer-range", "safe_remove of %zu bytes of %zu did not throw", big, x.m.size());
      } catch (const std::out_of_range &) {
        cnt("out_of_range");
      }
    } break;
    case 28:
      name = "assign(string)", x.b.assign(d), x.m = d;
      break;
    case 29:
      name = "clone", v[ix].reset(new B{Buf::clone(y.b), y.m});
      break;
    case 30:
      name = "assign(with rooms)";
      x.b.assign(r.below(100), y.b, r.below(100)), x.m = y.m;
      break;
    default: {
      name = "comparisons";
      const int c = x.m.compare(y.m);
      const intptr_t l = mdbx::slice::compare_lexicographically(x.b, y.b), f = mdbx::slice::compare_fast(x.b, y.b);
      // lexicographic as std::string, the fast one equal only for equal contents
      if ((c < 0) != (l < 0) || (c > 0) != (l > 0) || (f == 0) != (c == 0) || (x.b.slice() == y.b.slice()) != (c == 0) || (x.b.slice() != y.b.slice()) != (c != 0))
        vf_fail("slice-compare", "comparison of %s and %s: lexicographic %ld, fast %ld, expected sign %d", esc(x.m).c_str(), esc(y.m).c_str(), (long)l, (long)f, c);
      const Bytes pre = x.m.substr(0, r.below(x.m.size() + 1)), suf = x.m.substr(r.below(x.m.size() + 1));
      if (!x.b.starts_with(mdbx::slice(pre)) || !x.b.ends_with(mdbx::slice(suf)) || x.b.starts_with(y.b) != (x.m.compare(0, y.m.size(), y.m) == 0 && y.m.size() <= x.m.size()))
        vf_fail("slice-affix", "starts_with/ends_with of %s is wrong", esc(x.m).c_str());
      const size_t a = r.below(x.m.size() + 1), k = r.below(x.m.size() - a + 1);
      if (bs(x.b.safe_middle(a, k)) != x.m.substr(a, k) || bs(x.b.safe_head(a)) != x.m.substr(0, a) || bs(x.b.safe_tail(a)) != x.m.substr(x.m.size() - a))
        vf_fail("slice-part", "a part of %s is wrong", esc(x.m).c_str());
      if (x.b.slice().hash_value() != mdbx::slice(x.m).hash_value())
        vf_fail("slice-hash", "equal contents have different hashes: %s", esc(x.m).c_str());
    }
    }
    for (auto &p : v)
      buf_same(*p, name);
    cnt("buffer_ops");
    h = mix64(h ^ op ^ (d.size() << 8) ^ (ix << 40) ^ (jx << 44));
  }
  distinct(h);
}

// ---------------------------------------------------------------- integers of any width
static void adapt_case() {
  Rng &r = *R;
  const size_t n = r.below(10);
  Bytes d;
  for (size_t i = 0; i < n; ++i)
    d += (char)r.next();
  Exact e(d);
  uint64_t u = 0;
  memcpy(&u, d.data(), std::min<size_t>(n, 8));
  const bool power = n <= 8 && (n == 0 || n == 1 || n == 2 || n == 4 || n == 8);
  auto uns = [&](size_t w, std::function<uint64_t()> f, const char *name) {
    try {
      const uint64_t got = f();
      if (n > w || got != u)
        vf_fail("adapt", "%s of %s gave %llu, expected %s%llu", name, esc(d).c_str(), (unsigned long long)got, n > w ? "an error, not " : "", (unsigned long long)u);
      cnt("adapted");
    } catch (const mdbx::bad_value_size &) {
      if (n <= w && power)
        vf_fail("adapt-refused", "%s refused %s", name, esc(d).c_str());
      cnt("rejected");
    }
  };
  uns(8, [&] { return e.s().as_uint64_adapt(); }, "as_uint64_adapt");
  uns(4, [&] { return e.s().as_uint32_adapt(); }, "as_uint32_adapt");
  uns(2, [&] { return e.s().as_uint16_adapt(); }, "as_uint16_adapt");
  uns(1, [&] { return e.s().as_uint8_adapt(); }, "as_uint8_adapt");
  const int64_t si = n == 0 ? 0 : n >= 8 ? (int64_t)u : (int64_t)(u << (64 - 8 * n)) >> (64 - 8 * n);
  auto sig = [&](size_t w, std::function<int64_t()> f, const char *name) {
    try {
      const int64_t got = f();
      if (n > w || got != si)
        vf_fail("adapt", "%s of %s gave %lld, expected %s%lld", name, esc(d).c_str(), (long long)got, n > w ? "an error, not " : "", (long long)si);
      cnt("adapted");
    } catch (const mdbx::bad_value_size &) {
      if (n <= w && power)
        vf_fail("adapt-refused", "%s refused %s", name, esc(d).c_str());
      cnt("rejected");
    }
  };
  sig(8, [&] { return e.s().as_int64_adapt(); }, "as_int64_adapt");
  sig(4, [&] { return e.s().as_int32_adapt(); }, "as_int32_adapt");
  sig(2, [&] { return e.s().as_int16_adapt(); }, "as_int16_adapt");
  sig(1, [&] { return e.s().as_int8_adapt(); }, "as_int8_adapt");
}

// ---------------------------------------------------------------- database
typedef std::map<Bytes, std::set<Bytes>> M; // values in order; one value per key in plain maps
struct World {
  std::map<Bytes, std::pair<bool, M>> maps; // name -> (multi, contents)
};

static int code_of(const std::function<void()> &f) {
  try {
    f();
  } catch (const mdbx::not_found &e) {
    return e.error().code() == MDBX_NOTFOUND ? MDBX_NOTFOUND : 1;
  } catch (const mdbx::key_exists &e) {
    return e.error().code() == MDBX_KEYEXIST ? MDBX_KEYEXIST : 1;
  } catch (const mdbx::exception &e) {
    return e.error().code();
  } catch (const std::invalid_argument &) {
    return MDBX_EINVAL;
  }
  return 0;
}

#define WANT(rc, want, what)                                                                                                            \
  do {                                                                                                                                  \
    const int rc_ = (rc), want_ = (want);                                                                                               \
    if (rc_ != want_)                                                                                                                   \
      vf_fail("cxx-answer", "%s: %d (%s), expected %d", what, rc_, mdbx_strerror(rc_), want_);                                           \
  } while (0)

static void check_map(mdbx::txn &t, mdbx::map_handle h, const M &m, const char *when) {
  mdbx::cursor_managed c = t.open_cursor(h);
  auto it = m.begin();
  std::set<Bytes>::const_iterator v;
  if (it != m.end())
    v = it->second.begin();
  size_t total = 0;
  for (auto r = c.to_first(false); r.done; r = c.to_next(false)) {
    if (it == m.end() || bs(r.key) != it->first || bs(r.value) != *v)
      vf_fail("cxx-contents", "%s: entry %zu is %s -> %s, expected %s", when, total, esc(bs(r.key)).c_str(), esc(bs(r.value)).c_str(),
              it == m.end() ? "nothing" : (esc(it->first) + " -> " + esc(*v)).c_str());
    ++total;
    if (++v == it->second.end())
      if (++it != m.end())
        v = it->second.begin();
  }
  if (it != m.end())
    vf_fail("cxx-contents", "%s: missing %s -> %s", when, esc(it->first).c_str(), esc(*v).c_str());
  if (t.get_map_stat(h).ms_entries != total)
    vf_fail("cxx-stat", "%s: get_map_stat says %llu entries, there are %zu", when, (unsigned long long)t.get_map_stat(h).ms_entries, total);
  // backwards, by the helper
  size_t back = 0;
  if (c.fullscan([&](const mdbx::pair &) { ++back; return false; }, true) || back != total)
    vf_fail("cxx-fullscan", "%s: a backward scan saw %zu of %zu entries", when, back, total);
  cnt("verified", total);
}

static Bytes db_key() {
  Rng &r = *R;
  Bytes k = strf("%c%llu", (char)('a' + r.below(4)), (unsigned long long)r.below(r.chance(50) ? 8 : 60));
  if (r.chance(10))
    k += Bytes(r.below(300), 'k');
  return k;
}
static Bytes db_val() {
  Rng &r = *R;
  return r.chance(5) ? Bytes(r.below(9000), 'L') : r.chance(10) ? Bytes() : strf("v%llu", (unsigned long long)r.below(40)) + Bytes(r.below(30), 'x');
}
static Bytes dup_val() { return strf("d%llu", (unsigned long long)R->below(12)) + Bytes(R->below(10), 'y'); }

static void db_ops(mdbx::txn &t, World &w, int n, uint64_t &hsh) {
  Rng &r = *R;
  std::map<Bytes, mdbx::map_handle> hs;
  auto open = [&](const Bytes &name) {
    auto it = w.maps.find(name);
    if (!hs.count(name))
      hs[name] = t.open_map(name, mdbx::key_mode::usual, it->second.first ? mdbx::value_mode::multi : mdbx::value_mode::single);
    return hs[name];
  };
  std::unique_ptr<mdbx::cursor_managed> cur;
  for (int i = 0; i < n; ++i) {
    const Bytes name = strf("t%d", (int)r.below(4));
    auto wit = w.maps.find(name);
    const int op = r.below(40);
    hsh = mix64(hsh ^ op ^ hash_bytes(name.data(), name.size()));
    if (wit == w.maps.end()) {
      const bool multi = r.chance(40);
      vf_log("absent %s", name.c_str());
      WANT(code_of([&] { t.open_map(name); }), MDBX_NOTFOUND, "open_map of an absent map");
      if (t.drop_map(name) || t.clear_map(name))
        vf_fail("cxx-absent", "drop_map/clear_map of the absent %s said true", name.c_str());
      WANT(code_of([&] { t.drop_map(name, true); }), MDBX_NOTFOUND, "drop_map of an absent map");
      WANT(code_of([&] { t.clear_map(name, true); }), MDBX_NOTFOUND, "clear_map of an absent map");
      hs[name] = t.create_map(name, mdbx::key_mode::usual, multi ? mdbx::value_mode::multi : mdbx::value_mode::single);
      w.maps[name] = {multi, M()};
      cnt("maps_created");
      continue;
    }
    const bool multi = wit->second.first;
    M &m = wit->second.second;
    mdbx::map_handle h = open(name);
    const Bytes k = db_key(), v = multi ? dup_val() : db_val();
    Exact ek(k), ev(v);
    const mdbx::slice ks = ek.s(), vs = ev.s();
    auto it = m.find(k);
    const bool has = it != m.end();
    vf_log("op %d %s%s key %s value %s (%s)", op, name.c_str(), multi ? " multi" : "", esc(k).c_str(), esc(v).c_str(), has ? esc(*it->second.begin()).c_str() : "absent");
    cnt("db_ops");
    switch (op) {
    case 0:
    case 1:
    case 2:
      t.upsert(h, ks, vs);
      if (!multi)
        m[k].clear();
      m[k].insert(v);
      break;
    case 3:
    case 4:
      WANT(code_of([&] { t.insert(h, ks, vs); }), has ? MDBX_KEYEXIST : 0, "insert");
      if (!has)
        m[k].insert(v);
      break;
    case 5:
    case 6: {
      auto res = t.try_insert(h, ks, vs);
      if (res.done == has || (has && bs(res.value) != *it->second.begin()))
        vf_fail("cxx-try-insert", "try_insert of %s: done %d, value %s", esc(k).c_str(), res.done, esc(bs(res.value)).c_str());
      if (!has)
        m[k].insert(v);
    } break;
    case 7:
      if (!multi) {
        WANT(code_of([&] { t.update(h, ks, vs); }), has ? 0 : MDBX_NOTFOUND, "update");
        if (has)
          m[k] = {v};
      }
      break;
    case 8:
      if (!multi) {
        if (t.try_update(h, ks, vs) != has)
          vf_fail("cxx-try-update", "try_update of %s said %d", esc(k).c_str(), !has);
        if (has)
          m[k] = {v};
      }
      break;
    case 9:
    case 10:
      if (t.erase(h, ks) != has)
        vf_fail("cxx-erase", "erase of %s said %d", esc(k).c_str(), !has);
      m.erase(k);
      break;
    case 11:
      if (multi) {
        const bool hv = has && it->second.count(v);
        if (t.erase(h, ks, vs) != hv)
          vf_fail("cxx-erase", "erase of %s -> %s said %d", esc(k).c_str(), esc(v).c_str(), !hv);
        if (hv) {
          it->second.erase(v);
          if (it->second.empty())
            m.erase(k);
        }
      }
      break;
    case 12:
    case 13: {
      mdbx::slice got;
      WANT(code_of([&] { got = t.get(h, ks); }), has ? 0 : MDBX_NOTFOUND, "get");
      if (has && bs(got) != *it->second.begin())
        vf_fail("cxx-get", "get of %s gave %s", esc(k).c_str(), esc(bs(got)).c_str());
      size_t count = 0;
      got = t.get(h, ks, count, mdbx::slice("absent"));
      if (bs(got) != (has ? *it->second.begin() : Bytes("absent")) || (has && count != it->second.size()))
        vf_fail("cxx-get", "get with default of %s gave %s, count %zu", esc(k).c_str(), esc(bs(got)).c_str(), count);
      if (bs(t.get(h, ks, mdbx::slice("nothing"))) != (has ? *it->second.begin() : Bytes("nothing")))
        vf_fail("cxx-get", "get with default of %s is wrong", esc(k).c_str());
    } break;
    case 14:
      if (!multi) {
        auto l = m.lower_bound(k);
        auto res = t.get_equal_or_great(h, ks, mdbx::slice("absent"));
        if (l == m.end() ? bs(res.value) != "absent" || res.done : bs(res.key) != l->first || bs(res.value) != *l->second.begin() || res.done != (l->first == k))
          vf_fail("cxx-get-ge", "get_equal_or_great of %s gave %s -> %s, done %d", esc(k).c_str(), esc(bs(res.key)).c_str(), esc(bs(res.value)).c_str(), res.done);
        mdbx::pair_result p{mdbx::slice(), mdbx::slice(), false};
        WANT(code_of([&] { p = t.get_equal_or_great(h, ks); }), l == m.end() ? MDBX_NOTFOUND : 0, "get_equal_or_great");
        if (l != m.end() && (bs(p.key) != l->first || bs(p.value) != *l->second.begin() || p.done != (l->first == k)))
          vf_fail("cxx-get-ge", "get_equal_or_great of %s gave %s -> %s, done %d", esc(k).c_str(), esc(bs(p.key)).c_str(), esc(bs(p.value)).c_str(), p.done);
      }
      break;
    case 15:
      if (!multi) {
        Buf old;
        WANT(code_of([&] { old = t.extract<mdbx::default_allocator, mdbx::default_capacity_policy>(h, ks); }), has ? 0 : MDBX_NOTFOUND, "extract");
        if (has && bs(old) != *it->second.begin())
          vf_fail("cxx-extract", "extract of %s gave %s, expected %s", esc(k).c_str(), esc(bs(old)).c_str(), esc(*it->second.begin()).c_str());
        m.erase(k);
      }
      break;
    case 16:
      if (!multi) {
        Buf old;
        WANT(code_of([&] { old = t.replace<mdbx::default_allocator, mdbx::default_capacity_policy>(h, ks, vs); }), has ? 0 : MDBX_NOTFOUND, "replace");
        if (has) {
          if (bs(old) != *it->second.begin())
            vf_fail("cxx-replace", "replace of %s gave %s as the old value, expected %s", esc(k).c_str(), esc(bs(old)).c_str(), esc(*it->second.begin()).c_str());
          m[k] = {v};
        }
      }
      break;
    case 17:
      if (!multi) {
        mdbx::slice p;
        const int how = r.below(3);
        const int rc = code_of([&] { p = how == 0 ? t.upsert_reserve(h, ks, v.size()) : how == 1 ? t.insert_reserve(h, ks, v.size()) : t.update_reserve(h, ks, v.size()); });
        WANT(rc, how == 1 && has ? MDBX_KEYEXIST : how == 2 && !has ? MDBX_NOTFOUND : 0, "reserve");
        if (rc == 0) {
          if (p.length() != v.size())
            vf_fail("cxx-reserve", "reserved %zu bytes instead of %zu", p.length(), v.size());
          memcpy(p.data(), v.data(), v.size());
          m[k] = {v};
        }
      }
      break;
    case 18:
      if (!multi) {
        const bool ins = r.chance(50);
        auto res = ins ? t.try_insert_reserve(h, ks, v.size()) : t.try_update_reserve(h, ks, v.size());
        if (res.done != (ins ? !has : has))
          vf_fail("cxx-reserve", "%s of %s: done %d", ins ? "try_insert_reserve" : "try_update_reserve", esc(k).c_str(), res.done);
        if (res.done) {
          memcpy(res.value.data(), v.data(), v.size());
          m[k] = {v};
        }
      }
      break;
    case 19: {
      const bool fits = m.empty() || m.rbegin()->first < k || (multi && m.rbegin()->first == k && *m.rbegin()->second.rbegin() < v);
      if (fits) {
        t.append(h, ks, vs, multi);
        m[k].insert(v);
      } else if (!m.empty() && k < m.rbegin()->first)
        WANT(code_of([&] { t.append(h, ks, vs, multi); }), MDBX_EKEYMISMATCH, "append of a lesser key");
    } break;
    case 20:
      if (r.chance(15)) {
        if (!t.clear_map(name))
          vf_fail("cxx-clear", "clear_map by name said false");
        m.clear();
        hs.erase(name);
      } else if (r.chance(10))
        t.clear_map(h), m.clear();
      break;
    case 21:
      if (r.chance(20)) {
        cur.reset();
        if (r.chance(50))
          t.drop_map(h);
        else if (!t.drop_map(name))
          vf_fail("cxx-drop", "drop_map by name said false");
        w.maps.erase(name);
        hs.erase(name);
        cnt("maps_dropped");
      }
      break;
    case 22: {
      const Bytes to = strf("t%d", (int)r.below(4));
      if (to != name && r.chance(30)) {
        const bool exists = w.maps.count(to);
        const int rc = code_of([&] {
          if (!t.rename_map(name, to))
            vf_fail("cxx-rename", "rename_map of the existing %s said false", name.c_str());
        });
        WANT(rc, exists ? MDBX_KEYEXIST : 0, "rename_map");
        if (!rc) {
          auto nh = w.maps.extract(name);
          nh.key() = to;
          w.maps.insert(std::move(nh));
        }
        hs.erase(name), hs.erase(to);
        cur.reset();
      } else if (!w.maps.count(to) && t.rename_map(to, "zz"))
        vf_fail("cxx-rename", "rename_map of an absent map said true");
    } break;
    case 23: {
      const uint64_t a = t.sequence(h), inc = 1 + r.below(5);
      if (t.sequence(h, inc) != a || t.sequence(h) != a + inc)
        vf_fail("cxx-sequence", "sequence() of %s: %llu, +%llu, %llu", name.c_str(), (unsigned long long)a, (unsigned long long)inc, (unsigned long long)t.sequence(h));
    } break;
    case 24: {
      const auto inf = t.get_map_flags(h);
      if (((inf.flags & MDBX_DUPSORT) != 0) != multi)
        vf_fail("cxx-flags", "get_map_flags of %s: %x", name.c_str(), (unsigned)inf.flags);
      if ((t.compare_keys(h, ks, vs) < 0) != (k < v) || (t.compare_keys(h, ks, vs) > 0) != (k > v))
        vf_fail("cxx-compare", "compare_keys of %s and %s is wrong", esc(k).c_str(), esc(v).c_str());
    } break;
    default: { // cursors
      mdbx::cursor_managed c = t.open_cursor(h);
      if (r.chance(20)) {
        mdbx::cursor_managed d = c.clone();
        c = std::move(d);
      }
      auto lo = m.lower_bound(k), up = m.upper_bound(k);
      auto at = [&](const mdbx::cursor::move_result &res, M::iterator x, bool lastv, const char *what) {
        if (x == m.end() ? (bool)res.done : !res.done || bs(res.key) != x->first || bs(res.value) != (lastv ? *x->second.rbegin() : *x->second.begin()))
          vf_fail("cxx-move", "%s of %s: done %d %s -> %s, expected %s", what, esc(k).c_str(), (bool)res.done, res.done ? esc(bs(res.key)).c_str() : "", res.done ? esc(bs(res.value)).c_str() : "",
                  x == m.end() ? "nothing" : (esc(x->first) + " -> " + esc(lastv ? *x->second.rbegin() : *x->second.begin())).c_str());
        cnt("moves");
      };
      switch (op) {
      case 25:
        at(c.lower_bound(ks), lo, false, "lower_bound");
        if (lo != m.end()) {
          if (c.count_multivalue() != lo->second.size())
            vf_fail("cxx-count", "count_multivalue %zu, expected %zu", c.count_multivalue(), lo->second.size());
          auto nx = std::next(lo);
          at(c.to_next_first_multi(false), nx, false, "to_next_first_multi");
        }
        break;
      case 26:
        at(c.upper_bound(ks), up, false, "upper_bound");
        break;
      case 27:
        at(c.find(ks, false), it, false, "find");
        WANT(code_of([&] { c.find(ks); }), has ? 0 : MDBX_NOTFOUND, "find");
        if (c.seek(ks) != has)
          vf_fail("cxx-seek", "seek of %s said %d", esc(k).c_str(), !has);
        break;
      case 28:
        at(c.to_first(false), m.begin(), false, "to_first");
        if (c.eof() != m.empty() && !m.empty())
          vf_fail("cxx-eof", "eof at the first entry");
        if (!m.empty() && !c.on_first())
          vf_fail("cxx-on-first", "on_first is false at the first entry");
        at(c.to_last(false), m.empty() ? m.end() : std::prev(m.end()), true, "to_last");
        if (!m.empty() && !c.on_last())
          vf_fail("cxx-on-last", "on_last is false at the last entry");
        break;
      case 29:
        at(c.to_key_lesser_than(ks, false), lo == m.begin() ? m.end() : std::prev(lo), true, "to_key_lesser_than");
        break;
      case 30:
        at(c.to_key_greater_or_equal(ks, false), lo, false, "to_key_greater_or_equal");
        break;
      case 31:
        if (multi) {
          const bool hv = has && it->second.count(v);
          auto res = c.find_multivalue(ks, vs, false);
          if ((bool)res.done != hv || (hv && bs(res.value) != v))
            vf_fail("cxx-find-multi", "find_multivalue of %s -> %s: done %d", esc(k).c_str(), esc(v).c_str(), (bool)res.done);
          auto lb = c.lower_bound_multivalue(ks, vs, false);
          auto e = has ? it->second.lower_bound(v) : std::set<Bytes>::iterator();
          const bool found = has && e != it->second.end();
          if ((bool)lb.done != found || (found && bs(lb.value) != *e))
            vf_fail("cxx-lower-multi", "lower_bound_multivalue of %s -> %s: done %d", esc(k).c_str(), esc(v).c_str(), (bool)lb.done);
          auto ub = c.upper_bound_multivalue(ks, vs, false);
          if (has)
            e = it->second.upper_bound(v);
          const bool found2 = has && e != it->second.end();
          if ((bool)ub.done != found2 || (found2 && bs(ub.value) != *e))
            vf_fail("cxx-upper-multi", "upper_bound_multivalue of %s -> %s: done %d", esc(k).c_str(), esc(v).c_str(), (bool)ub.done);
        }
        break;
      case 32:
        c.upsert(ks, vs);
        if (!multi)
          m[k].clear();
        m[k].insert(v);
        break;
      case 33:
        WANT(code_of([&] { c.insert(ks, vs); }), has ? MDBX_KEYEXIST : 0, "cursor insert");
        if (!has)
          m[k].insert(v);
        break;
      case 34: {
        auto res = c.try_insert(ks, vs);
        if (res.done == has || (has && bs(res.value) != *it->second.begin()))
          vf_fail("cxx-try-insert", "cursor try_insert of %s: done %d", esc(k).c_str(), res.done);
        if (!has)
          m[k].insert(v);
      } break;
      case 35:
        if (!multi) {
          if (c.try_update(ks, vs) != has)
            vf_fail("cxx-try-update", "cursor try_update of %s said %d", esc(k).c_str(), !has);
          if (has)
            m[k] = {v};
        }
        break;
      case 36:
        if (r.chance(50)) {
          const bool whole = r.chance(50);
          if (c.erase(ks, whole) != has)
            vf_fail("cxx-erase", "cursor erase of %s said %d", esc(k).c_str(), !has);
          if (has) {
            if (!whole)
              it->second.erase(it->second.begin());
            if (whole || it->second.empty())
              m.erase(k);
          }
        } else if (multi) {
          const bool hv = has && it->second.count(v);
          if (c.erase(ks, vs) != hv)
            vf_fail("cxx-erase", "cursor erase of %s -> %s said %d", esc(k).c_str(), esc(v).c_str(), !hv);
          if (hv) {
            it->second.erase(v);
            if (it->second.empty())
              m.erase(k);
          }
        }
        break;
      case 37:
        if (!multi && has && c.seek(ks)) {
          c.update_current(vs);
          m[k] = {v};
        }
        break;
      case 38: { // scans stop at the entry wanted
        size_t seen = 0;
        const bool stopped = c.scan([&](const mdbx::pair &p) { ++seen; return bs(p.key) == k; });
        if (stopped != has)
          vf_fail("cxx-scan", "scan for %s said %d after %zu entries", esc(k).c_str(), stopped, seen);
        size_t seen2 = 0;
        mdbx::slice from = ks;
        size_t want = 0;
        for (auto x = lo; x != m.end(); ++x)
          want += x->second.size();
        if (c.scan_from([&](const mdbx::pair &) { ++seen2; return false; }, from) || seen2 != want)
          vf_fail("cxx-scan-from", "scan_from %s saw %zu entries, expected %zu", esc(k).c_str(), seen2, want);
      } break;
      default: {
        mdbx::cursor_managed d = t.open_cursor(h);
        auto a = c.lower_bound(ks);
        auto b = d.lower_bound(vs);
        if (a.done && b.done) {
          const int cmp = bs(a.key).compare(bs(b.key));
          if (c.is_same_position(d, true) != (cmp == 0) || c.is_before_than(d, true) != (cmp < 0) || c.is_after_than(d, true) != (cmp > 0) ||
              c.is_same_or_before_than(d, true) != (cmp <= 0) || c.is_same_or_after_than(d, true) != (cmp >= 0))
            vf_fail("cxx-position", "the order of cursors at %s and %s is wrong", esc(bs(a.key)).c_str(), esc(bs(b.key)).c_str());
        }
      }
      }
    }
    }
    if (r.permille(15))
      for (auto &x : w.maps)
        check_map(t, open(x.first), x.second.second, "in a transaction");
  }
}

static void db_case(uint64_t tag) {
  Rng &r = *R;
  const std::string path = scratch_dir() + strf("/cxx-%llu", (unsigned long long)tag);
  mdbx::env::remove(path);
  mdbx::env_managed::create_parameters cp;
  cp.geometry.make_dynamic(mdbx::env::geometry::default_value, 64 * mdbx::env::geometry::MiB);
  cp.geometry.pagesize = 256 << r.below(6);
  cp.use_subdirectory = r.chance(30);
  mdbx::env::operate_parameters op(8);
  op.options.nested_transactions = r.chance(50);
  op.mode = r.chance(30) ? mdbx::env::mode::write_mapped_io : mdbx::env::mode::write_file_io;
  op.durability = mdbx::env::durability::lazy_weak_tail;
  op.options.no_sticky_threads = true;
  World w;
  uint64_t h = tag;
  {
    mdbx::env_managed env(path, cp, op, true);
    const bool nested = op.options.nested_transactions;
    if (env.get_info().mi_dxb_pagesize != (unsigned)cp.geometry.pagesize || env.get_pagesize() != (size_t)cp.geometry.pagesize)
      vf_fail("cxx-pagesize", "page size %u instead of %ld", (unsigned)env.get_info().mi_dxb_pagesize, (long)cp.geometry.pagesize);
    std::vector<std::pair<mdbx::txn_managed, World>> readers;
    const int txns = 3 + r.below(6);
    for (int i = 0; i < txns; ++i) {
      mdbx::txn_managed t = env.start_write();
      if (!t.is_readwrite() || t.is_readonly())
        vf_fail("cxx-txn", "a write transaction is not read-write");
      World now = w;
      db_ops(t, now, 20 + r.below(100), h);
      if (nested && r.chance(50)) {
        mdbx::txn_managed c = t.start_nested();
        World sub = now;
        db_ops(c, sub, 20 + r.below(40), h);
        if (r.chance(50))
          c.commit(), now = sub, cnt("nested_commits");
        else if (r.chance(50))
          c.abort(), cnt("nested_aborts");
        else {
          mdbx::txn_managed moved = std::move(c); // the destructor aborts
          if (c)
            vf_fail("cxx-move-txn", "a moved-from transaction keeps its handle");
          cnt("nested_aborts");
        }
        for (auto &x : now.maps)
          check_map(t, t.open_map(x.first, mdbx::key_mode::usual, x.second.first ? mdbx::value_mode::multi : mdbx::value_mode::single), x.second.second, "after a nested transaction");
      }
      switch (r.below(6)) {
      case 0:
        t.abort();
        cnt("aborts");
        break;
      case 1: {
        mdbx::txn_managed gone = std::move(t);
        cnt("aborts");
      } break;
      case 2:
        t.commit_embark_read();
        w = now;
        if (!t.is_readonly())
          vf_fail("cxx-embark", "commit_embark_read did not leave a read transaction");
        for (auto &x : w.maps)
          check_map(t, t.open_map(x.first, mdbx::key_mode::usual, x.second.first ? mdbx::value_mode::multi : mdbx::value_mode::single), x.second.second, "after commit_embark_read");
        if (readers.size() < 3)
          readers.emplace_back(std::move(t), w);
        else
          t.abort();
        cnt("commits");
        break;
      case 3:
        t.checkpoint();
        w = now;
        db_ops(t, now, 10, h);
        t.abort();
        cnt("checkpoints");
        break;
      default:
        t.commit();
        w = now;
        cnt("commits");
      }
      if (t)
        vf_fail("cxx-end", "an ended transaction keeps its handle");
      if (readers.size() < 3 && r.chance(50))
        readers.emplace_back(env.start_read(), w);
      for (auto &x : readers) {
        const int mode = r.below(8);
        if (mode == 0)
          x.first.reset_reading(), x.first.renew_reading(), x.second = w, cnt("renewed");
        else if (mode == 1) {
          x.first.park_reading();
          x.first.unpark_reading();
          cnt("parked");
        }
        for (auto &y : x.second.maps)
          check_map(x.first, x.first.open_map(y.first, mdbx::key_mode::usual, y.second.first ? mdbx::value_mode::multi : mdbx::value_mode::single), y.second.second, "in a reader");
        WANT(code_of([&] { x.first.create_map("new"); }), MDBX_EACCESS, "create_map in a read transaction");
        if (!x.second.maps.empty()) {
          auto y = x.second.maps.begin();
          auto hh = x.first.open_map(y->first, mdbx::key_mode::usual, y->second.first ? mdbx::value_mode::multi : mdbx::value_mode::single);
          WANT(code_of([&] { x.first.upsert(hh, "a", "b"); }), MDBX_EACCESS, "upsert in a read transaction");
        }
        cnt("snapshots");
      }
      if (readers.size() && r.chance(30))
        readers.erase(readers.begin() + r.below(readers.size()));
    }
    if (r.chance(30)) {
      const std::string copy = path + ".copy";
      mdbx::env::remove(copy);
      env.copy(copy, r.chance(50));
      mdbx::env_managed ce(copy, mdbx::env::operate_parameters(8));
      auto t = ce.start_read();
      for (auto &x : w.maps)
        check_map(t, t.open_map(x.first, mdbx::key_mode::usual, x.second.first ? mdbx::value_mode::multi : mdbx::value_mode::single), x.second.second, "in a copy");
      t.abort();
      ce.close();
      mdbx::env::remove(copy);
      cnt("copies");
    }
    readers.clear();
    if (r.chance(50))
      env.close();
  }
  {
    mdbx::env_managed env(path, mdbx::env::operate_parameters(8, 0, mdbx::env::mode::readonly));
    auto t = env.start_read();
    for (auto &x : w.maps)
      check_map(t, t.open_map(x.first, mdbx::key_mode::usual, x.second.first ? mdbx::value_mode::multi : mdbx::value_mode::single), x.second.second, "after reopening");
    WANT(code_of([&] { env.start_write(); }), MDBX_EACCESS, "start_write in read-only mode");
  }
  WANT(code_of([&] { mdbx::env_managed env(path + "-absent", mdbx::env::operate_parameters(8)); }), MDBX_ENOFILE, "opening an absent database");
  if (!mdbx::env::remove(path) || mdbx::env::remove(path))
    vf_fail("cxx-remove", "env::remove said false for a database, or true for none");
  distinct(h);
}

// ---------------------------------------------------------------- exceptions
template <class E> static void one_exc(int code, const char *name) {
  try {
    mdbx::error::success_or_throw(code);
  } catch (const E &e) {
    if (e.error().code() != code)
      vf_fail("exception-code", "%s carries %d instead of %d", name, e.error().code(), code);
    cnt("exceptions");
    return;
  } catch (const std::exception &e) {
    vf_fail("exception-type", "error %d is thrown as another type than %s: %s", code, name, e.what());
  }
  vf_fail("exception-none", "error %d did not throw %s", code, name);
}
static void exc_case() {
#define E1(T, C) one_exc<mdbx::T>(C, #T)
  E1(bad_map_id, MDBX_BAD_DBI), E1(bad_transaction, MDBX_BAD_TXN), E1(bad_value_size, MDBX_BAD_VALSIZE), E1(db_corrupted, MDBX_CORRUPTED), E1(db_corrupted, MDBX_PAGE_NOTFOUND);
  E1(db_full, MDBX_MAP_FULL), E1(db_invalid, MDBX_INVALID), E1(db_too_large, MDBX_TOO_LARGE), E1(db_unable_extend, MDBX_UNABLE_EXTEND_MAPSIZE), E1(db_version_mismatch, MDBX_VERSION_MISMATCH);
  E1(db_wanna_write_for_recovery, MDBX_WANNA_RECOVERY), E1(fatal, MDBX_EBADSIGN), E1(fatal, MDBX_PANIC), E1(incompatible_operation, MDBX_INCOMPATIBLE), E1(internal_page_full, MDBX_PAGE_FULL);
  E1(internal_problem, MDBX_PROBLEM), E1(key_exists, MDBX_KEYEXIST), E1(key_mismatch, MDBX_EKEYMISMATCH), E1(max_maps_reached, MDBX_DBS_FULL), E1(max_readers_reached, MDBX_READERS_FULL);
  E1(multivalue, MDBX_EMULTIVAL), E1(no_data, MDBX_ENODATA), E1(not_found, MDBX_NOTFOUND), E1(operation_not_permitted, MDBX_EPERM), E1(permission_denied_or_not_writeable, MDBX_EACCESS);
  E1(reader_slot_busy, MDBX_BAD_RSLOT), E1(remote_media, MDBX_EREMOTE), E1(something_busy, MDBX_BUSY), E1(thread_mismatch, MDBX_THREAD_MISMATCH), E1(transaction_full, MDBX_TXN_FULL);
  E1(transaction_overlapping, MDBX_TXN_OVERLAPPING), E1(duplicated_lck_file, MDBX_DUPLICATED_CLK), E1(dangling_map_id, MDBX_DANGLING_DBI), E1(transaction_ousted, MDBX_OUSTED);
  E1(mvcc_retarded, MDBX_MVCC_RETARDED), E1(laggard_reader, MDBX_LAGGARD_READER);
  mdbx::error::success_or_throw(MDBX_SUCCESS);
  if (mdbx::error::boolean_or_throw(MDBX_SUCCESS) || !mdbx::error::boolean_or_throw(MDBX_RESULT_TRUE))
    vf_fail("exception-boolean", "boolean_or_throw is wrong");
  for (int c : {ENOENT, ENOSPC, EIO, EBUSY, EAGAIN})
    try {
      mdbx::error::success_or_throw(c);
      vf_fail("exception-none", "system error %d did not throw", c);
    } catch (const mdbx::exception &e) {
      if (e.error().code() != c)
        vf_fail("exception-code", "system error %d became %d", c, e.error().code());
    } catch (const std::system_error &e) {
      if (e.code().value() != c)
        vf_fail("exception-code", "system error %d became %d", c, e.code().value());
    }
  try {
    mdbx::error::success_or_throw(MDBX_EINVAL);
    vf_fail("exception-none", "EINVAL did not throw");
  } catch (const std::invalid_argument &) {
  }
  try {
    mdbx::error::success_or_throw(MDBX_ENOMEM);
    vf_fail("exception-none", "ENOMEM did not throw");
  } catch (const std::bad_alloc &) {
  }
}

int main(int argc, char **argv) {
  vf_init(argc, argv);
  mdbx_setup_debug(MDBX_LOG_FATAL, MDBX_DBG_NONE, nullptr);
  const uint64_t seed = args.num("seed", 1), first = args.num("first", 0), n = args.num("n", 3);
  for (uint64_t i = first; i < first + n; ++i) {
    Rng r(mix64(seed * 1000003 + i));
    R = &r;
    vf_case(strf("seed=%llu case=%llu", (unsigned long long)seed, (unsigned long long)i));
    cnt("cases");
    try {
      for (int k = 0; k < 30; ++k)
        codec_case();
      for (int k = 0; k < 10; ++k)
        buffer_case();
      for (int k = 0; k < 30; ++k)
        adapt_case();
      db_case(i);
      exc_case();
    } catch (const std::exception &e) {
      vf_fail("cxx-unexpected", "unexpected exception: %s", e.what());
    }
    if (vf.samples.size() < 2)
      vf_sample(strf("seed=%llu case=%llu: codecs, buffers, integers and a database through the C++ calls", (unsigned long long)seed, (unsigned long long)i));
  }
  scratch_drop();
  vf_finish();
}
