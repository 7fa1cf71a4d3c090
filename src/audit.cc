#include "audit.h"

namespace {
struct Ctx {
  const uint8_t *img;
  size_t len;
  AuditResult *res;
  const AuditMeta *m;
  size_t ps;
  std::vector<uint8_t> owner; // 0 free, 1 used, 2 gc
  bool extract;
  void err(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  bool page(uint32_t pgno, const uint8_t *&p) {
    if (pgno < 3 || pgno >= m->first_unalloc || (uint64_t)(pgno + 1ull) * ps > len) {
      err("page %u out of range (first-unallocated %u, file %zu)", pgno, m->first_unalloc, len);
      return false;
    }
    p = img + (size_t)pgno * ps;
    return true;
  }
  bool own(uint32_t pgno, int who, const char *what) {
    if (pgno < 3 || pgno >= m->first_unalloc) {
      err("%s page %u out of allocated range %u", what, pgno, m->first_unalloc);
      return false;
    }
    if (owner[pgno]) {
      err("%s page %u is also owned by %s", what, pgno, owner[pgno] == 1 ? "a tree" : "the free list");
      return false;
    }
    owner[pgno] = (uint8_t)who;
    return true;
  }
};
void Ctx::err(const char *fmt, ...) {
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (res->errs.size() < 40)
    res->errs.push_back(b);
  res->kinds.insert((strstr(b, " values of ") ? "nested " : "") + std::string(fmt));
}
uint16_t u16(const uint8_t *p) { return (uint16_t)(p[0] | p[1] << 8); }
uint32_t u32(const uint8_t *p) { return (uint32_t)u16(p) | (uint32_t)u16(p + 2) << 16; }
uint64_t u64(const uint8_t *p) { return u32(p) | (uint64_t)u32(p + 4) << 32; }
enum { HDR = 20 };
enum { F_BRANCH = 1, F_LEAF = 2, F_LARGE = 4, F_META = 8, F_DUPFIX = 0x20, F_SUBP = 0x40 };
enum { N_BIGV = 1, N_TREEV = 2, N_DUPV = 4 };

AuditTree parse_tree(const uint8_t *p) {
  AuditTree t;
  t.flags = u16(p);
  t.height = u16(p + 2);
  t.dupfix = u32(p + 4);
  t.root = u32(p + 8);
  t.branch = u32(p + 12);
  t.leaf = u32(p + 16);
  t.large = u32(p + 20);
  t.seq = u64(p + 24);
  t.items = u64(p + 32);
  t.mod = u64(p + 40);
  return t;
}
AuditMeta parse_meta(const uint8_t *page, uint32_t pgno, size_t avail) {
  AuditMeta m;
  if (avail < HDR + 224)
    return m;
  const uint8_t *p = page + HDR;
  const uint64_t magic = u64(p);
  m.txnid = u64(p + 8);
  m.grow_pv = u16(p + 20);
  m.shrink_pv = u16(p + 22);
  m.lower = u32(p + 24);
  m.upper = u32(p + 28);
  m.now = u32(p + 32);
  m.first_unalloc = u32(p + 36);
  m.gc = parse_tree(p + 40);
  m.main = parse_tree(p + 88);
  m.pagesize = m.gc.dupfix;
  for (int i = 0; i < 4; ++i)
    m.canary[i] = u64(p + 136 + 8 * i);
  m.sign = u64(p + 168);
  const uint64_t txnid_b = u64(p + 176);
  m.retired = u64(p + 184);
  memcpy(m.bootid, p + 192, 16);
  m.valid = (magic >> 8) == 0x59659DBDEF4C11ull && m.txnid == txnid_b && m.txnid > 0 && u16(page + 10) == F_META &&
            u32(page + 16) == pgno && m.pagesize >= 256 && m.pagesize <= 65536 &&
            (m.pagesize & (m.pagesize - 1)) == 0;
  return m;
}

struct TreeCtx {
  const char *name;
  AuditTree t; // declared
  uint64_t branch = 0, leaf = 0, large = 0, items = 0;
  CmpFn kcmp;
  unsigned flags; // table flags (of the outer table)
  bool inner = false; // nested tree of values
  bool gc = false, main = false;
  bool have_prev = false;
  Bytes prev;
  TableM *out = nullptr; // rows go here
  std::vector<Bytes> *outvals = nullptr; // values of a nested tree go here
};

void walk_tree(Ctx &c, TreeCtx &tc, uint64_t parent_txnid);

void seen_key(Ctx &c, TreeCtx &tc, const Bytes &k, uint32_t pgno) {
  if (tc.have_prev && tc.kcmp(tc.prev, k) >= 0)
    c.err("%s: keys out of order at page %u: %s then %s", tc.name, pgno, hexs(tc.prev).c_str(), hexs(k).c_str());
  tc.prev = k;
  tc.have_prev = true;
}

void sub_page(Ctx &c, TreeCtx &tc, const Bytes &k, const uint8_t *d, size_t n, Vals &vals, uint32_t pgno) {
  c.res->subpages++;
  if (n < HDR + 2) {
    c.err("%s: sub-page of %zu bytes in page %u", tc.name, n, pgno);
    return;
  }
  unsigned flags = u16(d + 10);
  unsigned lower = u16(d + 12), upper = u16(d + 14), ksize = u16(d + 8);
  if (!(flags & F_SUBP) || !(flags & F_LEAF)) {
    c.err("%s: bad sub-page flags 0x%x in page %u", tc.name, flags, pgno);
    return;
  }
  unsigned nk = lower / 2;
  if (lower > upper || upper > n - HDR || nk == 0) {
    c.err("%s: bad sub-page bounds lower %u upper %u size %zu in page %u", tc.name, lower, upper, n, pgno);
    return;
  }
  CmpFn vc = vcmp_for(tc.flags);
  for (unsigned i = 0; i < nk; ++i) {
    Bytes v;
    if (flags & F_DUPFIX) {
      if (HDR + (size_t)(i + 1) * ksize > n) {
        c.err("%s: sub-page dupfix overrun in page %u", tc.name, pgno);
        return;
      }
      v.assign((const char *)d + HDR + (size_t)i * ksize, ksize);
    } else {
      size_t off = HDR + (size_t)u16(d + HDR + 2 * i);
      if (off + 8 > n) {
        c.err("%s: sub-page node offset in page %u", tc.name, pgno);
        return;
      }
      unsigned ks = u16(d + off + 6);
      if (off + 8 + ks > n) {
        c.err("%s: sub-page node size in page %u", tc.name, pgno);
        return;
      }
      v.assign((const char *)d + off + 8, ks);
    }
    if (!vals.empty() && vc(vals.back(), v) >= 0)
      c.err("%s: duplicate values out of order in sub-page of page %u key %s", tc.name, pgno, hexs(k).c_str());
    vals.push_back(v);
  }
  if (!!(flags & F_DUPFIX) != !!(tc.flags & MDBX_DUPFIXED))
    c.err("%s: sub-page dupfix flag mismatch in page %u", tc.name, pgno);
}

void walk_page(Ctx &c, TreeCtx &tc, uint32_t pgno, unsigned depth, uint64_t parent_txnid, const Bytes *lo,
               const Bytes *hi) {
  if (c.res->errs.size() > 20)
    return;
  const uint8_t *p;
  if (!c.page(pgno, p) || !c.own(pgno, 1, tc.name))
    return;
  c.res->used++;
  const uint64_t txnid = u64(p);
  const unsigned flags = u16(p + 10), lower = u16(p + 12), upper = u16(p + 14), ksz = u16(p + 8);
  if (u32(p + 16) != pgno)
    c.err("%s: page %u carries number %u", tc.name, pgno, u32(p + 16));
  if (txnid > parent_txnid)
    c.err("%s: page %u is from txn %llu, newer than its parent %llu", tc.name, pgno, (unsigned long long)txnid,
          (unsigned long long)parent_txnid);
  if (depth > tc.t.height) {
    c.err("%s: page %u deeper than height %u", tc.name, pgno, tc.t.height);
    return;
  }
  const bool is_leaf_level = depth == tc.t.height;
  const unsigned space = (unsigned)c.ps - HDR;
  if (lower > upper || upper > space) {
    c.err("%s: page %u bounds lower %u upper %u", tc.name, pgno, lower, upper);
    return;
  }
  const unsigned nk = lower / 2;
  if (!is_leaf_level) {
    if (flags != F_BRANCH) {
      c.err("%s: page %u at depth %u of %u has flags 0x%x, not a branch", tc.name, pgno, depth, tc.t.height, flags);
      return;
    }
    tc.branch++;
    c.res->branch++;
    if (nk < 2)
      c.err("%s: branch page %u has %u children", tc.name, pgno, nk);
    std::vector<std::pair<Bytes, uint32_t>> ch;
    uint64_t used = 0;
    for (unsigned i = 0; i < nk; ++i) {
      unsigned off = u16(p + HDR + 2 * i) + HDR;
      if (off < HDR + upper || off + 8 > c.ps) {
        c.err("%s: node offset %u in branch %u", tc.name, off, pgno);
        return;
      }
      unsigned ks = u16(p + off + 6);
      if (off + 8 + ks > c.ps) {
        c.err("%s: node size in branch %u", tc.name, pgno);
        return;
      }
      used += (8 + ks + 1) & ~1u;
      if (p[off + 4] != 0)
        c.err("%s: branch node flags 0x%x in page %u", tc.name, p[off + 4], pgno);
      ch.emplace_back(Bytes((const char *)p + off + 8, ks), u32(p + off));
      if (i == 0 && ks != 0)
        c.err("%s: first branch node of page %u has a key", tc.name, pgno);
      if (i > 0) {
        const Bytes &k = ch.back().first;
        if (i > 1 && tc.kcmp(ch[i - 1].first, k) >= 0)
          c.err("%s: branch keys out of order in page %u", tc.name, pgno);
        if (lo && tc.kcmp(*lo, k) >= 0)
          c.err("%s: branch key below parent bound in page %u", tc.name, pgno);
        if (hi && tc.kcmp(k, *hi) >= 0)
          c.err("%s: branch key above parent bound in page %u", tc.name, pgno);
      }
    }
    if (used != space - upper)
      c.err("%s: branch page %u: nodes occupy %llu bytes, header says %u", tc.name, pgno, (unsigned long long)used,
            space - upper);
    for (unsigned i = 0; i < nk; ++i)
      walk_page(c, tc, ch[i].second, depth + 1, txnid, i ? &ch[i].first : lo, i + 1 < nk ? &ch[i + 1].first : hi);
    return;
  }
  tc.leaf++;
  c.res->leaf++;
  const bool dupfix = tc.inner && (tc.flags & MDBX_DUPFIXED);
  const unsigned want = dupfix ? F_LEAF | F_DUPFIX : F_LEAF;
  if (flags != want) {
    c.err("%s: leaf page %u has flags 0x%x, expected 0x%x", tc.name, pgno, flags, want);
    return;
  }
  if (nk == 0) {
    c.err("%s: empty leaf page %u", tc.name, pgno);
    return;
  }
  auto bound = [&](const Bytes &k) {
    if (lo && tc.kcmp(k, *lo) < 0)
      c.err("%s: key below its separator in page %u", tc.name, pgno);
    if (hi && tc.kcmp(k, *hi) >= 0)
      c.err("%s: key not below the next separator in page %u", tc.name, pgno);
    seen_key(c, tc, k, pgno);
    c.res->nodes++;
  };
  if (dupfix) {
    if (ksz != tc.t.dupfix)
      c.err("%s: dupfix page %u element size %u, tree says %u", tc.name, pgno, ksz, tc.t.dupfix);
    if ((size_t)nk * ksz > space) {
      c.err("%s: dupfix page %u overrun", tc.name, pgno);
      return;
    }
    for (unsigned i = 0; i < nk; ++i) {
      Bytes k((const char *)p + HDR + (size_t)i * ksz, ksz);
      bound(k);
      tc.items++;
      if (tc.outvals)
        tc.outvals->push_back(k);
    }
    return;
  }
  uint64_t used = 0;
  for (unsigned i = 0; i < nk; ++i) {
    unsigned off = u16(p + HDR + 2 * i) + HDR;
    if (off < HDR + upper || off + 8 > c.ps) {
      c.err("%s: node offset %u in leaf %u", tc.name, off, pgno);
      return;
    }
    const uint8_t *n = p + off;
    const uint32_t ds = u32(n);
    const unsigned nf = n[4], ks = u16(n + 6);
    const size_t inl = (nf & N_BIGV) ? 4 : ds;
    if (off + 8 + ks + inl > c.ps) {
      c.err("%s: node %u of leaf %u overruns the page", tc.name, i, pgno);
      return;
    }
    used += (8 + ks + inl + 1) & ~(size_t)1;
    Bytes k((const char *)n + 8, ks);
    bound(k);
    const uint8_t *d = n + 8 + ks;
    Vals vals;
    if (nf & N_BIGV) {
      if (nf != N_BIGV)
        c.err("%s: node flags 0x%x in page %u", tc.name, nf, pgno);
      const uint32_t lp = u32(d);
      const uint64_t np = ((uint64_t)ds + HDR + c.ps - 1) / c.ps;
      const uint8_t *q;
      if (!c.page(lp, q))
        continue;
      if (u16(q + 10) != F_LARGE || u32(q + 16) != lp || u32(q + 12) < np || u64(q) > txnid)
        c.err("%s: large page %u of leaf %u: flags 0x%x pages %u (need %llu) txnid %llu", tc.name, lp, pgno,
              u16(q + 10), u32(q + 12), (unsigned long long)np, (unsigned long long)u64(q));
      const uint64_t have = u32(q + 12);
      if (have != np && !tc.gc)
        c.err("%s: large value of %u bytes holds %llu pages instead of %llu", tc.name, ds, (unsigned long long)have,
              (unsigned long long)np);
      for (uint64_t j = 0; j < have && j < 0x1000000; ++j)
        if (c.own((uint32_t)(lp + j), 1, tc.name))
          c.res->used++;
        else
          break;
      tc.large += have;
      c.res->large += have;
      if ((uint64_t)lp * c.ps + HDR + ds > c.len) {
        c.err("%s: large value at page %u beyond end of file", tc.name, lp);
        continue;
      }
      vals.emplace_back((const char *)q + HDR, ds);
      tc.items++;
    } else if (nf == 0) {
      vals.emplace_back((const char *)d, ds);
      tc.items++;
    } else if (nf == N_TREEV && tc.main) {
      tc.items++;
      if (ds != 48) {
        c.err("table record of %u bytes for %s", ds, hexs(k).c_str());
        continue;
      }
      TreeCtx sub;
      std::string nm = "table " + hexs(k);
      sub.name = nm.c_str();
      sub.t = parse_tree(d);
      sub.flags = sub.t.flags;
      sub.kcmp = kcmp_for(sub.flags);
      TableP tp;
      if (c.extract) {
        tp = std::make_shared<TableM>(sub.t.flags);
        tp->seq = sub.t.seq;
        sub.out = tp.get();
      }
      walk_tree(c, sub, txnid);
      c.res->trees[k] = sub.t;
      if (tp)
        c.res->tables[k] = tp;
      continue;
    } else if (nf == (N_TREEV | N_DUPV)) {
      if (ds != 48) {
        c.err("%s: nested tree record of %u bytes in page %u", tc.name, ds, pgno);
        continue;
      }
      TreeCtx sub;
      std::string nm = std::string(tc.name) + " values of " + hexs(k, 8);
      sub.name = nm.c_str();
      sub.t = parse_tree(d);
      sub.flags = tc.flags;
      sub.inner = true;
      sub.kcmp = vcmp_for(tc.flags);
      sub.outvals = &vals;
      c.res->nested++;
      walk_tree(c, sub, txnid);
      tc.items += sub.items;
      /* the record of a multi-value table counts the pages of its nested trees too */
      tc.branch += sub.branch;
      tc.leaf += sub.leaf;
      if (sub.items < 1)
        c.err("%s: empty nested tree in page %u", tc.name, pgno);
    } else if (nf == N_DUPV) {
      sub_page(c, tc, k, d, ds, vals, pgno);
      tc.items += vals.size();
    } else {
      c.err("%s: node flags 0x%x in page %u", tc.name, nf, pgno);
      continue;
    }
    if (tc.inner) {
      if (nf || ds)
        c.err("%s: value node with data in nested tree page %u", tc.name, pgno);
      if (tc.outvals)
        tc.outvals->push_back(k);
    }
    if ((nf & N_DUPV) && !(tc.flags & MDBX_DUPSORT))
      c.err("%s: duplicates in a unique table, page %u", tc.name, pgno);
    if (tc.gc && vals.size() == 1) {
      const Bytes &v = vals[0];
      if (k.size() != 8 || v.size() < 8 || (v.size() & 3)) {
        c.err("free-list record key %zu data %zu bytes", k.size(), v.size());
      } else {
        const uint8_t *pv = (const uint8_t *)v.data();
        uint64_t id = int_of(k);
        uint32_t n2 = u32(pv);
        c.res->gcrecords++;
        c.res->gc_txnids.push_back(id);
        if ((uint64_t)n2 + 1 > v.size() / 4)
          c.err("free-list record %llu: count %u in %zu bytes", (unsigned long long)id, n2, v.size());
        else {
          uint32_t last = 0xffffffff;
          for (uint32_t j = 1; j <= n2; ++j) {
            uint32_t pg = u32(pv + 4 * j);
            if (pg >= last)
              c.err("free-list record %llu not strictly descending", (unsigned long long)id);
            last = pg;
            if (c.own(pg, 2, "free-list"))
              c.res->gcpages++;
          }
        }
        if (id < 1 || id > c.m->txnid)
          c.err("free-list record for txn %llu, head is %llu", (unsigned long long)id, (unsigned long long)c.m->txnid);
      }
    }
    if (tc.out && !tc.gc) {
      tc.out->items += vals.size();
      tc.out->rows.emplace_hint(tc.out->rows.end(), std::move(k), std::move(vals));
    }
  }
  if (used != space - upper)
    c.err("%s: leaf page %u: nodes occupy %llu bytes, header says %u", tc.name, pgno, (unsigned long long)used,
          space - upper);
}

void walk_tree(Ctx &c, TreeCtx &tc, uint64_t parent_txnid) {
  const AuditTree &t = tc.t;
  if (t.height > c.res->maxheight)
    c.res->maxheight = t.height;
  if (t.root == 0xffffffffu || (t.height == 0)) {
    if (t.root == 0xffffffffu && t.height && !t.items && !t.branch && !t.leaf && !t.large)
      c.err("%s: empty tree of height %u", tc.name, t.height);
    else if (t.root != 0xffffffffu || t.height || t.items || t.branch || t.leaf || t.large)
      c.err("%s: empty tree with root %u height %u items %llu pages %u/%u/%u", tc.name, t.root, t.height,
            (unsigned long long)t.items, t.branch, t.leaf, t.large);
    return;
  }
  if (t.mod > c.m->txnid)
    c.err("%s: mod-txnid %llu beyond head", tc.name, (unsigned long long)t.mod);
  walk_page(c, tc, t.root, 1, parent_txnid, nullptr, nullptr);
  if (tc.items != t.items)
    c.err("%s: %llu items present, record says %llu", tc.name, (unsigned long long)tc.items,
          (unsigned long long)t.items);
  if (tc.branch != t.branch || tc.leaf != t.leaf || tc.large != t.large)
    c.err("%s: pages branch/leaf/large %llu/%llu/%llu present, record says %u/%u/%u", tc.name,
          (unsigned long long)tc.branch, (unsigned long long)tc.leaf, (unsigned long long)tc.large, t.branch, t.leaf,
          t.large);
}
} // namespace

AuditResult audit_image(const uint8_t *img, size_t len, bool extract, int which, bool steady_only) {
  AuditResult r;
  Ctx c;
  c.img = img;
  c.len = len;
  c.res = &r;
  c.extract = extract;
  c.m = nullptr;
  c.ps = 0;
  // the page size is found in the first meta that parses
  for (size_t ps = 256; ps <= 65536 && !c.ps; ps *= 2)
    for (uint32_t i = 0; i < 3 && !c.ps; ++i)
      if ((i + 1) * ps <= len) {
        AuditMeta m = parse_meta(img + i * ps, i, len - i * ps);
        if (m.valid && m.pagesize == ps)
          c.ps = ps;
      }
  if (!c.ps) {
    r.errs.push_back("no valid meta page");
    return r;
  }
  for (uint32_t i = 0; i < 3; ++i) {
    r.metas[i] = parse_meta(img + i * c.ps, i, (i + 1) * c.ps <= len ? c.ps : 0);
    if (r.metas[i].valid && r.metas[i].pagesize != c.ps)
      r.metas[i].valid = false;
  }
  int best = -1;
  for (int i = 0; i < 3; ++i)
    if (r.metas[i].valid && (!steady_only || r.metas[i].steady()) &&
        (best < 0 || r.metas[i].txnid > r.metas[best].txnid))
      best = i;
  if (which >= 0)
    best = r.metas[which].valid ? which : -1;
  r.head = best;
  if (best < 0) {
    r.errs.push_back("no suitable meta page");
    return r;
  }
  c.m = &r.metas[best];
  r.file_pages = len / c.ps;
  if (c.m->first_unalloc > c.m->now || c.m->now > c.m->upper || c.m->lower > c.m->now || c.m->lower < 3)
    c.err("geometry lower %u now %u upper %u first-unallocated %u", c.m->lower, c.m->now, c.m->upper,
          c.m->first_unalloc);
  if ((uint64_t)c.m->first_unalloc * c.ps > len)
    c.err("file of %zu bytes is shorter than the allocated %u pages", len, c.m->first_unalloc);
  if (!r.errs.empty())
    return r;
  c.owner.assign(c.m->first_unalloc, 0);
  {
    TreeCtx tc;
    tc.name = "GC";
    tc.t = c.m->gc;
    tc.flags = MDBX_INTEGERKEY;
    tc.gc = true;
    tc.kcmp = cmp_int;
    tc.t.dupfix = 0;
    walk_tree(c, tc, c.m->txnid);
  }
  {
    TreeCtx tc;
    tc.name = "MAIN";
    tc.t = c.m->main;
    tc.flags = c.m->main.flags;
    tc.main = true;
    tc.kcmp = kcmp_for(tc.flags);
    TableP tp = std::make_shared<TableM>(tc.flags);
    tp->seq = tc.t.seq;
    tc.out = extract ? tp.get() : nullptr;
    walk_tree(c, tc, c.m->txnid);
    r.trees[""] = tc.t;
    if (extract)
      r.tables[""] = tp;
  }
  for (uint32_t pg = 3; pg < c.m->first_unalloc && r.errs.size() < 10; ++pg)
    if (!c.owner[pg])
      c.err("page %u is owned neither by a tree nor by the free list", pg);
  return r;
}

bool read_file(const std::string &p, std::vector<uint8_t> &out) {
  int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0)
    return false;
  struct stat st;
  fstat(fd, &st);
  out.resize((size_t)st.st_size);
  size_t off = 0;
  while (off < out.size()) {
    ssize_t n = pread(fd, out.data() + off, out.size() - off, (off_t)off);
    if (n <= 0)
      break;
    off += (size_t)n;
  }
  out.resize(off);
  close(fd);
  return true;
}
AuditResult audit_path(const std::string &file, bool extract, int which, bool steady_only) {
  std::vector<uint8_t> b;
  AuditResult r;
  if (!read_file(file, b)) {
    r.errs.push_back("cannot read " + file);
    return r;
  }
  return audit_image(b.data(), b.size(), extract, which, steady_only);
}

std::string db_diff(const std::map<Bytes, TableP> &got, const DbM &want) {
  for (auto &w : want.t) {
    auto g = got.find(w.first);
    if (g == got.end())
      return "table '" + hexs(w.first) + "' is missing";
    if (g->second->items != w.second->items)
      return strf("table %s has %llu items, expected %llu", hexs(w.first).c_str(),
                  (unsigned long long)g->second->items, (unsigned long long)w.second->items);
    if (g->second->rows.size() != w.second->rows.size())
      return strf("table %s has %zu keys, expected %zu", hexs(w.first).c_str(), g->second->rows.size(),
                  w.second->rows.size());
    auto a = g->second->rows.begin();
    for (auto &row : w.second->rows) {
      if (a->first != row.first)
        return strf("table %s: key %s instead of %s", hexs(w.first).c_str(), hexs(a->first).c_str(),
                    hexs(row.first).c_str());
      if (a->second != row.second)
        return strf("table %s: values of key %s differ (%zu vs expected %zu)", hexs(w.first).c_str(),
                    hexs(a->first).c_str(), a->second.size(), row.second.size());
      ++a;
    }
    if (g->second->seq != w.second->seq)
      return strf("table %s: sequence %llu, expected %llu", hexs(w.first).c_str(),
                  (unsigned long long)g->second->seq, (unsigned long long)w.second->seq);
  }
  for (auto &g : got)
    if (!g.first.empty() && !want.t.count(g.first))
      return "unexpected table '" + hexs(g.first) + "'";
  return "";
}
