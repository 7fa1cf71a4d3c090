#include "fuzz.h"

static std::map<std::string, Prof> profiles() {
  std::map<std::string, Prof> m;
  Prof p;
  p.name = "C01";
  p.kinds = 1;
  m[p.name] = p;
  p = Prof();
  p.name = "C02";
  p.kinds = 2;
  p.multi = 8;
  m[p.name] = p;
  p = Prof();
  p.name = "C03";
  p.cget = 60;
  p.batch = 8;
  p.scan = 8;
  p.put = 12;
  p.bulk = 4;
  p.cmisc = 6;
  p.nested_pm = 3;
  m[p.name] = p;
  p = Prof();
  p.name = "C04";
  p.cursors = 7;
  p.tables = 1;
  p.cget = 20;
  p.cput = 15;
  p.cdel = 15;
  p.bulk = 6;
  p.del = 16;
  p.nested_pm = 10;
  m[p.name] = p;
  p = Prof();
  p.name = "C05";
  p.nested_pm = 60;
  p.abort_pct = 30;
  p.cursors = 3;
  p.seq = 2;
  p.canary = 2;
  p.tables = 3;
  m[p.name] = p;
  p = Prof(); // page accounting: deletes, drops, spills, large values, nested aborts, an audit after most transactions
  p.name = "C11";
  p.del = 20;
  p.bulk = 8;
  p.drop = 4;
  p.cdel = 10;
  p.tables = 3;
  p.nested_pm = 30;
  p.txns = 20;
  p.audit_pct = 80;
  p.readers = 2;
  m[p.name] = p;
  p = Prof(); // everything at once, for the sanitizer builds
  p.name = "C13";
  p.seq = 2;
  p.canary = 1;
  p.bunch = 2;
  p.range = 2;
  p.cache = 3;
  p.est = 2;
  p.misuse = 3;
  p.drop = 2;
  p.tables = 3;
  p.cursors = 4;
  p.nested_pm = 20;
  p.readers = 2;
  m[p.name] = p;
  p = Prof(); // bulk deletion
  p.name = "C24";
  p.bunch = 14;
  p.range = 14;
  p.bulk = 14;
  p.put = 30;
  p.del = 3;
  p.cdel = 2;
  p.cursors = 4;
  p.nested_pm = 15;
  m[p.name] = p;
  p = Prof(); // range arithmetic
  p.name = "C31";
  p.est = 60;
  p.bulk = 8;
  p.cget = 4;
  p.batch = 0;
  p.scan = 0;
  p.tables = 3;
  m[p.name] = p;
  p = Prof(); // sequences and canaries
  p.name = "C33";
  p.bunch = 3;
  p.range = 3;
  p.seq = 40;
  p.canary = 25;
  p.drop = 5;
  p.nested_pm = 60;
  p.abort_pct = 30;
  p.ops_per_txn = 30;
  p.txns = 20;
  p.reopen_pct = 25;
  p.tables = 4;
  m[p.name] = p;
  p = Prof(); // cached lookups
  p.name = "C23";
  p.cache = 60;
  p.readers = 4;
  p.ops_per_txn = 12;
  p.txns = 60;
  p.put = 12;
  p.del = 6;
  p.bulk = 4;
  p.multi = 1;
  p.audit_pct = 0;
  p.reopen_pct = 1;
  p.nested_pm = 25;
  p.abort_pct = 25;
  m[p.name] = p;
  p = Prof(); // misuse
  p.name = "C30";
  p.misuse = 50;
  p.readers = 3;
  p.ops_per_txn = 40;
  p.txns = 15;
  p.put = 20;
  p.bulk = 3;
  p.cursors = 3;
  p.nested_pm = 40;
  m[p.name] = p;
  p = Prof(); // reopening the same file under other configurations
  p.name = "C26";
  p.reopen_pct = 40;
  p.tables = 3;
  p.cursors = 2;
  p.bulk = 6;
  p.seq = 1;
  p.txns = 16;
  m[p.name] = p;
  p = Prof(); // hot copies
  p.name = "C16";
  p.copy_pct = 60;
  p.copy_pm = 3;
  p.readers = 3;
  p.seq = 2;
  p.canary = 2;
  p.bulk = 6;
  p.drop = 2;
  p.tables = 3;
  p.ops_per_txn = 30;
  p.txns = 16;
  p.audit_pct = 5;
  m[p.name] = p;
  p = Prof(); // defragmentation
  p.name = "C25";
  p.defrag_pct = 50;
  p.readers = 2;
  p.seq = 1;
  p.canary = 1;
  p.bulk = 12;
  p.bunch = 4;
  p.range = 4;
  p.drop = 3;
  p.tables = 3;
  p.txns = 24;
  p.audit_pct = 5;
  m[p.name] = p;
  p = Prof(); // size limits and resizing
  p.name = "C18";
  p.geo_pct = 35;
  p.geo_pm = 8;
  p.readers = 2;
  p.bulk = 14;
  p.drop = 3;
  p.bunch = 3;
  p.tables = 3;
  p.nested_pm = 20;
  p.txns = 24;
  m[p.name] = p;
  p = Prof(); // the integrity check stays quiet
  p.name = "C29";
  p.chk_pct = 60;
  p.copy_pct = 3;
  p.defrag_pct = 5;
  p.readers = 2;
  p.seq = 1;
  p.canary = 1;
  p.bulk = 8;
  p.drop = 4;
  p.del = 16;
  p.tables = 3;
  p.nested_pm = 15;
  p.txns = 20;
  p.audit_pct = 0;
  m[p.name] = p;
  return m;
}

int main(int argc, char **argv) {
  vf_init(argc, argv);
  auto profs = profiles();
  std::string pn = args.str("profile", "C01");
  if (!profs.count(pn))
    vf_harness_error("no profile %s", pn.c_str());
  uint64_t seed = args.num("seed", 1), first = args.num("first", 0), n = args.num("n", 20);
  double tmax = (double)args.num("secs", 1000000);
  double t0 = now_s();
  for (uint64_t i = first; i < first + n; ++i) {
    if (now_s() - t0 > tmax)
      break;
    vf_case(strf("profile=%s seed=%llu first=%llu n=1", pn.c_str(), (unsigned long long)seed,
                        (unsigned long long)i));
    Prof p = profs[pn];
    if (args.m.count("txns"))
      p.txns = (unsigned)args.num("txns");
    Fuzz f(mix64(seed * 1000003 + i) ^ hash_bytes(pn.data(), pn.size()), p);
    f.run();
  }
  vf_finish();
}
