#include "vf.h"
#include <dirent.h>
#include <time.h>

Vf vf;
Args args;
static std::string g_scratch;

std::string strf(const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
static void dump_observed() {
  for (auto &c : vf.counts)
    printf("COUNT %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
  for (auto &s : vf.samples)
    printf("SAMPLE %s\n", s.c_str());
  size_t n = 0;
  for (auto h : vf.hashes) {
    if (n % 16 == 0)
      printf("%sHASH", n ? "\n" : "");
    printf(" %llx", (unsigned long long)h);
    if (++n >= 60000)
      break;
  }
  if (n)
    printf("\n");
}
static void one_line(std::string &s) {
  for (auto &c : s)
    if (c == '\n')
      c = ' ';
}
void vf_fail(const char *sig, const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  std::string text = buf;
  one_line(text);
  if (!vf.in_child)
    dump_observed();
  for (auto &l : vf.log)
    printf("LOG %s\n", l.c_str());
  printf("CASE %s %s\n", vf.case_desc.c_str(), vf.context.c_str());
  if (vf.step)
    printf("LOG failed at step %llu\n", (unsigned long long)vf.step);
  printf("FAIL %s %s\n", sig, text.c_str());
  fflush(stdout);
  if (!vf.in_child)
    scratch_drop();
  if (getenv("VF_ABORT"))
    abort();
  _exit(1);
}
void vf_harness_error(const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  printf("HARNESS %s\n", buf);
  fflush(stdout);
  if (!vf.in_child)
    scratch_drop();
  _exit(3);
}
void vf_finding(const char *sig, const std::string &text) {
  cnt((std::string("finding_") + sig).c_str());
  if (vf.findings.insert(sig).second) {
    std::string t = text;
    one_line(t);
    printf("FINDING %s %s\n", sig, t.c_str());
    fflush(stdout);
  }
}
void vf_log(const char *fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (vf.verbose) {
    fprintf(stderr, "%s\n", buf);
  }
  vf.log.push_back(vf.step ? strf("%llu: ", (unsigned long long)vf.step) + buf : buf);
  if (vf.log.size() > vf.log_max)
    vf.log.pop_front();
}
void vf_sample(const std::string &s) {
  if (vf.samples.size() < 8) {
    std::string t = s;
    one_line(t);
    vf.samples.push_back(t);
  }
}
void vf_case(const std::string &desc) {
  vf.case_desc = desc;
  vf.log.clear();
  vf.step = 0;
  vf.context.clear();
  printf("AT %s\n", desc.c_str());
  fflush(stdout);
}
void vf_finish() {
  dump_observed();
  printf("DONE\n");
  fflush(stdout);
  scratch_drop();
  exit(0);
}
static void rmtree(const std::string &dir) {
  DIR *d = opendir(dir.c_str());
  if (!d)
    return;
  while (struct dirent *e = readdir(d)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
      continue;
    std::string p = dir + "/" + e->d_name;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      rmtree(p);
    else
      unlink(p.c_str());
  }
  closedir(d);
  rmdir(dir.c_str());
}
std::string scratch_dir() {
  if (g_scratch.empty()) {
    const char *base = getenv("VF_SCRATCH");
    std::string t = std::string(base ? base : "/dev/shm") + "/vfj.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data()))
      vf_harness_error("mkdtemp %s: %s", t.c_str(), strerror(errno));
    g_scratch = b.data();
  }
  return g_scratch;
}
void scratch_drop() {
  if (!g_scratch.empty() && g_scratch.find("/vfj.") != std::string::npos)
    rmtree(g_scratch);
  g_scratch.clear();
}
// the library's own assertions (checking builds) become violations with a stable signature
static void on_panic(const char *msg, const char *function, unsigned, const void *, const char *) noexcept {
  std::string m = strf("assert:%s:%s", function ? function : "?", msg ? msg : "?");
  for (auto &c : m)
    if (c == ' ')
      c = '_';
  vf_fail(m.c_str(), "an internal consistency assertion of the library fired");
}
void vf_hook_mdbx() {
  if (args.num("mdbxlog"))
    mdbx_setup_debug((MDBX_log_level_t)args.num("mdbxlog"), MDBX_DBG_DONTCHANGE, MDBX_LOGGER_DONTCHANGE);
  else
    mdbx_setup_debug(MDBX_LOG_FATAL, MDBX_DBG_DONTCHANGE, MDBX_LOGGER_DONTCHANGE);
  mdbx_set_panic(on_panic);
}
void vf_init(int argc, char **argv) {
  args.parse(argc, argv);
  vf_hook_mdbx();
  vf.verbose = args.num("verbose") != 0;
  vf.prop = args.str("prop", "?");
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  std::string c = "argv:";
  for (int i = 0; i < argc; ++i)
    c += std::string(" ") + argv[i];
  vf.case_desc = c;
}
double now_s() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
