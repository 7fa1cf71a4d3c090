// C20, C32, C34: several processes and threads share one database. The
// controller never touches the library itself: it commands worker processes
// one call at a time and holds every answer against a model of who has the
// database open, which snapshots are read and what was committed.
#include "vf.h"
#include "audit.h"
#include <condition_variable>
#include <mutex>
#include <poll.h>
#include <sys/socket.h>
#include <thread>

enum Op {
  O_OPEN, O_CLOSE, O_RBEGIN, O_RCHECK, O_REND, O_RENEW, O_PARK, O_UNPARK, O_WBEGIN, O_WPUT, O_WEND, O_COMMIT, O_LIST, O_DEAD, O_INFO,
  O_THEXIT, O_HSR, O_FORK, O_RESURRECT, O_EXIT, O_FLUSH, O_NEST, O_FILL, O_NOPRIV, O_MISC
};
static const char *op_name[] = {"open", "close", "rbegin", "rcheck", "rend", "renew", "park", "unpark", "wbegin", "wput", "wend", "commit", "list", "dead",
                                "info", "thread-exit", "hsr", "fork", "resurrect", "exit", "sync", "nest", "fill", "nopriv", "misc"};
struct Cmd {
  int op, th;
  int64_t a, b, c, d;
  char s[160];
};
struct Ent {
  uint64_t pid, tid, txnid, lag, used, retained;
  int slot, retry;
};
struct Rep {
  int rc, rc2;
  uint64_t v[8];
  uint32_t n;
  char text[160];
  Ent e[360];
};
static const unsigned NROWS = 40, NRD = 300;

// ------------------------------------------------------------------ worker
static Bytes row_value(uint64_t ver, unsigned i) {
  Rng q(mix64(ver * 1000 + i));
  Bytes v((const char *)&ver, 8);
  const size_t n = 8 + q.below(i % 10 == 9 ? 3000 : 150);
  while (v.size() < n)
    v.push_back((char)q.next());
  return v;
}

struct Worker {
  MDBX_env *env = nullptr;
  MDBX_txn *rd[NRD] = {}, *wr = nullptr, *nested = nullptr;
  MDBX_dbi dbi = 0;
  uint64_t verdict_kill = 0;
  int fd = -1;
  bool inherited = false;
  std::vector<int> plan;
  size_t plan_at = 0;
  Rep *hsr_rep = nullptr;
};
static Worker W;

static int hsr(const MDBX_env *, const MDBX_txn *, mdbx_pid_t pid, mdbx_tid_t tid, uint64_t laggard, unsigned gap, size_t space,
               int retry) noexcept {
  int verdict = W.plan_at < W.plan.size() ? W.plan[W.plan_at++] : -1;
  if (W.hsr_rep && W.hsr_rep->n < 300) {
    Ent &e = W.hsr_rep->e[W.hsr_rep->n++];
    e = Ent{(uint64_t)pid, (uint64_t)tid, laggard, gap, space, (uint64_t)(int64_t)verdict, 0, retry};
  }
  if (retry < 0)
    return 0;
  if (verdict == 2) {
    if (pid == getpid())
      return -1;
    kill(pid, SIGKILL);
    usleep(2000);
  }
  return verdict;
}

static int list_cb(void *ctx, int, int slot, mdbx_pid_t pid, mdbx_tid_t tid, uint64_t txnid, uint64_t lag, size_t used, size_t retained) noexcept {
  Rep *r = (Rep *)ctx;
  if (r->n < 360)
    r->e[r->n++] = Ent{(uint64_t)pid, (uint64_t)(uintptr_t)tid, txnid, lag, used, retained, slot, 0};
  return 0;
}

static int put_version(MDBX_txn *t, MDBX_dbi dbi, uint64_t ver, uint64_t seed, unsigned share) {
  Rng q(mix64(seed * 77 + ver));
  uint64_t sum = 0;
  for (unsigned i = 0; i < NROWS; ++i) {
    MDBX_val k{&i, 4}, v;
    uint64_t have = 0;
    int rc = mdbx_get(t, dbi, &k, &v);
    if (rc == MDBX_SUCCESS)
      memcpy(&have, v.iov_base, 8);
    else if (rc != MDBX_NOTFOUND)
      return rc;
    if (rc == MDBX_NOTFOUND || q.below(100) < share) {
      have = ver;
      const Bytes b = row_value(ver, i);
      v = mv(b);
      if ((rc = mdbx_put(t, dbi, &k, &v, MDBX_UPSERT)))
        return rc;
    }
    sum += mix64(have * 1000 + i);
  }
  const uint64_t pair[2] = {ver, sum};
  MDBX_val k{(void *)"ver", 3}, v{(void *)pair, 16};
  return mdbx_put(t, dbi, &k, &v, MDBX_UPSERT);
}

// reads a whole snapshot: rc, the version; -1 if inconsistent
static int read_version(MDBX_txn *t, uint64_t *ver, char *text) {
  MDBX_dbi dbi;
  *ver = 0;
  int rc = mdbx_dbi_open(t, "rows", MDBX_DB_ACCEDE, &dbi);
  if (rc == MDBX_NOTFOUND)
    return 0;
  if (rc)
    return rc;
  MDBX_val k{(void *)"ver", 3}, v;
  if ((rc = mdbx_get(t, dbi, &k, &v)))
    return rc;
  uint64_t pair[2], sum = 0;
  memcpy(pair, v.iov_base, 16);
  for (unsigned i = 0; i < NROWS; ++i) {
    k = MDBX_val{&i, 4};
    if ((rc = mdbx_get(t, dbi, &k, &v)))
      return rc;
    uint64_t have;
    memcpy(&have, v.iov_base, 8);
    if (have > pair[0] || !eqv(v, row_value(have, i))) {
      snprintf(text, 150, "row %u of version %llu in a snapshot of version %llu is garbled", i, (long long)have, (long long)pair[0]);
      return -1;
    }
    sum += mix64(have * 1000 + i);
  }
  if (sum != pair[1]) {
    snprintf(text, 150, "rows of version %llu do not sum up: the snapshot mixes versions", (long long)pair[0]);
    return -1;
  }
  *ver = pair[0];
  return 0;
}

static void do_op(const Cmd &c, Rep &r) {
  memset(&r, 0, offsetof(Rep, e));
  switch (c.op) {
  case O_OPEN: {
    // a: flags, b: max readers, c: upper size (0: leave), d: page size on creation
    MUST(mdbx_env_create(&W.env));
    if (c.b)
      MUST(mdbx_env_set_maxreaders(W.env, (unsigned)c.b));
    MUST(mdbx_env_set_maxdbs(W.env, 4));
    if (c.c)
      MUST(mdbx_env_set_geometry(W.env, 0, -1, c.c, 65536, 0, c.d));
    r.rc = mdbx_env_open(W.env, c.s, (MDBX_env_flags_t)c.a, 0644);
    if (r.rc) {
      r.rc2 = mdbx_env_close_ex(W.env, true);
      W.env = nullptr;
    } else {
      unsigned f = 0, m = 0;
      r.rc2 = mdbx_env_get_flags(W.env, &f);
      mdbx_env_get_maxreaders(W.env, &m);
      r.v[0] = f;
      r.v[1] = m;
    }
    break;
  }
  case O_CLOSE:
    r.rc = mdbx_env_close_ex(W.env, c.a);
    if (r.rc == 0 || r.rc == MDBX_PANIC)
      W.env = nullptr, W.wr = nullptr, W.nested = nullptr, memset(W.rd, 0, sizeof(W.rd));
    break;
  case O_RBEGIN: {
    r.rc = mdbx_txn_begin(W.env, nullptr, (MDBX_txn_flags_t)c.b, &W.rd[c.a]);
    if (r.rc) {
      W.rd[c.a] = nullptr;
      break;
    }
    r.v[0] = mdbx_txn_id(W.rd[c.a]);
    MDBX_txn_info ti;
    if (!(c.b & (int64_t)((unsigned)MDBX_TXN_RDONLY_PREPARE & ~(unsigned)MDBX_TXN_RDONLY)) && mdbx_txn_info(W.rd[c.a], &ti, true) == 0)
      r.v[1] = ti.txn_space_used, r.v[2] = ti.txn_reader_lag;
    r.v[3] = (uint64_t)pthread_self();
    break;
  }
  case O_RCHECK:
    r.rc = read_version(W.rd[c.a], &r.v[0], r.text);
    break;
  case O_REND:
    r.rc = c.b ? mdbx_txn_reset(W.rd[c.a]) : mdbx_txn_abort(W.rd[c.a]);
    if (!c.b && r.rc == 0)
      W.rd[c.a] = nullptr;
    break;
  case O_RENEW: {
    r.rc = mdbx_txn_renew(W.rd[c.a]);
    if (r.rc == 0) {
      r.v[0] = mdbx_txn_id(W.rd[c.a]);
      MDBX_txn_info ti;
      if (mdbx_txn_info(W.rd[c.a], &ti, true) == 0)
        r.v[1] = ti.txn_space_used;
      r.v[3] = (uint64_t)pthread_self();
    }
    break;
  }
  case O_PARK:
    r.rc = mdbx_txn_park(W.rd[c.a], c.b);
    break;
  case O_UNPARK:
    r.rc = mdbx_txn_unpark(W.rd[c.a], c.b);
    if (r.rc == 0 || r.rc == MDBX_RESULT_TRUE)
      r.v[0] = mdbx_txn_id(W.rd[c.a]);
    break;
  case O_WBEGIN:
    r.rc = mdbx_txn_begin(W.env, nullptr, (MDBX_txn_flags_t)c.b, &W.wr);
    if (r.rc)
      W.wr = nullptr;
    else
      r.v[0] = mdbx_txn_id(W.wr);
    break;
  case O_NEST:
    r.rc = mdbx_txn_begin(W.env, W.wr, MDBX_TXN_READWRITE, &W.nested);
    if (r.rc)
      W.nested = nullptr;
    break;
  case O_WPUT: {
    MDBX_txn *t = W.nested ? W.nested : W.wr;
    r.rc = mdbx_dbi_open(t, "rows", MDBX_CREATE, &W.dbi);
    if (!r.rc)
      r.rc = put_version(t, W.dbi, (uint64_t)c.a, (uint64_t)c.b, (unsigned)c.c);
    break;
  }
  case O_WEND:
    if (W.nested) {
      r.rc2 = mdbx_txn_commit(W.nested);
      W.nested = nullptr;
    }
    r.v[0] = mdbx_txn_id(W.wr);
    r.rc = c.a ? mdbx_txn_commit(W.wr) : mdbx_txn_abort(W.wr);
    W.wr = nullptr;
    break;
  case O_COMMIT:
  case O_FILL: {
    // a: version, b: seed, c: share, d: (fill) bytes to add
    MDBX_txn *t;
    W.hsr_rep = &r;
    r.rc = mdbx_txn_begin(W.env, nullptr, c.op == O_COMMIT ? MDBX_TXN_TRY : MDBX_TXN_READWRITE, &t);
    if (r.rc)
      break;
    r.v[0] = mdbx_txn_id(t);
    MDBX_dbi dbi, fdbi;
    r.rc = mdbx_dbi_open(t, "rows", MDBX_CREATE, &dbi);
    if (!r.rc)
      r.rc = put_version(t, dbi, (uint64_t)c.a, (uint64_t)c.b, (unsigned)c.c);
    if (!r.rc && c.op == O_FILL) {
      // values which are rewritten in every round: their pages wait for the readers
      r.rc = mdbx_dbi_open(t, "fill", MDBX_CREATE, &fdbi);
      Bytes v(2000, 'f');
      for (int64_t i = 0; !r.rc && i < c.d; i += 2000) {
        uint32_t kk = (uint32_t)(i / 2000);
        memcpy(&v[0], &c.a, 8);
        MDBX_val k{&kk, 4}, x = mv(v);
        r.rc = mdbx_put(t, fdbi, &k, &x, MDBX_UPSERT);
      }
    }
    if (r.rc)
      mdbx_txn_abort(t);
    else
      r.rc = mdbx_txn_commit(t);
    W.hsr_rep = nullptr;
    break;
  }
  case O_LIST: {
    MDBX_envinfo ei;
    r.rc = mdbx_reader_list(W.env, list_cb, &r);
    r.rc2 = mdbx_env_info_ex(W.env, nullptr, &ei, sizeof(ei));
    r.v[0] = ei.mi_recent_txnid;
    r.v[1] = ei.mi_numreaders;
    break;
  }
  case O_DEAD: {
    int dead = -1;
    r.rc = mdbx_reader_check(W.env, &dead);
    r.v[0] = (uint64_t)dead;
    break;
  }
  case O_INFO: {
    unsigned f = 0;
    r.rc = mdbx_env_get_flags(W.env, &f);
    r.v[0] = f;
    break;
  }
  case O_FLUSH:
    r.rc = mdbx_env_sync_ex(W.env, c.a, c.b);
    break;
  case O_HSR:
    W.plan.clear();
    for (int i = 0; i < c.a; ++i)
      W.plan.push_back((int)(signed char)c.s[i]);
    W.plan_at = 0;
    r.rc = mdbx_env_set_hsr(W.env, c.b ? hsr : nullptr);
    break;
  case O_RESURRECT:
    r.rc = mdbx_env_resurrect_after_fork(W.env);
    if (r.rc == 0)
      W.inherited = false, W.wr = W.nested = nullptr;
    break;
  case O_NOPRIV:
    r.rc = setgid(65534) || setuid(65534);
    break;
  case O_MISC: {
    // things a read-only environment or an inherited one has to refuse
    MDBX_txn *t = nullptr;
    switch (c.a) {
    case 0:
      r.rc = mdbx_txn_begin(W.env, nullptr, MDBX_TXN_READWRITE, &t);
      if (r.rc == 0)
        mdbx_txn_abort(t);
      break;
    case 1:
      r.rc = mdbx_env_set_geometry(W.env, -1, -1, 1 << 26, -1, -1, -1);
      break;
    case 2:
      r.rc = mdbx_env_sync_ex(W.env, true, false);
      break;
    case 3: {
      r.rc = mdbx_txn_begin(W.env, nullptr, MDBX_TXN_RDONLY, &t);
      if (r.rc)
        break;
      MDBX_dbi d;
      r.rc2 = mdbx_dbi_open(t, "rows", MDBX_DB_DEFAULTS, &d);
      r.rc = mdbx_dbi_open(t, "other", MDBX_CREATE, &d);
      if (r.rc2 == 0) {
        MDBX_dbi rows;
        mdbx_dbi_open(t, "rows", MDBX_DB_DEFAULTS, &rows);
        uint32_t kk = 1;
        MDBX_val k{&kk, 4}, v{&kk, 4};
        const int a = mdbx_put(t, rows, &k, &v, MDBX_UPSERT), b = mdbx_del(t, rows, &k, nullptr), e = mdbx_drop(t, rows, false);
        if (!a || !b || !e)
          r.rc = 0;
        MDBX_cursor *cur;
        if (mdbx_cursor_open(t, rows, &cur) == 0) {
          if (mdbx_cursor_get(cur, &k, &v, MDBX_FIRST) == 0 &&
              (mdbx_cursor_put(cur, &k, &v, MDBX_CURRENT) == 0 || mdbx_cursor_del(cur, MDBX_CURRENT) == 0))
            r.rc = 0;
          mdbx_cursor_close(cur);
        }
        uint64_t s;
        if (mdbx_dbi_sequence(t, rows, &s, 1) == 0)
          r.rc = 0;
        const MDBX_canary cn = {1, 2, 3, 4};
        if (mdbx_canary_put(t, &cn) == 0)
          r.rc = 0;
      }
      mdbx_txn_abort(t);
      break;
    }
    case 4: {
      MDBX_env *e2;
      MUST(mdbx_env_create(&e2));
      r.rc = mdbx_env_open(e2, c.s, (MDBX_env_flags_t)c.b, 0644);
      mdbx_env_close_ex(e2, true);
      break;
    }
    }
    break;
  }
  default:
    vf_harness_error("op %d", c.op);
  }
}

struct Th {
  std::thread t;
  std::mutex m;
  std::condition_variable cv;
  const Cmd *cmd = nullptr;
  Rep *rep = nullptr;
  bool quit = false, done = false;
};
static Th *ths[4];

static void th_main(Th *t) {
  std::unique_lock<std::mutex> l(t->m);
  for (;;) {
    t->cv.wait(l, [&] { return t->cmd || t->quit; });
    if (t->quit)
      return;
    do_op(*t->cmd, *t->rep);
    t->cmd = nullptr;
    t->done = true;
    t->cv.notify_all();
  }
}

#include <execinfo.h>
static void on_segv(int) {
  if (getenv("VF_TRACE")) {
    void *a[20];
    backtrace_symbols_fd(a, backtrace(a, 20), 2);
  }
  _exit(77);
}

[[noreturn]] static void worker(int fd);

static void send_all(int fd, const void *p, size_t n) {
  if (send(fd, p, n, MSG_NOSIGNAL) != (ssize_t)n)
    _exit(3);
}

[[noreturn]] static void worker(int fd) {
  W.fd = fd;
  static Rep rep;
  Cmd c;
  for (;;) {
    ssize_t n = recv(fd, &c, sizeof(c), 0);
    if (n != sizeof(c))
      _exit(0);
    if (c.op == O_EXIT) {
      if (c.a == 0)
        _exit(0);
      vf.in_child = true;
      exit(0);
    }
    if (c.op == O_FORK) {
      int sp[2];
      if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sp))
        _exit(4);
      memset(&rep, 0, offsetof(Rep, e));
      pid_t p = fork();
      if (p == 0) {
        close(sp[0]);
        close(fd);
        memset(ths, 0, sizeof(ths));
        W.inherited = true;
        signal(SIGSEGV, on_segv);
        signal(SIGBUS, on_segv);
        fd = W.fd = sp[1];
        continue;
      }
      close(sp[1]);
      rep.v[0] = (uint64_t)p;
      char cb[CMSG_SPACE(sizeof(int))] = {};
      iovec io{&rep, offsetof(Rep, e)};
      msghdr mh = {};
      mh.msg_iov = &io;
      mh.msg_iovlen = 1;
      mh.msg_control = cb;
      mh.msg_controllen = sizeof(cb);
      cmsghdr *cm = CMSG_FIRSTHDR(&mh);
      cm->cmsg_level = SOL_SOCKET;
      cm->cmsg_type = SCM_RIGHTS;
      cm->cmsg_len = CMSG_LEN(sizeof(int));
      memcpy(CMSG_DATA(cm), &sp[0], sizeof(int));
      if (sendmsg(fd, &mh, MSG_NOSIGNAL) < 0)
        _exit(5);
      close(sp[0]);
      continue;
    }
    if (c.op == O_THEXIT) {
      memset(&rep, 0, offsetof(Rep, e));
      if (Th *t = ths[c.th]) {
        {
          std::lock_guard<std::mutex> l(t->m);
          t->quit = true;
        }
        t->cv.notify_all();
        t->t.join();
        delete t;
        ths[c.th] = nullptr;
      }
    } else if (c.th == 0 || W.inherited)
      do_op(c, rep);
    else {
      if (!ths[c.th]) {
        ths[c.th] = new Th();
        ths[c.th]->t = std::thread(th_main, ths[c.th]);
      }
      Th *t = ths[c.th];
      std::unique_lock<std::mutex> l(t->m);
      t->cmd = &c;
      t->rep = &rep;
      t->done = false;
      t->cv.notify_all();
      t->cv.wait(l, [&] { return t->done; });
    }
    send_all(fd, &rep, offsetof(Rep, e) + rep.n * sizeof(Ent));
  }
}

// -------------------------------------------------------------- controller
static Rng r;
static std::string path;
static uint64_t hist;

struct Reader {
  bool used = false, active = false, parked = false, prepared = false, orphan = false;
  int th = 0;
  uint64_t txnid = 0, version = 0, space = 0, tid = 0, retained = 0;
};
struct Proc {
  pid_t pid = 0;
  int fd = -1;
  bool alive = false, open = false, wr = false, child = false, resurrected = false, misused = false, own_child = true;
  int parent = -1;
  unsigned flags = 0;
  uint64_t wr_version = 0;
  bool nested = false;
  std::vector<Reader> rd;
  std::set<int> lost;  // threads which have been told that they lost their reader
  std::set<int> bound; // threads which have a slot of their own
};
static std::vector<Proc> ps;
static uint64_t committed_ver, last_ver;
static Rep rep;

// false if the process has died of it
static bool ask(int w, Cmd c, bool may_die = false) {
  Proc &p = ps[w];
  vf_log("p%d.%d %s %lld %lld %lld", w, c.th, op_name[c.op], (long long)c.a, (long long)c.b, (long long)c.c);
  cnt("calls");
  const bool sent = send(p.fd, &c, sizeof(c), MSG_NOSIGNAL) == (ssize_t)sizeof(c);
  pollfd pf{p.fd, POLLIN, 0};
  if (sent && poll(&pf, 1, 60000) == 0)
    vf_fail("stuck", "%s in process %d does not return", op_name[c.op], w);
  ssize_t n;
  if (c.op == O_FORK && sent) {
    char cb[CMSG_SPACE(sizeof(int))] = {};
    iovec io{&rep, sizeof(rep)};
    msghdr mh = {};
    mh.msg_iov = &io;
    mh.msg_iovlen = 1;
    mh.msg_control = cb;
    mh.msg_controllen = sizeof(cb);
    n = recvmsg(p.fd, &mh, MSG_CMSG_CLOEXEC);
    cmsghdr *cm = CMSG_FIRSTHDR(&mh);
    if (n > 0 && cm)
      memcpy(&rep.v[7], CMSG_DATA(cm), sizeof(int));
  } else
    n = sent ? recv(p.fd, &rep, sizeof(rep), 0) : 0;
  if (n <= 0) {
    p.alive = false;
    close(p.fd);
    p.fd = -1;
    int st = 0;
    if (p.own_child) {
      waitpid(p.pid, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
        st = 0x4d00;
    }
    if (!may_die)
      vf_fail("process-died", "process %d died in %s (status 0x%x)", w, op_name[c.op], st);
    return false;
  }
  return true;
}
static Cmd cmd(int op, int th = 0, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0, const std::string &s = "") {
  Cmd x;
  memset(&x, 0, sizeof(x));
  x.op = op, x.th = th, x.a = a, x.b = b, x.c = c, x.d = d;
  snprintf(x.s, sizeof(x.s), "%s", s.c_str());
  return x;
}

static void spawn(int w) {
  int sp[2];
  if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sp))
    vf_harness_error("socketpair");
  fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    vf.in_child = true;
    for (auto &p : ps)
      if (p.fd >= 0)
        close(p.fd);
    close(sp[0]);
    worker(sp[1]);
  }
  close(sp[1]);
  Proc p;
  p.pid = pid;
  p.fd = sp[0];
  p.alive = true;
  p.rd.resize(NRD);
  ps[w] = p;
}

static void reap(int w, bool by_kill) {
  Proc &p = ps[w];
  if (p.alive) {
    if (by_kill)
      kill(p.pid, SIGKILL);
    close(p.fd);
    p.fd = -1;
    if (p.own_child)
      waitpid(p.pid, nullptr, 0);
    else // a grandchild: it is reaped by its parent or by init
      for (int i = 0; i < 2000 && by_kill; ++i) {
        char b[64], st = 0;
        snprintf(b, sizeof(b), "/proc/%d/stat", p.pid);
        FILE *f = fopen(b, "r");
        if (!f)
          break;
        char line[256] = {};
        if (fgets(line, sizeof(line), f))
          if (char *e = strrchr(line, ')'))
            st = e[2];
        fclose(f);
        if (st == 'Z' || st == 'X')
          break;
        usleep(1000);
      }
  }
  p = Proc();
  p.rd.resize(NRD);
}

static void kill_all() {
  for (size_t w = 0; w < ps.size(); ++w)
    if (ps[w].alive)
      reap((int)w, true);
}

static bool sticky(const Proc &p) { return !(p.flags & MDBX_NOSTICKYTHREADS); }

// what has to be in the table of readers: compares and explains
static std::string list_differs(const Rep &got, bool dead_gone, uint64_t max_readers) {
  std::map<uint64_t, std::vector<Ent>> by_pid;
  std::set<int> slots;
  for (unsigned i = 0; i < got.n; ++i) {
    const Ent &e = got.e[i];
    if (!slots.insert(e.slot).second)
      return strf("slot %d is listed twice", e.slot);
    if ((uint64_t)e.slot >= max_readers)
      return strf("slot %d is beyond the table of %llu", e.slot, (long long)max_readers);
    by_pid[e.pid].push_back(e);
  }
  for (size_t w = 0; w < ps.size(); ++w) {
    Proc &p = ps[w];
    if (!p.alive || !p.open || (p.child && !p.resurrected))
      continue;
    std::vector<Ent> es = by_pid[(uint64_t)p.pid];
    by_pid.erase((uint64_t)p.pid);
    size_t actives = 0;
    for (size_t i = 0; i < p.rd.size(); ++i) {
      Reader &x = p.rd[i];
      if (!x.used || !x.active || x.orphan)
        continue;
      ++actives;
      bool found = false;
      for (size_t k = 0; k < es.size(); ++k) {
        const Ent &e = es[k];
        if (e.txnid != x.txnid)
          continue;
        const bool parked = e.tid >= ~0ull - 1;
        if (x.parked != parked || (!parked && sticky(p) && e.tid != x.tid) || (!parked && !sticky(p) && e.tid && e.tid != x.tid))
          continue;
        if (e.lag != got.v[0] - e.txnid)
          return strf("the reader of transaction %llu in process %d is listed with lag %llu, the last transaction is %llu", (long long)e.txnid,
                      (int)w, (long long)e.lag, (long long)got.v[0]);
        if (e.used != x.space)
          return strf("the reader of transaction %llu in process %d is listed with %llu bytes used, its snapshot has %llu", (long long)e.txnid,
                      (int)w, (long long)e.used, (long long)x.space);
        if (e.lag == 0 ? e.retained != 0 : e.retained < x.retained)
          return strf("the reader of transaction %llu in process %d retains %llu bytes with lag %llu, and %llu bytes before", (long long)e.txnid,
                      (int)w, (long long)e.retained, (long long)e.lag, (long long)x.retained);
        x.retained = e.retained;
        es.erase(es.begin() + (long)k);
        found = true;
        break;
      }
      if (!found && !x.parked)
        return strf("the reader of transaction %llu in thread %d of process %d (%d, %s) is not listed as it is", (long long)x.txnid, x.th, (int)w,
                    (int)p.pid, x.parked ? "parked" : "running");
    }
    cnt("listed", actives);
    for (const Ent &e : es)
      if (e.txnid)
        return strf("process %d is listed with a reader of transaction %llu, which it does not have", (int)w, (long long)e.txnid);
  }
  for (auto &kv : by_pid)
    if (!kv.second.empty()) {
      if (dead_gone)
        return strf("%zu slots of process %llu are listed, which is dead or has closed the database", kv.second.size(), (long long)kv.first);
      cnt("listed_dead", kv.second.size());
    }
  return "";
}

static uint64_t max_readers;
static bool small_db;

static void check_list(int w, bool dead_gone) {
  if (!ask(w, cmd(O_LIST)))
    return;
  if (rep.rc && rep.rc != MDBX_RESULT_TRUE)
    vf_fail("list", "mdbx_reader_list() answers %d in process %d", rep.rc, w);
  const std::string d = list_differs(rep, dead_gone, max_readers);
  if (!d.empty())
    vf_fail("wrong-list", "%s", d.c_str());
  hist = mix64(hist ^ rep.n ^ rep.v[0] << 20);
  cnt("lists");
}

// slots which belong to living processes
static size_t live_slots() {
  size_t n = 0;
  for (auto &p : ps)
    if (p.alive && p.open && !(p.child && !p.resurrected)) {
      if (sticky(p))
        n += p.bound.size();
      else
        for (auto &x : p.rd)
          n += x.used;
    }
  return n;
}

// of them, those which may have lost theirs, or not have got one yet
static size_t loose_slots() {
  size_t n = 0;
  for (auto &p : ps)
    if (p.alive && p.open)
      for (auto &x : p.rd)
        n += x.used && !x.orphan && (x.parked || x.prepared || !x.active);
  return n;
}

static bool thread_reads(const Proc &p, int th) {
  for (auto &x : p.rd)
    if (x.used && x.active && x.th == th && !x.orphan)
      return true;
  return false;
}

static void begin_reader(int w, int th, bool prepare = false) {
  Proc &p = ps[w];
  size_t i = 0;
  while (i < p.rd.size() && p.rd[i].used)
    ++i;
  if (i == p.rd.size())
    return;
  bool busy = false;
  if (sticky(p) && p.lost.count(th))
    return;
  for (auto &x : p.rd)
    if (x.used && x.th == th && sticky(p) && !x.orphan) {
      // a thread may have one transaction at a time, even if that is reset or parked
      if (!x.active || x.parked)
        return;
      busy = true;
    }
  const bool needs = !sticky(p) || !p.bound.count(th);
  const size_t live = live_slots();
  ask(w, cmd(O_RBEGIN, th, (int64_t)i, prepare ? MDBX_TXN_RDONLY_PREPARE : MDBX_TXN_RDONLY));
  if (sticky(p) && p.wr && th == 0 && rep.rc) // one transaction per thread
    return;
  if (busy) {
    if (rep.rc == 0 && !prepare)
      vf_fail("second-reader", "a second reader was started by thread %d of process %d", th, w);
    if (rep.rc == 0) {
      ask(w, cmd(O_REND, th, (int64_t)i, 0));
    }
    cnt("refused");
    return;
  }
  if (needs && live >= max_readers && rep.rc == MDBX_READERS_FULL) {
    cnt("full");
    return;
  }
  if (needs && live >= max_readers && live - loose_slots() >= max_readers) {
    if (rep.rc != MDBX_READERS_FULL)
      vf_fail("full-table", "a reader was started with answer %d while all %llu slots are in use", rep.rc, (long long)max_readers);
    cnt("full");
    return;
  }
  for (int t = 0; rep.rc == MDBX_READERS_FULL && t < 200; ++t) { // locks of the killed vanish a bit later
    usleep(10000);
    ask(w, cmd(O_RBEGIN, th, (int64_t)i, prepare ? MDBX_TXN_RDONLY_PREPARE : MDBX_TXN_RDONLY));
  }
  if (rep.rc)
    vf_fail("no-reader", "a reader cannot be started in process %d: %d, with %zu of %llu slots in use by the living", w, rep.rc, live,
            (long long)max_readers);
  Reader x;
  x.used = true;
  x.active = !prepare;
  x.th = th;
  x.txnid = rep.v[0];
  x.space = rep.v[1];
  x.tid = rep.v[3];
  x.version = committed_ver;
  x.prepared = prepare;
  p.rd[i] = x;
  if (sticky(p))
    p.bound.insert(th);
  cnt("readers");
}

static void check_reader(int w, size_t i) {
  Proc &p = ps[w];
  Reader &x = p.rd[i];
  ask(w, cmd(O_RCHECK, x.th, (int64_t)i));
  if (rep.rc)
    vf_fail(rep.rc == -1 ? "torn-snapshot" : "snapshot-lost", "the reader of transaction %llu in process %d: %d %s", (long long)x.txnid, w, rep.rc,
            rep.text);
  if (rep.v[0] != x.version)
    vf_fail("wrong-snapshot", "the reader of transaction %llu in process %d sees version %llu instead of %llu", (long long)x.txnid, w,
            (long long)rep.v[0], (long long)x.version);
  cnt("snapshot_checks");
}

static bool commit(int w, int th = 0) {
  if (ps[w].wr)
    return false;
  if (thread_reads(ps[w], th)) {
    for (th = 0; th < (sticky(ps[w]) ? 4 : 2) && thread_reads(ps[w], th);)
      ++th;
    if (th == 4 || (th == 2 && !sticky(ps[w])))
      th = 3;
    if (thread_reads(ps[w], th))
      return false;
  }
  const uint64_t ver = ++last_ver;
  ask(w, cmd(O_COMMIT, th, (int64_t)ver, (int64_t)r.next() >> 8, r.range(0, 60)));
  if (rep.rc == MDBX_BUSY) {
    cnt("busy");
    return false;
  }
  if (rep.rc == MDBX_MAP_FULL && small_db) {
    cnt("map_full");
    return false;
  }
  if (rep.rc)
    vf_fail("commit", "a write transaction in process %d fails: %d", w, rep.rc);
  committed_ver = ver;
  cnt("commits");
  return true;
}

static int open_db(int w, unsigned flags, uint64_t readers, int64_t upper = 0, int64_t page = -1) {
  Proc &p = ps[w];
  ask(w, cmd(O_OPEN, 0, flags, (int64_t)readers, upper, page, path));
  if (rep.rc == 0) {
    p.open = true;
    p.flags = (unsigned)rep.v[0];
    p.bound.clear();
    for (auto &x : p.rd)
      x = Reader();
    cnt("opens");
  }
  return rep.rc;
}

static void fresh() {
  kill_all();
  unlink(path.c_str());
  unlink((path + "-lck").c_str());
  committed_ver = last_ver = 0;
}

static std::vector<int> having(bool open) {
  std::vector<int> v;
  for (size_t w = 0; w < ps.size(); ++w)
    if (ps[w].alive && ps[w].open == open)
      v.push_back((int)w);
  return v;
}

static void close_db(int w) {
  Proc &p = ps[w];
  // every thread ends what it has begun
  for (size_t i = 0; i < p.rd.size(); ++i)
    if (p.rd[i].used && !p.rd[i].orphan) {
      ask(w, cmd(O_REND, p.rd[i].th, (int64_t)i, 0));
      if (rep.rc)
        vf_fail("abort", "of a reader in process %d: %d", w, rep.rc);
    }
  ask(w, cmd(O_CLOSE, 0, 0));
  if (rep.rc)
    vf_fail("close", "process %d closes with %d", w, rep.rc);
  p.open = false;
  p.bound.clear();
  for (auto &x : p.rd)
    x = Reader();
  cnt("closes");
}

// ---------------------------------------------------------------------- C20
static void c20(uint64_t kase) {
  fresh();
  ps.resize(2 + r.below(4));
  for (size_t w = 0; w < ps.size(); ++w)
    spawn((int)w);
  const unsigned mode = r.chance(25) ? MDBX_WRITEMAP : r.chance(20) ? MDBX_SAFE_NOSYNC : 0;
  const bool small = small_db = r.chance(40);
  const uint64_t want = r.chance(60) ? 1 + r.below(8) : 0;
  const unsigned sticks = r.below(101);
  const int64_t upper = small ? (1 << 20) : (64 << 20), page = 1ll << r.range(9, 12);
  vf_case(strf("case=%llu procs=%zu mode=%x readers=%llu upper=%lld page=%lld", (long long)kase, ps.size(), mode, (long long)want, (long long)upper,
               (long long)page));
  auto flags = [&] { return MDBX_NOSUBDIR | mode | (r.below(100) < sticks ? 0u : MDBX_NOSTICKYTHREADS) | (r.chance(10) ? MDBX_LIFORECLAIM : 0); };
  if (int rc = open_db(0, flags(), want, upper, page))
    vf_fail("open", "%d", rc);
  max_readers = rep.v[1];
  commit(0);
  const unsigned steps = 60 + r.below(120);
  for (unsigned s = 0; s < steps; ++s) {
    const int w = (int)r.below(ps.size());
    Proc &p = ps[w];
    if (!p.alive) {
      spawn(w);
      continue;
    }
    const auto opened = having(true);
    if (!p.open) {
      if (int rc = open_db(w, flags(), r.chance(50) ? want : 0, opened.empty() ? upper : 0))
        vf_fail("open", "%d by process %d", rc, w);
      if (opened.empty()) {
        max_readers = rep.v[1];
        // the last writer may have been killed or all is as committed
      } else if (rep.v[1] != max_readers)
        vf_fail("max-readers", "%llu for process %d, but %llu for those before", (long long)rep.v[1], w, (long long)max_readers);
      continue;
    }
    const int th = (int)r.below(sticky(p) ? 4 : 2);
    std::vector<size_t> used;
    for (size_t i = 0; i < p.rd.size(); ++i)
      if (p.rd[i].used && !p.rd[i].orphan)
        used.push_back(i);
    switch (r.below(30)) {
    case 0: case 1: case 2: case 3: case 4: case 5:
      begin_reader(w, th, r.chance(8) && args.num("prep", 1));
      break;
    case 6: case 7: case 8:
      if (!used.empty()) {
        const size_t i = r.pick(used);
        Reader &x = p.rd[i];
        const bool reset = r.chance(40);
        ask(w, cmd(O_REND, x.th, (int64_t)i, reset));
        if (rep.rc)
          vf_fail("end-reader", "%s answers %d", reset ? "mdbx_txn_reset()" : "mdbx_txn_abort()", rep.rc);
        x.active = x.parked = false;
        if (!reset)
          x = Reader();
        cnt("ended");
      }
      break;
    case 9: case 10:
      if (!used.empty()) {
        const size_t i = r.pick(used);
        Reader &x = p.rd[i];
        if (!x.active) {
          bool busy = false;
          for (auto &y : p.rd)
            busy |= &y != &x && y.used && y.active && !y.parked && y.th == x.th && !y.orphan;
          const size_t live = live_slots();
          ask(w, cmd(O_RENEW, x.th, (int64_t)i));
          if (rep.rc == 0) {
            if (sticky(p) && busy)
              vf_fail("second-reader", "a second reader was renewed by thread %d of process %d", x.th, w);
            x.active = true;
            x.prepared = false;
            x.txnid = rep.v[0], x.space = rep.v[1], x.tid = rep.v[3];
            x.version = committed_ver;
            x.retained = 0;
            if (sticky(p))
              p.bound.insert(x.th);
            cnt("renewed");
          } else if (!(sticky(p) && busy) && !(rep.rc == MDBX_READERS_FULL && live >= max_readers))
            vf_fail("renew", "mdbx_txn_renew() answers %d", rep.rc);
        } else if (!x.parked)
          check_reader(w, i);
      }
      break;
    case 11: case 12:
      if (!used.empty()) {
        const size_t i = r.pick(used);
        Reader &x = p.rd[i];
        if (x.active && !x.parked) {
          ask(w, cmd(O_PARK, x.th, (int64_t)i, 0));
          if (rep.rc)
            vf_fail("park", "%d", rep.rc);
          x.parked = true;
          cnt("parked");
        } else if (x.parked) {
          ask(w, cmd(O_UNPARK, x.th, (int64_t)i, 0));
          x.parked = false;
          if (rep.rc == MDBX_OUSTED) {
            x.active = false;
            cnt("ousted");
          } else if (rep.rc)
            vf_fail("unpark", "%d", rep.rc);
        }
      }
      break;
    case 13: case 14: case 15: case 16: case 17:
      commit(w, sticky(p) ? 0 : th);
      break;
    case 18: {
      // fill up the table
      if (!sticky(p) && max_readers < 250) {
        const size_t room = max_readers - std::min<size_t>(max_readers, live_slots());
        for (size_t k = 0; k < room + 2 && k < 260; ++k)
          begin_reader(w, 0);
        cnt("fills");
        check_list(w, false);
        // nothing else breaks: writing works, readers go on
        commit(w);
        std::vector<size_t> v;
        for (size_t i = 0; i < p.rd.size(); ++i)
          if (p.rd[i].used && p.rd[i].active && !p.rd[i].parked)
            v.push_back(i);
        for (int k = 0; k < 3 && !v.empty(); ++k)
          check_reader(w, r.pick(v));
        for (size_t i = 0; i < p.rd.size(); ++i)
          if (p.rd[i].used && r.chance(80)) {
            ask(w, cmd(O_REND, p.rd[i].th, (int64_t)i, 0));
            if (rep.rc)
              vf_fail("end-reader", "%d", rep.rc);
            p.rd[i] = Reader();
          }
      }
      break;
    }
    case 19: case 20:
      if (th && sticky(p)) {
        ask(w, cmd(O_THEXIT, th));
        for (auto &x : p.rd)
          if (x.used && x.th == th)
            x = Reader(), x.orphan = x.used = true, x.th = -1;
        p.bound.erase(th);
        cnt("thread_exits");
      }
      break;
    case 21: case 22:
      if (r.chance(50)) {
        reap(w, true);
        cnt("kills");
      }
      break;
    case 23:
      if (r.chance(40))
        close_db(w);
      break;
    case 24: case 25: {
      ask(w, cmd(O_DEAD));
      if (rep.rc && rep.rc != MDBX_RESULT_TRUE)
        vf_fail("reader-check", "%d", rep.rc);
      cnt("dead_checks");
      // the kernel may need a moment to drop the locks of the killed
      std::string d;
      for (int t = 0; t < 200; ++t) {
        ask(w, cmd(O_LIST));
        d = list_differs(rep, true, max_readers);
        if (d.empty())
          break;
        usleep(10000);
        ask(w, cmd(O_DEAD));
      }
      if (!d.empty())
        vf_fail("dead-slots", "%s", d.c_str());
      break;
    }
    default:
      check_list(w, false);
    }
    // an active reader of anyone still has its snapshot, unless it was parked
    if (r.chance(15)) {
      const int v = (int)r.below(ps.size());
      for (size_t i = 0; i < NRD && ps[v].alive && ps[v].open; ++i)
        if (ps[v].rd[i].used && ps[v].rd[i].active && !ps[v].rd[i].parked && !ps[v].rd[i].orphan) {
          check_reader(v, i);
          break;
        }
    }
  }
  kill_all();
  distinct(hist);
}

// C20: the callback about slow readers
static void c20_slow(uint64_t kase) {
  fresh();
  small_db = true;
  ps.resize(3 + r.below(3));
  for (size_t w = 0; w < ps.size(); ++w)
    spawn((int)w);
  const int64_t page = 1ll << r.range(10, 12);
  const unsigned mode = r.chance(30) ? MDBX_WRITEMAP : 0;
  vf_case(strf("case=%llu slow readers, procs=%zu mode=%x page=%lld", (long long)kase, ps.size(), mode, (long long)page));
  for (size_t w = 0; w < ps.size(); ++w)
    if (int rc = open_db((int)w, MDBX_NOSUBDIR | mode | (r.chance(50) ? MDBX_NOSTICKYTHREADS : 0), 0, 1 << 20, page))
      vf_fail("open", "%d", rc);
  max_readers = rep.v[1];
  commit(0);
  uint64_t recent = rep.v[0];
  const int64_t bytes = r.range(100, 230) * 1000;
  for (unsigned s = 0; s < 30; ++s) {
    const int w = 1 + (int)r.below(ps.size() - 1);
    if (!ps[w].alive) {
      spawn(w);
      if (int rc = open_db(w, MDBX_NOSUBDIR | mode | (r.chance(50) ? MDBX_NOSTICKYTHREADS : 0), 0))
        vf_fail("open", "%d", rc);
    }
    Proc &p = ps[w];
    if (r.chance(35))
      begin_reader(w, (int)r.below(4));
    if (r.chance(20)) {
      for (size_t i = 0; i < NRD; ++i)
        if (p.rd[i].used && p.rd[i].active && !p.rd[i].parked) {
          if (r.chance(40)) {
            ask(w, cmd(O_PARK, p.rd[i].th, (int64_t)i, 0));
            p.rd[i].parked = true;
          } else {
            ask(w, cmd(O_REND, p.rd[i].th, (int64_t)i, 0));
            p.rd[i] = Reader();
          }
          break;
        }
    }
    // the verdicts to come
    Cmd h = cmd(O_HSR, 0, 6, !r.chance(10));
    for (int i = 0; i < 6; ++i)
      h.s[i] = (char)(r.chance(35) ? 0 : r.chance(30) ? -1 : r.chance(50) ? 1 : r.chance(50) ? 2 : -2);
    ask(0, h);
    const bool on = h.b;
    const uint64_t ver = ++last_ver;
    // who blocks it now?
    struct Blk {
      int w;
      size_t i;
    };
    std::vector<Blk> act;
    for (size_t v = 0; v < ps.size(); ++v)
      for (size_t i = 0; ps[v].alive && ps[v].open && i < NRD; ++i)
        if (ps[v].rd[i].used && ps[v].rd[i].active && !ps[v].rd[i].parked && !ps[v].rd[i].orphan)
          act.push_back({(int)v, i});
    ask(0, cmd(O_LIST));
    recent = std::max(recent, rep.v[0]); // opening may have made a new one
    ask(0, cmd(O_FILL, 0, (int64_t)ver, (int64_t)r.next() >> 8, 10, bytes));
    const Rep got = rep;
    if (!on && got.n)
      vf_fail("callback-off", "the callback is called though none is set");
    bool waited = false, given_up = false, removed = false;
    for (unsigned k = 0; k < got.n; ++k) {
      const Ent &e = got.e[k];
      const int verdict = (int)(int64_t)e.retained;
      if (e.retry < 0) {
        if (!waited)
          vf_fail("callback-end", "the end of a loop is told though the callback never answered 0");
        waited = false;
        continue;
      }
      cnt("callbacks");
      // the oldest reader which is not parked
      uint64_t oldest = ~0ull;
      for (auto &b : act)
        oldest = std::min(oldest, ps[b.w].rd[b.i].txnid);
      if (act.empty())
        vf_fail("callback-without-reader", "the callback is called for transaction %llu of %llu, but nobody reads", (long long)e.txnid, (long long)e.pid);
      if (e.txnid != oldest)
        vf_fail("callback-laggard", "the callback is called for transaction %llu, the oldest one read is %llu", (long long)e.txnid, (long long)oldest);
      if (e.txnid >= recent)
        vf_fail("callback-laggard", "the callback is called for transaction %llu, which is the last committed one", (long long)e.txnid);
      if (e.lag != recent - e.txnid)
        vf_fail("callback-gap", "gap %llu for transaction %llu, the last one is %llu", (long long)e.lag, (long long)e.txnid, (long long)recent);
      size_t who = act.size();
      for (size_t a = 0; a < act.size(); ++a) {
        Proc &q = ps[act[a].w];
        const Reader &x = q.rd[act[a].i];
        if ((uint64_t)q.pid == e.pid && x.txnid == e.txnid && (e.tid == x.tid || (!sticky(q) && !e.tid)))
          who = a;
      }
      if (who == act.size())
        vf_fail("callback-reader", "the callback is called for process %llu, thread %llx, which does not read transaction %llu", (long long)e.pid,
                (long long)e.tid, (long long)e.txnid);
      if (verdict == 0)
        waited = true;
      else if (verdict < 0)
        given_up = true;
      else {
        removed = true;
        const int v = act[who].w;
        const size_t i = act[who].i;
        cnt(verdict == 1 ? "verdict_aborted" : "verdict_killed");
        if (verdict == 1) {
          Reader &x = ps[v].rd[i];
          // its owner will never touch it again
          const Reader x0 = x;
          x = Reader();
          x.used = x.orphan = true;
          ps[v].lost.insert(x0.th);
          x.th = -1;
          act.erase(act.begin() + (long)who);
        } else {
          // the callback has killed it
          for (size_t a = act.size(); a-- > 0;)
            if (act[a].w == v)
              act.erase(act.begin() + (long)a);
          close(ps[v].fd);
          waitpid(ps[v].pid, nullptr, 0);
          ps[v] = Proc();
          ps[v].rd.resize(NRD);
        }
      }
    }
    if (waited)
      vf_fail("callback-end", "the end of the loop is not told though the callback answered 0");
    if (got.rc == 0) {
      committed_ver = ver;
      recent = got.v[0];
      cnt("commits");
    } else if (got.rc != MDBX_MAP_FULL)
      vf_fail("commit", "%d", got.rc);
    else {
      bool older = false;
      for (auto &b : act)
        older |= ps[b.w].rd[b.i].txnid < recent;
      if (!older && !given_up)
        vf_fail("no-room", "MDBX_MAP_FULL, but no reader holds anything back (%u calls, %s)", got.n, removed ? "readers were removed" : "none removed");
      cnt("map_full");
      if (on && !got.n && older)
        vf_fail("callback-missing", "MDBX_MAP_FULL with an old reader, but the callback was not called");
    }
    // the readers which were not removed have their snapshots
    for (auto &b : act)
      check_reader(b.w, b.i);
    // those which were are ended by their owners
    for (size_t v = 0; v < ps.size(); ++v)
      for (size_t i = 0; ps[v].alive && ps[v].open && i < NRD; ++i) {
        Reader &x = ps[v].rd[i];
        if (x.used && !x.orphan && !x.active) {
          ask((int)v, cmd(O_REND, x.th, (int64_t)i, 0));
          if (rep.rc && rep.rc != MDBX_OUSTED)
            vf_fail("end-reader", "%d", rep.rc);
          x = Reader();
        }
      }
    hist = mix64(hist ^ got.n ^ (uint64_t)got.rc << 8 ^ recent << 20);
    check_list(0, false);
  }
  kill_all();
  distinct(hist);
}

// ---------------------------------------------------------------------- C32
static int fork_child(int w) {
  Proc &p = ps[w];
  ask(w, cmd(O_FORK));
  Proc c;
  c.pid = (pid_t)rep.v[0];
  c.fd = (int)rep.v[7];
  c.alive = c.open = c.child = true;
  c.own_child = false;
  c.parent = w;
  c.flags = p.flags;
  c.wr = p.wr;
  c.nested = p.nested;
  c.rd.resize(NRD);
  for (size_t i = 0; i < NRD; ++i)
    if (p.rd[i].used)
      c.rd[i].used = c.rd[i].orphan = true;
  if (c.pid <= 0)
    vf_harness_error("fork");
  ps.push_back(c);
  cnt("forks");
  return (int)ps.size() - 1;
}

static void wbegin(int w) {
  Proc &p = ps[w];
  bool held = false;
  for (auto &q : ps)
    held |= q.alive && q.wr && !(q.child && !q.resurrected);
  if (p.wr || thread_reads(p, 0))
    return;
  ask(w, cmd(O_WBEGIN, 0, 0, MDBX_TXN_TRY));
  if (held) {
    if (rep.rc != MDBX_BUSY)
      vf_fail("second-writer", "process %d gets %d while another one has a write transaction", w, rep.rc);
    cnt("busy");
    return;
  }
  for (int t = 0; rep.rc == MDBX_BUSY && t < 200; ++t) { // the lock of one just killed
    usleep(10000);
    ask(w, cmd(O_WBEGIN, 0, 0, MDBX_TXN_TRY));
  }
  if (rep.rc)
    vf_fail("no-writer", "process %d gets %d though nobody writes", w, rep.rc);
  p.wr = true;
  p.nested = false;
  p.wr_version = ++last_ver;
  ask(w, cmd(O_WPUT, 0, (int64_t)p.wr_version, (int64_t)r.next() >> 8, r.range(5, 70)));
  if (rep.rc)
    vf_fail("put", "%d in process %d", rep.rc, w);
}

static void wend(int w) {
  Proc &p = ps[w];
  if (r.chance(30)) {
    // one more version in the same transaction
    p.wr_version = ++last_ver;
    ask(w, cmd(O_WPUT, 0, (int64_t)p.wr_version, (int64_t)r.next() >> 8, r.range(5, 70)));
    if (rep.rc)
      vf_fail("put", "%d in process %d", rep.rc, w);
  }
  const bool ok = r.chance(75);
  ask(w, cmd(O_WEND, 0, ok));
  if (rep.rc || rep.rc2)
    vf_fail("commit", "%s of process %d answers %d, %d", ok ? "the commit" : "the abort", w, rep.rc2, rep.rc);
  if (ok)
    committed_ver = p.wr_version;
  p.wr = p.nested = false;
  cnt(ok ? "commits" : "aborts");
}

static void all_well(const char *after) {
  const size_t n = vf.log.size();
  (void)n;
  vf_log("all well after %s?", after);
  int asker = -1;
  for (size_t w = 0; w < ps.size(); ++w) {
    Proc &p = ps[w];
    if (!p.alive || !p.open || (p.child && !p.resurrected))
      continue;
    asker = (int)w;
    for (size_t i = 0; i < NRD; ++i)
      if (p.rd[i].used && p.rd[i].active && !p.rd[i].parked && !p.rd[i].orphan && r.chance(50))
        check_reader((int)w, i);
  }
  if (asker >= 0) {
    if (r.chance(40)) {
      ask(asker, cmd(O_DEAD));
      if (rep.rc && rep.rc != MDBX_RESULT_TRUE)
        vf_fail("reader-check", "%d", rep.rc);
    }
    check_list(asker, false);
  }
  if (r.chance(15)) {
    // nobody gets it exclusively while anyone has it open
    size_t openers = 0;
    for (auto &p : ps)
      openers += p.alive && p.open && !(p.child && !p.resurrected);
    if (openers) {
      ps.push_back(Proc());
      const int w = (int)ps.size() - 1;
      spawn(w);
      const int rc = open_db(w, MDBX_NOSUBDIR | MDBX_EXCLUSIVE | (ps[asker].flags & MDBX_WRITEMAP), 0);
      if (rc != MDBX_BUSY)
        vf_fail("exclusive", "an exclusive open answers %d after %s, while %zu processes have the database open", rc, after, openers);
      reap(w, true);
      ps.pop_back();
      cnt("exclusive_refused");
    }
  }
}

static void c32(uint64_t kase) {
  fresh();
  small_db = false;
  ps.clear();
  ps.reserve(64);
  ps.resize(2);
  spawn(0);
  spawn(1);
  const unsigned mode = r.chance(25) ? MDBX_WRITEMAP : r.chance(15) ? MDBX_SAFE_NOSYNC : 0;
  vf_case(strf("case=%llu forks, mode=%x", (long long)kase, mode));
  for (int w = 0; w < 2; ++w)
    if (int rc = open_db(w, MDBX_NOSUBDIR | mode | (r.chance(40) ? MDBX_NOSTICKYTHREADS : 0), 0, 64 << 20, 4096))
      vf_fail("open", "%d", rc);
  max_readers = rep.v[1];
  commit(0);
  const unsigned steps = 40 + r.below(60);
  unsigned forks = 0;
  for (unsigned s = 0; s < steps; ++s) {
    std::vector<int> live;
    for (size_t w = 0; w < ps.size(); ++w)
      if (ps[w].alive)
        live.push_back((int)w);
    const int w = r.pick(live);
    Proc &p = ps[w];
    const bool inherited = p.child && !p.resurrected;
    std::vector<size_t> mine, theirs;
    for (size_t i = 0; i < NRD; ++i)
      if (p.rd[i].used)
        (p.rd[i].orphan ? theirs : mine).push_back(i);
    if (!p.open) {
      reap(w, r.chance(50));
      if (w < 2) {
        spawn(w);
        if (int rc = open_db(w, MDBX_NOSUBDIR | mode | (r.chance(40) ? MDBX_NOSTICKYTHREADS : 0), 0))
          vf_fail("open", "%d by process %d", rc, w);
      }
      all_well("the end of a process which had closed");
      continue;
    }
    if (!inherited) {
      switch (r.below(14)) {
      case 0: case 1: case 2:
        if (!(sticky(p) && p.wr))
          begin_reader(w, p.child ? 0 : (int)r.below(sticky(p) ? 4 : 2));
        break;
      case 3:
        if (!mine.empty()) {
          const size_t i = r.pick(mine);
          ask(w, cmd(O_REND, p.rd[i].th, (int64_t)i, 0));
          if (rep.rc)
            vf_fail("end-reader", "%d", rep.rc);
          p.rd[i] = Reader();
        }
        break;
      case 4: case 5:
        if (!p.wr)
          wbegin(w);
        else if (!p.nested && !(mode & MDBX_WRITEMAP) && r.chance(60)) {
          ask(w, cmd(O_NEST));
          if (rep.rc)
            vf_fail("nested", "%d", rep.rc);
          p.nested = true;
          p.wr_version = ++last_ver;
          ask(w, cmd(O_WPUT, 0, (int64_t)p.wr_version, (int64_t)r.next() >> 8, 30));
          if (rep.rc)
            vf_fail("put", "%d", rep.rc);
        }
        break;
      case 6: case 7:
        if (p.wr) {
          wend(w);
          all_well("the end of a write transaction");
        }
        break;
      case 8: case 9: case 10:
        if (forks < 24) {
          ++forks;
          fork_child(w);
          all_well("a fork");
        }
        break;
      case 11: {
        // who inherited reading transactions ends them
        if (p.child && !theirs.empty()) {
          const size_t i = r.pick(theirs);
          ask(w, cmd(O_REND, 0, (int64_t)i, 0));
          p.rd[i] = Reader();
          cnt("inherited_ended");
          all_well("the end of an inherited reader in a revived child");
        }
        break;
      }
      case 12:
        if (r.chance(w < 2 ? 15 : 60) && !p.wr) {
          if (p.child)
            for (size_t i : theirs) {
              ask(w, cmd(O_REND, 0, (int64_t)i, 0));
              p.rd[i] = Reader();
            }
          close_db(w);
          all_well("a close");
        }
        break;
      case 13:
        if (r.chance(w < 2 ? 5 : 40)) {
          reap(w, r.chance(70));
          for (auto &c : ps)
            if (c.parent == w)
              c.parent = -1;
          if (w < 2) {
            spawn(w);
            if (int rc = open_db(w, MDBX_NOSUBDIR | mode, 0))
              vf_fail("open", "%d by process %d", rc, w);
          }
          all_well("the death of a process");
        }
        break;
      }
    } else {
      std::string what;
      switch (r.below(12)) {
      case 0: case 1: case 2: {
        const bool misused = p.misused;
        ask(w, cmd(O_RESURRECT));
        if (rep.rc == 0) {
          p.resurrected = true;
          p.wr = p.nested = false;
          p.bound.clear();
          cnt("resurrected");
        } else if (!misused)
          vf_fail("resurrect", "mdbx_env_resurrect_after_fork() answers %d", rep.rc);
        what = "a revival";
        break;
      }
      case 3: {
        size_t i = 0;
        while (p.rd[i].used)
          ++i;
        ask(w, cmd(O_RBEGIN, 0, (int64_t)i, MDBX_TXN_RDONLY), true);
        if (p.alive && rep.rc == 0)
          vf_fail("child-reads", "a reader was started in an inherited environment");
        p.misused = true;
        what = "a refused reader";
        break;
      }
      case 4:
        ask(w, cmd(O_MISC, 0, 0), true);
        if (p.alive && rep.rc == 0)
          vf_fail("child-writes", "a write transaction was started in an inherited environment");
        p.misused = true;
        what = "a refused writer";
        break;
      case 5: {
        // a change may be accepted where only the copy of the child is touched
        const int64_t act = 1 + (int64_t)r.below(2);
        ask(w, cmd(O_MISC, 0, act), true);
        if (p.alive && rep.rc == 0 && act == 2)
          vf_fail("child-env", "an inherited environment was changed or synced");
        p.misused = true;
        what = "a refused change of the environment";
        break;
      }
      case 6:
        ask(w, cmd(O_LIST), true);
        if (p.alive && rep.rc == 0)
          vf_fail("child-list", "an inherited environment lists readers");
        p.misused = true;
        what = "a refused list";
        break;
      case 7:
        if (!theirs.empty()) {
          const size_t i = r.pick(theirs);
          ask(w, cmd(O_REND, 0, (int64_t)i, r.chance(30)), true);
          p.misused = true;
          what = "the end of an inherited reader";
        }
        break;
      case 8:
        if (p.wr) {
          const bool commits = r.chance(50); // throwing the child's copy away is fine
          ask(w, cmd(O_WEND, 0, commits), true);
          if (p.alive && rep.rc == 0 && commits)
            vf_fail("child-commits", "an inherited write transaction was ended");
          p.wr = false;
          p.misused = true;
          what = "the end of an inherited write transaction";
        }
        break;
      case 9:
        if (!theirs.empty()) {
          ask(w, cmd(O_RCHECK, 0, (int64_t)r.pick(theirs)), true);
          p.misused = true;
          what = "the use of an inherited reader";
        } else if (p.wr) {
          ask(w, cmd(O_WPUT, 0, 1, 1, 50), true);
          p.misused = true;
          what = "the use of an inherited write transaction";
        }
        break;
      case 10:
        ask(w, cmd(O_CLOSE, 0, r.chance(50)));
        if (rep.rc && rep.rc != MDBX_PANIC)
          vf_fail("child-close", "%d", rep.rc);
        p.open = false;
        what = "a close in a child";
        cnt("child_closes");
        break;
      case 11:
        if (r.chance(50))
          reap(w, true);
        else {
          const Cmd c = cmd(O_EXIT, 0, r.below(2));
          if (send(p.fd, &c, sizeof(c), MSG_NOSIGNAL) != (ssize_t)sizeof(c))
            vf_harness_error("send");
          pollfd pf{p.fd, POLLIN | POLLHUP, 0};
          poll(&pf, 1, 20000);
          reap(w, false);
        }
        what = "the end of a child";
        cnt("child_exits");
        break;
      }
      if (!p.alive)
        cnt("child_segv");
      if (!what.empty()) {
        cnt("child_actions");
        all_well(what.c_str());
        hist = mix64(hist ^ hash_bytes(what.data(), what.size()) ^ (uint64_t)p.wr << 5 ^ mine.size());
      }
    }
    if (ps.size() > 50)
      break;
  }
  for (size_t w = 0; w < 2; ++w)
    if (ps[w].alive && ps[w].open && ps[w].wr)
      wend((int)w);
  kill_all();
  distinct(hist);
}

// ---------------------------------------------------------------------- C34
static uint64_t file_hash() {
  FILE *f = fopen(path.c_str(), "rb");
  if (!f)
    return 0;
  uint64_t h = 1;
  static char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof(buf), f)) > 0)
    h = hash_bytes(buf, n, h);
  fclose(f);
  return h;
}

static const unsigned lazy = MDBX_SAFE_NOSYNC | MDBX_UTTERLY_NOSYNC;

static void c34(uint64_t kase) {
  fresh();
  small_db = false;
  ps.clear();
  ps.resize(3 + r.below(2));
  for (size_t w = 0; w < ps.size(); ++w)
    spawn((int)w);
  static const unsigned modes[] = {0, MDBX_NOMETASYNC, MDBX_SAFE_NOSYNC, MDBX_UTTERLY_NOSYNC};
  const unsigned base = modes[r.below(4)] | (r.chance(40) ? MDBX_WRITEMAP : 0);
  const int64_t page = 1ll << r.range(8, 14);
  vf_case(strf("case=%llu open modes, base=%x page=%lld", (long long)kase, base, (long long)page));
  bool exists = false;
  unsigned envmode = 0; // of the writers, while anyone has it open
  bool envmode_set = false;
  bool frozen = false; // nobody may write now
  uint64_t frozen_hash = 0;
  const unsigned steps = 60 + r.below(80);
  for (unsigned s = 0; s < steps; ++s) {
    const int w = (int)r.below(ps.size());
    Proc &p = ps[w];
    if (!p.alive) {
      spawn(w);
      continue;
    }
    std::vector<int> others;
    bool excl = false, writers = false;
    for (size_t v = 0; v < ps.size(); ++v)
      if ((int)v != w && ps[v].alive && ps[v].open) {
        others.push_back((int)v);
        excl |= (ps[v].flags & MDBX_EXCLUSIVE) != 0;
      }
    if (!p.open) {
      unsigned f = MDBX_NOSUBDIR | (r.chance(30) ? MDBX_RDONLY : r.chance(75) ? base : modes[r.below(4)] | (r.chance(40) ? MDBX_WRITEMAP : 0));
      if (r.chance(15))
        f |= MDBX_EXCLUSIVE;
      if (r.chance(15))
        f |= MDBX_ACCEDE;
      if (r.chance(30))
        f |= MDBX_LIFORECLAIM;
      if (r.chance(30))
        f |= MDBX_NORDAHEAD;
      if (r.chance(30))
        f |= MDBX_NOSTICKYTHREADS;
      if (r.chance(15))
        f |= MDBX_NOMEMINIT;
      const bool rdonly = f & MDBX_RDONLY;
      const int rc = open_db(w, f, 0, r.chance(30) && !rdonly ? 32 << 20 : 0, exists ? -1 : page);
      const unsigned got = (unsigned)rep.v[0];
      vf_log("open flags %x -> %d, flags %x, mode %x/%d", f, rc, got, envmode, envmode_set);
      // the killed may keep their locks for a moment
      hist = mix64(hist ^ f ^ (uint64_t)rc << 32 ^ others.size() << 16);
      bool any_writer = !rdonly;
      for (int v : others)
        any_writer |= !(ps[v].flags & MDBX_RDONLY);
      // a file opened for reading only cannot be locked against other readers
      const bool all_read = !any_writer && rc == 0;
      if (rc == 0 && !others.empty() && !all_read && (excl || (f & MDBX_EXCLUSIVE)))
        vf_fail("exclusive", "process %d opens (flags %x) while %zu others have the database open%s", w, f, others.size(),
                excl ? ", one of them exclusively" : "");
      if (!others.empty() && !all_read && (excl || (f & MDBX_EXCLUSIVE))) {
        if (rc != MDBX_BUSY)
          vf_fail("exclusive", "process %d gets %d instead of MDBX_BUSY (flags %x), %zu others have the database open%s", w, rc, f, others.size(),
                  excl ? ", one of them exclusively" : "");
        cnt("busy_opens");
        goto checked;
      }
      if (!exists && rdonly) {
        if (rc == 0)
          vf_fail("read-only-creates", "a read-only open of a missing database succeeds");
        if (access(path.c_str(), F_OK) == 0)
          vf_fail("read-only-creates", "a read-only open of a missing database has created the file");
        unlink((path + "-lck").c_str());
        cnt("missing");
        goto checked;
      }
      if (!others.empty() && envmode_set && !rdonly && !(f & MDBX_ACCEDE)) {
        const unsigned rigid = (envmode & (lazy | MDBX_NOMETASYNC)) ? lazy | MDBX_WRITEMAP : lazy;
        // without NOSYNC the other bit of UTTERLY_NOSYNC means nothing
        if ((f ^ envmode) & rigid) {
          if (rc != MDBX_INCOMPATIBLE)
            vf_fail("incompatible", "mode %x is accepted with answer %d while the database is used in mode %x", f, rc, envmode);
          cnt("incompatible");
          goto checked;
        }
      }
      if (rc == MDBX_INCOMPATIBLE && rdonly && !others.empty() && envmode_set) {
        cnt("incompatible");
        goto checked;
      }
      if (rc == MDBX_WANNA_RECOVERY && rdonly) { // what was not synced has to be taken care of by a writer first
        cnt("wanna_recovery");
        goto checked;
      }
      if (rc)
        vf_fail("open", "process %d gets %d for flags %x, %zu others have the database open in mode %x", w, rc, f, others.size(), envmode);
      exists = true;
      if (others.empty()) {
        envmode_set = !rdonly;
        envmode = got;
      } else if (!rdonly && !envmode_set) {
        envmode_set = true;
        envmode = got;
      }
      if ((got ^ f) & (MDBX_RDONLY | MDBX_EXCLUSIVE))
        vf_fail("flags", "opened with flags %x, has %x", f, got);
      if (!rdonly) {
        const unsigned rigid = (envmode & (lazy | MDBX_NOMETASYNC)) ? lazy | MDBX_WRITEMAP : lazy;
        if ((got ^ envmode) & rigid)
          vf_fail("flags", "process %d runs in mode %x, the database in mode %x", w, got, envmode);
        if (!(f & MDBX_ACCEDE) && ((got ^ f) & (MDBX_WRITEMAP | lazy)))
          vf_fail("flags", "opened with flags %x, has %x", f, got);
      }
      cnt(rdonly ? "opens_ro" : (f & MDBX_EXCLUSIVE) ? "opens_excl" : "opens_rw");
      // what was committed is there
      {
        ask(w, cmd(O_RBEGIN, 0, 0, MDBX_TXN_RDONLY));
        if (rep.rc)
          vf_fail("reader", "cannot be started after open: %d", rep.rc);
        ask(w, cmd(O_RCHECK, 0, 0));
        if (rep.rc || rep.v[0] != committed_ver)
          vf_fail("lost-commit", "process %d, flags %x, finds version %llu (%d %s) instead of %llu", w, f, (long long)rep.v[0], rep.rc, rep.text,
                  (long long)committed_ver);
        ask(w, cmd(O_REND, 0, 0, 0));
        cnt("contents_checked");
      }
    } else {
      const bool rdonly = p.flags & MDBX_RDONLY;
      switch (r.below(12)) {
      case 0: case 1: case 2:
        if (rdonly) {
          const int what = (int)r.below(4);
          ask(w, cmd(O_MISC, 0, what));
          // a sync with nothing to do may say so
          if (rep.rc == 0 && what != 2)
            vf_fail("read-only-writes", "a read-only environment accepts a change (%d)", what);
          if (rep.rc == MDBX_PANIC)
            vf_fail("read-only-panic", "a refused change (%d)", what);
          cnt("refused");
        } else if (!p.wr)
          commit(w);
        break;
      case 3:
        if (!rdonly && !p.wr)
          wbegin(w);
        break;
      case 4:
        if (p.wr)
          wend(w);
        break;
      case 5:
        if (!rdonly && !p.wr) {
          bool held = false;
          for (auto &q : ps)
            held |= q.wr;
          if (!held) {
            ask(w, cmd(O_FLUSH, 0, r.chance(50), 0));
            if (rep.rc && rep.rc != MDBX_RESULT_TRUE)
              vf_fail("sync", "%d", rep.rc);
          }
        }
        break;
      case 6: {
        // the same file once more in the same process
        Cmd c = cmd(O_MISC, 0, 4, MDBX_NOSUBDIR | (r.chance(50) ? MDBX_RDONLY : base) | (r.chance(20) ? MDBX_EXCLUSIVE : 0), 0, 0, path);
        ask(w, c);
        if (rep.rc == 0)
          vf_fail("opened-twice", "one process opens the database twice");
        cnt("twice_refused");
        break;
      }
      case 7: case 8:
        if (p.wr)
          break;
        close_db(w);
        p.flags = 0;
        break;
      case 9:
        if (r.chance(60)) {
          if (p.wr)
            cnt("killed_writers");
          reap(w, true);
          cnt("kills");
          usleep(2000);
        }
        break;
      case 10:
        ask(w, cmd(O_RBEGIN, sticky(p) ? 1 : 0, 1, MDBX_TXN_RDONLY));
        if (rep.rc == 0) {
          ask(w, cmd(O_RCHECK, sticky(p) ? 1 : 0, 1));
          if (rep.rc || rep.v[0] != committed_ver)
            vf_fail("wrong-contents", "process %d reads version %llu (%d %s) instead of %llu", w, (long long)rep.v[0], rep.rc, rep.text,
                    (long long)committed_ver);
          ask(w, cmd(O_REND, sticky(p) ? 1 : 0, 1, 0));
          cnt("contents_checked");
        } else if (sticky(p) || !p.wr)
          vf_fail("reader", "%d", rep.rc);
        break;
      case 11:
        if (exists && r.chance(50)) {
          // someone without the right to write
          ps.push_back(Proc());
          const int u = (int)ps.size() - 1;
          spawn(u);
          chmod(path.c_str(), 0644);
          ask(u, cmd(O_NOPRIV));
          if (rep.rc == 0) {
            const bool ro = r.chance(70);
            if (open_db(u, MDBX_NOSUBDIR | (ro ? MDBX_RDONLY : base), 0) == 0) {
              if (!ro)
                vf_fail("unprivileged-writes", "a process without the right to write has opened the database for writing");
              if (excl || (p.flags & MDBX_EXCLUSIVE))
                vf_fail("exclusive", "an unprivileged reader opens a database which is held exclusively");
              ask(u, cmd(O_RBEGIN, 0, 0, MDBX_TXN_RDONLY));
              if (rep.rc == 0) {
                ask(u, cmd(O_RCHECK, 0, 0));
                if (rep.rc || rep.v[0] != committed_ver)
                  vf_fail("wrong-contents", "an unprivileged reader finds version %llu (%d)", (long long)rep.v[0], rep.rc);
                cnt("unprivileged");
              }
            }
          }
          reap(u, true);
          ps.pop_back();
        }
        break;
      }
    }
  checked:
    size_t openers = 0;
    writers = false;
    for (auto &q : ps)
      if (q.alive && q.open) {
        ++openers;
        writers |= !(q.flags & MDBX_RDONLY);
      }
    if (!openers)
      envmode_set = false;
    if (exists && !writers) {
      const uint64_t h = file_hash();
      if (frozen && h != frozen_hash)
        vf_fail("read-only-writes", "the file has changed while only readers had the database open");
      frozen = true;
      frozen_hash = h;
      cnt("frozen_checks");
      if (!openers && r.chance(30)) {
        AuditResult a = audit_path(path.c_str(), true);
        if (!a.errs.empty())
          vf_fail("broken-file", "after the last closer: %s", a.errs[0].c_str());
        cnt("audits");
      }
    } else
      frozen = false;
  }
  kill_all();
  distinct(hist);
}

int main(int argc, char **argv) {

  vf_init(argc, argv);
  signal(SIGPIPE, SIG_IGN);
  const std::string mode = args.str("mode", "C20");
  vf.prop = mode;
  const uint64_t seed = args.num("seed", 1), first = args.num("first", 0), n = args.num("n", 1);
  path = scratch_dir() + "/db";
  chmod(scratch_dir().c_str(), 0755);
  for (uint64_t k = first; k < first + n; ++k) {
    r = Rng(mix64(seed * 1000003 + k));
    hist = 1;
    cnt("cases");
    if (mode == "C32")
      c32(k);
    else if (mode == "C34")
      c34(k);
    else if (r.chance(60))
      c20(k);
    else
      c20_slow(k);
  }
  vf_finish();
}
