#!/usr/bin/env python3
"""Driver of the runtime monitors.

  vf.py check ID          run the check of one property (VERIF_TIER, VERIF_SEED)
  vf.py replay FILE       run again the case recorded in a replay file
  vf.py build [PROG:FLAVOUR ...]
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
BUILD = os.path.join(VERIF, "build")
NCPU = max(2, min(16, os.cpu_count() or 8))
sys.path.insert(0, VERIF)

# ---------------------------------------------------------------------------
# building: every object is keyed by the content of its inputs and its flags
STAMP = "-DMDBX_BUILD_TIMESTAMP=\"vf\""
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment"]
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1"]
FLAVOURS = {
    # the library as shipped (no assertions) / with its internal assertions / instrumented
    "plain": dict(lib=["-O1", "-g1"], har=["-O1", "-g1"], link=[]),
    "chk": dict(lib=["-O1", "-g1", "-DMDBX_CHECKING=2", "-DMDBX_DEBUG=0"], har=["-O1", "-g1"], link=[]),
    # MDBX_DEBUG=1 gives the library's own random delays (MDBX_DBG_JITTER)
    "dbg": dict(lib=["-O1", "-g1", "-DMDBX_CHECKING=1", "-DMDBX_DEBUG=1"], har=["-O1", "-g1"], link=[]),
    "asan": dict(lib=["-O1", "-g1", "-DENABLE_ASAN=1", "-DENABLE_UBSAN=1", "-DMDBX_CHECKING=1"] + SAN,
                 har=["-O1", "-g1"], link=SAN),
    "asan0": dict(lib=["-O0", "-g1", "-DENABLE_ASAN=1", "-DENABLE_UBSAN=1", "-DMDBX_CHECKING=1"] + SAN,
                  har=["-O1", "-g1"], link=SAN),
    # headers too: the C++ layer is mostly inline
    "asanh": dict(lib=["-O1", "-g1", "-DENABLE_ASAN=1", "-DENABLE_UBSAN=1", "-DMDBX_CHECKING=1"] + SAN, har=["-O1", "-g1"] + SAN, link=SAN),
    # without assertions: what a user gets from a damaged file
    "asanp": dict(lib=["-O0", "-g1", "-DENABLE_ASAN=1", "-DENABLE_UBSAN=1"] + SAN + ["-fno-sanitize=signed-integer-overflow"], har=["-O1", "-g1"], link=SAN),
    "tsan": dict(lib=["-O1", "-g1", "-DMDBX_VF_TSAN=1"] + TSAN, har=["-O1", "-g1"] + TSAN, link=["-fsanitize=thread"],
                 src=["tsan_volatile"]),
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


_rd = {}


def content(path):
    if path not in _rd:
        with open(path, "rb") as f:
            _rd[path] = f.read()
    return _rd[path]


class BuildError(Exception):
    pass


def run_cc(cmd, out):
    tmp = "%s.%d.%d.tmp" % (out, os.getpid(), threading.get_ident())
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-3000:])
    os.replace(tmp, out)


def obj_task(kind, name, flags):
    """returns (output path, command) of one object file"""
    hdrs = b"".join(content(os.path.join(REPO, h)) for h in ("mdbx.h", "mdbx-internals.h", "mdbx.h++")
                    if os.path.exists(os.path.join(REPO, h)))
    if kind == "lib":
        src = os.path.join(REPO, name)
        cxx = name.endswith("++")
        ver = content(os.path.join(REPO, "VERSION.json")) if os.path.exists(os.path.join(REPO, "VERSION.json")) else b""
        cmd = (["clang++", "-x", "c++", "-std=c++20"] if cxx else ["clang", "-std=gnu11"]) + flags + \
            ["-w", "-I" + REPO, STAMP, "-c", src]
        if re.match(r"mdbx_\w+\.c$", name):  # a tool: linked into the harness
            cmd.insert(1, "-Dmain=tool_" + name[5:-2])
        key = sha(hdrs, content(src), ver, " ".join(cmd))
    else:
        src = os.path.join(SRC, name + ".cc")
        har = b"".join(content(os.path.join(SRC, f)) for f in sorted(os.listdir(SRC)) if f.endswith(".h"))
        pub = content(os.path.join(REPO, "mdbx.h")) + content(os.path.join(REPO, "mdbx.h++"))
        cmd = ["clang++", "-std=c++20"] + flags + ["-w", "-I" + REPO, "-c", src]
        key = sha(pub, har, content(src), " ".join(cmd))
    return os.path.join(BUILD, "%s-%s.o" % (re.sub(r"\W", "_", name), key)), cmd


def build(targets):
    """targets: list of 'prog:flavour' -> {target: path}. All compilations run in parallel."""
    from vfconf import PROGS
    os.makedirs(BUILD, exist_ok=True)
    objs, plan = {}, {}
    for t in sorted(set(targets)):
        prog, fl = t.split(":")
        p, f = PROGS[prog], FLAVOURS[fl]
        use = []
        extra = p.get("cflags", [])
        lx = p.get("libflags", [])
        for l in p.get("lib", ["mdbx.c"]):
            use.append(obj_task("lib", l, f["lib"] + lx))
        for s in p["src"] + f.get("src", []):
            hf = f["har"] + extra
            use.append(obj_task("har", s, hf))
        for o, c in use:
            objs[o] = c
        link = ["clang++"] + f["link"] + [o for o, _ in use] + p.get("link", []) + ["-lpthread", "-ldl"]
        plan[t] = (os.path.join(BUILD, "%s-%s-%s" % (prog, fl, sha(" ".join(link)))), link)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        # big translation units first
        todo = sorted([(o, c) for o, c in objs.items() if not os.path.exists(o)],
                      key=lambda x: (0 if "mdbx" in os.path.basename(x[0]) else 1))
        list(ex.map(lambda oc: run_cc(oc[1], oc[0]), todo))
        lnk = [(o, c) for o, c in plan.values() if not os.path.exists(o)]
        list(ex.map(lambda oc: run_cc(oc[1], oc[0]), lnk))
    res = {t: p[0] for t, p in plan.items()}
    trim_build(set(res.values()) | set(objs))
    return res


def trim_build(keep, limit=3 << 30):
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        fs = sorted(((os.stat(f).st_mtime, os.stat(f).st_size, f) for f in fs if os.path.isfile(f)))
        total = sum(x[1] for x in fs)
        for m, s, f in fs:
            if total <= limit:
                break
            if f not in keep and time.time() - m > 3600:
                os.unlink(f)
                total -= s
    except OSError:
        pass


# ---------------------------------------------------------------------------
# running
class Job:
    """One process of a harness. env/args are enough to run it again."""

    def __init__(self, target, args, env=None, timeout=150, weight=1, cmd=None):
        self.target, self.args, self.env, self.timeout, self.weight = target, dict(args), env or {}, timeout, weight


class Result:
    def __init__(self):
        self.counts, self.samples, self.hashes = {}, [], set()
        self.findings, self.fail, self.harness, self.done = [], None, None, False
        self.at, self.case, self.log, self.rc, self.err, self.timeout = "", "", [], None, "", False


def san_signature(err):
    m = re.search(r"runtime error: ([^\n]*)", err)
    kind = None
    if m:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:60]
        fm = re.search(r"^\s*(?:\S*?)([^/\s:]+):(\d+):\d+: runtime error", err, re.M)
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
    if m and not kind:
        kind = ("leak" if m.group(1)[0] == "L" else "asan:" + m.group(2))
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
    if m and not kind:
        kind = "tsan:" + m.group(1).strip().replace(" ", "-")
    if not kind:
        return None
    fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", err) if not f.startswith(("__", "operator"))]
    fr = [f for f in fr if f not in ("malloc", "calloc", "realloc", "memcpy", "memmove", "memset", "osal_malloc", "osal_calloc")]
    fr2 = [f for f in re.findall(r"#\d+ ([A-Za-z_]\w*)", err)] if not fr else fr
    return (kind + ":" + (fr2[0] if fr2 else "?")).replace(" ", "_")


def parse(out, r):
    for l in out.split("\n"):
        w, _, rest = l.partition(" ")
        if w == "COUNT":
            k, _, v = rest.rpartition(" ")
            r.counts[k] = r.counts.get(k, 0) + int(v)
        elif w == "SAMPLE":
            r.samples.append(rest[:700])
        elif w == "HASH":
            r.hashes.update(int(x, 16) for x in rest.split())
        elif w == "FINDING":
            s, _, t = rest.partition(" ")
            r.findings.append((s, t))
        elif w == "FAIL":
            s, _, t = rest.partition(" ")
            if r.fail is None:
                r.fail = (s, t)
        elif w == "HARNESS":
            r.harness = rest
        elif w == "DONE":
            r.done = True
        elif w == "AT":
            r.at = rest
        elif w == "CASE":
            r.case = rest
        elif w == "LOG":
            r.log.append(rest)


def run_job(job, bins, scratch, timeout=None):
    r = Result()
    d = tempfile.mkdtemp(prefix="job.", dir=scratch)
    env = dict(os.environ)
    env.update(VF_SCRATCH=d, TMPDIR=d,
               ASAN_OPTIONS="abort_on_error=1:detect_leaks=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1",
               TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=0:report_signal_unsafe=0:suppressions=" + os.path.join(VERIF, "tsan.supp"))
    for k, v in job.env.items():
        env[k] = v
    argv = [bins[job.target]] + ["%s=%s" % kv for kv in job.args.items()]
    fo, fe = open(os.path.join(d, "out"), "w+b"), open(os.path.join(d, "err"), "w+b")
    p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=env, cwd=d, start_new_session=True)
    try:
        r.rc = p.wait(timeout or job.timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    if r.timeout:
        p.wait()
        r.rc = -9
    fo.seek(0)
    out = fo.read(64 << 20).decode("utf8", "replace")
    fe.seek(0)
    r.err = fe.read(1 << 20).decode("utf8", "replace")
    parse(out, r)
    fo.close()
    fe.close()
    shutil.rmtree(d, ignore_errors=True)
    return r


def classify(r):
    """-> None | ('fail', sig, text) | ('hang', ..) | ('harness', ..)"""
    if r.fail:
        return ("fail",) + r.fail
    if r.harness:
        return ("harness", "harness", r.harness)
    if r.timeout:
        return ("hang", "hang", "no end within the time limit, at: " + r.at)
    s = san_signature(r.err)
    if s:
        return ("fail", s, "sanitizer report: " + s)
    if r.rc is not None and r.rc < 0:
        try:
            n = signal.Signals(-r.rc).name
        except ValueError:
            n = str(-r.rc)
        m = re.findall(r"^(?:.*?)(mdbx:[^\n]*|[^\n]*assert[^\n]*)$", r.err, re.M)
        return ("fail", "crash:" + n, "the process died by %s at: %s %s" % (n, r.at, (m[-1] if m else "")[:300]))
    if r.rc != 0:
        return ("harness", "rc%s" % r.rc, "exit code %s: %s" % (r.rc, r.err[-500:]))
    if not r.done:
        return ("harness", "no-done", "harness ended without DONE " + r.err[-300:])
    return None


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def pick_scratch():
    for base in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > (3 << 30) or base == "/tmp":
                return tempfile.mkdtemp(prefix="vf.", dir=base)
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="vf.")


def write_replay(pid, job, r, kind, sig, text):
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    a = dict(job.args)
    desc = r.case or r.at
    if desc:
        for kv in desc.split():
            k, e, v = kv.partition("=")
            if e and re.fullmatch(r"\w+", k):
                a[k] = v
    h = sha(pid, job.target, json.dumps(a, sort_keys=True), sig)[:10]
    path = os.path.join(VERIF, "replay", "%s-%s.json" % (pid, h))
    json.dump(dict(property=pid, target=job.target, args=a, env=job.env, timeout=job.timeout, kind=kind, signature=sig,
                   text=text, case=desc, log=r.log[-60:], stderr=r.err[-6000:]), open(path, "w"), indent=1)
    return path


def run_all(jobs, bins, scratch, stop, on_result):
    """runs the jobs on all cores, in order; weight = how many cores a job takes"""
    cond = threading.Condition()
    free = [NCPU]
    threads = []

    def one(j, w):
        try:
            r = run_job(j, bins, scratch)
            c = classify(r)
            if c and c[0] == "hang" and not stop.is_set():
                r2 = run_job(j, bins, scratch, timeout=j.timeout * 1.5)  # once more before believing it
                c2 = classify(r2)
                r, c = r2, c2
            elif c and re.search(r"SIGBUS|sigbus|^hang", c[1]) and not stop.is_set():
                # an exhausted scratch directory or an overloaded machine looks the same: the job is deterministic, so ask again
                time.sleep(3)
                r2 = run_job(j, bins, scratch)
                r, c = r2, classify(r2)
            elif c and c[0] == "harness" and not stop.is_set():
                r2 = run_job(j, bins, scratch)
                c2 = classify(r2)
                if not c2:
                    r, c = r2, c2
            on_result(j, r, c)
        except Exception as e:
            r = Result()
            on_result(j, r, ("harness", "driver", repr(e)))
        finally:
            with cond:
                free[0] += w
                cond.notify_all()

    for j in jobs:
        w = min(j.weight, NCPU)
        with cond:
            while free[0] < w and not stop.is_set():
                cond.wait(1)
            if stop.is_set():
                break
            free[0] -= w
        t = threading.Thread(target=one, args=(j, w), daemon=True)
        t.start()
        threads.append(t)
    for t in threads:
        t.join()


def check(pid):
    from vfconf import CHECKS
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ck = CHECKS[pid]
    known = [k for k in load_known() if k["property"] == pid and k.get("status", "known") == "known"]
    known_sigs = {k["signature"]: k for k in known}
    # observed on the way by a check of another property: that property's own check reports it
    elsewhere = {k["signature"] for k in load_known() if k.get("status", "known") == "known"} - set(known_sigs)
    jobs = ck["jobs"](tier, seed)
    try:
        bins = build([j.target for j in jobs])
    except BuildError as e:
        print("cannot build the library with the harness:\n" + str(e))
        return 2
    tb = time.time() - t0
    scratch = pick_scratch()
    lock = threading.Lock()
    stop = threading.Event()
    agg = Result()
    agg.jobs = 0
    viol, harness, kf = [], [], {}

    def on_result(j, r, c):
        with lock:
            agg.jobs += 1
            for k, v in r.counts.items():
                agg.counts[k] = agg.counts.get(k, 0) + v
            for s in r.samples:
                if len(agg.samples) < 12 or (hash(s) % 37 == 0 and len(agg.samples) < 24):
                    agg.samples.append(s)
            agg.hashes |= r.hashes
            for s, t in r.findings:
                if s in known_sigs:
                    kf.setdefault(s, t)
                elif s not in elsewhere:
                    viol.append((j, r, "finding", s, t))
            if c:
                if c[0] == "harness":
                    harness.append((j, c))
                elif c[1] in known_sigs:
                    kf.setdefault(c[1], c[2])
                else:
                    viol.append((j, r) + c)
            if viol:
                stop.set()

    def on_term(*_):
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(9)

    signal.signal(signal.SIGTERM, on_term)
    try:
        run_all(jobs, bins, scratch, stop, on_result)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    rc = 0
    for s, t in sorted(kf.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, s, known_sigs[s]["what"]))
    seen = set()
    for j, r, kind, s, t in viol:
        if (s, kind) in seen and len(seen) > 0:
            continue
        seen.add((s, kind))
        path = write_replay(pid, j, r, kind, s, t)
        print("%s: %s %s\n  case: %s %s" % (kind, s, t[:600], j.target, r.case or r.at or j.args))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    req = ck.get("require", {})
    if not rc:
        if harness:
            j, c = harness[0]
            print("harness error (%d jobs): %s %s: %s" % (len(harness), j.target, j.args, c[2]))
            rc = 3
        else:
            for k, v in req.items():
                if agg.counts.get(k, 0) < v:
                    print("the workload did not exercise what it must: %s = %d < %d" % (k, agg.counts.get(k, 0), v))
                    rc = 3
    ev = dict(property=pid, tier=tier, seed=seed, level=ck.get("level", "exploration"),
              coverage=dict(evaluations=int(agg.counts.get(ck.get("evals", "evaluations"), 0)),
                            distinct_nontrivial=len(agg.hashes), rule=ck["rule"], samples=agg.samples[:24],
                            jobs=agg.jobs, flavours=sorted(set(j.target for j in jobs)),
                            observed={k: agg.counts[k] for k in sorted(agg.counts)},
                            known_findings=sorted(kf)),
              assumptions=ck.get("assumptions", []), wall_s=round(time.time() - t0, 1), build_s=round(tb, 1),
              violations=len(seen))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s %s: %s; %d evaluations, %d distinct, %d jobs, build %.0fs, total %.0fs" %
          (pid, tier, "VIOLATED" if rc == 1 else "held" if rc == 0 else "error", ev["coverage"]["evaluations"],
           len(agg.hashes), agg.jobs, tb, time.time() - t0))
    return rc


def replay(path):
    d = json.load(open(path))
    bins = build([d["target"]])
    scratch = pick_scratch()
    j = Job(d["target"], d["args"], d.get("env"), d.get("timeout", 150))
    try:
        for i in range(int(os.environ.get("VF_TRIES", "5"))):
            r = run_job(j, bins, scratch)
            c = classify(r)
            f = [x for x in r.findings if x[0] == d["signature"]]
            if c or f:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for l in r.log[-60:]:
        print("  " + l)
    print(r.err[-3000:])
    if c and c[0] == "harness":
        print("harness error:", c[2])
        return 3
    if c or f:
        print("%s" % (c or f,))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("the case passes")
    return 0


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "check":
        return check(a[1])
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if a and a[0] == "build":
        t = a[1:]
        if not t:
            from vfconf import CHECKS
            t = sorted({j.target for c in CHECKS.values() for j in c["jobs"]("quick", 1)})
        for k, v in build(t).items():
            print(k, v)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.modules["vf"] = sys.modules["__main__"]
    sys.exit(main())
