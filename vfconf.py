"""What each check runs. Case ranges, never seconds, bound every run."""
from vf import Job

WRAP = ["-Wl," + ",".join("--wrap=" + f for f in (
    "pwrite64 pwritev64 write writev msync fdatasync fsync ftruncate64 posix_fallocate64 copy_file_range sendfile64 "
    "open64 read pread64 mmap64 mremap munmap madvise mincore mlock fcntl64 fstat64 fstatfs64 stat64 unlink").split())]
ALLOC = ["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc posix_memalign".split())]

PROGS = {
    "fault": dict(src=["vf", "audit", "wrap", "wrap_alloc", "fault"], link=WRAP + ALLOC),
    "fuzz": dict(src=["vf", "audit", "fuzz", "fuzz_main", "fuzz_ops2", "fuzz_ops3"]),
    "crash": dict(src=["vf", "audit", "wrap", "crash"], link=WRAP),
    "stress": dict(src=["vf", "audit", "stress"]),
    "tools": dict(src=["vf", "audit", "tools"], lib=["mdbx.c"] + ["mdbx_%s.c" % t for t in (
        "dump", "load", "stat", "chk", "copy", "drop", "defrag")]),
    "names": dict(src=["vf", "names"]),
    "procs": dict(src=["vf", "audit", "procs"]),
    "steady": dict(src=["vf", "audit", "steady"]),
    "keys": dict(src=["vf", "keys"]),
    "cxx": dict(lib=["mdbx.c", "mdbx.c++"], libflags=["-DMDBX_BUILD_CXX=1"], src=["vf", "cxx"]),
    "damage": dict(src=["vf", "audit", "damage"]),
}

CHECKS = {}


def chunks(target, n, size, args, seed, env=None, timeout=150, weight=1, base=0):
    r = []
    for i in range(base, base + n, size):
        a = dict(args)
        a.update(seed=seed, first=i, n=min(size, base + n - i))
        r.append(Job(target, a, env, timeout, weight))
    return r


def fuzz_jobs(profile, nchk, nplain, nasan=0, size=25, thorough=15, **extra):
    def f(tier, seed):
        k = thorough if tier == "thorough" else 1
        a = dict(profile=profile, **extra)
        r = chunks("fuzz:chk", nchk * k, size, a, seed)
        r += chunks("fuzz:plain", nplain * k, size, a, seed + 500000)
        if nasan:
            r += chunks("fuzz:asan" if tier == "thorough" else "fuzz:asan0", nasan * k, 10, a, seed + 700000, timeout=300)
        return r
    return f


FUZZ_RULE = ("a case is one random history (environment options, tables with random flags/key and value shapes, "
             "1..n transactions of random operations mirrored in a reference model, an independent audit of the file "
             "after commits); a case is non-trivial when its final contents are non-empty, distinct by the hash of them")

MODEL = "reference-model monitor over random operation histories"
NOTE_FUZZ = ("Every result code, returned byte and final table content of each generated history is compared with an "
             "independent reference model, in assertion-enabled, plain and sanitizer builds; nothing is proved beyond the "
             "histories run. Trusts the model, the auditor and the compiler.")


def fuzz_check(pid, nchk, nplain, nasan=40, require=None, **kw):
    CHECKS[pid] = dict(jobs=fuzz_jobs(pid, nchk, nplain, nasan), rule=FUZZ_RULE, technique=MODEL, note=NOTE_FUZZ,
                       require={"cases": nchk, **(require or {})}, **kw)


fuzz_check("C01", 3000, 1500)
fuzz_check("C02", 5000, 3000)
fuzz_check("C03", 4000, 2500)
fuzz_check("C04", 5000, 3000)
fuzz_check("C05", 5000, 3000)
fuzz_check("C11", 1600, 800)
fuzz_check("C23", 2000, 2000)
fuzz_check("C16", 1200, 1200, require={"copies": 5000, "copies_compact": 2000, "copies_while_writing": 500})
fuzz_check("C18", 2500, 1500, require={"geo_changes": 5000, "map_full": 2000, "deletes_after_full": 5000})
fuzz_check("C25", 1400, 900, require={"defrags": 5000, "defrag_shrunk_pages": 50000})
fuzz_check("C29", 1000, 700, require={"chk_quiet": 4000})
fuzz_check("C24", 3000, 1500)
fuzz_check("C26", 2000, 1500)
fuzz_check("C30", 2500, 1500)
fuzz_check("C31", 3000, 1500)
fuzz_check("C33", 2000, 1000)


def c13_jobs(tier, seed):
    k = 15 if tier == "thorough" else 1
    t = "fuzz:asan" if k > 1 else "fuzz:asan0"
    r = []
    for i, prof in enumerate(["C13", "C01", "C02", "C03", "C04", "C05", "C11"]):
        n = (500 if prof == "C13" else 120) * k
        r += chunks(t, n, 10, dict(profile=prof), seed + 1000 * i, timeout=300)
    return r


CHECKS["C13"] = dict(jobs=c13_jobs, rule=FUZZ_RULE, require={"cases": 400},
                     technique="AddressSanitizer + LeakSanitizer + UBSan over random operation histories",
                     note="No sanitizer report, leak, crash or internal assertion in the histories run; says nothing about histories not run.")

STRESS_RULE = ("a case is one shared database worked on by 1..4 processes of 2..5 threads each (random modes, page sizes and "
               "tables) where every operation is recorded against a ring of committed-snapshot digests in shared memory; "
               "non-trivial and distinct: a (snapshot, schedule position) pair some reader verified item by item")
STRESS = "online checker of snapshot and writer serialisation over concurrent multi-process, multi-thread stress"
NOTE_STRESS = ("Explores the schedules the kernel and the injected delays produce, in plain, assertion-enabled and jittered "
               "builds; a run says nothing about schedules not seen. On a failure the printed seed reproduces the "
               "workload, not the exact interleaving.")


def stress_jobs(mode, nplain, nchk, ndbg, nasan=0, size=4, kills=0):
    def f(tier, seed):
        k = 12 if tier == "thorough" else 1
        a = dict(mode=mode)
        if kills:
            a["kills"] = kills
        r = chunks("stress:plain", nplain * k, size, a, seed, weight=2)
        if mode == "C07":
            r[0].args["nosticky"] = 1
        r += chunks("stress:chk", nchk * k, size, a, seed + 100000, weight=2)
        r += chunks("stress:dbg", ndbg * k, 2, dict(a, jitter=1), seed + 200000, weight=2, timeout=300)
        if nasan:
            r += chunks("stress:asan" if k > 1 else "stress:asan0", nasan * k, 2, a, seed + 300000, weight=2, timeout=300)
        return r
    return f


def stress_check(pid, *a, require=None, **kw):
    CHECKS[pid] = dict(jobs=stress_jobs(pid, *a, **kw), rule=STRESS_RULE, technique=STRESS, note=NOTE_STRESS,
                       require=require or {"cases": 20})


stress_check("C06", 240, 240, 80, 40, require={"snapshots_verified": 2000, "commits": 1000})
stress_check("C07", 240, 240, 80, 40, require={"commits": 2000})
stress_check("C10", 160, 160, 50, kills=4, require={"kills": 150, "kills_in_writer": 20, "respawns": 50})
stress_check("C21", 240, 240, 80, 40, require={"parks": 500, "unpark_same": 100, "unpark_ousted": 20})


CRASH_RULE = ("a case is one random history of transactions run against a recording layer below libc; an evaluation is one image "
              "of the file as a crash at one recorded event may leave it, reopened and checked; non-trivial: the workload had "
              "committed something, distinct by the hash of the image")


def crash_jobs(mode, nplain, nchk, ndbg=0, size=4):
    def f(tier, seed):
        k = 12 if tier == "thorough" else 1
        a = dict(mode=mode)
        return (chunks("crash:plain", nplain * k, size, a, seed) + chunks("crash:chk", nchk * k, size, a, seed + 100000)
                + chunks("crash:dbg", ndbg * k, size, a, seed + 200000))
    return f


CHECKS["C08"] = dict(jobs=crash_jobs("C08", 240, 160), rule=CRASH_RULE, require={"cases": 200, "evaluations": 8000},
                     technique="fault-injecting monitor at the libc boundary: crash images with lost, torn and reordered writes, recovered and compared with the model",
                     note="Every write, store into the map and flush of each workload is recorded below libc; images of chosen crash points "
                          "keep random subsets of what was not yet flushed, and recovery is judged by the model and an independent audit. "
                          "Explores generated histories and sampled subsets only.")

CHECKS["C09"] = dict(jobs=crash_jobs("C09", 240, 160, 40), rule=CRASH_RULE, require={"cases": 300, "evaluations": 8000, "commits_nosync": 500, "commits_nometasync": 200},
                     technique=CHECKS["C08"]["technique"],
                     note=CHECKS["C08"]["note"].replace("recovery is judged", "after histories mixing weakened sync modes recovery is judged"))

_c10 = CHECKS["C10"]["jobs"]
CHECKS["C10"]["jobs"] = lambda tier, seed: _c10(tier, seed) + crash_jobs("C10", 200, 120, 60)(tier, seed)
CHECKS["C10"]["note"] += (" A second workload kills the writer at every recorded store and system call and checks the file as left "
                          "in the shared mapping.")


def c14_jobs(tier, seed):
    k = 12 if tier == "thorough" else 1
    r = []
    for i, m in enumerate(["C06", "C07", "C21", "C23"]):
        r += chunks("stress:tsan", 30 * k, 3, dict(mode=m, tsan=1, procs=1), seed + 1000 * i, timeout=300, weight=2)
    return r


CHECKS["C14"] = dict(jobs=c14_jobs, rule=STRESS_RULE, require={"cases": 60, "commits": 500},
                     technique="ThreadSanitizer over multi-thread stress of one shared environment handle",
                     note="No race report in the schedules run; words the library shares on purpose without ordering are "
                          "compiled volatile (MDBX_VF_TSAN) and count as atomics.")

_c23 = CHECKS["C23"]["jobs"]
CHECKS["C23"]["jobs"] = lambda tier, seed: _c23(tier, seed) + stress_jobs("C23", 40, 40, 10)(tier, seed)
CHECKS["C23"]["note"] += " Also checked concurrently: entries filled and refreshed by several threads and processes."

DAMAGE_RULE = ("a case is one valid file of random shape; an evaluation opens and uses one damaged variant of it (bytes, fields, "
               "page numbers, nodes, records, metas, length) in a process of its own; distinct by the hash of the damaged file")


def c15_jobs(tier, seed):
    k = 12 if tier == "thorough" else 1
    return (chunks("damage:plain", 300 * k, 10, {}, seed, timeout=300) + chunks("damage:asanp", 300 * k, 10, {}, seed + 100000, timeout=300))


CHECKS["C15"] = dict(jobs=c15_jobs, rule=DAMAGE_RULE, require={"cases": 500, "opened": 10000},
                     technique="AddressSanitizer, UBSan, signal and hang monitors over damaged files",
                     note="No crash, hang, abort, sanitizer report or read outside the file in the damaged variants tried; "
                          "says nothing about damage not generated.")

_c29 = CHECKS["C29"]["jobs"]
CHECKS["C29"]["jobs"] = lambda tier, seed: _c29(tier, seed) + chunks(
    "damage:plain", 400 * (12 if tier == "thorough" else 1), 10, dict(mode="C29"), seed + 900000, timeout=300)
CHECKS["C29"]["note"] += " Loudness is judged on files damaged so that the independent audit reports one of the listed kinds."
CHECKS["C29"]["require"]["opened"] = 4000

TOOLS_RULE = ("a case is one random database (tables, flags, shapes, sequences, markers, page sizes) put through the command line "
              "tools with random options; non-trivial when it has items, distinct by the hash of its contents")


def c17_jobs(tier, seed):
    k = 12 if tier == "thorough" else 1
    return (chunks("tools:plain", 480 * k, 10, {}, seed, timeout=300) + chunks("tools:asanp", 160 * k, 5, {}, seed + 100000, timeout=400))


CHECKS["C17"] = dict(jobs=c17_jobs, rule=TOOLS_RULE, require={"cases": 500, "round_trips": 500, "rescues": 100, "gc_infos": 500, "stats": 100, "plain_texts": 50},
                     technique="round trips of the real tools judged by a reference model and an independent file auditor",
                     note="Every produced file is parsed byte by byte and compared with the model of what was stored; says nothing about "
                          "contents and option combinations not generated. Tables beside plain rows of the main table, and table names "
                          "with control characters, are outside the dump format and not generated.")

NOT_APPLICABLE = {}


def c27_jobs(tier, seed):
    k = 20 if tier == "thorough" else 1
    r = chunks("keys:plain", 240 * k, 10, {}, seed) + chunks("keys:chk", 80 * k, 5, {}, seed + 1000) + chunks("keys:asanp", 40 * k, 4, {}, seed + 2000, timeout=300)
    # every float in key order: all of the 4096 slices, or a spread of them
    parts = 4096
    if tier == "thorough":
        r += chunks("keys:plain", parts, 128, dict(mode="floats", parts=parts), seed, timeout=300)
    else:
        for p in sorted({0, 1, 2047, 2048, 4094, 4095} | {(seed * 37 + i * 64) % parts for i in range(64)}):
            r += chunks("keys:plain", 1, 1, dict(mode="floats", parts=parts), seed, base=p)
    return r


CHECKS["C27"] = dict(jobs=c27_jobs, rule="a case is a set of numbers, strings and tables drawn with a bias to the edges; each number is counted once by its bits",
                     require={"comparisons": 100000, "neighbours": 10000, "double_pairs": 100000, "floats": 10000000, "json_truncations": 50000},
                     technique="comparison of the real conversions, comparators and iteration with plain references",
                     note="All floats in the thorough tier; doubles and 64-bit integers are sampled around every power of two and rounding tie.")


def c22_jobs(tier, seed):
    k = 12 if tier == "thorough" else 1
    return (chunks("names:plain", 8000 * k, 200, {}, seed) + chunks("names:chk", 2400 * k, 60, dict(nested=0), seed + 100000) +
            chunks("names:asanp", 600 * k, 30, {}, seed + 200000, timeout=300))


CHECKS["C22"] = dict(jobs=c22_jobs, rule="a case is one history of opening, creating, renaming, dropping, closing and using tables by nested write "
                     "transactions beside readers; distinct by the hash of the calls and of the names and handles they left",
                     require={"cases": 5000, "created": 20000, "renamed": 5000, "dropped": 10000, "refused_uses": 20000, "enumerations": 20000,
                              "aborts": 10000, "final_tables": 5000},
                     technique="online reference-model monitor of the namespace and the bindings of handles",
                     note="One thread; histories in which a table gets other flags under the same name run without concurrent transactions and are judged "
                          "only for contents and existence.")


def c12_jobs(tier, seed):
    k = 12 if tier == "thorough" else 1
    return (chunks("steady:plain", 400 * k, 10, {}, seed, timeout=300) + chunks("steady:chk", 64 * k, 4, {}, seed + 100000, timeout=300) +
            chunks("steady:asanp", 32 * k, 2, {}, seed + 200000, timeout=300))


CHECKS["C12"] = dict(jobs=c12_jobs, rule="a case is one database of constant live size under hundreds of small transactions, with readers, parked readers, "
                     "unsynced spells and reopenings; distinct by the hash of the used sizes seen",
                     require={"cases": 400, "txns": 200000, "phases": 1500, "held": 200, "long_values": 2000, "reopened": 100},
                     technique="online monitor of the used size against the live size, with page accounting by an independent auditor",
                     note="Bounds are a third of the size plus tens of pages in the steady state and a few pages after a reader has left; a slower "
                          "creep is caught only where it loses pages.")


def procs_jobs(mode, chk=True, **chkargs):
    def f(tier, seed):
        k = 12 if tier == "thorough" else 1
        a = {"ASAN_OPTIONS": "detect_leaks=0"}
        r = chunks("procs:plain", 900 * k, 30, dict(mode=mode), seed, timeout=400)
        if chk:
            r += chunks("procs:chk", 240 * k, 15, dict(mode=mode, **chkargs), seed + 100000, timeout=400)
        return r + chunks("procs:asanp", 120 * k, 8, dict(mode=mode), seed + 200000, env=a, timeout=400)
    return f


CHECKS["C20"] = dict(jobs=procs_jobs("C20", prep=0),
                     rule="a case is one random run of several processes with several threads each, which start, end, park, renew and abandon "
                          "readers, exit and get killed step by step; distinct by the hash of the steps",
                     require={"cases": 600, "readers": 30000, "lists": 10000, "listed": 80000, "listed_dead": 1000, "full": 500, "thread_exits": 400,
                              "kills": 800, "callbacks": 2000, "verdict_aborted": 500, "verdict_killed": 200, "parked": 500, "dead_checks": 1000},
                     technique="deterministic stepping of several processes with kills and thread exits; every listing of readers compared with an exact "
                               "model of who reads what, and slow-reader callbacks with what blocks recycling; ASan, library assertions",
                     note="Steps of the processes are serialised by the driver, so races between two registrations are left to the stress checks "
                          "(C06, C07, C21).")

CHECKS["C34"] = dict(jobs=procs_jobs("C34"),
                     rule="a case is one random run of several processes opening and closing one database in random modes, with kills, beside the "
                          "contents acknowledged so far; distinct by the hash of the steps",
                     require={"cases": 600, "opens_ro": 3000, "opens_rw": 5000, "opens_excl": 60, "busy_opens": 2500, "incompatible": 1000,
                              "contents_checked": 9000, "frozen_checks": 3000, "audits": 80, "killed_writers": 250, "refused": 2500, "commits": 3000},
                     technique="deterministic stepping of several processes; answers of every opening judged by a model of the modes in use, the data "
                               "file compared byte for byte around read-only use, contents compared with the committed ones; ASan, library assertions",
                     note="A holder in read-only exclusive mode can not keep other read-only openers out on POSIX (no write lock on a read-only file), "
                          "so that pair is accepted.")

CHECKS["C32"] = dict(jobs=procs_jobs("C32", chk=False),
                     rule="a case is one random run of several processes which fork with open transactions; the children use, end, close or resurrect "
                          "what they inherited, exit or get killed; distinct by the hash of the steps",
                     require={"cases": 600, "forks": 6000, "resurrected": 2000, "child_actions": 7000, "child_closes": 700, "child_exits": 700,
                              "snapshot_checks": 25000, "lists": 12000, "inherited_ended": 300, "commits": 1000},
                     technique="deterministic stepping of forking processes; the parent's snapshots, listings, locks and the contents re-checked against "
                               "the model after every step of a child; ASan",
                     note="A child which crashes on memory it was told not to inherit counts as refused; assertions of the library are not enabled "
                          "since the children misuse it on purpose.")


def c19_jobs(tier, seed):
    k = 12 if tier == "thorough" else 1
    a = {"ASAN_OPTIONS": "detect_leaks=0"}
    return (chunks("fault:plain", 720 * k, 12, {}, seed, timeout=400) + chunks("fault:chk", 144 * k, 6, {}, seed + 100000, timeout=400) +
            chunks("fault:dbg", 72 * k, 6, {}, seed + 200000, timeout=400) +
            chunks("fault:asan", 96 * k, 3, {}, seed + 300000, env=a, timeout=400))


CHECKS["C19"] = dict(jobs=c19_jobs, rule="a case is one random script of API calls run first undisturbed and then many times with allocations or "
                     "system calls of one kind failing once, in a run or for good; distinct by the script and the calls which failed",
                     require={"cases": 300, "variants": 10000, "injected": 50000, "errors": 50000, "resumed": 15000, "snapshots": 1000,
                              "commits": 20000, "failed_commits": 1500, "faults_alloc": 800, "faults_write": 500, "faults_sync": 700,
                              "faults_resize": 700, "faults_map": 700, "faults_lock": 700, "faults_open": 700},
                     technique="fault injection at the libc boundary, judged by a reference model, an independent reader of the file and sanitizers",
                     note="Failures are injected by wrapped libc calls; failures of munmap, unlink and thread creation are not. Errors of a lock call "
                          "are not combined with several processes.")
