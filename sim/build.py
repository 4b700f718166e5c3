#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree (and /verif/sim) into /verif/build."""
import concurrent.futures, hashlib, os, re, subprocess, sys, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("INNC_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
SUTFLAGS = ("-std=c++20 -O1 -g1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-strict-aliasing "
            "-include algorithm -D_GLIBCXX_ASSERTIONS=1 -w").split() + ["-I" + os.path.join(REPO, "include"), "-I" + SIM]
RTFLAGS = "-std=c++20 -O2 -g1 -w".split() + ["-I" + SIM]
REN = {"malloc": "sim_malloc", "calloc": "sim_calloc", "realloc": "sim_realloc", "free": "sim_free",
       "memcpy": "sim_memcpy", "memmove": "sim_memmove", "memset": "sim_memset", "memcmp": "sim_memcmp",
       "pthread_mutex_lock": "sim_mutex_lock", "pthread_mutex_trylock": "sim_mutex_trylock",
       "pthread_mutex_unlock": "sim_mutex_unlock", "pthread_mutex_destroy": "sim_mutex_destroy",
       "pthread_rwlock_rdlock": "sim_rwlock_rdlock", "pthread_rwlock_wrlock": "sim_rwlock_wrlock",
       "pthread_rwlock_tryrdlock": "sim_rwlock_tryrdlock", "pthread_rwlock_trywrlock": "sim_rwlock_trywrlock",
       "pthread_rwlock_unlock": "sim_rwlock_unlock", "pthread_once": "sim_once",
       "__cxa_guard_acquire": "sim_guard_acquire", "__cxa_guard_release": "sim_guard_release",
       "__cxa_guard_abort": "sim_guard_abort", "sched_yield": "sim_sched_yield", "nanosleep": "sim_nanosleep",
       "clock_nanosleep": "sim_clock_nanosleep", "usleep": "sim_usleep", "syscall": "sim_syscall",
       "aligned_alloc": "sim_aligned_alloc", "posix_memalign": "sim_posix_memalign",
       # clocks, entropy and identities
       "time": "sim_time", "clock": "sim_clock", "clock_gettime": "sim_clock_gettime", "gettimeofday": "sim_gettimeofday",
       "getpid": "sim_getpid", "gettid": "sim_gettid", "getrandom": "sim_getrandom", "getentropy": "sim_getentropy",
       "rand": "sim_rand", "random": "sim_random", "srand": "sim_srand", "srandom": "sim_srandom",
       "_ZNSt6chrono3_V212system_clock3nowEv": "sim_system_now", "_ZNSt6chrono3_V212steady_clock3nowEv": "sim_steady_now",
       "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE": "sim_rd_init",
       "_ZNSt13random_device9_M_getvalEv": "sim_rd_getval", "_ZNSt13random_device7_M_finiEv": "sim_rd_fini",
       "_ZNKSt13random_device13_M_getentropyEv": "sim_rd_entropy"}


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def files(root, exts):
    r = []
    for d, _, fs in os.walk(root):
        r += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return sorted(r)


def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr


def build():
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    repo_src = files(os.path.join(REPO, "src"), (".cpp", ".cc", ".cxx"))
    repo_all = repo_src + files(os.path.join(REPO, "include"), (".h", ".hpp", ".hh", ".tpp", ".inc", ".inl")) + files(os.path.join(REPO, "src"), (".h", ".hpp", ".hh", ".tpp", ".inc", ".inl"))
    sim_hdr = files(SIM, (".hpp",))
    jobs = []  # (source, object, flags, is_sut)
    key_repo = digest(repo_all, " ".join(SUTFLAGS) + str(REN))
    key_hdr = digest(sim_hdr, "")
    for s in repo_src:
        jobs.append((s, "sut-" + hashlib.sha256(s.encode()).hexdigest()[:8] + "-" + key_repo + ".o", SUTFLAGS, True))
    jobs.append((os.path.join(SIM, "sutapi.cpp"), "api-" + digest([os.path.join(SIM, "sutapi.cpp")], key_repo + key_hdr) + ".o", SUTFLAGS + ["-DHAVE_RNG"], True))
    for n in ("rt", "model", "prog", "exec", "gen", "scen", "main"):
        p = os.path.join(SIM, n + ".cpp")
        jobs.append((p, n + "-" + digest([p], key_hdr + " ".join(RTFLAGS)) + ".o", RTFLAGS, False))

    exe = os.path.join(OUT, "sim")
    stamp = os.path.join(OUT, "stamp")
    want = " ".join(j[1] for j in jobs)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
        return exe, None

    def comp(j):
        src, obj, flags, sut = j
        out = os.path.join(OUT, "obj", obj)
        if os.path.exists(out):
            return None
        tmp = out + ".tmp.o"
        rc, log = run(["g++"] + flags + ["-c", src, "-o", tmp])
        if rc and "-DHAVE_RNG" in flags:
            rc, log = run(["g++"] + [f for f in flags if f != "-DHAVE_RNG"] + ["-c", src, "-o", tmp])
        if rc:
            return "%s\n%s" % (src, log[-4000:])
        if sut:
            rc, log = run(["objcopy"] + ["--redefine-sym=%s=%s" % kv for kv in REN.items()] + [tmp])
            if rc:
                return log
        os.rename(tmp, out)
        return None

    jobs_order = sorted(jobs, key=lambda j: (not j[3], -os.path.getsize(j[0])))
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        errs = [e for e in ex.map(comp, jobs_order) if e]
    if errs:
        return None, "\n".join(errs)
    tmp = exe + ".tmp"
    objs = [os.path.join(OUT, "obj", j[1]) for j in jobs]
    rc, log = run(["g++", "-no-pie", "-o", tmp] + objs + ["-lpthread"])
    if rc:
        return None, log[-4000:]
    os.rename(tmp, exe)
    with open(stamp, "w") as f:
        f.write(want)
    keep = set(j[1] for j in jobs)
    for f in os.listdir(os.path.join(OUT, "obj")):
        if f not in keep:
            os.unlink(os.path.join(OUT, "obj", f))
    return exe, None


if __name__ == "__main__":
    e, err = build()
    if err:
        sys.stderr.write(err + "\n")
        sys.exit(2)
    print(e)
