#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree.

The repository's own translation units are compiled unchanged (main renamed by -Dmain=lazyfs_main),
linked into one relocatable object, and every libc/pthread/libstdc++-thread/libfuse symbol they use that
can observe or cause nondeterminism is redirected to the simulator's sim_* implementation.  No source
hook is needed in /repo.  Results are cached by content hash below /verif/build (git-ignored).
"""
import hashlib, os, subprocess, sys, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LFS_REPO", "/repo")
BUILD = os.environ.get("LFS_BUILD", os.path.join(VERIF, "build"))

RENAME = {
    # pthread
    **{s: "sim_" + s for s in """pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock pthread_mutex_init
    pthread_mutex_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock
    pthread_rwlock_timedrdlock pthread_rwlock_timedwrlock pthread_rwlock_unlock pthread_rwlock_init pthread_rwlock_destroy
    pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_cond_init
    pthread_cond_destroy pthread_self
    clock_gettime gettimeofday time nanosleep clock_nanosleep usleep sleep sched_yield
    open64 openat64 creat64 close pread64 pwrite64 pwritev64 pwritev64v2 preadv64 read write writev readv ftruncate64 truncate64
    posix_fallocate64 fallocate64 fsync fdatasync syncfs sync_file_range sync lstat64 stat64 fstat64 fstatat64 unlink unlinkat remove
    rmdir mkdir symlink link linkat rename renameat renameat2 chmod fchmodat lchown chown utimensat futimens futimes utimes lutimes access
    faccessat readlink lseek64 opendir readdir64 closedir rewinddir dirfd statvfs64 mkfifo mknod dup fcntl64 flock
    getpid kill raise tgkill exit abort syscall fwrite fwrite_unlocked fflush fopen64 fclose printf puts putchar
    fuse_get_context fuse_main_real fuse_exit""".split()},
    "open": "sim_open64", "openat": "sim_openat64", "creat": "sim_creat64", "pread": "sim_pread64", "pwrite": "sim_pwrite64",
    "pwritev": "sim_pwritev64", "pwritev2": "sim_pwritev64v2", "preadv": "sim_preadv64", "ftruncate": "sim_ftruncate64",
    "truncate": "sim_truncate64", "posix_fallocate": "sim_posix_fallocate64", "fallocate": "sim_fallocate64", "lstat": "sim_lstat64",
    "stat": "sim_stat64", "fstat": "sim_fstat64", "fstatat": "sim_fstatat64", "lseek": "sim_lseek64", "readdir": "sim_readdir64",
    "statvfs": "sim_statvfs64", "fcntl": "sim_fcntl64", "fopen": "sim_fopen64", "_exit": "sim__exit", "_Exit": "sim__exit", "quick_exit": "sim__exit",
    "_ZNSt13basic_filebufIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode": "sim_filebuf_open",
    **{"_ZNSt14basic_%sIcSt11char_traitsIcEEC%d%s" % (t, k, a): "sim_%s_ctor%s" % (t, c) for t in ("ifstream", "ofstream") for k in (1,)
       for a, c in (("ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode", ""), ("EPKcSt13_Ios_Openmode", "c"))},
    "__printf_chk": "sim_printf",
    **{s: "sim_xattr" for s in "setxattr lsetxattr fsetxattr getxattr lgetxattr fgetxattr listxattr llistxattr flistxattr removexattr lremovexattr fremovexattr".split()},
    "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE": "sim_thread_start",
    "_ZNSt6thread4joinEv": "sim_thread_join", "_ZNSt6thread6detachEv": "sim_thread_detach",
    "_ZNSt6chrono3_V212system_clock3nowEv": "sim_system_clock_now", "_ZNSt6chrono3_V212steady_clock3nowEv": "sim_steady_clock_now",
    "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE": "sim_cv_wait",
    "_ZNSt18condition_variable10notify_oneEv": "sim_cv_notify_one", "_ZNSt18condition_variable10notify_allEv": "sim_cv_notify_all",
}
RACE_RENAME = {**{s: "simr_" + s for s in "memcpy memmove memset memcmp free".split()}, "__cxa_guard_acquire": "simr_guard_acquire",
               "__cxa_guard_release": "simr_guard_release", "__cxa_guard_abort": "simr_guard_abort"}
CXX = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-U_FORTIFY_SOURCE", "-D_FILE_OFFSET_BITS=64"]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


def repo_sources():
    out = sorted(glob.glob(REPO + "/lazyfs/src/*.cpp"))
    for root, _, files in os.walk(REPO + "/libs/libpcache/src"):
        out += [os.path.join(root, f) for f in files if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(out)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def headers():
    out = []
    for d in (REPO + "/lazyfs/include", REPO + "/libs/libpcache/include"):
        for root, _, files in os.walk(d):
            out += [os.path.join(root, f) for f in files]
    return out


def build(variant="plain", log=sys.stderr):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:      # released on errors too
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(variant, log)


def _build(variant, log):
    extra = {"plain": [], "race": [], "asan": ["-fsanitize=address", "-fno-omit-frame-pointer"]}[variant]
    rename = dict(RENAME, **(RACE_RENAME if variant == "race" else {}))
    simsrc = sorted(glob.glob(VERIF + "/sim/*.cpp"))
    simhdr = sorted(glob.glob(VERIF + "/sim/*.h"))
    me = os.path.abspath(__file__)
    hh = tree_hash(headers())
    srcs = repo_sources()
    key = tree_hash(srcs + headers() + simsrc + simhdr + [me]) + "-" + variant
    exe = os.path.join(BUILD, "lfsim-" + key)
    if os.path.exists(exe):
        return exe
    odir = os.path.join(BUILD, "obj-" + variant)
    os.makedirs(odir, exist_ok=True)
    jobs = []

    def compile_one(src, flags, dep):
        h = hashlib.sha256((src + repr(flags) + dep + tree_hash([src])).encode()).hexdigest()[:20]
        o = os.path.join(odir, os.path.basename(src).replace(".cpp", "") + "-" + h + ".o")
        if not os.path.exists(o):
            run(CXX + extra + flags + ["-c", src, "-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
        return o
    rflags = ["-fno-gnu-unique", "-DSPDLOG_FMT_EXTERNAL", "-DFMT_HEADER_ONLY", "-Dmain=lazyfs_main", "-I" + REPO + "/lazyfs/include",
              "-I" + REPO + "/libs/libpcache/include", "-I/usr/include/fuse3", "-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/"]
    if variant == "race":
        rflags.append("-fsanitize=thread")      # instrumentation only: sim/race.cpp is the runtime
    sflags = (["-DLFSIM_RACE"] if variant == "race" else []) + ["-O2", "-I" + VERIF + "/sim", "-I/usr/include/fuse3"]
    sdep = tree_hash(simhdr)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        # biggest first
        fr = [ex.submit(compile_one, s, rflags, hh) for s in sorted(srcs, key=lambda s: -os.path.getsize(s))]
        fsim = [ex.submit(compile_one, s, sflags, sdep) for s in simsrc]
        robj = [f.result() for f in fr]
        sobj = [f.result() for f in fsim]
    tmp = os.path.join(BUILD, "tmp-" + key)
    os.makedirs(tmp, exist_ok=True)
    try:
        comb = os.path.join(tmp, "lfs.o")
        run(["ld", "-r", "--force-group-allocation", "-o", comb] + robj)
        syms = os.path.join(tmp, "syms")
        with open(syms, "w") as f:
            seen = {}
            defs = []
            for a, b in rename.items():
                if b in seen:       # objcopy wants distinct targets: alias at link time
                    defs.append("-Wl,--defsym=sima_%s=%s" % (a, b))
                    b = "sima_" + a
                seen[b] = 1
                f.write("%s %s\n" % (a, b))
            f.write("_Z11lazyfs_mainiPPc lazyfs_entry\n")
        red = os.path.join(tmp, "lfs2.o")
        run(["objcopy", "--redefine-syms=" + syms, comb, red])
        run(["objcopy", "--keep-global-symbol=lazyfs_entry", red])
        run(["g++"] + extra + ["-no-pie", "-o", exe + ".tmp"] + sobj + [red, "-lpthread"] + defs)
        os.rename(exe + ".tmp", exe)
        for old in glob.glob(BUILD + "/lfsim-*"):
            if old != exe and not old.endswith(".tmp") and old.endswith("-" + variant):
                os.unlink(old)
        und = run(["nm", "-u", red]).split()
        risky = [s for s in und if s in ("fork", "vfork", "pthread_create", "select", "poll", "epoll_wait", "rand", "random", "getrandom", "mmap", "mmap64")]
        if risky:
            print("build: note: repository uses unsimulated symbols: %s" % risky, file=log)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"))
