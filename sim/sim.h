// Shared definitions: plans, history records, shared memory between the runner and a lifetime.
#pragma once
#include "simfs.h"
#include <functional>
#include <set>

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool p(double q) { return (double)(next() >> 11) / 9007199254740992.0 < q; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plans
struct Op {
    std::string k;                  // operation name
    int slot = 0;                   // client file descriptor slot
    int64_t a = 0, b = 0, c = 0;    // offset/size/flags...
    std::string p, q;               // paths or command text
};
struct SFault {                     // injected system call fault
    std::string call;               // pread pwrite pwritev ftruncate open lstat fsync unlink rename link ...
    int nth = 1;                    // the n-th such call made while serving requests
    int count = 1;                  // how many consecutive ones
    int err = 0;                    // errno, or 0 for a short transfer
    int64_t shortn = 0;             // bytes transferred when err == 0
};
struct Life {
    std::vector<std::vector<Op>> clients;
    int64_t kill_step = -1;         // external SIGKILL at that scheduler step
    std::vector<SFault> faults;
    std::string policy = "seq";     // seq | rw | pct | list
    double rwp = 0;
    int pctd = 0, pctk = 0;
    uint64_t sseed = 0;
    int stop = 0;                   // 1: orderly stop (unmount) at the end, 2: the same without waiting for commands
    bool fine = false;              // also preempt at function boundaries, not only at synchronisation and system calls
    std::vector<std::pair<uint64_t, int>> sched;    // explicit decisions (policy list)
};
struct Inj {                        // [[injection]] entry, raw key/value lines
    std::string type, file, op, timing, from, to;
    std::vector<int> persist, parts_bytes;
    int occurrence = 1, parts = -1;
    bool crash = false;
    int omit = 0;                   // 1: leave out a mandatory key (invalid on purpose)
};
struct Plan {
    uint64_t seed = 0;
    std::string profile;
    int block = 64, bpp = 1, pages = 400;
    bool evict = false, logall = false, done_fifo = false, exact = true;
    bool simple_cfg = false;
    int simple_kb = 0;
    int max_write = 1 << 17;
    int64_t bigwin = 0, bigshift = 0;   // file offsets from bigwin on lie bigshift further for LazyFS and its backing files
    bool page_split = false;        // kernel-like first partial page split
    int inoreuse = 1;
    bool nodtype = false;       // directory entries carry no type (DT_UNKNOWN), as on some file systems
    std::vector<Inj> injs;
    std::vector<Life> lives;
    std::vector<std::string> pre;   // pre-existing backing files: "path size seed"
    std::string size_text;          // [cache.simple] custom_size as written
    std::string logfile, fifo = "/simfifo/faults.fifo", done = "/simfifo/done.fifo", cfgpath = "/simcfg/lazyfs.toml";
    bool logfile_ok = true;         // the log file can be created
    bool checkcfg = false;          // judge log lines, log file, arguments
    int tomlvar = 0;                // variant of the layout of the configuration file
    std::vector<std::string> args;  // command line, empty: the usual one
    std::vector<std::string> argv() const;
    bool live = false;              // judge progress, survival and descriptors only (faults of every kind under concurrency)
    bool strict = false;            // judge the regions of known findings too
    std::string expect;             // replay files: violation class expected
    std::string to_text() const;
    static bool from_text(const std::string& s, Plan& p, std::string& err);
    std::string toml() const;
    size_t nops() const { size_t n = 0; for (auto& l : lives) for (auto& c : l.clients) n += c.size(); return n; }
};

// ---------------------------------------------------------------- history
enum RecType : uint32_t {
    R_FINV = 1,     // FUSE request starts      ints: id kind a b c fh hasfi ; strs: path path2 data
    R_FRET,         // FUSE request returns     ints: id ret [stat...] ; strs: data
    R_DISK,         // mutation of the backing disk
    R_CMDW,         // bytes written to the faults FIFO by the harness
    R_FIFORB,       // worker calls read() on the FIFO     ints: consumed so far
    R_FIFORD,       // worker's read() returned            ints: n
    R_DONE,         // bytes written to the completion FIFO
    R_LOG,          // log line
    R_SFAULT,       // injected syscall fault  ints: index err ; strs: call
    R_KILL,         // process killed itself   ints: sig
    R_SYNC,         // quiescent point (no request in progress)
    R_SCHED,        // scheduling decision     ints: index fiber
    R_CMDDONE,      // the harness saw its command finished (sequential mode)
    R_NOTE,         // ints..., strs...
    R_LOGF,         // line that reached the log file
    R_CLIENT,       // client-level (system call) result: ints: client idx ret ; strs: data
};
enum FKind : int {
    F_GETATTR = 1, F_READDIR, F_OPEN, F_CREATE, F_READ, F_WRITE, F_FSYNC, F_TRUNCATE, F_UNLINK, F_RENAME, F_LINK,
    F_SYMLINK, F_READLINK, F_MKDIR, F_RMDIR, F_CHMOD, F_CHOWN, F_UTIMENS, F_ACCESS, F_LSEEK, F_RELEASE
};
extern const char* fkind_name[];
enum DKind : int {
    D_OPEN = 1, D_PWRITE, D_TRUNC, D_UNLINK, D_RMDIR, D_MKDIR, D_SYMLINK, D_LINK, D_RENAME, D_CHMOD, D_CHOWN,
    D_UTIMENS, D_OPENREF, D_UNREF, D_UTIMENSI
};
struct Rec {
    uint32_t type = 0;
    int fiber = 0;
    uint64_t step = 0;
    int64_t t = 0;                  // simulated wall clock, ns
    std::vector<int64_t> i;
    std::vector<std::string> s;
};
enum EndReason : int { E_NONE = 0, E_DONE, E_KILLED, E_SELFKILL, E_SIGNAL, E_DEADLOCK, E_STEPS, E_EXIT, E_HARNESS, E_CPU, E_STOP };
struct Shm {
    volatile int end;
    volatile int sig;
    volatile uint64_t len;
    volatile uint64_t steps;
    volatile uint64_t decisions;
    volatile uint64_t switches;
    volatile uint64_t schedhash;
    volatile int64_t simns;
    volatile int overflow;
    volatile uint64_t ncalls[32];
    char msg[4096];
    char hist[1];
};
extern Shm* g_shm;
extern size_t g_hist_max;
void hist_put(const Rec& r);
std::vector<Rec> hist_get();

std::string payload(uint64_t uid, size_t n, uint64_t off);

// child side: execute one lifetime, never returns
void run_lifetime(const Plan& plan, size_t life, SimFs disk);

// oracle
struct Violation {
    std::string cls, msg;
    bool ok() const { return cls.empty(); }
};
struct RunStats {
    uint64_t steps = 0, decisions = 0, switches = 0, fuse_ops = 0, disk_muts = 0, lives = 0, kills = 0, selfkills = 0, sfaults = 0,
             clears = 0, ckpts = 0, wgl = 0, wgl_nodes = 0, inconclusive = 0, fired = 0, cmds = 0, lossy = 0;
    int64_t simns = 0;
    std::map<std::string, uint64_t> probes;
    std::set<uint64_t> states;
    uint64_t trace_hash = 0;
    bool nontrivial = false;
};
struct RunResult {
    Violation v;
    RunStats st;
    std::vector<std::vector<std::pair<uint64_t, int>>> sched;   // recorded decisions per lifetime
    uint64_t hash = 0;
    std::string narrative;
};
RunResult run_plan(const Plan& p, bool verbose);
Plan gen_plan(const std::string& profile, uint64_t seed);
std::vector<std::string> profiles();
