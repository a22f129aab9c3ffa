// Child side of a simulated run: cooperative scheduler, lock/clock/system-call stubs, FIFO stub,
// the kernel+libfuse shim and the simulated clients.  Everything runs on one OS thread.
#define FUSE_USE_VERSION 35
#include "sim.h"
#include "race.h"
#include <fuse3/fuse.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cxxabi.h>
#include <deque>
#include <dirent.h>
#include <fstream>
#include <link.h>
#include <memory>
#include <mutex>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/single_threaded.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <thread>

extern "C" int lazyfs_entry(int argc, char** argv);

Shm* g_shm = nullptr;
size_t g_hist_max = 0;

// ------------------------------------------------------------------ history
static void put32(std::string& o, uint32_t v) { o.append((char*)&v, 4); }
static void put64(std::string& o, uint64_t v) { o.append((char*)&v, 8); }
[[noreturn]] static void finish(int reason, const std::string& msg);
void hist_put(const Rec& r) {
    std::string o;
    put32(o, 0); put32(o, r.type); put32(o, (uint32_t)r.fiber); put64(o, r.step); put64(o, (uint64_t)r.t);
    put32(o, (uint32_t)r.i.size());
    for (auto v : r.i) put64(o, (uint64_t)v);
    put32(o, (uint32_t)r.s.size());
    for (auto& s : r.s) { put32(o, (uint32_t)s.size()); o += s; }
    uint32_t L = (uint32_t)o.size();
    memcpy(&o[0], &L, 4);
    if (g_shm->len + L > g_hist_max) { g_shm->overflow = 1; finish(E_HARNESS, "history overflow"); }
    memcpy(g_shm->hist + g_shm->len, o.data(), L);
    g_shm->len += L;
}
std::vector<Rec> hist_get() {
    std::vector<Rec> out;
    uint64_t p = 0;
    while (p < g_shm->len) {
        const char* q = g_shm->hist + p;
        uint32_t L; memcpy(&L, q, 4);
        const char* e = q + 4;
        auto g32 = [&] { uint32_t v; memcpy(&v, e, 4); e += 4; return v; };
        auto g64 = [&] { uint64_t v; memcpy(&v, e, 8); e += 8; return v; };
        Rec r;
        r.type = g32(); r.fiber = (int)g32(); r.step = g64(); r.t = (int64_t)g64();
        uint32_t n = g32();
        for (uint32_t k = 0; k < n; k++) r.i.push_back((int64_t)g64());
        n = g32();
        for (uint32_t k = 0; k < n; k++) { uint32_t l = g32(); r.s.emplace_back(e, l); e += l; }
        out.push_back(std::move(r));
        p += L;
    }
    return out;
}
std::string payload(uint64_t uid, size_t n, uint64_t off) {
    std::string s(n, 0);
    for (size_t i = 0; i < n; i++) {
        uint64_t z = (uid * 1000003 + off + i) * 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ull;
        s[i] = (char)(1 + (z >> 33) % 255);
    }
    return s;
}

// ------------------------------------------------------------------ fibers
extern "C" void sim_switch(void** save, void* load);
asm(".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

struct Fiber {
    int id = 0;
    std::string name;
    void* sp = nullptr;
    int state = 0;   // 0 ready, 1 blocked, 2 done
    std::function<bool()> pred;
    std::string why;
    std::function<void()> fn;
    int err = 0;
    char eh[16] = {0};
    void* priv = nullptr;   // fuse_get_context()->private_data
    struct fuse_context ctx{};
    int64_t prio = 0;
    bool changed = false;   // changed the backing store since the last decision (policy pctm)
    int64_t curop = 0;
    std::string tls;        // thread_local variables while the fiber is not running
};
// the executable's thread-local storage block: every simulated thread has its own copy
static char* tls_at = nullptr; static size_t tls_len = 0; static std::string tls_image;
static void tls_init() {
    static int nobj; nobj = 0;
    dl_iterate_phdr([](struct dl_phdr_info* in, size_t, void*) {
        for (int i = 0; i < in->dlpi_phnum; i++)
            if (in->dlpi_phdr[i].p_type == PT_TLS) {
                auto& h = in->dlpi_phdr[i];
                size_t al = h.p_align ? h.p_align : 1;
                tls_len = h.p_memsz;
                char* fsb; asm("movq %%fs:0,%0" : "=r"(fsb));
                tls_at = fsb - (h.p_memsz + al - 1) / al * al;
                tls_image.assign((const char*)in->dlpi_addr + h.p_vaddr, h.p_filesz);
                tls_image.resize(h.p_memsz);
            }
        return 1;           // the first object is the executable
    }, nullptr);
    char* fsb; asm("movq %%fs:0,%0" : "=r"(fsb));
    race_stack(fsb - 16384, fsb + 4096);        // errno and friends
    // the C and C++ runtime's own variables (such as the character tables a locale fills on first use) are not the
    // repository's: the libraries see to their safety without locks this detector can know of
    dl_iterate_phdr([](struct dl_phdr_info* in, size_t, void* n) {
        if ((*(int*)n)++ == 0) return 0;
        for (int i = 0; i < in->dlpi_phnum; i++)
            if (in->dlpi_phdr[i].p_type == PT_LOAD && (in->dlpi_phdr[i].p_flags & PF_W)) {
                const char* b = (const char*)in->dlpi_addr + in->dlpi_phdr[i].p_vaddr;
                race_stack(b, b + in->dlpi_phdr[i].p_memsz);
            }
        return 0;
    }, &nobj);
}
static std::vector<std::unique_ptr<Fiber>> F;
static Fiber* cur = nullptr;
static bool g_running = false;
static const Plan* P = nullptr;
static const Life* L = nullptr;
static Rng srng(1);
static uint64_t g_step = 0, g_dec = 0, g_budget = 300000;
static std::map<uint64_t, int> g_list;
static std::set<uint64_t> g_change;
static int64_t g_lowprio = -1;
static int64_t g_base_ns = 0, g_skew = 0;
static SimFs* fs = nullptr;
static int g_workers = 0, g_cfgfd = -1;

static int64_t now_ns() { return g_base_ns + (int64_t)g_step * 1000 + g_skew; }
static void rec(uint32_t t, std::vector<int64_t> i = {}, std::vector<std::string> s = {}) {
    Rec r;
    r.type = t; r.fiber = cur ? cur->id : 0; r.step = g_step;
    r.t = now_ns();
    r.i = std::move(i); r.s = std::move(s);
    hist_put(r);
}
[[noreturn]] static void finish(int reason, const std::string& msg) {
    g_shm->end = reason;
    g_shm->steps = g_step;
    g_shm->decisions = g_dec;
    g_shm->simns = now_ns() - g_base_ns;
    snprintf(g_shm->msg, sizeof g_shm->msg, "%s", msg.c_str());
    _exit(0);
}
static bool runnable(Fiber* f) { return f->state == 0 || (f->state == 1 && f->pred && f->pred()); }

static void switch_to(Fiber* n) {
    Fiber* o = cur;
    o->err = errno;
    memcpy(o->eh, (void*)abi::__cxa_get_globals(), 16);
    if (tls_len) { o->tls.assign(tls_at, tls_len); memcpy(tls_at, n->tls.data(), tls_len); }
    cur = n;
    memcpy((void*)abi::__cxa_get_globals(), n->eh, 16);
    errno = n->err;
    g_shm->switches++;
    g_shm->schedhash = (g_shm->schedhash ^ (uint64_t)(n->id + 1 + g_step * 131)) * 1099511628211ull;
    sim_switch(&o->sp, n->sp);
}
static Fiber* choose() {
    std::vector<Fiber*> r;
    for (auto& f : F) if (runnable(f.get())) r.push_back(f.get());
    if (r.empty()) {
        std::string m = "no runnable task:";
        for (auto& f : F) if (f->state != 2) m += " [" + f->name + " waits for " + f->why + "]";
        finish(E_DEADLOCK, m);
    }
    bool curok = cur->state != 2 && runnable(cur);
    Fiber* def = curok ? cur : r[0];
    if (r.size() == 1) return r[0];
    uint64_t d = g_dec++;
    Fiber* pick = def;
    if (L->policy == "list") {
        auto it = g_list.find(d);
        if (it != g_list.end()) for (auto f : r) if (f->id == it->second) pick = f;
    } else if (L->policy == "rw") {
        if (!curok || srng.p(L->rwp)) pick = r[srng.below(r.size())];
    } else if (L->policy == "pct" || L->policy == "pctm") {
        if (cur->changed) { cur->changed = false; if (srng.p(L->rwp)) cur->prio = g_lowprio--; }
        if (g_change.count(g_step)) cur->prio = g_lowprio--;
        pick = r[0];
        for (auto f : r) if (f->prio > pick->prio) pick = f;
    }
    if (pick != def) rec(R_SCHED, {(int64_t)d, pick->id});
    return pick;
}
static void step_checks() {
    g_step++;
    fs->now_ns = now_ns();
    g_shm->steps = g_step;
    if (L->kill_step >= 0 && g_step >= (uint64_t)L->kill_step) finish(E_KILLED, "killed");
    if (g_step > (P->pages >= 5000 ? 40 : 1) * g_budget) finish(E_STEPS, "step budget exceeded; running " + cur->name);
}
static void yield_point() {
    if (!g_running) return;
    step_checks();
    Fiber* n = choose();
    if (n != cur) { switch_to(n); }
    cur->state = 0; cur->pred = nullptr;
}
static void block_until(std::function<bool()> pred, const std::string& why) {
    if (pred()) return;
    if (!g_running) finish(E_DEADLOCK, "blocked during start-up on " + why);
    cur->state = 1; cur->pred = pred; cur->why = why;
    step_checks();
    Fiber* n = choose();
    if (n != cur) switch_to(n);
    cur->state = 0; cur->pred = nullptr;
}
static void fiber_main() {
    Fiber* f = cur;
    f->fn();
    f->state = 2; f->pred = nullptr;
    Fiber* n = choose();
    switch_to(n);
    abort();
}
extern "C" void fiber_tramp() { fiber_main(); }
static Fiber* spawn(const std::string& name, std::function<void()> fn) {
    auto f = std::make_unique<Fiber>();
    f->id = (int)F.size(); f->name = name; f->fn = std::move(fn);
    f->tls = tls_image;
    f->prio = 1000 + (int64_t)srng.below(1000000);
    size_t sz = 1 << 20;
    char* st = (char*)mmap(nullptr, sz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(st, 4096, PROT_NONE);
    race_stack(st, st + 4096 + sz);
    race_fork(cur ? cur->id : -1, f->id);
    memset(st + 4096 + sz - 65536, 0xA5, 65536);    // uninitialised locals do not read as zero
    uint64_t* top = (uint64_t*)(st + 4096 + sz);
    top -= 2;                       // keep 16-byte alignment at entry
    *--top = 0;
    *--top = (uint64_t)&fiber_tramp;
    for (int i = 0; i < 6; i++) *--top = 0;
    f->sp = top;
    F.push_back(std::move(f));
    return F.back().get();
}

// ------------------------------------------------------------------ pthread seam
struct ThreadState { virtual ~ThreadState() {} virtual void _M_run() = 0; };   // layout of std::thread::_State
struct MtxState { int owner = -1; int depth = 0; };
struct RwState { int writer = -1; std::map<int, int> readers; };
static std::map<const void*, MtxState> g_mtx;
static int mutex_kind(const pthread_mutex_t* m) { return m->__data.__kind & 3; }
static std::map<const void*, RwState> g_rw;
static std::string pstr(const void* p) { char b[32]; snprintf(b, sizeof b, "%p", p); return b; }

static bool g_fine = false;
static bool g_race_quiet = false;
extern "C" {
// function entry/exit of the repository's own code (-finstrument-functions): extra preemption points in "fine" runs
void __cyg_profile_func_enter(void*, void*) { if (g_fine && g_running) { int e = errno; yield_point(); errno = e; } }
void __cyg_profile_func_exit(void*, void*) {}
int sim_pthread_mutex_lock(pthread_mutex_t* m) {
    volatile char c = *(volatile char*)m; (void)c;
    yield_point();
    auto& s = g_mtx[m];
    int kind = mutex_kind(m);
    if (s.owner == cur->id && kind == PTHREAD_MUTEX_RECURSIVE) { s.depth++; return 0; }
    if (s.owner == cur->id && kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    int e = errno;
    block_until([&s] { return s.owner < 0; }, "mutex");
    s.owner = cur->id;
    race_acquire(m, true);
    errno = e;
    return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m) {
    yield_point();
    auto& s = g_mtx[m];
    if (s.owner == cur->id && mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) { s.depth++; return 0; }
    if (s.owner >= 0) return EBUSY;
    s.owner = cur->id;
    race_acquire(m, true);
    return 0;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return sim_pthread_mutex_lock(m); }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (g_mtx[m].depth > 0) { g_mtx[m].depth--; yield_point(); return 0; }
    race_release(m, true);
    g_mtx[m].owner = -1;
    yield_point();
    return 0;
}
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    int k = PTHREAD_MUTEX_NORMAL;
    if (a) pthread_mutexattr_gettype(a, &k);
    memset(m, 0, sizeof *m); m->__data.__kind = k;
    g_mtx.erase(m);
    race_forget(m);
    return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { g_mtx.erase(m); race_forget(m); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    volatile char c = *(volatile char*)m; (void)c;
    yield_point();
    auto& s = g_rw[m];
    if (s.writer == cur->id) return EDEADLK;
    block_until([&s] { return s.writer < 0; }, "shared lock");
    s.readers[cur->id]++;
    race_acquire(m, false);
    return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    volatile char c = *(volatile char*)m; (void)c;
    yield_point();
    auto& s = g_rw[m];
    if (s.writer == cur->id) return EDEADLK;
    block_until([&s] { return s.writer < 0 && s.readers.empty(); },
                s.readers.count(cur->id) ? "exclusive lock it already holds shared" : "exclusive lock");
    s.writer = cur->id;
    race_acquire(m, true);
    return 0;
}
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    yield_point();
    auto& s = g_rw[m];
    if (s.writer >= 0) return EBUSY;
    s.readers[cur->id]++;
    race_acquire(m, false);
    return 0;
}
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    yield_point();
    auto& s = g_rw[m];
    if (s.writer >= 0 || !s.readers.empty()) return EBUSY;
    s.writer = cur->id;
    race_acquire(m, true);
    return 0;
}
int sim_pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec*) { return sim_pthread_rwlock_rdlock(m); }
int sim_pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec*) { return sim_pthread_rwlock_wrlock(m); }
int sim_pthread_rwlock_unlock(pthread_rwlock_t* m) {
    volatile char c = *(volatile char*)m; (void)c;
    auto& s = g_rw[m];
    race_release(m, s.writer >= 0);
    if (s.writer >= 0) s.writer = -1;       // glibc releases whatever mode is held
    else {
        auto it = s.readers.find(cur->id);
        if (it == s.readers.end()) it = s.readers.begin();
        if (it != s.readers.end() && --it->second <= 0) s.readers.erase(it);
    }
    yield_point();
    return 0;
}
int sim_pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { g_rw.erase(m); race_forget(m); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t* m) { g_rw.erase(m); race_forget(m); return 0; }

// condition variables (std::condition_variable::wait/notify and pthread_cond_*)
static std::map<const void*, std::pair<uint64_t, std::deque<uint64_t>>> g_cond;   // next ticket, waiting tickets
static void cond_wait_impl(void* c, pthread_mutex_t* m) {
    auto& s = g_cond[c];
    uint64_t t = s.first++;
    s.second.push_back(t);
    race_release(m, true);
    g_mtx[m].owner = -1;
    block_until([&s, t] { for (auto x : s.second) if (x == t) return false; return true; }, "condition");
    sim_pthread_mutex_lock(m);
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { cond_wait_impl(c, m); return 0; }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
    race_release(m, true); g_mtx[m].owner = -1; yield_point(); g_skew += 1000000; sim_pthread_mutex_lock(m); return ETIMEDOUT;
}
int sim_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return sim_pthread_cond_timedwait(c, m, t); }
int sim_pthread_cond_signal(pthread_cond_t* c) { auto& s = g_cond[c]; if (!s.second.empty()) s.second.pop_front(); yield_point(); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t* c) { g_cond[c].second.clear(); yield_point(); return 0; }
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { g_cond.erase(c); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t* c) { g_cond.erase(c); return 0; }
void sim_cv_wait(void* cv, std::unique_lock<std::mutex>* l) { cond_wait_impl(cv, (pthread_mutex_t*)l->mutex()); }
void sim_cv_notify_one(void* cv) { sim_pthread_cond_signal((pthread_cond_t*)cv); }
void sim_cv_notify_all(void* cv) { sim_pthread_cond_broadcast((pthread_cond_t*)cv); }
pthread_t sim_pthread_self() { return (pthread_t)(cur ? cur->id + 1 : 1); }

void sim_thread_start(std::thread* t, std::unique_ptr<ThreadState>* st, void (*)()) {
    ThreadState* s = st->release();
    Fiber* f = spawn("thread" + std::to_string(F.size()), [s] { s->_M_run(); delete s; });
    g_workers++;
    uint64_t id = (uint64_t)f->id + 1;
    memcpy((void*)t, &id, 8);
}
void sim_thread_join(std::thread* t) {
    uint64_t id; memcpy(&id, (void*)t, 8);
    Fiber* f = F[id - 1].get();
    block_until([f] { return f->state == 2; }, "thread join");
    race_join(cur->id, f->id);
    id = 0; memcpy((void*)t, &id, 8);
}
void sim_thread_detach(std::thread* t) { uint64_t id = 0; memcpy((void*)t, &id, 8); }

// ------------------------------------------------------------------ race detector glue
}
#ifdef LFSIM_RACE
static const bool RACE_BUILD = true;
int race_cur() { return cur && !g_race_quiet ? cur->id : -1; }
void race_yield() { if (g_running) { int e = errno; yield_point(); errno = e; } }
void race_found(const char* kind, const uint64_t* s1, int t1, const uint64_t* s2, int t2, const void*) {
    static std::set<std::pair<uint64_t, uint64_t>> seen;
    if (seen.size() > 20) return;
    g_race_quiet = true;
    if (seen.insert({s1[0], s2[0]}).second) {
        std::vector<int64_t> v = {t1 & 255, t1 >> 8, t2 & 255, t2 >> 8};
        for (auto s : {s1, s2}) for (int i = 0; i < 6; i++) v.push_back((int64_t)s[i]);
        rec(R_NOTE, v, {"race", kind, F[t1 & 255]->name, F[t2 & 255]->name});
    }
    g_race_quiet = false;
}
#else
static const bool RACE_BUILD = false;
#endif
extern "C" {
// ------------------------------------------------------------------ clock
int sim_clock_gettime(clockid_t, struct timespec* ts) { int64_t n = now_ns(); ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
int sim_gettimeofday(struct timeval* tv, void*) { int64_t n = now_ns(); tv->tv_sec = n / 1000000000; tv->tv_usec = n % 1000000000 / 1000; return 0; }
time_t sim_time(time_t* t) { time_t v = now_ns() / 1000000000; if (t) *t = v; return v; }
int64_t sim_system_clock_now() { return now_ns(); }
int64_t sim_steady_clock_now() { return now_ns(); }
int sim_nanosleep(const struct timespec* a, struct timespec*) { g_skew += a->tv_sec * 1000000000ll + a->tv_nsec; yield_point(); return 0; }
int sim_clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) { return sim_nanosleep(a, b); }
int sim_usleep(useconds_t u) { g_skew += u * 1000ll; yield_point(); return 0; }
unsigned sim_sleep(unsigned s) { g_skew += s * 1000000000ll; yield_point(); return 0; }
int sim_sched_yield() { yield_point(); return 0; }
}

// ------------------------------------------------------------------ system calls
static std::set<std::string> fifos;         // FIFOs that exist
struct Fd { int kind = 0; uint64_t ino = 0; int flags = 0; int64_t pos = 0; };   // 1 file 2 dir 3 fifo-in 4 fifo-out
static std::map<int, Fd> fdt;
static std::string fifo_in;
static uint64_t fifo_consumed = 0;
static bool fifo_reader_blocked = false, done_reader = true, fifo_open = false;
static std::string done_out;

enum { C_OPEN, C_PREAD, C_PWRITE, C_PWRITEV, C_FTRUNC, C_TRUNC, C_LSTAT, C_STAT, C_FSYNC, C_UNLINK, C_RENAME, C_LINK, C_SYMLINK, C_MKDIR, C_RMDIR,
       C_CHMOD, C_CHOWN, C_UTIMENS, C_ACCESS, C_READLINK, C_OPENDIR, C_LSEEK, C_CLOSE, C_N };
static const char* callname[] = {"open", "pread", "pwrite", "pwritev", "ftruncate", "truncate", "lstat", "stat", "fsync", "unlink", "rename", "link",
    "symlink", "mkdir", "rmdir", "chmod", "chown", "utimens", "access", "readlink", "opendir", "lseek", "close"};

// returns: 0 no fault, <0 -errno, >0 short (value-1 bytes)
static int64_t inject(int c) {
    if (!g_running || (!cur->curop && !fifo_open)) return 0;
    uint64_t n = ++g_shm->ncalls[c];
    for (auto& f : L->faults)
        if (f.call == callname[c] && n >= (uint64_t)f.nth && n < (uint64_t)(f.nth + f.count)) {
            rec(R_SFAULT, {cur->curop, f.err, f.shortn}, {callname[c]});
            return f.err ? -f.err : f.shortn + 1;
        }
    return 0;
}
static int64_t ret(int64_t r) { if (r < 0) { errno = (int)-r; return -1; } return r; }
static void dj(int k, std::vector<int64_t> i, std::vector<std::string> s = {}) {
    i.insert(i.begin(), {k, now_ns(), cur ? cur->curop : 0});
    if (cur && k != D_OPENREF && L->policy == "pctm") cur->changed = true;
    rec(R_DISK, std::move(i), std::move(s));
}
static int newfd(Fd f) {
    int n = 3;
    while (fdt.count(n)) n++;
    if (n >= 1024) return -EMFILE;
    fdt[n] = f;
    return n;
}
#define SYS(c) yield_point(); int64_t inj_ = inject(c); if (inj_ < 0) return ret(inj_)

static int64_t do_open(const char* path, int flags, mode_t mode) {
    std::string p(path);
    if ((p == P->fifo || p == P->done) && !fifos.count(p)) return -ENOENT;
    if (p == P->fifo) { fifo_open = true; return newfd({3, 0, flags, 0}); }
    if (p == P->done) {
        if ((flags & O_ACCMODE) == O_WRONLY) block_until([] { return done_reader; }, "reader of the completion FIFO");
        return newfd({4, 0, flags, 0});
    }
    if ((int)fdt.size() >= 1021) return -EMFILE;
    int64_t before = fs->resolve(p, !(flags & O_NOFOLLOW), nullptr, nullptr);
    int64_t r = fs->open(p, flags, mode);
    if (r < 0) return r;
    if ((before < 0) || (flags & O_TRUNC)) dj(D_OPEN, {flags, (int64_t)mode, r}, {p});
    fs->open_ref(r); dj(D_OPENREF, {r});
    return newfd({fs->get(r)->isdir() ? 2 : 1, (uint64_t)r, flags, 0});
}
struct SimDir { std::vector<struct dirent64> e; size_t pos = 0; int fd = -1; };

extern "C" {
int sim_open64(const char* p, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    SYS(C_OPEN);
    return (int)ret(do_open(p, flags, m));
}
int sim_openat64(int, const char* p, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    SYS(C_OPEN);
    return (int)ret(do_open(p, flags, m));
}
int sim_creat64(const char* p, mode_t m) { SYS(C_OPEN); return (int)ret(do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m)); }
int sim_close(int fd) {
    yield_point();
    auto it = fdt.find(fd);
    if (it == fdt.end()) { if (fd >= 0) rec(R_NOTE, {fd}, {"close-bad-fd"}); return (int)ret(-EBADF); }
    if (it->second.kind <= 2) { uint64_t ino = it->second.ino; fs->open_unref(ino); dj(D_UNREF, {(int64_t)ino}); }
    fdt.erase(it);
    return 0;
}
// With bigshift set, files have a hole of bigshift bytes at bigwin that neither clients nor LazyFS have a reason to touch:
// the simulator (and the oracle) leave it out, so that multi-gigabyte files cost no memory.
static int64_t up(int64_t off) { return P->bigshift && off >= P->bigwin ? off + P->bigshift : off; }           // offset seen by LazyFS
static int64_t up_size(int64_t sz) { return P->bigshift && sz > P->bigwin ? sz + P->bigshift : sz; }
static void in_hole(int64_t off) { rec(R_NOTE, {off}, {"hole"}); }
static int64_t down(int64_t off, size_t n) {                                                                   // offset LazyFS used
    if (!P->bigshift || off < 0) return off;
    if (off < P->bigwin) { if (off + (int64_t)n > P->bigwin) in_hole(off); return off; }
    if (off < P->bigwin + P->bigshift) { in_hole(off); return P->bigwin; }
    return off - P->bigshift;
}
static int64_t down_size(int64_t sz) {
    if (!P->bigshift || sz <= P->bigwin) return sz;
    if (sz <= P->bigwin + P->bigshift) { in_hole(sz); return P->bigwin; }
    return sz - P->bigshift;
}
static int64_t down_stat(int64_t r, struct stat* st) { if (r == 0 && S_ISREG(st->st_mode)) st->st_size = up_size(st->st_size); return r; }
static Fd* getfd(int fd) { auto it = fdt.find(fd); return it == fdt.end() ? nullptr : &it->second; }
ssize_t sim_pread64(int fd, void* b, size_t n, off_t off) {
    SYS(C_PREAD);
    Fd* f = getfd(fd);
    if (!f || (f->flags & O_ACCMODE) == O_WRONLY) return ret(-EBADF);
    if (off < 0) return ret(-EINVAL);
    if (inj_ > 0 && (size_t)(inj_ - 1) < n && inj_ > 1) n = inj_ - 1;
    race_access(b, n, true, __builtin_return_address(0));
    return ret(fs->pread(f->ino, (char*)b, n, down(off, n)));
}
static int64_t pw(Fd* f, const char* b, size_t n, off_t off) {
    if (f->flags & O_APPEND) off = fs->get(f->ino)->data.size(); else off = down(off, n);
    int64_t r = fs->pwrite(f->ino, b, n, off);
    if (r > 0) dj(D_PWRITE, {(int64_t)f->ino, off}, {std::string(b, r)});
    return r;
}
ssize_t sim_pwrite64(int fd, const void* b, size_t n, off_t off) {
    SYS(C_PWRITE);
    Fd* f = getfd(fd);
    if (!f || (f->flags & O_ACCMODE) == O_RDONLY) return ret(-EBADF);
    if (off < 0) return ret(-EINVAL);
    if (inj_ > 0 && (size_t)(inj_ - 1) < n && n > 1) n = std::max<int64_t>(1, inj_ - 1);
    race_access(b, n, false, __builtin_return_address(0));
    return ret(pw(f, (const char*)b, n, off));
}
static std::string gather(const struct iovec* v, int n) { std::string s; for (int i = 0; i < n; i++) s.append((const char*)v[i].iov_base, v[i].iov_len); return s; }
ssize_t sim_pwritev64(int fd, const struct iovec* v, int n, off_t off) {
    for (int i = 0; i < n; i++) race_access(v[i].iov_base, v[i].iov_len, false, __builtin_return_address(0));
    SYS(C_PWRITEV);
    Fd* f = getfd(fd);
    if (!f || (f->flags & O_ACCMODE) == O_RDONLY) return ret(-EBADF);
    if (off < 0 || n < 0 || n > 1024) return ret(-EINVAL);
    std::string s = gather(v, n);
    if (inj_ > 0 && (size_t)(inj_ - 1) < s.size() && s.size() > 1) s.resize(std::max<int64_t>(1, inj_ - 1));
    return ret(pw(f, s.data(), s.size(), off));
}
ssize_t sim_pwritev64v2(int fd, const struct iovec* v, int n, off_t off, int) { return sim_pwritev64(fd, v, n, off); }
ssize_t sim_preadv64(int fd, const struct iovec* v, int n, off_t off) {
    SYS(C_PREAD);
    Fd* f = getfd(fd);
    if (!f || (f->flags & O_ACCMODE) == O_WRONLY) return ret(-EBADF);
    int64_t tot = 0;
    for (int i = 0; i < n; i++) {
        int64_t r = fs->pread(f->ino, (char*)v[i].iov_base, v[i].iov_len, down(off + tot, v[i].iov_len));
        if (r < 0) return ret(r);
        tot += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}
ssize_t sim_read(int fd, void* b, size_t n) {
    yield_point();
    Fd* f = getfd(fd);
    if (!f) return ret(-EBADF);
    if (f->kind == 3) {
        rec(R_FIFORB, {(int64_t)fifo_consumed});
        fifo_reader_blocked = true;
        block_until([] { return !fifo_in.empty(); }, "command on the faults FIFO");
        fifo_reader_blocked = false;
        race_acquire(&fifo_in, true);
        size_t k = std::min(n, fifo_in.size());
        memcpy(b, fifo_in.data(), k);
        fifo_in.erase(0, k);
        fifo_consumed += k;
        rec(R_FIFORD, {(int64_t)k});
        return k;
    }
    if (f->kind != 1) return ret(-EBADF);
    int64_t inj = inject(C_PREAD);
    if (inj < 0) return ret(inj);
    int64_t r = fs->pread(f->ino, (char*)b, n, f->pos);
    if (r > 0) f->pos += r;
    return ret(r);
}
ssize_t sim_write(int fd, const void* b, size_t n) {
    yield_point();
    Fd* f = getfd(fd);
    if (!f) return ret(-EBADF);
    if (f->kind == 4) { done_out.append((const char*)b, n); rec(R_DONE, {}, {std::string((const char*)b, n)}); return n; }
    if (f->kind == 3) { fifo_in.append((const char*)b, n); return n; }
    int64_t inj = inject(C_PWRITE);
    if (inj < 0) return ret(inj);
    int64_t r = pw(f, (const char*)b, n, f->pos);
    if (r > 0) f->pos += r;
    return ret(r);
}
ssize_t sim_writev(int fd, const struct iovec* v, int n) { std::string s = gather(v, n); return sim_write(fd, s.data(), s.size()); }
ssize_t sim_readv(int fd, const struct iovec* v, int n) { int64_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
int sim_ftruncate64(int fd, off_t sz) {
    SYS(C_FTRUNC);
    sz = down_size(sz);
    Fd* f = getfd(fd);
    if (!f) return (int)ret(-EBADF);
    if ((f->flags & O_ACCMODE) == O_RDONLY) return (int)ret(-EINVAL);
    int r = fs->truncate(f->ino, sz);
    if (r == 0) dj(D_TRUNC, {(int64_t)f->ino, sz});
    return (int)ret(r);
}
int sim_truncate64(const char* p, off_t sz) {
    SYS(C_TRUNC);
    sz = down_size(sz);
    int64_t i = fs->resolve(p, true, nullptr, nullptr);
    if (i < 0) return (int)ret(i);
    int r = fs->truncate(i, sz);
    if (r == 0) dj(D_TRUNC, {i, sz});
    return (int)ret(r);
}
int sim_posix_fallocate64(int fd, off_t off, off_t len) {
    Fd* f = getfd(fd);
    if (!f) return EBADF;
    if ((size_t)(off + len) > fs->get(f->ino)->data.size()) { fs->truncate(f->ino, off + len); dj(D_TRUNC, {(int64_t)f->ino, off + len}); }
    return 0;
}
int sim_fallocate64(int fd, int mode, off_t off, off_t len) { if (mode) return (int)ret(-EOPNOTSUPP); return (int)ret(-sim_posix_fallocate64(fd, off, len)); }
int sim_fsync(int fd) { SYS(C_FSYNC); return getfd(fd) ? 0 : (int)ret(-EBADF); }
int sim_fdatasync(int fd) { SYS(C_FSYNC); return getfd(fd) ? 0 : (int)ret(-EBADF); }
int sim_syncfs(int fd) { SYS(C_FSYNC); return getfd(fd) ? 0 : (int)ret(-EBADF); }
int sim_sync_file_range(int fd, off_t, off_t, unsigned) { SYS(C_FSYNC); return getfd(fd) ? 0 : (int)ret(-EBADF); }
void sim_sync() {}
int sim_lstat64(const char* p, struct stat* st) { SYS(C_LSTAT); return (int)ret(down_stat(fs->stat(p, st, false), st)); }
int sim_stat64(const char* p, struct stat* st) { SYS(C_STAT); return (int)ret(down_stat(fs->stat(p, st, true), st)); }
int sim_fstat64(int fd, struct stat* st) { SYS(C_STAT); Fd* f = getfd(fd); return (int)ret(f ? down_stat(fs->stat_ino(f->ino, st), st) : -EBADF); }
int sim_fstatat64(int dfd, const char* p, struct stat* st, int fl) {
    SYS(C_LSTAT);
    if ((fl & AT_EMPTY_PATH) && !*p) { Fd* f = getfd(dfd); return (int)ret(f ? down_stat(fs->stat_ino(f->ino, st), st) : -EBADF); }
    return (int)ret(down_stat(fs->stat(p, st, !(fl & AT_SYMLINK_NOFOLLOW)), st));
}
int sim_unlink(const char* p) { SYS(C_UNLINK); int r = fs->unlink(p); if (!r) dj(D_UNLINK, {}, {p}); return (int)ret(r); }
int sim_unlinkat(int, const char* p, int fl) {
    SYS(C_UNLINK);
    int r = (fl & AT_REMOVEDIR) ? fs->rmdir(p) : fs->unlink(p);
    if (!r) dj((fl & AT_REMOVEDIR) ? D_RMDIR : D_UNLINK, {}, {p});
    return (int)ret(r);
}
int sim_remove(const char* p) { return sim_unlink(p); }
int sim_rmdir(const char* p) { SYS(C_RMDIR); int r = fs->rmdir(p); if (!r) dj(D_RMDIR, {}, {p}); return (int)ret(r); }
int sim_mkdir(const char* p, mode_t m) { SYS(C_MKDIR); int r = fs->mkdir(p, m); if (!r) dj(D_MKDIR, {(int64_t)m}, {p}); return (int)ret(r); }
int sim_symlink(const char* t, const char* p) { SYS(C_SYMLINK); int r = fs->symlink(t, p); if (!r) dj(D_SYMLINK, {}, {t, p}); return (int)ret(r); }
int sim_link(const char* a, const char* b) { SYS(C_LINK); int r = fs->link(a, b); if (!r) dj(D_LINK, {}, {a, b}); return (int)ret(r); }
int sim_linkat(int, const char* a, int, const char* b, int) { return sim_link(a, b); }
static int do_rename(const char* a, const char* b, unsigned fl) { SYS(C_RENAME); int r = fs->rename(a, b, fl); if (!r) dj(D_RENAME, {fl}, {a, b}); return (int)ret(r); }
int sim_rename(const char* a, const char* b) { return do_rename(a, b, 0); }
int sim_renameat(int, const char* a, int, const char* b) { return sim_rename(a, b); }
int sim_renameat2(int, const char* a, int, const char* b, unsigned fl) { return do_rename(a, b, fl); }
int sim_chmod(const char* p, mode_t m) { SYS(C_CHMOD); int r = fs->chmod(p, m); if (!r) dj(D_CHMOD, {(int64_t)m}, {p}); return (int)ret(r); }
int sim_fchmodat(int, const char* p, mode_t m, int) { return sim_chmod(p, m); }
int sim_lchown(const char* p, uid_t u, gid_t g) { SYS(C_CHOWN); int r = fs->chown(p, u, g, false); if (!r) dj(D_CHOWN, {u, g, 0}, {p}); return (int)ret(r); }
int sim_chown(const char* p, uid_t u, gid_t g) { SYS(C_CHOWN); int r = fs->chown(p, u, g, true); if (!r) dj(D_CHOWN, {u, g, 1}, {p}); return (int)ret(r); }
static int do_utimens(const char* p, const struct timespec* ts, bool follow) {
    int r = fs->utimens(p, ts, follow);
    if (!r) {
        struct timespec t[2];
        if (ts) { t[0] = ts[0]; t[1] = ts[1]; } else { t[0].tv_nsec = t[1].tv_nsec = UTIME_NOW; t[0].tv_sec = t[1].tv_sec = 0; }
        dj(D_UTIMENS, {t[0].tv_sec, t[0].tv_nsec, t[1].tv_sec, t[1].tv_nsec, follow}, {p});
    }
    return r;
}
int sim_utimensat(int, const char* p, const struct timespec* ts, int fl) { SYS(C_UTIMENS); return (int)ret(do_utimens(p, ts, !(fl & AT_SYMLINK_NOFOLLOW))); }
int sim_futimens(int fd, const struct timespec* ts) {
    SYS(C_UTIMENS);
    Fd* f = getfd(fd);
    if (!f) return (int)ret(-EBADF);
    int r = fs->utimens_ino(f->ino, ts);
    if (!r) {
        struct timespec t[2];
        if (ts) { t[0] = ts[0]; t[1] = ts[1]; } else { t[0].tv_nsec = t[1].tv_nsec = UTIME_NOW; t[0].tv_sec = t[1].tv_sec = 0; }
        dj(D_UTIMENSI, {(int64_t)f->ino, t[0].tv_sec, t[0].tv_nsec, t[1].tv_sec, t[1].tv_nsec});
    }
    return (int)ret(r);
}
static void tv2ts(const struct timeval* tv, struct timespec* ts) { for (int i = 0; i < 2; i++) { ts[i].tv_sec = tv[i].tv_sec; ts[i].tv_nsec = tv[i].tv_usec * 1000; } }
int sim_futimes(int fd, const struct timeval* tv) { struct timespec ts[2]; if (tv) tv2ts(tv, ts); return sim_futimens(fd, tv ? ts : nullptr); }
int sim_utimes(const char* p, const struct timeval* tv) { SYS(C_UTIMENS); struct timespec ts[2]; if (tv) tv2ts(tv, ts); return (int)ret(do_utimens(p, tv ? ts : nullptr, true)); }
int sim_lutimes(const char* p, const struct timeval* tv) { SYS(C_UTIMENS); struct timespec ts[2]; if (tv) tv2ts(tv, ts); return (int)ret(do_utimens(p, tv ? ts : nullptr, false)); }
int sim_access(const char* p, int) { SYS(C_ACCESS); int64_t r = fs->resolve(p, true, nullptr, nullptr); return (int)ret(r < 0 ? r : 0); }
int sim_faccessat(int, const char* p, int m, int) { return sim_access(p, m); }
ssize_t sim_readlink(const char* p, char* b, size_t n) {
    SYS(C_READLINK);
    std::string s;
    int r = fs->readlink(p, s);
    if (r < 0) return ret(r);
    size_t k = std::min(n, s.size());
    memcpy(b, s.data(), k);
    return k;
}
off_t sim_lseek64(int fd, off_t off, int wh) {
    SYS(C_LSEEK);
    Fd* f = getfd(fd);
    if (!f) return ret(-EBADF);
    int64_t sz = fs->get(f->ino)->data.size(), n;
    if (wh == SEEK_SET) n = off; else if (wh == SEEK_CUR) n = f->pos + off; else if (wh == SEEK_END) n = sz + off;
    else if (wh == SEEK_DATA) { if (off >= sz) return ret(-ENXIO); n = off; }
    else if (wh == SEEK_HOLE) { if (off >= sz) return ret(-ENXIO); n = sz; }
    else return ret(-EINVAL);
    if (n < 0) return ret(-EINVAL);
    f->pos = n;
    return n;
}
DIR* sim_opendir(const char* p) {
    yield_point();
    int64_t inj = inject(C_OPENDIR);
    if (inj < 0) { errno = (int)-inj; return nullptr; }
    int64_t r = fs->resolve(p, true, nullptr, nullptr);
    if (r < 0) { errno = (int)-r; return nullptr; }
    SInode* d = fs->get(r);
    if (!d->isdir()) { errno = ENOTDIR; return nullptr; }
    int fd = newfd({5, (uint64_t)r, O_RDONLY | O_DIRECTORY, 0});
    if (fd < 0) { errno = -fd; return nullptr; }
    SimDir* sd = new SimDir;
    sd->fd = fd;
    auto add = [&](const std::string& n, uint64_t ino, uint32_t mode) {
        struct dirent64 e; memset(&e, 0, sizeof e);
        e.d_ino = ino; e.d_type = P->nodtype ? DT_UNKNOWN : (mode & S_IFMT) >> 12; strncpy(e.d_name, n.c_str(), 255);
        sd->e.push_back(e);
    };
    add(".", d->ino, d->mode); add("..", d->parent, S_IFDIR);
    for (auto& e : d->ents) add(e.first, e.second, fs->get(e.second)->mode);
    return (DIR*)sd;
}
struct dirent64* sim_readdir64(DIR* d) { SimDir* s = (SimDir*)d; return s->pos < s->e.size() ? &s->e[s->pos++] : nullptr; }
int sim_closedir(DIR* d) { fdt.erase(((SimDir*)d)->fd); delete (SimDir*)d; return 0; }
void sim_rewinddir(DIR* d) { ((SimDir*)d)->pos = 0; }
int sim_dirfd(DIR* d) { return ((SimDir*)d)->fd; }
int sim_statvfs64(const char*, struct statvfs* s) { memset(s, 0, sizeof *s); s->f_bsize = 4096; s->f_namemax = 255; return 0; }
int sim_mkfifo(const char* p, mode_t) {
    rec(R_NOTE, {}, {"mkfifo", p});
    if (!fifos.insert(p).second) return (int)ret(-EEXIST);
    return 0;
}
int sim_mknod(const char*, mode_t, dev_t) { return (int)ret(-EPERM); }
int sim_dup(int fd) { Fd* f = getfd(fd); if (!f) return (int)ret(-EBADF); if (f->kind <= 2) { fs->open_ref(f->ino); dj(D_OPENREF, {(int64_t)f->ino}); } return (int)ret(newfd(*f)); }
int sim_fcntl64(int fd, int cmd, ...) { Fd* f = getfd(fd); if (!f) return (int)ret(-EBADF); if (cmd == F_GETFL) return f->flags; return 0; }
int sim_flock(int, int) { return 0; }
int sim_xattr() { errno = ENOTSUP; return -1; }

// log output.  Lines count as written once they left the stdio buffer.
struct LogFile { std::string line; std::vector<std::string> buf; int mine = 0; std::string name; bool open = false; };
static LogFile g_con, g_file;
static bool g_stopping = false;
static void logput(LogFile& f, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        if (b[i] == '\n') {
            if (&f == &g_con) rec(R_LOG, {}, {f.line});
            f.buf.push_back(std::to_string(cur->id) + " " + f.line);
            f.line.clear();
        } else f.line += b[i];
    }
}
static void logflush(LogFile& f) {
    if (&f == &g_file) for (auto& s : f.buf) rec(R_LOGF, {atoi(s.c_str())}, {s.substr(s.find(' ') + 1)});
    f.buf.clear();
}
static LogFile& lf(FILE* f) { return (void*)f == (void*)&g_file ? g_file : g_con; }
static void note_unflushed() {      // lines this thread has logged that the end of the process loses
    int64_t n[2] = {0, 0};
    for (auto& s : g_con.buf) if (atoi(s.c_str()) == cur->id) n[0]++;
    for (auto& s : g_file.buf) if (atoi(s.c_str()) == cur->id) n[1]++;
    rec(R_NOTE, {n[0], n[1]}, {"unflushed"});
}

// processes
pid_t sim_getpid() { return 4242; }
int sim_kill(pid_t p, int sig) {
    if (sig == 0) return 0;
    if (p == 4242 || p == 0) { note_unflushed(); rec(R_KILL, {sig, cur->curop}); finish(sig == SIGKILL ? E_SELFKILL : E_SIGNAL, "killed itself"); }
    return (int)ret(-ESRCH);
}
int sim_raise(int sig) { return sim_kill(4242, sig); }
int sim_tgkill(pid_t, pid_t, int sig) { return sim_kill(4242, sig); }
void sim__exit(int c) {
    rec(R_NOTE, {c}, {"exit"});
    if (g_stopping && c == 0) { note_unflushed(); finish(E_STOP, "stopped"); }
    finish(E_EXIT, (g_stopping ? "stopped with status " : "exit ") + std::to_string(c));
}
void sim_exit(int c) {
    if (!g_stopping || c != 0) sim__exit(c);
    // static objects are destroyed, the other threads go on meanwhile
    rec(R_NOTE, {c}, {"exit"});
    for (LogFile* f : {&g_con, &g_file}) logflush(*f);
    note_unflushed();
    g_shm->end = E_STOP; g_shm->steps = g_step; g_shm->decisions = g_dec; g_shm->simns = now_ns() - g_base_ns;
    snprintf(g_shm->msg, sizeof g_shm->msg, "stopped");
    exit(c);
}
void sim_abort() { finish(E_SIGNAL, "abort()"); }
long sim_syscall(long, ...) { return 4242; }   // spdlog: gettid

size_t sim_fwrite(const void* b, size_t s, size_t n, FILE* f) { logput(lf(f), (const char*)b, s * n); return n; }
size_t sim_fwrite_unlocked(const void* b, size_t s, size_t n, FILE* f) { logput(lf(f), (const char*)b, s * n); return n; }
int sim_fflush(FILE* f) { if (!f) { logflush(g_con); logflush(g_file); } else logflush(lf(f)); return 0; }
FILE* sim_fopen64(const char* p, const char* mode) {
    if (P->logfile.empty() || P->logfile != p || !P->logfile_ok || mode[0] == 'r') { errno = EACCES; return nullptr; }
    g_file.open = true;
    rec(R_NOTE, {}, {"logfile-open", mode});
    return (FILE*)&g_file;
}
int sim_fclose(FILE* f) { logflush(lf(f)); return 0; }
// files opened through streams: the configuration and the log file
static const char* mapname(const char* n) {
    static std::string keep;
    if (P->cfgpath == n) { keep = "/proc/self/fd/" + std::to_string(g_cfgfd); return keep.c_str(); }
    rec(R_NOTE, {}, {"stream", n});
    if (!P->logfile.empty() && P->logfile == n && P->logfile_ok) return "/dev/null";
    return "/nonexistent/file";
}
void* sim_filebuf_open(std::filebuf* fb, const char* n, std::ios_base::openmode m) { return fb->open(mapname(n), m); }
void sim_ifstream_ctor(void* self, const std::string& n, std::ios_base::openmode m) { new (self) std::ifstream(mapname(n.c_str()), m); }
void sim_ofstream_ctor(void* self, const std::string& n, std::ios_base::openmode m) { new (self) std::ofstream(mapname(n.c_str()), m); }
void sim_ifstream_ctorc(void* self, const char* n, std::ios_base::openmode m) { new (self) std::ifstream(mapname(n), m); }
void sim_ofstream_ctorc(void* self, const char* n, std::ios_base::openmode m) { new (self) std::ofstream(mapname(n), m); }
int sim_printf(const char*, ...) { return 0; }
int sim_puts(const char*) { return 0; }
int sim_putchar(int c) { return c; }
}

// ------------------------------------------------------------------ kernel + libfuse shim
const char* fkind_name[] = {"?", "getattr", "readdir", "open", "create", "read", "write", "fsync", "truncate", "unlink", "rename", "link",
    "symlink", "readlink", "mkdir", "rmdir", "chmod", "chown", "utimens", "access", "lseek", "release"};
static struct fuse_operations ops;
static void* g_user = nullptr;
static int64_t g_fid = 0;

struct KNode { std::string path; int opens = 0; bool hidden = false; int lock = -1; };
static std::map<std::string, std::shared_ptr<KNode>> nodes;   // by current path
static std::shared_ptr<KNode> node(const std::string& p) {
    auto& n = nodes[p];
    if (!n) { n = std::make_shared<KNode>(); n->path = p; }
    return n;
}
struct ILock {   // kernel inode mutex
    std::shared_ptr<KNode> n;
    explicit ILock(std::shared_ptr<KNode> x) : n(x) {
        if (!n) return;
        yield_point();
        auto* k = n.get();
        block_until([k] { return k->lock < 0; }, "kernel inode lock");
        n->lock = cur->id;
        race_acquire(n.get(), true);
    }
    ~ILock() { if (n) { race_release(n.get(), true); n->lock = -1; } }
};
static std::map<std::string, int> dirlocks;
struct DLock {
    std::vector<std::string> d;
    explicit DLock(std::vector<std::string> v) {
        std::set<std::string> s(v.begin(), v.end());
        yield_point();
        for (auto& x : s) {
            block_until([x] { return !dirlocks.count(x); }, "kernel directory lock");
            dirlocks[x] = cur->id; d.push_back(x);
        }
        race_acquire(&dirlocks, true);
    }
    ~DLock() { race_release(&dirlocks, true); for (auto& x : d) dirlocks.erase(x); }
};
struct TL { std::string p; bool wr; std::shared_ptr<KNode> n = nullptr; };   // n: path taken from the node once the lock is granted
static std::vector<TL> tls;
static bool under(const std::string& p, const std::string& q) { return p == q || (p.size() > q.size() && p.compare(0, q.size(), q) == 0 && p[q.size()] == '/'); }
static bool tl_conflict(const TL& a, const TL& b) { return (a.wr && under(b.p, a.p)) || (b.wr && under(a.p, b.p)); }
struct TreeLock {
    std::vector<TL> mine;
    explicit TreeLock(std::vector<TL> v) : mine(v) {
        auto* m = &mine;
        block_until([m] {
            for (auto& a : *m) {
                TL x = a;
                if (x.n) x.p = x.n->path;
                for (auto& b : tls) if (tl_conflict(x, b)) return false;
            }
            return true;
        }, "libfuse path lock");
        for (auto& a : mine) { if (a.n) a.p = a.n->path; tls.push_back(a); }
        bool wr = false;
        for (auto& a : mine) if (a.wr) wr = true;
        race_acquire(&tls, wr);         // readers of the tree are ordered with its writers only
    }
    ~TreeLock() {
        bool wr = false;
        for (auto& a : mine) if (a.wr) wr = true;
        race_release(&tls, wr);
        for (auto& a : mine)
            for (size_t i = 0; i < tls.size(); i++) if (tls[i].p == a.p && tls[i].wr == a.wr) { tls.erase(tls.begin() + i); break; }
    }
};
struct CallRes { int64_t r = 0; struct stat st{}; std::string data; std::vector<std::pair<std::string, uint64_t>> dir; };

static CallRes fraw(int kind, const std::string& p, const std::string& q, int64_t a, int64_t b, int64_t c, int64_t fh, bool hasfi,
                    const std::string& data, const std::function<void(CallRes&)>& fn) {
    int64_t id = ++g_fid;
    rec(R_FINV, {id, kind, a, b, c, fh, hasfi}, {p, q, data});
    yield_point();
    cur->priv = g_user;
    cur->curop = id;
    CallRes r;
    errno = 0;
    fn(r);
    cur->curop = 0;
    if (kind == F_GETATTR && r.r == 0 && S_ISREG(r.st.st_mode)) r.st.st_size = down_size(r.st.st_size);
    std::vector<int64_t> iv = {id, r.r};
    std::vector<std::string> sv = {r.data};
    if (kind == F_GETATTR && r.r == 0) {
        for (int64_t v : {(int64_t)r.st.st_ino, (int64_t)r.st.st_mode, (int64_t)r.st.st_nlink, (int64_t)r.st.st_uid, (int64_t)r.st.st_gid, (int64_t)r.st.st_size,
                          (int64_t)r.st.st_atim.tv_sec, (int64_t)r.st.st_atim.tv_nsec, (int64_t)r.st.st_mtim.tv_sec, (int64_t)r.st.st_mtim.tv_nsec,
                          (int64_t)r.st.st_ctim.tv_sec, (int64_t)r.st.st_ctim.tv_nsec, (int64_t)r.st.st_blocks})
            iv.push_back(v);
    }
    if (kind == F_READDIR) for (auto& e : r.dir) { iv.push_back(e.second); sv.push_back(e.first); }
    rec(R_FRET, iv, sv);
    yield_point();
    return r;
}
static CallRes fcall(int kind, const std::string& p, const std::string& q, int64_t a, int64_t b, int64_t c, int64_t fh, bool hasfi,
                     const std::string& data, const std::vector<TL>& locks, const std::function<void(CallRes&)>& fn) {
    TreeLock tl(locks);
    return fraw(kind, p, q, a, b, c, fh, hasfi, data, fn);
}
// request on an open file: its path is determined when libfuse grants the path lock
static CallRes fnode(int kind, std::shared_ptr<KNode> n, int64_t a, int64_t b, int64_t fh, const std::string& data, const std::function<void(CallRes&, const char*)>& fn) {
    TreeLock tl({{"", false, n}});
    std::string p = n->path;
    return fraw(kind, p, "", a, b, 0, fh, true, data, [&](CallRes& x) { fn(x, p.c_str()); });
}
static CallRes k_getattr(const std::string& p) {
    return fcall(F_GETATTR, p, "", 0, 0, 0, 0, false, "", {{p, false}}, [&](CallRes& r) {
        memset(&r.st, 0, sizeof r.st);
        r.r = ops.getattr(p.c_str(), &r.st, nullptr);
    });
}
static CallRes lookup(const std::string& p) {   // every component, as with entry_timeout=0
    CallRes r;
    size_t i = strlen("/simroot/");
    while (true) {
        size_t j = p.find('/', i);
        r = k_getattr(j == std::string::npos ? p : p.substr(0, j));
        if (r.r < 0 || j == std::string::npos) return r;
        if (!S_ISDIR(r.st.st_mode)) { r.r = -ENOTDIR; return r; }
        i = j + 1;
    }
}
static std::string parent(const std::string& p) { return p.substr(0, p.rfind('/')); }

struct Handle { std::shared_ptr<KNode> n; uint64_t fh = 0; int flags = 0; };
struct Client { int id; std::map<int, Handle> h; size_t barrier = 0; bool done = false; };
static std::vector<std::unique_ptr<Client>> clients;
static int hidden_ctr = 0;

static CallRes k_fgetattr(std::shared_ptr<KNode> n) {
    return fnode(F_GETATTR, n, 0, 0, 0, "", [&](CallRes& r, const char* p) { memset(&r.st, 0, sizeof r.st); r.r = ops.getattr(p, &r.st, nullptr); });
}
static void k_release(Handle& h) {
    auto n = h.n;
    struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.fh = h.fh; fi.flags = h.flags;
    bool last = false;
    fnode(F_RELEASE, n, 0, 0, h.fh, "", [&](CallRes& r, const char* p) {
        r.r = ops.release(p, &fi);
        last = --n->opens == 0 && n->hidden;
    });
    if (last) {
        std::string hp = n->path;
        nodes.erase(hp);
        fraw(F_UNLINK, hp, "", 0, 0, 0, 0, false, "", [&](CallRes& r) { r.r = ops.unlink(hp.c_str()); });
    }
}
static int64_t k_hide(const std::string& p) {   // caller holds the path lock
    auto n = node(p);
    std::string hp;
    while (true) {
        char b[64]; snprintf(b, sizeof b, "/.fuse_hidden%08x%08x", 7, ++hidden_ctr);
        hp = parent(p) + b;
        auto g = fraw(F_GETATTR, hp, "", 0, 0, 0, 0, false, "", [&](CallRes& r) { memset(&r.st, 0, sizeof r.st); r.r = ops.getattr(hp.c_str(), &r.st, nullptr); });
        if (g.r != 0) break;
    }
    return fraw(F_RENAME, p, hp, 0, 0, 0, 0, false, "", [&](CallRes& x) {
        x.r = ops.rename(p.c_str(), hp.c_str(), 0);
        if (x.r == 0) { nodes.erase(p); n->path = hp; n->hidden = true; nodes[hp] = n; }
    }).r;
}
static void move_nodes(const std::string& a, const std::string& b) {
    std::vector<std::pair<std::string, std::shared_ptr<KNode>>> mv;
    for (auto& k : nodes) if (under(k.first, a)) mv.push_back(k);
    for (auto& k : mv) nodes.erase(k.first);
    for (auto& k : mv) { k.second->path = b + k.first.substr(a.size()); nodes[k.second->path] = k.second; }
}
static std::string unesc_root(const std::string& p) { return "/simroot/" + p; }

static int64_t c_open(Client& c, const Op& o) {
    std::string p = unesc_root(o.p);
    int flags = (int)o.a;
    if (c.h.count(o.slot)) return -EBUSY;
    auto finish_open = [&](uint64_t fh) {
        Handle h; h.n = node(p); h.fh = fh; h.flags = flags & ~(O_CREAT | O_EXCL | O_TRUNC); h.n->opens++;
        c.h[o.slot] = h;
    };
    if (flags & O_CREAT) {
        DLock d({parent(p)});
        CallRes l = lookup(p);
        if (l.r == -ENOENT) {
            struct fuse_file_info fi; memset(&fi, 0, sizeof fi);
            fi.flags = flags;
            auto r = fcall(F_CREATE, p, "", flags, 0644, 0, 0, true, "", {{p, false}}, [&](CallRes& x) { x.r = ops.create(p.c_str(), S_IFREG | 0644, &fi); x.data = std::to_string(fi.fh); if (x.r == 0) finish_open(fi.fh); });
            if (r.r < 0) return r.r;
            k_getattr(p);
            return 0;
        }
        if (l.r < 0) return l.r;
        if (flags & O_EXCL) return -EEXIST;
        if (!S_ISREG(l.st.st_mode)) return -EISDIR;
    } else {
        CallRes l = lookup(p);
        if (l.r < 0) return l.r;
        if (!S_ISREG(l.st.st_mode)) return -EISDIR;
    }
    std::shared_ptr<KNode> n = node(p);
    ILock il((flags & O_TRUNC) ? n : nullptr);
    struct fuse_file_info fi; memset(&fi, 0, sizeof fi);
    fi.flags = flags & ~(O_CREAT | O_EXCL);
    // the name may have been unlinked between lookup and open: the request then fails with ENOENT
    auto r = fcall(F_OPEN, p, "", fi.flags, 0, 0, 0, true, "", {{p, false}}, [&](CallRes& x) { x.r = ops.open(p.c_str(), &fi); x.data = std::to_string(fi.fh); if (x.r == 0) finish_open(fi.fh); });
    if (r.r < 0) return r.r;
    return 0;
}
static int64_t c_read(Client& c, const Op& o, std::string& out) {
    auto it = c.h.find(o.slot);
    if (it == c.h.end()) return -EBADF;
    Handle h = it->second;
    if ((h.flags & O_ACCMODE) == O_WRONLY) return -EBADF;
    if (o.c & 1) k_fgetattr(h.n);
    size_t left = o.b; int64_t off = o.a;
    if (P->bigshift && off < P->bigwin) left = std::min<size_t>(left, P->bigwin - off);
    while (left > 0) {
        size_t n = std::min<size_t>(left, P->max_write);
        struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.fh = h.fh; fi.flags = h.flags;
        std::string buf(n + 64, (char)0xAA);      // the libfuse buffer is malloc'ed: not zeroed; 64 bytes of canary behind it
        auto r = fnode(F_READ, h.n, off, n, h.fh, "", [&](CallRes& x, const char* p) {
            x.r = ops.read(p, &buf[0], n, up(off), &fi);
            if (x.r > 0) x.data = buf.substr(0, std::min<size_t>(x.r, n));
        });
        for (size_t i = n; i < n + 64; i++) if (buf[i] != (char)0xAA) { rec(R_NOTE, {g_fid}, {"read-overflow"}); break; }
        if (r.r < 0) return out.empty() ? r.r : (int64_t)out.size();
        out += r.data;
        off += n; left -= n;
        if (r.r < (int64_t)n) break;
    }
    return out.size();
}
static int64_t c_write(Client& c, const Op& o, uint64_t uid) {
    auto it = c.h.find(o.slot);
    if (it == c.h.end()) return -EBADF;
    Handle h = it->second;
    if ((h.flags & O_ACCMODE) == O_RDONLY) return -EBADF;
    ILock il(h.n);
    int64_t off = o.a;
    if (h.flags & O_APPEND) {
        auto g = k_fgetattr(h.n);
        if (g.r < 0) return g.r;
        off = g.st.st_size;
    }
    size_t left = o.b; int64_t done = 0;
    if (P->bigshift && off < P->bigwin) left = std::min<size_t>(left, P->bigwin - off);
    while (left > 0) {
        size_t n = std::min<size_t>(left, P->max_write);
        if (P->page_split && done == 0 && off % 4096) n = std::min<size_t>(n, 4096 - off % 4096);
        std::string d = payload(uid, n, off);
        struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.fh = h.fh; fi.flags = h.flags;
        auto r = fnode(F_WRITE, h.n, off, n, h.fh, d, [&](CallRes& x, const char* p) {
            char* m = (char*)malloc(n);
            memcpy(m, d.data(), n);
            x.r = ops.write(p, m, n, up(off), &fi);
            memset(m, 0xEE, n);
            race_freed(m);
            free(m);
        });
        if (r.r < 0) return done ? done : r.r;
        done += r.r;
        if (r.r != (int64_t)n) return done;
        off += n; left -= n;
    }
    return done;
}
static int64_t c_unlink(Client&, const Op& o) {
    std::string p = unesc_root(o.p);
    DLock d({parent(p)});
    auto l = lookup(p);
    if (l.r < 0) return l.r;
    if (S_ISDIR(l.st.st_mode)) return -EISDIR;
    auto n = node(p);
    ILock il(n);
    TreeLock tl({{p, true}});
    if (n->opens > 0) return k_hide(p);
    return fraw(F_UNLINK, p, "", 0, 0, 0, 0, false, "", [&](CallRes& x) { x.r = ops.unlink(p.c_str()); if (x.r == 0) nodes.erase(p); }).r;
}
static int64_t c_rename(Client&, const Op& o) {
    std::string a = unesc_root(o.p), b = unesc_root(o.q);
    unsigned fl = (unsigned)o.a;
    DLock rn({"<rename>"});
    DLock d({parent(a), parent(b)});
    auto l = lookup(a);
    if (l.r < 0) return l.r;
    auto t = lookup(b);
    if (t.r < 0 && t.r != -ENOENT) return t.r;
    if (fl & 1 && t.r == 0) return -EEXIST;      // the VFS decides these itself
    if (fl & 2 && t.r < 0) return t.r;
    if (a == b) return 0;
    bool adir = S_ISDIR(l.st.st_mode), bdir = t.r == 0 && S_ISDIR(t.st.st_mode);
    if (t.r == 0 && !(fl & 2)) {
        if (adir && !bdir) return -ENOTDIR;
        if (!adir && bdir) return -EISDIR;
    }
    if (adir && under(b, a)) return -EINVAL;
    if (bdir && under(a, b)) return fl & 2 ? -EINVAL : -ENOTEMPTY;
    auto na = node(a), nb = t.r == 0 ? node(b) : nullptr;
    if (adir) na = nullptr;
    if (bdir) nb = nullptr;
    ILock i1(na && nb && b < a ? nb : na);
    ILock i2(na && nb && b < a ? na : nb);
    TreeLock tl({{a, true}, {b, true}});
    if (!(fl & 2) && nb && nb->opens > 0) { int64_t r = k_hide(b); if (r < 0) return r; }
    return fraw(F_RENAME, a, b, fl, 0, 0, 0, false, "", [&](CallRes& x) {
        x.r = ops.rename(a.c_str(), b.c_str(), fl);
        if (x.r == 0 && fl & 2) { move_nodes(a, "<exchange>"); move_nodes(b, a); move_nodes("<exchange>", b); }
        else if (x.r == 0) { nodes.erase(b); move_nodes(a, b); }
    }).r;
}
static int fill(void* buf, const char* name, const struct stat* st, off_t, enum fuse_fill_dir_flags) {
    ((CallRes*)buf)->dir.push_back({name, st ? st->st_ino : 0});
    return 0;
}
static void wait_worker() {
    block_until([] { return fifo_in.empty() && (g_workers == 0 || fifo_reader_blocked); }, "completion of a faults FIFO command");
    race_join_all();
}
// what a user does who has a completion FIFO: wait until there are as many notifications as clear-cache commands
static std::string cmdtext;
static size_t count_lines(const std::string& s, const std::string& line) {
    size_t n = 0, i = 0, j;
    while ((j = s.find('\n', i)) != std::string::npos) { if (j - i == line.size() && s.compare(i, j - i, line) == 0) n++; i = j + 1; }
    return n;
}
static void wait_done() {
    block_until([] { return count_lines(done_out, "finished::clear-cache") >= count_lines(cmdtext, "lazyfs::clear-cache"); }, "a completion notification");
}
static int64_t exec_op(Client& c, const Op& o, uint64_t uid, std::string& out) {
    const std::string& k = o.k;
    if (k == "open") return c_open(c, o);
    if (k == "close") { auto it = c.h.find(o.slot); if (it == c.h.end()) return -EBADF; Handle h = it->second; c.h.erase(it); k_release(h); return 0; }
    if (k == "read") return c_read(c, o, out);
    if (k == "write") return c_write(c, o, uid);
    if (k == "fsync") {
        auto it = c.h.find(o.slot); if (it == c.h.end()) return -EBADF;
        Handle h = it->second; ILock il(h.n);
        struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.fh = h.fh;
        return fnode(F_FSYNC, h.n, o.a, 0, h.fh, "", [&](CallRes& x, const char* p) { x.r = ops.fsync(p, (int)o.a, &fi); }).r;
    }
    if (k == "lseek") {     // the kernel sends only SEEK_DATA and SEEK_HOLE
        auto it = c.h.find(o.slot); if (it == c.h.end()) return -EBADF;
        Handle h = it->second; ILock il(h.n);
        struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.fh = h.fh; fi.flags = h.flags;
        if (!ops.lseek) return -ENOSYS;
        return fnode(F_LSEEK, h.n, o.a, o.b, h.fh, "", [&](CallRes& x, const char* p) { x.r = ops.lseek(p, o.a, (int)o.b, &fi); }).r;
    }
    if (k == "ftrunc") {
        auto it = c.h.find(o.slot); if (it == c.h.end()) return -EBADF;
        Handle h = it->second; if ((h.flags & O_ACCMODE) == O_RDONLY) return -EINVAL;
        ILock il(h.n);
        struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.fh = h.fh;
        int64_t r = fnode(F_TRUNCATE, h.n, o.a, 0, h.fh, "", [&](CallRes& x, const char* p) { x.r = ops.truncate(p, up_size(o.a), &fi); }).r;
        if (r == 0) k_fgetattr(h.n);
        return r;
    }
    if (k == "trunc") {
        std::string p = unesc_root(o.p);
        auto l = lookup(p); if (l.r < 0) return l.r;
        if (S_ISDIR(l.st.st_mode)) return -EISDIR;
        if (!S_ISREG(l.st.st_mode)) return -EINVAL;
        ILock il(node(p));
        int64_t r = fcall(F_TRUNCATE, p, "", o.a, 0, 0, 0, false, "", {{p, false}}, [&](CallRes& x) { x.r = ops.truncate(p.c_str(), up_size(o.a), nullptr); }).r;
        if (r == 0) k_getattr(p);
        return r;
    }
    if (k == "stat") return lookup(unesc_root(o.p)).r;
    if (k == "fstat") { auto it = c.h.find(o.slot); if (it == c.h.end()) return -EBADF; return k_fgetattr(it->second.n).r; }
    if (k == "unlink") return c_unlink(c, o);
    if (k == "rename") return c_rename(c, o);
    if (k == "link") {
        std::string a = unesc_root(o.p), b = unesc_root(o.q);
        auto l = lookup(a); if (l.r < 0) return l.r;
        if (S_ISDIR(l.st.st_mode)) return -EPERM;
        DLock d({parent(b)});
        auto t = lookup(b); if (t.r == 0) return -EEXIST; if (t.r != -ENOENT) return t.r;
        ILock il(node(a));
        int64_t r = fcall(F_LINK, a, b, 0, 0, 0, 0, false, "", {{a, false}, {b, false}}, [&](CallRes& x) { x.r = ops.link(a.c_str(), b.c_str()); }).r;
        if (r == 0) k_getattr(b);
        return r;
    }
    if (k == "symlink") {
        std::string b = unesc_root(o.q);
        DLock d({parent(b)});
        auto t = lookup(b); if (t.r == 0) return -EEXIST; if (t.r != -ENOENT) return t.r;
        int64_t r = fcall(F_SYMLINK, o.p, b, 0, 0, 0, 0, false, "", {{b, false}}, [&](CallRes& x) { x.r = ops.symlink(o.p.c_str(), b.c_str()); }).r;
        if (r == 0) k_getattr(b);
        return r;
    }
    if (k == "readlink") {
        std::string p = unesc_root(o.p);
        auto l = lookup(p); if (l.r < 0) return l.r;
        if (!S_ISLNK(l.st.st_mode)) return -EINVAL;
        auto r = fcall(F_READLINK, p, "", 0, 0, 0, 0, false, "", {{p, false}}, [&](CallRes& x) {
            char b[4097]; memset(b, 0x55, sizeof b); b[4096] = 0;
            x.r = ops.readlink(p.c_str(), b, sizeof b);
            if (x.r == 0) x.data = b;
        });
        out = r.data;
        return r.r;
    }
    if (k == "mkdir") {
        std::string p = unesc_root(o.p);
        DLock d({parent(p)});
        auto t = lookup(p); if (t.r == 0) return -EEXIST; if (t.r != -ENOENT) return t.r;
        int64_t r = fcall(F_MKDIR, p, "", 0755, 0, 0, 0, false, "", {{p, false}}, [&](CallRes& x) { x.r = ops.mkdir(p.c_str(), 0755); }).r;
        if (r == 0) k_getattr(p);
        return r;
    }
    if (k == "rmdir") {
        std::string p = unesc_root(o.p);
        DLock d({parent(p)});
        auto t = lookup(p); if (t.r < 0) return t.r;
        if (!S_ISDIR(t.st.st_mode)) return -ENOTDIR;
        return fcall(F_RMDIR, p, "", 0, 0, 0, 0, false, "", {{p, true}}, [&](CallRes& x) { x.r = ops.rmdir(p.c_str()); }).r;
    }
    if (k == "readdir") {
        std::string p = o.p.empty() ? "/simroot" : unesc_root(o.p);
        if (!o.p.empty()) { auto t = lookup(p); if (t.r < 0) return t.r; if (!S_ISDIR(t.st.st_mode)) return -ENOTDIR; }
        struct fuse_file_info fi; memset(&fi, 0, sizeof fi);
        return fcall(F_READDIR, p, "", 0, 0, 0, 0, true, "", {{p, false}}, [&](CallRes& x) { x.r = ops.readdir(p.c_str(), &x, fill, 0, &fi, (fuse_readdir_flags)0); }).r;
    }
    if (k == "chmod" || k == "chown" || k == "utimens" || k == "access") {
        std::string p = unesc_root(o.p);
        auto t = lookup(p); if (t.r < 0) return t.r;
        int64_t r;
        if (k == "access") return fcall(F_ACCESS, p, "", o.a, 0, 0, 0, false, "", {{p, false}}, [&](CallRes& x) { x.r = ops.access(p.c_str(), (int)o.a); }).r;
        ILock il(node(p));
        if (k == "chmod") r = fcall(F_CHMOD, p, "", o.a, 0, 0, 0, false, "", {{p, false}}, [&](CallRes& x) { x.r = ops.chmod(p.c_str(), (mode_t)o.a, nullptr); }).r;
        else if (k == "chown") r = fcall(F_CHOWN, p, "", o.a, o.b, 0, 0, false, "", {{p, false}}, [&](CallRes& x) { x.r = ops.chown(p.c_str(), (uid_t)o.a, (gid_t)o.b, nullptr); }).r;
        else {
            struct timespec ts[2];
            ts[0].tv_sec = o.a / 1000000000; ts[0].tv_nsec = o.a % 1000000000;
            ts[1].tv_sec = o.b / 1000000000; ts[1].tv_nsec = o.b % 1000000000;
            if (o.c & 1) ts[0].tv_nsec = UTIME_OMIT;
            if (o.c & 2) ts[1].tv_nsec = UTIME_OMIT;
            if (o.c & 4) ts[0].tv_nsec = UTIME_NOW;
            if (o.c & 8) ts[1].tv_nsec = UTIME_NOW;
            r = fcall(F_UTIMENS, p, "", o.a, o.b, o.c, 0, false, "", {{p, false}}, [&](CallRes& x) { x.r = ops.utimens(p.c_str(), ts, nullptr); }).r;
        }
        if (r == 0) k_getattr(p);
        return r;
    }
    if (k == "cmd") {
        rec(R_CMDW, {o.a}, {o.p});
        race_release(&fifo_in, true);
        fifo_in += o.p;
        yield_point();
        cmdtext += o.p;
        if (o.a == 2) wait_done();
        else if (o.a) wait_worker();
        if (o.a) rec(R_CMDDONE);
        return 0;
    }
    if (k == "waitcmds") { wait_worker(); rec(R_CMDDONE); return 0; }
    if (k == "barrier") {
        c.barrier++;
        size_t b = c.barrier;
        block_until([b] { for (auto& x : clients) if (!x->done && x->barrier < b) return false; return true; }, "barrier");
        race_join_all();
        return 0;
    }
    if (k == "skew") { g_skew += o.a; return 0; }
    if (k == "opendone") { done_reader = true; return 0; }
    if (k == "yield") { for (int64_t i = 0; i < o.a; i++) yield_point(); return 0; }
    finish(E_HARNESS, "unknown op " + k);
}

extern "C" struct fuse_context* sim_fuse_get_context() {
    cur->ctx.private_data = cur->priv;
    cur->ctx.uid = 0; cur->ctx.gid = 0; cur->ctx.pid = 99;
    return &cur->ctx;
}
extern "C" void sim_fuse_exit(void*) {}
extern "C" int sim_fuse_main_real(int ac, char** av, const struct fuse_operations* op, size_t sz, void* user) {
    memset(&ops, 0, sizeof ops);
    memcpy(&ops, op, std::min(sz, sizeof ops));
    g_user = user;
    cur->priv = user;
    struct fuse_conn_info conn; memset(&conn, 0, sizeof conn);
    struct fuse_config cfg; memset(&cfg, 0, sizeof cfg);
    cur->name = "main";
    std::vector<std::string> args = {"argv"};
    for (int i = 0; i < ac; i++) args.push_back(av[i] ? av[i] : "(null)");
    rec(R_NOTE, {}, args);
    if (ops.init) { void* r = ops.init(&conn, &cfg); g_user = r; }
    g_running = true;
    // users start their workload once LazyFS is up: the worker has opened the FIFO
    block_until([] { return g_workers == 0 || fifo_reader_blocked || !done_reader; }, "start of the faults worker");
    race_join_all();
    for (size_t i = 0; i < L->clients.size(); i++) {
        clients.push_back(std::make_unique<Client>());
        clients.back()->id = (int)i;
    }
    bool seq = L->clients.size() == 1;
    for (size_t i = 0; i < L->clients.size(); i++) {
        Client* c = clients[i].get();
        spawn("client" + std::to_string(i), [c, i, seq] {
            const auto& v = L->clients[i];
            for (size_t k = 0; k < v.size(); k++) {
                std::string out;
                uint64_t uid = (uint64_t)(1 + (i + 1) * 100000 + k);
                int64_t r = exec_op(*c, v[k], uid, out);
                rec(R_CLIENT, {(int64_t)i, (int64_t)k, r}, {out});
                if (seq && (v[k].k != "cmd" || v[k].a)) {
                    size_t of = 0, hs = 0;
                    for (auto& f : fdt) if (f.second.kind == 1 || f.second.kind == 2 || f.second.kind == 5) of++;
                    for (auto& cl : clients) hs += cl->h.size();
                    rec(R_SYNC, {(int64_t)of, (int64_t)hs});
                }
                yield_point();
            }
            c->done = true;
        });
    }
    block_until([] { for (auto& c : clients) if (!c->done) return false; return true; }, "end of the workload");
    race_join_all();
    if (L->stop != 2) block_until([] { return fifo_in.empty() && (g_workers == 0 || fifo_reader_blocked || !done_reader); }, "completion of faults FIFO commands");
    race_join_all();
    {
        size_t of = 0, hs = 0;
        for (auto& f : fdt) if (f.second.kind == 1 || f.second.kind == 2 || f.second.kind == 5) of++;
        for (auto& cl : clients) hs += cl->h.size();
        rec(R_SYNC, {(int64_t)of, (int64_t)hs});
    }
    if (!L->stop) finish(E_DONE, "done");
    g_stopping = true;
    if (ops.destroy) ops.destroy(g_user);
    yield_point();
    return 0;
}

// ------------------------------------------------------------------ lifetime entry
static void on_signal(int sig) {
    g_shm->sig = sig;
    g_shm->end = sig == SIGXCPU ? E_CPU : E_SIGNAL;
    g_shm->steps = g_step;
    g_shm->decisions = g_dec;
    snprintf(g_shm->msg, sizeof g_shm->msg, "process died of signal %d in %s", sig, cur ? cur->name.c_str() : "?");
    _exit(0);
}
void run_lifetime(const Plan& plan, size_t life, SimFs disk) {
    P = &plan;
    L = &plan.lives[life];
    srng = Rng(L->sseed * 77 + 5);
    g_fine = L->fine;
    for (auto& d : L->sched) g_list[d.first] = d.second;
    if (L->policy == "pct" || L->policy == "pctm") for (int i = 0; i < L->pctd; i++) g_change.insert(1 + srng.below(L->pctk + 1));
    g_base_ns = (1700000000ll + (int64_t)life * 1000) * 1000000000ll + 123456;
    fs = new SimFs(std::move(disk));
    fs->now_ns = now_ns();
    done_reader = true;
    for (auto& c : L->clients) for (auto& o : c) if (o.k == "opendone") done_reader = false;
    struct rlimit rl = {6, 12};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    static char alt[65536];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGXCPU, SIGPIPE}) sigaction(s, &sa, nullptr);
    tls_init();
    __libc_single_threaded = 0;         // the code under test believes it is multi-threaded, as it is in reality
    F.push_back(std::make_unique<Fiber>());
    cur = F[0].get();
    cur->name = "main"; cur->prio = 1 << 30;
    int fd = memfd_create("cfg", 0);
    std::string t = plan.toml();
    if (write(fd, t.data(), t.size()) != (ssize_t)t.size()) finish(E_HARNESS, "memfd");
    g_cfgfd = fd;
    if (life > 0) { fifos.insert(P->fifo); if (P->done_fifo) fifos.insert(P->done); }
    std::vector<std::string> av = plan.argv();
    std::vector<char*> argv;
    for (auto& a : av) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    g_race_on = RACE_BUILD;
    int r = lazyfs_entry((int)av.size(), argv.data());
    rec(R_NOTE, {r}, {"main-returned"});
    if (g_stopping) sim_exit(r);
    finish(E_EXIT, "main returned " + std::to_string(r));
}
