// A small vector-clock race detector driven by the compiler's -fsanitize=thread instrumentation of the repository's
// code.  The tasks are the simulator's fibers, so what is explored (and reported) is a function of the seed.
#include "race.h"
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <map>
#include <new>

bool g_race_on = false;
#ifdef LFSIM_RACE
int race_cur();                         // current fiber, -1 outside
void race_found(const char* kind, const uint64_t* s1, int t1, const uint64_t* s2, int t2, const void* addr);
void race_yield();

static const int N = 24;
struct VC { uint32_t c[N]; };
static VC vc[N];
static bool init_done = false;
static void init() { if (!init_done) { init_done = true; memset(vc, 0, sizeof vc); for (int i = 0; i < N; i++) vc[i].c[i] = 1; } }
static void join(VC& a, const VC& b) { for (int i = 0; i < N; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
struct LockVC { VC w, r; };
static std::map<const void*, LockVC>* locks;
static LockVC& lk(const void* p) {
    if (!locks) locks = new std::map<const void*, LockVC>();
    auto it = locks->find(p);
    if (it == locks->end()) { LockVC z; memset(&z, 0, sizeof z); it = locks->insert({p, z}).first; }
    return it->second;
}
void race_fork(int p, int c) { init(); if (p < 0 || p >= N || c >= N) return; join(vc[c], vc[p]); vc[p].c[p]++; }
void race_join(int w, int f) { init(); if (w < 0 || w >= N || f >= N) return; join(vc[w], vc[f]); vc[f].c[f]++; }
void race_join_all() { int t = race_cur(); if (t < 0 || t >= N) return; init(); for (int i = 0; i < N; i++) { join(vc[t], vc[i]); if (i != t) vc[i].c[i]++; } }
void race_acquire(const void* o, bool x) { int t = race_cur(); if (t < 0 || t >= N) return; init(); auto& l = lk(o); join(vc[t], l.w); if (x) join(vc[t], l.r); }
void race_release(const void* o, bool x) { int t = race_cur(); if (t < 0 || t >= N) return; init(); auto& l = lk(o); join(x ? l.w : l.r, vc[t]); vc[t].c[t]++; }
void race_rmw(const void* o) { race_acquire(o, true); race_release(o, true); }
void race_forget(const void* o) { if (locks) locks->erase(o); }

// where an access was made: its address and the innermost callers (from the function entry/exit instrumentation)
static const int D = 6;
struct Site { uint64_t pc[D]; };
struct Stack { uint64_t pc[256]; int n; };
static Stack stk[N];
static Site sites[1 << 16]; static uint16_t siteh[1 << 17]; static uint32_t nsites = 1;
static uint32_t site(int t, void* pc) {
    Site s; memset(&s, 0, sizeof s);
    s.pc[0] = (uint64_t)pc;
    Stack& k = stk[t];
    for (int i = 1; i < D && k.n - i >= 0; i++) if (k.n - i < 256) s.pc[i] = k.pc[k.n - i];
    uint64_t h = 0;
    for (int i = 0; i < D; i++) h = (h ^ s.pc[i]) * 0x9E3779B97F4A7C15ull;
    uint32_t b = (uint32_t)(h >> 47);
    while (siteh[b] && memcmp(&sites[siteh[b]], &s, sizeof s)) b = (b + 1) & ((1 << 17) - 1);
    if (!siteh[b]) { if (nsites >= 65535) return 0; sites[nsites] = s; siteh[b] = (uint16_t)nsites++; }
    return siteh[b];
}

// shadow memory: a page table of 8-byte granules, each remembering a few accesses
struct Cell { uint32_t clk; uint16_t site; uint8_t mask, tid : 6, wr : 1, used : 1; };
static const int K = 6;
struct Gran { Cell c[K]; };
struct ShPage { Gran g[64]; };           // of 512 bytes
// which bytes may be touched: per granule 0 (all), or 1 + the number of leading bytes
struct BadPage { uint64_t page; uint8_t bad[512]; };
static BadPage* bads[1 << 14];
static uint8_t* badpage(uint64_t page, bool make) {
    size_t h = (page * 0x9E3779B97F4A7C15ull) >> (64 - 14);
    while (bads[h] && bads[h]->page != page) h = (h + 1) & ((1 << 14) - 1);
    if (!bads[h]) {
        static size_t used = 0;
        if (!make || used > (1 << 13)) return nullptr;
        used++;
        bads[h] = (BadPage*)calloc(1, sizeof(BadPage)); bads[h]->page = page;
    }
    return bads[h]->bad;
}
static const int HB = 18;
struct Ent { uint64_t page; ShPage* sh; };
static Ent* tab = nullptr;               // open addressing
static size_t tabn = 0, tabu = 0;
static ShPage* last = nullptr; static uint64_t lastp = ~0ull;
static ShPage* shadow(uint64_t page, bool make) {
    if (page == lastp) return last;
    if (!tab) { tabn = 1 << HB; tab = (Ent*)calloc(tabn, sizeof(Ent)); }
    size_t h = (((page >> 5) * 0x9E3779B97F4A7C15ull) >> (64 - HB + 5)) << 5 | (page & 31);
    while (tab[h].sh && tab[h].page != page) h = (h + 1) & (tabn - 1);
    if (!tab[h].sh) {
        if (!make || tabu * 2 > tabn) return nullptr;
        tabu++;
        tab[h].page = page; tab[h].sh = (ShPage*)calloc(1, sizeof(ShPage));
    }
    lastp = page; last = tab[h].sh;
    return last;
}
static struct { uint64_t lo, hi; } stacks[64]; static int nstacks = 0;
void race_stack(const void* lo, const void* hi) { if (nstacks < 64) stacks[nstacks++] = {(uint64_t)lo, (uint64_t)hi}; }
static bool on_stack(uint64_t a) {
    if (a >= 0x7ffff0000000ull) { uint64_t sp = (uint64_t)__builtin_frame_address(0); (void)sp; if (a >= 0x7fffff000000ull - (64ull << 20)) return true; }
    for (int i = 0; i < nstacks; i++) if (a >= stacks[i].lo && a < stacks[i].hi) return true;
    return false;
}
static void gran(uint64_t ga, uint8_t mask, bool wr, int t, uint32_t st, const char* kind) {
    ShPage* s = shadow(ga >> 9, true);
    if (!s) return;
    Gran& g = s->g[(ga >> 3) & 63];
    int slot = -1, freeslot = -1, old = -1;
    for (int i = 0; i < K; i++) {
        Cell& c = g.c[i];
        if (!c.used) { if (freeslot < 0) freeslot = i; continue; }
        if (c.tid == t) { if (c.wr == wr && c.mask == mask) slot = i; else if ((c.mask & mask) == c.mask && (wr || !c.wr) && old < 0) old = i; continue; }
        bool hb = c.clk <= vc[t].c[c.tid];
        if (!hb && (c.mask & mask) && (c.wr || wr)) { race_found(kind, sites[c.site].pc, c.tid | (c.wr ? 256 : 0), sites[st].pc, t | (wr ? 256 : 0), (void*)ga); }
        if (hb && (c.mask & mask) == c.mask && (wr || !c.wr) && old < 0) old = i;
    }
    if (slot < 0) slot = freeslot >= 0 ? freeslot : old >= 0 ? old : (int)((ga >> 3) % K);
    Cell& n = g.c[slot];
    n.clk = vc[t].c[t]; n.site = (uint16_t)st; n.mask = mask; n.tid = (uint8_t)t; n.wr = wr; n.used = 1;
}
static const uint8_t FREED = 200, OUTSIDE = 1;
void race_access(const void* p, size_t n, bool wr, void* pc) {
    if (!g_race_on || !n) return;
    int t = race_cur();
    if (t < 0 || t >= N) return;
    uint64_t a = (uint64_t)p, e = a + n;
    if (on_stack(a)) return;
    uint32_t st = site(t, pc);
    uint8_t* bp = nullptr;
    for (uint64_t g = a & ~7ull; g < e; g += 8) {
        if (!bp || (g & 4095) == 0) bp = badpage(g >> 12, false);
        uint8_t bad = bp ? bp[(g >> 3) & 511] : 0;
        if (bad && (bad >= FREED || (e < g + 8 ? e - g : 8) > (uint64_t)(bad - 1))) {
            race_found(bad == FREED ? "memory: use of released memory" : "memory: access outside the allocated memory", sites[st].pc, t | (wr ? 256 : 0), sites[st].pc, t | (wr ? 256 : 0), p);
            return;
        }
        uint8_t m = 255;
        if (g < a) m &= (uint8_t)(255 << (a - g));
        if (g + 8 > e) m &= (uint8_t)(255 >> (g + 8 - e));
        gran(g, m, wr, t, st, "access");
    }
}
static void freed(void* p, void* pc) {
    if (!p || !g_race_on) return;
    int t = race_cur();
    if (t < 0 || t >= N) return;
    size_t n = malloc_usable_size(p);
    for (uint64_t g = (uint64_t)p & ~7ull; g < (uint64_t)p + n; g += 8) {
        ShPage* s = shadow(g >> 9, false);
        if (!s) continue;
        Gran& x = s->g[(g >> 3) & 63];
        for (int i = 0; i < K; i++) {
            Cell& c = x.c[i];
            if (c.used && c.tid != t && c.clk > vc[t].c[c.tid]) race_found("release of memory", sites[c.site].pc, c.tid | (c.wr ? 256 : 0), sites[site(t, pc)].pc, t | 256, (void*)g);
        }
        memset(&x, 0, sizeof x);
    }
}
void race_freed(void* p) { freed(p, __builtin_return_address(0)); }
// Memory from operator new: the bytes past its end, the word before it and, for a while after its release, all of it
// may not be touched.
static void mark(uint64_t a, uint64_t e, uint8_t v) {
    uint8_t* b = nullptr; bool have = false;
    for (uint64_t g = a & ~7ull; g < e; g += 8) {
        if (!have || (g & 4095) == 0) b = badpage(g >> 12, v != 0), have = true;
        if (b) b[(g >> 3) & 511] = v;
    }
}
static const size_t QN = 2048, QB = 1u << 20;
static struct { void* p; size_t n; } quar[QN];
static size_t qh = 0, qt = 0, qbytes = 0;
static void* allocate(size_t n) {
    void* p = malloc(n + 8);
    if (!p) throw std::bad_alloc();
    if (!g_race_on) return p;
    uint64_t a = (uint64_t)p, e = a + malloc_usable_size(p);
    mark(a, e, 0);
    mark(a - 8, a, OUTSIDE);
    mark((a + n + 7) & ~7ull, e, OUTSIDE);
    if (n & 7) if (uint8_t* b = badpage((a + n) >> 12, true)) b[((a + n) >> 3) & 511] = (uint8_t)(1 + (n & 7));
    return p;
}
static void release(void* p, void* pc) {
    if (!p) return;
    freed(p, pc);
    if (!g_race_on) { free(p); return; }
    uint64_t a = (uint64_t)p; size_t n = malloc_usable_size(p);
    if (uint8_t* b = badpage(a >> 12, false))
        if (b[(a >> 3) & 511] == FREED) { int t = race_cur(); if (t >= 0 && t < N) { uint32_t st = site(t, pc); race_found("memory: released twice", sites[st].pc, t | 256, sites[st].pc, t | 256, p); } return; }
    mark(a, a + n, FREED);
    while (qt - qh == QN || (qt != qh && qbytes + n > QB)) {
        auto& q = quar[qh++ % QN];
        qbytes -= q.n;
        mark((uint64_t)q.p - 8, (uint64_t)q.p + q.n, 0);
        free(q.p);
    }
    quar[qt++ % QN] = {p, n}; qbytes += n;
}
#define NI __attribute__((noinline))
NI void* operator new(size_t n) { return allocate(n); }
NI void* operator new[](size_t n) { return allocate(n); }
NI void operator delete(void* p) noexcept { release(p, __builtin_return_address(0)); }
NI void operator delete[](void* p) noexcept { release(p, __builtin_return_address(0)); }
NI void operator delete(void* p, size_t) noexcept { release(p, __builtin_return_address(0)); }
NI void operator delete[](void* p, size_t) noexcept { release(p, __builtin_return_address(0)); }

#define PC __builtin_return_address(0)
extern "C" {
void* simr_memcpy(void* d, const void* s, size_t n) { race_access(s, n, false, PC); race_access(d, n, true, PC); return memcpy(d, s, n); }
void* simr_memmove(void* d, const void* s, size_t n) { race_access(s, n, false, PC); race_access(d, n, true, PC); return memmove(d, s, n); }
void* simr_memset(void* d, int c, size_t n) { race_access(d, n, true, PC); return memset(d, c, n); }
int simr_memcmp(const void* d, const void* s, size_t n) { race_access(s, n, false, PC); race_access(d, n, false, PC); return memcmp(d, s, n); }
void simr_free(void* p) { freed(p, __builtin_return_address(0)); free(p); }
int simr_guard_acquire(uint64_t* g) { race_acquire(g, true); return *(char*)g == 0; }
void simr_guard_release(uint64_t* g) { *(char*)g = 1; race_release(g, true); }
void simr_guard_abort(uint64_t* g) { race_release(g, true); }

void __tsan_init() {}
void __tsan_func_entry(void* pc) { int t = race_cur(); if (t < 0 || t >= N) return; Stack& k = stk[t]; if (k.n < 256) k.pc[k.n] = (uint64_t)pc; k.n++; }
void __tsan_func_exit() { int t = race_cur(); if (t < 0 || t >= N) return; if (stk[t].n > 0) stk[t].n--; }
#define RW(n) void __tsan_read##n(void* p) { race_access(p, n, false, PC); } void __tsan_write##n(void* p) { race_access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { race_access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { race_access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { race_access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { race_access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { race_access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { race_access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) race_access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { race_access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int) { race_yield(); race_acquire((void*)p, true); return *p; } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { race_yield(); race_release((void*)p, true); *p = v; } \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { race_yield(); race_rmw((void*)p); T o = *p; *p = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { race_yield(); race_rmw((void*)p); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { race_yield(); race_rmw((void*)p); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { race_yield(); race_rmw((void*)p); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { race_yield(); race_rmw((void*)p); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { race_yield(); race_rmw((void*)p); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { race_yield(); race_rmw((void*)p); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { race_yield(); race_rmw((void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { race_yield(); race_rmw((void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { race_yield(); race_rmw((void*)p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
#else
void race_fork(int, int) {}
void race_join(int, int) {}
void race_acquire(const void*, bool) {}
void race_release(const void*, bool) {}
void race_forget(const void*) {}
void race_rmw(const void*) {}
void race_join_all() {}
void race_access(const void*, size_t, bool, void*) {}
void race_stack(const void*, const void*) {}
void race_freed(void*) {}
#endif
