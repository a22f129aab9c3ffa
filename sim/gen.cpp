// Seeded plan generators, one profile per property.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <set>

using std::string;
using std::vector;

namespace {
struct G {
    Rng r;
    Plan p;
    vector<string> names = {"f0", "f1", "f2"};
    vector<string> dirs;
    std::map<string, double> w;                 // weights of operations
    std::map<int, string> slots;                // generator's idea of what is open
    int nslots = 3;
    int block = 64;
    int maxblocks = 6;
    bool waitcmd = true, flagged = false;
    double excl = 0.05;
    bool wide = false;          // files of more blocks than one vectored write takes
    int roomy = 0;              // 1: the number of pages is fixed by the profile
    vector<string> cmds = {"lazyfs::clear-cache"};
    explicit G(uint64_t seed) : r(seed) {}

    string path() {
        string n = r.pick(names);
        if (!dirs.empty() && r.p(0.4)) return r.pick(dirs) + "/" + n;
        return n;
    }
    int64_t off() {
        if (wide && r.p(0.3)) return std::max<int64_t>(0, ((int64_t)r.pick(vector<int>{1022, 1023, 1024, 1025, 2047, 2048, 2049}) * block - (int64_t)r.below(3) + 1));
        double x = (double)r.below(100);
        if (x < 25) return 0;
        if (x < 50) return (int64_t)r.below(maxblocks) * block;
        if (x < 65) return std::max<int64_t>(0, (int64_t)(1 + r.below(maxblocks)) * block - (int64_t)r.below(3) + 1);
        return (int64_t)r.below((uint64_t)maxblocks * block);
    }
    int64_t len() {
        if (wide && r.p(0.35)) return (int64_t)(r.p(0.5) ? r.pick(vector<int>{1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049}) : 1000 + (int)r.below(1400)) * block - (r.p(0.6) ? 0 : (int64_t)r.below(block));
        double x = (double)r.below(100);
        if (x < 25) return 1 + (int64_t)r.below(block);
        if (x < 45) return block;
        if (x < 60) return (int64_t)(1 + r.below(3)) * block;
        if (x < 75) return block + (int64_t)r.below(3) - 1;
        return 1 + (int64_t)r.below((uint64_t)block * 4);
    }
    int slot_any() { return (int)r.below(nslots); }
    int slot_open() {
        if (slots.empty()) return slot_any();
        auto it = slots.begin(); std::advance(it, r.below(slots.size()));
        return it->first;
    }
    int slot_free() { for (int i = 0; i < nslots; i++) if (!slots.count(i)) return i; return -1; }
    string kind() {
        double t = 0; for (auto& x : w) t += x.second;
        double v = (double)(r.next() >> 11) / 9007199254740992.0 * t;
        for (auto& x : w) { v -= x.second; if (v < 0) return x.first; }
        return w.rbegin()->first;
    }
    static Op mk(const string& k, int slot = 0, int64_t a = 0, int64_t b = 0, int64_t c = 0, const string& p = "", const string& q = "") {
        Op o; o.k = k; o.slot = slot; o.a = a; o.b = b; o.c = c; o.p = p; o.q = q; return o;
    }
    int oflags(bool creat) {
        int f;
        uint64_t x = r.below(10);
        f = x < 6 ? O_RDWR : x < 8 ? O_WRONLY : O_RDONLY;
        if (creat && r.p(0.75)) f |= O_CREAT;
        if (r.p(0.12) && (f & O_ACCMODE) != O_RDONLY) f |= O_TRUNC;
        if (r.p(0.12) && (f & O_ACCMODE) != O_RDONLY) f |= O_APPEND;
        if ((f & O_CREAT) && r.p(excl)) f |= O_EXCL;
        return f;
    }
    // files that come and go: no handle stays open, so that inodes are freed and used again
    int churn(vector<Op>& v) {
        const string n = r.pick(names); double x = (double)r.below(100);
        if (x < 45) {
            v.push_back(mk("open", 1, O_RDWR | O_CREAT | (r.p(0.15) ? O_TRUNC : 0), 0, 0, n));
            if (r.p(0.75)) v.push_back(mk("write", 1, r.p(0.7) ? 0 : off(), 1 + (int64_t)r.below((uint64_t)block * 2)));
            if (r.p(0.25)) v.push_back(mk("fsync", 1, (int64_t)r.below(2)));
            if (r.p(0.25)) v.push_back(mk("read", 1, 0, (int64_t)block * 4, 1));
            v.push_back(mk("close", 1));
            return 3;
        }
        if (x < 63) v.push_back(mk("unlink", 0, 0, 0, 0, n));
        else if (x < 82) v.push_back(mk("rename", 0, 0, 0, 0, n, r.pick(names)));
        else if (x < 85) v.push_back(mk("trunc", 0, off(), 0, 0, n));
        else if (x < 92) v.push_back(mk("stat", 0, 0, 0, 0, n));
        else { v.push_back(mk("open", 1, O_RDONLY, 0, 0, n)); v.push_back(mk("read", 1, 0, (int64_t)block * 4, 1)); v.push_back(mk("close", 1)); return 3; }
        return 1;
    }
    void cmd(vector<Op>& v, const string& text) {
        v.push_back(mk("cmd", 0, waitcmd ? 1 : 0, 0, 0, text + "\n"));
    }
    void gen(vector<Op>& v) {
        string k = kind();
        if (k == "open") {
            int s = slot_free();
            if (s < 0) { s = slot_any(); v.push_back(mk("close", s)); slots.erase(s); }
            string n = path();
            v.push_back(mk("open", s, oflags(true), 0, 0, n));
            slots[s] = n;
        } else if (k == "close") {
            int s = slot_open(); v.push_back(mk("close", s)); slots.erase(s);
        } else if (k == "write") {
            v.push_back(mk("write", slot_open(), off(), len()));
        } else if (k == "read") {
            v.push_back(mk("read", slot_open(), off(), r.p(0.3) ? (int64_t)block * (maxblocks + 2) : len(), r.p(0.7)));
        } else if (k == "readall") {
            v.push_back(mk("read", slot_open(), 0, (int64_t)block * (maxblocks + 6), 1));
        } else if (k == "fsync") {
            v.push_back(mk("fsync", slot_open(), r.below(2)));
        } else if (k == "ftrunc") {
            v.push_back(mk("ftrunc", slot_open(), r.p(0.2) ? 0 : off() + (int64_t)r.below(2)));
        } else if (k == "trunc") {
            v.push_back(mk("trunc", 0, r.p(0.2) ? 0 : off(), 0, 0, path()));
        } else if (k == "stat") v.push_back(mk("stat", 0, 0, 0, 0, path()));
        else if (k == "fstat") v.push_back(mk("fstat", slot_open()));
        else if (k == "unlink") v.push_back(mk("unlink", 0, 0, 0, 0, path()));
        else if (k == "rename") v.push_back(mk("rename", 0, flagged && r.p(0.12) ? 1 + (int64_t)r.below(2) : 0, 0, 0, path(), path()));
        else if (k == "lseek") v.push_back(mk("lseek", slot_open(), r.p(0.3) ? (int64_t)r.below(4) : off(), r.p(0.5) ? SEEK_DATA : SEEK_HOLE));
        else if (k == "alias") {    // the name that was used goes away, the inode lives on under another one
            string a = path(), b = path();
            v.push_back(mk("link", 0, 0, 0, 0, a, b));
            if (r.p(0.4)) { v.push_back(mk("open", 8, O_RDWR, 0, 0, a)); v.push_back(mk("write", 8, off(), len())); v.push_back(mk("close", 8)); }
            if (r.p(0.4)) gen(v);
            v.push_back(r.p(0.7) ? mk("unlink", 0, 0, 0, 0, a) : mk("rename", 0, 0, 0, 0, path(), a));
        }
        else if (k == "link") v.push_back(mk("link", 0, 0, 0, 0, path(), path()));
        else if (k == "symlink") v.push_back(mk("symlink", 0, 0, 0, 0, r.p(0.15) ? string(r.range(200, 900), 't') : r.pick(names), (dirs.empty() || r.p(0.5) ? string() : r.pick(dirs) + "/") + "s" + std::to_string(r.below(2))));
        else if (k == "readlink") v.push_back(mk("readlink", 0, 0, 0, 0, (dirs.empty() || r.p(0.5) ? string() : r.pick(dirs) + "/") + "s" + std::to_string(r.below(2))));
        else if (k == "unlinks") v.push_back(mk("unlink", 0, 0, 0, 0, (dirs.empty() || r.p(0.5) ? string() : r.pick(dirs) + "/") + "s" + std::to_string(r.below(2))));
        else if (k == "mkdir" && !dirs.empty()) v.push_back(mk("mkdir", 0, 0, 0, 0, r.pick(dirs)));
        else if (k == "rmdir" && !dirs.empty()) v.push_back(mk("rmdir", 0, 0, 0, 0, r.pick(dirs)));
        else if (k == "renamedir" && !dirs.empty()) v.push_back(mk("rename", 0, flagged && r.p(0.1) ? 1 + (int64_t)r.below(2) : 0, 0, 0, r.pick(dirs), r.pick(dirs)));
        else if (k == "mvtree" && dirs.size() > 2) {      // a directory with files in a directory of it is renamed
            const string& n = r.pick(names);
            bool back = r.p(0.4); string a = back ? "e" : "d", b = back ? "d" : "e";
            if (r.p(0.7)) { v.push_back(mk("mkdir", 0, 0, 0, 0, a)); v.push_back(mk("mkdir", 0, 0, 0, 0, a + "/x")); }
            for (auto& m : names) if (m == n || r.p(0.3)) { string f = a + (r.p(0.7) ? "/x/" : "/") + m; v.push_back(mk("open", 8, O_RDWR | O_CREAT, 0, 0, f)); v.push_back(mk("write", 8, off(), len())); if (r.p(0.2)) v.push_back(mk("fsync", 8, 1)); v.push_back(mk("close", 8)); }
            if (r.p(0.6)) v.push_back(mk("rmdir", 0, 0, 0, 0, b));
            v.push_back(mk("rename", 0, 0, 0, 0, a, b));
            if (r.p(0.4)) gen(v);
            cmd(v, r.pick(cmds));
        }
        else if (k == "readdir") v.push_back(mk("readdir", 0, 0, 0, 0, dirs.empty() || r.p(0.5) ? string() : r.pick(dirs)));
        else if (k == "chmod") v.push_back(mk("chmod", 0, r.p(0.5) ? 0600 : 0644, 0, 0, path()));
        else if (k == "chown") v.push_back(mk("chown", 0, (int64_t)r.below(3), (int64_t)r.below(3), 0, path()));
        else if (k == "utimens") {
            int64_t a = (int64_t)r.below(2000000000) * 1000000000ll + (int64_t)r.below(1000000) * 1000, b = (int64_t)r.below(2000000000) * 1000000000ll + (int64_t)r.below(1000000) * 1000;
            int c = 0; uint64_t x = r.below(8);
            if (x == 0) c = 1; else if (x == 1) c = 2; else if (x == 2) c = 4 | 8; else if (x == 3) c = 8;
            v.push_back(mk("utimens", 0, a, b, c, path()));
        } else if (k == "access") v.push_back(mk("access", 0, R_OK, 0, 0, path()));
        else if (k == "cmd") cmd(v, r.pick(cmds));
        else if (k == "skew") v.push_back(mk("skew", 0, (int64_t)r.below(5000000000ll) - 500000000));
    }
    void body(vector<Op>& v, int n) { for (int i = 0; i < n; i++) gen(v); }
    void verify(vector<Op>& v) {    // read everything back
        for (auto& s : slots) v.push_back(mk("close", s.first));
        slots.clear();
        vector<string> all = names;
        for (auto& d : dirs) for (auto& n : names) all.push_back(d + "/" + n);
        for (auto& n : all) {
            v.push_back(mk("open", 9, O_RDONLY, 0, 0, n));
            v.push_back(mk("read", 9, 0, (int64_t)block * (maxblocks + 8), 1));
            v.push_back(mk("close", 9));
        }
        v.push_back(mk("readdir"));
    }
    Life& life() { p.lives.emplace_back(); slots.clear(); return p.lives.back(); }
    void cfg() {
        static const vector<int> bs = {16, 32, 64, 64, 128, 512};
        block = p.block = r.pick(bs);
        p.pages = 400;
        maxblocks = (int)r.range(3, 7);
        p.max_write = r.p(0.25) ? block * (int)r.range(1, 3) + (int)r.below(block) : 1 << 17;
        p.logall = r.p(0.1);
        if (wide) { block = p.block = r.pick(vector<int>{16, 32, 64}); p.pages = 8000; p.max_write = 1 << 17; maxblocks = (int)r.range(1024, 2200); roomy = 1; }
    }
    void tight(double q) {      // a cache that may become full: exact until it does
        if (p.exact && roomy == 0 && r.p(q)) { p.pages = (int)r.range(2, 4 * maxblocks); p.evict = r.p(0.4); }
    }
    void pre() {
        tight(0.3);
        for (auto& d : dirs) if (r.p(0.8)) p.pre.push_back(d + "/ 0 0");
        for (auto& n : names) if (r.p(0.5)) p.pre.push_back(n + " " + std::to_string(r.below((uint64_t)block * 4)) + " " + std::to_string(50 + r.below(1000)));
        if (!p.pre.empty() && w.count("link") && r.p(0.2)) {      // a second name for the last file
            string l = p.pre.back(), n = r.p(0.5) ? "h" : r.pick(names);
            if (l.find("/ ") == string::npos && l.find(n + " ") != 0) { bool has = false; for (auto& x : p.pre) if (x.find(n + " ") == 0) has = true; if (!has) { p.pre.push_back(n + " = " + l.substr(0, l.find(' '))); if (n == "h" && r.p(0.6)) names.push_back(n); } }
        }
        if (!p.pre.empty()) for (auto& d : dirs) if (r.p(0.3)) {
            bool has = false; for (auto& x : p.pre) if (x == d + "/ 0 0") has = true;
            if (has) p.pre.push_back(d + "/" + r.pick(names) + " " + std::to_string(r.below((uint64_t)block * 3)) + " " + std::to_string(50 + r.below(1000)));
        }
    }
    void sched_conc(Life& l, int nops) {
        l.sseed = r.next() % 1000000007;
        if (r.p(0.55)) { l.policy = "rw"; l.rwp = r.p(0.5) ? 0.5 : r.p(0.5) ? 0.15 : 0.04; }
        else { l.policy = "pct"; l.pctd = (int)r.range(1, 6); l.pctk = nops * (int)r.range(20, 60); }
        l.fine = r.p(0.35);
        if (l.fine && l.policy == "pct") l.pctk *= 5;
        // a task that is slow right after it changed the backing store
        if (l.policy == "pct" && r.p(0.4)) { l.policy = "pctm"; l.rwp = r.p(0.5) ? 0.5 : 0.2; l.pctd = (int)r.below(4); }
    }
    void sched_seq(Life& l) { l.policy = "seq"; l.sseed = r.next() % 1000000007; }
    void maybe_kill(Life& l, int nops, double q) {
        if (r.p(q)) l.kill_step = 30 + (int64_t)r.below((uint64_t)nops * 25 + 20);
    }
};
std::map<string, double> W_RW() {
    return {{"open", 3}, {"close", 1.5}, {"write", 6}, {"read", 4}, {"readall", 1.5}, {"fsync", 1}, {"ftrunc", 1.2}, {"trunc", .8}, {"stat", 1}, {"fstat", 1}};
}
void add(std::map<string, double>& m, std::map<string, double> x) { for (auto& k : x) m[k.first] = k.second; }

// ---- profiles
void p_rw(G& g) {
    g.cfg(); g.w = W_RW();
    add(g.w, {{"alias", .15}, {"link", .5}, {"unlink", .3}, {"rename", .3}, {"cmd", .25}});
    if (g.r.p(0.4)) add(g.w, {{"lseek", 1.5}});
    if (g.r.p(0.3)) add(g.w, {{"ftrunc", 3}, {"trunc", 2}});
    g.pre();
    int nl = (int)g.r.range(1, 2);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        int n = (int)g.r.range(10, 45);
        g.body(l.clients[0], n);
        g.verify(l.clients[0]);
        g.sched_seq(l);
    }
}
void p_sync(G& g) {
    g.cfg(); g.w = W_RW();
    add(g.w, {{"fsync", 3.5}, {"cmd", 1.5}, {"link", .4}, {"unlink", .3}, {"rename", .5}});
    g.cmds = {"lazyfs::clear-cache"};
    g.pre();
    int nl = (int)g.r.range(1, 3);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        int n = (int)g.r.range(8, 35);
        g.body(l.clients[0], n);
        if (g.r.p(0.4)) g.cmd(l.clients[0], "lazyfs::clear-cache");
        g.verify(l.clients[0]);
        g.sched_seq(l);
        g.maybe_kill(l, n, 0.6);
    }
}
void p_loss(G& g) {
    p_sync(g);
}
void p_loss2(G& g) {
    g.cfg(); g.w = W_RW();
    add(g.w, {{"alias", .2}, {"fsync", .7}, {"cmd", 2.2}, {"open", 4}, {"close", 2.5}, {"link", .5}, {"unlink", .4}, {"rename", .7}});
    g.cmds = {"lazyfs::clear-cache"};
    g.pre();
    int nl = (int)g.r.range(1, 3);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        int n = (int)g.r.range(8, 35);
        g.body(l.clients[0], n);
        g.verify(l.clients[0]);
        g.sched_seq(l);
        g.maybe_kill(l, n, 0.5);
    }
}
void p_ckpt(G& g) {
    g.cfg(); g.w = W_RW();
    add(g.w, {{"alias", .2}, {"fsync", .6}, {"cmd", 2.5}, {"link", .5}, {"unlink", .5}, {"rename", .8}});
    g.cmds = {"lazyfs::cache-checkpoint", "lazyfs::cache-checkpoint", "lazyfs::clear-cache"};
    double x = g.r.p(0.4) ? 1 : g.r.p(0.25) ? 2 : 0;
    if (x == 1) g.dirs = {"d"};
    if (x == 2) { g.dirs = {"d", "d/x", "e", "e/x"}; add(g.w, {{"mvtree", .6}, {"renamedir", .6}, {"mkdir", .4}, {"rmdir", .3}}); g.p.nodtype = g.r.p(0.25); }
    g.pre();
    int nl = (int)g.r.range(1, 2);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        int n = (int)g.r.range(8, 35);
        g.body(l.clients[0], n);
        if (g.r.p(0.6)) g.cmd(l.clients[0], "lazyfs::cache-checkpoint");
        if (g.r.p(0.6)) g.cmd(l.clients[0], "lazyfs::clear-cache");
        g.verify(l.clients[0]);
        g.sched_seq(l);
        g.maybe_kill(l, n, 0.5);
    }
}
void p_ns(G& g) {
    g.cfg(); g.w = W_RW(); g.flagged = g.r.p(0.5);
    g.dirs = {"d", "e"};
    add(g.w, {{"fsync", 1.5}, {"cmd", .8}, {"link", 2}, {"unlink", 2}, {"rename", 3}, {"mkdir", .6}, {"rmdir", .5}, {"renamedir", .6}, {"readdir", .6},
              {"symlink", .3}, {"readlink", .3}, {"unlinks", .2}, {"write", 5}, {"stat", 2}});
    if (g.r.p(0.35)) { g.dirs = {"d", "d/x", "e", "e/x"}; add(g.w, {{"mvtree", .8}}); g.p.nodtype = g.r.p(0.25); }
    g.names = {"f0", "f1"};
    if (g.r.p(0.5)) g.names.push_back("f2");
    g.cmds = {"lazyfs::clear-cache", "lazyfs::cache-checkpoint"};
    g.pre();
    int nl = (int)g.r.range(1, 2);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        int n = (int)g.r.range(12, 50);
        g.body(l.clients[0], n);
        g.verify(l.clients[0]);
        g.sched_seq(l);
        g.maybe_kill(l, n, 0.3);
    }
}
// concurrency: kind 0 data on few files, 1 with namespace operations, 2 with commands
void p_conc(G& g) {
    g.cfg();
    if (g.r.p(0.2)) g.excl = 0.5;
    g.names = {"f0", "f1"};
    if (g.r.p(0.4)) g.names = {"f0"};
    bool churn = g.r.p(0.3);
    if (churn) { g.names = {"f0", "d/f1"}; if (g.r.p(0.5)) g.names.push_back("e/f2"); g.p.pre = {"d/ 0 0", "e/ 0 0"}; }     // the kernel serialises changes within a directory
    g.maxblocks = 3;
    g.flagged = g.r.p(0.3);
    bool ns = g.r.p(0.45), cm = g.r.p(0.55), nockpt = ns && g.r.p(0.6);
    g.w = {{"open", 2}, {"close", .7}, {"write", 5}, {"read", 3}, {"readall", 1.5}, {"fsync", 2}, {"ftrunc", 1}, {"trunc", .7}, {"stat", 1}, {"fstat", .7}};
    if (g.r.p(0.2)) add(g.w, {{"lseek", .7}});
    if (ns) { add(g.w, {{"rename", 1}, {"unlink", .8}}); if (nockpt || !cm) add(g.w, {{"link", .8}}); if (g.r.p(.3)) { g.dirs = {"d"}; add(g.w, {{"mkdir", .5}, {"readdir", .5}}); } }
    if (g.r.p(0.5)) { for (auto& n : g.names) g.p.pre.push_back(n + " " + std::to_string(g.r.below((uint64_t)g.block * 3)) + " " + std::to_string(50 + g.r.below(100))); }
    g.nslots = 2;
    g.p.done_fifo = cm && g.r.p(0.3);
    int nl = g.r.p(0.2) ? 2 : 1;
    for (int i = 0; i < nl; i++) {
        Life& l = g.life();
        int nc = (int)g.r.range(2, 3);
        l.clients.resize(nc + (cm ? 1 : 0));
        int tot = 0;
        for (int c = 0; c < nc; c++) {
            g.slots.clear();
            auto& v = l.clients[c];
            if (churn) { int n = (int)g.r.range(2, nc == 2 ? 5 : 4); for (int k = 0; k < n; k++) tot += g.churn(v); continue; }
            v.push_back(G::mk("open", 0, O_RDWR | O_CREAT | (g.r.p(g.excl - 0.05) ? O_EXCL : 0), 0, 0, g.r.pick(g.names)));
            g.slots[0] = "x";
            int n = (int)g.r.range(2, nc == 2 ? 7 : 5);
            g.body(v, n); tot += n + 1;
            if (g.r.p(0.5)) v.push_back(G::mk("read", 0, 0, (int64_t)g.block * 8, 1));
        }
        if (cm) {
            int n = (int)g.r.range(1, 3);
            g.waitcmd = g.r.p(0.7);
            auto& v = l.clients[nc];
            if (g.p.done_fifo) v.push_back(G::mk("opendone"));
            for (int k = 0; k < n; k++) {
                if (g.r.p(0.5)) v.push_back(G::mk("yield", 0, (int64_t)g.r.below(60)));
                g.cmd(v, g.r.p(0.6) ? "lazyfs::clear-cache" : !nockpt && g.r.p(0.5) ? "lazyfs::cache-checkpoint" : g.r.p(0.5) ? "lazyfs::unsynced-data-report" : "lazyfs::display-cache-usage");
            }
            tot += n;
        }
        g.sched_conc(l, tot);
        g.maybe_kill(l, tot, 0.2);
    }
}
// the same with a cache that fills up: everything written must stay readable, whatever is evicted or written through
void p_conctiny(G& g) {
    if (g.r.p(0.4)) {       // one client keeps a clean working set and reads it, others push it out
        g.cfg(); g.names = {"f0", "f1", "f2"}; g.maxblocks = 3; g.nslots = 1;
        Life& l = g.life();
        int nc = (int)g.r.range(2, 3), tot = 0;
        l.clients.resize(nc);
        for (int c = 0; c < nc; c++) {
            g.slots.clear();
            auto& v = l.clients[c];
            bool rd = c == 0 || g.r.p(0.3);
            v.push_back(G::mk("open", 0, O_RDWR | O_CREAT, 0, 0, g.names[c]));
            g.slots[0] = "x";
            if (rd) { v.push_back(G::mk("write", 0, (int64_t)g.r.below(20), 1 + (int64_t)g.r.below((uint64_t)g.block * 2))); v.push_back(G::mk("fsync", 0, 1)); }
            g.w = rd ? decltype(g.w){{"read", 4}, {"readall", 3}, {"write", .5}, {"fsync", .7}} : decltype(g.w){{"write", 5}, {"fsync", 2}, {"read", .5}, {"ftrunc", .4}};
            int n = (int)g.r.range(3, 6);
            g.body(v, n); tot += n + 2;
            if (g.r.p(0.5)) v.push_back(G::mk("read", 0, 0, (int64_t)g.block * 8, 1));
        }
        g.sched_conc(l, tot);
    } else p_conc(g);
    g.p.exact = false;
    g.p.pages = (int)g.r.range(1, 7); g.p.evict = g.r.p(0.7);
    if (g.r.p(0.3)) g.p.bpp = (int)g.r.range(2, 3);
    g.p.lives.resize(1);
    auto& l = g.p.lives[0];
    l.kill_step = -1;
    for (auto& c : l.clients) for (auto& o : c) if (o.k == "cmd" && o.p.find("clear") != string::npos) o.p = "lazyfs::cache-checkpoint\n";
}
Inj mkinj(const string& type) { Inj i; i.type = type; i.parts = -1; return i; }
string full(const string& p) { return "/simroot/" + p; }

// faults FIFO: batches of commands, lines split over writes, long lines, completion notifications
void p_cmds(G& g) {
    g.cfg(); g.w = W_RW();
    add(g.w, {{"alias", .15}, {"fsync", 1}, {"link", .2}, {"unlink", .2}, {"rename", .3}});
    g.pre();
    g.p.done_fifo = g.r.p(0.5);
    bool ckpt = g.r.p(0.6);
    auto line = [&](bool& rep, bool& use) -> string {
        uint64_t x = g.r.below(12);
        if (x < 4) return "lazyfs::clear-cache";
        if (x < 6) return ckpt ? "lazyfs::cache-checkpoint" : "lazyfs::clear-cache";
        if (x == 6 && !rep) { rep = true; return "lazyfs::unsynced-data-report"; }
        if (x == 7 && !use) { use = true; return "lazyfs::display-cache-usage"; }
        if (x == 8) return "lazyfs::help";
        static const vector<string> bad = {"", "lazyfs::clear-cach", "lazyfs::clear-cachee", "clear-cache", "lazyfs::clear-cache ", " lazyfs::clear-cache", "lazyfs::cache-checkpoint2", "lazyfs::", "::", "lazyfs", "Lazyfs::Clear-Cache"};
        if (x == 9) { string s(g.r.range(1, 9000), 'x'); if (g.r.p(0.5)) s += "lazyfs::clear-cache"; return s; }
        return g.r.pick(bad);
    };
    int nl = (int)g.r.range(1, 2);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        auto& v = l.clients[0];
        if (g.p.done_fifo) v.push_back(G::mk("opendone"));
        bool eager = g.p.done_fifo && g.r.p(0.7);
        int nb = (int)g.r.range(2, 7);
        string carry;
        for (int b = 0; b < nb; b++) {
            g.body(v, (int)g.r.range(1, 8));
            string text = carry; carry.clear();
            bool rep = text.find("report") != string::npos || !text.empty(), use = rep;
            int nlines = (int)g.r.range(1, 5);
            for (int k = 0; k < nlines; k++) text += line(rep, use) + "\n";
            if (g.r.p(0.4) && b + 1 < nb) {       // keep the tail of the last line for the next write
                size_t cut = text.rfind('\n', text.size() - 2);
                size_t from = cut == string::npos ? 0 : cut + 1;
                size_t at = from + g.r.below(text.size() - from);
                carry = text.substr(at); text = text.substr(0, at);
                if (text.empty()) continue;
            }
            if (g.r.p(0.3) && text.size() > 2) {  // one batch, several writes
                size_t at = 1 + g.r.below(text.size() - 1);
                v.push_back(G::mk("cmd", 0, 0, 0, 0, text.substr(0, at)));
                if (g.r.p(0.5)) v.push_back(G::mk("yield", 0, (int64_t)g.r.below(20)));
                text = text.substr(at);
            }
            // a user with a completion FIFO goes on as soon as the notification is there
            bool clr = text.size() >= 20 && text.compare(text.size() - 20, 20, "lazyfs::clear-cache\n") == 0 && (text.size() == 20 || text[text.size() - 21] == '\n');
            if (text.size() == 20 && !v.empty() && v.back().k == "cmd" && !v.back().a && v.back().p.back() != '\n') clr = false;
            v.push_back(G::mk("cmd", 0, clr && eager && g.r.p(0.7) ? 2 : 1, 0, 0, text));
        }
        if (!carry.empty()) v.push_back(G::mk("cmd", 0, 1, 0, 0, carry));
        g.verify(v);
        g.sched_seq(l);
        if (eager) { l.policy = "rw"; l.rwp = g.r.p(0.5) ? 0.5 : 0.15; }
        g.maybe_kill(l, (int)v.size(), 0.2);
    }
}
// crash faults armed through the FIFO
const vector<string> ALLOPS = {"unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"};
string crash_cmd(G& g, const vector<string>& rg) {
    string op = g.r.pick(ALLOPS), c = "lazyfs::crash";
    bool two = op == "rename" || op == "link" || op == "symlink";
    vector<string> kv = {"op=" + op, string("timing=") + (g.r.p(0.5) ? "before" : "after")};
    if (two) {
        bool f = g.r.p(0.6), t = !f || g.r.p(0.5);
        if (op == "symlink" && f) kv.push_back("from_rgx=" + g.r.pick(vector<string>{"f0", "f1", "^f0$", "f[01]", "f0$"}));
        else if (f) kv.push_back("from_rgx=" + g.r.pick(rg));
        if (t) kv.push_back("to_rgx=" + (op == "symlink" ? g.r.pick(vector<string>{"s0", "/s1$", "s[01]", "s"}) : g.r.pick(rg)));
    } else kv.push_back("from_rgx=" + g.r.pick(rg));
    for (size_t i = kv.size(); i > 1; i--) std::swap(kv[i - 1], kv[g.r.below(i)]);
    for (auto& k : kv) c += "::" + k;
    return c;
}
string bad_crash(G& g) {
    static const vector<string> b = {"lazyfs::crash::timing=before::op=write", "lazyfs::crash::timing=sometime::op=write::from_rgx=f0", "lazyfs::crash::op=write::from_rgx=f0",
        "lazyfs::crash::timing=after::from_rgx=f", "lazyfs::crash::timing=before::op=writes::from_rgx=f", "lazyfs::crash::timing=before::op=write::from_rgx=(f", "lazyfs::crash::timing=before::op=write::from_rgx=f::to_rgx=f",
        "lazyfs::crash::timing=before::op=rename", "lazyfs::crash::timing=before::op=read::to_rgx=f", "lazyfs::crash", "lazyfs::crash::", "lazyfs::crash::timing=::op=::from_rgx=f", "lazyfs::crash::timing=after::op=link::to_rgx=[z-a]"};
    return g.r.pick(b);
}
void p_crash(G& g) {
    g.cfg();
    g.names = g.r.p(0.5) ? vector<string>{"f0", "f1", "f2"} : vector<string>{"f0", "f00", "xf0"};
    if (g.r.p(0.3)) g.dirs = {"d"};
    g.w = W_RW();
    add(g.w, {{"fsync", 2}, {"cmd", .5}, {"link", 1}, {"unlink", 1}, {"rename", 1.5}, {"symlink", .7}, {"access", .7}, {"ftrunc", 1.5}, {"trunc", 1}});
    g.cmds = {"lazyfs::clear-cache"};
    g.pre();
    vector<string> rg = {"f0", "/f0$", "f[01]", "f1", "simroot/f0", "f.*0$", "/d/", "xf", "f00", "/simroot/xf0", "f2", "f0{2}", "(f0|f1)$", "^/simroot/f1", "nothing", "\\.fuse", "f", ".*/f0"};
    int nl = (int)g.r.range(1, 3);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        auto& v = l.clients[0];
        if (g.r.p(0.8)) g.body(v, (int)g.r.range(1, 12));
        int na = (int)g.r.range(1, 3);
        for (int a = 0; a < na; a++) {
            if (g.r.p(0.2)) g.cmd(v, bad_crash(g));
            g.cmd(v, crash_cmd(g, rg));
            g.body(v, (int)g.r.range(1, 14));
        }
        g.body(v, (int)g.r.range(5, 20));
        // truncating opens are requests of their own in the harness and internal truncations in LazyFS: not mixed with truncate faults
        bool tr = false;
        for (auto& o : v) if (o.k == "cmd" && o.p.find("op=truncate") != string::npos) tr = true;
        if (tr) for (auto& o : v) if (o.k == "open") o.a &= ~(int64_t)O_TRUNC;
        g.verify(v);
        g.sched_seq(l);
        g.maybe_kill(l, (int)v.size(), 0.1);
    }
}
void torn_life(G& g, vector<Op>& v, const string& target, int n, const vector<int64_t>& sizes) {
    g.body(v, n);
    for (auto& o : v) if (o.k == "write" && !sizes.empty()) o.b = sizes[g.r.below(sizes.size())];
    (void)target;
}
// a fault of the configuration that has to be refused
Inj badinj(G& g, const string& file) {
    Inj j = mkinj(g.r.pick(vector<string>{"clear-cache", "torn-op", "torn-seq"}));
    uint64_t x = g.r.below(4);
    j.file = file; j.from = file; j.op = "write"; j.timing = "before"; j.persist = {1}; j.parts = 2;
    if (j.type == "clear-cache") { if (x == 0) j.timing = "never"; else if (x == 1) j.op = "scribble"; else if (x == 2) j.occurrence = 0; else j.to = file; }
    else if (j.type == "torn-op") { if (x == 0) j.persist = {3}; else if (x == 1) j.parts = 0; else if (x == 2) j.occurrence = 0; else { j.parts_bytes = {4, 4}; } }
    else { if (x == 0) j.op = "read"; else if (x == 1) j.occurrence = 0; else if (x == 2) j.persist = {0}; else j.occurrence = -1; }
    return j;
}
// valid ones still count
void add_badinj(G& g) {
    if (!g.r.p(0.15)) return;
    string f = g.r.p(0.7) && !g.p.injs.empty() ? (g.p.injs[0].from.empty() ? g.p.injs[0].file : g.p.injs[0].from) : full(g.r.pick(g.names));
    g.p.injs.insert(g.p.injs.begin() + g.r.below(g.p.injs.size() + 1), badinj(g, f));
}
// names that would mean something else in a pattern
static vector<string> odd_names(G& g, vector<string> plain) {
    static const vector<vector<string>> odd = {{"f.0", "fx0"}, {"f0(", "f0"}, {"f{0}", "f0"}, {"a+b", "aab"}, {"f[0]", "f0"}, {"f$", "f"}, {"f|g", "f"}, {"^f", "f"}, {"f{", "f0"}, {"{f}", "f"}, {"f*0", "ff0"}, {"f?0", "f0"}};
    if (!g.r.p(0.3)) return plain;
    auto v = g.r.pick(odd); v.resize(plain.size());
    return v;
}
void p_tornop(G& g) {
    g.cfg();
    g.p.max_write = 1 << 17;
    g.names = odd_names(g, {"f0", "f1"});
    g.w = W_RW();
    add(g.w, {{"write", 8}, {"fsync", 1}, {"cmd", .3}, {"rename", .3}, {"unlink", .15}, {"link", .3}});
    g.pre();
    int nl = (int)g.r.range(1, 3);
    struct T { string file; int occ; vector<int> persist; int parts = -1; vector<int> pb; };
    vector<T> ts; vector<int64_t> sizes;
    int nt = (int)g.r.range(1, 2);
    for (int i = 0; i < nt; i++) {
        T t; t.file = full(g.names[i]); t.occ = (int)g.r.range(1, 4);
        int np;
        if (g.r.p(0.5)) { np = t.parts = (int)g.r.range(1, 4); }
        else {
            np = (int)g.r.range(1, 4); int64_t sum = 0;
            for (int k = 0; k < np; k++) { int x = (int)g.r.range(1, g.r.p(0.5) ? g.block * 2 : 20); t.pb.push_back(x); sum += x; }
            sizes.push_back(sum); if (g.r.p(0.5)) sizes.push_back(sum);
        }
        int k = (int)g.r.range(1, np);
        vector<int> all; for (int j = 1; j <= np; j++) all.push_back(j);
        for (size_t j = all.size(); j > 1; j--) std::swap(all[j - 1], all[g.r.below(j)]);
        t.persist.assign(all.begin(), all.begin() + k);
        ts.push_back(t);
    }
    if (g.r.p(0.5)) for (int k = 0; k < 3; k++) sizes.push_back(8 + (int64_t)g.r.below((uint64_t)g.block * 4));
    if (sizes.empty()) for (int k = 0; k < 4; k++) sizes.push_back(8 + (int64_t)g.r.below((uint64_t)g.block * 4));
    vector<bool> cfg(ts.size());
    auto text = [&](const T& t) {
        string c = "lazyfs::torn-op::file=" + t.file + "::persist=";
        for (size_t i = 0; i < t.persist.size(); i++) c += (i ? "," : "") + std::to_string(t.persist[i]);
        if (t.parts > 0) c += "::parts=" + std::to_string(t.parts);
        else { c += "::parts_bytes="; for (size_t i = 0; i < t.pb.size(); i++) c += (i ? "," : "") + std::to_string(t.pb[i]); }
        if (t.occ != 1 || g.r.p(0.5)) c += "::occurrence=" + std::to_string(t.occ);
        return c;
    };
    for (size_t i = 0; i < ts.size(); i++) {
        cfg[i] = g.r.p(0.5);
        if (!cfg[i]) continue;
        Inj j = mkinj("torn-op"); j.file = ts[i].file; j.occurrence = ts[i].occ; j.persist = ts[i].persist; j.parts = ts[i].parts; j.parts_bytes = ts[i].pb;
        g.p.injs.push_back(j);
    }
    add_badinj(g);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        auto& v = l.clients[0];
        if (g.r.p(0.5)) torn_life(g, v, "", (int)g.r.range(1, 8), sizes);
        for (size_t k = 0; k < ts.size(); k++) if (!cfg[k] && g.r.p(0.8)) { g.cmd(v, text(ts[k])); g.body(v, (int)g.r.below(4)); }
        torn_life(g, v, "", (int)g.r.range(10, 35), sizes);
        g.verify(v);
        g.sched_seq(l);
        g.maybe_kill(l, (int)v.size(), 0.1);
    }
}
void p_tornseq(G& g) {
    g.cfg();
    g.p.max_write = 1 << 17;
    g.names = odd_names(g, g.r.p(0.5) ? vector<string>{"f0"} : vector<string>{"f0", "f1"});
    g.w = {{"open", 2}, {"close", .7}, {"write", 9}, {"read", 1.5}, {"fsync", 2}, {"stat", .5}, {"fstat", .3}};
    if (g.r.p(0.3)) add(g.w, {{"ftrunc", .6}, {"trunc", .4}});
    g.pre();
    struct T { string file; int occ; vector<int> persist; };
    vector<T> ts;
    int nt = (int)g.r.range(1, (int64_t)g.names.size());
    for (int i = 0; i < nt; i++) {
        T t; t.file = full(g.names[i]); t.occ = (int)g.r.range(1, 3);
        int top = (int)g.r.range(1, 4);
        for (int j = 1; j <= top; j++) if (j == top || g.r.p(0.4)) t.persist.push_back(j);
        for (size_t j = t.persist.size(); j > 1; j--) std::swap(t.persist[j - 1], t.persist[g.r.below(j)]);
        ts.push_back(t);
    }
    vector<bool> cfg(ts.size());
    for (size_t i = 0; i < ts.size(); i++) {
        cfg[i] = g.r.p(0.5);
        if (!cfg[i]) continue;
        Inj j = mkinj("torn-seq"); j.file = ts[i].file; j.op = "write"; j.occurrence = ts[i].occ; j.persist = ts[i].persist;
        g.p.injs.push_back(j);
    }
    add_badinj(g);
    int nl = (int)g.r.range(1, 3);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        auto& v = l.clients[0];
        if (g.r.p(0.4)) g.body(v, (int)g.r.range(1, 8));
        for (size_t k = 0; k < ts.size(); k++) if (!cfg[k] && g.r.p(0.8)) {
            string c = "lazyfs::torn-seq::op=write::file=" + ts[k].file + "::persist=";
            for (size_t q = 0; q < ts[k].persist.size(); q++) c += (q ? "," : "") + std::to_string(ts[k].persist[q]);
            if (ts[k].occ != 1 || g.r.p(0.5)) c += "::occurrence=" + std::to_string(ts[k].occ);
            g.cmd(v, c);
        }
        g.body(v, (int)g.r.range(12, 40));
        g.verify(v);
        g.sched_seq(l);
        g.maybe_kill(l, (int)v.size(), 0.1);
    }
}
void p_cclear(G& g) {
    g.cfg();
    g.names = g.r.p(0.6) ? vector<string>{"f0", "f1", "f2"} : vector<string>{"f0", "f00", "f1"};
    g.w = W_RW();
    vector<string> opsx = {"open", "write", "read", "fsync", "truncate", "create", "unlink", "rename", "link", "access", "symlink"};
    add(g.w, {{"fsync", 1.5}, {"link", .5}, {"unlink", .5}, {"rename", .7}, {"access", .3}, {"symlink", .3}, {"ftrunc", 1.5}});
    g.pre();
    int ni = (int)g.r.range(1, 3);
    std::set<string> froms;
    bool trunc = false;
    for (int k = 0; k < ni; k++) {
        Inj j = mkinj(g.r.p(0.5) ? "clear-cache" : "clear");
        j.op = g.r.pick(opsx);
        bool two = j.op == "rename" || j.op == "link" || j.op == "symlink";
        j.from = j.op == "symlink" ? g.r.pick(g.names) : full(g.r.pick(g.names));
        if (two) j.to = j.op == "symlink" ? full("s" + std::to_string(g.r.below(2))) : full(g.r.pick(g.names));
        if (!froms.insert(j.from).second) continue;
        j.timing = g.r.p(0.5) ? "before" : "after";
        j.occurrence = (int)g.r.range(1, 3);
        j.crash = g.r.p(0.4);
        if (j.op == "truncate") trunc = true;
        g.p.injs.push_back(j);
    }
    // make the chosen operations frequent
    for (auto& j : g.p.injs) { string k = j.op == "truncate" ? "ftrunc" : j.op == "create" ? "open" : j.op; g.w[k] += 3; if (k == "open") g.w["close"] += 3; if (j.op == "create") g.w["unlink"] += 2; }
    add_badinj(g);
    int nl = (int)g.r.range(1, 3);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        auto& v = l.clients[0];
        g.body(v, (int)g.r.range(12, 45));
        if (trunc) for (auto& o : v) if (o.k == "open") o.a &= ~(int64_t)O_TRUNC;
        g.verify(v);
        g.sched_seq(l);
        g.maybe_kill(l, (int)v.size(), 0.1);
    }
}
void p_report(G& g) {
    g.cfg(); g.w = W_RW(); g.flagged = g.r.p(0.3);
    add(g.w, {{"alias", .2}, {"fsync", 1.5}, {"cmd", 3}, {"link", .5}, {"unlink", .5}, {"rename", .8}, {"ftrunc", 1.5}, {"write", 8}});
    g.cmds = {"lazyfs::unsynced-data-report", "lazyfs::unsynced-data-report", "lazyfs::unsynced-data-report", "lazyfs::clear-cache", "lazyfs::cache-checkpoint"};
    if (!g.wide) g.maxblocks = (int)g.r.range(3, 14);
    if (g.r.p(0.25)) g.dirs = {"d"};
    else if (g.r.p(0.2)) { g.dirs = {"d", "d/x", "e", "e/x"}; add(g.w, {{"mvtree", .6}, {"renamedir", .6}, {"mkdir", .4}, {"rmdir", .3}}); g.p.nodtype = g.r.p(0.25); }
    g.pre();
    int nl = (int)g.r.range(1, 2);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        g.body(l.clients[0], (int)g.r.range(10, 40));
        g.cmd(l.clients[0], "lazyfs::unsynced-data-report");
        g.verify(l.clients[0]);
        g.sched_seq(l);
        g.maybe_kill(l, 20, 0.2);
    }
}
void p_usage(G& g) {
    g.cfg(); g.w = W_RW();
    add(g.w, {{"alias", .6}, {"fsync", 1}, {"cmd", 3}, {"unlink", 1}, {"rename", .6}, {"link", .3}, {"ftrunc", 2}, {"trunc", 1}});
    g.cmds = {"lazyfs::display-cache-usage", "lazyfs::display-cache-usage", "lazyfs::display-cache-usage", "lazyfs::clear-cache", "lazyfs::cache-checkpoint"};
    g.p.pages = (int)(g.wide ? g.r.range(5000, 9000) : g.r.range(80, 400));
    g.pre();
    int nl = (int)g.r.range(1, 2);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        g.body(l.clients[0], (int)g.r.range(10, 40));
        g.cmd(l.clients[0], "lazyfs::display-cache-usage");
        g.verify(l.clients[0]);
        g.cmd(l.clients[0], "lazyfs::display-cache-usage");
        g.sched_seq(l);
    }
}
// rest > 0: share of calls other than those of reads and writes; < 0: share of writes
void sfaults(G& g, Life& l, double rest_p) {
    static const vector<std::pair<string, int>> cs = {{"open", 30}, {"pread", 30}, {"pwrite", 12}, {"pwritev", 12}, {"ftruncate", 6}, {"lstat", 60}, {"fsync", 6}, {"unlink", 4}, {"rename", 4}, {"link", 3}};
    static const vector<std::pair<string, int>> wrs = {{"pread", 12}, {"pwrite", 12}, {"pwrite", 24}, {"pwritev", 6}, {"ftruncate", 4}};
    static const vector<std::pair<string, int>> rest = {{"access", 3}, {"chmod", 3}, {"chown", 3}, {"utimens", 8}, {"opendir", 4}, {"mkdir", 3}, {"rmdir", 3}, {"symlink", 3}, {"readlink", 3}, {"stat", 4}};
    int n = (int)g.r.range(1, 3);
    for (int k = 0; k < n; k++) {
        auto& c = rest_p > 0 && g.r.p(rest_p) ? g.r.pick(rest) : rest_p < 0 && g.r.p(-rest_p) ? g.r.pick(wrs) : g.r.pick(cs);
        SFault f; f.call = c.first; f.nth = 1 + (int)g.r.below(c.second); f.count = g.r.p(0.7) ? 1 : (int)g.r.range(2, 6);
        bool io = c.first == "pread" || c.first == "pwrite" || c.first == "pwritev";
        if (io && g.r.p(0.4)) { f.err = 0; f.shortn = (int64_t)g.r.below(g.r.p(0.5) ? 8 : (uint64_t)g.block * 2) + (g.r.p(0.9) ? 1 : 0); if (c.first != "pread" && f.shortn == 0) f.shortn = 1; }
        else if (c.first == "open") f.err = g.r.pick(vector<int>{EIO, EMFILE, ENFILE, ENOMEM});
        else if (c.first == "pwrite" || c.first == "pwritev" || c.first == "ftruncate" || c.first == "link" || c.first == "rename" || c.first == "fsync" || c.first == "mkdir" || c.first == "symlink") f.err = g.r.pick(vector<int>{EIO, ENOSPC, EDQUOT});
        else f.err = g.r.pick(vector<int>{EIO, EIO, ENOMEM});
        if (io && f.err && g.r.p(0.15)) f.err = EINTR;
        l.faults.push_back(f);
    }
}
void p_ioerr(G& g) {
    bool other = false;
    g.cfg(); g.roomy = 1; g.w = W_RW();
    add(g.w, {{"fsync", 3}, {"cmd", .6}, {"link", .3}, {"unlink", .5}, {"rename", .6}, {"ftrunc", 1.5}});
    if (g.r.p(0.35)) {
        if (g.r.p(0.5)) g.dirs = {"d"};
        add(g.w, {{"access", 1.5}, {"chmod", 1.5}, {"chown", 1.5}, {"utimens", 1}, {"readdir", .8}, {"mkdir", 1}, {"rmdir", 1}, {"symlink", 1}, {"readlink", 1.5}, {"unlinks", .5}});
        other = true;
    }
    if (g.r.p(0.25)) { g.p.exact = false; g.p.pages = (int)g.r.range(1, 8); g.p.evict = g.r.p(0.6); }
    g.cmds = {"lazyfs::clear-cache", "lazyfs::cache-checkpoint"};
    g.pre();
    int nl = (int)g.r.range(1, 2);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        g.body(l.clients[0], (int)g.r.range(8, 35));
        g.verify(l.clients[0]);
        g.sched_seq(l);
        if (g.r.p(0.85)) sfaults(g, l, other ? 0.6 : g.p.exact ? 0 : -0.5);
        g.maybe_kill(l, 20, 0.2);
    }
}
void p_times(G& g) {
    g.cfg(); g.w = W_RW();
    add(g.w, {{"fsync", 2}, {"cmd", .5}, {"link", .3}, {"unlink", .4}, {"rename", .7}, {"utimens", 3}, {"skew", 1}, {"stat", 3}, {"fstat", 2}, {"chmod", .7}, {"chown", .5}});
    g.cmds = {"lazyfs::clear-cache"};
    g.pre();
    int nl = (int)g.r.range(1, 3);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        g.body(l.clients[0], (int)g.r.range(10, 40));
        for (auto& n : g.names) l.clients[0].push_back(G::mk("stat", 0, 0, 0, 0, n));
        g.verify(l.clients[0]);
        g.sched_seq(l);
        g.maybe_kill(l, 25, 0.3);
    }
}
// a well-formed arming command with exactly one defect that makes it malformed
string nearmiss(G& g) {
    int which = (int)g.r.below(3);
    vector<string> kv;
    auto bad = [&](const string& key, const vector<string>& vals) {
        for (auto& k : kv) if (k.compare(0, key.size() + 1, key + "=") == 0) k = key + "=" + g.r.pick(vals);
    };
    auto drop = [&](const string& key) {
        for (size_t i = 0; i < kv.size(); i++) if (kv[i].compare(0, key.size() + 1, key + "=") == 0) { kv.erase(kv.begin() + i); return; }
    };
    auto num = [&](const string& key, bool list) {
        vector<string> v = {"", "0", "-1", "+1", "1x", "x1", " 1", "1 ", "1.5", "0x1", "1;2", ",", "99999999999999999999", "none", "1 2"};
        if (list) { v.push_back("1,"); v.push_back(",1"); v.push_back("1,,1"); v.push_back("1,x"); v.push_back("1,0"); v.push_back("1, 1"); }
        else { v.push_back("1,1"); v.push_back("1,2"); }
        bad(key, v);
    };
    string head;
    if (which == 0) {
        head = "lazyfs::crash";
        string op = g.r.p(0.7) ? g.r.pick(vector<string>{"write", "open", "read", "create", "fsync", "truncate", "unlink"}) : g.r.pick(vector<string>{"rename", "link", "symlink"});
        bool two = op == "rename" || op == "link" || op == "symlink";
        kv = {"op=" + op, string("timing=") + (g.r.p(0.5) ? "before" : "after"), g.r.p(0.7) || !two ? "from_rgx=f" : "to_rgx=f"};
        switch (g.r.below(two ? 5 : 6)) {
        case 0: bad("timing", {"", "afterwards", "beforehand", "Before", "AFTER", "befor", "aft", " after", "before ", "during", "none", "before,after", "afterbefore"}); break;
        case 1: bad("op", {"", op + "s", op.substr(0, op.size() - 1), " " + op, op + " ", "Write", "none", "getattr", "close", "release", "mkdir", "fsync,write", "write,read", "o"}); break;
        case 2: drop(g.r.p(0.5) ? "timing" : "op"); break;
        case 3: drop("from_rgx"); drop("to_rgx"); break;
        case 4: bad("from_rgx", {"(f", "[f", "f)", "[z-a]", "*{", "f{2", "f{2,1}", ""}); bad("to_rgx", {"(f", "[f", "[z-a]", ""}); break;
        case 5: kv.push_back("to_rgx=" + g.r.pick(vector<string>{"f", ".*", "nope"})); break;
        }
    } else if (which == 1) {
        head = "lazyfs::torn-op";
        bool b = g.r.p(0.4);
        kv = {"file=/simroot/" + g.r.pick(vector<string>{"f0", "f1"}), "persist=" + g.r.pick(vector<string>{"1", "2", "1,2"}), b ? string("parts_bytes=") + g.r.pick(vector<string>{"4,4", "64,64", "1,63"}) : string("parts=") + g.r.pick(vector<string>{"2", "3"})};
        if (g.r.p(0.6)) kv.push_back("occurrence=1");
        switch (g.r.below(8)) {
        case 0: drop(g.r.pick(vector<string>{"file", "persist"})); break;
        case 1: drop("parts"); drop("parts_bytes"); break;
        case 2: kv.push_back(b ? "parts=2" : "parts_bytes=4,4"); break;
        case 3: bad("persist", {"3,4", "9", "1,2,9", "4"}); break;
        case 4: num("persist", true); break;
        case 5: num("parts", false); num("parts_bytes", true); break;
        case 6: drop("occurrence"); kv.push_back("occurrence=1"); num("occurrence", false); break;
        case 7: kv.push_back(g.r.pick(vector<string>{"bogus=1", "bogus", "op=write", "timing=before", "Parts=2", "occurence=1"})); break;
        }
    } else {
        head = "lazyfs::torn-seq";
        kv = {"op=write", "file=/simroot/" + g.r.pick(vector<string>{"f0", "f1"}), "persist=" + g.r.pick(vector<string>{"1", "2", "1,2"})};
        if (g.r.p(0.6)) kv.push_back("occurrence=1");
        switch (g.r.below(5)) {
        case 0: drop(g.r.pick(vector<string>{"file", "persist", "op"})); break;
        case 1: bad("op", {"", "read", "writes", "Write", "fsync", "writ", "none", "write,write"}); break;
        case 2: num("persist", true); break;
        case 3: drop("occurrence"); kv.push_back("occurrence=1"); num("occurrence", false); break;
        case 4: kv.push_back(g.r.pick(vector<string>{"bogus=1", "bogus", "parts=2", "timing=before", "parts_bytes=1,1", "occurence=1"})); break;
        }
    }
    for (size_t i = kv.size(); i > 1; i--) std::swap(kv[i - 1], kv[g.r.below(i)]);
    for (auto& k : kv) head += "::" + k;
    return head;
}
string garbage(G& g) {
    if (g.r.p(0.4)) return nearmiss(g);
    uint64_t x = g.r.below(14);
    static const vector<string> tok = {"lazyfs", "::", "crash", "torn-op", "torn-seq", "clear-cache", "cache-checkpoint", "op=", "timing=", "file=", "persist=", "parts=", "parts_bytes=", "occurrence=", "write", "before", "after", "1,2", "0", "-1",
        "99999999999999999999", "from_rgx=", "to_rgx=", "(", "[", "*", "f0", "/simroot/f0", "=", ",", "1,,2", "\t", " "};
    string s;
    if (x == 0) { size_t n = 1 + g.r.below(60); for (size_t i = 0; i < n; i++) { char c = (char)(g.r.below(255) + 1); if (c == '\n') c = 'n'; s += c; } return s; }
    if (x == 1) return string(g.r.range(1000, 6000), (char)('a' + g.r.below(26)));
    if (x == 2) return "lazyfs::clear-cache\r";
    if (x == 3) return bad_crash(g);
    if (x == 4) {
        static const vector<string> b = {"lazyfs::torn-op", "lazyfs::torn-op::file=/simroot/f0", "lazyfs::torn-op::file=/simroot/f0::persist=1", "lazyfs::torn-op::file=/simroot/f0::persist=3::parts=2", "lazyfs::torn-op::file=/simroot/f0::persist=0::parts=2",
            "lazyfs::torn-op::file=/simroot/f0::persist=1::parts=0", "lazyfs::torn-op::file=/simroot/f0::persist=1::parts=2::parts_bytes=1,2", "lazyfs::torn-op::file=::persist=1::parts=2", "lazyfs::torn-op::persist=1::parts=2",
            "lazyfs::torn-op::file=/simroot/f0::persist=a::parts=2", "lazyfs::torn-op::file=/simroot/f0::persist=1::parts=x", "lazyfs::torn-op::file=/simroot/f0::persist=1::parts=2::occurrence=0", "lazyfs::torn-op::file=/simroot/f0::persist=1::parts_bytes=0,4",
            "lazyfs::torn-op::file=/simroot/f0::persist=1::parts=99999999999999999999", "lazyfs::torn-op::file=/simroot/f0::persist=1::parts=2::unknown=3", "lazyfs::torn-op::file=/simroot/f0::persist=1,2,::parts=2", "lazyfs::torn-op::file=/simroot/f0::persist=1::parts=2::occurrence=1,2"};
        return g.r.pick(b);
    }
    if (x == 5) {
        static const vector<string> b = {"lazyfs::torn-seq", "lazyfs::torn-seq::op=write::persist=1", "lazyfs::torn-seq::op=read::file=/simroot/f0::persist=1", "lazyfs::torn-seq::file=/simroot/f0::persist=1", "lazyfs::torn-seq::op=write::file=/simroot/f0",
            "lazyfs::torn-seq::op=write::file=/simroot/f0::persist=0", "lazyfs::torn-seq::op=write::file=/simroot/f0::persist=1::occurrence=0", "lazyfs::torn-seq::op=write::file=/simroot/f0::persist=1::occurrence=x", "lazyfs::torn-seq::op=write::file=/simroot/f0::persist=1::bogus=1",
            "lazyfs::torn-seq::op=::file=/simroot/f0::persist=1"};
        return g.r.pick(b);
    }
    size_t n = 1 + g.r.below(6);
    s = g.r.p(0.5) ? "lazyfs::" : "";
    for (size_t i = 0; i < n; i++) s += g.r.pick(tok);
    // a line made of random tokens must not become a command by accident
    for (const char* bad : {"lazyfs::crash", "lazyfs::torn-op", "lazyfs::torn-seq"}) if (s.compare(0, strlen(bad), bad) == 0) s = "x" + s;
    for (const char* bad : {"lazyfs::clear-cache", "lazyfs::cache-checkpoint"}) if (s == bad) s += "?";
    return s;
}
string valid(G& g, int x) {     // x: the kind; one kind per plan, several triggered by one write leave open which comes first
    if (x == 0) return crash_cmd(g, {"f0", "f1", "/f0$", "f[12]", "nothing"});
    string f = full(g.r.pick(g.names)), n = std::to_string(1 + g.r.below(2));
    if (x == 1) return "lazyfs::torn-op::file=" + f + "::persist=" + n + (g.r.p(0.5) ? "::parts=2" : "::parts_bytes=32,32") + (g.r.p(0.5) ? "" : "::occurrence=" + std::to_string(1 + g.r.below(3)));
    return "lazyfs::torn-seq::op=write::file=" + f + "::persist=" + n + (g.r.p(0.5) ? "" : "::occurrence=" + std::to_string(1 + g.r.below(3)));
}
void p_garbage(G& g) {
    g.cfg(); g.w = W_RW();
    add(g.w, {{"fsync", 1}, {"rename", .4}, {"unlink", .3}, {"link", .3}});
    int kindv = (int)g.r.below(3);
    g.pre();
    if (g.r.p(0.4)) {
        int n = (int)g.r.range(1, 3);
        for (int k = 0; k < n; k++) {
            g.p.injs.push_back(badinj(g, "/simroot/f0"));
        }
    }
    int nl = (int)g.r.range(1, 2);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        auto& v = l.clients[0];
        int nb = (int)g.r.range(2, 6);
        bool mix = g.r.p(0.4);      // well-formed arming commands among the malformed ones
        for (int b = 0; b < nb; b++) {
            g.body(v, (int)g.r.range(1, 8));
            string t; int k = (int)g.r.range(1, 4);
            for (int q = 0; q < k; q++) t += (mix && g.r.p(0.15) ? valid(g, kindv) : garbage(g)) + "\n";
            v.push_back(G::mk("cmd", 0, 1, 0, 0, t));
        }
        // the worker must still be alive and obey
        g.body(v, (int)g.r.range(2, 6));
        if (mix) for (auto& o : v) if (o.k == "open") o.a &= ~(int64_t)O_TRUNC;
        g.cmd(v, "lazyfs::clear-cache");
        g.verify(v);
        g.sched_seq(l);
    }
}
// caches of a few pages, with and without eviction, several blocks per page
void p_tiny(G& g) {
    g.cfg();
    g.p.exact = g.r.p(0.8); g.roomy = 1;
    g.p.pages = (int)g.r.range(1, 8);
    g.p.evict = g.r.p(0.6);
    g.p.bpp = g.r.p(0.6) ? 1 : (int)g.r.range(2, 4);
    g.w = W_RW();
    add(g.w, {{"fsync", 1.5}, {"cmd", .8}, {"link", .3}, {"unlink", .4}, {"rename", .4}, {"readall", 2}});
    g.cmds = {"lazyfs::clear-cache", "lazyfs::cache-checkpoint", "lazyfs::display-cache-usage"};
    g.pre();
    int nl = (int)g.r.range(1, 2);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        g.body(l.clients[0], (int)g.r.range(10, 40));
        g.verify(l.clients[0]);
        g.sched_seq(l);
        g.maybe_kill(l, 25, 0.3);
    }
}
void p_tinyrw(G& g) {       // no clear: everything written must be readable, whatever was evicted
    p_tiny(g);
    for (auto& l : g.p.lives) for (auto& c : l.clients) for (auto& o : c) if (o.k == "cmd" && o.p.find("clear") != string::npos) o.p = "lazyfs::cache-checkpoint\n";
}
// the documented geometry: 4096 byte blocks, [cache.simple], requests split at page boundaries as the kernel does
void p_dflt(G& g) {
    int which = (int)g.r.below(3);
    G k(g.r.next());
    k.p = g.p; k.p.pre.clear(); k.p.lives.clear();
    k.block = k.p.block = 4096; k.maxblocks = (int)k.r.range(2, 5);
    k.p.page_split = k.r.p(0.6);
    k.p.bpp = k.r.p(0.7) ? 1 : (int)k.r.range(2, 4);
    k.p.pages = 256; k.roomy = 1;
    if (k.r.p(0.6)) { k.p.simple_cfg = true; k.p.simple_kb = k.p.pages * 4 * k.p.bpp; }
    k.p.logall = k.r.p(0.1);
    if (k.r.p(0.3)) k.p.max_write = 4096 * (int)k.r.range(1, 2);
    k.w = W_RW();
    add(k.w, {{"fsync", 2}, {"cmd", 1}, {"rename", .4}, {"unlink", .3}, {"link", .3}, {"ftrunc", 1.5}});
    k.cmds = which == 2 ? vector<string>{"lazyfs::cache-checkpoint", "lazyfs::clear-cache"} : vector<string>{"lazyfs::clear-cache"};
    k.pre();
    int nl = (int)k.r.range(1, 2);
    for (int i = 0; i < nl; i++) {
        Life& l = k.life(); l.clients.resize(1);
        k.body(l.clients[0], (int)k.r.range(8, 25));
        k.verify(l.clients[0]);
        k.sched_seq(l);
        k.maybe_kill(l, 20, 0.4);
    }
    g.p = k.p;
}
// everything at once under concurrency: armed faults, failing system calls, all commands; judged for progress and survival only
void p_chaos(G& g) {
    g.cfg();
    g.p.live = true; g.p.exact = false; g.flagged = g.r.p(0.3);
    if (g.r.p(0.5)) { g.p.pages = (int)g.r.range(1, 10); g.p.evict = g.r.p(0.7); if (g.r.p(0.3)) g.p.bpp = (int)g.r.range(2, 3); }
    g.names = {"f0", "f1"};
    if (g.r.p(0.3)) g.dirs = {"d"};
    g.maxblocks = 3;
    g.w = W_RW();
    add(g.w, {{"fsync", 2}, {"rename", .8}, {"unlink", .8}, {"link", .6}, {"symlink", .2}, {"readdir", .3}, {"chmod", .2}, {"utimens", .3}, {"access", .2}, {"trunc", 1}});
    if (!g.dirs.empty()) add(g.w, {{"mkdir", .4}, {"rmdir", .3}, {"renamedir", .3}});
    g.pre();
    if (g.r.p(0.5)) {
        Inj j = mkinj("clear-cache");
        j.op = g.r.pick(vector<string>{"open", "write", "read", "fsync", "truncate", "create", "unlink"});
        j.from = full(g.r.pick(g.names)); j.timing = g.r.p(0.5) ? "before" : "after"; j.occurrence = (int)g.r.range(1, 4); j.crash = g.r.p(0.1);
        g.p.injs.push_back(j);
    }
    if (g.r.p(0.3)) { Inj j = mkinj("torn-seq"); j.file = full("f0"); j.op = "write"; j.occurrence = (int)g.r.range(1, 6); j.persist = {1, 2}; g.p.injs.push_back(j); }
    if (g.r.p(0.3)) { Inj j = mkinj("torn-op"); j.file = full("f1"); j.occurrence = (int)g.r.range(1, 12); j.parts = 2; j.persist = {1}; g.p.injs.push_back(j); }
    int nl = g.r.p(0.2) ? 2 : 1;
    for (int i = 0; i < nl; i++) {
        Life& l = g.life();
        int nc = (int)g.r.range(2, 4);
        l.clients.resize(nc + 1);
        int tot = 0;
        for (int c = 0; c < nc; c++) {
            g.slots.clear();
            int n = (int)g.r.range(4, 14);
            g.body(l.clients[c], n); tot += n;
        }
        auto& v = l.clients[nc];
        int n = (int)g.r.range(1, 5);
        for (int k = 0; k < n; k++) {
            if (g.r.p(0.5)) v.push_back(G::mk("yield", 0, (int64_t)g.r.below(80)));
            static const vector<string> cs = {"lazyfs::clear-cache", "lazyfs::cache-checkpoint", "lazyfs::unsynced-data-report", "lazyfs::display-cache-usage", "lazyfs::help", "lazyfs::crash::timing=after::op=rename::to_rgx=nope",
                "lazyfs::torn-op::file=/simroot/f0::parts=2::persist=1::occurrence=9", "lazyfs::torn-seq::op=write::file=/simroot/f1::persist=1,3::occurrence=4"};
            g.waitcmd = g.r.p(0.5);
            g.cmd(v, g.r.p(0.1) ? garbage(g) : g.r.pick(cs));
        }
        tot += n;
        g.sched_conc(l, tot);
        if (g.r.p(0.5)) sfaults(g, l, 0.2);
        g.maybe_kill(l, tot, 0.1);
    }
}
// configuration file and command line
void p_config(G& g) {
    static const vector<string> N = {"/simcfg/lazyfs.toml", "c.toml", "/tmp/x-o/c.toml", "-conf", "/a b/c d.toml", "/cfg/o", "cfg-o", "/cfg/modules=subdir", "/cfg/--config-path.toml", "f", "/simcfg/\xc3\xa9.toml"};
    g.p.cfgpath = g.r.p(0.8) ? g.r.pick(N) : "config/default.toml";
    bool path = g.p.cfgpath != "config/default.toml" || g.r.p(0.3);
    {
        vector<vector<string>> groups = {{"/simmnt"}, {"-o", "modules=subdir"}, {"-o", "subdir=/simroot"}};
        if (path) groups.push_back({"--config-path", g.p.cfgpath});
        static const vector<vector<string>> X = {{"-f"}, {"-d"}, {"-s"}, {"-o", "allow_other"}, {"-oallow_other"}, {"-o", "modules=subdir,subdir=/x"}, {"-o", "uid=0"}, {"--option"}, {"-omax_read=4096"}, {"-o", "ro-o"}, {"--config-pathx", "y"}, {"--config"}};
        for (int n = (int)g.r.below(9); n > 0; n--) groups.push_back(g.r.pick(X));
        for (size_t i = groups.size(); i > 1; i--) std::swap(groups[i - 1], groups[g.r.below(i)]);
        g.p.args = {"lazyfs"};
        for (auto& x : groups) for (auto& y : x) g.p.args.push_back(y);
    }
    g.p.tomlvar = (int)g.r.below(128);
    g.p.checkcfg = true;
    g.p.logall = g.r.p(0.5);
    g.p.done_fifo = g.r.p(0.4);
    if (g.r.p(0.6)) { g.p.logfile = g.r.pick(vector<string>{"/lazyfs.log", "lazyfs.log", "/l-o.txt"}); g.p.logfile_ok = g.r.p(0.85); }
    if (g.r.p(0.5)) { g.p.fifo = g.r.pick(vector<string>{"/tmp/f.fifo", "/x/faults", "/fifo-o", "f"}); }
    if (g.r.p(0.5)) { g.p.done = g.r.pick(vector<string>{"/tmp/d.fifo", "/x/faults.completed", "/fifo-o-done", "done"}); }
    g.roomy = 1;
    if (g.r.p(0.65)) {
        g.block = g.p.block = 4096; g.p.simple_cfg = true;
        g.p.bpp = g.r.p(0.6) ? 1 : (int)g.r.range(2, 4);
        double page = 4096.0 * g.p.bpp;
        for (;;) {
            double pages = g.r.p(0.5) ? (double)g.r.range(2, 40) : (double)g.r.range(40, 600);
            double total = page * (pages + (g.r.p(0.4) ? 0 : (double)g.r.below(1000) / 1000));
            int u = (int)g.r.below(3);
            double unit = u == 0 ? 1024 : u == 1 ? 1048576 : 1073741824;
            char b[64];
            int prec = u == 0 ? (int)g.r.below(3) : u == 1 ? (int)g.r.range(2, 6) : (int)g.r.range(4, 9);
            snprintf(b, sizeof b, "%.*f", prec, total / unit);
            string s = b;
            if (s[0] == '0' && g.r.p(0.3)) s = s.substr(1);
            double v = (double)(uint64_t)(unit * atof(s.c_str()));
            double frac = v / page - (double)(uint64_t)(v / page);
            if (v <= page * 1.01 || v > page * 700 || (frac != 0 && (frac * page < 16 || (1 - frac) * page < 16))) continue;
            static const vector<vector<string>> U = {{"KB", "kb", "K", "k", "Kb"}, {"MB", "mb", "M", "m", "Mb"}, {"GB", "gb", "G", "g", "Gb"}};
            g.p.size_text = s + g.r.pick(U[u]);
            g.p.pages = (int)(v / page);
            break;
        }
        g.maxblocks = (int)g.r.range(2, 5);
    } else {
        g.cfg();
        g.p.logall = g.r.p(0.5);
        g.p.bpp = g.r.p(0.6) ? 1 : (int)g.r.range(2, 4);
        g.p.pages = (int)g.r.range(2, 300);
    }
    g.p.evict = g.r.p(0.4);
    g.w = W_RW();
    add(g.w, {{"alias", .1}, {"fsync", 1}, {"cmd", 1}, {"link", .5}, {"unlink", .5}, {"rename", .8}, {"readdir", .5}, {"symlink", .4}, {"readlink", .5}, {"access", .4}, {"chmod", .4}, {"chown", .4}, {"utimens", .4}, {"mkdir", .4}, {"rmdir", .4}});
    g.dirs = {"d"};
    g.cmds = {"lazyfs::clear-cache", "lazyfs::display-cache-usage", "lazyfs::display-cache-usage", "lazyfs::cache-checkpoint"};
    g.pre();
    int nl = (int)g.r.range(1, 2);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life(); l.clients.resize(1);
        auto& v = l.clients[0];
        if (g.p.done_fifo) v.push_back(G::mk("opendone"));
        g.body(v, (int)g.r.range(6, 25));
        g.cmd(v, "lazyfs::display-cache-usage");
        if (g.r.p(0.3)) { g.cmd(v, "lazyfs::crash::timing=" + string(g.r.p(0.5) ? "before" : "after") + "::op=" + g.r.pick(vector<string>{"write", "read", "open", "fsync"}) + "::from_rgx=f"); g.body(v, 10); }
        g.verify(v);
        g.sched_seq(l);
        if (g.r.p(0.3)) l.stop = 1;
        g.maybe_kill(l, 25, 0.15);
    }
}
// LazyFS is stopped (unmounted) and started again
void p_stop(G& g) {
    g.cfg(); g.w = W_RW();
    g.flagged = g.r.p(0.1);
    add(g.w, {{"alias", .1}, {"fsync", 2}, {"cmd", .6}, {"link", .5}, {"unlink", .5}, {"rename", .8}});
    if (g.r.p(0.3)) g.dirs = {"d"};
    g.cmds = {"lazyfs::clear-cache", "lazyfs::cache-checkpoint", "lazyfs::unsynced-data-report", "lazyfs::display-cache-usage", "lazyfs::help", "lazyfs::crash::timing=after::op=rename::to_rgx=nope"};
    if (g.r.p(0.3)) { g.p.logfile = "/lazyfs.log"; g.p.checkcfg = true; }
    g.p.done_fifo = g.r.p(0.3);
    bool conc = g.r.p(0.3);
    if (conc) { g.roomy = 1; g.names = {"f0", "f1"}; g.maxblocks = 3; g.w.erase("link"); g.w.erase("alias"); }
    g.pre();
    int nl = (int)g.r.range(2, 4);
    for (int i = 0; i < nl; i++) {
        Life& l = g.life();
        int nc = conc ? 2 : 1, tot = 0;
        l.clients.resize(nc);
        for (int c = 0; c < nc; c++) {
            auto& v = l.clients[c];
            g.slots.clear();
            if (g.p.done_fifo && c == 0) v.push_back(G::mk("opendone"));
            g.waitcmd = true;
            auto w = g.w; if (conc) { g.w.erase("cmd"); }
            int n = (int)g.r.range(2, conc ? 6 : 20);
            g.body(v, n); tot += n;
            g.w = w;
            if (!conc && i == nl - 1) g.verify(v);
        }
        l.stop = 1;
        if (g.r.p(0.4)) {       // commands are still under way when the mount goes away
            l.stop = 2;
            g.waitcmd = false;
            auto& v = l.clients[0];
            for (int k = (int)g.r.range(1, 3); k > 0; k--) g.cmd(v, conc ? "lazyfs::clear-cache" : g.r.pick(g.cmds));
            g.waitcmd = true;
        }
        if (conc || l.stop == 2) g.sched_conc(l, tot + 4); else g.sched_seq(l);
        if (g.r.p(0.1)) { l.stop = 0; g.maybe_kill(l, tot + 3, 0.5); }
    }
}
// several blocks per page with ample capacity
void p_bpp(G& g) {
    double x = g.r.p(0.5) ? 0 : 1;
    if (x == 0) p_rw(g); else p_sync(g);
    g.p.bpp = (int)g.r.range(2, 5);
}
// another profile's plan on files of several gigabytes: all of them exist from the start and stay larger than the hole in them
void big_from(G& g, const vector<void (*)(G&)>& base) {
    g.r.pick(base)(g);
    Plan& p = g.p;
    int64_t pg = (int64_t)g.block * p.bpp;
    static const vector<int64_t> shifts = {1ll << 31, 1ll << 32, (1ll << 31) - (1 << 20), 3ll << 31, 1ll << 35};
    p.bigwin = g.r.range(1, 3) * pg;
    p.bigshift = g.r.pick(shifts);
    if (g.r.p(0.5)) p.bigshift -= p.bigwin;                // the part behind the hole starts at a power of two
    p.bigshift = p.bigshift / pg * pg;
    if (p.bigshift / g.block > (1ll << 30)) p.bigshift = (1ll << 30) / p.bpp * pg;      // block numbers are ints
    p.pre.clear();
    std::set<string> all(g.names.begin(), g.names.end());
    for (auto& l : p.lives) for (auto& c : l.clients) for (auto& o : c) if (o.k == "open") all.insert(o.p);
    for (auto& n : all) if (n.find('/') == string::npos) p.pre.push_back(n + " " + std::to_string(p.bigwin + 1 + (int64_t)g.r.below(4 * pg)) + " " + std::to_string(g.r.below(1000)));
    static const std::set<string> bad = {"unlink", "rename", "alias", "symlink", "readlink", "unlinks", "lseek", "mkdir", "rmdir"};
    for (auto& l : p.lives) for (auto& c : l.clients) {
        vector<Op> v;
        for (auto& o : c) {
            if (bad.count(o.k) || (o.k == "open" && o.p.find('/') != string::npos)) continue;
            if (o.k == "open") o.a &= ~(int64_t)(O_TRUNC | O_EXCL);
            if (o.k == "ftrunc" || o.k == "trunc") if (o.a <= p.bigwin) o.a = p.bigwin + 1 + (int64_t)g.r.below(3 * pg);
            if ((o.k == "write" || o.k == "read") && o.a < p.bigwin && g.r.p(0.5)) o.a += p.bigwin;
            v.push_back(o);
        }
        c = v;
    }
}
void p_big(G& g) { big_from(g, {p_rw, p_sync, p_loss2, p_ckpt, p_tiny, p_usage, p_report}); }
void p_bigtorn(G& g) { big_from(g, {p_tornop, p_tornseq}); }
void p_wide(G& g) { g.wide = true; g.r.pick(vector<void (*)(G&)>{p_rw, p_sync, p_sync, p_loss2, p_ckpt, p_usage, p_report})(g);
    for (auto& l : g.p.lives) if (l.kill_step >= 0) l.kill_step *= g.r.range(1, 80);
}
}   // namespace

static const std::map<string, void (*)(G&)>& table() {
    static const std::map<string, void (*)(G&)> t = {
        {"rw", p_rw}, {"sync", p_sync}, {"loss", p_loss2}, {"ckpt", p_ckpt}, {"ns", p_ns}, {"conc", p_conc}, {"conctiny", p_conctiny}, {"big", p_big}, {"bigtorn", p_bigtorn}, {"wide", p_wide},
        {"cmds", p_cmds}, {"crash", p_crash}, {"tornop", p_tornop}, {"tornseq", p_tornseq}, {"cclear", p_cclear}, {"report", p_report}, {"usage", p_usage},
        {"ioerr", p_ioerr}, {"times", p_times}, {"garbage", p_garbage}, {"tiny", p_tiny}, {"tinyrw", p_tinyrw}, {"bpp", p_bpp}, {"dflt", p_dflt}, {"chaos", p_chaos}, {"config", p_config}, {"stop", p_stop},
    };
    return t;
}
std::vector<std::string> profiles() { std::vector<std::string> v; for (auto& x : table()) v.push_back(x.first); return v; }
Plan gen_plan(const std::string& profile, uint64_t seed) {
    uint64_t h = seed;
    for (char c : profile) h = h * 1000003 + (unsigned char)c;
    G g(h);
    g.p.seed = seed; g.p.profile = profile;
    auto it = table().find(profile);
    if (it == table().end()) { fprintf(stderr, "unknown profile %s\n", profile.c_str()); exit(2); }
    it->second(g);
    return g.p;
}
