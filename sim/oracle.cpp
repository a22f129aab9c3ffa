// Oracle: replays the recorded history of a lifetime against the reference model.
//   * sequential lifetimes (one client) are checked request by request,
//   * concurrent lifetimes by a linearizability search over complete small states,
//   * the disk replica rebuilt from the mutation journal is compared with the model's durable state.
// run_plan() executes all lifetimes of a plan (one forked process each) and evaluates them.
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <regex>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unordered_set>

using std::string;
using std::vector;

struct FOp {
    int64_t id = 0; int kind = 0;
    int64_t a = 0, b = 0, c = 0, fh = 0; bool hasfi = false;
    string p, q, data;
    size_t inv = 0, ret = SIZE_MAX;
    int fiber = 0;
    int64_t r = 0;
    vector<int64_t> iv;
    vector<string> sv;
    bool faulted = false;
    std::set<string> failed;     // system calls that failed with an injected errno
    uint64_t newino = 0;
    int64_t tinv = 0, tret = 0;
    bool pending() const { return ret == SIZE_MAX; }
};
struct Cmd { string text; size_t inv = 0, ret = SIZE_MAX; };

static string q(const string& s) {
    string o;
    for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; }
    return o.size() > 160 ? o.substr(0, 160) + "..." : o;
}
static string opstr(const FOp& o) {
    std::ostringstream s;
    s << fkind_name[o.kind] << "(" << q(o.p);
    if (!o.q.empty()) s << " -> " << q(o.q);
    if (o.kind == F_READ || o.kind == F_WRITE) s << " off=" << o.a << " size=" << o.b;
    if (o.kind == F_TRUNCATE) s << " size=" << o.a;
    if (o.kind == F_FSYNC) s << (o.a ? " data" : " full");
    if (o.kind == F_RENAME && o.a) s << (o.a == 1 ? " noreplace" : " exchange");
    if (o.kind == F_LSEEK) s << (o.b == SEEK_DATA ? " next data from " : " next hole from ") << o.a;
    if (o.kind == F_OPEN || o.kind == F_CREATE) s << " flags=0x" << std::hex << o.a << std::dec;
    s << ")#" << o.id;
    if (o.pending()) s << " = pending"; else s << " = " << o.r;
    return s.str();
}

struct Exp { int64_t r = 0; string data; bool stat = false; uint64_t ino = 0; uint32_t mode = 0; int64_t nlink = 0, size = 0, uid = 0, gid = 0; bool dir = false; std::set<string> names; };

struct Model {
    SimFs m;
    std::map<uint64_t, string> dur;
    std::map<int64_t, uint64_t> fh;
    int block = 64;
    bool track = false;                                          // dirty/cached block bookkeeping
    std::map<uint64_t, std::set<int64_t>> dirty, optional_, cached;
    // Names requests have used since the cache was last empty. A file whose used names were all removed while another
    // link remains is the region of known finding KF1; `strict` plans judge it as well.
    std::set<string> used;
    bool strict = false;

    void init_from(const SimFs& D) {
        m = D; m.crash();
        dur.clear(); fh.clear(); dirty.clear(); cached.clear(); optional_.clear(); used.clear();
        for (auto& i : m.inodes) if (i.second.isreg()) dur[i.first] = i.second.data;
    }
    string* cur(uint64_t ino) { auto* n = m.get(ino); return n ? &n->data : nullptr; }
    void gc() {
        for (auto it = dur.begin(); it != dur.end();) if (!m.get(it->first)) { forget(it->first); it = dur.erase(it); } else ++it;
    }
    void forget(uint64_t i) { dirty.erase(i); cached.erase(i); optional_.erase(i); }
    void clear_cache() {
        for (auto& i : m.inodes) if (i.second.isreg()) i.second.data = dur[i.first];
        dirty.clear(); cached.clear(); optional_.clear(); used.clear();
    }
    std::set<uint64_t> reachable() {
        std::set<uint64_t> s;
        for (auto& f : m.files()) if (strict || used.count(f.first)) s.insert(f.second);
        return s;
    }
    std::set<uint64_t> checkpoint() {          // returns the files left out because of KF1
        std::set<uint64_t> ok = reachable(), out;
        for (auto& i : m.inodes) if (i.second.isreg()) {
            if (!ok.count(i.first) && i.second.nlink > 0 && dur[i.first] != i.second.data) {
                out.insert(i.first);
                optional_[i.first].insert(dirty[i.first].begin(), dirty[i.first].end());
                dirty.erase(i.first);
                continue;
            }
            dur[i.first] = i.second.data;
            dirty.erase(i.first); optional_.erase(i.first);
        }
        return out;
    }
    void use(const FOp& o, const Exp& e) {
        if (e.r < 0) return;
        if (o.kind == F_UNLINK) { used.erase(o.p); return; }
        if (o.kind == F_RENAME) {
            std::set<string> u;
            for (auto& x : used) {
                if (o.a == 2 && x == o.q) { u.insert(o.p); continue; }
                if (o.a == 2 && x.compare(0, o.q.size() + 1, o.q + "/") == 0) { u.insert(o.p + x.substr(o.q.size())); continue; }
                if (x == o.q && x != o.p) continue;
                if (x == o.p) u.insert(o.q);
                else if (x.compare(0, o.p.size() + 1, o.p + "/") == 0) u.insert(o.q + x.substr(o.p.size()));
                else u.insert(x);
            }
            used = u;
            return;
        }
        if (o.kind == F_SYMLINK || o.kind == F_RELEASE || o.kind == F_READLINK || o.kind == F_READDIR || o.kind == F_ACCESS || o.kind == F_CHMOD || o.kind == F_CHOWN) return;
        used.insert(o.p);
        if (o.kind == F_LINK) used.insert(o.q);
    }
    void mark(uint64_t ino, int64_t from, int64_t to) {          // bytes [from,to) written
        if (!track || to <= from) return;
        for (int64_t b = from / block; b <= (to - 1) / block; b++) { dirty[ino].insert(b); cached[ino].insert(b); optional_[ino].erase(b); }
    }
    int do_trunc(uint64_t ino, int64_t sz) {
        int64_t old = (int64_t)cur(ino)->size();
        int r = m.truncate(ino, sz);
        if (r == 0 && track) {
            if (sz > old) mark(ino, old, sz);
            if (sz < old) {
                int64_t keep = (sz + block - 1) / block;
                for (auto* s : {&dirty[ino], &cached[ino], &optional_[ino]})
                    for (auto it = s->begin(); it != s->end();) if (*it >= keep) it = s->erase(it); else ++it;
                if (sz % block) optional_[ino].insert(sz / block);
            }
        }
        return r;
    }
    int64_t target(const FOp& o) {                               // inode a data request refers to
        if (o.hasfi) {
            auto it = fh.find(o.fh);
            if (it == fh.end()) return -EBADF;
            return (int64_t)it->second;
        }
        return m.resolve(o.p, true, nullptr, nullptr);
    }
    void force(uint64_t ino) {
        // creation must get the inode number the backing file system handed out
        m.first_ino = 11;
        if (ino && !m.get(ino)) m.first_ino = ino;
    }
    Exp apply(const FOp& o, int64_t upto = -1) {
        Exp e = apply_(o, upto);
        use(o, e);
        return e;
    }
    Exp apply_(const FOp& o, int64_t upto) {
        Exp e;
        switch (o.kind) {
        case F_GETATTR: {
            int64_t i = m.resolve(o.p, false, nullptr, nullptr);
            if (i < 0) { e.r = i; break; }
            SInode* n = m.get(i);
            e.stat = true; e.ino = n->ino; e.mode = n->mode; e.nlink = n->nlink; e.size = n->isdir() ? 4096 : (int64_t)n->data.size();
            e.uid = n->uid; e.gid = n->gid;
            break;
        }
        case F_READDIR: {
            int64_t i = m.resolve(o.p, true, nullptr, nullptr);
            if (i < 0) { e.r = i; break; }
            if (!m.get(i)->isdir()) { e.r = -ENOTDIR; break; }
            e.dir = true; e.names = {".", ".."};
            for (auto& k : m.get(i)->ents) e.names.insert(k.first);
            break;
        }
        case F_OPEN: {
            int64_t i = m.open(o.p, (int)o.a & ~(O_TRUNC | O_CREAT | O_EXCL), 0);
            if (i < 0) { e.r = i; break; }
            m.open_ref(i);
            if (o.a & O_TRUNC) do_trunc(i, 0);
            if (!o.pending() && o.r >= 0 && !o.sv.empty()) fh[atoll(o.sv[0].c_str())] = i;
            break;
        }
        case F_CREATE: {
            bool existed = m.resolve(o.p, true, nullptr, nullptr) >= 0;
            force(o.newino);
            int64_t i = m.open(o.p, (int)o.a | O_CREAT, (uint32_t)o.b);
            m.first_ino = 11;
            if (i < 0) { e.r = i; break; }
            if (!existed) { dur[i] = ""; forget(i); }
            m.open_ref(i);
            if (!o.pending() && o.r >= 0 && !o.sv.empty()) fh[atoll(o.sv[0].c_str())] = i;
            break;
        }
        case F_READ: {
            int64_t i = target(o);
            if (i < 0) { e.r = i; break; }
            string* d = cur(i);
            if (!d) { e.r = -EBADF; break; }
            if ((uint64_t)o.a < d->size()) e.data = d->substr(o.a, o.b);
            e.r = (int64_t)e.data.size();
            break;
        }
        case F_WRITE: {
            int64_t i = target(o);
            if (i < 0 || !cur(i)) { e.r = -EBADF; break; }
            int64_t old = (int64_t)cur(i)->size(), n = upto >= 0 ? upto : o.b;
            e.r = m.pwrite(i, o.data.data(), n, o.a);
            if (e.r > 0) { if (o.a > old) mark(i, old, o.a); mark(i, o.a, o.a + n); }
            break;
        }
        case F_LSEEK: {
            int64_t i = target(o);
            if (i < 0 || !cur(i)) { e.r = -EBADF; break; }
            e.data = *cur(i);
            break;
        }
        case F_FSYNC: {
            int64_t i = target(o);
            if (i < 0 || !cur(i)) { e.r = -EBADF; break; }
            dur[i] = *cur(i);
            dirty.erase(i); optional_.erase(i);
            break;
        }
        case F_TRUNCATE: {
            int64_t i = target(o);
            if (i < 0 || !cur(i)) { e.r = i < 0 ? i : -EBADF; break; }
            e.r = do_trunc(i, o.a);
            break;
        }
        case F_UNLINK: e.r = m.unlink(o.p); gc(); break;
        case F_RMDIR: e.r = m.rmdir(o.p); break;
        case F_MKDIR: force(o.newino); e.r = m.mkdir(o.p, (uint32_t)o.a); m.first_ino = 11; break;
        case F_SYMLINK: force(o.newino); e.r = m.symlink(o.p, o.q); m.first_ino = 11; break;
        case F_LINK: e.r = m.link(o.p, o.q); break;
        case F_RENAME:
            if (o.a && !o.pending() && o.r == -EINVAL) { e.r = -EINVAL; break; }       // flags need not be supported
            e.r = m.rename(o.p, o.q, (unsigned)o.a); gc(); break;
        case F_READLINK: e.r = m.readlink(o.p, e.data); break;
        case F_CHMOD: e.r = m.chmod(o.p, (uint32_t)o.a); break;
        case F_CHOWN: e.r = m.chown(o.p, (uint32_t)o.a, (uint32_t)o.b, false); break;
        case F_UTIMENS: { int64_t i = m.resolve(o.p, false, nullptr, nullptr); e.r = i < 0 ? i : 0; break; }
        case F_ACCESS: { int64_t i = m.resolve(o.p, true, nullptr, nullptr); e.r = i < 0 ? i : 0; break; }
        case F_RELEASE: {
            auto it = fh.find(o.fh);
            if (it != fh.end()) { uint64_t i = it->second; fh.erase(it); m.open_unref(i); gc(); }
            break;
        }
        }
        return e;
    }
    bool pure(const FOp& o) const {
        return o.kind == F_GETATTR || o.kind == F_READDIR || o.kind == F_READ || o.kind == F_READLINK || o.kind == F_ACCESS || o.kind == F_UTIMENS || o.kind == F_LSEEK;
    }
    uint64_t hash() const {
        uint64_t h = 1469598103934665603ull;
        auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 31; };
        auto ms = [&](const string& s) { mix(s.size()); mix(std::hash<string>()(s)); };
        for (auto& i : m.inodes) {
            mix(i.first); mix(i.second.mode); mix(i.second.nlink); mix(i.second.opens); ms(i.second.data); mix(i.second.uid * 131 + i.second.gid);
            for (auto& e : i.second.ents) { ms(e.first); mix(e.second); }
        }
        for (auto& d : dur) { mix(d.first); ms(d.second); }
        for (auto& d : fh) { mix(d.first); mix(d.second); }
        return h;
    }
};

static string bytes_diff(const string& got, const string& want) {
    size_t n = std::min(got.size(), want.size()), i = 0;
    while (i < n && got[i] == want[i]) i++;
    std::ostringstream s;
    s << "got " << got.size() << " bytes, expected " << want.size();
    if (i < n) {
        s << "; first difference at +" << i << " (got " << (int)(unsigned char)got[i] << ", expected " << (int)(unsigned char)want[i] << ")";
        if (got[i] == 0) s << " [zero byte]";
    }
    return s.str();
}
// compare a request's result with the model's; empty string when they agree
static Violation match(const FOp& o, const Exp& e) {
    if (o.kind == F_RELEASE) return {};
    if (o.kind == F_LSEEK) {        // any answer that is right about the content; ignorance of holes is allowed
        if (e.r < 0) return o.r == e.r ? Violation{} : Violation{"NS", opstr(o) + ", expected " + std::to_string(e.r)};
        const string& d = e.data;
        int64_t n = (int64_t)d.size(), nz = o.a;
        string bad;
        if (o.r == -ENOSYS) return {};
        while (nz >= 0 && nz < n && d[nz] == 0) nz++;
        if (o.a < 0 || o.a >= n) { if (o.r != -ENXIO) bad = "expected ENXIO at or behind the end of the file (size " + std::to_string(n) + ")"; }
        else if (o.b == SEEK_DATA) {
            if (o.r == -ENXIO) { if (nz < n) bad = "there is data at " + std::to_string(nz); }
            else if (o.r < o.a || o.r >= n) bad = "outside the file (size " + std::to_string(n) + ")";
            else if (o.r > nz) bad = "there is data at " + std::to_string(nz);
        } else if (o.r < o.a || o.r > n) bad = "expected a position up to the end of the file (size " + std::to_string(n) + ")";
        else if (o.r < n && d[o.r] != 0) bad = "there is data at " + std::to_string(o.r);
        if (!bad.empty()) return {"SZ", opstr(o) + ": " + bad};
        return {};
    }
    if (o.r != e.r) {
        string cls = "NS";
        if (o.kind == F_READ) cls = o.r < 0 ? "ERR" : "RD";
        else if (o.kind == F_WRITE || o.kind == F_FSYNC || o.kind == F_TRUNCATE) cls = "ERR";
        string extra = o.kind == F_READ && o.r >= 0 ? " (" + bytes_diff(o.sv[0], e.data) + ")" : "";
        return {cls, opstr(o) + " returned " + std::to_string(o.r) + ", expected " + std::to_string(e.r) + extra};
    }
    if (o.kind == F_READ && o.r > 0 && o.sv[0] != e.data) return {"RD", opstr(o) + ": wrong data: " + bytes_diff(o.sv[0], e.data)};
    if (o.kind == F_READLINK && o.r == 0 && o.sv[0] != e.data) return {"NS", opstr(o) + ": wrong target"};
    if (e.stat && o.r == 0) {
        uint64_t ino = o.iv[2]; uint32_t mode = (uint32_t)o.iv[3]; int64_t nl = o.iv[4], sz = o.iv[7];
        if (ino != e.ino) return {"NS", opstr(o) + ": inode " + std::to_string(ino) + ", expected " + std::to_string(e.ino)};
        if (mode != e.mode) return {"META", opstr(o) + ": mode " + std::to_string(mode) + ", expected " + std::to_string(e.mode)};
        if (o.iv[5] != e.uid || o.iv[6] != e.gid) return {"META", opstr(o) + ": wrong owner"};
        if (!S_ISLNK(mode) && sz != e.size) return {"SZ", opstr(o) + ": size " + std::to_string(sz) + ", expected " + std::to_string(e.size)};
        if (!S_ISDIR(mode) && nl != e.nlink) return {"NS", opstr(o) + ": link count " + std::to_string(nl) + ", expected " + std::to_string(e.nlink)};
    }
    if (e.dir && o.r == 0) {
        std::set<string> got(o.sv.begin() + 1, o.sv.end());
        if (got != e.names || got.size() != o.sv.size() - 1) {
            string s; for (auto& x : got) if (!e.names.count(x)) s += " +" + x;
            for (auto& x : e.names) if (!got.count(x)) s += " -" + x;
            return {"NS", opstr(o) + ": directory listing differs:" + s};
        }
    }
    return {};
}

static uint64_t apply_disk(SimFs& D, const Rec& r) {     // returns the inode created, if any
    int k = (int)r.i[0];
    D.now_ns = r.i[1];
    switch (k) {
    case D_OPEN: { int64_t i = D.open(r.s[0], (int)r.i[3], (uint32_t)r.i[4]); return i > 0 ? (uint64_t)i : 0; }
    case D_PWRITE: D.pwrite(r.i[3], r.s[0].data(), r.s[0].size(), r.i[4]); break;
    case D_TRUNC: D.truncate(r.i[3], r.i[4]); break;
    case D_UNLINK: D.unlink(r.s[0]); break;
    case D_RMDIR: D.rmdir(r.s[0]); break;
    case D_MKDIR: D.mkdir(r.s[0], (uint32_t)r.i[3]); return D.resolve(r.s[0], false, nullptr, nullptr);
    case D_SYMLINK: D.symlink(r.s[0], r.s[1]); return D.resolve(r.s[1], false, nullptr, nullptr);
    case D_LINK: D.link(r.s[0], r.s[1]); break;
    case D_RENAME: D.rename(r.s[0], r.s[1], (unsigned)r.i[3]); break;
    case D_CHMOD: D.chmod(r.s[0], (uint32_t)r.i[3]); break;
    case D_CHOWN: D.chown(r.s[0], (uint32_t)r.i[3], (uint32_t)r.i[4], r.i[5]); break;
    case D_UTIMENS: {
        struct timespec t[2]; t[0].tv_sec = r.i[3]; t[0].tv_nsec = r.i[4]; t[1].tv_sec = r.i[5]; t[1].tv_nsec = r.i[6];
        D.utimens(r.s[0], t, r.i[7]); break;
    }
    case D_UTIMENSI: {
        struct timespec t[2]; t[0].tv_sec = r.i[4]; t[0].tv_nsec = r.i[5]; t[1].tv_sec = r.i[6]; t[1].tv_nsec = r.i[7];
        D.utimens_ino(r.i[3], t); break;
    }
    case D_OPENREF: D.open_ref(r.i[3]); break;
    case D_UNREF: D.open_unref(r.i[3]); break;
    }
    return 0;
}
static string ns_diff(SimFs& A, SimFs& B) {
    auto a = A.files(), b = B.files();
    std::map<string, uint64_t> ma(a.begin(), a.end()), mb(b.begin(), b.end());
    for (auto& x : ma) {
        auto it = mb.find(x.first);
        if (it == mb.end()) return "expected " + x.first + " on the backing file system, it is missing";
        if (it->second != x.second) return x.first + " is inode " + std::to_string(it->second) + " on the backing file system, expected " + std::to_string(x.second);
        if (A.get(x.second)->islnk() && A.get(x.second)->data != B.get(x.second)->data) return x.first + ": symlink target differs";
        if (A.get(x.second)->mode != B.get(x.second)->mode) return x.first + ": mode differs on the backing file system";
        if (A.get(x.second)->uid != B.get(x.second)->uid || A.get(x.second)->gid != B.get(x.second)->gid) return x.first + ": owner differs on the backing file system";
        if (A.get(x.second)->nlink != B.get(x.second)->nlink) return x.first + ": link count differs on the backing file system";
    }
    for (auto& x : mb) if (!ma.count(x.first)) return "unexpected " + x.first + " on the backing file system";
    return "";
}
static string path_of(SimFs& A, uint64_t ino) { for (auto& x : A.files()) if (x.second == ino) return x.first; return "inode " + std::to_string(ino); }
// every byte of d comes from one of the candidates (or is a zero in a hole), the size is between the extremes
static bool mixof(const string& d, const vector<const string*>& c) {
    size_t lo = SIZE_MAX, hi = 0;
    for (auto s : c) { lo = std::min(lo, s->size()); hi = std::max(hi, s->size()); }
    if (d.size() < lo || d.size() > hi) return false;
    for (size_t i = 0; i < d.size(); i++) {
        bool ok = d[i] == 0 && i >= lo;
        for (auto s : c) if (i < s->size() && (*s)[i] == d[i]) ok = true;
        if (!ok) return false;
    }
    return true;
}

// ------------------------------------------------------------------ armed faults
struct ArmCrash { bool after; string op, from, to; };
struct ArmClear { string op, timing, from, to; int occ; bool crash; int count = 0; };
struct ArmTornOp { string file; vector<int> persist; int parts; vector<int> pb; int occ; int count = 0; };
struct ArmTornSeq { string file; vector<int> persist; int occ; int count = 0, group = 0; bool has1 = false; string d1; int64_t o1 = 0; bool pend = false; };
static const std::set<string> OPS = {"unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"};
static const std::set<string> OPS2 = {"rename", "link", "symlink"};
static bool rsearch(const string& rgx, const string& s) {
    try { return std::regex_match(s, std::regex(".*" + rgx + ".*")); } catch (std::regex_error&) { return false; }
}
static bool rvalid(const string& rgx) { try { std::regex r(".*" + rgx + ".*"); return true; } catch (std::regex_error&) { return false; } }
static vector<string> splits(const string& s, const string& sep);
static vector<string> splits_(const string& s) { return splits(s, "\n"); }
static vector<string> splits(const string& s, const string& sep) {
    vector<string> o; size_t i = 0;
    while (true) { size_t j = s.find(sep, i); if (j == string::npos) { o.push_back(s.substr(i)); return o; } o.push_back(s.substr(i, j - i)); i = j + sep.size(); }
}
static bool numlist(const string& s, vector<int>& v) {
    if (s.empty()) return false;
    for (auto& t : splits(s, ",")) {
        if (t.empty() || t.size() > 9) return false;
        for (char c : t) if (c < '0' || c > '9') return false;
        v.push_back(atoi(t.c_str()));
    }
    return true;
}
struct Armed {
    vector<ArmCrash> crash;
    vector<ArmClear> clear;
    vector<ArmTornOp> top;
    vector<ArmTornSeq> tseq;
    bool any() const { return !crash.empty() || !clear.empty() || !top.empty() || !tseq.empty(); }
    bool add_top(ArmTornOp t) {
        int np = t.parts >= 0 ? t.parts : (int)t.pb.size();
        if (t.occ <= 0 || np <= 0 || t.file.empty()) return false;
        for (int p : t.pb) if (p <= 0) return false;
        for (int p : t.persist) if (p <= 0 || p > np) return false;
        for (auto& x : top) if (x.file == t.file) return false;
        top.push_back(t); return true;
    }
    bool add_tseq(ArmTornSeq t, const string& op) {
        if (op != "write" || t.occ <= 0 || t.file.empty()) return false;
        for (int p : t.persist) if (p <= 0) return false;
        for (auto& x : tseq) if (x.file == t.file) return false;
        std::sort(t.persist.begin(), t.persist.end());
        tseq.push_back(t); return true;
    }
    // returns how many of the configuration's faults are to be refused
    int from_config(const Plan& p) {
        int refused = 0;
        for (auto& i : p.injs) {
            bool ok = false;
            if (i.omit == 1) ;
            else if (i.type == "clear-cache" || i.type == "clear") {
                bool multi = OPS2.count(i.op);
                bool bad = i.occurrence <= 0 || !OPS.count(i.op) || (i.timing != "before" && i.timing != "after");
                bad = bad || (multi ? (i.from.empty() || i.to.empty()) : (i.from.empty() || !i.to.empty()));
                for (auto& c : clear) if (c.from == i.from) bad = true;
                if (!bad) { ok = true; clear.push_back({i.op, i.timing, i.from, i.to, i.occurrence, i.crash}); }
            } else if (i.type == "torn-op") {
                if ((i.parts >= 0) != !i.parts_bytes.empty()) ok = add_top({i.file, i.persist, i.parts, i.parts_bytes, i.occurrence});
            } else if (i.type == "torn-seq") {
                ArmTornSeq t; t.file = i.file; t.persist = i.persist; t.occ = i.occurrence;
                ok = add_tseq(t, i.op);
            }
            if (!ok) refused++;
        }
        return refused;
    }
    // returns true when the command is an arming command (valid or not)
    bool command(const string& line, bool& valid) {
        valid = false;
        auto f = splits(line, "::");
        if (f.size() < 2 || f[0] != "lazyfs") return false;
        std::map<string, string> kv;
        for (size_t i = 2; i < f.size(); i++) { size_t e = f[i].find('='); if (e != string::npos) kv[f[i].substr(0, e)] = f[i].substr(e + 1); else kv[f[i]] = ""; }
        if (f[1] == "crash") {
            string op = kv["op"], tm = kv["timing"], fr = kv["from_rgx"], to = kv["to_rgx"];
            if (!OPS.count(op) || (tm != "before" && tm != "after")) return true;
            if (OPS2.count(op) ? (fr.empty() && to.empty()) : (fr.empty() || !to.empty())) return true;
            if (!rvalid(fr) || !rvalid(to)) return true;
            valid = true;
            crash.push_back({tm == "after", op, fr, to});
            return true;
        }
        if (f[1] == "torn-op" || f[1] == "torn-seq") {
            bool op = f[1] == "torn-op";
            for (auto& k : kv) {
                const string& n = k.first;
                bool known = n == "file" || n == "persist" || n == "occurrence" || (op ? (n == "parts" || n == "parts_bytes") : n == "op");
                if (!known) return true;
            }
            vector<int> per, pb, occ{1}, parts{-1};
            if (kv["file"].empty() || !numlist(kv["persist"], per)) return true;
            if (kv.count("occurrence")) { occ.clear(); if (!numlist(kv["occurrence"], occ) || occ.size() != 1) return true; }
            if (op) {
                bool hp = kv.count("parts"), hb = kv.count("parts_bytes");
                if (hp == hb) return true;
                if (hp) { parts.clear(); if (!numlist(kv["parts"], parts) || parts.size() != 1) return true; }
                if (hb && !numlist(kv["parts_bytes"], pb)) return true;
                valid = add_top({kv["file"], per, parts[0], pb, occ[0]});
            } else {
                ArmTornSeq t; t.file = kv["file"]; t.persist = per; t.occ = occ[0];
                valid = add_tseq(t, kv["op"]);
            }
            return true;
        }
        return false;
    }
    static bool matches(const ArmCrash& c, const string& op, const string& p, const string& qq) {
        if (c.op != op) return false;
        if (!c.from.empty() && !rsearch(c.from, p)) return false;
        if (!c.to.empty() && !rsearch(c.to, qq)) return false;
        return true;
    }
};
static const char* opname(int k) {
    switch (k) {
    case F_OPEN: return "open"; case F_CREATE: return "create"; case F_READ: return "read"; case F_WRITE: return "write"; case F_FSYNC: return "fsync";
    case F_TRUNCATE: return "truncate"; case F_UNLINK: return "unlink"; case F_RENAME: return "rename"; case F_LINK: return "link";
    case F_SYMLINK: return "symlink"; case F_ACCESS: return "access";
    }
    return "";
}

// ------------------------------------------------------------------ one lifetime
struct LifeIn {
    const Plan* plan; size_t life;
    vector<Rec> h;
    int end; int sig; string msg;
};
struct LifeOracle {
    const Plan& P; const Life& L; LifeIn& in; SimFs& D; RunStats& st; bool verbose;
    Model M;
    vector<FOp> ops; std::map<int64_t, size_t> byid;
    vector<Cmd> cmds;
    size_t ans_next = 0;        // where to look for the answer to the next fault command
    Violation v;
    string narr;
    LifeOracle(const Plan& p, LifeIn& i, SimFs& d, RunStats& s, bool vb) : P(p), L(p.lives[i.life]), in(i), D(d), st(s), verbose(vb) {}
    // A cache that has been asked for more pages than it has may have written data early, until it is emptied again.
    bool over = false;
    bool exact() const { return P.exact && !over; }
    void note_pages(Model& m) {
        if (!m.track || over) return;
        size_t n = 0;
        for (auto& c : m.cached) if (m.m.get(c.first)) n += c.second.size();
        if (n > (size_t)P.pages) { over = true; tm.clear(); ctm.clear(); st.probes["cache-full"]++; }
    }
    // Unsynced blocks that certainly are in the cache, although it has been full: only a sync may bring them to the disk.
    std::map<uint64_t, std::set<int64_t>> held;
    void note_held(const FOp* o, int64_t ino, int64_t before) {
        if (!M.track || P.bpp != 1 || !L.faults.empty() || !A.top.empty() || !A.tseq.empty()) { held.clear(); return; }
        if (o && ino > 0 && M.cur(ino) && o->r >= 0 && (o->kind == F_WRITE || o->kind == F_TRUNCATE)) {
            size_t n = 0;
            for (auto* s : {P.evict ? &M.dirty : &M.cached, P.evict ? &M.optional_ : nullptr}) if (s) for (auto& c : *s) if (M.m.get(c.first)) n += c.second.size();
            int64_t from = o->kind == F_WRITE ? std::min<int64_t>(before, o->a) : before, to = o->kind == F_WRITE ? o->a + o->r : o->a;
            if (n <= (size_t)P.pages && (o->kind == F_TRUNCATE || o->r > 0)) for (int64_t b = from / M.block; b * M.block < to; b++) held[ino].insert(b);
        }
        for (auto it = held.begin(); it != held.end();) {
            auto d = M.dirty.find(it->first);
            if (d == M.dirty.end() || !M.m.get(it->first)) { it = held.erase(it); continue; }
            for (auto b = it->second.begin(); b != it->second.end();) if (!d->second.count(*b)) b = it->second.erase(b); else ++b;
            ++it;
        }
        if (over) for (auto& h : held) if (!h.second.empty()) { st.probes["held-while-full"]++; break; }
    }
    // Files with a write or a truncation since LazyFS started, and since the last sync, checkpoint or clear that covered them.
    std::set<uint64_t> touched;
    bool in_cmd_fault = false;      // a system call of the command being executed was made to fail
    void note_touched(const FOp& o, int64_t ino) {
        if (ino <= 0) return;
        if (o.kind == F_WRITE || o.kind == F_TRUNCATE || (o.kind == F_OPEN && (o.a & O_TRUNC))) touched.insert(ino);
        else if (o.kind == F_FSYNC && o.r == 0) touched.erase(ino);
    }
    void cleared() {
        held.clear(); touched.clear();
        if (!exact())       // what reached the disk early survives the clear
            for (auto& x : M.m.inodes) {
                SInode* n = x.second.isreg() ? D.get(x.first) : nullptr;
                if (n && mixof(n->data, {&M.dur[x.first], &x.second.data})) M.dur[x.first] = n->data;
            }
        M.clear_cache(); over = false;
    }
    bool fail(const string& c, const string& m) { if (v.ok()) v = {c, m}; return false; }

    bool parse() {
        uint64_t written = 0;
        size_t dones = 0;
        vector<uint64_t> ends;
        string partial; size_t partial_inv = 0;
        for (size_t k = 0; k < in.h.size(); k++) {
            Rec& r = in.h[k];
            if (r.type == R_FINV) {
                FOp o; o.id = r.i[0]; o.kind = (int)r.i[1]; o.a = r.i[2]; o.b = r.i[3]; o.c = r.i[4]; o.fh = r.i[5]; o.hasfi = r.i[6];
                o.p = r.s[0]; o.q = r.s[1]; o.data = r.s[2]; o.inv = k; o.fiber = r.fiber; o.tinv = r.t;
                byid[o.id] = ops.size(); ops.push_back(o);
                st.fuse_ops++;
            } else if (r.type == R_FRET) {
                FOp& o = ops[byid[r.i[0]]];
                o.ret = k; o.tret = r.t; o.r = r.i[1]; o.iv = r.i; o.sv = r.s;
            } else if (r.type == R_SFAULT) {
                st.sfaults++; st.probes["fault:" + r.s[0] + (r.i[1] ? ":errno" : ":short")]++;
                if (byid.count(r.i[0])) { FOp& o = ops[byid[r.i[0]]]; o.faulted = true; if (r.i[1]) o.failed.insert(r.s[0]); }
            } else if (r.type == R_DISK) st.disk_muts++;
            else if (r.type == R_CMDW) {
                for (char c : r.s[0]) {
                    written++;
                    if (partial.empty()) partial_inv = k;
                    if (c == '\n') {
                        Cmd cm; cm.text = partial; cm.inv = k; (void)partial_inv;
                        cmds.push_back(cm); ends.push_back(written); partial.clear();
                        st.cmds++;
                    } else partial += c;
                }
            } else if (r.type == R_FIFORB) {
                for (size_t j = 0; j < cmds.size(); j++) if (cmds[j].ret == SIZE_MAX && ends[j] <= (uint64_t)r.i[0]) cmds[j].ret = k;
            } else if (r.type == R_DONE) {      // the notification says the clear is complete
                for (auto& m : splits_(r.s[0])) {
                    if (m != "finished::clear-cache") continue;
                    dones++;
                    size_t n = 0;
                    for (auto& c : cmds) if (c.text == "lazyfs::clear-cache" && ++n == dones && c.ret == SIZE_MAX) c.ret = k;
                }
            } else if (r.type == R_NOTE && v.ok()) {
                if (r.s[0] == "hole") fail("LEAK", "LazyFS addressed offset or size " + std::to_string(r.i[0]) + " of a backing file, which no request refers to");
                if (r.s[0] == "read-overflow") fail("DEATH", "a read wrote past the end of the reply buffer");
                if (r.s[0] == "close-bad-fd") fail("FD", "LazyFS closed a descriptor that is not open (" + std::to_string(r.i[0]) + ")");
            }
        }
        return v.ok();
    }
    string leaks(int64_t of, int64_t hs) {
        if (of == hs) return "";
        return std::to_string(of) + " backing descriptors are open while users hold " + std::to_string(hs) + " handles";
    }
    // ---------------- disk against durable state
    bool check_disk(const std::set<uint64_t>& loose, bool adopt, const string& when) {
        string d = ns_diff(M.m, D);
        if (!d.empty()) return fail("NS", when + ": " + d);
        for (auto& x : M.m.inodes) {
            if (!x.second.isreg()) continue;
            SInode* n = D.get(x.first);
            if (!n) { if (x.second.nlink > 0) return fail("NS", when + ": inode missing"); continue; }
            string& du = M.dur[x.first];
            if (n->data == du) continue;
            bool lenient = !exact() || loose.count(x.first);
            string where = path_of(M.m, x.first) + " on the backing file system";
            if (!lenient) {
                bool leak = n->data == x.second.data;
                string diff = bytes_diff(n->data, du);
                // a byte that differs from the durable value and equals the cached one was persisted without a sync
                size_t k = 0; while (k < n->data.size() && k < du.size() && n->data[k] == du[k]) k++;
                if (k < n->data.size() && k < x.second.data.size() && n->data[k] == x.second.data[k]) leak = true;
                return fail(leak ? "LEAK" : "LOST", when + ": " + where + (leak ? " holds data no sync persisted: " : " does not hold the synced data: ") + diff);
            }
            if (held.count(x.first) && !loose.count(x.first) && !alts.count(x.first))
                for (auto b : held[x.first]) for (int64_t i = b * M.block; i < (b + 1) * M.block && i < (int64_t)n->data.size(); i++)
                    if (n->data[i] != (i < (int64_t)du.size() ? du[i] : 0))
                        return fail("LEAK", when + ": block " + std::to_string(b) + " of " + where + " holds data no sync persisted, although it fitted into the cache");
            vector<const string*> cand = {&du, &x.second.data};
            if (alts.count(x.first)) for (auto& a : alts[x.first]) cand.push_back(&a);
            if (!mixof(n->data, cand))
                return fail("LOST", when + ": " + where + " holds bytes that are neither the synced nor the current content: " + bytes_diff(n->data, du));
            if (adopt) du = n->data;
        }
        return true;
    }
    bool end_ok(string& cls, string& msg) {
        switch (in.end) {
        case E_DONE: case E_KILLED: case E_SELFKILL: case E_STOP: return true;
        case E_DEADLOCK: cls = "HANG"; msg = "deadlock: " + in.msg; return false;
        case E_STEPS: case E_CPU: cls = "HANG"; msg = "no progress: " + in.msg; return false;
        case E_SIGNAL: cls = "DEATH"; msg = "LazyFS died: " + in.msg; return false;
        case E_EXIT: cls = "DEATH"; msg = "LazyFS exited: " + in.msg; return false;
        }
        cls = "HARNESS"; msg = "harness error: " + in.msg; return false;
    }
    void run();
    bool check_config();
    bool sequential();
    bool concurrent();
    // sequential helpers
    Armed A;
    std::map<uint64_t, vector<string>> alts;          // other possible current contents after a failed write/truncate
    std::set<uint64_t> loose;
    bool do_cmd(const string& line, size_t from, size_t to);
    bool check_report(size_t from, size_t to);
    bool check_usage(size_t from, size_t to);
    struct Trig { bool killb = false, killa = false, clearb = false, cleara = false; bool torn = false; };
    Trig pre_op(const FOp& o);
    void torn_persist(const FOp& o, bool& killa);
    vector<std::pair<uint64_t, std::pair<int64_t, string>>> torn_writes;
    bool check_ret(FOp& o);
    // file times: what getattr has to report, per inode, while LazyFS has the file in its cache
    struct TV { bool known = false; int64_t lo = 0, hi = 0; };
    std::map<uint64_t, std::pair<TV, TV>> tm;           // access time, modification time
    std::map<uint64_t, int64_t> ctm;                    // the change time is not before this
    bool times = false;
    static int64_t ns(const struct timespec& t) { return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec; }
    void t_ensure(uint64_t ino) {
        if (tm.count(ino)) return;
        SInode* n = D.get(ino);
        if (n && n->isreg()) tm[ino] = {{true, ns(n->at), ns(n->at)}, {true, ns(n->mt), ns(n->mt)}};
    }
    void t_before(const FOp& o);
    bool t_after(const FOp& o, int64_t ino, int64_t oldsize);
    bool t_disk(uint64_t ino, const string& when);
};

static bool lastc(const string& s, const string& sub) { return s.find(sub) != string::npos; }

// the configuration file and the command line: what LazyFS passes on, creates and logs
bool LifeOracle::check_config() {
    vector<string> want = {"argv"}, have, fifos, wf = {P.fifo};
    auto av = P.argv();
    for (size_t i = 0; i < av.size(); i++) { if (av[i] == "--config-path") i++; else want.push_back(av[i]); }
    if (P.done_fifo) wf.push_back(P.done);
    size_t opened = SIZE_MAX;
    int64_t unf[2] = {0, 0};
    std::map<int, vector<string>> con, file;
    std::set<int> users = {0};
    for (size_t k = 0; k < in.h.size(); k++) {
        Rec& r = in.h[k];
        if (r.type == R_NOTE) {
            if (r.s[0] == "argv") have = r.s;
            else if (r.s[0] == "mkfifo") fifos.push_back(r.s[1]);
            else if (r.s[0] == "logfile-open" && opened == SIZE_MAX) opened = k;
            else if (r.s[0] == "unflushed") { unf[0] = r.i[0]; unf[1] = r.i[1]; }
        } else if (r.type == R_LOG && opened != SIZE_MAX) con[r.fiber].push_back(r.s[0]);
        else if (r.type == R_LOGF) file[(int)r.i[0]].push_back(r.s[0]);
        else if (r.type == R_FINV) users.insert(r.fiber);
    }
    if (have.empty() && in.end == E_KILLED) return true;      // killed while starting
    auto show = [](const vector<string>& x) { string s; for (auto& y : x) s += " " + y; return s; };
    if (have != want) return fail("CFG", "the mount got the arguments" + show(have) + ", expected" + show(want));
    std::sort(fifos.begin(), fifos.end()); std::sort(wf.begin(), wf.end());
    if (fifos != wf) return fail("CFG", "FIFOs created:" + show(fifos) + ", configured:" + show(wf));
    if (!P.checkcfg) return true;
    bool own = in.end == E_SELFKILL || in.end == E_STOP;
    if (own && unf[0]) return fail("CFG", "log lines of the ending thread did not leave the console buffer");
    if (own && unf[1]) return fail("CFG", "log lines of the ending thread did not reach the log file");
    st.probes["config-checked"]++;
    if (!P.logfile.empty() && P.logfile_ok) {
        st.probes["log-file"]++;
        if (opened == SIZE_MAX) return fail("CFG", "the configured log file was not opened");
        for (auto& c : con) if (!file.count(c.first)) file[c.first] = {};
        for (auto& f : file) {
            auto& c = con[f.first];
            size_t n = std::min(c.size(), f.second.size()), d = std::max(c.size(), f.second.size()) - n;
            bool part = !users.count(f.first) || in.end == E_KILLED || (in.end == E_SELFKILL && f.first != in.h.back().fiber);
            if (d > (part ? 3u : 0u)) return fail("CFG", "the log file has " + std::to_string(f.second.size()) + " lines of a thread, the console " + std::to_string(c.size()));
            for (size_t i = 0; i < n; i++) {
                string a = c[i];        // without colours
                string b; for (size_t j = 0; j < a.size(); j++) { if (a[j] == 27) { while (j < a.size() && a[j] != 'm') j++; } else b += a[j]; }
                if (b != f.second[i]) return fail("CFG", "the log file has '" + q(f.second[i]) + "' where the console has '" + q(b) + "'");
            }
        }
    }
    for (auto& o : ops) {
        if (o.ret == SIZE_MAX) continue;
        string name = string("lfs_") + fkind_name[o.kind];
        bool any = false;
        for (size_t k = o.inv; k < o.ret && !any; k++) any = in.h[k].type == R_LOG && in.h[k].fiber == o.fiber && in.h[k].s[0].find(name + "(") != string::npos && in.h[k].s[0].find(o.p) != string::npos;
        if (any && !P.logall) return fail("CFG", opstr(o) + " is logged although log_all_operations is off");
        if (!any && P.logall && o.kind != F_LSEEK) return fail("CFG", opstr(o) + " is not logged although log_all_operations is on");
    }
    st.probes[P.logall ? "log-all-on" : "log-all-off"]++;
    return true;
}

bool LifeOracle::check_report(size_t from, size_t to) {
    std::map<uint64_t, std::set<int64_t>> got; std::map<uint64_t, std::set<string>> files; bool none = false, total = false; long long tot = 0;
    static const std::regex rr("report: \\[inode (\\d+)\\] info: \\(block (\\d+)\\) to \\(block (\\d+)\\)(?: \\[byte index (\\d+) to index (\\d+)\\])?");
    struct Range { long long a, b, from, to; };
    std::map<uint64_t, vector<Range>> ranges;
    static const std::regex rf("report: \\[inode (\\d+)\\] => file: '(.*)'");
    static const std::regex ri("report: \\[inode (\\d+)\\] is not fully synced");
    static const std::regex rt("total number of bytes un-fsynced: (\\d+) bytes");
    for (size_t k = from; k < to; k++) {
        if (in.h[k].type != R_LOG) continue;
        const string& s = in.h[k].s[0];
        std::smatch m;
        if (std::regex_search(s, m, rr)) {
            long long a = atoll(m[2].str().c_str()), b = atoll(m[3].str().c_str());
            if (b < a || b - a > 100000) return fail("REPORT", "report has a senseless block range: " + q(s));
            if (P.bigshift) {           // block numbers behind the hole
                long long w = P.bigwin / M.block, sh = P.bigshift / M.block;
                if ((a >= w && a < w + sh) || (b >= w && b < w + sh) || (a < w && b >= w)) return fail("REPORT", "report names blocks of a hole: " + q(s));
                if (a >= w) { a -= sh; b -= sh; }
            }
            for (long long x = a; x <= b; x++) got[atoll(m[1].str().c_str())].insert(x);
            if (m[3].matched && m[4].matched) ranges[atoll(m[1].str().c_str())].push_back({a, b, atoll(m[4].str().c_str()), atoll(m[5].str().c_str())});
        } else if (std::regex_search(s, m, rf)) files[atoll(m[1].str().c_str())].insert(m[2]);
        else if (std::regex_search(s, m, ri)) got[atoll(m[1].str().c_str())];
        else if (std::regex_search(s, m, rt)) { total = true; tot = atoll(m[1].str().c_str()); }
        else if (lastc(s, "all data blocks are synced")) none = true;
    }
    if (!none && !total) return fail("REPORT", "no report was produced");
    long long must = 0, may = 0, sum = 0;
    bool anydirty = false, anyopt = false, surely = false;
    auto reach = M.reachable();
    for (auto& d : M.dirty) if (!reach.count(d.first)) { M.optional_[d.first].insert(d.second.begin(), d.second.end()); d.second.clear(); }
    for (auto& d : M.dirty) {
        if (d.second.empty()) continue;
        SInode* n = M.m.get(d.first);
        if (!n) continue;
        anydirty = true;
        auto& opt = M.optional_[d.first];
        auto sure = [&](int64_t b) { return !over || (held.count(d.first) && held[d.first].count(b)); };    // once the cache has been full, blocks may have been written through
        std::set<int64_t> g = got.count(d.first) ? got[d.first] : std::set<int64_t>();
        for (auto b : d.second) {
            may += M.block;
            if (!sure(b) && !g.count(b)) { anyopt = true; continue; }
            if (!g.count(b)) return fail("REPORT", "unsynced block " + std::to_string(b) + " of " + path_of(M.m, d.first) + " is not reported");
            must += 1; surely = true; sum += std::min<long long>(M.block, (long long)n->data.size() - b * M.block);
        }
        if (!opt.empty()) anyopt = true;
        else if (exact()) for (auto& x : ranges[d.first]) {      // bytes are counted from the first block of the range
            long long last = (x.b - x.a) * M.block + std::min<long long>(M.block, (long long)n->data.size() - x.b * M.block) - 1;
            if (x.from != 0 || x.to != last)
                return fail("REPORT", "report gives bytes " + std::to_string(x.from) + " to " + std::to_string(x.to) + " for blocks " + std::to_string(x.a) + " to " + std::to_string(x.b) + " of " + path_of(M.m, d.first) + ", expected 0 to " + std::to_string(last));
        }
        for (auto b : g) if (!d.second.count(b) && opt.count(b)) may += M.block;
        for (auto b : g) if (!d.second.count(b) && !opt.count(b)) return fail("REPORT", "block " + std::to_string(b) + " of " + path_of(M.m, d.first) + " is reported but synced or never written");
        for (auto& f : M.m.files()) if (f.second == d.first && f.first.find(".fuse_hidden") == string::npos && !files[d.first].count(f.first) && (n->nlink == 1 || M.used.count(f.first)))
            if (!over || got.count(d.first)) return fail("REPORT", "report does not name " + f.first);
        for (auto& f : files[d.first]) if (M.m.resolve(f, false, nullptr, nullptr) != (int64_t)d.first) return fail("REPORT", "report names " + f + " for inode " + std::to_string(d.first));
    }
    if (surely && none) return fail("REPORT", "report says everything is synced while data is unsynced");
    for (auto& g : got) {
        if (M.dirty.count(g.first) && !M.dirty[g.first].empty()) continue;
        auto& opt = M.optional_[g.first];
        for (auto b : g.second) if (!opt.count(b)) return fail("REPORT", "file " + path_of(M.m, g.first) + " is reported as unsynced but has no unsynced data");
        may += M.block * (long long)g.second.size(); anyopt = true;
        if (opt.empty()) return fail("REPORT", "file " + path_of(M.m, g.first) + " is reported as unsynced but has no unsynced data");
    }
    if (total && (tot < must || tot > may + (long long)M.block * 4)) return fail("REPORT", "reported " + std::to_string(tot) + " unsynced bytes, expected between " + std::to_string(must) + " and " + std::to_string(may));
    if (total && !anyopt && exact() && tot != sum) return fail("REPORT", "reported " + std::to_string(tot) + " unsynced bytes in total, expected " + std::to_string(sum));
    for (auto it = touched.begin(); it != touched.end();) if (!M.m.get(*it)) it = touched.erase(it); else ++it;
    if (touched.empty() && !none) return fail("REPORT", "everything is synced, but the report does not say so");
    if (touched.empty()) st.probes["report:all-synced"]++;
    if (over) st.probes["report:cache-was-full"]++;
    st.probes["report"]++;
    if (anydirty) st.probes["report:dirty"]++;
    return true;
}
bool LifeOracle::check_usage(size_t from, size_t to) {
    static const std::regex ru("cache usage \\(%pages\\) is ([-0-9.e+]+)%");
    double u = -1; int n = 0;
    for (size_t k = from; k < to; k++) {
        if (in.h[k].type != R_LOG) continue;
        std::smatch m;
        if (std::regex_search(in.h[k].s[0], m, ru)) { u = atof(m[1].str().c_str()); n++; }
    }
    if (n != 1) return fail("USAGE", "display-cache-usage produced " + std::to_string(n) + " answers");
    if (!exact()) { if (u < -1e-6 || u > 100 + 1e-6) return fail("USAGE", "usage out of range: " + std::to_string(u)); return true; }
    double pages = 0;
    for (auto& c : M.cached) if (M.m.get(c.first)) pages += P.bpp == 1 ? (double)c.second.size() : std::ceil((double)c.second.size() / P.bpp);
    double used = u * P.pages / 100;
    if (P.bpp == 1 ? std::fabs(used - pages) > 1e-3 : (used < pages - 1e-3)) {
        std::ostringstream s; s << "usage is " << used << " of " << P.pages << " pages, expected " << pages;
        return fail("USAGE", s.str());
    }
    st.probes["usage"]++;
    return true;
}
bool LifeOracle::do_cmd(const string& line, size_t from, size_t to) {
    if (line == "lazyfs::clear-cache") {
        st.clears++;
        bool lossy = false;
        for (auto& i : M.m.inodes) if (i.second.isreg() && i.second.data != M.dur[i.first]) lossy = true;
        if (lossy) st.lossy++;
        cleared(); alts.clear(); tm.clear(); ctm.clear();
    } else if (line == "lazyfs::cache-checkpoint") {
        if (!in_cmd_fault) for (auto i : M.reachable()) touched.erase(i);
        st.ckpts++; for (auto& a : alts) loose.insert(a.first); for (auto i : M.checkpoint()) { loose.insert(i); st.probes["KF1"]++; } }
    else if (line == "lazyfs::unsynced-data-report") return !P.exact || check_report(from, to);
    else if (line == "lazyfs::display-cache-usage") return check_usage(from, to);
    else {
        bool valid;
        if (A.command(line, valid)) {
            st.probes[valid ? "armed" : "invalid-command"]++;
            // the answer in the log: one per command, in the order of the commands
            int ans = -1;
            for (; ans < 0 && ans_next < to; ans_next++) if (in.h[ans_next].type == R_LOG) {
                const string& s = in.h[ans_next].s[0];
                if (s.find("received: INVALID") != string::npos) ans = 0;
                else if (s.find("received: VALID") != string::npos || s.find("configured successfully") != string::npos) ans = 1;
            }
            if (ans != valid) return fail("CMD", string(valid ? "the valid" : "the invalid") + " command " + q(line) + " is answered with " + (ans == 0 ? "a refusal" : ans == 1 ? "acceptance" : "neither acceptance nor refusal"));
        }
        else if (line != "lazyfs::help") st.probes["unknown-command"]++;
    }
    return true;
}
LifeOracle::Trig LifeOracle::pre_op(const FOp& o) {
    Trig t;
    string n = opname(o.kind);
    if (n.empty()) return t;
    for (auto& c : A.crash) if (Armed::matches(c, n, o.p, o.q)) (c.after ? t.killa : t.killb) = true;
    if (t.killb) return t;
    for (auto& c : A.clear) {
        if (c.op != n || c.from != o.p) continue;
        if (OPS2.count(n) && c.to != o.q) continue;
        c.count++;
        if (c.count != c.occ) continue;
        if (c.timing == "before") (c.crash ? t.killb : t.clearb) = true;
        else (c.crash ? t.killa : t.cleara) = true;
    }
    return t;
}
void LifeOracle::torn_persist(const FOp& o, bool& killa) {
    torn_writes.clear();
    int64_t ino = M.target(o);
    if (ino < 0) return;
    auto put = [&](int64_t off, const string& d) {
        torn_writes.push_back({(uint64_t)ino, {off, d}});
        string& s = M.dur[ino];
        if (off + d.size() > s.size()) s.resize(off + d.size(), '\0');
        memcpy(&s[off], d.data(), d.size());
    };
    for (auto& f : A.tseq) {
        if (f.file != o.p) continue;
        f.count++;
        if (f.count == 2) f.group++;
        bool in1 = std::find(f.persist.begin(), f.persist.end(), 1) != f.persist.end();
        if (f.count == 1) { f.pend = in1; f.d1 = o.data; f.o1 = o.a; }
        if (f.group == f.occ && f.count >= 2) {
            if (f.count == 2 && f.pend) { put(f.o1, f.d1); if (f.persist.size() == 1) { killa = true; st.probes["torn-seq"]++; } }
            if (std::find(f.persist.begin(), f.persist.end(), f.count) != f.persist.end()) {
                put(o.a, o.data);
                if (f.persist.back() == f.count) { killa = true; st.probes["torn-seq"]++; }
            }
        }
        if (f.count == 2) f.pend = false;
    }
    if (killa) return;
    for (auto& f : A.top) {
        if (f.file != o.p) continue;
        f.count++;
        if (f.count != f.occ) continue;
        vector<std::pair<int64_t, int64_t>> parts;
        if (f.parts > 0) {
            int64_t sz = o.b / f.parts;
            for (int i = 0; i < f.parts; i++) parts.push_back({i * sz, i == f.parts - 1 ? o.b - i * sz : sz});
        } else {
            int64_t s = 0;
            for (int x : f.pb) { parts.push_back({s, x}); s += x; }
            if (s != o.b) { st.probes["torn-op:not-applicable"]++; continue; }
        }
        for (int p : f.persist) if (parts[p - 1].second > 0) put(o.a + parts[p - 1].first, o.data.substr(parts[p - 1].first, parts[p - 1].second));
        killa = true;
        st.probes["torn-op"]++;
    }
}
bool LifeOracle::check_ret(FOp& o) {
    // requests hit by an injected system call fault: success must be complete, failure may leave old or new
    auto tgt = [&]() -> int64_t { return (o.kind == F_OPEN || o.kind == F_GETATTR || !o.hasfi) ? M.m.resolve(o.p, o.kind != F_GETATTR, nullptr, nullptr) : M.target(o); };
    if (!o.faulted) {
        int64_t ino = o.kind == F_READ || o.kind == F_WRITE || o.kind == F_TRUNCATE || o.kind == F_FSYNC || o.kind == F_GETATTR || o.kind == F_OPEN || o.kind == F_LSEEK ? tgt() : -1;
        if (ino > 0 && alts.count(ino) && o.kind == F_LSEEK) return true;
        if (ino > 0 && alts.count(ino)) {
            // current content is one of several: accept any, never anything else
            vector<string> cands = alts[ino]; cands.push_back(*M.cur(ino));
            if (o.kind == F_READ) {
                vector<string> subs; for (auto& c : cands) subs.push_back((uint64_t)o.a < c.size() ? c.substr(o.a, o.b) : "");
                vector<const string*> ps; for (auto& s : subs) ps.push_back(&s);
                if (o.r < 0) return fail("ERR", opstr(o) + " failed without an injected fault");
                if (!mixof(o.sv[0], ps)) return fail("RD", opstr(o) + ": data is neither the old nor the new content of the failed request before");
                return true;
            }
            if (o.kind == F_GETATTR) {
                if (o.r != 0) return fail("NS", opstr(o) + " failed without an injected fault");
                int64_t sz = o.iv[7], lo = INT64_MAX, hi = 0;
                for (auto& c : cands) { lo = std::min(lo, (int64_t)c.size()); hi = std::max(hi, (int64_t)c.size()); }
                if (sz < lo || sz > hi) return fail("SZ", opstr(o) + ": size " + std::to_string(sz) + " is neither the old nor the new one");
                return true;
            }
            if (o.kind == F_WRITE || o.kind == F_TRUNCATE || (o.kind == F_OPEN && (o.a & O_TRUNC))) {
                string save = *M.cur(ino);
                vector<string> nw;
                for (auto& c : alts[ino]) { string t = c; if (o.kind == F_WRITE) { if (o.a + o.data.size() > t.size()) t.resize(o.a + o.data.size(), '\0'); memcpy(&t[o.a], o.data.data(), o.data.size()); } else t.resize(o.kind == F_OPEN ? 0 : o.a, '\0'); nw.push_back(t); }
                alts[ino] = nw;
                bool same = true;
                auto e = M.apply(o);
                for (auto& c : alts[ino]) if (c != *M.cur(ino)) same = false;
                if (same) alts.erase(ino);
                auto x = match(o, e);
                if (!x.ok()) return fail(x.cls, x.msg);
                return true;
            }
            if (o.kind == F_FSYNC) {
                if (o.r != 0) return fail("ERR", opstr(o) + " failed without an injected fault");
                vector<const string*> ps; for (auto& s : cands) ps.push_back(&s);
                SInode* n = D.get(ino);
                if (!n || !mixof(n->data, ps)) return fail("LOST", opstr(o) + ": a successful sync left bytes that are neither old nor new content");
                *M.cur(ino) = n->data; M.dur[ino] = n->data; alts.erase(ino);
                return true;
            }
        }
        Exp e = M.apply(o);
        auto x = match(o, e);
        if (!x.ok()) return fail(x.cls, x.msg);
        return true;
    }
    int64_t ino = -1;
    if (o.kind == F_READ || o.kind == F_WRITE || o.kind == F_TRUNCATE || o.kind == F_FSYNC || o.kind == F_OPEN) ino = tgt();
    if (ino > 0) loose.insert(ino);
    Model before = M;
    if (o.r < 0) {
        st.probes["failed-request"]++;
        switch (o.kind) {
        case F_WRITE: case F_TRUNCATE: case F_OPEN:
            if (ino > 0 && M.cur(ino) && (o.kind != F_OPEN || (o.a & O_TRUNC))) {
                string old = *M.cur(ino);
                vector<string> al = alts.count(ino) ? alts[ino] : vector<string>();
                vector<string> add;
                for (auto& t0 : al) { string t = t0; if (o.kind == F_WRITE) { if (o.a + o.data.size() > t.size()) t.resize(o.a + o.data.size(), '\0'); memcpy(&t[o.a], o.data.data(), o.data.size()); } else t.resize(o.kind == F_OPEN ? 0 : o.a, '\0'); add.push_back(t); }
                if (o.kind == F_OPEN) { auto* c = M.cur(ino); string keep = *c; al.push_back(""); (void)keep; }
                else { FOp t = o; M.apply(t); al.push_back(old); }
                for (auto& x : add) al.push_back(x);
                if (al.size() > 8) al.resize(8);
                alts[ino] = al;
            }
            return true;
        case F_CREATE:      // the backing file may have been created before the fault
            if (!ns_diff(M.m, D).empty()) { FOp t = o; t.sv.clear(); int64_t old = M.m.resolve(o.p, true, nullptr, nullptr); if (old < 0) { M.apply(t); int64_t i = M.m.resolve(o.p, true, nullptr, nullptr); if (i > 0) M.m.open_unref(i); } }
            return true;
        default: return true;        // no effect allowed; the next disk comparison verifies it
        }
    }
    static const std::map<int, const char*> main_call = {{F_ACCESS, "access"}, {F_UTIMENS, "utimens"}, {F_FSYNC, "fsync"}, {F_READDIR, "opendir"}, {F_READLINK, "readlink"}};
    if (auto m = main_call.find(o.kind); m != main_call.end() && o.failed.count(m->second)) return fail("ERR", opstr(o) + " succeeded although the " + m->second + " call it stands for failed");
    if (o.kind == F_READ) {
        vector<string> cands = alts.count(ino) ? alts[ino] : vector<string>();
        cands.push_back(*M.cur(ino));
        vector<string> subs; bool eof = false;
        for (auto& c : cands) { string s = (uint64_t)o.a < c.size() ? c.substr(o.a, o.b) : ""; if (s.empty()) eof = true; if (s.size() > o.sv[0].size()) s.resize(o.sv[0].size()); subs.push_back(s); }
        if (o.sv[0].empty()) { if (!eof) return fail("RD", opstr(o) + ": reported end of file inside the file (injected short read)"); return true; }
        vector<const string*> ps; for (auto& s : subs) ps.push_back(&s);
        if (!mixof(o.sv[0], ps)) return fail("RD", opstr(o) + ": wrong data in a read hit by an injected disk fault: " + bytes_diff(o.sv[0], subs.back()));
        return true;
    }
    if (o.kind == F_WRITE && o.r < o.b) {   // honest short write
        Model full = M;
        M.apply(o, o.r);
        // with a full cache the block that failed may be on the disk in part: behind the reported count, old or new
        if (!exact() && ino > 0) { FOp t = o; t.r = o.b; full.apply(t); if (string* c = full.cur(ino)) alts[ino].push_back(*c); }
        return true;
    }
    if (o.kind == F_GETATTR && ino < 0) {
        Exp e = M.apply(o); auto x = match(o, e);
        int64_t i = M.m.resolve(o.p, false, nullptr, nullptr);
        if (i > 0 && alts.count(i)) return true;
        if (!x.ok()) return fail(x.cls, x.msg);
        return true;
    }
    if (alts.count(ino)) { o.faulted = false; bool r = check_ret(o); o.faulted = true; return r; }
    Exp e = M.apply(o);
    auto x = match(o, e);
    if (!x.ok()) return fail(x.cls, x.msg + " (request hit by an injected disk fault)");
    return true;
}

void LifeOracle::t_before(const FOp& o) {
    if (!times || over) return;
    int64_t i = -1;
    if (o.kind == F_WRITE || o.kind == F_READ || o.kind == F_TRUNCATE || o.kind == F_FSYNC) i = M.target(o);
    else if (o.kind == F_OPEN) i = M.m.resolve(o.p, true, nullptr, nullptr);
    else if (o.kind == F_GETATTR) i = M.m.resolve(o.p, false, nullptr, nullptr);
    if (i > 0) t_ensure(i);
}
static string tstr(int64_t t) { char b[64]; snprintf(b, sizeof b, "%lld.%09lld", (long long)(t / 1000000000), (long long)(t % 1000000000)); return b; }
bool LifeOracle::t_disk(uint64_t ino, const string& when) {
    SInode* n = D.get(ino);
    if (!n || !tm.count(ino)) return true;
    for (int k = 0; k < 2; k++) {
        TV& v = k ? tm[ino].second : tm[ino].first;
        int64_t d = ns(k ? n->mt : n->at) / 1000;
        if (v.known && (d < v.lo / 1000 || d > v.hi / 1000))
            return fail("META", when + " left the backing file " + path_of(M.m, ino) + " with " + (k ? "modification" : "access") + " time " + tstr(ns(k ? n->mt : n->at)) + ", expected " + tstr(v.lo) + (v.lo == v.hi ? "" : " to " + tstr(v.hi)));
    }
    st.probes["times-synced"]++;
    return true;
}
bool LifeOracle::t_after(const FOp& o, int64_t ino, int64_t oldsize) {
    if (!times || over || o.r < 0) return true;
    TV op{true, o.tinv, o.tret};
    if (o.kind == F_WRITE || o.kind == F_OPEN || o.kind == F_TRUNCATE || o.kind == F_UTIMENS) {     // may stamp the file, even where it need not
        int64_t i = o.kind == F_UTIMENS ? M.m.resolve(o.p, false, nullptr, nullptr) : ino;
        if (i > 0 && ctm.count(i)) ctm[i] = std::min(ctm[i], o.tinv);
    }
    switch (o.kind) {
    case F_GETATTR: {
        if (ino > 0 && ctm.count(ino)) {
            int64_t t = o.iv[12] * 1000000000 + o.iv[13];
            if (t < ctm[ino]) return fail("META", opstr(o) + ": change time " + tstr(t) + " is before the last change of the file, " + tstr(ctm[ino]));
            st.probes["ctime-checked"]++;
        }
        if (ino <= 0 || !tm.count(ino)) break;
        for (int k = 0; k < 2; k++) {
            TV& v = k ? tm[ino].second : tm[ino].first;
            int64_t t = o.iv[k ? 10 : 8] * 1000000000 + o.iv[k ? 11 : 9];
            if (v.known && (t < v.lo || t > v.hi))
                return fail("META", opstr(o) + ": " + (k ? "modification" : "access") + " time " + tstr(t) + ", expected " + tstr(v.lo) + (v.lo == v.hi ? "" : " to " + tstr(v.hi)));
            if (v.known) { v.lo = v.hi = t; st.probes["times-checked"]++; }
        }
        break;
    }
    case F_READ: if (ino > 0) tm[ino].first.known = false; break;
    case F_WRITE: if (ino > 0 && o.r > 0) { tm[ino].second = op; ctm[ino] = o.tinv; } break;
    case F_OPEN: if (ino > 0 && (o.a & O_TRUNC)) { tm[ino].second = op; if (oldsize > 0) ctm[ino] = o.tinv; if (oldsize == 0) tm[ino].second.known = false; } break;
    case F_TRUNCATE: if (ino > 0) { tm[ino].second = op; if (oldsize != o.a) ctm[ino] = o.tinv; if (oldsize == o.a) tm[ino].second.known = false; } break;
    case F_CREATE: { int64_t i = M.m.resolve(o.p, true, nullptr, nullptr); if (i > 0) { tm[i] = {op, op}; ctm[i] = o.tinv; } break; }
    case F_UTIMENS: {
        int64_t i = M.m.resolve(o.p, false, nullptr, nullptr);
        if (i <= 0 || !M.m.get(i)->isreg()) break;
        auto& e = tm[i];
        if ((o.c & 3) != 3) ctm[i] = o.tinv;
        if (!(o.c & 1)) e.first = (o.c & 4) ? op : TV{true, o.a, o.a};
        if (!(o.c & 2)) e.second = (o.c & 8) ? op : TV{true, o.b, o.b};
        st.probes["utimens"]++;
        break;
    }
    case F_FSYNC: if (ino > 0 && !o.a) return t_disk(ino, opstr(o)); break;
    default: break;
    }
    return true;
}

bool LifeOracle::sequential() {
    M.track = P.exact;
    times = P.exact && L.faults.empty();
    int refused = A.from_config(P), told = 0;
    for (auto& r : in.h) {
        if (r.type == R_LOG && (r.s[0].find("errors were found in the configuration file for a fault") != string::npos || r.s[0].find("It is only acceptable one") != string::npos)) told++;
        if (r.type != R_FINV) continue;
        if (told != refused) return fail("CFG", "the configuration has " + std::to_string(refused) + " invalid faults, but " + std::to_string(told) + " are reported as such");
        if (refused) st.probes["config-fault-refused"]++;
        break;
    }
    std::map<int64_t, Trig> trig;
    size_t cmd_next = 0, cmd_from = 0;
    size_t done_seen = 0, clears_done = 0;
    FOp* pend = nullptr;
    bool in_cmd = false; bool& cmd_fault = in_cmd_fault; cmd_fault = false;
    for (size_t k = 0; k < in.h.size(); k++) {
        Rec& r = in.h[k];
        switch (r.type) {
        case R_DISK: {
            uint64_t ni = apply_disk(D, r);
            if (ni && byid.count(r.i[2])) ops[byid[r.i[2]]].newino = ni;
            break;
        }
        case R_FINV: {
            FOp& o = ops[byid[r.i[0]]];
            pend = &o;
            Trig t = pre_op(o);
            trig[o.id] = t;
            if (t.clearb) { st.fired++; st.probes["configured-clear"]++; cleared(); tm.clear(); ctm.clear(); }
            t_before(o);
            break;
        }
        case R_FRET: {
            FOp& o = ops[byid[r.i[0]]];
            pend = nullptr;
            Trig t = trig[o.id];
            if (o.kind == F_WRITE) {
                bool ka = false;
                auto save = M.dur;
                torn_persist(o, ka);
                if (ka) return fail("NOFIRE", opstr(o) + " returned although a torn write fault had to crash LazyFS");
            }
            if (o.kind == F_FSYNC) for (auto& f : A.tseq) if (f.file == o.p) { f.count = 0; f.pend = false; }
            if (t.killb || (t.killa && o.r >= 0)) return fail("NOFIRE", opstr(o) + " returned although an armed crash fault matches it");
            int64_t tino = o.kind == F_GETATTR ? M.m.resolve(o.p, false, nullptr, nullptr) : o.kind == F_OPEN ? M.m.resolve(o.p, true, nullptr, nullptr)
                         : o.kind == F_READ || o.kind == F_WRITE || o.kind == F_TRUNCATE || o.kind == F_FSYNC ? M.target(o) : -1;
            int64_t tsz = tino > 0 && M.cur(tino) ? (int64_t)M.cur(tino)->size() : -1;
            if (!check_ret(o)) return false;
            note_pages(M);
            note_held(&o, tino, tsz);
            note_touched(o, tino);
            if (!t_after(o, tino, tsz)) return false;
            for (auto it = tm.begin(); it != tm.end();) { SInode* n = M.m.get(it->first); if (!n || !n->isreg()) it = tm.erase(it); else ++it; }
            for (auto it = ctm.begin(); it != ctm.end();) { SInode* n = M.m.get(it->first); if (!n || !n->isreg()) it = ctm.erase(it); else ++it; }
            if (t.cleara && o.r >= 0) { tm.clear(); ctm.clear(); st.fired++; st.probes["configured-clear"]++; cleared(); alts.clear(); }
            break;
        }
        case R_SFAULT: if (!byid.count(r.i[0])) cmd_fault = true; break;
        case R_CMDW: if (!in_cmd) { in_cmd = true; cmd_from = k; } break;
        case R_CMDDONE: {
            // everything written so far has been processed
            while (cmd_next < cmds.size() && cmds[cmd_next].inv < k) {
                if (cmds[cmd_next].text == "lazyfs::clear-cache") clears_done++;
                auto before = M.dur; auto dirty = M.dirty;
                if (!do_cmd(cmds[cmd_next].text, cmd_from, k)) return false;
                if (cmd_fault && cmds[cmd_next].text == "lazyfs::cache-checkpoint")     // what a failing disk took is persisted, the rest is not
                    for (auto& x : M.m.inodes) {
                        if (!x.second.isreg() || !before.count(x.first)) continue;
                        SInode* n = D.get(x.first);
                        if (!n || n->data == M.dur[x.first]) continue;
                        vector<const string*> cand = {&before[x.first], &x.second.data};
                        if (alts.count(x.first)) for (auto& a : alts[x.first]) cand.push_back(&a);
                        if (!mixof(n->data, cand)) return fail("LOST", "a checkpoint hit by an injected disk fault left " + path_of(M.m, x.first) + " with bytes that are neither old nor new: " + bytes_diff(n->data, before[x.first]));
                        M.dur[x.first] = n->data; loose.insert(x.first);
                        M.optional_[x.first].insert(dirty[x.first].begin(), dirty[x.first].end());
                    }
                cmd_next++;
                note_held(nullptr, -1, 0);
            }
            in_cmd = false; cmd_fault = false;
            if (P.done_fifo && done_seen != clears_done) return fail("CMD", "completion FIFO carried " + std::to_string(done_seen) + " messages for " + std::to_string(clears_done) + " clear-cache commands");
            break;
        }
        case R_DONE: {
            for (auto& m : splits(r.s[0], "\n")) if (m == "finished::clear-cache") done_seen++; else if (!m.empty()) return fail("CMD", "unexpected completion message '" + q(m) + "'");
            // the notification must not precede the clear's effect: checked by the following reads
            break;
        }
        case R_SYNC: {
            if (in_cmd) break;
            if (!check_disk(loose, true, "after step " + std::to_string(r.step))) return false;
            string l = leaks(r.i[0], r.i[1]);
            if (!l.empty()) return fail("FD", l);
            // a loose file stays loose only while its content is uncertain
            for (auto it = loose.begin(); it != loose.end();) {
                SInode* n = D.get(*it);
                if (!n || (n->data == M.dur[*it] && !alts.count(*it))) it = loose.erase(it); else ++it;
            }
            if (st.states.size() < 4096) st.states.insert(M.hash());
            break;
        }
        default: break;
        }
    }
    // how did the lifetime end?
    string cls, msg;
    if (!end_ok(cls, msg)) return fail(cls, msg);
    if (in.end == E_SELFKILL) {
        st.selfkills++;
        if (!pend) return fail("MISFIRE", "LazyFS killed itself outside any request");
        FOp& o = *pend;
        Trig t = trig[o.id];
        bool ka = t.killa;
        if (t.killb) {
            st.fired++; st.probes["crash-before"]++;
            if (exact() && L.faults.empty() && A.top.empty() && A.tseq.empty() && !in_cmd && !check_report(o.inv, in.h.size())) { v.msg = "report of the crash before " + opstr(o) + ": " + v.msg; return false; }
            return check_disk(loose, true, "crash before " + opstr(o));
        }
        bool tka = false;
        if (o.kind == F_WRITE) torn_persist(o, tka);
        if (!ka && !tka) return fail("MISFIRE", "LazyFS crashed in " + opstr(o) + " although no armed fault matches it");
        st.fired++; st.probes[tka ? "torn-crash" : "crash-after"]++;
        FOp done = o; done.ret = o.inv; done.r = 0; done.sv.clear();
        if (o.faulted) { int64_t i = M.target(o); if (i > 0) loose.insert(i); }
        note_touched(done, o.kind == F_OPEN ? M.m.resolve(o.p, true, nullptr, nullptr) : o.kind == F_WRITE || o.kind == F_FSYNC || o.kind == F_TRUNCATE ? M.target(o) : -1);
        M.apply(done);
        note_pages(M);
        if (exact() && L.faults.empty() && A.top.empty() && A.tseq.empty() && !in_cmd && !check_report(o.inv, in.h.size())) { v.msg = "report of the crash after " + opstr(o) + ": " + v.msg; return false; }
        if (!check_disk(loose, true, "crash after " + opstr(o))) { if (tka) v.cls = "TORN"; return false; }
        return true;
    }
    if (in.end == E_KILLED || in.end == E_STOP) {
        if (in.end == E_KILLED) st.kills++; else st.probes[L.stop == 1 ? "orderly-stop" : "orderly-stop-busy"]++;
        bool ckpt = false, clr = false;
        if (in_cmd) for (size_t j = cmd_next; j < cmds.size(); j++) { if (cmds[j].text == "lazyfs::cache-checkpoint") ckpt = true; if (cmds[j].text == "lazyfs::clear-cache") clr = true; }
        if (pend) {
            FOp& o = *pend;
            st.probes[string("kill-in-") + fkind_name[o.kind]]++;
            Trig t = trig[o.id];
            if (o.kind == F_WRITE) {
                Model save = M; bool ka = false;
                torn_persist(o, ka);
                for (auto& w : torn_writes) loose.insert(w.first);
                if (!torn_writes.empty()) {     // a full cache writes the new content itself
                    Model t = save; FOp d2 = o; d2.ret = o.inv; t.apply(d2); note_pages(t);
                    if (!exact()) { uint64_t i = torn_writes[0].first; if (string* c = save.cur(i)) alts[i].push_back(*c); if (string* c = t.cur(i)) alts[i].push_back(*c); }
                }
                // each torn part is written on its own: the kill may fall between two of them
                for (size_t k = 1; k < torn_writes.size(); k++) {
                    string d = save.dur[torn_writes[0].first];
                    for (size_t q = 0; q < k; q++) { auto& w = torn_writes[q].second; if (w.first + w.second.size() > d.size()) d.resize(w.first + w.second.size(), '\0'); memcpy(&d[w.first], w.second.data(), w.second.size()); }
                    alts[torn_writes[0].first].push_back(d);
                }
                if (!torn_writes.empty()) { uint64_t i = torn_writes[0].first; string* c = M.cur(i); if (c) *c = M.dur[i]; M.dur[i] = save.dur[i]; }
                else M = save;
            }
            if (o.kind == F_FSYNC) { int64_t i = M.target(o); if (i > 0) loose.insert(i); }
            if (o.kind == F_WRITE || o.kind == F_TRUNCATE) { Model t = M; FOp d2 = o; d2.ret = o.inv; t.apply(d2); note_pages(t); }
            bool ns = o.kind == F_CREATE || o.kind == F_UNLINK || o.kind == F_RENAME || o.kind == F_LINK || o.kind == F_SYMLINK || o.kind == F_MKDIR || o.kind == F_RMDIR || o.kind == F_CHMOD || o.kind == F_CHOWN || o.kind == F_RELEASE;
            if (ns && !ns_diff(M.m, D).empty()) { FOp d2 = o; d2.ret = o.inv; M.apply(d2); }
            if (ns && !ns_diff(M.m, D).empty()) return fail("NS", "crash inside " + opstr(o) + ": the backing namespace is neither the one before nor the one after it: " + ns_diff(M.m, D));
            if (t.cleara || t.clearb) (void)0;
            if (!exact()) for (auto& x : M.m.inodes) loose.insert(x.first);
            if (o.kind == F_WRITE || o.kind == F_TRUNCATE) if (!exact()) { int64_t i = M.target(o); if (i > 0) { Model save = M; FOp d2 = o; d2.ret = o.inv; M.apply(d2); string nw = *M.cur(i); string ol = *save.cur(i); SInode* n = D.get(i); if (n && mixof(n->data, {&save.dur[i], &nw, &ol})) { M.dur[i] = n->data; } } }
        }
        if (ckpt) for (auto& x : M.m.inodes) loose.insert(x.first);
        (void)clr;
        if (!check_disk(loose, true, "after the crash")) return false;
        return true;
    }
    return true;
}

// ------------------------------------------------------------------ linearizability
struct LOp { int kind; FOp* f; Cmd* c; size_t inv, ret; };   // kind 0 request, 1 command
struct Wgl {
    LifeOracle& O;
    vector<vector<LOp>> th;
    std::unordered_set<uint64_t> seen;
    uint64_t nodes = 0, cap = 60000;
    bool capped = false;
    size_t best = 0; string bestmsg; string bestcls;
    bool final_crash = false;
    explicit Wgl(LifeOracle& o) : O(o) {}
    bool goal(const vector<size_t>& pos, Model& m, size_t depth) {
        SimFs& D = O.D;
        string d = ns_diff(m.m, D);
        string why, cls = "NS";
        if (!d.empty()) why = "final state: " + d;
        else {
            std::set<uint64_t> loose; bool all = false;
            for (size_t t = 0; t < th.size(); t++) if (pos[t] < th[t].size()) {
                auto& o = th[t][pos[t]];
                if (o.kind == 1 && o.c->text == "lazyfs::cache-checkpoint") all = true;
                if (o.kind == 0 && o.f->kind == F_FSYNC) { int64_t i = m.target(*o.f); if (i > 0) loose.insert(i); }
            }
            for (auto& x : m.m.inodes) {
                if (!x.second.isreg() || !O.P.exact) continue;
                SInode* n = D.get(x.first);
                if (!n) continue;
                auto it = m.dur.find(x.first);
                if (it == m.dur.end() || n->data == it->second) continue;
                if ((all || loose.count(x.first)) && mixof(n->data, {&it->second, &x.second.data})) continue;
                why = "final state: " + path_of(m.m, x.first) + " on the backing file system: " + bytes_diff(n->data, it->second);
                cls = "LOST";
                break;
            }
        }
        if (why.empty()) return true;
        if (depth >= best) { best = depth + 1; bestmsg = why; bestcls = cls; }
        return false;
    }
    bool dfs(vector<size_t> pos, Model m, size_t depth) {
        while (true) {      // reads that fit are taken at once
            size_t minret = SIZE_MAX; bool left = false;
            for (size_t t = 0; t < th.size(); t++) if (pos[t] < th[t].size()) { left = true; minret = std::min(minret, th[t][pos[t]].ret); }
            if (!left) return goal(pos, m, depth);
            bool adv = false;
            for (size_t t = 0; t < th.size(); t++) {
                if (pos[t] >= th[t].size()) continue;
                auto& o = th[t][pos[t]];
                if (o.inv > minret) continue;
                if (o.kind == 0 && m.pure(*o.f) && o.ret != SIZE_MAX) {
                    Exp e = m.apply(*o.f);
                    if (match(*o.f, e).ok()) { pos[t]++; depth++; adv = true; }
                }
            }
            if (adv) continue;
            uint64_t h = m.hash();
            for (auto p : pos) h = (h ^ (p + 77)) * 1099511628211ull;
            if (!seen.insert(h).second) return false;
            if (minret == SIZE_MAX && goal(pos, m, depth)) return true;   // only interrupted operations remain
            for (size_t t = 0; t < th.size(); t++) {
                if (pos[t] >= th[t].size()) continue;
                auto& o = th[t][pos[t]];
                if (o.inv > minret) continue;
                if (o.ret == SIZE_MAX && o.kind == 0 && m.pure(*o.f)) continue;
                if (++nodes > cap) { capped = true; return true; }
                Model n = m;
                if (o.kind == 1) {
                    if (o.c->text == "lazyfs::clear-cache") n.clear_cache();
                    else if (o.c->text == "lazyfs::cache-checkpoint") n.checkpoint();
                } else {
                    Exp e = n.apply(*o.f);
                    if (o.ret != SIZE_MAX) {
                        auto x = match(*o.f, e);
                        if (!x.ok()) { if (depth >= best) { best = depth; bestmsg = x.msg; bestcls = x.cls; } continue; }
                    }
                }
                auto np = pos; np[t]++;
                if (dfs(std::move(np), std::move(n), depth + 1)) return true;
            }
            return false;
        }
    }
};
bool LifeOracle::concurrent() {
    std::map<int, vector<LOp>> th;
    for (size_t k = 0; k < in.h.size(); k++) {
        Rec& r = in.h[k];
        if (r.type == R_DISK) {
            uint64_t ni = apply_disk(D, r);
            if (ni && byid.count(r.i[2])) ops[byid[r.i[2]]].newino = ni;
        }
        if (r.type == R_SYNC && k + 1 == in.h.size()) { string l = leaks(r.i[0], r.i[1]); if (!l.empty()) fail("FD", l); }
    }
    string cls, msg;
    if (!end_ok(cls, msg)) return fail(cls, msg);
    if (P.live) { if (in.end == E_SELFKILL) st.selfkills++; if (in.end == E_KILLED) st.kills++; return v.ok(); }
    if (in.end == E_SELFKILL) return fail("MISFIRE", "LazyFS killed itself although no fault was armed");
    if (in.end == E_KILLED) st.kills++;
    if (in.end == E_STOP) st.probes["orderly-stop-concurrent"]++;
    for (auto& o : ops) th[o.fiber].push_back({0, &o, nullptr, o.inv, o.ret});
    vector<LOp> cm;
    size_t clears = 0, dones = 0;
    for (auto& c : cmds) {
        if (c.text == "lazyfs::clear-cache") { st.clears++; if (c.ret != SIZE_MAX) clears++; }
        if (c.text == "lazyfs::cache-checkpoint") st.ckpts++;
        if (c.text == "lazyfs::clear-cache" || c.text == "lazyfs::cache-checkpoint") cm.push_back({1, nullptr, &c, c.inv, c.ret});
    }
    for (auto& r : in.h) if (r.type == R_DONE) for (auto& m : splits(r.s[0], "\n")) if (m == "finished::clear-cache") dones++;
    if (P.done_fifo && in.end == E_DONE && dones != clears) return fail("CMD", "completion FIFO carried " + std::to_string(dones) + " messages for " + std::to_string(clears) + " clear-cache commands");
    Wgl w(*this);
    for (auto& t : th) w.th.push_back(t.second);
    if (!cm.empty()) w.th.push_back(cm);
    st.wgl++;
    bool ok = w.dfs(vector<size_t>(w.th.size(), 0), M, 0);
    st.wgl_nodes += w.nodes;
    if (w.capped) { st.inconclusive++; return true; }
    if (st.states.size() < 4096) for (auto h : w.seen) { st.states.insert(h); if (st.states.size() >= 4096) break; }
    if (!ok) {
        string s = "no order of the concurrent requests explains the history; closest explanation fails at: " + w.bestmsg;
        string c = w.bestcls.empty() ? "LIN" : w.bestcls;
        return fail(c == "SZ" || c == "RD" || c == "ERR" ? "LIN" : c, s);
    }
    return v.ok();
}
// the innermost frame of the repository's own code in a list of code addresses (access, caller, caller's caller...)
static string where_is(const int64_t* pcs, int cnt) {
    static std::map<std::vector<int64_t>, string> memo;
    std::vector<int64_t> key(pcs, pcs + cnt);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    string out, first;
    if (n > 0) {
        exe[n] = 0;
        string cmd = string("addr2line -Cfi -e ") + exe;
        for (int i = 0; i < cnt; i++) if (pcs[i]) { char b[32]; snprintf(b, sizeof b, " 0x%lx", (unsigned long)pcs[i] - 1); cmd += b; }
        FILE* p = popen((cmd + " 2>/dev/null").c_str(), "r");
        char fn[4000], loc[2000];
        while (p && fgets(fn, sizeof fn, p) && fgets(loc, sizeof loc, p)) {
            string a, b = loc;
            int depth = 0;
            for (const char* c = fn; *c && *c != '\n'; c++) {         // without template arguments and parameters
                if (*c == '(' && !depth && a.size() && strncmp(c, "(anonymous", 10)) break;
                if (*c == '<') depth++;
                if (!depth) a += *c;
                if (*c == '>' && depth) depth--;
            }
            b.erase(b.find_last_not_of("\n") + 1);
            if (first.empty()) first = a;
            if (!out.empty() || b.find("/usr/") == 0 || b[0] == '?' || b.find("/sim/") != string::npos) continue;
            size_t sl = b.rfind('/');
            out = a + " (" + (sl == string::npos ? b : b.substr(sl + 1)) + ")";
            out = out.substr(0, out.find(" (discriminator"));
            if (out.back() != ')') out += ")";
            if (first != a) out = first + " in " + out;
        }
        if (p) pclose(p);
        if (out.empty()) out = first;
    }
    return memo[key] = out;
}
void LifeOracle::run() {
    M.block = P.block; M.strict = P.strict;
    M.init_from(D);
    if (!parse()) return;
    for (auto& r : in.h) if (r.type == R_NOTE && !r.s.empty() && r.s[0] == "race" && v.ok()) {
        auto acc = [&](int b) { return string(r.i[b * 2 + 1] ? "write" : "read") + " by " + r.s[2 + b] + " at " + where_is(&r.i[4 + 6 * b], 6); };
        if (r.s[1].rfind("memory: ", 0) == 0) fail("MEM", r.s[1].substr(8) + ": " + acc(0));
        else fail("RACE", string("unordered accesses to the same memory (") + r.s[1] + "): " + acc(0) + " and " + acc(1));
    }
    if (v.ok()) { if (L.clients.size() <= 1 && !P.live) sequential(); else concurrent(); }
    if (v.ok()) check_config();
    if (verbose || !v.ok()) {
        std::ostringstream s;
        s << "lifetime " << in.life << " ended: " << in.end << " (" << in.msg << ")\n";
        for (size_t k = 0; k < in.h.size(); k++) {
            Rec& r = in.h[k];
            if (r.type == R_FINV) { FOp& o = ops[byid[r.i[0]]]; s << "  [" << r.step << "] f" << r.fiber << " > " << opstr(o) << "\n"; }
            else if (r.type == R_FRET) { FOp& o = ops[byid[r.i[0]]]; s << "  [" << r.step << "] f" << r.fiber << " < #" << o.id << " = " << o.r; if (o.kind == F_GETATTR && o.r == 0) s << " size=" << o.iv[7] << " ino=" << o.iv[2] << " nlink=" << o.iv[4]; s << "\n"; }
            else if (r.type == R_CMDW) s << "  [" << r.step << "] f" << r.fiber << " command bytes " << q(r.s[0]) << "\n";
            else if (r.type == R_SFAULT) s << "  [" << r.step << "] f" << r.fiber << " injected fault in " << r.s[0] << " errno=" << r.i[1] << " short=" << r.i[2] << "\n";
            else if (r.type == R_DISK && r.i[0] <= D_RENAME) { s << "  [" << r.step << "] f" << r.fiber << "   disk " << r.i[0]; for (size_t j = 3; j < r.i.size(); j++) s << " " << r.i[j]; s << " " << q(r.s.empty() ? "" : r.i[0] == D_PWRITE ? std::to_string(r.s[0].size()) + " bytes" : r.s[0]) << "\n"; }
            else if (r.type == R_KILL) s << "  [" << r.step << "] f" << r.fiber << " kills itself\n";
            else if (r.type == R_NOTE && verbose && !r.s.empty() && r.s[0] == "race") { s << "  [" << r.step << "] race " << r.s[1] << ":"; for (auto x : r.i) s << " " << std::hex << x << std::dec; s << "\n"; }
            else if (r.type == R_NOTE && !r.s.empty() && r.s[0] == "hole") s << "  [" << r.step << "] f" << r.fiber << "   offset or size " << r.i[0] << " of a backing file\n";
            else if (r.type == R_LOG && verbose) s << "  [" << r.step << "] log " << q(r.s[0]) << "\n";
        }
        narr = s.str();
    }
}

// ------------------------------------------------------------------ executing a plan
static void alloc_shm() {
    if (g_shm) return;
    size_t n = 24u << 20;
    g_shm = (Shm*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_hist_max = n - sizeof(Shm) - 4096;
}
void child_setup();
RunResult run_plan(const Plan& p, bool verbose) {
    alloc_shm();
    RunResult R;
    SimFs D; D.init();
    D.now_ns = 1600000000ll * 1000000000ll;
    for (auto& s : p.pre) {
        std::istringstream i(s); string path, first; size_t n = 0; uint64_t seed = 0;
        i >> path >> first;
        if (first == "=") { i >> first; D.link("/simroot/" + first, "/simroot/" + path); continue; }
        n = (size_t)atoll(first.c_str()); i >> seed;
        if (path.back() == '/') { D.mkdir("/simroot/" + path.substr(0, path.size() - 1), 0755); continue; }
        int64_t ino = D.open("/simroot/" + path, O_CREAT | O_WRONLY, 0644);
        string d = payload(seed, n, 0);
        D.pwrite(ino, d.data(), n, 0);
    }
    uint64_t hash = 1469598103934665603ull;
    auto mix = [&](const void* q, size_t n) { const unsigned char* c = (const unsigned char*)q; for (size_t i = 0; i < n; i++) hash = (hash ^ c[i]) * 1099511628211ull; };
    for (size_t l = 0; l < p.lives.size(); l++) {
        memset((void*)g_shm, 0, sizeof(Shm));
        D.crash();
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) { child_setup(); run_lifetime(p, l, D); _exit(99); }
        int stt = 0;
        waitpid(pid, &stt, 0);
        LifeIn in; in.plan = &p; in.life = l; in.end = g_shm->end; in.sig = g_shm->sig; in.msg = g_shm->msg;
        if (in.end == E_NONE) { in.end = WIFSIGNALED(stt) ? E_SIGNAL : E_HARNESS; in.msg = "child status " + std::to_string(stt); }
        in.h = hist_get();
        R.st.lives++;
        R.st.steps += g_shm->steps; R.st.decisions += g_shm->decisions; R.st.switches += g_shm->switches; R.st.simns += (int64_t)g_shm->steps * 1000;
        mix(g_shm->hist, g_shm->len);
        int e = in.end; mix(&e, 4);
        uint64_t sh = g_shm->schedhash; mix(&sh, 8);
        R.st.trace_hash ^= sh * 31 + l;
        vector<std::pair<uint64_t, int>> sc;
        for (auto& r : in.h) if (r.type == R_SCHED) sc.push_back({(uint64_t)r.i[0], (int)r.i[1]});
        R.sched.push_back(sc);
        LifeOracle O(p, in, D, R.st, verbose);
        O.run();
        R.narrative += O.narr;
        if (!O.v.ok()) { R.v = O.v; R.v.msg = "lifetime " + std::to_string(l) + ": " + R.v.msg; break; }
    }
    R.hash = hash;
    return R;
}
