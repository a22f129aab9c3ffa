// In-memory file system used three ways:
//   * as the stub backing disk that the real LazyFS code talks to,
//   * as the disk replica the oracle rebuilds from the journal of disk mutations,
//   * as the namespace/content part of the reference model.
// It is deterministic: inode numbers are the lowest free one, directory order is by name.
#pragma once
#include <cstdint>
#include <cerrno>
#include <cstring>
#include <ctime>
#include <map>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

struct SInode {
    uint64_t ino = 0;
    uint32_t mode = 0;
    int32_t nlink = 0;
    uint32_t uid = 0, gid = 0;
    std::string data;                       // regular file content or symlink target
    std::map<std::string, uint64_t> ents;   // directories
    uint64_t parent = 0;
    int opens = 0;
    struct timespec at{}, mt{}, ct{};
    bool isdir() const { return S_ISDIR(mode); }
    bool isreg() const { return S_ISREG(mode); }
    bool islnk() const { return S_ISLNK(mode); }
};

class SimFs {
  public:
    std::map<uint64_t, SInode> inodes;
    uint64_t root = 2;
    uint64_t first_ino = 11;
    int64_t now_ns = 0;
    uint64_t max_file = 1 << 20;

    void init() {
        inodes.clear();
        SInode r;
        r.ino = root; r.mode = S_IFDIR | 0755; r.nlink = 2; r.parent = root;
        inodes[root] = r;
    }
    struct timespec now() const {
        struct timespec t;
        t.tv_sec = now_ns / 1000000000; t.tv_nsec = now_ns % 1000000000;
        return t;
    }
    SInode* get(uint64_t ino) {
        auto it = inodes.find(ino);
        return it == inodes.end() ? nullptr : &it->second;
    }
    uint64_t alloc() {
        uint64_t i = first_ino;
        while (inodes.count(i)) i++;
        return i;
    }
    // "/simroot/a/b" -> components {"a","b"}; returns false if not below the root
    static bool split(const std::string& p, std::vector<std::string>& out) {
        static const std::string R = "/simroot";
        if (p.compare(0, R.size(), R) != 0) return false;
        if (p.size() > R.size() && p[R.size()] != '/') return false;
        std::string cur;
        for (size_t i = R.size(); i <= p.size(); i++) {
            if (i == p.size() || p[i] == '/') {
                if (!cur.empty() && cur != ".") out.push_back(cur);
                cur.clear();
            } else cur += p[i];
        }
        return true;
    }
    // Resolve; *parent and *name describe the last component even when it does not exist.
    int64_t resolve(const std::string& path, bool follow, uint64_t* parent, std::string* name, int depth = 0) {
        std::vector<std::string> c;
        if (depth > 8) return -ELOOP;
        if (!split(path, c)) return -ENOENT;
        uint64_t cur = root;
        if (parent) *parent = 0;
        std::string prefix = "/simroot";
        for (size_t i = 0; i < c.size(); i++) {
            SInode* d = get(cur);
            if (!d->isdir()) return -ENOTDIR;
            if (c[i].size() > 255) return -ENAMETOOLONG;
            bool last = i + 1 == c.size();
            if (last) {
                if (parent) *parent = cur;
                if (name) *name = c[i];
            }
            if (c[i] == "..") { cur = d->parent; continue; }
            auto it = d->ents.find(c[i]);
            if (it == d->ents.end()) return -ENOENT;
            SInode* n = get(it->second);
            if (n->islnk() && (!last || follow)) {
                std::string t = n->data;
                if (t.empty() || t[0] != '/') t = prefix + "/" + t;
                for (size_t j = i + 1; j < c.size(); j++) t += "/" + c[j];
                return resolve(t, follow, parent, name, depth + 1);
            }
            cur = it->second;
            prefix += "/" + c[i];
        }
        return (int64_t)cur;
    }
    void drop(uint64_t ino) {
        SInode* n = get(ino);
        if (n && n->opens == 0 && n->nlink <= 0) inodes.erase(ino);
    }
    void touch_dir(uint64_t d) { SInode* n = get(d); if (n) n->mt = n->ct = now(); }

    // returns ino or -errno; caller must account opens
    int64_t open(const std::string& path, int flags, uint32_t mode) {
        uint64_t par = 0; std::string nm;
        int64_t r = resolve(path, !(flags & O_NOFOLLOW), &par, &nm);
        if (r < 0) {
            if (r != -ENOENT || !(flags & O_CREAT) || par == 0 || nm.empty()) return r;
            SInode* d = get(par);
            if (d->nlink <= 0) return -ENOENT;
            SInode n;
            n.ino = alloc(); n.mode = S_IFREG | (mode & 07777); n.nlink = 1; n.at = n.mt = n.ct = now();
            inodes[n.ino] = n;
            get(par)->ents[nm] = n.ino;
            touch_dir(par);
            return (int64_t)n.ino;
        }
        if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
        SInode* n = get(r);
        if (n->islnk()) return -ELOOP;
        if (n->isdir() && (flags & O_ACCMODE) != O_RDONLY) return -EISDIR;
        if ((flags & O_TRUNC) && n->isreg()) { n->data.clear(); n->mt = n->ct = now(); }
        return r;
    }
    int64_t pread(uint64_t ino, char* buf, size_t n, uint64_t off) {
        SInode* f = get(ino);
        if (!f) return -EBADF;
        if (f->isdir()) return -EISDIR;
        if (off >= f->data.size()) return 0;
        size_t k = std::min<size_t>(n, f->data.size() - off);
        memcpy(buf, f->data.data() + off, k);
        return (int64_t)k;
    }
    int64_t pwrite(uint64_t ino, const char* buf, size_t n, uint64_t off) {
        SInode* f = get(ino);
        if (!f) return -EBADF;
        if ((int64_t)off < 0) return -EINVAL;
        if (off + n > max_file) return -EFBIG;
        if (n == 0) return 0;
        if (off + n > f->data.size()) f->data.resize(off + n, '\0');
        memcpy(&f->data[off], buf, n);
        f->mt = f->ct = now();
        return (int64_t)n;
    }
    int truncate(uint64_t ino, int64_t sz) {
        SInode* f = get(ino);
        if (!f) return -EBADF;
        if (sz < 0) return -EINVAL;
        if (f->isdir()) return -EISDIR;
        if (!f->isreg()) return -EINVAL;
        if ((uint64_t)sz > max_file) return -EFBIG;
        f->data.resize(sz, '\0');
        f->mt = f->ct = now();
        return 0;
    }
    int unlink(const std::string& p) {
        uint64_t par = 0; std::string nm;
        int64_t r = resolve(p, false, &par, &nm);
        if (r < 0) return (int)r;
        SInode* n = get(r);
        if (n->isdir()) return -EISDIR;
        get(par)->ents.erase(nm);
        touch_dir(par);
        n->nlink--; n->ct = now();
        drop(r);
        return 0;
    }
    int rmdir(const std::string& p) {
        uint64_t par = 0; std::string nm;
        int64_t r = resolve(p, false, &par, &nm);
        if (r < 0) return (int)r;
        SInode* n = get(r);
        if (!n->isdir()) return -ENOTDIR;
        if (!par || (uint64_t)r == root) return -EBUSY;
        if (!n->ents.empty()) return -ENOTEMPTY;
        get(par)->ents.erase(nm);
        get(par)->nlink--;
        touch_dir(par);
        n->nlink = 0;
        drop(r);
        return 0;
    }
    int mkdir(const std::string& p, uint32_t mode) {
        uint64_t par = 0; std::string nm;
        int64_t r = resolve(p, false, &par, &nm);
        if (r >= 0) return -EEXIST;
        if (r != -ENOENT || !par || nm.empty()) return (int)r;
        SInode n;
        n.ino = alloc(); n.mode = S_IFDIR | (mode & 07777); n.nlink = 2; n.parent = par; n.at = n.mt = n.ct = now();
        inodes[n.ino] = n;
        get(par)->ents[nm] = n.ino;
        get(par)->nlink++;
        touch_dir(par);
        return 0;
    }
    int symlink(const std::string& target, const std::string& p) {
        uint64_t par = 0; std::string nm;
        int64_t r = resolve(p, false, &par, &nm);
        if (r >= 0) return -EEXIST;
        if (r != -ENOENT || !par || nm.empty()) return (int)r;
        if (target.empty()) return -ENOENT;
        SInode n;
        n.ino = alloc(); n.mode = S_IFLNK | 0777; n.nlink = 1; n.data = target; n.at = n.mt = n.ct = now();
        inodes[n.ino] = n;
        get(par)->ents[nm] = n.ino;
        touch_dir(par);
        return 0;
    }
    int link(const std::string& a, const std::string& b) {
        int64_t r = resolve(a, false, nullptr, nullptr);
        if (r < 0) return (int)r;
        SInode* n = get(r);
        if (n->isdir()) return -EPERM;
        uint64_t par = 0; std::string nm;
        int64_t t = resolve(b, false, &par, &nm);
        if (t >= 0) return -EEXIST;
        if (t != -ENOENT || !par || nm.empty()) return (int)t;
        get(par)->ents[nm] = r;
        touch_dir(par);
        n->nlink++; n->ct = now();
        return 0;
    }
    bool is_anc(uint64_t a, uint64_t d) {   // a is d or an ancestor of d
        while (true) {
            if (a == d) return true;
            if (d == root) return false;
            SInode* n = get(d);
            if (!n) return false;
            d = n->parent;
        }
    }
    int rename(const std::string& a, const std::string& b, unsigned flags = 0) {
        uint64_t pa = 0, pb = 0; std::string na, nb;
        int64_t r = resolve(a, false, &pa, &na);
        if (r < 0) return (int)r;
        int64_t t = resolve(b, false, &pb, &nb);
        if (t < 0 && (t != -ENOENT || !pb || nb.empty())) return (int)t;
        if (!pa || !pb) return -EBUSY;
        SInode* n = get(r);
        if (flags & ~3u || flags == 3) return -EINVAL;
        if (flags == 1 && t >= 0) return -EEXIST;
        if (n->isdir() && is_anc(r, pb)) return -EINVAL;
        if (flags == 2) {
            if (t < 0) return (int)t;
            SInode* o = get(t);
            if (o->isdir() && is_anc(t, pa)) return -EINVAL;
            if (t == r) return 0;
            get(pa)->ents[na] = t;
            get(pb)->ents[nb] = r;
            if (pa != pb) {
                if (n->isdir()) { get(pa)->nlink--; get(pb)->nlink++; n->parent = pb; }
                if (o->isdir()) { get(pb)->nlink--; get(pa)->nlink++; o->parent = pa; }
            }
            n->ct = o->ct = now();
            touch_dir(pa); touch_dir(pb);
            return 0;
        }
        if (t >= 0) {
            if (t == r) return 0;
            SInode* o = get(t);
            if (n->isdir()) {
                if (!o->isdir()) return -ENOTDIR;
                if (!o->ents.empty()) return -ENOTEMPTY;
            } else if (o->isdir()) {
                return -EISDIR;
            }
            get(pb)->ents.erase(nb);
            if (o->isdir()) { o->nlink = 0; get(pb)->nlink--; }
            else { o->nlink--; o->ct = now(); }
            drop(t);
        }
        get(pa)->ents.erase(na);
        get(pb)->ents[nb] = r;
        if (n->isdir() && pa != pb) { get(pa)->nlink--; get(pb)->nlink++; n->parent = pb; }
        n->ct = now();
        touch_dir(pa); touch_dir(pb);
        return 0;
    }
    int chmod(const std::string& p, uint32_t m) {
        int64_t r = resolve(p, true, nullptr, nullptr);
        if (r < 0) return (int)r;
        SInode* n = get(r);
        n->mode = (n->mode & S_IFMT) | (m & 07777); n->ct = now();
        return 0;
    }
    int chown(const std::string& p, uint32_t u, uint32_t g, bool follow) {
        int64_t r = resolve(p, follow, nullptr, nullptr);
        if (r < 0) return (int)r;
        SInode* n = get(r);
        if (u != (uint32_t)-1) n->uid = u;
        if (g != (uint32_t)-1) n->gid = g;
        n->ct = now();
        return 0;
    }
    int utimens_ino(uint64_t ino, const struct timespec* ts) {
        SInode* n = get(ino);
        if (!n) return -EBADF;
        struct timespec t[2];
        for (int i = 0; i < 2; i++) {
            if (!ts || ts[i].tv_nsec == UTIME_NOW) t[i] = now();
            else if (ts[i].tv_nsec == UTIME_OMIT) t[i] = i == 0 ? n->at : n->mt;
            else { if (ts[i].tv_nsec < 0 || ts[i].tv_nsec > 999999999) return -EINVAL; t[i] = ts[i]; }
        }
        n->at = t[0]; n->mt = t[1]; n->ct = now();
        return 0;
    }
    int utimens(const std::string& p, const struct timespec* ts, bool follow) {
        int64_t r = resolve(p, follow, nullptr, nullptr);
        if (r < 0) return (int)r;
        return utimens_ino(r, ts);
    }
    int readlink(const std::string& p, std::string& out) {
        int64_t r = resolve(p, false, nullptr, nullptr);
        if (r < 0) return (int)r;
        SInode* n = get(r);
        if (!n->islnk()) return -EINVAL;
        out = n->data;
        return 0;
    }
    int stat_ino(uint64_t ino, struct stat* st) {
        SInode* n = get(ino);
        if (!n) return -EBADF;
        memset(st, 0, sizeof *st);
        st->st_ino = n->ino; st->st_mode = n->mode; st->st_nlink = n->nlink; st->st_uid = n->uid; st->st_gid = n->gid;
        st->st_size = n->isdir() ? 4096 : (off_t)n->data.size();
        st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512; st->st_dev = 77;
        st->st_atim = n->at; st->st_mtim = n->mt; st->st_ctim = n->ct;
        return 0;
    }
    int stat(const std::string& p, struct stat* st, bool follow) {
        int64_t r = resolve(p, follow, nullptr, nullptr);
        if (r < 0) return (int)r;
        return stat_ino(r, st);
    }
    void open_ref(uint64_t ino) { SInode* n = get(ino); if (n) n->opens++; }
    void open_unref(uint64_t ino) { SInode* n = get(ino); if (n) { n->opens--; drop(ino); } }
    void crash() {   // every handle is gone
        std::vector<uint64_t> v;
        for (auto& k : inodes) { k.second.opens = 0; v.push_back(k.first); }
        for (auto i : v) drop(i);
    }
    std::vector<std::pair<std::string, uint64_t>> files() {   // every path below the root
        std::vector<std::pair<std::string, uint64_t>> out;
        walk(root, "/simroot", out);
        return out;
    }
    void walk(uint64_t d, const std::string& pre, std::vector<std::pair<std::string, uint64_t>>& out) {
        for (auto& e : get(d)->ents) {
            out.push_back({pre + "/" + e.first, e.second});
            if (get(e.second)->isdir()) walk(e.second, pre + "/" + e.first, out);
        }
    }
};
