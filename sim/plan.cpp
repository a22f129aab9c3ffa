// Plan <-> text (replay files) and the LazyFS configuration file of a plan.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>

static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '%' || c <= ' ' || c >= 127) { char b[8]; snprintf(b, sizeof b, "%%%02x", c); o += b; }
        else o += (char)c;
    }
    return o.empty() ? "%-" : o;
}
static std::string unesc(const std::string& s) {
    if (s == "%-") return "";
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%' && i + 2 < s.size() + 0) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else o += s[i];
    }
    return o;
}
template <class T> static std::string join(const std::vector<T>& v) {
    std::string o;
    for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + std::to_string(v[i]);
    return o.empty() ? "-" : o;
}
static std::vector<int> ints(const std::string& s) {
    std::vector<int> v;
    if (s == "-") return v;
    std::stringstream ss(s); std::string t;
    while (std::getline(ss, t, ',')) v.push_back(atoi(t.c_str()));
    return v;
}
std::string Plan::to_text() const {
    std::ostringstream o;
    o << "lfsim-plan 1\nprofile " << profile << "\nseed " << seed << "\n";
    if (!expect.empty()) o << "expect " << expect << "\n";
    o << "cfg block=" << block << " bpp=" << bpp << " pages=" << pages << " evict=" << evict << " logall=" << logall << " done=" << done_fifo
      << " exact=" << exact << " simple=" << simple_cfg << " simplekb=" << simple_kb << " maxwrite=" << max_write << " pagesplit=" << page_split << " inoreuse=" << inoreuse << (strict ? " strict=1" : "") << (live ? " live=1" : "") << (nodtype ? " nodtype=1" : "");
    if (bigshift) o << " bigwin=" << bigwin << " bigshift=" << bigshift;
    o << "\n";
    Plan d;
    if (!size_text.empty() || !logfile.empty() || fifo != d.fifo || done != d.done || cfgpath != d.cfgpath || checkcfg || tomlvar)
        o << "cfg2 " << esc(size_text) << " " << esc(logfile) << " " << esc(fifo) << " " << esc(done) << " " << esc(cfgpath) << " " << logfile_ok << " " << checkcfg << " " << tomlvar << "\n";
    for (auto& s : args) o << "arg " << esc(s) << "\n";
    for (auto& s : pre) o << "pre " << esc(s) << "\n";
    for (auto& i : injs)
        o << "inj " << esc(i.type) << " " << esc(i.file) << " " << esc(i.op) << " " << esc(i.timing) << " " << esc(i.from) << " " << esc(i.to) << " "
          << join(i.persist) << " " << join(i.parts_bytes) << " " << i.occurrence << " " << i.parts << " " << i.crash << " " << i.omit << "\n";
    for (auto& l : lives) {
        o << "life kill=" << l.kill_step << " policy=" << l.policy << " rwp=" << l.rwp << " pctd=" << l.pctd << " pctk=" << l.pctk << " sseed=" << l.sseed << " fine=" << l.fine << (l.stop ? " stop=" + std::to_string(l.stop) : "")
          << " clients=" << l.clients.size() << "\n";
        for (auto& f : l.faults) o << "fault " << f.call << " " << f.nth << " " << f.count << " " << f.err << " " << f.shortn << "\n";
        for (auto& s : l.sched) o << "sw " << s.first << " " << s.second << "\n";
        for (size_t c = 0; c < l.clients.size(); c++)
            for (auto& x : l.clients[c])
                o << "op " << c << " " << x.k << " " << x.slot << " " << x.a << " " << x.b << " " << x.c << " " << esc(x.p) << " " << esc(x.q) << "\n";
    }
    o << "end\n";
    return o.str();
}
bool Plan::from_text(const std::string& s, Plan& p, std::string& err) {
    std::istringstream in(s);
    std::string line;
    p = Plan();
    bool ended = false;
    auto kv = [](const std::string& tok, std::string& v) { size_t e = tok.find('='); v = tok.substr(e + 1); return tok.substr(0, e); };
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string w, t, v;
        l >> w;
        if (w == "lfsim-plan") continue;
        if (w == "profile") l >> p.profile;
        else if (w == "seed") l >> p.seed;
        else if (w == "expect") l >> p.expect;
        else if (w == "cfg") {
            while (l >> t) {
                std::string k = kv(t, v); int n = atoi(v.c_str());
                if (k == "block") p.block = n; else if (k == "bpp") p.bpp = n; else if (k == "pages") p.pages = n; else if (k == "evict") p.evict = n;
                else if (k == "logall") p.logall = n; else if (k == "done") p.done_fifo = n; else if (k == "exact") p.exact = n;
                else if (k == "simple") p.simple_cfg = n; else if (k == "simplekb") p.simple_kb = n; else if (k == "maxwrite") p.max_write = n;
                else if (k == "pagesplit") p.page_split = n; else if (k == "inoreuse") p.inoreuse = n; else if (k == "strict") p.strict = n; else if (k == "live") p.live = n; else if (k == "nodtype") p.nodtype = n; else if (k == "bigwin") p.bigwin = n; else if (k == "bigshift") p.bigshift = n;
            }
        } else if (w == "cfg2") {
            std::string a, b, c, d, e;
            l >> a >> b >> c >> d >> e >> p.logfile_ok >> p.checkcfg >> p.tomlvar;
            p.size_text = unesc(a); p.logfile = unesc(b); p.fifo = unesc(c); p.done = unesc(d); p.cfgpath = unesc(e);
        } else if (w == "arg") { l >> t; p.args.push_back(unesc(t));
        } else if (w == "pre") { l >> t; p.pre.push_back(unesc(t)); }
        else if (w == "inj") {
            Inj i; std::string a, b;
            std::string ty, fi, op, ti, fr, to;
            l >> ty >> fi >> op >> ti >> fr >> to >> a >> b >> i.occurrence >> i.parts >> i.crash >> i.omit;
            i.type = unesc(ty); i.file = unesc(fi); i.op = unesc(op); i.timing = unesc(ti); i.from = unesc(fr); i.to = unesc(to);
            i.persist = ints(a); i.parts_bytes = ints(b);
            p.injs.push_back(i);
        } else if (w == "life") {
            Life f; size_t nc = 0;
            while (l >> t) {
                std::string k = kv(t, v);
                if (k == "kill") f.kill_step = atoll(v.c_str()); else if (k == "policy") f.policy = v; else if (k == "rwp") f.rwp = atof(v.c_str());
                else if (k == "pctd") f.pctd = atoi(v.c_str()); else if (k == "pctk") f.pctk = atoi(v.c_str()); else if (k == "sseed") f.sseed = strtoull(v.c_str(), 0, 10);
                else if (k == "fine") f.fine = atoi(v.c_str()); else if (k == "stop") f.stop = atoi(v.c_str()); else if (k == "clients") nc = atoi(v.c_str());
            }
            f.clients.resize(nc);
            p.lives.push_back(f);
        } else if (p.lives.empty() && w != "end") { err = "bad line: " + line; return false; }
        else if (w == "fault") { SFault f; l >> f.call >> f.nth >> f.count >> f.err >> f.shortn; p.lives.back().faults.push_back(f); }
        else if (w == "sw") { uint64_t a; int b; l >> a >> b; p.lives.back().sched.push_back({a, b}); }
        else if (w == "op") {
            size_t c; Op x; std::string a, b;
            l >> c >> x.k >> x.slot >> x.a >> x.b >> x.c >> a >> b;
            x.p = unesc(a); x.q = unesc(b);
            if (c >= p.lives.back().clients.size()) { err = "bad client"; return false; }
            p.lives.back().clients[c].push_back(x);
        } else if (w == "end") { ended = true; break; }
        else { err = "bad line: " + line; return false; }
    }
    if (!ended) err = "truncated";
    return ended;
}
std::vector<std::string> Plan::argv() const {
    if (!args.empty()) return args;
    return {"lazyfs", "/simmnt", "--config-path", cfgpath, "-o", "modules=subdir", "-o", "subdir=/simroot", "-f"};
}
std::string Plan::toml() const {
    std::ostringstream o;
    std::vector<std::string> sec;
    const char* eq = tomlvar & 1 ? " = " : "=";
    const char* nl = tomlvar & 2 ? "   # note\n" : "\n";
    std::string f = std::string("[faults]") + nl + "fifo_path" + eq + "\"" + fifo + "\"" + nl;
    if (done_fifo) f += std::string("fifo_path_completed") + eq + "\"" + done + "\"" + nl;
    sec.push_back(f);
    std::string c = std::string("[cache]") + nl;
    if (evict || !(tomlvar & 4)) c += std::string("apply_eviction") + eq + (evict ? "true" : "false") + nl;
    if (simple_cfg) {
        std::string a = std::string("custom_size") + eq + "\"" + (size_text.empty() ? std::to_string(simple_kb) + "KB" : size_text) + "\"" + nl;
        std::string b = bpp == 1 && tomlvar & 8 ? "" : "blocks_per_page" + std::string(eq) + std::to_string(bpp) + nl;
        c += std::string("[cache.simple]") + nl + (tomlvar & 16 ? b + a : a + b);
    } else {
        std::string a = std::string("io_block_size") + eq + std::to_string(block) + nl, b = std::string("page_size") + eq + std::to_string(block * bpp) + nl, d = std::string("no_pages") + eq + std::to_string(pages) + nl;
        c += std::string("[cache.manual]") + nl + (tomlvar & 16 ? d + b + a : a + b + d);
    }
    sec.push_back(c);
    if (logall || !logfile.empty() || !(tomlvar & 4)) {
        std::string a = std::string("log_all_operations") + eq + (logall ? "true" : "false") + nl, b = logfile.empty() && tomlvar & 8 ? "" : std::string("logfile") + eq + "\"" + logfile + "\"" + nl;
        sec.push_back(std::string("[filesystem]") + nl + (tomlvar & 16 ? b + a : a + b));
    }
    if (tomlvar & 32) std::swap(sec[0], sec.back());
    if (tomlvar & 64) std::swap(sec[1], sec.back());
    for (auto& x : sec) o << x << (tomlvar & 2 ? "\n" : "");
    auto arr = [](const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; };
    for (auto& i : injs) {
        o << "[[injection]]\ntype=\"" << i.type << "\"\n";
        if (i.omit != 1) o << "occurrence=" << i.occurrence << "\n";
        if (i.type == "torn-seq") o << "op=\"" << i.op << "\"\nfile=\"" << i.file << "\"\npersist=" << arr(i.persist) << "\n";
        else if (i.type == "torn-op") {
            o << "file=\"" << i.file << "\"\npersist=" << arr(i.persist) << "\n";
            if (i.parts >= 0) o << "parts=" << i.parts << "\n";
            if (!i.parts_bytes.empty()) o << "parts_bytes=" << arr(i.parts_bytes) << "\n";
        } else {
            o << "op=\"" << i.op << "\"\ntiming=\"" << i.timing << "\"\nfrom=\"" << i.from << "\"\n";
            if (!i.to.empty()) o << "to=\"" << i.to << "\"\n";
            o << "crash=" << (i.crash ? "true" : "false") << "\n";
        }
    }
    return o.str();
}
