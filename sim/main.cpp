// Command line: seeded search, confirmation, minimisation and replay.
#include "sim.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <malloc.h>
#include <sstream>
#include <sys/personality.h>
#include <sys/wait.h>

using std::string;
using std::vector;

void child_setup() {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1); dup2(n, 2);
    mallopt(M_PERTURB, 0xA5);
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static string jesc(const string& s) {
    string o;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; }
    return o;
}
static std::set<string> setof(const string& s) { std::set<string> o; std::stringstream ss(s); string t; while (std::getline(ss, t, ',')) if (!t.empty()) o.insert(t); return o; }

static Plan as_list(const Plan& p, const RunResult& r) {
    Plan q = p;
    for (size_t i = 0; i < q.lives.size(); i++) {
        q.lives[i].policy = "list";
        q.lives[i].sched = i < r.sched.size() ? r.sched[i] : vector<std::pair<uint64_t, int>>();
    }
    return q;
}
// ------------------------------------------------------------------ minimisation
struct Minimiser {
    string cls; double deadline; uint64_t tries = 0;
    std::function<bool(const RunResult&)> accept;
    bool timeup() const { return now() > deadline; }
    bool bad(const Plan& p, RunResult* out = nullptr) {
        tries++;
        RunResult r = run_plan(p, false);
        if (out) *out = r;
        return r.v.cls == cls && (!accept || accept(r));
    }
    // p has a list policy; cand is p with something removed.  Keep it if it still fails, with the same or another schedule.
    bool attempt(Plan& p, Plan cand, bool research) {
        RunResult r;
        if (bad(cand, &r)) { p = as_list(cand, r); return true; }
        if (!research) return false;
        bool conc = false;
        for (auto& l : cand.lives) if (l.clients.size() > 1) conc = true;
        if (!conc) return false;
        for (int k = 0; k < 24 && !timeup(); k++) {
            Plan c = cand;
            Rng g(1000 + k);
            for (auto& l : c.lives) if (l.clients.size() > 1) { l.sched.clear(); l.policy = k % 2 ? "rw" : "pct"; l.rwp = k % 3 ? 0.3 : 0.05; l.pctd = 1 + k % 5; l.pctk = 40 * (int)c.nops(); l.sseed = g.next() % 100000; }
            if (bad(c, &r)) { Plan l = as_list(c, r); if (bad(l)) { p = l; return true; } }
        }
        return false;
    }
    void run(Plan& p) {
        bool progress = true;
        int round = 0;
        while (progress && !timeup() && round++ < 4) {
            progress = false;
            // later lifetimes, then earlier ones
            while (p.lives.size() > 1 && !timeup()) { Plan c = p; c.lives.pop_back(); if (!attempt(p, c, false)) break; progress = true; }
            while (p.lives.size() > 1 && !timeup()) { Plan c = p; c.lives.erase(c.lives.begin()); if (!attempt(p, c, true)) break; progress = true; }
            for (size_t i = p.pre.size(); i-- > 0 && !timeup();) { Plan c = p; c.pre.erase(c.pre.begin() + i); if (attempt(p, c, false)) progress = true; }
            for (size_t i = p.injs.size(); i-- > 0 && !timeup();) { Plan c = p; c.injs.erase(c.injs.begin() + i); if (attempt(p, c, false)) progress = true; }
            for (size_t l = 0; l < p.lives.size(); l++) {
                for (size_t i = p.lives[l].faults.size(); i-- > 0 && !timeup();) { Plan c = p; c.lives[l].faults.erase(c.lives[l].faults.begin() + i); if (attempt(p, c, false)) progress = true; }
                if (p.lives[l].kill_step >= 0) { Plan c = p; c.lives[l].kill_step = -1; if (attempt(p, c, false)) progress = true; }
            }
            for (size_t l = p.lives.size(); l-- > 0 && !timeup();)
                for (size_t k = p.lives[l].clients.size(); k-- > 0 && !timeup();) {
                    size_t n = std::max<size_t>(1, p.lives[l].clients[k].size() / 2);
                    while (n >= 1 && !timeup()) {
                        for (size_t i = p.lives[l].clients[k].size(); i > 0 && !timeup();) {
                            size_t b = i >= n ? i - n : 0;
                            Plan c = p;
                            auto& v = c.lives[l].clients[k];
                            if (b >= v.size()) { i = v.size(); if (!i) break; continue; }
                            v.erase(v.begin() + b, v.begin() + std::min(i, v.size()));
                            if (attempt(p, c, n == 1)) progress = true;
                            i = b;
                        }
                        if (n == 1) break;
                        n /= 2;
                    }
                }
        }
        // schedule: drop preemptions
        for (size_t l = 0; l < p.lives.size() && !timeup(); l++) {
            size_t n = std::max<size_t>(1, p.lives[l].sched.size() / 2);
            while (!p.lives[l].sched.empty() && !timeup()) {
                for (size_t i = p.lives[l].sched.size(); i > 0 && !timeup();) {
                    size_t b = i >= n ? i - n : 0;
                    Plan c = p;
                    auto& v = c.lives[l].sched;
                    v.erase(v.begin() + b, v.begin() + std::min(i, v.size()));
                    RunResult r;
                    if (bad(c, &r)) p = c;
                    i = b;
                }
                if (n == 1) break;
                n /= 2;
            }
        }
        for (size_t l = 0; l < p.lives.size() && !timeup(); l++) if (p.lives[l].fine) { Plan c = p; c.lives[l].fine = false; attempt(p, c, true); }
    }
};

struct Totals {
    uint64_t runs = 0; RunStats s; std::set<uint64_t> traces; std::map<string, uint64_t> other; uint64_t maxseed = 0; std::map<string, string> otherex;
    std::map<string, uint64_t> profruns;
    std::set<uint64_t> nt, scheds; vector<std::pair<string, uint64_t>> samples;
};
// a counter of a run by name; "probe:" prefixes add up every probe with that prefix
static uint64_t counter(const RunStats& b, const string& n) {
    if (n == "lossy") return b.lossy; if (n == "clears") return b.clears; if (n == "ckpts") return b.ckpts; if (n == "kills") return b.kills;
    if (n == "selfkills") return b.selfkills; if (n == "sfaults") return b.sfaults; if (n == "fired") return b.fired; if (n == "cmds") return b.cmds;
    if (n == "switches") return b.switches; if (n == "wgl") return b.wgl; if (n == "ops") return b.fuse_ops; if (n == "disk") return b.disk_muts; if (n == "lives") return b.lives > 1;
    uint64_t s = 0;
    for (auto& x : b.probes) if (x.first.compare(0, n.size(), n) == 0) s += x.second;
    return s;
}
// rule: groups separated by ',' must all hold; alternatives inside a group are separated by '|'
static bool nontrivial(const RunStats& b, const string& rule) {
    std::stringstream g(rule); string t;
    while (std::getline(g, t, ',')) {
        std::stringstream a(t); string x; bool any = false;
        while (std::getline(a, x, '|')) if (counter(b, x)) any = true;
        if (!any) return false;
    }
    return true;
}
static void dump(const string& f, const std::set<uint64_t>& s) {
    std::ofstream o(f, std::ios::binary);
    vector<uint64_t> v(s.begin(), s.end());
    o.write((const char*)v.data(), v.size() * 8);
}
static void addstats(Totals& t, const RunResult& r, const string& prof) {
    auto& a = t.s; auto& b = r.st;
    t.runs++; t.profruns[prof]++;
    a.steps += b.steps; a.decisions += b.decisions; a.switches += b.switches; a.fuse_ops += b.fuse_ops; a.disk_muts += b.disk_muts; a.lives += b.lives;
    a.kills += b.kills; a.selfkills += b.selfkills; a.sfaults += b.sfaults; a.clears += b.clears; a.ckpts += b.ckpts; a.wgl += b.wgl; a.wgl_nodes += b.wgl_nodes;
    a.inconclusive += b.inconclusive; a.fired += b.fired; a.cmds += b.cmds; a.lossy += b.lossy; a.simns += b.simns;
    for (auto& x : b.probes) a.probes[x.first] += x.second;
    if (t.s.states.size() < 400000) a.states.insert(b.states.begin(), b.states.end());
    if (t.traces.size() < 2000000) t.traces.insert(r.hash);
}
static string slurp(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const string& f, const string& d) { std::ofstream o(f, std::ios::binary); o << d; }

struct Opts {
    vector<string> prof; uint64_t from = 0, count = 0; int workers = 1; double time = 1e9; std::set<string> cls; string out = "."; string tag = "x"; bool verbose = false; double mintime = 25; string rule;
};
// one worker: returns through files out/tag.w<k>.*
static void worker(const Opts& o, int k) {
    Totals t;
    double end = now() + o.time;
    string base = o.out + "/" + o.tag + ".w" + std::to_string(k);
    string viol;
    for (uint64_t i = k; i < o.count && now() < end; i += o.workers) {
        if (access((o.out + "/" + o.tag + ".stop").c_str(), F_OK) == 0) break;
        const string& prof = o.prof[i % o.prof.size()];
        uint64_t seed = o.from + i;
        Plan p = gen_plan(prof, seed);
        RunResult r = run_plan(p, false);
        addstats(t, r, prof);
        for (auto& l : r.sched) { uint64_t h = 1469598103934665603ull; for (auto& d : l) { h = (h ^ d.first) * 1099511628211ull; h = (h ^ (uint64_t)d.second) * 1099511628211ull; } if (!l.empty() && t.scheds.size() < 2000000) t.scheds.insert(h); }
        if (nontrivial(r.st, o.rule) && t.nt.size() < 2000000 && t.nt.insert(r.hash).second && t.samples.size() < 2) t.samples.push_back({prof, seed});
        t.maxseed = std::max(t.maxseed, i);
        if (r.v.ok()) continue;
        if (!o.cls.count(r.v.cls)) { t.other[r.v.cls]++; if (!t.otherex.count(r.v.cls)) t.otherex[r.v.cls] = prof + ":" + std::to_string(seed) + " " + r.v.msg; continue; }
        // confirm: the same seed must give exactly the same execution
        RunResult r2 = run_plan(p, false);
        Plan lp = as_list(p, r);
        RunResult r3 = run_plan(lp, false);
        std::ostringstream vs;
        if (r2.hash != r.hash || r2.v.cls != r.v.cls) { vs << "NONDET " << prof << " " << seed << " " << r.v.cls << " " << r.v.msg << "\n"; spit(base + ".viol", vs.str()); break; }
        spit(o.out + "/" + o.tag + ".stop", "x");
        if (r3.v.cls == r.v.cls) {
            Minimiser m; m.cls = r.v.cls; m.deadline = now() + o.mintime;
            m.run(lp);
        } else lp = p;
        RunResult fin = run_plan(lp, false);
        if (fin.v.cls != r.v.cls) { lp = p; fin = r; }
        lp.expect = fin.v.cls;
        std::ostringstream h;
        h << "# violation class " << fin.v.cls << ": " << fin.v.msg << "\n# found by profile " << prof << " seed " << seed << "; minimised from " << p.nops() << " to " << lp.nops() << " client operations\n";
        h << "# execution hash " << std::hex << fin.hash << std::dec << "\n";
        std::istringstream nn(fin.narrative); string line;
        while (std::getline(nn, line)) h << "# " << line << "\n";
        spit(base + ".replay", h.str() + lp.to_text());
        vs << "VIOL " << seed << " " << prof << " " << fin.v.cls << " " << std::hex << fin.hash << std::dec << "\n" << fin.v.msg << "\n";
        spit(base + ".viol", vs.str());
        break;
    }
    std::ostringstream s;
    auto& a = t.s;
    s << "{\"runs\":" << t.runs << ",\"steps\":" << a.steps << ",\"decisions\":" << a.decisions << ",\"switches\":" << a.switches << ",\"fuse_ops\":" << a.fuse_ops
      << ",\"disk_muts\":" << a.disk_muts << ",\"lives\":" << a.lives << ",\"kills\":" << a.kills << ",\"selfkills\":" << a.selfkills << ",\"sfaults\":" << a.sfaults
      << ",\"clears\":" << a.clears << ",\"lossy_clears\":" << a.lossy << ",\"checkpoints\":" << a.ckpts << ",\"lin_checks\":" << a.wgl << ",\"lin_nodes\":" << a.wgl_nodes
      << ",\"inconclusive\":" << a.inconclusive << ",\"fired\":" << a.fired << ",\"commands\":" << a.cmds << ",\"simns\":" << a.simns
      << ",\"states\":" << a.states.size() << ",\"traces\":" << t.traces.size() << ",\"maxidx\":" << t.maxseed << ",\"probes\":{";
    bool first = true;
    for (auto& x : a.probes) { s << (first ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; first = false; }
    s << "},\"profiles\":{";
    first = true;
    for (auto& x : t.profruns) { s << (first ? "" : ",") << "\"" << x.first << "\":" << x.second; first = false; }
    s << "},\"samples\":[";
    first = true;
    for (auto& x : t.samples) { s << (first ? "" : ",") << "[\"" << x.first << "\"," << x.second << "]"; first = false; }
    dump(base + ".traces", t.traces); dump(base + ".nt", t.nt); dump(base + ".states", a.states); dump(base + ".scheds", t.scheds);
    s << "],\"other\":{";
    first = true;
    for (auto& x : t.other) { s << (first ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; first = false; }
    s << "},\"other_examples\":{";
    first = true;
    for (auto& x : t.otherex) { s << (first ? "" : ",") << "\"" << jesc(x.first) << "\":\"" << jesc(x.second) << "\""; first = false; }
    s << "}}";
    spit(base + ".json", s.str());
}
static int cmd_search(const Opts& o) {
    vector<pid_t> pids;
    unlink((o.out + "/" + o.tag + ".stop").c_str());
    for (int k = 0; k < o.workers; k++) {
        string b = o.out + "/" + o.tag + ".w" + std::to_string(k);
        for (const char* e : {".json", ".viol", ".replay", ".traces", ".nt", ".states", ".scheds"}) unlink((b + e).c_str());
        pid_t pid = fork();
        if (pid == 0) { worker(o, k); _exit(0); }
        pids.push_back(pid);
    }
    int rc = 0;
    for (auto p : pids) { int st; waitpid(p, &st, 0); if (st != 0) rc = 3; }
    unlink((o.out + "/" + o.tag + ".stop").c_str());
    return rc;
}
static int cmd_replay(const string& file, bool verbose) {
    Plan p; string err;
    if (!Plan::from_text(slurp(file), p, err)) { fprintf(stderr, "bad replay file: %s\n", err.c_str()); return 2; }
    RunResult r = run_plan(p, verbose);
    if (verbose) fputs(r.narrative.c_str(), stdout);
    printf("result class=%s hash=%lx %s\n", r.v.ok() ? "ok" : r.v.cls.c_str(), r.hash, r.v.msg.c_str());
    if (!p.expect.empty()) return r.v.cls == p.expect ? 1 : r.v.ok() ? 0 : 4;
    return r.v.ok() ? 0 : 1;
}
int main(int argc, char** argv) {
    // a fixed address space layout: addresses must not depend on the run
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("LFSIM_NOASLR")) {
        setenv("LFSIM_NOASLR", "1", 1);
        if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (argc < 2) { fprintf(stderr, "usage: lfsim search|replay|seed|plan|hashes|profiles ...\n"); return 2; }
    string c = argv[1];
    Opts o;
    vector<string> pos;
    for (int i = 2; i < argc; i++) {
        string a = argv[i];
        auto val = [&] { return string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--profile") { std::stringstream ss(val()); string t; while (std::getline(ss, t, ',')) o.prof.push_back(t); }
        else if (a == "--from") o.from = strtoull(val().c_str(), 0, 10);
        else if (a == "--count") o.count = strtoull(val().c_str(), 0, 10);
        else if (a == "--workers") o.workers = atoi(val().c_str());
        else if (a == "--time") o.time = atof(val().c_str());
        else if (a == "--mintime") o.mintime = atof(val().c_str());
        else if (a == "--classes") o.cls = setof(val());
        else if (a == "--out") o.out = val();
        else if (a == "--tag") o.tag = val();
        else if (a == "--rule") o.rule = val();
        else if (a == "-v") o.verbose = true;
        else pos.push_back(a);
    }
    if (c == "profiles") { for (auto& p : profiles()) puts(p.c_str()); return 0; }
    if (c == "search") return cmd_search(o);
    if (c == "replay") return cmd_replay(pos.at(0), o.verbose);
    if (c == "plan") { fputs(gen_plan(pos.at(0), strtoull(pos.at(1).c_str(), 0, 10)).to_text().c_str(), stdout); return 0; }
    if (c == "hashes") {     // determinism: print the execution hash of each seed
        for (uint64_t i = 0; i < o.count; i++) { const string& pr = o.prof[i % o.prof.size()]; RunResult r = run_plan(gen_plan(pr, o.from + i), false); printf("%s %lu %lx %s\n", pr.c_str(), o.from + i, r.hash, r.v.cls.c_str()); }
        return 0;
    }
    if (c == "seed") {
        Plan p = gen_plan(pos.at(0), strtoull(pos.at(1).c_str(), 0, 10));
        RunResult r = run_plan(p, o.verbose);
        if (o.verbose) { fputs(p.toml().c_str(), stdout); fputs(r.narrative.c_str(), stdout); }
        printf("result class=%s hash=%lx ops=%zu %s\n", r.v.ok() ? "ok" : r.v.cls.c_str(), r.hash, p.nops(), r.v.msg.c_str());
        return r.v.ok() ? 0 : 1;
    }
    return 2;
}
