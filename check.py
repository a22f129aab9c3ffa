#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough]: decide one property by deterministic simulation.

Builds the simulator from /repo's current tree, searches seeded executions of the property's profiles, and
exits 0 (held on everything explored), 1 with a VIOLATION line (violated, replay file written), or 2 (the
check itself failed).  Every random choice derives from VERIF_SEED.
"""
import array, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
from props import PROPS, GEN_RULE

FIELDS = ["runs", "steps", "decisions", "switches", "fuse_ops", "disk_muts", "lives", "kills", "selfkills", "sfaults", "clears",
          "lossy_clears", "checkpoints", "lin_checks", "lin_nodes", "inconclusive", "fired", "commands", "simns"]
REAL = ["lazyfs/src/*.cpp (LazyFS, faults FIFO worker, main)", "libs/libpcache/src/**/*.cpp (cache engine, items, pages, configuration)",
        "toml11, spdlog, libstdc++ containers, std::thread objects, std::shared_mutex and std::mutex wrappers"]
STUB = ["libfuse and the kernel VFS (simulated clients, path tables, page splitting of requests)", "backing file system (in-memory, with injected errors)",
        "faults FIFO (in-memory byte stream)", "pthread mutexes, rwlocks, condition variables and threads (fibers under the seeded scheduler)",
        "clocks, sleep, kill, exit, log sink"]


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def run(cmd, timeout):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def replay(exe, path):
    rc, out = run([exe, "replay", path], 120)
    m = re.search(r"^result class=(\S+) hash=([0-9a-f]+)(.*)$", out, re.M)
    return (rc, m.group(1), m.group(2), m.group(3).strip()) if m else (rc, "?", "?", out[-500:])


def union(files):
    s = set()
    for f in files:
        a = array.array("Q")
        with open(f, "rb") as h:
            a.frombytes(h.read())
        s.update(a)
        os.unlink(f)
    return len(s)


def known_entries(pid):
    """lines 'known: property=<id> plan=<file> <what fails>' of known-findings.txt"""
    out = []
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) plan=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    vseed = int(os.environ.get("VERIF_SEED", "1") or "1")
    p = PROPS[pid]
    t0 = time.time()
    exes = {}
    try:
        vs = sorted({g.get("variant", "plain") for g in p["groups"]})
        with concurrent.futures.ThreadPoolExecutor(len(vs)) as ex:
            exes = dict(zip(vs, ex.map(build.build, vs)))
    except Exception as e:
        die("the simulator does not build from the current tree: %s" % e)
    tb = time.time() - t0
    work = os.path.join(VERIF, "out", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep_dir = os.path.join(VERIF, "out", "replays")
    os.makedirs(rep_dir, exist_ok=True)
    # ---- findings recorded earlier: report them while they still fail
    known = []
    for plan, what in known_entries(pid):
        rc, cls, h, msg = replay(exes[sorted(exes)[0]] if "plain" not in exes else exes["plain"], os.path.join(VERIF, plan))
        if rc == 1:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
            known.append({"what": what, "plan": plan, "class": cls, "still_fails": True})
        else:
            known.append({"what": what, "plan": plan, "still_fails": False})
    # ---- search
    scale = 1 if tier == "quick" else 12
    nw = max(1, min(8, len(os.sched_getaffinity(0))))
    tot = {k: 0 for k in FIELDS}
    probes, profs, other, samples, parts = {}, {}, {}, [], []
    nt = traces = states = scheds = 0
    viol = None
    ts = time.time()
    # each group of profiles gets its own seed range, so that adding one does not move the others
    for gi, g in enumerate(p["groups"]):
        exe = exes[g.get("variant", "plain")]
        frm = vseed * 1000000 + int(hashlib.sha256((pid + str(gi)).encode()).hexdigest()[:6], 16) % 500 * 1000000000
        tag = "g%d" % gi
        tcap = g.get("time", 60) * (1 if tier == "quick" else 9)
        cmd = [exe, "search", "--profile", ",".join(g["profiles"]), "--from", str(frm), "--count", str(g["count"] * scale), "--workers", str(nw),
               "--time", str(tcap), "--mintime", "40", "--classes", ",".join(p["classes"]), "--out", work, "--tag", tag, "--rule", p["nontrivial"]]
        try:
            rc, out = run(cmd, tcap + 240)
        except subprocess.TimeoutExpired:
            die("search did not end")
        if rc != 0:
            die("a search worker failed: %s" % out[-500:])
        for f in sorted(glob.glob(work + "/%s.w*.json" % tag)):
            j = json.load(open(f))
            for k in FIELDS:
                tot[k] += j[k]
            for d, n in ((probes, "probes"), (profs, "profiles"), (other, "other")):
                for k, v in j[n].items():
                    d[k] = d.get(k, 0) + v
            for k, v in j["other_examples"].items():
                print("note: outside this property: %s %s" % (k, v[:300]))
            samples += j["samples"]
        nt += union(glob.glob(work + "/%s.w*.nt" % tag))
        traces += union(glob.glob(work + "/%s.w*.traces" % tag))
        states += union(glob.glob(work + "/%s.w*.states" % tag))
        scheds += union(glob.glob(work + "/%s.w*.scheds" % tag))
        vs = sorted(glob.glob(work + "/%s.w*.viol" % tag))
        for f in vs:
            viol = confirm(exe, g, f, pid, rep_dir, work)
            if viol and viol[0] == "ok":
                break
        if vs:
            break
    wall = time.time() - t0
    search_s = max(time.time() - ts, 1e-3)
    exe = exes[p["groups"][0].get("variant", "plain")]
    sam = []
    for pr, sd in samples[:3]:
        rc, out = run([exe, "plan", pr, str(sd)], 60)
        sam.append({"profile": pr, "seed": sd, "plan": out.split("\n")[:90]})
    ev = {
        "property": pid, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": 1 if viol and viol[0] == "ok" else 0,
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": nt,
            "rule": GEN_RULE + " Non-trivial here: " + p["rule"] + " Distinct: the hash of the whole recorded history (requests, results, disk "
                    "mutations, scheduling decisions) differs.",
            "samples": sam,
            "simulated_runs": tot["runs"], "runs_per_hour": int(tot["runs"] / search_s * 3600), "seeds_per_hour": int(tot["runs"] / search_s * 3600),
            "simulated_lifetimes": tot["lives"], "simulated_seconds": round(tot["simns"] / 1e9, 3),
            "scheduler_steps": tot["steps"], "scheduling_decisions": tot["decisions"], "preemptive_switches": tot["switches"],
            "requests": tot["fuse_ops"], "disk_mutations": tot["disk_muts"], "fifo_commands": tot["commands"],
            "faults_injected": {"kill_at_arbitrary_step": tot["kills"], "lazyfs_self_crash": tot["selfkills"], "clear_cache": tot["clears"],
                                "clear_cache_with_unsynced_data": tot["lossy_clears"], "cache_checkpoint": tot["checkpoints"],
                                "syscall_errors_and_short_io": tot["sfaults"], "armed_lazyfs_faults_fired": tot["fired"]},
            "probes": probes, "runs_per_profile": profs,
            "distinct_executions": traces, "distinct_schedules": scheds, "distinct_model_states": states,
            "states_measure": "hash of the reference model (namespace, contents, durable contents, cached and dirty blocks) after each request; "
                              "for concurrent runs of each linearization prefix visited",
            "linearizability_checks": tot["lin_checks"], "linearizability_inconclusive": tot["inconclusive"],
            "outside_this_property": other, "known_findings": known,
            "components_real": REAL, "components_stub": STUB, "build_s": round(tb, 2), "search_s": round(search_s, 2), "workers": nw,
        },
        "assumptions": ["the simulated backing file system behaves like a local POSIX file system whose own writes are durable once the system call returned",
                        "libfuse hands requests to LazyFS the way libfuse 3 with hard_remove off, noauto_cache and no writeback cache does"],
    }
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    shutil.rmtree(work, ignore_errors=True)
    if viol:
        if viol[0] != "ok":
            die(viol[1])
        print("violated: %s" % viol[2])
        print("VIOLATION property=%s replay=%s" % (pid, viol[1]))
        sys.exit(1)
    if tot["runs"] < 50:
        die("only %d runs were made" % tot["runs"])
    print("%s held on %d simulated runs (%d distinct non-trivial), %.0f runs/s, %.1f s simulated, wall %.1f s"
          % (pid, tot["runs"], nt, tot["runs"] / search_s, tot["simns"] / 1e9, wall))
    sys.exit(0)


def confirm(exe, g, vf, pid, rep_dir, work):
    """a violation counts only when fresh processes reproduce it from a replay file, twice, exactly"""
    first = open(vf).read().split("\n")
    w = first[0].split()
    cands = []
    rp = vf[:-5] + ".replay"
    if w[0] == "VIOL":
        seed, prof, cls = w[1], w[2], w[3]
        cands.append(rp)
    else:
        prof, seed, cls = w[1], w[2], w[3]
    # the unminimised plan, as a fallback
    rc, out = run([exe, "plan", prof, seed], 60)
    raw = os.path.join(work, "raw.plan")
    open(raw, "w").write(out)
    cands.append(raw)
    for c in cands:
        if not os.path.exists(c):
            continue
        a, b = replay(exe, c), replay(exe, c)
        if a != b or a[1] in ("ok", "?", "HARNESS"):
            continue
        if c == raw and a[1] not in PROPS[pid]["classes"]:
            continue
        text = open(c).read()
        if c == raw:
            text = "# violation class %s: %s\n# found by profile %s seed %s; not minimised\n" % (a[1], a[3], prof, seed) + text.replace("\nseed ", "\nexpect %s\nseed " % a[1], 1)
        if g.get("variant", "plain") != "plain":
            text = "# variant %s\n" % g["variant"] + text
        text += "# replay: python3 /verif/replay.py THIS_FILE   (fresh replay hash %s)\n" % a[2]
        dst = os.path.join(rep_dir, "%s-%s-%s.plan" % (pid, prof, seed))
        open(dst, "w").write(text)
        z = replay(exe, dst)
        if z[0] == 1:
            return ("ok", dst, "[%s] %s (profile %s seed %s)" % (a[1], a[3][:600], prof, seed))
    return ("err", "a violation of class %s (profile %s seed %s) did not reproduce in fresh processes: %s" % (cls, prof, seed, " ".join(first[:2])[:400]))


if __name__ == "__main__":
    main()
