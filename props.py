"""Which simulations decide which property.

groups: profiles (generators of plans in sim/gen.cpp) with the number of seeded runs of the quick tier; the thorough
tier runs 12 times as many on the same seed ranges.  classes: the kinds of oracle verdict that contradict the
property.  nontrivial: the rule a run must satisfy to count as non-trivial (',' = and, '|' = or, over run counters).
"""
GEN_RULE = ("Each evaluation is one simulated history: a plan (configuration, initial files, client programs, commands, armed faults, "
            "scheduling policy, crash point) drawn from the seed by the listed profiles and executed against the real LazyFS code.")

DATA = ["RD", "SZ", "LOST", "LEAK", "ERR"]
LIVE = ["HANG", "DEATH", "FD"]


def g(count, *profiles, **kw):
    return {"profiles": list(profiles), "count": count, **kw}


PROPS = {
    "C01": {"groups": [g(36000, "rw", "dflt", "bpp", "tinyrw", "big"), g(1500, "wide", time=20)], "classes": ["RD", "SZ", "ERR"] + LIVE, "nontrivial": "ops",
            "rule": "the run made file system requests whose results were compared with the reference model."},
    "C02": {"groups": [g(36000, "sync", "dflt", "bpp", "tiny", "loss", "big"), g(1500, "wide", time=20)], "classes": ["LOST", "RD", "SZ", "ERR"] + LIVE, "nontrivial": "clears|kills,disk",
            "rule": "the run persisted something and then lost the cache (clear-cache, or a kill at an arbitrary step)."},
    "C03": {"groups": [g(36000, "loss", "sync", "bpp", "ckpt", "big")], "classes": ["LEAK", "LOST", "RD", "SZ"] + LIVE, "nontrivial": "lossy|kills",
            "rule": "a clear-cache hit while some file had unsynced data, or LazyFS was killed at an arbitrary step."},
    "C04": {"groups": [g(36000, "ckpt", "cmds", "tiny", "bpp", "big"), g(1500, "wide", time=20)], "classes": ["LOST", "LEAK", "RD", "SZ", "CMD"] + LIVE, "nontrivial": "ckpts",
            "rule": "a checkpoint was requested."},
    "C05": {"groups": [g(36000, "ns", "times")], "classes": ["NS", "META", "RD", "SZ", "LOST", "LEAK", "ERR"] + LIVE, "nontrivial": "disk",
            "rule": "the run changed the backing file system."},
    "C06": {"groups": [g(36000, "conc", "conctiny")], "classes": ["LIN", "RD", "SZ", "NS", "META", "ERR", "LOST", "LEAK"] + LIVE, "nontrivial": "wgl,switches",
            "rule": "at least two clients (or a client and the command thread) were preemptively interleaved and the history went through the linearizability search."},
    "C07": {"groups": [g(30000, "chaos", "conc", "garbage", "tiny", "ns", "ioerr", time=45),
                       g(3000, "ioerr", "chaos", "garbage", "tiny", variant="race", time=25)], "classes": ["MEM"] + LIVE, "nontrivial": "switches|sfaults|cmds",
            "rule": "threads were interleaved, or system call faults or commands were injected."},
    "C08": {"groups": [g(36000, "cmds", "conc", "usage", "report")], "classes": ["CMD", "LIN", "USAGE", "REPORT"] + DATA + LIVE, "nontrivial": "cmds",
            "rule": "commands were written to the faults FIFO."},
    "C09": {"groups": [g(40000, "crash")], "classes": ["NOFIRE", "MISFIRE", "NS", "META"] + DATA + LIVE, "nontrivial": "armed,ops",
            "rule": "at least one well-formed crash fault was armed and requests were made."},
    "C10": {"groups": [g(40000, "tornop", "tornop", "bigtorn")], "classes": ["TORN", "NOFIRE", "MISFIRE"] + DATA + LIVE, "nontrivial": "armed|torn-op",
            "rule": "a torn-op fault was armed."},
    "C11": {"groups": [g(40000, "tornseq", "tornseq", "bigtorn")], "classes": ["TORN", "NOFIRE", "MISFIRE"] + DATA + LIVE, "nontrivial": "armed|torn-seq",
            "rule": "a torn-seq fault was armed."},
    "C12": {"groups": [g(40000, "cclear")], "classes": ["NOFIRE", "MISFIRE", "CMD", "NS", "CFG"] + DATA + LIVE, "nontrivial": "fired",
            "rule": "a configured clear fault fired."},
    "C13": {"groups": [g(36000, "report", "crash", "ckpt", "bpp", "big"), g(1500, "wide", time=20)], "classes": ["REPORT"] + LIVE, "nontrivial": "report",
            "rule": "a report was produced and compared with the model's unsynced blocks."},
    "C14": {"groups": [g(36000, "usage", "cmds"), g(1500, "wide", time=20)], "classes": ["USAGE"] + LIVE, "nontrivial": "usage",
            "rule": "a cache-usage answer was compared with the model's set of cached pages."},
    "C15": {"groups": [g(45000, "ioerr")], "classes": ["ERR", "NS", "META", "RD", "SZ", "LOST", "LEAK"] + LIVE, "nontrivial": "sfaults",
            "rule": "at least one system call of LazyFS on the backing file system failed or was short."},
    "C16": {"groups": [g(36000, "times", "ns", "sync")], "classes": ["META"] + LIVE, "nontrivial": "times-checked",
            "rule": "file times, modes or owners returned by LazyFS were compared with the model."},
    "C17": {"groups": [g(40000, "garbage", "crash")], "classes": ["MISFIRE", "NOFIRE", "CMD", "CFG"] + DATA + LIVE, "nontrivial": "unknown-command|invalid-command",
            "rule": "malformed or unknown commands were written to the FIFO."},
    "C18": {"groups": [g(40000, "tiny", "tinyrw", "bpp")], "classes": DATA + ["NS", "CMD"] + LIVE, "nontrivial": "ops",
            "rule": "requests were made against a cache too small for the data, or with several blocks per page."},
    "C19": {"groups": [g(36000, "config", "dflt")], "classes": ["CFG", "USAGE", "CMD", "NOFIRE", "MISFIRE"] + DATA + LIVE, "nontrivial": "config-checked",
            "rule": "a generated configuration file and command line were used and arguments, FIFOs, geometry, log lines and log file were compared with them."},
    "C20": {"groups": [g(36000, "stop")], "classes": ["CFG", "LIN", "NS", "META", "RD", "SZ", "ERR", "LOST", "LEAK"] + LIVE, "nontrivial": "orderly-stop|orderly-stop-busy|orderly-stop-concurrent",
            "rule": "LazyFS was stopped in an orderly way (unmount) at least once."},
    "C21": {"groups": [g(7000, "conc", "conctiny", "chaos", "cmds", "stop", "ns", variant="race", time=55)], "classes": ["RACE", "MEM", "LIN"] + LIVE, "nontrivial": "switches",
            "rule": "threads were preemptively interleaved while every access of the repository's code to shared memory was checked against the happens-before order and the extent of live memory."},
}
