import json
L="lazyfs/src/lazyfs.cpp"; M="lazyfs/src/main.cpp"; C="libs/libpcache/src/cache.cpp"; E="libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
P="libs/libpcache/src/engine/page/page.cpp"; F="libs/libpcache/src/faults.cpp"; G="libs/libpcache/src/config/config.cpp"
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"observe_at":list(obs),"hook_needed":None}}
R=[
p("C01","Reads through the mount see the latest completed writes",
 "While LazyFS runs and no fault is injected, every read, stat and size seen through the mount is what the same sequence of open, write, append, truncate, read and stat calls yields on an ordinary POSIX file system: reads return the most recently written bytes, gaps read as zeros, reads stop at the current end of file, and sizes follow writes and truncates. This holds whatever the offsets, sizes, open flags, block and page geometry and whatever is cached or not.",
 ["inputs","histories","configurations"],"all request sequences, offsets and lengths (block-aligned or not, sparse, overlapping, beyond EOF), open flags, and cache geometries",
 "the unit tests write a handful of fixed patterns at one block size; partial cache residency after reads, truncates and reopenings is never sampled",
 [L,C,E,P],[("write_content / lfs_read / lfs_truncate",L),("get_data_from_cache / put_data_blocks",C),("allocate_blocks / get_blocks",E)],
 [("page cache","newest bytes of every cached block",E),("item metadata","current size and times",C)],["lfs_read","lfs_getattr","lfs_write"]),
p("C02","Data covered by a successful fsync survives a crash",
 "Once fsync or fdatasync on a file has returned success, the file's size and every byte written before that call are on the backing file system and are what any later reader sees after the cache is cleared, after LazyFS is killed at any moment, and after a new LazyFS is started on the same root, until they are overwritten and persisted anew. Later unsynced writes, truncates, clears or crashes never damage bytes already persisted that were not themselves overwritten and persisted.",
 ["crash_points","histories","inputs"],"every history of writes, truncates and syncs, every position of a clear-cache and every instruction-level kill point",
 "tests fsync once and clear once at quiescent points; a kill in the middle of a request and repeated sync/clear cycles are not reached",
 [L,E,C],[("lfs_fsync",L),("sync_pages",E),("sync_owner",C)],[("dirty blocks","blocks not yet on the backing file system",E)],["lfs_fsync","backing file contents"]),
p("C03","Unsynced data is lost exactly: nothing leaks to the backing store",
 "Bytes and sizes written or truncated through the mount but not persisted by a sync, a checkpoint or an armed torn write do not reach the backing file system, and after a clear-cache command or a crash every file holds exactly its last persisted content and size. This is the power-failure model the user relies on: no unsynced byte survives and no persisted byte is lost.",
 ["histories","crash_points","inputs"],"every interleaving of writes, truncates, syncs, reads, clears and kill points",
 "tests check a few block-aligned cases of losing data; partial blocks, truncation, link and rename combinations and kills inside requests are not sampled",
 [L,C,E],[("write path keeps data in cache only",L),("command_fault_clear_cache / clear_all_cache",L)],[("clean/dirty blocks","which cached blocks differ from the backing file",E)],["backing file contents after every request"]),
p("C04","Checkpoint persists everything unsynced of every file",
 "When the cache-checkpoint command completes, every byte and the size of every file written through the mount so far is on the backing file system, for all files and whatever names or links they were written through, and the file contents seen through the mount do not change. A later clear-cache or crash therefore loses only what was written after the checkpoint.",
 ["histories","crash_points"],"every history of writes, renames, links, truncates and checkpoints, alone or mixed with clears and kills",
 "no existing test issues a checkpoint",
 [L,C,E],[("command_checkpoint",L),("full_checkpoint",C),("sync_pages",E)],[],["faults FIFO","backing file contents"]),
p("C05","Names, links and file identity behave as on the backing file system",
 "create, open, unlink, rename (also over existing files and of directories), link, symlink, readlink, mkdir, rmdir and readdir through the mount return what the backing POSIX file system would return and leave the same tree, in which every name of a file shows that file's current content and size. Unlinking or replacing a name never exposes another file's cached data, hard links and renames carry unsynced data along, and a recreated file starts empty even if its inode number is reused.",
 ["histories","crash_points","inputs"],"all sequences of namespace operations mixed with data operations, clears and kill points",
 "tests use at most one link or rename pattern; inode reuse, replaced targets and deep combinations are never reached",
 [L,C],[("lfs_rename / lfs_recursive_rename / lfs_unlink / lfs_link / lfs_create",L),("insert_inode_mapping / remove_inode_mapping / rename_item / remove_cached_item",C)],[("file_inode_mapping","name to inode map of the cache",C)],["directory tree of the root","lfs_getattr","lfs_readdir"]),
p("C06","Concurrent requests and commands are linearizable",
 "Requests of concurrent clients, and clear-cache or checkpoint commands that run meanwhile, take effect as if executed one at a time in some order consistent with their real-time order: no lost updates, no torn or mixed reads, no size or content that no such order explains. The state found on the backing file system at the end, or at a crash, is explained by the same order.",
 ["schedules","histories"],"every interleaving of two to four client threads and the command thread over shared and separate files",
 "the tests are single threaded",
 [L,C,E],[("per-inode locking of requests",L),("cache lock / page engine locks",C),("lock_cache_mtx / item locks",E)],[("cache mutexes","who may touch an item or the page tables",C)],["request/response history","backing file contents"]),
p("C07","LazyFS never deadlocks, dies or leaks descriptors",
 "Under any schedule of concurrent requests and commands, with or without failing system calls, every request is answered and every command completes in a bounded number of steps; LazyFS never terminates, aborts, throws out of a request or corrupts memory other than by an armed crash fault. Every file descriptor and directory handle it opened for a request is closed again exactly once.",
 ["schedules","fault_sequences","histories"],"all schedules of clients, command thread and failing system calls, and all command streams",
 "deadlocks and use-after-free need particular interleavings or errors that the sequential tests never produce",
 [L,M,C,E],[("lock ordering between cache, item and engine locks",C),("fht_worker",M),("error paths close descriptors",L)],[],["request completion","process state","descriptor table"]),
p("C08","FIFO commands are executed once, in order, atomically and completely",
 "Every complete command line written to the faults FIFO is executed exactly once and in the order written, also when several lines arrive in one write or one line arrives in pieces, and its effect is complete before the next one starts and before its completion is signalled on the configured completion FIFO. A clear-cache takes effect on all files at one instant: no request sees some files cleared and others not, and requests after it never see the lost data.",
 ["histories","schedules","inputs"],"all sequences and splittings of command bytes, interleaved with requests",
 "existing tests write one command at a time into an idle system",
 [M,L,C],[("fht_worker",M),("command_fault_clear_cache / command_checkpoint / command_display_cache_usage",L)],[],["faults FIFO","completion FIFO","log"]),
p("C09","Crash faults fire exactly when an operation matches",
 "A crash fault armed through the FIFO kills LazyFS exactly at the first later operation of the named kind whose path, or source and destination paths, match the given patterns: with timing before, nothing of the operation has taken effect; with timing after, all of it has, and neither unsynced nor cached data survives. Without a match nothing happens, and faults armed for other operations, timings or paths never fire.",
 ["histories","inputs","fault_sequences"],"all sets of armed crash faults, all operations, paths and file contents at the moment of the crash",
 "no existing test arms a crash fault",
 [M,L],[("parsing of lazyfs::crash",M),("trigger_crash_fault / add_crash_fault",L)],[("crash_faults_before_map / crash_faults_after_map","armed patterns per operation",L)],["process death","backing file contents"]),
p("C10","torn-op persists exactly the chosen parts and then crashes",
 "A torn-op fault, configured or armed through the FIFO, applies to exactly the given occurrence of a write to its file: that write is divided into the requested number of equal parts (the last takes the remainder) or the given byte lengths, exactly the parts listed are persisted at their offsets, nothing else of that write reaches the backing file, and LazyFS then crashes. Writes before that occurrence, writes to other files and writes of a size the parts do not fit behave as if no fault were armed.",
 ["histories","inputs","fault_sequences"],"all write offsets and sizes (also beyond 2 and 4 GiB), part specifications, occurrences, prior cached or persisted content",
 "no existing test injects a torn write",
 [L,F,G],[("split_write",L),("SplitWriteF validation",F),("add_torn_op_fault",L)],[],["process death","backing file contents"]),
p("C11","torn-seq persists exactly the chosen writes and then crashes",
 "A torn-seq fault applies to the given occurrence of a group of consecutive writes to its file, a group starting at the first write and restarting after every fsync: exactly the listed writes of that group are persisted, in their own place, none of the others reach the backing file, and LazyFS crashes after the last listed one. Groups that are shorter, other occurrences and other files behave as if no fault were armed, and invalid requests are refused.",
 ["histories","inputs","fault_sequences"],"all groups of writes, persist lists, occurrences, interleaved reads, syncs and truncates",
 "no existing test injects a sequence fault",
 [L,F,G],[("check_and_delete_pendingwrite / get_and_update_reorder_fault / persist_write / restart_counter",L),("ReorderF validation",F)],[("pending_writes","first write of a group kept on hold",L)],["process death","backing file contents"]),
p("C12","Configured clear faults fire at their occurrence, with the right timing",
 "A clear fault of the configuration file fires exactly at the given occurrence of its operation on exactly its path or pair of paths: the cache is cleared before or after that operation as configured, with the same effect as a clear-cache command, or LazyFS crashes at that point if crash is set. It fires once, it never fires for other operations, paths or occurrences, and several configured faults do not disturb each other.",
 ["histories","configurations","fault_sequences"],"all configured operations, timings, occurrences and histories",
 "no existing test configures a clear fault",
 [L,G,F],[("trigger_configured_clear_fault",L),("load of [[injection]] tables",G)],[],["cache contents","process death"]),
p("C13","The unsynced-data report names exactly the unsynced blocks",
 "The unsynced-data-report command, and the report printed when a crash fault fires, list every file that has data not yet persisted, under the names it then has, with exactly the blocks and byte ranges that are unsynced and their total; files without unsynced data are not listed, and the report says so when everything is synced. Producing the report changes nothing.",
 ["histories","configurations"],"all states of the cache reachable by writes, truncates, syncs, renames, links, clears and checkpoints",
 "no existing test requests a report",
 [L,C,E],[("command_unsynced_data_report",L),("report_unsynced_data",C),("get_dirty_blocks_info",E)],[],["log"]),
p("C14","Reported cache usage equals the pages actually in use",
 "The display-cache-usage command reports exactly the share of the configured number of cache pages that currently hold cached data: pages are counted once written data is cached, released by truncation, removal of the file, replacement by rename and clear-cache, and never leaked or counted twice. The usage always lies between 0 and 100 percent.",
 ["histories","configurations"],"all histories of writes, reads, truncates, unlinks, renames and clears under different geometries",
 "no existing test asks for the usage; a page leak only shows over long histories",
 [L,C,E],[("command_display_cache_usage",L),("get_engine_usage, free_pages bookkeeping",E)],[("free_pages / owner_pages_mapping","which pages are in use",E)],["log"]),
p("C15","Errors of the backing file system are reported, never papered over",
 "If a system call on the backing file system fails or is short while a request is served, the request reports an error (or a truthful short count), or succeeds completely because the call was retried or not needed; fsync never reports success while data it covers is not on the backing file system. A failed request leaves earlier data and names intact, does not make the cache show data that was never written, and a later retry without faults succeeds.",
 ["fault_sequences","histories"],"all positions and kinds of failing or short system calls (EIO, ENOSPC, EDQUOT, EINTR-style short transfers) in all histories",
 "tests run on a healthy disk",
 [L,E,C],[("return values of pwrite/pread/open/ftruncate/lstat in request handlers",L),("sync_pages error path",E)],[],["request results","backing file contents"]),
p("C16","Times, modes and owners seen through the mount are those of a POSIX file",
 "getattr returns the mode, owner, link count and times a POSIX file system would: writes and truncates move mtime and ctime forward, utimens sets exactly the times asked for, chmod and chown show immediately and unrelated files keep theirs, also while the data is only cached. Times persisted by a sync are those shown before it, and clear-cache or a crash reverts to the persisted ones.",
 ["histories","inputs"],"all sequences of writes, reads, truncates, utimens, chmod, chown, links, syncs and clears under a controlled clock",
 "tests never look at times; a wall clock makes them unrepeatable",
 [L,C,E],[("lfs_getattr merges cached metadata",L),("lfs_utimens",L),("update_content_metadata",C)],[("Metadata","size and times kept per item","libs/libpcache/src/item/metadata.cpp")],["lfs_getattr"]),
p("C17","Malformed or unknown commands never disturb the file system",
 "Whatever bytes are written to the faults FIFO, LazyFS keeps serving requests: unknown commands, incomplete or contradictory parameters, bad numbers, bad patterns and over-long or empty lines are refused without arming a fault, changing data, clearing the cache or stopping the command thread; valid ones before or after them are executed normally. The log answers every fault command as accepted or refused, invalid faults of the configuration file are reported there, and exactly the accepted ones are armed.",
 ["inputs","histories"],"all byte strings as command lines, between valid commands and requests",
 "tests send only well-formed commands",
 [M,L,F],[("fht_worker parsing",M),("validation in add_torn_op_fault / add_torn_seq_fault / add_crash_fault",L)],[],["faults FIFO","request results"]),
p("C18","A small or coarse cache changes performance, never contents",
 "With any number of pages, any number of blocks per page and with eviction on or off, reads, sizes, syncs, checkpoints and clears give contents that are explained by the same file history: when the cache is full or pages are evicted, data may reach the backing file earlier, but no acknowledged write is lost without a clear or crash, no file shows another file's bytes, and synced data survives.",
 ["configurations","histories","crash_points"],"cache sizes from one page up, pages of one to several blocks, eviction on and off, all histories over them",
 "tests run with a cache far larger than the data",
 [E,C,L,G],[("LRU eviction, _get_next_free_page",E),("block offsets inside a page",P),("fallback to the backing file when the cache is full",L)],[("lru_main_vector / free_pages","replacement order",E)],["lfs_read","backing file contents"]),
p("C19","The configuration file and the command line are obeyed",
 "For every valid configuration file and command line LazyFS runs with exactly what they ask for: the cache has the number and size of pages that custom_size (in Kb, Mb or Gb, also fractional) and blocks_per_page, or the manual geometry, stand for; eviction, FIFOs and their paths are the configured ones; log_all_operations logs every operation received, and none when it is off; everything logged also reaches the configured log file, up to a crash. --config-path may stand anywhere and name any path, all other arguments reach FUSE unchanged and in order, and a log file that cannot be created does not stop LazyFS.",
 ["configurations","inputs"],"all combinations of cache geometry and size notation, order and layout of the configuration file, flags, paths and command lines",
 "the tests use three fixed configuration files and one command line, and never look at the resulting geometry or the log",
 [G,M,L],[("load_config / setup_config_by_size / setup_config_manually",G),("argument handling and logger set-up in main",M),("log_all_operations in every request",L)],[("CACHE_NR_PAGES, CACHE_PAGE_SIZE, IO_BLOCK_SIZE","cache geometry","libs/libpcache/include/cache/config/config.hpp")],["fuse_main arguments","log","cache usage","mkfifo"]),
p("C20","LazyFS can be stopped and started again at any time",
 "When the file system is unmounted LazyFS ends promptly and successfully, whatever requests and commands came before and even if a command is still being executed: it neither crashes, hangs nor reports failure. Stopping does not write unsynced data and loses nothing that was persisted: the root then holds exactly the synced state, and a new LazyFS on it, with the FIFOs left from before, serves that state.",
 ["histories","schedules","crash_points"],"all histories before the stop, all interleavings of the stop with the command thread, repeated stop and start",
 "the tests unmount idle instances and ignore how the process ends",
 [M,L],[("end of main, faults handler thread",M),("lfs_destroy",L)],[("faults_handler_thread, static LazyFS object","alive while the process ends",M)],["exit status","backing file contents"]),
p("C21","State shared between threads is accessed race-free and only while alive",
 "Whatever the interleaving of client requests, commands and the fault worker, no two threads access the same memory of LazyFS without synchronisation when one of them writes, and no request touches memory that was released or lies outside what was allocated. So cache items, page tables, page contents, name maps, fault tables and counters are never seen half updated, and no result depends on a data race.",
 ["schedules","histories","configurations"],"every interleaving of client threads, the command thread and the orderly stop, over all request, command and cache configurations",
 "the tests are single threaded; a race or a use after release that happens to return the right bytes is invisible to them",
 [L,C,E,P],[("item locks and lock_cache_mtx",C),("lock_cache_mtx of the engine",E),("fault tables and their lock",L)],[("contents / item_locks","cached items and their locks",C),("page tables and LRU list","cached pages",E),("faults","armed faults",L)],["every load, store, allocation and release of the instrumented code"]),
]
with open('/verif/properties.jsonl','w') as f:
    for r in R:
        assert len(r["title"])<=80,r["title"]
        f.write(json.dumps(r,ensure_ascii=False)+"\n")
import sys; sys.path.insert(0,'/verif')
tech="deterministic simulation with fault injection: seeded schedules, crash points and fault sequences over the real code, judged by a reference model"
notes={}
m={"version":1,"setup_cmd":"python3 build.py plain && python3 build.py race","checks":[{"property":r["id"],"quick_cmd":"python3 check.py %s --tier quick"%r["id"],"thorough_cmd":"python3 check.py %s --tier thorough"%r["id"],"technique":tech,"level":"exploration",
 "level_note":"Seeded search, not exhaustive: "+r["quantifier"]["text"]+" are sampled. Trusts the simulated kernel/libfuse/backing file system and the reference model in sim/; the LazyFS and libpcache sources are the real ones."} for r in R],
 "not_applicable":[],"notes":"No hooks in /repo: the sources are compiled unchanged and their libc/pthread/libfuse symbols are redirected to the simulator at link time."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
