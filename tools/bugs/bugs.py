bug("c01-head-write","C01","a write that starts at a block boundary and covers only the first bytes of a block that is on the backing file but not cached",
"the rest of the block is not read back from the backing file before it is cached: the bytes after the write read as zeros",
[(LZ,"bool needs_pread = FILE_SIZE_BEFORE > CURR_BLK_IDX * IO_BLOCK_SIZE;","// a block that is overwritten from its start needs no read\n                bool needs_pread = FILE_SIZE_BEFORE > CURR_BLK_IDX * IO_BLOCK_SIZE &&\n                                   blk_readable_from != 0;")],
'''
def body(l):
    l.put("a", b"x" * 6000, True)
    l.cmd("lazyfs::clear-cache")
    f = l.open("a")
    l.write(f, 4096, b"y" * 10)
    assert l.read(f, 0, 6000) == b"x" * 4096 + b"y" * 10 + b"x" * (6000 - 4106)


run(body)
''')
bug("c02-rewrite-clean","C02","a write to the middle of a cached block that was already synced, followed by fsync and a crash",
"the block keeps counting as synced, so that fsync succeeds without writing it and a crash loses the bytes",
[(CC,"                get<3> (owner_ref) = false;","                if (offset_start == 0)\n                    get<3> (owner_ref) = false;")],
'''
def body(l):
    f = l.create("a")
    l.write(f, 0, b"x" * 4096)
    l.fsync(f)
    l.write(f, 100, b"y" * 50)
    l.fsync(f)
    want = b"x" * 100 + b"y" * 50 + b"x" * (4096 - 150)
    l.restart()
    assert l.get("a") == want


run(body)
''')
bug("c03-pressure-flush","C03","the last close of a file with unsynced data while more than half of the pages are in use",
"closing a file flushes it when the cache is well filled, so that data never synced survives a crash",
[(LZ,"    (void)path;\n\n    close (fi->fh);","    // make room early when many pages are in use\n    struct stat stats;\n    if (this_ ()->FSCache->get_cache_usage () > 50 && lstat (path, &stats) == 0 &&\n        this_ ()->FSCache->has_content_cached (to_string (stats.st_ino)))\n        this_ ()->FSCache->sync_owner (to_string (stats.st_ino), true, (char*)path);\n\n    close (fi->fh);")],
'''
def body(l):
    l.put("a", b"x" * 4096 * 8)
    l.put("b", b"y" * 4096 * 4)
    l.restart()
    assert l.get("a") == b"" and l.get("b") == b""


run(body, pages=16)
''')
bug("c04-ckpt-skip-synced","C04","a file that was synced, then truncated to nothing, then checkpointed",
"the checkpoint skips files whose data is marked synced, and truncating to size 0 does not clear that mark: the truncation is not persisted",
[(CA,"    for (auto const& it : this->file_inode_mapping)\n        this->sync_owner (it.second, false, (char*)it.first.c_str ());","    for (auto const& it : this->file_inode_mapping) {\n        Item* item = _get_content_ptr (it.second);\n        if (item != nullptr && item->is_synced ())\n            continue; // nothing to write\n        this->sync_owner (it.second, false, (char*)it.first.c_str ());\n    }")],
'''
def body(l):
    l.put("a", b"x" * 5000, True)
    l.truncate("a", 0)
    l.cmd("lazyfs::cache-checkpoint", wait=False)
    l.pause(1)
    l.restart()
    assert l.get("a") == b""


run(body)
''')
bug("c05-rename-flags","C05","a rename with RENAME_NOREPLACE whose target exists",
"the flags of rename are ignored: the existing file is replaced and its data is gone",
[(LZ,"    if (flags)\n        return -EINVAL;","    (void)flags;")],
'''
def body(l):
    l.put("a", b"x" * 100)
    l.put("b", b"y" * 100)
    l.lookup("a")
    try:
        l.req(45, 1, struct.pack("<QII", 1, 1, 0) + b"a" + bytes(1) + b"b" + bytes(1))
        assert False, "renamed over an existing file"
    except FsError:
        pass
    assert l.get("a") == b"x" * 100 and l.get("b") == b"y" * 100


run(body)
''')
bug("c06-write-unlocks","C06","a clear-cache that runs while a write of several blocks is being cached",
"a write no longer excludes commands while it fills the cache: part of a single write survives the clear, a mixture of old and new data that no order of the two explains",
[(LZ,"    struct stat stats;\n\n    res = lfs_getattr (path, &stats, fi);\n\n    string inode;\n    std::unique_lock","    struct stat stats;\n\n    res = lfs_getattr (path, &stats, fi);\n\n    // commands need not wait for large writes\n    if (size > this_ ()->FSConfig->IO_BLOCK_SIZE)\n        lock.unlock ();\n\n    string inode;\n    std::unique_lock"),
 (LZ,"    lock.unlock ();\n    this_ ()->trigger_configured_clear_fault (\"write\", \"after\", path, \"\");","    if (lock.owns_lock ())\n        lock.unlock ();\n    this_ ()->trigger_configured_clear_fault (\"write\", \"after\", path, \"\");")],
"""
def body(l):
    stop = False
    fifo = os.open(l.fifo, os.O_WRONLY)
    done = os.open(l.done, os.O_RDWR | os.O_NONBLOCK)

    def clears():
        try:
            while not stop:
                os.write(fifo, b"lazyfs::clear-cache\\n")
                if select.select([done], [], [], 0.05)[0]:
                    os.read(done, 4096)
                time.sleep(0.0005)
        except BrokenPipeError:
            pass

    n = 128 * 1024
    l.put("a", b"o" * n, True)
    t = threading.Thread(target=clears)
    t.start()
    try:
        end = time.time() + 60
        f = l.open("a")
        new = b"n" * n
        k = 0
        while time.time() < end:
            l.write(f, 0, new)
            d = l.read(f, 0, n)
            assert len(set(d)) == 1 and len(d) == n, "a mixture of old and new data in round %d" % k
            k += 1
    finally:
        stop = True
        l.kill()
        t.join()


run(body, block=512, page=512, pages=2000)
""")
bug("c07-dir-handle","C07","a directory that contains a symbolic link is renamed",
"the directory handle opened to look for its files is not closed: descriptors run out after enough renames",
[(LZ,"            else if (from_DIRENT->d_type == DT_DIR)\n                lfs_get_dir_filenames (base_path.c_str (), result);\n        }","            else if (from_DIRENT->d_type == DT_DIR)\n                lfs_get_dir_filenames (base_path.c_str (), result);\n            else\n                return; // nothing to do for links and devices\n        }")],
"""
def body(l):
    n = lambda: len(os.listdir("/proc/%d/fd" % l.proc.pid))
    l.mkdir("d")
    os.symlink("x", l.root + "/d/s")
    l.rename("d", "e")
    before = n()
    for i in range(20):
        l.rename("e", "d")
        l.rename("d", "e")
    assert n() < before + 20, "%d descriptors are open, %d before" % (n(), before)


run(body)
""")
bug("c08-early-finished","C08","a client that acts on the completion of clear-cache while a request delays the command",
"the completion is written to the FIFO before the cache is cleared",
[(MN,"                filesystem->command_fault_clear_cache ();\n                \n                if (write_completed_faults) {","                if (write_completed_faults) {"),
 (MN,"                        spdlog::warn (\"[lazyfs.faults.worker]: failed to write to notifier fifo\");\n                    };\n                    fifo_lock.unlock();\n                }\n\n            } else if (command_str.rfind (\"lazyfs::torn-op\", 0) == 0) {","                        spdlog::warn (\"[lazyfs.faults.worker]: failed to write to notifier fifo\");\n                    };\n                    fifo_lock.unlock();\n                }\n                filesystem->command_fault_clear_cache ();\n\n            } else if (command_str.rfind (\"lazyfs::torn-op\", 0) == 0) {")],
'''
def body(l):
    l.put("a", b"x" * 100)
    os.mkfifo(l.root + "/p")
    n = l.lookup("p")
    # a request that does not return until the pipe has a writer: the command has to wait for it
    l.send(OPEN, n, struct.pack("<II", os.O_RDONLY, 0))
    l.pause(1)
    got = l.cmd("lazyfs::clear-cache", timeout=3)
    assert b"finished" not in got, "completion signalled before the cache was cleared"


run(body)
''')
bug("c09-first-pattern","C09","two crash faults armed for the same operation and timing, where an operation matches the second one only",
"only the first armed pattern is tried, so that the second fault never fires",
[(LZ,"            if (regex_match) {\n\n                spdlog::critical (\"Triggered fault condition (op={},timing={})\", opname, optiming);\n\n                this->injecting_fault_lock.lock();","            if (not regex_match)\n                break;\n\n            {\n\n                spdlog::critical (\"Triggered fault condition (op={},timing={})\", opname, optiming);\n\n                this->injecting_fault_lock.lock();")],
'''
def body(l):
    l.put("aaa", b"x")
    l.put("bbb", b"x")
    l.cmd("lazyfs::crash::timing=before::op=unlink::from_rgx=aaa", wait=False)
    l.pause(0.3)
    l.cmd("lazyfs::crash::timing=before::op=unlink::from_rgx=bbb", wait=False)
    l.pause(0.5)
    try:
        l.unlink("bbb")
        assert False, "LazyFS did not crash"
    except (Dead, TimeoutError):
        pass
    assert os.path.exists(l.root + "/bbb")


run(body)
''')
bug("c10-larger-write","C10","a torn-op fault with parts_bytes whose occurrence is a write that is larger than the parts together",
"a write that the parts do not fit is torn nevertheless",
[(LZ,"                            if (sum!=size) {","                            if (sum > size) {")],
'''
def body(l):
    f = l.create("a")
    l.cmd("lazyfs::torn-op::file=%s/a::persist=1::parts_bytes=10,20::occurrence=1" % l.root, wait=False)
    l.pause(0.5)
    l.write(f, 0, b"x" * 100)
    assert l.backing("a") == b"", "part of a write that does not fit was persisted"
    assert l.read(f, 0, 200) == b"x" * 100


run(body)
''')
bug("c11-single-write-group","C11","a group of one write, then fsync, then a group of writes",
"fsync does not restart the count of a group that has a single write: the next group is counted from 2 and the wrong writes are persisted",
[(LZ,"            if (reorder_fault && reorder_fault->op == op)  {\n                reorder_fault->counter.store(0);","            if (reorder_fault && reorder_fault->op == op && reorder_fault->counter.load() > 1) {\n                reorder_fault->counter.store(0);")],
'''
def body(l):
    f = l.create("a")
    l.write(f, 0, b"0" * 10)
    l.cmd("lazyfs::torn-seq::op=write::file=%s/a::persist=2::occurrence=1" % l.root, wait=False)
    l.pause(0.5)
    l.write(f, 0, b"1" * 10)
    l.fsync(f)
    try:
        l.write(f, 10, b"2" * 10)
        l.write(f, 20, b"3" * 10)
        l.dead()
    except (Dead, TimeoutError):
        pass
    l.kill()
    d = l.backing("a")
    assert d == b"1" * 10 + bytes(10) + b"3" * 10, d


run(body)
''')
bug("c12-any-target","C12","a configured clear fault for rename, and an earlier rename of the same file to another name",
"the destination path of the fault is not compared: other renames of the file count and fire it",
[(LZ,"                if ((is_multi_path && to_path == clear_fault->to) || !is_multi_path) {","                if ((is_multi_path && !to_path.empty ()) || !is_multi_path) {")],
'''
def body(l):
    l.put("b", b"q" * 100)
    l.put("a", b"x" * 100)
    l.rename("a", "c")
    assert l.get("b") == b"q" * 100, "the cache was cleared by another rename"
    l.rename("c", "a")
    l.rename("a", "d")
    assert l.get("b") == b""


run(body, inject='[[injection]]\\ntype="clear-cache"\\nfrom="ROOT/a"\\nto="ROOT/d"\\ntiming="after"\\nop="rename"\\noccurrence=1\\ncrash=false\\n')
''')
bug("c13-one-name","C13","a report while an inode with several names has unsynced data",
"only one of the names of a hard-linked file is reported",
[(CA,"        if (it->second == inode)\n            res.push_back (it->first);","        if (it->second == inode) {\n            res.push_back (it->first);\n            break;\n        }")],
'''
def body(l):
    l.put("a", b"x" * 100)
    l.link("a", "b")
    l.cmd("lazyfs::unsynced-data-report", wait=False)
    l.pause(1)
    out = l.output()
    assert "/a'" in out and "/b'" in out, "one of the names is missing"


run(body)
''')
bug("c14-clear-leak","C14","a clear-cache while a file whose cached name was unlinked lives on under a hard link that was not used",
"the pages of such a file are not released by clear-cache: the cache stays partly in use",
[(CA,"            this->engine->remove_cached_blocks (it);\n\n            this->_delete_item (it);","            this->_delete_item (it);")],
'''
def body(l):
    l.put("a", b"x" * 4096 * 8, True)
    os.link(l.root + "/a", l.root + "/b")
    l.put("a", b"y" * 4096 * 8)
    l.unlink("a")
    l.cmd("lazyfs::clear-cache")
    l.cmd("lazyfs::display-cache-usage", wait=False)
    l.pause(1)
    u = re.findall(r"cache usage \\(.*?\\) is ([0-9.e+-]+)%", l.output())
    assert u and float(u[-1]) == 0, u


run(body, pages=16)
''')
bug("c15-unlink-error","C15","an unlink that the backing file system refuses",
"the cached data of the file is dropped although it was not removed: an error loses data",
[(LZ,"    res = unlink (path);\n\n    if (res == -1)\n        return -errno;\n\n    if (S_ISREG (stats.st_mode))\n        this_ ()->FSCache->remove_cached_item (to_string (stats.st_ino), path, stats.st_nlink <= 1);","    if (S_ISREG (stats.st_mode))\n        this_ ()->FSCache->remove_cached_item (to_string (stats.st_ino), path, stats.st_nlink <= 1);\n\n    res = unlink (path);\n\n    if (res == -1)\n        return -errno;")],
'''
def body(l):
    # the backing file system refuses the unlink because the directory belongs to someone else
    os.chmod(l.dir, 0o755)
    os.mkdir(l.root + "/d")
    open(l.root + "/d/a", "wb").close()
    os.chmod(l.root + "/d/a", 0o666)
    os.chmod(l.root + "/d", 0o555)
    l.put("d/a", b"x" * 100)
    assert l.get("d/a") == b"x" * 100
    try:
        l.unlink("d/a")
        assert False, "unlink was not refused"
    except FsError:
        pass
    assert l.get("d/a") == b"x" * 100, "the data is gone"


run(body, user=65534)
''')
bug("c16-mtime-forward","C16","utimens that sets the modification time of a cached file to the past",
"cached modification times only move forward, so that utimens to an earlier time is not visible",
[(IT,"        else if (str == \"mtime\")\n            oldmeta->mtim = new_meta.mtim;","        else if (str == \"mtime\") {\n            // concurrent writes may arrive out of order\n            if (new_meta.mtim.tv_sec >= oldmeta->mtim.tv_sec)\n                oldmeta->mtim = new_meta.mtim;\n        }")],
'''
def body(l):
    l.put("a", b"x" * 100)
    l.utimens("a", 1000000000, 1000000000)
    m = l.stat("a")["mtime"]
    assert m == 1000000000, m


run(body)
''')
bug("c17-afterwards","C17","a crash command with a timing that only starts with 'after'",
"a malformed timing is accepted and arms a crash fault",
[(MN,"                        if (tmp_tim.length () != 0 && (tmp_tim == \"before\" || tmp_tim == \"after\"))","                        if (tmp_tim == \"before\" || tmp_tim.rfind (\"after\", 0) == 0)")],
'''
def body(l):
    l.put("a", b"x")
    l.cmd("lazyfs::crash::timing=after5::op=unlink::from_rgx=a", wait=False)
    l.pause(0.5)
    l.unlink("a")
    l.pause(0.3)
    l.put("b", b"x")
    assert l.get("b") == b"x"


run(body)
''')
bug("c18-evict-mapping","C18","eviction of a synced block that is written again later",
"the evicted block stays registered with its old owner as synced: when it is cached again and written, fsync skips it",
[(CC,"            for (auto const& it : blocks)\n                this->owner_ordered_pages_mapping.at (old_owner).erase (it.first);","            for (auto const& it : blocks)\n                if (it.second < 0) // never written\n                    this->owner_ordered_pages_mapping.at (old_owner).erase (it.first);")],
'''
def body(l):
    l.put("a", b"x" * 4096, True)
    l.put("b", b"y" * 4096 * 4, True)
    f = l.open("a")
    l.write(f, 0, b"z" * 4096)
    l.fsync(f)
    assert l.backing("a") == b"z" * 4096, l.backing("a")[:10]


run(body, pages=4, evict=True)
''')

bug("c19-round-up","C19","a custom_size that is not a multiple of the page size",
"the number of pages is rounded up, so the cache is larger than the configured size",
[(CF,"    this->CACHE_NR_PAGES = total_bytes / this->CACHE_PAGE_SIZE;","    this->CACHE_NR_PAGES = (total_bytes + this->CACHE_PAGE_SIZE - 1) / this->CACHE_PAGE_SIZE;")],
'''
def body(l):
    l.put("a", b"x" * 8192)
    l.cmd("lazyfs::display-cache-usage", wait=False)
    l.pause(0.7)
    u = re.findall(r"cache usage \\(.*?\\) is ([0-9.e+-]+)%", l.output())
    assert u and abs(float(u[-1]) - 100) < 0.01, u


run(body, cache='[cache.simple]\\ncustom_size="11Kb"\\nblocks_per_page=1')
''')
bug("c19-log-flush","C19","a crash of LazyFS while a log file is configured",
"log entries are kept in memory until the log file's buffer is full: a crash loses the last ones",
[(MN,"            logger.flush_on (spdlog::level::info);\n\n            // Register","            logger.flush_on (spdlog::level::warn);\n\n            // Register")],
'''
def body(l):
    l.put("a", b"x" * 100)
    l.pause(0.3)
    l.kill()
    t = open(l.dir + "/lazyfs.log").read()
    assert "lfs_write" in t, "the log file misses the write: %r" % t[-200:]


run(body, logfile=True)
''')
bug("c20-destroy-syncs","C20","an orderly stop with unsynced data whose files were never synced since the last clear",
"stopping writes cached data to the backing file system",
[(LZ,"{ spdlog::info (\"[lazyfs]: stopping LazyFS...\"); }","{\n\n    spdlog::info (\"[lazyfs]: stopping LazyFS...\");\n\n    // nothing else will release the cached pages\n    if (this_ ()->FSCache->get_cache_usage () > 0)\n        this_ ()->FSCache->full_checkpoint ();\n}")],
'''
def body(l):
    l.put("a", b"x" * 100, True)
    l.put("a", b"y" * 50)
    l.req(38, 0, b"")
    l.pause(0.3)
    assert l.backing("a") == b"x" * 100, l.backing("a")[:10]


run(body)
''')

SRC_NAMES = r'''// names are looked up by one thread while another one inserts and removes them
#include <cache/cache.hpp>
#include <cache/config/config.hpp>
#include <cache/engine/backends/custom/custom_cache.hpp>
#include <thread>
#include <string>

int main () {
    cache::config::Config config (4096, 4096, 16);
    auto* engine = new cache::engine::backends::custom::CustomCacheEngine (&config);
    auto* c      = new cache::Cache (&config, engine);
    c->insert_inode_mapping ("/d/a", "1", false);
    std::thread t ([&] { for (int i = 0; i < 2000; i++) c->insert_inode_mapping ("/d/b" + std::to_string (i), "2", false); });
    for (int i = 0; i < 2000; i++) c->get_original_inode ("/d/b" + std::to_string (i));
    t.join ();
    return 0;
}
'''
TSAN = '''
import glob
from concurrent.futures import ThreadPoolExecutor

SRC = r"""
%s"""
LIB = "/repo/libs/libpcache"


def main():
    """builds the cache library and a small program with ThreadSanitizer, and runs it"""
    d = tempfile.mkdtemp(prefix="lfsdemo-")
    try:
        open(d + "/main.cpp", "w").write(SRC)
        files = glob.glob(LIB + "/src/**/*.cpp", recursive=True) + [d + "/main.cpp"]

        def cc(i):
            return subprocess.run(["g++", "-std=c++17", "-g", "-O1", "-fsanitize=thread", "-I" + LIB + "/include", "-c", files[i], "-o", d + "/%%d.o" %% i]).returncode

        with ThreadPoolExecutor(8) as ex:
            assert not any(ex.map(cc, range(len(files))))
        assert subprocess.run(["g++", "-fsanitize=thread", "-o", d + "/main"] + [d + "/%%d.o" %% i for i in range(len(files))] + ["-lspdlog", "-lfmt"]).returncode == 0
        for i in range(3):
            r = subprocess.run([d + "/main"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            if r.returncode:
                out = r.stdout.decode(errors="replace")
                print(out[:3000])
                print("demo: BROKEN: exit status %%d" %% r.returncode)
                sys.exit(1)
        print("demo: property held")
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
'''
bug("c21-name-lookup","C21","a lookup of a name while another client's request adds or removes a name",
"the map of names is searched without its lock for names that were never used",
[(CA,"    lock_guard<std::shared_mutex> lock (lock_cache_mtx);\n    if (this->file_inode_mapping.find (path)","    // most lookups are for names that were not used yet\n    if (this->file_inode_mapping.count (path) == 0)\n        return \"\";\n\n    lock_guard<std::shared_mutex> lock (lock_cache_mtx);\n    if (this->file_inode_mapping.find (path)")],
TSAN % SRC_NAMES)

bug("c06-large-reads","C06","a clear-cache that runs while a read of several blocks is being served",
"large reads no longer exclude commands: a read returns cached data for some blocks and persisted data for others, which no order of read and clear explains",
[(LZ,"    std::shared_lock<std::shared_mutex> lock (cache_command_lock);\n\n    if (this_ ()->FSConfig->log_all_operations) {\n        spdlog::info (\"[lazyfs.ops]: {}(path={},size={},off={})\", __FUNCTION__, path, size, offset);\n    }\n\n    int fd;\n    int res;\n\n    if (fi == NULL)\n        fd = open (path, O_RDONLY);","    std::shared_lock<std::shared_mutex> lock (cache_command_lock, std::defer_lock);\n\n    // commands need not wait for large reads\n    if (size <= this_ ()->FSConfig->IO_BLOCK_SIZE)\n        lock.lock ();\n\n    if (this_ ()->FSConfig->log_all_operations) {\n        spdlog::info (\"[lazyfs.ops]: {}(path={},size={},off={})\", __FUNCTION__, path, size, offset);\n    }\n\n    int fd;\n    int res;\n\n    if (fi == NULL)\n        fd = open (path, O_RDONLY);"),
 (LZ,"    lock.unlock ();\n    this_ ()->trigger_configured_clear_fault (\"read\", \"after\", path, \"\");","    if (lock.owns_lock ())\n        lock.unlock ();\n    this_ ()->trigger_configured_clear_fault (\"read\", \"after\", path, \"\");")],
"""
def body(l):
    fifo = os.open(l.fifo, os.O_WRONLY)
    n = 128 * 1024
    l.put("a", b"o" * n, True)
    f = l.open("a")
    new = b"n" * n
    end = time.time() + 60
    k = 0
    while time.time() < end:
        l.write(f, 0, new)
        u = l.send(READ, f[0], l.read_body(f, 0, n))
        time.sleep(0.00005 * (k % 40))
        os.write(fifo, b"lazyfs::clear-cache\\n")
        d = l.wait(u)
        assert len(set(d)) == 1 and len(d) == n, "a mixture of old and new data in round %d" % k
        l.cmd("lazyfs::clear-cache")
        k += 1


run(body, block=512, page=512, pages=2000)
""")
bug("c07-failed-sync-lock","C07","a sync whose write to the backing file system fails",
"the early return for a failed sync leaves the file's cache item locked: every later request for that file, and soon every command, waits for ever",
[(CA,"    res = this->engine->sync_pages (owner, last_size, orig_path);\n    if (res == 0)\n        _get_content_ptr","    if ((res = this->engine->sync_pages (owner, last_size, orig_path)) < 0)\n        return res;\n    if (res == 0)\n        _get_content_ptr")],
"""
def body(l):
    l.put("a", b"x" * 5000)
    f = l.open("a")
    l.fail("w")
    try:
        l.fsync(f)
        assert False, "fsync succeeded"
    except FsError:
        pass
    l.fail("")
    assert l.read(f, 0, 8192) == b"x" * 5000
    l.fsync(f)
    assert open(l.root + "/a", "rb").read() == b"x" * 5000


run(body, failio=True)
""")
bug("c13-second-range","C13","a report on a file whose unsynced blocks form two ranges that are not adjacent",
"byte indexes of every range but the first of a file are counted from the first range",
[(LZ,"                            first_block_id       = block_id;","                            if (first_block_id < 0)\n                                first_block_id = block_id;")],
"""
def body(l):
    l.put("a", b"x" * 4096 * 12, True)
    f = l.open("a")
    l.write(f, 2 * 4096, b"y" * 4096)
    l.write(f, 7 * 4096, b"y" * 8192)
    l.release(f)
    l.cmd("lazyfs::unsynced-data-report", wait=False)
    l.pause(1)
    r = re.findall(r"block (\\d+)\\) to \\(block (\\d+)\\) \\[byte index (\\d+) to index (\\d+)\\]", l.output())
    assert r == [("2", "2", "0", "4095"), ("7", "8", "0", "8191")], r


run(body)
""")
bug("c15-head-write","C15","a write from the start of a block whose old content cannot be read from the backing file system",
"the failed read is ignored because the write starts at the beginning of the block: the write succeeds, and the rest of the block, which was persisted before, is gone",
[(LZ,"                    if (pread_res < 0) {","                    if (pread_res < 0 && blk_readable_from > 0) {"),
 (LZ,"                        if ((not needs_pread) || (pread_res == 0)) {","                        if ((not needs_pread) || (pread_res <= 0)) {")],
"""
def body(l):
    l.put("a", b"x" * 4096, True)
    l.cmd("lazyfs::clear-cache")
    f = l.open("a")
    want = b"x" * 4096
    l.fail("r")
    try:
        l.write(f, 0, b"y" * 100)
        want = b"y" * 100 + want[100:]
    except FsError:
        pass
    l.fail("")
    assert l.read(f, 0, 8192) == want


run(body, failio=True)
""")
bug("c05-short-readlink","C05","a symbolic link whose target is longer than 255 characters",
"readlink returns only the first 255 characters of the target",
[(LZ,"    res = readlink (path, buf, size - 1);","    res = readlink (path, buf, size - 1 > 255 ? 255 : size - 1);")],
'''
def body(l):
    target = "t" * 200 + "/" + "u" * 200
    os.symlink(target, os.path.join(l.root, "s"))
    n = l.lookup("s")
    assert l.req(5, n[0] if isinstance(n, tuple) else n, b"") == target.encode()


run(body)
''')
bug("c11-early-crash","C11","a torn-seq fault that persists three or more writes of a group",
"LazyFS crashes after the second write to persist, and the later ones are never persisted",
[(LZ,"                        int max = fault->persist.back();","                        int max = fault->persist.size() > 2 ? fault->persist[1] : fault->persist.back();")],
'''
def body(l):
    f = l.create("a")
    l.write(f, 0, b"0" * 10)
    l.cmd("lazyfs::torn-seq::op=write::file=%s/a::persist=2,3,5::occurrence=1" % l.root, wait=False)
    l.pause(0.5)
    try:
        for i in range(1, 7):
            l.write(f, i * 10, b"%d" % i * 10)
        l.dead()
    except (Dead, TimeoutError):
        pass
    l.kill()
    d = l.backing("a")
    assert d == bytes(20) + b"2" * 10 + b"3" * 10 + bytes(10) + b"5" * 10, d


run(body)
''')
bug("c12-prefix-target","C12","a configured clear fault for rename or link, and an operation whose destination only starts with the configured one",
"the destination is compared as a prefix: operations on other files count and fire the fault",
[(LZ,"                if ((is_multi_path && to_path == clear_fault->to) || !is_multi_path) {","                if ((is_multi_path && to_path.rfind (clear_fault->to, 0) == 0) || !is_multi_path) {")],
'''
def body(l):
    l.put("b", b"q" * 100)
    l.put("a", b"x" * 100)
    l.rename("a", "dd")
    assert l.get("b") == b"q" * 100, "the cache was cleared by another rename"
    l.rename("dd", "a")
    l.rename("a", "d")
    assert l.get("b") == b""


run(body, inject='[[injection]]\\ntype="clear-cache"\\nfrom="ROOT/a"\\nto="ROOT/d"\\ntiming="after"\\nop="rename"\\noccurrence=1\\ncrash=false\\n')
''')
bug("c15-empty-listing","C15","a directory listing while the process has run out of file descriptors",
"a directory that cannot be opened for another reason than its absence or its permissions is listed as empty, without an error",
[(LZ,"    dp = opendir (path);\n    if (dp == NULL)\n        return -errno;","    dp = opendir (path);\n    if (dp == NULL) {\n\n        // whatever cannot be opened as a directory has no entries\n        return errno == ENOENT || errno == EACCES ? -errno : 0;\n    }")],
'''
import resource


def body(l):
    for i in range(3):
        l.put("f%d" % i, b"x")
    resource.prlimit(l.proc.pid, resource.RLIMIT_NOFILE, (48, 48))
    held = []
    try:
        for i in range(100):
            held.append(l.open("f0"))
    except FsError:
        pass
    assert len(held) < 100
    fh = struct.unpack_from("<Q", l.req(27, 1, struct.pack("<II", 0, 0)))[0]
    try:
        names = l.req(28, 1, struct.pack("<QQIIQII", fh, 0, 4096, 0, 0, 0, 0))
    except FsError:
        return
    assert b"f1" in names, "the directory is listed as empty"


run(body)
''')
bug("c16-ctime-seconds","C16","two changes of a cached file within the same second",
"cached change times only move forward by whole seconds: a change in the same second as the one before does not show",
[(IT,"        else if (str == \"ctime\")\n            oldmeta->ctim = new_meta.ctim;","        else if (str == \"ctime\") {\n            // never moves backwards\n            if (new_meta.ctim.tv_sec > oldmeta->ctim.tv_sec)\n                oldmeta->ctim = new_meta.ctim;\n        }")],
'''
def ctime(l, p):
    v = struct.unpack_from("<QQQQQQIIIIIII", l.req(GETATTR, l.lookup(p), struct.pack("<IIQ", 0, 0, 0))[16:])
    return v[5] * 1000000000 + v[8]


def body(l):
    f = l.create("a")
    for i in range(8):
        l.write(f, i * 10, b"x" * 10)
        a = ctime(l, "a")
        l.pause(0.05)
        l.write(f, i * 10 + 10, b"y" * 10)
        b = ctime(l, "a")
        assert b > a, (a, b)


run(body)
''')
