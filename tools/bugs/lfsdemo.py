"""A minimal FUSE client: starts the built LazyFS on a scratch directory over a socket and sends it requests."""
import os, re, select, shutil, socket, struct, subprocess, tempfile, time, signal, sys, threading

BIN = "/repo/lazyfs/build/lazyfs"
LOOKUP, FORGET, GETATTR, SETATTR, READLINK, SYMLINK, MKDIR, UNLINK, RMDIR, RENAME, LINK, OPEN, READ, WRITE = 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 14, 15, 16
RELEASE, FSYNC, INIT, ACCESS, CREATE = 18, 20, 26, 34, 35


class Dead(Exception):
    pass


class FsError(OSError):
    pass


FAILIO = r"""
#define _GNU_SOURCE
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/uio.h>
#include <sys/syscall.h>
static int fails(char what) {
    char b[8] = ""; int fd = syscall(SYS_openat, AT_FDCWD, getenv("FAILIO"), O_RDONLY); if (fd < 0) return 0;
    int n = syscall(SYS_read, fd, b, 7); syscall(SYS_close, fd);
    return n > 0 && memchr(b, what, n);
}
#define BAD(w) if (fails(w)) { errno = EIO; return -1; }
ssize_t pread(int f, void* b, size_t n, off_t o) { BAD('r') return syscall(SYS_pread64, f, b, n, o); }
ssize_t pread64(int f, void* b, size_t n, off_t o) { BAD('r') return syscall(SYS_pread64, f, b, n, o); }
ssize_t pwrite(int f, const void* b, size_t n, off_t o) { BAD('w') return syscall(SYS_pwrite64, f, b, n, o); }
ssize_t pwrite64(int f, const void* b, size_t n, off_t o) { BAD('w') return syscall(SYS_pwrite64, f, b, n, o); }
ssize_t pwritev(int f, const struct iovec* v, int n, off_t o) { BAD('w') return syscall(SYS_pwritev, f, v, n, o, 0); }
ssize_t pwritev64(int f, const struct iovec* v, int n, off_t o) { BAD('w') return syscall(SYS_pwritev, f, v, n, o, 0); }
"""


def build_failio(d):
    if not os.path.exists(d + "/failio.so"):
        open(d + "/failio.c", "w").write(FAILIO)
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-o", d + "/failio.so", d + "/failio.c"])
    return d + "/failio.so"


class LazyFS:
    def __init__(self, page=4096, block=4096, pages=1000, evict=False, inject="", user=None, cache=None, logfile=False, failio=False):
        self.user = user
        self.failio = failio
        self.dir = tempfile.mkdtemp(prefix="lfsdemo-")
        self.root = self.dir + "/root"
        os.mkdir(self.root)
        self.fifo, self.done = self.dir + "/faults.fifo", self.dir + "/done.fifo"
        os.mkfifo(self.done)
        self.cfg = self.dir + "/cfg.toml"
        with open(self.cfg, "w") as f:
            f.write('[faults]\nfifo_path="%s"\nfifo_path_completed="%s"\n[cache]\napply_eviction=%s\n[cache.manual]\nio_block_size=%d\npage_size=%d\nno_pages=%d\n'
                    '[filesystem]\nlog_all_operations=%s\nlogfile="%s"\n%s' % (self.fifo, self.done, "true" if evict else "false", block, page, pages,
                                                                                "true" if logfile else "false", self.dir + "/lazyfs.log" if logfile else "", inject.replace("ROOT", self.root)))
        if cache is not None:
            t = open(self.cfg).read()
            open(self.cfg, "w").write(re.sub(r"\[cache.manual\][^[]*", lambda m: cache + "\n", t))
        self.proc = None
        if user is not None:
            for p in (self.dir, self.root, self.done):
                os.chown(p, user, user)
            os.chmod(self.dir, 0o755)
            os.chmod(self.cfg, 0o644)
        self.start()

    def start(self):
        if os.path.exists(self.fifo):
            os.unlink(self.fifo)
        self.c, s = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for x in (self.c, s):
            x.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        self.log = open(self.dir + "/log", "w")
        env = dict(os.environ)
        if self.failio:        # reads or writes of the backing file system fail on demand
            env.update(LD_PRELOAD=build_failio(self.dir), FAILIO=self.dir + "/failio")
        self.proc = subprocess.Popen([BIN, "/dev/fd/%d" % s.fileno(), "--config-path", self.cfg, "-o", "modules=subdir", "-o", "subdir=" + self.root, "-f"],
                                     cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT, env=env, pass_fds=[s.fileno()], **({} if self.user is None else {"user": self.user, "group": self.user, "extra_groups": []}))
        s.close()
        self.uid = 0
        self.replies = {}
        self.lock = threading.Lock()
        flags = 0x7F | 1 << 10 | 1 << 12 | 1 << 18 | 1 << 19
        r = self.req(INIT, 0, struct.pack("<IIII", 7, 31, 131072, flags), 30)
        self.nodes = {"": 1}
        end = time.time() + 10
        while not os.path.exists(self.fifo):
            if time.time() > end:
                raise Dead("no fifo")
            time.sleep(0.02)

    # ---- transport
    def send(self, op, node, body):
        with self.lock:
            self.uid += 1
            u = self.uid
        try:
            self.c.send(struct.pack("<IIQQIIII", 40 + len(body), op, u, node, os.getuid(), os.getgid(), os.getpid(), 0) + body)
        except OSError:
            raise Dead("LazyFS is gone")
        return u

    def wait(self, u, timeout=20):
        end = time.time() + timeout
        while u not in self.replies:
            r, _, _ = select.select([self.c], [], [], max(0, min(0.2, end - time.time())))
            if r:
                try:
                    d = self.c.recv(1 << 20)
                except OSError:
                    d = b""
                if len(d) < 16:
                    raise Dead("LazyFS closed the connection")
                _, err, x = struct.unpack_from("<IiQ", d)
                self.replies[x] = (err, d[16:])
            elif self.proc.poll() is not None:
                raise Dead("LazyFS died")
            elif time.time() > end:
                raise TimeoutError("no answer to a request")
        err, d = self.replies.pop(u)
        if err:
            raise FsError(-err, os.strerror(-err))
        return d

    def req(self, op, node, body, timeout=20):
        return self.wait(self.send(op, node, body), timeout)

    # ---- requests (names live in the root directory, or dir/name)
    def split(self, path):
        d, _, n = path.rpartition("/")
        return (self.lookup(d) if d else 1), n

    def lookup(self, path):
        p, n = self.split(path)
        d = self.req(LOOKUP, p, n.encode() + b"\0")
        return struct.unpack_from("<Q", d)[0]

    def _attr(self, d):
        v = struct.unpack_from("<QQQQQQIIIIIII", d)
        return {"ino": v[0], "size": v[1], "atime": v[3], "mtime": v[4], "ctime": v[5], "mode": v[9], "nlink": v[10], "uid": v[11], "mtimens": v[7]}

    def stat(self, path):
        n = self.lookup(path)
        return self._attr(self.req(GETATTR, n, struct.pack("<IIQ", 0, 0, 0))[16:])

    def create(self, path, flags=os.O_RDWR):
        p, n = self.split(path)
        d = self.req(CREATE, p, struct.pack("<IIII", flags | os.O_CREAT, 0o100644, 0o022, 0) + n.encode() + b"\0")
        return (struct.unpack_from("<Q", d)[0], struct.unpack_from("<Q", d, 128)[0])

    def open(self, path, flags=os.O_RDWR):
        n = self.lookup(path)
        d = self.req(OPEN, n, struct.pack("<II", flags, 0))
        return (n, struct.unpack_from("<Q", d)[0])

    def write_body(self, f, off, data):
        return struct.pack("<QQIIQII", f[1], off, len(data), 0, 0, os.O_RDWR, 0) + data

    def write(self, f, off, data, timeout=20):
        return struct.unpack_from("<I", self.req(WRITE, f[0], self.write_body(f, off, data), timeout))[0]

    def read_body(self, f, off, size):
        return struct.pack("<QQIIQII", f[1], off, size, 0, 0, os.O_RDWR, 0)

    def read(self, f, off=0, size=65536):
        return self.req(READ, f[0], self.read_body(f, off, size))

    def fsync(self, f, datasync=0):
        self.req(FSYNC, f[0], struct.pack("<QII", f[1], datasync, 0))

    def release(self, f):
        self.req(RELEASE, f[0], struct.pack("<QIIQ", f[1], os.O_RDWR, 0, 0))

    def setattr(self, node, valid, size=0, atime=0, mtime=0, mode=0, fh=0, an=0, mn=0):
        return self._attr(self.req(SETATTR, node, struct.pack("<IIQQQQQQIIIIIIII", valid, 0, fh, size, 0, atime, mtime, 0, an, mn, 0, mode, 0, 0, 0, 0))[16:])

    def truncate(self, path, size):
        return self.setattr(self.lookup(path), 8, size=size)

    def ftruncate(self, f, size):
        return self.setattr(f[0], 8 | 64, size=size, fh=f[1])

    def utimens(self, path, at, mt):
        return self.setattr(self.lookup(path), 16 | 32, atime=at, mtime=mt)

    def unlink(self, path):
        p, n = self.split(path)
        self.req(UNLINK, p, n.encode() + b"\0")

    def mkdir(self, path):
        p, n = self.split(path)
        self.req(MKDIR, p, struct.pack("<II", 0o755, 0o022) + n.encode() + b"\0")

    def rename(self, a, b):
        pa, na = self.split(a)
        pb, nb = self.split(b)
        self.lookup(a)
        self.req(RENAME, pa, struct.pack("<Q", pb) + na.encode() + b"\0" + nb.encode() + b"\0")

    def link(self, a, b):
        p, n = self.split(b)
        self.req(LINK, p, struct.pack("<Q", self.lookup(a)) + n.encode() + b"\0")

    def put(self, path, data, sync=False):
        try:
            f = self.open(path)
        except FsError:
            f = self.create(path)
        off = 0
        while off < len(data):
            off += self.write(f, off, data[off:off + 65536])
        if sync:
            self.fsync(f)
        self.release(f)

    def get(self, path, size=1 << 17):
        f = self.open(path)
        d = self.read(f, 0, size)
        self.release(f)
        return d

    def fail(self, what):
        if what:
            open(self.dir + "/failio.new", "w").write(what)
            os.rename(self.dir + "/failio.new", self.dir + "/failio")
        elif os.path.exists(self.dir + "/failio"):
            os.unlink(self.dir + "/failio")

    # ---- faults FIFO
    def cmd(self, line, wait=True, timeout=15):
        done = os.open(self.done, os.O_RDWR | os.O_NONBLOCK)
        f = os.open(self.fifo, os.O_WRONLY)
        os.write(f, (line + "\n").encode())
        os.close(f)
        got = b""
        end = time.time() + timeout
        while wait and b"finished" not in got and time.time() < end:
            if select.select([done], [], [], 0.1)[0]:
                got += os.read(done, 4096)
            if self.proc.poll() is not None:
                break
        os.close(done)
        return got

    def pause(self, s=0.5):
        time.sleep(s)

    def output(self):
        return open(self.dir + "/log").read()

    def backing(self, path):
        with open(self.root + "/" + path, "rb") as f:
            return f.read()

    def dead(self, timeout=5):
        try:
            self.proc.wait(timeout)
            return True
        except subprocess.TimeoutExpired:
            return False

    def kill(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()
        self.c.close()

    def restart(self):
        self.kill()
        self.start()

    def close(self):
        try:
            self.kill()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def run(body, **kw):
    for i in range(5):
        try:
            l = LazyFS(**kw)
            break
        except (Dead, TimeoutError):
            if i == 4:
                raise
    try:
        body(l)
        print("demo: property held")
        rc = 0
    except (AssertionError, Dead, TimeoutError, FsError) as e:
        print("demo: BROKEN: %s: %s" % (type(e).__name__, e))
        rc = 1
    finally:
        l.close()
    sys.exit(rc)
