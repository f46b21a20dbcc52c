"""A disk that can fail, tear writes and lose what was not synced.

Real files in the run's scratch directory hold what the operating system would
show to a running process.  Beside them this keeps what would be on the disk
after a power cut: the content of a file as of its last fsync (or sync), and
directory entries (renames are atomic and kept in order, but whether the last
ones made it is decided by the simulator).

Every file operation of the code under test is an event: open for writing,
write, close, fsync, rename, remove, sync.  At each the simulator may inject
an error (ENOSPC, EIO), or a crash: the process never returns from it.
"""
import builtins
import errno
import io
import os
import subprocess

import cothread

_open = builtins.open
_replace, _rename, _fsync, _remove = os.replace, os.rename, os.fsync, os.remove
_os_open = os.open


class FaultFS:
    def __init__(self, sim, root, err_p=0.0):
        self.sim = sim
        self.root = os.path.abspath(root)
        self.err_p = err_p
        self.crash_at = None  # event number
        self.mode = "kill"  # or "power"
        self.events = 0
        self.dead = False
        self.crashed = cothread.Event(auto_reset=False)
        self.durable = {}  # inode -> bytes
        self.kept = []  # handles that keep inodes alive so that numbers are not reused
        self.disk = {}  # path -> inode: entries that survive a power cut
        self.pending = []  # metadata operations since the last sync
        self.writers = []
        self.survivors = None
        self.armed = False

    # ---- helpers ----
    def mine(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        return p.startswith(self.root + os.sep)

    def rel(self, path):
        return os.path.relpath(os.path.abspath(os.fspath(path)), self.root)

    def inode(self, path):
        return os.stat(path).st_ino

    def content(self, path):
        with _open(path, "rb") as f:
            return f.read()

    def event(self, what, path, tear=None):
        """One file operation is about to happen; tear(): do part of it"""
        sim = self.sim
        if self.dead:
            cothread.Event().Wait()
        if not self.armed:
            return
        self.events += 1
        sim.log("fs", what, self.rel(path) if path else "")
        if self.crash_at is not None and self.events == self.crash_at:
            if tear and sim.draw("tear", 2):
                tear()
            self.crash(f"{what}")
        if self.err_p and what in ("open", "write", "close", "fsync", "rename") and \
                sim.chance(f"fs.{what}", self.err_p):
            no = errno.ENOSPC if what in ("open", "write", "close") and \
                sim.draw("fs.errno", 2) == 0 else errno.EIO
            sim.fault("disk_" + errno.errorcode[no], what)
            if tear and what == "write":
                tear()
            raise OSError(no, os.strerror(no))

    def crash(self, where):
        sim = self.sim
        sim.fault(f"crash_{self.mode}", where)
        self.dead = True
        self.survivors = self.image()
        self.crashed.Signal()
        cothread.Event().Wait()

    # ---- what is left after a crash ----
    def listing(self):
        out = {}
        for d, _, files in os.walk(self.root):
            for f in sorted(files):
                p = os.path.join(d, f)
                out[self.rel(p)] = p
        return out

    def image(self):
        """{relative path: bytes} as found at the next start"""
        now = self.listing()
        if self.mode == "kill":
            # the operating system still has everything handed to it
            return {r: self.content(p) for r, p in sorted(now.items())}
        sim = self.sim
        entries = dict(self.disk)
        n = sim.draw("lost_meta", len(self.pending) + 1)
        for op in self.pending[:len(self.pending) - n]:
            self.apply(entries, op)
        out = {}
        by_inode = {self.inode(p): p for p in now.values()}
        for r, ino in sorted(entries.items()):
            synced = self.durable.get(ino, b"")
            p = by_inode.get(ino)
            full = self.content(p) if p else synced
            if full == synced:
                out[r] = synced
                continue
            how = sim.draw("lost_data", 4)
            if how == 0:
                out[r] = synced
            elif how == 1:
                out[r] = b""
            elif how == 2:
                out[r] = full[:sim.draw("lost_len", len(full) + 1)]
            else:
                out[r] = full
        return out

    @staticmethod
    def apply(entries, op):
        if op[0] == "create":
            entries[op[1]] = op[2]
        elif op[0] == "remove":
            entries.pop(op[1], None)
        elif op[0] == "rename":
            if op[1] in entries:
                entries[op[2]] = entries.pop(op[1])
            else:
                entries[op[2]] = op[3]

    def settle_all(self):
        """sync(): everything handed to the system is on the disk"""
        self.disk = {}
        for r, p in self.listing().items():
            ino = self.inode(p)
            self.disk[r] = ino
            self.durable[ino] = self.content(p)
        self.pending = []

    def note_create(self, path, existed):
        ino = self.inode(path)
        if not existed:
            self.pending.append(("create", self.rel(path), ino))

    # ---- installation ----
    def install(self):
        fs = self

        def fs_open(file, mode="r", *args, **kw):
            if isinstance(file, int) or not fs.mine(file) or not any(
                    c in mode for c in "wax+"):
                return _open(file, mode, *args, **kw)
            fs.event("open", file)
            existed = os.path.exists(file)
            f = _open(file, mode, *args, **kw)
            fs.note_create(file, existed)
            w = Writer(fs, f, file)
            fs.writers.append(w)
            return w

        def mover(real):
            def move(src, dst, **kw):
                if not fs.mine(dst):
                    return real(src, dst, **kw)
                fs.event("rename", dst)
                ino = fs.inode(src)
                if os.path.exists(dst):
                    fs.kept.append(_open(dst, "rb"))
                real(src, dst, **kw)
                fs.pending.append(("rename", fs.rel(src), fs.rel(dst), ino))
            return move

        def fsync(fd):
            if not isinstance(fd, int):
                fd = fd.fileno()
            st = os.fstat(fd)
            fs.event("fsync", None)
            for r, p in fs.listing().items():
                if fs.inode(p) == st.st_ino:
                    fs.durable[st.st_ino] = fs.content(p)
                    # the entry of a file just made goes with it
                    if not any(i == st.st_ino for i in fs.disk.values()):
                        fs.pending = [o for o in fs.pending if not (
                            o[0] == "create" and o[2] == st.st_ino)]
                        fs.disk[r] = st.st_ino

        def remove(path, **kw):
            if not fs.mine(path):
                return _remove(path, **kw)
            fs.event("remove", path)
            if os.path.exists(path):
                fs.kept.append(_open(path, "rb"))
            _remove(path, **kw)
            fs.pending.append(("remove", fs.rel(path)))

        def sync(*_args, **_kw):
            fs.event("sync", None)
            fs.settle_all()
            return 0

        def is_sync(cmd):
            if isinstance(cmd, (list, tuple)):
                cmd = cmd[0] if cmd else ""
            return os.path.basename(str(cmd).split(" ")[0]) == "sync"

        class Done:
            returncode = 0
            stdout = stderr = b""

            def wait(self, *_):
                return 0

            def communicate(self, *_):
                return b"", b""

            def check_returncode(self):
                return 0

        def runner(name):
            real = getattr(subprocess, name)

            def call(cmd, *args, **kw):
                if not is_sync(cmd):
                    return real(cmd, *args, **kw)
                sync()
                return 0 if name in ("call", "check_call") else (
                    b"" if name == "check_output" else Done())
            return call

        builtins.open = io.open = fs_open
        os.replace = mover(_replace)
        os.rename = mover(_rename)
        os.fsync = os.fdatasync = fsync
        os.remove = os.unlink = remove
        os.sync = sync
        for n in ("call", "check_call", "check_output", "run"):
            setattr(subprocess, n, runner(n))
        return self

    def reborn(self, root, err_p=0.0):
        """The disk as the next process finds it, in another directory"""
        os.makedirs(root, exist_ok=True)
        for r, data in (self.survivors or {}).items():
            p = os.path.join(root, r)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with _open(p, "wb") as f:
                f.write(data)
        fs = FaultFS(self.sim, root, err_p)
        fs.settle_all()
        return fs


class Writer:
    """A file open for writing: buffered like the real one, each write and the
    close being an event"""

    def __init__(self, fs, f, path):
        self._fs, self._f, self._path = fs, f, path

    def write(self, data):
        f = self._f

        def tear():
            k = self._fs.sim.draw("tear_at", len(data) + 1)
            f.write(data[:k])
            f.flush()

        self._fs.event("write", self._path, tear)
        return f.write(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        self._fs.event("write", self._path)
        self._f.flush()

    def close(self):
        if self._f.closed:
            return
        try:
            self._fs.event("close", self._path)
        except OSError:
            # what was buffered is lost
            self._f.close()
            raise
        self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __getattr__(self, name):
        return getattr(self._f, name)
