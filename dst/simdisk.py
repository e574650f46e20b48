"""A simulated disk under the real file interface.

Files below `root` that are opened for writing, renamed or removed go through real buffering (io) on a raw file of ours, which can fail, fill up, write short, or lose the
machine at any operation. A power cut keeps only what is durable: data not synchronised is lost in part or in whole, names may go back to what they were."""
import builtins
import errno
import io
import os


class PowerCut(BaseException):
    """the machine stops here"""


class Raw(io.RawIOBase):
    def __init__(self, disk, path, mode, fd=None):
        self.disk, self.path, self.name, self.mode = disk, path, path, mode
        self.f = io.FileIO(path, mode.replace("b", "").replace("t", "")) if fd is None else io.FileIO(fd, mode, closefd=True)
        disk.fds[self.f.fileno()] = self

    def fileno(self):
        return self.f.fileno()

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return True

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, size=None):
        return self.disk.step("truncate", self.path) or self.f.truncate(size)

    def readinto(self, b):
        self.disk.step("read", self.path)
        return self.f.readinto(b)

    def write(self, b):
        d = self.disk
        b = bytes(b)
        if d.dead:
            return len(b)
        left = d.room
        if left is not None and len(b) > left:
            self.f.write(b[:left])
            d.room = 0
            d.dirty(self.path)
            d.hit("enospc")
            if left:
                return left
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        cut = d.sim.draw(len(b) + 1) if d.at == d.ops + 1 else 0
        try:
            d.step("write", self.path)
        except BaseException:
            self.f.write(b[:cut])
            d.dirty(self.path)
            raise
        if left is not None:
            d.room -= len(b)
        d.dirty(self.path)
        return self.f.write(b)

    def close(self):
        if not self.closed:
            try:
                super().close()
                if self.writable():
                    self.disk.step("close", self.path)
            finally:
                self.disk.fds.pop(self.f.fileno(), None)
                self.f.close()


class Disk:
    def __init__(self, sim, root):
        self.sim, self.root = sim, os.path.realpath(root)
        self.ops, self.at, self.kind, self.room, self.dead = 0, None, None, None, False
        self.pending = {}
        self.fds = {}
        self.fired, self.last = [], []

    # -- control
    def arm(self, kind=None, at=None, room=None):
        """one fault for the operations from here: kind cut / eio / eacces at the at-th of them, or room bytes left"""
        self.ops, self.at, self.kind, self.room, self.dead, self.fired = 0, at, kind, room, False, []

    def disarm(self):
        self.last = self.fired
        self.arm()
        return self

    def hit(self, what):
        self.fired.append(what)
        self.sim.fault("disk_" + what)

    def step(self, what, path):
        if self.dead:
            return
        self.ops += 1
        if self.at == self.ops:
            if self.kind == "cut":
                self.hit("power_cut_at_" + what)
                self.dead = True
                raise PowerCut(what)
            self.hit(f"{self.kind}_{what}")
            n = getattr(errno, self.kind.upper())
            raise OSError(n, os.strerror(n))

    def dirty(self, path):
        if path in self.pending:
            self.pending[path][1] = False

    def begin(self, path):
        """path is going to change"""
        if path not in self.pending:
            old = None
            if os.path.isfile(path):
                with io.FileIO(path) as f:
                    old = f.readall()
            self.pending[path] = [old, False]

    def sync_all(self):
        """the kernel has written everything back"""
        self.pending.clear()

    def power_cut(self):
        """what is on the disk after the machine was lost"""
        self.disarm()
        for path, (old, synced) in sorted(self.pending.items()):
            new = None
            if os.path.isfile(path):
                with io.FileIO(path) as f:
                    new = f.readall()
            if new == old:
                continue
            how = self.sim.pick(("new", "old", "part") if not synced and new else ("new", "old"))
            if how == "part":
                new = new[:self.sim.draw(len(new))]
            elif how == "old":
                new = old
            self.sim.fault("disk_after_cut_" + how)
            if new is None:
                if os.path.exists(path):
                    self.real["remove"](path)
            else:
                with io.FileIO(path, "w") as f:
                    f.write(new)
        self.pending.clear()

    # -- the seam
    def mine(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.path.abspath(os.fsdecode(os.fspath(path)))
        except (TypeError, ValueError):
            return None
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        return p if p.startswith(self.root + os.sep) and not os.path.isdir(p) else None

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) and file in self.fds and isinstance(self.fds[file], str):
            path, fd = self.fds[file], file
        else:
            path, fd = self.mine(file), None
        if path is None or self.dead:
            return self.real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in "wax+")
        self.step("open", path)
        if writing:
            self.begin(path)
            if "w" in mode or "x" in mode:
                self.dirty(path)
        if opener is not None and fd is None:
            fd = opener(file, os.O_WRONLY | os.O_CREAT | os.O_CLOEXEC if writing else os.O_RDONLY)
        raw = Raw(self, path, mode, fd)
        if buffering == 0:
            return raw
        f = (io.BufferedRandom if "+" in mode else io.BufferedWriter if writing else io.BufferedReader)(raw, 8192)
        if "b" not in mode:
            return io.TextIOWrapper(f, encoding, errors, newline)
        return f

    def os_open(self, path, flags, mode=0o777, **kw):
        p = self.mine(path)
        if p is None or self.dead or not flags & (os.O_WRONLY | os.O_RDWR):
            return self.real["os_open"](path, flags, mode, **kw)
        self.step("open", p)
        self.begin(p)
        fd = self.real["os_open"](path, flags, mode, **kw)
        self.fds[fd] = p
        return fd

    def os_write(self, fd, data):
        p = self.fds.get(fd)
        if isinstance(p, str):
            self.step("write", p)
            self.dirty(p)
        return self.real["os_write"](fd, data)

    def os_close(self, fd):
        if isinstance(self.fds.get(fd), str):
            self.fds.pop(fd)
        return self.real["os_close"](fd)

    def fsync(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        r = self.fds.get(fd)
        if r is not None and not self.dead:
            path = r if isinstance(r, str) else r.path
            self.step("fsync", path)
            if path in self.pending:
                self.pending[path][1] = True

    def replace(self, src, dst, **kw):
        a, b = self.mine(src), self.mine(dst)
        if a is None and b is None:
            return self.real["replace"](src, dst, **kw)
        if self.dead:
            return
        self.step("replace", b)
        self.begin(a)
        self.begin(b)
        self.real["replace"](src, dst, **kw)
        self.pending[b][1] = self.pending[a][1]
        if self.pending[a][0] is None:
            del self.pending[a]

    def remove(self, path, **kw):
        p = self.mine(path)
        if p is None:
            return self.real["remove"](path, **kw)
        if self.dead:
            return
        self.step("remove", p)
        self.begin(p)
        self.real["remove"](path, **kw)

    def __enter__(self):
        self.real = {"open": builtins.open, "os_open": os.open, "os_write": os.write, "os_close": os.close, "fsync": os.fsync, "fdatasync": os.fdatasync, "replace": os.replace, "rename": os.rename,
                     "remove": os.remove, "unlink": os.unlink}
        builtins.open = io.open = self.open
        os.open, os.write, os.close = self.os_open, self.os_write, self.os_close
        os.fsync = os.fdatasync = self.fsync
        os.replace = os.rename = self.replace
        os.remove = os.unlink = self.remove
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real["open"]
        os.open, os.write, os.close = self.real["os_open"], self.real["os_write"], self.real["os_close"]
        os.fsync, os.fdatasync = self.real["fsync"], self.real["fdatasync"]
        os.replace, os.rename, os.remove, os.unlink = self.real["replace"], self.real["rename"], self.real["remove"], self.real["unlink"]
