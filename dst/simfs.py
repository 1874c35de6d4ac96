"""A file system seam.  Python-level file operations on paths below `root` (a real scratch directory)
are passed through to the real file system one operation at a time, journaled in a shadow model that
knows what would survive a crash, and disturbed by the faults of the scenario.

Fault = {"op": k, "kind": K, ...}: acts at the k-th counted operation since arm():
  EIO / ENOSPC / EDQUOT / EACCES / EROFS / EMFILE   the operation fails with that errno (nothing happens)
  full      this write and every later one fails with ENOSPC; the first stores a prefix ("frac")
  short     this write/read transfers only a part (legal)
  shorts    every write/read transfers at most "n" bytes (legal)
  interrupt KeyboardInterrupt instead of the operation
  crash     the process is gone: this and all later operations do nothing ("torn" stores a prefix first)
"""
import builtins
import errno as E
import io
import os
import sys

from . import kernel

WRITE_OPS = ("open-w", "write", "truncate", "fsync", "close-w", "rename", "unlink", "link", "symlink", "mkdir", "rmdir", "chmod")


class SimCrash(BaseException):
    pass


class Inode:
    __slots__ = ("data", "durable", "synced", "id")

    def __init__(self, id, data=b"", durable=None):
        self.id = id
        self.data = bytearray(data)
        self.durable = durable      # bytes that certainly survive a power loss (None: nothing yet)
        self.synced = durable is not None and bytes(data) == durable


class SimFS:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.active = False
        self.faults = []
        self.count = 0
        self.kinds = []          # kinds of counted operations since arm()
        self.crashed = False
        self.full = False
        self.chunk = None
        self.fired = []
        self.fds = {}            # fd -> (Inode, path, writable)
        self.names = {}          # path -> Inode (volatile name space)
        self.dir_log = []        # pending name-space operations: ("link", path, inode) / ("unlink", path)
        self.disk_names = {}     # durable name space
        self.next_id = 0
        self.on_op = None        # called after every mutating operation
        self.unmodelled = []
        self._orig = {}
        self.stdout_fault = None

    # ------------------------------------------------------------------ install
    def __enter__(self):
        self._scan()
        o = self._orig
        for name in ("open", "close", "write", "pwrite", "read", "fsync", "fdatasync", "replace", "rename", "unlink", "remove", "link",
                     "symlink", "truncate", "ftruncate", "mkdir", "rmdir", "sendfile", "copy_file_range", "writev", "fdopen", "dup", "dup2"):
            if hasattr(os, name):
                o[name] = getattr(os, name)
        o["io.open"] = io.open
        o["builtins.open"] = builtins.open
        os.open = self.os_open
        os.close = self.os_close
        os.write = self.os_write
        os.read = self.os_read
        os.fsync = self.os_fsync
        os.fdatasync = self.os_fsync
        os.replace = lambda s, d, **k: self.os_rename(s, d, "replace", **k)
        os.rename = lambda s, d, **k: self.os_rename(s, d, "rename", **k)
        os.unlink = lambda p, **k: self.os_unlink(p, **k)
        os.remove = os.unlink
        os.link = lambda s, d, **k: self.os_link(s, d, **k)
        os.truncate = self.os_truncate
        os.ftruncate = self.os_ftruncate
        for n in ("pwrite", "writev"):
            setattr(os, n, self._unsupported(n))
        for n in ("sendfile", "copy_file_range"):
            if n in o:
                setattr(os, n, self._fastcopy(n))
        io.open = self.open
        builtins.open = self.open
        import shutil
        o["shutil"] = getattr(shutil, "_USE_CP_SENDFILE", None)
        shutil._USE_CP_SENDFILE = False
        import tempfile
        o["tempfile._io"] = getattr(tempfile, "_io", None)
        self.active = True
        return self

    def __exit__(self, *a):
        self.active = False
        o = self._orig
        for n, f in o.items():
            if n in ("io.open", "builtins.open", "shutil", "tempfile._io"):
                continue
            setattr(os, n, f)
        io.open = o["io.open"]
        builtins.open = o["builtins.open"]
        import shutil
        shutil._USE_CP_SENDFILE = o["shutil"]
        return False

    def _unsupported(self, n):
        f = self._orig[n]

        def g(fd, *a, **k):
            if fd in self.fds:
                self.unmodelled.append(n)
            return f(fd, *a, **k)
        return g

    def _fastcopy(self, n):
        f = self._orig[n]

        def g(a, b, *r, **k):
            if a in self.fds or b in self.fds:
                raise OSError(E.EINVAL, "not supported here")
            return f(a, b, *r, **k)
        return g

    def _scan(self):
        """everything already in the directory is durable"""
        for d, _, files in os.walk(self.root):
            for n in files:
                p = os.path.join(d, n)
                if os.path.islink(p):
                    continue
                with open(p, "rb") as f:
                    b = f.read()
                ino = Inode(self._id(), b, b)
                self.names[p] = ino
                self.disk_names[p] = ino

    def _id(self):
        self.next_id += 1
        return self.next_id

    # ------------------------------------------------------------------ faults
    def arm(self, faults):
        self.faults = sorted(faults, key=lambda f: f["op"])
        self.count = 0
        self.kinds = []
        self.full = False
        self.chunk = None
        for f in list(self.faults):
            if f["kind"] == "shorts":
                self.chunk = f["n"]
                self.faults.remove(f)
                self.fired.append(f)

    def disarm(self):
        self.arm([])

    def _mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        d = os.path.realpath(os.path.dirname(p))
        p = os.path.join(d, os.path.basename(p))
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    def _gate(self, kind, nbytes=None):
        """count an operation and apply faults; returns a fault that modifies the operation, or None"""
        if self.crashed:
            raise SimCrash()
        k = kernel.Kernel.current
        if k is not None and kernel.get_ident() in k.by_ident:
            k.point()
        self.count += 1
        self.kinds.append(kind)
        if self.full and kind in ("write", "open-w-new", "mkdir"):
            raise OSError(E.ENOSPC, os.strerror(E.ENOSPC))
        while self.faults and self.count >= self.faults[0]["op"]:
            f = self.faults.pop(0)
            kd = f["kind"]
            if not self._fits(kd, kind):
                # wait for the next operation it can act on
                f = dict(f, op=self.count + 1)
                self.faults.insert(0, f)
                break
            self.fired.append(dict(f, at=self.count, on=kind))
            if kd == "interrupt":
                raise KeyboardInterrupt("injected")
            if kd in ("EIO", "ENOSPC", "EDQUOT", "EACCES", "EROFS", "EMFILE", "EPERM", "EXDEV"):
                no = getattr(E, kd)
                raise OSError(no, os.strerror(no))
            return f
        return None

    @staticmethod
    def _fits(kd, kind):
        if kd in ("ENOSPC", "EDQUOT"):
            return kind in ("write", "open-w", "open-w-new", "fsync", "close-w", "rename", "mkdir")
        if kd in ("full", "short"):
            return kind in ("write", "read")
        if kd in ("EACCES", "EROFS", "EMFILE", "EPERM"):
            return kind in ("open-w", "open-w-new", "open-r", "rename", "unlink", "link", "mkdir")
        if kd == "EXDEV":
            return kind in ("rename", "link")
        if kd == "EIO":
            return kind not in ("open-w", "open-w-new")
        return True

    def _crash(self, f):
        self.crashed = True
        raise SimCrash()

    def _done(self, kind):
        if self.on_op is not None:
            self.on_op(kind)

    # ------------------------------------------------------------------ os level
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = None if dir_fd is not None or isinstance(path, int) else self._mine(path)
        if p is None:
            return self._orig["open"](path, flags, mode, dir_fd=dir_fd)
        writable = bool(flags & (os.O_WRONLY | os.O_RDWR))
        existed = os.path.exists(p)
        if os.path.isdir(p):
            fd = self._orig["open"](path, flags, mode)
            self.fds[fd] = ("dir", p, False)
            return fd
        kind = ("open-w" if existed else "open-w-new") if writable else "open-r"
        f = self._gate(kind)
        if f and f["kind"] == "crash":
            self._crash(f)
        fd = self._orig["open"](p, flags, mode)
        rp = os.path.realpath(p)
        ino = self.names.get(rp)
        if ino is None:
            ino = Inode(self._id())
            if existed:
                with self._orig["io.open"](rp, "rb") as fh:
                    b = fh.read()
                ino.data = bytearray(b)
                ino.durable = b
            self.names[rp] = ino
            self.dir_log.append(("link", rp, ino))
        if writable and flags & os.O_TRUNC and len(ino.data):
            ino.data = bytearray()
            ino.synced = False
        self.fds[fd] = (ino, rp, writable)
        if writable:
            self._done(kind)
        return fd

    def os_close(self, fd):
        if fd not in self.fds:
            return self._orig["close"](fd)
        ino, p, w = self.fds.pop(fd)
        if ino == "dir":
            return self._orig["close"](fd)
        if self.crashed:
            self._orig["close"](fd)
            raise SimCrash()
        try:
            f = self._gate("close-w" if w else "close-r")
        except BaseException:
            self._orig["close"](fd)      # the descriptor is released even when close reports an error
            raise
        self._orig["close"](fd)
        if f and f["kind"] == "crash":
            self._crash(f)
        if w:
            self._done("close")

    def os_write(self, fd, data):
        if fd not in self.fds:
            return self._orig["write"](fd, data)
        ino, p, w = self.fds[fd]
        b = bytes(data)
        f = self._gate("write", len(b))
        n = len(b) if self.chunk is None else min(len(b), self.chunk)
        crash = False
        if f:
            if f["kind"] == "crash":
                n = int(n * f.get("torn", 0.0))
                crash = True
            elif f["kind"] == "short":
                n = max(1, int(n * f.get("frac", 0.5))) if n else 0
            elif f["kind"] == "full":
                n = int(n * f.get("frac", 0.5))
                self.full = True
        if n:
            pos = os.lseek(fd, 0, os.SEEK_CUR)
            m = self._orig["write"](fd, b[:n])
            if len(ino.data) < pos:
                ino.data += bytes(pos - len(ino.data))
            ino.data[pos:pos + m] = b[:m]
            ino.synced = False
            self._done("write")
        else:
            m = 0
        if crash:
            self._crash(f)
        if f and f["kind"] == "full" and m == 0:
            raise OSError(E.ENOSPC, os.strerror(E.ENOSPC))
        return m

    def os_read(self, fd, n):
        if fd not in self.fds or self.fds[fd][0] == "dir":
            return self._orig["read"](fd, n)
        f = self._gate("read")
        if self.chunk is not None:
            n = min(n, self.chunk)
        if f and f["kind"] == "short":
            n = max(1, int(n * f.get("frac", 0.1)))
        elif f and f["kind"] == "crash":
            self._crash(f)
        return self._orig["read"](fd, n)

    def os_fsync(self, fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fd not in self.fds:
            return self._orig["fsync"](fd)
        ino, p, w = self.fds[fd]
        f = self._gate("fsync")
        if f and f["kind"] == "crash":
            self._crash(f)
        if ino == "dir":
            for op in self.dir_log:
                self._apply(self.disk_names, op)
            self.dir_log.clear()
        else:
            ino.durable = bytes(ino.data)
            ino.synced = True
        self._done("fsync")

    def os_rename(self, src, dst, how, *, src_dir_fd=None, dst_dir_fd=None):
        s, d = self._mine(src), self._mine(dst)
        if s is None and d is None or src_dir_fd is not None or dst_dir_fd is not None:
            return self._orig[how](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        f = self._gate("rename")
        if f and f["kind"] == "crash":
            self._crash(f)
        self._orig[how](src, dst)
        if s is None or d is None:
            self.unmodelled.append("rename across the root")
            return
        ino = self.names.pop(s, None)
        if ino is not None:
            self.names[d] = ino
            self.dir_log.append(("rename", s, d, ino))
        self._done("rename")

    def os_link(self, src, dst, **k):
        s, d = self._mine(src), self._mine(dst)
        if d is None:
            return self._orig["link"](src, dst, **k)
        f = self._gate("link")
        if f and f["kind"] == "crash":
            self._crash(f)
        self._orig["link"](src, dst, **k)
        ino = self.names.get(s)
        if ino is None:
            self.unmodelled.append("link")
            return
        self.names[d] = ino
        self.dir_log.append(("link", d, ino))
        self._done("link")

    def os_unlink(self, path, *, dir_fd=None):
        p = None if dir_fd is not None else self._mine(path)
        if p is None:
            return self._orig["unlink"](path, dir_fd=dir_fd)
        f = self._gate("unlink")
        if f and f["kind"] == "crash":
            self._crash(f)
        self._orig["unlink"](path)
        if self.names.pop(p, None) is not None:
            self.dir_log.append(("unlink", p))
        self._done("unlink")

    def os_truncate(self, path, length):
        p = None if isinstance(path, int) else self._mine(path)
        if p is None:
            if path in self.fds:
                return self.os_ftruncate(path, length)
            return self._orig["truncate"](path, length)
        fd = os.open(p, os.O_WRONLY)
        try:
            self.os_ftruncate(fd, length)
        finally:
            os.close(fd)

    def os_ftruncate(self, fd, length):
        if fd not in self.fds:
            return self._orig["ftruncate"](fd, length)
        ino, p, w = self.fds[fd]
        f = self._gate("truncate")
        if f and f["kind"] == "crash":
            self._crash(f)
        self._orig["ftruncate"](fd, length)
        if len(ino.data) > length:
            del ino.data[length:]
        else:
            ino.data += bytes(length - len(ino.data))
        ino.synced = False
        self._done("truncate")

    # ------------------------------------------------------------------ open()
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file not in self.fds:
                return self._orig["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            p = None
        else:
            p = self._mine(file)
            if p is None:
                return self._orig["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = set(mode)
        if m - set("axrwb+t") or len(mode) > len(m):
            raise ValueError(f"invalid mode: {mode!r}")
        upd, text, binary = "+" in m, "t" in m, "b" in m
        if sum(x in m for x in "axrw") != 1 or (text and binary):
            raise ValueError("must have exactly one of create/read/write/append mode")
        rd = "r" in m or upd
        wr = bool(m & set("axw")) or upd
        flags = os.O_RDWR if rd and wr else (os.O_WRONLY if wr else os.O_RDONLY)
        if "w" in m:
            flags |= os.O_CREAT | os.O_TRUNC
        if "x" in m:
            flags |= os.O_CREAT | os.O_EXCL
        if "a" in m:
            flags |= os.O_CREAT | os.O_APPEND
        flags |= getattr(os, "O_CLOEXEC", 0)
        if p is None:
            fd = file
        elif opener is not None:
            fd = opener(file, flags)
        else:
            fd = os.open(file, flags, 0o666)
        raw = SimRaw(self, fd, rd, wr, closefd, file)
        if "a" in m:
            os.lseek(fd, 0, os.SEEK_END)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line = buffering == 1
        size = 8192 if buffering < 2 else buffering
        if upd:
            buf = io.BufferedRandom(raw, size)
        elif wr:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=line)
        t.mode = mode
        return t

    # ------------------------------------------------------------------ crash images
    @staticmethod
    def _apply(ns, op):
        if op[0] == "link":
            ns[op[1]] = op[2]
        elif op[0] == "unlink":
            ns.pop(op[1], None)
        elif op[0] == "rename":
            ns.pop(op[1], None)
            ns[op[2]] = op[3]

    def kill_image(self):
        """what a new process sees after this one was killed: everything handed to the OS"""
        return {p: bytes(i.data) for p, i in self.names.items()}

    def power_image(self, rng):
        """one possible disk after a power loss: a prefix of the pending name-space operations, and for
        each unsynced file the last synced content, the latest content, or something in between"""
        ns = dict(self.disk_names)
        k = rng.randint(0, len(self.dir_log))
        for op in self.dir_log[:k]:
            self._apply(ns, op)
        out = {}
        for p, ino in sorted(ns.items(), key=lambda x: (x[1].id, x[0])):
            cur, dur = bytes(ino.data), ino.durable
            if ino.synced and dur is not None:
                out[p] = dur
                continue
            r = rng.random()
            if r < 0.3 and dur is not None:
                out[p] = dur
            elif r < 0.5:
                out[p] = b""
            elif r < 0.8:
                out[p] = cur[:rng.randint(0, len(cur))]
            elif r < 0.9:
                j = rng.randint(0, len(cur))
                out[p] = cur[:j] + bytes(len(cur) - j)
            else:
                out[p] = cur
        return out

    def verify_shadow(self):
        """does the shadow agree with the real directory?  (False: something bypassed the seam)"""
        real = {}
        for d, _, files in os.walk(self.root):
            for n in files:
                p = os.path.join(d, n)
                if os.path.islink(p):
                    continue
                with self._orig.get("io.open", io.open)(p, "rb") as f:
                    real[p] = f.read()
        return not self.unmodelled and real == self.kill_image()


class SimRaw(io.RawIOBase):
    def __init__(self, fs, fd, rd, wr, closefd, name):
        self._fs, self._fd, self._rd, self._wr, self._closefd = fs, fd, rd, wr, closefd
        self.name = name

    def readable(self):
        return self._rd

    def writable(self):
        return self._wr

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    @property
    def mode(self):
        return ("rb+" if self._wr else "rb") if self._rd else "wb"

    def readinto(self, b):
        d = os.read(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        return os.write(self._fd, b)

    def seek(self, off, whence=0):
        return os.lseek(self._fd, off, whence)

    def tell(self):
        return os.lseek(self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        os.ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                if self._closefd:
                    self._fs_close()
            finally:
                super().close()

    def _fs_close(self):
        fd, self._fd = self._fd, -1
        self._fs.os_close(fd)


class FailingStdout(io.TextIOBase):
    """an output stream that breaks after n characters"""

    def __init__(self, n, err=E.EPIPE):
        self.left, self.err, self.hits = n, err, 0

    def writable(self):
        return True

    def write(self, s):
        if len(s) > self.left:
            self.hits += 1
            raise OSError(self.err, os.strerror(self.err))
        self.left -= len(s)
        return len(s)

    def flush(self):
        pass
