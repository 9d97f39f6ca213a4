"""In-memory file system under simulator control.

Everything the code under test does to files goes through the functions patched in
here (builtins.open, io.open, os.*): nothing is ever written to the real disk.  The
model distinguishes what the operating system has been handed (survives the death of
a process) from what has reached stable storage (survives a power loss):

 * data written to a file lives in the page cache until fsync/sync;
 * directory changes (create, rename, unlink, mkdir, ...) go to an ordered journal that
   is committed by fsync of any file/directory or by sync; at a power loss an arbitrary
   prefix of the uncommitted journal survives;
 * at a power loss the unsynced content of a surviving file is, as the plan chooses, the
   old synced content, an empty file, a torn prefix of the new content, or all of it.
"""
import builtins
import errno
import io
import os
import stat as _stat

FD_BASE = 1 << 20

_real = {}


class Inode:
    __slots__ = ("ino", "kind", "data", "synced", "entries", "dentries", "nlink", "dev", "mtime", "mode")

    def __init__(self, ino, kind, dev=1, mode=0o644):
        self.ino = ino
        self.kind = kind          # 'f' or 'd'
        self.data = bytearray()
        self.synced = b""
        self.entries = {}         # name -> Inode   (in memory)
        self.dentries = {}        # name -> Inode   (durable)
        self.nlink = 1
        self.dev = dev
        self.mtime = 0.0
        self.mode = mode


class OpenFile:
    __slots__ = ("inode", "pos", "flags", "proc", "path", "closed", "dirlist", "err_next")

    def __init__(self, inode, flags, proc, path):
        self.inode = inode
        self.pos = 0
        self.flags = flags
        self.proc = proc
        self.path = path
        self.closed = False
        self.err_next = None


def _err(no, path=None, path2=None):
    cls = OSError(no, os.strerror(no), path) if path2 is None else OSError(no, os.strerror(no), path, None, path2)
    return cls


class SimFS:
    """The simulated disk. `kernel` is told about every operation (a scheduling and fault point)."""

    CWD = "/sim/work"

    def __init__(self, kernel):
        self.k = kernel
        self.next_ino = 2
        self.root = Inode(1, "d", mode=0o755)
        self.fds = {}
        self.next_fd = FD_BASE
        self.journal = []         # uncommitted metadata: (op, dir inode, name, inode)
        self.capacity = None      # bytes; None = unlimited
        self.mkdirs("/sim/work")
        self.mkdirs("/tmp", dev=2)
        self.commit()

    # ---- helpers used by the harness itself (never a fault point) -----------------
    def mkdirs(self, path, dev=None):
        cur = self.root
        for part in [p for p in path.split("/") if p]:
            nxt = cur.entries.get(part)
            if nxt is None:
                nxt = self.new_inode("d", dev or cur.dev)
                cur.entries[part] = nxt
                cur.dentries[part] = nxt
            cur = nxt
        return cur

    def put(self, path, data):
        path = self.absolute(path)
        d = self.mkdirs(os.path.dirname(path))
        f = self.new_inode("f", d.dev)
        f.data[:] = data
        f.synced = bytes(data)
        d.entries[os.path.basename(path)] = f
        d.dentries[os.path.basename(path)] = f

    def get(self, path):
        n = self.lookup(self.absolute(path))
        return None if n is None or n.kind != "f" else bytes(n.data)

    def exists(self, path):
        return self.lookup(self.absolute(path)) is not None

    def tree(self, path=None):
        """All files below the virtual working directory: {relative path: bytes}."""
        out = {}
        base = self.lookup(path or self.CWD)

        def walk(node, pre):
            for name in sorted(node.entries):
                ch = node.entries[name]
                if ch.kind == "d":
                    walk(ch, pre + name + "/")
                else:
                    out[pre + name] = bytes(ch.data)
        if base is not None:
            walk(base, "")
        return out

    def new_inode(self, kind, dev, mode=None):
        n = Inode(self.next_ino, kind, dev, mode if mode is not None else (0o755 if kind == "d" else 0o644))
        self.next_ino += 1
        n.mtime = self.k.wall() if self.k is not None else 0.0
        return n

    def absolute(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        if not path.startswith("/"):
            path = self.CWD + "/" + path
        return os.path.normpath(path)

    def is_virtual(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode()
        if not p.startswith("/"):
            return True
        p = os.path.normpath(p)
        return p == "/sim" or p.startswith("/sim/") or p == "/tmp" or p.startswith("/tmp/")

    def lookup(self, path):
        cur = self.root
        for part in [p for p in path.split("/") if p]:
            if cur.kind != "d":
                return None
            cur = cur.entries.get(part)
            if cur is None:
                return None
        return cur

    def _resolve_parent(self, path, shown):
        d, name = os.path.split(path)
        cur = self.root
        for part in [p for p in d.split("/") if p]:
            if cur.kind != "d":
                raise _err(errno.ENOTDIR, shown)
            cur = cur.entries.get(part)
            if cur is None:
                raise _err(errno.ENOENT, shown)
        if cur.kind != "d":
            raise _err(errno.ENOTDIR, shown)
        return cur, name

    # ---- durability -----------------------------------------------------------
    def _meta(self, op, d, name, inode):
        self.journal.append((op, d, name, inode))

    def commit(self, upto=None):
        n = len(self.journal) if upto is None else upto
        for ent in self.journal[:n]:
            op, d, name, inode = ent[:4]
            if op == "ren":
                d.dentries[name] = inode
                ent[4].dentries.pop(ent[5], None)
            elif op == "set":
                d.dentries[name] = inode
            else:
                d.dentries.pop(name, None)
        del self.journal[:n]

    def sync_all(self):
        self.commit()

        def walk(node):
            for ch in node.entries.values():
                if ch.kind == "f":
                    ch.synced = bytes(ch.data)
                else:
                    walk(ch)
        walk(self.root)

    def power_loss(self, choices):
        """choices: iterator of floats in [0,1) deciding what was still volatile."""
        it = iter(choices)

        def nxt():
            try:
                return next(it)
            except StopIteration:
                return 0.0
        self.commit(int(nxt() * (len(self.journal) + 1)))
        self.journal.clear()

        def walk(node):
            node.entries = dict(node.dentries)
            for name in sorted(node.entries):
                ch = node.entries[name]
                if ch.kind == "d":
                    walk(ch)
                elif bytes(ch.data) != ch.synced:
                    c = nxt()
                    full = bytes(ch.data)
                    if c < 0.3:
                        ch.data[:] = ch.synced
                    elif c < 0.5:
                        ch.data[:] = b""
                    elif c < 0.8:
                        ch.data[:] = full[: int(len(full) * nxt())]
                    ch.synced = bytes(ch.data)
        walk(self.root)
        self.fds.clear()

    def used(self):
        seen = 0

        def walk(node):
            nonlocal seen
            for ch in node.entries.values():
                if ch.kind == "f":
                    seen += len(ch.data)
                else:
                    walk(ch)
        walk(self.root)
        return seen

    on_mut = None

    def _mut(self, path, inode):
        """The content found under `path` has changed."""
        f = self.on_mut
        if f is not None:
            cur = self.lookup(path)
            f(path, None if cur is None or cur.kind != "f" else cur)

    # ---- system calls ------------------------------------------------------------
    def sys_open(self, path, flags, mode=0o644, dir_fd=None):
        p = self.absolute(path)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        creating = bool(flags & os.O_CREAT)
        writing = acc != os.O_RDONLY
        self.k.fs_point("open-w" if (creating or writing) else "open-r", p)
        parent, name = self._resolve_parent(p, path)
        node = self.lookup(p)
        if node is None:
            if not creating:
                raise _err(errno.ENOENT, path)
            if getattr(flags, "__int__", None) and flags & getattr(os, "O_TMPFILE", 0) == getattr(os, "O_TMPFILE", -1):
                raise _err(errno.EOPNOTSUPP, path)
            node = self.new_inode("f", parent.dev, mode & ~0o022)
            parent.entries[name] = node
            self._meta("set", parent, name, node)
            self._mut(p, node)
        else:
            if creating and flags & os.O_EXCL:
                raise _err(errno.EEXIST, path)
            if node.kind == "d":
                if writing or creating:
                    raise _err(errno.EISDIR, path)
            elif flags & getattr(os, "O_DIRECTORY", 0):
                raise _err(errno.ENOTDIR, path)
            if writing and flags & os.O_TRUNC and node.kind == "f":
                del node.data[:]
                self._mut(p, node)
        of = OpenFile(node, flags, self.k.current_proc(), p)
        if flags & os.O_APPEND:
            of.pos = len(node.data)
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = of
        self.k.fs_after("open", p)
        return fd

    def _of(self, fd):
        of = self.fds.get(fd)
        if of is None:
            raise _err(errno.EBADF)
        return of

    def sys_close(self, fd):
        of = self._of(fd)
        if of.proc is not None and of.proc.dead:
            self.fds.pop(fd, None)
            return
        del self.fds[fd]
        of.closed = True
        if of.flags & (os.O_WRONLY | os.O_RDWR):
            self.k.fs_point("close-w", of.path, of.proc)

    def sys_write(self, fd, data):
        of = self._of(fd)
        if of.proc is not None and of.proc.dead:
            return len(data)
        if not of.flags & (os.O_WRONLY | os.O_RDWR):
            raise _err(errno.EBADF)
        n = len(data)
        act = self.k.fs_point("write", of.path, of.proc, size=n)
        if of.err_next is not None:
            no, of.err_next = of.err_next, None
            raise _err(no, of.path)
        if of.proc is not None and of.proc.dead:
            return n
        crash_after = False
        if act is not None:
            kind, frac = act[0], act[1]
            if kind == "partial_err":
                # as in a real kernel: the call reports the bytes that reached the file, the next one the error
                n = int(n * frac)
                if n <= 0:
                    raise _err(act[2], of.path)
                of.err_next = act[2]
            if kind == "short":
                n = max(1, min(n, int(n * frac)))
            elif kind == "torn":
                n = int(n * frac)
                crash_after = True
        if self.capacity is not None:
            room = self.capacity - self.used()
            grow = max(0, of.pos + n - len(of.inode.data))
            if grow > room:
                n = n - (grow - max(0, room))
                if n <= 0:
                    self.k.count_fault("disk_full")
                    raise _err(errno.ENOSPC, of.path)
        if of.flags & os.O_APPEND:
            of.pos = len(of.inode.data)
        chunk = bytes(data[:n])
        buf = of.inode.data
        if of.pos > len(buf):
            buf.extend(b"\0" * (of.pos - len(buf)))
        buf[of.pos: of.pos + n] = chunk
        of.pos += n
        of.inode.mtime = self.k.wall()
        self._mut(of.path, of.inode)
        if crash_after:
            self.k.kill_current("torn write " + of.path, act[2])
        self.k.fs_after("write", of.path)
        return n

    def sys_read(self, fd, n):
        of = self._of(fd)
        if of.inode.kind == "d":
            raise _err(errno.EISDIR, of.path)
        self.k.fs_point("read", of.path, of.proc)
        out = bytes(of.inode.data[of.pos: of.pos + n])
        of.pos += len(out)
        return out

    def sys_lseek(self, fd, off, whence):
        of = self._of(fd)
        base = {0: 0, 1: of.pos, 2: len(of.inode.data)}[whence]
        if base + off < 0:
            raise _err(errno.EINVAL)
        of.pos = base + off
        return of.pos

    def sys_ftruncate(self, fd, n):
        of = self._of(fd)
        self.k.fs_point("truncate", of.path, of.proc)
        if of.proc is not None and of.proc.dead:
            return
        buf = of.inode.data
        if n < len(buf):
            del buf[n:]
        else:
            buf.extend(b"\0" * (n - len(buf)))
        self._mut(of.path, of.inode)

    def sys_fsync(self, fd):
        of = self._of(fd)
        self.k.fs_point("fsync", of.path, of.proc)
        if of.proc is not None and of.proc.dead:
            return
        if of.inode.kind == "f":
            of.inode.synced = bytes(of.inode.data)
        self.commit()
        self.k.fs_after("fsync", of.path)

    def sys_rename(self, src, dst, what="rename"):
        s, d = self.absolute(src), self.absolute(dst)
        self.k.fs_point("rename", d)
        sp, sn = self._resolve_parent(s, src)
        dp, dn = self._resolve_parent(d, dst)
        node = sp.entries.get(sn)
        if node is None:
            raise _err(errno.ENOENT, src, dst)
        if sp.dev != dp.dev:
            raise _err(errno.EXDEV, src, dst)
        old = dp.entries.get(dn)
        if old is node:
            return
        if old is not None:
            if old.kind == "d" and node.kind != "d":
                raise _err(errno.EISDIR, src, dst)
            if old.kind != "d" and node.kind == "d":
                raise _err(errno.ENOTDIR, src, dst)
            if old.kind == "d" and old.entries:
                raise _err(errno.ENOTEMPTY, src, dst)
        del sp.entries[sn]
        dp.entries[dn] = node
        # one atomic journal transaction
        self.journal.append(("ren", dp, dn, node, sp, sn))
        self._mut(d, node)
        self._mut(s, None)
        self.k.fs_after("rename", d)

    def sys_link(self, src, dst):
        s, d = self.absolute(src), self.absolute(dst)
        self.k.fs_point("link", d)
        sp, sn = self._resolve_parent(s, src)
        dp, dn = self._resolve_parent(d, dst)
        node = sp.entries.get(sn)
        if node is None:
            raise _err(errno.ENOENT, src, dst)
        if dn in dp.entries:
            raise _err(errno.EEXIST, src, dst)
        if sp.dev != dp.dev:
            raise _err(errno.EXDEV, src, dst)
        dp.entries[dn] = node
        self._meta("set", dp, dn, node)
        self._mut(d, node)

    def sys_unlink(self, path):
        p = self.absolute(path)
        self.k.fs_point("unlink", p)
        parent, name = self._resolve_parent(p, path)
        node = parent.entries.get(name)
        if node is None:
            raise _err(errno.ENOENT, path)
        if node.kind == "d":
            raise _err(errno.EISDIR, path)
        del parent.entries[name]
        self._meta("del", parent, name, None)
        self._mut(p, None)
        self.k.fs_after("unlink", p)

    def sys_mkdir(self, path, mode=0o777):
        p = self.absolute(path)
        self.k.fs_point("mkdir", p)
        parent, name = self._resolve_parent(p, path)
        if name in parent.entries or not name:
            raise _err(errno.EEXIST, path)
        node = self.new_inode("d", parent.dev)
        parent.entries[name] = node
        self._meta("set", parent, name, node)
        self.k.fs_after("mkdir", p)

    def sys_rmdir(self, path):
        p = self.absolute(path)
        self.k.fs_point("rmdir", p)
        parent, name = self._resolve_parent(p, path)
        node = parent.entries.get(name)
        if node is None:
            raise _err(errno.ENOENT, path)
        if node.kind != "d":
            raise _err(errno.ENOTDIR, path)
        if node.entries:
            raise _err(errno.ENOTEMPTY, path)
        del parent.entries[name]
        self._meta("del", parent, name, None)

    def sys_listdir(self, path):
        p = self.absolute(path)
        self.k.fs_point("readdir", p)
        node = self.lookup(p)
        if node is None:
            raise _err(errno.ENOENT, path)
        if node.kind != "d":
            raise _err(errno.ENOTDIR, path)
        return sorted(node.entries)

    def sys_stat(self, path):
        if isinstance(path, int):
            node = self._of(path).inode
        else:
            p = self.absolute(path)
            self.k.fs_point("stat", p)
            node = self.lookup(p)
            if node is None:
                # distinguish a path through a non-directory
                self._resolve_parent(p, path)
                raise _err(errno.ENOENT, path)
        m = (_stat.S_IFDIR if node.kind == "d" else _stat.S_IFREG) | node.mode
        ns = int(node.mtime * 1e9) // 4000000 * 4000000     # the kernel's time stamps have the granularity of its tick
        t = ns / 1e9
        extra = {"st_%s" % k: t for k in ("atime", "mtime", "ctime")}
        extra.update({"st_%s_ns" % k: ns for k in ("atime", "mtime", "ctime")})
        extra.update({"st_blksize": 4096, "st_blocks": (len(node.data) + 511) // 512})
        return os.stat_result((m, node.ino, node.dev, node.nlink, 0, 0, len(node.data), int(t), int(t), int(t)), extra)


class SimRaw(io.RawIOBase):
    """A raw file on the simulated disk; wrapped by the real Buffered*/TextIOWrapper classes."""

    def __init__(self, fs, fd, mode, name, closefd=True):
        self._fs = fs
        self._fd = fd
        self._mode = mode
        self.name = name
        self._closefd = closefd
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")

    @property
    def mode(self):
        return self._mode

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        data = self._fs.sys_read(self._fd, len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        return self._fs.sys_write(self._fd, memoryview(b).tobytes())

    def seek(self, off, whence=0):
        return self._fs.sys_lseek(self._fd, off, whence)

    def tell(self):
        return self._fs.sys_lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._fs.sys_ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd and self._fd in self._fs.fds:
                    self._fs.sys_close(self._fd)


def sim_open(fs, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    modes = set(mode)
    if modes - set("axrwb+tU") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    binary = "b" in modes
    creating, reading, writing, appending = "x" in modes, "r" in modes, "w" in modes, "a" in modes
    updating = "+" in modes
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of read/write/append mode")
    rawmode = mode.replace("b", "").replace("t", "")
    if isinstance(file, int):
        fd = file
        fs._of(fd)
        name = file
    else:
        flags = getattr(os, "O_CLOEXEC", 0)
        if updating:
            flags |= os.O_RDWR
        elif reading:
            flags |= os.O_RDONLY
        else:
            flags |= os.O_WRONLY
        if writing:
            flags |= os.O_CREAT | os.O_TRUNC
        if creating:
            flags |= os.O_CREAT | os.O_EXCL
        if appending:
            flags |= os.O_CREAT | os.O_APPEND
        if opener is not None:
            fd = opener(file, flags)
        else:
            fd = fs.sys_open(file, flags)
        name = file
    if fd not in fs.fds:
        return _real["io.open"](fd, mode, buffering, encoding, errors, newline, closefd)
    if fs.fds[fd].inode.kind == "d":
        fs.fds.pop(fd, None)
        raise _err(errno.EISDIR, file)
    raw = SimRaw(fs, fd, rawmode, name, closefd)
    if appending:
        raw.seek(0, 2)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    bs = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
    if updating:
        buf = io.BufferedRandom(raw, bs)
    elif reading:
        buf = io.BufferedReader(raw, bs)
    else:
        buf = io.BufferedWriter(raw, bs)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    text.mode = mode
    return text


class _DirEntry:
    def __init__(self, fs, base, name, node):
        self.name = name
        self.path = os.path.join(base, name)
        self._n = node
        self._fs = fs

    def is_dir(self, follow_symlinks=True):
        return self._n.kind == "d"

    def is_file(self, follow_symlinks=True):
        return self._n.kind == "f"

    def is_symlink(self):
        return False

    def inode(self):
        return self._n.ino

    def stat(self, follow_symlinks=True):
        return self._fs.sys_stat(self.path)

    def __fspath__(self):
        return self.path


class _Scan(list):
    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class HarnessEscape(Exception):
    """The code under test used a file-system feature the simulator does not model."""


def install(get_fs):
    """Patch the interpreter's file functions. get_fs() -> SimFS or None (pass through)."""
    r = _real
    r["io.open"] = io.open
    for name in ("open", "close", "read", "write", "fsync", "fdatasync", "replace", "rename", "link", "unlink", "remove",
                 "mkdir", "rmdir", "listdir", "scandir", "stat", "lstat", "access", "fstat", "ftruncate", "truncate", "lseek",
                 "getcwd", "chdir", "sync", "chmod", "fchmod", "utime", "symlink", "readlink", "isatty"):
        r[name] = getattr(os, name)

    def v(path):
        fs = get_fs()
        return fs if fs is not None and fs.is_virtual(path) else None

    def p_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        fs = get_fs()
        if fs is None:
            return r["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if fs.is_virtual(file):
            return sim_open(fs, file, mode, buffering, encoding, errors, newline, closefd, opener)
        if isinstance(mode, str) and any(c in mode for c in "wax+") and not isinstance(file, int):
            raise HarnessEscape("write access to %r outside the simulated disk" % (file,))
        return r["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)

    builtins.open = p_open
    io.open = p_open

    def p_os_open(path, flags, mode=0o777, *, dir_fd=None):
        fs = v(path)
        if fs is None:
            if get_fs() is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                raise HarnessEscape("write access to %r outside the simulated disk" % (path,))
            return r["open"](path, flags, mode, dir_fd=dir_fd)
        return fs.sys_open(path, flags, mode)
    os.open = p_os_open

    def fdfn(name, sim):
        def f(fd, *a, **kw):
            fs = get_fs()
            if fs is not None and isinstance(fd, int) and fd >= FD_BASE:
                return sim(fs, fd, *a)
            return r[name](fd, *a, **kw)
        setattr(os, name, f)
    fdfn("close", lambda fs, fd: fs.sys_close(fd))
    fdfn("read", lambda fs, fd, n: fs.sys_read(fd, n))
    fdfn("write", lambda fs, fd, b: fs.sys_write(fd, bytes(b)))
    fdfn("ftruncate", lambda fs, fd, n: fs.sys_ftruncate(fd, n))
    fdfn("lseek", lambda fs, fd, o, w: fs.sys_lseek(fd, o, w))
    fdfn("isatty", lambda fs, fd: False)
    fdfn("fchmod", lambda fs, fd, m: setattr(fs._of(fd).inode, "mode", m & 0o777))
    fdfn("fstat", lambda fs, fd: fs.sys_stat(fd))

    def mk_fsync(name):
        def f(fd):
            fs = get_fs()
            if fs is not None:
                n = fd if isinstance(fd, int) else fd.fileno()
                if n >= FD_BASE:
                    return fs.sys_fsync(n)
            return r[name](fd)
        setattr(os, name, f)
    mk_fsync("fsync")
    mk_fsync("fdatasync")

    def pathfn(name, sim, guard=True):
        def f(path=".", *a, **kw):
            fs = v(path)
            if fs is not None:
                kw.pop("dir_fd", None)
                kw.pop("follow_symlinks", None)
                return sim(fs, path, *a, **kw)
            if guard and get_fs() is not None:
                raise HarnessEscape("%s(%r) outside the simulated disk" % (name, path))
            return r[name](path, *a, **kw)
        setattr(os, name, f)
    pathfn("mkdir", lambda fs, p, mode=0o777: fs.sys_mkdir(p, mode))
    pathfn("rmdir", lambda fs, p: fs.sys_rmdir(p))
    pathfn("unlink", lambda fs, p: fs.sys_unlink(p))
    pathfn("remove", lambda fs, p: fs.sys_unlink(p))
    pathfn("chmod", lambda fs, p, m: None)
    pathfn("utime", lambda fs, p, *a, **k: None)

    def p_truncate(fs, p, n):
        fd = fs.sys_open(p, os.O_RDWR)
        fs.sys_ftruncate(fd, n)
        fs.sys_close(fd)
    pathfn("truncate", p_truncate)
    pathfn("stat", lambda fs, p: fs.sys_stat(p), guard=False)
    pathfn("lstat", lambda fs, p: fs.sys_stat(p), guard=False)
    pathfn("listdir", lambda fs, p: fs.sys_listdir(p), guard=False)

    def p_scandir(fs, p):
        names = fs.sys_listdir(p)
        node = fs.lookup(fs.absolute(p))
        return _Scan([_DirEntry(fs, os.fspath(p), n, node.entries[n]) for n in names])
    pathfn("scandir", p_scandir, guard=False)

    def p_access(fs, p, mode=0):
        try:
            fs.sys_stat(p)
            return True
        except OSError:
            return False
    pathfn("access", p_access, guard=False)

    def p_readlink(fs, p):
        fs.sys_stat(p)
        raise _err(errno.EINVAL, p)
    pathfn("readlink", p_readlink, guard=False)

    def two(name, sim):
        def f(src, dst, **kw):
            fs = v(src)
            if fs is not None and fs.is_virtual(dst):
                return sim(fs, src, dst)
            if get_fs() is not None:
                raise HarnessEscape("%s(%r, %r) outside the simulated disk" % (name, src, dst))
            return r[name](src, dst, **kw)
        setattr(os, name, f)
    two("replace", lambda fs, s, d: fs.sys_rename(s, d))
    two("rename", lambda fs, s, d: fs.sys_rename(s, d))
    two("link", lambda fs, s, d: fs.sys_link(s, d))

    def p_symlink(*a, **kw):
        if get_fs() is not None:
            raise HarnessEscape("symlink")
        return r["symlink"](*a, **kw)
    os.symlink = p_symlink

    def p_getcwd():
        fs = get_fs()
        return r["getcwd"]() if fs is None else fs.CWD
    os.getcwd = p_getcwd

    def p_sync():
        fs = get_fs()
        if fs is None:
            return r["sync"]()
        fs.k.fs_point("sync", "/")
        fs.sync_all()
    os.sync = p_sync

    import shutil
    shutil._USE_CP_SENDFILE = False
    import tempfile
    tempfile.tempdir = None
