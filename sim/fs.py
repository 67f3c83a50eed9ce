"""A seam for file operations: faults, crashes and power losses under one scratch directory.

Files are real files of the scratch directory, so that every way to access them works, but each operation passes through
a ``Disk`` that counts it, may make it fail, and keeps the journal from which the state after a power loss is derived.
Paths outside the scratch directory are not touched.
"""
import builtins
import errno
import io
import os
import shutil
import stat as stat_module

CURRENT = None  # The active disk, if any.

_NAMES = ("open", "close", "write", "read", "fsync", "fdatasync", "replace", "rename", "unlink", "remove", "link",
          "symlink", "truncate", "ftruncate", "chmod", "fchmod", "stat", "lstat", "mkdir", "rmdir", "sync", "pwrite",
          "writev", "utime", "readlink", "scandir", "listdir", "access", "chown", "sendfile", "copy_file_range")
REAL = {name: getattr(os, name) for name in _NAMES if hasattr(os, name)}
real_open = io.open


class SimCrash(BaseException):
    """The simulated process dies here: nothing it does from now on has any effect."""


ERRORS = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "emfile": errno.EMFILE,
          "edquot": errno.EDQUOT, "erofs": errno.EROFS, "exdev": errno.EXDEV, "eperm": errno.EPERM,
          "estale": errno.ESTALE}

APPLICABLE = {
    "enospc": ("write", "open", "fsync", "close", "replace"),
    "eio": ("write", "open", "fsync", "close", "replace", "read"),
    "eacces": ("open", "replace"),
    "emfile": ("open",),
    "edquot": ("write", "fsync", "close"),
    "erofs": ("open", "replace", "unlink"),
    "eperm": ("chmod",),
    "estale": ("stat",),
    "unlink-eio": ("unlink",),
    "short": ("write",),
    "short-read": ("read",),
    "crash": None,
    "torn": ("write",),
    "interrupt": None,
    "memory": None,
}


class Disk:
    """The files under ``root``; use as a context manager while the library runs."""

    def __init__(self, root, faults=(), limit=None):
        self.root = os.path.realpath(root)
        self.prefix = self.root + os.sep
        self.faults = [dict(f) for f in faults]  # {"op": first index, "kind", "when": before|after, "n": bytes}
        self.limit = limit        # Bytes that can still be written, or None.
        self.ops = 0
        self.fired = []           # (operation index, operation, kind)
        self.trace = []
        self.dead = False
        self.generation = 0
        self.fds = {}
        self.observers = []
        self.in_observer = False
        self.error = {"interrupt": KeyboardInterrupt, "memory": MemoryError}
        self.snapshot()

    # -- activation
    def __enter__(self):
        global CURRENT
        self._previous, CURRENT = CURRENT, self
        return self

    def __exit__(self, *exc):
        global CURRENT
        CURRENT = self._previous
        return False

    def covers(self, path):
        if isinstance(path, int) or path is None:
            return False
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.path.abspath(path)
        return path == self.root or path.startswith(self.prefix)

    # -- the durable state
    def snapshot(self):
        """Everything that is in the directory now is durable."""
        self.names, self.files, self.current, self.meta, self.untracked = {}, {}, {}, [], False
        for directory, folders, files in os.walk(self.root):
            for name in files + folders:
                path = os.path.join(directory, name)
                info = REAL["lstat"](path)
                if stat_module.S_ISLNK(info.st_mode):
                    key = self.create(info.st_ino)
                    self.files[key]["link"] = REAL["readlink"](path)
                    self.names[path] = key
                elif stat_module.S_ISREG(info.st_mode):
                    key = self.create(info.st_ino)
                    with real_open(path, "rb") as file:
                        self.files[key]["synced"] = file.read()
                    self.names[path] = key
        self.durable_names = dict(self.names)

    def create(self, number):
        """Numbers of removed files are used again, so every file gets a key of its own."""
        key = self.current[number] = len(self.files)
        self.files[key] = {"synced": b"", "ops": [], "link": None}
        return key

    def inode(self, number):
        if number not in self.current:
            self.create(number)
        return self.files[self.current[number]]

    def record(self, event):
        self.meta.append(event)
        self._apply(self.names, event)

    @staticmethod
    def _apply(names, event):
        kind, path, other = event
        if kind == "link":
            names[path] = other
        elif kind == "unlink":
            names.pop(path, None)
        elif kind == "rename" and path in names:
            names[other] = names.pop(path)

    def synced(self, fd):
        info = os.fstat(fd)
        entry = self.inode(info.st_ino)
        if stat_module.S_ISREG(info.st_mode):
            entry["synced"], entry["ops"] = self.content(entry), []
        # A journaling file system commits the names together with it.
        self.durable_names, self.meta = dict(self.names), []

    @staticmethod
    def content(entry, count=None, torn=None):
        data = bytearray(entry["synced"])
        ops = entry["ops"] if count is None else entry["ops"][:count]
        for i, (kind, offset, payload) in enumerate(ops):
            if kind == "truncate":
                data = data[:offset] + bytes(max(0, offset - len(data)))
                continue
            if torn is not None and i == len(ops) - 1:
                payload = payload[:torn]
            if len(data) < offset:
                data += bytes(offset - len(data))
            data[offset:offset + len(payload)] = payload
        return bytes(data)

    def tracked(self):
        """Whether the journal explains what is in the directory."""
        if self.untracked:
            return False
        for path, key in self.names.items():
            entry = self.files[key]
            try:
                if entry["link"] is not None:
                    if REAL["readlink"](path) != entry["link"]:
                        return False
                    continue
                with real_open(path, "rb") as file:
                    if file.read() != self.content(entry):
                        return False
            except OSError:
                return False
        return True

    def power_loss(self, rng):
        """Replace the directory's files by what may be left of them."""
        names = dict(self.durable_names)
        for event in self.meta[:rng.randint(0, len(self.meta))]:
            self._apply(names, event)
        left = {}
        for path, key in sorted(names.items()):
            entry = self.files[key]
            count = rng.choice((0, len(entry["ops"]), rng.randint(0, len(entry["ops"]))))
            torn = rng.choice((None, 0, rng.randint(0, 64)))
            left[path] = self.content(entry, count, torn), entry["link"]
        for directory, folders, files in os.walk(self.root):
            for name in files + folders:
                path = os.path.join(directory, name)
                mode = REAL["lstat"](path).st_mode
                if stat_module.S_ISREG(mode) or stat_module.S_ISLNK(mode):
                    REAL["unlink"](path)
        for path, (data, link) in left.items():
            if link is not None:
                REAL["symlink"](link, path)
            else:
                with real_open(path, "wb") as file:
                    file.write(data)

    def restart(self, rng=None):
        """A new process starts; with ``rng``, after a power loss.  Returns whether that could be derived."""
        self.dead = False
        self.generation += 1
        self.fds.clear()  # The file objects of the dead process close their descriptors without flushing them.
        derived = True
        if rng is not None:
            derived = self.tracked()
            if derived:
                self.power_loss(rng)
        self.snapshot()
        return derived

    # -- operations
    def kill(self):
        self.dead = True
        return SimCrash()

    def begin(self, kind, label):
        if self.dead:
            raise SimCrash()
        index = self.ops
        self.ops += 1
        self.trace.append(f"{index} {kind} {label}")
        chosen = None
        for fault in self.faults:
            if fault["op"] <= index and self.applies(fault["kind"], kind):
                chosen = fault
                break
        if chosen is None:
            return None
        if chosen.get("repeat", 1) > 1:
            chosen["repeat"] -= 1
        else:
            self.faults.remove(chosen)
        self.fired.append((index, kind, chosen["kind"]))
        self.trace[-1] += f" <- {chosen['kind']} {chosen.get('when', '')}".rstrip()
        if chosen["kind"] in ("short", "torn", "short-read"):
            return chosen
        if chosen.get("when") == "after":
            return chosen
        self.strike(chosen)

    @staticmethod
    def applies(fault, kind):
        kinds = APPLICABLE[fault]
        return kind != "stat" if kinds is None else kind in kinds

    def strike(self, fault):
        kind = fault["kind"]
        if kind in ("crash", "torn"):
            raise self.kill()
        if kind in self.error:
            raise self.error[kind]()
        number = ERRORS[kind.split("-")[-1]]
        raise OSError(number, os.strerror(number))

    def end(self, fault=None):
        if self.observers and not self.in_observer:
            self.in_observer = True
            try:
                for observer in self.observers:
                    observer()
            finally:
                self.in_observer = False
        if fault is not None and fault["kind"] not in ("short", "short-read"):
            self.strike(fault)

    def canonical(self, path):
        previous, self.in_observer = self.in_observer, True
        try:
            head, tail = os.path.split(os.path.abspath(os.fspath(path)))
            return os.path.join(os.path.realpath(head), tail)
        finally:
            self.in_observer = previous

    def label(self, path):
        path = os.path.abspath(os.fsdecode(os.fspath(path)))
        name = os.path.relpath(path, self.root)
        return name if len(name) < 20 else "(long name)"

    def open_fd(self, path, flags, mode=0o777, dir_fd=None):
        fault = self.begin("open", f"{self.label(path)} {'w' if flags & (os.O_WRONLY | os.O_RDWR) else 'r'}")
        full = os.path.abspath(os.fspath(path))
        existed = os.path.lexists(full)
        fd = REAL["open"](path, flags, mode)
        info = os.fstat(fd)
        if stat_module.S_ISREG(info.st_mode):
            number = info.st_ino
            if flags & os.O_CREAT and not existed:
                self.record(("link", self.canonical(full), self.create(number)))
            elif flags & os.O_TRUNC:
                self.inode(number)["ops"].append(("truncate", 0, b""))
        self.fds[fd] = self.generation
        try:
            self.end(fault)
        except BaseException:
            self.fds.pop(fd, None)
            REAL["close"](fd)
            raise
        return fd

    def write_fd(self, fd, data, offset=None):
        data = bytes(data)
        fault = self.begin("write", len(data))
        if fault is not None and fault["kind"] in ("short", "torn"):
            data = data[:min(len(data), max(1 if fault["kind"] == "short" else 0, fault.get("n", 1)))]
        if self.limit is not None:
            if data and self.limit <= 0:
                self.fired.append((self.ops - 1, "write", "disk-full"))
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            data = data[:self.limit]
            self.limit -= len(data)
        info = os.fstat(fd)
        regular = stat_module.S_ISREG(info.st_mode)
        if regular and offset is None:
            import fcntl

            appends = fcntl.fcntl(fd, fcntl.F_GETFL) & os.O_APPEND
            offset_now = info.st_size if appends else os.lseek(fd, 0, os.SEEK_CUR)
        else:
            offset_now = offset
        count = REAL["write"](fd, data) if offset is None else REAL["pwrite"](fd, data, offset)
        if regular:
            self.inode(info.st_ino)["ops"].append(("write", offset_now, data[:count]))
        self.end(fault)
        return count

    def read_fault(self, label):
        return self.begin("read", label)


class SimRaw(io.FileIO):
    """The raw file under the library's buffered and text layers."""

    def __init__(self, disk, fd, mode, path):
        super().__init__(fd, mode, closefd=True)
        self.disk, self.generation = disk, disk.generation
        self.name = path

    def _stale(self):
        return self.generation != self.disk.generation or self.disk.dead

    def write(self, data):
        if self._stale():
            return len(data)  # A dead process flushes nothing.
        return self.disk.write_fd(self.fileno(), data)

    def readinto(self, buffer):
        fault = self.disk.read_fault(len(buffer))
        if fault is not None and fault["kind"] == "short-read":
            view = memoryview(buffer).cast("B")[:max(1, fault.get("n", 1))]
            count = super().readinto(view)
        else:
            count = super().readinto(buffer)
        self.disk.end(fault)
        return count

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        fault = self.disk.read_fault(size)
        if fault is not None and fault["kind"] == "short-read":
            size = min(size, max(1, fault.get("n", 1)))
        data = super().read(size)
        self.disk.end(fault)
        return data

    def readall(self):
        parts = []
        while True:
            part = self.read(8192)
            if not part:
                return b"".join(parts)
            parts.append(part)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self.fileno(), size)
        return size

    def close(self):
        if self.closed:
            return
        if self._stale():
            super().close()
            return
        try:
            fault = self.disk.begin("close", "")
        finally:
            # Even a close that fails gives the descriptor back.
            self.disk.fds.pop(self.fileno(), None)
            super().close()
        self.disk.end(fault)

    def __del__(self):
        if not self.closed:
            io.FileIO.close(self)


def _flags(mode):
    flags = os.O_CLOEXEC
    plus = "+" in mode
    if "r" in mode:
        flags |= os.O_RDWR if plus else os.O_RDONLY
    elif "w" in mode:
        flags |= (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    elif "x" in mode:
        flags |= (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
    elif "a" in mode:
        flags |= (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    return flags


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    disk = CURRENT
    mine = disk is not None and (file in disk.fds if isinstance(file, int) else disk.covers(file))
    if not mine or not closefd:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "")
    if isinstance(file, int):
        fd = file
    elif opener is not None:
        fd = opener(file, _flags(raw_mode))
        if fd not in disk.fds:
            disk.untracked = True
            disk.fds[fd] = disk.generation
    else:
        fd = disk.open_fd(file, _flags(raw_mode), 0o666)
    raw = SimRaw(disk, fd, raw_mode.replace("x", "w"), file)
    if binary and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in raw_mode:
        buffer = io.BufferedRandom(raw, size)
    elif "r" in raw_mode:
        buffer = io.BufferedReader(raw, size)
    else:
        buffer = io.BufferedWriter(raw, size)
    if binary:
        return buffer
    text = io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering=buffering == 1)
    text.mode = mode
    return text


def _hook(name):
    real = REAL[name]

    def by_path(kind, change=None):
        def hooked(path, *args, **kwargs):
            disk = CURRENT
            if disk is None or disk.in_observer or not disk.covers(path) or kwargs.get("dir_fd") is not None:
                return real(path, *args, **kwargs)
            fault = disk.begin(kind, disk.label(path))
            result = real(path, *args, **kwargs)
            if change is not None:
                change(disk, os.path.abspath(os.fspath(path)), *args)
            disk.end(fault)
            return result

        return hooked

    def by_fd(kind, change=None):
        def hooked(fd, *args, **kwargs):
            disk = CURRENT
            if disk is None or not isinstance(fd, int) or fd not in disk.fds:
                return real(fd, *args, **kwargs)
            fault = disk.begin(kind, "")
            result = real(fd, *args, **kwargs)
            if change is not None:
                change(disk, fd, *args)
            disk.end(fault)
            return result

        return hooked

    def renamed(disk, path, target, *args):
        disk.record(("rename", disk.canonical(path), disk.canonical(target)))

    def truncated(disk, fd, size):
        disk.inode(os.fstat(fd).st_ino)["ops"].append(("truncate", size, b""))

    def truncated_path(disk, path, size):
        disk.inode(os.stat(path).st_ino)["ops"].append(("truncate", size, b""))

    def linked(disk, path, target, *args):
        disk.record(("link", disk.canonical(target), disk.names.get(disk.canonical(path))))

    if name == "open":
        def hooked(path, flags, mode=0o777, *, dir_fd=None):
            disk = CURRENT
            if disk is None or disk.in_observer or dir_fd is not None or not disk.covers(path):
                return real(path, flags, mode, dir_fd=dir_fd)
            return disk.open_fd(path, flags, mode)
    elif name == "close":
        def hooked(fd):
            disk = CURRENT
            if disk is None or fd not in disk.fds:
                return real(fd)
            try:
                fault = disk.begin("close", "")
            finally:
                disk.fds.pop(fd, None)
                real(fd)
            disk.end(fault)
    elif name == "write":
        def hooked(fd, data):
            disk = CURRENT
            return real(fd, data) if disk is None or fd not in disk.fds else disk.write_fd(fd, data)
    elif name == "pwrite":
        def hooked(fd, data, offset):
            disk = CURRENT
            return real(fd, data, offset) if disk is None or fd not in disk.fds else disk.write_fd(fd, data, offset)
    elif name == "writev":
        def hooked(fd, buffers):
            disk = CURRENT
            if disk is None or fd not in disk.fds:
                return real(fd, buffers)
            return disk.write_fd(fd, b"".join(bytes(b) for b in buffers))
    elif name in ("sendfile", "copy_file_range"):
        def hooked(*args, **kwargs):
            disk = CURRENT
            if disk is not None and any(a in disk.fds for a in args[:2]):
                raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
            return real(*args, **kwargs)
    elif name == "read":
        return by_fd("read")
    elif name in ("fsync", "fdatasync"):
        return by_fd("fsync", lambda disk, fd: disk.synced(fd))
    elif name == "ftruncate":
        return by_fd("write", truncated)
    elif name == "fchmod":
        return by_fd("chmod")
    elif name in ("replace", "rename"):
        return by_path("replace", renamed)
    elif name in ("unlink", "remove"):
        return by_path("unlink", lambda disk, path: disk.record(("unlink", disk.canonical(path), None)))
    elif name == "link":
        return by_path("replace", linked)
    elif name == "truncate":
        return by_path("write", truncated_path)
    elif name in ("chmod", "chown", "utime"):
        return by_path("chmod")
    elif name in ("stat", "lstat", "access", "readlink", "scandir", "listdir"):
        return by_path("stat")
    elif name in ("mkdir", "rmdir", "symlink"):
        return by_path("replace")
    elif name == "sync":
        def hooked():
            if CURRENT is not None and not CURRENT.dead:
                for entry in CURRENT.files.values():
                    entry["synced"], entry["ops"] = CURRENT.content(entry), []
                CURRENT.durable_names, CURRENT.meta = dict(CURRENT.names), []
    else:
        return None
    return hooked


_installed = False


def install():
    """Put the seam in place; without an active disk everything is passed on."""
    global _installed
    if _installed:
        return
    _installed = True
    for name in REAL:
        hook = _hook(name)
        if hook is not None:
            hook.__name__ = name
            setattr(os, name, hook)
    io.open = sim_open
    builtins.open = sim_open
    for name in ("_USE_CP_SENDFILE", "_USE_CP_COPY_FILE_RANGE"):
        if hasattr(shutil, name):
            setattr(shutil, name, False)
    # Sets of functions that support arguments are looked up by identity.
    for name in ("supports_dir_fd", "supports_fd", "supports_follow_symlinks", "supports_effective_ids"):
        known = getattr(os, name)
        for function in list(known):
            if REAL.get(getattr(function, "__name__", "")) is function:
                known.add(getattr(os, function.__name__))
