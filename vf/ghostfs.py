"""
A file system as ghost state: the contract of the file operations the package
uses, for an unprivileged owner of the files.

{path: [content, mode]}; directories are a set of paths.  Any operation may
fail (`fail(op, path)` decides) before it has an effect; a failed write leaves
an arbitrary prefix.  Operations that are not specified here are unsupported.
"""
import errno

from . import core


PARTIAL = b"<cut short>"


class FS:
    def __init__(self, dirs=("/",), fail=lambda op, path: None,
                 on=lambda op, path: None):
        self.files = {}
        self.dirs = set(dirs)
        self.fail = fail
        self.on = on
        self.log = []

    def path(self, x):
        return GPath(self, str(x))

    def err(self, cls, no, p):
        return cls(no, "ghost", p)

    def step(self, op, p):
        self.log.append((op, p))
        self.on(op, p)
        self.fail(op, p)

    def need(self, p):
        if p in self.dirs:
            raise self.err(IsADirectoryError, errno.EISDIR, p)
        if p not in self.files:
            raise self.err(FileNotFoundError, errno.ENOENT, p)
        return self.files[p]

    def chmod(self, p, mode, **k):
        p = str(p)
        if mode:
            self.step("chmod", p)
        else:
            self.log.append(("chmod 0", p))
            self.on("chmod", p)
        self.need(p)[1] = mode

    def read(self, p):
        p = str(p)
        self.step("read", p)
        f = self.need(p)
        if not f[1] & 0o400:
            raise self.err(PermissionError, errno.EACCES, p)
        return f[0]

    def open_w(self, p, exclusive=False):
        p = str(p)
        self.step("open", p)
        if p in self.dirs:
            raise self.err(IsADirectoryError, errno.EISDIR, p)
        if p in self.files:
            if exclusive:
                raise self.err(FileExistsError, errno.EEXIST, p)
            if not self.files[p][1] & 0o200:
                raise self.err(PermissionError, errno.EACCES, p)
            self.files[p][0] = b""
        else:
            if p.rsplit("/", 1)[0] not in self.dirs:
                raise self.err(FileNotFoundError, errno.ENOENT, p)
            self.files[p] = [b"", 0o644]

    def write(self, p, data):
        f = self.files.get(str(p))
        self.log.append(("write", str(p)))
        self.on("write", str(p))
        try:
            self.fail("write", str(p))
        except OSError:
            if f is not None:
                f[0] = PARTIAL
            raise
        if f is not None:
            f[0] = data if f[0] == b"" else f[0] + data
        return core.blen_int(data) if isinstance(data, bytes) else 1

    def unlink(self, p):
        p = str(p)
        self.step("unlink", p)
        self.need(p)
        del self.files[p]

    def mkdir(self, p, *a, **k):
        p = str(p)
        self.step("mkdir", p)
        if p in self.dirs or p in self.files:
            raise self.err(FileExistsError, errno.EEXIST, p)
        self.dirs.add(p)

    def is_file(self, p):
        self.on("stat", str(p))
        return str(p) in self.files

    def is_dir(self, p):
        return str(p) in self.dirs

    # -- handles
    def open(self, p, mode="r", *a, **k):
        mode = mode.replace("+b", "b+")
        if mode not in ("rb", "wb", "xb", "wb+", "xb+"):
            raise core.Unsupported(f"ghost file system: open mode {mode}")
        if mode == "rb":
            data = self.read(p)
            return Handle(self, str(p), mode, data)
        self.open_w(p, mode[0] == "x")
        return Handle(self, str(p), mode, None)


class Handle:
    def __init__(self, fs, p, mode, data):
        self.fs, self.p, self.mode, self.data = fs, p, mode, data

    def read(self, n=-1):
        if self.mode != "rb" or n not in (-1, None):
            raise core.Unsupported("ghost file handle")
        d, self.data = self.data, b""
        return d

    def write(self, data):
        if self.mode == "rb":
            raise core.Unsupported("ghost file handle")
        return self.fs.write(self.p, data)

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


class AsyncHandle:
    """what aiofiles.open() returns: awaitable, or a context manager"""

    def __init__(self, fs, *a, **k):
        self.fs, self.a, self.k = fs, a, k
        self.h = None

    def __await__(self):
        async def go():
            self.h = self.fs.open(*self.a, **self.k)
            return self
        return go().__await__()

    async def __aenter__(self):
        self.h = self.fs.open(*self.a, **self.k)
        return self

    async def __aexit__(self, *_):
        return False

    async def read(self, *a):
        return self.h.read(*a)

    async def write(self, data):
        return self.h.write(data)

    async def flush(self):
        pass

    async def close(self):
        pass


class Aiofiles:
    def __init__(self, fs):
        self.fs = fs

    def open(self, *a, **k):
        return AsyncHandle(self.fs, *a, **k)

    def __getattr__(self, name):
        raise core.Unsupported(f"ghost file system: aiofiles.{name}")


class AOS:
    def __init__(self, fs):
        self.fs = fs

    async def chmod(self, p, mode, **k):
        self.fs.chmod(p, mode)

    async def remove(self, p):
        self.fs.unlink(p)

    async def mkdir(self, p, *a, **k):
        self.fs.mkdir(p)

    def __getattr__(self, name):
        raise core.Unsupported(f"ghost file system: aos.{name}")


class GPath:
    """a path in the ghost file system"""
    __slots__ = ("_fs", "_s")

    def __init__(self, fs, s):
        self._fs, self._s = fs, s

    def __str__(self):
        return self._s

    def __truediv__(self, o):
        return GPath(self._fs, f"{self._s}/{o}")

    def __eq__(self, o):
        return isinstance(o, GPath) and o._s == self._s

    def __hash__(self):
        return hash(self._s)

    def __repr__(self):
        return f"GPath({self._s!r})"

    @property
    def parent(self):
        return GPath(self._fs, self._s.rsplit("/", 1)[0])

    @property
    def name(self):
        return self._s.rsplit("/", 1)[1]

    def absolute(self):
        return GPath(self._fs, self._s)

    resolve = absolute

    def chmod(self, mode, **k):
        self._fs.chmod(self, mode)

    def read_bytes(self):
        return self._fs.read(self)

    def write_bytes(self, data):
        self._fs.open_w(self)
        return self._fs.write(self, data)

    def open(self, *a, **k):
        return self._fs.open(self, *a, **k)

    def unlink(self, missing_ok=False):
        if missing_ok and str(self) not in self._fs.files:
            self._fs.step("unlink", str(self))
            return
        self._fs.unlink(self)

    def mkdir(self, *a, **k):
        self._fs.mkdir(self)

    def is_file(self):
        return self._fs.is_file(self)

    def is_dir(self):
        return self._fs.is_dir(self)

    def exists(self):
        return self._fs.is_file(self) or self._fs.is_dir(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise core.Unsupported(f"ghost file system: Path.{name}")

    def __fspath__(self):
        raise core.Unsupported("ghost file system: path leaves it")
