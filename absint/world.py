"""Abstract environment: file system, archives, process state.

File names and contents are words over constants and opaque tokens (see values.py), so one world
stands for every concrete file system with the same shape.  Nothing here touches the real disk.
"""
import errno
import io
import os as _os
import pathlib
import posixpath
import tarfile as _tarfile
import gzip as _gzip
import zipfile as _zipfile

from .core import M, EngineError, Unmodelled


class InjectedFault(OSError):
    """An environment failure (disk full, device error) at one I/O call."""


class Node:
    __slots__ = ("kind", "data")

    def __init__(self, kind, data=b""):
        self.kind = kind
        self.data = bytearray(data)


class World:
    def __init__(self):
        self.nodes = {"/": Node("dir"), "/w": Node("dir"), "/tmp": Node("dir")}
        self.handles = []  # resources opened by analysed code
        self.events = []  # (kind, detail, site)
        self.environ = {}
        self.argv = ["prog"]
        self.cwd = "/w"
        self.faults = None  # predicate(op, path) -> bool: may this call fail?
        self.fault_used = None
        self.at_fault = None  # what the file system held when the call failed
        self.tmp = 0
        self.modules = {}
        self.stdout = io.StringIO()
        self.stderr = io.StringIO()
        self.optimized = False
        self.logging = {}
        self.set_order = 0  # which of the possible iteration orders sets of strings have
        self.links = 0  # number of symbolic links ever created

    # -- helpers
    def event(self, kind, *detail):
        self.events.append((kind, detail, M.path.site))

    def norm(self, p):
        p = _os.fspath(p)
        if isinstance(p, bytes):
            raise Unmodelled("bytes path")
        if "\0" in p:
            raise ValueError("embedded null byte")
        return posixpath.normpath(posixpath.join(self.cwd, p))

    def maybe_fault(self, op, path):
        if self.faults is not None and self.fault_used is None and self.faults(op, path):
            if M.choose("fault:%s:%s" % (op, path), 2) == 1:
                self.fault_used = (op, path, M.path.site)
                self.at_fault = {k: Node(n.kind, n.data) for k, n in self.nodes.items()}
                raise InjectedFault(errno.EIO, "injected fault in %s" % op, str(path))

    def loc(self, p, last=True):
        """Where `p` lives once symbolic links are followed (the last component only if `last`)."""
        if not self.links:
            return self.norm(p)
        p = _os.fspath(p)
        if "\0" in p:
            raise ValueError("embedded null byte")
        todo = [c for c in posixpath.join(self.cwd, p).split("/") if c not in ("", ".")]
        cur, hops = "", 0
        while todo:
            c = todo.pop(0)
            if c == "..":
                cur = posixpath.dirname(cur) if cur else ""
                cur = "" if cur == "/" else cur
                continue
            nxt = cur + "/" + c
            n = self.nodes.get(nxt)
            if n is not None and n.kind == "link" and (todo or last):
                hops += 1
                if hops > 40:
                    raise OSError(errno.ELOOP, "Too many levels of symbolic links", p)
                t = bytes(n.data).decode("utf-8")
                if t.startswith("/"):
                    cur = ""
                todo = [x for x in t.split("/") if x not in ("", ".")] + todo
                continue
            cur = nxt
        return cur or "/"

    def lget(self, p):
        """The node at `p` itself, a symbolic link not being followed."""
        return self.get(p, last=False)

    def add_link(self, p, target):
        p = self.norm(p)
        self.add_dir(posixpath.dirname(p))
        self.nodes[p] = Node("link", _os.fspath(target).encode("utf-8"))
        self.links += 1

    def add_special(self, p):
        """A named pipe, socket or device: it exists but is neither a file nor a directory."""
        p = self.norm(p)
        self.add_dir(posixpath.dirname(p))
        self.nodes[p] = Node("special")

    def symlink(self, target, p):
        q = self.loc(p, last=False)
        self.maybe_fault("symlink", q)
        if self.nodes.get(q) is not None:
            raise FileExistsError(errno.EEXIST, "File exists", q)
        self.need(posixpath.dirname(q))
        self.nodes[q] = Node("link", _os.fspath(target).encode("utf-8"))
        self.links += 1
        self.event("symlink", q)

    def islink(self, p):
        try:
            n = self.lget(p)
        except OSError:
            return False
        return n is not None and n.kind == "link"

    def get(self, p, last=True):
        p = self.loc(p, last)
        # every proper prefix must be a directory
        parts = p.split("/")
        for i in range(1, len(parts)):
            pre = "/".join(parts[:i]) or "/"
            n = self.nodes.get(pre)
            if n is None:
                return None
            if n.kind != "dir":
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", p)
        return self.nodes.get(p)

    def exists(self, p):
        try:
            return self.get(p) is not None
        except OSError:
            return False

    def isdir(self, p):
        try:
            n = self.get(p)
        except OSError:
            return False
        return n is not None and n.kind == "dir"

    def isfile(self, p):
        try:
            n = self.get(p)
        except OSError:
            return False
        return n is not None and n.kind == "file"

    def children(self, p):
        p = self.loc(p)
        pre = p if p.endswith("/") else p + "/"
        return sorted(k[len(pre):] for k in self.nodes if k.startswith(pre) and k != p and "/" not in k[len(pre):] and k[len(pre):])

    def listing(self, p):
        """As children, but the call to the environment which it stands for may fail."""
        self.maybe_fault("list", self.loc(p))
        return self.children(p)

    def need(self, p, last=True):
        n = self.get(p, last)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(p))
        return n

    # -- spec-side construction
    def add_dir(self, p):
        p = self.norm(p)
        parts = p.split("/")
        for i in range(2, len(parts) + 1):
            self.nodes.setdefault("/".join(parts[:i]), Node("dir"))

    def add_file(self, p, data):
        p = self.norm(p)
        self.add_dir(posixpath.dirname(p))
        if isinstance(data, str):
            data = data.encode("utf-8")
        self.nodes[p] = Node("file", data)

    def content(self, p):
        return bytes(self.nodes[self.norm(p)].data)

    def snapshot(self):
        return {k: (n.kind, bytes(n.data)) for k, n in self.nodes.items()}

    # -- operations with effects
    def mkdir(self, p, parents=False, exist_ok=False):
        q = self.loc(p, last=False)
        self.maybe_fault("mkdir", q)
        n = self.lget(q)
        if n is not None:
            if exist_ok and self.isdir(q):
                return
            raise FileExistsError(errno.EEXIST, "File exists", q)
        par = posixpath.dirname(q)
        pn = self.get(par)
        if pn is None:
            if not parents:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", q)
            self.mkdir(par, parents=True, exist_ok=True)
        elif pn.kind != "dir":
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", q)
        self.nodes[q] = Node("dir")
        self.event("mkdir", q)

    def unlink(self, p):
        q = self.loc(p, last=False)
        self.maybe_fault("unlink", q)
        n = self.need(q, last=False)
        if n.kind == "dir":
            raise IsADirectoryError(errno.EISDIR, "Is a directory", q)
        del self.nodes[q]
        self.event("unlink", q)

    def rmdir(self, p):
        q = self.loc(p, last=False)
        self.maybe_fault("rmdir", q)
        n = self.need(q, last=False)
        if n.kind != "dir":
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", q)
        if self.children(q):
            raise OSError(errno.ENOTEMPTY, "Directory not empty", q)
        del self.nodes[q]
        self.event("rmdir", q)

    def rmtree(self, p, ignore_errors=False, onerror=None, **kw):
        try:
            q = self.loc(p, last=False)
            self.maybe_fault("rmtree", q)
            n = self.need(q, last=False)
            if n.kind == "link":
                raise OSError("Cannot call rmtree on a symbolic link")
            if n.kind != "dir":
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", q)
        except OSError:
            if ignore_errors:
                return
            raise
        for k in [k for k in self.nodes if k == q or k.startswith(q + "/")]:
            del self.nodes[k]
        self.event("rmtree", q)

    def rename(self, a, b):
        a, b = self.loc(a, last=False), self.loc(b, last=False)
        self.maybe_fault("rename", a)
        self.need(a, last=False)
        if self.get(posixpath.dirname(b)) is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", b)
        for k in [k for k in self.nodes if k == a or k.startswith(a + "/")]:
            self.nodes[b + k[len(a):]] = self.nodes.pop(k)
        self.event("rename", a, b)

    # -- opening
    def raw(self, path, mode):
        q = self.loc(path)
        self.maybe_fault("open", q)
        n = self.get(q)
        kind = mode[0]
        if n is not None and n.kind == "dir":
            raise IsADirectoryError(errno.EISDIR, "Is a directory", q)
        if n is not None and n.kind == "special":
            raise Unmodelled("opening a special file")
        if kind == "r":
            if n is None:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
        else:
            if n is None:
                par = self.get(posixpath.dirname(q))
                if par is None:
                    raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
                if par.kind != "dir":
                    raise NotADirectoryError(errno.ENOTDIR, "Not a directory", str(path))
                n = self.nodes[q] = Node("file")
            elif kind == "x":
                raise FileExistsError(errno.EEXIST, "File exists", str(path))
            if kind == "w":
                n.data = bytearray()
            self.event("write-open", q, mode)
        return Raw(self, q, n, mode)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if isinstance(file, int):
            raise Unmodelled("open of a file descriptor")
        if not isinstance(file, (str, _os.PathLike)):
            raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(file).__name__)
        if not mode or set(mode) - set("rwxabt+") or sum(c in mode for c in "rwxa") != 1:
            raise ValueError("invalid mode: %r" % mode)
        text = "b" not in mode
        if not text and encoding is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        m = [c for c in mode if c in "rwxa"][0] + ("+" if "+" in mode else "")
        raw = self.raw(file, m)
        if "+" in m:
            buf = io.BufferedRandom(raw)
        elif m == "r":
            buf = io.BufferedReader(raw)
        else:
            buf = io.BufferedWriter(raw)
        raw.outer = buf
        h = Handle("file", raw.path, lambda: raw.closed, m)
        self.handles.append(h)
        h.keep = buf
        if not text:
            return buf
        enc = text_encoding(self, encoding, "open")
        w = io.TextIOWrapper(buf, encoding=enc, errors=errors, newline=newline)
        w.mode = mode
        h.keep = w
        self.event("text-open", raw.path, m, encoding, errors, newline)
        return w

    def leaked(self):
        return [h for h in self.handles if not h.closed()]


def text_encoding(world, encoding, where):
    if encoding is None or encoding == "locale":
        world.event("locale-encoding", where)
        return "utf-8"
    return encoding


class Handle:
    """Typestate of one resource opened by the analysed code."""

    def __init__(self, kind, name, closed, mode=""):
        self.kind, self.name, self.closed, self.mode = kind, name, closed, mode
        self.site = M.path.site
        self.keep = None

    def __repr__(self):
        return "%s %s (opened at %s:%s)" % ((self.kind, self.name) + tuple(self.site or ("?", 0)))


class Raw(io.RawIOBase):
    def __init__(self, world, path, node, mode):
        self.world, self.path, self.node, self.mode_ = world, path, node, mode
        self.pos = len(node.data) if mode[0] == "a" else 0
        self.name = path
        self.outer = None

    def readable(self):
        return "r" in self.mode_ or "+" in self.mode_

    def writable(self):
        return self.mode_[0] in "wxa" or "+" in self.mode_

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.node.data) + off
        return self.pos

    def tell(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self.pos

    def readinto(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.world.maybe_fault("read", self.path)
        d = self.node.data[self.pos:self.pos + len(b)]
        b[: len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.world.maybe_fault("write", self.path)
        b = bytes(b)
        if self.mode_[0] == "a":
            self.pos = len(self.node.data)
        if self.pos > len(self.node.data):
            self.node.data.extend(b"\0" * (self.pos - len(self.node.data)))
        self.node.data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.node.data[size:]
        return size


def W():
    return M.world


def partial(real):
    """__getattr__ of a model of `real`: what the real class has and the model lacks is not modelled, rather than absent."""
    def __getattr__(self, item):
        if hasattr(real, item) and not item.startswith("_"):
            raise Unmodelled("%s.%s" % (getattr(real, "__name__", "?"), item))
        raise AttributeError("%r object has no attribute %r" % (getattr(real, "__name__", "?"), item))
    return __getattr__


def partial_type(real):
    """The metaclass of a model of `real`: the same for attributes of the class itself."""
    class _Partial(type(real)):
        def __getattr__(cls, item):
            if hasattr(real, item) and not item.startswith("__"):
                raise Unmodelled("%s.%s" % (getattr(real, "__name__", "?"), item))
            raise AttributeError("type object %r has no attribute %r" % (getattr(real, "__name__", "?"), item))
    return _Partial


class AStat:
    def __init__(self, n):
        self.st_size = len(n.data)
        self.st_mode = {"dir": 0o40755, "file": 0o100644, "link": 0o120777, "special": 0o10644}[n.kind]

    __getattr__ = partial(_os.stat_result)


# ------------------------------------------------------------------ pathlib
class APath(pathlib.PurePosixPath, metaclass=partial_type(pathlib.PosixPath)):
    """Model of pathlib.Path over the abstract file system."""

    __getattr__ = partial(pathlib.PosixPath)

    def __repr__(self):
        return "PosixPath(%r)" % str(self)

    @classmethod
    def cwd(cls):
        return cls(W().cwd)

    @classmethod
    def home(cls):
        return cls("/home/user")

    def exists(self, **kw):
        return W().exists(self)

    def is_dir(self, **kw):
        return W().isdir(self)

    def is_file(self, **kw):
        return W().isfile(self)

    def is_fifo(self):
        n = W().get(self) if W().exists(self) else None
        return n is not None and n.kind == "special"

    def is_socket(self):
        return False

    is_block_device = is_char_device = is_socket

    def is_symlink(self):
        return W().islink(self)

    def readlink(self):
        n = W().need(self, last=False)
        if n.kind != "link":
            raise OSError(errno.EINVAL, "Invalid argument", str(self))
        return APath(bytes(n.data).decode("utf-8"))

    def symlink_to(self, target, target_is_directory=False):
        W().symlink(target, self)

    def expanduser(self):
        s = str(self)
        if s == "~" or s.startswith("~/"):
            return APath("/home/user" + s[1:])
        return self

    def absolute(self):
        return self if self.is_absolute() else APath(W().cwd) / self

    def resolve(self, strict=False):
        p = APath(W().loc(self))
        if strict and not p.exists():
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(self))
        return p

    def samefile(self, other):
        W().need(self), W().need(other)
        return W().loc(self) == W().loc(other)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        W().mkdir(self, parents, exist_ok)

    def rmdir(self):
        W().rmdir(self)

    def unlink(self, missing_ok=False):
        if missing_ok and not (self.exists() or self.is_symlink()):
            return
        W().unlink(self)

    def rename(self, target):
        W().rename(self, target)
        return APath(target)

    replace = rename

    def touch(self, mode=0o666, exist_ok=True):
        if self.exists():
            if not exist_ok:
                raise FileExistsError(errno.EEXIST, "File exists", str(self))
            return
        W().open(self, "w", encoding="utf-8").close()
        W().event("touch", W().norm(self))

    def iterdir(self):
        n = W().need(self)
        if n.kind != "dir":
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", str(self))
        for c in W().listing(self):
            yield self / c

    def _walk(self):
        for c in W().children(self):
            p = self / c
            yield p
            if p.is_dir() and not p.is_symlink():
                yield from p._walk()

    def walk(self, top_down=True, on_error=None, follow_symlinks=False):
        w = W()
        if not w.isdir(self):
            return
        names = w.children(self)
        dirs = [n for n in names if w.isdir(self / n) and (follow_symlinks or not w.islink(self / n))]
        files = [n for n in names if n not in dirs]
        if top_down:
            yield self, dirs, files
        for d in dirs:
            yield from (self / d).walk(top_down, on_error, follow_symlinks)
        if not top_down:
            yield self, dirs, files

    def glob(self, pattern):
        if "**" in pattern:
            if pattern.startswith("**/"):
                rest = pattern[3:]
                for p in self._walk():
                    if p.match(rest):
                        yield p
                return
            raise Unmodelled("glob pattern %r" % pattern)
        if "/" in pattern:
            raise Unmodelled("glob pattern %r" % pattern)
        for c in W().children(self):
            p = self / c
            if p.match(pattern):
                yield p

    def rglob(self, pattern):
        for p in self._walk():
            if p.match(pattern):
                yield p

    def stat(self, follow_symlinks=True):
        return AStat(W().need(self, last=follow_symlinks))

    def lstat(self):
        return self.stat(follow_symlinks=False)

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        return W().open(self, mode, buffering, encoding, errors, newline)

    def read_text(self, encoding=None, errors=None):
        with self.open("r", encoding=encoding, errors=errors) as f:
            return f.read()

    def read_bytes(self):
        with self.open("rb") as f:
            return f.read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        if not isinstance(data, str):
            raise TypeError("data must be str, not %s" % type(data).__name__)
        with self.open("w", encoding=encoding, errors=errors, newline=newline) as f:
            return f.write(data)

    def write_bytes(self, data):
        with self.open("wb") as f:
            return f.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# ------------------------------------------------------------------ archives
class AZipFile(_zipfile.ZipFile, metaclass=partial_type(_zipfile.ZipFile)):
    def __init__(self, file, mode="r", *args, **kw):
        self._a_fp = None
        self._a_open = False
        if isinstance(file, (str, _os.PathLike)):
            if mode not in ("r", "w", "x", "a"):
                raise ValueError("ZipFile requires mode 'r', 'w', 'x', or 'a'")
            w = W()
            if mode == "a":
                fp = w.open(file, "r+b" if w.exists(file) else "w+b")
            else:
                fp = w.open(file, {"r": "rb", "w": "w+b", "x": "x+b"}[mode])
            w.handles.pop()  # owned by the archive handle registered below
            self._a_fp = fp
            self.a_path = w.norm(file)
        else:
            self.a_path = getattr(file, "name", None)
        try:
            super().__init__(self._a_fp if self._a_fp is not None else file, mode, *args, **kw)
        except BaseException:
            if self._a_fp is not None:
                self._a_fp.close()
            raise
        if self._a_fp is not None:
            self.filename = _os.fspath(file)
        self._a_open = True
        h = Handle("zip", self.a_path, lambda: not self._a_open, mode)
        h.keep = (self, self._a_fp)
        W().handles.append(h)
        W().event("zip-open", self.a_path, mode)

    def close(self):
        try:
            super().close()
        finally:
            if self._a_open:
                W().event("zip-close", self.a_path)
            self._a_open = False
            if self._a_fp is not None:
                self._a_fp.close()

    def __del__(self):
        pass

    def open(self, name, mode="r", *a, **kw):
        W().maybe_fault("zip-member-open", self.a_path)
        f = super().open(name, mode, *a, **kw)
        h = Handle("zip-member", str(getattr(name, "filename", name)), lambda: f.closed, mode)
        h.keep = f
        W().handles.append(h)
        if mode == "r" and hasattr(f, "_read1"):
            inner = f._read1

            def read1(n):
                W().maybe_fault("zip-read", self.a_path)
                return inner(n)

            f._read1 = read1
        return f

    def writestr(self, info, data, *a, **kw):
        W().maybe_fault("zip-write", self.a_path)
        W().event("zip-write", self.a_path, getattr(info, "filename", info))
        return super().writestr(info, data, *a, **kw)

    def write(self, filename, arcname=None, *a, **kw):
        w = W()
        src = w.need(filename)
        w.maybe_fault("zip-write", self.a_path)
        if arcname is None:
            arcname = filename
        name = posixpath.normpath(str(arcname)).lstrip("/")
        zi = _zipfile.ZipInfo(name + ("/" if src.kind == "dir" else ""))
        super().writestr(zi, bytes(src.data))

    def extract(self, *a, **kw):
        raise Unmodelled("ZipFile.extract")

    extractall = extract


class AMember(io.RawIOBase):
    """The content of a tar member: reading it may fail."""

    def __init__(self, inner, path):
        self.inner, self.path = inner, path
        self.name = getattr(inner, "name", None)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self.inner.seek(*a)

    def tell(self):
        return self.inner.tell()

    def readinto(self, b):
        W().maybe_fault("tar-read", self.path)
        return self.inner.readinto(b)

    def close(self):
        super().close()
        self.inner.close()


class ATarFile(metaclass=partial_type(_tarfile.TarFile)):
    """Wrapper around the tar reader/writer on abstract file content."""

    def __init__(self, name=None, mode="r", fileobj=None, **kw):
        if mode not in ("r", "a", "w", "x"):
            raise ValueError("mode must be 'r', 'a', 'w' or 'x'")
        self._setup(name, mode + ":", fileobj, kw)

    def _setup(self, name, mode, fileobj, kw):
        w = W()
        first = mode[:1]
        self._fp = None
        if fileobj is None:
            if first not in ("r", "w", "x", "a"):
                raise ValueError("mode %r is not known" % (mode,))
            self._fp = fileobj = w.open(name, {"r": "rb", "w": "w+b", "x": "x+b", "a": "r+b"}[first])
            w.handles.pop()
        try:
            # r, r:*, r:gz ... are decided by the tar library on the abstract bytes
            self._t = _tarfile.open(fileobj=fileobj, mode=mode, **kw)
        except BaseException:
            if self._fp is not None:
                self._fp.close()
            raise
        self._open = True
        self.a_path = path = w.norm(name) if name is not None else None
        h = Handle("tar", path, lambda: not self._open, self._t.mode)
        h.keep = (self, fileobj)
        w.handles.append(h)

    def close(self):
        if self._open:
            self._open = False
            try:
                self._t.close()
            finally:
                if self._fp is not None:
                    self._fp.close()

    @property
    def closed(self):
        return not self._open

    def __enter__(self):
        self._t._check()
        return self

    def __exit__(self, t, v, tb):
        self.close()

    def __iter__(self):
        return iter(self._t)

    def extractfile(self, member):
        W().maybe_fault("tar-member-open", self.a_path)
        f = self._t.extractfile(member)
        return f if f is None else io.BufferedReader(AMember(f, self.a_path))

    def extract(self, member, path="", set_attrs=True, **kw):
        w = W()
        m = member if isinstance(member, _tarfile.TarInfo) else self._t.getmember(member)
        dest = posixpath.join(_os.fspath(path) or w.cwd, m.name)
        w.event("tar-extract", w.norm(dest))
        if m.isdir():
            w.add_dir(dest)
        elif m.isfile():
            w.mkdir(posixpath.dirname(w.norm(dest)), parents=True, exist_ok=True)
            if w.lget(dest) is not None and w.lget(dest).kind != "dir":
                w.unlink(dest)
            with w.open(dest, "wb") as f:
                f.write(self._t.extractfile(m).read())
        elif m.issym() and kw.get("filter") in (None, "fully_trusted"):
            w.mkdir(posixpath.dirname(w.norm(dest)), parents=True, exist_ok=True)
            if w.lget(dest) is not None:
                w.unlink(dest)
            w.symlink(m.linkname, dest)
        else:
            raise Unmodelled("extraction of a special tar member")

    def extractall(self, path=".", members=None, **kw):
        for m in members or self._t.getmembers():
            self.extract(m, path, **kw)

    def __getattr__(self, item):
        if item in ("add", "gettarinfo", "makefile", "makedir", "chown", "chmod", "utime") or item.startswith("_extract"):
            raise Unmodelled("TarFile.%s" % item)
        return getattr(self._t, item)


def tar_open(name=None, mode="r", fileobj=None, bufsize=10240, **kw):
    if name is None and fileobj is None:
        raise ValueError("nothing to open")
    t = ATarFile.__new__(ATarFile)
    t._setup(name, mode, fileobj, kw)
    return t


ATarFile.open = staticmethod(tar_open)


def gzip_open(filename, mode="rb", compresslevel=9, encoding=None, errors=None, newline=None):
    if "t" in mode:
        if "b" in mode:
            raise ValueError("Invalid mode: %r" % (mode,))
    elif encoding is not None or errors is not None or newline is not None:
        raise ValueError("Argument 'encoding' not supported in binary mode")
    w = W()
    m = mode.replace("t", "")
    g = AGzip(None if hasattr(filename, "read") or hasattr(filename, "write") else filename, m, compresslevel,
              filename if hasattr(filename, "read") or hasattr(filename, "write") else None)
    if "t" in mode:
        enc = text_encoding(w, encoding, "gzip.open")
        return io.TextIOWrapper(g, enc, errors, newline)
    return g


class AGzip(_gzip.GzipFile):
    def __init__(self, filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None):
        w = W()
        self._a_done, self._a_fp, m = False, None, mode
        if m and ("t" in m or "U" in m):
            raise ValueError("Invalid mode: %r" % (m,))
        if fileobj is None:
            if m is None:
                m = "rb"
            elif "b" not in m:
                m += "b"
            self._a_fp = fileobj = w.open(filename, m)
            w.handles.pop()
        super().__init__(fileobj=fileobj, mode=m, filename="", mtime=0)
        h = Handle("gzip", w.norm(filename) if filename is not None else None, lambda: self._a_done, m)
        h.keep = (self, fileobj)
        w.handles.append(h)

    def close(self):
        try:
            super().close()
        finally:
            self._a_done = True
            if self._a_fp is not None:
                self._a_fp.close()


def file_io(file, mode="r", closefd=True, opener=None):
    """io.FileIO"""
    if not isinstance(file, (str, _os.PathLike)) or opener is not None:
        raise Unmodelled("io.FileIO of a descriptor")
    if sum(c in mode for c in "rwxa") != 1 or set(mode) - set("rwxab+"):
        raise ValueError("invalid mode: %s" % mode)
    w = W()
    raw = w.raw(file, [c for c in mode if c in "rwxa"][0] + ("+" if "+" in mode else ""))
    h = Handle("file", raw.path, lambda: raw.closed, mode)
    h.keep = raw
    w.handles.append(h)
    return raw


def make_zip_bytes(members):
    """Spec-side helper: the bytes of a zip with the given (name, data) members."""
    b = io.BytesIO()
    with _zipfile.ZipFile(b, "w") as z:
        for n, d in members:
            z.writestr(n, d)
    return b.getvalue()


def read_zip_bytes(data):
    with _zipfile.ZipFile(io.BytesIO(data)) as z:
        return [(i.filename, z.read(i)) for i in z.infolist()]


def make_tgz_bytes(members, mode="w:gz"):
    b = io.BytesIO()
    with _tarfile.open(fileobj=b, mode=mode) as t:
        for n, kind, d in members:
            ti = _tarfile.TarInfo(n)
            if kind == "dir":
                ti.type = _tarfile.DIRTYPE
                t.addfile(ti)
            elif kind == "link":
                ti.type = _tarfile.SYMTYPE
                ti.linkname = d
                t.addfile(ti)
            else:
                ti.size = len(d)
                t.addfile(ti, io.BytesIO(d))
    return b.getvalue()


def make_gzip_bytes(data):
    return _gzip.compress(data, mtime=0)
