"""Module loader and models of the environment modules the analysed program imports."""
import argparse as _argparse
import ast
import builtins as _builtins
import copy
import fnmatch as _fnmatch
import functools as _functools
import hashlib
import importlib as _importlib
import importlib.util as _iu
import inspect as _inspect
import io as _io
import itertools
import os as _os
import posixpath
import sys as _sys
import types

from . import interp, world
from .core import M, EngineError, Unmodelled, has_token
from .world import W

REPO = _os.environ.get("ABSINT_REPO", "/repo")
VENV = "/opt/venv/lib/python3.12/site-packages"

PURE = {
    "__future__", "abc", "typing", "typing_extensions", "enum", "attr", "attr.validators", "attr.converters",
    "collections", "collections.abc", "itertools", "functools", "operator", "math", "bisect", "heapq", "re",
    "string", "textwrap", "datetime", "contextlib", "copy", "dataclasses", "types", "numbers", "warnings",
    "immutablecollections", "immutablecollections.converter_utils", "sortedcontainers", "yaml", "statistics",
    "fractions", "decimal", "json", "struct", "hashlib", "base64", "traceback", "keyword", "posixpath", "errno",
    "array", "weakref", "numbers", "time", "stat", "ast", "csv", "fnmatch", "unicodedata", "pprint", "shlex", "zlib",
    "binascii", "queue", "threading", "contextvars", "graphlib", "urllib.parse", "reprlib", "difflib", "locale",
    "calendar", "uuid", "codeop", "token", "html", "cmath", "sre_constants", "colorsys", "ntpath", "concurrent",
}


class StubModule(types.ModuleType):
    def __getattr__(self, item):
        if item.startswith("__") and item.endswith("__"):
            raise AttributeError(item)
        raise Unmodelled("%s.%s" % (self.__name__, item))


def stub(modname_, **attrs):
    m = StubModule(modname_)
    m.__dict__.update(attrs)
    return m


# ----------------------------------------------------------------- builtins
from .values import AFrozenSet, ASet, LinInt  # noqa: E402


def a_len(x):
    if hasattr(x, "__abslen__"):
        return x.__abslen__()
    if type(x) is str and has_token(x):
        from .values import str_len
        return str_len(x)
    f = getattr(type(x), "__len__", None)
    if hasattr(f, "__interp__"):
        n = f(x)
        if type(n) is LinInt:
            if n < 0:
                raise ValueError("__len__() should return >= 0")
            return n
        return [].__len__() + n if isinstance(n, int) and n >= 0 else len(x)
    return len(x)


def a_open(*a, **kw):
    return W().open(*a, **kw)


def a_print(*args, sep=" ", end="\n", file=None, flush=False):
    text = (sep if sep is not None else " ").join(str(a) for a in args) + (end if end is not None else "\n")
    if file is None:
        W().event("print", text)
        W().stdout.write(text)
    else:
        file.write(text)


def a_eval(expr, globals=None, locals=None):
    if not isinstance(expr, str):
        raise TypeError("eval() arg 1 must be a string, bytes or code object")
    W().event("eval", expr)
    g = globals if globals is not None else {}
    tree = ast.parse(expr.strip(), mode="eval")
    comp = interp.Compiler("<eval>", "<eval>", BUILTINS)
    sc = interp.Scope("module", None, "<eval>")
    if isinstance(g, dict):
        g.setdefault("__builtins__", BUILTINS)  # as the real one does
    ns = g
    if locals is not None and locals is not g:
        ns = dict(g)
        ns.update(locals)
    if "__builtins__" in ns:
        b = ns["__builtins__"]
        comp.builtins = b if isinstance(b, dict) else (BUILTINS if b is None else vars(b))
    return comp.expr(tree.body, sc)(interp.Frame(ns, ns, None, "<eval>", "<eval>"))


def unmod(name):
    def f(*a, **kw):
        raise Unmodelled(name)

    f.__name__ = name
    return f


def a_vars(o):
    return vars(o)


BUILTINS = {k: v for k, v in vars(_builtins).items() if not k.startswith("_") and k not in (
    "open", "eval", "exec", "compile", "input", "exit", "quit", "print", "help", "breakpoint", "copyright",
    "credits", "license", "memoryview")}
BUILTINS.update({
    "len": a_len, "open": a_open, "print": a_print, "eval": a_eval, "exec": unmod("exec"), "input": unmod("input"),
    "compile": unmod("compile"), "set": ASet, "frozenset": AFrozenSet, "__import__": lambda name, *a, **k: LOADER.load(name),
    "__build_class__": None, "__debug__": True, "__name__": "builtins",
})


# ------------------------------------------------------------------ logging
_reallogging = _importlib.import_module("logging")


class ALogger(metaclass=world.partial_type(_reallogging.Logger)):
    __getattr__ = world.partial(_reallogging.Logger)

    def __init__(self, name):
        self.name = name

    def _st(self):
        return W().logging.setdefault(self.name, {"level": 30 if self.name == "root" else 0, "handlers": [], "propagate": True,
                                                     "filters": [], "disabled": False})

    @property
    def filters(self):
        return self._st()["filters"]

    @property
    def disabled(self):
        return self._st()["disabled"]

    @disabled.setter
    def disabled(self, v):
        self._st()["disabled"] = v

    def addFilter(self, f):
        self._st()["filters"].append(f)

    def removeFilter(self, f):
        if f in self._st()["filters"]:
            self._st()["filters"].remove(f)

    @property
    def parent(self):
        return None if self.name == "root" else a_get_logger(self.name.rpartition(".")[0])

    @property
    def root(self):
        return a_get_logger()

    def getChild(self, suffix):
        return a_get_logger(suffix if self.name == "root" else self.name + "." + suffix)

    @property
    def level(self):
        return self._st()["level"]

    @property
    def handlers(self):
        return self._st()["handlers"]

    @property
    def propagate(self):
        return self._st()["propagate"]

    @propagate.setter
    def propagate(self, v):
        self._st()["propagate"] = v

    def setLevel(self, level):
        self._st()["level"] = _check_level(level)
        W().event("log-level", self.name, self._st()["level"])

    def addHandler(self, h):
        self._st()["handlers"].append(h)
        W().event("log-handler", self.name, h)

    def removeHandler(self, h):
        if h in self._st()["handlers"]:
            self._st()["handlers"].remove(h)

    def _rec(self, level, msg, args):
        if args:
            if len(args) == 1 and isinstance(args[0], dict):
                args = args[0]
            try:
                msg = str(msg) % args
            except EngineError:
                raise
            except Exception:
                pass  # logging swallows formatting errors
        W().event("log", level, str(msg))

    def isEnabledFor(self, level):
        return True

    def getEffectiveLevel(self):
        return self.level if self.level or self.name == "root" else self.parent.getEffectiveLevel()

    def hasHandlers(self):
        return bool(self.handlers or (self.name != "root" and self.propagate and self.parent.hasHandlers()))

    def debug(self, m, *a, **k):
        self._rec("DEBUG", m, a)

    def info(self, m, *a, **k):
        self._rec("INFO", m, a)

    def warning(self, m, *a, **k):
        self._rec("WARNING", m, a)

    warn = warning

    def error(self, m, *a, **k):
        self._rec("ERROR", m, a)

    def exception(self, m, *a, **k):
        self._rec("ERROR", m, a)

    def critical(self, m, *a, **k):
        self._rec("CRITICAL", m, a)

    def log(self, lvl, m, *a, **k):
        self._rec(lvl, m, a)


_LEVELS = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARNING": 30, "WARN": 30, "INFO": 20, "DEBUG": 10, "NOTSET": 0}


def _check_level(level):
    if isinstance(level, int):
        return level
    if isinstance(level, str):
        if level not in _LEVELS:
            raise ValueError("Unknown level: %r" % level)
        return _LEVELS[level]
    raise TypeError("Level not an integer or a valid string: %r" % (level,))


_loggers = {}


def a_get_logger(name=None):
    name = name or "root"
    return _loggers.setdefault(name, ALogger(name))


class AHandler(metaclass=world.partial_type(_reallogging.StreamHandler)):
    __getattr__ = world.partial(_reallogging.StreamHandler)
    kind = "Handler"

    def __init__(self, *a, **kw):
        self.args, self.kw = a, kw
        self.formatter = None
        self.level = 0

    def setFormatter(self, f):
        self.formatter = f

    def setLevel(self, level):
        self.level = _check_level(level)

    def addFilter(self, f):
        pass


class AStreamHandler(AHandler):
    kind = "StreamHandler"

    def __init__(self, stream=None):
        super().__init__()
        self.stream = stream


class ANullHandler(AHandler):
    kind = "NullHandler"


class AFileHandler(AStreamHandler):
    kind = "FileHandler"

    def __init__(self, filename, mode="a", encoding=None, delay=False, errors=None):
        super().__init__(None if delay else W().open(filename, mode, encoding=encoding, errors=errors))
        self.filename = filename

    def close(self):
        if self.stream is not None:
            self.stream.close()


class ALoggerAdapter(metaclass=world.partial_type(_reallogging.LoggerAdapter)):
    __getattr__ = world.partial(_reallogging.LoggerAdapter)

    def __init__(self, logger, extra=None, *a, **kw):
        self.logger, self.extra = logger, extra

    def _via(name):
        def f(self, *a, **kw):
            return getattr(self.logger, name)(*a, **kw)
        return f

    for _n in ("debug", "info", "warning", "error", "exception", "critical", "log", "setLevel", "isEnabledFor", "getEffectiveLevel", "hasHandlers"):
        locals()[_n] = _via(_n)
    del _n, _via


class AFormatter(metaclass=world.partial_type(_reallogging.Formatter)):
    __getattr__ = world.partial(_reallogging.Formatter)

    def __init__(self, fmt=None, datefmt=None, style="%", **kw):
        self._fmt, self.datefmt, self.style = fmt, datefmt, style


def a_basic_config(**kw):
    W().event("basicConfig", dict(kw))
    root = a_get_logger()
    if root.handlers and not kw.get("force"):
        return
    h = AStreamHandler(kw.get("stream"))
    h.setFormatter(AFormatter(kw.get("format"), kw.get("datefmt"), kw.get("style", "%")))
    root.addHandler(h)
    if kw.get("level") is not None:
        root.setLevel(kw["level"])


_logging_config = stub("logging.config",
                       fileConfig=lambda fname, *a, **k: W().event("fileConfig", fname, a, k),
                       dictConfig=lambda cfg: W().event("dictConfig", cfg))
_rootlog = a_get_logger()
_logging = stub("logging", getLogger=a_get_logger, Logger=ALogger, Handler=AHandler, StreamHandler=AStreamHandler,
                Formatter=AFormatter, basicConfig=a_basic_config, config=_logging_config, NullHandler=ANullHandler,
                FileHandler=AFileHandler, LoggerAdapter=ALoggerAdapter, root=a_get_logger(), raiseExceptions=True,
                disable=lambda level=50: W().logging.setdefault("disable", {}).update(level=level),
                captureWarnings=lambda capture: W().logging.setdefault("captureWarnings", {}).update(on=capture),
                addLevelName=lambda level, name: W().logging.setdefault("levels", {}).update({level: name}),
                getLoggerClass=lambda: ALogger, getLevelNamesMapping=lambda: dict(_LEVELS),
                getLevelName=lambda l: {v: k for k, v in _LEVELS.items()}.get(l, _LEVELS.get(l, "Level %s" % l)),
                **_LEVELS)
for _n in ("debug", "info", "warning", "warn", "error", "exception", "critical"):
    setattr(_logging, _n, getattr(_rootlog, _n))
_logging.log = _rootlog.log


# ----------------------------------------------------------------------- os
class _Environ(_importlib.import_module("collections").abc.MutableMapping):
    """os.environ of the abstract world."""

    @staticmethod
    def _str(x):
        if not isinstance(x, str):
            raise TypeError("str expected, not %s" % type(x).__name__)
        return x

    def __getitem__(self, k):
        return W().environ[self._str(k)]

    def __setitem__(self, k, v):
        W().environ[self._str(k)] = self._str(v)

    def __delitem__(self, k):
        del W().environ[self._str(k)]

    def __iter__(self):
        return iter(list(W().environ))

    def __len__(self):
        return len(W().environ)

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return self[k]

    def copy(self):
        return dict(W().environ)

    def __or__(self, other):
        return {**W().environ, **dict(other)}


def _walk(top, topdown=True, onerror=None, followlinks=False):
    w = W()
    if not w.isdir(top):
        return
    names = w.children(top)
    dirs = [n for n in names if w.isdir(posixpath.join(str(top), n))]
    files = [n for n in names if n not in dirs]
    if topdown:
        yield str(top), dirs, files
    for d in dirs:
        if followlinks or not w.islink(posixpath.join(str(top), d)):
            yield from _walk(posixpath.join(str(top), d), topdown, followlinks=followlinks)
    if not topdown:
        yield str(top), dirs, files


class _DirEntry:
    __getattr__ = world.partial(_os.DirEntry)

    def __init__(self, parent, name):
        self.name, self.path = name, posixpath.join(_os.fspath(parent), name)
        self._p = world.APath(self.path)

    def __fspath__(self):
        return self.path

    def is_dir(self, *, follow_symlinks=True):
        return self._p.is_dir() and (follow_symlinks or not self._p.is_symlink())

    def is_file(self, *, follow_symlinks=True):
        return self._p.is_file() and (follow_symlinks or not self._p.is_symlink())

    def is_symlink(self):
        return self._p.is_symlink()

    def stat(self, *, follow_symlinks=True):
        return self._p.stat(follow_symlinks=follow_symlinks)


class _Scan:
    def __init__(self, p):
        if W().need(p).kind != "dir":
            raise NotADirectoryError(20, "Not a directory", str(p))
        self._it = iter([_DirEntry(p, c) for c in W().listing(p)])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _listdir(p="."):
    if W().need(p).kind != "dir":
        raise NotADirectoryError(20, "Not a directory", str(p))
    return W().listing(p)


def _scandir(p="."):
    return _Scan(p)


def _makedirs(p, mode=0o777, exist_ok=False):
    W().mkdir(p, parents=True, exist_ok=exist_ok)


_ospath = stub("os.path", **{k: getattr(posixpath, k) for k in (
    "basename", "dirname", "join", "split", "splitext", "isabs", "normpath", "commonprefix", "commonpath", "sep",
    "normcase", "splitdrive", "pardir", "curdir", "extsep", "altsep", "pathsep")})
_ospath.exists = lambda p: W().exists(p)
_ospath.lexists = lambda p: W().exists(p) or W().islink(p)
_ospath.isdir = lambda p: W().isdir(p)
_ospath.isfile = lambda p: W().isfile(p)
_ospath.islink = lambda p: W().islink(p)
_ospath.abspath = lambda p: W().norm(p)
_ospath.realpath = lambda p, **kw: W().loc(p)
_ospath.samefile = lambda a, b: world.APath(a).samefile(b)
_ospath.getsize = lambda p: len(W().need(p).data)
_ospath.expanduser = lambda p: str(world.APath(p).expanduser())


def _expandvars(p):
    def sub(m):
        return W().environ.get(m.group(1) or m.group(2), m.group(0))

    import re

    return re.sub(r"\$(?:(\w+)|\{([^}]*)\})", sub, _os.fspath(p))


_ospath.expandvars = _expandvars
_ospath.relpath = lambda p, start=None: posixpath.relpath(W().norm(p), W().norm(start or W().cwd))

def _chdir(p):
    w = W()
    n = w.need(p)
    if n.kind != "dir":
        raise NotADirectoryError(20, "Not a directory", _os.fspath(p))
    w.cwd = w.loc(p)


_osm = stub("os", path=_ospath, chdir=_chdir, environ=_Environ(), sep="/", linesep="\n", pathsep=":", curdir=".", pardir="..",
            name="posix", extsep=".", altsep=None,
            fspath=_os.fspath, PathLike=_os.PathLike, getcwd=lambda: W().cwd, makedirs=_makedirs,
            mkdir=lambda p, mode=0o777: W().mkdir(p), remove=lambda p: W().unlink(p), unlink=lambda p: W().unlink(p),
            rmdir=lambda p: W().rmdir(p), listdir=_listdir,
            rename=lambda a, b: W().rename(a, b), replace=lambda a, b: W().rename(a, b), walk=_walk,
            getenv=lambda k, d=None: W().environ.get(k, d), stat=lambda p, **kw: world.APath(p).stat(**kw),
            lstat=lambda p: world.APath(p).lstat(), symlink=lambda a, b, **kw: W().symlink(a, b),
            readlink=lambda p: str(world.APath(p).readlink()), scandir=_scandir,
            fsencode=_os.fsencode, fsdecode=_os.fsdecode, getpid=lambda: 4242, access=lambda p, mode, **kw: W().exists(p),
            F_OK=0, R_OK=4, W_OK=2, X_OK=1, utime=lambda p, *a, **kw: W().need(p) and None, getcwdb=lambda: W().cwd.encode(),
            SEEK_SET=0, SEEK_CUR=1, SEEK_END=2, error=OSError)


def _copyfile(a, b, **kw):
    src = W().need(a)
    with W().open(b, "wb") as f:
        f.write(bytes(src.data))
    return b


def _copy(a, b, **kw):
    if W().isdir(b):
        b = posixpath.join(_os.fspath(b), posixpath.basename(_os.fspath(a)))
    return _copyfile(a, b)


def _copyfileobj(src, dst, length=16384):
    while True:
        d = src.read(length)
        if not d:
            return
        dst.write(d)


def _move(a, b, **kw):
    W().rename(a, b)
    return b


def _glob(pattern, *, recursive=False, **kw):
    pattern = _os.fspath(pattern)
    if any(k for k in kw if k not in ("include_hidden",)) or recursive or "**" in pattern:
        raise Unmodelled("glob.glob")
    head, tail = posixpath.split(pattern)
    if any(c in head for c in "*?["):
        raise Unmodelled("glob.glob of a pattern with several wild parts")
    if not any(c in tail for c in "*?["):
        return [pattern] if W().exists(pattern) else []
    if not W().isdir(head or "."):
        return []
    return [posixpath.join(head, c) for c in W().children(head or ".") if _fnmatch.fnmatchcase(c, tail) and (
        tail.startswith(".") or not c.startswith("."))]


_globm = stub("glob", glob=_glob, iglob=lambda *a, **k: iter(_glob(*a, **k)),
              escape=_importlib.import_module("glob").escape)

_shutil = stub("shutil", rmtree=lambda p, ignore_errors=False, onerror=None, **k: W().rmtree(p, ignore_errors),
               copyfile=_copyfile, copy=_copy, copy2=_copy, copyfileobj=_copyfileobj, move=_move)


class ATempDir(metaclass=world.partial_type(_importlib.import_module("tempfile").TemporaryDirectory)):
    __getattr__ = world.partial(_importlib.import_module("tempfile").TemporaryDirectory)

    def __init__(self, suffix=None, prefix=None, dir=None, **kw):
        self.name = _mkdtemp()

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        self.cleanup()

    def cleanup(self):
        if W().exists(self.name):
            W().rmtree(self.name)


def _mkdtemp(suffix=None, prefix=None, dir=None):
    w = W()
    w.tmp += 1
    p = posixpath.join(_os.fspath(dir) if dir else "/tmp", "%s%d%s" % (prefix or "tmp", w.tmp, suffix or ""))
    w.mkdir(p)
    return p


def _named_temporary_file(mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None,
                          delete=True, *, errors=None, delete_on_close=True):
    w = W()
    w.tmp += 1
    p = posixpath.join(_os.fspath(dir) if dir else "/tmp", "%s%d%s" % (prefix or "tmp", w.tmp, suffix or ""))
    f = w.open(p, mode.replace("w", "x"), buffering, encoding, errors, newline)
    return _TempFile(f, p, delete)


class _TempFile:
    """What NamedTemporaryFile returns: a wrapper round the open file which removes it when closed."""

    def __init__(self, f, name, delete):
        self.file, self.name, self.delete = f, name, delete

    def __getattr__(self, item):
        return getattr(self.file, item)

    def __iter__(self):
        return iter(self.file)

    def __enter__(self):
        self.file.__enter__()
        return self

    def __exit__(self, t, v, tb):
        r = self.file.__exit__(t, v, tb)
        self.close()
        return r

    def close(self):
        try:
            self.file.close()
        finally:
            if self.delete:
                self.delete = False
                W().unlink(self.name)


_tempfile = stub("tempfile", NamedTemporaryFile=_named_temporary_file, TemporaryDirectory=ATempDir, mkdtemp=_mkdtemp, gettempdir=lambda: "/tmp")

_pathlib = stub("pathlib", Path=world.APath, PosixPath=world.APath, PurePath=_importlib.import_module("pathlib").PurePath,
                PurePosixPath=_importlib.import_module("pathlib").PurePosixPath)


# ----------------------------------------------------------------------- io
class ATextIOWrapper(_io.TextIOWrapper):
    def __init__(self, buffer, encoding=None, errors=None, newline=None, line_buffering=False, write_through=False):
        enc = world.text_encoding(W(), encoding, "TextIOWrapper")
        super().__init__(buffer, enc, errors, newline, line_buffering, write_through)
        W().event("text-wrap", encoding)

    def __del__(self):
        pass


_iom = stub("io", open=a_open, **{k: getattr(_io, k) for k in (
    "StringIO", "BytesIO", "IOBase", "RawIOBase", "BufferedIOBase", "TextIOBase", "BufferedReader", "BufferedWriter",
    "BufferedRandom", "SEEK_SET", "SEEK_CUR", "SEEK_END", "DEFAULT_BUFFER_SIZE", "UnsupportedOperation")})
_iom.TextIOWrapper = ATextIOWrapper
_iom.FileIO = world.file_io
_iom.text_encoding = lambda encoding, stacklevel=2: "locale" if encoding is None else encoding

_codecs = stub("codecs", **{k: getattr(_importlib.import_module("codecs"), k) for k in
                            ("encode", "decode", "getreader", "getwriter", "lookup", "BOM_UTF8")})
_codecs.open = lambda f, mode="r", encoding=None, errors="strict", buffering=-1: W().open(
    f, mode, encoding=encoding, errors=errors, newline="" if encoding else None)

_zipm = _importlib.import_module("zipfile")
_zip = stub("zipfile", ZipFile=world.AZipFile, **{k: getattr(_zipm, k) for k in (
    "ZipInfo", "BadZipFile", "BadZipfile", "ZIP_STORED", "ZIP_DEFLATED", "ZIP_BZIP2", "ZIP_LZMA", "LargeZipFile",
    "ZipExtFile")})
_zip.is_zipfile = lambda p: _zipm.is_zipfile(_io.BytesIO(W().content(p))) if W().isfile(p) else False
_tarm = _importlib.import_module("tarfile")
_tar = stub("tarfile", open=world.tar_open, TarFile=world.ATarFile, **{k: getattr(_tarm, k) for k in (
    "TarInfo", "TarError", "ReadError", "CompressionError", "ExtractError", "REGTYPE", "DIRTYPE", "SYMTYPE")})
_tar.is_tarfile = lambda p: W().isfile(p) and _tarm.is_tarfile(_io.BytesIO(W().content(p)))
_gzm = _importlib.import_module("gzip")
_gz = stub("gzip", open=world.gzip_open, GzipFile=world.AGzip, compress=_gzm.compress,
           decompress=_gzm.decompress, BadGzipFile=_gzm.BadGzipFile)


# ---------------------------------------------------------------------- sys
class SysModule(StubModule):
    @property
    def argv(self):
        return W().argv

    @property
    def stdout(self):
        return W().stdout

    @property
    def stderr(self):
        return W().stderr


def _exit(code=None):
    raise SystemExit(code)


_sysm = SysModule("sys")
_sysm.__dict__.update(exit=_exit, version_info=_sys.version_info, maxsize=_sys.maxsize, platform="linux",
                      exc_info=_sys.exc_info, byteorder="little", getrecursionlimit=lambda: 1000,
                      getdefaultencoding=lambda: "utf-8", executable="/usr/bin/python3", float_info=_sys.float_info,
                      getsizeof=unmod("sys.getsizeof"), intern=lambda s: s)


# ------------------------------------------------------------------- random
class ARandom:
    """A generator whose draws are unknown functions of (seed, draw number)."""

    def __init__(self, x=None):
        self.seed(x)

    def seed(self, a=None, version=2):
        if a is None:
            M.path.token_counter += 1
            a = ("fresh", M.path.token_counter)
        self._key = (type(a).__name__, a)
        self._n = 0
        W().event("seed", a)

    def _perm(self, n):
        self._n += 1
        perms = list(itertools.permutations(range(n))) if n <= 3 else [
            tuple(range(n)), tuple(reversed(range(n))), tuple(range(1, n)) + (0,)]
        i = M.choose_memo(("perm", self._key, self._n, n), "permutation", len(perms)) if len(perms) > 1 else 0
        return perms[i]

    def shuffle(self, x):
        p = self._perm(len(x))
        vals = [x[i] for i in p]
        for i, v in enumerate(vals):
            x[i] = v

    def sample(self, population, k, *, counts=None):
        if not isinstance(population, (list, tuple, range)) and not hasattr(population, "__getitem__"):
            raise TypeError("Population must be a sequence.  For dicts or sets, use sorted(d).")
        if k < 0 or k > len(population):
            raise ValueError("Sample larger than population or is negative")
        p = self._perm(len(population))
        return [population[i] for i in p[:k]]

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self._perm(len(seq))[0]]

    def _draw(self, lo, hi, what):
        """One of two values for the first draws, and a fixed pattern afterwards."""
        self._n += 1
        if self._n > 4:
            return (lo, hi)[self._n % 2]
        return (lo, hi)[M.choose_memo((what, self._key, self._n), "draw", 2)]

    def random(self):
        return self._draw(0.0, 1.0 - 2.0 ** -53, "random")

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        if not r:
            raise ValueError("empty range in randrange()")
        return self._draw(r[0], r[-1], "randrange") if len(r) > 1 else r[0]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if not len(population):
            raise IndexError("Cannot choose from an empty population")
        return [population[self._draw(0, len(population) - 1, "choices")] for _ in range(k)]

    def __getattr__(self, item):
        if item.startswith("_"):
            raise AttributeError(item)
        raise Unmodelled("Random.%s" % item)


def _global_random():
    if getattr(W(), "rng", None) is None:
        W().rng = ARandom()
    return W().rng


_random = stub("random", Random=ARandom, SystemRandom=unmod("SystemRandom"),
               shuffle=lambda x: _global_random().shuffle(x),
               sample=lambda p, k, **kw: _global_random().sample(p, k, **kw),
               choice=lambda s: _global_random().choice(s),
               **{n: (lambda *a, _n=n, **kw: getattr(_global_random(), _n)(*a, **kw)) for n in (
                   "random", "randrange", "randint", "choices")},
               seed=lambda a=None, version=2: _global_random().seed(a))


# ------------------------------------------------------------------- pickle
def _pcopy(obj):
    """What unpickling a pickle of obj yields: the reduce protocol applied structurally."""
    return copy.deepcopy(obj)


def _pdumps(obj, *a, **k):
    W().pickles = getattr(W(), "pickles", [])
    W().pickles.append(_pcopy(obj))
    return b"\x80PICKLE%d." % (len(W().pickles) - 1)


def _ploads(data, *a, **k):
    import re
    m = re.match(rb"\x80PICKLE(\d+)\.", bytes(data))
    if not m:
        raise _importlib.import_module("pickle").UnpicklingError("invalid load key")
    W().event("unpickle", int(m.group(1)))
    return _pcopy(W().pickles[int(m.group(1))])


_pk = _importlib.import_module("pickle")
_pickle = stub("pickle", dumps=_pdumps, loads=_ploads, dump=lambda o, f, *a, **k: f.write(_pdumps(o)) and None,
               load=lambda f, *a, **k: _ploads(f.read()), PickleError=_pk.PickleError,
               UnpicklingError=_pk.UnpicklingError, PicklingError=_pk.PicklingError,
               HIGHEST_PROTOCOL=_pk.HIGHEST_PROTOCOL, DEFAULT_PROTOCOL=_pk.DEFAULT_PROTOCOL)


# ------------------------------------------------------------- small modules
class AArgumentParser(_argparse.ArgumentParser):
    def __init__(self, *a, **kw):
        if kw.get("prog") is None and not a:
            kw["prog"] = "prog"
        super().__init__(*a, **kw)

    def parse_args(self, args=None, namespace=None):
        return super().parse_args(W().argv[1:] if args is None else args, namespace)

    def parse_known_args(self, args=None, namespace=None):
        return super().parse_known_args(W().argv[1:] if args is None else args, namespace)

    def _print_message(self, message, file=None):
        W().stdout.write(message or "")


_argp = stub("argparse", **{k: getattr(_argparse, k) for k in (
    "Namespace", "ArgumentError", "ArgumentTypeError", "Action", "SUPPRESS", "REMAINDER", "FileType",
    "RawDescriptionHelpFormatter", "ArgumentDefaultsHelpFormatter", "HelpFormatter")})
_argp.ArgumentParser = AArgumentParser


def _deprecated(*dargs, **dkw):
    def deco(fn):
        @_functools.wraps(fn)
        def wrapper(*a, **k):
            W().event("deprecated", getattr(fn, "__qualname__", fn))
            return fn(*a, **k)

        return wrapper

    return deco


_deprecation = stub("deprecation", deprecated=_deprecated, DeprecatedWarning=DeprecationWarning,
                    UnsupportedWarning=DeprecationWarning, fail_if_not_removed=lambda f: f)


def _import_module(name, package=None):
    W().event("import", name)
    return LOADER.load(name)


_importlibm = stub("importlib", import_module=_import_module, reload=unmod("reload"))


def _signature(fn):
    f = fn
    bound = isinstance(f, types.MethodType)
    if bound:
        f = f.__func__
    if isinstance(f, type):
        f, bound = f.__init__, True
    if not hasattr(f, "__iargs__"):
        return _inspect.signature(fn)
    pos, kwonly, va, kwa = f.__iargs__
    P = _inspect.Parameter
    ps = []
    nd = len(f.__idefaults__)
    for i, n in enumerate(pos):
        j = i - (len(pos) - nd)
        ps.append(P(n, P.POSITIONAL_OR_KEYWORD, default=f.__idefaults__[j] if j >= 0 else P.empty))
    if va:
        ps.append(P(va, P.VAR_POSITIONAL))
    for n in kwonly:
        ps.append(P(n, P.KEYWORD_ONLY, default=f.__ikwdefaults__.get(n, P.empty)))
    if kwa:
        ps.append(P(kwa, P.VAR_KEYWORD))
    return _inspect.Signature(ps[1:] if bound else ps)


_inspectm = stub("inspect", signature=_signature, Signature=_inspect.Signature, Parameter=_inspect.Parameter,
                 **{k: getattr(_inspect, k) for k in (
                     "isclass", "isfunction", "ismethod", "isbuiltin", "isroutine", "isabstract", "ismodule",
                     "isgenerator", "isgeneratorfunction", "getmro", "getmembers", "isdatadescriptor",
                     "ismethoddescriptor")})
_inspectm.getdoc = _inspect.getdoc

STUBS = {
    "os": _osm, "os.path": _ospath, "sys": _sysm, "shutil": _shutil, "glob": _globm, "tempfile": _tempfile, "pathlib": _pathlib,
    "io": _iom, "codecs": _codecs, "zipfile": _zip, "tarfile": _tar, "gzip": _gz, "random": _random,
    "pickle": _pickle, "argparse": _argp, "deprecation": _deprecation, "importlib": _importlibm,
    "inspect": _inspectm, "logging": _logging, "logging.config": _logging_config,
    "builtins": stub("builtins", **BUILTINS),
}


# ------------------------------------------------------------------- loader
class Loader:
    def __init__(self):
        self.modules = {}
        self.code = {}  # source text -> its closures, so that loading afresh only re-executes the module

    def reset(self):
        self.modules = {}

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in STUBS:
            return STUBS[name]
        if M.world is not None and name in M.world.modules:
            return M.world.modules[name]
        if name == "vistautils" or name.startswith("vistautils."):
            return self._repo(name)
        if name in PURE:
            return _importlib.import_module(name)
        top = name.split(".")[0]
        if M.world is not None and top in M.world.modules:
            raise ModuleNotFoundError("No module named %r" % name)
        try:
            found = _iu.find_spec(top) is not None
        except (ImportError, ValueError):
            found = False
        if not found:
            raise ModuleNotFoundError("No module named %r" % name)
        return stub(name)

    def _repo(self, name):
        rel = name.replace(".", "/")
        p = _os.path.join(REPO, rel + ".py")
        if not _os.path.exists(p):
            p = _os.path.join(REPO, rel, "__init__.py")
            if not _os.path.exists(p):
                raise ModuleNotFoundError("No module named %r" % name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        with open(p, "rb") as f:
            src = f.read()
        relp = _os.path.relpath(p, REPO)
        M.files[relp] = hashlib.sha256(src).hexdigest()[:16]
        mod = self.source(src.decode("utf-8"), name, relp)
        if "." in name:
            setattr(self.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], mod)
        return mod

    def source(self, text, name, file):
        code = self.code.get((text, name, file))
        if code is None:
            tree = ast.parse(text, filename=file)
            sc = interp.Scope("module", None, "<module>")
            code = self.code[text, name, file] = interp.Compiler(file, name, BUILTINS).block(tree.body, sc)
        mod = types.ModuleType(name)
        mod.__file__ = "/repo/" + file
        g = mod.__dict__
        self.modules[name] = mod
        try:
            code(interp.Frame(g, g, None, file, "<module>"))
        except BaseException:
            del self.modules[name]
            raise
        return mod


LOADER = Loader()
interp.set_loader(LOADER)
if VENV not in _sys.path:
    _sys.path.insert(1, VENV)
