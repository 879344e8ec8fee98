"""Behaviour-preserving rewrites of io_utils.py and key_value.py."""
FILES = {}


def r(f, old, new):
    FILES.setdefault(f, []).append((old, new))


I = "vistautils/io_utils.py"
r(I, "import gzip\nimport io\n", "import contextlib\nimport functools\nimport gzip\nimport io\n")
r(I, '''    return path.is_dir() and next(path.iterdir().__iter__(), sentinel) == sentinel
''', '''    if not os.path.isdir(path):
        return False
    with os.scandir(path) as entries:
        return next(entries, sentinel) is sentinel
''')
r(I, '''            return [line.rstrip("\\n") for line in file_like]
''', '''            ret = []
            while True:
                line = file_like.readline()
                if not line:
                    break
                ret.append(line.rstrip("\\n"))
            return ret
''')
r(I, '''            return inp.read(1) == ""
''', '''            return not inp.read(1)
''')
r(I, '''        return open(self._path, "r", encoding="utf-8")
''', '''        return self._path.open(encoding="utf-8")
''')
r(I, '''        return io.TextIOWrapper(self._wrapped_source.open(), encoding=self._encoding)
''', '''        binary = self._wrapped_source.open()
        return io.TextIOWrapper(binary, self._encoding)
''')
r(I, '''        with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
            # extractfile here returns  binary file object. We are lazy here and load it all into
            # memory to make dealing with the encoding issues simple, so the containing archive
            # can be closed right away
            tgz_data = tgz_file.extractfile(self._path_within_tgz)
            if tgz_data is None:
                raise IOError(
                    f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
                )
            # line ends are translated just as for every other kind of file
            return io.TextIOWrapper(io.BytesIO(tgz_data.read()), encoding=self._encoding)
''', '''        # line ends are translated just as for every other kind of file
        return io.TextIOWrapper(io.BytesIO(self._member_bytes()), encoding=self._encoding)

    def _member_bytes(self) -> bytes:
        # We are lazy here and load it all into memory, so the containing archive
        # can be closed right away
        with contextlib.ExitStack() as stack:
            tgz_file = stack.enter_context(
                tarfile.open(str(self._tgz_path), mode="r:gz", encoding=self._encoding)
            )
            tgz_data = tgz_file.extractfile(self._path_within_tgz)
            if tgz_data is not None:
                return tgz_data.read()
        raise IOError(
            f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
        )
''')
r(I, '''        if isinstance(p, str):
            p = Path(p)
        if p.parent:
            p.parent.mkdir(parents=True, exist_ok=True)
        return _FileCharSink(p)
''', '''        path = pathify(p)
        os.makedirs(path.parent, exist_ok=True)
        return _FileCharSink(path)
''')
r(I, '''        if isinstance(zip_file, ZipFile):
            return _ByteSourceFromPathInOpenZipFile(zip_file, path_within_zip)
        else:
            return _ByteSourceFromPathInZipFile(zip_file, path_within_zip)
''', '''        source_class = (
            _ByteSourceFromPathInOpenZipFile
            if isinstance(zip_file, ZipFile)
            else _ByteSourceFromPathInZipFile
        )
        return source_class(zip_file, path_within_zip)
''')
# both zip opens share a helper
BODY = '''        try:
            ret = zip_file.open(self._path_within_zip, "%s")
        except BaseException:
            zip_file.close()
            raise
        # we need to fiddle with the close method on the returned BytesIO so that when it is
        # closed the containing zip file is closed as well
        old_close = ret.close
        def new_close(self):
            try:
                old_close()
            finally:
                zip_file.close()
        ret.close = types.MethodType(new_close, ret)  # type: ignore
        return ret  # type: ignore
'''
r(I, BODY % "r", '''        return _open_member(zip_file, self._path_within_zip, "r")
''')
r(I, BODY % "w", '''        return _open_member(zip_file, self._path_within_zip, "w")
''')
r(I, '''@attrs(slots=True, frozen=True)
class _ByteSourceFromPathInZipFile(ByteSource):
''', '''def _open_member(zip_file: ZipFile, name: str, mode: str):
    """Opens a member such that closing it also closes the containing zip file."""
    with contextlib.ExitStack() as on_failure:
        on_failure.callback(zip_file.close)
        member = zip_file.open(name, mode)
        on_failure.pop_all()
    close_member = member.close

    def close_both():
        with contextlib.closing(zip_file):
            close_member()

    member.close = close_both
    return member


@attrs(slots=True, frozen=True)
class _ByteSourceFromPathInZipFile(ByteSource):
''')
r(I, '''    return immutableset(
        line for line in file.read_text(encoding="utf-8").split("\\n") if line
    )
''', '''    with open(file, encoding="utf-8") as inp:
        content = inp.read()
    return immutableset(filter(None, content.split("\\n")))
''')
r(I, '''        for doc_id in sorted(doc_id_to_file_map.keys()):
            out.write(
                "{!s}\\t{!s}\\n".format(doc_id, doc_id_to_file_map[doc_id].absolute())
            )
''', '''        out.writelines(
            f"{doc_id}\\t{os.path.abspath(path) if False else path.absolute()}\\n"
            for doc_id, path in sorted(doc_id_to_file_map.items(), key=lambda pair: pair[0])
        )
''')
r(I, '''        for (line_num, line) in enumerate(inp):
            if line:
                parts = line.split("\\t")
                if len(parts) == 2:
                    items.append((parts[0].strip(), Path(parts[1].strip())))
                else:
                    raise IOError(
                        "Bad docID to file map line {!s}: {!s}".format(line_num, line)
                    )
''', '''        line_num = 0
        for line in inp:
            if line.count("\\t") != 1:
                raise IOError(f"Bad docID to file map line {line_num}: {line}")
            doc_id, _, file_name = line.partition("\\t")
            items.append((doc_id.strip(), Path(file_name.strip())))
            line_num += 1
''')

K = "vistautils/key_value.py"
r(K, "from contextlib import AbstractContextManager\n", "import contextlib\nimport functools\nfrom contextlib import AbstractContextManager\n")
r(K, '''        keys_data = zip_file.read("__keys")
        if keys_data:
            return immutableset(keys_data.decode("utf-8").split("\\n"))
        else:
            # If keys_data is empty, the "split" above will return [''], which is wrong.
            return immutableset()
    except KeyError:
        return None
''', '''        listing = zip_file.read(_KEYS_MEMBER)
    except KeyError:
        return None
    # splitting an empty string gives [''], which is wrong
    return immutableset(str(listing, "utf-8").split("\\n") if listing else ())
''')
r(K, '''    zip_file.writestr("__keys", "\\n".join(keys).encode("utf-8"))
''', '''    with zip_file.open(_KEYS_MEMBER, "w") as out:
        out.write("\\n".join(keys).encode("utf-8"))


_KEYS_MEMBER = "__keys"
''')
r(K, '''            lambda _, x: x.decode("utf-8"),
''', '''            _decode_value,
''')
r(K, '''class KeyValueSource(Generic[K, V], KeyValueLinearSource[K, V], metaclass=ABCMeta):
''', '''def _decode_value(_key: str, value: bytes) -> str:
    return str(value, encoding="utf-8")


class KeyValueSource(Generic[K, V], KeyValueLinearSource[K, V], metaclass=ABCMeta):
''')
r(K, '''        if keys is not None:
            def generator_func() -> Iterator[Tuple[K, V]]:
                # mypy doesn't understand keys isn't None here
                for key in keys:  # type: ignore
                    if key_filter(key):
                        yield (key, self[key])
            return generator_func()
        else:
            raise NotImplementedError(
                "A KeyValueSource which supports item iteration but cannot "
                "provide keys must override the default implementation"
            )
''', '''        if keys is None:
            raise NotImplementedError(
                "A KeyValueSource which supports item iteration but cannot "
                "provide keys must override the default implementation"
            )
        return ((key, self[key]) for key in filter(key_filter, keys))
''')
for _ in range(1):
    r(K, '''        if not isinstance(map_file, CharSource):
            map_file = CharSource.from_file(map_file)
        return _PathMappingCharKeyValueSource(  # type: ignore
            read_doc_id_to_file_map(map_file)
        )
''', '''        return KeyValueSource.from_path_mapping(_load_map(map_file))
''')
r(K, '''        if not isinstance(map_file, CharSource):
            map_file = CharSource.from_file(map_file)
        return _PathMappingBytesKeyValueSource(  # type: ignore
            read_doc_id_to_file_map(map_file)
        )
''', '''        return _PathMappingBytesKeyValueSource(_load_map(map_file))
''')
r(K, '''def _check_directory_key(key: str) -> None:
''', '''def _load_map(map_file) -> Mapping[str, Path]:
    return read_doc_id_to_file_map(
        map_file if isinstance(map_file, CharSource) else CharSource.from_file(map_file)
    )


_CONTROL = frozenset("\\t\\n\\r")


def _check_directory_key(key: str) -> None:
''')
r(K, '''    key_path = Path(key)
    if (
        key_path.parts[:1] == ("_index",)
        or key_path.is_absolute()
        or ".." in key_path.parts
        or "\\t" in key
        or "\\n" in key
        or "\\r" in key
        or key != key.strip()
    ):
        raise ValueError(f"Illegal key for a directory-backed store: {key!r}")
''', '''    parts = Path(key).parts
    problems = [
        bool(parts) and parts[0] == "_index",
        key.startswith("/"),
        ".." in parts,
        any(c in key for c in _CONTROL),
        key.strip() != key,
    ]
    if any(problems):
        raise ValueError("Illegal key for a directory-backed store: %r" % (key,))


class _DirectoryKeyValueSink(KeyValueSink[str, V]):
    """What the character and byte directory sinks have in common."""

    def __init__(self, path: Path) -> None:
        self._path = path
        self.id_to_file: MutableMapping[str, Path] = {}

    def put(self, key: str, value: V) -> None:
        _check_directory_key(key)
        out_file = self._path.joinpath(key)
        self._sink(out_file).write(value)
        self.id_to_file[key] = out_file

    @abstractmethod
    def _sink(self, out_file: Path):
        raise NotImplementedError()

    def __enter__(self):
        # refuse to mix the output with existing files
        with contextlib.suppress(FileNotFoundError):
            self._path.rmdir()
        self._path.mkdir(parents=True, exist_ok=True)
        self.id_to_file = {}
        return self

    def __exit__(self, exc_type, exc_val, exc_tb) -> None:
        index = CharSink.to_file(self._path / "_index")
        write_doc_id_to_file_map(self.id_to_file, index)
''')
for kind, typ in (("Char", "str"), ("Bytes", "bytes")):
    sink = "Char" if kind == "Char" else "Byte"
    r(K, '''class _Directory%sKeyValueSink(KeyValueSink[str, %s]):
    def __init__(self, path: Path) -> None:
        self._path = path
        self.id_to_file: MutableMapping[str, Path] = dict()
    def put(self, key: str, value: %s) -> None:
        _check_directory_key(key)
        out_file = self._path / key
        %sSink.to_file(out_file).write(value)
        self.id_to_file[key] = out_file
    def __enter__(self) -> "KeyValueSink[str,%s]":
        # refuse to mix the output with existing files
        if self._path.exists():
            self._path.rmdir()
        self._path.mkdir(parents=True, exist_ok=True)
        self.id_to_file = dict()
        return self
    def __exit__(self, exc_type, exc_val, exc_tb) -> None:
        write_doc_id_to_file_map(self.id_to_file, CharSink.to_file(self._path / "_index"))
''' % (kind, typ, typ, sink, typ), '''class _Directory%sKeyValueSink(_DirectoryKeyValueSink[%s]):
    def _sink(self, out_file: Path):
        return %sSink.to_file(out_file)

''' % (kind, typ, sink))
r(K, '''        check_state(self._zip_file, "Must use zip key-value sink as a context manager")
        check_not_none(key)
        check_not_none(value)
        if key in self._keys:
            raise ValueError(
                "Zip-backed key-value sinks do not support duplicate puts on the "
                "same key"
            )
        filename = self._filename_function(key)
        if self._keys_out_function is _write_keys_to_keys_file and (
            not key or "\\n" in key or filename == "__keys"
        ):
            raise ValueError(
                f"The key {key!r} cannot be represented in the key listing of a zip store"
            )
        check_arg(isinstance(value, str) or isinstance(value, bytes))
        self._zip_file.writestr(filename, value)  # type: ignore
        # a key is only listed once its value has actually been written
        self._keys.add(key)
''', '''        check_state(self._zip_file, "Must use zip key-value sink as a context manager")
        for argument in (key, value):
            check_not_none(argument)
        filename = self._filename_function(key)
        problem = self._problem_with(key, filename)
        if problem is not None:
            raise ValueError(problem)
        if not isinstance(value, (str, bytes)):
            raise ValueError()
        self._zip_file.writestr(filename, value)  # type: ignore
        # a key is only listed once its value has actually been written
        self._keys |= {key}

    def _problem_with(self, key: str, filename: str) -> Optional[str]:
        if key in self._keys:
            return (
                "Zip-backed key-value sinks do not support duplicate puts on the same key"
            )
        lists_keys = self._keys_out_function is _write_keys_to_keys_file
        if lists_keys and (key == "" or "\\n" in key or filename == _KEYS_MEMBER):
            return f"The key {key!r} cannot be represented in the key listing of a zip store"
        return None
''')
r(K, '''        if self._keys_in_function:
            try:
                # update rather than assignment because return might not be mutable
                existing_keys = self._keys_in_function(self._zip_file)
                if existing_keys:
                    self._keys.update(existing_keys)
            except BaseException:
                # __exit__ will not be called
                self._zip_file.close()
                raise
        return self
''', '''        with contextlib.ExitStack() as on_failure:
            # __exit__ will not be called if we fail
            on_failure.callback(self._zip_file.close)
            if self._keys_in_function:
                self._keys = set(self._keys_in_function(self._zip_file) or ())
            on_failure.pop_all()
        return self
''')
r(K, '''        try:
            if self._keys_out_function:
                self._keys_out_function(self._zip_file, self._keys)  # type: ignore
        finally:
            self._zip_file.close()  # type: ignore
''', '''        with self._zip_file:
            if self._keys_out_function:
                self._keys_out_function(self._zip_file, self._keys)  # type: ignore
''')
for t in ("Char", "Byte"):
    pass
r(K, '''        if key in self.id_to_path:
            return self[key]
        else:
            return _default
''', '''        return self[key] if key in self.id_to_path else _default
''')
r(K, '''    def __getitem__(self, key: str) -> V:
        # we know _internal_get won't return the default value
        return self._internal_get(  # type: ignore
            key, has_default_val=False, default_val=None
        )
    def get(self, key: str, _default: Optional[V] = None) -> Optional[V]:
        return self._internal_get(key, has_default_val=True, default_val=_default)
    def _internal_get(
        self, key: str, *, has_default_val: bool, default_val: Optional[V]
    ) -> Optional[V]:
        check_state(self._zip_file, "Must use zip key-value source as a context manager")
        check_not_none(key)
        filename = self._filename_function(key)
        try:
            # safe by check_state above
            zip_bytes = self._zip_file.read(filename)  # type: ignore
        except KeyError as e:
            if has_default_val:
                return default_val
            raise KeyError(
                f"Key '{key}' not found in zip key-value source backed by " f"{self.path}"
            ) from e
        return self._process_bytes(zip_bytes)
''', '''    def __getitem__(self, key: str) -> V:
        zip_bytes = self._raw(key)
        if zip_bytes is None:
            raise KeyError(
                f"Key '{key}' not found in zip key-value source backed by {self.path}"
            )
        return self._process_bytes(zip_bytes)

    def get(self, key: str, _default: Optional[V] = None) -> Optional[V]:
        zip_bytes = self._raw(key)
        return _default if zip_bytes is None else self._process_bytes(zip_bytes)

    def _raw(self, key: str) -> Optional[bytes]:
        check_state(self._zip_file, "Must use zip key-value source as a context manager")
        check_not_none(key)
        filename = self._filename_function(key)
        try:
            with self._zip_file.open(filename) as member:  # type: ignore
                return member.read()
        except KeyError:
            return None
''')
r(K, '''        self._zip_file = ZipFile(str(self.path), "r")
        if self._keys_function:
            try:
                self._keys = self._keys_function(self._zip_file)
            except BaseException:
                # __exit__ will not be called
                self._zip_file.close()
                self._zip_file = None
                raise
        return self
''', '''        zip_file = ZipFile(self.path)
        try:
            if self._keys_function:
                self._keys = self._keys_function(zip_file)
        except BaseException:
            # __exit__ will not be called
            zip_file.close()
            raise
        self._zip_file = zip_file
        return self
''')
r(K, '''        check_state(self._zip_file)
        self._zip_file.close()  # type: ignore
        self._zip_file = None
''', '''        check_state(self._zip_file)
        zip_file, self._zip_file = self._zip_file, None
        zip_file.close()
''')
r(K, '''    def _process_bytes(self, _bytes: bytes) -> str:
        return _bytes.decode("utf-8")
''', '''    def _process_bytes(self, _bytes: bytes) -> str:
        return str(_bytes, "utf-8")
''')
r(K, '''        def generator_function() -> Iterator[Tuple[str, bytes]]:
            # safe by check_state above
            for member in self.inp:  # type: ignore
                if member.isfile() and self.name_filter(member.name):
                    key = self.key_function(member.name)
                    if key and key_filter(key):
                        data = self.inp.extractfile(member)  # type: ignore
                        if data:
                            with data:
                                yield (key, data.read())
                        else:
                            raise IOError(f"Cannot read member {member} of {self}")
        return generator_function()
''', '''        return self._members(key_filter)

    def _members(self, key_filter: Callable[[str], bool]) -> Iterator[Tuple[str, bytes]]:
        # safe by check_state above
        for member in self.inp:  # type: ignore
            if not member.isfile() or not self.name_filter(member.name):
                continue
            key = self.key_function(member.name)
            if not key or not key_filter(key):
                continue
            data = self.inp.extractfile(member)  # type: ignore
            if not data:
                raise IOError(f"Cannot read member {member} of {self}")
            with data:
                content = data.read()
            yield (key, content)
''')
r(K, '''        self.inp = tarfile.open(self.tgz_path, "r")
''', '''        self.inp = tarfile.open(str(self.tgz_path))
''')
r(K, '''        def generator_function() -> Iterator[Tuple[str, V]]:
            for wrapped_pair in self.wrapped_source.items(key_filter=key_filter):
                yield wrapped_pair[0], self.interpretation_function(
                    wrapped_pair[0], wrapped_pair[1]
                )
        return generator_function()  # type: ignore
''', '''        for (key, raw) in self.wrapped_source.items(key_filter=key_filter):
            yield key, self.interpretation_function(key, raw)
''')
r(K, '''        sentinel = object()
        inner_get = self.wrapped_source.get(key, sentinel)  # type: ignore
        if inner_get is not sentinel:
            # if inner_get result is None, it is because X is Optional[something],
            # so interpretation_function can handle it
            return self.interpretation_function(key, inner_get)  # type: ignore
        else:
            return _default
''', '''        raw = self.wrapped_source.get(key, _MISSING)  # type: ignore
        if raw is _MISSING:
            return _default
        # if raw is None, it is because X is Optional[something],
        # so interpretation_function can handle it
        return self.interpretation_function(key, raw)  # type: ignore
''')
r(K, '''class _InterpretedKeyValueSource(Generic[K, V], KeyValueSource[K, V]):
''', '''_MISSING: Any = object()


class _InterpretedKeyValueSource(Generic[K, V], KeyValueSource[K, V]):
''')
CTX = '''    # to be sure the default special values can be evaluated, we want to include this module
    # itself in the evaluation context. We combine it with eval_context, giving priority to
    # the context specified by the user
    effective_context = dict(globals())
    effective_context.update(eval_context or {})
    return params.object_from_parameters('''
NEWCTX = '''    effective_context = _with_this_module(eval_context)
    return params.object_from_parameters('''
for _ in range(6):
    r(K, CTX, NEWCTX)
r(K, '''def _doc_id_source_from_params(params: Parameters) -> KeyValueSource[str, str]:
''', '''def _with_this_module(eval_context) -> Mapping[Any, Any]:
    # to be sure the default special values can be evaluated, we want to include this module
    # itself in the evaluation context. We combine it with eval_context, giving priority to
    # the context specified by the user
    return {**globals(), **(eval_context or {})}


def _doc_id_source_from_params(params: Parameters) -> KeyValueSource[str, str]:
''')
