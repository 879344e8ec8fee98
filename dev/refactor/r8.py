"""Behaviour-preserving rewrites of the stores: shared base classes, helpers and other control flow."""
FILES = {}


def r(f, old, new):
    FILES.setdefault(f, []).append((old, new))


K = "vistautils/key_value.py"
r(K, '''    try:
        keys_data = zip_file.read("__keys")
        if keys_data:
            return immutableset(keys_data.decode("utf-8").split("\\n"))
        else:
            # If keys_data is empty, the "split" above will return [''], which is wrong.
            return immutableset()
    except KeyError:
        return None
''', '''    if "__keys" not in zip_file.namelist():
        return None
    with zip_file.open("__keys") as listing:
        text = str(listing.read(), "utf-8")
    return immutableset(text.split("\\n") if text else [])
''')
r(K, '''    zip_file.writestr("__keys", "\\n".join(keys).encode("utf-8"))
''', '''    listing = bytearray()
    for key in keys:
        if listing:
            listing += b"\\n"
        listing += key.encode("utf-8")
    zip_file.writestr("__keys", bytes(listing))
''')
r(K, '''class _DirectoryCharKeyValueSink(KeyValueSink[str, str]):
    def __init__(self, path: Path) -> None:
        self._path = path
        self.id_to_file: MutableMapping[str, Path] = dict()

    def put(self, key: str, value: str) -> None:
        _check_directory_key(key)
        out_file = self._path / key
        CharSink.to_file(out_file).write(value)
        self.id_to_file[key] = out_file

    def __enter__(self) -> "KeyValueSink[str,str]":
        # refuse to mix the output with existing files
        if self._path.exists():
            self._path.rmdir()
        self._path.mkdir(parents=True, exist_ok=True)
        self.id_to_file = dict()
        return self

    def __exit__(self, exc_type, exc_val, exc_tb) -> None:
        write_doc_id_to_file_map(self.id_to_file, CharSink.to_file(self._path / "_index"))

''', '''class _DirectoryKeyValueSink(Generic[V], KeyValueSink[str, V]):
    _open_sink: Callable[[Path], Any]

    def __init__(self, path: Path) -> None:
        self._path = path
        self.id_to_file: MutableMapping[str, Path] = dict()

    def put(self, key: str, value: V) -> None:
        _check_directory_key(key)
        out_file = self._path.joinpath(key)
        type(self)._open_sink(out_file).write(value)
        self.id_to_file.update({key: out_file})

    def __enter__(self) -> "KeyValueSink[str,V]":
        self._recreate_directory()
        self.id_to_file = {}
        return self

    def _recreate_directory(self) -> None:
        try:
            self._path.rmdir()
        except FileNotFoundError:
            pass
        self._path.mkdir(parents=True, exist_ok=True)

    def __exit__(self, exc_type, exc_val, exc_tb) -> None:
        index = CharSink.to_file(self._path / "_index")
        write_doc_id_to_file_map(self.id_to_file, index)


class _DirectoryCharKeyValueSink(_DirectoryKeyValueSink[str]):
    _open_sink = staticmethod(CharSink.to_file)

''')
r(K, '''class _DirectoryBytesKeyValueSink(KeyValueSink[str, bytes]):
    def __init__(self, path: Path) -> None:
        self._path = path
        self.id_to_file: MutableMapping[str, Path] = dict()

    def put(self, key: str, value: bytes) -> None:
        _check_directory_key(key)
        out_file = self._path / key
        ByteSink.to_file(out_file).write(value)
        self.id_to_file[key] = out_file

    def __enter__(self) -> "KeyValueSink[str,bytes]":
        # refuse to mix the output with existing files
        if self._path.exists():
            self._path.rmdir()
        self._path.mkdir(parents=True, exist_ok=True)
        self.id_to_file = dict()
        return self

    def __exit__(self, exc_type, exc_val, exc_tb) -> None:
        write_doc_id_to_file_map(self.id_to_file, CharSink.to_file(self._path / "_index"))

''', '''class _DirectoryBytesKeyValueSink(_DirectoryKeyValueSink[bytes]):
    _open_sink = staticmethod(ByteSink.to_file)

''')
r(K, '''        if key in self._keys:
            raise ValueError(
                "Zip-backed key-value sinks do not support duplicate puts on the "
                "same key"
            )
        filename = self._filename_function(key)
        if self._keys_out_function is _write_keys_to_keys_file and (
            not key or "\\n" in key or filename == "__keys"
        ):
            raise ValueError(
                f"The key {key!r} cannot be represented in the key listing of a zip store"
            )
        check_arg(isinstance(value, str) or isinstance(value, bytes))
        self._zip_file.writestr(filename, value)  # type: ignore
        # a key is only listed once its value has actually been written
        self._keys.add(key)
''', '''        check_arg(
            key not in self._keys,
            "Zip-backed key-value sinks do not support duplicate puts on the same key",
        )
        filename = self._filename_function(key)
        self._check_can_be_listed(key, filename)
        check_arg(isinstance(value, (str, bytes)))
        with self._zip_file.open(filename, "w") as member:  # type: ignore
            member.write(value.encode("utf-8") if isinstance(value, str) else value)
        self._keys |= {key}

    def _check_can_be_listed(self, key: str, filename: str) -> None:
        if self._keys_out_function is not _write_keys_to_keys_file:
            return
        if not key or "\\n" in key or filename == "__keys":
            raise ValueError(
                f"The key {key!r} cannot be represented in the key listing of a zip store"
            )
''')
r(K, '''        self._zip_file = ZipFile(str(self._path), "w" if self._overwrite else "a")
        # do not carry over the keys of an earlier use of this sink
        self._keys = set()
        if self._keys_in_function:
            try:
                # update rather than assignment because return might not be mutable
                existing_keys = self._keys_in_function(self._zip_file)
                if existing_keys:
                    self._keys.update(existing_keys)
            except BaseException:
                # __exit__ will not be called
                self._zip_file.close()
                raise
        return self
''', '''        with ExitStack() as stack:
            opened = stack.enter_context(
                ZipFile(self._path, mode="w" if self._overwrite else "a")
            )
            existing_keys = (
                self._keys_in_function(opened) if self._keys_in_function else None
            )
            self._keys = set(existing_keys or ())
            self._zip_file = opened
            stack.pop_all()
        return self
''')
r(K, '''        # if we are in a context manager, self._zip_file is not None
        try:
            if self._keys_out_function:
                self._keys_out_function(self._zip_file, self._keys)  # type: ignore
        finally:
            self._zip_file.close()  # type: ignore
''', '''        with closing(self._zip_file) as zip_file:  # type: ignore
            if self._keys_out_function is not None:
                self._keys_out_function(zip_file, self._keys)
''')
r(K, '''from contextlib import AbstractContextManager
''', '''from contextlib import AbstractContextManager, ExitStack, closing
''')
r(K, '''    def keys(self) -> AbstractSet[str]:
        return self.id_to_path.keys()
''', '''    def keys(self) -> AbstractSet[str]:
        return self.id_to_path.keys()

    def get(self, key: str, _default: Optional[V] = None) -> Optional[V]:
        try:
            self.id_to_path[key]
        except KeyError:
            return _default
        return self[key]

    def __exit__(self, exc_type, exc_value, traceback):
        return None
''')
r(K, '''        return CharSource.from_file(self.id_to_path[key]).read_all()

    def get(self, key: str, _default: Optional[str] = None) -> Optional[str]:
        if key in self.id_to_path:
            return self[key]
        else:
            return _default

    def __exit__(self, exc_type, exc_value, traceback):
        return False
''', '''        return self.id_to_path[key].read_text(encoding="utf-8")
''')
r(K, '''        return ByteSource.from_file(self.id_to_path[key]).read()

    def get(self, key: str, _default: Optional[bytes] = None) -> Optional[bytes]:
        if key in self.id_to_path:
            return self[key]
        else:
            return _default

    def __exit__(self, exc_type, exc_value, traceback):
        return False
''', '''        path = self.id_to_path[key]
        with path.open("rb") as inp:
            return inp.read()
''')
r(K, '''        filename = self._filename_function(key)
        try:
            # safe by check_state above
            zip_bytes = self._zip_file.read(filename)  # type: ignore
        except KeyError as e:
            if has_default_val:
                return default_val
            raise KeyError(
                f"Key '{key}' not found in zip key-value source backed by " f"{self.path}"
            ) from e
        return self._process_bytes(zip_bytes)
''', '''        try:
            member = self._zip_file.getinfo(self._filename_function(key))  # type: ignore
        except KeyError as e:
            if not has_default_val:
                raise KeyError(
                    f"Key '{key}' not found in zip key-value source backed by {self.path}"
                ) from e
            return default_val
        with self._zip_file.open(member) as stream:  # type: ignore
            return self._process_bytes(stream.read())
''')
r(K, '''        self._zip_file = ZipFile(str(self.path), "r")
        if self._keys_function:
            try:
                self._keys = self._keys_function(self._zip_file)
            except BaseException:
                # __exit__ will not be called
                self._zip_file.close()
                self._zip_file = None
                raise
        return self
''', '''        zip_file = ZipFile(str(self.path))
        keys = None
        try:
            if self._keys_function is not None:
                keys = self._keys_function(zip_file)
        except BaseException:
            zip_file.close()
            raise
        self._zip_file, self._keys = zip_file, keys
        return self
''')
r(K, '''        check_state(self._zip_file)
        self._zip_file.close()  # type: ignore
        self._zip_file = None
''', '''        check_state(self._zip_file)
        zip_file, self._zip_file = self._zip_file, None
        zip_file.close()  # type: ignore
''')
r(K, '''            for member in self.inp:  # type: ignore
                if member.isfile() and self.name_filter(member.name):
                    key = self.key_function(member.name)
                    if key and key_filter(key):
                        data = self.inp.extractfile(member)  # type: ignore
                        if data:
                            with data:
                                yield (key, data.read())
                        else:
                            raise IOError(f"Cannot read member {member} of {self}")
''', '''            for member in self.inp:  # type: ignore
                key = self._key_of(member)
                if not key or not key_filter(key):
                    continue
                yield key, self._content_of(member)
''')
r(K, '''    def __enter__(self) -> "KeyValueLinearSource[str,bytes]":
        self.inp = tarfile.open(self.tgz_path, "r")
        return self
''', '''    def _key_of(self, member: tarfile.TarInfo) -> Optional[str]:
        if not member.isreg() or not self.name_filter(member.name):
            return None
        return self.key_function(member.name)

    def _content_of(self, member: tarfile.TarInfo) -> bytes:
        data = self.inp.extractfile(member)  # type: ignore
        if data is None:
            raise IOError(f"Cannot read member {member} of {self}")
        try:
            return data.read()
        finally:
            data.close()

    def __enter__(self) -> "KeyValueLinearSource[str,bytes]":
        self.inp = tarfile.TarFile.open(str(self.tgz_path))
        return self
''')
r(K, '''        def generator_function() -> Iterator[Tuple[str, V]]:
            for wrapped_pair in self.wrapped_source.items(key_filter=key_filter):
                yield wrapped_pair[0], self.interpretation_function(
                    wrapped_pair[0], wrapped_pair[1]
                )

        return generator_function()  # type: ignore
''', '''        def generator_function() -> Iterator[Tuple[str, V]]:
            wrapped_items = iter(self.wrapped_source.items(key_filter))
            while True:
                try:
                    (key, value) = next(wrapped_items)
                except StopIteration:
                    return
                yield key, self.interpretation_function(key, value)

        return generator_function()  # type: ignore
''')
r(K, '''            def generator_func() -> Iterator[Tuple[K, V]]:
                # mypy doesn't understand keys isn't None here
                for key in keys:  # type: ignore
                    if key_filter(key):
                        yield (key, self[key])

            return generator_func()
        else:
            raise NotImplementedError(
                "A KeyValueSource which supports item iteration but cannot "
                "provide keys must override the default implementation"
            )
''', '''            return ((key, self[key]) for key in keys if key_filter(key))
        raise NotImplementedError(
            "A KeyValueSource which supports item iteration but cannot "
            "provide keys must override the default implementation"
        )
''')
r(K, '''        sentinel = object()
        inner_get = self.wrapped_source.get(key, sentinel)  # type: ignore
        if inner_get is not sentinel:
            # if inner_get result is None, it is because X is Optional[something],
            # so interpretation_function can handle it
            return self.interpretation_function(key, inner_get)  # type: ignore
        else:
            return _default
''', '''        missing: Any = object()
        found = self.wrapped_source.get(key, missing)
        return _default if found is missing else self.interpretation_function(key, found)
''')
for lin, what in (("KeyValueLinearSource[str, str]", "CHAR"), ("KeyValueLinearSource[str, bytes]", "BYTE")):
    fn = "_doc_id_source_from_params" if what == "CHAR" else "_doc_id_binary_source_from_params"
    r(K, '''    effective_context = dict(globals())
    effective_context.update(eval_context or {})
    return params.object_from_parameters(
        input_namespace,
        KeyValueLinearSource,
        special_factories=_%s_KEY_VALUE_SOURCE_SPECIAL_VALUES,
        default_factory=%s,
        context=effective_context,
        factory_namespace_param_name="type",
    )
''' % (what, fn), '''    return _from_params(
        params,
        input_namespace,
        KeyValueLinearSource,
        _%s_KEY_VALUE_SOURCE_SPECIAL_VALUES,
        %s,
        eval_context,
    )
''' % (what, fn))
r(K, '''def _doc_id_source_from_params(''', '''def _from_params(
    params: Parameters, namespace: str, expected: Any, special, default, eval_context
):
    return params.object_from_parameters(
        namespace,
        expected,
        special_factories=special,
        default_factory=default,
        context={**globals(), **(eval_context or {})},
        factory_namespace_param_name="type",
    )


def _doc_id_source_from_params(''')
S = "vistautils/scripts/split_key_value_store.py"
J = "vistautils/scripts/join_key_value_stores.py"
