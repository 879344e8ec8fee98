"""Behaviour-preserving rewrites in another style: other library calls, other control flow, reordered statements."""
FILES = {}


def r(f, old, new):
    FILES.setdefault(f, []).append((old, new))


I = "vistautils/io_utils.py"
K = "vistautils/key_value.py"
r(I, '''        with self.open() as file_like:
            return file_like.read()
''', '''        file_like = self.open()
        try:
            parts = []
            for chunk in iter(lambda: file_like.read(4096), ""):
                parts.append(chunk)
        finally:
            file_like.close()
        return "".join(parts)
''')
r(I, '''            return [line.rstrip("\\n") for line in file_like]
''', '''            return [x[:-1] if x.endswith("\\n") else x for x in file_like.readlines()]
''')
r(I, '''            return inp.read(1) == ""
''', '''            return len(inp.read(1)) == 0
''')
r(I, '''        return not self._string
''', '''        return self._string == ""
''')
r(I, '''        if isinstance(p, str):
            p = Path(p)
        if p.parent:
            p.parent.mkdir(parents=True, exist_ok=True)
        return _FileCharSink(p)
''', '''        target = pathify(p)
        os.makedirs(str(target.parent), exist_ok=True)
        return _FileCharSink(target)
''')
r(I, '''        with self.open() as out:
            out.write(data)
''', '''        with self.open() as stream:
            stream.write(data)
''')
r(I, '''        with self.open() as binary_like:
            return binary_like.read(size)
''', '''        with self.open() as stream:
            content = stream.read(size)
        return content
''')
r(I, '''        if path.parent:
            path.parent.mkdir(parents=True, exist_ok=True)
        return _FileByteSink(path)
''', '''        directory = path.parent
        directory.mkdir(exist_ok=True, parents=True)
        return _FileByteSink(path=path)
''')
r(I, '''        return open(self._path, "rb")
''', '''        return io.open(str(self._path), mode="rb")
''')
r(I, '''        return cast(BinaryIO, self._path.open(mode="wb"))
''', '''        return open(self._path, "wb")
''')
r(I, '''        return cast(TextIO, self._path.open(mode="w", encoding="utf-8"))
''', '''        return io.open(self._path, "w", encoding="utf8")
''')
r(I, '''            def __exit__(self, exc_type, exc_val, exc_tb):
                outer_self.last_string_written = self.getvalue()
                super().__exit__(exc_type, exc_val, exc_tb)
''', '''            def __exit__(self, *exc_info):
                written = self.getvalue()
                outer_self.last_string_written = written
                return super().__exit__(*exc_info)
''')
r(I, '''    return immutableset(
        line for line in file.read_text(encoding="utf-8").split("\\n") if line
    )
''', '''    content = file.read_bytes().decode("utf-8")
    content = content.replace("\\r\\n", "\\n").replace("\\r", "\\n")
    return immutableset(filter(None, content.split("\\n")))
''')
r(I, '''        for doc_id in sorted(doc_id_to_file_map.keys()):
            out.write(
                "{!s}\\t{!s}\\n".format(doc_id, doc_id_to_file_map[doc_id].absolute())
            )
''', '''        out.writelines(
            "%s\\t%s\\n" % (doc_id, path.absolute())
            for doc_id, path in sorted(doc_id_to_file_map.items())
        )
''')
r(I, '''            if line:
                parts = line.split("\\t")
                if len(parts) == 2:
                    items.append((parts[0].strip(), Path(parts[1].strip())))
                else:
                    raise IOError(
                        "Bad docID to file map line {!s}: {!s}".format(line_num, line)
                    )
''', '''            if not line:
                continue
            if line.count("\\t") != 1:
                raise OSError(f"Bad docID to file map line {line_num}: {line}")
            doc_id, _, path = line.partition("\\t")
            items.append((doc_id.strip(), Path(path.strip())))
''')
r(K, '''    try:
        keys_data = zip_file.read("__keys")
        if keys_data:
            return immutableset(keys_data.decode("utf-8").split("\\n"))
        else:
            # If keys_data is empty, the "split" above will return [''], which is wrong.
            return immutableset()
    except KeyError:
        return None
''', '''    if "__keys" not in zip_file.namelist():
        return None
    with zip_file.open("__keys") as inp:
        listing = inp.read().decode("utf-8")
    return immutableset(listing.split("\\n") if listing else ())
''')
r(K, '''        keys = self.keys()  # pylint: disable=assignment-from-none
        if keys is not None:

            def generator_func() -> Iterator[Tuple[K, V]]:
                # mypy doesn't understand keys isn't None here
                for key in keys:  # type: ignore
                    if key_filter(key):
                        yield (key, self[key])

            return generator_func()
        else:
            raise NotImplementedError(
                "A KeyValueSource which supports item iteration but cannot "
                "provide keys must override the default implementation"
            )
''', '''        keys = self.keys()
        if keys is None:
            raise NotImplementedError(
                "A KeyValueSource which supports item iteration but cannot "
                "provide keys must override the default implementation"
            )
        return ((k, self[k]) for k in filter(key_filter, keys))
''')
r(K, '''        if self._path.exists():
            self._path.rmdir()
        self._path.mkdir(parents=True, exist_ok=True)
        self.id_to_file = dict()
        return self
''', '''        _fresh_directory(self._path)
        self.id_to_file = {}
        return self
''')
r(K, '''        if self._path.exists():
            self._path.rmdir()
        self._path.mkdir(parents=True, exist_ok=True)
        self.id_to_file = dict()
        return self
''', '''        self.id_to_file = {}
        _fresh_directory(self._path)
        return self
''')
r(K, '''class _DirectoryCharKeyValueSink(KeyValueSink[str, str]):
''', '''def _fresh_directory(path: Path) -> None:
    if path.exists():
        path.rmdir()
    path.mkdir(parents=True)


class _DirectoryCharKeyValueSink(KeyValueSink[str, str]):
''')
r(K, '''        if key in self._keys:
            raise ValueError(
                "Zip-backed key-value sinks do not support duplicate puts on the "
                "same key"
            )
        filename = self._filename_function(key)
''', '''        filename = self._filename_function(key)
        check_arg(
            key not in self._keys,
            "Zip-backed key-value sinks do not support duplicate puts on the same key",
        )
''')
r(K, '''        check_arg(isinstance(value, str) or isinstance(value, bytes))
        self._zip_file.writestr(filename, value)  # type: ignore
''', '''        check_arg(isinstance(value, (bytes, str)))
        content = value.encode("utf-8") if isinstance(value, str) else value
        self._zip_file.writestr(filename, content)
''')
r(K, '''        if self._keys_in_function:
            try:
                # update rather than assignment because return might not be mutable
                existing_keys = self._keys_in_function(self._zip_file)
                if existing_keys:
                    self._keys.update(existing_keys)
            except BaseException:
                # __exit__ will not be called
                self._zip_file.close()
                raise
        return self
''', '''        with ExitStack() as on_error:
            on_error.callback(self._zip_file.close)
            if self._keys_in_function:
                self._keys |= set(self._keys_in_function(self._zip_file) or ())
            on_error.pop_all()
        return self
''')
r(K, '''from contextlib import AbstractContextManager
''', '''from contextlib import AbstractContextManager, ExitStack, closing
''')
r(K, '''        try:
            if self._keys_out_function:
                self._keys_out_function(self._zip_file, self._keys)  # type: ignore
        finally:
            self._zip_file.close()  # type: ignore
''', '''        with closing(self._zip_file):
            write_keys = self._keys_out_function
            if write_keys is not None:
                write_keys(self._zip_file, self._keys)
''')
r(K, '''        return CharSource.from_file(self.id_to_path[key]).read_all()
''', '''        path = self.id_to_path[key]
        return path.read_text(encoding="utf-8")
''')
r(K, '''        return ByteSource.from_file(self.id_to_path[key]).read()
''', '''        return self.id_to_path[key].read_bytes()
''')
r(K, '''        if key in self.id_to_path:
            return self[key]
        else:
            return _default
''', '''        return self[key] if key in self.keys() else _default
''')
r(K, '''        filename = self._filename_function(key)
        try:
            # safe by check_state above
            zip_bytes = self._zip_file.read(filename)  # type: ignore
        except KeyError as e:
            if has_default_val:
                return default_val
            raise KeyError(
                f"Key '{key}' not found in zip key-value source backed by " f"{self.path}"
            ) from e
        return self._process_bytes(zip_bytes)
''', '''        filename = self._filename_function(key)
        if filename in self._zip_file.namelist():
            with self._zip_file.open(filename) as member:
                return self._process_bytes(member.read())
        if not has_default_val:
            raise KeyError(f"Key '{key}' not found in zip key-value source backed by {self.path}")
        return default_val
''')
r(K, '''        self._zip_file = ZipFile(str(self.path), "r")
        if self._keys_function:
            try:
                self._keys = self._keys_function(self._zip_file)
            except BaseException:
                # __exit__ will not be called
                self._zip_file.close()
                self._zip_file = None
                raise
        return self
''', '''        zip_file = ZipFile(self.path)
        try:
            if self._keys_function is not None:
                self._keys = self._keys_function(zip_file)
        except:  # noqa
            zip_file.close()
            raise
        self._zip_file = zip_file
        return self
''')
r(K, '''        check_state(self._zip_file)
        self._zip_file.close()  # type: ignore
        self._zip_file = None
''', '''        check_state(self._zip_file)
        zip_file, self._zip_file = self._zip_file, None
        zip_file.close()
''')
r(K, '''        return _bytes.decode("utf-8")
''', '''        return str(_bytes, "utf8")
''')
r(K, '''            for member in self.inp:  # type: ignore
                if member.isfile() and self.name_filter(member.name):
                    key = self.key_function(member.name)
                    if key and key_filter(key):
                        data = self.inp.extractfile(member)  # type: ignore
                        if data:
                            with data:
                                yield (key, data.read())
                        else:
                            raise IOError(f"Cannot read member {member} of {self}")
''', '''            for member in self.inp:
                if not (member.isfile() and self.name_filter(member.name)):
                    continue
                key = self.key_function(member.name)
                if not key or not key_filter(key):
                    continue
                data = self.inp.extractfile(member)
                if data is None:
                    raise OSError(f"Cannot read member {member} of {self}")
                with data:
                    content = data.read()
                yield key, content
''')
r(K, '''            for wrapped_pair in self.wrapped_source.items(key_filter=key_filter):
                yield wrapped_pair[0], self.interpretation_function(
                    wrapped_pair[0], wrapped_pair[1]
                )
''', '''            for key, value in self.wrapped_source.items(key_filter):
                yield key, self.interpretation_function(key, value)
''')
r(K, '''        sentinel = object()
        inner_get = self.wrapped_source.get(key, sentinel)  # type: ignore
        if inner_get is not sentinel:
            # if inner_get result is None, it is because X is Optional[something],
            # so interpretation_function can handle it
            return self.interpretation_function(key, inner_get)  # type: ignore
        else:
            return _default
''', '''        missing = object()
        inner = self.wrapped_source.get(key, missing)
        return _default if inner is missing else self.interpretation_function(key, inner)
''')
for _ in range(6):
    r(K, '''    effective_context = dict(globals())
    effective_context.update(eval_context or {})
''', '''    effective_context = {**globals(), **(eval_context if eval_context else {})}
''')
S = "vistautils/scripts/split_key_value_store.py"
r(S, '''    with ExitStack() as exit_stack:
        for output_sink in output_sinks:
            exit_stack.enter_context(output_sink)
        input_keys = sorted(
            list(input_source.keys())  # type: ignore
        )  # guarantee deterministic iteration order
        if random_seed:
            random.seed(random_seed)
            random.shuffle(input_keys)
        for (i, k) in enumerate(input_keys):
            output_sinks[i % slices].put(k, input_source[k])
''', '''    input_keys = sorted(input_source.keys())
    if random_seed is not None:
        random.seed(random_seed)
        random.shuffle(input_keys)
    with ExitStack() as exit_stack:
        opened = [exit_stack.enter_context(output_sink) for output_sink in output_sinks]
        for k, sink in zip(input_keys, itertools.cycle(opened)):
            sink.put(k, input_source[k])
''')
r(S, "import random\n", "import itertools\nimport random\n")
r(S, '''    keys_copied = []

    for split_namespace''', '''    keys_copied = set()

    for split_namespace''')
r(S, '''                source_value = source.get(key)
                if source_value is not None:
                    split_sink.put(key, source_value)
                    keys_copied.append(key)
                else:
                    error_message = (''', '''                source_value = source.get(key)
                if source_value is not None:
                    keys_copied.add(key)
                    split_sink.put(key, source_value)
                else:
                    error_message = (''')
r(S, '''        keys_not_copied = immutableset(source.keys()) - set(keys_copied)
''', '''        keys_not_copied = [key for key in source.keys() if key not in keys_copied]
''')
C = "vistautils/checkpoints.py"
r(C, '''        Path(self.directory, name).touch(exist_ok=True)
''', '''        with open(self.directory / name, "a"):
            pass
''')
r(C, '''        return Path(self.directory, item).is_file()
''', '''        return os.path.isfile(os.path.join(str(self.directory), item))
''')
r(C, '''        shutil.rmtree(str(self.directory))
        self.directory.mkdir(parents=True, exist_ok=True)
''', '''        for child in list(self.directory.iterdir()):
            if child.is_dir() and not child.is_symlink():
                shutil.rmtree(child)
            else:
                child.unlink()
''')
r(C, "import shutil\n", "import os\nimport shutil\n")
T = "vistautils/scripts/tar_gz_to_zip.py"
r(T, '''    valid_extensions = [".tar", ".tgz", ".tar.gz"]
    for valid_extension in valid_extensions:
        if filename.endswith(valid_extension):
            filename = filename[: len(filename) - len(valid_extension)]
            break

    return filename + ".zip"
''', '''    for extension in (".tar.gz", ".tgz", ".tar"):
        if filename.endswith(extension):
            return filename[: -len(extension)] + ".zip"
    return f"{filename}.zip"
''')
r(T, '''                            with inp.extractfile(member) as data:
                                out.writestr(member.name, data.read())
''', '''                            data = inp.extractfile(member)
                            with data, out.open(member.name, "w", force_zip64=True) as target:
                                shutil.copyfileobj(data, target)
''')
r(T, "import os\n", "import os\nimport shutil\n")
G = "vistautils/_graph.py"
r(G, '''        indegree_map = {v: d for v, d in self.in_degree() if d > 0}
        zero_indegree = [v for v, d in self.in_degree() if d == 0]
''', '''        indegree_map, zero_indegree = {}, []
        for node, degree in self.in_degree():
            if degree:
                indegree_map[node] = degree
            else:
                zero_indegree.append(node)
''')
