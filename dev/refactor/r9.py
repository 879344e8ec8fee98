"""Behaviour-preserving rewrites which use other parts of the standard library than the code does."""
FILES = {}


def r(f, old, new):
    FILES.setdefault(f, []).append((old, new))


I = "vistautils/io_utils.py"
r(I, '''            return [line.rstrip("\\n") for line in file_like]
''', '''            lines: List[str] = []
            while True:
                line = file_like.readline()
                if line == "":
                    break
                lines.append(line[:-1] if line.endswith("\\n") else line)
            return lines
''')
r(I, '''        with self.open() as inp:
            return inp.read(1) == ""
''', '''        inp = self.open()
        try:
            return not inp.read(1)
        finally:
            inp.close()
''')
r(I, '''        return open(self._path, "r", encoding="utf-8")

    def is_empty(self) -> bool:
        return os.path.getsize(self._path) == 0
''', '''        return io.open(os.fspath(self._path), mode="rt", encoding="utf-8")

    def is_empty(self) -> bool:
        return not self._path.stat().st_size
''')
r(I, '''        return gzip.open(self._path, "rt", encoding=self._encoding)  # type: ignore
''', '''        return io.TextIOWrapper(
            gzip.GzipFile(str(self._path), mode="rb"), encoding=self._encoding  # type: ignore
        )
''')
r(I, '''        with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
            # extractfile here returns  binary file object. We are lazy here and load it all into
            # memory to make dealing with the encoding issues simple, so the containing archive
            # can be closed right away
            tgz_data = tgz_file.extractfile(self._path_within_tgz)
            if tgz_data is None:
                raise IOError(
                    f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
                )
            # line ends are translated just as for every other kind of file
            return io.TextIOWrapper(io.BytesIO(tgz_data.read()), encoding=self._encoding)
''', '''        tgz_file = tarfile.open(
            name=self._tgz_path, mode="r:gz", encoding=self._encoding
        )
        copy = io.BytesIO()
        with tgz_file:
            tgz_data = tgz_file.extractfile(tgz_file.getmember(self._path_within_tgz))
            if not tgz_data:
                raise IOError(
                    f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
                )
            with tgz_data:
                shutil.copyfileobj(tgz_data, copy)
        copy.seek(0)
        return io.TextIOWrapper(copy, encoding=self._encoding)
''')
r(I, "import os\n", "import os\nimport shutil\n")
r(I, '''        if isinstance(p, str):
            p = Path(p)
        if p.parent:
            p.parent.mkdir(parents=True, exist_ok=True)
        return _FileCharSink(p)
''', '''        path = Path(p)
        os.makedirs(path.parent, exist_ok=True)
        return _FileCharSink(path)
''')
r(I, '''        if path.parent:
            path.parent.mkdir(parents=True, exist_ok=True)
        return _FileByteSink(path)
''', '''        os.makedirs(str(path.parent), exist_ok=True)
        return _FileByteSink(path)
''')
r(I, '''        return open(self._path, "rb")

    def is_empty(self) -> bool:
        return os.path.getsize(self._path) == 0
''', '''        return io.BufferedReader(io.FileIO(self._path, "r"))  # type: ignore

    def is_empty(self) -> bool:
        return os.stat(self._path).st_size == 0
''')
r(I, '''        return cast(BinaryIO, self._path.open(mode="wb"))
''', '''        return cast(BinaryIO, io.open(self._path, "wb"))
''')
r(I, '''        class StringFileLike(io.StringIO):
            def __exit__(self, exc_type, exc_val, exc_tb):
                outer_self.last_string_written = self.getvalue()
                super().__exit__(exc_type, exc_val, exc_tb)
''', '''        class StringFileLike(io.StringIO):
            def __exit__(self, *exc_info):
                try:
                    self.seek(0)
                    outer_self.last_string_written = self.read()
                finally:
                    io.StringIO.__exit__(self, *exc_info)
''')
r(I, '''        class BytesFileLike(io.BytesIO):
            def __exit__(self, exc_type, exc_val, exc_tb):
                outer_self.last_bytes_written = self.getvalue()
                super().__exit__(exc_type, exc_val, exc_tb)
''', '''        class BytesFileLike(io.BytesIO):
            def __exit__(self, *exc_info):
                outer_self.last_bytes_written = bytes(self.getbuffer())
                self.close()
''')

S = "vistautils/scripts/"
r(S + "downsample_key_value_store.py", '''            for key in keys_to_keep:
                out.put(key, input_source[key])
''', '''            deque(map(lambda kept: out.put(kept, input_source[kept]), keys_to_keep), maxlen=0)
''')
r(S + "downsample_key_value_store.py", '''        keys_to_keep = keys[:num_to_sample]
''', '''        keys_to_keep = tuple(itertools.islice(keys, num_to_sample))
''')
r(S + "downsample_key_value_store.py", '''import logging
import random
''', '''import itertools
import logging
import random
from collections import deque
''')
r(S + "directory_to_key_value_store.py", '''        for item_path in input_directory.rglob("*"):
            if item_path.is_file():
                logging.info("Copying %s to output sink", item_path)
                sink.put(key=key_function(item_path), value=item_path.read_bytes())
''', '''        for directory, _, file_names in os.walk(str(input_directory)):
            for item_path in map(Path(directory).joinpath, file_names):
                if item_path.is_file():
                    logging.info("Copying %s to output sink", item_path)
                    with io.open(item_path, "rb") as item:
                        sink.put(key=key_function(item_path), value=item.read())
''')
r(S + "directory_to_key_value_store.py", "import logging\n", "import io\nimport logging\nimport os\n")
r(S + "directory_to_key_value_store.py", '''    return path.stem
''', '''    return os.path.splitext(path.name)[0]
''')
r(S + "join_key_value_stores.py", '''                for key in inp.keys():
                    if key in keys_written:
                        raise RuntimeError("Duplicate key: {}".format(key))
                    keys_written.add(key)
                    out[key] = inp[key]
''', '''                store_keys = list(inp.keys() or ())
                duplicate = next((k for k in store_keys if k in keys_written), None)
                for key in store_keys:
                    if key == duplicate:
                        raise RuntimeError("Duplicate key: {}".format(key))
                    out.put(key, inp[key])
                keys_written.update(store_keys)
''')
r(S + "split_key_value_store.py", '''    CharSink.to_file(output_directory / "_slices.txt").write(
        "\\n".join(str(x) for x in slice_paths)
    )
''', '''    with CharSink.to_file(Path(output_directory, "_slices.txt")).open() as slice_list:
        for (i, slice_path) in enumerate(slice_paths):
            print(slice_path, end="\\n" if i + 1 < slices else "", file=slice_list)
''')
r(S + "split_key_value_store.py", "from contextlib import ExitStack\n",
  "from collections import Counter\nfrom contextlib import ExitStack\nfrom pathlib import Path\n")
r(S + "split_key_value_store.py", '''        for (i, k) in enumerate(input_keys):
            output_sinks[i % slices].put(k, input_source[k])
''', '''        for i, output_sink in enumerate(output_sinks):
            for k in input_keys[i::slices]:
                output_sink.put(k, input_source[k])
''')
r(S + "split_key_value_store.py", '''    keys_copied = []
''', '''    keys_copied: Counter = Counter()
''')
r(S + "split_key_value_store.py", '''                    keys_copied.append(key)
''', '''                    keys_copied[key] += 1
''')
r(S + "split_key_value_store.py", '''        keys_not_copied = immutableset(source.keys()) - set(keys_copied)
''', '''        keys_not_copied = immutableset(x for x in source.keys() if not keys_copied[x])
''')
r(S + "tar_gz_to_zip.py", '''                            with inp.extractfile(member) as data:
                                out.writestr(member.name, data.read())
''', '''                            with inp.extractfile(member) as data, out.open(
                                member.name, mode="w", force_zip64=True
                            ) as copy:
                                shutil.copyfileobj(data, copy)
''')
r(S + "tar_gz_to_zip.py", "import os\n", "import os\nimport pathlib\nimport shutil\n")
r(S + "tar_gz_to_zip.py", '''    if os.path.exists(output_zip_name):
        print(f"WARNING: Removing existing file at {output_zip_name}")
        os.remove(output_zip_name)
''', '''    output_zip = pathlib.Path(output_zip_name)
    if output_zip.exists():
        print(f"WARNING: Removing existing file at {output_zip_name}")
        output_zip.unlink()
''')
r(S + "tar_gz_to_zip.py", '''    valid_extensions = [".tar", ".tgz", ".tar.gz"]
    for valid_extension in valid_extensions:
        if filename.endswith(valid_extension):
            filename = filename[: len(filename) - len(valid_extension)]
            break

    return filename + ".zip"
''', '''    return re.sub(r"\\.(?:tar|tgz|tar\\.gz)\\Z", "", filename, count=1) + ".zip"
''')
r(S + "tar_gz_to_zip.py", "import pathlib\n", "import pathlib\nimport re\n")
r(S + "text_at_offsets.py", '''    with open(args.text_file_path, "r", encoding="utf-8", newline="\\n") as text_file:
        # we read the entire file into memory for convenience. Typically files for NLP applications
        # aren't big enough for this to be a problem.
        text = text_file.read()
''', '''    with codecs.open(args.text_file_path, "r", encoding="utf-8") as text_file:
        # we read the entire file into memory for convenience. Typically files for NLP applications
        # aren't big enough for this to be a problem.
        text = "".join(iter(lambda: text_file.read(), ""))
''')
r(S + "text_at_offsets.py", "import argparse\n", "import argparse\nimport codecs\nimport sys\n")
r(S + "text_at_offsets.py", '''        print(text[start_offset_inclusive:end_offset_exclusive])
''', '''        sys.stdout.write(text[slice(start_offset_inclusive, end_offset_exclusive)])
        sys.stdout.write("\\n")
''')

C = "vistautils/checkpoints.py"
r(C, '''        if isinstance(directory, str):
            directory = Path(directory)

        directory.mkdir(parents=True, exist_ok=True)
        return _CheckPointDirectory(directory)
''', '''        checkpoint_directory = Path(directory)
        if not checkpoint_directory.is_dir():
            checkpoint_directory.mkdir(parents=True, exist_ok=True)
        return _CheckPointDirectory(checkpoint_directory)
''')
r(C, '''        Path(self.directory, name).touch(exist_ok=True)
''', '''        with open(self.directory / name, "ab"):
            pass
''')

G = "vistautils/_graph.py"
r(G, '''    nodes_from_edges = set()
    for k, v in edges.items():
        nodes_from_edges.add(k)
        nodes_from_edges.add(v)
''', '''    nodes_from_edges = set(chain.from_iterable(edges.items()))
''')
r(G, '''from typing import Any,''', '''from collections import Counter, deque
from itertools import chain
from typing import Any,''')
r(G, '''        indegree_map = {v: d for v, d in self.in_degree() if d > 0}
        zero_indegree = [v for v, d in self.in_degree() if d == 0]

        while zero_indegree:
            node = zero_indegree.pop()
            for child in self.edges[node]:
                indegree_map[child] -= 1
                if indegree_map[child] == 0:
                    zero_indegree.append(child)
                    del indegree_map[child]

            yield node
''', '''        waiting_for: Counter = Counter(dict(self.in_degree()))
        zero_indegree = deque(v for v in self.nodes if not waiting_for[v])
        indegree_map = +waiting_for

        while zero_indegree:
            node = zero_indegree.pop()
            indegree_map.subtract(self.edges[node])
            for child in self.edges[node]:
                if not indegree_map[child]:
                    del indegree_map[child]
                    zero_indegree.append(child)

            yield node
''')
