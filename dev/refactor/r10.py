"""Behaviour-preserving rewrites in present-day Python: pattern matching, generators with context managers, functools, walrus."""
FILES = {}


def r(f, old, new):
    FILES.setdefault(f, []).append((old, new))


R = "vistautils/range.py"
r(R, '''        lower_cmp = self._lower_bound.compare_to(other._lower_bound)
        upper_cmp = self._upper_bound.compare_to(other._upper_bound)

        if lower_cmp <= 0 and upper_cmp >= 0:
            return self
        elif lower_cmp >= 0 and upper_cmp <= 0:
            return other
        else:
            return Range(
                self._lower_bound if lower_cmp <= 0 else other._lower_bound,
                self._upper_bound if upper_cmp >= 0 else other._upper_bound,
            )
''', '''        for candidate, rest in ((self, other), (other, self)):
            if candidate.encloses(rest):
                return candidate
        return Range(
            min(self._lower_bound, other._lower_bound),
            max(self._upper_bound, other._upper_bound),
        )
''')
r(R, '''        lower_cmp = self._lower_bound.compare_to(other_range._lower_bound)
        upper_cmp = self._upper_bound.compare_to(other_range._upper_bound)
        if lower_cmp >= 0 >= upper_cmp:
            return True
        elif lower_cmp <= 0 <= upper_cmp:
            return True
        else:
            intersection_lb = (
                self._lower_bound if lower_cmp >= 0 else other_range._lower_bound
            )
            intersection_ub = (
                self._upper_bound if upper_cmp <= 0 else other_range._upper_bound
            )
            return intersection_lb <= intersection_ub
''', '''        match (self, other_range):
            case (Range() as one, Range() as two) if one.encloses(two) or two.encloses(one):
                return True
            case _:
                return not (
                    max(self._lower_bound, other_range._lower_bound)
                    > min(self._upper_bound, other_range._upper_bound)
                )
''')
r(R, '''        if isinstance(other, Range):
            return (
                self._lower_bound == other._lower_bound
                and self._upper_bound == other._upper_bound
            )
        return False

    def __hash__(self) -> int:
        return hash(self._lower_bound) + 31 * hash(self._upper_bound)
''', '''        match other:
            case Range(_lower_bound=low, _upper_bound=high):
                return self._lower_bound == low and self._upper_bound == high
        return False

    def __hash__(self) -> int:
        return hash((self._lower_bound, self._upper_bound))
''')
r(R, '''        highest_range_beginning_at_or_below = _value_at_or_below(
            self._ranges_by_lower_bound, _BelowValue(value)
        )
        if highest_range_beginning_at_or_below:
            if value in highest_range_beginning_at_or_below:
                return highest_range_beginning_at_or_below
        return None
''', '''        if (
            candidate := _value_at_or_below(self._ranges_by_lower_bound, _BelowValue(value))
        ) is not None and value in candidate:
            return candidate
        return None
''')
r(R, '''        highest_range_beginning_at_or_below = _value_at_or_below(
            self._ranges_by_lower_bound, _BelowValue(value)
        )
        return bool(
            highest_range_beginning_at_or_below
            and value in highest_range_beginning_at_or_below
        )
''', '''        return self.range_containing(value) is not None
''')
r(R, '''        if highest_range_at_or_above:
            start_idx = self._ranges_by_lower_bound.index(
                highest_range_at_or_above._lower_bound
            )
            ret: ImmutableSet.Builder[Range[T]] = ImmutableSet.builder()
            for idx in range(start_idx, len(self._ranges_by_lower_bound)):
                rng_at_idx = self._ranges_by_lower_bound.values()[idx]
                if query_rng.encloses(rng_at_idx):
                    ret.add(rng_at_idx)
                else:
                    break
            return ret.build()
        else:
            return immutableset()
''', '''        if highest_range_at_or_above is None:
            return immutableset()
        keys = self._ranges_by_lower_bound.irange(minimum=query_rng._lower_bound)
        return immutableset(
            itertools.takewhile(query_rng.encloses, map(self._ranges_by_lower_bound.__getitem__, keys))
        )
''')
r(R, '''from abc import ABCMeta, abstractmethod
''', '''import itertools
import operator
from abc import ABCMeta, abstractmethod
from contextlib import closing, contextmanager, suppress
''')
r(R, '''        # pylint:disable=protected-access
        if range_to_add.is_empty():
            return self
''' if False else '''        if range_to_add.is_empty():
            return self

        # the range we actually need to add''', '''        if not range_to_add._lower_bound < range_to_add._upper_bound:
            return self

        # the range we actually need to add''')
r(R, '''            if ub_to_add < range_below_lb._upper_bound:
                return self
''', '''            if range_below_lb._upper_bound > ub_to_add:
                return self
            ub_to_add = max(range_below_lb._upper_bound, ub_to_add)
''')
r(R, '''            lower_range
            and lower_range.is_connected(rng)
            and not lower_range.intersection(rng).is_empty()
''', '''            lower_range
            and lower_range._upper_bound > rng._lower_bound
            and not operator.eq(rng._lower_bound, rng._upper_bound)
            or (lower_range and lower_range.is_connected(rng) and not lower_range.intersection(rng).is_empty())
''')

S = "vistautils/span.py"

I = "vistautils/io_utils.py"
r(I, '''    sentinel = object()
    return path.is_dir() and next(path.iterdir().__iter__(), sentinel) == sentinel
''', '''    return path.is_dir() and not any(True for _ in path.iterdir())
''')
r(I, '''        with self.open() as file_like:
            return [line.rstrip("\\n") for line in file_like]
''', '''        with self.open() as file_like:
            return [line.removesuffix("\\n") for line in iter(file_like.readline, "")]
''')
r(I, '''            if tgz_data is None:
                raise IOError(
                    f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
                )
            # line ends are translated just as for every other kind of file
            return io.TextIOWrapper(io.BytesIO(tgz_data.read()), encoding=self._encoding)
''', '''            match tgz_data:
                case None:
                    raise IOError(
                        f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
                    )
                case member:
                    with member:
                        content = b"".join(iter(lambda: member.read(1 << 16), b""))
            # line ends are translated just as for every other kind of file
            return io.TextIOWrapper(io.BytesIO(content), encoding=self._encoding)
''')

K = "vistautils/key_value.py"
r(K, '''        if key in self.id_to_path:
            return self[key]
        else:
            return _default

    def __exit__(self, exc_type, exc_value, traceback):
        return False


@attrs(frozen=True)
class _PathMappingBytesKeyValueSource''', '''        match self.id_to_path.get(key):
            case None:
                return _default
            case path:
                return CharSource.from_file(path).read_all()

    def __exit__(self, *exception):
        return None


@attrs(frozen=True)
class _PathMappingBytesKeyValueSource''')
r(K, '''        try:
            # safe by check_state above
            zip_bytes = self._zip_file.read(filename)  # type: ignore
        except KeyError as e:
            if has_default_val:
                return default_val
            raise KeyError(
                f"Key '{key}' not found in zip key-value source backed by " f"{self.path}"
            ) from e
        return self._process_bytes(zip_bytes)
''', '''        try:
            info = self._zip_file.getinfo(filename)  # type: ignore
        except KeyError as e:
            match has_default_val:
                case True:
                    return default_val
                case _:
                    raise KeyError(
                        f"Key '{key}' not found in zip key-value source backed by {self.path}"
                    ) from e
        else:
            with self._zip_file.open(info) as member:  # type: ignore
                return self._process_bytes(member.read())
''')
r(K, '''        if self._keys_function:
            try:
                self._keys = self._keys_function(self._zip_file)
            except BaseException:
                # __exit__ will not be called
                self._zip_file.close()
                self._zip_file = None
                raise
        return self
''', '''        if not self._keys_function:
            return self
        with contextlib.ExitStack() as undo:

            @undo.callback
            def give_up() -> None:
                # __exit__ will not be called
                zip_file, self._zip_file = self._zip_file, None
                zip_file.close()  # type: ignore

            self._keys = self._keys_function(self._zip_file)
            undo.pop_all()
        return self
''')
r(K, '''        try:
            if self._keys_out_function:
                self._keys_out_function(self._zip_file, self._keys)  # type: ignore
        finally:
            self._zip_file.close()  # type: ignore
''', '''        with contextlib.closing(self._zip_file) as zip_file:  # type: ignore
            if (write_keys := self._keys_out_function) is not None:
                write_keys(zip_file, self._keys)
''')
r(K, '''        if self._path.exists():
            self._path.rmdir()
        self._path.mkdir(parents=True, exist_ok=True)
        self.id_to_file = dict()
        return self

    def __exit__(self, exc_type, exc_val, exc_tb) -> None:
        write_doc_id_to_file_map(self.id_to_file, CharSink.to_file(self._path / "_index"))

    @staticmethod
    def from_parameters(params: Parameters) -> KeyValueSink[str, bytes]:''', '''        with contextlib.suppress(FileNotFoundError):
            self._path.rmdir()
        os.makedirs(self._path, exist_ok=True)
        self.id_to_file.clear()
        return self

    def __exit__(self, *exc_info) -> None:
        write_doc_id_to_file_map(
            dict(self.id_to_file), CharSink.to_file(self._path.joinpath("_index"))
        )

    @staticmethod
    def from_parameters(params: Parameters) -> KeyValueSink[str, bytes]:''')
r(K, '''from abc import ABCMeta, abstractmethod
''', '''import contextlib
import os
from abc import ABCMeta, abstractmethod
''')

P = "vistautils/parameters.py"
r(P, '''        current = self
        namespaces_processed = []
        for param_component in param_components:
            if not isinstance(current, Parameters):
                if default is not None:
                    return default
                elif optional:
                    return None
                else:
                    raise ParameterError(
''', '''        absent_is_fine = optional or default is not None
        current = self
        for depth, param_component in enumerate(param_components):
            namespaces_processed = param_components[:depth]
            if not isinstance(current, Parameters):
                if absent_is_fine:
                    return default
                else:
                    raise ParameterError(
''')
r(P, '''            if param_component in current._data:
                current = current._data[param_component]
                namespaces_processed.append(param_component)
            elif default is not None:
                return default
            elif optional:
                return None
            else:
''', '''            try:
                current = current._data[param_component]
            except KeyError:
                if absent_is_fine:
                    return default
''')
r(P, '''                        for (key, val) in current._data.items()
                        if not isinstance(val, Parameters)
                    ]
                )
''', '''                        for (key, val) in current._data.items()
                        if type(val) is not Parameters
                    ]
                )
''')
r(P, '''                    + available_namespaces
                )
        return current
''', '''                    + available_namespaces
                ) from None
        return current
''')
r(P, '''            for (line_num, line) in enumerate(inp):
                try:
                    parts = line.split("\\t")
                    if len(parts) != 2:
                        raise IOError(
                            "Expected two tab-separated fields but got {!s}".format(
                                len(parts)
                            )
                        )
                    path_part = parts[1].strip()
                    path = (
                        resolve_relative_to / path_part
                        if resolve_relative_to
                        else Path(path_part)
                    )
                    ret_b.put(parts[0].strip(), path)
''', '''            for (line_num, line) in enumerate(inp):
                try:
                    match [field.strip() for field in line.split("\\t")]:
                        case [key, path_part]:
                            ret_b.put(key, Path(resolve_relative_to or "", path_part))
                        case fields:
                            raise IOError(
                                f"Expected two tab-separated fields but got {len(fields)}"
                            )
''')
r(P, '''            if "_includes" in raw_yaml:
                for included_file in raw_yaml["_includes"]:
''', '''            if (includes := raw_yaml.pop("_includes", no_includes := object())) is not no_includes:
                for included_file in includes:
''')
r(P, '''                del raw_yaml["_includes"]

            interpolation_context = dict(previously_loaded.as_nested_dicts())
            if self.interpolate_environmental_variables:
                for k, v in os.environ.items():
                    # environmental variables are overridden by explicit parameters,
                    # and names containing the namespace separator cannot be parameters
                    if k not in interpolation_context and "." not in k:
                        interpolation_context[k] = v
''', '''
            environment = os.environ if self.interpolate_environmental_variables else {}
            # environmental variables are overridden by explicit parameters,
            # and names containing the namespace separator cannot be parameters
            interpolation_context = {
                name: value for name, value in environment.items() if "." not in name
            } | previously_loaded.as_nested_dicts()
''')
r(P, '''            parts = param_name.split(".")
            cur_dict = nested_dict
            for part in parts[:-1]:
                if part in cur_dict:
                    cur_dict = cur_dict[part]
                else:
                    return None
            param_name = parts[-1]
            return cur_dict.get(param_name, None)
''', '''            *outer, last = param_name.split(".")
            try:
                return functools.reduce(lambda d, part: d[part], outer, nested_dict).get(last)
            except KeyError:
                return None
''')
r(P, '''        ret = list(namespace_prefix)
    ret.append(new_element)
    return tuple(ret)
''' if False else '''    ret = list(namespace_prefix)
    ret.append(new_element)
    return tuple(ret)
''', '''    return (*namespace_prefix, new_element)
''')
r(P, '''        if isinstance(param_node, Path):
            return str(param_node)
        elif isinstance(param_node, Mapping):
            return {k: self._preprocess_dicts(v) for (k, v) in param_node.items()}
        elif param_node is None or isinstance(param_node, (str, int, float)):
            return param_node
''', '''        match param_node:
            case Path():
                return str(param_node)
            case dict():
                return {k: self._preprocess_dicts(v) for (k, v) in param_node.items()}
            case _ if isinstance(param_node, Mapping):
                return {k: self._preprocess_dicts(param_node[k]) for k in param_node}
            case None | str() | int() | float():
                return param_node
        if False:
            pass
''')
r(P, '''import os
''', '''import functools
import os
''')
