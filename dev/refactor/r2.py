"""Behaviour-preserving rewrites of parameters.py, preconditions, misc_utils, logging_utils."""
FILES = {}


def r(f, old, new):
    FILES.setdefault(f, []).append((old, new))


P = "vistautils/parameters.py"
r(P, "import inspect\nimport logging\n", "import functools\nimport inspect\nimport itertools\nimport logging\n")
r(P, '''        for key in self._data:
            check_arg(
                "." not in key, "Parameter keys cannot contain namespace separator '.'"
            )
''', '''        check_arg(
            not any("." in key for key in self._data),
            "Parameter keys cannot contain namespace separator '.'",
        )
''')
r(P, '''        namespace_prefix = tuple(namespace_prefix)
        ret: List[Tuple[str, Any]] = []
        for (key, val) in mapping.items():
            if isinstance(val, Mapping):
                sub_namespace_prefix = list(namespace_prefix)
                sub_namespace_prefix.append(key)
                ret.append(
                    (
                        key,
                        Parameters.from_mapping(
                            val, namespace_prefix=sub_namespace_prefix
                        ),
                    )
                )
            else:
                # this case will also be triggered if the value is already a parameters object
                ret.append((key, val))
        return Parameters(ret, namespace_prefix=namespace_prefix)
''', '''        prefix = (*namespace_prefix,)

        def convert(key: str, val: Any) -> Any:
            if not isinstance(val, Mapping):
                # this case will also be triggered if the value is already a parameters object
                return val
            return Parameters.from_mapping(val, namespace_prefix=(*prefix, key))

        return Parameters(
            [(key, convert(key, val)) for key, val in mapping.items()],
            namespace_prefix=prefix,
        )
''')
r(P, '''        for (k, v) in kv_pairs:
            if k:
                key_parts = k.split(namespace_separator)
                bottom_level_param_name = key_parts[-1]
                to_set_dict = ret
                if len(key_parts) > 1:
                    for key_part in key_parts[:-1]:
                        if key_part not in to_set_dict:
                            to_set_dict[key_part] = {}
                        to_set_dict = to_set_dict[key_part]
                if isinstance(v, Mapping):
                    # later pairs may extend this namespace, but not the caller's mapping
                    v = Parameters.from_mapping(v).as_nested_dicts()
                to_set_dict[bottom_level_param_name] = v
            else:
                raise RuntimeError("Parameter names cannot be the empty string")
''', '''        for (k, v) in kv_pairs:
            if not k:
                raise RuntimeError("Parameter names cannot be the empty string")
            *path, leaf = k.split(namespace_separator)
            level = ret
            for part in path:
                level = level.setdefault(part, {})
            # later pairs may extend this namespace, but not the caller's mapping
            level[leaf] = (
                Parameters.from_mapping(v).as_nested_dicts()
                if isinstance(v, Mapping)
                else v
            )
''')
r(P, '''            if isinstance(data, Dict):
                return data
            elif isinstance(data, Parameters):
                return dictify(data._data)
            elif isinstance(data, Mapping):
                return {k: dictify(v) for (k, v) in data.items()}
            else:
                # an atomic key value
                return data
''', '''            if isinstance(data, Parameters):
                data = data._data
            if isinstance(data, Dict) or not isinstance(data, Mapping):
                return data
            return dict(zip(data.keys(), map(dictify, data.values())))
''')
r(P, '''        def items_with_prefix(params: "Parameters", prefix: str):
            for (key, value) in params._data.items():
                if isinstance(value, Parameters):
                    yield from items_with_prefix(value, f"{prefix}{key}.")
                else:
                    yield f"{prefix}{key}", value

        return items_with_prefix(
            self, ".".join(self.namespace_prefix) + ("." if self.namespace_prefix else "")
        )
''', '''        def walk(params: "Parameters", path: Tuple[str, ...]):
            for key in params._data:
                here = path + (key,)
                value = params._data[key]
                if isinstance(value, Parameters):
                    for pair in walk(value, here):
                        yield pair
                else:
                    yield (".".join(here), value)

        return walk(self, self.namespace_prefix)
''')
r(P, '''        ret = dict()
        for (key, old_val) in self._data.items():
            if key in new_params:
                new_val = new_params._data[key]
                if isinstance(old_val, Parameters) != isinstance(new_val, Parameters):
                    if namespace_prefix:
                        namespace_prefix_str = ".".join(namespace_prefix)
                        param_str = f"{namespace_prefix_str}.{key}"
                    else:
                        param_str = key

                    raise IOError(
                        f"When unifying parameters, {param_str} is a parameter on one side and a "
                        f"namespace on the other"
                    )
                elif isinstance(old_val, Parameters):
                    new_namespace_prefix = list(namespace_prefix)
                    new_namespace_prefix.append(key)
                    ret[key] = old_val.unify(
                        new_val, namespace_prefix=new_namespace_prefix
                    )
                else:
                    ret[key] = new_val
            else:
                ret[key] = old_val

        for (key, new_val) in new_params._data.items():
            if key not in self:
                ret[key] = new_val

        return Parameters.from_mapping(ret, namespace_prefix=namespace_prefix)
''', '''        merged = {
            key: self._unify_value(key, old_val, new_params, namespace_prefix)
            for (key, old_val) in self._data.items()
        }
        merged.update(
            (key, new_val) for (key, new_val) in new_params._data.items() if key not in self
        )
        return Parameters.from_mapping(merged, namespace_prefix=namespace_prefix)

    @staticmethod
    def _unify_value(key, old_val, new_params, namespace_prefix):
        if key not in new_params:
            return old_val
        new_val = new_params._data[key]
        qualified = (*namespace_prefix, key)
        kinds = {type(old_val) is Parameters, type(new_val) is Parameters}
        if len(kinds) == 2:
            raise IOError(
                "When unifying parameters, {} is a parameter on one side and a "
                "namespace on the other".format(".".join(qualified))
            )
        if not isinstance(old_val, Parameters):
            return new_val
        return old_val.unify(new_val, namespace_prefix=qualified)
''')
r(P, '''        if param in self:
            return self.creatable_directory(param)
        else:
            return None
''', '''        return self.creatable_directory(param) if param in self else None
''')
r(P, '''        ret = Path.resolve(Path(self.string(param)))
        if ret.is_dir():
            if not is_empty_directory(ret):
                if delete:
                    shutil.rmtree(str(ret))
                    ret.mkdir(parents=True, exist_ok=True)
                else:
                    raise ParameterError(
                        "Expected an empty directory for parameters {!s},"
                        "but got non-empty path {!s}".format(param, ret)
                    )
            return ret
        elif ret.exists():
            raise ParameterError(
                "Expected an empty directory for parameters {!s},"
                "but got non-directory {!s}".format(param, ret)
            )
        else:
            return self.creatable_directory(param)
''', '''        directory = Path(self.string(param)).resolve()
        if not directory.exists():
            return self.creatable_directory(param)
        if not directory.is_dir():
            raise ParameterError(
                f"Expected an empty directory for parameters {param},"
                f"but got non-directory {directory}"
            )
        if is_empty_directory(directory):
            return directory
        if not delete:
            raise ParameterError(
                f"Expected an empty directory for parameters {param},"
                f"but got non-empty path {directory}"
            )
        shutil.rmtree(directory)
        os.makedirs(directory, exist_ok=True)
        return directory
''')
r(P, '''        ret = Path.resolve(Path(self.string(param)))
        ret.parent.mkdir(parents=True, exist_ok=True)
        return ret
''', '''        file_path = Path(self.string(param)).resolve()
        os.makedirs(str(file_path.parent), exist_ok=True)
        return file_path
''')
r(P, '''        ret = Path.resolve(Path(self.string(param)))
        if ret.exists():
            if ret.is_file():
                return ret
            else:
                raise ParameterError(
                    "For parameter "
                    + param
                    + ", expected an existing file but got existing non-file "
                    + str(ret)
                )
        else:
            raise ParameterError(
                "For parameter "
                + param
                + ", expected an existing file but got non-existent "
                + str(ret)
            )
''', '''        return self._existing(param, "file", os.path.isfile)

    def _existing(self, param: str, kind: str, test: Callable[[str], bool]) -> Path:
        ret = Path(self.string(param)).resolve()
        if test(str(ret)):
            return ret
        problem = (
            f"existing non-{kind}" if os.path.exists(str(ret)) else "non-existent"
        )
        raise ParameterError(
            f"For parameter {param}, expected an existing {kind} but got {problem} {ret}"
        )
''')
r(P, '''        ret = Path.resolve(Path(self.string(param)))
        if ret.exists():
            if ret.is_dir():
                return ret
            else:
                raise ParameterError(
                    "For parameter "
                    + param
                    + ", expected an existing directory but got existing "
                    "non-directory " + str(ret)
                )
        else:
            raise ParameterError(
                "For parameter "
                + param
                + ", expected an existing directory but got non-existent "
                + str(ret)
            )
''', '''        return self._existing(param, "directory", os.path.isdir)
''')
r(P, '''        enum_name = self.optional_string(param_name)
        if enum_name in enum_class.__members__:
            return enum_class[enum_name]  # type: ignore
        elif enum_name is not None:
            raise ParameterError(
                f"For parameter {param_name}, {enum_name} could not be found in "
                f"{list(enum_class.__members__)}"
            )
        elif default is not None:
            return default
        else:
            # Always raises error since param_name returned None on `optional_string()`
            return self.string(param_name)  # type: ignore
''', '''        if param_name not in self and default is not None:
            return default
        enum_name = self.string(param_name)
        try:
            return enum_class[enum_name]
        except KeyError:
            options = [name for name, _ in enum_class.__members__.items()]
        raise ParameterError(
            f"For parameter {param_name}, {enum_name} could not be found in {options}"
        )
''')
r(P, '''        return self._private_get(param_name, optional=True) is not None
''', '''        return not self._private_get(param_name, optional=True) is None
''')
r(P, '''        maybe_namespace = self._private_get(name, optional=True)
        return maybe_namespace is not None and isinstance(maybe_namespace, Parameters)
''', '''        return isinstance(self._private_get(name, optional=True), Parameters)
''')
r(P, '''        ret = self.integer(name, default=default)
        if ret > 0:
            return ret
        else:
            raise ParameterError(
                "For parameter {!s}, expected a positive integer but got {!s}".format(
                    name, ret
                )
            )
''', '''        if (ret := self.integer(name, default=default)) <= 0:
            raise ParameterError(
                "For parameter %s, expected a positive integer but got %s" % (name, ret)
            )
        return ret
''')
r(P, '''        ret = self.get_optional(name, object)
        if isinstance(ret, Parameters):
            return ret
        elif ret is None:
            sub_namespace_prefix = list(self.namespace_prefix)
            sub_namespace_prefix.append(name)
            return Parameters.empty(namespace_prefix=sub_namespace_prefix)
        else:
            raise ParameterError(
                f"Expected a namespace, but got a regular parameters for {name}"
            )
''', '''        match self.get_optional(name, object):
            case Parameters() as found:
                return found
            case None:
                return Parameters.empty(namespace_prefix=[*self.namespace_prefix, name])
            case _:
                raise ParameterError(
                    f"Expected a namespace, but got a regular parameters for {name}"
                )
''')
r(P, '''        parts = maybe_fully_qualified_name.split(".")[:-1]
        return [".".join(parts[0 : i + 1]) for i in range(len(parts))]
''', '''        package, dot, _ = maybe_fully_qualified_name.rpartition(".")
        if not dot:
            return []
        return list(itertools.accumulate(package.split("."), "{}.{}".format))
''')
r(P, '''        def handle_special_values(val: str) -> str:
            return special_values.get(val, val)

''', '')
r(P, '''            to_evaluate = handle_special_values(to_evaluate)

''', '''            if to_evaluate in special_values:
                to_evaluate = special_values[to_evaluate]

''')
r(P, '''        def validate(candidate_ret):
            if isinstance(candidate_ret, expected_type):
                return candidate_ret
            else:
                raise ParameterError(
                    f"When instantiating using from_parameters, expected {expected_type} but"
                    f" got {candidate_ret}"
                )

''', '''        validate = functools.partial(_check_result, expected_type)

''')
r(P, '''            if inspect.isclass(factory):
                if hasattr(factory, "from_parameters"):
                    return getattr(factory, "from_parameters")(params_to_pass)
                else:
                    return factory()  # type: ignore
            elif callable(factory):
                return factory(params_to_pass)
            else:
                raise ParameterError(
                    f"Expected a class with from_parameters or a callable but got {factory}"
                )
''', '''            if isinstance(factory, type):
                from_params = getattr(factory, "from_parameters", None)
                return from_params(params_to_pass) if from_params else factory()
            if not callable(factory):
                raise ParameterError(
                    f"Expected a class with from_parameters or a callable but got {factory}"
                )
            return factory(params_to_pass)
''')
r(P, '''        params_present = [param for param in param_names if param in self]
        if params_present:
            if len(params_present) > 1:
                raise ParameterError(
                    f"At most one of {param_names} can be specified but "
                    f"these were specified: {params_present}"
                )
        else:
            raise ParameterError(
                f"Exactly one of the parameters {param_names} should be specified, "
                f"but none were."
            )
''', '''        present = list(filter(self.__contains__, param_names))
        if not present:
            raise ParameterError(
                f"Exactly one of the parameters {param_names} should be specified, "
                f"but none were."
            )
        first, *others = present
        if others:
            raise ParameterError(
                f"At most one of {param_names} can be specified but "
                f"these were specified: {present}"
            )
''')
r(P, '''        return immutableset(
            self.namespace(param_name)
            for param_name in self._data
            if self.has_namespace(param_name)
        )
''', '''        return immutableset(
            value for value in self._data.values() if isinstance(value, Parameters)
        )
''')
r(P, '''            path_strings = [
                line.strip()
                for line in list_file.read_text(encoding="utf-8").split("\\n")
                if line.strip() and not line.strip().startswith("#")
            ]
''', '''            stripped = (
                line.strip() for line in list_file.read_text(encoding="utf-8").split("\\n")
            )
            path_strings = [line for line in stripped if line and line[0] != "#"]
''')
r(P, '''        ret = tuple(
            resolve_relative_to / path_string.strip()
            if resolve_relative_to
            else Path(path_string.strip())
            for path_string in path_strings
        )
''', '''        base = resolve_relative_to if resolve_relative_to else Path()
        ret = tuple(base.joinpath(path_string.strip()) for path_string in path_strings)
''')
r(P, '''            ret_b: ImmutableDict.Builder[str, Path] = ImmutableDict.builder()
            for (line_num, line) in enumerate(inp):
                try:
                    parts = line.split("\\t")
                    if len(parts) != 2:
                        raise IOError(
                            "Expected two tab-separated fields but got {!s}".format(
                                len(parts)
                            )
                        )
                    path_part = parts[1].strip()
                    path = (
                        resolve_relative_to / path_part
                        if resolve_relative_to
                        else Path(path_part)
                    )
                    ret_b.put(parts[0].strip(), path)
                except Exception as e:
                    raise IOError(
                        "Error parsing line {!s} of {!s}:\\n{!s}".format(
                            line_num, file_map_file, line
                        )
                    ) from e
            ret = ret_b.build()
''', '''            entries: List[Tuple[str, Path]] = []
            for (line_num, line) in enumerate(inp):
                try:
                    try:
                        key, path_part = map(str.strip, line.split("\\t"))
                    except ValueError:
                        raise IOError("Expected two tab-separated fields")
                    path = Path(path_part)
                    if resolve_relative_to:
                        path = resolve_relative_to / path
                    entries.append((key, path))
                except Exception as e:
                    raise IOError(
                        f"Error parsing line {line_num} of {file_map_file}:\\n{line}"
                    ) from e
            ret = immutabledict(entries)
''')
r(P, '''        with pickled_object_path.open("rb") as pickled_object_file:
            return pickle.load(pickled_object_file)
''', '''        return pickle.loads(pickled_object_path.read_bytes())
''')
r(P, '''        current = self
        namespaces_processed = []

        for param_component in param_components:
            if not isinstance(current, Parameters):
                if default is not None:
                    return default
                elif optional:
                    return None
                else:
                    raise ParameterError(
''', '''        current = self
        namespaces_processed = []
        tolerant = optional or default is not None

        for param_component in param_components:
            if not isinstance(current, Parameters):
                if tolerant:
                    return default
                else:
                    raise ParameterError(
''')
r(P, '''            if param_component in current._data:
                current = current._data[param_component]
                namespaces_processed.append(param_component)
            elif default is not None:
                return default
            elif optional:
                return None
            else:
''', '''            try:
                current = current._data[param_component]
            except KeyError:
                found = False
            else:
                found = True
                namespaces_processed.append(param_component)
            if not found:
                if tolerant:
                    return default
''')
r(P, '''                available_parameters = str(
                    [
                        key
                        for (key, val) in current._data.items()
                        if not isinstance(val, Parameters)
                    ]
                )
                available_namespaces = str(
                    [
                        key
                        for (key, val) in current._data.items()
                        if isinstance(val, Parameters)
                    ]
                )
''', '''                by_kind: Dict[bool, List[str]] = {True: [], False: []}
                for (key, val) in current._data.items():
                    by_kind[isinstance(val, Parameters)].append(key)
                available_parameters = str(by_kind[False])
                available_namespaces = str(by_kind[True])
''')
r(P, '''    ret = list(namespace_prefix)
    ret.append(new_element)
    return tuple(ret)
''', '''    return (*namespace_prefix, new_element)


def _check_result(expected_type, candidate_ret):
    if not isinstance(candidate_ret, expected_type):
        raise ParameterError(
            f"When instantiating using from_parameters, expected {expected_type} but"
            f" got {candidate_ret}"
        )
    return candidate_ret
''')
r(P, '''        if context is not None:
            if included_context is not None:
                raise ParameterError(
                    "Cannot specify both included_context and deprecated context"
                    "parameters. Only specify the former."
                )
            else:
                included_context = context

        # provide default value for included context
        if included_context is None:
            non_none_included_context = Parameters.empty()
        else:
            non_none_included_context = included_context

        if isinstance(f, str):
            f = Path(f)
''', '''        if None not in (context, included_context):
            raise ParameterError(
                "Cannot specify both included_context and deprecated context"
                "parameters. Only specify the former."
            )
        non_none_included_context = next(
            (c for c in (included_context, context) if c is not None), Parameters.empty()
        )

        f = Path(f)
''')
r(P, '''            if "_includes" in raw_yaml:
                for included_file in raw_yaml["_includes"]:
                    _logger.info("Processing included parameter file %s", included_file)
                    if not os.path.isabs(included_file):
                        if includes_are_relative_to is not None:
                            included_file_path = Path(
                                includes_are_relative_to, included_file
                            ).resolve(strict=True)
                        else:
                            raise ParameterError(
                                "Cannot do relative includes when loading from"
                                "a string."
                            )
                    else:
                        included_file_path = Path(included_file)
                    previously_loaded = previously_loaded.unify(
                        self._inner_load_from_string(
                            included_file_path.read_text(encoding="utf-8"),
                            error_string=str(included_file_path),
                            includes_are_relative_to=included_file_path.parent,
                            included_context=previously_loaded,
                        )
                    )
                del raw_yaml["_includes"]
''', '''            if "_includes" in raw_yaml:
                for included_file in raw_yaml.pop("_includes"):
                    _logger.info("Processing included parameter file %s", included_file)
                    included_file_path = self._locate(
                        included_file, includes_are_relative_to
                    )
                    with open(included_file_path, encoding="utf-8") as included:
                        content = included.read()
                    from_include = self._inner_load_from_string(
                        content,
                        error_string=str(included_file_path),
                        includes_are_relative_to=included_file_path.parent,
                        included_context=previously_loaded,
                    )
                    previously_loaded = previously_loaded.unify(from_include)
''')
r(P, '''            interpolation_context = dict(previously_loaded.as_nested_dicts())
            if self.interpolate_environmental_variables:
                for k, v in os.environ.items():
                    # environmental variables are overridden by explicit parameters,
                    # and names containing the namespace separator cannot be parameters
                    if k not in interpolation_context and "." not in k:
                        interpolation_context[k] = v
''', '''            environment = (
                {k: v for k, v in os.environ.items() if "." not in k}
                if self.interpolate_environmental_variables
                else {}
            )
            # environmental variables are overridden by explicit parameters
            interpolation_context = {**environment, **previously_loaded.as_nested_dicts()}
''')
r(P, '''    @staticmethod
    def _validate(raw_yaml: Mapping):
''', '''    @staticmethod
    def _locate(included_file: str, base: Optional[Path]) -> Path:
        if os.path.isabs(included_file):
            return Path(included_file)
        if base is None:
            raise ParameterError("Cannot do relative includes when loading from a string.")
        return (base / included_file).resolve(strict=True)

    @staticmethod
    def _validate(raw_yaml: Mapping):
''')
r(P, '''        non_string_keys = [x for x in mapping.keys() if not isinstance(x, str)]
        if non_string_keys:
''', '''        non_string_keys = list(itertools.filterfalse(lambda x: isinstance(x, str), mapping))
        if len(non_string_keys) != 0:
''')
r(P, '''            parts = param_name.split(".")
            cur_dict = nested_dict
            for part in parts[:-1]:
                if part in cur_dict:
                    cur_dict = cur_dict[part]
                else:
                    return None
            param_name = parts[-1]
            return cur_dict.get(param_name, None)
''', '''            *parts, last = param_name.split(".")
            cur_dict = nested_dict
            for part in parts:
                if part not in cur_dict:
                    return None
                cur_dict = cur_dict[part]
            return cur_dict.get(last)
''')
r(P, '''            parts = fully_qualified_param_name.split(".")
            cur_dict = nested_dict
            for part in parts[:-1]:
                if part in cur_dict:
                    cur_dict = cur_dict[part]
                else:
                    return None
            param_name = parts[-1]
            cur_dict[param_name] = value
''', '''            parts = fully_qualified_param_name.split(".")
            parent = functools.reduce(lambda d, part: d[part], parts[:-1], nested_dict)
            parent[parts[-1]] = value
''')
r(P, '''        nodes = list()
        edges = list()

        def gather_interpolation_edges(params: Parameters) -> None:
            for key, val in params.namespaced_items():
                if isinstance(val, str):
                    for interp_match in YAMLParametersLoader._INTERPOLATION_REGEX.findall(
                        val
                    ):
                        nodes.append(key)
                        if (
                            get_from_nested_dict(mutable_parameters, interp_match)
                            is not None
                        ):
                            # We don't want to include nodes from the context in the interpolation
                            # ordering since the context is present
                            # only to be referred to by for interpolation into other parameters,
                            # not to include its parameters directly in the interpolation result.
                            nodes.append(interp_match)
                            edges.append((key, interp_match))
                elif isinstance(val, Parameters):
                    gather_interpolation_edges(val)

        gather_interpolation_edges(to_interpolate)

        g = Digraph(nodes=nodes, edges=edges)
        # Since each edge has been created to point from a key to a dependency, this is to make the
        # ordering start from the leaves.
        interpolation_ordering = tuple(reversed(tuple(g.topological_sort())))
''', '''        references = [
            (key, match.group(1))
            for key, val in to_interpolate.namespaced_items()
            if isinstance(val, str)
            for match in YAMLParametersLoader._INTERPOLATION_REGEX.finditer(val)
        ]
        edges = [
            (key, target)
            for (key, target) in references
            if get_from_nested_dict(mutable_parameters, target) is not None
        ]
        local = set(edges)
        nodes = []
        for reference in references:
            nodes.append(reference[0])
            if reference in local:
                nodes.append(reference[1])

        g = Digraph(nodes=nodes, edges=edges)
        # Since each edge has been created to point from a key to a dependency, this is to make the
        # ordering start from the leaves.
        interpolation_ordering = list(g.topological_sort())
        interpolation_ordering.reverse()
''')
r(P, '''                    interpolated_value = re.sub(
                        YAMLParametersLoader._INTERPOLATION_REGEX,
                        replace_param,
                        uninterpolated_param_value,
                    )
''', '''                    pieces = []
                    position = 0
                    for m in YAMLParametersLoader._INTERPOLATION_REGEX.finditer(
                        uninterpolated_param_value
                    ):
                        pieces.append(uninterpolated_param_value[position : m.start()])
                        pieces.append(replace_param(m))
                        position = m.end()
                    pieces.append(uninterpolated_param_value[position:])
                    interpolated_value = "".join(pieces)
''')
r(P, '''        if isinstance(sink, Path) or isinstance(sink, str):
            sink = CharSink.to_file(sink)
        with sink.open() as out:
            yaml.dump(
                self._preprocess_dicts(params.as_nested_dicts()),
                out,
                # prevents leaf dictionaries from being written in the
                # human unfriendly compact style
                default_flow_style=False,
                indent=4,
                width=78,
                sort_keys=False,
            )
''', '''        char_sink = CharSink.to_file(sink) if isinstance(sink, (Path, str)) else sink
        # prevents leaf dictionaries from being written in the
        # human unfriendly compact style
        style = dict(default_flow_style=False, indent=4, width=78, sort_keys=False)
        with char_sink.open() as out:
            yaml.dump(self._preprocess_dicts(params.as_nested_dicts()), out, **style)
''')
r(P, '''        if isinstance(param_node, Path):
            return str(param_node)
        elif isinstance(param_node, Mapping):
            return {k: self._preprocess_dicts(v) for (k, v) in param_node.items()}
        elif param_node is None or isinstance(param_node, (str, int, float)):
            return param_node
        # we need to check this explicitly because otherwise
        # they would trigger the check for sequences below
        elif isinstance(param_node, (bytes, bytearray)):
            raise RuntimeError("bytes and bytearrays are not legal parameter values")
        elif isinstance(param_node, Sequence):
            return [self._preprocess_dicts(item) for item in param_node]
        else:
            raise RuntimeError(
                f"Don't know how to serialize out {param_node} as a parameter value"
            )''', '''        if param_node is None or isinstance(param_node, (str, int, float)):
            return param_node
        if isinstance(param_node, Path):
            return os.fspath(param_node)
        if isinstance(param_node, (bytes, bytearray)):
            raise RuntimeError("bytes and bytearrays are not legal parameter values")
        if isinstance(param_node, Mapping):
            ret = {}
            for k in param_node:
                ret[k] = self._preprocess_dicts(param_node[k])
            return ret
        if not isinstance(param_node, Sequence):
            raise RuntimeError(
                f"Don't know how to serialize out {param_node} as a parameter value"
            )
        return list(map(self._preprocess_dicts, param_node))''')
