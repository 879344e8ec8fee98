"""Behaviour-preserving rewrites of the parameters which replace whole algorithms."""
FILES = {}


def r(f, old, new):
    FILES.setdefault(f, []).append((old, new))


P = "vistautils/parameters.py"
r(P, '''        ret: List[Tuple[str, Any]] = []
        for (key, val) in mapping.items():
            if isinstance(val, Mapping):
                sub_namespace_prefix = list(namespace_prefix)
                sub_namespace_prefix.append(key)
                ret.append(
                    (
                        key,
                        Parameters.from_mapping(
                            val, namespace_prefix=sub_namespace_prefix
                        ),
                    )
                )
            else:
                # this case will also be triggered if the value is already a parameters object
                ret.append((key, val))
        return Parameters(ret, namespace_prefix=namespace_prefix)
''', '''
        def convert(key: str, val: Any) -> Any:
            if not isinstance(val, Mapping):
                return val
            return Parameters.from_mapping(
                val, namespace_prefix=(*namespace_prefix, key)
            )

        converted = tuple((key, convert(key, mapping[key])) for key in mapping)
        return Parameters(converted, namespace_prefix=namespace_prefix)
''')
r(P, '''        for (k, v) in kv_pairs:
            if k:
                key_parts = k.split(namespace_separator)
                bottom_level_param_name = key_parts[-1]
                to_set_dict = ret
                if len(key_parts) > 1:
                    for key_part in key_parts[:-1]:
                        if key_part not in to_set_dict:
                            to_set_dict[key_part] = {}
                        to_set_dict = to_set_dict[key_part]
                if isinstance(v, Mapping):
                    # later pairs may extend this namespace, but not the caller's mapping
                    v = Parameters.from_mapping(v).as_nested_dicts()
                to_set_dict[bottom_level_param_name] = v
            else:
                raise RuntimeError("Parameter names cannot be the empty string")
        return Parameters.from_mapping(ret)
''', '''        for (k, v) in kv_pairs:
            if not k:
                raise RuntimeError("Parameter names cannot be the empty string")
            *namespaces, name = k.split(namespace_separator)
            target: Any = ret
            for namespace in namespaces:
                if namespace not in target:
                    target[namespace] = dict()
                target = target[namespace]
            target[name] = (
                Parameters.from_mapping(v).as_nested_dicts()
                if isinstance(v, Mapping)
                else v
            )
        return Parameters.from_mapping(ret)
''')
r(P, '''        def dictify(data):
            if isinstance(data, Dict):
                return data
            elif isinstance(data, Parameters):
                return dictify(data._data)
            elif isinstance(data, Mapping):
                return {k: dictify(v) for (k, v) in data.items()}
            else:
                # an atomic key value
                return data

        return dictify(self._data)
''', '''        ret: Dict[str, Any] = {}
        for key in self._data:
            value = self._data[key]
            if isinstance(value, Parameters):
                value = value.as_nested_dicts()
            elif isinstance(value, Mapping) and not isinstance(value, dict):
                value = Parameters.from_mapping(value).as_nested_dicts()
            ret[key] = value
        return ret
''')
r(P, '''        def items_with_prefix(params: "Parameters", prefix: str):
            for (key, value) in params._data.items():
                if isinstance(value, Parameters):
                    yield from items_with_prefix(value, f"{prefix}{key}.")
                else:
                    yield f"{prefix}{key}", value

        return items_with_prefix(
            self, ".".join(self.namespace_prefix) + ("." if self.namespace_prefix else "")
        )
''', '''        pending: List[Tuple[Tuple[str, ...], Any]] = [(self.namespace_prefix, self)]
        while pending:
            path, value = pending.pop()
            if isinstance(value, Parameters):
                children = [(path + (key,), sub) for (key, sub) in value._data.items()]
                pending.extend(reversed(children))
            else:
                yield ".".join(path), value
''')
r(P, '''        ret = dict()
        for (key, old_val) in self._data.items():
            if key in new_params:
                new_val = new_params._data[key]
                if isinstance(old_val, Parameters) != isinstance(new_val, Parameters):
                    if namespace_prefix:
                        namespace_prefix_str = ".".join(namespace_prefix)
                        param_str = f"{namespace_prefix_str}.{key}"
                    else:
                        param_str = key

                    raise IOError(
                        f"When unifying parameters, {param_str} is a parameter on one side and a "
                        f"namespace on the other"
                    )
                elif isinstance(old_val, Parameters):
                    new_namespace_prefix = list(namespace_prefix)
                    new_namespace_prefix.append(key)
                    ret[key] = old_val.unify(
                        new_val, namespace_prefix=new_namespace_prefix
                    )
                else:
                    ret[key] = new_val
            else:
                ret[key] = old_val

        for (key, new_val) in new_params._data.items():
            if key not in self:
                ret[key] = new_val

        return Parameters.from_mapping(ret, namespace_prefix=namespace_prefix)
''', '''        ret: Dict[str, Any] = dict(self._data.items())
        for (key, new_val) in new_params._data.items():
            if key not in self:
                ret[key] = new_val
            elif key in new_params:
                ret[key] = self._merged(key, ret[key], new_val, tuple(namespace_prefix))
        return Parameters.from_mapping(ret, namespace_prefix=namespace_prefix)

    @staticmethod
    def _merged(key: str, old_val: Any, new_val: Any, prefix: Tuple[str, ...]) -> Any:
        namespaces = [isinstance(val, Parameters) for val in (old_val, new_val)]
        if all(namespaces):
            return old_val.unify(new_val, namespace_prefix=prefix + (key,))
        if any(namespaces):
            raise IOError(
                "When unifying parameters, {} is a parameter on one side and a "
                "namespace on the other".format(".".join(prefix + (key,)))
            )
        return new_val
''')
r(P, '''        ret = Path.resolve(Path(self.string(param)))
        ret.mkdir(parents=True, exist_ok=True)
        return ret

    def optional_creatable_directory''', '''        ret = self._resolved(param)
        if not ret.is_dir():
            os.makedirs(ret, exist_ok=True)
        return ret

    def _resolved(self, param: str) -> Path:
        return Path(self.string(param)).resolve()

    def optional_creatable_directory''')
r(P, '''        ret = Path.resolve(Path(self.string(param)))
        if ret.is_dir():
            if not is_empty_directory(ret):
                if delete:
                    shutil.rmtree(str(ret))
                    ret.mkdir(parents=True, exist_ok=True)
                else:
                    raise ParameterError(
                        "Expected an empty directory for parameters {!s},"
                        "but got non-empty path {!s}".format(param, ret)
                    )
            return ret
        elif ret.exists():
            raise ParameterError(
                "Expected an empty directory for parameters {!s},"
                "but got non-directory {!s}".format(param, ret)
            )
        else:
            return self.creatable_directory(param)
''', '''        ret = self._resolved(param)
        if ret.exists() and not ret.is_dir():
            raise ParameterError(
                f"Expected an empty directory for parameters {param},"
                f"but got non-directory {ret}"
            )
        if ret.is_dir() and any(ret.iterdir()):
            if not delete:
                raise ParameterError(
                    f"Expected an empty directory for parameters {param},"
                    f"but got non-empty path {ret}"
                )
            shutil.rmtree(ret)
        ret.mkdir(parents=True, exist_ok=True)
        return ret
''')
r(P, '''        ret = Path.resolve(Path(self.string(param)))
        if ret.exists():
            if ret.is_file():
                return ret
            else:
                raise ParameterError(
                    "For parameter "
                    + param
                    + ", expected an existing file but got existing non-file "
                    + str(ret)
                )
        else:
            raise ParameterError(
                "For parameter "
                + param
                + ", expected an existing file but got non-existent "
                + str(ret)
            )
''', '''        ret = self._resolved(param)
        if os.path.isfile(ret):
            return ret
        problem = "existing non-file" if os.path.exists(ret) else "non-existent"
        raise ParameterError(
            "For parameter %s, expected an existing file but got %s %s"
            % (param, problem, ret)
        )
''')
r(P, '''        if param in self:
            return self.existing_file(param)
        else:
            return None
''', '''        return self.existing_file(param) if param in self else None
''')
r(P, '''        enum_name = self.optional_string(param_name)
        if enum_name in enum_class.__members__:
            return enum_class[enum_name]  # type: ignore
        elif enum_name is not None:
            raise ParameterError(
                f"For parameter {param_name}, {enum_name} could not be found in "
                f"{list(enum_class.__members__)}"
            )
        elif default is not None:
            return default
        else:
            # Always raises error since param_name returned None on `optional_string()`
            return self.string(param_name)  # type: ignore
''', '''        if default is not None and param_name not in self:
            return default
        enum_name = self.string(param_name)
        try:
            return enum_class[enum_name]
        except KeyError as e:
            raise ParameterError(
                f"For parameter {param_name}, {enum_name} could not be found in "
                f"{list(enum_class.__members__)}"
            ) from e
''')
r(P, '''        ret = self.get(param_name, str, default=default)
        if valid_options is not None and ret not in valid_options:
            raise ParameterError(
                f"The value {ret} for the parameter {param_name} is not one of the valid options "
                f"{tuple(valid_options)}"
            )
        return ret
''', '''        ret = self.get(param_name, str, default=default)
        if valid_options is None:
            return ret
        for option in valid_options:
            if option == ret:
                return ret
        raise ParameterError(
            f"The value {ret} for the parameter {param_name} is not one of the valid options "
            f"{tuple(valid_options)}"
        )
''')
r(P, '''        ret = self.integer(name, default=default)
        if ret > 0:
            return ret
        else:
            raise ParameterError(
                "For parameter {!s}, expected a positive integer but got {!s}".format(
                    name, ret
                )
            )
''', '''        return self.integer(name, default=default, valid_range=Range.at_least(1))
''')
r(P, '''        if name in self:
            return self.positive_integer(name)
        if default is not None:
            if isinstance(default, int) and default > 0:
                return default  # type: ignore
            else:
                raise ParameterError(f"Default value: {default} is not a positive value")
        return None
''', '''        if name in self:
            return self.positive_integer(name)
        if default is None:
            return None
        if not isinstance(default, int) or default < 1:
            raise ParameterError(f"Default value: {default} is not a positive value")
        return default  # type: ignore
''')
r(P, '''        ret = self.get_optional(name, object)
        if isinstance(ret, Parameters):
            return ret
        elif ret is None:
            sub_namespace_prefix = list(self.namespace_prefix)
            sub_namespace_prefix.append(name)
            return Parameters.empty(namespace_prefix=sub_namespace_prefix)
        else:
            raise ParameterError(
                f"Expected a namespace, but got a regular parameters for {name}"
            )
''', '''        if self.has_namespace(name):
            return self.namespace(name)
        if name in self:
            raise ParameterError(
                f"Expected a namespace, but got a regular parameters for {name}"
            )
        return Parameters.empty(
            namespace_prefix=_extend_prefix(self.namespace_prefix, name)
        )
''')
r(P, '''        ret = self.get_optional(name, object)
        if isinstance(ret, Parameters):
            return ret
        else:
            return None
''', '''        return self.namespace(name) if self.has_namespace(name) else None
''')
r(P, '''        if default is None:
            return self.get_optional(name, List)
        elif isinstance(default, List):
            return self.get_optional(name, List, default=default)

        raise ParameterError(
            f"Provided default to optional arbitrary list isn't a list. {default}"
        )
''', '''        if default is not None and not isinstance(default, list):
            raise ParameterError(
                f"Provided default to optional arbitrary list isn't a list. {default}"
            )
        found = self.get_optional(name, list)
        return default if found is None else found
''')
r(P, '''        parts = maybe_fully_qualified_name.split(".")[:-1]
        return [".".join(parts[0 : i + 1]) for i in range(len(parts))]
''', '''        parts = maybe_fully_qualified_name.split(".")[:-1]
        return list(itertools.accumulate(parts, lambda left, right: f"{left}.{right}"))
''')
r(P, '''import inspect
import logging
''', '''import inspect
import itertools
import logging
''')
r(P, '''        params_present = [param for param in param_names if param in self]
        if params_present:
            if len(params_present) > 1:
                raise ParameterError(
                    f"At most one of {param_names} can be specified but "
                    f"these were specified: {params_present}"
                )
        else:
            raise ParameterError(
                f"Exactly one of the parameters {param_names} should be specified, "
                f"but none were."
            )
''', '''        params_present = list(filter(self.__contains__, param_names))
        if len(params_present) == 1:
            return
        if not params_present:
            raise ParameterError(
                f"Exactly one of the parameters {param_names} should be specified, "
                f"but none were."
            )
        raise ParameterError(
            f"At most one of {param_names} can be specified but "
            f"these were specified: {params_present}"
        )
''')
r(P, '''        return immutableset(
            self.namespace(param_name)
            for param_name in self._data
            if self.has_namespace(param_name)
        )
''', '''        return immutableset(
            val for val in self._data.values() if isinstance(val, Parameters)
        )
''')
r(P, '''            path_strings = [
                line.strip()
                for line in list_file.read_text(encoding="utf-8").split("\\n")
                if line.strip() and not line.strip().startswith("#")
            ]
''', '''            path_strings = []
            with list_file.open(encoding="utf-8") as lines:
                for text in lines.read().split("\\n"):
                    text = text.strip()
                    if text and text[0] != "#":
                        path_strings.append(text)
''')
r(P, '''        with open(str(file_map_file), encoding="utf-8") as inp:
            ret_b: ImmutableDict.Builder[str, Path] = ImmutableDict.builder()
            for (line_num, line) in enumerate(inp):
                try:
                    parts = line.split("\\t")
                    if len(parts) != 2:
                        raise IOError(
                            "Expected two tab-separated fields but got {!s}".format(
                                len(parts)
                            )
                        )
                    path_part = parts[1].strip()
                    path = (
                        resolve_relative_to / path_part
                        if resolve_relative_to
                        else Path(path_part)
                    )
                    ret_b.put(parts[0].strip(), path)
                except Exception as e:
                    raise IOError(
                        "Error parsing line {!s} of {!s}:\\n{!s}".format(
                            line_num, file_map_file, line
                        )
                    ) from e

            ret = ret_b.build()
            if log_name:
                _logger.info("Loaded %s %s from %s", len(ret), log_name, file_map_file)
            return ret
''', '''        entries: List[Tuple[str, Path]] = []
        with file_map_file.open(encoding="utf-8") as inp:
            for (line_num, line) in enumerate(inp):
                fields = line.split("\\t")
                if len(fields) != 2:
                    raise IOError(
                        f"Error parsing line {line_num} of {file_map_file}: "
                        f"expected two tab-separated fields but got {len(fields)}"
                    )
                key, path = (field.strip() for field in fields)
                entries.append(
                    (key, resolve_relative_to / path if resolve_relative_to else Path(path))
                )
        ret = immutabledict(entries)
        if log_name:
            _logger.info("Loaded %s %s from %s", len(ret), log_name, file_map_file)
        return ret
''')
r(P, '''        current = self
        namespaces_processed = []
        for param_component in param_components:
            if not isinstance(current, Parameters):
                if default is not None:
                    return default
                elif optional:
                    return None
                else:
''', '''        current = self
        namespaces_processed = []
        missing_is_fine = optional or default is not None
        for param_component in param_components:
            if not isinstance(current, Parameters):
                if missing_is_fine:
                    return default
                else:
''')
r(P, '''            elif default is not None:
                return default
            elif optional:
                return None
            else:
                if namespaces_processed:
''', '''            elif missing_is_fine:
                return default
            else:
                if namespaces_processed:
''')
r(P, '''                    previously_loaded = previously_loaded.unify(
                        self._inner_load_from_string(
                            included_file_path.read_text(encoding="utf-8"),
                            error_string=str(included_file_path),
                            includes_are_relative_to=included_file_path.parent,
                            included_context=previously_loaded,
                        )
                    )
                del raw_yaml["_includes"]
''', '''                    previously_loaded = previously_loaded.unify(
                        self.load(included_file_path, included_context=previously_loaded)
                    )
                raw_yaml = {k: v for k, v in raw_yaml.items() if k != "_includes"}
''')
r(P, '''            interpolation_context = dict(previously_loaded.as_nested_dicts())
            if self.interpolate_environmental_variables:
                for k, v in os.environ.items():
                    # environmental variables are overridden by explicit parameters,
                    # and names containing the namespace separator cannot be parameters
                    if k not in interpolation_context and "." not in k:
                        interpolation_context[k] = v
''', '''            interpolation_context: Dict[str, Any] = {}
            if self.interpolate_environmental_variables:
                interpolation_context.update(
                    (k, v) for k, v in os.environ.items() if "." not in k
                )
            interpolation_context.update(previously_loaded.as_nested_dicts())
''')
r(P, '''        nodes = list()
        edges = list()

        def gather_interpolation_edges(params: Parameters) -> None:
            for key, val in params.namespaced_items():
                if isinstance(val, str):
                    for interp_match in YAMLParametersLoader._INTERPOLATION_REGEX.findall(
                        val
                    ):
                        nodes.append(key)
                        if (
                            get_from_nested_dict(mutable_parameters, interp_match)
                            is not None
                        ):
                            # We don't want to include nodes from the context in the interpolation
                            # ordering since the context is present
                            # only to be referred to by for interpolation into other parameters,
                            # not to include its parameters directly in the interpolation result.
                            nodes.append(interp_match)
                            edges.append((key, interp_match))
                elif isinstance(val, Parameters):
                    gather_interpolation_edges(val)

        gather_interpolation_edges(to_interpolate)
''', '''        strings = [(k, v) for k, v in to_interpolate.namespaced_items() if isinstance(v, str)]
        references = [
            (key, match.group(1))
            for key, val in strings
            for match in YAMLParametersLoader._INTERPOLATION_REGEX.finditer(val)
        ]
        edges = [
            (key, name)
            for key, name in references
            if get_from_nested_dict(mutable_parameters, name) is not None
        ]
        nodes = [key for key, _ in references] + [name for _, name in edges]
''')
r(P, '''        if isinstance(param_node, Path):
            return str(param_node)
        elif isinstance(param_node, Mapping):
            return {k: self._preprocess_dicts(v) for (k, v) in param_node.items()}
        elif param_node is None or isinstance(param_node, (str, int, float)):
            return param_node
        # we need to check this explicitly because otherwise
        # they would trigger the check for sequences below
        elif isinstance(param_node, (bytes, bytearray)):
            raise RuntimeError("bytes and bytearrays are not legal parameter values")
        elif isinstance(param_node, Sequence):
            return [self._preprocess_dicts(item) for item in param_node]
        else:
            raise RuntimeError(
                f"Don't know how to serialize out {param_node} as a parameter value"
            )
''', '''        if param_node is None or isinstance(param_node, (str, int, float)):
            return param_node
        if isinstance(param_node, (bytes, bytearray)):
            raise RuntimeError("bytes and bytearrays are not legal parameter values")
        if isinstance(param_node, Path):
            return str(param_node)
        if isinstance(param_node, Mapping):
            return dict(zip(param_node, map(self._preprocess_dicts, param_node.values())))
        if isinstance(param_node, Sequence):
            return list(map(self._preprocess_dicts, param_node))
        raise RuntimeError(
            f"Don't know how to serialize out {param_node} as a parameter value"
        )
''')
r(P, '''        def apply_factory(factory, params_to_pass):
            if inspect.isclass(factory):
                if hasattr(factory, "from_parameters"):
                    return getattr(factory, "from_parameters")(params_to_pass)
                else:
                    return factory()  # type: ignore
            elif callable(factory):
                return factory(params_to_pass)
            else:
                raise ParameterError(
                    f"Expected a class with from_parameters or a callable but got {factory}"
                )
''', '''        def apply_factory(factory, params_to_pass):
            if not callable(factory):
                raise ParameterError(
                    f"Expected a class with from_parameters or a callable but got {factory}"
                )
            if not isinstance(factory, type):
                return factory(params_to_pass)
            try:
                from_parameters = factory.from_parameters
            except AttributeError:
                return factory()  # type: ignore
            return from_parameters(params_to_pass)
''')
r(P, '''        if isinstance(sink, Path) or isinstance(sink, str):
            sink = CharSink.to_file(sink)
        with sink.open() as out:
            yaml.dump(
                self._preprocess_dicts(params.as_nested_dicts()),
                out,
''', '''        char_sink = sink if isinstance(sink, CharSink) else CharSink.to_file(sink)
        to_write = self._preprocess_dicts(params.as_nested_dicts())
        with char_sink.open() as out:
            yaml.dump(
                to_write,
                out,
''')
