"""Behaviour-preserving rewrites of the scripts and the small modules."""
FILES = {}


def r(f, old, new):
    FILES.setdefault(f, []).append((old, new))


D = "vistautils/scripts/directory_to_key_value_store.py"
r(D, '''    with byte_key_value_sink_from_params(params, eval_context=locals()) as sink:
        for item_path in input_directory.rglob("*"):
            if item_path.is_file():
                logging.info("Copying %s to output sink", item_path)
                sink.put(key=key_function(item_path), value=item_path.read_bytes())
''', '''    items = [path for path in input_directory.glob("**/*") if path.is_file()]
    with byte_key_value_sink_from_params(params, eval_context=locals()) as sink:
        for item_path in items:
            logging.info("Copying %s to output sink", item_path)
            with item_path.open("rb") as inp:
                sink[key_function(item_path)] = inp.read()
''')
r(D, '''    key_function_string = (
        params.optional_string("key_function", [IDENTITY, STRIP_ONE_EXTENSION])
        or IDENTITY
    )
    if key_function_string == IDENTITY:
        return identity_key_function
    elif key_function_string == STRIP_ONE_EXTENSION:
        return strip_one_extension_key_function
    else:
        raise NotImplementedError(f"Unknown key function %s", key_function_string)
''', '''    functions = {
        IDENTITY: identity_key_function,
        STRIP_ONE_EXTENSION: strip_one_extension_key_function,
    }
    return functions[
        params.string("key_function", valid_options=list(functions), default=IDENTITY)
    ]
''')
r(D, '''    return path.stem
''', '''    return path.with_suffix("").name
''')

S = "vistautils/scripts/downsample_key_value_store.py"
r(S, '''        keys = list(input_source.keys())
        num_to_sample = min(params.positive_integer(_NUM_TO_SAMPLE_PARAM), len(keys))
        random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
        keys_to_keep = keys[:num_to_sample]
        output_zip_path = params.creatable_file("output_zip_path")
''', '''        output_zip_path = params.creatable_file("output_zip_path")
        requested = params.positive_integer(_NUM_TO_SAMPLE_PARAM)
        rng = random.Random(params.integer(_RANDOM_SEED_PARAM, default=0))
        keys_to_keep = _sample(input_source.keys(), requested, rng)
        num_to_sample = len(keys_to_keep)
''')
r(S, '''            for key in keys_to_keep:
                out.put(key, input_source[key])
''', '''            for key in keys_to_keep:
                out[key] = input_source[key]


def _sample(population, size: int, rng: random.Random):
    shuffled = [*population]
    rng.shuffle(shuffled)
    del shuffled[size:]
    return shuffled
''')

J = "vistautils/scripts/join_key_value_stores.py"
r(J, '''    keys_written: Set[str] = set()
    with byte_key_value_sink_from_params(params, eval_context=locals()) as out:
        for input_path in input_paths:
            with KeyValueSource.zip_bytes_source(input_path) as inp:
                for key in inp.keys():
                    if key in keys_written:
                        raise RuntimeError("Duplicate key: {}".format(key))
                    keys_written.add(key)
                    out[key] = inp[key]
''', '''    keys_written: Set[str] = set()
    with byte_key_value_sink_from_params(params, eval_context=locals()) as out:
        for input_path in input_paths:
            _append(input_path, out, keys_written)


def _append(input_path, out, keys_written: Set[str]) -> None:
    with KeyValueSource.zip_bytes_source(input_path) as inp:
        for key, value in inp.items():
            before = len(keys_written)
            keys_written.add(key)
            if len(keys_written) == before:
                raise RuntimeError(f"Duplicate key: {key}")
            out.put(key, value)
''')

X = "vistautils/scripts/split_key_value_store.py"
r(X, "import random\nfrom contextlib import ExitStack\n", "import itertools\nimport random\nfrom contextlib import ExitStack\n")
r(X, '''    slice_paths = [output_directory / "{!s}.zip".format(i) for i in range(slices)]
    CharSink.to_file(output_directory / "_slices.txt").write(
        "\\n".join(str(x) for x in slice_paths)
    )
    output_sinks = [KeyValueSink.zip_bytes_sink(slice_path) for slice_path in slice_paths]
''', '''    slice_paths = [output_directory / f"{i}.zip" for i in range(slices)]
    listing = CharSink.to_file(output_directory / "_slices.txt")
    listing.write("\\n".join(map(str, slice_paths)))
    output_sinks = list(map(KeyValueSink.zip_bytes_sink, slice_paths))
''')
r(X, '''        input_keys = sorted(
            list(input_source.keys())  # type: ignore
        )  # guarantee deterministic iteration order
        if random_seed:
            random.seed(random_seed)
            random.shuffle(input_keys)
        for (i, k) in enumerate(input_keys):
            output_sinks[i % slices].put(k, input_source[k])
''', '''        input_keys = list(input_source.keys())  # type: ignore
        input_keys.sort()  # guarantee deterministic iteration order
        if random_seed:
            random.seed(random_seed)
            random.shuffle(input_keys)
        for (output_sink, k) in zip(itertools.cycle(output_sinks), input_keys):
            output_sink.put(k, input_source[k])
''')
r(X, '''    keys_copied = []
''', '''    keys_copied = set()
''')
r(X, '''                source_value = source.get(key)
                if source_value is not None:
                    split_sink.put(key, source_value)
                    keys_copied.append(key)
                else:
                    error_message = (
                        f"For split specified in {split_namespace.namespace_prefix}, "
                        f"requested key value {key} not found in {source}."
                    )
                    available_keys = source.keys()
                    if available_keys is not None:
                        error_message = (
                            f"{error_message} Here are a few"  # type: ignore
                            f"available keys: {str_list_limited(source.keys(), 10)}"
                        )
                    raise RuntimeError(error_message)
''', '''                source_value = source.get(key)
                if source_value is None:
                    raise RuntimeError(_missing_message(split_namespace, key, source))
                split_sink[key] = source_value
                keys_copied.add(key)
''')
r(X, '''    if explicit_split_namespace.boolean(
        "must_be_exhaustive", default=params.boolean("must_be_exhaustive", default=True)
    ):
        keys_not_copied = immutableset(source.keys()) - set(keys_copied)
        if keys_not_copied:
''', '''    default_exhaustive = params.boolean("must_be_exhaustive", default=True)
    if explicit_split_namespace.boolean("must_be_exhaustive", default=default_exhaustive):
        keys_not_copied = [key for key in source.keys() if key not in keys_copied]
        if keys_not_copied:
''')
r(X, '''def _explicit_split(''', '''def _missing_message(split_namespace, key, source) -> str:
    error_message = (
        f"For split specified in {split_namespace.namespace_prefix}, "
        f"requested key value {key} not found in {source}."
    )
    available_keys = source.keys()
    if available_keys is None:
        return error_message
    return (
        f"{error_message} Here are a few available keys: "
        f"{str_list_limited(available_keys, 10)}"
    )


def _explicit_split(''')

T = "vistautils/scripts/tar_gz_to_zip.py"
r(T, '''    with ZipFile(output_zip_name, "x") as out:
        with tarfile.open(tar_file) as inp:
            if dont_stream:
                inp.extractall()
                for member in inp:
                    if member.isfile():
                        if omit_large_files and member.size > large_file_cutoff:
                            print(
                                f"WARNING: Omitting {member.name} as "
                                f"its size {member.size / 1e9:.2f} GB "
                                f"exceeds {args.large_file_cutoff:.2f} GB"
                            )
                        else:
                            out.write(member.name)
                    if not member.isdir():
                        os.remove(member.name)
            else:
                for member in inp:
                    if member.isfile():
                        if omit_large_files and member.size > large_file_cutoff:
                            print(
                                f"WARNING: Omitting {member.name} as "
                                f"its size {member.size / 1e9:.2f} GB "
                                f"exceeds {args.large_file_cutoff:.2f} GB"
                            )
                        else:
                            print(f"Copying {member.name}")
                            with inp.extractfile(member) as data:
                                out.writestr(member.name, data.read())
''', '''    def too_large(member) -> bool:
        if not omit_large_files or member.size <= large_file_cutoff:
            return False
        print(
            f"WARNING: Omitting {member.name} as "
            f"its size {member.size / 1e9:.2f} GB "
            f"exceeds {args.large_file_cutoff:.2f} GB"
        )
        return True

    with ZipFile(output_zip_name, "x") as out, tarfile.open(tar_file) as inp:
        if dont_stream:
            inp.extractall()
        for member in inp.getmembers():
            if member.isfile() and not too_large(member):
                if dont_stream:
                    out.write(member.name)
                else:
                    print(f"Copying {member.name}")
                    with inp.extractfile(member) as data, out.open(
                        member.name, "w"
                    ) as copy:
                        copy.write(data.read())
            if dont_stream and not member.isdir():
                os.unlink(member.name)
''')
r(T, '''    valid_extensions = [".tar", ".tgz", ".tar.gz"]
    for valid_extension in valid_extensions:
        if filename.endswith(valid_extension):
            filename = filename[: len(filename) - len(valid_extension)]
            break
    return filename + ".zip"
''', '''    stem = next(
        (
            filename[: -len(extension)]
            for extension in (".tar", ".tgz", ".tar.gz")
            if filename.endswith(extension)
        ),
        filename,
    )
    return f"{stem}.zip"
''')
O = "vistautils/scripts/text_at_offsets.py"
r(O, '''    with open(args.text_file_path, "r", encoding="utf-8", newline="\\n") as text_file:
        # we read the entire file into memory for convenience. Typically files for NLP applications
        # aren't big enough for this to be a problem.
        text = text_file.read()
        if start_offset_inclusive < 0 or start_offset_inclusive >= len(text):
            print(
                f"Inclusive start offset out-of-bounds: {start_offset_inclusive} not in "
                f"[0:{len(text)})"
            )
        if end_offset_exclusive <= start_offset_inclusive or end_offset_exclusive > len(
            text
        ):
            print(
                f"Exclusive end offset out-of-bounds: {end_offset_exclusive} not in "
                f"({start_offset_inclusive}:{len(text)}]"
            )
        print(text[start_offset_inclusive:end_offset_exclusive])
''', '''    with open(args.text_file_path, "rb") as text_file:
        text = text_file.read().decode("utf-8")
    size = len(text)
    if not 0 <= start_offset_inclusive < size:
        print(
            "Inclusive start offset out-of-bounds: %d not in [0:%d)"
            % (start_offset_inclusive, size)
        )
    if not start_offset_inclusive < end_offset_exclusive <= size:
        print(
            f"Exclusive end offset out-of-bounds: {end_offset_exclusive} not in "
            f"({start_offset_inclusive}:{size}]"
        )
    print(text[slice(start_offset_inclusive, end_offset_exclusive)])
''')

L = "vistautils/logging_utils.py"
r(L, '''    if "logging.config_file" in params:
        logging.config.fileConfig(str(params.existing_file("logging.config_file")))
    else:
        _config_logging_from_params(params)
''', '''    config_file = params.optional_existing_file("logging.config_file")
    if config_file is None:
        _config_logging_from_params(params)
    else:
        logging.config.fileConfig(str(config_file))
''')
r(L, '''    set_root_level_to = "INFO"
''', '')
r(L, '''    if "logging.root_level" in params:
        set_root_level_to = params.string("logging.root_level")

    try:
        level = _LEVEL_STRINGS_TO_LEVELS[set_root_level_to]
    except KeyError:
        raise ParameterError(
            "Invalid logging level {!s}. Valid levels "
            "are {!s}".format(set_root_level_to, list(_LEVEL_STRINGS_TO_LEVELS.keys()))
        )
    logging.getLogger().setLevel(level)
''', '''    level_name = params.string("logging.root_level", default="INFO")
    level = _LEVEL_STRINGS_TO_LEVELS.get(level_name)
    if level is None:
        raise ParameterError(
            f"Invalid logging level {level_name}. Valid levels "
            f"are {[*_LEVEL_STRINGS_TO_LEVELS]}"
        )
    root = logging.getLogger()
    root.setLevel(level)
''')
r(L, '''    logging.getLogger().addHandler(console_handler)
''', '''    root.addHandler(console_handler)
''')

M = "vistautils/misc_utils.py"
r(M, '''    if limit < 0:
        raise ValueError("Limit must be positive")
    if not isinstance(_list, List):
        _list = list(_list)

    if len(_list) <= limit:
        return str(_list)
    else:
        return (
            "["
            + ", ".join(repr(x) for x in _list[:limit])
            + " and %s more" % (len(_list) - limit)
            + "]"
        )
''', '''    if limit < 0:
        raise ValueError("Limit must be positive")
    items = _list if isinstance(_list, List) else [*_list]
    surplus = len(items) - limit
    if surplus <= 0:
        return repr(items)
    shown = ", ".join(map(repr, items[:limit]))
    return f"[{shown} and {surplus} more]"
''')
r(M, '''        package_parts = module_name.split(".")
        # emulate the import statement's behavior of importing parent packages
        for package_part_idx in range(len(package_parts)):
            package_name = ".".join(package_parts[0 : package_part_idx + 1])
            if package_name not in context:
                context[package_name] = importlib.import_module(package_name)
''', '''        package_parts = module_name.split(".")
        # emulate the import statement's behavior of importing parent packages
        for stop, _ in enumerate(package_parts, start=1):
            package_name = ".".join(package_parts[:stop])
            if package_name in context:
                continue
            module = importlib.import_module(package_name)
            context[package_name] = module
''')
r(M, '''    if isinstance(p, Path):
        return p
    else:
        return Path(p)
''', '''    return p if isinstance(p, Path) else Path(p)
''')
r(M, '''    last_dot = name.rfind(".")
    if last_dot > -1:
        return name[:last_dot]
    else:
        return name
''', '''    stem, dot, _ = name.rpartition(".")
    return stem if dot else name
''')
r(M, '''    return list(chain.from_iterable(iterable_of_iterables))
''', '''    return [item for items in iterable_of_iterables for item in items]
''')
r(M, '''        preconditions.check_arg(self.item is not None)
        preconditions.check_arg(isinstance(self.id, str), "Id must be a string")
        preconditions.check_arg(self.id, "Doc IDs may not be empty")
''', '''        preconditions.check_arg(isinstance(self.id, str), "Id must be a string")
        preconditions.check_arg(len(self.id) > 0, "Doc IDs may not be empty")
        preconditions.check_arg(not self.item is None)
''')

C = "vistautils/preconditions.py"
r(C, '''    if x is None:
        if msg:
            raise ValueError(msg)
        else:
            raise ValueError()
    else:
        return x
''', '''    if x is not None:
        return x
    raise ValueError(*([msg] if msg else []))
''')
r(C, '''    if not result:
        if msg:
            raise ValueError(msg % (msg_args or ()))
        else:
            raise ValueError()
''', '''    if result:
        return
    if not msg:
        raise ValueError()
    raise ValueError(msg % (msg_args or ()))
''')
r(C, '''    for arg in args:
        check_arg(arg is None, msg)
''', '''    check_arg(all(arg is None for arg in args), msg)
''')
r(C, '''    if item is not None and not isinstance(item, classinfo):
        raise TypeError(
            "Expected instance of type {!r} but got type {!r} for {!r}".format(
                classinfo, type(item), item
            )
        )
    return item
''', '''    return None if item is None else check_isinstance(item, classinfo)
''')

E = "vistautils/parameters_only_entrypoint.py"
r(E, '''    if not program_name:
        # Get original script name for use in the usage message.
        import __main__ as main  # pylint:disable=import-outside-toplevel

        program_name = os.path.basename(main.__file__)

    arg_parser = ArgumentParser(prog=program_name, description=usage_message)
    if parameters is None:
        arg_parser.add_argument("param_file", type=Path)
    arg_parser.add_argument("-p", action="append", nargs=2, required=False)

    parsed_args = arg_parser.parse_args(args)

    if parameters is None:
        params = YAMLParametersLoader().load(parsed_args.param_file)
    else:
        params = parameters
    if parsed_args.p:
        params = params.unify(params.from_key_value_pairs(parsed_args.p))
''', '''    if not program_name:
        # Get original script name for use in the usage message.
        import __main__ as main  # pylint:disable=import-outside-toplevel

        program_name = Path(main.__file__).name

    arg_parser = ArgumentParser(program_name, description=usage_message)
    if parameters is None:
        arg_parser.add_argument("param_file")
    arg_parser.add_argument(
        "-p", action="append", nargs=2, dest="overrides", default=[]
    )

    parsed_args = arg_parser.parse_args(list(args))

    params = parameters
    if params is None:
        params = YAMLParametersLoader().load(Path(parsed_args.param_file))
    if parsed_args.overrides:
        overrides = Parameters.from_key_value_pairs(
            (name, value) for name, value in parsed_args.overrides
        )
        params = params.unify(overrides)
''')

A = "vistautils/attrutils.py"
r(A, '''    if val is None:
        return type_.empty()
    else:
        return type_.of(val)
''', '''    return type_.of(val) if val is not None else type_.empty()
''')
CU = "vistautils/collection_utils.py"
r(CU, '''    it = iter(seq)
    try:
        first_element = it.__next__()
        # we use the sentinel approach rather than the usual (evil) Python "attempt can catch the
        # exception" approach to avoid raising zillions of spurious exceptions on the expected
        # code path, which makes debugging a pain
        sentinel = object()
        second_element = next(it, sentinel)
        if second_element is sentinel:
            return first_element
        else:
            got_msg: str
            if isinstance(seq, Sized):
                got_msg = str_list_limited(seq, limit=10)
            else:
                got_msg = f"{first_element!r}, {second_element!r}, and possibly more."
            raise ValueError(f"Expected one item in sequence but got {got_msg}")
    except StopIteration:
        raise ValueError("Expected one item in sequence but got none")
''', '''    first_two = list(islice(seq, 2))
    if not first_two:
        raise ValueError("Expected one item in sequence but got none")
    if len(first_two) == 1:
        return first_two[0]
    got_msg = (
        str_list_limited(seq, limit=10)
        if isinstance(seq, Sized)
        else "{!r}, {!r}, and possibly more.".format(*first_two)
    )
    raise ValueError(f"Expected one item in sequence but got {got_msg}")
''')
r(CU, "from typing import Iterable, Sized, TypeVar\n", "from itertools import islice\nfrom typing import Iterable, Sized, TypeVar\n")
Q = "vistautils/class_utils.py"
r(Q, '''        module = clazz.__module__
''', '''        module = getattr(clazz, "__module__", None)
''')
r(Q, '''    return fully_qualified_name(obj.__class__)
''', '''    return fully_qualified_name(type(obj))
''')
