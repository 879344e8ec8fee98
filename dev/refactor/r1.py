"""Behaviour-preserving rewrites of range.py, span.py, annotated_text_utils.py, iter_utils.py, _graph.py and others."""
FILES = {}


def r(f, old, new):
    FILES.setdefault(f, []).append((old, new))


R = "vistautils/range.py"
r(R, '''        # overridden by BelowAll, AboveAll
        if other is _BELOW_ALL:
            return 1
        if other is _ABOVE_ALL:
            return -1
        if self.endpoint < other.endpoint:  # type: ignore
            return -1
        elif other.endpoint < self.endpoint:  # type: ignore
            return 1
        else:
            # BelowValue precedes AboveValue
            if isinstance(self, _AboveValue):
                if isinstance(other, _AboveValue):
                    return 0
                else:
                    return 1
            else:
                if isinstance(other, _AboveValue):
                    return -1
                else:
                    return 0
''', '''        # overridden by BelowAll, AboveAll
        for special, result in ((_BELOW_ALL, 1), (_ABOVE_ALL, -1)):
            if other is special:
                return result
        mine, theirs = self.endpoint, other.endpoint
        if mine < theirs:  # type: ignore
            return -1
        if theirs < mine:  # type: ignore
            return 1
        # BelowValue precedes AboveValue
        return self._side() - other._side()

    def _side(self) -> int:
        return int(type(self) is _AboveValue)
''')
r(R, '''        return self._endpoint < other or self._endpoint == other
''', '''        return not other < self._endpoint
''')
r(R, '''        return self._lower_bound.is_less_than(val) and not self._upper_bound.is_less_than(
            val
        )
''', '''        if not self._lower_bound.is_less_than(val):
            return False
        return not self._upper_bound.is_less_than(val)
''')
r(R, '''        lower_cmp = self._lower_bound.compare_to(other._lower_bound)
        upper_cmp = self._upper_bound.compare_to(other._upper_bound)

        if lower_cmp <= 0 and upper_cmp >= 0:
            return self
        elif lower_cmp >= 0 and upper_cmp <= 0:
            return other
        else:
            return Range(
                self._lower_bound if lower_cmp <= 0 else other._lower_bound,
                self._upper_bound if upper_cmp >= 0 else other._upper_bound,
            )
''', '''        return Range(
            min(self._lower_bound, other._lower_bound),
            max((self._upper_bound, other._upper_bound)),
        )
''')
r(R, '''        lower_cmp = self._lower_bound.compare_to(other_range._lower_bound)
        upper_cmp = self._upper_bound.compare_to(other_range._upper_bound)
        if lower_cmp >= 0 >= upper_cmp:
            return True
        elif lower_cmp <= 0 <= upper_cmp:
            return True
        else:
            intersection_lb = (
                self._lower_bound if lower_cmp >= 0 else other_range._lower_bound
            )
            intersection_ub = (
                self._upper_bound if upper_cmp <= 0 else other_range._upper_bound
            )
            return intersection_lb <= intersection_ub
''', '''        return self.is_connected(other_range)
''')
r(R, '''            min(x._lower_bound for x in ranges), max(x._upper_bound for x in ranges)
''', '''            *(
                choose(map(operator.attrgetter(name), ranges))
                for choose, name in ((min, "_lower_bound"), (max, "_upper_bound"))
            )
''')
r(R, '''from abc import''', '''import functools
import itertools
import operator
from abc import''')
r(R, '''        if highest_range_beginning_at_or_below:
            if value in highest_range_beginning_at_or_below:
                return highest_range_beginning_at_or_below
        return None
''', '''        candidates = (highest_range_beginning_at_or_below,)
        return next((c for c in candidates if c is not None and value in c), None)
''')
r(R, '''        highest_range_at_or_above = _value_at_or_above(
            self._ranges_by_lower_bound, query_rng._lower_bound
        )
        if highest_range_at_or_above:
            start_idx = self._ranges_by_lower_bound.index(
                highest_range_at_or_above._lower_bound
            )
            ret: ImmutableSet.Builder[Range[T]] = ImmutableSet.builder()
            for idx in range(start_idx, len(self._ranges_by_lower_bound)):
                rng_at_idx = self._ranges_by_lower_bound.values()[idx]
                if query_rng.encloses(rng_at_idx):
                    ret.add(rng_at_idx)
                else:
                    break
            return ret.build()
        else:
            return immutableset()
''', '''        candidates = map(
            self._ranges_by_lower_bound.__getitem__,
            self._ranges_by_lower_bound.irange(minimum=query_rng._lower_bound),
        )
        return immutableset(itertools.takewhile(query_rng.encloses, candidates))
''')
r(R, '''        if self.is_empty():
            return immutableset()
        rlb = self._ranges_by_lower_bound
        from_index = rlb.bisect(rng._lower_bound)
        # If we would insert at the end (are greater than all the elements, the only range that
        # could possibly overlap is the last one.
        if from_index == len(rlb):
            last_range: Range[T] = rlb[rlb.keys()[-1]]
            if last_range.intersects(rng):
                return immutableset([last_range])
            return immutableset()
        to_index = rlb.bisect(rng._upper_bound)
        # If we would insert at the start (are smaller than all the elements, the only range that
        # could possibly overlap is the first one.
        if to_index == 0:
            first_range: Range[T] = rlb[rlb.keys()[0]]
            if first_range.intersects(rng):
                return immutableset([first_range])
            return immutableset()
        return immutableset(
            [
                rlb[rlb.keys()[index]]
                # The ranges at the extreme indices do not necessarily overlap,
                for index in range(
                    max(0, from_index - 1), to_index
                )  # range method is not inclusive
                # so this explicit check is needed.
                if rlb[rlb.keys()[index]].intersects(rng)
            ]
        )
''', '''        overlapping = []
        for _, member in self._ranges_by_lower_bound.items():
            if member.intersects(rng):
                overlapping.append(member)
        return immutableset(overlapping)
''')
r(R, '''        # insertion index into the sorted list of sets
        idx = sorted_dict.bisect_left(limit_as_bound)
        # so the index of the "latest" set with a lower bound preceding lower_limit is back one
        containing_or_below_index = idx - 1

        if containing_or_below_index >= 0:
            # if such a set exists, we need to check if we are contained in it...
            latest_beginning_before = sorted_dict[
                sorted_dict.keys()[containing_or_below_index]
            ]
            if limit_as_bound <= latest_beginning_before._upper_bound:
                return latest_beginning_before

        if idx < len(sorted_dict):
            return sorted_dict[sorted_dict.keys()[idx]]
        else:
            return None
''', '''        ranges = list(sorted_dict.values())
        while ranges and ranges[0]._upper_bound < limit_as_bound:
            del ranges[0]
        try:
            return ranges[0]
        except IndexError:
            return None
''')
r(R, '''        lb_to_add = range_to_add._lower_bound
        ub_to_add = range_to_add._upper_bound

        range_below_lb: Optional[Range[T]] = _value_below(
            self._ranges_by_lower_bound, lb_to_add
        )

        # is there any range which begins strictly before range_to_add's lower bound?
        # if so, range_to_add's beginning might lie within that range...
        if range_below_lb and lb_to_add <= range_below_lb._upper_bound:
            # and we need to coalesce with it by extending the bounds to include
            # that range's lower bound
            lb_to_add = range_below_lb._lower_bound
            # if the upper bound exceeds ours, too, then our range to add is entirely
            # contained within range_below_lb. Since this is already in the set, we
            # have nothing to do
            if ub_to_add < range_below_lb._upper_bound:
                return self

        # now we need to check of coalescing and connectedness on the upper end
        range_below_ub: Optional[Range[T]] = _value_at_or_below(
            self._ranges_by_lower_bound, ub_to_add
        )
        if range_below_ub and ub_to_add < range_below_ub._upper_bound:
            ub_to_add = range_below_ub._upper_bound

        # any ranges which lie within the range we are getting ready to add are subsumed in it
        _clear(self._ranges_by_lower_bound, lb_to_add, ub_to_add)

        self._replace_range_with_same_lower_bound(Range(lb_to_add, ub_to_add))
        return self
''', '''        members = self._ranges_by_lower_bound
        connected = [m for m in members.values() if m.is_connected(range_to_add)]
        for member in connected:
            members.pop(member._lower_bound)
        merged = functools.reduce(lambda x, y: x.span(y), connected, range_to_add)
        members.setdefault(merged._lower_bound, merged)
        return self
''')
r(R, '''        return len(self._ranges_by_lower_bound) == 0
''', '''        return not self._ranges_by_lower_bound
''')
r(R, '''    idx = sorted_dict.bisect_left(key) - 1
    if idx >= 0:
        if idx >= len(sorted_dict):
            idx = len(sorted_dict) - 1
        lb_key = sorted_dict.keys()[idx]
        return sorted_dict[lb_key]
    else:
        return None
''', '''    below = next(
        iter(sorted_dict.irange(maximum=key, inclusive=(True, False), reverse=True)), None
    )
    return None if below is None else sorted_dict[below]
''')
r(R, '''    idx = sorted_dict.bisect_left(key)

    if idx >= len(sorted_dict) or key != sorted_dict.keys()[idx]:
        if idx > 0:
            key = sorted_dict.keys()[idx - 1]
        else:
            return None
    return sorted_dict[key]
''', '''    idx = sorted_dict.bisect_right(key) - 1
    return sorted_dict.peekitem(idx)[1] if idx >= 0 else None
''')
r(R, '''        ret: ImmutableSet.Builder[V] = ImmutableSet.builder()
        for rng_key in self.range_set.ranges_enclosed_by(rng):
            ret.add(self.rng_to_val[rng_key])
        return ret.build()
''', '''        return immutableset(
            self.rng_to_val[key] for key in self.range_set.ranges_enclosed_by(rng)
        )
''')
r(R, '''        probe_range = self.range_set.rightmost_containing_or_below(key)
        return self.rng_to_val[probe_range] if probe_range else None
''', '''        return self._value_of(self.range_set.rightmost_containing_or_below(key))

    def _value_of(self, rng: Optional[Range[K]]) -> Optional[V]:
        if rng is None:
            return None
        return self.rng_to_val.get(rng)
''')
S = "vistautils/span.py"
r(S, '''        if self.overlaps(other):
            range_intersection = self.as_range().intersection(other.as_range())
            return Span(
                range_intersection.lower_endpoint, range_intersection.upper_endpoint + 1
            )
        else:
            return None
''', '''        return self.clip_to(other)
''')
r(S, '''        if not enclosing.overlaps(self):
            return None
        if enclosing.contains_span(self):
            return self
        return Span(max(self.start, enclosing.start), min(self.end, enclosing.end))
''', '''        start = self.start if self.start > enclosing.start else enclosing.start
        end = enclosing.end if enclosing.end < self.end else self.end
        return Span(start, end) if start < end else None
''')
r(S, '''        spans = tuple(spans)
        return Span(min(span.start for span in spans), max(span.end for span in spans))
''', '''        start: Optional[int] = None
        end: Optional[int] = None
        for span in spans:
            if start is None or span.start < start:
                start = span.start
            if end is None or end < span.end:
                end = span.end
        if start is None or end is None:
            raise ValueError("No spans given")
        return Span(start, end)
''')
r(S, '''    @start.validator
    def _validate_start(self, attr, val):  # pylint:disable=unused-argument
        check_arg(
            self.start < self.end,
            "Start offset must be strictly less then end offset but " "got [%s,%s)",
            (self.start, self.end),
        )
''', '''    def __attrs_post_init__(self) -> None:
        if not self.start < self.end:
            raise ValueError(
                f"Start offset must be strictly less then end offset but got "
                f"[{self.start},{self.end})"
            )
''')
r(S, '''        return "[%s:%s)" % (self.start, self.end)
''', '''        return f"[{self.start}:{self.end})"
''')
r(S, '''        return immutableset(
            item
            for candidate_span in self._span_to_item_index
            for item in self._span_to_item_index[candidate_span]
            if candidate_span.overlaps(span)
        )
''', '''        return self._items_where(lambda candidate: candidate.overlaps(span))

    def _items_where(self, predicate) -> ImmutableSet[T]:
        ret = []
        for candidate_span, item in self._span_to_item_index.items():
            if predicate(candidate_span):
                ret.append(item)
        return immutableset(ret)
''')
r(S, '''        rng = self._range_to_item_index.range_set.range_enclosing_range(span.as_range())
        return self._range_to_item_index.rng_to_val[rng] if rng else None
''', '''        index = self._range_to_item_index
        for candidate, item in index.rng_to_val.items():
            if candidate.encloses(span.as_range()):
                return item
        return None
''')
A = "vistautils/annotated_text_utils.py"
r(A, '''        ret = io.StringIO()
        last_uncopied_offset = 0
        for tag in self._tag_sequence(processed_annotations):
            if last_uncopied_offset < tag.offset:
                ret.write(text[last_uncopied_offset : tag.offset])
                last_uncopied_offset = tag.offset

            ret.write(tag.string)

        # get any trailing text after last tag
        ret.write(text[last_uncopied_offset:])
        return ret.getvalue()
''', '''        tags = list(self._tag_sequence(processed_annotations))
        starts = [0] + [tag.offset for tag in tags]
        ends = [tag.offset for tag in tags] + [len(text)]
        strings = [tag.string for tag in tags] + [""]
        return "".join(
            text[start:end] + string for start, end, string in zip(starts, ends, strings)
        )
''')
r(A, '''        ret: List[AnnotatedSpan] = []
        for unclipped_annotation in unclipped_annotations:
            clipped_annotation_span = unclipped_annotation.span.clip_to(text_offsets)
            if clipped_annotation_span:
''', '''        ret: List[AnnotatedSpan] = []
        for unclipped_annotation in unclipped_annotations:
            clipped_annotation_span = unclipped_annotation.span.clip_to(text_offsets)
            if clipped_annotation_span is not None:
''')
r(A, '''        start_tags = (
            HTMLStyleAnnotationFormatter.Tag(to_start_tag(ann), True, ann.span.start)
            for ann in sorted(annotations, key=start_tag_key)
        )
''', '''        start_tags = [
            HTMLStyleAnnotationFormatter.Tag(
                string=to_start_tag(ann), is_start=True, offset=ann.span.start
            )
            for _, _, ann in sorted(
                (start_tag_key(ann), i, ann) for i, ann in enumerate(annotations)
            )
        ]
''')
I = "vistautils/iter_utils.py"
r(I, '''    win = deque(islice(it, window_size), window_size)
    if len(win) < window_size:
        return
    # cache method access for slight speed boost
    append = win.append
    yield tuple(win)
    for e in it:
        append(e)
        yield tuple(win)


def''', '''    window: Tuple[_T, ...] = tuple(islice(it, window_size))
    while len(window) == window_size:
        yield window
        try:
            window = window[1:] + (next(it),)
        except StopIteration:
            return


def''')
r(I, '''    try:
        ret = next(iterator)
    except StopIteration:
        raise ValueError("Expected only a single element in an iterable, but got none")

    second_element = next(iterator, _SENTINEL)
    if second_element is not _SENTINEL:
        raise ValueError("Expected only a single element in iterable, but got at least 2")
    return ret
''', '''    elements = list(islice(iterator, 2))
    if not elements:
        raise ValueError("Expected only a single element in an iterable, but got none")
    if len(elements) > 1:
        raise ValueError("Expected only a single element in iterable, but got at least 2")
    [ret] = elements
    return ret
''')
r(I, '''    return (x for x in iterable if x is not None)
''', '''    for x in iterable:
        if x is None:
            continue
        yield x
''')
G = "vistautils/_graph.py"
r(G, '''        indegree_map = {v: d for v, d in self.in_degree() if d > 0}
        zero_indegree = [v for v, d in self.in_degree() if d == 0]

        while zero_indegree:
            node = zero_indegree.pop()
            for child in self.edges[node]:
                indegree_map[child] -= 1
                if indegree_map[child] == 0:
                    zero_indegree.append(child)
                    del indegree_map[child]

            yield node
''', '''        indegree_map = {v: len(self.predecessors[v]) for v in self.nodes}
        ready = deque(v for v, d in indegree_map.items() if not d)
        for v in ready:
            indegree_map.pop(v)
        while ready:
            node = ready.popleft()
            for child in self.edges[node]:
                remaining = indegree_map[child] - 1
                if remaining:
                    indegree_map[child] = remaining
                else:
                    del indegree_map[child]
                    ready.append(child)
            yield node
''')
r(G, '''from typing import Any''', '''from collections import deque
from typing import Any''')
M = "vistautils/memory_amount.py"
r(M, '''        ret = _STRING_TO_UNIT.get(memory_unit_string.upper())
        if ret:
            return ret
        else:
            raise RuntimeError(
                f"For a memory unit, expected one of {set(_STRING_TO_UNIT.keys())}"
                f" but got {memory_unit_string}"
            )
''', '''        try:
            return _STRING_TO_UNIT[memory_unit_string.upper()]
        except KeyError as e:
            raise RuntimeError(
                f"For a memory unit, expected one of {set(_STRING_TO_UNIT.keys())}"
                f" but got {memory_unit_string}"
            ) from e
''')
r(M, '''        parts = MemoryAmount._PARSE_PATTERN.fullmatch(memory_string)
        if parts:
            return MemoryAmount(
                amount=int(parts.group(1)), unit=MemoryUnit.parse(parts.group(2))
            )
        else:
            raise RuntimeError(
                f"Cannot parse {memory_string} as an amount of memory.  "
                f"Expected an integer followed by K, M, G, or T"
            )
''', '''        parts = MemoryAmount._PARSE_PATTERN.fullmatch(memory_string)
        if parts is None:
            raise RuntimeError(
                f"Cannot parse {memory_string} as an amount of memory.  "
                f"Expected an integer followed by K, M, G, or T"
            )
        amount_string, unit_string = parts.groups()
        return MemoryAmount(int(amount_string), unit=MemoryUnit.parse(unit_string))
''')
C = "vistautils/checkpoints.py"
r(C, '''        Path(self.directory, name).touch(exist_ok=True)
''', '''        with (self.directory / name).open("ab"):
            pass
''')
r(C, '''        return Path(self.directory, item).is_file()
''', '''        return self.directory.joinpath(item).is_file()
''')
r(C, '''        shutil.rmtree(str(self.directory))
        self.directory.mkdir(parents=True, exist_ok=True)
''', '''        shutil.rmtree(self.directory)
        os.makedirs(self.directory, exist_ok=True)
''')
r(C, '''import shutil''', '''import os
import shutil''')
