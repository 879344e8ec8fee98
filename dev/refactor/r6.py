"""Behaviour-preserving rewrites of the ranges, spans and annotations which replace whole algorithms."""
FILES = {}


def r(f, old, new):
    FILES.setdefault(f, []).append((old, new))


G = "vistautils/range.py"
S = "vistautils/span.py"
A = "vistautils/annotated_text_utils.py"
r(G, '''        # overridden by BelowAll, AboveAll
        if other is _BELOW_ALL:
            return 1
        if other is _ABOVE_ALL:
            return -1
        if self.endpoint < other.endpoint:  # type: ignore
            return -1
        elif other.endpoint < self.endpoint:  # type: ignore
            return 1
        else:
            # BelowValue precedes AboveValue
            if isinstance(self, _AboveValue):
                if isinstance(other, _AboveValue):
                    return 0
                else:
                    return 1
            else:
                if isinstance(other, _AboveValue):
                    return -1
                else:
                    return 0
''', '''        if isinstance(other, (_BelowAll, _AboveAll)):
            return 1 if isinstance(other, _BelowAll) else -1
        mine, theirs = self.endpoint, other.endpoint
        if mine < theirs or theirs < mine:
            return -1 if mine < theirs else 1
        return isinstance(self, _AboveValue) - isinstance(other, _AboveValue)
''')
r(G, '''        check_not_none(val)
        return self._lower_bound.is_less_than(val) and not self._upper_bound.is_less_than(
            val
        )
''', '''        check_not_none(val)
        below: _Cut[T] = _BelowValue(val)
        above: _Cut[T] = _AboveValue(val)
        return self._lower_bound <= below and above <= self._upper_bound
''')
r(G, '''        # noinspection PyChainedComparisons
        return (
            self._lower_bound.compare_to(other._lower_bound) <= 0
            and self._upper_bound.compare_to(other._upper_bound) >= 0
        )
''', '''        if other._lower_bound < self._lower_bound:
            return False
        return not self._upper_bound < other._upper_bound
''')
r(G, '''        return (
            self._lower_bound <= other._upper_bound
            and other._lower_bound <= self._upper_bound
        )
''', '''        return max(self._lower_bound, other._lower_bound) <= min(
            self._upper_bound, other._upper_bound
        )
''')
r(G, '''        lower_cmp = self._lower_bound.compare_to(other._lower_bound)
        upper_cmp = self._upper_bound.compare_to(other._upper_bound)

        if lower_cmp <= 0 and upper_cmp >= 0:
            return self
        elif lower_cmp >= 0 and upper_cmp <= 0:
            return other
        else:
            return Range(
                self._lower_bound if lower_cmp <= 0 else other._lower_bound,
                self._upper_bound if upper_cmp >= 0 else other._upper_bound,
            )
''', '''        return Range.create_spanning([self, other])
''')
r(G, '''        lower_cmp = self._lower_bound.compare_to(connected_range._lower_bound)
        upper_cmp = self._upper_bound.compare_to(connected_range._upper_bound)
        if lower_cmp >= 0 >= upper_cmp:
            return self
        elif lower_cmp <= 0 <= upper_cmp:
            return connected_range
        else:
            return Range(
                self._lower_bound if lower_cmp >= 0 else connected_range._lower_bound,
                self._upper_bound if upper_cmp <= 0 else connected_range._upper_bound,
            )
''', '''        both = (self, connected_range)
        return Range(
            max((x._lower_bound for x in both)), min((x._upper_bound for x in both))
        )
''')
r(G, '''        lower_cmp = self._lower_bound.compare_to(other_range._lower_bound)
        upper_cmp = self._upper_bound.compare_to(other_range._upper_bound)
        if lower_cmp >= 0 >= upper_cmp:
            return True
        elif lower_cmp <= 0 <= upper_cmp:
            return True
        else:
            intersection_lb = (
                self._lower_bound if lower_cmp >= 0 else other_range._lower_bound
            )
            intersection_ub = (
                self._upper_bound if upper_cmp <= 0 else other_range._upper_bound
            )
            return intersection_lb <= intersection_ub
''', '''        return self.is_connected(other_range)
''')
r(G, '''        if isinstance(other, Range):
            return (
                self._lower_bound == other._lower_bound
                and self._upper_bound == other._upper_bound
            )
        return False
''', '''        if not isinstance(other, Range):
            return False
        return (self._lower_bound, self._upper_bound) == (
            other._lower_bound,
            other._upper_bound,
        )
''')
r(G, '''        return hash(self._lower_bound) + 31 * hash(self._upper_bound)
''', '''        return hash((self._lower_bound, self._upper_bound))
''')
r(G, '''        if not ranges:
            raise ValueError("Cannot create range from span of empty range collection")
        return Range(
            min(x._lower_bound for x in ranges), max(x._upper_bound for x in ranges)
        )
''', '''        lower: Optional[_Cut[T]] = None
        upper: Optional[_Cut[T]] = None
        for rng in ranges:
            if lower is None or rng._lower_bound < lower:
                lower = rng._lower_bound
            if upper is None or upper < rng._upper_bound:
                upper = rng._upper_bound
        if lower is None or upper is None:
            raise ValueError("Cannot create range from span of empty range collection")
        return Range(lower, upper)
''')
r(G, '''        if isinstance(rngs, RangeSet):
            return self.encloses_all(rngs.as_ranges())
        for rng in rngs:
            if not self.encloses(rng):
                return False
        return True
''', '''        to_check = rngs.as_ranges() if isinstance(rngs, RangeSet) else rngs
        return all(map(self.encloses, to_check))
''')
r(G, '''        if isinstance(other, RangeSet):
            return ImmutableSet.of(self.as_ranges()) == ImmutableSet.of(other.as_ranges())
        else:
            return False
''', '''        return isinstance(other, RangeSet) and list(self.as_ranges()) == list(
            other.as_ranges()
        )
''')
r(G, '''        if self.is_empty():
            return ()
        return tuple(self.as_ranges())
''', '''        return tuple(rng for rng in self.as_ranges())
''')
r(G, '''        highest_range_beginning_at_or_below = _value_at_or_below(
            self._ranges_by_lower_bound, _BelowValue(value)
        )
        if highest_range_beginning_at_or_below:
            if value in highest_range_beginning_at_or_below:
                return highest_range_beginning_at_or_below
        return None
''', '''        candidate = self.rightmost_containing_or_below(value)
        return candidate if candidate is not None and value in candidate else None
''')
r(G, '''        highest_range_at_or_above = _value_at_or_above(
            self._ranges_by_lower_bound, query_rng._lower_bound
        )
        if highest_range_at_or_above:
            start_idx = self._ranges_by_lower_bound.index(
                highest_range_at_or_above._lower_bound
            )
            ret: ImmutableSet.Builder[Range[T]] = ImmutableSet.builder()
            for idx in range(start_idx, len(self._ranges_by_lower_bound)):
                rng_at_idx = self._ranges_by_lower_bound.values()[idx]
                if query_rng.encloses(rng_at_idx):
                    ret.add(rng_at_idx)
                else:
                    break
            return ret.build()
        else:
            return immutableset()
''', '''        candidates = (
            self._ranges_by_lower_bound[lower_bound]
            for lower_bound in self._ranges_by_lower_bound.irange(
                minimum=query_rng._lower_bound
            )
        )
        return immutableset(itertools.takewhile(query_rng.encloses, candidates))
''')
r(G, '''        highest_range_beginning_at_or_below = _value_at_or_below(
            self._ranges_by_lower_bound, _BelowValue(value)
        )
        return bool(
            highest_range_beginning_at_or_below
            and value in highest_range_beginning_at_or_below
        )
''', '''        return self.range_containing(value) is not None
''')
r(G, '''        highest_range_beginning_at_or_below = _value_at_or_below(
            self._ranges_by_lower_bound, rng._lower_bound
        )
        return bool(
            highest_range_beginning_at_or_below
            and highest_range_beginning_at_or_below.encloses(rng)
        )
''', '''        return self.range_enclosing_range(rng) is not None
''')
r(G, '''        ceiling_range: Optional[Range[T]] = _value_at_or_above(
            self._ranges_by_lower_bound, rng._lower_bound
        )
        if (
            ceiling_range
            and ceiling_range.is_connected(rng)
            and not ceiling_range.intersection(rng).is_empty()
        ):
            return True
        # check strictness of lowerEntry
        lower_range: Optional[Range[T]] = _value_below(
            self._ranges_by_lower_bound, rng._lower_bound
        )
        return bool(
            lower_range
            and lower_range.is_connected(rng)
            and not lower_range.intersection(rng).is_empty()
        )
''', '''        for lookup in (_value_at_or_above, _value_below):
            neighbour: Optional[Range[T]] = lookup(
                self._ranges_by_lower_bound, rng._lower_bound
            )
            if neighbour is None or not neighbour.is_connected(rng):
                continue
            if not neighbour.intersection(rng).is_empty():
                return True
        return False
''')
r(G, '''        if self.is_empty():
            return immutableset()
        rlb = self._ranges_by_lower_bound
        from_index = rlb.bisect(rng._lower_bound)
        # If we would insert at the end (are greater than all the elements, the only range that
        # could possibly overlap is the last one.
        if from_index == len(rlb):
            last_range: Range[T] = rlb[rlb.keys()[-1]]
            if last_range.intersects(rng):
                return immutableset([last_range])
            return immutableset()
        to_index = rlb.bisect(rng._upper_bound)
        # If we would insert at the start (are smaller than all the elements, the only range that
        # could possibly overlap is the first one.
        if to_index == 0:
            first_range: Range[T] = rlb[rlb.keys()[0]]
            if first_range.intersects(rng):
                return immutableset([first_range])
            return immutableset()
        return immutableset(
            [
                rlb[rlb.keys()[index]]
                # The ranges at the extreme indices do not necessarily overlap,
                for index in range(
                    max(0, from_index - 1), to_index
                )  # range method is not inclusive
                # so this explicit check is needed.
                if rlb[rlb.keys()[index]].intersects(rng)
            ]
        )
''', '''        ret: ImmutableSet.Builder[Range[T]] = ImmutableSet.builder()
        for member in self._ranges_by_lower_bound.values():
            if member._lower_bound > rng._upper_bound:
                break
            if member.intersects(rng):
                ret.add(member)
        return ret.build()
''')
r(G, '''        sorted_dict = self._ranges_by_lower_bound
        # an AboveValue cut corresponds to a closed upper interval, which catches containment
        # as desired
        # I have no idea why mypy is asking for an explicit type assignment here
        limit_as_bound: _AboveValue = _AboveValue(lower_limit)

        # insertion index into the sorted list of sets
        idx = sorted_dict.bisect_left(limit_as_bound)
        # so the index of the "latest" set with a lower bound preceding lower_limit is back one
        containing_or_below_index = idx - 1

        if containing_or_below_index >= 0:
            # if such a set exists, we need to check if we are contained in it...
            latest_beginning_before = sorted_dict[
                sorted_dict.keys()[containing_or_below_index]
            ]
            if limit_as_bound <= latest_beginning_before._upper_bound:
                return latest_beginning_before

        if idx < len(sorted_dict):
            return sorted_dict[sorted_dict.keys()[idx]]
        else:
            return None
''', '''        limit: _AboveValue = _AboveValue(lower_limit)
        return next(
            (rng for rng in self.as_ranges() if not rng._upper_bound < limit), None
        )
''')
r(G, '''        if self.is_empty():
            raise ValueError("Can't take span of an empty RangeSet")
        return Range(
            self._ranges_by_lower_bound.values()[0]._lower_bound,
            self._ranges_by_lower_bound.values()[-1]._upper_bound,
        )
''', '''        if not self._ranges_by_lower_bound:
            raise ValueError("Can't take span of an empty RangeSet")
        _, first = self._ranges_by_lower_bound.peekitem(0)
        _, last = self._ranges_by_lower_bound.peekitem()
        return first.span(last)
''')
r(G, '''        # the range we actually need to add may not correspond exactly to range_to_add
        # because it may overlap or be connected to existing ranges
        # lb_to_add and ub_to_add will form the range we actually add
        lb_to_add = range_to_add._lower_bound
        ub_to_add = range_to_add._upper_bound

        range_below_lb: Optional[Range[T]] = _value_below(
            self._ranges_by_lower_bound, lb_to_add
        )

        # is there any range which begins strictly before range_to_add's lower bound?
        # if so, range_to_add's beginning might lie within that range...
        if range_below_lb and lb_to_add <= range_below_lb._upper_bound:
            # and we need to coalesce with it by extending the bounds to include
            # that range's lower bound
            lb_to_add = range_below_lb._lower_bound
            # if the upper bound exceeds ours, too, then our range to add is entirely
            # contained within range_below_lb. Since this is already in the set, we
            # have nothing to do
            if ub_to_add < range_below_lb._upper_bound:
                return self

        # now we need to check of coalescing and connectedness on the upper end
        range_below_ub: Optional[Range[T]] = _value_at_or_below(
            self._ranges_by_lower_bound, ub_to_add
        )
        if range_below_ub and ub_to_add < range_below_ub._upper_bound:
            ub_to_add = range_below_ub._upper_bound

        # any ranges which lie within the range we are getting ready to add are subsumed in it
        _clear(self._ranges_by_lower_bound, lb_to_add, ub_to_add)

        self._replace_range_with_same_lower_bound(Range(lb_to_add, ub_to_add))
        return self
''', '''        connected = [x for x in self.as_ranges() if x.is_connected(range_to_add)]
        merged = functools.reduce(Range.span, connected, range_to_add)
        for absorbed in connected:
            self._ranges_by_lower_bound.pop(absorbed._lower_bound)
        self._ranges_by_lower_bound[merged._lower_bound] = merged
        return self
''')
r(G, '''        if isinstance(ranges_to_add, RangeSet):
            return self.add_all(ranges_to_add.as_ranges())
        for rng in ranges_to_add:
            self.add(rng)
        return self
''', '''        if isinstance(ranges_to_add, RangeSet):
            ranges_to_add = ranges_to_add.as_ranges()
        for rng in tuple(ranges_to_add):
            self.add(rng)
        return self
''')
r(G, '''        _clear(self._ranges_by_lower_bound, _BELOW_ALL, _ABOVE_ALL)
''', '''        self._ranges_by_lower_bound.clear()
''')
r(G, '''        ret: ImmutableSet.Builder[V] = ImmutableSet.builder()
        for rng_key in self.range_set.ranges_enclosed_by(rng):
            ret.add(self.rng_to_val[rng_key])
        return ret.build()
''', '''        enclosed = self.range_set.ranges_enclosed_by(rng)
        return immutableset(map(self.rng_to_val.__getitem__, enclosed))
''')
r(G, '''        containing_range = self.range_set.range_containing(k)
        return self.rng_to_val[containing_range] if containing_range else None
''', '''        return self._value_of(self.range_set.range_containing(k))

    def _value_of(self, rng: Optional[Range[K]]) -> Optional[V]:
        if rng is None:
            return None
        return self.rng_to_val[rng]
''')
r(G, '''        probe_range = self.range_set.rightmost_containing_or_below(key)
        return self.rng_to_val[probe_range] if probe_range else None
''', '''        return self._value_of(self.range_set.rightmost_containing_or_below(key))
''')
r(G, '''        probe_range = self.range_set.leftmost_containing_or_above(key)
        return self.rng_to_val[probe_range] if probe_range else None
''', '''        return self._value_of(self.range_set.leftmost_containing_or_above(key))
''')
r(G, '''        _repr = ()
        if not self.is_empty():
            _repr = tuple(self.as_dict().items())
        return (immutablerangemap, (_repr,))
''', '''        return immutablerangemap, (tuple(self.rng_to_val.items()),)
''')
r(G, '''    idx = sorted_dict.bisect_left(key) - 1
    if idx >= 0:
        if idx >= len(sorted_dict):
            idx = len(sorted_dict) - 1
        lb_key = sorted_dict.keys()[idx]
        return sorted_dict[lb_key]
    else:
        return None
''', '''    for lb_key in sorted_dict.irange(None, key, inclusive=(True, False), reverse=True):
        return sorted_dict[lb_key]
    return None
''')
r(G, '''    if not sorted_dict:
        return None

    idx = sorted_dict.bisect_left(key)

    if idx >= len(sorted_dict) or key != sorted_dict.keys()[idx]:
        if idx > 0:
            key = sorted_dict.keys()[idx - 1]
        else:
            return None
    return sorted_dict[key]
''', '''    idx = sorted_dict.bisect_right(key)
    return sorted_dict.peekitem(idx - 1)[1] if idx else None
''')
r(G, '''    if not sorted_dict:
        return None
    idx = sorted_dict.bisect_left(key)
    if idx >= len(sorted_dict):
        return None

    return sorted_dict[sorted_dict.keys()[idx]]
''', '''    return next((sorted_dict[x] for x in sorted_dict.irange(minimum=key)), None)
''')
r(G, '''from abc import ABCMeta, abstractmethod
''', '''import functools
import itertools
from abc import ABCMeta, abstractmethod
''')

r(S, '''        return not (self.precedes(other) or other.precedes(self))
''', '''        return max(self.start, other.start) < min(self.end, other.end)
''')
r(S, '''        if self.overlaps(other):
            range_intersection = self.as_range().intersection(other.as_range())
            return Span(
                range_intersection.lower_endpoint, range_intersection.upper_endpoint + 1
            )
        else:
            return None
''', '''        start, end = max(self.start, other.start), min(self.end, other.end)
        if start >= end:
            return None
        return Span(start, end)
''')
r(S, '''        return self.contains_span(item)
''', '''        return not (item.start < self.start or item.end > self.end)
''')
r(S, '''        if not enclosing.overlaps(self):
            return None
        if enclosing.contains_span(self):
            return self
        return Span(max(self.start, enclosing.start), min(self.end, enclosing.end))
''', '''        return self.intersection(enclosing)
''')
r(S, '''        # the input may be an iterator, which can be traversed only once
        spans = tuple(spans)
        return Span(min(span.start for span in spans), max(span.end for span in spans))
''', '''        starts, ends = [], []
        for span in spans:
            starts.append(span.start)
            ends.append(span.end)
        if not starts:
            raise ValueError("No spans to enclose")
        return Span(min(starts), max(ends))
''')
r(S, '''        length = x.end - x.start
        return x.start, -length
''', '''        return x.start, -len(x)
''')
r(S, '''    range_to_item = tuple((span.as_range(), item) for span, item in inp)
    ret: ImmutableRangeMap[int, T] = immutablerangemap(range_to_item)
    for rng, item in range_to_item:
        check_arg(
            ret.rng_to_val[rng] == item, "Distinct items have the same span %s", (rng,)
        )
    return ret
''', '''    seen: dict = {}
    clashes: list = []
    for span, item in inp:
        rng = span.as_range()
        known = seen.setdefault(rng, item)
        if not known == item:
            clashes.append(rng)
        seen[rng] = item
    ret: ImmutableRangeMap[int, T] = immutablerangemap(tuple(seen.items()))
    if clashes:
        raise ValueError(f"Distinct items have the same span {clashes[0]}")
    return ret
''')
r(S, '''        return immutableset(
            self._range_to_item_index.rng_to_val[rng]
            for rng in self._range_to_item_index.range_set.ranges_overlapping(
                span.as_range()
            )
        )
''', '''        overlapping = self._range_to_item_index.range_set.ranges_overlapping(
            span.as_range()
        )
        return immutableset([self._range_to_item_index.rng_to_val[x] for x in overlapping])
''')
for name, cond in (("overlaps(span)", "candidate_span.overlaps(span)"), ("contained", "span.contains_span(candidate_span)"),
                   ("containing", "candidate_span.contains_span(span)")):
    r(S, '''        return immutableset(
            item
            for candidate_span in self._span_to_item_index
            for item in self._span_to_item_index[candidate_span]
            if %s
        )
''' % cond, '''        return self._items_where(lambda candidate_span: %s)
''' % cond)
r(S, '''    def get_exactly_matching(self, span: Span) -> ImmutableSet[T]:
        return self._span_to_item_index[span]
''', '''    def _items_where(self, predicate) -> ImmutableSet[T]:
        ret: ImmutableSet.Builder[T] = ImmutableSet.builder()
        for candidate_span in self._span_to_item_index.keys():
            if predicate(candidate_span):
                ret.add_all(self._span_to_item_index[candidate_span])
        return ret.build()

    def get_exactly_matching(self, span: Span) -> ImmutableSet[T]:
        if span in self._span_to_item_index:
            return self._span_to_item_index[span]
        return immutableset()
''')
r(A, '''    key_value_string = " ".join(
        f'{k}="{v}"' for (k, v) in sorted(annotated_range.attributes.items())
    )
    attributes_string = (" " + key_value_string) if annotated_range.attributes else ""
    return f"<{annotated_range.label}{attributes_string}>"
''', '''    parts = [annotated_range.label]
    for key in sorted(annotated_range.attributes):
        parts.append('{}="{}"'.format(key, annotated_range.attributes[key]))
    return "<" + " ".join(parts) + ">"
''')
r(A, '''    return f"</{annotated_range.label}>"
''', '''    return "</" + annotated_range.label + ">"
''')
r(A, '''        ret = io.StringIO()
        last_uncopied_offset = 0
        for tag in self._tag_sequence(processed_annotations):
            if last_uncopied_offset < tag.offset:
                ret.write(text[last_uncopied_offset : tag.offset])
                last_uncopied_offset = tag.offset

            ret.write(tag.string)

        # get any trailing text after last tag
        ret.write(text[last_uncopied_offset:])
        return ret.getvalue()
''', '''        tags_at: Dict[int, List[str]] = defaultdict(list)
        for tag in self._tag_sequence(processed_annotations):
            tags_at[tag.offset].append(tag.string)
        pieces: List[str] = []
        for offset, char in enumerate(text):
            pieces.extend(tags_at.get(offset, []))
            pieces.append(char)
        pieces.extend(tags_at.get(len(text), []))
        return "".join(pieces)
''')
r(A, '''import io
import itertools
from typing import Collection, Iterable, List, Mapping, Optional
''', '''from collections import defaultdict
from typing import Collection, Dict, Iterable, List, Mapping, Optional
''')
r(A, '''            if clipped_annotation_span:
                # this is both cases a and b - in case (a) `clip_to` above returns the span
                # unchanged
                # we now need to shift the annotation offsets so that they are relative to the
                # snippet being formatted
                shifted_annotation_span = clipped_annotation_span.shift(
                    -text_offsets.start
                )
                ret.append(evolve(unclipped_annotation, span=shifted_annotation_span))
''', '''            if clipped_annotation_span is None:
                continue
            ret.append(
                AnnotatedSpan(
                    unclipped_annotation.label,
                    clipped_annotation_span.shift(-text_offsets.start),
                    unclipped_annotation.attributes,
                )
            )
''')
r(A, '''from attr import attrib, attrs, evolve
''', '''from attr import attrib, attrs
''')
r(A, '''        # for start tags, we want to break ties by longest length so that tags which end later
        # start first. This preserves proper nesting.
        def start_tag_key(annotation):
            return annotation.span.start, -len(annotation.span)

        # for end tags, we want to break ties by shortest length so that tags which start later
        # end earlier. This preserves proper nesting.
        def end_tag_key(annotation):
            return annotation.span.end, len(annotation.span)

        start_tags = (
            HTMLStyleAnnotationFormatter.Tag(to_start_tag(ann), True, ann.span.start)
            for ann in sorted(annotations, key=start_tag_key)
        )
        end_tags = (
            HTMLStyleAnnotationFormatter.Tag(to_end_tag(ann), False, ann.span.end)
            # annotations of the same span must be closed in the reverse of the order they are opened
            for ann in sorted(reversed(list(annotations)), key=end_tag_key)
        )

        # interleave the start and end tag lists
        # when start and end tags are attached to the same offset, put the ends tags first
        # to avoid crossing elements
        # "sorted" is stable so the relative order of start and end tags is maintained
        return sorted(
            itertools.chain(end_tags, start_tags),
            # True is less than False, which is fine because we want end tags
            # before start tags,
            key=lambda tag: (tag.offset, tag.is_start),
        )
''', '''        keyed = []
        for index, annotation in enumerate(annotations):
            start, end = annotation.span.start, annotation.span.end
            keyed.append(((start, 1, -end, index), to_start_tag(annotation), True, start))
            keyed.append(((end, 0, -start, -index), to_end_tag(annotation), False, end))
        keyed.sort(key=lambda entry: entry[0])
        return [
            HTMLStyleAnnotationFormatter.Tag(string, is_start, offset)
            for (_, string, is_start, offset) in keyed
        ]
''')
