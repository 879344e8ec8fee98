From 2e8c5d44cbeb481daa1b26f24dee59568a63d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 01/49] fix: keep the unbounded range cuts singletons when a
 range is pickled or copied

---
 vistautils/range.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index 18a0db0..ec21f7b 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -191,6 +191,10 @@ class _BelowAll(_Cut[T]):
         # some arbitrary number
         return 233904909
 
+    def __reduce__(self):
+        # pickling and copying must preserve the identity of the constant
+        return "_BELOW_ALL"
+
 
 @attrs(frozen=True, slots=True, hash=False, eq=False)
 class _AboveAll(_Cut[T]):
@@ -224,6 +228,10 @@ class _AboveAll(_Cut[T]):
         # some arbitrary number
         return 9989388
 
+    def __reduce__(self):
+        # pickling and copying must preserve the identity of the constant
+        return "_ABOVE_ALL"
+
 
 # noinspection PyRedeclaration
 _BELOW_ALL = _BelowAll()
-- 
2.43.0


From 60d052c0549001a22bc6551facc676ed65c5c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 02/49] fix: make equal range sets hash alike

---
 vistautils/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index ec21f7b..ae5c348 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -785,7 +785,8 @@ class RangeSet(
             return False
 
     def __hash__(self) -> int:
-        return hash(self.as_ranges())
+        # as_ranges() may be a live view which hashes by identity
+        return hash(tuple(self.as_ranges()))
 
     @abstractmethod
     def is_empty(self) -> bool:
-- 
2.43.0


From a8cda1eca063c29e2d033f89e305548d29fdd2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 03/49] fix: let minimal_enclosing_span accept one-shot
 iterables

---
 vistautils/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/span.py b/vistautils/span.py
index 7d80016..9796eff 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -129,6 +129,8 @@ class Span(Sized):
 
         This will raise a `ValueError` if `spans` is empty.
         """
+        # the input may be an iterator, which can be traversed only once
+        spans = tuple(spans)
         return Span(min(span.start for span in spans), max(span.end for span in spans))
 
     @staticmethod
-- 
2.43.0


From 4d127f3946e98307d613ecaf760940b73308c862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 04/49] fix: refuse distinct items with the same span in a
 disjoint span index

---
 vistautils/span.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index 9796eff..77b1e96 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -215,7 +215,13 @@ def _build_range_to_item_index(
 ) -> ImmutableRangeMap[int, T]:
     if inp is None:
         return immutablerangemap()
-    return immutablerangemap((span.as_range(), item) for span, item in inp)
+    range_to_item = tuple((span.as_range(), item) for span, item in inp)
+    ret: ImmutableRangeMap[int, T] = immutablerangemap(range_to_item)
+    for rng, item in range_to_item:
+        check_arg(
+            ret.rng_to_val[rng] == item, "Distinct items have the same span %s", (rng,)
+        )
+    return ret
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From 2cd1ba2be288ac0d8e34c5bf3657b3f7a0e1a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 05/49] fix: nest annotations of identical spans properly

---
 vistautils/annotated_text_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index e54cbdd..84dbce9 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -179,7 +179,8 @@ class HTMLStyleAnnotationFormatter:
         )
         end_tags = (
             HTMLStyleAnnotationFormatter.Tag(to_end_tag(ann), False, ann.span.end)
-            for ann in sorted(annotations, key=end_tag_key)
+            # annotations of the same span must be closed in the reverse of the order they are opened
+            for ann in sorted(reversed(list(annotations)), key=end_tag_key)
         )
 
         # interleave the start and end tag lists
-- 
2.43.0


From e1ac75f26313d11ca0b1d2d95efc4896dc9660dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 06/49] fix: render empty text instead of failing

---
 vistautils/annotated_text_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index 84dbce9..b65ea47 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -91,6 +91,9 @@ class HTMLStyleAnnotationFormatter:
         paragraph from a document.
         """
         if not text_offsets:
+            if not text:
+                # there is no empty Span, but there is also nothing to annotate
+                return ""
             text_offsets = Span.from_inclusive_to_exclusive(0, len(text))
         check_arg(
             len(text_offsets) == len(text),
-- 
2.43.0


From 73ee4b102099f84a4d1501b25ca06838078cc021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 07/49] fix: extend the namespace prefix instead of replacing
 it by the characters of the new element

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index e8ba62f..11f582d 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1368,7 +1368,7 @@ def _extend_prefix(
 ) -> Tuple[str, ...]:
     ret = list(namespace_prefix)
     ret.append(new_element)
-    return tuple(new_element)
+    return tuple(ret)
 
 
 @attrs(auto_attribs=True)
-- 
2.43.0


From ddba79b9da334765b250aa2fb62216ef2d9650a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 08/49] fix: honour falsy defaults in Parameters.enum

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 11f582d..7ed7136 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -457,7 +457,7 @@ class Parameters:
                 f"For parameter {param_name}, {enum_name} could not be found in "
                 f"{list(enum_class.__members__)}"
             )
-        elif default:
+        elif default is not None:
             return default
         else:
             # Always raises error since param_name returned None on `optional_string()`
-- 
2.43.0


From 0ee505f879425033934bc16308ef91d2a556e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 09/49] fix: honour falsy defaults in the optional parameter
 accessors

---
 vistautils/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 7ed7136..33eea58 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -611,7 +611,7 @@ class Parameters:
 
         if name in self:
             return self.positive_integer(name)
-        if default:
+        if default is not None:
             if isinstance(default, int) and default > 0:
                 return default  # type: ignore
             else:
@@ -670,7 +670,7 @@ class Parameters:
 
         if name in self:
             return self.floating_point(name, valid_range)
-        if default:
+        if default is not None:
             if (
                 valid_range is not None
                 and isinstance(default, float)
@@ -791,7 +791,7 @@ class Parameters:
         if default is not None:  # pragma: no cover
             self._warn_about_default()
 
-        if not default:
+        if default is None:
             return self.get_optional(name, List)
         elif isinstance(default, List):
             return self.get_optional(name, List, default=default)
-- 
2.43.0


From 26550913d91ed9255b3e35778e4527942af098a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 10/49] fix: apply the requested special factory instead of the
 default factory

---
 vistautils/parameters.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 33eea58..d4163ee 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1043,9 +1043,19 @@ class Parameters:
                 if requested_param_string_value in special_values:
                     return validate(special_values[requested_param_string_value])
                 elif requested_param_string_value in special_factories:
+                    special_factory = special_factories[requested_param_string_value]
+                    if isinstance(special_factory, str):
+                        # special factories may be given as expressions, just like when
+                        # they are requested from within a namespace
+                        special_factory = self.evaluate(
+                            name,
+                            object,
+                            context=context,
+                            special_values=special_factories,
+                        )
                     return validate(
                         apply_factory(
-                            default_factory,
+                            special_factory,
                             Parameters.empty(
                                 namespace_prefix=_extend_prefix(
                                     self.namespace_prefix, name
-- 
2.43.0


From 2a562bb37136922c2deb0681f65da274f1d1c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 11/49] fix: allow special values which are objects within a
 namespace

---
 vistautils/parameters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index d4163ee..c1fe6c4 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -897,8 +897,14 @@ class Parameters:
             else:
                 raise ParameterError(f"Cannot evaluate non-existent parameter {name}")
 
+            to_evaluate = handle_special_values(to_evaluate)
+            if not isinstance(to_evaluate, str):
+                # special values may be given as objects rather than as expressions
+                check_isinstance(to_evaluate, expected_type)
+                return to_evaluate
+
             return eval_in_context_of_modules(
-                handle_special_values(to_evaluate),
+                to_evaluate,
                 context or locals(),
                 context_modules=context_modules,
                 expected_type=expected_type,
-- 
2.43.0


From 34c5392a4cc8a39d8ed84ddfb3059982be5ca5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 12/49] fix: allow interpolation of falsy parameter values

---
 vistautils/parameters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index c1fe6c4..e9adacc 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1654,7 +1654,10 @@ class YAMLParametersLoader:
                         val
                     ):
                         nodes.append(key)
-                        if get_from_nested_dict(mutable_parameters, interp_match):
+                        if (
+                            get_from_nested_dict(mutable_parameters, interp_match)
+                            is not None
+                        ):
                             # We don't want to include nodes from the context in the interpolation
                             # ordering since the context is present
                             # only to be referred to by for interpolation into other parameters,
@@ -1673,7 +1676,7 @@ class YAMLParametersLoader:
 
         def get_backing_off_to_context(param_name: str) -> Any:
             from_these_params = get_from_nested_dict(mutable_parameters, param_name)
-            if from_these_params:
+            if from_these_params is not None:
                 return from_these_params
 
             # if the parameter is not present in the parameters we are interpolating directly,
@@ -1692,7 +1695,7 @@ class YAMLParametersLoader:
                 mutable_parameters, param_to_interpolate
             )
 
-            if not uninterpolated_param_value:
+            if uninterpolated_param_value is None:
                 raise RuntimeError(f"This should be impossible: {param_to_interpolate}")
 
             # Next, we need to actually interpolate the values.
-- 
2.43.0


From 32eb066ccc84e368b9eeff8494040c0944ef9c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 13/49] fix: fully qualify the items of Parameters nested in a
 mapping

---
 vistautils/parameters.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index e9adacc..7f1954d 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -175,15 +175,18 @@ class Parameters:
         where the param names are "fully-qualified"
         (that is, they are prefixed with their namespaces)
         """
-        for (key, value) in self._data.items():
-            if isinstance(value, Parameters):
-                for (param_name, value) in value.namespaced_items():
-                    yield param_name, value
-            else:
-                prefix = ".".join(self.namespace_prefix) + (
-                    "." if self.namespace_prefix else ""
-                )
-                yield f"{prefix}{key}", value
+        # we cannot rely on the prefixes of nested namespaces because a Parameters
+        # might be nested in another one without having been created for it
+        def items_with_prefix(params: "Parameters", prefix: str):
+            for (key, value) in params._data.items():
+                if isinstance(value, Parameters):
+                    yield from items_with_prefix(value, f"{prefix}{key}.")
+                else:
+                    yield f"{prefix}{key}", value
+
+        return items_with_prefix(
+            self, ".".join(self.namespace_prefix) + ("." if self.namespace_prefix else "")
+        )
 
     def unify(
         self,
-- 
2.43.0


From 93c8ad79a556cd23d1423797346d5700695aba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 14/49] fix: write null parameter values

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 7f1954d..51b48e2 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1787,7 +1787,7 @@ class YAMLParametersWriter:
             return str(param_node)
         elif isinstance(param_node, Mapping):
             return {k: self._preprocess_dicts(v) for (k, v) in param_node.items()}
-        elif isinstance(param_node, (str, int, float)):
+        elif param_node is None or isinstance(param_node, (str, int, float)):
             return param_node
         # we need to check this explicitly because otherwise
         # they would trigger the check for sequences below
-- 
2.43.0


From 4d5828f46afe19f0467b84b68c802e6bd8d31f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 15/49] fix: close the archive behind a .tgz character source
 on every path

---
 vistautils/io_utils.py | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 63a8b06..f116ebf 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -11,7 +11,6 @@ from typing import (
     Any,
     AnyStr,
     BinaryIO,
-    Callable,
     Iterable,
     Iterator,
     List,
@@ -222,30 +221,20 @@ class _FileWithinTgzCharSource(CharSource):
     _encoding: str = attrib(validator=validators.instance_of(str))
 
     def open(self) -> TextIO:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
-        # extractfile here returns  binary file object. We are lazy here and load it all into
-        # memory to make dealing with the encoding issues simple
-        tgz_data = tgz_file.extractfile(self._path_within_tgz)
-        if tgz_data is not None:
-            ret = CharSource.from_string(tgz_data.read().decode(self._encoding)).open()
-            # we need to fiddle with the close method on the returned TextIO so that when it is
-            # closed the containing zip file is closed as well
-            old_close: Callable = ret.close
-        else:
-            raise IOError(
-                f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
-            )
-
-        def new_close(_):
-            old_close()  # pylint:disable=not-callable
-            tgz_file.close()
-
-        ret.close = types.MethodType(new_close, ret)  # type: ignore
-        return ret
+        with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
+            # extractfile here returns  binary file object. We are lazy here and load it all into
+            # memory to make dealing with the encoding issues simple, so the containing archive
+            # can be closed right away
+            tgz_data = tgz_file.extractfile(self._path_within_tgz)
+            if tgz_data is None:
+                raise IOError(
+                    f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
+                )
+            return CharSource.from_string(tgz_data.read().decode(self._encoding)).open()
 
     def is_empty(self) -> bool:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
-        return tgz_file.getmember(self._path_within_tgz).size == 0
+        with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
+            return tgz_file.getmember(self._path_within_tgz).size == 0
 
 
 class CharSink(metaclass=ABCMeta):
-- 
2.43.0


From 1a328d3eca017df0534a34950a5c075adc3b6c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 16/49] fix: close the zip file if a member to read cannot be
 opened

---
 vistautils/io_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index f116ebf..091f811 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -368,7 +368,11 @@ class _ByteSourceFromPathInZipFile(ByteSource):
         # pylint:disable=not-callable
         # pylint:disable=unused-argument
         zip_file = ZipFile(self._zip_path, "r")
-        ret = zip_file.open(self._path_within_zip, "r")
+        try:
+            ret = zip_file.open(self._path_within_zip, "r")
+        except BaseException:
+            zip_file.close()
+            raise
         # we need to fiddle with the close method on the returned BytesIO so that when it is
         # closed the containing zip file is closed as well
         old_close = ret.close
-- 
2.43.0


From 9ebb351ec312686782f7cd5d48917f731cb308e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 17/49] fix: close the zip file if a member to write cannot be
 opened

---
 vistautils/io_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 091f811..4258b88 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -601,7 +601,11 @@ class _FileInZipByteSink(ByteSink):
         # pylint:disable=not-callable
         # pylint:disable=unused-argument
         zip_file = ZipFile(self._zip_path, "a")
-        ret = zip_file.open(self._path_within_zip, "w")
+        try:
+            ret = zip_file.open(self._path_within_zip, "w")
+        except BaseException:
+            zip_file.close()
+            raise
         # we need to fiddle with the close method on the returned BytesIO so that when it is
         # closed the containing zip file is closed as well
         old_close = ret.close
-- 
2.43.0


From f2c410a5a54876485481372479a44c0767d2c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 18/49] fix: close the zip file even if closing its member
 fails

---
 vistautils/io_utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 4258b88..52093c2 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -378,8 +378,10 @@ class _ByteSourceFromPathInZipFile(ByteSource):
         old_close = ret.close
 
         def new_close(self):
-            old_close()
-            zip_file.close()
+            try:
+                old_close()
+            finally:
+                zip_file.close()
 
         ret.close = types.MethodType(new_close, ret)  # type: ignore
         return ret  # type: ignore
@@ -611,8 +613,10 @@ class _FileInZipByteSink(ByteSink):
         old_close = ret.close
 
         def new_close(self):
-            old_close()
-            zip_file.close()
+            try:
+                old_close()
+            finally:
+                zip_file.close()
 
         ret.close = types.MethodType(new_close, ret)  # type: ignore
         return ret  # type: ignore
-- 
2.43.0


From 8c6758a9f963c2355507fbde0e07c70d37c3383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 19/49] fix: list a key of a zip store only after its value was
 written

---
 vistautils/key_value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 86a6f3a..e7d4756 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -483,10 +483,11 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
                 "Zip-backed key-value sinks do not support duplicate puts on the "
                 "same key"
             )
-        self._keys.add(key)
         filename = self._filename_function(key)
         check_arg(isinstance(value, str) or isinstance(value, bytes))
         self._zip_file.writestr(filename, value)  # type: ignore
+        # a key is only listed once its value has actually been written
+        self._keys.add(key)
 
     @abstractmethod
     def _to_bytes(self, val: V) -> bytes:
-- 
2.43.0


From 20f56d4ed046002cff9141e7e45650350d6f229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 20/49] fix: forget the keys of an earlier use when a zip sink
 is re-entered

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index e7d4756..0672294 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -495,6 +495,8 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
 
     def __enter__(self) -> "KeyValueSink[str, V]":
         self._zip_file = ZipFile(str(self._path), "w" if self._overwrite else "a")
+        # do not carry over the keys of an earlier use of this sink
+        self._keys = set()
         if self._keys_in_function:
             # update rather than assignment because return might not be mutable
             existing_keys = self._keys_in_function(self._zip_file)
-- 
2.43.0


From 138ce8117ea41d98812620ee9e132c7dbc051416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 21/49] fix: close a zip sink even if its keys cannot be
 written

---
 vistautils/key_value.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 0672294..ea4da45 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -506,9 +506,11 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
         # if we are in a context manager, self._zip_file is not None
-        if self._keys_out_function:
-            self._keys_out_function(self._zip_file, self._keys)  # type: ignore
-        self._zip_file.close()  # type: ignore
+        try:
+            if self._keys_out_function:
+                self._keys_out_function(self._zip_file, self._keys)  # type: ignore
+        finally:
+            self._zip_file.close()  # type: ignore
 
 
 class _ZipCharFileKeyValueSink(_ZipKeyValueSink[str]):
-- 
2.43.0


From 1b28f2f42c31d771f2149272e0a2d86f0019e49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 22/49] fix: close a zip store whose key listing cannot be read

---
 vistautils/key_value.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index ea4da45..4731a53 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -498,10 +498,15 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
         # do not carry over the keys of an earlier use of this sink
         self._keys = set()
         if self._keys_in_function:
-            # update rather than assignment because return might not be mutable
-            existing_keys = self._keys_in_function(self._zip_file)
-            if existing_keys:
-                self._keys.update(existing_keys)
+            try:
+                # update rather than assignment because return might not be mutable
+                existing_keys = self._keys_in_function(self._zip_file)
+                if existing_keys:
+                    self._keys.update(existing_keys)
+            except BaseException:
+                # __exit__ will not be called
+                self._zip_file.close()
+                raise
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
@@ -633,7 +638,13 @@ class _ZipFileKeyValueSource(Generic[V], KeyValueSource[str, V], metaclass=ABCMe
     def __enter__(self) -> "KeyValueSource[str, V]":
         self._zip_file = ZipFile(str(self.path), "r")
         if self._keys_function:
-            self._keys = self._keys_function(self._zip_file)
+            try:
+                self._keys = self._keys_function(self._zip_file)
+            except BaseException:
+                # __exit__ will not be called
+                self._zip_file.close()
+                self._zip_file = None
+                raise
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
-- 
2.43.0


From a085f168e48213d9ba32904f9e2368a5eb0ce19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 23/49] fix: refuse keys which the listing of a zip store
 cannot represent

---
 vistautils/key_value.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 4731a53..6d1e64c 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -484,6 +484,12 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
                 "same key"
             )
         filename = self._filename_function(key)
+        if self._keys_out_function is _write_keys_to_keys_file and (
+            not key or "\n" in key or filename == "__keys"
+        ):
+            raise ValueError(
+                f"The key {key!r} cannot be represented in the key listing of a zip store"
+            )
         check_arg(isinstance(value, str) or isinstance(value, bytes))
         self._zip_file.writestr(filename, value)  # type: ignore
         # a key is only listed once its value has actually been written
-- 
2.43.0


From 7f7acc51d05ff048ee76466d26b08406f604902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 24/49] fix: let file-map key-value sources read the map given
 in their parameters

---
 vistautils/key_value.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 6d1e64c..f7bd0b1 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -566,6 +566,13 @@ class _AbstractPathMappingKeyValueSource(Generic[V], KeyValueSource[str, V]):
 
 @attrs(frozen=True)
 class _PathMappingCharKeyValueSource(_AbstractPathMappingKeyValueSource[str]):
+    @staticmethod
+    def from_parameters(params: Parameters) -> KeyValueSource[str, str]:
+        """
+        Create a key-value source from the docID-to-file map at the "path" parameter.
+        """
+        return KeyValueSource.from_doc_id_to_file_map(params.existing_file("path"))
+
     def __getitem__(self, key: str) -> str:
         return CharSource.from_file(self.id_to_path[key]).read_all()
 
@@ -581,6 +588,13 @@ class _PathMappingCharKeyValueSource(_AbstractPathMappingKeyValueSource[str]):
 
 @attrs(frozen=True)
 class _PathMappingBytesKeyValueSource(_AbstractPathMappingKeyValueSource[bytes]):
+    @staticmethod
+    def from_parameters(params: Parameters) -> KeyValueSource[str, bytes]:
+        """
+        Create a key-value source from the docID-to-file map at the "path" parameter.
+        """
+        return KeyValueSource.binary_from_doc_id_to_file_map(params.existing_file("path"))
+
     def __getitem__(self, key: str) -> bytes:
         return ByteSource.from_file(self.id_to_path[key]).read()
 
-- 
2.43.0


From ec99e362b36e285492271df8e7a6e501ae2b9723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 25/49] fix: let directory key-value sinks create their
 directory

---
 vistautils/key_value.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index f7bd0b1..8b0f5e0 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -408,7 +408,9 @@ class _DirectoryCharKeyValueSink(KeyValueSink[str, str]):
         self.id_to_file[key] = out_file
 
     def __enter__(self) -> "KeyValueSink[str,str]":
-        self._path.rmdir()
+        # refuse to mix the output with existing files
+        if self._path.exists():
+            self._path.rmdir()
         self._path.mkdir(parents=True, exist_ok=True)
         self.id_to_file = dict()
         return self
@@ -435,7 +437,9 @@ class _DirectoryBytesKeyValueSink(KeyValueSink[str, bytes]):
         self.id_to_file[key] = out_file
 
     def __enter__(self) -> "KeyValueSink[str,bytes]":
-        self._path.rmdir()
+        # refuse to mix the output with existing files
+        if self._path.exists():
+            self._path.rmdir()
         self._path.mkdir(parents=True, exist_ok=True)
         self.id_to_file = dict()
         return self
-- 
2.43.0


From bdf2021f83ce2027947c73a5648c06977558e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 26/49] fix: refuse keys which a directory store cannot
 represent

---
 vistautils/key_value.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 8b0f5e0..203a0ff 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -397,12 +397,29 @@ class KeyValueSource(Generic[K, V], KeyValueLinearSource[K, V], metaclass=ABCMet
         return _InterpretedKeyValueSource(wrapped, interpretation_function)
 
 
+def _check_directory_key(key: str) -> None:
+    """
+    Refuse keys which leave the directory of a store or break its tab-separated index.
+    """
+    key_path = Path(key)
+    if (
+        key_path == Path("_index")
+        or key_path.is_absolute()
+        or ".." in key_path.parts
+        or "\t" in key
+        or "\n" in key
+        or key != key.strip()
+    ):
+        raise ValueError(f"Illegal key for a directory-backed store: {key!r}")
+
+
 class _DirectoryCharKeyValueSink(KeyValueSink[str, str]):
     def __init__(self, path: Path) -> None:
         self._path = path
         self.id_to_file: MutableMapping[str, Path] = dict()
 
     def put(self, key: str, value: str) -> None:
+        _check_directory_key(key)
         out_file = self._path / key
         CharSink.to_file(out_file).write(value)
         self.id_to_file[key] = out_file
@@ -432,6 +449,7 @@ class _DirectoryBytesKeyValueSink(KeyValueSink[str, bytes]):
         self.id_to_file: MutableMapping[str, Path] = dict()
 
     def put(self, key: str, value: bytes) -> None:
+        _check_directory_key(key)
         out_file = self._path / key
         ByteSink.to_file(out_file).write(value)
         self.id_to_file[key] = out_file
-- 
2.43.0


From 15db71ac068828a434ab1779ab53097d17fb69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 27/49] fix: refuse falsy values of the wrong type in
 check_opt_isinstance

---
 vistautils/preconditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/preconditions.py b/vistautils/preconditions.py
index 249fd54..e849729 100644
--- a/vistautils/preconditions.py
+++ b/vistautils/preconditions.py
@@ -71,7 +71,7 @@ def check_opt_isinstance(item: T, classinfo: _ClassInfo) -> T:
 
     Raises a TypeError otherwise
     """
-    if item and not isinstance(item, classinfo):
+    if item is not None and not isinstance(item, classinfo):
         raise TypeError(
             "Expected instance of type {!r} but got type {!r} for {!r}".format(
                 classinfo, type(item), item
-- 
2.43.0


From 42a685805e834ea00f20ce1309a8e4be40974850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 28/49] fix: recognise the sentinel in only() by identity

---
 vistautils/iter_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/iter_utils.py b/vistautils/iter_utils.py
index 85bb573..74bb7c9 100644
--- a/vistautils/iter_utils.py
+++ b/vistautils/iter_utils.py
@@ -77,7 +77,7 @@ def only(it: Union[Iterator[_T], Iterable[_T]]) -> _T:
         raise ValueError("Expected only a single element in an iterable, but got none")
 
     second_element = next(iterator, _SENTINEL)
-    if second_element != _SENTINEL:
+    if second_element is not _SENTINEL:
         raise ValueError("Expected only a single element in iterable, but got at least 2")
     return ret
 
-- 
2.43.0


From 51f46490f68baa6a37c5a328d993c4bbacc3a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 29/49] fix: refuse memory amounts with trailing garbage

---
 vistautils/memory_amount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/memory_amount.py b/vistautils/memory_amount.py
index b0dbdac..4d7fb5b 100644
--- a/vistautils/memory_amount.py
+++ b/vistautils/memory_amount.py
@@ -64,7 +64,7 @@ class MemoryAmount:
 
     @staticmethod
     def parse(memory_string: str) -> "MemoryAmount":
-        parts = MemoryAmount._PARSE_PATTERN.match(memory_string)
+        parts = MemoryAmount._PARSE_PATTERN.fullmatch(memory_string)
         if parts:
             return MemoryAmount(
                 amount=int(parts.group(1)), unit=MemoryUnit.parse(parts.group(2))
-- 
2.43.0


From 039cf1a8c0bb52890755c459ffc2437bf41a5945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 30/49] fix: strip the whole .tar.gz extension

---
 vistautils/scripts/tar_gz_to_zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 447b3b0..6bcf2e9 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -85,7 +85,7 @@ def main():
 
 
 def _output_name(filename: str) -> str:
-    valid_extensions = [".tar", ".tgz", "tar.gz"]
+    valid_extensions = [".tar", ".tgz", ".tar.gz"]
     for valid_extension in valid_extensions:
         if filename.endswith(valid_extension):
             filename = filename[: len(filename) - len(valid_extension)]
-- 
2.43.0


From ad9a408ea70d1b1f69df8d37ce4ceedda5e254bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 31/49] fix: do not try to remove extracted directories as
 files

---
 vistautils/scripts/tar_gz_to_zip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 6bcf2e9..09cae3c 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -68,7 +68,8 @@ def main():
                 for member in inp:
                     if member.isfile():
                         out.write(member.name)
-                    os.remove(member.name)
+                    if not member.isdir():
+                        os.remove(member.name)
             else:
                 for member in inp:
                     if member.isfile():
-- 
2.43.0


From eaf856e59a492e3513ec1d5e2591556dd1cf9f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 32/49] fix: do not use the removed random argument of shuffle

---
 vistautils/scripts/downsample_key_value_store.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vistautils/scripts/downsample_key_value_store.py b/vistautils/scripts/downsample_key_value_store.py
index b90a38d..c34a8f6 100644
--- a/vistautils/scripts/downsample_key_value_store.py
+++ b/vistautils/scripts/downsample_key_value_store.py
@@ -34,10 +34,7 @@ def main(params: Parameters):
     with byte_key_value_source_from_params(params) as input_source:
         keys = list(input_source.keys())
         num_to_sample = min(params.positive_integer(_NUM_TO_SAMPLE_PARAM), len(keys))
-        random.shuffle(
-            keys,
-            random=random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).random,
-        )
+        random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
         keys_to_keep = keys[:num_to_sample]
         output_zip_path = params.creatable_file("output_zip_path")
         logging.info("Downsampling %s files to %s", num_to_sample, output_zip_path)
-- 
2.43.0


From 0bbf331885f0335e363b8cd608142c1b39df125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 33/49] fix: read must_be_exhaustive from the explicit_split
 namespace as documented

---
 vistautils/scripts/split_key_value_store.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index ad860df..7bd5357 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -114,7 +114,10 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
                         )
                     raise RuntimeError(error_message)
 
-    if params.boolean("must_be_exhaustive", default=True):
+    # accepted at the top level as well for backwards compatibility
+    if explicit_split_namespace.boolean(
+        "must_be_exhaustive", default=params.boolean("must_be_exhaustive", default=True)
+    ):
         keys_not_copied = immutableset(source.keys()) - set(keys_copied)
         if keys_not_copied:
             raise RuntimeError(
-- 
2.43.0


From f495c227c6028ab7060782b29d45fadd556266ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 34/49] fix: do not change mappings given to
 from_key_value_pairs

---
 vistautils/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 51b48e2..b733f65 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -145,6 +145,9 @@ class Parameters:
                         if key_part not in to_set_dict:
                             to_set_dict[key_part] = {}
                         to_set_dict = to_set_dict[key_part]
+                if isinstance(v, Mapping):
+                    # later pairs may extend this namespace, but not the caller's mapping
+                    v = Parameters.from_mapping(v).as_nested_dicts()
                 to_set_dict[bottom_level_param_name] = v
             else:
                 raise RuntimeError("Parameter names cannot be the empty string")
-- 
2.43.0


From 68437a4cf974321520675a713d3f1ea6fd7f588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 35/49] fix: omit large files also when not streaming

---
 vistautils/scripts/tar_gz_to_zip.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 09cae3c..3833d35 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -67,7 +67,14 @@ def main():
                 inp.extractall()
                 for member in inp:
                     if member.isfile():
-                        out.write(member.name)
+                        if omit_large_files and member.size > large_file_cutoff:
+                            print(
+                                f"WARNING: Omitting {member.name} as "
+                                f"its size {member.size / 1e9:.2f} GB "
+                                f"exceeds {args.large_file_cutoff:.2f} GB"
+                            )
+                        else:
+                            out.write(member.name)
                     if not member.isdir():
                         os.remove(member.name)
             else:
-- 
2.43.0


From 0bdb6d87a17388aee94a02c010620a001792ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 36/49] fix: use explicitly given parameters in parameters-only
 entry points

---
 vistautils/parameters_only_entrypoint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters_only_entrypoint.py b/vistautils/parameters_only_entrypoint.py
index 231932d..a6d53bd 100644
--- a/vistautils/parameters_only_entrypoint.py
+++ b/vistautils/parameters_only_entrypoint.py
@@ -59,13 +59,16 @@ def _real_parameters_only_entry_point(
         program_name = os.path.basename(main.__file__)
 
     arg_parser = ArgumentParser(prog=program_name, description=usage_message)
-    if not parameters:
+    if parameters is None:
         arg_parser.add_argument("param_file", type=Path)
     arg_parser.add_argument("-p", action="append", nargs=2, required=False)
 
     parsed_args = arg_parser.parse_args(args)
 
-    params = YAMLParametersLoader().load(parsed_args.param_file)
+    if parameters is None:
+        params = YAMLParametersLoader().load(parsed_args.param_file)
+    else:
+        params = parameters
     if parsed_args.p:
         params = params.unify(params.from_key_value_pairs(parsed_args.p))
     configure_logging_from(params)
-- 
2.43.0


From bd43f3d73c5e72c3946cb7a57f59a4ebcda19fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 37/49] fix: ignore environmental variables with dots in their
 names when loading parameters

Such names cannot be parameter names, so any one of them in the environment made
every parameter file fail to load.
---
 vistautils/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index b733f65..0186614 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1534,8 +1534,9 @@ class YAMLParametersLoader:
             interpolation_context = dict(previously_loaded.as_nested_dicts())
             if self.interpolate_environmental_variables:
                 for k, v in os.environ.items():
-                    # environmental variables are overridden by explicit parameters
-                    if k not in interpolation_context:
+                    # environmental variables are overridden by explicit parameters,
+                    # and names containing the namespace separator cannot be parameters
+                    if k not in interpolation_context and "." not in k:
                         interpolation_context[k] = v
 
             return previously_loaded.unify(
-- 
2.43.0


From b08d4a0891bd675c01d2b42290557009dc156d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 38/49] fix: keep the whole namespace prefix when it is given
 as an iterator

Parameters.from_mapping consumed the prefix for the first nested namespace, so
the others and the result itself lost it.
---
 vistautils/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 0186614..216c213 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -106,6 +106,8 @@ class Parameters:
         becomes a namespace.
         """
         check_isinstance(mapping, Mapping)
+        # this is used repeatedly, but might be an iterator
+        namespace_prefix = tuple(namespace_prefix)
         ret: List[Tuple[str, Any]] = []
         for (key, val) in mapping.items():
             if isinstance(val, Mapping):
-- 
2.43.0


From 83189e2d5549f7ab1bdce5853878337a8e3d11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 39/49] fix: refuse keys with carriage returns in directory
 stores

---
 vistautils/key_value.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 203a0ff..c41b03b 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -408,6 +408,7 @@ def _check_directory_key(key: str) -> None:
         or ".." in key_path.parts
         or "\t" in key
         or "\n" in key
+        or "\r" in key
         or key != key.strip()
     ):
         raise ValueError(f"Illegal key for a directory-backed store: {key!r}")
-- 
2.43.0


From 65fa99d607550431d9068362ec6c6c25c2d987ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 40/49] fix: refuse keys below the index of a directory store

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index c41b03b..3ced95c 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -403,7 +403,7 @@ def _check_directory_key(key: str) -> None:
     """
     key_path = Path(key)
     if (
-        key_path == Path("_index")
+        key_path.parts[:1] == ("_index",)
         or key_path.is_absolute()
         or ".." in key_path.parts
         or "\t" in key
-- 
2.43.0


From fc9392fb6d06a3481f8407340fe7fff210c9186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 41/49] fix: read line ends of tgz members like those of other
 files

---
 vistautils/io_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 52093c2..dbd541f 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -230,7 +230,8 @@ class _FileWithinTgzCharSource(CharSource):
                 raise IOError(
                     f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
                 )
-            return CharSource.from_string(tgz_data.read().decode(self._encoding)).open()
+            # line ends are translated just as for every other kind of file
+            return io.TextIOWrapper(io.BytesIO(tgz_data.read()), encoding=self._encoding)
 
     def is_empty(self) -> bool:
         with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
-- 
2.43.0


From 9af2ed090923738947d880d47ff56ba38643c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 42/49] fix: keep the whole text when annotating with negative
 offsets

---
 vistautils/annotated_text_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index b65ea47..3518084 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -116,8 +116,7 @@ class HTMLStyleAnnotationFormatter:
             ret.write(tag.string)
 
         # get any trailing text after last tag
-        if last_uncopied_offset < text_offsets.end:
-            ret.write(text[last_uncopied_offset : text_offsets.end])
+        ret.write(text[last_uncopied_offset:])
         return ret.getvalue()
 
     @staticmethod
-- 
2.43.0


From 899c3663c5d09425c8f2267e72c0f2e4d3d90141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 43/49] fix: emptiness of compressed and archived character
 sources agrees with their text

is_empty looked at the size of the gzip or tar member instead of the text read
from it: a byte order mark counted as content, and a link in an archive as empty.
---
 vistautils/io_utils.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index dbd541f..cccf1cd 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -208,11 +208,6 @@ class _GZipFileSource(CharSource):
     def open(self) -> TextIO:
         return gzip.open(self._path, "rt", encoding=self._encoding)  # type: ignore
 
-    def is_empty(self) -> bool:
-        with gzip.open(self._path) as inp:
-            data = inp.read(1)
-        return len(data) == 0
-
 
 @attrs(slots=True, frozen=True)
 class _FileWithinTgzCharSource(CharSource):
@@ -233,10 +228,6 @@ class _FileWithinTgzCharSource(CharSource):
             # line ends are translated just as for every other kind of file
             return io.TextIOWrapper(io.BytesIO(tgz_data.read()), encoding=self._encoding)
 
-    def is_empty(self) -> bool:
-        with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
-            return tgz_file.getmember(self._path_within_tgz).size == 0
-
 
 class CharSink(metaclass=ABCMeta):
     """
-- 
2.43.0


From afd10d35e5c4e779ae746057704a3670aad3447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 44/49] fix: unpickle empty range sets under pickle protocols 0
 and 1

---
 vistautils/range.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index ae5c348..201185d 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -1087,6 +1087,11 @@ class _SortedDictRangeSet(RangeSet[T], metaclass=ABCMeta):
     def __len__(self) -> int:
         return len(self._ranges_by_lower_bound)
 
+    def __reduce__(self):
+        # by default pickle protocols 0 and 1 do not restore a false state,
+        # which is the state of an empty range set
+        return type(self), (SortedDict(),), self.__getstate__()
+
     def __setstate__(self, state: Iterable[Range[T]]) -> None:
         self._ranges_by_lower_bound = SortedDict(
             [(rng._lower_bound, rng) for rng in state]
-- 
2.43.0


From 37885e73544ae06244298c35897d5d7abe360ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 45/49] fix: look up the containing item of a disjoint span
 index by span

---
 vistautils/span.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index 77b1e96..dd15209 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -247,13 +247,10 @@ class _DisjointHasSpanIndex(HasSpanIndex[T]):
         return self._range_to_item_index.get_enclosed_by(span.as_range())
 
     def get_containing(self, span: Span) -> Optional[T]:
-        rng = span.as_range()
-        if (
-            self._range_to_item_index[rng.lower_endpoint]
-            == self._range_to_item_index[rng.upper_endpoint]
-        ):
-            return self._range_to_item_index[rng.lower_endpoint]
-        return None
+        # comparing the items at the two ends of the span would not do,
+        # because items with different spans may be equal
+        rng = self._range_to_item_index.range_set.range_enclosing_range(span.as_range())
+        return self._range_to_item_index.rng_to_val[rng] if rng else None
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From 0be883345959bb379602514a8c954f015ec03098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 46/49] fix: print ranges whose endpoints are tuples

---
 vistautils/range.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index 201185d..75aa6c3 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -266,13 +266,13 @@ class _BelowValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "[%s" % self._endpoint
+        return "[%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s)" % self._endpoint
+        return "%s)" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "\\\\%s/" % self._endpoint
+        return "\\\\%s/" % (self._endpoint,)
 
 
 @attrs(frozen=True, slots=True, repr=False, hash=False, eq=False)
@@ -303,13 +303,13 @@ class _AboveValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "(%s" % self._endpoint
+        return "(%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s]" % self._endpoint
+        return "%s]" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "/%s\\\\" % self._endpoint
+        return "/%s\\\\" % (self._endpoint,)
 
 
 # must initialize after declaring Range
-- 
2.43.0


From 7347859b4978d7336c9ea991161505b64afea859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 47/49] fix: sub_namespaces no longer fails when a namespace
 holds a list

---
 vistautils/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 216c213..d959877 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -73,8 +73,9 @@ class Parameters:
     You can check if a lookup of a parameter would be successful using the `in` operator.
     """
 
+    # values may be unhashable (e.g. lists), so they can't take part in the hash
     _data: ImmutableDict[str, Any] = attrib(
-        default=immutabledict(), converter=immutabledict
+        default=immutabledict(), converter=immutabledict, hash=False
     )
     namespace_prefix: Tuple[str, ...] = attrib(
         default=tuple(), converter=_to_tuple, kw_only=True
-- 
2.43.0


From 20d6b2dce3024feb2bd4a7f148af150977e97a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:51 +0000
Subject: [PATCH 48/49] fix: the name of a special value is not a reference to
 modules to import

---
 vistautils/parameters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index d959877..10e0fa8 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -898,9 +898,11 @@ class Parameters:
             elif name in self:
                 to_evaluate = self.string(name)
                 # See special case in docstring.
-                context_modules = Parameters._context_modules_from_prefix(
-                    self.string(name)
-                )
+                # The name of a special value is not a reference to a Python object.
+                if to_evaluate not in special_values:
+                    context_modules = Parameters._context_modules_from_prefix(
+                        self.string(name)
+                    )
             elif default is not None:
                 return default
             else:
-- 
2.43.0


From 191085c5db8e46591d374f6bb9aa88409a902198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:44 +0000
Subject: [PATCH 49/49] fix: path lists end lines only at line feeds

str.splitlines also splits at form feeds, U+0085, U+2028 and other
separators, which may be part of a path: the path was cut in pieces.
---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 10e0fa8..8d55c0c 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1221,7 +1221,7 @@ class Parameters:
             list_file = self.existing_file(param)
             path_strings = [
                 line.strip()
-                for line in list_file.read_text(encoding="utf-8").splitlines()
+                for line in list_file.read_text(encoding="utf-8").split("\n")
                 if line.strip() and not line.strip().startswith("#")
             ]
             location_read_from = f"file {list_file.absolute()!s}"
-- 
2.43.0

