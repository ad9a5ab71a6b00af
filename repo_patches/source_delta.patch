From 50ece12c1b1c612b843cfbc7cc8a359f617c6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:52 +0000
Subject: [PATCH 01/63] fix: de-serializer cache depends on type and options,
 and never keeps or exposes incomplete entries

---
 strong_typing/deserializer.py | 50 ++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 16a0d69..4f6c6ec 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -15,6 +15,7 @@ import inspect
 import ipaddress
 import re
 import sys
+import threading
 import types
 import typing
 import uuid
@@ -825,17 +826,21 @@ def create_deserializer(
 
     if options is None:
         options = DeserializerOptions()
+    else:
+        # de-serializers may be re-used, detach them from the caller's (mutable) options
+        options = dataclasses.replace(options)
 
     return _get_deserializer(typ, context, options)
 
 
-_CACHE: dict[tuple[str, str], Deserializer] = {}
+_CACHE: dict[tuple[Any, ...], Deserializer] = {}
+_CACHE_LOCK = threading.RLock()
 
 
 def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: DeserializerOptions) -> Deserializer:
     "Creates or re-uses a de-serializer engine to parse an object obtained from a JSON string."
 
-    cache_key = None
+    cache_key: Optional[tuple[Any, ...]] = None
 
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
@@ -843,32 +848,41 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
 
         if isinstance(typ, str):
             if hasattr(context, typ):
-                cache_key = (context.__name__, typ)
+                cache_key = (context.__name__, typ, options.skip_unassigned)
         elif isinstance(typ, typing.ForwardRef):
             if hasattr(context, typ.__forward_arg__):
-                cache_key = (context.__name__, typ.__forward_arg__)
+                cache_key = (context.__name__, typ.__forward_arg__, options.skip_unassigned)
 
         typ = evaluate_type(typ, context)
 
     typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
 
     if isinstance(typ, type) and typing.get_origin(typ) is None:
-        cache_key = (typ.__module__, typ.__name__)
+        cache_key = (typ, options.skip_unassigned)
 
     if cache_key is not None:
-        deserializer = _CACHE.get(cache_key)
-        if deserializer is None:
-            deserializer = _create_deserializer(typ, options)
-
-            # store de-serializer immediately in cache to avoid stack overflow for recursive types
-            _CACHE[cache_key] = deserializer
-
-            if isinstance(typ, type):
-                # use type's own module as context for evaluating member types
-                context = sys.modules[typ.__module__]
-
-            # create any de-serializers this de-serializer is depending on
-            deserializer.build(context)
+        # other threads must not obtain a de-serializer before it is complete
+        with _CACHE_LOCK:
+            deserializer = _CACHE.get(cache_key)
+            if deserializer is None:
+                deserializer = _create_deserializer(typ, options)
+
+                # store de-serializer immediately in cache to avoid stack overflow for recursive types
+                known_keys = set(_CACHE)
+                _CACHE[cache_key] = deserializer
+
+                if isinstance(typ, type):
+                    # use type's own module as context for evaluating member types
+                    context = sys.modules[typ.__module__]
+
+                try:
+                    # create any de-serializers this de-serializer is depending on
+                    deserializer.build(context)
+                except BaseException:
+                    # discard incomplete de-serializer and all others that may be referring to it
+                    for key in set(_CACHE) - known_keys:
+                        del _CACHE[key]
+                    raise
     else:
         # special forms are not always hashable, create a new de-serializer every time
         deserializer = _create_deserializer(typ, options)
-- 
2.43.0


From a12dfb43aba9f67b2b90cb20f12032b707e94022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:28 +0000
Subject: [PATCH 02/63] fix: union falls back to next member type when data is
 not a valid value for a member type

---
 strong_typing/deserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 4f6c6ec..a483ff9 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -417,10 +417,12 @@ class UnionDeserializer(RecursiveDeserializer):
             # iterate over potential types of discriminated union
             try:
                 return member_parser.parse(data)
-            except (JsonKeyError, JsonTypeError):
+            except (JsonKeyError, JsonTypeError, JsonValueError, ValueError):
                 # indicates a required field is missing from JSON dict
                 # -OR-
                 # the data cannot be cast to the expected type, i.e. we don't have the type that we are looking for
+                # -OR-
+                # the data has the expected JSON type but its value does not represent the type (e.g. not a UUID)
                 continue
 
         type_names = ", ".join(python_type_to_str(member_type) for member_type in self.member_types)
-- 
2.43.0


From 029130211db5d92c9009e967308d07c5cb23a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:35 +0000
Subject: [PATCH 03/63] fix: numeric types refuse JSON boolean and out-of-range
 numbers

---
 strong_typing/deserializer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index a483ff9..1eec534 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -118,7 +118,7 @@ class IntDeserializer(Deserializer[int]):
     "Parses JSON `number` values into Python `int` type."
 
     def parse(self, data: JsonType) -> int:
-        if not isinstance(data, int):
+        if not isinstance(data, int) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects integer data as JSON `number` but instead received: {data}")
         return int(data)
 
@@ -127,9 +127,12 @@ class FloatDeserializer(Deserializer[float]):
     "Parses JSON `number` values into Python `float` type."
 
     def parse(self, data: JsonType) -> float:
-        if not isinstance(data, float) and not isinstance(data, int):
-            raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
-        return float(data)
+        if not isinstance(data, (float, int)) or isinstance(data, bool):
+            raise JsonTypeError(f"`float` type expects data as JSON `number` but instead received: {data}")
+        try:
+            return float(data)
+        except OverflowError as ex:
+            raise JsonValueError(f"`float` type cannot represent a number of this magnitude: {data}") from ex
 
 
 class StringDeserializer(Deserializer[str]):
-- 
2.43.0


From c763e3ae61f27f287c1beca7123725add28a7849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:16 +0000
Subject: [PATCH 04/63] fix: named tuple de-serializer applies the same
 property names as the serializer

---
 strong_typing/deserializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 1eec534..4fc375d 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -706,7 +706,7 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
     def build(self, context: Optional[ModuleType]) -> None:
         property_parsers: list[FieldDeserializer] = [
             RequiredFieldDeserializer(
-                field_name,
+                python_field_to_json_property(field_name, field_type),
                 field_name,
                 self.get_deserializer(field_type, context),
             )
-- 
2.43.0


From fd8ce2bb8e79333c6deaec39e319dc1166bd3303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:59 +0000
Subject: [PATCH 05/63] fix: tagged union looks up tag by JSON property name
 and refuses tags that are not scalars

---
 strong_typing/deserializer.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 4fc375d..2faa6d4 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -31,7 +31,6 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
-    get_class_property,
     get_resolved_hints,
     is_dataclass_instance,
     is_dataclass_type,
@@ -432,23 +431,25 @@ class UnionDeserializer(RecursiveDeserializer):
         raise JsonKeyError(f"type `Union[{type_names}]` could not be instantiated from: {data}")
 
 
-def get_literal_properties(typ: type) -> set[str]:
-    "Returns the names of all properties in a class that are of a literal type."
+def get_literal_properties(typ: type) -> dict[str, TypeLike]:
+    "Returns all properties in a class that are of a literal type, identified by their JSON property name."
 
-    return set(
-        property_name for property_name, property_type in get_class_properties(typ) if is_type_literal(property_type)
-    )
+    return {
+        python_field_to_json_property(field_name, field_type): field_type
+        for field_name, field_type in get_class_properties(typ)
+        if is_type_literal(field_type)
+    }
 
 
 def get_discriminating_properties(types: tuple[type, ...]) -> set[str]:
-    "Returns a set of properties with literal type that are common across all specified classes."
+    "Returns a set of (JSON) properties with literal type that are common across all specified classes."
 
     if not types or not all(isinstance(typ, type) for typ in types):
         return set()
 
-    props = get_literal_properties(types[0])
+    props = set(get_literal_properties(types[0]))
     for typ in types[1:]:
-        props = props & get_literal_properties(typ)
+        props = props & set(get_literal_properties(typ))
 
     return props
 
@@ -468,12 +469,9 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
     def build(self, context: Optional[ModuleType]) -> None:
         self.member_parsers = {}
         for member_type in self.member_types:
+            literal_properties = get_literal_properties(member_type)
             for property_name in self.disambiguating_properties:
-                literal_type = get_class_property(member_type, property_name)
-                if not literal_type:
-                    continue
-
-                for literal_value in unwrap_literal_values(literal_type):
+                for literal_value in unwrap_literal_values(literal_properties[property_name]):
                     tpl = (property_name, literal_value)
                     if tpl in self.member_parsers:
                         raise JsonTypeError(
@@ -499,7 +497,10 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
             if disambiguating_value is None:
                 continue
 
-            member_parser = self.member_parsers.get((property_name, disambiguating_value))
+            if isinstance(disambiguating_value, (dict, list)):
+                member_parser = None
+            else:
+                member_parser = self.member_parsers.get((property_name, disambiguating_value))
             if member_parser is None:
                 raise JsonTypeError(
                     f"disambiguating property value is invalid for tagged union type `{self.union_type}`: {data}"
-- 
2.43.0


From ca5afcecc5c941f55ec0097e6934a5f8ecab9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:53 +0000
Subject: [PATCH 06/63] fix: named tuple de-serializer honors optional fields
 and default values

---
 strong_typing/deserializer.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 2faa6d4..1291e53 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -705,14 +705,27 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
     "De-serializes a named tuple from a JSON `object`."
 
     def build(self, context: Optional[ModuleType]) -> None:
-        property_parsers: list[FieldDeserializer] = [
-            RequiredFieldDeserializer(
-                python_field_to_json_property(field_name, field_type),
-                field_name,
-                self.get_deserializer(field_type, context),
-            )
-            for field_name, field_type in get_resolved_hints(self.class_type).items()
-        ]
+        property_parsers: list[FieldDeserializer] = []
+        field_defaults: dict[str, Any] = getattr(self.class_type, "_field_defaults", {})
+        for field_name, field_type in get_resolved_hints(self.class_type).items():
+            property_name = python_field_to_json_property(field_name, field_type)
+
+            # absent properties stand for `None`, see serializer
+            is_optional = is_type_optional(field_type)
+            required_type = unwrap_optional_type(field_type) if is_optional else field_type
+            parser = self.get_deserializer(required_type, context)
+
+            if field_name in field_defaults:
+                field_parser: FieldDeserializer = DefaultFieldDeserializer(
+                    property_name, field_name, parser, field_defaults[field_name]
+                )
+            elif is_optional:
+                field_parser = OptionalFieldDeserializer(property_name, field_name, parser)
+            else:
+                field_parser = RequiredFieldDeserializer(property_name, field_name, parser)
+
+            property_parsers.append(field_parser)
+
         super().assign(property_parsers)
 
     def create(self, **field_values: Any) -> NamedTuple:
-- 
2.43.0


From 353d16348cf6420f8adccdfcab5ea9890213195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 07/63] fix: duration parser refuses texts without components,
 with trailing newline, or out of range

---
 strong_typing/deserializer.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 1291e53..3ade698 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -201,14 +201,14 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
             raise JsonTypeError(f"`timedelta` type expects JSON `string` data but instead received: {data}")
 
         pattern = re.compile(
-            r"^P"  # starts with 'P'
+            r"^P(?=T?\d)"  # starts with 'P', followed by at least one component
             r"(?:(?P<weeks>\d+)W)?"  # optional weeks
             r"(?:(?P<days>\d+)D)?"  # optional days
-            r"(?:T"  # start of time part
+            r"(?:T(?=\d)"  # start of time part
             r"(?:(?P<hours>\d+)H)?"  # optional hours
             r"(?:(?P<minutes>\d+)M)?"  # optional minutes
             r"(?:(?P<seconds>\d+)(?:\.(?P<fractional>\d{1,9}))?S)?"  # optional seconds (integer and fractional part)
-            r")?$",  # end of time part
+            r")?\Z",  # end of time part
             flags=re.ASCII,
         )
 
@@ -234,11 +234,14 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
         if nanoseconds % 1000 != 0:  # timedelta type supports microsecond precision only
             raise JsonValueError(f"`timedelta` type supports microsecond precision only but received: {data}")
 
-        return datetime.timedelta(
-            days=7 * weeks + days,
-            seconds=3600 * hours + 60 * minutes + seconds,
-            microseconds=nanoseconds // 1000,
-        )
+        try:
+            return datetime.timedelta(
+                days=7 * weeks + days,
+                seconds=3600 * hours + 60 * minutes + seconds,
+                microseconds=nanoseconds // 1000,
+            )
+        except OverflowError as ex:
+            raise JsonValueError(f"`timedelta` type cannot represent a duration of this magnitude: {data}") from ex
 
 
 class UUIDDeserializer(Deserializer[uuid.UUID]):
-- 
2.43.0


From 53dc0ebea67760b419e61699206ba3451061ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:37 +0000
Subject: [PATCH 08/63] fix: serializing instances of recursive classes with
 containers of themselves

---
 strong_typing/serializer.py | 42 +++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 8b14156..5656193 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -10,10 +10,10 @@ import abc
 import base64
 import datetime
 import enum
-import functools
 import inspect
 import ipaddress
 import sys
+import threading
 import types
 import typing
 import uuid
@@ -41,6 +41,9 @@ T = TypeVar("T")
 
 
 class Serializer(abc.ABC, Generic[T]):
+    def build(self) -> None:
+        "Creates auxiliary generators that this generator is depending on."
+
     @abc.abstractmethod
     def generate(self, data: T) -> JsonType: ...
 
@@ -287,16 +290,22 @@ class FieldSerializer(Generic[T]):
 
 
 class TypedClassSerializer(Serializer[T]):
+    class_type: type[T]
+    context: Optional[ModuleType]
     property_generators: list[FieldSerializer]
 
     def __init__(self, class_type: type[T], context: Optional[ModuleType]) -> None:
+        self.class_type = class_type
+        self.context = context
+
+    def build(self) -> None:
         self.property_generators = [
             FieldSerializer(
                 field_name,
                 python_field_to_json_property(field_name, field_type),
-                _get_serializer(field_type, context),
+                _get_serializer(field_type, self.context),
             )
-            for field_name, field_type in get_class_properties(class_type)
+            for field_name, field_type in get_class_properties(self.class_type)
         ]
 
     def generate(self, obj: T) -> dict[str, JsonType]:
@@ -420,10 +429,31 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
         return _create_serializer(typ, context)
 
 
-@functools.lru_cache(maxsize=None)
+_CACHE: dict[type, Serializer] = {}
+_CACHE_LOCK = threading.RLock()
+
+
 def _fetch_serializer(typ: type) -> Serializer:
-    context = sys.modules[typ.__module__]
-    return _create_serializer(typ, context)
+    # other threads must not obtain a serializer before it is complete
+    with _CACHE_LOCK:
+        serializer = _CACHE.get(typ)
+        if serializer is None:
+            serializer = _create_serializer(typ, sys.modules[typ.__module__])
+
+            # store serializer immediately in cache to avoid stack overflow for recursive types
+            known_types = set(_CACHE)
+            _CACHE[typ] = serializer
+
+            try:
+                # create any serializers this serializer is depending on
+                serializer.build()
+            except BaseException:
+                # discard incomplete serializer and all others that may be referring to it
+                for key in set(_CACHE) - known_types:
+                    del _CACHE[key]
+                raise
+
+        return serializer
 
 
 def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
-- 
2.43.0


From 79bf0585e1a4fc15698c6450fa23577aae45001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:11 +0000
Subject: [PATCH 09/63] fix: annotated forward references are evaluated in the
 context of their class when serializing

---
 strong_typing/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 5656193..f6800e2 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -520,7 +520,7 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return LiteralSerializer(typing.get_args(typ), context)
 
     if is_type_annotated(typ):
-        return create_serializer(unwrap_annotated_type(typ))
+        return _get_serializer(unwrap_annotated_type(typ), context)
 
     # check if object has custom serialization method
     convert_func = getattr(typ, "to_json", None)
-- 
2.43.0


From 4318ba32453bee44dbfa4c287e4c90fca812278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:20 +0000
Subject: [PATCH 10/63] fix: untyped dictionary with enumeration keys always
 serializes to string keys

---
 strong_typing/serializer.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index f6800e2..c2c89ae 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -179,11 +179,9 @@ class UntypedListSerializer(Serializer[list]):
 
 class UntypedDictSerializer(Serializer[dict]):
     def generate(self, obj: dict) -> dict[str, JsonType]:
-        if obj and isinstance(next(iter(obj.keys())), enum.Enum):
-            iterator = ((key.value, object_to_json(value)) for key, value in obj.items())
-        else:
-            iterator = ((str(key), object_to_json(value)) for key, value in obj.items())
-        return dict(iterator)
+        return {
+            str(key.value if isinstance(key, enum.Enum) else key): object_to_json(value) for key, value in obj.items()
+        }
 
 
 class UntypedSetSerializer(Serializer[set]):
-- 
2.43.0


From 9fcbd5b0ba44c87120dab64ee6ae413286464472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:16 +0000
Subject: [PATCH 11/63] fix: json_to_object evaluates forward references in the
 module of its caller

---
 strong_typing/serialization.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/strong_typing/serialization.py b/strong_typing/serialization.py
index 218781c..afb1a32 100644
--- a/strong_typing/serialization.py
+++ b/strong_typing/serialization.py
@@ -20,6 +20,19 @@ from .serializer import create_serializer
 T = TypeVar("T")
 
 
+def _get_caller_module() -> Optional[ModuleType]:
+    "Returns the module in which the function that invokes this function has been called."
+
+    this_frame = inspect.currentframe()
+    if this_frame is None or this_frame.f_back is None or this_frame.f_back.f_back is None:
+        return None
+
+    try:
+        return sys.modules.get(this_frame.f_back.f_back.f_globals["__name__"])
+    finally:
+        del this_frame
+
+
 def object_to_json(obj: Any) -> JsonType:
     """
     Converts a Python object to a representation that can be exported to JSON.
@@ -65,6 +78,10 @@ def json_to_object(
     :raises JsonTypeError: Deserialization for data has failed due to a type mismatch.
     """
 
+    # use caller context for evaluating types if no context is supplied
+    if context is None:
+        context = _get_caller_module()
+
     return typing.cast(T, json_to_generic(typ, data, context=context, options=options))
 
 
@@ -84,16 +101,7 @@ def json_to_generic(
 
     # use caller context for evaluating types if no context is supplied
     if context is None:
-        this_frame = inspect.currentframe()
-        if this_frame is not None:
-            caller_frame = this_frame.f_back
-            del this_frame
-
-            if caller_frame is not None:
-                try:
-                    context = sys.modules[caller_frame.f_globals["__name__"]]
-                finally:
-                    del caller_frame
+        context = _get_caller_module()
 
     parser = create_deserializer(typ, context, options=options)
     return parser.parse(data)
-- 
2.43.0


From 8e597b9ea541d6d99c95e1feec9ef7c117a52054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:21 +0000
Subject: [PATCH 12/63] fix: custom de-serialization method takes precedence
 for enumerations and named tuples

---
 strong_typing/deserializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 3ade698..a98eeca 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -989,17 +989,17 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
         else:
             raise TypeError(f"unable to de-serialize unrecognized type: {typ}")
 
+    # check if object has custom serialization method
+    convert_func = getattr(typ, "from_json", None)
+    if callable(convert_func):
+        return CustomDeserializer(convert_func)
+
     if issubclass(typ, enum.Enum):
         return EnumDeserializer(typ)
 
     if is_named_tuple_type(typ):
         return NamedTupleDeserializer(typ, options)
 
-    # check if object has custom serialization method
-    convert_func = getattr(typ, "from_json", None)
-    if callable(convert_func):
-        return CustomDeserializer(convert_func)
-
     if is_dataclass_type(typ):
         dataclass_params = getattr(typ, "__dataclass_params__", None)
         if dataclass_params is not None and dataclass_params.frozen:
-- 
2.43.0


From 6e3dbc4b2c377b91f67ec9bbd97eebdc8c8ed92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:04 +0000
Subject: [PATCH 13/63] fix: schema uses the same property names as serializer
 and de-serializer

---
 strong_typing/schema.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 81f8930..bc6ae9d 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -19,12 +19,11 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import Alias, IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
-    get_annotation,
     get_class_properties,
     is_type_enum,
     is_type_like,
@@ -33,6 +32,7 @@ from .inspection import (
     unwrap_optional_type,
     unwrap_union_types,
 )
+from .mapping import python_field_to_json_property
 from .name import python_type_to_name
 from .serialization import object_to_json
 
@@ -432,12 +432,8 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
-            # rename property if an alias name is specified
-            alias = get_annotation(property_type, Alias)
-            if alias:
-                output_name = alias.name
-            else:
-                output_name = property_name
+            # use same property name as (de-)serializer
+            output_name = python_field_to_json_property(property_name, property_type)
 
             if is_type_optional(property_type):
                 optional_type: type = unwrap_optional_type(property_type)
-- 
2.43.0


From baf9ec4d56d23d09dc66223066bf55ba0e2ce814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:10 +0000
Subject: [PATCH 14/63] fix: schema for IP addresses describes strings

---
 strong_typing/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index bc6ae9d..0692f97 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -10,6 +10,7 @@ import decimal
 import enum
 import functools
 import inspect
+import ipaddress
 import json
 import typing
 import uuid
@@ -260,6 +261,12 @@ class JsonSchemaGenerator:
         elif typ is uuid.UUID:
             # f81d4fae-7dec-11d0-a765-00a0c91e6bf6
             return {"type": "string", "format": "uuid"}
+        elif typ is ipaddress.IPv4Address:
+            # 192.0.2.1
+            return {"type": "string", "format": "ipv4"}
+        elif typ is ipaddress.IPv6Address:
+            # 2001:db8::1
+            return {"type": "string", "format": "ipv6"}
         elif typ is Any:
             return {
                 "oneOf": [
-- 
2.43.0


From 1c38893b02fcdca06a24b46e481451a3c5ca7d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:18 +0000
Subject: [PATCH 15/63] fix: schema for optional types outside of object
 properties

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 0692f97..efb94f3 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -375,7 +375,7 @@ class JsonSchemaGenerator:
                     enum_schema.update(docstring_to_schema(typ))
                 return enum_schema
 
-        if is_type_union(typ):
+        if is_type_union(typ) or is_type_optional(typ):
             return {"oneOf": [self.type_to_schema(union_type) for union_type in unwrap_union_types(typ)]}
 
         origin_type = typing.get_origin(typ)
-- 
2.43.0


From 0d870c7413249d2e4fc0efc56e4cf8e3bde4eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:24 +0000
Subject: [PATCH 16/63] fix: schema for literal types with several values

---
 strong_typing/schema.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index efb94f3..e51e1cf 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -423,9 +423,15 @@ class JsonSchemaGenerator:
                 "prefixItems": [self.type_to_schema(member_type) for member_type in args],
             }
         elif origin_type is Literal:
-            (literal_value,) = typing.get_args(typ)  # unpack value of literal type
-            schema = self.type_to_schema(type(literal_value))
-            schema["const"] = literal_value
+            literal_values = typing.get_args(typ)
+            literal_types = set(type(literal_value) for literal_value in literal_values)
+            if len(literal_types) != 1:
+                raise ValueError(f"literal must have a consistent value type but several types found: {literal_types}")
+            schema = self.type_to_schema(literal_types.pop())
+            if len(literal_values) == 1:
+                schema["const"] = literal_values[0]
+            else:
+                schema["enum"] = list(literal_values)
             return schema
         elif origin_type is type:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
-- 
2.43.0


From b5c8d7e729f2837b7c2b619267baa8075b49dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:30 +0000
Subject: [PATCH 17/63] fix: schema pattern matches enumeration values
 literally

---
 strong_typing/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index e51e1cf..8707e99 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -12,6 +12,7 @@ import functools
 import inspect
 import ipaddress
 import json
+import re
 import typing
 import uuid
 from copy import deepcopy
@@ -393,7 +394,7 @@ class JsonSchemaGenerator:
                 enum_values = [str(e.value) for e in key_type]
                 if len(enum_values) > OBJECT_ENUM_EXPANSION_LIMIT:
                     dict_schema = {
-                        "propertyNames": {"pattern": "^(" + "|".join(enum_values) + ")$"},
+                        "propertyNames": {"pattern": "^(" + "|".join(re.escape(value) for value in enum_values) + ")$"},
                         "additionalProperties": value_schema,
                     }
                 else:
-- 
2.43.0


From 1b8422285b810a3fd54f95e9fbe9bf4d815811a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 18/63] fix: generated schema does not share examples with the
 type catalog

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 8707e99..9535f27 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -515,7 +515,7 @@ class JsonSchemaGenerator:
 
         # add example (if present)
         if self.options.use_examples and entry.examples:
-            type_schema["examples"] = entry.examples
+            type_schema["examples"] = deepcopy(entry.examples)
 
         return type_schema
 
-- 
2.43.0


From 90a611a521d193b463370880dbcf1dff14c14619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:23 +0000
Subject: [PATCH 19/63] fix: instance and predicate checks support tuple
 length, new-style unions and annotated types

---
 strong_typing/inspection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 27e4508..c4668e4 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -836,6 +836,8 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
         else:
             return False
 
+    typ = unwrap_annotated_type(typ)
+
     # generic types (e.g. list, dict, set, etc.)
     origin_type = typing.get_origin(typ)
     if origin_type is list:
@@ -860,7 +862,7 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
         set_obj: set = obj
         return all(is_generic_instance(item, set_member_type) for item in set_obj)
     elif origin_type is tuple:
-        if not isinstance(obj, tuple):
+        if not isinstance(obj, tuple) or len(obj) != len(typing.get_args(typ)):
             return False
         return all(
             is_generic_instance(item, tuple_item_type)
@@ -869,7 +871,7 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
                 (item for item in obj),
             )
         )
-    elif origin_type is Union:
+    elif _is_union_like(typ):
         return any(is_generic_instance(obj, member_type) for member_type in typing.get_args(typ))
     elif isinstance(typ, type):
         return isinstance(obj, typ)
@@ -904,6 +906,8 @@ class RecursiveChecker:
         :returns: True if all member properties pass the filter predicate.
         """
 
+        typ = unwrap_annotated_type(typ)
+
         # check for well-known types
         if (
             typ is type(None)
@@ -950,7 +954,7 @@ class RecursiveChecker:
                     (item for item in obj),
                 )
             )
-        elif origin_type is Union:
+        elif _is_union_like(typ):
             return self.pred(typ, obj)  # type: ignore[arg-type]
 
         if not inspect.isclass(typ):
-- 
2.43.0


From 189ea5581c73c1d4957d97fb028c1fa13406ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:23 +0000
Subject: [PATCH 20/63] fix: annotations of data class fields are recognized in
 types written as a string

---
 strong_typing/inspection.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index c4668e4..799d5e1 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -559,7 +559,19 @@ def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
     "Returns all properties of a class."
 
     if is_dataclass_type(typ):
-        return ((field.name, field.type) for field in dataclasses.fields(typ))
+        fields = dataclasses.fields(typ)
+        if not any(isinstance(field.type, str) for field in fields):
+            return ((field.name, field.type) for field in fields)
+
+        # evaluate types written as a string such that annotations can be looked up
+        try:
+            resolved_hints = get_resolved_hints(typ)
+        except NameError:
+            # a type is local to a function or not defined yet
+            return ((field.name, field.type) for field in fields)
+        return (
+            (field.name, resolved_hints[field.name] if isinstance(field.type, str) else field.type) for field in fields
+        )
     else:
         resolved_hints = get_resolved_hints(typ)
         return resolved_hints.items()
-- 
2.43.0


From 4a97b7d99af9ed12d1cf44103280bb8107eaf2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 21/63] fix: schema for registered types that are forward
 references to other registered types

---
 strong_typing/schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 9535f27..72ecdfa 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -124,6 +124,7 @@ class TypeCatalogEntry:
     schema: Optional[Schema]
     identifier: str
     examples: Optional[JsonType] = None
+    data_type: Optional[TypeLike] = None
 
 
 class TypeCatalog:
@@ -157,7 +158,7 @@ class TypeCatalog:
         if data_type in self._by_type:
             raise ValueError(f"type {data_type} is already registered in the catalog")
 
-        entry = TypeCatalogEntry(schema, identifier, examples)
+        entry = TypeCatalogEntry(schema, identifier, examples, data_type)
         self._by_type[data_type] = entry
         self._by_name[identifier] = entry
 
@@ -503,6 +504,9 @@ class JsonSchemaGenerator:
         """
 
         entry = JsonSchemaGenerator.type_catalog.get(data_type)
+        if isinstance(data_type, typing.ForwardRef):
+            data_type = entry.data_type
+
         if entry.schema is None:
             type_schema = self.type_to_schema(data_type, force_expand=True)
         else:
-- 
2.43.0


From 788d877db2efd60ad7187350d44d8f2410d82cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 22/63] fix: schema for data classes without fields does not
 allow additional properties

---
 strong_typing/schema.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 72ecdfa..a06927b 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -27,6 +27,7 @@ from .inspection import (
     TypeLike,
     enum_value_types,
     get_class_properties,
+    is_dataclass_type,
     is_type_enum,
     is_type_like,
     is_type_optional,
@@ -488,6 +489,7 @@ class JsonSchemaGenerator:
         schema = {"type": "object"}
         if len(properties) > 0:
             schema["properties"] = typing.cast(JsonType, properties)
+        if len(properties) > 0 or is_dataclass_type(typ):
             schema["additionalProperties"] = False
         if len(required) > 0:
             schema["required"] = typing.cast(JsonType, required)
-- 
2.43.0


From 89e01cbc152bc73abd951b497847ca847fb1e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 23/63] fix: define registered types that an annotated forward
 reference refers to

---
 strong_typing/schema.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index a06927b..64dcfb6 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -337,6 +337,11 @@ class JsonSchemaGenerator:
                 identifier, true_type = type_from_ref(typ)
                 return self.type_to_schema(true_type, force_expand=True)
             else:
+                # look up registered types that are referred to by name
+                forward_type = typing.ForwardRef(typ) if isinstance(typ, str) else typ
+                if forward_type in type_catalog:
+                    return self.type_to_schema(forward_type)
+
                 try:
                     identifier, true_type = type_from_ref(typ)
                     self.types_used[identifier] = true_type
-- 
2.43.0


From bed534f8ee00abfa9559f87b3b335be21bda0b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 24/63] fix: definitions of a schema that are not classes
 neither fail nor have their module changed

---
 strong_typing/classdef.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index e129a41..6929010 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -180,7 +180,6 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
             if type_def.default is not dataclasses.MISSING:
                 raise TypeError("disallowed: `default` for top-level type definitions")
 
-            type_def.type.__module__ = module.__name__
             setattr(module, type_name, type_def.type)
 
     return node_to_typedef(module, class_name, top_node).type
-- 
2.43.0


From 090516e84b57e81fd482a6343c511e5b0a80914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 25/63] fix: enumerations built from a schema lost values with
 similar names and failed for reserved names

---
 strong_typing/classdef.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 6929010..020bbef 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -142,11 +142,23 @@ def enum_safe_name(name: str) -> str:
     name = re.sub(r"\W", "_", name)
     is_dunder = name.startswith("__")
     is_sunder = name.startswith("_") and name.endswith("_")
-    if is_dunder or is_sunder:  # provide an alternative for dunder and sunder names
+    if is_dunder or is_sunder or name in ("", "mro"):  # provide an alternative for names that Python reserves
         name = f"v{name}"
     return name
 
 
+def enum_members(values: list[str]) -> dict[str, str]:
+    "Maps unique enumeration member names to values."
+
+    members: dict[str, str] = {}
+    for value in values:
+        name = enum_safe_name(value)
+        while name in members:
+            name = f"v{name}"
+        members[name] = value
+    return members
+
+
 def enum_values_to_type(
     module: types.ModuleType,
     name: str,
@@ -296,7 +308,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
             string_type = enum_values_to_type(
                 module,
                 context,
-                {enum_safe_name(e): e for e in node.enum},
+                enum_members(node.enum),
                 title=node.title,
                 description=node.description,
             )
-- 
2.43.0


From de2d6543028556bad055018b6edfc17186f4766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 26/63] fix: default value of a constant was lost when building
 a type from a schema

---
 strong_typing/classdef.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 020bbef..60dcf46 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -221,14 +221,14 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaBoolean):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(Literal[node.const], node.default))
 
         default = json_to_value(bool, node.default)
         return TypeDef(bool, default)
 
     elif isinstance(node, JsonSchemaInteger):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(Literal[node.const], node.default))
 
         integer_type: TypeLike
         if node.format == "int16":
@@ -250,7 +250,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaNumber):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(Literal[node.const], node.default))
 
         number_type: TypeLike
         if node.format == "float32":
@@ -286,7 +286,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaString):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(Literal[node.const], node.default))
 
         string_type: TypeLike
         if node.format == "date-time":
-- 
2.43.0


From 6060364504e0a2def89ce1826dc730f55842050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 27/63] fix: a definition that refers to a later one could not
 be built from a schema

---
 strong_typing/classdef.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 60dcf46..b87ef72 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -18,6 +18,7 @@ from .core import JsonType, Schema
 from .docstring import Docstring, DocstringParam
 from .inspection import TypeLike
 from .serialization import json_to_object, object_to_json
+from .topological import topological_sort
 
 T = TypeVar("T")
 
@@ -176,6 +177,21 @@ def enum_values_to_type(
     return enum.unique(enum_class)
 
 
+def referenced_definitions(node: JsonSchemaNode) -> set[str]:
+    "Names of definitions that a JSON schema node refers to."
+
+    if isinstance(node, JsonSchemaRef):
+        return {node.ref.rpartition("/")[2]}
+    elif isinstance(node, JsonSchemaArray):
+        return referenced_definitions(node.items)
+    elif isinstance(node, JsonSchemaObject):
+        return {name for prop in (node.properties or {}).values() for name in referenced_definitions(prop)}
+    elif isinstance(node, JsonSchemaOneOf):
+        return {name for member in node.oneOf for name in referenced_definitions(member)}
+    else:
+        return set()
+
+
 def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str) -> TypeLike:
     """
     Creates a Python type from a JSON schema.
@@ -187,7 +203,11 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
 
     top_node = json_to_object(JsonSchemaTopLevelObject, schema)
     if top_node.definitions is not None:
-        for type_name, type_node in top_node.definitions.items():
+        # create types only after the types they refer to
+        definitions = top_node.definitions
+        graph = {name: referenced_definitions(node) & definitions.keys() for name, node in definitions.items()}
+        for type_name in topological_sort(graph):
+            type_node = definitions[type_name]
             type_def = node_to_typedef(module, type_name, type_node)
             if type_def.default is not dataclasses.MISSING:
                 raise TypeError("disallowed: `default` for top-level type definitions")
-- 
2.43.0


From 08e62a27f27c54e28b4bdd42f5dd97e0f73823a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 28/63] fix: enumerations built from a schema lost values that
 look like private names

---
 strong_typing/classdef.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index b87ef72..e4bfdec 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -143,7 +143,8 @@ def enum_safe_name(name: str) -> str:
     name = re.sub(r"\W", "_", name)
     is_dunder = name.startswith("__")
     is_sunder = name.startswith("_") and name.endswith("_")
-    if is_dunder or is_sunder or name in ("", "mro"):  # provide an alternative for names that Python reserves
+    is_private = name.startswith("_") and "__" in name  # excluded from members if it starts with the class name
+    if is_dunder or is_sunder or is_private or name in ("", "mro"):  # provide an alternative for names that Python reserves
         name = f"v{name}"
     return name
 
-- 
2.43.0


From e71ce167724c94ac4e8feccff12d4fa083ab16b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 29/63] fix: annotate the type of a constant with a default

---
 strong_typing/classdef.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index e4bfdec..b874c91 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -231,6 +231,11 @@ def json_to_value(target_type: type[T], data: JsonType) -> Any:
         return typing.cast(Any, dataclasses.MISSING)
 
 
+def const_to_typedef(const: Any, default: JsonType) -> TypeDef:
+    literal_type: Any = Literal[const]
+    return TypeDef(literal_type, json_to_value(literal_type, default))
+
+
 def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode) -> TypeDef:
     if isinstance(node, JsonSchemaRef):
         match_obj = re.match(r"^#/definitions/(\w+)$", node.ref)
@@ -242,14 +247,14 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaBoolean):
         if node.const is not None:
-            return TypeDef(Literal[node.const], json_to_value(Literal[node.const], node.default))
+            return const_to_typedef(node.const, node.default)
 
         default = json_to_value(bool, node.default)
         return TypeDef(bool, default)
 
     elif isinstance(node, JsonSchemaInteger):
         if node.const is not None:
-            return TypeDef(Literal[node.const], json_to_value(Literal[node.const], node.default))
+            return const_to_typedef(node.const, node.default)
 
         integer_type: TypeLike
         if node.format == "int16":
@@ -271,7 +276,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaNumber):
         if node.const is not None:
-            return TypeDef(Literal[node.const], json_to_value(Literal[node.const], node.default))
+            return const_to_typedef(node.const, node.default)
 
         number_type: TypeLike
         if node.format == "float32":
@@ -307,7 +312,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaString):
         if node.const is not None:
-            return TypeDef(Literal[node.const], json_to_value(Literal[node.const], node.default))
+            return const_to_typedef(node.const, node.default)
 
         string_type: TypeLike
         if node.format == "date-time":
-- 
2.43.0


From 5f20ef52c57492dac4a937dfc12fdbafef2b9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 30/63] fix: data of a class built from a schema with an
 untyped object could not be read

---
 strong_typing/classdef.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index b874c91..e1ecfd7 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -357,6 +357,8 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaObject):
         if node.properties is None:
+            # make the type available to forward references in its own definition
+            setattr(module, "JsonType", JsonType)
             return TypeDef(JsonType, dataclasses.MISSING)
 
         if node.additionalProperties is None or node.additionalProperties is not False:
-- 
2.43.0


From d4ac96975254555f1c8fcfa83b4522de261492d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:03 +0000
Subject: [PATCH 31/63] fix: an additional dependency on a type that is sorted
 discarded what that type depends on

---
 strong_typing/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 3bb93c7..a2c87b3 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -79,6 +79,6 @@ def type_topological_sort(
             references.update(dependent_types)
             new_types.update(dependent_types)
         for new_type in new_types:
-            graph[new_type] = set()
+            graph.setdefault(new_type, set())
 
     return topological_sort(graph)
-- 
2.43.0


From 93bd91d21f735817e9295bf6d7053e0df8817558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:12 +0000
Subject: [PATCH 32/63] fix: sorting types passed as an iterator found no types

---
 strong_typing/topological.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index a2c87b3..55526d6 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -65,6 +65,7 @@ def type_topological_sort(
     :returns: The list of types in topological order.
     """
 
+    types = list(types)
     if not all(isinstance(typ, type) for typ in types):
         raise TypeError("expected a list of types")
 
@@ -75,7 +76,7 @@ def type_topological_sort(
     if dependency_fn:
         new_types: set[type] = set()
         for source_type, references in graph.items():
-            dependent_types = dependency_fn(source_type)
+            dependent_types = list(dependency_fn(source_type))
             references.update(dependent_types)
             new_types.update(dependent_types)
         for new_type in new_types:
-- 
2.43.0


From 435f6500c6306dba925973ff0cbea8db5deb02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 33/63] fix: sorted types included the internal root of the
 dependency graph

---
 strong_typing/topological.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 55526d6..4908653 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -6,7 +6,7 @@ Type-safe data interchange for Python data classes.
 
 from typing import Callable, Iterable, Optional, TypeVar
 
-from .inspection import TypeCollector
+from .inspection import _ROOT, TypeCollector
 
 T = TypeVar("T")
 
@@ -71,7 +71,7 @@ def type_topological_sort(
 
     collector = TypeCollector()
     collector.traverse_all(types)
-    graph = collector.graph
+    graph = {typ: references for typ, references in collector.graph.items() if typ is not _ROOT}
 
     if dependency_fn:
         new_types: set[type] = set()
-- 
2.43.0


From e715c5cbc346d1d2623f55f812fc3ea18a6dabdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 34/63] fix: predicates were not applied to IP addresses and
 decimal numbers

---
 strong_typing/inspection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 799d5e1..4241a99 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -8,11 +8,13 @@ Type-safe data interchange for Python data classes.
 
 import dataclasses
 import datetime
+import decimal
 import enum
 import importlib
 import importlib.machinery
 import importlib.util
 import inspect
+import ipaddress
 import re
 import sys
 import types
@@ -933,6 +935,9 @@ class RecursiveChecker:
             or typ is datetime.time
             or typ is datetime.timedelta
             or typ is uuid.UUID
+            or typ is ipaddress.IPv4Address
+            or typ is ipaddress.IPv6Address
+            or typ is decimal.Decimal
         ):
             return self.pred(typing.cast(type, typ), obj)
 
-- 
2.43.0


From b7354ecfda4728e0c885948871b77a703bff1531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 35/63] fix: extending an enumeration silently replaced a
 member of the same name

---
 strong_typing/inspection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 4241a99..fd4e752 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -251,7 +251,10 @@ def extend_enum(
         # create new enumeration type combining the values from both types
         values: dict[str, Any] = {}
         values.update((e.name, e.value) for e in source)
-        values.update((e.name, e.value) for e in extend)
+        for e in extend:
+            if e.name in values and values[e.name] != e.value:
+                raise ValueError(f"enumeration member `{e.name}` is already defined with another value")
+            values[e.name] = e.value
         enum_class: type[enum.Enum] = enum.Enum(extend.__name__, values)  # type: ignore
 
         # assign the newly created type to the same module where the extending class is defined
-- 
2.43.0


From 3f737b3bba1fc75abb2346adc65554a8dc129bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 36/63] fix: types of fields inherited from a data class in
 another module were looked up in the wrong module

---
 strong_typing/inspection.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index fd4e752..604f080 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -159,11 +159,22 @@ class DataclassField:
         self.default = default
 
 
+def _get_declaring_class(cls: type, field: dataclasses.Field) -> type:
+    "Finds the data-class in which a (possibly inherited) field is declared."
+
+    declaring_class = cls
+    for base in cls.__mro__:
+        if base.__dict__.get("__dataclass_fields__", {}).get(field.name) is field:
+            declaring_class = base
+    return declaring_class
+
+
 def dataclass_fields(cls: type[DataclassInstance]) -> Iterable[DataclassField]:
     "Generates the fields of a data-class resolving forward references."
 
     for field in dataclasses.fields(cls):
-        yield DataclassField(field.name, evaluate_member_type(field.type, cls), field.default)
+        declaring_class = _get_declaring_class(cls, field)
+        yield DataclassField(field.name, evaluate_member_type(field.type, declaring_class), field.default)
 
 
 def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> DataclassField:
@@ -171,7 +182,7 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_member_type(field.type, cls))
+            return DataclassField(field.name, evaluate_member_type(field.type, _get_declaring_class(cls, field)))
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
@@ -565,17 +576,24 @@ def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
 
     if is_dataclass_type(typ):
         fields = dataclasses.fields(typ)
-        if not any(isinstance(field.type, str) for field in fields):
+
+        # evaluate types written as a string such that annotations can be looked up, and types of fields inherited from
+        # a class in another module, in which names may have a different meaning
+        evaluated = {
+            field.name
+            for field in fields
+            if isinstance(field.type, str) or _get_declaring_class(typ, field).__module__ != typ.__module__
+        }
+        if not evaluated:
             return ((field.name, field.type) for field in fields)
 
-        # evaluate types written as a string such that annotations can be looked up
         try:
             resolved_hints = get_resolved_hints(typ)
         except NameError:
             # a type is local to a function or not defined yet
             return ((field.name, field.type) for field in fields)
         return (
-            (field.name, resolved_hints[field.name] if isinstance(field.type, str) else field.type) for field in fields
+            (field.name, resolved_hints[field.name] if field.name in evaluated else field.type) for field in fields
         )
     else:
         resolved_hints = get_resolved_hints(typ)
@@ -714,8 +732,8 @@ class TypeCollector:
         if is_dataclass_type(typ) or is_type_enum(typ) or isinstance(typ, type):
             context = sys.modules[typ.__module__]
             if is_dataclass_type(typ):
-                for field in dataclass_fields(typ):
-                    self.run(field.type, typ, context)
+                for _, field_type in get_class_properties(typ):
+                    self.run(field_type, typ, context)
             else:
                 for _, field_type in get_resolved_hints(typ).items():
                     self.run(field_type, typ, context)
-- 
2.43.0


From 624f337297e752722eb349f4a4fd55f9ef4b0dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 37/63] fix: types that an additional dependency depends on
 were not sorted

---
 strong_typing/topological.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 4908653..5729f07 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -71,15 +71,16 @@ def type_topological_sort(
 
     collector = TypeCollector()
     collector.traverse_all(types)
-    graph = {typ: references for typ, references in collector.graph.items() if typ is not _ROOT}
 
     if dependency_fn:
-        new_types: set[type] = set()
-        for source_type, references in graph.items():
-            dependent_types = list(dependency_fn(source_type))
-            references.update(dependent_types)
-            new_types.update(dependent_types)
-        for new_type in new_types:
-            graph.setdefault(new_type, set())
+        visited: set[type] = {_ROOT}
+        pending = [typ for typ in collector.graph if typ not in visited]
+        while pending:
+            for source_type in pending:
+                visited.add(source_type)
+                for dependent_type in dependency_fn(source_type):
+                    collector.run(dependent_type, source_type, None)
+            pending = [typ for typ in collector.graph if typ not in visited]
 
+    graph = {typ: references for typ, references in collector.graph.items() if typ is not _ROOT}
     return topological_sort(graph)
-- 
2.43.0


From 7a93555ccb307c85c9a4ae473a93f6e733225ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:01 +0000
Subject: [PATCH 38/63] fix: a documentation text that starts with a line of
 spaces lost its short description

---
 strong_typing/docstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 8871b93..b67cd39 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -258,7 +258,7 @@ def parse_text(text: str) -> Docstring:
         meta_chunk = ""
 
     # split description text into short and long description
-    parts = desc_chunk.split("\n\n", 1)
+    parts = desc_chunk.strip().split("\n\n", 1)
 
     # ensure short description has no newlines
     short_description = parts[0].strip().replace("\n", " ") or None
-- 
2.43.0


From 6ee0747261a76602ca2b7407f9945566c010f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:21 +0000
Subject: [PATCH 39/63] fix: documentation of a member that a derived class
 declares again was refused

---
 strong_typing/docstring.py  | 6 +++++-
 strong_typing/inspection.py | 8 ++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index b67cd39..41e0c1f 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -24,6 +24,7 @@ from .inspection import (
     DataclassInstance,
     TypeLike,
     get_class_properties,
+    get_declaring_class,
     get_signature,
     is_dataclass_type,
     is_type_enum,
@@ -382,10 +383,13 @@ def check_dataclass_docstring(typ: type[DataclassInstance], docstring: Docstring
         if name not in base_props:
             properties.append(name)
 
+    # members that the class declares again
+    redeclared = {field.name for field in dataclasses.fields(typ) if get_declaring_class(typ, field) is typ}
+
     class_name = typ.__name__
 
     for name in docstring.params:
-        if name not in properties:
+        if name not in properties and name not in redeclared:
             raise TypeError(f"doc-string parameter `{name}` is not a member of the data-class `{class_name}`")
 
     if not strict:
diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 604f080..2205710 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -159,7 +159,7 @@ class DataclassField:
         self.default = default
 
 
-def _get_declaring_class(cls: type, field: dataclasses.Field) -> type:
+def get_declaring_class(cls: type, field: dataclasses.Field) -> type:
     "Finds the data-class in which a (possibly inherited) field is declared."
 
     declaring_class = cls
@@ -173,7 +173,7 @@ def dataclass_fields(cls: type[DataclassInstance]) -> Iterable[DataclassField]:
     "Generates the fields of a data-class resolving forward references."
 
     for field in dataclasses.fields(cls):
-        declaring_class = _get_declaring_class(cls, field)
+        declaring_class = get_declaring_class(cls, field)
         yield DataclassField(field.name, evaluate_member_type(field.type, declaring_class), field.default)
 
 
@@ -182,7 +182,7 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_member_type(field.type, _get_declaring_class(cls, field)))
+            return DataclassField(field.name, evaluate_member_type(field.type, get_declaring_class(cls, field)))
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
@@ -582,7 +582,7 @@ def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
         evaluated = {
             field.name
             for field in fields
-            if isinstance(field.type, str) or _get_declaring_class(typ, field).__module__ != typ.__module__
+            if isinstance(field.type, str) or get_declaring_class(typ, field).__module__ != typ.__module__
         }
         if not evaluated:
             return ((field.name, field.type) for field in fields)
-- 
2.43.0


From 0794d523270c48356c73bf8e17e1b6ec146dbe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 40/63] fix: a null for an optional class with custom
 de-serialization was passed to the custom method

---
 strong_typing/deserializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index a98eeca..16113f1 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -418,6 +418,10 @@ class UnionDeserializer(RecursiveDeserializer):
         self.member_parsers = tuple(self.get_deserializer(member_type, context) for member_type in self.member_types)
 
     def parse(self, data: JsonType) -> Any:
+        if data is None and type(None) in self.member_types:
+            # a member type with a custom de-serialization method might accept (or fail on) any data
+            return None
+
         for member_parser in self.member_parsers:
             # iterate over potential types of discriminated union
             try:
-- 
2.43.0


From 33853241ab4d46bccb752fc925cf2e71cc6e54c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:36 +0000
Subject: [PATCH 41/63] fix: the type of an empty tuple was printed as tuple[],
 which is not an expression

---
 strong_typing/name.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index c52d34c..ec25d99 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -140,6 +140,8 @@ class TypeFormatter:
             elif origin is frozenset:  # frozenset[T]
                 origin_name = "frozenset"
             elif origin is tuple:  # tuple[T, ...]
+                if not data_type_args:
+                    return "tuple[()]"
                 origin_name = "tuple"
             elif origin is type:  # type[T]
                 args = ", ".join(self.python_type_to_str(t) for t in data_type_args)
-- 
2.43.0


From 1120a2a1b82f0c8a34bf8041183aa91384d7dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:44 +0000
Subject: [PATCH 42/63] fix: enumeration members in a literal type were printed
 in a form that is not an expression

---
 strong_typing/name.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index ec25d99..444954b 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -4,6 +4,7 @@ Type-safe data interchange for Python data classes.
 :see: https://github.com/hunyadi/strong_typing
 """
 
+import enum
 import sys
 import typing
 from types import ModuleType
@@ -64,6 +65,9 @@ class TypeFormatter:
 
         if self.value_transform is not None:
             return self.value_transform(value)
+        elif isinstance(value, enum.Enum):
+            # enumeration members have a representation that is not a Python expression
+            return f"{type(value).__name__}.{value.name}"
         else:
             return repr(value)
 
-- 
2.43.0


From 549f58ec90ad841efa5967cbf54afd61179d6139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:52 +0000
Subject: [PATCH 43/63] fix: annotations on top of an auxiliary type were lost
 or re-ordered when they resemble those of the auxiliary type

---
 strong_typing/name.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index 444954b..2a9f8b6 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -194,7 +194,6 @@ class TypeFormatter:
             arg = typing.get_args(data_type)[0]
 
             # check for auxiliary types with user-defined annotations
-            metaset = set(metatuple)
             for auxiliary_type, auxiliary_name in _auxiliary_types.items():
                 auxiliary_arg = typing.get_args(auxiliary_type)[0]
                 if arg is not auxiliary_arg:
@@ -204,9 +203,10 @@ class TypeFormatter:
                 if auxiliary_metatuple is None:
                     continue
 
-                if metaset.issuperset(auxiliary_metatuple):
+                count = len(auxiliary_metatuple)
+                if len(metatuple) > count and metatuple[:count] == auxiliary_metatuple:
                     # type is an auxiliary type with extra annotations
-                    auxiliary_args = ", ".join(repr(m) for m in metatuple if m not in auxiliary_metatuple)
+                    auxiliary_args = ", ".join(repr(m) for m in metatuple[count:])
                     return f"Annotated[{auxiliary_name}, {auxiliary_args}]"
 
             # type is an annotated type
-- 
2.43.0


From 8ae0a88a9af70a5dc7cd7c8e6dcb4092f985a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 44/63] fix: types with annotations that are not hashable could
 not be printed

---
 strong_typing/auxiliary.py | 6 +++++-
 strong_typing/name.py      | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/strong_typing/auxiliary.py b/strong_typing/auxiliary.py
index f112c8e..9e7c82e 100644
--- a/strong_typing/auxiliary.py
+++ b/strong_typing/auxiliary.py
@@ -211,4 +211,8 @@ for var in dir(module):
 def get_auxiliary_format(data_type: object) -> Optional[str]:
     "Returns the JSON format string corresponding to an auxiliary type."
 
-    return _auxiliary_types.get(data_type)
+    try:
+        return _auxiliary_types.get(data_type)
+    except TypeError:
+        # annotations are not always hashable
+        return None
diff --git a/strong_typing/name.py b/strong_typing/name.py
index 2a9f8b6..ba14810 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -10,7 +10,7 @@ import typing
 from types import ModuleType
 from typing import Any, Callable, Literal, Optional
 
-from .auxiliary import ParamSpec, _auxiliary_types
+from .auxiliary import ParamSpec, _auxiliary_types, get_auxiliary_format
 from .inspection import (
     TypeLike,
     evaluate_type,
@@ -183,7 +183,7 @@ class TypeFormatter:
             return f"[{items}]"
 
         # use compact name for alias types
-        name = _auxiliary_types.get(data_type)
+        name = get_auxiliary_format(data_type)
         if name is not None:
             return name
 
@@ -237,7 +237,7 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
     """
 
     # use compact name for alias types
-    name = _auxiliary_types.get(data_type)
+    name = get_auxiliary_format(data_type)
     if name is not None:
         return name
 
-- 
2.43.0


From c5006c4804dd73600e98cd07a1925ae8ac587379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 45/63] fix: an annotated None was printed as NoneType

---
 strong_typing/name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index ba14810..5344bdc 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -211,7 +211,7 @@ class TypeFormatter:
 
             # type is an annotated type
             args = ", ".join(repr(m) for m in metatuple)
-            return f"Annotated[{self.plain_type_to_str(arg)}, {args}]"
+            return f"Annotated[{self.python_type_to_str(arg)}, {args}]"
         else:
             # type is a regular type
             return self.plain_type_to_str(data_type)
-- 
2.43.0


From b76d0e503bcd79a78d19482bdf63a90b0d76c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 46/63] fix: types referred to by name as an argument of a
 built-in generic type were not transformed

---
 strong_typing/name.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index 5344bdc..6edabd5 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -123,6 +123,10 @@ class TypeFormatter:
 
             if data_type.isidentifier() and data_type in self.context.__dict__:
                 # simple type name that is defined in the current context
+                context_type = self.context.__dict__[data_type]
+                if isinstance(context_type, type) and self.type_transform is not None:
+                    return self.type_transform(context_type)
+
                 return data_type
 
             return self.python_type_to_str(evaluate_type(data_type, self.context))
-- 
2.43.0


From 9a4055f234e543286664ae720867e5f99ced9e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:23 +0000
Subject: [PATCH 47/63] fix: no name was produced for an annotated composite
 type

---
 strong_typing/name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index 6edabd5..2038645 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -250,7 +250,7 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
     if metadata is not None:
         # type is Annotated[T, ...]
         arg = typing.get_args(data_type)[0]
-        return python_type_to_name(arg)
+        return python_type_to_name(arg, force=force)
 
     if force:
         # generic types
-- 
2.43.0


From 35da37d1ba85a21b16202974c6ee0cc66c3e81c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:03 +0000
Subject: [PATCH 48/63] fix: recognize an annotated named tuple type as a named
 tuple type

---
 strong_typing/inspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 2205710..fa97d9c 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -201,11 +201,11 @@ def is_named_tuple_type(typ: Any) -> TypeGuard[type[NamedTuple]]:
     with a member named `_fields` that is a tuple whose items are all strings.
     """
 
+    typ = unwrap_annotated_type(typ)
+
     if not isinstance(typ, type):
         return False
 
-    typ = unwrap_annotated_type(typ)
-
     b = getattr(typ, "__bases__", None)
     if b is None:
         return False
-- 
2.43.0


From 677720068cba20aaba1b0d41f49f021739893b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 49/63] fix: unwrap the members of an annotated union type

---
 strong_typing/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index fa97d9c..84e0721 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -358,7 +358,7 @@ def unwrap_union_types(typ: object) -> tuple[object, ...]:
     :returns: The inner types `T1`, `T2`, etc.
     """
 
-    return _unwrap_union_types(typ)
+    return _unwrap_union_types(unwrap_annotated_type(typ))
 
 
 def _unwrap_union_types(typ: object) -> tuple[object, ...]:
-- 
2.43.0


From f6df532e27afbb077eb8b7f3251eef280fe438e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:15 +0000
Subject: [PATCH 50/63] fix: include the default value in a data-class field
 looked up by name

---
 strong_typing/inspection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 84e0721..526a8ae 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -182,7 +182,9 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_member_type(field.type, get_declaring_class(cls, field)))
+            return DataclassField(
+                field.name, evaluate_member_type(field.type, get_declaring_class(cls, field)), field.default
+            )
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
-- 
2.43.0


From 238e30cdb86a8569dcfd629d0230d150416e46f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:11 +0000
Subject: [PATCH 51/63] fix: do not take the generated documentation of a named
 tuple for its description

---
 strong_typing/docstring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 41e0c1f..efca97e 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -27,6 +27,7 @@ from .inspection import (
     get_declaring_class,
     get_signature,
     is_dataclass_type,
+    is_named_tuple_type,
     is_type_enum,
 )
 
@@ -314,7 +315,7 @@ def parse_text(text: str) -> Docstring:
 
 
 def has_default_docstring(typ: SupportsDoc) -> bool:
-    "Check if class has the auto-generated string assigned by @dataclass."
+    "Check if class has the auto-generated string assigned by @dataclass, enumerations or named tuples."
 
     if not isinstance(typ, type):
         return False
@@ -325,6 +326,9 @@ def has_default_docstring(typ: SupportsDoc) -> bool:
     if is_type_enum(typ):
         return typ.__doc__ is not None and typ.__doc__ == "An enumeration."
 
+    if is_named_tuple_type(typ):
+        return typ.__doc__ == f"{typ.__name__}({', '.join(getattr(typ, '_fields'))})"
+
     return False
 
 
-- 
2.43.0


From 82ed468b597b0105e8a5a22ed6fb29b27f7f94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:17 +0000
Subject: [PATCH 52/63] fix: show defaults of slotted data classes and named
 tuples in schemas

---
 strong_typing/schema.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 64dcfb6..257e4de 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -28,6 +28,7 @@ from .inspection import (
     enum_value_types,
     get_class_properties,
     is_dataclass_type,
+    is_named_tuple_type,
     is_type_enum,
     is_type_like,
     is_type_optional,
@@ -446,7 +447,13 @@ class JsonSchemaGenerator:
             return {"const": self.type_to_schema(concrete_type, force_expand=True)}
 
         # dictionary of class attributes
-        members = dict(inspect.getmembers(typ, lambda a: not inspect.isroutine(a)))
+        members: dict[str, Any]
+        if is_dataclass_type(typ):
+            members = {field.name: field.default for field in dataclasses.fields(typ)}
+        elif is_named_tuple_type(typ):
+            members = getattr(typ, "_field_defaults")
+        else:
+            members = dict(inspect.getmembers(typ, lambda a: not inspect.isroutine(a)))
 
         property_docstrings = get_class_property_docstrings(typ, self.options.property_description_fun)
 
-- 
2.43.0


From ea0687d42bef2eeeaade03ca6008424cfe3e9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:26 +0000
Subject: [PATCH 53/63] fix: do not take a class for a local variable of the
 same name in evaluating a type

---
 strong_typing/inspection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 526a8ae..6c300a7 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -108,21 +108,21 @@ def evaluate_type(typ: Any, module: types.ModuleType) -> Any:
 
     if isinstance(typ, str):
         # evaluate data-class field whose type annotation is a string
-        return eval(typ, module.__dict__, locals())
+        return eval(typ, module.__dict__, {})
     if isinstance(typ, typing.ForwardRef):
         if sys.version_info >= (3, 14):
             return typing.evaluate_forward_ref(typ, owner=module)
         elif sys.version_info >= (3, 13):
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},
                 type_params=(),
                 recursive_guard=frozenset(),
             )
         else:
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},
                 recursive_guard=frozenset(),
             )
     else:
-- 
2.43.0


From 8a2f7a5d93a72d91f6c25d462b157dc3e8057f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:51 +0000
Subject: [PATCH 54/63] fix: recognize the generated documentation of a named
 tuple with a single field

---
 strong_typing/docstring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index efca97e..8db4053 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -327,7 +327,9 @@ def has_default_docstring(typ: SupportsDoc) -> bool:
         return typ.__doc__ is not None and typ.__doc__ == "An enumeration."
 
     if is_named_tuple_type(typ):
-        return typ.__doc__ == f"{typ.__name__}({', '.join(getattr(typ, '_fields'))})"
+        fields: tuple[str, ...] = getattr(typ, "_fields")
+        arg_list = f"{fields[0]}," if len(fields) == 1 else ", ".join(fields)
+        return typ.__doc__ == f"{typ.__name__}({arg_list})"
 
     return False
 
-- 
2.43.0


From b1c8b8478eaae15151a1279398b1efda6473ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:56 +0000
Subject: [PATCH 55/63] fix: include the exact length of a text in its schema

---
 strong_typing/schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 257e4de..a8e5a58 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -21,7 +21,7 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, Length, MaxLength, MinLength, Precision, get_auxiliary_format
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
@@ -215,6 +215,10 @@ class JsonSchemaGenerator:
             "exclusiveMaximum": (10**arg.integer_digits),
         }
 
+    @_metadata_to_schema.register
+    def _(self, arg: Length) -> Schema:
+        return {"minLength": arg.value, "maxLength": arg.value}
+
     @_metadata_to_schema.register
     def _(self, arg: MinLength) -> Schema:
         return {"minLength": arg.value}
-- 
2.43.0


From 26301c2134a24bc1184736fc4bf582a13c1a8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:03 +0000
Subject: [PATCH 56/63] fix: refuse Any instead of treating it as a plain class

---
 strong_typing/deserializer.py | 2 +-
 strong_typing/serializer.py   | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 16113f1..a200e1c 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -987,7 +987,7 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
     elif origin_type is Literal:
         return LiteralDeserializer(typing.get_args(typ), options)
 
-    if not inspect.isclass(typ):
+    if not inspect.isclass(typ) or typ is Any:
         if is_dataclass_instance(typ):
             raise TypeError(f"dataclass type expected but got instance: {typ}")
         else:
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index c2c89ae..e57dac4 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -536,7 +536,14 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
             return UntypedNamedTupleSerializer(typ)
 
     # fail early if caller passes an object with an exotic type
-    if not isinstance(typ, type) or typ is FunctionType or typ is MethodType or typ is type or typ is ModuleType:
+    if (
+        not isinstance(typ, type)
+        or typ is Any
+        or typ is FunctionType
+        or typ is MethodType
+        or typ is type
+        or typ is ModuleType
+    ):
         raise TypeError(f"object of type {typ} cannot be represented in JSON")
 
     if get_resolved_hints(typ):
-- 
2.43.0


From ec659d551816de6c5486794b65e867714fcc284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:10 +0000
Subject: [PATCH 57/63] fix: let an annotation derived from another have
 contents of its own

---
 strong_typing/auxiliary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/auxiliary.py b/strong_typing/auxiliary.py
index 9e7c82e..f725ac5 100644
--- a/strong_typing/auxiliary.py
+++ b/strong_typing/auxiliary.py
@@ -70,7 +70,8 @@ def typeannotation(
 
     def wrap(cls: type[T]) -> type[T]:
         cls.__repr__ = _compact_dataclass_repr  # type: ignore[method-assign]
-        if dataclasses.is_dataclass(cls):
+        if "__dataclass_fields__" in vars(cls):
+            # already a data class by itself (and not merely derived from one)
             return typing.cast(type[T], cls)
         else:
             return typing.cast(
-- 
2.43.0


From ca9f2e2a046b194203dc5a712d795e6a66ea7d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:34 +0000
Subject: [PATCH 58/63] fix: read frozen data classes with fields that are not
 parameters of the initializer

---
 strong_typing/deserializer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index a200e1c..7e5fc48 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -792,7 +792,13 @@ class FrozenDataclassDeserializer(DataclassDeserializer[T]):
         obj: T = create_object(self.class_type)
 
         # can't use `setattr` on frozen dataclasses, pass member variable values to `__init__`
-        obj.__init__(**field_values)  # type: ignore
+        init_fields = {field.name for field in dataclasses.fields(self.class_type) if field.init}
+        obj.__init__(**{name: value for name, value in field_values.items() if name in init_fields})  # type: ignore
+
+        # assign fields that `__init__` does not have a parameter for
+        for field_name, field_value in field_values.items():
+            if field_name not in init_fields:
+                object.__setattr__(obj, field_name, field_value)
         return obj
 
 
-- 
2.43.0


From e664d6e79414687bfc5587bc3823574684e9816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:40 +0000
Subject: [PATCH 59/63] fix: leave out class variables of annotated classes

---
 strong_typing/deserializer.py |  3 ++-
 strong_typing/inspection.py   | 22 ++++++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 7e5fc48..a010c10 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -31,6 +31,7 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
+    get_instance_hints,
     get_resolved_hints,
     is_dataclass_instance,
     is_dataclass_type,
@@ -807,7 +808,7 @@ class TypedClassDeserializer(ClassDeserializer[T]):
 
     def build(self, context: Optional[ModuleType]) -> None:
         property_parsers: list[FieldDeserializer] = []
-        for field_name, field_type in get_resolved_hints(self.class_type).items():
+        for field_name, field_type in get_instance_hints(self.class_type).items():
             property_name = python_field_to_json_property(field_name, field_type)
 
             is_optional = is_type_optional(field_type)
diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 6c300a7..cd59ca4 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -24,6 +24,7 @@ from typing import (
     Annotated,
     Any,
     Callable,
+    ClassVar,
     Iterable,
     Literal,
     NamedTuple,
@@ -573,6 +574,16 @@ def get_resolved_hints(typ: type) -> dict[str, type]:
     return typing.get_type_hints(typ, include_extras=True)
 
 
+def get_instance_hints(typ: type) -> dict[str, type]:
+    "Returns the types of all annotated properties of a class, leaving out class variables."
+
+    return {
+        name: hint
+        for name, hint in get_resolved_hints(typ).items()
+        if ClassVar not in (hint, typing.get_origin(hint))
+    }
+
+
 def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
     "Returns all properties of a class."
 
@@ -598,8 +609,7 @@ def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
             (field.name, resolved_hints[field.name] if field.name in evaluated else field.type) for field in fields
         )
     else:
-        resolved_hints = get_resolved_hints(typ)
-        return resolved_hints.items()
+        return get_instance_hints(typ).items()
 
 
 def get_class_property(typ: type, name: str) -> Optional[TypeLike]:
@@ -733,12 +743,8 @@ class TypeCollector:
         # type is a regular type
         if is_dataclass_type(typ) or is_type_enum(typ) or isinstance(typ, type):
             context = sys.modules[typ.__module__]
-            if is_dataclass_type(typ):
-                for _, field_type in get_class_properties(typ):
-                    self.run(field_type, typ, context)
-            else:
-                for _, field_type in get_resolved_hints(typ).items():
-                    self.run(field_type, typ, context)
+            for _, field_type in get_class_properties(typ):
+                self.run(field_type, typ, context)
             return
 
         raise TypeError(f"expected: type-like; got: {typ}")
-- 
2.43.0


From 98caf0b43f554d436e02755a90eac4a32eeeb7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:45 +0000
Subject: [PATCH 60/63] fix: use the JSON form of enumeration members in the
 schema of literals

---
 strong_typing/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index a8e5a58..88b32f5 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -442,9 +442,9 @@ class JsonSchemaGenerator:
                 raise ValueError(f"literal must have a consistent value type but several types found: {literal_types}")
             schema = self.type_to_schema(literal_types.pop())
             if len(literal_values) == 1:
-                schema["const"] = literal_values[0]
+                schema["const"] = object_to_json(literal_values[0])
             else:
-                schema["enum"] = list(literal_values)
+                schema["enum"] = [object_to_json(literal_value) for literal_value in literal_values]
             return schema
         elif origin_type is type:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
-- 
2.43.0


From c79956266a4891aeaed33507c1e6a821159c1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:50 +0000
Subject: [PATCH 61/63] fix: recognize enumeration members as tags of unions

---
 strong_typing/deserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index a010c10..c7b7a18 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -480,7 +480,9 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
             literal_properties = get_literal_properties(member_type)
             for property_name in self.disambiguating_properties:
                 for literal_value in unwrap_literal_values(literal_properties[property_name]):
-                    tpl = (property_name, literal_value)
+                    # enumeration members are identified by their value in JSON
+                    json_value = literal_value.value if isinstance(literal_value, enum.Enum) else literal_value
+                    tpl = (property_name, json_value)
                     if tpl in self.member_parsers:
                         raise JsonTypeError(
                             f"disambiguating property `{property_name}` in type `{self.union_type}` "
-- 
2.43.0


From 2810a2ddfc34fcba35c255f520c177063e92549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:56 +0000
Subject: [PATCH 62/63] fix: read classes with a field called self

---
 strong_typing/deserializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index c7b7a18..12255d9 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -700,7 +700,7 @@ class ClassDeserializer(RecursiveDeserializer[T]):
 
         return self.create(**field_values)
 
-    def create(self, **field_values: Any) -> T:
+    def create(self, /, **field_values: Any) -> T:
         "Instantiates an object with a collection of property values."
 
         obj: T = create_object(self.class_type)
@@ -738,7 +738,7 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
 
         super().assign(property_parsers)
 
-    def create(self, **field_values: Any) -> NamedTuple:
+    def create(self, /, **field_values: Any) -> NamedTuple:
         return typing.cast(NamedTuple, self.class_type(**field_values))
 
 
@@ -788,7 +788,7 @@ class DataclassDeserializer(ClassDeserializer[T]):
 class FrozenDataclassDeserializer(DataclassDeserializer[T]):
     "De-serializes a frozen data class from a JSON `object`."
 
-    def create(self, **field_values: Any) -> T:
+    def create(self, /, **field_values: Any) -> T:
         "Instantiates an object with a collection of property values."
 
         # create object instance without calling `__init__`
-- 
2.43.0


From c5a9cf52ec96a3e2f324a3075d8a064ce302a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:47 +0000
Subject: [PATCH 63/63] fix: flatten_schema dropped properties that are objects
 of arbitrary content

Such an object declares no properties to replace it with, hence it is kept as it is.
---
 strong_typing/classdef.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index e1ecfd7..dfc5806 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -436,7 +436,10 @@ class SchemaFlattener:
         target_reqs: list[str] = []
 
         for name, prop in source_props.items():
-            if not isinstance(prop, JsonSchemaObject):
+            # objects of arbitrary content have no properties to replace them with
+            if not isinstance(prop, JsonSchemaObject) or (
+                prop.properties is None and prop.additionalProperties is not False
+            ):
                 target_props[name] = prop
                 if name in source_reqs:
                     target_reqs.append(name)
-- 
2.43.0

