From cf8c8a78b2f3b89d57f379a9982df49bedd9269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:01 +0000
Subject: [PATCH 01/57] fix: serialize enums by value, which is what loading
 and schema checks expect

---
 hyperstate/serde.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 06fcacf..d4af835 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -122,7 +122,8 @@ def asdict(
             for i, v in enumerate(value)
         )
     elif isinstance(value, Enum):
-        return value.name
+        # Enums are loaded (and tracked by the schema checker) by value
+        return value.value
     elif (
         isinstance(value, int)
         or isinstance(value, float)
-- 
2.43.0


From 74ee855fcfa455fa93077298f4beaa8ca94bbd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:04 +0000
Subject: [PATCH 02/57] fix: register schedules of fields nested more than one
 level deep

---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 1bf6602..eb9a7c2 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -438,7 +438,7 @@ class ScheduleDeserializer(Deserializer):
             for segment in path.split(".")[:-1]:
                 if segment not in schedules:
                     schedules[segment] = {}
-                schedules = self.schedules[segment]
+                schedules = schedules[segment]
             schedules[field_name] = Schedule(update, value)
             value = schedule.get_value(0.0)
             return cls(value), True, False  # type: ignore
-- 
2.43.0


From f58f2ba4028951f5e9e5fedb4b3191bc4863061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 03/57] fix: apply ignore_extra_fields to nested values

---
 hyperstate/serde.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index d4af835..01f7ad2 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -221,14 +221,14 @@ def from_dict(
         and clz == List[clz.__args__]  # type: ignore
         and isinstance(value, list)
     ):
-        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]") for i, v in enumerate(value)]  # type: ignore
+        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
         hasattr(clz, "__args__")
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
         return tuple(
-            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]")  # type: ignore
+            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
         )
     elif (
@@ -238,7 +238,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}")  # type: ignore
+            k: from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
@@ -275,6 +275,7 @@ def from_dict(
                 value=v,
                 deserializers=deserializers,
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
+                ignore_extra_fields=ignore_extra_fields,
             )
         _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
         try:
-- 
2.43.0


From f269b7d3527e5a09d730f9c2bad6c33cb986d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 04/57] fix: keep the checkpoint when step() is called again
 with the same key

---
 hyperstate/hyperstate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index eb9a7c2..921ae9b 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -136,7 +136,10 @@ class StateManager(Generic[C, S]):
             )
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
-            if self._last_checkpoint is not None:
+            if (
+                self._last_checkpoint is not None
+                and self._last_checkpoint != checkpoint_dir
+            ):
                 with tempfile.TemporaryDirectory() as tmpdir:
                     shutil.move(str(self._last_checkpoint), tmpdir)
             self._last_checkpoint = checkpoint_dir
-- 
2.43.0


From 31f01d0ff7829ddddc8e0b0b6a827c030827db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:10 +0000
Subject: [PATCH 05/57] fix: step schedules take their last value after the
 last point

---
 hyperstate/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 950935b..7594186 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -15,7 +15,7 @@ T = TypeVar("T")
 INTERPOLATORS = {
     "lin": lambda x: 1 - x,
     "cos": lambda x: math.cos(x * math.pi) * 0.5 + 0.5,
-    "step": lambda _: 1,
+    "step": lambda x: 1 if x < 1 else 0,
 }
 
 
-- 
2.43.0


From cd18a55a6ebb413dd575c6b1066bea1a010b60b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 06/57] fix: reject tuples with the wrong number of elements

---
 hyperstate/serde.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 01f7ad2..fce476e 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -226,6 +226,7 @@ def from_dict(
         hasattr(clz, "__args__")
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
+        and len(clz.__args__) == len(value)  # type: ignore
     ):
         return tuple(
             from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
-- 
2.43.0


From 99e435efd3fb5b367fb57b03be293aebc4ee3a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:16 +0000
Subject: [PATCH 07/57] fix: RejectValues keeps values that are still allowed

---
 hyperstate/schema/rewrite_rule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 43f3d65..0858428 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -159,7 +159,7 @@ class RejectValues(RewriteRule):
     disallowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
-        value, present = _remove(state_dict, self.field)
+        value, present = _get(state_dict, self.field)
         if present and value in self.disallowed_values:
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}."
@@ -169,7 +169,7 @@ class RejectValues(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert isinstance(schema, types.Literal)
+        assert isinstance(field.type, types.Literal)
         _insert_schema(
             schema,
             self.field,
@@ -178,7 +178,7 @@ class RejectValues(RewriteRule):
                 type=types.Literal(
                     [
                         v
-                        for v in schema.allowed_values
+                        for v in field.type.allowed_values
                         if v not in self.disallowed_values
                     ]
                 ),
-- 
2.43.0


From 2656e516c43fb3b9c40c52c6bdd66d3fcacaa26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:18 +0000
Subject: [PATCH 08/57] fix: value checks skip fields of optional structs that
 are None

---
 hyperstate/schema/rewrite_rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 0858428..099e35f 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -207,7 +207,9 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
         if field not in state_dict:
             return None, False
         state_dict = state_dict[field]
-    if path[-1] not in state_dict:
+        if state_dict is None:
+            return None, False
+    if not isinstance(state_dict, dict) or path[-1] not in state_dict:
         return None, False
     return state_dict[path[-1]], True
 
-- 
2.43.0


From 385129d800e7a9320d84f33f72ffea11c10a913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 09/57] fix: use upgraded defaults when a nested struct is
 absent from the file

---
 hyperstate/serde.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index fce476e..44b2133 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -323,21 +323,12 @@ def _try_create_defaults(
         field = cls.__dataclass_fields__.get(_field_name)
         if field.default is MISSING and field.default_factory is MISSING:
             if is_dataclass(field.type):
-                _missing_defaults = [
-                    f.name
-                    for f in field.type.__dataclass_fields__.values()
-                    if f.default is MISSING and f.default_factory is MISSING
-                ]
-                _kwargs: Dict[str, Any] = {}
                 _weak_refs = weak_refs.get(_field_name, {})
-                _try_create_defaults(
+                kwargs[field.name] = from_dict(
                     field.type,
-                    _kwargs,
-                    _missing_defaults,
-                    f"{fpath}.{_field_name}" if fpath else _field_name,
-                    weak_refs=_weak_refs,
+                    {k: v for k, v in _weak_refs.items() if k != WEAK_REF},
+                    fpath=f"{fpath}.{_field_name}" if fpath else _field_name,
                 )
-                kwargs[field.name] = field.type(**_kwargs)
             else:
                 still_missing.append(_field_name)
         elif _field_name in weak_refs and WEAK_REF not in weak_refs[_field_name]:
-- 
2.43.0


From 146de97813f7086add5ceac1a17f6830656105fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 10/57] fix: value rules on optional fields accept None and
 keep the field optional

---
 hyperstate/schema/rewrite_rule.py | 69 +++++++++++++++++--------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 099e35f..7f6a76d 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -65,22 +65,20 @@ class MapFieldValue(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        if isinstance(field.type, types.Enum):
-            _insert_schema(
-                schema,
-                self.field,
-                replace(
-                    field,
-                    type=replace(
-                        field.type,
-                        variants={
-                            k: self.map_fn(v) for k, v in field.type.variants.items()
-                        },
-                    ),
-                ),
-            )
-        else:
-            _insert_schema(schema, self.field, field)
+
+        def map_variants(type: types.Type) -> types.Type:
+            if isinstance(type, types.Enum):
+                return replace(
+                    type,
+                    variants={k: self.map_fn(v) for k, v in type.variants.items()},
+                )
+            return type
+
+        _insert_schema(
+            schema,
+            self.field,
+            replace(field, type=_map_inner_type(field.type, map_variants)),
+        )
 
 
 @dataclass
@@ -137,7 +135,8 @@ class CheckValue(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         value, present = _get(state_dict, self.field)
-        if present and value not in self.allowed_values:
+        # `None` is left to the type of the field, which may be optional
+        if present and value is not None and value not in self.allowed_values:
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}. Allowed values: [{', '.join(v.__repr__() for v in self.allowed_values)}]"
             )
@@ -149,7 +148,12 @@ class CheckValue(RewriteRule):
         _insert_schema(
             schema,
             self.field,
-            replace(field, type=types.Literal(list(self.allowed_values))),
+            replace(
+                field,
+                type=_map_inner_type(
+                    field.type, lambda _: types.Literal(list(self.allowed_values))
+                ),
+            ),
         )
 
 
@@ -169,23 +173,26 @@ class RejectValues(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert isinstance(field.type, types.Literal)
+
+        def reject(type: types.Type) -> types.Type:
+            assert isinstance(type, types.Literal)
+            return types.Literal(
+                [v for v in type.allowed_values if v not in self.disallowed_values]
+            )
+
         _insert_schema(
-            schema,
-            self.field,
-            replace(
-                field,
-                type=types.Literal(
-                    [
-                        v
-                        for v in field.type.allowed_values
-                        if v not in self.disallowed_values
-                    ]
-                ),
-            ),
+            schema, self.field, replace(field, type=_map_inner_type(field.type, reject))
         )
 
 
+def _map_inner_type(
+    type: types.Type, map_fn: Callable[[types.Type], types.Type]
+) -> types.Type:
+    if isinstance(type, types.Option):
+        return replace(type, type=_map_inner_type(type.type, map_fn))
+    return map_fn(type)
+
+
 def _remove(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     assert len(path) > 0
     for field in path[:-1]:
-- 
2.43.0


From 55ea09619a270cf03f78484e7ab7c495abf4303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:33 +0000
Subject: [PATCH 11/57] fix: AddDefault resolves the removed default that it is
 proposed for

---
 hyperstate/schema/rewrite_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 7f6a76d..e29b0a0 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -124,7 +124,7 @@ class AddDefault(RewriteRule):
                 has_default=False,
             )
         else:
-            field = replace(field, default=self.default, has_default=True)
+            field = replace(field, default=self.default, has_default=False)
         _insert_schema(schema, self.field, field)
 
 
-- 
2.43.0


From f94243437d1acd110e56eda70612db39af0a22da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 12/57] fix: overrides take precedence over values moved by
 config upgrades

---
 hyperstate/hyperstate.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 921ae9b..b7cac4a 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -19,6 +19,7 @@ from typing import (
 )
 from dataclasses import MISSING, dataclass
 import uuid
+from hyperstate.schema.rewrite_rule import WEAK_REF
 from hyperstate.schema.types import Struct, materialize_type
 import hyperstate.schema.types as t
 
@@ -270,13 +271,12 @@ def _typed_load(
     allow_missing_version: bool = False,
     ignore_extra_fields: bool = False,
 ) -> Tuple[T, Dict[str, Any]]:
+    # Overrides name fields of the current version, so they apply after upgrades
+    deserializers: List[Deserializer] = [VersionedDeserializer(allow_missing_version)]
     if overrides is not None:
-        deserializers: List[Deserializer] = [OverridesDeserializer(overrides)]
-    else:
-        deserializers = []
+        deserializers.append(OverridesDeserializer(overrides))
     schedules = ScheduleDeserializer()
     deserializers.append(schedules)
-    deserializers.append(VersionedDeserializer(allow_missing_version))
     lazy = None
     assert file is None or data is None, "cannot specify both file and source"
     if file is not None:
@@ -408,6 +408,8 @@ class OverridesDeserializer(Deserializer):
                 if segment not in _value or _value[segment] is None:
                     _value[segment] = {}
                 _value = _value[segment]
+                if isinstance(_value, dict):
+                    _value.pop(WEAK_REF, None)
             _value[fpath[-1]] = val
         if len(errors) == 1:
             raise errors[0]
-- 
2.43.0


From 068fe73263adbd0f33cda96ad9e7efc9e77cae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:38 +0000
Subject: [PATCH 13/57] fix: reject overrides of bool fields that are not a
 bool

---
 hyperstate/hyperstate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index b7cac4a..387ce00 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -29,6 +29,7 @@ from hyperstate.schema.versioned import (
     VersionedDeserializer,
 )
 from hyperstate.serde import (
+    DeserializeValueError,
     Deserializer,
     Serializer,
     asdict,
@@ -401,6 +402,10 @@ class OverridesDeserializer(Deserializer):
                     or str_val == "F"
                 ):
                     val = False
+                else:
+                    raise DeserializeValueError(
+                        f"Expected {key} to be a bool, got {str_val}"
+                    )
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
             _value = value
-- 
2.43.0


From 91511dbe519bfd125d781102c3c1602fd499ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:40 +0000
Subject: [PATCH 14/57] fix: assigning a lazy field before it is read is not
 undone by loading it

---
 hyperstate/lazy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index f1843f7..45b26f7 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -67,9 +67,13 @@ class Lazy:
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
             self.__setattr__(name, value)
-            del unloaded[name]
         return super(Lazy, self).__getattribute__(name)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        # An assigned value must not be replaced by the one in the checkpoint
+        self.__dict__.get("_unloaded_lazy_fields", {}).pop(name, None)
+        super(Lazy, self).__setattr__(name, value)
+
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
         """
         Add a value to the deserialization context.
-- 
2.43.0


From eebd552cf4a764b80b03c9f700c542666ba24986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 15/57] fix: restored numpy arrays are writable

---
 hyperstate/msgpack_torch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 1a9a8d8..76d6460 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -35,7 +35,8 @@ def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
             if obj[b"__tensor__"] == "torch" and torch is not None:
                 return torch.from_numpy(np.copy(tensor))
             else:
-                return tensor
+                # The array over the input buffer is read-only
+                return tensor.copy()
         else:
             return obj if chain is None else chain(obj)
     except KeyError:
-- 
2.43.0


From 2f9f1a7763c38168757e2977aa26eb432f38bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:44 +0000
Subject: [PATCH 16/57] fix: refuse to store arrays of objects, which would
 save raw pointers

---
 hyperstate/msgpack_torch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 76d6460..9ae71da 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -14,6 +14,8 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
         tensor_type = "torch"
 
     if isinstance(obj, np.ndarray):
+        if obj.dtype.hasobject:
+            raise TypeError(f"Can't serialize array of dtype {obj.dtype}")
         return {
             b"__tensor__": tensor_type or "numpy",
             b"dtype": obj.dtype.str,
-- 
2.43.0


From 5c27f30874f56461702153f4776034a09525c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 17/57] fix: unsupported field types raise instead of entering
 the debugger

---
 hyperstate/schema/types.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 4b97aaa..af77d57 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -290,7 +290,6 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
     elif typing.get_origin(clz) == typing.Literal:
         return Literal(list(typing.get_args(clz)))
     else:
-        breakpoint()
         raise ValueError(f"Unsupported type: {clz}")
 
 
-- 
2.43.0


From 46e1155c3c3fdf04a60aa22dd439c76e0bc0a2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 18/57] fix: upgrade-config closes the file that it writes

---
 hyperstate/schema/schema_checker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 433de3e..b1cc3ba 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -403,7 +403,8 @@ def _upgrade_config(
         config, elide_defaults=elide_defaults, schedules=schedules
     )
     if dry_run:
-        original_config = open(filename).read()
+        with open(filename) as f:
+            original_config = f.read()
         diff = difflib.unified_diff(
             original_config.splitlines(),
             upgraded_config.splitlines(),
@@ -418,7 +419,8 @@ def _upgrade_config(
             else:
                 click.echo(line)
     else:
-        open(filename, "w").write(upgraded_config)
+        with open(filename, "w") as f:
+            f.write(upgraded_config)
 
 
 CONFIG_CLZ: typing.Type[Any] = None  # type: ignore
-- 
2.43.0


From 28f868fbccb498cc9a0c832c03965996b6229893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 19/57] fix: strings and tiny floats that are dumped can be
 loaded again

---
 hyperstate/serde.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 44b2133..1913ff0 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -17,6 +17,7 @@ from typing import (
     Union,
 )
 import inspect
+import re
 from dataclasses import MISSING, is_dataclass
 import typing
 
@@ -396,7 +397,31 @@ def dumps(
     if serializers is None:
         serializers = []
     state_dict = asdict(obj, named_tuples=True, serializers=serializers)
-    return pyron.to_string(state_dict)
+    return to_ron(state_dict)
+
+
+# String literals, and floats to which pyron appends a superfluous ".0"
+_RON_TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|(?<![\w.])(-?\d+\.\d+)\.0(?![\w.])')
+_RON_ESCAPE = re.compile(r"\\(?:u\{([0-9a-fA-F]+)\}|(.))")
+
+
+def to_ron(value: Any) -> str:
+    """
+    Serializes a value as RON that can be read back, which the output of `pyron.to_string`
+    can not if it contains certain escape sequences or very small floats.
+    """
+
+    def fix_escape(m: Any) -> str:
+        if m.group(1) is not None:
+            return chr(int(m.group(1), 16))
+        return "'" if m.group(2) == "'" else m.group(0)
+
+    def fix_token(m: Any) -> str:
+        if m.group(1) is not None:
+            return m.group(1)
+        return _RON_ESCAPE.sub(fix_escape, m.group(0))
+
+    return _RON_TOKEN.sub(fix_token, pyron.to_string(value))
 
 
 def is_optional(clz: Type[Any]) -> bool:
-- 
2.43.0


From b2ed7136002062559a97de94f53a349fbdd828f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 20/57] fix: non-finite floats and integers beyond 64 bits
 survive being dumped

---
 hyperstate/serde.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 1913ff0..e925915 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -17,6 +17,7 @@ from typing import (
     Union,
 )
 import inspect
+import math
 import re
 from dataclasses import MISSING, is_dataclass
 import typing
@@ -132,6 +133,8 @@ def asdict(
         or isinstance(value, bool)
         or value is None
     ):
+        if named_tuples and not _has_ron_literal(value):
+            return str(value)
         return value
     else:
         raise DeserializeTypeError(
@@ -139,6 +142,14 @@ def asdict(
         )
 
 
+def _has_ron_literal(value: Any) -> bool:
+    # RON has neither non-finite floats nor integers with more than 64 bits. `from_dict`
+    # also accepts a string for a number.
+    if isinstance(value, float):
+        return math.isfinite(value)
+    return not isinstance(value, int) or -(2**63) <= value < 2**63
+
+
 def from_dict(
     clz: Type[T],
     value: Any,
@@ -186,7 +197,10 @@ def from_dict(
     elif (clz == float or ufloat) and isinstance(value, str):
         return float(value)  # type: ignore
     elif (clz == int or uint) and isinstance(value, str):
-        f = float(value)
+        try:
+            return int(value)  # type: ignore
+        except ValueError:
+            f = float(value)
         if int(f) == f:
             return int(f)  # type: ignore
         else:
-- 
2.43.0


From 1bcf508c350596de186f3e25d60b6bea2c904e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:38 +0000
Subject: [PATCH 21/57] fix: schema dumps support all default values and
 compare equal when unchanged

---
 hyperstate/schema/rewrite_rule.py   |  4 +++-
 hyperstate/schema/schema_checker.py | 10 ++++++----
 hyperstate/schema/types.py          | 28 ++++++++++++++++++++++++++++
 hyperstate/serde.py                 |  4 ++--
 4 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index e29b0a0..c5e9ff8 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -98,7 +98,9 @@ class ChangeDefault(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert field.default == self.old_default, f"Default value mismatch"
+        assert types.same_default(
+            field.default, self.old_default
+        ), f"Default value mismatch"
         _insert_schema(schema, self.field, replace(field, default=self.new_default))
 
 
diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index b1cc3ba..d5af0ae 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -4,9 +4,9 @@ from dataclasses import is_dataclass
 from pathlib import Path
 import difflib
 
-import pyron
 import click
 
+import hyperstate.serde as serde
 from hyperstate.hyperstate import _typed_dump, _typed_load
 from hyperstate.schema.schema_change import (
     DefaultValueChanged,
@@ -150,7 +150,9 @@ class SchemaChecker:
                                         tuple(path + [name]), oldfield.default
                                     )
                                 )
-                        elif oldfield.has_default and oldfield.default != field.default:
+                        elif oldfield.has_default and not t.same_default(
+                            oldfield.default, field.default
+                        ):
                             self.changes.append(
                                 DefaultValueChanged(
                                     tuple(path + [name]),
@@ -267,7 +269,7 @@ class SchemaChecker:
             if (
                 removed.type.is_subtype(added.type)
                 and removed.has_default == added.has_default
-                and removed.default == added.default
+                and t.same_default(removed.default, added.default)
             ):
                 return name_similarity(removed.field[-1], added.field[-1])
             return None
@@ -375,7 +377,7 @@ def levenshtein(s1: str, s2: str) -> float:
 
 
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
-    serialized = pyron.to_string(materialize_type(type))
+    serialized = serde.dumps(materialize_type(type))
     with open(filename, "w") as f:
         f.write(serialized)
 
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index af77d57..93254aa 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -302,6 +302,34 @@ def is_optional(clz: Any) -> bool:
     )
 
 
+def same_default(a: Any, b: Any) -> bool:
+    """
+    Compares default values, which may have been loaded from a schema file.
+    """
+    return bool(_plain_default(a) == _plain_default(b))
+
+
+def _plain_default(value: Any) -> Any:
+    from hyperstate.serde import has_ron_literal
+
+    if is_dataclass(value):
+        return {
+            name: _plain_default(getattr(value, name))
+            for name in value.__dataclass_fields__
+        }
+    elif isinstance(value, enum.Enum):
+        return _plain_default(value.value)
+    elif isinstance(value, tuple) and hasattr(value, "_asdict"):
+        return {k: _plain_default(v) for k, v in value._asdict().items()}
+    elif isinstance(value, dict):
+        return {_plain_default(k): _plain_default(v) for k, v in value.items()}
+    elif isinstance(value, (list, tuple)):
+        return type(value)(_plain_default(v) for v in value)
+    elif isinstance(value, (int, float)) and not has_ron_literal(value):
+        return str(value)
+    return value
+
+
 def schema_from_namedtuple(schema: Any) -> Type:
     clz_name = schema.__class__.__name__
     if clz_name == "Primitive":
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index e925915..e9eef48 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -133,7 +133,7 @@ def asdict(
         or isinstance(value, bool)
         or value is None
     ):
-        if named_tuples and not _has_ron_literal(value):
+        if named_tuples and not has_ron_literal(value):
             return str(value)
         return value
     else:
@@ -142,7 +142,7 @@ def asdict(
         )
 
 
-def _has_ron_literal(value: Any) -> bool:
+def has_ron_literal(value: Any) -> bool:
     # RON has neither non-finite floats nor integers with more than 64 bits. `from_dict`
     # also accepts a string for a number.
     if isinstance(value, float):
-- 
2.43.0


From 4ed1427745c8574d18ab97f11e41f73a0c84b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:26 +0000
Subject: [PATCH 22/57] fix: schema checks support tuple, dict and union fields

---
 hyperstate/schema/schema_checker.py | 21 +++++++++++++++++++++
 hyperstate/schema/types.py          |  8 ++++++++
 2 files changed, 29 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index d5af0ae..976f1a7 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -100,6 +100,27 @@ class SchemaChecker:
         elif isinstance(old, t.List):
             assert isinstance(new, t.List)
             self._find_changes(old.inner, new.inner, path)
+        elif isinstance(old, t.Tuple):
+            assert isinstance(new, t.Tuple)
+            if len(old.inner) != len(new.inner):
+                self.changes.append(TypeChanged(tuple(path), old, new))
+            else:
+                for old_inner, new_inner in zip(old.inner, new.inner):
+                    self._find_changes(old_inner, new_inner, path)
+        elif isinstance(old, t.Dict):
+            assert isinstance(new, t.Dict)
+            if old.key != new.key:
+                self.changes.append(TypeChanged(tuple(path), old, new))
+            else:
+                self._find_changes(old.val, new.val, path)
+        elif isinstance(old, t.Union):
+            assert isinstance(new, t.Union)
+            new_types = {str(type): type for type in new.types}
+            if any(str(type) not in new_types for type in old.types):
+                self.changes.append(TypeChanged(tuple(path), old, new))
+            else:
+                for type in old.types:
+                    self._find_changes(type, new_types[str(type)], path)
         elif isinstance(old, t.Struct):
             assert isinstance(new, t.Struct)
             for name, field in new.fields.items():
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 93254aa..3db5c0f 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -336,6 +336,14 @@ def schema_from_namedtuple(schema: Any) -> Type:
         return Primitive(schema.type)
     elif clz_name == "List":
         return List(schema_from_namedtuple(schema.inner))
+    elif clz_name == "Tuple":
+        return Tuple([schema_from_namedtuple(inner) for inner in schema.inner])
+    elif clz_name == "Dict":
+        return Dict(
+            schema_from_namedtuple(schema.key), schema_from_namedtuple(schema.val)
+        )
+    elif clz_name == "Union":
+        return Union([schema_from_namedtuple(type) for type in schema.types])
     elif clz_name == "Struct":
         fields = {}
         for name, field in schema.fields.items():
-- 
2.43.0


From a3145b199a68a754cea5d985f27e7e4c41b1ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:29 +0000
Subject: [PATCH 23/57] fix: enum variants are only renamed to variants of the
 same field

---
 hyperstate/schema/schema_checker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 976f1a7..079a3ca 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -304,6 +304,8 @@ class SchemaChecker:
         def enum_similarity(
             added: EnumVariantAdded, removed: EnumVariantRemoved
         ) -> Optional[float]:
+            if removed.field != added.field:
+                return None
             return name_similarity(removed.variant, added.variant)
 
         def enum_renamed(
-- 
2.43.0


From bb709930a3074fa84f8ea235c7e505b0eb7b74e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:32 +0000
Subject: [PATCH 24/57] fix: an optional type is compatible if its inner type
 is

---
 hyperstate/schema/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 3db5c0f..daaf595 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -220,7 +220,7 @@ class Option:
         return f"Optional[{self.type}]"
 
     def is_subtype(self, other: Type) -> bool:
-        return isinstance(other, Option) and other.type.is_subtype(self.type)
+        return isinstance(other, Option) and self.type.is_subtype(other.type)
 
 
 @dataclass(eq=True, frozen=True)
-- 
2.43.0


From 149e0ff0b57885596b760cc0dc332dea1e0b7b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:50 +0000
Subject: [PATCH 25/57] fix: structs are only compatible with structs that load
 the same values

---
 hyperstate/schema/types.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index daaf595..0203dd5 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -205,9 +205,15 @@ class Struct:
             isinstance(other, Struct)
             and all(
                 k in other.fields
-                and other.fields[k].type.is_subtype(self.fields[k].type)
-                for k in self.fields
+                and f.type.is_subtype(other.fields[k].type)
+                and (
+                    not f.has_default
+                    or other.fields[k].has_default
+                    and same_default(f.default, other.fields[k].default)
+                )
+                for k, f in self.fields.items()
             )
+            and all(f.has_default or k in self.fields for k, f in other.fields.items())
             or (isinstance(other, Option) and self.is_subtype(other.type))
         )
 
-- 
2.43.0


From ff0bcd95ede4a3079b886e467981e46d31e44d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:26 +0000
Subject: [PATCH 26/57] fix: literals of integers and of arbitrary strings can
 be loaded

---
 hyperstate/serde.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index e9eef48..4138b32 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -231,15 +231,12 @@ def from_dict(
         )
 
     elif (
-        hasattr(clz, "__args__")
-        and len(clz.__args__) == 1  # type: ignore
-        and clz == List[clz.__args__]  # type: ignore
+        typing.get_origin(clz) == list
         and isinstance(value, list)
     ):
         return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
-        hasattr(clz, "__args__")
-        and clz == Tuple[clz.__args__]  # type: ignore
+        typing.get_origin(clz) == tuple
         and isinstance(value, tuple)
         and len(clz.__args__) == len(value)  # type: ignore
     ):
@@ -248,9 +245,7 @@ def from_dict(
             for i, v in enumerate(value)
         )
     elif (
-        hasattr(clz, "__args__")
-        and len(clz.__args__) == 2  # type: ignore
-        and clz == Dict[clz.__args__]  # type: ignore
+        typing.get_origin(clz) == dict
         and isinstance(value, dict)
     ):
         return {
-- 
2.43.0


From 629e55dd8fb4ef680a76d3795eb34b5703f3d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:36 +0000
Subject: [PATCH 27/57] fix: dict keys are checked against their declared type

---
 hyperstate/serde.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 4138b32..3fc2273 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -248,10 +248,15 @@ def from_dict(
         typing.get_origin(clz) == dict
         and isinstance(value, dict)
     ):
+        key_clz, value_clz = clz.__args__  # type: ignore
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
+            from_dict(key_clz, k, fpath=f"{fpath}.{k}")
+            if inspect.isclass(key_clz)
+            else k: from_dict(
+                value_clz, v, deserializers, f"{fpath}.{k}", ignore_extra_fields
+            )
             for k, v in value.items()
-        }
+        }  # type: ignore
     elif is_dataclass(clz):
         if is_dataclass(value):
             value = asdict(value)
-- 
2.43.0


From fb136c84f31243d89960f1e5aacad0cbd96b7653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:39 +0000
Subject: [PATCH 28/57] fix: literals load as the declared value, not one that
 is equal to it

---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 3fc2273..41b4c15 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -309,7 +309,7 @@ def from_dict(
             raise DeserializeValueError(
                 f"{fpath} must be one of {args} but got '{value}'."
             )
-        return value  # type: ignore
+        return args[args.index(value)]  # type: ignore
     if isinstance(value, dict) and "!__name__" in value:
         fields = {k: v for k, v in value.items() if k != "!__name__"}
         value = namedtuple(value["!__name__"], fields.keys())(**fields)
-- 
2.43.0


From ab693425398251a21dd5566202b776b7db3183d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:42 +0000
Subject: [PATCH 29/57] fix: overrides can set fields that are unions of
 dataclasses

---
 hyperstate/serde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 41b4c15..be7e339 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -206,6 +206,8 @@ def from_dict(
         else:
             raise DeserializeValueError(f"Expected {fpath} to be an int, got {value}")
     elif typing.get_origin(clz) == typing.Union:
+        if isnamedtupleinstance(value):
+            value = {"!__name__": value.__class__.__name__, **value._asdict()}
         if isinstance(value, dict):
             if "!__name__" in value:
                 for arg in clz.__args__:  # type: ignore
-- 
2.43.0


From 2ddc95e4caee698428d336cecfa5316601a764b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:45 +0000
Subject: [PATCH 30/57] fix: fields of a struct that an earlier override has
 set can be overridden

---
 hyperstate/hyperstate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 387ce00..edbd3c9 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -33,6 +33,7 @@ from hyperstate.serde import (
     Deserializer,
     Serializer,
     asdict,
+    isnamedtupleinstance,
 )
 import hyperstate.serde as serde
 from .lazy import Lazy, LazyDeserializer, LazySerializer
@@ -412,6 +413,8 @@ class OverridesDeserializer(Deserializer):
             for segment in fpath[:-1]:
                 if segment not in _value or _value[segment] is None:
                     _value[segment] = {}
+                elif isnamedtupleinstance(_value[segment]):
+                    _value[segment] = _value[segment]._asdict()
                 _value = _value[segment]
                 if isinstance(_value, dict):
                     _value.pop(WEAK_REF, None)
-- 
2.43.0


From f86f50a3915c16137f7cb3761d15a0cafce92426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 31/57] fix: bools are not loaded as numbers

---
 hyperstate/serde.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index be7e339..b09d27e 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -184,7 +184,11 @@ def from_dict(
         ufloat = False
         uint = False
 
-    if inspect.isclass(clz) and isinstance(value, clz):
+    if isinstance(value, bool) and (clz == int or clz == float):
+        raise DeserializeTypeError(
+            f"Failed to deserialize '{fpath}': {value} is not a {_qualified_name(clz)}"
+        )
+    elif inspect.isclass(clz) and isinstance(value, clz):
         return value
     elif (
         (clz == str or ustr) and isnamedtupleinstance(value) and len(value._fields) == 0
-- 
2.43.0


From f1ef19c647c8b48833daa2fa232f5bb1f8892270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:38 +0000
Subject: [PATCH 32/57] fix: other directories with numbered names do not hide
 the latest checkpoint

---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index edbd3c9..6f16e1a 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -343,7 +343,7 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
     latest = None
     latest_dir = None
     for d in dir.iterdir():
-        if d.is_dir() and len(d.name) >= 12:
+        if d.name.startswith("latest") and d.is_dir() and len(d.name) >= 12:
             try:
                 if latest is None or int(d.name[-12:]) > latest:
                     latest = int(d.name[-12:])
-- 
2.43.0


From 0c3cc75234491c6867604815a942a19d6183594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 33/57] fix: step() works again after removing the previous
 checkpoint has failed

---
 hyperstate/hyperstate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 6f16e1a..e3dc716 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -142,6 +142,7 @@ class StateManager(Generic[C, S]):
             if (
                 self._last_checkpoint is not None
                 and self._last_checkpoint != checkpoint_dir
+                and self._last_checkpoint.exists()
             ):
                 with tempfile.TemporaryDirectory() as tmpdir:
                     shutil.move(str(self._last_checkpoint), tmpdir)
-- 
2.43.0


From ee73c2f17f0230f4445a4f7b5c3904c76759788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 34/57] fix: refuse to load arrays of objects, which would
 follow raw pointers

---
 hyperstate/msgpack_torch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 9ae71da..ca9e96e 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -29,9 +29,13 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
 def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
     try:
         if b"__tensor__" in obj:
+            dtype = np.dtype(obj[b"dtype"])
+            if dtype.hasobject:
+                # The data would be interpreted as pointers
+                raise TypeError(f"Can't deserialize array of dtype {dtype}")
             tensor: Any = np.ndarray(
                 buffer=obj[b"data"],
-                dtype=np.dtype(obj[b"dtype"]),
+                dtype=dtype,
                 shape=obj[b"shape"],
             )
             if obj[b"__tensor__"] == "torch" and torch is not None:
-- 
2.43.0


From db2a5bdc0c90b9c8220f9c72d6199dc2e132e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 35/57] fix: renames and defaults of fields in absent structs
 do not create them

---
 hyperstate/schema/rewrite_rule.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index c5e9ff8..e9261ae 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -25,9 +25,10 @@ class RenameField(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         # TODO: handle lists
+        weak = _is_weak(state_dict, self.old_field)
         value, ok = _remove(state_dict, self.old_field)
         if ok:
-            _insert(state_dict, self.new_field, value)
+            _insert(state_dict, self.new_field, value, create_new=not weak)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -59,7 +60,7 @@ class MapFieldValue(RewriteRule):
         value, present = _remove(state_dict, path)
         if present:
             new_value = self.map_fn(value)
-            _insert(state_dict, path, new_value)
+            _insert(state_dict, path, new_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -92,7 +93,7 @@ class ChangeDefault(RewriteRule):
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
             _insert(state_dict, self.field, self.old_default, create_new=False)
         else:
-            _insert(state_dict, self.field, existing_value)
+            _insert(state_dict, self.field, existing_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -223,6 +224,19 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     return state_dict[path[-1]], True
 
 
+def _is_weak(state_dict: Any, path: Sequence[str]) -> bool:
+    """
+    Whether the field is part of a struct which is absent from the config file.
+    """
+    for field in path[:-1]:
+        if not isinstance(state_dict, dict) or field not in state_dict:
+            return False
+        state_dict = state_dict[field]
+        if isinstance(state_dict, dict) and WEAK_REF in state_dict:
+            return True
+    return False
+
+
 def _insert(
     state_dict: Any,
     path: Sequence[str],
-- 
2.43.0


From 5037446b179286aecda1536e0bca1d3a0bce9bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 36/57] fix: AddDefault applies to structs that are absent from
 the config file

---
 hyperstate/schema/rewrite_rule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index e9261ae..738188f 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -112,9 +112,9 @@ class AddDefault(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         value, present = _remove(state_dict, self.field)
-        _insert(
-            state_dict, self.field, value if present else self.default, create_new=False
-        )
+        if not present or (isinstance(value, dict) and WEAK_REF in value):
+            value = self.default
+        _insert(state_dict, self.field, value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
-- 
2.43.0


From e9286c165ed67b61e912dce6a42b35907070459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 37/57] fix: StateManager does not load versioned configs
 without version

---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index e3dc716..b9d5034 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -170,7 +170,7 @@ class StateManager(Generic[C, S]):
             file=path,
             overrides=self.overrides or [],
             allow_missing_version=path is None
-            or not isinstance(self.config_cls, Versioned),
+            or not issubclass(self.config_cls, Versioned),
             ignore_extra_fields=self.ignore_extra_fields,
         )
 
-- 
2.43.0


From 003a7efccc876e9462b67ca8485e20382e2d4a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 38/57] fix: applying rules does not modify the defaults of
 other rules

---
 hyperstate/schema/rewrite_rule.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 738188f..3b7fea6 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import deepcopy
 from dataclasses import dataclass, replace
 from typing import List, Optional, Sequence, Set, Tuple, Dict, Any, Callable
 from venv import create
@@ -91,7 +92,9 @@ class ChangeDefault(RewriteRule):
     def apply(self, state_dict: Any) -> Any:
         existing_value, ok = _remove(state_dict, self.field)
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
-            _insert(state_dict, self.field, self.old_default, create_new=False)
+            _insert(
+                state_dict, self.field, deepcopy(self.old_default), create_new=False
+            )
         else:
             _insert(state_dict, self.field, existing_value, create_new=False)
         return state_dict
@@ -113,7 +116,7 @@ class AddDefault(RewriteRule):
     def apply(self, state_dict: Any) -> Any:
         value, present = _remove(state_dict, self.field)
         if not present or (isinstance(value, dict) and WEAK_REF in value):
-            value = self.default
+            value = deepcopy(self.default)
         _insert(state_dict, self.field, value, create_new=False)
         return state_dict
 
-- 
2.43.0


From f9a2a5dd6096a582cab51c2d0eb5c12feaa519cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 39/57] fix: value checks skip old defaults of structs that are
 absent

---
 hyperstate/schema/rewrite_rule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 3b7fea6..8e5fb53 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -141,6 +141,8 @@ class CheckValue(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         value, present = _get(state_dict, self.field)
+        if _is_weak(state_dict, self.field):
+            return state_dict
         # `None` is left to the type of the field, which may be optional
         if present and value is not None and value not in self.allowed_values:
             raise ValueError(
@@ -170,6 +172,8 @@ class RejectValues(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         value, present = _get(state_dict, self.field)
+        if _is_weak(state_dict, self.field):
+            return state_dict
         if present and value in self.disallowed_values:
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}."
-- 
2.43.0


From 5d18dc71f0d32167f19a2ee2569e3be700194956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 40/57] fix: structs left empty by upgrade rules do not make
 old configs fail

---
 hyperstate/schema/versioned.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index aec72e4..f9ecec0 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -1,15 +1,15 @@
 from abc import ABC, abstractmethod
 from collections import namedtuple
-from dataclasses import dataclass
+from dataclasses import dataclass, is_dataclass
 from inspect import isclass
-from typing import Any, Dict, List, Optional, Type, TypeVar, Callable, Tuple
+from typing import Any, Dict, List, Optional, Sequence, Type, TypeVar, Callable, Tuple
 from hyperstate.schema import namedtuple_utils, types
 from hyperstate.serde import (
     Deserializer,
     Serializer,
 )
 
-from hyperstate.schema.rewrite_rule import RewriteRule
+from hyperstate.schema.rewrite_rule import DeleteField, RenameField, RewriteRule
 
 T = TypeVar("T")
 
@@ -39,9 +39,16 @@ class Versioned(ABC):
             assert (
                 v < clz.version()
             ), f"{clz.__name__}.upgrade_rules() keys must be less than {clz.__name__}.version()"
+        removed: List[Sequence[str]] = []
         for i in range(version, clz.version()):
             for rule in clz.upgrade_rules().get(i, []):
                 state_dict = rule.apply(state_dict)
+                if isinstance(rule, RenameField):
+                    removed.append(rule.old_field)
+                elif isinstance(rule, DeleteField):
+                    removed.append(rule.field)
+        for path in removed:
+            _drop_emptied_structs(clz, state_dict, path)
         return state_dict
 
     @classmethod
@@ -51,6 +58,26 @@ class Versioned(ABC):
                 rule.apply_to_schema(schema)
 
 
+def _drop_emptied_structs(clz: Any, state_dict: Any, path: Sequence[str]) -> None:
+    """
+    Removes structs on the path all of whose fields have been moved or deleted and that
+    `clz` (None if unknown) does not have any more.
+    """
+    if clz is not None and types.is_optional(clz):
+        clz = clz.__args__[0]
+    if clz is not None and not is_dataclass(clz):
+        return
+    if len(path) < 2 or not isinstance(state_dict, dict):
+        return
+    struct = state_dict.get(path[0])
+    if not isinstance(struct, dict):
+        return
+    field = None if clz is None else clz.__dataclass_fields__.get(path[0])
+    _drop_emptied_structs(None if field is None else field.type, struct, path[1:])
+    if field is None and not struct.keys() - {"!__name__"}:
+        del state_dict[path[0]]
+
+
 @dataclass
 class VersionedDeserializer(Deserializer):
     allow_missing_version: bool = False
-- 
2.43.0


From 48360975846dc75cd7ade6fef87926cc56e582b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:13 +0000
Subject: [PATCH 41/57] fix: rules apply to struct defaults inserted by
 ChangeDefault and AddDefault

---
 hyperstate/schema/rewrite_rule.py | 39 ++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 8e5fb53..23e19f7 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from copy import deepcopy
-from dataclasses import dataclass, replace
+from dataclasses import dataclass, is_dataclass, replace
+from enum import Enum
 from typing import List, Optional, Sequence, Set, Tuple, Dict, Any, Callable
 from venv import create
 
@@ -93,7 +94,10 @@ class ChangeDefault(RewriteRule):
         existing_value, ok = _remove(state_dict, self.field)
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
             _insert(
-                state_dict, self.field, deepcopy(self.old_default), create_new=False
+                state_dict,
+                self.field,
+                _default_value(self.old_default),
+                create_new=False,
             )
         else:
             _insert(state_dict, self.field, existing_value, create_new=False)
@@ -116,7 +120,7 @@ class AddDefault(RewriteRule):
     def apply(self, state_dict: Any) -> Any:
         value, present = _remove(state_dict, self.field)
         if not present or (isinstance(value, dict) and WEAK_REF in value):
-            value = deepcopy(self.default)
+            value = _default_value(self.default)
         _insert(state_dict, self.field, value, create_new=False)
         return state_dict
 
@@ -203,6 +207,35 @@ def _map_inner_type(
     return map_fn(type)
 
 
+def _default_value(default: Any) -> Any:
+    """
+    The default as it would be in a config file, which is what other rules apply to.
+    """
+    if is_dataclass(default):
+        fields = {n: getattr(default, n) for n in default.__dataclass_fields__}
+        return _default_struct(default, fields)
+    elif isinstance(default, tuple) and hasattr(default, "_asdict"):
+        return _default_struct(default, default._asdict())
+    elif isinstance(default, Enum):
+        return default.value
+    elif isinstance(default, dict):
+        return {_default_value(k): _default_value(v) for k, v in default.items()}
+    elif isinstance(default, (list, tuple)):
+        return type(default)(_default_value(v) for v in default)
+    return deepcopy(default)
+
+
+def _default_struct(struct: Any, fields: Dict[str, Any]) -> Dict[str, Any]:
+    from hyperstate.schema.versioned import Versioned
+
+    attrs: Dict[str, Any] = {"!__name__": struct.__class__.__name__}
+    if isinstance(struct, Versioned):
+        attrs["version"] = struct.version()
+    for name, value in fields.items():
+        attrs[name] = _default_value(value)
+    return attrs
+
+
 def _remove(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     assert len(path) > 0
     for field in path[:-1]:
-- 
2.43.0


From c2ce918989887b840e67ad779bb67354749e3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:52 +0000
Subject: [PATCH 42/57] fix: proposed rules insert old defaults before they are
 changed

---
 hyperstate/schema/schema_checker.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 079a3ca..9ede788 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -8,6 +8,7 @@ import click
 
 import hyperstate.serde as serde
 from hyperstate.hyperstate import _typed_dump, _typed_load
+from hyperstate.schema.rewrite_rule import MapFieldValue
 from hyperstate.schema.schema_change import (
     DefaultValueChanged,
     DefaultValueRemoved,
@@ -51,11 +52,34 @@ class SchemaChecker:
         self._find_changes(old, self.new, [])
         self._find_field_renames()
         self._find_enum_variant_renames()
-        for change in self.changes:
+        for change in self._fix_order():
             proposed_fix = change.proposed_fix()
             if proposed_fix is not None:
                 self.proposed_fixes.append(proposed_fix)
 
+    def _fix_order(self) -> List[SchemaChange]:
+        """
+        Defaults have to be inserted before they, or parts of them, are changed.
+        """
+        changes: List[SchemaChange] = []
+        for change in self.changes:
+            index = len(changes)
+            if isinstance(change, (DefaultValueChanged, DefaultValueRemoved)):
+                path = change.field
+                for i, other in enumerate(changes):
+                    if (
+                        not isinstance(other, (DefaultValueChanged, DefaultValueRemoved))
+                        and other.field[: len(path)] == path
+                        and (
+                            len(other.field) > len(path)
+                            or isinstance(other.proposed_fix(), MapFieldValue)
+                        )
+                    ):
+                        index = i
+                        break
+            changes.insert(index, change)
+        return changes
+
     def severity(self) -> Severity:
         max_severity = Severity.INFO
         for change in self.changes:
-- 
2.43.0


From 2481d53fbff88ef695776cf4d3032c8f1cf867b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:37 +0000
Subject: [PATCH 43/57] fix: proposed renames between a field and a struct of
 the same name

---
 hyperstate/schema/schema_checker.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 9ede788..ee5b6d0 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -59,7 +59,8 @@ class SchemaChecker:
 
     def _fix_order(self) -> List[SchemaChange]:
         """
-        Defaults have to be inserted before they, or parts of them, are changed.
+        Defaults have to be inserted before they, or parts of them, are changed, and
+        fields moved away before something else takes their place.
         """
         changes: List[SchemaChange] = []
         for change in self.changes:
@@ -77,6 +78,21 @@ class SchemaChecker:
                     ):
                         index = i
                         break
+            elif isinstance(change, FieldRenamed):
+                # A field may move into the struct that takes its name, or out of the
+                # struct whose name it takes
+                for i, other in enumerate(changes):
+                    if isinstance(other, FieldRenamed):
+                        target = other.new_name
+                    elif isinstance(other, FieldAdded):
+                        target = other.field
+                    else:
+                        continue
+                    if len(target) != len(change.field) and all(
+                        a == b for a, b in zip(target, change.field)
+                    ):
+                        index = i
+                        break
             changes.insert(index, change)
         return changes
 
-- 
2.43.0


From 78c0893727a6145ab2bbfbaa487b4d690531ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:39 +0000
Subject: [PATCH 44/57] fix: structs emptied by upgrade rules do not get in the
 way of new fields

---
 hyperstate/schema/versioned.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index f9ecec0..8fb40b3 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -2,7 +2,19 @@ from abc import ABC, abstractmethod
 from collections import namedtuple
 from dataclasses import dataclass, is_dataclass
 from inspect import isclass
-from typing import Any, Dict, List, Optional, Sequence, Type, TypeVar, Callable, Tuple
+from typing import (
+    Any,
+    Callable,
+    Dict,
+    List,
+    Optional,
+    Sequence,
+    Tuple,
+    Type,
+    TypeVar,
+    Union,
+    get_origin,
+)
 from hyperstate.schema import namedtuple_utils, types
 from hyperstate.serde import (
     Deserializer,
@@ -74,10 +86,17 @@ def _drop_emptied_structs(clz: Any, state_dict: Any, path: Sequence[str]) -> Non
         return
     field = None if clz is None else clz.__dataclass_fields__.get(path[0])
     _drop_emptied_structs(None if field is None else field.type, struct, path[1:])
-    if field is None and not struct.keys() - {"!__name__"}:
+    if not _may_be_struct(field) and not struct.keys() - {"!__name__"}:
         del state_dict[path[0]]
 
 
+def _may_be_struct(field: Any) -> bool:
+    if field is None:
+        return False
+    clz = field.type.__args__[0] if types.is_optional(field.type) else field.type
+    return is_dataclass(clz) or get_origin(clz) in (dict, Union)
+
+
 @dataclass
 class VersionedDeserializer(Deserializer):
     allow_missing_version: bool = False
-- 
2.43.0


From a9f96b412e9c804fe2c301f4ee83c68557bcdf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:50 +0000
Subject: [PATCH 45/57] fix: fields added to structs do not change the defaults
 of the structs

---
 hyperstate/schema/schema_checker.py |  4 +--
 hyperstate/schema/types.py          | 44 +++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index ee5b6d0..8d3f73d 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -211,8 +211,8 @@ class SchemaChecker:
                                         tuple(path + [name]), oldfield.default
                                     )
                                 )
-                        elif oldfield.has_default and not t.same_default(
-                            oldfield.default, field.default
+                        elif oldfield.has_default and not t.keeps_default(
+                            field.type, oldfield.default, field.default
                         ):
                             self.changes.append(
                                 DefaultValueChanged(
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 0203dd5..6a7a9a5 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -315,6 +315,50 @@ def same_default(a: Any, b: Any) -> bool:
     return bool(_plain_default(a) == _plain_default(b))
 
 
+def keeps_default(type: Type, old: Any, new: Any) -> bool:
+    """
+    Whether two default values are the same, apart from fields added to structs.
+    """
+    while isinstance(type, Option):
+        type = type.type
+    if isinstance(type, Union):
+        name = new.__class__.__name__
+        type = next((t for t in type.types if str(t) == name), type)
+        if isinstance(type, Union) or old.__class__.__name__ != name:
+            return same_default(old, new)
+    if isinstance(type, Struct):
+        old_fields, new_fields = _struct_fields(old), _struct_fields(new)
+        if old_fields is not None and new_fields is not None:
+            return all(
+                name in new_fields
+                and name in type.fields
+                and keeps_default(type.fields[name].type, value, new_fields[name])
+                for name, value in old_fields.items()
+            )
+    elif isinstance(type, (List, Tuple)):
+        if isinstance(old, (list, tuple)) and isinstance(new, (list, tuple)):
+            inner = type.inner if isinstance(type, Tuple) else [type.inner] * len(new)
+            return len(old) == len(new) and all(
+                keeps_default(t, o, n) for t, o, n in zip(inner, old, new)
+            )
+    elif isinstance(type, Dict):
+        if isinstance(old, dict) and isinstance(new, dict):
+            return old.keys() == new.keys() and all(
+                keeps_default(type.val, value, new[key]) for key, value in old.items()
+            )
+    return same_default(old, new)
+
+
+def _struct_fields(struct: Any) -> typing.Optional[typing.Dict[str, Any]]:
+    if is_dataclass(struct):
+        return {name: getattr(struct, name) for name in struct.__dataclass_fields__}
+    elif isinstance(struct, tuple) and hasattr(struct, "_asdict"):
+        return dict(struct._asdict())
+    elif isinstance(struct, dict):
+        return {k: v for k, v in struct.items() if k != "!__name__"}
+    return None
+
+
 def _plain_default(value: Any) -> Any:
     from hyperstate.serde import has_ron_literal
 
-- 
2.43.0


From c2e69c0e6fe331d685e2b424a64e97a175dff8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 46/57] fix: Union.is_subtype compares each type with the one
 of that name

---
 hyperstate/schema/types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 6a7a9a5..fd92268 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -112,7 +112,10 @@ class Union:
             self == other
             or (
                 isinstance(other, Union)
-                and all(t.is_subtype(other) for t in self.types)
+                and all(
+                    any(str(t) == str(o) and t.is_subtype(o) for o in other.types)
+                    for t in self.types
+                )
             )
             or (isinstance(other, Option) and self.is_subtype(other.type))
         )
-- 
2.43.0


From ee06afe303fd0304b2d5719adbab9259ff4ec861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 47/57] fix: help finds fields of optional structs

---
 hyperstate/schema/help.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/help.py b/hyperstate/schema/help.py
index a6d1361..2a01f12 100644
--- a/hyperstate/schema/help.py
+++ b/hyperstate/schema/help.py
@@ -95,6 +95,9 @@ def find_fields(
     result = []
     for f in schema.fields.values():
         result.append((path or [], name_similarity(f.name, query), f))
-        if isinstance(f.type, t.Struct):
-            result.extend(find_fields(f.type, query, (path or []) + [f.name]))
+        type = f.type
+        while isinstance(type, t.Option):
+            type = type.type
+        if isinstance(type, t.Struct):
+            result.extend(find_fields(type, query, (path or []) + [f.name]))
     return result
-- 
2.43.0


From dd7093623e823e10c6d9011a909d9b92b1df5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:38 +0000
Subject: [PATCH 48/57] fix: field descriptions of a class win over those of
 its bases

---
 hyperstate/schema/types.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index fd92268..4c936c0 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -437,10 +437,11 @@ def _unwrap_container_type(type: Type) -> Type:
 
 def _find_all_field_docs(clz: typing.Type[Any]) -> typing.Dict[str, str]:
     docs = docstring_parser.parse(clz.__doc__ or "")
-    field_docs = {
-        f.arg_name: f.description for f in docs.params if f.description is not None
-    }
+    field_docs = {}
     if hasattr(clz, "__bases__"):
-        for base in clz.__bases__:
+        for base in reversed(clz.__bases__):
             field_docs.update(_find_all_field_docs(base))
+    field_docs.update(
+        {f.arg_name: f.description for f in docs.params if f.description is not None}
+    )
     return field_docs
-- 
2.43.0


From 33c9fba97c218e5dc1bb939e49a915d104409abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:00 +0000
Subject: [PATCH 49/57] fix: step() removes older checkpoints left by steps
 that failed

---
 hyperstate/hyperstate.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index b9d5034..0d97a37 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -83,6 +83,7 @@ class StateManager(Generic[C, S]):
 
         self.init_path = Path(init_path) if init_path is not None else None
         self._last_checkpoint: Optional[Path] = None
+        self._old_checkpoints: List[Path] = []
         self.checkpoint_dir = (
             Path(checkpoint_dir) if checkpoint_dir is not None else None
         )
@@ -137,16 +138,18 @@ class StateManager(Generic[C, S]):
             checkpoint_dir = (
                 self.checkpoint_dir / f"latest-{self.checkpoint_key}{val:012}"
             )
+            if self._last_checkpoint is not None:
+                self._old_checkpoints.append(self._last_checkpoint)
+            self._last_checkpoint = checkpoint_dir
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
-            if (
-                self._last_checkpoint is not None
-                and self._last_checkpoint != checkpoint_dir
-                and self._last_checkpoint.exists()
-            ):
-                with tempfile.TemporaryDirectory() as tmpdir:
-                    shutil.move(str(self._last_checkpoint), tmpdir)
-            self._last_checkpoint = checkpoint_dir
+            # There are several if earlier steps failed
+            while self._old_checkpoints:
+                old_checkpoint = self._old_checkpoints[0]
+                if old_checkpoint != checkpoint_dir and old_checkpoint.exists():
+                    with tempfile.TemporaryDirectory() as tmpdir:
+                        shutil.move(str(old_checkpoint), tmpdir)
+                self._old_checkpoints.pop(0)
             # TODO: persistent checkpoints
 
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
-- 
2.43.0


From ea1e9bb9f22a515c0b8c634b33f8f1b4b04ae909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 50/57] fix: overrides of versioned structs inside of the
 config

---
 hyperstate/hyperstate.py | 55 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 0d97a37..e3ea6a5 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -1,5 +1,6 @@
 import os
 import errno
+import inspect
 import os
 import shutil
 from abc import ABC, abstractmethod
@@ -412,16 +413,17 @@ class OverridesDeserializer(Deserializer):
                         f"Expected {key} to be a bool, got {str_val}"
                     )
             else:
-                val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
+                val = _as_document(
+                    pyron.loads(str_val, preserve_structs=True, print_errors=False)
+                )
             _value = value
+            _cls: Any = cls
             for segment in fpath[:-1]:
+                _cls = _field_class(_cls, segment)
                 if segment not in _value or _value[segment] is None:
-                    _value[segment] = {}
-                elif isnamedtupleinstance(_value[segment]):
-                    _value[segment] = _value[segment]._asdict()
+                    _value[segment] = {WEAK_REF: True}
+                _value[segment] = _upgrade_nested(_cls, _value[segment])
                 _value = _value[segment]
-                if isinstance(_value, dict):
-                    _value.pop(WEAK_REF, None)
             _value[fpath[-1]] = val
         if len(errors) == 1:
             raise errors[0]
@@ -431,6 +433,47 @@ class OverridesDeserializer(Deserializer):
         return value, True, False
 
 
+def _as_document(value: Any) -> Any:
+    """
+    The value of an override as it would be if read from a file.
+    """
+    if isnamedtupleinstance(value):
+        if len(value._fields) == 0:
+            return value
+        attrs = {k: _as_document(v) for k, v in value._asdict().items()}
+        return {"!__name__": value.__class__.__name__, **attrs}
+    elif isinstance(value, dict):
+        return {k: _as_document(v) for k, v in value.items()}
+    elif isinstance(value, (list, tuple)):
+        return type(value)(_as_document(v) for v in value)
+    return value
+
+
+def _field_class(cls: Any, name: str) -> Any:
+    field = getattr(cls, "__dataclass_fields__", {}).get(name)
+    if field is not None and serde.is_optional(field.type):
+        return field.type.__args__[0]
+    return None if field is None else field.type
+
+
+def _upgrade_nested(cls: Any, value: Any) -> Any:
+    """
+    Brings a nested struct to the current version, before some of its fields are overridden.
+    """
+    if isnamedtupleinstance(value):
+        value = value._asdict()
+    if not isinstance(value, dict):
+        return value
+    absent = value.pop(WEAK_REF, False)
+    if inspect.isclass(cls) and issubclass(cls, Versioned):
+        if absent:
+            value["version"] = cls.version()
+        elif isinstance(value.get("version"), int):
+            value = cls._apply_upgrades(value, value.pop("version"))
+            value["version"] = cls.version()
+    return value
+
+
 class ScheduleDeserializer(Deserializer):
     def __init__(self) -> None:
         # Use recursive type once supported (https://github.com/python/mypy/issues/731): ScheduleDict = Union[Dict[str, "ScheduleDict"], Schedule]
-- 
2.43.0


From 44ed7f723b5eeb18d7732807d20ede601d8844d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:49 +0000
Subject: [PATCH 51/57] fix: arrays with a structured dtype keep their fields

---
 hyperstate/msgpack_torch.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index ca9e96e..8c7a164 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -7,6 +7,28 @@ except ImportError:
     torch = None
 
 
+def _encode_dtype(dtype: Any) -> Any:
+    if dtype.names is None:
+        return dtype.str
+    descr = np.lib.format.dtype_to_descr(dtype)
+    if _decode_dtype(descr) != dtype:
+        raise TypeError(f"Can't serialize array of dtype {dtype}")
+    return descr
+
+
+def _decode_dtype(descr: Any) -> Any:
+    # Tuples are restored as lists
+    def fields(descr: Any) -> Any:
+        return [
+            (name, type if isinstance(type, str) else fields(type), *map(tuple, shape))
+            for name, type, *shape in descr
+        ]
+
+    if isinstance(descr, str):
+        return np.dtype(descr)
+    return np.lib.format.descr_to_dtype(fields(descr))
+
+
 def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
     tensor_type = None
     if torch is not None and isinstance(obj, torch.Tensor):
@@ -18,7 +40,7 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
             raise TypeError(f"Can't serialize array of dtype {obj.dtype}")
         return {
             b"__tensor__": tensor_type or "numpy",
-            b"dtype": obj.dtype.str,
+            b"dtype": _encode_dtype(obj.dtype),
             b"shape": obj.shape,
             b"data": np.ndarray.tobytes(obj),
         }
@@ -29,7 +51,7 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
 def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
     try:
         if b"__tensor__" in obj:
-            dtype = np.dtype(obj[b"dtype"])
+            dtype = _decode_dtype(obj[b"dtype"])
             if dtype.hasobject:
                 # The data would be interpreted as pointers
                 raise TypeError(f"Can't deserialize array of dtype {dtype}")
-- 
2.43.0


From 75e4fb94a22b044ad6e670eae854d621c0594f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:56 +0000
Subject: [PATCH 52/57] fix: bool literals are not taken for integers in
 schemas

---
 hyperstate/schema/schema_checker.py |  6 ++++--
 hyperstate/schema/types.py          | 14 +++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 8d3f73d..81e4292 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -270,7 +270,9 @@ class SchemaChecker:
                     )
         elif isinstance(old, t.Literal):
             assert isinstance(new, t.Literal)
-            new_values = set(new.allowed_values) - set(old.allowed_values)
+            old_literals = t.distinct(old.allowed_values)
+            new_literals = t.distinct(new.allowed_values)
+            new_values = {value for _, value in new_literals - old_literals}
             if new_values:
                 self.changes.append(
                     LiteralValuesAdded(
@@ -278,7 +280,7 @@ class SchemaChecker:
                         new_values,
                     )
                 )
-            removed_values = set(old.allowed_values) - set(new.allowed_values)
+            removed_values = {value for _, value in old_literals - new_literals}
             if removed_values:
                 self.changes.append(
                     LiteralValuesRemoved(
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 4c936c0..f29a19c 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -146,6 +146,11 @@ class Enum:
         ) or (isinstance(other, Option) and self.is_subtype(other.type))
 
 
+def distinct(values: typing.Iterable[Any]) -> typing.Set[typing.Tuple[Any, Any]]:
+    # True is equal to 1, but another value
+    return {(type(value), value) for value in values}
+
+
 @dataclass(frozen=True)
 class Literal:
     allowed_values: typing.List[Any]
@@ -154,7 +159,7 @@ class Literal:
         return (
             (
                 isinstance(other, Literal)
-                and all(v in other.allowed_values for v in self.allowed_values)
+                and distinct(self.allowed_values) <= distinct(other.allowed_values)
             )
             or (
                 isinstance(other, Primitive)
@@ -164,7 +169,10 @@ class Literal:
             or (
                 isinstance(other, Primitive)
                 and other.type == "int"
-                and all(isinstance(v, int) for v in self.allowed_values)
+                and all(
+                    isinstance(v, int) and not isinstance(v, bool)
+                    for v in self.allowed_values
+                )
             )
         ) or (isinstance(other, Option) and self.is_subtype(other.type))
 
@@ -174,7 +182,7 @@ class Literal:
     def __eq__(self, other: Any) -> bool:
         if other.__class__ is not self.__class__:
             return NotImplemented
-        return set(self.allowed_values) == set(other.allowed_values)
+        return distinct(self.allowed_values) == distinct(other.allowed_values)
 
 
 @dataclass(eq=True, frozen=True)
-- 
2.43.0


From 07ac5e910bed281f528077ced9d2c79083ba18d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:03 +0000
Subject: [PATCH 53/57] fix: checkpoint keys of more than 12 digits are
 compared in full

---
 hyperstate/hyperstate.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index e3ea6a5..7fc1e53 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -119,7 +119,7 @@ class StateManager(Generic[C, S]):
     def checkpoint_dir(self, value: Union[Path, None]) -> None:
         if value is not None:
             value.mkdir(parents=True, exist_ok=True)
-            checkpoint = find_latest_checkpoint(value)
+            checkpoint = find_latest_checkpoint(value, self.checkpoint_key)
             if checkpoint is not None and checkpoint.name.startswith("latest"):
                 self._last_checkpoint = checkpoint
         else:
@@ -341,7 +341,9 @@ def load(
     )[0]
 
 
-def find_latest_checkpoint(dir: Path) -> Optional[Path]:
+def find_latest_checkpoint(
+    dir: Path, checkpoint_key: Optional[str] = None
+) -> Optional[Path]:
     # Check that dir exists
     if not dir.exists():
         return None
@@ -349,12 +351,20 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
     latest_dir = None
     for d in dir.iterdir():
         if d.name.startswith("latest") and d.is_dir() and len(d.name) >= 12:
-            try:
-                if latest is None or int(d.name[-12:]) > latest:
-                    latest = int(d.name[-12:])
+            candidates = [d.name[-12:]]
+            prefix = f"latest-{checkpoint_key}"
+            if d.name.startswith(prefix) and len(d.name) > len(prefix) + 12:
+                # From 10^12, the value is longer than its padding
+                candidates.insert(0, d.name[len(prefix) :])
+            for candidate in candidates:
+                try:
+                    value = int(candidate)
+                except ValueError:
+                    continue
+                if latest is None or value > latest:
+                    latest = value
                     latest_dir = d
-            except ValueError:
-                pass
+                break
     return latest_dir
 
 
-- 
2.43.0


From 533e413cfd6bf7697782553e8edeebddcfd10b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:09 +0000
Subject: [PATCH 54/57] fix: arrays of structured types with titles can be
 restored

---
 hyperstate/msgpack_torch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 8c7a164..86ece8b 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -20,7 +20,12 @@ def _decode_dtype(descr: Any) -> Any:
     # Tuples are restored as lists
     def fields(descr: Any) -> Any:
         return [
-            (name, type if isinstance(type, str) else fields(type), *map(tuple, shape))
+            (
+                # A name with a title
+                name if isinstance(name, str) else tuple(name),
+                type if isinstance(type, str) else fields(type),
+                *map(tuple, shape),
+            )
             for name, type, *shape in descr
         ]
 
-- 
2.43.0


From dc2877106c1a1cddef4d0cf4c3234a537f339b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:22 +0000
Subject: [PATCH 55/57] fix: structs emptied by upgrades are dropped even if
 the struct they are in is renamed later

---
 hyperstate/schema/versioned.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index 8fb40b3..b97a542 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -56,7 +56,15 @@ class Versioned(ABC):
             for rule in clz.upgrade_rules().get(i, []):
                 state_dict = rule.apply(state_dict)
                 if isinstance(rule, RenameField):
-                    removed.append(rule.old_field)
+                    old, new = list(rule.old_field), list(rule.new_field)
+                    # What is left of emptied structs moves with the structs they are in
+                    removed = [
+                        new + list(path[len(old) :])
+                        if list(path[: len(old)]) == old
+                        else path
+                        for path in removed
+                    ]
+                    removed.append(old)
                 elif isinstance(rule, DeleteField):
                     removed.append(rule.field)
         for path in removed:
-- 
2.43.0


From d03b92cdfe25d2c9096dfba3d90e69563b03dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:25 +0000
Subject: [PATCH 56/57] fix: structs emptied by upgrades are dropped even if
 they hold absent structs whose defaults changed

---
 hyperstate/schema/versioned.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index b97a542..7d8e344 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -21,7 +21,12 @@ from hyperstate.serde import (
     Serializer,
 )
 
-from hyperstate.schema.rewrite_rule import DeleteField, RenameField, RewriteRule
+from hyperstate.schema.rewrite_rule import (
+    WEAK_REF,
+    DeleteField,
+    RenameField,
+    RewriteRule,
+)
 
 T = TypeVar("T")
 
@@ -94,7 +99,7 @@ def _drop_emptied_structs(clz: Any, state_dict: Any, path: Sequence[str]) -> Non
         return
     field = None if clz is None else clz.__dataclass_fields__.get(path[0])
     _drop_emptied_structs(None if field is None else field.type, struct, path[1:])
-    if not _may_be_struct(field) and not struct.keys() - {"!__name__"}:
+    if not _may_be_struct(field) and not struct.keys() - {"!__name__", WEAK_REF}:
         del state_dict[path[0]]
 
 
-- 
2.43.0


From ee1331570e8bcfa7b8f48105bcd69aaf3ca0f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:22 +0000
Subject: [PATCH 57/57] fix: accept None for every type that allows it, however
 it is written

Optional types were only recognized if they have one alternative and None
comes second. Union[None, int] and Optional[Union[A, B]] were dumped but
could neither be loaded nor be described by a schema.
---
 hyperstate/hyperstate.py       |  2 +-
 hyperstate/schema/types.py     | 12 +++++++++---
 hyperstate/schema/versioned.py |  6 ++++--
 hyperstate/serde.py            | 12 +++++++++---
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 7fc1e53..08373d1 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -462,7 +462,7 @@ def _as_document(value: Any) -> Any:
 def _field_class(cls: Any, name: str) -> Any:
     field = getattr(cls, "__dataclass_fields__", {}).get(name)
     if field is not None and serde.is_optional(field.type):
-        return field.type.__args__[0]
+        return serde.optional_type(field.type)
     return None if field is None else field.type
 
 
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index f29a19c..d37e57a 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -267,7 +267,7 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
             materialize_type(clz.__args__[0]), materialize_type(clz.__args__[1])
         )
     elif is_optional(clz):
-        return Option(materialize_type(clz.__args__[0]))
+        return Option(materialize_type(optional_type(clz)))
     elif hasattr(clz, "__origin__") and clz.__origin__ == typing.Union:
         return Union([materialize_type(t) for t in clz.__args__])
     elif is_dataclass(clz):
@@ -314,11 +314,17 @@ def is_optional(clz: Any) -> bool:
     return (
         hasattr(clz, "__origin__")
         and clz.__origin__ is typing.Union
-        and clz.__args__.__len__() == 2
-        and clz.__args__[1] is type(None)
+        and type(None) in clz.__args__
     )
 
 
+def optional_type(clz: Any) -> Any:
+    """
+    The type without `None`, of which there may be several alternatives.
+    """
+    return typing.Union[tuple(arg for arg in clz.__args__ if arg is not type(None))]
+
+
 def same_default(a: Any, b: Any) -> bool:
     """
     Compares default values, which may have been loaded from a schema file.
diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index 7d8e344..6c92c00 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -89,7 +89,7 @@ def _drop_emptied_structs(clz: Any, state_dict: Any, path: Sequence[str]) -> Non
     `clz` (None if unknown) does not have any more.
     """
     if clz is not None and types.is_optional(clz):
-        clz = clz.__args__[0]
+        clz = types.optional_type(clz)
     if clz is not None and not is_dataclass(clz):
         return
     if len(path) < 2 or not isinstance(state_dict, dict):
@@ -106,7 +106,9 @@ def _drop_emptied_structs(clz: Any, state_dict: Any, path: Sequence[str]) -> Non
 def _may_be_struct(field: Any) -> bool:
     if field is None:
         return False
-    clz = field.type.__args__[0] if types.is_optional(field.type) else field.type
+    clz = field.type
+    if types.is_optional(clz):
+        clz = types.optional_type(clz)
     return is_dataclass(clz) or get_origin(clz) in (dict, Union)
 
 
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index b09d27e..91ee8ff 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -164,7 +164,7 @@ def from_dict(
         if value is None:
             return None  # type: ignore
         else:
-            clz = clz.__args__[0]  # type: ignore
+            clz = optional_type(clz)
 
     ret = False
     for deserializer in deserializers:
@@ -448,11 +448,17 @@ def is_optional(clz: Type[Any]) -> bool:
     return (
         hasattr(clz, "__origin__")
         and clz.__origin__ is Union
-        and clz.__args__.__len__() == 2
-        and clz.__args__[1] is type(None)
+        and type(None) in clz.__args__
     )
 
 
+def optional_type(clz: Any) -> Any:
+    """
+    The type without `None`, of which there may be several alternatives.
+    """
+    return Union[tuple(arg for arg in clz.__args__ if arg is not type(None))]
+
+
 def _qualified_name(clz: Type[Any]) -> str:
     if clz.__module__ == "builtin":
         return clz.__name__
-- 
2.43.0

