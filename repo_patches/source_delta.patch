From d1ff27f927cafa7d20cb1f44305d76d51c571938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 001/138] fix: string primitive size prefix counts encoded
 bytes

---
 runtimepy/primitives/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/primitives/string.py b/runtimepy/primitives/string.py
index 05a2ee2..fb50ba0 100644
--- a/runtimepy/primitives/string.py
+++ b/runtimepy/primitives/string.py
@@ -27,7 +27,7 @@ class StringPrimitive:
 
         assert kind.kind.is_integer
         self._value = value
-        self._size = kind(value=len(self._value))
+        self._size = kind(value=len(self._value.encode()))
         self.byte_order = byte_order
 
     def __str__(self) -> str:
@@ -62,7 +62,7 @@ class StringPrimitive:
     def set(self, value: str) -> None:
         """Set a new value for the underlying string."""
         self._value = value
-        self._size.value = len(self._value)
+        self._size.value = len(self._value.encode())
 
     @property
     def size(self) -> int:
-- 
2.43.0


From aa3fb0c646a4ac08b9e7dcdc5d4182f787319974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 002/138] fix: callbacks may add and remove callbacks while
 being serviced

---
 runtimepy/primitives/base.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index e186bad..fff2952 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -143,15 +143,13 @@ class Primitive(_Generic[T]):
         """Determine if any callbacks should be serviced."""
 
         if self.callbacks and curr != new:
-            to_remove = []
-            for ident, (callback, once) in self.callbacks.items():
-                callback(curr, new)
-                if once:
-                    to_remove.append(ident)
-
-            # Remove one-time callbacks.
-            for item in to_remove:
-                self.remove_callback(item)
+            # Callbacks may register and remove callbacks (or set this value).
+            for ident, (callback, once) in list(self.callbacks.items()):
+                if ident in self.callbacks:
+                    # Remove one-time callbacks.
+                    if once:
+                        self.remove_callback(ident)
+                    callback(curr, new)
 
     def set_value(self, value: T, timestamp_ns: int = None) -> None:
         """Set a new underlying value."""
-- 
2.43.0


From 2a3e2fa1acfa3aa8c8991e0d1ba487fe72a839c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 003/138] fix: change callbacks see the stored value

---
 runtimepy/primitives/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index fff2952..10e8db8 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -161,7 +161,7 @@ class Primitive(_Generic[T]):
 
         curr: T = self.raw.value  # type: ignore
         self.raw.value = value
-        self._check_callbacks(curr, value)
+        self._check_callbacks(curr, self.raw.value)  # type: ignore
 
     @property
     def scaled(self) -> Numeric:
-- 
2.43.0


From 8ac5b54d81739c9f46ff4cad051ed11d64a5e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 004/138] fix: repeated array members can be addressed by index
 and byte

---
 runtimepy/primitives/array/__init__.py | 27 +++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/runtimepy/primitives/array/__init__.py b/runtimepy/primitives/array/__init__.py
index 237e3db..1dffa40 100644
--- a/runtimepy/primitives/array/__init__.py
+++ b/runtimepy/primitives/array/__init__.py
@@ -184,29 +184,30 @@ class PrimitiveArray(Serializable):
         """Add to the array by specifying the type of element to add."""
         return self.add(_create(kind), array_length=array_length)
 
+    def _append(self, primitive: _AnyPrimitive) -> None:
+        """Append a primitive and track where it ends."""
+
+        self._primitives.append(primitive)
+        self._format += primitive.kind.format
+        self.size += primitive.size
+
+        curr_idx = len(self._primitives)
+        self._bytes_to_index[self.size] = curr_idx
+        self._index_to_bytes[curr_idx] = self.size
+
     def add(self, primitive: _AnyPrimitive, array_length: int = None) -> int:
         """Add another primitive to manage."""
 
         end = self.end
         if isinstance(end, PrimitiveArray):
             if end is self:
-                self._primitives.append(primitive)
-                self._format += primitive.kind.format
-                self.size += primitive.size
+                self._append(primitive)
 
                 # Handle array length.
                 if array_length is not None:
                     for _ in range(array_length - 1):
-                        self._primitives.append(
-                            primitive.copy(),  # type: ignore
-                        )
-                        self._format += primitive.kind.format
-                        self.size += primitive.size
-
-                # Add tracking information for the current tail.
-                curr_idx = len(self._primitives)
-                self._bytes_to_index[self.size] = curr_idx
-                self._index_to_bytes[curr_idx] = self.size
+                        self._append(primitive.copy())  # type: ignore
+
                 result = self.size
             else:
                 result = end.add(primitive, array_length=array_length)
-- 
2.43.0


From fd2be507d537b735530b61a396090699259f2d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 005/138] fix: environment arrays contain a bit-field primitive
 once

---
 runtimepy/channel/environment/array.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/channel/environment/array.py b/runtimepy/channel/environment/array.py
index 4a8e1bc..fc26921 100644
--- a/runtimepy/channel/environment/array.py
+++ b/runtimepy/channel/environment/array.py
@@ -98,6 +98,7 @@ class ArrayChannelEnvironment(_BaseChannelEnvironment):
                 fields = self.fields.get_fields(name)
                 assert fields is not None, f"Unknown bit-field '{name}'!"
                 result.array.add(fields.raw)
+                curr_fields = fields
                 available_field_names = set(fields.names)
 
             # Keep track of field names processed in the current bit-fields
-- 
2.43.0


From f50b631545fa2bedb944407b3a8a89dd3ce413b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 006/138] fix: bit-field exports keep descriptions

---
 runtimepy/primitives/field/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimepy/primitives/field/__init__.py b/runtimepy/primitives/field/__init__.py
index 4fe1265..ec213a0 100644
--- a/runtimepy/primitives/field/__init__.py
+++ b/runtimepy/primitives/field/__init__.py
@@ -131,6 +131,8 @@ class BitField(BitFieldBase, _RegexMixin, _EnumMixin):
             result["enum"] = self.enum
         if self.commandable:
             result["commandable"] = True
+        if self.description is not None:
+            result["description"] = self.description
         return result
 
 
-- 
2.43.0


From de104ea0ca1fe7c84b6f996f59b6e74851328774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 007/138] fix: schemas accept every name that channels, fields
 and enums accept

---
 runtimepy/data/schemas/BitFields.yaml       | 4 ++--
 runtimepy/data/schemas/Channel.yaml         | 2 +-
 runtimepy/data/schemas/ChannelRegistry.yaml | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtimepy/data/schemas/BitFields.yaml b/runtimepy/data/schemas/BitFields.yaml
index d55ed62..b8f06e1 100644
--- a/runtimepy/data/schemas/BitFields.yaml
+++ b/runtimepy/data/schemas/BitFields.yaml
@@ -25,7 +25,7 @@ properties:
       properties:
         name:
           type: string
-          pattern: "^[a-z0-9-_.]+$"
+          pattern: "^[a-zA-Z0-9_.-]+$"
 
         commandable:
           type: boolean
@@ -54,4 +54,4 @@ properties:
             - type: integer
               minimum: 1
             - type: string
-              pattern: "^\\w+$"
+              pattern: "^[\\w\\:_.\\-\\/]+$"
diff --git a/runtimepy/data/schemas/Channel.yaml b/runtimepy/data/schemas/Channel.yaml
index 2f264d1..71c8f72 100644
--- a/runtimepy/data/schemas/Channel.yaml
+++ b/runtimepy/data/schemas/Channel.yaml
@@ -33,4 +33,4 @@ properties:
       - type: integer
         minimum: 1
       - type: string
-        pattern: "^\\w+$"
+        pattern: "^[\\w\\:_.\\-\\/]+$"
diff --git a/runtimepy/data/schemas/ChannelRegistry.yaml b/runtimepy/data/schemas/ChannelRegistry.yaml
index da0c54c..cfdeee1 100644
--- a/runtimepy/data/schemas/ChannelRegistry.yaml
+++ b/runtimepy/data/schemas/ChannelRegistry.yaml
@@ -3,5 +3,5 @@ type: object
 additionalProperties: false
 
 patternProperties:
-  "^[a-z0-9-_.]+$":
+  "^[a-zA-Z0-9_.-]+$":
     $ref: package://runtimepy/schemas/Channel.yaml
-- 
2.43.0


From fc86ab6c6ad6f0837d1dd9ca900e279f1dbc9e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 008/138] fix: duplicate bit-field names are refused

---
 runtimepy/primitives/field/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtimepy/primitives/field/fields.py b/runtimepy/primitives/field/fields.py
index a181ef7..8d660a7 100644
--- a/runtimepy/primitives/field/fields.py
+++ b/runtimepy/primitives/field/fields.py
@@ -146,14 +146,14 @@ class BitFields(_RuntimepyDictCodec):
     ) -> _BitFlag:
         """Create a new bit flag."""
 
+        assert name not in self.fields, name
+
         index = self._claim_bits(1, index=index)
 
         result = _BitFlag(
             name, self.raw, index, enum=enum, description=description, **kwargs
         )
-
-        self.fields[name] = result
-        self.by_index[index] = result
+        self.claim_field(result)
         return result
 
     def _claim_bits(self, width: int, index: int = None) -> int:
-- 
2.43.0


From 65579bb940312fc4bbfc5e18c5bc7615c1397daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 009/138] fix: refused registrations leave registries unchanged

---
 runtimepy/mapping.py           | 17 +++++++----------
 runtimepy/registry/__init__.py |  6 ++++--
 runtimepy/registry/bool.py     |  3 +--
 runtimepy/registry/name.py     | 11 ++++++++---
 4 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/runtimepy/mapping.py b/runtimepy/mapping.py
index 34a20bb..717b8e7 100644
--- a/runtimepy/mapping.py
+++ b/runtimepy/mapping.py
@@ -64,22 +64,19 @@ class TwoWayNameMapping(_RegexMixin, LoggerMixin, _Generic[T]):
 
         assert self.validate_name(name), f"Invalid name '{name}'!"
 
-        # Add to the key->name mapping.
-        if key not in self._mapping:
-            self._mapping[key] = name
-        else:
-            # Ensure the mappings are consistent.
+        # Ensure the mappings are (and stay) consistent.
+        if key in self._mapping:
             curr_name = self._mapping[key]
             assert curr_name == name, f"{curr_name} != {name} ({key})"
+        if name in self._reverse:
+            curr_key = self._reverse[name]
+            assert curr_key == key, f"{curr_key} != {key} ({name})"
 
-        # Add to the name->key mapping.
+        # Add to both mappings.
+        self._mapping[key] = name
         if name not in self._reverse:
             self._reverse[name] = key
             self.registered_order.append(name)
-        else:
-            # Ensure the mappings are consistent.
-            curr_key = self._reverse[name]
-            assert curr_key == key, f"{curr_key} != {key} ({name})"
 
     def load_key_to_name(self, mapping: KeyToName[T]) -> None:
         """Load a key-to-name mapping."""
diff --git a/runtimepy/registry/__init__.py b/runtimepy/registry/__init__.py
index 81679b8..d58a6a9 100644
--- a/runtimepy/registry/__init__.py
+++ b/runtimepy/registry/__init__.py
@@ -82,9 +82,11 @@ class Registry(_RuntimepyDictCodec, _Generic[T]):
 
         # Inject an identifier into the data if one's not present.
         if "id" not in data:
-            identifier = self.names.register_name(name)
+            identifier = self.names.identifier(name)
             if identifier is None:
-                return None
+                if not self.names.validate_name(name, self.names.logger):
+                    return None
+                identifier = self.names.next_identifier()
             data["id"] = identifier
 
         item = self.kind(data)
diff --git a/runtimepy/registry/bool.py b/runtimepy/registry/bool.py
index ec76935..306e31e 100644
--- a/runtimepy/registry/bool.py
+++ b/runtimepy/registry/bool.py
@@ -21,6 +21,5 @@ class BooleanRegistry(_TwoWayNameMapping[bool]):
         ):
             return False
 
-        self._mapping[value] = name
-        self._reverse[name] = value
+        self._set(value, name)
         return True
diff --git a/runtimepy/registry/name.py b/runtimepy/registry/name.py
index 900cee5..363f649 100644
--- a/runtimepy/registry/name.py
+++ b/runtimepy/registry/name.py
@@ -34,6 +34,13 @@ class NameRegistry(_TwoWayNameMapping[int]):
             if key >= self._current:
                 self._current = key + 1
 
+    def next_identifier(self) -> int:
+        """Find the next identifier that isn't assigned to a name."""
+
+        while self._current in self._mapping:
+            self._current += 1
+        return self._current
+
     def register_name(
         self, name: str, identifier: int = None
     ) -> _Optional[int]:
@@ -50,9 +57,7 @@ class NameRegistry(_TwoWayNameMapping[int]):
 
         # Find the next valid identifier.
         if identifier is None:
-            while self._current in self._mapping:
-                self._current += 1
-            identifier = self._current
+            identifier = self.next_identifier()
 
         # Store the mapping and return the identifier.
         if identifier not in self._mapping:
-- 
2.43.0


From b3666d6c1e4c20e05484648237756d1a75413147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 010/138] fix: registry items can be compared with each other

---
 runtimepy/registry/item.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/registry/item.py b/runtimepy/registry/item.py
index 3c07291..0c9bc4a 100644
--- a/runtimepy/registry/item.py
+++ b/runtimepy/registry/item.py
@@ -21,7 +21,10 @@ class RegistryItem(_RuntimepyDictCodec):
 
     def __eq__(self, other) -> bool:
         """Use the integer identifier to determine equivalence."""
-        return bool(self.id == getattr(other, "id", other["id"]))
+
+        if isinstance(other, dict):
+            return bool(self.id == other["id"])
+        return bool(self.id == getattr(other, "id", None))
 
     def init(self, data: _JsonObject) -> None:
         """Perform implementation-specific initialization."""
-- 
2.43.0


From 17902079b24754cdf7f2624ccb53918087ccecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 011/138] fix: protocol copies keep the identifier and whole
 serializable parts

---
 runtimepy/codec/protocol/base.py          | 36 ++++++++++++++++++++---
 runtimepy/primitives/serializable/base.py |  4 +++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 9ee6de7..3a410c5 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -102,8 +102,10 @@ class ProtocolBase:
         # Keep track of the order that the protocol was created.
         self._build: list[_Union[int, FieldSpec, str]] = []
 
-        # Keep track of named serializables.
+        # Keep track of named serializables and how many chain elements each
+        # one consists of.
         self.serializables: SerializableMap = {}
+        self._serializable_elements: dict[str, int] = {}
 
         # Add fields if necessary.
         if build is None:
@@ -135,13 +137,25 @@ class ProtocolBase:
             names=self.names,
             fields=_copy(self._fields),
             build=self._build,
+            identifier=self.id,
             byte_order=self.array.byte_order,
             serializables={
-                key: val.copy_without_chain()
-                for key, val in self.serializables.items()
+                key: self._copy_serializable(key) for key in self.serializables
             },
         )
 
+    def _copy_serializable(self, name: str) -> Serializable:
+        """Copy the part of this protocol's chain that 'name' consists of."""
+
+        curr = self.serializables[name]
+        result: Serializable = curr.copy_without_chain()
+        for _ in range(self._serializable_elements[name] - 1):
+            assert curr.chain is not None
+            curr = curr.chain
+            result.add_to_end(curr.copy_without_chain())
+
+        return result
+
     def register_name(self, name: str) -> int:
         """Register the field name."""
 
@@ -157,7 +171,21 @@ class ProtocolBase:
         self.register_name(name)
         self.serializables[name] = serializable
         self._build.append(name)
-        return self.array.add_to_end(serializable, array_length=array_length)
+
+        elements = serializable.elements()
+        if array_length is not None:
+            elements *= array_length
+        self._serializable_elements[name] = elements
+
+        result = self.array.add_to_end(serializable, array_length=array_length)
+
+        # Fields that are added later can't become part of this serializable.
+        if isinstance(self.array.end, PrimitiveArray):
+            self.array.add_to_end(
+                PrimitiveArray(byte_order=self.array.byte_order)
+            )
+
+        return result
 
     def add_field(
         self,
diff --git a/runtimepy/primitives/serializable/base.py b/runtimepy/primitives/serializable/base.py
index 91fff82..ed5d6f0 100644
--- a/runtimepy/primitives/serializable/base.py
+++ b/runtimepy/primitives/serializable/base.py
@@ -46,6 +46,10 @@ class Serializable(ABC):
             result += self.chain.length()
         return result
 
+    def elements(self) -> int:
+        """Get the number of elements in this chain."""
+        return 1 + (self.chain.elements() if self.chain is not None else 0)
+
     def length_trace(self) -> str:
         """Get a length-tracing string for this instance."""
 
-- 
2.43.0


From 2cf4a70ca400504efaa0e6476d6e8820e331493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 012/138] fix: protocols loaded from JSON keep repeated fields

---
 runtimepy/codec/protocol/json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index 8963f1e..28f3ce8 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -111,6 +111,9 @@ class JsonProtocol(ProtocolBase):
                         item["name"],  # type: ignore
                         item["kind"],  # type: ignore
                         enum=item.get("enum"),  # type: ignore
+                        array_length=item.get(  # type: ignore
+                            "array_length"
+                        ),
                     )
                 )
 
-- 
2.43.0


From ffd36acf61c999ceee92e1c67dd9299ca2ce88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 013/138] fix: finalizing an environment again doesn't add its
 bit-fields again

---
 runtimepy/channel/environment/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 1366e64..882ae7a 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -438,7 +438,9 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
     def finalize(self, strict: bool = True) -> None:
         """Finalize this instance."""
 
-        for fields in self.to_add:
-            self.fields.add(fields)
+        # Fields must only be added once, environments can be finalized
+        # multiple times.
+        while self.to_add:
+            self.fields.add(self.to_add.pop(0))
 
         super().finalize(strict=strict)
-- 
2.43.0


From 97c56ae780b3f7ec7feb88ea3c7a09b4ba0227d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 014/138] fix: protocol copies can be copied and exported

---
 runtimepy/codec/protocol/base.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 3a410c5..2f80f40 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -112,7 +112,8 @@ class ProtocolBase:
             build = []
         for item in build:
             if isinstance(item, int):
-                self._add_bit_fields(self._fields.fields[item], track=False)
+                self.array.add(self._fields.fields[item].raw)
+                self._build.append(item)
             elif isinstance(item, str):
                 assert serializables, (item, serializables)
                 self.add_field(item, serializable=serializables[item])
@@ -122,7 +123,6 @@ class ProtocolBase:
                     item.name,
                     item.kind,
                     enum=item.enum,
-                    track=False,
                     array_length=item.array_length,
                 )
 
@@ -193,7 +193,6 @@ class ProtocolBase:
         kind: _Primitivelike = None,
         enum: _RegistryKey = None,
         serializable: Serializable = None,
-        track: bool = True,
         array_length: int = None,
     ) -> int:
         """Add a new field to the protocol."""
@@ -222,20 +221,18 @@ class ProtocolBase:
         result = self.array.add(new, array_length=array_length)
         self._regular_fields[name] = new
 
-        if track:
-            self._build.append(
-                FieldSpec(name, kind, enum, array_length=array_length)
-            )
+        self._build.append(
+            FieldSpec(name, kind, enum, array_length=array_length)
+        )
 
         return result
 
-    def _add_bit_fields(self, fields: _BitFields, track: bool = True) -> None:
+    def _add_bit_fields(self, fields: _BitFields) -> None:
         """Add a bit-fields instance."""
 
         idx = self._fields.add(fields)
         self.array.add(fields.raw)
-        if track:
-            self._build.append(idx)
+        self._build.append(idx)
 
     @contextmanager
     def add_bit_fields(
-- 
2.43.0


From b56fc8b86d446f10e4a5de2a0021b77046b4e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 015/138] fix: native byte order doesn't insert padding between
 array members

---
 runtimepy/primitives/byte_order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/primitives/byte_order.py b/runtimepy/primitives/byte_order.py
index b183db7..3b26bbe 100644
--- a/runtimepy/primitives/byte_order.py
+++ b/runtimepy/primitives/byte_order.py
@@ -19,7 +19,7 @@ class ByteOrder(_RuntimeIntEnum):
         """Get the struct formatter for this byte order."""
 
         if self is ByteOrder.NATIVE:
-            return "@"
+            return "="
         if self is ByteOrder.LITTLE_ENDIAN:
             return "<"
         if self is ByteOrder.BIG_ENDIAN:
-- 
2.43.0


From 57b330ee2a2db9f5b6c3ff1164444273f0cadb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 016/138] fix: refusing a type name restores the current
 namespace

---
 runtimepy/codec/system/__init__.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/runtimepy/codec/system/__init__.py b/runtimepy/codec/system/__init__.py
index 5d78b9d..d2b0a13 100644
--- a/runtimepy/codec/system/__init__.py
+++ b/runtimepy/codec/system/__init__.py
@@ -194,15 +194,16 @@ class TypeSystem(LoggerMixin):
         """Resolve a given name against the current namespace."""
 
         with self.root_namespace.pushed(*namespace):
-            if check_available:
-                resolved = self._find_name(name)
-                assert (
-                    resolved is None
-                    or self.root_namespace.namespace(name, track=False)
-                    != resolved
-                ), f"Name '{name}' not available! found '{resolved}'"
-
-            result = self.root_namespace.namespace(name)
+            resolved = self._find_name(name) if check_available else None
+            available = (
+                resolved is None
+                or self.root_namespace.namespace(name, track=False) != resolved
+            )
+            if available:
+                result = self.root_namespace.namespace(name)
+
+        # Checked outside of the context, it wouldn't get restored.
+        assert available, f"Name '{name}' not available! found '{resolved}'"
 
         return result
 
-- 
2.43.0


From 547758811ef7173d2c9b6c7b5cf515dc7c90a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 017/138] fix: values without an enum name are read as they are
 instead of raising

---
 runtimepy/channel/environment/base.py      | 4 +++-
 runtimepy/codec/protocol/base.py           | 6 +++++-
 runtimepy/primitives/field/manager/base.py | 4 +++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 882ae7a..bb2046c 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -203,7 +203,9 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         # Resolve enumeration values to strings.
         if enum is not None and resolve_enum:
-            value = enum.get_str(_cast(int, value))
+            resolved = enum.as_str(_cast(int, value))
+            if resolved is not None:
+                value = resolved
 
         return value
 
diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 2f80f40..1a270df 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -254,7 +254,11 @@ class ProtocolBase:
 
             # Resolve the enum value.
             if resolve_enum and name in self._enum_fields:
-                val = self._enum_fields[name].get_str(val)  # type: ignore
+                resolved = self._enum_fields[name].as_str(
+                    val  # type: ignore
+                )
+                if resolved is not None:
+                    val = resolved
 
             return val
 
diff --git a/runtimepy/primitives/field/manager/base.py b/runtimepy/primitives/field/manager/base.py
index a75e52e..4ef1684 100644
--- a/runtimepy/primitives/field/manager/base.py
+++ b/runtimepy/primitives/field/manager/base.py
@@ -146,7 +146,9 @@ class BitFieldsManagerBase:
         if field.is_enum and resolve_enum:
             name = self.registry.name(key)
             assert name is not None, key
-            value = self.enum_lookup[name].get_str(value)
+            resolved = self.enum_lookup[name].as_str(value)
+            if resolved is not None:
+                value = resolved
 
         elif field.width == 1:
             value = bool(value)
-- 
2.43.0


From e09cc4c2d5e1eea2fc12896ce4f2ec4e2204850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 018/138] fix: names in the current namespace take precedence
 in type systems

---
 runtimepy/codec/system/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtimepy/codec/system/__init__.py b/runtimepy/codec/system/__init__.py
index d2b0a13..48780e1 100644
--- a/runtimepy/codec/system/__init__.py
+++ b/runtimepy/codec/system/__init__.py
@@ -165,14 +165,15 @@ class TypeSystem(LoggerMixin):
     ) -> Optional[str]:
         """Attempt to find a registered name."""
 
-        if name in self.primitives:
-            return name
-
         with self.root_namespace.pushed(*namespace):
+            # Names in the current namespace take precedence.
             candidate = self.root_namespace.namespace(name, track=False)
-            if candidate in self.custom:
+            if candidate in self.custom or candidate in self.primitives:
                 return candidate
 
+            if name in self.primitives:
+                return name
+
             matches = list(
                 x
                 for x in self.root_namespace.search(pattern=name)
-- 
2.43.0


From c455037301b67b60f0bca0eea74d1662dd2d1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 019/138] fix: commands report invalid values and arguments
 instead of raising

---
 .../channel/environment/command/processor.py      | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/command/processor.py b/runtimepy/channel/environment/command/processor.py
index 52a5a6b..3d43490 100644
--- a/runtimepy/channel/environment/command/processor.py
+++ b/runtimepy/channel/environment/command/processor.py
@@ -96,7 +96,12 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         try:
             self.env.set(args.channel, args.extra[0])
-        except (ValueError, KeyError) as exc:
+        except (
+            ArithmeticError,
+            AssertionError,
+            KeyError,
+            ValueError,
+        ) as exc:
             self.logger.exception(
                 "Exception setting '%s':", args.channel, exc_info=exc
             )
@@ -175,6 +180,14 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         self.parser_data["error_message"] = None
         args = self.parser.parse_args(value.split())
+
+        # Multiple '--' arguments can cause a positional argument to be parsed
+        # as an empty list.
+        if not self.parser_data["error_message"] and not all(
+            isinstance(x, str) for x in (args.command, args.channel)
+        ):
+            self.parser.error(f"malformed command: '{value}'")
+
         return args if not self.parser_data["error_message"] else None
 
     def command(self, value: str) -> CommandResult:
-- 
2.43.0


From cc5acf40d311224be2a370f9f58256383552481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 020/138] fix: events split across reads keep their channel

---
 runtimepy/channel/environment/telemetry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 1c040a1..46be583 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -134,9 +134,6 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         # Ingest stream.
         channels.event_fifo.ingest(stream.read())
 
-        ident = -1
-        name = ""
-
         keep_going = True
         while keep_going:
             keep_going = False
@@ -159,6 +156,10 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
             else:
                 event = None
 
+                # A header may have been read by a previous call.
+                ident = cast(int, channels.event_header["identifier"])
+                name = channels.names.name(ident)  # type: ignore
+
                 # Handle bit-field.
                 if self.fields.has_field(name):
                     event = self._parse_field_event(name)
-- 
2.43.0


From 26a4e50106eecae1aa3e6093b539a3cc2aaff9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 021/138] fix: event streaming ends with its context, metrics
 count written events

---
 runtimepy/channel/event/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index ec9a3b0..5508bac 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -63,9 +63,11 @@ class PrimitiveEvent:
         ident = raw.register_callback(callback)
 
         self.streaming = True
-        yield
-        assert raw.remove_callback(ident)
-        self.streaming = False
+        try:
+            yield
+        finally:
+            assert raw.remove_callback(ident)
+            self.streaming = False
 
     def _poll(
         self,
@@ -96,7 +98,7 @@ class PrimitiveEvent:
             if flush:
                 stream.flush()
 
-        if channel is not None:
+        if channel is not None and written:
             channel.increment(written)
 
         return written
-- 
2.43.0


From 67fce2ec1c4b0a852cc1c0c5ab0fca8d6c5532d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 022/138] fix: events aren't dropped when timestamps are set
 back

---
 runtimepy/channel/event/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index 5508bac..6e4cfff 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -87,7 +87,10 @@ class PrimitiveEvent:
         raw = self.primitive
         curr_ns = raw.last_updated_ns
 
-        if force or curr_ns - self.prev_ns >= self.min_period_ns:
+        # The clock may be set back (e.g. when simulated time is selected).
+        elapsed_ns = curr_ns - self.prev_ns
+
+        if force or elapsed_ns < 0 or elapsed_ns >= self.min_period_ns:
             self.prev_ns = curr_ns
             self.header["timestamp"] = curr_ns
 
-- 
2.43.0


From 530d76f435214d1530409bf2915cdd391312dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 023/138] fix: channel scaling is exported, events carry raw
 values

---
 runtimepy/channel/__init__.py              |  4 ++++
 runtimepy/channel/environment/base.py      | 12 ++++++++++--
 runtimepy/channel/environment/telemetry.py |  3 ++-
 runtimepy/data/schemas/Channel.yaml        |  6 ++++++
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/runtimepy/channel/__init__.py b/runtimepy/channel/__init__.py
index 9852536..c24d94e 100644
--- a/runtimepy/channel/__init__.py
+++ b/runtimepy/channel/__init__.py
@@ -89,6 +89,7 @@ class Channel(_RegistryItem, _EnumMixin, _Generic[_T]):
 
         # This is the underlying storage entity for this channel.
         self.raw: _T = _cast(_T, _normalize(_cast(str, data["type"]))())
+        self.raw.scaling = data.get("scaling")  # type: ignore
 
         _ctl: _Optional[Controls] = data.get("controls")  # type: ignore
         self.controls: _Optional[Controls] = _ctl
@@ -123,6 +124,9 @@ class Channel(_RegistryItem, _EnumMixin, _Generic[_T]):
         if self._enum is not None:
             result["enum"] = self._enum
 
+        if self.raw.scaling:
+            result["scaling"] = [*self.raw.scaling]
+
         if self.controls:
             result["controls"] = self.controls
 
diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index bb2046c..5bcee17 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -101,9 +101,17 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
             chan for chan in self.channels.items.values() if chan.type.is_float
         }
 
-        # Apply initial values if they were provided.
+        # Apply initial values if they were provided (scaling polynomials with
+        # more than two terms can't be inverted).
         if values is not None:
-            self.apply(values)
+            self.apply(
+                {
+                    key: value
+                    for key, value in values.items()
+                    if self.fields.has_field(key)
+                    or len(self[key][0].raw.scaling or []) <= 2
+                }
+            )
 
     def __setitem__(self, key: _RegistryKey, value: ChannelValue) -> None:
         """Mapping-set interface."""
diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 46be583..1361f3d 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -83,7 +83,8 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         if self.fields.has_field(point.name):
             self.fields[point.name].raw.value = point.value  # type: ignore
         else:
-            self.set(point.name, point.value)
+            # Events carry raw values.
+            self.set(point.name, point.value, scaled=False)
 
     def _parse_channel_event(self, name: str) -> Optional[ParsedEvent]:
         """Attempt to parse a channel event from the fifo."""
diff --git a/runtimepy/data/schemas/Channel.yaml b/runtimepy/data/schemas/Channel.yaml
index 71c8f72..4c5a6b5 100644
--- a/runtimepy/data/schemas/Channel.yaml
+++ b/runtimepy/data/schemas/Channel.yaml
@@ -28,6 +28,12 @@ properties:
       - uint32
       - uint64
 
+  # Polynomial coefficients, lowest degree first.
+  scaling:
+    type: array
+    items:
+      type: number
+
   enum:
     oneOf:
       - type: integer
-- 
2.43.0


From 8d95466f81f653795beedfb1289ec5886d4f9535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 024/138] fix: channels and bit-fields can't share a name

---
 runtimepy/channel/environment/base.py   | 11 +++++++++--
 runtimepy/channel/environment/create.py |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 5bcee17..7fc2975 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -74,7 +74,7 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
         self.fields = _BitFieldsManager(channels.names, self.enums)
         if fields:
             for field in fields:
-                self.fields.add(field)
+                self._add_fields(field)
 
         self.to_add: list[_BitFields] = []
 
@@ -436,6 +436,13 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         return prim.age_ns()
 
+    def _add_fields(self, fields: _BitFields) -> None:
+        """Add bit fields, their names can't belong to a channel."""
+
+        for name in fields.fields:
+            assert name not in self.channels.items, f"'{name}' is a channel!"
+        self.fields.add(fields)
+
     def add_field(self, field: _BitField, namespace: Namespace = None) -> str:
         """Add a bit field to the environment."""
 
@@ -451,6 +458,6 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
         # Fields must only be added once, environments can be finalized
         # multiple times.
         while self.to_add:
-            self.fields.add(self.to_add.pop(0))
+            self._add_fields(self.to_add.pop(0))
 
         super().finalize(strict=strict)
diff --git a/runtimepy/channel/environment/create.py b/runtimepy/channel/environment/create.py
index ffa3681..5f28648 100644
--- a/runtimepy/channel/environment/create.py
+++ b/runtimepy/channel/environment/create.py
@@ -51,6 +51,7 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
 
         # Apply the current (or provided) namespace.
         name = self.namespace(name=name, namespace=namespace)
+        assert not self.fields.has_field(name), f"'{name}' is a bit-field!"
 
         if enum is not None:
             if isinstance(enum, _RuntimeEnum):
-- 
2.43.0


From 4eb769646c08680ba620d6d0db8c916507f744bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:58 +0000
Subject: [PATCH 025/138] fix: message framing stays in sync when a consumer
 stops early

---
 runtimepy/message/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/message/__init__.py b/runtimepy/message/__init__.py
index 1047a00..6124bf6 100644
--- a/runtimepy/message/__init__.py
+++ b/runtimepy/message/__init__.py
@@ -79,7 +79,8 @@ class MessageProcessor:
             else:
                 message = self.buffer.pop(self.message_length_in.value)
                 if message is not None:
-                    yield message
+                    # Stay in sync if a consumer doesn't resume iteration.
                     self.reading_header = True
+                    yield message
                 else:
                     can_continue = False
-- 
2.43.0


From 816ca626f1703db2c9b8574715a27f1d46049ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 026/138] fix: a peer's request is not mistaken for a response

Both ends of a connection counted message identifiers from the same number,
so a request could complete an unrelated request of the receiver. Late
replies were answered (endlessly) and never released.
---
 runtimepy/message/interface.py | 40 ++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index f7f723d..8046e2e 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -7,6 +7,7 @@ import asyncio
 from copy import copy
 from io import BytesIO
 import logging
+from random import getrandbits
 from typing import Any, Optional, Union
 
 # third-party
@@ -70,7 +71,10 @@ class JsonMessageInterface:
             "kind": type(self).__name__,
         }
 
+        # Peers shouldn't use the same message identifiers.
         self.curr_id = Identifier()
+        self.curr_id.curr_id += self.curr_id.scale * getrandbits(47)
+        self.first_id = self.curr_id.curr_id
 
         self.ids_waiting: dict[int, asyncio.Event] = {}
         self.id_responses: dict[int, JsonMessage] = {}
@@ -210,6 +214,15 @@ class JsonMessageInterface:
                 *message.get("args", []),
             )
 
+    def _is_own_id(self, ident: Any) -> bool:
+        """Determine if this instance created a message identifier."""
+
+        return (
+            isinstance(ident, int)
+            and self.first_id <= ident < self.curr_id.curr_id
+            and (self.curr_id.curr_id - ident) % self.curr_id.scale == 0
+        )
+
     def _handle_reserved(
         self, data: JsonMessage, response: JsonMessage
     ) -> bool:
@@ -220,7 +233,7 @@ class JsonMessageInterface:
         # If a message identifier is present, send one in the response.
         if "__id__" in data:
             ident = data["__id__"]
-            if ident in self.ids_waiting:
+            if isinstance(ident, int) and ident in self.ids_waiting:
                 del data["__id__"]
                 self.id_responses[ident] = data
                 event = self.ids_waiting[ident]
@@ -230,6 +243,10 @@ class JsonMessageInterface:
                 # Don't respond if we're receiving a reply.
                 should_respond = False
 
+            # Don't respond to late (or repeated) replies.
+            elif self._is_own_id(ident):
+                should_respond = False
+
             response["__id__"] = ident
 
         # Log messages sent by the peer.
@@ -263,18 +280,19 @@ class JsonMessageInterface:
         assert ident not in self.ids_waiting
         self.ids_waiting[ident] = got_response
 
-        # Send message and await response.
-        self.send_json(data, addr=addr)
-
-        assert await event_wait(
-            got_response, timeout
-        ), f"No response received in {timeout} seconds!"
+        try:
+            # Send message and await response.
+            self.send_json(data, addr=addr)
 
-        # Return the result.
-        result = self.id_responses[ident]
-        del self.id_responses[ident]
+            assert await event_wait(
+                got_response, timeout
+            ), f"No response received in {timeout} seconds!"
 
-        return result
+            # Return the result.
+            return self.id_responses[ident]
+        finally:
+            self.ids_waiting.pop(ident, None)
+            self.id_responses.pop(ident, None)
 
     async def loopback(
         self,
-- 
2.43.0


From 5a9ee78c956e2b7d3625166f801b84b879dfc53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:50 +0000
Subject: [PATCH 027/138] fix: a failing JSON message handler doesn't end the
 connection

---
 runtimepy/message/interface.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index 8046e2e..277da55 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -368,14 +368,20 @@ class JsonMessageInterface:
                     if target.result.substitutions
                     else {}
                 )
-                with_sub_data.update(item)
 
-                if kind is None:
-                    tasks.append(handler(sub_response, with_sub_data))
-                else:
-                    tasks.append(
-                        handler(sub_response, kind.create(with_sub_data))
+                # A message that's not valid only affects its own handler.
+                try:
+                    with_sub_data.update(item)
+                    handler_data = (
+                        with_sub_data
+                        if kind is None
+                        else kind.create(with_sub_data)
                     )
+                except Exception:  # pylint: disable=broad-exception-caught
+                    self.logger.exception("Invalid '%s' message:", key)
+                    continue
+
+                tasks.append(handler(sub_response, handler_data))
 
             elif key not in RESERVED_KEYS:
                 keys_ignored.append(key)
@@ -384,8 +390,9 @@ class JsonMessageInterface:
             sub_responses[key] = sub_response
 
         # Run handlers in parallel.
-        if tasks:
-            await asyncio.gather(*tasks)
+        for error in await asyncio.gather(*tasks, return_exceptions=True):
+            if error is not None:
+                self.logger.error("Message handler failed:", exc_info=error)
 
         # Promote sub-responses to message output.
         for key, sub_response in sub_responses.items():
-- 
2.43.0


From 620e88d3e54de35321926643105c129148e18e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:50 +0000
Subject: [PATCH 028/138] fix: sending a JSON message doesn't change the
 caller's data

---
 runtimepy/message/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index 277da55..98efaa0 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -197,6 +197,7 @@ class JsonMessageInterface:
         # Add any pending log messages to this message.
         if self._log_messages:
             assert "__log_messages__" not in data
+            data = copy(data)
             data["__log_messages__"] = self._log_messages  # type: ignore
             self._log_messages = []
 
-- 
2.43.0


From 26f45b7b1c0281649af487a785ec2d3bafd8c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 029/138] fix: captured log records are forwarded as text

---
 runtimepy/message/interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index 98efaa0..bd4c104 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -190,8 +190,9 @@ class JsonMessageInterface:
         # Stage any pending log messages.
         if self.list_handler:
             for record in self.list_handler.drain():
-                self.stage_remote_log(  # type: ignore
-                    record.msg, *record.args, level=record.levelno
+                # Arguments can't necessarily be encoded as JSON.
+                self.stage_remote_log(
+                    record.getMessage(), level=record.levelno
                 )
 
         # Add any pending log messages to this message.
-- 
2.43.0


From 2f21e7897bf2e066c2e596e42a505299ab2ba228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 030/138] fix: HTTP headers with multi-byte characters couldn't
 be processed

---
 runtimepy/net/http/state.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/runtimepy/net/http/state.py b/runtimepy/net/http/state.py
index 0811587..d76a577 100644
--- a/runtimepy/net/http/state.py
+++ b/runtimepy/net/http/state.py
@@ -21,12 +21,12 @@ class HeaderProcessingState:
     """A container for header-related processing state."""
 
     lines: list[str]
-    line: str
+    line: bytearray
 
     @staticmethod
     def create() -> "HeaderProcessingState":
         """Create a default instance."""
-        return HeaderProcessingState([], "")
+        return HeaderProcessingState([], bytearray())
 
     def service(self, buffer: ByteFifo, kind: type[T]) -> Optional[T]:
         """
@@ -37,15 +37,15 @@ class HeaderProcessingState:
         result = None
 
         while result is None and buffer.size:
-            curr_raw = buffer.pop(1)
-            if curr_raw is not None:
-                curr = curr_raw.decode(encoding=DEFAULT_ENCODING)
-
+            curr = buffer.pop(1)
+            if curr is not None:
                 # Any '\r\n' sequence signifies the end of a header line.
-                if curr == "\n":
+                if curr == b"\n":
                     if self.line:
-                        self.lines.append(self.line)
-                        self.line = ""
+                        self.lines.append(
+                            self.line.decode(encoding=DEFAULT_ENCODING)
+                        )
+                        self.line = bytearray()
 
                     # Two sequences in a row signifies the end of the header
                     # section.
@@ -54,7 +54,7 @@ class HeaderProcessingState:
                         result.from_lines(self.lines)
                         self.lines = []
 
-                elif curr != "\r":
+                elif curr != b"\r":
                     self.line += curr
 
         return result
-- 
2.43.0


From a1f57e62daf0c807e5f740177a569d9d99a2bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 031/138] fix: request targets lost everything after a second
 '?'

---
 runtimepy/net/http/request_target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/http/request_target.py b/runtimepy/net/http/request_target.py
index 1153535..0a25575 100644
--- a/runtimepy/net/http/request_target.py
+++ b/runtimepy/net/http/request_target.py
@@ -41,7 +41,7 @@ class RequestTarget:
 
         # 3.2.1 origin-form
         elif request_target_raw.startswith("/"):
-            parts = request_target_raw.split("?")
+            parts = request_target_raw.split("?", maxsplit=1)
             path = parts[0]
             if len(parts) > 1:
                 query = parts[1]
-- 
2.43.0


From c102d9d008972fd44b30ef69307123d06dab9682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 032/138] fix: HTTP messages were processed again when a
 consumer stopped early

---
 runtimepy/net/http/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/http/__init__.py b/runtimepy/net/http/__init__.py
index 7fe79a4..4a90e1e 100644
--- a/runtimepy/net/http/__init__.py
+++ b/runtimepy/net/http/__init__.py
@@ -54,5 +54,8 @@ class HttpMessageProcessor:
                 if can_read_payload:
                     if payload_len > 0:
                         payload = self.buffer.pop(payload_len)
-                    yield cast(T, self.current_header), payload
+
+                    # A consumer may not resume iteration.
+                    header = self.current_header
                     self.current_header = None
+                    yield cast(T, header), payload
-- 
2.43.0


From ee7ebb2d1e21a506c8c667d6059902e95cc52b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:47 +0000
Subject: [PATCH 033/138] fix: an abandoned HTTP request's response was
 returned to the next request

---
 runtimepy/net/tcp/http/__init__.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/runtimepy/net/tcp/http/__init__.py b/runtimepy/net/tcp/http/__init__.py
index 5351c07..67a6d29 100644
--- a/runtimepy/net/tcp/http/__init__.py
+++ b/runtimepy/net/tcp/http/__init__.py
@@ -4,6 +4,7 @@ A module implementing a basic HTTP (multiple RFC's) connection interface.
 
 # built-in
 import asyncio
+from collections import deque
 from copy import copy
 import http
 from json import loads
@@ -55,8 +56,6 @@ class HttpConnection(_TcpConnection):
 
     identity = f"{PKG_NAME}/{VERSION}"
 
-    expecting_response: bool
-
     log_alias = "HTTP"
 
     # Handlers registered at the class level so that instances created at
@@ -71,13 +70,20 @@ class HttpConnection(_TcpConnection):
 
         # Outgoing request handling.
         self.request_ready = asyncio.BoundedSemaphore()
-        self.expecting_response = False
-        self.responses: asyncio.Queue[HttpResponse] = asyncio.Queue(maxsize=1)
+
+        # Responses arrive in request order. Entries for abandoned (cancelled)
+        # requests must remain until their response arrives.
+        self.responses: deque[asyncio.Future[HttpResponse]] = deque()
 
         self.handlers = copy(self.handlers)
         self.handlers[http.HTTPMethod.GET] = self.get_handler
         self.handlers[http.HTTPMethod.POST] = self.post_handler
 
+    @property
+    def expecting_response(self) -> bool:
+        """Determine if any response is expected."""
+        return bool(self.responses)
+
     @classmethod
     def get_log_prefix(cls, is_ssl: bool = False) -> str:
         """Get a logging prefix for this instance."""
@@ -138,11 +144,12 @@ class HttpConnection(_TcpConnection):
             request["user-agent"] = self.identity
 
             self._send(request, data)
-            self.expecting_response = True
-            result = await self.responses.get()
-            self.expecting_response = False
 
-        return result
+            response: asyncio.Future[HttpResponse] = (
+                asyncio.get_running_loop().create_future()
+            )
+            self.responses.append(response)
+            return await response
 
     async def request_json(
         self, request: RequestHeader, data: Optional[bytes] = None
@@ -192,8 +199,8 @@ class HttpConnection(_TcpConnection):
 
             # Process the response to a pending request.
             else:
-                await self.responses.put(
-                    (cast(ResponseHeader, header), payload)
-                )
+                pending = self.responses.popleft()
+                if not pending.done():
+                    pending.set_result((cast(ResponseHeader, header), payload))
 
         return True
-- 
2.43.0


From cdd51efcfefc15e89812866ca88e4ab89dd30ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:12 +0000
Subject: [PATCH 034/138] fix: requests on a lost HTTP connection waited
 forever

---
 runtimepy/net/tcp/http/__init__.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/tcp/http/__init__.py b/runtimepy/net/tcp/http/__init__.py
index 67a6d29..e687329 100644
--- a/runtimepy/net/tcp/http/__init__.py
+++ b/runtimepy/net/tcp/http/__init__.py
@@ -84,6 +84,16 @@ class HttpConnection(_TcpConnection):
         """Determine if any response is expected."""
         return bool(self.responses)
 
+    def disable_extra(self) -> None:
+        """Additional tasks to perform when disabling."""
+
+        # Nothing else arrives for pending requests or incomplete messages.
+        while self.responses:
+            pending = self.responses.popleft()
+            if not pending.done():
+                pending.set_exception(ConnectionError("connection disabled"))
+        self.processor = HttpMessageProcessor()
+
     @classmethod
     def get_log_prefix(cls, is_ssl: bool = False) -> str:
         """Get a logging prefix for this instance."""
@@ -187,18 +197,18 @@ class HttpConnection(_TcpConnection):
         ):
             header.log(self.logger, False)
 
-            if not self.expecting_response:
+            if isinstance(header, RequestHeader):
                 # Process request.
                 response = ResponseHeader()
                 self._send(
                     response,
                     await self._process_request(
-                        response, cast(RequestHeader, header), payload
+                        response, header, payload
                     ),
                 )
 
             # Process the response to a pending request.
-            else:
+            elif self.responses:
                 pending = self.responses.popleft()
                 if not pending.done():
                     pending.set_result((cast(ResponseHeader, header), payload))
-- 
2.43.0


From 4063bbb80640b02232bc760bfb63cde64c81bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:12 +0000
Subject: [PATCH 035/138] fix: IPv6 authority-form request targets weren't
 accepted

---
 runtimepy/net/http/request_target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/http/request_target.py b/runtimepy/net/http/request_target.py
index 0a25575..9f91bad 100644
--- a/runtimepy/net/http/request_target.py
+++ b/runtimepy/net/http/request_target.py
@@ -36,7 +36,7 @@ class RequestTarget:
 
         # 3.2.3 authority-form
         elif method == http.HTTPMethod.CONNECT:
-            host, port = request_target_raw.split(":")
+            host, port = request_target_raw.rsplit(":", maxsplit=1)
             self.authority_form = (host, int(port))
 
         # 3.2.1 origin-form
-- 
2.43.0


From fe1409f4d593f3df50529ae61e0e178cde64baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:48 +0000
Subject: [PATCH 036/138] fix: HTTP requests can't read files outside of
 configured paths

---
 runtimepy/net/server/__init__.py | 11 +++++++++--
 runtimepy/util.py                | 13 ++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 9142443..2464f12 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -25,7 +25,12 @@ from runtimepy.net.http.response import ResponseHeader
 from runtimepy.net.server.html import HtmlApp, HtmlApps, get_html, html_handler
 from runtimepy.net.server.json import encode_json, json_handler
 from runtimepy.net.tcp.http import HttpConnection
-from runtimepy.util import normalize_root, path_has_part, read_binary
+from runtimepy.util import (
+    contained_path,
+    normalize_root,
+    path_has_part,
+    read_binary,
+)
 
 MIMETYPES_INIT = False
 
@@ -170,7 +175,9 @@ class RuntimepyServerConnection(HttpConnection):
 
         # Try serving the path as a file.
         for search in self.paths:
-            candidate = search.joinpath(path[0][1:])
+            candidate = contained_path(search, path[0])
+            if candidate is None:
+                continue
 
             # Handle markdown sources.
             if candidate.name:
diff --git a/runtimepy/util.py b/runtimepy/util.py
index 8cf0558..f4ed1f6 100644
--- a/runtimepy/util.py
+++ b/runtimepy/util.py
@@ -4,8 +4,9 @@ A module implementing package utilities.
 
 # built-in
 from os import sep
+from os.path import normpath
 from pathlib import Path
-from typing import Iterator, Union
+from typing import Iterator, Optional, Union
 
 # third-party
 import aiofiles
@@ -31,6 +32,16 @@ def normalize_root(*src_parts: Union[str, Path]) -> Path:
     return result
 
 
+def contained_path(root: Path, path: str) -> Optional[Path]:
+    """
+    Get the path below some root directory that a requested path refers to.
+    Requests for anything outside of the root directory have no result.
+    """
+
+    result = Path(normpath(str(root.joinpath(path.lstrip("/")))))
+    return result if result.is_relative_to(root) else None
+
+
 class Identifier:
     """A simple message indentifier interface."""
 
-- 
2.43.0


From bf6b2c18c750716682a5ea8fd5b8af35cade40a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:48 +0000
Subject: [PATCH 037/138] fix: markdown sources hid files that have other
 suffixes

---
 runtimepy/net/server/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 2464f12..e23a4b9 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -180,7 +180,9 @@ class RuntimepyServerConnection(HttpConnection):
                 continue
 
             # Handle markdown sources.
-            if candidate.name:
+            if candidate.name and (
+                candidate.suffix == ".md" or not candidate.is_file()
+            ):
                 md_candidate = candidate.with_suffix(".md")
                 if md_candidate.is_file():
                     return await self.render_markdown_file(
-- 
2.43.0


From 979d4c4ca6725427d13345802252c59c90f07102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:48 +0000
Subject: [PATCH 038/138] fix: requests for compressed files ended the
 connection

---
 runtimepy/net/server/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index e23a4b9..c0399d9 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -192,13 +192,11 @@ class RuntimepyServerConnection(HttpConnection):
             if candidate.is_file():
                 mime, encoding = mimetypes.guess_type(candidate, strict=False)
 
-                # Set MIME type if it can be determined.
-                if mime:
+                # Set MIME type if it can be determined (compressed files are
+                # served without declaring their encoding).
+                if mime and not encoding:
                     response["Content-Type"] = mime
 
-                # We don't handle this yet.
-                assert not encoding, (candidate, mime, encoding)
-
                 self.logger.info("Serving '%s' (MIME: %s)", candidate, mime)
 
                 # Return the file data.
-- 
2.43.0


From 65e0b5856c8a9fa7451d87426b397d4294cbd018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:48 +0000
Subject: [PATCH 039/138] fix: different web applications shared one cached
 document

---
 runtimepy/net/server/app/create.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/server/app/create.py b/runtimepy/net/server/app/create.py
index fde6c6a..861124b 100644
--- a/runtimepy/net/server/app/create.py
+++ b/runtimepy/net/server/app/create.py
@@ -17,7 +17,6 @@ from runtimepy.net.http.response import ResponseHeader
 from runtimepy.net.server.app.base import WebApplication
 from runtimepy.net.server.html import HtmlApp
 
-DOCUMENTS: dict[str, Html] = {}
 T = TypeVar("T")
 
 
@@ -39,6 +38,8 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
     the originally composed document.
     """
 
+    cached: Optional[Html] = None
+
     async def cached_app(
         document: Html,
         request: RequestHeader,
@@ -50,14 +51,13 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
         with LoggerMixin(logger=app.logger).log_time(
             "Composing HTML document"
         ):
+            nonlocal cached
             populate = True
 
-            compose_name = compose.__name__
-
             # Use the already-rendered document.
             if config_param(app, "caching", True):
-                if compose_name in DOCUMENTS:
-                    document = DOCUMENTS[compose_name]
+                if cached is not None:
+                    document = cached
                     populate = False
 
             if populate:
@@ -65,7 +65,7 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
                 document = compose(
                     app, document, request, response, request_data
                 )
-                DOCUMENTS[compose_name] = document
+                cached = document
 
         return document
 
-- 
2.43.0


From 8d2d35420618331d26e5456dc46f7ee96e20b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:30 +0000
Subject: [PATCH 040/138] fix: requests with overlong path components ended the
 connection

---
 runtimepy/net/server/__init__.py | 7 ++++---
 runtimepy/util.py                | 9 +++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index c0399d9..84d4cfc 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -29,6 +29,7 @@ from runtimepy.util import (
     contained_path,
     normalize_root,
     path_has_part,
+    path_is_file,
     read_binary,
 )
 
@@ -181,15 +182,15 @@ class RuntimepyServerConnection(HttpConnection):
 
             # Handle markdown sources.
             if candidate.name and (
-                candidate.suffix == ".md" or not candidate.is_file()
+                candidate.suffix == ".md" or not path_is_file(candidate)
             ):
                 md_candidate = candidate.with_suffix(".md")
-                if md_candidate.is_file():
+                if path_is_file(md_candidate):
                     return await self.render_markdown_file(
                         md_candidate, response
                     )
 
-            if candidate.is_file():
+            if path_is_file(candidate):
                 mime, encoding = mimetypes.guess_type(candidate, strict=False)
 
                 # Set MIME type if it can be determined (compressed files are
diff --git a/runtimepy/util.py b/runtimepy/util.py
index f4ed1f6..6c495c9 100644
--- a/runtimepy/util.py
+++ b/runtimepy/util.py
@@ -3,6 +3,7 @@ A module implementing package utilities.
 """
 
 # built-in
+from contextlib import suppress
 from os import sep
 from os.path import normpath
 from pathlib import Path
@@ -42,6 +43,14 @@ def contained_path(root: Path, path: str) -> Optional[Path]:
     return result if result.is_relative_to(root) else None
 
 
+def path_is_file(path: Path) -> bool:
+    """Determine if a path (which may not be a valid one) is a file."""
+
+    with suppress(OSError):
+        return path.is_file()
+    return False
+
+
 class Identifier:
     """A simple message indentifier interface."""
 
-- 
2.43.0


From 30d6d58a9bd2bdc9eb2d8b2a901764ccd54d349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 041/138] fix: polled metrics reported bytes as bits, resetting
 kept the message rate

---
 runtimepy/metrics/channel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 1fd517d..85f8eaa 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -55,7 +55,8 @@ class ChannelMetrics:
     def poll(self, time_ns: int = None) -> None:
         """Poll kbps tracking."""
 
-        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns)
+        # Multiply by 8 to get bits from bytes.
+        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns) * 8
         self.message_rate.value = self._message_rate_tracker.poll(
             time_ns=time_ns
         )
@@ -78,6 +79,8 @@ class ChannelMetrics:
         """Reset metrics."""
 
         self.messages.value = 0
+        self.message_rate.value = 0.0
+        self._message_rate_tracker.reset()
         self.bytes.value = 0
         self.kbps.value = 0.0
         self._kbps_tracker.reset()
-- 
2.43.0


From 7f4e4a7673515cbf9b554f30da2db9032813e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 042/138] fix: received datagrams weren't counted when their
 handler failed

---
 runtimepy/net/udp/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index cfa4f8f..d9c1037 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -204,8 +204,8 @@ class UdpConnection(_Connection, _TransportMixin):
                 if message is not None:
                     data = message[0]
                     self.latest_rx_address = message[1]
-                    result = await self.process_datagram(data, message[1])
                     self.metrics.rx.increment(len(data))
+                    result = await self.process_datagram(data, message[1])
 
                 # If we failed to read a message, disable.
                 if not result:
-- 
2.43.0


From 17bfceb8bb9dfb315b9acd115a42add987bdbc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 043/138] fix: WebSocket metrics counted characters, and
 messages that weren't sent

---
 runtimepy/net/websocket/connection.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index e406d66..03824f9 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -71,18 +71,27 @@ class WebsocketConnection(Connection):
 
         data = await self._handle_connection_closed(self.protocol.recv())
         if data is not None:
-            self.metrics.rx.increment(len(data))
+            self.metrics.rx.increment(
+                len(data.encode() if isinstance(data, str) else data)
+            )
         return data
 
+    async def _send_and_count(self, data: _Union[BinaryMessage, str]) -> bool:
+        """Send a message and update metrics if it was sent."""
+
+        await self.protocol.send(data)
+        self.metrics.tx.increment(
+            len(data.encode() if isinstance(data, str) else data)
+        )
+        return True
+
     async def _send_text_message(self, data: str) -> None:
         """Send a text message."""
-        await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        await self._handle_connection_closed(self._send_and_count(data))
 
     async def _send_binay_message(self, data: BinaryMessage) -> None:
         """Send a binary message."""
-        await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        await self._handle_connection_closed(self._send_and_count(data))
 
     async def close(self) -> None:
         """Close this connection."""
-- 
2.43.0


From ca4593d18193c0f1ef4745ec8d4a72b740770858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 044/138] fix: WebSocket connection pairs were closed as soon
 as they connected

---
 runtimepy/net/websocket/connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index 03824f9..94fb862 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -187,6 +187,9 @@ class WebsocketConnection(Connection):
             assert server_conn is None
             server_conn = cls(protocol)
 
+            # The connection is closed when this returns.
+            await protocol.wait_closed()
+
         async with _AsyncExitStack() as stack:
             if serve_kwargs is None:
                 serve_kwargs = {}
-- 
2.43.0


From 5d5576efc0b9fc29802344e897d80d914c132b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 045/138] fix: the 'restart_attempts' channel reported
 successful restarts

---
 runtimepy/net/connection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index c62c69e..4d7f929 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -104,7 +104,7 @@ class Connection(
         )
         self.env.channel(
             "restart_attempts",
-            self._restarts,
+            self._restart_attempts,
             description="Number of connection restart attempts.",
         )
 
@@ -251,9 +251,9 @@ class Connection(
             await backoff.sleep()
             if await self.restart():
                 self._set_enabled(True)
-                self._restarts.raw.value += 1
+                self._restarts.value += 1
 
-            self._restart_attempts.raw.value += 1
+            self._restart_attempts.value += 1
 
     @asynccontextmanager
     async def process_then_disable(self, **kwargs) -> AsyncIterator[None]:
-- 
2.43.0


From 9f2c9a94af2d21c6e5e7b79912d84873326f6831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 046/138] fix: connections stayed enabled when a handler raised
 an exception

---
 runtimepy/net/connection.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 4d7f929..efb6a03 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -220,6 +220,12 @@ class Connection(
         self.env.finalize(strict=False)
         self.initialized.set()
 
+    def _task_done(self, task: _asyncio.Task[None]) -> None:
+        """Disable this connection if one of its tasks failed."""
+
+        if not task.cancelled() and task.exception() is not None:
+            self.disable(f"task failed: {task.exception()!r}")
+
     async def restart(self) -> bool:
         """
         Reset necessary underlying state for this connection to 'process'
@@ -306,6 +312,10 @@ class Connection(
 
         self.exited.clear()
 
+        # Don't stay enabled if any task fails.
+        for task in self._tasks:
+            task.add_done_callback(self._task_done)
+
         # Run tasks in parallel.
         gather_task = _asyncio.create_task(
             _asyncio.wait(self._tasks, return_when=_asyncio.ALL_COMPLETED)
-- 
2.43.0


From 553b62d628a95bc7f390a0686cd2d0d17c9ebff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 047/138] fix: cancelling a connection's processing left its
 tasks running

---
 runtimepy/net/connection.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index efb6a03..4efb1cd 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -320,13 +320,18 @@ class Connection(
         gather_task = _asyncio.create_task(
             _asyncio.wait(self._tasks, return_when=_asyncio.ALL_COMPLETED)
         )
-        await gather_task
+        try:
+            await gather_task
+        finally:
+            # Tasks may still be running if this task was cancelled.
+            self.disable("processing ended")
+            await _asyncio.wait(self._tasks)
 
-        # Ensure that tasks have their exceptions retrieved.
-        _log_exceptions(self._tasks + [gather_task], self.logger)
+            # Ensure that tasks have their exceptions retrieved.
+            _log_exceptions(self._tasks + [gather_task], self.logger)
 
-        await self.close()
-        self.exited.set()
+            await self.close()
+            self.exited.set()
 
     async def _process_read(self) -> None:
         """Process incoming messages while this connection is active."""
-- 
2.43.0


From ce2a6e4fcb2ffdea07137e4b36eec344be8ca082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 048/138] fix: waiting for a connection's initialization could
 wait forever

---
 runtimepy/net/connection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 4efb1cd..25d6b98 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -284,8 +284,11 @@ class Connection(
 
         await self._handle_restart(stop_sig=stop_sig, backoff=backoff)
         if self.disabled:
+            # Initialization won't occur.
+            self.initialized.set()
             return
 
+        self.initialized.clear()
         self._tasks = [
             _asyncio.create_task(self._process_read()),
             _asyncio.create_task(self._async_init()),
@@ -312,6 +315,10 @@ class Connection(
 
         self.exited.clear()
 
+        # Anything waiting for initialization shouldn't wait forever if it
+        # fails or gets interrupted.
+        self._tasks[1].add_done_callback(lambda _: self.initialized.set())
+
         # Don't stay enabled if any task fails.
         for task in self._tasks:
             task.add_done_callback(self._task_done)
-- 
2.43.0


From bade0c02a24093f41fe9db3ec7117fdefdd6a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 049/138] fix: data received before a peer disconnected was
 dropped

---
 runtimepy/net/mixin.py        | 4 +++-
 runtimepy/net/tcp/protocol.py | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/mixin.py b/runtimepy/net/mixin.py
index 03f73dd..9f044b6 100644
--- a/runtimepy/net/mixin.py
+++ b/runtimepy/net/mixin.py
@@ -23,7 +23,9 @@ class BinaryMessageQueueMixin:
 
     def __init__(self) -> None:
         """Initialize this protocol."""
-        self.queue: _asyncio.Queue[_BinaryMessage] = _asyncio.Queue()
+        self.queue: _asyncio.Queue[_Optional[_BinaryMessage]] = (
+            _asyncio.Queue()
+        )
 
 
 class TransportMixin:
diff --git a/runtimepy/net/tcp/protocol.py b/runtimepy/net/tcp/protocol.py
index 00004b7..d46713f 100644
--- a/runtimepy/net/tcp/protocol.py
+++ b/runtimepy/net/tcp/protocol.py
@@ -43,4 +43,10 @@ class QueueProtocol(_BinaryMessageQueueMixin, _Protocol):
 
         msg = "Disconnected." if exc is None else f"Disconnected: '{exc}'."
         self.logger.info(msg)
-        self.conn.disable("disconnected")
+
+        # Data that was already received can still be processed. A null message
+        # disables the connection.
+        if not self.queue.empty() and not self.conn.disabled:
+            self.queue.put_nowait(None)
+        else:
+            self.conn.disable("disconnected")
-- 
2.43.0


From 9b66de328dc9c2a8ae1db089c9af1b11e2380a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 050/138] fix: a previous transport's end disabled a restarted
 connection

---
 runtimepy/net/tcp/connection.py | 5 +++++
 runtimepy/net/tcp/protocol.py   | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/connection.py b/runtimepy/net/tcp/connection.py
index 02e3950..18e522d 100644
--- a/runtimepy/net/tcp/connection.py
+++ b/runtimepy/net/tcp/connection.py
@@ -74,6 +74,11 @@ class TcpConnection(_Connection, _TransportMixin):
     def _set_protocol(self, protocol: QueueProtocol) -> None:
         """Set a new protocol for this instance."""
 
+        # Late events for a previous transport don't affect a new one.
+        previous: _Optional[QueueProtocol] = getattr(self, "_protocol", None)
+        if previous is not None:
+            previous.conn = None
+
         self._protocol = protocol
         self._protocol.conn = self
 
diff --git a/runtimepy/net/tcp/protocol.py b/runtimepy/net/tcp/protocol.py
index d46713f..84b2f0f 100644
--- a/runtimepy/net/tcp/protocol.py
+++ b/runtimepy/net/tcp/protocol.py
@@ -24,7 +24,7 @@ class QueueProtocol(_BinaryMessageQueueMixin, _Protocol):
     """A simple streaming protocol that populates a message queue."""
 
     logger: _LoggerType
-    conn: _Connection
+    conn: _Optional[_Connection]
 
     def data_received(self, data: _BinaryMessage) -> None:
         """Handle incoming data."""
@@ -44,6 +44,10 @@ class QueueProtocol(_BinaryMessageQueueMixin, _Protocol):
         msg = "Disconnected." if exc is None else f"Disconnected: '{exc}'."
         self.logger.info(msg)
 
+        # This connection may have been restarted.
+        if self.conn is None:
+            return
+
         # Data that was already received can still be processed. A null message
         # disables the connection.
         if not self.queue.empty() and not self.conn.disabled:
-- 
2.43.0


From ac735465424f9de35de5c643084bba03bf06926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 051/138] fix: retry delays didn't grow exponentially

---
 runtimepy/net/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/backoff.py b/runtimepy/net/backoff.py
index aa8ca4b..674f0ff 100644
--- a/runtimepy/net/backoff.py
+++ b/runtimepy/net/backoff.py
@@ -42,5 +42,5 @@ class ExponentialBackoff:
         """Sleep for the correct amount of time."""
 
         await asyncio.sleep(self.wait)
-        self.wait = min((2 ^ self.attempt) * self.interval, self.max_sleep)
+        self.wait = min((2**self.attempt) * self.interval, self.max_sleep)
         self.attempt += 1
-- 
2.43.0


From 6acfbb8d77f0804c6e339557050b3a9eec50c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 052/138] fix: connections that ended before being managed were
 restarted

---
 runtimepy/net/manager.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 66b671c..6e4062c 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -113,12 +113,19 @@ class ConnectionManager(LoggerMixin):
             # it.
             if new_conn_task.done():
                 new_conn = new_conn_task.result()
-                self._conns.append(new_conn)
-                next_tasks.append(
-                    _asyncio.create_task(new_conn.process(stop_sig=stop_sig))
-                )
                 new_conn_task = None
 
+                # Connections that already ended shouldn't be started again.
+                if new_conn.disabled and not new_conn.auto_restart:
+                    new_conn.initialized.set()
+                else:
+                    self._conns.append(new_conn)
+                    next_tasks.append(
+                        _asyncio.create_task(
+                            new_conn.process(stop_sig=stop_sig)
+                        )
+                    )
+
             tasks = next_tasks
 
         with self.log_time("Shutting down", reminder=True):
-- 
2.43.0


From 827937fb4258263945222b35030beabfa63b9e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 053/138] fix: telemetry sent right after a peer's environment
 was dropped

---
 runtimepy/subprocess/peer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtimepy/subprocess/peer.py b/runtimepy/subprocess/peer.py
index 68930c5..89b012e 100644
--- a/runtimepy/subprocess/peer.py
+++ b/runtimepy/subprocess/peer.py
@@ -241,6 +241,14 @@ class RuntimepyPeer(RuntimepyPeerInterface):
 
         keep_going = False
 
+        # Handle messages from stdout (telemetry can't be parsed until the
+        # message containing the peer's environment is handled).
+        if self.protocol.stdout_queue is not None:
+            keep_going = True
+            queue = self.protocol.stdout
+            while not queue.empty():
+                await self.handle_stdout(queue.get_nowait())
+
         # Forward stderr.
         if self.protocol.stderr_queue is not None:
             keep_going = True
@@ -248,11 +256,4 @@ class RuntimepyPeer(RuntimepyPeerInterface):
             while not queue.empty():
                 self.handle_stderr(queue.get_nowait())
 
-        # Handle messages from stdout.
-        if self.protocol.stdout_queue is not None:
-            keep_going = True
-            queue = self.protocol.stdout
-            while not queue.empty():
-                await self.handle_stdout(queue.get_nowait())
-
         return keep_going
-- 
2.43.0


From cbd717d971ba4cb80027823c06ac55598bdbe3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 054/138] fix: restarting connections were processed more than
 once at a time

---
 runtimepy/net/manager.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 6e4062c..18b9d04 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -75,7 +75,7 @@ class ConnectionManager(LoggerMixin):
         self._running = True
 
         stop_sig_task = _asyncio.create_task(stop_sig.wait())
-        tasks: list[_asyncio.Task[None]] = []
+        tasks: dict[_asyncio.Task[None], _Connection] = {}
         self._conns = []
         new_conn_task: _Optional[_asyncio.Task[_Connection]] = None
 
@@ -87,12 +87,13 @@ class ConnectionManager(LoggerMixin):
 
             # Wait for any task to complete.
             await _asyncio.wait(
-                [stop_sig_task, new_conn_task] + tasks,  # type: ignore
+                [stop_sig_task, new_conn_task, *tasks],
                 return_when=_asyncio.FIRST_COMPLETED,
             )
 
             # Filter completed tasks out of the working set.
-            next_tasks = _log_exceptions(tasks)
+            next_tasks = {x: tasks[x] for x in _log_exceptions(list(tasks))}
+            processing = {id(x) for x in next_tasks.values()}
 
             # Filter out disabled connections.
             enabled = []
@@ -100,11 +101,15 @@ class ConnectionManager(LoggerMixin):
                 if not conn.disabled:
                     enabled.append(conn)
 
-                # Check if this connection should be restarted.
+                # Check if this connection should be restarted (unless it's
+                # still being restarted or cleaned up).
                 elif conn.auto_restart:
-                    next_tasks.append(
-                        _asyncio.create_task(conn.process(stop_sig=stop_sig))
-                    )
+                    if id(conn) not in processing:
+                        next_tasks[
+                            _asyncio.create_task(
+                                conn.process(stop_sig=stop_sig)
+                            )
+                        ] = conn
                     enabled.append(conn)
 
             self._conns = enabled
@@ -120,11 +125,11 @@ class ConnectionManager(LoggerMixin):
                     new_conn.initialized.set()
                 else:
                     self._conns.append(new_conn)
-                    next_tasks.append(
+                    next_tasks[
                         _asyncio.create_task(
                             new_conn.process(stop_sig=stop_sig)
                         )
-                    )
+                    ] = new_conn
 
             tasks = next_tasks
 
-- 
2.43.0


From d407c1bfcddc3e72220d3bf437b136b3ab107e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 055/138] fix: a connection that failed to stop ended its
 manager

---
 runtimepy/net/manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 18b9d04..49d5b76 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -139,6 +139,9 @@ class ConnectionManager(LoggerMixin):
                 new_conn_task.cancel()
             if tasks:
                 with _suppress(_asyncio.TimeoutError):
-                    await _asyncio.wait_for(_asyncio.gather(*tasks), 1.0)
+                    await _asyncio.wait_for(
+                        _asyncio.gather(*tasks, return_exceptions=True), 1.0
+                    )
+                _log_exceptions(list(tasks))
 
         self._running = False
-- 
2.43.0


From cffa5a0328b7278d29f8c38780d66a181cdf6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 056/138] fix: connections didn't signal their exit if closing
 failed

---
 runtimepy/net/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 25d6b98..a4a2807 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -337,8 +337,10 @@ class Connection(
             # Ensure that tasks have their exceptions retrieved.
             _log_exceptions(self._tasks + [gather_task], self.logger)
 
-            await self.close()
-            self.exited.set()
+            try:
+                await self.close()
+            finally:
+                self.exited.set()
 
     async def _process_read(self) -> None:
         """Process incoming messages while this connection is active."""
-- 
2.43.0


From ab69867247d9f3c8d57fd64c89dd2b9450dca0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 057/138] fix: connections that can't be restarted were
 restarted continuously

---
 runtimepy/net/connection.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index a4a2807..fd123c2 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -255,7 +255,17 @@ class Connection(
             and (stop_sig is None or not stop_sig.is_set())
         ):
             await backoff.sleep()
-            if await self.restart():
+            restarted = False
+            try:
+                restarted = await self.restart()
+            except NotImplementedError:
+                # Don't attempt this again.
+                self._auto_restart.value = False
+                raise
+            except Exception:  # pylint: disable=broad-exception-caught
+                self.logger.exception("Restarting failed:")
+
+            if restarted:
                 self._set_enabled(True)
                 self._restarts.value += 1
 
-- 
2.43.0


From dea6e7dc1ca57f1a81eb27037ea117c29c2968f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:35 +0000
Subject: [PATCH 058/138] fix: an interrupted restart left initialization
 waiters waiting

---
 runtimepy/net/connection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index fd123c2..6dcb924 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -292,10 +292,14 @@ class Connection(
         Process tasks for this connection while the connection is active.
         """
 
-        await self._handle_restart(stop_sig=stop_sig, backoff=backoff)
+        try:
+            await self._handle_restart(stop_sig=stop_sig, backoff=backoff)
+        finally:
+            if self.disabled:
+                # Initialization won't occur.
+                self.initialized.set()
+
         if self.disabled:
-            # Initialization won't occur.
-            self.initialized.set()
             return
 
         self.initialized.clear()
-- 
2.43.0


From d70fb2587c1cdd8272f1ea1a915ad2f5580cc381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:35 +0000
Subject: [PATCH 059/138] fix: cancelling a connection while it ends skipped
 closing it

---
 runtimepy/net/connection.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 6dcb924..160cb36 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -346,15 +346,16 @@ class Connection(
         finally:
             # Tasks may still be running if this task was cancelled.
             self.disable("processing ended")
-            await _asyncio.wait(self._tasks)
-
-            # Ensure that tasks have their exceptions retrieved.
-            _log_exceptions(self._tasks + [gather_task], self.logger)
-
             try:
-                await self.close()
+                await _asyncio.wait(self._tasks)
+
+                # Ensure that tasks have their exceptions retrieved.
+                _log_exceptions(self._tasks + [gather_task], self.logger)
             finally:
-                self.exited.set()
+                try:
+                    await self.close()
+                finally:
+                    self.exited.set()
 
     async def _process_read(self) -> None:
         """Process incoming messages while this connection is active."""
-- 
2.43.0


From ead75e01d9d6db9b757718083b43a971b33669ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 060/138] fix: connections being restarted were no longer
 listed by their manager

---
 runtimepy/net/manager.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 49d5b76..6ddc0bb 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -95,21 +95,18 @@ class ConnectionManager(LoggerMixin):
             next_tasks = {x: tasks[x] for x in _log_exceptions(list(tasks))}
             processing = {id(x) for x in next_tasks.values()}
 
-            # Filter out disabled connections.
+            # Filter out disabled connections (unless they're still being
+            # restarted or cleaned up).
             enabled = []
             for conn in self._conns:
-                if not conn.disabled:
+                if not conn.disabled or id(conn) in processing:
                     enabled.append(conn)
 
-                # Check if this connection should be restarted (unless it's
-                # still being restarted or cleaned up).
+                # Check if this connection should be restarted.
                 elif conn.auto_restart:
-                    if id(conn) not in processing:
-                        next_tasks[
-                            _asyncio.create_task(
-                                conn.process(stop_sig=stop_sig)
-                            )
-                        ] = conn
+                    next_tasks[
+                        _asyncio.create_task(conn.process(stop_sig=stop_sig))
+                    ] = conn
                     enabled.append(conn)
 
             self._conns = enabled
-- 
2.43.0


From 72805ae32e8c51085f0abedcb226195283464fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 061/138] fix: the last block of a TFTP read wasn't
 acknowledged

---
 runtimepy/net/udp/tftp/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/__init__.py b/runtimepy/net/udp/tftp/__init__.py
index dbf4cba..6344ecb 100644
--- a/runtimepy/net/udp/tftp/__init__.py
+++ b/runtimepy/net/udp/tftp/__init__.py
@@ -86,12 +86,13 @@ class TftpConnection(BaseTftpConnection):
                 path_fd.write(data)
                 del endpoint.blocks[idx]
 
+                # This block can be acknowledged now.
+                idx += 1
+
                 # Compute if this is the end of the stream.
                 nonlocal end_of_data
                 end_of_data = len(data) < endpoint.max_block_size
-                if not end_of_data:
-                    idx += 1
-                else:
+                if end_of_data:
                     fsync(path_fd.fileno())
 
             write_block()
-- 
2.43.0


From a7b31d65288eee0a4d1c695808cae7915682db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 062/138] fix: writing an empty file via TFTP failed

---
 runtimepy/net/udp/tftp/endpoint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index ef7c936..99e1966 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -161,8 +161,7 @@ class TftpEndpoint(LoggerMixin):
 
         keep_going = True
         idx = 1
-        curr_size = 0
-        written = 0
+        success = False
         while keep_going:
             # Set up event trigger for expected data payload.
             event = asyncio.Event()
@@ -190,11 +189,11 @@ class TftpEndpoint(LoggerMixin):
                 assert curr_size <= self.max_block_size, curr_size
 
                 stream.write(data)
-                written += curr_size
 
                 # We only expect future iterations if data payloads are
                 # saturated.
                 keep_going = curr_size >= self.max_block_size
+                success = not keep_going
 
             # Ensure state is cleaned up.
             self.blocks.pop(idx, None)
@@ -204,7 +203,6 @@ class TftpEndpoint(LoggerMixin):
                 idx += 1
 
         # Send the final acknowledgement for a bit ("dally" per rfc).
-        success = written > 0 and curr_size < self.max_block_size
         if success:
             await repeat_until(
                 self._ack_sender(idx),
-- 
2.43.0


From 45a86369877c69e6d0e4ae3fb2af4db955842d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 063/138] fix: failed or repeated TFTP write requests truncated
 files

---
 runtimepy/net/udp/tftp/endpoint.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 99e1966..5db9041 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -5,6 +5,7 @@ A module implementing an interface for individual tftp endpoints.
 # built-in
 import asyncio
 from contextlib import AsyncExitStack, suppress
+from io import BytesIO
 import logging
 from pathlib import Path
 from typing import BinaryIO, Callable, Optional, Union
@@ -221,12 +222,16 @@ class TftpEndpoint(LoggerMixin):
             stack.enter_context(suppress(asyncio.CancelledError))
             await stack.enter_async_context(self.lock)
 
-            path_fd = stack.enter_context(path.open("wb"))
+            # Don't modify a file until all of its data is received.
+            buffer = stack.enter_context(BytesIO())
 
             with self.log_time(
                 "Ingesting (%s) '%s'", mode, path, reminder=True
             ):
-                success = await self.ingest_file(path_fd)
+                success = await self.ingest_file(buffer)
+
+            if success:
+                path.write_bytes(buffer.getvalue())
 
             self.logger.info(
                 "%s to write (%s) '%s' from %s:%d.",
@@ -245,7 +250,7 @@ class TftpEndpoint(LoggerMixin):
         path = self.get_path(filename)
 
         # Ensure we can service this request.
-        if not self._check_permission(path, "wb"):
+        if not self._check_permission(path, "ab"):
             return None
 
         return asyncio.create_task(self._process_write_request(path, mode))
-- 
2.43.0


From ace565c7bffdf802ce3293851d6cf0a9caf0a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 064/138] fix: re-transmitted TFTP requests were serviced again

---
 runtimepy/net/udp/tftp/endpoint.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 5db9041..6c4ec4d 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -8,7 +8,7 @@ from contextlib import AsyncExitStack, suppress
 from io import BytesIO
 import logging
 from pathlib import Path
-from typing import BinaryIO, Callable, Optional, Union
+from typing import BinaryIO, Callable, Coroutine, Optional, Union
 
 # third-party
 from vcorelib.asyncio.poll import repeat_until
@@ -71,6 +71,9 @@ class TftpEndpoint(LoggerMixin):
         # Can be upgraded via RFC 2347.
         self.max_block_size = TFTP_MAX_BLOCK
 
+        # Requests that are currently being serviced.
+        self._requests: set[tuple[str, Path]] = set()
+
         # Runtime settings.
         self.period = period
         self.timeout = timeout
@@ -242,6 +245,23 @@ class TftpEndpoint(LoggerMixin):
                 self.addr[1],
             )
 
+    def _service(
+        self,
+        request: tuple[str, Path],
+        task: Callable[[], Coroutine[None, None, None]],
+    ) -> Optional[asyncio.Task[None]]:
+        """
+        Create a task servicing a request, unless it's a re-transmission.
+        """
+
+        if request in self._requests:
+            return None
+
+        self._requests.add(request)
+        result = asyncio.create_task(task())
+        result.add_done_callback(lambda _: self._requests.discard(request))
+        return result
+
     def handle_write_request(
         self, filename: str, mode: str
     ) -> Optional[asyncio.Task[None]]:
@@ -253,7 +273,9 @@ class TftpEndpoint(LoggerMixin):
         if not self._check_permission(path, "ab"):
             return None
 
-        return asyncio.create_task(self._process_write_request(path, mode))
+        return self._service(
+            ("write", path), lambda: self._process_write_request(path, mode)
+        )
 
     async def serve_file(self, path: Path) -> bool:
         """Serve file chunks via this endpoint."""
@@ -326,7 +348,9 @@ class TftpEndpoint(LoggerMixin):
         ):
             return None
 
-        return asyncio.create_task(self._process_read_request(path, mode))
+        return self._service(
+            ("read", path), lambda: self._process_read_request(path, mode)
+        )
 
     def _check_permission(self, path: Path, mode: str) -> bool:
         """
-- 
2.43.0


From b4738a5358ac6003152910653b2bebd43faa9fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 065/138] fix: TFTP requests can't access files outside of the
 root path

---
 runtimepy/net/udp/tftp/endpoint.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 6c4ec4d..c7b68a9 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -270,7 +270,9 @@ class TftpEndpoint(LoggerMixin):
         path = self.get_path(filename)
 
         # Ensure we can service this request.
-        if not self._check_permission(path, "ab"):
+        if not self._check_root(path) or not self._check_permission(
+            path, "ab"
+        ):
             return None
 
         return self._service(
@@ -343,8 +345,10 @@ class TftpEndpoint(LoggerMixin):
         path = self.get_path(filename)
 
         # Ensure we can service this request.
-        if not self._check_exists(path) or not self._check_permission(
-            path, "rb"
+        if (
+            not self._check_root(path)
+            or not self._check_exists(path)
+            or not self._check_permission(path, "rb")
         ):
             return None
 
@@ -352,6 +356,22 @@ class TftpEndpoint(LoggerMixin):
             ("read", path), lambda: self._process_read_request(path, mode)
         )
 
+    def _check_root(self, path: Path) -> bool:
+        """
+        Check if a path is inside of the root path, send an error if not.
+        """
+
+        result = path.resolve().is_relative_to(self._path.resolve())
+
+        if not result:
+            self.error_sender(
+                TftpErrorCode.ACCESS_VIOLATION,
+                f"Path '{path}' isn't allowed",
+                self.addr,
+            )
+
+        return result
+
     def _check_permission(self, path: Path, mode: str) -> bool:
         """
         Check if a path can be opened in the provided mode, send an error if
-- 
2.43.0


From c03db711ef1da41cadfb142bc7fe71d5dfcc621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 066/138] fix: TFTP requests for paths that can't be opened
 ended the connection

---
 runtimepy/net/udp/tftp/endpoint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index c7b68a9..7103e58 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -384,7 +384,7 @@ class TftpEndpoint(LoggerMixin):
             with path.open(mode):
                 pass
             result = True
-        except PermissionError:
+        except OSError:
             self.error_sender(
                 TftpErrorCode.ACCESS_VIOLATION,
                 f"Can't open={mode} '{path}'",
@@ -396,7 +396,9 @@ class TftpEndpoint(LoggerMixin):
     def _check_exists(self, path: Path) -> bool:
         """Check if a file exists, send an error if not."""
 
-        result = path.is_file()
+        result = False
+        with suppress(OSError):
+            result = path.is_file()
 
         if not result:
             self.error_sender(
-- 
2.43.0


From 3b6377d026fe30587ee652daed7e741019508ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 067/138] fix: malformed TFTP messages ended the connection

---
 runtimepy/net/udp/tftp/base.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 386f73a..e94ee61 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -8,6 +8,7 @@ from contextlib import AsyncExitStack
 from io import BytesIO
 import logging
 from pathlib import Path
+from struct import error as StructError
 from typing import BinaryIO, Callable
 
 # third-party
@@ -358,13 +359,25 @@ class BaseTftpConnection(UdpConnection):
         """Process a datagram."""
 
         with BytesIO(data) as stream:
-            self.opcode.from_stream(stream)
-            code: int = self.opcode.value
-            if code in self.handlers:
-                await self.handlers[code](stream, addr)
-            else:
-                msg = f"Unknown opcode {code}"
-                self.send_error(TftpErrorCode.ILLEGAL_OPERATION, msg)
-                self.logger.error("%s from %s:%d.", msg, addr[0], addr[1])
+            # A malformed message shouldn't end this connection.
+            try:
+                self.opcode.from_stream(stream)
+                code: int = self.opcode.value
+                if code in self.handlers:
+                    await self.handlers[code](stream, addr)
+                else:
+                    msg = f"Unknown opcode {code}"
+                    self.send_error(
+                        TftpErrorCode.ILLEGAL_OPERATION, msg, addr=addr
+                    )
+                    self.logger.error("%s from %s:%d.", msg, addr[0], addr[1])
+            except (IndexError, ValueError, StructError):
+                self.governed_log(
+                    self.endpoint(addr).log_limiter,
+                    "Malformed message from %s:%d.",
+                    addr[0],
+                    addr[1],
+                    level=logging.ERROR,
+                )
 
         return True
-- 
2.43.0


From aa5706095b635cf037c0e29df96beab5f5f8c3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 068/138] fix: concurrent TFTP transfers with servers on one
 host were mixed up

---
 runtimepy/net/udp/tftp/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index e94ee61..5a52d2c 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -306,7 +306,11 @@ class BaseTftpConnection(UdpConnection):
 
         # Check if we're currently waiting for an initial block.
         hostname = endpoint.addr.hostname
-        if block == 1 and hostname in self._awaiting_first_block:
+        if (
+            block == 1
+            and block not in endpoint.awaiting_blocks
+            and hostname in self._awaiting_first_block
+        ):
             to_update = self._awaiting_first_block[hostname]
             del self._awaiting_first_block[hostname]
             self._endpoints[endpoint.addr] = to_update
@@ -326,7 +330,11 @@ class BaseTftpConnection(UdpConnection):
         # will come from the same host but a different port, so update
         # references when this is detected.
         hostname = endpoint.addr.hostname
-        if block == 0 and hostname in self._awaiting_first_ack:
+        if (
+            block == 0
+            and block not in endpoint.awaiting_acks
+            and hostname in self._awaiting_first_ack
+        ):
             to_update = self._awaiting_first_ack[hostname]
             del self._awaiting_first_ack[hostname]
             self._endpoints[endpoint.addr] = to_update
-- 
2.43.0


From 822ed518355ecc3604603e7880252bd2d6d4343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:26 +0000
Subject: [PATCH 069/138] fix: written TFTP files weren't complete before their
 last block was acknowledged

---
 runtimepy/net/udp/tftp/endpoint.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 7103e58..850a190 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -160,8 +160,13 @@ class TftpEndpoint(LoggerMixin):
             level=logging.ERROR,
         )
 
-    async def ingest_file(self, stream: BinaryIO) -> bool:
-        """Ingest incoming file data and write to a stream."""
+    async def ingest_file(
+        self, stream: BinaryIO, complete: Callable[[], object] = None
+    ) -> bool:
+        """
+        Ingest incoming file data and write to a stream. A 'complete' method
+        is called before the last block gets acknowledged.
+        """
 
         keep_going = True
         idx = 1
@@ -208,6 +213,9 @@ class TftpEndpoint(LoggerMixin):
 
         # Send the final acknowledgement for a bit ("dally" per rfc).
         if success:
+            if complete is not None:
+                complete()
+
             await repeat_until(
                 self._ack_sender(idx),
                 asyncio.Event(),
@@ -231,10 +239,9 @@ class TftpEndpoint(LoggerMixin):
             with self.log_time(
                 "Ingesting (%s) '%s'", mode, path, reminder=True
             ):
-                success = await self.ingest_file(buffer)
-
-            if success:
-                path.write_bytes(buffer.getvalue())
+                success = await self.ingest_file(
+                    buffer, lambda: path.write_bytes(buffer.getvalue())
+                )
 
             self.logger.info(
                 "%s to write (%s) '%s' from %s:%d.",
-- 
2.43.0


From 5f1460a73d48970c583b29b09a7fe70e6ba1810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:26 +0000
Subject: [PATCH 070/138] fix: duplicated first TFTP blocks were mistaken for
 another server's

---
 runtimepy/net/udp/tftp/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 5a52d2c..5c9a1b5 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -301,14 +301,16 @@ class BaseTftpConnection(UdpConnection):
     ) -> None:
         """Handle a data message."""
 
+        known = normalize_host(*addr) in self._endpoints
         endpoint = self.endpoint(addr)
         block = self._read_block_number(stream)
 
-        # Check if we're currently waiting for an initial block.
+        # Check if we're currently waiting for an initial block (known servers
+        # only send blocks that belong to their own transfers).
         hostname = endpoint.addr.hostname
         if (
             block == 1
-            and block not in endpoint.awaiting_blocks
+            and not known
             and hostname in self._awaiting_first_block
         ):
             to_update = self._awaiting_first_block[hostname]
@@ -323,6 +325,7 @@ class BaseTftpConnection(UdpConnection):
     ) -> None:
         """Handle an acknowledge message."""
 
+        known = normalize_host(*addr) in self._endpoints
         endpoint = self.endpoint(addr)
         block = self._read_block_number(stream)
 
@@ -332,7 +335,7 @@ class BaseTftpConnection(UdpConnection):
         hostname = endpoint.addr.hostname
         if (
             block == 0
-            and block not in endpoint.awaiting_acks
+            and not known
             and hostname in self._awaiting_first_ack
         ):
             to_update = self._awaiting_first_ack[hostname]
-- 
2.43.0


From 5a93d638f0fd3de5084dc4bf3b4ba74f7acb306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 071/138] fix: application runs ended before connections and
 servers were shut down

---
 runtimepy/net/arbiter/base.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index ef84b3e..bea86e9 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -47,6 +47,8 @@ from runtimepy.net.server import RuntimepyServerConnection
 from runtimepy.subprocess.peer import RuntimepyPeer as _RuntimepyPeer
 from runtimepy.tui.mixin import CursesWindow, TuiMixin
 
+SHUTDOWN_TIMEOUT_S = 2.0
+
 ServerTask = _Awaitable[None]
 RuntimeProcessTask = tuple[
     type[_RuntimepyPeer], str, _JsonObject, str, Optional[str]
@@ -442,20 +444,28 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         # Create task for connection manager.
         conns = _asyncio.create_task(self.manager.manage(self.stop_sig))
 
-        # Run application.
-        result = await self._entry(
-            app=app, check_connections=check_connections, config=config
-        )
+        try:
+            # Run application.
+            result = await self._entry(
+                app=app, check_connections=check_connections, config=config
+            )
+        finally:
+            # Allow connections and servers to shut down.
+            await _asyncio.wait(
+                self._servers + [conns], timeout=SHUTDOWN_TIMEOUT_S
+            )
 
-        # Shutdown any pending tasks.
-        pending = log_exceptions(self._servers + [conns], logger=self.logger)
-        if pending:
-            for task in pending:
-                task.cancel()
-                with _suppress(KeyboardInterrupt, _asyncio.CancelledError):
-                    await task
+            # Shutdown any pending tasks.
+            pending = log_exceptions(
+                self._servers + [conns], logger=self.logger
+            )
+            if pending:
+                for task in pending:
+                    task.cancel()
+                    with _suppress(KeyboardInterrupt, _asyncio.CancelledError):
+                        await task
 
-            assert not log_exceptions(pending, logger=self.logger)
+                assert not log_exceptions(pending, logger=self.logger)
 
         return int(result)
 
-- 
2.43.0


From 94849e5e0ea71497a89909ef436fef8413938b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:03 +0000
Subject: [PATCH 072/138] fix: results of applications running in parallel were
 mixed up

---
 runtimepy/net/arbiter/base.py | 89 ++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 33 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index bea86e9..f497a46 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -384,52 +384,75 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
         return result
 
-    async def _run_apps(
-        self, apps: list[NetworkApplication], info: AppInfo
-    ) -> int:
-        """Run application methods in parallel."""
-
-        pairs = [(app, info.with_new_logger(app.__name__)) for app in apps]
-
-        # Pre-populate stage results with "not run" placeholders.
-        stage_results = [AppResult(app.__name__) for app in apps]
+    async def _run_app(
+        self, app: NetworkApplication, info: AppInfo
+    ) -> AppResult:
+        """Run an application method."""
 
-        for _, inf in pairs:
-            inf.logger.debug("Starting.")
+        info.logger.debug("Starting.")
 
-        total = 0
         try:
             with TIMER.measure_ns() as token:
-                results = await _asyncio.gather(
-                    *(app(inf) for app, inf in pairs)
-                )
+                code = int(await app(info))
+        except Exception as exc:  # pylint: disable=broad-exception-caught
+            return AppResult(
+                app.__name__, ResultState.EXCEPTION, exception=exc
+            )
+
+        info.logger.debug("Returned %d.", code)
+
+        return AppResult(
+            app.__name__,
+            ResultState.from_int(code),
+            code,
+            duration_ns=TIMER.result(token),
+        )
 
-            duration_ns = TIMER.result(token)
+    async def _run_apps(
+        self, apps: list[NetworkApplication], info: AppInfo
+    ) -> int:
+        """Run application methods in parallel."""
 
-            for idx, result in enumerate(results):
-                pairs[idx][1].logger.debug("Returned %d.", result)
-                total += result
+        tasks = [
+            _asyncio.create_task(
+                self._run_app(app, info.with_new_logger(app.__name__))
+            )
+            for app in apps
+        ]
 
-                # Capture a normal result.
-                stage_results[idx] = AppResult(
-                    apps[idx].__name__,
-                    ResultState.from_int(result),
-                    result,
-                    duration_ns=duration_ns,
+        pending = set(tasks)
+        try:
+            while pending:
+                done, pending = await _asyncio.wait(
+                    pending, return_when=_asyncio.FIRST_COMPLETED
                 )
 
-        # Keep track of stages that raise an exception.
-        except Exception as exc:  # pylint: disable=broad-exception-caught
-            stage_results = [
-                AppResult(app.__name__, ResultState.EXCEPTION, exception=exc)
-                for app in apps
-            ]
-            total = -1
+                # An application that raises an exception ends the stage.
+                if any(
+                    x.cancelled() or x.result().state is ResultState.EXCEPTION
+                    for x in done
+                ):
+                    break
+        finally:
+            for task in pending:
+                task.cancel()
+            if pending:
+                await _asyncio.wait(pending, timeout=SHUTDOWN_TIMEOUT_S)
 
         # Keep track of this stage's results.
+        stage_results = [
+            (
+                task.result()
+                if task.done() and not task.cancelled()
+                else AppResult(app.__name__, ResultState.EXCEPTION)
+            )
+            for app, task in zip(apps, tasks)
+        ]
         info.results.append(stage_results)
 
-        return total
+        # Results that aren't zero shouldn't cancel each other out.
+        codes = [-1 if x.code is None else x.code for x in stage_results]
+        return sum(codes) or next((x for x in codes if x != 0), 0)
 
     async def app(
         self,
-- 
2.43.0


From fcaa90bedc6800128ccb82dd6f9192193fbe412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 073/138] fix: applications waited forever for servers that
 can't start

---
 runtimepy/net/arbiter/base.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index f497a46..87e6316 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -230,6 +230,26 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
             for struct in self._structs.values():
                 struct.env.finalize(strict=False)
 
+    async def _wait_servers(self) -> None:
+        """Wait for servers to start, raises an exception if one doesn't."""
+
+        started = [
+            _asyncio.create_task(self._servers_started.acquire())
+            for _ in self._servers
+        ]
+
+        try:
+            pending = {*started, *self._servers}
+            while not all(x.done() for x in started):
+                done, pending = await _asyncio.wait(
+                    pending, return_when=_asyncio.FIRST_COMPLETED
+                )
+                for task in done:
+                    task.result()
+        finally:
+            for task in started:
+                task.cancel()
+
     async def _start_processes(self, stack: _AsyncExitStack) -> None:
         """Start processes."""
 
@@ -262,8 +282,7 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         clear_env()
 
         # Wait for servers to start.
-        for _ in range(len(self._servers)):
-            await self._servers_started.acquire()
+        await self._wait_servers()
 
         # Start processes.
         await self._start_processes(stack)
-- 
2.43.0


From 35af7070e67ca78aede565ec659cba582d769c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:21 +0000
Subject: [PATCH 074/138] fix: the stop signal was ignored until all
 connections were initialized

---
 runtimepy/net/arbiter/base.py | 45 ++++++++++++++++++++++++++++++-----
 runtimepy/net/manager.py      | 10 ++++++++
 2 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index 87e6316..d149ed7 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -208,18 +208,47 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
     async def _init_connections(self) -> None:
         """Initialize network connections."""
 
+        async def register(
+            name: str, connection: _Awaitable[_Connection]
+        ) -> None:
+            """Register a deferred connection."""
+            self._register_connection(await connection, name)
+
         # Start deferred connections.
-        for key, value in zip(
-            self._deferred_connections,
-            await _asyncio.gather(*self._deferred_connections.values()),
-        ):
-            self._register_connection(value, key)
+        await _asyncio.gather(
+            *(register(*x) for x in self._deferred_connections.items())
+        )
 
         # Ensure connections are all initialized.
         await _asyncio.gather(
             *(x.initialized.wait() for x in self._connections.values())
         )
 
+    async def _try_init_connections(self) -> bool:
+        """
+        Initialize network connections, returns false if the stop signal was
+        set before all of them are initialized.
+        """
+
+        # Nothing to wait for.
+        if not self._connections and not self._deferred_connections:
+            return True
+
+        init = _asyncio.create_task(self._init_connections())
+        stop = _asyncio.create_task(self.stop_sig.wait())
+
+        try:
+            await _asyncio.wait(
+                [init, stop], return_when=_asyncio.FIRST_COMPLETED
+            )
+            if init.done():
+                init.result()
+            return init.done()
+        finally:
+            for task in [init, stop]:
+                task.cancel()
+            await _asyncio.wait([init, stop])
+
     async def _build_structs(self, info: AppInfo) -> None:
         """Build structs."""
 
@@ -288,7 +317,8 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         await self._start_processes(stack)
 
         with self.log_time("Connection initialization", reminder=True):
-            await self._init_connections()
+            if not await self._try_init_connections():
+                return result, info
 
         # Register environments.
         self._register_envs()
@@ -497,6 +527,9 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
                 self._servers + [conns], timeout=SHUTDOWN_TIMEOUT_S
             )
 
+            # Close connections that were registered in the meantime.
+            await self.manager.manage(self.stop_sig)
+
             # Shutdown any pending tasks.
             pending = log_exceptions(
                 self._servers + [conns], logger=self.logger
diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 6ddc0bb..77d1b06 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -133,7 +133,17 @@ class ConnectionManager(LoggerMixin):
         with self.log_time("Shutting down", reminder=True):
             # Allow existing tasks to clean up.
             if new_conn_task is not None:
+                if new_conn_task.done():
+                    self.queue.put_nowait(new_conn_task.result())
                 new_conn_task.cancel()
+
+            # Connections that weren't processed yet need to be closed.
+            while not self.queue.empty():
+                new_conn = self.queue.get_nowait()
+                tasks[
+                    _asyncio.create_task(new_conn.process(stop_sig=stop_sig))
+                ] = new_conn
+
             if tasks:
                 with _suppress(_asyncio.TimeoutError):
                     await _asyncio.wait_for(
-- 
2.43.0


From 30a6cebebf03e797c88d363639b1aa271d7c8514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 075/138] fix: periodic tasks disabled during an iteration kept
 running

---
 runtimepy/task/basic/periodic.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 11d4848..b4c8dca 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -164,14 +164,16 @@ class PeriodicTask(
                     iter_time,
                     self.period_s.value,
                 ):
-                    self._enabled.raw.value = await _asyncio.shield(
-                        self.dispatch()
-                    )
+                    result = await _asyncio.shield(self.dispatch())
+
+                # This task may have been disabled in the meantime.
+                if not result:
+                    self.disable()
 
             # Check this synchronously. This may not be suitable for tasks
             # with long periods.
-            if stop_sig is not None:
-                self._enabled.raw.value = not stop_sig.is_set()
+            if stop_sig is not None and stop_sig.is_set():
+                self.disable()
 
             if self._enabled:
                 try:
-- 
2.43.0


From 72945ba15f20b2b3655f59b7a7be3897ac2b2d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 076/138] fix: periodic tasks couldn't be started again after a
 failed iteration

---
 runtimepy/task/basic/periodic.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index b4c8dca..2e25cd4 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -153,6 +153,16 @@ class PeriodicTask(
             "Task starting at %s.", _rate_str(self.period_s.value)
         )
 
+        try:
+            await self._run(stop_sig=stop_sig)
+        finally:
+            self.disable()
+
+        self.logger.debug("Task completed.")
+
+    async def _run(self, stop_sig: _asyncio.Event = None) -> None:
+        """Run iterations while this task is enabled."""
+
         iter_time = _Double()
 
         while self._enabled:
@@ -186,8 +196,6 @@ class PeriodicTask(
                     self.logger.debug("Task was cancelled.")
                     self.disable()
 
-        self.logger.debug("Task completed.")
-
     async def stop_extra(self) -> None:
         """Extra actions to perform when this task is stopping."""
 
-- 
2.43.0


From 64e634132ac76a062a3f4783bc6908af2eb1e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 077/138] fix: stopping a periodic task left its iteration
 running

---
 runtimepy/task/basic/periodic.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 2e25cd4..d47057d 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -13,6 +13,7 @@ from logging import getLogger as _getLogger
 from typing import Optional as _Optional
 
 # third-party
+from vcorelib.asyncio import log_exceptions as _log_exceptions
 from vcorelib.io.markdown import MarkdownMixin
 from vcorelib.io.types import JsonObject as _JsonObject
 from vcorelib.math import DEFAULT_DEPTH as _DEFAULT_DEPTH
@@ -35,6 +36,10 @@ from runtimepy.primitives import Float as _Float
 from runtimepy.ui.controls import Controlslike
 
 
+# How long to wait for an iteration to complete when stopping.
+STOP_TIMEOUT_S = 1.0
+
+
 class PeriodicTask(
     LoggerMixinLevelControl, ChannelEnvironmentMixin, MarkdownMixin, _ABC
 ):
@@ -160,6 +165,26 @@ class PeriodicTask(
 
         self.logger.debug("Task completed.")
 
+    async def _dispatch(self) -> bool:
+        """Run an iteration, handles this task getting cancelled."""
+
+        task = _asyncio.create_task(self.dispatch())
+
+        try:
+            return await _asyncio.shield(task)
+        except _asyncio.CancelledError:
+            self.logger.debug("Task was cancelled.")
+
+            # Allow the iteration to complete.
+            await _asyncio.wait([task], timeout=STOP_TIMEOUT_S)
+            if not task.done():
+                task.cancel()
+                await _asyncio.wait([task], timeout=STOP_TIMEOUT_S)
+
+            _log_exceptions([task], logger=self.logger)
+
+        return False
+
     async def _run(self, stop_sig: _asyncio.Event = None) -> None:
         """Run iterations while this task is enabled."""
 
@@ -174,7 +199,7 @@ class PeriodicTask(
                     iter_time,
                     self.period_s.value,
                 ):
-                    result = await _asyncio.shield(self.dispatch())
+                    result = await self._dispatch()
 
                 # This task may have been disabled in the meantime.
                 if not result:
-- 
2.43.0


From 6b3eacc88cf48464c35ebf388c4dcb4ab6c892f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 078/138] fix: paused periodic tasks didn't wait if their last
 iteration was slow

---
 runtimepy/task/basic/periodic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index d47057d..fc2d8cf 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -192,6 +192,7 @@ class PeriodicTask(
 
         while self._enabled:
             # When paused, don't run the iteration itself.
+            iter_time.value = 0.0
             if not self.paused:
                 with self.metrics.measure(
                     self._dispatch_rate,
-- 
2.43.0


From b70b23569afc6c41939c97b77c4552b3e74f6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 079/138] fix: asynchronous tasks disabled during an iteration
 kept running

---
 runtimepy/task/asynchronous.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/runtimepy/task/asynchronous.py b/runtimepy/task/asynchronous.py
index 9844391..f5b0264 100644
--- a/runtimepy/task/asynchronous.py
+++ b/runtimepy/task/asynchronous.py
@@ -139,18 +139,16 @@ class AsyncTask(_LoggerMixin):
         self.enable()
 
         # Run this task's initialization.
-        self.enabled.raw.value &= await _asyncio.shield(
-            self.init(*args, **kwargs)
-        )
+        if not await _asyncio.shield(self.init(*args, **kwargs)):
+            self.disable()
 
         while self.enabled:
             # Keep track of the rate that this task is running at.
             start = eloop.time()
             self.rate_hz.raw.value = self.dispatch_rate(to_nanos(start))
 
-            self.enabled.raw.value &= await _asyncio.shield(
-                self.dispatch(*args, **kwargs)
-            )
+            if not await _asyncio.shield(self.dispatch(*args, **kwargs)):
+                self.disable()
             exec_time = eloop.time() - start
 
             # Update runtime metrics.
-- 
2.43.0


From 860036936dc82810ee7a43dc5524dcb9a4f93434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 080/138] fix: asynchronous tasks didn't reach more than 255
 iterations

---
 runtimepy/task/asynchronous.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/runtimepy/task/asynchronous.py b/runtimepy/task/asynchronous.py
index f5b0264..9583778 100644
--- a/runtimepy/task/asynchronous.py
+++ b/runtimepy/task/asynchronous.py
@@ -55,9 +55,7 @@ class AsyncTask(_LoggerMixin):
 
             with env.names_pushed(METRICS_NAME):
                 # Track the number of times this task has been dispatched.
-                self.dispatches = env.int_channel("dispatches", kind="uint8")[
-                    0
-                ]
+                self.dispatches = env.int_channel("dispatches")[0]
 
                 # Track metrics for how long this task takes to execute.
                 self.rate_hz = env.float_channel("rate_hz")
-- 
2.43.0


From 3899510ed026fe72dfdbf4992e181a5e7502c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:22 +0000
Subject: [PATCH 081/138] fix: cancelled application runs left tasks behind
 while shutting down

---
 runtimepy/net/arbiter/base.py | 39 +++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index d149ed7..b2cae3e 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -522,25 +522,28 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
                 app=app, check_connections=check_connections, config=config
             )
         finally:
-            # Allow connections and servers to shut down.
-            await _asyncio.wait(
-                self._servers + [conns], timeout=SHUTDOWN_TIMEOUT_S
-            )
-
-            # Close connections that were registered in the meantime.
-            await self.manager.manage(self.stop_sig)
-
-            # Shutdown any pending tasks.
-            pending = log_exceptions(
-                self._servers + [conns], logger=self.logger
-            )
-            if pending:
-                for task in pending:
-                    task.cancel()
-                    with _suppress(KeyboardInterrupt, _asyncio.CancelledError):
-                        await task
+            try:
+                # Allow connections and servers to shut down.
+                await _asyncio.wait(
+                    self._servers + [conns], timeout=SHUTDOWN_TIMEOUT_S
+                )
 
-                assert not log_exceptions(pending, logger=self.logger)
+                # Close connections that were registered in the meantime.
+                await self.manager.manage(self.stop_sig)
+            finally:
+                # Shutdown any pending tasks.
+                pending = log_exceptions(
+                    self._servers + [conns], logger=self.logger
+                )
+                if pending:
+                    for task in pending:
+                        task.cancel()
+                        with _suppress(
+                            KeyboardInterrupt, _asyncio.CancelledError
+                        ):
+                            await task
+
+                    assert not log_exceptions(pending, logger=self.logger)
 
         return int(result)
 
-- 
2.43.0


From 0789977574877441702874dce54e91025321bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 082/138] fix: packages to search first were searched last

---
 runtimepy/net/arbiter/config/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/arbiter/config/util.py b/runtimepy/net/arbiter/config/util.py
index 0c84173..b68cff6 100644
--- a/runtimepy/net/arbiter/config/util.py
+++ b/runtimepy/net/arbiter/config/util.py
@@ -16,9 +16,9 @@ def list_adder(dest: list[T], data: T, front: bool = True) -> None:
     """Handle adding to either the front or back of a list."""
 
     if front:
-        dest.append(data)
-    else:
         dest.insert(0, data)
+    else:
+        dest.append(data)
 
 
 def fix_kwargs(data: dict[str, _Any]) -> dict[str, _Any]:
-- 
2.43.0


From 1892bb5ca742fca3572c51ef293b58dc67d1cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 083/138] fix: waiting for the stop signal changed the loaded
 configuration data

---
 runtimepy/net/arbiter/imports/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/arbiter/imports/util.py b/runtimepy/net/arbiter/imports/util.py
index 1dffd9c..16b5d61 100644
--- a/runtimepy/net/arbiter/imports/util.py
+++ b/runtimepy/net/arbiter/imports/util.py
@@ -26,7 +26,7 @@ def get_apps(
         module_path = [module_path]
 
     if wait_for_stop:
-        module_path.append("runtimepy.net.apps.wait_for_stop")
+        module_path = [*module_path, "runtimepy.net.apps.wait_for_stop"]
 
     # Load all application methods.
     apps = []
-- 
2.43.0


From 3d2638bdf303df07132175cd524b2d1f183234b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 084/138] fix: directories of iterated configuration paths
 weren't added

---
 runtimepy/net/arbiter/config/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/net/arbiter/config/__init__.py b/runtimepy/net/arbiter/config/__init__.py
index b4e5c24..c462398 100644
--- a/runtimepy/net/arbiter/config/__init__.py
+++ b/runtimepy/net/arbiter/config/__init__.py
@@ -66,6 +66,7 @@ class ConfigConnectionArbiter(_ImportConnectionArbiter):
         """Load a client and server configuration to the arbiter."""
 
         loaded = set()
+        paths = list(paths)
 
         # Load and meld configuration data.
         config_data: _JsonObject = {}
-- 
2.43.0


From c0e80f0b5ca89992088513793947fb66a7aa77ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 085/138] fix: configuration objects with application data
 couldn't be processed

---
 runtimepy/net/arbiter/config/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/arbiter/config/__init__.py b/runtimepy/net/arbiter/config/__init__.py
index c462398..d8c0c65 100644
--- a/runtimepy/net/arbiter/config/__init__.py
+++ b/runtimepy/net/arbiter/config/__init__.py
@@ -237,7 +237,7 @@ class ConfigConnectionArbiter(_ImportConnectionArbiter):
 
         # Update application configuration data if necessary.
         if config.config is not None:
-            root = self._config["root"]
+            root = self._config.get("root", config.data)
             self._config = config.config
             assert "root" not in config.config, config.config
             config.config["root"] = root
-- 
2.43.0


From 3440d4f3d43a3006a7c3665deb149c334a47874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:45 +0000
Subject: [PATCH 086/138] fix: declared ports could share the same arbitrary
 port

---
 runtimepy/net/arbiter/config/codec.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/runtimepy/net/arbiter/config/codec.py b/runtimepy/net/arbiter/config/codec.py
index 28d72e2..fe47b7c 100644
--- a/runtimepy/net/arbiter/config/codec.py
+++ b/runtimepy/net/arbiter/config/codec.py
@@ -39,18 +39,23 @@ class ConnectionArbiterConfig(_RuntimepyDictCodec):
 
         # Process ports.
         self.ports: dict[str, int] = {}
+        found: set[tuple[str, int]] = set()
         for item in _cast(list[dict[str, _Any]], data.get("ports", [])):
-            port = get_free_socket_name(
-                local=normalize_host(
-                    item["host"],
-                    port_overrides.get(item["name"], item["port"]),
-                ),
-                kind=(
-                    _socket.SOCK_STREAM
-                    if item["type"] == "tcp"
-                    else _socket.SOCK_DGRAM
-                ),
-            ).port
+            requested = port_overrides.get(item["name"], item["port"])
+
+            # Don't use the same arbitrary port more than once.
+            port = 0
+            while port == 0 or (requested == 0 and (kind, port) in found):
+                kind = item["type"]
+                port = get_free_socket_name(
+                    local=normalize_host(item["host"], requested),
+                    kind=(
+                        _socket.SOCK_STREAM
+                        if kind == "tcp"
+                        else _socket.SOCK_DGRAM
+                    ),
+                ).port
+            found.add((kind, port))
 
             # Update the original structure.
             self.ports[item["name"]] = port
-- 
2.43.0


From c31f9594fbbc40c4c3770ace571de74be17bc7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:05 +0000
Subject: [PATCH 087/138] fix: framers lost data chained to a serializable

---
 runtimepy/net/arbiter/struct/__init__.py    | 8 +++++---
 runtimepy/primitives/serializable/framer.py | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/arbiter/struct/__init__.py b/runtimepy/net/arbiter/struct/__init__.py
index c6a2937..089da3f 100644
--- a/runtimepy/net/arbiter/struct/__init__.py
+++ b/runtimepy/net/arbiter/struct/__init__.py
@@ -63,14 +63,16 @@ class TimestampedStruct(RuntimeStruct):
             data[: self.timestamp.size], byte_order=self.array.byte_order
         )
 
-        # Update all array primitives and return timestamp.
-        self.array.update(data, timestamp_ns=timestamp_ns)
+        # Update all array primitives (and anything chained to the array) and
+        # return timestamp.
+        with BytesIO(data) as stream:
+            self.array.from_stream(stream, timestamp_ns=timestamp_ns)
         return timestamp_ns
 
     def process_datagram(self, data: bytes) -> Iterator[int]:
         """Process an array message."""
 
-        size = self.array.size
+        size = self.array.length()
 
         # Quick sanity check.
         data_len = len(data)
diff --git a/runtimepy/primitives/serializable/framer.py b/runtimepy/primitives/serializable/framer.py
index cf9b995..e121ef2 100644
--- a/runtimepy/primitives/serializable/framer.py
+++ b/runtimepy/primitives/serializable/framer.py
@@ -3,6 +3,7 @@ A module implementing a message framing interface for serializables.
 """
 
 # built-in
+from io import BytesIO
 from typing import Optional
 
 # third-party
@@ -63,7 +64,9 @@ class SerializableFramer:
         """
 
         if sample:
-            self.raw += bytes(self.instance)
+            with BytesIO() as stream:
+                self.instance.to_stream(stream)
+                self.raw += stream.getvalue()
             self.elements += 1
 
         result = None
-- 
2.43.0


From 9d5f9b0d877da071c49671ca83808293a98f1aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:24 +0000
Subject: [PATCH 088/138] fix: malformed datagrams ended struct telemetry
 receivers

---
 runtimepy/net/arbiter/struct/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtimepy/net/arbiter/struct/__init__.py b/runtimepy/net/arbiter/struct/__init__.py
index 089da3f..1cb0e61 100644
--- a/runtimepy/net/arbiter/struct/__init__.py
+++ b/runtimepy/net/arbiter/struct/__init__.py
@@ -198,6 +198,15 @@ class UdpStructTransceiver(UdpConnection, Generic[T]):
 
         # Should we handle the other branch?
         if self.struct_rx is not None:
+            # Anyone can send datagrams, ignore ones that can't be valid.
+            if len(data) % self.struct_rx.array.length():
+                self.logger.error(
+                    "Ignoring malformed %d-byte datagram from '%s:%d'.",
+                    len(data),
+                    *addr[:2],
+                )
+                return True
+
             for timestamp_ns in self.struct_rx.process_datagram(data):
                 self.handle_update(timestamp_ns, self.struct_rx, addr)
 
-- 
2.43.0


From e471ef0b5e25b330dc899e5c6d3467c556eed60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:24 +0000
Subject: [PATCH 089/138] fix: early output of subprocesses was lost

---
 runtimepy/subprocess/__init__.py | 14 ++++++--------
 runtimepy/subprocess/protocol.py | 11 +++++++++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/runtimepy/subprocess/__init__.py b/runtimepy/subprocess/__init__.py
index edc7f3d..eb50ba1 100644
--- a/runtimepy/subprocess/__init__.py
+++ b/runtimepy/subprocess/__init__.py
@@ -5,6 +5,7 @@ A module implementing a subprocess management interface.
 # built-in
 from asyncio import Queue, get_running_loop, wait_for
 from contextlib import asynccontextmanager, suppress
+from functools import partial
 from logging import getLogger
 from typing import AsyncIterator
 
@@ -101,15 +102,15 @@ async def spawn_exec(
     program, list_args = reconcile_platform(args[0], args[1:])
 
     _, protocol = await get_running_loop().subprocess_exec(
-        RuntimepySubprocessProtocol, program, *list_args, **kwargs
+        partial(RuntimepySubprocessProtocol, stdout, stderr),
+        program,
+        *list_args,
+        **kwargs,
     )
 
     rel = log_process_info(program, *list_args)
     logger.info("Started exec '%s %s' %d.", rel[0], rel[1], protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
@@ -129,14 +130,11 @@ async def spawn_shell(
     """Create a shell subprocess."""
 
     _, protocol = await get_running_loop().subprocess_shell(
-        RuntimepySubprocessProtocol, cmd, **kwargs
+        partial(RuntimepySubprocessProtocol, stdout, stderr), cmd, **kwargs
     )
 
     logger.info("Started shell '%s' %d.", cmd, protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index a1c2272..51f49d5 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -36,6 +36,15 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
 
     exited: Event
 
+    def __init__(
+        self, stdout: Queue[bytes] = None, stderr: Queue[bytes] = None
+    ) -> None:
+        """Initialize this instance."""
+
+        # Output can arrive before spawning a process returns.
+        self.stdout_queue = stdout
+        self.stderr_queue = stderr
+
     @property
     def stdout(self) -> Queue[bytes]:
         """Get this instance's standard output queue."""
@@ -59,8 +68,6 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
         self.start_time = metrics_time_ns()
         self.elapsed_time = -1
 
-        self.stdout_queue = None
-        self.stderr_queue = None
         self.exited = Event()
 
         self.transport = transport
-- 
2.43.0


From 4568d60f133d29c3a31ee134b371f1730a2187ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:53 +0000
Subject: [PATCH 090/138] fix: subprocess output without a queue raised

---
 runtimepy/subprocess/protocol.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index 51f49d5..ab8ae7b 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -85,11 +85,9 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
     def pipe_data_received(self, fd: int, data: bytes) -> None:
         """Handle incoming pipe data."""
 
-        if fd == 1 and self.stdout_queue is not None:
-            self.stdout_queue.put_nowait(data)
-        elif self.stderr_queue is not None:
-            assert fd == 2, fd
-            self.stderr_queue.put_nowait(data)
+        queue = self.stdout_queue if fd == 1 else self.stderr_queue
+        if queue is not None:
+            queue.put_nowait(data)
 
     def pipe_connection_lost(self, fd: int, exc) -> None:
         """Handle a pipe connection closing."""
-- 
2.43.0


From af9cf5bfed93d0a428c64fb4fe9be272553d5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:09 +0000
Subject: [PATCH 091/138] fix: peer programs outlived hosts that left early

---
 runtimepy/subprocess/program.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtimepy/subprocess/program.py b/runtimepy/subprocess/program.py
index 86fd710..ea5068b 100644
--- a/runtimepy/subprocess/program.py
+++ b/runtimepy/subprocess/program.py
@@ -180,7 +180,14 @@ class PeerProgram(RuntimepyPeerInterface, PsutilMixin):
 
         # Wait for environment exchange.
         peer.pre_environment_exchange()
-        await peer._peer_env_event.wait()
+        exchanged = asyncio.create_task(peer._peer_env_event.wait())
+        await asyncio.wait(
+            [exchanged, io_task], return_when=asyncio.FIRST_COMPLETED
+        )
+        if not peer._peer_env_event.is_set():
+            exchanged.cancel()
+            logger.removeHandler(peer.list_handler)
+            raise EOFError("Input ended before environments were exchanged!")
         peer.logger.info("Environments exchanged.")
 
         # Start main loop.
-- 
2.43.0


From dad5665765441763f591acf00a9b150c77fbf0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:39 +0000
Subject: [PATCH 092/138] fix: text on a peer's stderr ended all processing

---
 runtimepy/subprocess/interface.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/runtimepy/subprocess/interface.py b/runtimepy/subprocess/interface.py
index fe2bad7..b78b970 100644
--- a/runtimepy/subprocess/interface.py
+++ b/runtimepy/subprocess/interface.py
@@ -230,9 +230,22 @@ class RuntimepyPeerInterface(
 
             # Parse channel events.
             if self.peer is not None:
-                with BytesIO(data) as stream:
-                    for event in self.peer.env.parse_event_stream(stream):
-                        self.peer.env.ingest(event)
+                env = self.peer.env
+                try:
+                    with BytesIO(data) as stream:
+                        for event in env.parse_event_stream(stream):
+                            env.ingest(event)
+                except AssertionError:
+                    # Anything can be written to stderr. Start over with the
+                    # next data.
+                    fifo = env.channels.event_fifo
+                    fifo.pop(fifo.size)
+                    self.governed_log(
+                        self.log_limiter,
+                        "Not telemetry: %s.",
+                        data,
+                        level=logging.WARNING,
+                    )
             else:
                 self.governed_log(
                     self.log_limiter,
-- 
2.43.0


From 928c20082436bc4d20abb2d9af59800a3691f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:11 +0000
Subject: [PATCH 093/138] fix: peer programs that failed weren't cleaned up

---
 runtimepy/subprocess/program.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtimepy/subprocess/program.py b/runtimepy/subprocess/program.py
index ea5068b..68a38c9 100644
--- a/runtimepy/subprocess/program.py
+++ b/runtimepy/subprocess/program.py
@@ -202,9 +202,10 @@ class PeerProgram(RuntimepyPeerInterface, PsutilMixin):
                 yield io_task, main_task, peer
         finally:
             logger.removeHandler(peer.list_handler)
-            for cancel in (io_task, main_task, heartbeat):
-                cancel.cancel()
-                await cancel
+            tasks = (io_task, main_task, heartbeat)
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
             await peer.cleanup()
 
-- 
2.43.0


From 2502b5963ed700684da2ce0fadc306b9c21ebe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:06 +0000
Subject: [PATCH 094/138] fix: commands to a peer outlived its context

---
 runtimepy/subprocess/peer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtimepy/subprocess/peer.py b/runtimepy/subprocess/peer.py
index 89b012e..c512e0f 100644
--- a/runtimepy/subprocess/peer.py
+++ b/runtimepy/subprocess/peer.py
@@ -69,6 +69,11 @@ class RuntimepyPeer(RuntimepyPeerInterface):
             except asyncio.CancelledError:
                 keep_going = False
 
+        # Commands can't complete anymore.
+        if task is not None:
+            task.cancel()
+            await asyncio.gather(task, return_exceptions=True)
+
     @asynccontextmanager
     async def _context(self: T) -> AsyncIterator[T]:
         """A managed context for the peer."""
-- 
2.43.0


From 8c9f0f507942ae280f0957c44879c5ec59f53e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:19 +0000
Subject: [PATCH 095/138] fix: re-shown tabs kept stale channel values

Changes that hadn't been sent when a tab was hidden were discarded but
considered known to the client when it was shown again.
---
 runtimepy/net/server/app/env/tab/message.py | 9 +++------
 runtimepy/net/server/websocket/state.py     | 5 +++++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index 8d7813c..62db429 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -49,10 +49,9 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
         state.shown = shown
         env = self.command.env
 
-        # Always sample current values.
-        latest = env.values()
-
         if state.shown:
+            latest = env.values()
+
             # Send missing or changed values.
             if latest != state.latest_ui_values:
                 to_send = {}
@@ -64,6 +63,7 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
                         to_send[key] = value
 
                 send(to_send)  # type: ignore
+                state.latest_ui_values.update(latest)
 
             # Begin observing channel events for this environment.
             for name in env.names:
@@ -71,9 +71,6 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
         else:
             state.clear_telemetry()
 
-        # Save current UI state.
-        state.latest_ui_values.update(latest)
-
         outbox["handle_shown_state"] = shown
 
     def handle_init(self, state: TabState) -> None:
diff --git a/runtimepy/net/server/websocket/state.py b/runtimepy/net/server/websocket/state.py
index b5f4119..25c815b 100644
--- a/runtimepy/net/server/websocket/state.py
+++ b/runtimepy/net/server/websocket/state.py
@@ -49,6 +49,11 @@ class TabState:
         # Handle channel updates.
         if self.points:
             result["points"] = self.points
+
+            # Keep track of values the UI already has.
+            for name, points in self.points.items():
+                self.latest_ui_values[name] = points[-1][0]
+
             self.points = defaultdict(list)
 
         return result
-- 
2.43.0


From 8fbde1a07d53bb322805a899e8aadd9376144ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:19 +0000
Subject: [PATCH 096/138] fix: showing a tab twice duplicated its change events

---
 runtimepy/net/server/app/env/tab/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index 62db429..ee30a54 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -67,7 +67,8 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
 
             # Begin observing channel events for this environment.
             for name in env.names:
-                self._setup_callback(name, state)
+                if name not in state.callbacks:
+                    self._setup_callback(name, state)
         else:
             state.clear_telemetry()
 
-- 
2.43.0


From 2d03968af34798e0ad40871d170a1735f97acc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:19 +0000
Subject: [PATCH 097/138] fix: UI state stopped updating when its connection
 closed

Connections never removed their observer of 'num_connections', and with
several connections remaining none of them took over.
---
 runtimepy/net/server/struct/__init__.py    |  3 +++
 runtimepy/net/server/websocket/__init__.py | 23 ++++++----------------
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/runtimepy/net/server/struct/__init__.py b/runtimepy/net/server/struct/__init__.py
index 8783f51..781e05f 100644
--- a/runtimepy/net/server/struct/__init__.py
+++ b/runtimepy/net/server/struct/__init__.py
@@ -24,6 +24,9 @@ class UiState(RuntimeStruct, PsutilMixin):
 
     use_psutil: bool
 
+    # The connection that currently updates this struct.
+    poller: Optional[object] = None
+
     @staticmethod
     def singleton() -> Optional["UiState"]:
         """Attempt to get the singleton UI struct instance."""
diff --git a/runtimepy/net/server/websocket/__init__.py b/runtimepy/net/server/websocket/__init__.py
index 1feaa59..8af5c4a 100644
--- a/runtimepy/net/server/websocket/__init__.py
+++ b/runtimepy/net/server/websocket/__init__.py
@@ -27,7 +27,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
     tabs: dict[str, TabState]
 
     poll_governor: RateLimiter
-    poll_connection_metrics: bool
 
     _ui: Optional[UiState]
 
@@ -51,19 +50,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             ui = UiState.singleton()
 
             if ui is not None and ui.env.finalized:
-
-                def check_metrics_poll(_: int, curr: int) -> None:
-                    """
-                    Register change handler on 'num_connections' primitive.
-                    """
-
-                    self.poll_connection_metrics = (
-                        self.poll_connection_metrics or curr == 1
-                    )
-
-                chan, _ = ui.env["num_connections"]
-                chan.raw.register_callback(check_metrics_poll)  # type: ignore
-
                 # Add to num_connections.
                 ui.env.add_int("num_connections", 1)
                 self._ui = ui
@@ -74,7 +60,9 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
         """Update UI-specific state."""
 
         # Only one connection needs to perform this task.
-        if self.poll_connection_metrics and self.poll_governor():
+        if ui.poller is None:
+            ui.poller = self
+        if ui.poller is self and self.poll_governor():
             # Update time.
             ui.env["time_ms"] = time
             ui.env["frame_period_ms"] = time - self.ui_time
@@ -136,7 +124,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             to_nanos(1.0 / 250.0), source=metrics_time_ns
         )
 
-        self.poll_connection_metrics = False
         self._ui = None
 
     async def async_init(self) -> bool:
@@ -158,7 +145,9 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
         # Subtract from num_connections.
         ui = self._get_ui()
         if ui:
-            self.poll_connection_metrics = False
+            # Let another connection take over.
+            if ui.poller is self:
+                ui.poller = None
             ui.env.add_int("num_connections", -1)
 
 
-- 
2.43.0


From 80e5658653385dd6214cbd5d7479fc46dde54d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:19 +0000
Subject: [PATCH 098/138] fix: reset-to-default controls of scaled channels

The raw default was sent as a scaled value.
---
 runtimepy/net/server/app/env/tab/controls.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/server/app/env/tab/controls.py b/runtimepy/net/server/app/env/tab/controls.py
index e8f645e..bdd662e 100644
--- a/runtimepy/net/server/app/env/tab/controls.py
+++ b/runtimepy/net/server/app/env/tab/controls.py
@@ -45,12 +45,15 @@ def default_button(
 ) -> Element:
     """Create a default-value button."""
 
+    # Default values are raw values, commands use scaled ones.
+    default = chan.raw.scale(chan.default)  # type: ignore
+
     button = toggle_button(
         parent,
         id=name,
         icon="arrow-counterclockwise",
-        title=f"Reset '{name}' to default value '{chan.default}'.",
-        value=chan.default,
+        title=f"Reset '{name}' to default value '{default}'.",
+        value=default,
         front=front,
     )
     button.add_class("default-button", *classes)
-- 
2.43.0


From 5e836dddce4834b1aba51d03ab7f708ee447529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:19 +0000
Subject: [PATCH 099/138] fix: successful evaluations could be overwritten
 before they returned

---
 runtimepy/primitives/evaluation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index a7780bd..71e4fb3 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -72,11 +72,12 @@ async def evaluate(
     def change_callback(curr: T, new: T) -> None:
         """Handle underlying value changes to the provided primitive."""
 
-        # Always update the result when called.
+        # Update the result when called (until successful).
         nonlocal result
-        result = evaluator(curr, new)
-        if result:
-            event.set()
+        if not result:
+            result = evaluator(curr, new)
+            if result:
+                event.set()
 
     # Service the callback until resolved or this evaluation times out.
     with primitive.callback(change_callback):
-- 
2.43.0


From 9d760462ecd1919595f37973f2fcd8dd10e71040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:19 +0000
Subject: [PATCH 100/138] fix: sampling timeouts cancelled the consumer of
 samples

---
 runtimepy/primitives/evaluation.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index 71e4fb3..6179be7 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -8,7 +8,7 @@ import asyncio
 from enum import auto
 from math import isclose
 import operator
-from typing import AsyncIterator, Callable
+from typing import AsyncIterator, Callable, Optional
 
 # internal
 from runtimepy.enum.registry import RuntimeIntEnum
@@ -121,7 +121,7 @@ async def sample_for(
     is set).
     """
 
-    sample_queue: asyncio.Queue[tuple[T, int]] = asyncio.Queue()
+    sample_queue: asyncio.Queue[Optional[tuple[T, int]]] = asyncio.Queue()
     keep_sampling = True
     samples = 0
 
@@ -150,18 +150,30 @@ async def sample_for(
             sample_queue.put_nowait((new, primitive.last_updated_ns))
             poll_sample_event()
 
+    def expire() -> None:
+        """Stop sampling when the timeout is reached."""
+
+        nonlocal keep_sampling
+        keep_sampling = False
+        sample_queue.put_nowait(None)
+
     # Service the callback until resolved or this evaluation times out.
     with primitive.callback(sample):
+        # (An active 'asyncio.timeout' would cancel the consumer of samples.)
+        timer = asyncio.get_running_loop().call_later(timeout, expire)
         try:
-            async with asyncio.timeout(timeout):
-                while keep_sampling:
-                    yield await sample_queue.get()
-        except asyncio.TimeoutError:
-            pass
+            while keep_sampling:
+                item = await sample_queue.get()
+                if item is not None:
+                    yield item
+        finally:
+            timer.cancel()
 
     # Drain queue.
     while not sample_queue.empty():
-        yield sample_queue.get_nowait()
+        item = sample_queue.get_nowait()
+        if item is not None:
+            yield item
 
 
 class PrimitiveIsCloseMixin(Primitive[T]):
-- 
2.43.0


From 9228f6f60b77cf7ab3105905405cc32aec0bdef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:19 +0000
Subject: [PATCH 101/138] fix: sampling enumerations failed for values that
 aren't listed

---
 runtimepy/channel/environment/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 7fc2975..2fe89ae 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -409,7 +409,8 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
         async for sample in sample_for(
             _cast(_IntChannel, chan).raw, timeout, count=count, current=current
         ):
-            yield enum.get_str(sample[0]), sample[1]
+            value = enum.as_str(sample[0])
+            yield str(sample[0]) if value is None else value, sample[1]
 
     def get_float(self, key: _RegistryKey) -> _FloatChannel:
         """Get a floating-point channel."""
-- 
2.43.0


From 39734034d93e618d8e1cd58c7b1da85e4e4d703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:19 +0000
Subject: [PATCH 102/138] fix: inequalities were reversed for negatively scaled
 primitives

---
 runtimepy/primitives/evaluation.py | 23 +++++++++++++++++++++++
 runtimepy/primitives/float.py      |  8 +++++++-
 runtimepy/primitives/int.py        |  3 ++-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index 6179be7..03aeafa 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -13,6 +13,7 @@ from typing import AsyncIterator, Callable, Optional
 # internal
 from runtimepy.enum.registry import RuntimeIntEnum
 from runtimepy.primitives.base import Primitive, T
+from runtimepy.primitives.scaling import ChannelScaling
 
 
 class Operator(RuntimeIntEnum):
@@ -38,6 +39,28 @@ OPERATOR_MAP = {
 }
 
 
+# Results when both operands are negated.
+NEGATED_MAP = {
+    Operator.LESS_THAN: Operator.GREATER_THAN,
+    Operator.LESS_THAN_OR_EQUAL: Operator.GREATER_THAN_OR_EQUAL,
+    Operator.GREATER_THAN_OR_EQUAL: Operator.LESS_THAN_OR_EQUAL,
+    Operator.GREATER_THAN: Operator.LESS_THAN,
+}
+
+
+def raw_operation(
+    operation: Operator, scaling: ChannelScaling = None
+) -> Operator:
+    """
+    Get the operation for comparing raw values, that's equivalent to an
+    operation for comparing scaled ones.
+    """
+
+    if scaling and len(scaling) > 1 and scaling[1] < 0:
+        operation = NEGATED_MAP.get(operation, operation)
+    return operation
+
+
 class EvalResult(RuntimeIntEnum):
     """A container for all possible evaluation results."""
 
diff --git a/runtimepy/primitives/float.py b/runtimepy/primitives/float.py
index 4126912..0eb8bff 100644
--- a/runtimepy/primitives/float.py
+++ b/runtimepy/primitives/float.py
@@ -11,6 +11,7 @@ from runtimepy.primitives.evaluation import (
     Operator,
     PrimitiveIsCloseMixin,
     compare_latest,
+    raw_operation,
 )
 from runtimepy.primitives.scaling import ChannelScaling, invert
 from runtimepy.primitives.types.float import Double as _Double
@@ -45,7 +46,12 @@ class BaseFloatPrimitive(PrimitiveIsCloseMixin[float]):
         if self.scaling:
             value = invert(value, scaling=self.scaling)
 
-        return await compare_latest(self, value, timeout, operation=operation)
+        return await compare_latest(
+            self,
+            value,
+            timeout,
+            operation=raw_operation(operation, scaling=self.scaling),
+        )
 
 
 class HalfPrimitive(BaseFloatPrimitive):
diff --git a/runtimepy/primitives/int.py b/runtimepy/primitives/int.py
index 69895fd..9095a7a 100644
--- a/runtimepy/primitives/int.py
+++ b/runtimepy/primitives/int.py
@@ -11,6 +11,7 @@ from runtimepy.primitives.evaluation import (
     Operator,
     PrimitiveIsCloseMixin,
     compare_latest,
+    raw_operation,
 )
 from runtimepy.primitives.scaling import ChannelScaling, invert
 from runtimepy.primitives.types.int import Int8 as _Int8
@@ -56,7 +57,7 @@ class BaseIntPrimitive(PrimitiveIsCloseMixin[int]):
                 should_round=True,
             ),
             timeout,
-            operation=operation,
+            operation=raw_operation(operation, scaling=self.scaling),
         )
 
 
-- 
2.43.0


From d6a7ef700f8d3d2edeeadd944a9ea3d23c767ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:47 +0000
Subject: [PATCH 103/138] fix: telnet commands split between messages were lost

---
 runtimepy/net/tcp/telnet/__init__.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 4284538..8bb08b8 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -35,6 +35,18 @@ class Telnet(_TcpConnection):
 
     log_alias = "TELNET"
 
+    # Previous byte and whether an option or command is being processed.
+    _telnet_state: tuple[int, bool, bool] = (0, False, False)
+
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        self._telnet_state = (0, False, False)
+        return await super().restart()
+
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
         return await self.process_text(data.decode(encoding=DEFAULT_ENCODING))
@@ -71,11 +83,10 @@ class Telnet(_TcpConnection):
         result = True
 
         last_val = 0
-        val = 0
 
-        # These two conditions are used to form a simple state machine.
-        processing_option = False
-        processing_command = False
+        # These two conditions are used to form a simple state machine (that
+        # continues from the previous message).
+        val, processing_option, processing_command = self._telnet_state
 
         with _ExitStack() as stack:
             text = stack.enter_context(_BytesIO())
@@ -120,6 +131,8 @@ class Telnet(_TcpConnection):
                 else:
                     text.write(data)
 
+            self._telnet_state = (val, processing_option, processing_command)
+
             # Process the message that remains as data.
             if text.tell() > 0:
                 result = await self.process_telnet_message(text.getvalue())
-- 
2.43.0


From e67a2225f9cd429042a368637c6c17b6a86fa525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:47 +0000
Subject: [PATCH 104/138] fix: undefined telnet commands ended the connection

---
 runtimepy/net/tcp/telnet/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 8bb08b8..b841351 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -114,8 +114,12 @@ class Telnet(_TcpConnection):
                         # escaped.
                         if val == TelnetCode.IAC:
                             text.write(data)
-                        else:
+                        elif val >= TelnetCode.SE:
                             await self.process_command(TelnetCode(val))
+                        else:
+                            self.logger.warning(
+                                "Ignoring unknown command %d.", val
+                            )
 
                     processing_command = False
 
-- 
2.43.0


From 6e77413a84bd481b23de69476e9d508e736bd7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:47 +0000
Subject: [PATCH 105/138] fix: split or undecodable telnet text ended the
 connection

---
 runtimepy/net/tcp/telnet/__init__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index b841351..f7c5084 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -4,9 +4,12 @@ A module implementing a basic telnet (RFC 854) connection interface.
 
 # built-in
 from abc import abstractmethod as _abstractmethod
+from codecs import IncrementalDecoder as _IncrementalDecoder
+from codecs import getincrementaldecoder as _getincrementaldecoder
 from contextlib import ExitStack as _ExitStack
 from io import BytesIO as _BytesIO
 from typing import BinaryIO as _BinaryIO
+from typing import Optional as _Optional
 
 # third-party
 from vcorelib import DEFAULT_ENCODING
@@ -38,6 +41,8 @@ class Telnet(_TcpConnection):
     # Previous byte and whether an option or command is being processed.
     _telnet_state: tuple[int, bool, bool] = (0, False, False)
 
+    _decoder: _Optional[_IncrementalDecoder] = None
+
     async def restart(self) -> bool:
         """
         Reset necessary underlying state for this connection to 'process'
@@ -45,11 +50,20 @@ class Telnet(_TcpConnection):
         """
 
         self._telnet_state = (0, False, False)
+        self._decoder = None
         return await super().restart()
 
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
-        return await self.process_text(data.decode(encoding=DEFAULT_ENCODING))
+
+        # Characters may be split between messages.
+        if self._decoder is None:
+            self._decoder = _getincrementaldecoder(DEFAULT_ENCODING)(
+                errors="replace"
+            )
+        text = self._decoder.decode(data)
+
+        return await self.process_text(text) if text else True
 
     @_abstractmethod
     async def process_command(self, code: TelnetCode) -> None:
-- 
2.43.0


From 2c3706d508fa49e570b6e91e80d50618c35925d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:47 +0000
Subject: [PATCH 106/138] fix: late SCPI responses were returned for later
 commands

---
 runtimepy/net/tcp/scpi/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/scpi/__init__.py b/runtimepy/net/tcp/scpi/__init__.py
index 57397ad..35e2db4 100644
--- a/runtimepy/net/tcp/scpi/__init__.py
+++ b/runtimepy/net/tcp/scpi/__init__.py
@@ -17,7 +17,7 @@ class ScpiConnection(TcpConnection):
         """Initialize this instance."""
 
         self.command_lock = asyncio.Lock()
-        self.message_queue: asyncio.Queue[str] = asyncio.Queue(maxsize=1)
+        self.message_queue: asyncio.Queue[str] = asyncio.Queue()
 
     async def async_init(self) -> bool:
         """Initialize this instance."""
@@ -54,6 +54,10 @@ class ScpiConnection(TcpConnection):
             command += "?"
 
         async with self.command_lock:
+            # Late responses to previous commands aren't responses to this one.
+            while not self.message_queue.empty():
+                self.message_queue.get_nowait()
+
             self.send_text(command + "\n")
 
             if response or query:
-- 
2.43.0


From feb2f3092da9a2e0ed47a5876dbcaf8b285d5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:47 +0000
Subject: [PATCH 107/138] fix: NP-05B lines that arrive in pieces or after
 prompts were misparsed

---
 runtimepy/net/tcp/telnet/np_05b.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index 19bc5ab..2433984 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -54,6 +54,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
 
     # Typing for some instance members.
     prev_cmd: str
+    partial_line: str
     chan_to_idx: dict[str, int]
 
     lock: asyncio.Lock
@@ -64,6 +65,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
         self.lock = asyncio.Lock()
 
         self.prev_cmd = ""
+        self.partial_line = ""
         self.outlets_on: List[Union[None, bool]] = [
             None for _ in range(self.num_ports)
         ]
@@ -209,13 +211,21 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
     async def process_text(self, data: str) -> bool:
         """Process a text frame."""
 
-        line_stack = list(data.splitlines())
+        # Lines may arrive in pieces.
+        line_stack = (self.partial_line + data).splitlines(keepends=True)
+        self.partial_line = ""
+        if line_stack and not line_stack[-1].endswith(("\r", "\n")):
+            self.partial_line = line_stack.pop()
 
         while line_stack:
-            line = line_stack.pop(0)
+            line = line_stack.pop(0).rstrip("\r\n")
+
+            # A prompt may precede anything.
+            while line.startswith(self.prompt):
+                line = line[len(self.prompt) :]
 
             # We can skip lines that don't mean anything.
-            if not line or line == self.prompt:
+            if not line:
                 continue
 
             # The device's response strings can end up on the same line. Split
-- 
2.43.0


From 2d14bee9bcd7b996f937838e8312c43b5530d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:47 +0000
Subject: [PATCH 108/138] fix: an NP-05B outlet index one past the end raised
 an exception

---
 runtimepy/net/tcp/telnet/np_05b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index 2433984..20914aa 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -157,7 +157,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
         result = False
         real_idx = idx - 1
 
-        if 0 <= real_idx <= self.num_ports:
+        if 0 <= real_idx < self.num_ports:
             if self.outlets_on[real_idx] != state:
                 await self.np05b_command(
                     Np05bStrings.SET_OUTLET, str(idx), "1" if state else "0"
-- 
2.43.0


From 93a1d18b0be674d0d52b319a9fb1a9445b8599f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:47 +0000
Subject: [PATCH 109/138] fix: NP-05B responses that are late or missing broke
 parsing

---
 runtimepy/net/tcp/telnet/np_05b.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index 20914aa..c772776 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -38,6 +38,13 @@ class Np05bStrings(Enum):
         """Determine if some string data is a command string."""
         return data.startswith("$A")
 
+    @staticmethod
+    def is_response(data: str) -> bool:
+        """Determine if some string data is a response string."""
+        return data.startswith(
+            (Np05bStrings.OK.value, Np05bStrings.FAIL.value)
+        )
+
 
 class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
     """
@@ -97,6 +104,16 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
 
         self._setup_async_commands(all_on, all_off)
 
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        self.prev_cmd = ""
+        self.partial_line = ""
+        return await super().restart()
+
     async def handle_command(
         self, args: Namespace, channel: Optional[FieldOrChannel]
     ) -> None:
@@ -143,6 +160,10 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
     async def request_outlet_status(self) -> None:
         """Request that the endpoint sends information about outlet status."""
 
+        # Late responses to previous requests aren't responses to this one.
+        while not self.outlet_status_sem.locked():
+            await self.outlet_status_sem.acquire()
+
         self._send_np05b(Np05bStrings.OUTLET_STATUS)
 
         # Wait for the device to respond.
@@ -240,7 +261,11 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
                 # The device echo's incoming commands, so if the current
                 # and previous lines have command markers, we can process
                 # this line as the response.
-                if Np05bStrings.is_command(self.prev_cmd):
+                if Np05bStrings.is_response(line):
+                    # Responses to unknown commands don't mean anything.
+                    if not self.prev_cmd:
+                        continue
+
                     self.process_response(
                         Np05bStrings(self.prev_cmd[:3]),
                         self.prev_cmd[3:].strip(),
-- 
2.43.0


From ab10cf45a1fc796c111ae9a73c5de92241f0009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:11 +0000
Subject: [PATCH 110/138] fix: a command that failed stopped the handling of
 all other commands

---
 runtimepy/mixins/async_command.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/runtimepy/mixins/async_command.py b/runtimepy/mixins/async_command.py
index 1a168a8..ec77a16 100644
--- a/runtimepy/mixins/async_command.py
+++ b/runtimepy/mixins/async_command.py
@@ -55,9 +55,13 @@ class AsyncCommandProcessingMixin(LoggerMixin):
         while not self.outgoing_commands.empty():
             params = self.outgoing_commands.get_nowait()
 
-            if params[0].command == ChannelCommand.CUSTOM:
-                await self.command.handle_custom_command(*params)
-            else:
-                await self.handle_command(*params)
-
-            self.outgoing_commands.task_done()
+            # A command that fails shouldn't prevent others from running.
+            try:
+                if params[0].command == ChannelCommand.CUSTOM:
+                    await self.command.handle_custom_command(*params)
+                else:
+                    await self.handle_command(*params)
+            except Exception as exc:  # pylint: disable=broad-exception-caught
+                self.logger.exception("Command failed:", exc_info=exc)
+            finally:
+                self.outgoing_commands.task_done()
-- 
2.43.0


From 0bf452a5d24b5275855a302d7c0d8e0b2a10d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:11 +0000
Subject: [PATCH 111/138] fix: custom commands for remote environments ran
 locally

---
 runtimepy/mixins/async_command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/mixins/async_command.py b/runtimepy/mixins/async_command.py
index ec77a16..35841e9 100644
--- a/runtimepy/mixins/async_command.py
+++ b/runtimepy/mixins/async_command.py
@@ -57,7 +57,9 @@ class AsyncCommandProcessingMixin(LoggerMixin):
 
             # A command that fails shouldn't prevent others from running.
             try:
-                if params[0].command == ChannelCommand.CUSTOM:
+                if params[0].command == ChannelCommand.CUSTOM and not (
+                    params[0].remote
+                ):
                     await self.command.handle_custom_command(*params)
                 else:
                     await self.handle_command(*params)
-- 
2.43.0


From af22ca6f03fff715f35184f274bb1ab66b39d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:11 +0000
Subject: [PATCH 112/138] fix: blank lines delayed the capture of what follows
 them

---
 runtimepy/mixins/logging.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtimepy/mixins/logging.py b/runtimepy/mixins/logging.py
index d1d5003..8fac274 100644
--- a/runtimepy/mixins/logging.py
+++ b/runtimepy/mixins/logging.py
@@ -127,7 +127,8 @@ class LogCaptureMixin:
         """Get the next line from this log stream."""
 
         for level, stream in self.streams:
-            line = (await stream.readline()).rstrip()
-            while line:
-                self.log_line(level, line)
-                line = (await stream.readline()).rstrip()
+            # Blank lines aren't the end of the file.
+            while data := await stream.readline():
+                line = data.rstrip()
+                if line:
+                    self.log_line(level, line)
-- 
2.43.0


From e0897e6f71a2fef4715c224d5d54f1ddb26756cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:11 +0000
Subject: [PATCH 113/138] fix: captured log lines were cut where a write ended

---
 runtimepy/mixins/logging.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/runtimepy/mixins/logging.py b/runtimepy/mixins/logging.py
index 8fac274..4081fdb 100644
--- a/runtimepy/mixins/logging.py
+++ b/runtimepy/mixins/logging.py
@@ -95,6 +95,9 @@ class LogCaptureMixin:
     # Open aiofiles handles.
     streams: list[tuple[int, Any]]
 
+    # Beginnings of lines that haven't ended yet.
+    partial_lines: list[bytes]
+
     # Set false to only forward to ListLogger handlers. Required for when the
     # system log / process-management logs are being forwarded (otherwise also
     # logging would lead to infinite spam).
@@ -108,7 +111,7 @@ class LogCaptureMixin:
         self.streams = [
             (
                 LogLevel.normalize(level),
-                await stack.enter_async_context(aiofiles.open(path, mode="r")),
+                await stack.enter_async_context(aiofiles.open(path, mode="rb")),
             )
             for level, path in log_paths
             if normalize(path).is_file()
@@ -118,6 +121,8 @@ class LogCaptureMixin:
         for stream in self.streams:
             await stream[1].seek(0, io.SEEK_END)
 
+        self.partial_lines = [b"" for _ in self.streams]
+
     def log_line(self, level: int, data: str) -> None:
         """Log a line for output."""
 
@@ -126,9 +131,18 @@ class LogCaptureMixin:
     async def dispatch_log_capture(self) -> None:
         """Get the next line from this log stream."""
 
-        for level, stream in self.streams:
+        for idx, (level, stream) in enumerate(self.streams):
             # Blank lines aren't the end of the file.
             while data := await stream.readline():
-                line = data.rstrip()
-                if line:
-                    self.log_line(level, line)
+                data = self.partial_lines[idx] + data
+                self.partial_lines[idx] = b""
+
+                # Wait for the rest of the line.
+                if not data.endswith(b"\n"):
+                    self.partial_lines[idx] = data
+                    continue
+
+                for part in data.decode(errors="replace").split("\r"):
+                    line = part.rstrip()
+                    if line:
+                        self.log_line(level, line)
-- 
2.43.0


From e713c1cb7898df23b421c0b71bd981fbbff26c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:11 +0000
Subject: [PATCH 114/138] fix: log records that can't be formatted prevented
 messages from being sent

---
 runtimepy/message/interface.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index bd4c104..52cbc65 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -190,10 +190,13 @@ class JsonMessageInterface:
         # Stage any pending log messages.
         if self.list_handler:
             for record in self.list_handler.drain():
-                # Arguments can't necessarily be encoded as JSON.
-                self.stage_remote_log(
-                    record.getMessage(), level=record.levelno
-                )
+                # Arguments can't necessarily be encoded as JSON (or
+                # formatted).
+                try:
+                    msg = record.getMessage()
+                except Exception:  # pylint: disable=broad-exception-caught
+                    msg = str(record.msg)
+                self.stage_remote_log(msg, level=record.levelno)
 
         # Add any pending log messages to this message.
         if self._log_messages:
-- 
2.43.0


From 646e9846f9ce52d12e6529dca82cc66172e4048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:11 +0000
Subject: [PATCH 115/138] fix: invalid log messages from a peer ended the
 connection

---
 runtimepy/message/interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index 52cbc65..f10c277 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -256,8 +256,12 @@ class JsonMessageInterface:
 
         # Log messages sent by the peer.
         if "__log_messages__" in data:
-            for message in data["__log_messages__"]:
-                self.handle_log_message(message)
+            # Messages that aren't valid shouldn't affect anything else.
+            try:
+                for message in data["__log_messages__"]:
+                    self.handle_log_message(message)
+            except Exception:  # pylint: disable=broad-exception-caught
+                self.logger.exception("Invalid log messages:")
             del data["__log_messages__"]
 
         return should_respond
-- 
2.43.0


From 03a03c64e24b89a210c67d440f6e13490ae22279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:11 +0000
Subject: [PATCH 116/138] fix: housekeeping ended when a connection's task
 failed

---
 runtimepy/net/arbiter/housekeeping/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/arbiter/housekeeping/__init__.py b/runtimepy/net/arbiter/housekeeping/__init__.py
index a7f7daa..54e991c 100644
--- a/runtimepy/net/arbiter/housekeeping/__init__.py
+++ b/runtimepy/net/arbiter/housekeeping/__init__.py
@@ -67,9 +67,15 @@ class ConnectionMetricsPoller(_ArbiterTask):
         # this on its own at some point.
         self.processors += list(self.app.conn_manager.connection_tasks)
 
+        # A failure shouldn't prevent anything else from being serviced.
         if self.processors:
-            await asyncio.gather(*self.processors)
-            self.processors.clear()
+            processors = self.processors
+            self.processors = []
+            for result in await asyncio.gather(
+                *processors, return_exceptions=True
+            ):
+                if isinstance(result, Exception):
+                    self.logger.error("Processing failed:", exc_info=result)
 
         return True
 
-- 
2.43.0


From 9188f7d77c792ff9c94e9b500a5748b7aa167fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:08 +0000
Subject: [PATCH 117/138] fix: a stepper's configured count was replaced by its
 control's default

---
 runtimepy/control/step.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/control/step.py b/runtimepy/control/step.py
index 0284215..6ad6298 100644
--- a/runtimepy/control/step.py
+++ b/runtimepy/control/step.py
@@ -116,6 +116,7 @@ class ToggleStepper(RuntimeStruct):
             self.count,
             controls="steps_1_1000",
             description="The number of iterations to step.",
+            default=self.count.value,
             commandable=True,
         )
         self.env.channel(
-- 
2.43.0


From 31de72ccfc49fc5658c94d99c572a4afb3440da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:08 +0000
Subject: [PATCH 118/138] fix: a simulated time source outlived the application
 that selected it

---
 runtimepy/control/step.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/control/step.py b/runtimepy/control/step.py
index 6ad6298..3d37916 100644
--- a/runtimepy/control/step.py
+++ b/runtimepy/control/step.py
@@ -152,6 +152,9 @@ class ToggleStepper(RuntimeStruct):
 
         self.simulate_time.register_callback(do_simulate_time)
 
+        # Don't leave a simulated source in place when the application ends.
+        self.app.stack.callback(self.simulate_time.clear)
+
         # Register other structs if configured to do so.
         if self.config.get("global", True):
             for struct in self.app.structs.values():
-- 
2.43.0


From 3e21b5622013b43752e4d12c794374c2d9b65b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:08 +0000
Subject: [PATCH 119/138] fix: steppers derived from 'ToggleStepper' polled
 themselves

---
 runtimepy/control/step.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/control/step.py b/runtimepy/control/step.py
index 3d37916..d65ca68 100644
--- a/runtimepy/control/step.py
+++ b/runtimepy/control/step.py
@@ -36,8 +36,10 @@ def should_poll(kind: type[RuntimeStruct]) -> bool:
     """
     Determine if a toggle stepper should poll the provided type of struct.
     """
-    return kind.__name__ not in DONT_POLL_SET and not kind.__name__.startswith(
-        "Rt"
+    return (
+        kind.__name__ not in DONT_POLL_SET
+        and not kind.__name__.startswith("Rt")
+        and not issubclass(kind, ToggleStepper)
     )
 
 
-- 
2.43.0


From d8a95d794972a0ad864bb42251e1ca0372eb7fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:08 +0000
Subject: [PATCH 120/138] fix: waveform parameters without a defined waveform
 raised exceptions

---
 runtimepy/mixins/trig.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/runtimepy/mixins/trig.py b/runtimepy/mixins/trig.py
index 26447d2..407c323 100644
--- a/runtimepy/mixins/trig.py
+++ b/runtimepy/mixins/trig.py
@@ -4,6 +4,7 @@ A module implementing a simple trig-channel environment mixin.
 
 # built-in
 import math
+from typing import Callable
 
 # internal
 from runtimepy.channel.environment import ChannelEnvironment
@@ -12,6 +13,11 @@ from runtimepy.primitives import Float
 from runtimepy.ui.controls import Controlslike
 
 
+def periodic(function: Callable[[float], float], angle: float) -> float:
+    """Evaluate a periodic function (that's only defined for real angles)."""
+    return function(angle) if math.isfinite(angle) else math.nan
+
+
 class TrigMixin:
     """A simple trig mixin class."""
 
@@ -60,7 +66,9 @@ class TrigMixin:
         """Update this instance's 'sin' member."""
 
         # Multiplex this on waveform shape.
-        calc = math.sin(self.step_angle + self.sin_phase_angle.value)
+        calc = periodic(
+            math.sin, self.step_angle + self.sin_phase_angle.value
+        )
 
         self.sin.value = self.amplitude.value * calc
 
@@ -68,13 +76,17 @@ class TrigMixin:
         """Update this instance's 'cos' member."""
 
         # Multiplex this on waveform shape.
-        calc = math.cos(self.step_angle + self.cos_phase_angle.value)
+        calc = periodic(
+            math.cos, self.step_angle + self.cos_phase_angle.value
+        )
 
         self.cos.value = self.amplitude.value * calc
 
     def dispatch_trig(self, step: int) -> None:
         """Dispatch trig channel updates."""
 
-        self.step_angle = (math.tau / self.steps.value) * step
+        # The angle doesn't change if there aren't any steps.
+        if self.steps.value:
+            self.step_angle = (math.tau / self.steps.value) * step
         self._update_sin()
         self._update_cos()
-- 
2.43.0


From a3cddcf81f4b2e047d0cdbf177947558ab7a8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:08 +0000
Subject: [PATCH 121/138] fix: sources of integers and booleans couldn't be
 polled

---
 runtimepy/control/source.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtimepy/control/source.py b/runtimepy/control/source.py
index 3c03620..d6f0733 100644
--- a/runtimepy/control/source.py
+++ b/runtimepy/control/source.py
@@ -56,9 +56,14 @@ class PrimitiveSource(RuntimeStruct, Generic[T]):
         """Update the outputs."""
 
         for idx in range(self.length):
+            output = self.outputs[idx]
+
             # Difficult to avoid cast.
-            self.outputs[idx].value = cast(
-                Any, self.amplitudes[idx].value * self.source(idx)
+            output.value = cast(
+                Any,
+                output.kind.python_type(
+                    self.amplitudes[idx].value * self.source(idx)
+                ),
             )
 
 
-- 
2.43.0


From d9f9654cb092a22bf1082087e49147ffd737e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:13 +0000
Subject: [PATCH 122/138] fix: interrupts of a running command could get lost

An interrupt was raised as an exception in whatever happened to run and could be
handled there (i.e. connection processing, transports), in which case the
command never stopped.
---
 runtimepy/commands/arbiter.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/runtimepy/commands/arbiter.py b/runtimepy/commands/arbiter.py
index ba4d2e4..a42bffb 100644
--- a/runtimepy/commands/arbiter.py
+++ b/runtimepy/commands/arbiter.py
@@ -6,6 +6,8 @@ An entry-point for the 'arbiter' command.
 from argparse import ArgumentParser as _ArgumentParser
 from argparse import Namespace as _Namespace
 import asyncio as _asyncio
+from contextlib import suppress as _suppress
+import signal as _signal
 
 # third-party
 from vcorelib.args import CommandFunction as _CommandFunction
@@ -41,11 +43,22 @@ def app(args: _Namespace) -> int:
     if args.init_only:
         stop_sig.set()
 
-    return _run_handle_stop(
-        stop_sig,
-        entry(stop_sig, args, window=args.window),
-        enable_uvloop=not getattr(args, "no_uvloop", False),
-    )
+    # An interrupt exception gets raised in whatever is currently running and
+    # may not make it out of the event loop.
+    handler = _signal.getsignal(_signal.SIGINT)
+    signals = [_signal.SIGINT] if handler is not _signal.SIG_IGN else []
+
+    try:
+        return _run_handle_stop(
+            stop_sig,
+            entry(stop_sig, args, window=args.window),
+            signals=signals,
+            enable_uvloop=not getattr(args, "no_uvloop", False),
+        )
+    finally:
+        # Not possible outside of the main thread.
+        with _suppress(ValueError, TypeError):
+            _signal.signal(_signal.SIGINT, handler)
 
 
 def arbiter_cmd(args: _Namespace) -> int:
-- 
2.43.0


From 511a02a804d0a32ba601c28aecffd624045053be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:54 +0000
Subject: [PATCH 123/138] fix: the 'tftp' command's exit code was inverted

---
 runtimepy/commands/tftp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/commands/tftp.py b/runtimepy/commands/tftp.py
index faee900..657243a 100644
--- a/runtimepy/commands/tftp.py
+++ b/runtimepy/commands/tftp.py
@@ -42,9 +42,10 @@ def tftp_cmd(args: argparse.Namespace) -> int:
     else:
         task = tftp_write(addr, args.our_file, args.their_file, **kwargs)
 
-    return run_handle_stop(
+    result = run_handle_stop(
         stop_sig, task, enable_uvloop=not getattr(args, "no_uvloop", False)
     )
+    return 0 if result else 1
 
 
 def add_tftp_cmd(parser: argparse.ArgumentParser) -> CommandFunction:
-- 
2.43.0


From 145c83aeed04b5d39274f17535b8422d733676c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:52 +0000
Subject: [PATCH 124/138] fix: the 'server' command ignored '--host' for UDP

---
 runtimepy/commands/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/commands/server.py b/runtimepy/commands/server.py
index 1a9afb2..ecbc85b 100644
--- a/runtimepy/commands/server.py
+++ b/runtimepy/commands/server.py
@@ -102,7 +102,7 @@ def config_data(args: _Namespace) -> dict[str, Any]:
                 "name": port_name(args, port="server"),
                 "factory": args.factory,
                 "kwargs": get_kwargs(
-                    args, local_addr=["0.0.0.0", f"${port_name(args)}"]
+                    args, local_addr=[args.host, f"${port_name(args)}"]
                 ),
             }
         )
-- 
2.43.0


From fa059394043cffc0f96bb5d89d82ec2061d44d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:45 +0000
Subject: [PATCH 125/138] fix: channel names disappeared from the terminal when
 it's resized

---
 runtimepy/tui/channels/__init__.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/runtimepy/tui/channels/__init__.py b/runtimepy/tui/channels/__init__.py
index 598cf74..8db1956 100644
--- a/runtimepy/tui/channels/__init__.py
+++ b/runtimepy/tui/channels/__init__.py
@@ -63,16 +63,17 @@ class ChannelTui(TuiMixin):
 
             # Collect channel names from the environment.
             self.channel_names = sorted(self.env.names)
-            window = self.body
-
-            # Initialize channel names.
-            for idx, item in enumerate(self.channel_names):
-                window.addstr(1 + idx, 1, item)
-                self.value_col = max(self.value_col, len(item))
-            self.value_col += 2
+            self.value_col = 2 + max(len(x) for x in self.channel_names)
+            self.draw_names()
 
         return result
 
+    def draw_names(self) -> None:
+        """Draw channel names."""
+
+        for idx, item in enumerate(self.channel_names):
+            self.body.addstr(1 + idx, 1, item)
+
     def update_dimensions(self) -> CursesWindow:
         """Handle an update to the window's dimensions."""
 
@@ -102,6 +103,10 @@ class ChannelTui(TuiMixin):
         body.box()
         self._body = body
 
+        self.draw_names()
+
+        return window
+
     async def handle_char(self, char: int) -> bool:
         """Handle character input."""
 
-- 
2.43.0


From bb0dbb184d581e85befe51c52981aed129eed009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:45 +0000
Subject: [PATCH 126/138] fix: the terminal interface failed when channels
 didn't fit

It also left characters of longer values behind.
---
 runtimepy/tui/channels/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/runtimepy/tui/channels/__init__.py b/runtimepy/tui/channels/__init__.py
index 8db1956..7d21285 100644
--- a/runtimepy/tui/channels/__init__.py
+++ b/runtimepy/tui/channels/__init__.py
@@ -68,11 +68,21 @@ class ChannelTui(TuiMixin):
 
         return result
 
+    def draw_body(self, idx: int, col: int, text: str) -> None:
+        """Draw text on a line of the body if there's space for it."""
+
+        lines, cols = self.body.getmaxyx()
+        space = cols - 1 - col
+
+        # Clear the rest of the line, what was there could've been longer.
+        if 1 + idx < lines - 1 and space > 0:
+            self.body.addnstr(1 + idx, col, text.ljust(space), space)
+
     def draw_names(self) -> None:
         """Draw channel names."""
 
         for idx, item in enumerate(self.channel_names):
-            self.body.addstr(1 + idx, 1, item)
+            self.draw_body(idx, 1, item)
 
     def update_dimensions(self) -> CursesWindow:
         """Handle an update to the window's dimensions."""
@@ -141,7 +151,7 @@ class ChannelTui(TuiMixin):
             elif isinstance(val, int):
                 val_str = f"{val:<5d}"
 
-            window.addstr(1 + idx, self.value_col, val_str)
+            self.draw_body(idx, self.value_col, val_str)
 
         window.noutrefresh()
 
-- 
2.43.0


From 55ac93f0746a9a65e86a7701f325e4b012b74542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:45 +0000
Subject: [PATCH 127/138] fix: the terminal interface didn't show values of
 enumerations

---
 runtimepy/tui/channels/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimepy/tui/channels/__init__.py b/runtimepy/tui/channels/__init__.py
index 7d21285..1bbf341 100644
--- a/runtimepy/tui/channels/__init__.py
+++ b/runtimepy/tui/channels/__init__.py
@@ -150,6 +150,8 @@ class ChannelTui(TuiMixin):
                 val_str = f"{val:5.6f}"
             elif isinstance(val, int):
                 val_str = f"{val:<5d}"
+            elif isinstance(val, str):
+                val_str = val
 
             self.draw_body(idx, self.value_col, val_str)
 
-- 
2.43.0


From 95cf3e542c90981030c3cebcbedf9b93db66ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:01 +0000
Subject: [PATCH 128/138] fix: interrupts could end the 'tui' command with an
 error

---
 runtimepy/commands/arbiter.py | 19 ++++++-------------
 runtimepy/commands/common.py  | 20 ++++++++++++++++++++
 runtimepy/commands/tui.py     | 22 ++++++++++++----------
 3 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/runtimepy/commands/arbiter.py b/runtimepy/commands/arbiter.py
index a42bffb..930834a 100644
--- a/runtimepy/commands/arbiter.py
+++ b/runtimepy/commands/arbiter.py
@@ -6,15 +6,17 @@ An entry-point for the 'arbiter' command.
 from argparse import ArgumentParser as _ArgumentParser
 from argparse import Namespace as _Namespace
 import asyncio as _asyncio
-from contextlib import suppress as _suppress
-import signal as _signal
 
 # third-party
 from vcorelib.args import CommandFunction as _CommandFunction
 from vcorelib.asyncio import run_handle_stop as _run_handle_stop
 
 # internal
-from runtimepy.commands.common import arbiter_args, curses_wrap_if
+from runtimepy.commands.common import (
+    arbiter_args,
+    curses_wrap_if,
+    interrupt_signals,
+)
 from runtimepy.net.arbiter import ConnectionArbiter
 from runtimepy.tui.channels import CursesWindow as _CursesWindow
 
@@ -43,22 +45,13 @@ def app(args: _Namespace) -> int:
     if args.init_only:
         stop_sig.set()
 
-    # An interrupt exception gets raised in whatever is currently running and
-    # may not make it out of the event loop.
-    handler = _signal.getsignal(_signal.SIGINT)
-    signals = [_signal.SIGINT] if handler is not _signal.SIG_IGN else []
-
-    try:
+    with interrupt_signals() as signals:
         return _run_handle_stop(
             stop_sig,
             entry(stop_sig, args, window=args.window),
             signals=signals,
             enable_uvloop=not getattr(args, "no_uvloop", False),
         )
-    finally:
-        # Not possible outside of the main thread.
-        with _suppress(ValueError, TypeError):
-            _signal.signal(_signal.SIGINT, handler)
 
 
 def arbiter_cmd(args: _Namespace) -> int:
diff --git a/runtimepy/commands/common.py b/runtimepy/commands/common.py
index 0edc84b..4dde08e 100644
--- a/runtimepy/commands/common.py
+++ b/runtimepy/commands/common.py
@@ -6,6 +6,7 @@ A module for package command-line argument interfaces.
 from argparse import ArgumentParser as _ArgumentParser
 from argparse import Namespace as _Namespace
 from contextlib import contextmanager, suppress
+import signal as _signal
 from typing import Any, Iterator
 
 # third-party
@@ -71,6 +72,25 @@ def curses_wrap_if(method: _CommandFunction, args: _Namespace) -> int:
     return result
 
 
+@contextmanager
+def interrupt_signals() -> Iterator[list[int]]:
+    """
+    Provide signals that should be handled (instead of raising exceptions) to
+    request that a command stops.
+
+    An interrupt exception gets raised in whatever is currently running and
+    may not make it out of the event loop, or not just end what's running.
+    """
+
+    handler = _signal.getsignal(_signal.SIGINT)
+    try:
+        yield [_signal.SIGINT] if handler is not _signal.SIG_IGN else []
+    finally:
+        # Not possible outside of the main thread.
+        with suppress(ValueError, TypeError):
+            _signal.signal(_signal.SIGINT, handler)
+
+
 @contextmanager
 def arbiter_args(parser: _ArgumentParser, nargs: str = "+") -> Iterator[None]:
     """Add common connection-arbiter parameters."""
diff --git a/runtimepy/commands/tui.py b/runtimepy/commands/tui.py
index 6aefe35..72532ff 100644
--- a/runtimepy/commands/tui.py
+++ b/runtimepy/commands/tui.py
@@ -16,7 +16,7 @@ from runtimepy.channel.environment import (
 )
 
 # internal
-from runtimepy.commands.common import curses_wrap_if
+from runtimepy.commands.common import curses_wrap_if, interrupt_signals
 from runtimepy.tui.task import TuiTask as _TuiTask
 
 __all__ = ("curses_wrap_if", "start", "tui_cmd", "add_tui_cmd")
@@ -35,15 +35,17 @@ def start(args: _Namespace) -> int:
     )
 
     stop_sig = _asyncio.Event()
-    _run_handle_stop(
-        stop_sig,
-        task.run(
-            args.window,
-            stop_sig=stop_sig,
-        ),
-        eloop=_asyncio.new_event_loop(),
-        enable_uvloop=not getattr(args, "no_uvloop", False),
-    )
+    with interrupt_signals() as signals:
+        _run_handle_stop(
+            stop_sig,
+            task.run(
+                args.window,
+                stop_sig=stop_sig,
+            ),
+            eloop=_asyncio.new_event_loop(),
+            signals=signals,
+            enable_uvloop=not getattr(args, "no_uvloop", False),
+        )
 
     return 0
 
-- 
2.43.0


From 06deec9a8f457344aa51620376d2526138ae87cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:15 +0000
Subject: [PATCH 129/138] fix: remote commands failed for values that look like
 options

---
 runtimepy/net/stream/json/__init__.py | 4 +++-
 runtimepy/subprocess/interface.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/stream/json/__init__.py b/runtimepy/net/stream/json/__init__.py
index 88b5bab..fa5aa2c 100644
--- a/runtimepy/net/stream/json/__init__.py
+++ b/runtimepy/net/stream/json/__init__.py
@@ -39,7 +39,9 @@ class JsonMessageConnection(
             cli_args = [args.command]
             if args.force:
                 cli_args.append("-f")
-            cli_args.append(args.channel)
+
+            # Values can look like options (e.g. '-1e3').
+            cli_args += ["--", args.channel]
 
             self.logger.info(
                 "Remote command: %s",
diff --git a/runtimepy/subprocess/interface.py b/runtimepy/subprocess/interface.py
index b78b970..db8f512 100644
--- a/runtimepy/subprocess/interface.py
+++ b/runtimepy/subprocess/interface.py
@@ -138,7 +138,9 @@ class RuntimepyPeerInterface(
             cli_args = [args.command]
             if args.force:
                 cli_args.append("-f")
-            cli_args.append(args.channel)
+
+            # Values can look like options (e.g. '-1e3').
+            cli_args += ["--", args.channel]
 
             self.logger.info(
                 "Remote command: %s",
-- 
2.43.0


From 67da62492d2059fecf94797f3dd94983fe3028b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:39 +0000
Subject: [PATCH 130/138] fix: infinite values made messages to browsers
 invalid

---
 runtimepy/net/server/app/env/tab/message.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index ee30a54..75b640b 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -4,6 +4,7 @@ A module implementing a channel-environment tab message-handling interface.
 
 # built-in
 import logging
+import math
 from typing import Any, Callable
 
 # internal
@@ -15,6 +16,14 @@ from runtimepy.net.server.websocket.state import TabState
 TabMessageSender = Callable[[JsonMessage], None]
 
 
+def ui_value(value: str | int | float | bool) -> str | int | float | bool:
+    """Get a value that browsers can parse (JSON has no 'inf' or 'nan')."""
+
+    if isinstance(value, float) and not math.isfinite(value):
+        value = str(value)
+    return value
+
+
 class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
     """A channel-environment tab interface."""
 
@@ -31,7 +40,7 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
             # Render enumerations etc. here instead of trying to do it
             # in the UI.
             state.points[name].append(
-                (self.command.env.value(name), prim.last_updated_ns)
+                (ui_value(self.command.env.value(name)), prim.last_updated_ns)
             )
 
         state.primitives[name] = prim
@@ -50,7 +59,7 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
         env = self.command.env
 
         if state.shown:
-            latest = env.values()
+            latest = {x: ui_value(y) for x, y in env.values().items()}
 
             # Send missing or changed values.
             if latest != state.latest_ui_values:
-- 
2.43.0


From 0a23bc0d1b92c2e87879b50cd68f932794364daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:35 +0000
Subject: [PATCH 131/138] fix: plots lost points when buffers were full or
 resized

---
 runtimepy/data/js/classes/PointBuffer.js | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtimepy/data/js/classes/PointBuffer.js b/runtimepy/data/js/classes/PointBuffer.js
index 53fe7cc..14a27dd 100644
--- a/runtimepy/data/js/classes/PointBuffer.js
+++ b/runtimepy/data/js/classes/PointBuffer.js
@@ -30,7 +30,7 @@ class PointBuffer {
         startIdx = startIdx % this.capacity;
       }
 
-      for (let i = 0; i < count - 1; i++) {
+      for (let i = 0; i < count; i++) {
         let idx = (startIdx + i) % this.capacity;
         points.push([ this.values[idx], this.timestamps[idx] ]);
       }
@@ -47,6 +47,11 @@ class PointBuffer {
 
   ingest(points) {
     for (let point of points) {
+      /* The oldest point is overwritten if the buffer is full. */
+      if (this.elements == this.capacity) {
+        this.head = this.incrIndex(this.head);
+      }
+
       /* Store point. */
       this.values[this.tail] = point[0];
       this.timestamps[this.tail] = point[1];
@@ -56,11 +61,6 @@ class PointBuffer {
 
       /* Keep track of capacity utilization. */
       this.elements = Math.min(this.elements + 1, this.capacity);
-
-      /* Ensure head advances if necessary. */
-      if (this.head == this.tail) {
-        this.head = this.incrIndex(this.head);
-      }
     }
 
     /* Update tracking of oldest and newest point timestamps. */
-- 
2.43.0


From 369b9c9bda38ff58854b503374fa5ad04829a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:35 +0000
Subject: [PATCH 132/138] fix: plots didn't scale to the newest value

---
 runtimepy/data/js/classes/PointBuffer.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/data/js/classes/PointBuffer.js b/runtimepy/data/js/classes/PointBuffer.js
index 14a27dd..8088c8e 100644
--- a/runtimepy/data/js/classes/PointBuffer.js
+++ b/runtimepy/data/js/classes/PointBuffer.js
@@ -121,6 +121,7 @@ class PointBuffer {
 
       idx = this.incrIndex(idx);
     }
+    curr = this.values[idx];
     if (maxVal == null || curr > maxVal) {
       maxVal = curr;
     }
@@ -128,7 +129,8 @@ class PointBuffer {
       minVal = curr;
     }
 
-    let slope = 2 / (maxVal - minVal);
+    /* A constant value is a flat line. */
+    let slope = maxVal > minVal ? 2 / (maxVal - minVal) : 0;
 
     /* Second pass: populate normalized data. */
     let values = [];
-- 
2.43.0


From e170e2804368e35dd5a6f1c2b4be879d00c97c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:35 +0000
Subject: [PATCH 133/138] fix: enumeration values that start like numbers were
 shown as numbers

---
 runtimepy/data/js/classes/ChannelTable.js | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/runtimepy/data/js/classes/ChannelTable.js b/runtimepy/data/js/classes/ChannelTable.js
index 0023718..49aeae9 100644
--- a/runtimepy/data/js/classes/ChannelTable.js
+++ b/runtimepy/data/js/classes/ChannelTable.js
@@ -56,15 +56,10 @@ class ChannelTable {
         let val = data[key];
         let addSpace = true;
 
-        if (Number.isInteger(val)) {
-          /* Handle integer formatting. */
-        } else {
-          /* Handle floating-point numbers. */
-          let checkFloat = Number.parseFloat(val);
-          if (!Number.isNaN(checkFloat)) {
-            addSpace = checkFloat >= 0;
-            val = checkFloat.toFixed(5);
-          }
+        /* Handle floating-point numbers. */
+        if (typeof val == "number" && !Number.isInteger(val)) {
+          addSpace = val >= 0;
+          val = val.toFixed(5);
         }
 
         /* Update input box if one exists. */
-- 
2.43.0


From b2b5b6fd98562a3d14acacce90f0f511db9e65f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:35 +0000
Subject: [PATCH 134/138] fix: narrow plots didn't show the newest points

---
 runtimepy/data/js/classes/PlotDrawer.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/data/js/classes/PlotDrawer.js b/runtimepy/data/js/classes/PlotDrawer.js
index ddec329..328e54f 100644
--- a/runtimepy/data/js/classes/PlotDrawer.js
+++ b/runtimepy/data/js/classes/PlotDrawer.js
@@ -153,7 +153,7 @@ class PlotDrawer {
     }
 
     /* Use underlying buffer capacity if it can be queried. */
-    let lineDepth = this.canvas.width;
+    let lineDepth = this.overlay.bufferDepth;
     if (key in this.channels) {
       lineDepth = this.channels[key].buffer.capacity;
     }
-- 
2.43.0


From 5dfe903f07946e5b3e338772a4ee1a39179c01b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:35 +0000
Subject: [PATCH 135/138] fix: links to unknown tabs prevented pages from
 starting

---
 runtimepy/data/js/classes/WindowHashManager.js | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtimepy/data/js/classes/WindowHashManager.js b/runtimepy/data/js/classes/WindowHashManager.js
index 58480f4..824993a 100644
--- a/runtimepy/data/js/classes/WindowHashManager.js
+++ b/runtimepy/data/js/classes/WindowHashManager.js
@@ -152,6 +152,12 @@ class WindowHashManager {
       /* Toggle plot-channel check boxes. */
       for (let i = 1; i < boolsChannels.length; i++) {
         let nameChannels = boolsChannels[i].split(":");
+
+        /* Links can be outdated (or malformed). */
+        if (nameChannels.length < 2 || !(nameChannels[0] in tabs)) {
+          continue;
+        }
+
         for (let chan of nameChannels[1].split(",")) {
           if (!chan.includes("=")) {
             /* Handle regular channel names. */
-- 
2.43.0


From dde0c61e2703601fca7b9019beb70f6523fae412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:35 +0000
Subject: [PATCH 136/138] fix: the tab filter confused tabs with '-' in their
 names

---
 runtimepy/data/js/classes/TabFilter.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtimepy/data/js/classes/TabFilter.js b/runtimepy/data/js/classes/TabFilter.js
index 2eb55ca..d08ee51 100644
--- a/runtimepy/data/js/classes/TabFilter.js
+++ b/runtimepy/data/js/classes/TabFilter.js
@@ -8,8 +8,9 @@ class TabFilter {
 
     /* Create a mapping of tab name to tab element. */
     this.buttons = {};
-    for (let button of this.container.querySelectorAll("button")) {
-      let name = button.id.split("-")[1];
+    for (let button of this.container.querySelectorAll("button.nav-link")) {
+      /* Identifiers are 'runtimepy-{name}-tab'. */
+      let name = button.id.slice("runtimepy-".length, -"-tab".length);
       this.buttons[name] = button;
     }
   }
-- 
2.43.0


From 87d8e36bf8c224ecffff92ca9a646c86d460e29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:35 +0000
Subject: [PATCH 137/138] fix: filters used names of keys and failed with
 incomplete patterns

---
 runtimepy/data/js/classes/TabFilter.js    | 12 ++++++------
 runtimepy/data/js/classes/TabInterface.js | 21 +++++++++++++++------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/runtimepy/data/js/classes/TabFilter.js b/runtimepy/data/js/classes/TabFilter.js
index d08ee51..60b621e 100644
--- a/runtimepy/data/js/classes/TabFilter.js
+++ b/runtimepy/data/js/classes/TabFilter.js
@@ -16,12 +16,12 @@ class TabFilter {
   }
 
   updateStyles(pattern) {
-    hash.setTabFilter(pattern);
-
-    if (!pattern) {
-      pattern = ".*";
+    const re = filterPattern(pattern);
+    if (!re) {
+      return;
     }
-    const re = new RegExp(pattern);
+
+    hash.setTabFilter(pattern);
 
     for (let [name, elem] of Object.entries(this.buttons)) {
       if (re.test(name)) {
@@ -40,7 +40,7 @@ class TabFilter {
       let curr = this.input.value;
       if (event.key == "Backspace") {
         curr = curr.slice(0, -1);
-      } else {
+      } else if (event.key.length == 1) {
         curr += event.key;
       }
       this.updateStyles(curr);
diff --git a/runtimepy/data/js/classes/TabInterface.js b/runtimepy/data/js/classes/TabInterface.js
index d78e12d..918a74c 100644
--- a/runtimepy/data/js/classes/TabInterface.js
+++ b/runtimepy/data/js/classes/TabInterface.js
@@ -1,5 +1,14 @@
 const staleMs = 500;
 
+/* Patterns aren't necessarily valid while they're being typed. */
+function filterPattern(pattern) {
+  try {
+    return new RegExp(pattern ? pattern : ".*");
+  } catch (error) {
+    return null;
+  }
+}
+
 /*
  * Define class for generated code to use (instead of generating so many
  * methods).
@@ -82,12 +91,12 @@ class TabInterface {
   }
 
   updateChannelStyles(pattern) {
-    hash.handleChannelFilter(this.name, pattern);
-
-    if (!pattern) {
-      pattern = ".*";
+    const re = filterPattern(pattern);
+    if (!re) {
+      return;
     }
-    const re = new RegExp(pattern);
+
+    hash.handleChannelFilter(this.name, pattern);
 
     for (let [name, elem] of Object.entries(this.channelRows)) {
       if (re.test(name)) {
@@ -106,7 +115,7 @@ class TabInterface {
       let curr = this.channelFilter.value;
       if (event.key == "Backspace") {
         curr = curr.slice(0, -1);
-      } else {
+      } else if (event.key.length == 1) {
         curr += event.key;
       }
 
-- 
2.43.0


From ab51c0be0e53c6ddeb5e1168a61d3f6b184a1dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:32 +0000
Subject: [PATCH 138/138] fix: commands couldn't reach a peer program's own
 environments once its application started

Starting an arbiter clears all registered environments, including both that a
peer program registered when it exchanged them with its host: commands for
their tabs (and anything else that looks them up) failed.
---
 runtimepy/net/arbiter/base.py     |  8 ++++++++
 runtimepy/subprocess/interface.py | 11 ++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index b2cae3e..ea97e17 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -205,6 +205,14 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         for struct in self._structs.values():
             register_env(struct.name, struct.command)
 
+        # If we are a peer program, it registered environments before any
+        # application started.
+        # pylint: disable=import-outside-toplevel
+        from runtimepy.subprocess.program import PROGRAM
+
+        if PROGRAM is not None:
+            PROGRAM.register_envs()
+
     async def _init_connections(self) -> None:
         """Initialize network connections."""
 
diff --git a/runtimepy/subprocess/interface.py b/runtimepy/subprocess/interface.py
index db8f512..081036d 100644
--- a/runtimepy/subprocess/interface.py
+++ b/runtimepy/subprocess/interface.py
@@ -100,6 +100,13 @@ class RuntimepyPeerInterface(
         """Get the name of the peer's environment."""
         return self.basename + PEER_SUFFIX
 
+    def register_envs(self) -> None:
+        """Register both environments."""
+
+        if self.peer is not None:
+            register_env(self.struct.name, self.struct.command)
+            register_env(self.peer_name, self.peer)
+
     def _set_peer_env(self, data: JsonMessage) -> bool:
         """Set the peer's environment."""
 
@@ -120,9 +127,7 @@ class RuntimepyPeerInterface(
 
             self.peer.logger.info("Loaded.")
 
-            # Register both environments.
-            register_env(self.struct.name, self.struct.command)
-            register_env(self.peer_name, self.peer)
+            self.register_envs()
 
             self._peer_env_event.set()
             result = True
-- 
2.43.0

