From 3848acf2e9aee008184f0dd3ce77c8ab2f8046b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:33 +0000
Subject: [PATCH 01/85] fix: make_nullable no longer modifies the original type

---
 recap/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 7773800..eb8e766 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -44,7 +44,8 @@ class RecapType:
         # Move doc to the union type
         doc = attrs.pop("doc", None)
         # Unnest extra_attrs for copy or we end up with extra_attrs["extra_attrs"]
-        extra_attrs = attrs.pop("extra_attrs", {})
+        # (and copy it so that popping attributes doesn't change `self`).
+        extra_attrs = dict(attrs.pop("extra_attrs", {}))
         union_attrs = {
             "default": extra_attrs.pop("default", None),
             "doc": doc,
@@ -56,7 +57,8 @@ class RecapType:
         type_copy = RecapTypeClass(**attrs, **extra_attrs)
         if RecapTypeClass == UnionType:
             # Avoid UnionType(types=[NullType(), UnionType(...)])
-            # Instead, just add NullType and default=None to the existing union
+            # Instead, just add NullType and default=None to a copy of the union
+            attrs["types"] = list(attrs["types"])
             type_copy = UnionType(**attrs, **extra_attrs, **union_attrs)
         else:
             type_copy = UnionType([type_copy], **union_attrs)
-- 
2.43.0


From 5b90db304a7201506bd5bead2d114a2aeaa69d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:37 +0000
Subject: [PATCH 02/85] fix: references inside aliased types can be resolved at
 any depth

---
 recap/types.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index eb8e766..8c03279 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -339,6 +339,12 @@ class RecapTypeRegistry:
         # Define and register built-in aliases
         self._type_registry: dict[str, RecapType] = copy.deepcopy(BUILTIN_ALIASES)
 
+    def __deepcopy__(self, memo) -> RecapTypeRegistry:
+        # References share their registry. Copying a type must not freeze its
+        # references to the aliases that happen to be registered so far, or
+        # recursive and forward references can't be resolved in the copy.
+        return self
+
     def register_alias(self, recap_type: RecapType):
         alias = recap_type.alias
         if alias is None:
-- 
2.43.0


From 6f358304a089b462c9e3d9458675a68375ca6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:42 +0000
Subject: [PATCH 03/85] fix: doc, logical and bytes set on an alias reference
 survive resolution

---
 recap/types.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index 8c03279..c15dbc0 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -321,7 +321,14 @@ class ProxyType(RecapType):
         if self._resolved is None:
             self._resolved = copy.deepcopy(self.registry.from_alias(self.alias))
             # Apply attribute overrides
-            for attr, value in self.extra_attrs.items():
+            overrides = dict(self.extra_attrs)
+            if "bytes" in overrides and hasattr(self._resolved, "bytes_"):
+                overrides["bytes_"] = overrides.pop("bytes")
+            if self.logical is not None:
+                overrides["logical"] = self.logical
+            if self.doc is not None:
+                overrides["doc"] = self.doc
+            for attr, value in overrides.items():
                 if hasattr(self._resolved, attr):
                     setattr(self._resolved, attr, value)
                 else:
-- 
2.43.0


From ee7ae5deb506e5e948043ba04220d00956390503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:47 +0000
Subject: [PATCH 04/85] fix: nested lists in a list type are no longer dropped
 by from_dict

---
 recap/types.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index c15dbc0..13b6143 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -426,10 +426,7 @@ def from_dict(
         # If type is a list, handle as a union
         union_types = []
         for t in type_name:
-            if isinstance(t, dict):
-                union_types.append(from_dict(t, registry))
-            elif isinstance(t, str):
-                union_types.append(from_dict({"type": t}, registry))
+            union_types.append(from_dict(t, registry))
         recap_type = UnionType(union_types, **type_dict)
     elif isinstance(type_name, str):
         match type_name:
-- 
2.43.0


From accdd77258f5cd5495ae9c4092a67fe689d9032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:52 +0000
Subject: [PATCH 05/85] fix: to_dict no longer fails on aliases nested below an
 unaliased type

---
 recap/types.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 13b6143..bd6e7ef 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -753,8 +753,13 @@ def alias_dict(
     if type_dict.get("alias") is not None:
         return type_dict
 
-    registry = registry or RecapTypeRegistry()
-    recap_type = from_dict(type_dict, registry)
+    if registry is None:
+        registry = RecapTypeRegistry()
+        recap_type = from_dict(type_dict, registry)
+    else:
+        # The aliases in nested types were registered with the outermost type,
+        # so don't register them again.
+        recap_type = from_dict(type_dict, RecapTypeRegistry())
 
     # If there's a matching alias, replace the type_dict with it
     for alias, alias_type in registry._type_registry.items():
-- 
2.43.0


From 86ce79972bbf51f0017e7db6bd725456dd3d19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:54 +0000
Subject: [PATCH 06/85] fix: to_dict keeps name, doc and default of nullable
 unions with extra attributes

---
 recap/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index bd6e7ef..7d4ed84 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -715,6 +715,11 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
             attributes = {k: v for k, v in attributes.items() if v is not None}
             # Add attributes to the type_dict.
             type_dict |= attributes
+        else:
+            # No syntactic sugar, so put the standard attributes back.
+            attributes = {"alias": alias, "logical": logical, "doc": doc, "name": name}
+            type_dict |= {k: v for k, v in attributes.items() if v is not None}
+            type_dict["default"] = default
 
     # Shorten simple types {"type": "type"} to "type"
     if len(type_dict) == 1:
-- 
2.43.0


From 4db13b5e22671eaa1bcab904fcae26a3eafbabce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:58 +0000
Subject: [PATCH 07/85] fix: to_dict keeps attributes and unions nested in an
 optional union

---
 recap/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index 7d4ed84..2f6da00 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -701,7 +701,15 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
                 nested_type = type_dict["types"][0]
                 if isinstance(nested_type, str):
                     nested_type = {"type": nested_type}
-                type_dict = nested_type
+                # The union's attributes are moved to the nested type, so it must
+                # not have any of its own, and must not be a union itself.
+                if (
+                    isinstance(nested_type, dict)
+                    and nested_type["type"] != "union"
+                    and not nested_type.keys() & {"default", "name", "optional"}
+                    and not (doc is not None and "doc" in nested_type)
+                ):
+                    type_dict = nested_type
             assert isinstance(type_dict, dict), "Expected type_dict to be a dict."
             attributes = {
                 "alias": alias,
-- 
2.43.0


From 6cb2a9fc2a20ba0ae5abe455ee850c10494cbc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:18 +0000
Subject: [PATCH 08/85] fix: attribute values set on an alias reference are not
 shared with the resolved type

---
 recap/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index 2f6da00..32977ac 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -321,7 +321,7 @@ class ProxyType(RecapType):
         if self._resolved is None:
             self._resolved = copy.deepcopy(self.registry.from_alias(self.alias))
             # Apply attribute overrides
-            overrides = dict(self.extra_attrs)
+            overrides = copy.deepcopy(self.extra_attrs)
             if "bytes" in overrides and hasattr(self._resolved, "bytes_"):
                 overrides["bytes_"] = overrides.pop("bytes")
             if self.logical is not None:
-- 
2.43.0


From 4b51cbdcbfba302fe6869cff04946a5aa3ba78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:20 +0000
Subject: [PATCH 09/85] fix: registry PUT no longer overwrites a version
 created while it waits for its body

---
 recap/server/registry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 365bb63..818ee20 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -76,14 +76,16 @@ async def put(
     request: Request,
     storage: RegistryStorage = Depends(get_storage),
 ):
+    # Wait for the body before checking for the version. Otherwise, another
+    # request could create the version while this one is waiting.
+    type_ = await _request_to_type(request)
+
     if storage.get(name, version):
         raise HTTPException(
             status_code=409,
             detail=f"Type {name} version {version} already exists",
         )
 
-    type_ = await _request_to_type(request)
-
     return storage.put(name, type_, version)
 
 
-- 
2.43.0


From 7dc84b7fe482f34b97eb125ac5f6016193bad887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:26 +0000
Subject: [PATCH 10/85] fix: registry answers 400 instead of failing when a
 body is not UTF-8

---
 recap/server/registry.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 818ee20..8441627 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -99,16 +99,17 @@ async def _request_to_type(request: Request) -> RecapType:
         )
 
     type_bytes = await request.body()
-    type_str = type_bytes.decode("utf-8")
 
     try:
-        type_json = json.loads(type_str)
-    except json.JSONDecodeError:
-        # Assume payload is string alias if we can't decode as JSON.
-        # If it's not, from_dict will fail below.
-        type_json = type_str
+        type_str = type_bytes.decode("utf-8")
+
+        try:
+            type_json = json.loads(type_str)
+        except json.JSONDecodeError:
+            # Assume payload is string alias if we can't decode as JSON.
+            # If it's not, from_dict will fail below.
+            type_json = type_str
 
-    try:
         return from_dict(type_json)
     except Exception as e:
         raise HTTPException(
-- 
2.43.0


From 32e97cb4c2ea45a11bf68994e3a49d64ee891e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:32 +0000
Subject: [PATCH 11/85] fix: types named . or .. no longer escape their
 directory in registry storage

---
 recap/storage/registry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 2904d8d..dd9ae9a 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -25,7 +25,7 @@ class RegistryStorage:
         name: str,
         version: int | None = None,
     ) -> tuple[RecapType, int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = _quote_name(name)
 
         if version is None:
             versions = self.versions(name)
@@ -47,7 +47,7 @@ class RegistryStorage:
         type_: RecapType,
         version: int | None = None,
     ) -> int:
-        quoted_name = quote_plus(name)
+        quoted_name = _quote_name(name)
 
         if version is None:
             version = (self.latest(name) or 0) + 1
@@ -63,7 +63,7 @@ class RegistryStorage:
         return version
 
     def versions(self, name: str) -> list[int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = _quote_name(name)
         path_without_version = f"{self.root_path}/{quoted_name}"
 
         try:
@@ -81,3 +81,10 @@ class RegistryStorage:
         if not versions:
             return None
         return max(versions)
+
+
+def _quote_name(name: str) -> str:
+    # "." and ".." are valid names, but not directories of their own
+    if name in (".", ".."):
+        return name.replace(".", "%2E")
+    return quote_plus(name)
-- 
2.43.0


From 559f5fdb115622a6197130c411452c0dcfccebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:07 +0000
Subject: [PATCH 12/85] fix: a failed registry write no longer leaves a broken
 version

---
 recap/storage/registry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index dd9ae9a..e9b8186 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -53,12 +53,18 @@ class RegistryStorage:
             version = (self.latest(name) or 0) + 1
 
         path_without_version = f"{self.root_path}/{quoted_name}"
-        type_dict = to_dict(type_)
+        path = f"{path_without_version}/{version}.json"
+        type_json = json.dumps(to_dict(type_))
 
         self.fs.mkdirs(path_without_version, exist_ok=True)
 
-        with self.fs.open(f"{path_without_version}/{version}.json", "w") as f:
-            json.dump(type_dict, f)
+        # Write to a temporary file first, so a failed write never leaves an
+        # incomplete version, or destroys an existing one.
+        with self.fs.open(f"{path}.tmp", "w") as f:
+            f.write(type_json)
+
+        # Local file systems have mv_file, which (unlike mv) renames atomically
+        getattr(self.fs, "mv_file", self.fs.mv)(f"{path}.tmp", path)
 
         return version
 
@@ -71,6 +77,7 @@ class RegistryStorage:
                 [
                     int(Path(file_path).stem)
                     for file_path in self.fs.ls(path_without_version)
+                    if file_path.endswith(".json")
                 ]
             )
         except FileNotFoundError:
-- 
2.43.0


From e9e217722763ad01472dcfc0288e0675e2f316b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:13 +0000
Subject: [PATCH 13/85] fix: registry storage works with file systems that list
 details by default

---
 recap/storage/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index e9b8186..160d127 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -16,7 +16,7 @@ class RegistryStorage:
         return sorted(
             [
                 unquote_plus(file_path[len(self.root_path) + 1 :])
-                for file_path in self.fs.ls(self.root_path)
+                for file_path in self.fs.ls(self.root_path, detail=False)
             ]
         )
 
@@ -76,7 +76,7 @@ class RegistryStorage:
             return sorted(
                 [
                     int(Path(file_path).stem)
-                    for file_path in self.fs.ls(path_without_version)
+                    for file_path in self.fs.ls(path_without_version, detail=False)
                     if file_path.endswith(".json")
                 ]
             )
-- 
2.43.0


From 0eed60a0d82e6bf70d1c019234566537844dfcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:49 +0000
Subject: [PATCH 14/85] fix: Avro arrays and maps of unions can be read

---
 recap/converters/avro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 3e0d0b1..3704e71 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -251,14 +251,14 @@ class AvroConverter:
 
     def _parse(
         self,
-        avro_schema: dict | str,
+        avro_schema: dict | list | str,
         namespace: str | None,
     ) -> RecapType:
         return_type = None
         alias: str | None = None
         extra_attrs = {}
 
-        if isinstance(avro_schema, str):
+        if isinstance(avro_schema, (str, list)):
             avro_schema = {"type": avro_schema}
         if "doc" in avro_schema:
             extra_attrs["doc"] = avro_schema["doc"]
-- 
2.43.0


From ba960a8380eff1346bf4e42c1842152a060863fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:53 +0000
Subject: [PATCH 15/85] fix: doc of an Avro field with a nested type is read as
 its doc

---
 recap/converters/avro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 3704e71..a397494 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -347,6 +347,8 @@ class AvroConverter:
 
                 # Don't pass extra_attrs into _parse since we don't want field
                 # "name" to overwrite "alias" for record/enum/fixed.
+                if "doc" in extra_attrs:
+                    return_type.doc = extra_attrs.pop("doc")
                 return_type.extra_attrs |= extra_attrs
 
                 # Short circuit so we don't re-register aliases for nested types
-- 
2.43.0


From e4b7c81cf889487544735e7727398e85feffa1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:58 +0000
Subject: [PATCH 16/85] fix: Avro duration is read with a fixed length, so it
 can be written again

---
 recap/converters/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index a397494..89b8272 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -428,7 +428,7 @@ class AvroConverter:
                 return BytesType(
                     logical="build.recap.Interval",
                     bytes_=12,
-                    signed=True,
+                    variable=False,
                     unit="millisecond",
                     **extra_attrs,
                 )
-- 
2.43.0


From 28b68615fe5b304b00fd070802ce4c5f599cd33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:03 +0000
Subject: [PATCH 17/85] fix: Avro field names no longer define types, and named
 logical types do

---
 recap/converters/avro.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 89b8272..bf07017 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -253,6 +253,7 @@ class AvroConverter:
         self,
         avro_schema: dict | list | str,
         namespace: str | None,
+        is_field: bool = False,
     ) -> RecapType:
         return_type = None
         alias: str | None = None
@@ -271,11 +272,17 @@ class AvroConverter:
             if not namespace:
                 namespace = "_root"
             extra_attrs["name"] = name
-            alias = f"{namespace}.{name}"
+            # Only these types are named. The name of a field is not a type name.
+            if not is_field and avro_schema.get("type") in ("record", "enum", "fixed"):
+                alias = f"{namespace}.{name}"
         if "default" in avro_schema:
             extra_attrs["default"] = avro_schema["default"]
         if logical_type := avro_schema.get("logicalType"):
-            return self._parse_logical(logical_type, avro_schema, extra_attrs)
+            return_type = self._parse_logical(logical_type, avro_schema, extra_attrs)
+            return_type.alias = alias
+            if alias is not None:
+                self.registry.register_alias(return_type)
+            return return_type
 
         match avro_schema:
             case {"type": "null"}:
@@ -313,7 +320,7 @@ class AvroConverter:
                 )
             case {"type": "record", "fields": fields}:
                 fields = [
-                    self._parse(field, namespace)
+                    self._parse(field, namespace, is_field=True)
                     for field in avro_schema.get("fields", [])
                 ]
                 return_type = StructType(fields, alias=alias, **extra_attrs)
-- 
2.43.0


From 1a27a41fa9e4a2b21d1baf4e2b2f15431548cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:08 +0000
Subject: [PATCH 18/85] fix: built-in aliases without attributes are written to
 Avro as their Avro type

---
 recap/converters/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index bf07017..28e33b5 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -138,7 +138,7 @@ class AvroConverter:
                     if isinstance(alias_type, dict):
                         avro_schema |= alias_type
                     else:
-                        avro_schema["type"] = alias
+                        avro_schema["type"] = alias_type
                 else:
                     # Fully qualified (non-builtin) aliases should just be referenced.
                     avro_schema["type"] = alias
-- 
2.43.0


From 0a8ed169e700abce88a78c485004180532689d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 19/85] fix: strings and bytes without a length can be written
 to Avro

---
 recap/converters/avro.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 28e33b5..f304d88 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -90,12 +90,13 @@ class AvroConverter:
                 avro_schema["type"] = "float"
             case FloatType(bits=int(bits)) if bits <= 64:
                 avro_schema["type"] = "double"
-            case StringType(bytes_=int(bytes_)) if bytes_ <= 9_223_372_036_854_775_807:
+            case StringType(bytes_=bytes_) if (
+                bytes_ is None or bytes_ <= 9_223_372_036_854_775_807
+            ):
                 avro_schema["type"] = "string"
-            case BytesType(
-                bytes_=int(bytes_),
-                variable=True,
-            ) if bytes_ <= 9_223_372_036_854_775_807:
+            case BytesType(bytes_=bytes_, variable=True) if (
+                bytes_ is None or bytes_ <= 9_223_372_036_854_775_807
+            ):
                 avro_schema["type"] = "bytes"
             case BytesType(
                 bytes_=int(bytes_),
-- 
2.43.0


From 858e565fd2486f910b666e679b21a80bef8dc608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:17 +0000
Subject: [PATCH 20/85] fix: dates with another unit than days are not written
 as Avro dates

---
 recap/converters/avro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index f304d88..7f73913 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -174,7 +174,9 @@ class AvroConverter:
                     "scale": recap_type.extra_attrs.get("scale", 0),
                 }
             case IntType(bits=int(bits), signed=True, logical=str(logical)) if (
-                bits <= 32 and logical == "build.recap.Date"
+                bits <= 32
+                and logical == "build.recap.Date"
+                and recap_type.extra_attrs.get("unit", "day") == "day"
             ):
                 return {
                     "type": "int",
-- 
2.43.0


From 5d40c4310f8d87a8acaddf4e6ae47aa4fdee5eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:21 +0000
Subject: [PATCH 21/85] fix: maps whose keys are an alias of a string can be
 written to Avro

---
 recap/converters/avro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 7f73913..b760501 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -124,9 +124,9 @@ class AvroConverter:
             case ListType(values=values):
                 avro_schema["type"] = "array"
                 avro_schema["items"] = self._from_recap(values)
-            case MapType(
-                keys=StringType(),
-                values=values,
+            case MapType(keys=keys, values=values) if isinstance(
+                keys.resolve() if isinstance(keys, ProxyType) else keys,
+                StringType,
             ):  # Avro only supports string keys
                 avro_schema["type"] = "map"
                 avro_schema["values"] = self._from_recap(values)
-- 
2.43.0


From 8bffc36bc8d9a764af9cd58c7edc633a9d00b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:04 +0000
Subject: [PATCH 22/85] fix: references in written Avro schemas resolve when
 they are read back

---
 recap/converters/avro.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index b760501..8081ac0 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -1,3 +1,4 @@
+import copy
 import json
 from typing import Any
 
@@ -22,6 +23,8 @@ from recap.types import (
 class AvroConverter:
     def __init__(self) -> None:
         self.registry = RecapTypeRegistry()
+        # Types that have further names (Avro "aliases") besides their own
+        self._named_types: list[tuple[str, RecapType]] = []
 
     def from_recap(self, recap_type: RecapType) -> dict[str, Any]:
         """
@@ -247,7 +250,16 @@ class AvroConverter:
         namespace: str | None = None,
     ) -> StructType:
         avro_schema = json.loads(avro_schema_str)
+        self._named_types = []
         recap_schema = self._parse(avro_schema, namespace)
+        for alias, recap_type in self._named_types:
+            try:
+                recap_type = copy.copy(recap_type)
+                recap_type.alias = alias
+                self.registry.register_alias(recap_type)
+            except ValueError:
+                # Not a qualified name, or the name of another type
+                pass
         if not isinstance(recap_schema, StructType):
             raise ValueError("Avro schema must be a record")
         return recap_schema
@@ -283,8 +295,7 @@ class AvroConverter:
         if logical_type := avro_schema.get("logicalType"):
             return_type = self._parse_logical(logical_type, avro_schema, extra_attrs)
             return_type.alias = alias
-            if alias is not None:
-                self.registry.register_alias(return_type)
+            self._register(return_type, avro_schema)
             return return_type
 
         match avro_schema:
@@ -366,11 +377,19 @@ class AvroConverter:
             case _:
                 raise ValueError(f"Unsupported Avro schema: {avro_schema}")
 
-        if return_type.alias is not None:
-            self.registry.register_alias(return_type)
+        self._register(return_type, avro_schema)
 
         return return_type
 
+    def _register(self, recap_type: RecapType, avro_schema: dict) -> None:
+        if recap_type.alias is not None:
+            self.registry.register_alias(recap_type)
+        # from_recap() writes aliases of types as Avro aliases, and references them
+        for alias in avro_schema.get("aliases", []):
+            if "." in alias:
+                recap_type.alias = recap_type.alias or alias
+                self._named_types.append((alias, recap_type))
+
     def _parse_logical(
         self,
         logical_type: str,
-- 
2.43.0


From ecddd145a3b6c1b80b3729da582e6dda3403690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:08 +0000
Subject: [PATCH 23/85] fix: attributes that change a referenced type are no
 longer lost in Avro

---
 recap/converters/avro.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 8081ac0..b40da9c 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -70,7 +70,7 @@ class AvroConverter:
             avro_schema["aliases"] = [alias]
 
         match recap_type:
-            case RecapType(logical=str()):
+            case RecapType(logical=str()) if not isinstance(recap_type, ProxyType):
                 avro_schema |= self._from_recap_logical(recap_type)
             case NullType():
                 avro_schema["type"] = "null"
@@ -136,8 +136,9 @@ class AvroConverter:
             case UnionType(types=list(types)):
                 avro_schema["type"] = [self._from_recap(t) for t in types]
             case ProxyType(alias=str(alias)):
-                if "." not in alias:
-                    # Builtin types should be resolved
+                if "." not in alias or self._changes_type(recap_type):
+                    # Builtin types, and references to a type with other
+                    # attributes (e.g. more bits), should be resolved
                     alias_type = self._from_recap(recap_type.resolve())
                     if isinstance(alias_type, dict):
                         avro_schema |= alias_type
@@ -159,6 +160,12 @@ class AvroConverter:
 
         return avro_schema
 
+    def _changes_type(self, proxy_type: ProxyType) -> bool:
+        attrs = {f"{k}_" if k == "bytes" else k for k in proxy_type.extra_attrs}
+        return proxy_type.logical is not None or bool(
+            attrs and attrs & vars(proxy_type.resolve()).keys()
+        )
+
     def _from_recap_logical(self, recap_type: RecapType) -> dict[str, Any]:
         match recap_type:
             case BytesType(
-- 
2.43.0


From 7735babc351236cf42f3598cafb24bcd0875497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:22 +0000
Subject: [PATCH 24/85] fix: references to JSON schemas with an $id can be
 resolved

---
 recap/converters/json_schema.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 24721ae..efb452b 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -52,6 +52,21 @@ class JSONSchemaConverter:
         self,
         json_schema: dict | str,
         alias_strategy: AliasStrategy,
+    ) -> RecapType:
+        recap_type = self._parse_type(json_schema, alias_strategy)
+        if recap_type.alias is not None and not isinstance(recap_type, ProxyType):
+            try:
+                # Register the type, so references to it can be resolved
+                self.registry.register_alias(recap_type)
+            except ValueError:
+                # Already registered, or $id has no fully qualified alias
+                pass
+        return recap_type
+
+    def _parse_type(
+        self,
+        json_schema: dict | str,
+        alias_strategy: AliasStrategy,
     ) -> RecapType:
         extra_attrs = {}
         # Check if json_schema is just a string representing a basic type, and
-- 
2.43.0


From 74635b8c98a67e3cb251ce4bed35fb3f3809cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:26 +0000
Subject: [PATCH 25/85] fix: description and default of the first reference to
 a JSON schema are kept

---
 recap/converters/json_schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index efb452b..c7aee95 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -146,7 +146,11 @@ class JSONSchemaConverter:
                     self.json_registry = (
                         retrieved.registry @ self.json_registry
                     )  # pyright: ignore[reportGeneralTypeIssues]
-                    return self._parse(resource.contents, alias_strategy)
+                    recap_type = self._parse(resource.contents, alias_strategy)
+                    # Keep the description and default of this reference
+                    recap_type.doc = extra_attrs.pop("doc", recap_type.doc)
+                    recap_type.extra_attrs |= extra_attrs
+                    return recap_type
             case _:
                 raise ValueError(f"Unsupported JSON schema: {json_schema}")
 
-- 
2.43.0


From 7bddd343636d004e94e3126c00ae6de8266f36bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:32 +0000
Subject: [PATCH 26/85] fix: default and doc of an optional field are not
 replaced by those of its type in JSON schema

---
 recap/converters/json_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index c7aee95..ed420b6 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -235,7 +235,7 @@ class JSONSchemaConverter:
                 if field.is_optional:
                     non_null_types = [t for t in types if not isinstance(t, NullType)]
                     assert len(non_null_types) == 1
-                    type_dict |= self._convert_field(non_null_types[0])
+                    type_dict = self._convert_field(non_null_types[0]) | type_dict
                 else:
                     type_dict |= {"oneOf": [self._convert_field(t) for t in types]}
             case StructType():
-- 
2.43.0


From 00ac5120ff9f44c940c35323d776dfdcd952c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:36 +0000
Subject: [PATCH 27/85] fix: recursive structs can be written as JSON schema

---
 recap/converters/json_schema.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index ed420b6..7c5c5c2 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -272,9 +272,9 @@ class JSONSchemaConverter:
                 type_dict |= {"type": "string", "format": "byte"}
             case NullType():
                 type_dict |= {"type": "null"}
-            case ProxyType(alias=alias) if alias in BUILTIN_ALIASES or len(
-                field.extra_attrs
-            ) > 0:
+            case ProxyType(alias=alias) if (
+                alias in BUILTIN_ALIASES or self._changes_type(field)
+            ):
                 # If there are attribute overrides, we can't use refs. JSON
                 # schema doesn't support $def overrides. Also, if the alias
                 # is a built-in type, convert to standard types instead of $defs
@@ -285,6 +285,20 @@ class JSONSchemaConverter:
                 raise ValueError(f"Unsupported RecapType: {field.type_}")
         return type_dict
 
+    @staticmethod
+    def _changes_type(proxy_type: ProxyType) -> bool:
+        """
+        Check if a reference overrides attributes of the type it references.
+
+        :param proxy_type: The reference.
+        :return: True if the referenced type is overridden.
+        """
+
+        attrs = {f"{k}_" if k == "bytes" else k for k in proxy_type.extra_attrs}
+        return proxy_type.logical is not None or bool(
+            attrs & vars(proxy_type.resolve()).keys()
+        )
+
     @staticmethod
     def urn_to_alias(urn: str) -> str:
         """
-- 
2.43.0


From a6e574bf3ac798c522bfe703c718e61fb31195a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:41 +0000
Subject: [PATCH 28/85] fix: references no longer replace the definitions they
 refer to in JSON schema

---
 recap/converters/json_schema.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 7c5c5c2..9b5f855 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -171,33 +171,45 @@ class JSONSchemaConverter:
 
         return type_dict
 
-    def _generate_alias_defs(self, recap_type: RecapType) -> dict[str, Any]:
+    def _generate_alias_defs(
+        self,
+        recap_type: RecapType,
+        defs: dict[str, Any] | None = None,
+    ) -> dict[str, Any]:
         """
         Generate a dictionary of alias definitions for the given Recap type.
         Recursively generates definitions for any nested types, as well.
         This method is used to generate the "$defs" key in the top-level.
 
         :param recap_type: The Recap type to generate definitions for.
+        :param defs: The definitions generated so far.
         :return: A dictionary of alias definitions.
         """
 
-        defs = {}
+        defs = {} if defs is None else defs
 
-        if (alias := recap_type.alias) and alias not in BUILTIN_ALIASES:
+        if isinstance(recap_type, ProxyType):
+            # Only define referenced types if they're not defined already. The
+            # type that declares the alias (if there is one) has precedence.
+            alias = recap_type.alias
+            if alias not in BUILTIN_ALIASES and alias not in defs:
+                recap_type = recap_type.resolve()
+                defs[alias] = self._convert_field(recap_type, False)
+        elif (alias := recap_type.alias) and alias not in BUILTIN_ALIASES:
             # Don't use $ref for concrete types, since we're defining them,
             # not referencing them.
             defs[alias] = self._convert_field(recap_type, False)
 
         if isinstance(recap_type, StructType):
             for field in recap_type.fields:
-                defs |= self._generate_alias_defs(field)
+                self._generate_alias_defs(field, defs)
         elif isinstance(recap_type, ListType):
-            defs |= self._generate_alias_defs(recap_type.values)
+            self._generate_alias_defs(recap_type.values, defs)
         elif isinstance(recap_type, UnionType):
             for value in recap_type.types:
-                defs |= self._generate_alias_defs(value)
+                self._generate_alias_defs(value, defs)
         elif isinstance(recap_type, MapType):
-            defs |= self._generate_alias_defs(recap_type.values)
+            self._generate_alias_defs(recap_type.values, defs)
 
         return defs
 
-- 
2.43.0


From b5f69f9a9d6c676399abedf6afe235ef5e488e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:46 +0000
Subject: [PATCH 29/85] fix: an empty registry passed to the JSON schema
 converter is used for retrieval

---
 recap/converters/json_schema.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 9b5f855..01aefd9 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -32,8 +32,11 @@ AliasStrategy = Callable[[str], str]
 class JSONSchemaConverter:
     def __init__(self, json_registry: Registry | None = None):
         self.registry = RecapTypeRegistry()
-        self.json_registry = json_registry or Registry(
-            retrieve=JSONSchemaConverter.httpx_retrieve
+        # An empty registry is falsy, so don't use `or` here
+        self.json_registry = (
+            json_registry
+            if json_registry is not None
+            else Registry(retrieve=JSONSchemaConverter.httpx_retrieve)
         )
 
     def to_recap(
-- 
2.43.0


From 94ec0ef5bc2c000437b1c3e25338c4f2b10c3b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:31 +0000
Subject: [PATCH 30/85] fix: referenced JSON schemas that have to be retrieved
 can be read

---
 recap/converters/json_schema.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 01aefd9..c4c5963 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -146,9 +146,7 @@ class JSONSchemaConverter:
                     # type as a normal Recap type with an alias set.
                     retrieved = self.json_registry.get_or_retrieve(urn)
                     resource = retrieved.value
-                    self.json_registry = (
-                        retrieved.registry @ self.json_registry
-                    )  # pyright: ignore[reportGeneralTypeIssues]
+                    self.json_registry = retrieved.registry
                     recap_type = self._parse(resource.contents, alias_strategy)
                     # Keep the description and default of this reference
                     recap_type.doc = extra_attrs.pop("doc", recap_type.doc)
-- 
2.43.0


From c6ec6f08587507874bf6dfea20aeeb9eb9cb9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:35 +0000
Subject: [PATCH 31/85] fix: retrieved JSON schemas do not need a $schema

---
 recap/converters/json_schema.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index c4c5963..e8c0f7b 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -351,6 +351,9 @@ class JSONSchemaConverter:
         return dotted_type
 
     @staticmethod
-    @retrieval.to_cached_resource()
+    @retrieval.to_cached_resource(
+        # Retrieved schemas don't have to have a $schema
+        from_contents=jsonschema.DRAFT202012.create_resource
+    )
     def httpx_retrieve(uri: str):
         return httpx.get(uri).text
-- 
2.43.0


From 008c2881cb079b4704cde92a5604e551ca609533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:51 +0000
Subject: [PATCH 32/85] fix: each Protobuf definition is expanded at most once

---
 recap/converters/protobuf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index ec8833f..c0ab93b 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -60,8 +60,9 @@ class ProtobufConverter:
         resolved: set[str] | None = None,
         seen: set[str] | None = None,
     ) -> RecapType:
-        resolved = resolved or set()
-        seen = seen or set()
+        # Empty sets must be shared with the caller, too.
+        resolved = set() if resolved is None else resolved
+        seen = set() if seen is None else seen
 
         # Detect circular references.
         if not isinstance(recap_type, ProxyType) and recap_type.alias is not None:
-- 
2.43.0


From cf672d9dfa0fd92166bf4ad2e184a34cec6538a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:55 +0000
Subject: [PATCH 33/85] fix: Protobuf converter can be used again after a file
 without package

---
 recap/converters/protobuf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index c0ab93b..cfebd02 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -118,7 +118,8 @@ class ProtobufConverter:
         if root_message is None:
             raise ValueError("Protobuf schema must contain at least one Message")
 
-        self.namespaces.pop()
+        if packages:
+            self.namespaces.pop()
 
         return root_message
 
-- 
2.43.0


From 99394b2609650fff65c24c3dee9db96567de6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:58 +0000
Subject: [PATCH 34/85] fix: Protobuf maps with boolean keys can be read

---
 recap/converters/protobuf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index cfebd02..492946e 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -168,8 +168,8 @@ class ProtobufConverter:
     def _parse_map_field(self, field: MapField) -> RecapType:
         key_type = self._protobuf_type_to_recap_type(field.key_type)
 
-        # Proto map keys are always strings or integers.
-        assert isinstance(key_type, IntType) or isinstance(key_type, StringType)
+        # Proto map keys are always strings, integers, or booleans.
+        assert isinstance(key_type, (BoolType, IntType, StringType))
 
         value_type = self._protobuf_type_to_recap_type(field.value_type)
         map_type = UnionType(
-- 
2.43.0


From f7318e29a4a82269adb7e61cbaaa08fa7e0f638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:03 +0000
Subject: [PATCH 35/85] fix: fully qualified and nested Protobuf references can
 be resolved

---
 recap/converters/protobuf.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 492946e..6fa9480 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -40,6 +40,7 @@ class ProtobufConverter:
     def __init__(self, namespace: str = DEFAULT_NAMESPACE) -> None:
         self.namespaces = [namespace]
         self.registry = RecapTypeRegistry()
+        self.nested_aliases: dict[str, str] = {}
 
     def to_recap(
         self,
@@ -107,6 +108,8 @@ class ProtobufConverter:
         if packages:
             self.namespaces.append(packages[0].name)
 
+        self._gather_nested_aliases(file.file_elements, self.namespaces[-1])
+
         # Now parse messages and enums.
         for file_element in file.file_elements:
             if isinstance(file_element, Message):
@@ -123,6 +126,23 @@ class ProtobufConverter:
 
         return root_message
 
+    def _gather_nested_aliases(self, elements: list, scope: str) -> None:
+        """
+        Find the aliases of nested messages and enums. Their alias doesn't
+        contain the name of their parent message, but references to them can.
+
+        :param elements: The elements of a file or a message.
+        :param scope: The full name of the package or message.
+        """
+
+        for element in elements:
+            if isinstance(element, (Message, Enum)):
+                full_name = f"{scope}.{element.name}"
+                alias = f"{self.namespaces[-1]}.{element.name}"
+                self.nested_aliases[full_name] = alias
+                if isinstance(element, Message):
+                    self._gather_nested_aliases(element.elements, full_name)
+
     def _parse_message(self, message: Message) -> StructType:
         fields = []
 
@@ -188,6 +208,7 @@ class ProtobufConverter:
     def _protobuf_type_to_recap_type(self, protobuf_type: str) -> RecapType:
         # NOTE: Protobuf doesn't support type aliases, so we don't need to
         # register aliases here (or in oneof, map, etc).
+        protobuf_type = protobuf_type.removeprefix(".")
         match protobuf_type:
             case "string":
                 return StringType(bytes_=2_147_483_648, variable=True)
@@ -252,6 +273,15 @@ class ProtobufConverter:
                     if "." in protobuf_type
                     else f"{self.namespaces[-1]}.{protobuf_type}"
                 )
+                # References can contain the names of parent messages.
+                for full_name, nested_alias in self.nested_aliases.items():
+                    if full_name == protobuf_type or (
+                        full_name.startswith(f"{self.namespaces[-1]}.")
+                        and full_name.endswith(f".{protobuf_type}")
+                    ):
+                        alias = nested_alias
+                        if full_name == protobuf_type:
+                            break
                 return ProxyType(alias, self.registry)
 
     def _parse_oneof(self, oneof: OneOf) -> RecapType:
-- 
2.43.0


From afdeb44b21acd12db0eb95c7a65c7dc267b72bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:46 +0000
Subject: [PATCH 36/85] fix: strings and bytes as read from Protobuf, or
 without a length, can be written to Protobuf

---
 recap/converters/protobuf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 6fa9480..e0ff8ca 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -459,9 +459,13 @@ class ProtobufConverter:
                     "Invalid bit size for FloatType. Protobuf supports only 32 "
                     "or 64 bits for floating-point types."
                 )
-            case StringType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case StringType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "string")
-            case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_648:
+                return Field(field_name, field_number, "bytes")
+            case StringType(bytes_=None):
+                return Field(field_name, field_number, "string")
+            case BytesType(bytes_=None):
                 return Field(field_name, field_number, "bytes")
             case ListType(values=values):
                 nested_field = self._recap_to_field(values, field_number, package)
-- 
2.43.0


From 73436fca928f72905afc479db6cef6a196747743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:51 +0000
Subject: [PATCH 37/85] fix: fields after a Protobuf oneof no longer reuse its
 field numbers

---
 recap/converters/protobuf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index e0ff8ca..c5d5f3a 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -353,10 +353,12 @@ class ProtobufConverter:
                 message_elements: list[MessageElement] = []
 
                 for field in recap_type.fields:
-                    message_elements.append(
-                        self._recap_to_field(field, field_number, package)
+                    element = self._recap_to_field(field, field_number, package)
+                    message_elements.append(element)
+                    # The fields of a oneof have their own field numbers.
+                    field_number += (
+                        len(element.elements) if isinstance(element, OneOf) else 1
                     )
-                    field_number += 1
                     self._from_recap_gather_types(field, package_to_types)
 
                 package_to_types.setdefault(package, []).append(
-- 
2.43.0


From 1c517575fe256cd7fc0f09849ba6fb968be8b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:57 +0000
Subject: [PATCH 38/85] fix: names of nullable fields and lists are kept in
 Protobuf

---
 recap/converters/protobuf.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index c5d5f3a..0fc574e 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -418,6 +418,7 @@ class ProtobufConverter:
         recap_type: RecapType,
         field_number: int,
         package: str,
+        default_name: str | None = None,
     ) -> Field | MapField | OneOf:
         """
         Convert a Recap type to a Protobuf field. This method is recursive and
@@ -426,10 +427,14 @@ class ProtobufConverter:
         :param recap_type: The Recap type to convert.
         :param field_number: The field number to assign to the field.
         :param package: The package of the field.
+        :param default_name: The name to use if the type has no name.
         :return: The Protobuf field.
         """
 
-        field_name = recap_type.extra_attrs.get("name", f"field_{field_number}")
+        field_name = recap_type.extra_attrs.get(
+            "name",
+            default_name or f"field_{field_number}",
+        )
         match recap_type:
             case NullType():
                 return Field(field_name, field_number, "google.protobuf.NullValue")
@@ -470,7 +475,12 @@ class ProtobufConverter:
             case BytesType(bytes_=None):
                 return Field(field_name, field_number, "bytes")
             case ListType(values=values):
-                nested_field = self._recap_to_field(values, field_number, package)
+                nested_field = self._recap_to_field(
+                    values,
+                    field_number,
+                    package,
+                    field_name,
+                )
                 assert isinstance(
                     nested_field,
                     Field,
@@ -499,6 +509,7 @@ class ProtobufConverter:
                         non_null_types[0],
                         field_number,
                         package,
+                        field_name,
                     )
                     assert isinstance(field, Field), "Maps can't be nullable."
                     field.cardinality = FieldCardinality.OPTIONAL
-- 
2.43.0


From 2e29f93824a464c9562a89a75bb1f73ba5a70967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:03 +0000
Subject: [PATCH 39/85] fix: nullable lists and maps are written to Protobuf as
 repeated fields and maps

---
 recap/converters/protobuf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 0fc574e..c9f6a49 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -511,8 +511,9 @@ class ProtobufConverter:
                         package,
                         field_name,
                     )
-                    assert isinstance(field, Field), "Maps can't be nullable."
-                    field.cardinality = FieldCardinality.OPTIONAL
+                    # Lists and maps are empty rather than null in Protobuf.
+                    if isinstance(field, Field) and field.cardinality is None:
+                        field.cardinality = FieldCardinality.OPTIONAL
                     return field
                 else:
                     # Multiple non-null types means this is a true union of multiple types.
-- 
2.43.0


From dedffd033efc4559b14447e99a1566f6a8a2352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:45 +0000
Subject: [PATCH 40/85] fix: nested lists, maps and unions that Protobuf cannot
 hold are rejected instead of flattened

---
 recap/converters/protobuf.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index c9f6a49..d35e965 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -481,20 +481,29 @@ class ProtobufConverter:
                     package,
                     field_name,
                 )
-                assert isinstance(
-                    nested_field,
-                    Field,
-                ), "Maps and unions can't be repeated (lists)."
+                assert (
+                    isinstance(nested_field, Field)
+                    and nested_field.cardinality != FieldCardinality.REPEATED
+                ), "Lists, maps, and unions can't be repeated (lists)."
                 nested_field.cardinality = FieldCardinality.REPEATED
                 return nested_field
             case MapType(keys=keys, values=values):
                 # 0 field_number because we ignore it. We just need types.
                 key_field = self._recap_to_field(keys, 0, package)
                 value_field = self._recap_to_field(values, 0, package)
-                assert isinstance(
-                    key_field, Field
-                ), "Key must be integral or string type."
-                assert isinstance(value_field, Field), "Value must not be a map type."
+                assert isinstance(key_field, Field) and key_field.type in {
+                    "bool",
+                    "int32",
+                    "int64",
+                    "string",
+                    "uint32",
+                    "uint64",
+                }, "Key must be integral or string type."
+                assert key_field.cardinality is None, "Key must not be a list or null."
+                assert (
+                    isinstance(value_field, Field)
+                    and value_field.cardinality != FieldCardinality.REPEATED
+                ), "Value must not be a list, map, or union type."
                 return MapField(
                     field_name,
                     field_number,
@@ -526,6 +535,12 @@ class ProtobufConverter:
                             oneof_field_num,
                             package,
                         )
+                        assert (
+                            isinstance(field, Field)
+                            and field.cardinality != FieldCardinality.REPEATED
+                        ), "Lists, maps, and unions can't be in a union."
+                        # Fields in a oneof have no cardinality.
+                        field.cardinality = None
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
-- 
2.43.0


From d86b08df051e2a5ce60144ee8b8069d71235a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:49 +0000
Subject: [PATCH 41/85] fix: every reference in a written Protobuf file names a
 declaration in it

---
 recap/converters/protobuf.py | 87 ++++++++++++++++++++++++++++++++++++
 1 file changed, 87 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index d35e965..404bdc9 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from proto_schema_parser.ast import (
     Enum,
     EnumElement,
@@ -315,6 +317,10 @@ class ProtobufConverter:
         """Convert a Recap type to a Protobuf type."""
         assert struct_type.alias is not None, "Struct must have an alias."
         package_to_types: dict[str, list[Message | Enum]] = {}
+        struct_type = self._inline_references(  # pyright: ignore[reportGeneralTypeIssues]
+            struct_type,
+            self._declared_aliases(struct_type),
+        )
         self._from_recap_gather_types(struct_type, package_to_types)
         # Lexicographical sort always puts the root package first.
         package = sorted(package_to_types.keys())[0]
@@ -329,6 +335,75 @@ class ProtobufConverter:
             + self._from_recap_construct_elements(package, package_to_types)  # type: ignore
         )
 
+    def _declared_aliases(self, recap_type: RecapType) -> set[str]:
+        """
+        Find the aliases of all struct and enum types in a Recap type.
+
+        :param recap_type: The Recap type.
+        :return: The aliases that are declared in the Recap type.
+        """
+
+        aliases = set()
+        match recap_type:
+            case StructType(alias=alias) | EnumType(alias=alias) if alias is not None:
+                aliases.add(alias)
+        for nested_type in self._nested_types(recap_type):
+            aliases |= self._declared_aliases(nested_type)
+        return aliases
+
+    @staticmethod
+    def _nested_types(recap_type: RecapType) -> list[RecapType]:
+        match recap_type:
+            case StructType(fields=types) | UnionType(types=types):
+                return types
+            case ListType(values=values):
+                return [values]
+            case MapType(keys=keys, values=values):
+                return [keys, values]
+        return []
+
+    def _inline_references(
+        self,
+        recap_type: RecapType,
+        declared: set[str],
+    ) -> RecapType:
+        """
+        Replace references to types that aren't declared in the proto file with
+        the types they refer to: only messages and enums can be declared, so
+        built-in and other aliases must be written out.
+
+        :param recap_type: The Recap type.
+        :param declared: Aliases of the messages and enums in the proto file.
+        :return: A copy of the Recap type without other references.
+        """
+
+        if isinstance(recap_type, ProxyType):
+            if recap_type.alias in declared:
+                return recap_type
+            resolved = recap_type.resolve()
+            if "name" not in recap_type.extra_attrs:
+                # This is the name of the field that declares the alias.
+                resolved.extra_attrs.pop("name", None)
+            if isinstance(resolved, (EnumType, StructType)):
+                resolved.alias = recap_type.alias
+                declared.add(str(resolved.alias))
+            return self._inline_references(resolved, declared)
+
+        recap_type = copy(recap_type)
+        match recap_type:
+            case StructType(fields=fields):
+                recap_type.fields = [
+                    self._inline_references(f, declared) for f in fields
+                ]
+            case UnionType(types=types):
+                recap_type.types = [self._inline_references(t, declared) for t in types]
+            case ListType(values=values):
+                recap_type.values = self._inline_references(values, declared)
+            case MapType(keys=keys, values=values):
+                recap_type.keys = self._inline_references(keys, declared)
+                recap_type.values = self._inline_references(values, declared)
+        return recap_type
+
     def _from_recap_gather_types(
         self,
         recap_type: RecapType,
@@ -349,6 +424,8 @@ class ProtobufConverter:
                 assert recap_type.alias is not None, "Struct must have an alias."
                 assert "." in recap_type.alias, "Alias must have dotted package."
                 package, message_name = recap_type.alias.rsplit(".", 1)
+                if self._is_declared(package, message_name, package_to_types):
+                    return
                 field_number = 1
                 message_elements: list[MessageElement] = []
 
@@ -378,6 +455,8 @@ class ProtobufConverter:
             case EnumType(symbols=symbols):
                 assert recap_type.alias is not None, "Enum must have an alias."
                 enum_package, enum_name = recap_type.alias.rsplit(".", 1)
+                if self._is_declared(enum_package, enum_name, package_to_types):
+                    return
                 elements: list[EnumElement] = [
                     EnumValue(symbol, idx)
                     for symbol, idx in zip(
@@ -387,6 +466,14 @@ class ProtobufConverter:
                 enum = Enum(enum_name, elements)
                 package_to_types.setdefault(enum_package, []).append(enum)
 
+    @staticmethod
+    def _is_declared(
+        package: str,
+        name: str,
+        package_to_types: dict[str, list[Message | Enum]],
+    ) -> bool:
+        return any(t.name == name for t in package_to_types.get(package, []))
+
     def _from_recap_construct_elements(
         self,
         package: str,
-- 
2.43.0


From 9735ab7a29da340b40fa4b3ae8faa893745dd86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:53 +0000
Subject: [PATCH 42/85] fix: types in packages that a Protobuf file cannot
 declare are rejected instead of dropped

---
 recap/converters/protobuf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 404bdc9..e6eb66f 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -324,9 +324,15 @@ class ProtobufConverter:
         self._from_recap_gather_types(struct_type, package_to_types)
         # Lexicographical sort always puts the root package first.
         package = sorted(package_to_types.keys())[0]
-        # Verify all subpackages are under the root package.
+        # Verify all subpackages are messages under the root package.
+        message_names = {
+            f"{message_package}.{message.name}"
+            for message_package, messages in package_to_types.items()
+            for message in messages
+            if isinstance(message, Message)
+        }
         for subpackage in package_to_types.keys():
-            assert subpackage.startswith(package), (
+            assert subpackage == package or subpackage in message_names, (
                 "Proto files must contain messages in a single root package space, "
                 f"but found root={package} and subpackage={subpackage}."
             )
-- 
2.43.0


From 64c2d742185bcf8b13bff1a441f3762af0f9c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:58 +0000
Subject: [PATCH 43/85] fix: the root message comes first in written Protobuf
 files, so it is the root when read

---
 recap/converters/protobuf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index e6eb66f..bffd2a6 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -322,6 +322,14 @@ class ProtobufConverter:
             self._declared_aliases(struct_type),
         )
         self._from_recap_gather_types(struct_type, package_to_types)
+        # The root message is gathered last, but must be the first message.
+        root_types = package_to_types[str(struct_type.alias).rsplit(".", 1)[0]]
+        root_message = root_types.pop()
+        first_message = next(
+            (i for i, t in enumerate(root_types) if isinstance(t, Message)),
+            len(root_types),
+        )
+        root_types.insert(first_message, root_message)
         # Lexicographical sort always puts the root package first.
         package = sorted(package_to_types.keys())[0]
         # Verify all subpackages are messages under the root package.
-- 
2.43.0


From d6cc744ce5d94eb0a022252fae56a15ddfefdb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:54 +0000
Subject: [PATCH 44/85] fix: Protobuf messages and enums with the same name in
 different messages can be read

---
 recap/converters/protobuf.py | 59 +++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index bffd2a6..8031b76 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -42,7 +42,10 @@ class ProtobufConverter:
     def __init__(self, namespace: str = DEFAULT_NAMESPACE) -> None:
         self.namespaces = [namespace]
         self.registry = RecapTypeRegistry()
-        self.nested_aliases: dict[str, str] = {}
+        # Aliases of messages and enums by their full name.
+        self.aliases: dict[str, str] = {}
+        # Full name of the package or message that's being parsed.
+        self.scope = namespace
 
     def to_recap(
         self,
@@ -110,7 +113,8 @@ class ProtobufConverter:
         if packages:
             self.namespaces.append(packages[0].name)
 
-        self._gather_nested_aliases(file.file_elements, self.namespaces[-1])
+        self.scope = self.namespaces[-1]
+        self._gather_aliases(file.file_elements, self.scope)
 
         # Now parse messages and enums.
         for file_element in file.file_elements:
@@ -128,25 +132,34 @@ class ProtobufConverter:
 
         return root_message
 
-    def _gather_nested_aliases(self, elements: list, scope: str) -> None:
+    def _gather_aliases(self, elements: list, scope: str) -> None:
         """
-        Find the aliases of nested messages and enums. Their alias doesn't
-        contain the name of their parent message, but references to them can.
+        Find the aliases of messages and enums. The alias of a nested message
+        or enum doesn't contain the name of its parent message, unless there's
+        another message or enum with that alias.
 
         :param elements: The elements of a file or a message.
         :param scope: The full name of the package or message.
         """
 
-        for element in elements:
-            if isinstance(element, (Message, Enum)):
-                full_name = f"{scope}.{element.name}"
-                alias = f"{self.namespaces[-1]}.{element.name}"
-                self.nested_aliases[full_name] = alias
-                if isinstance(element, Message):
-                    self._gather_nested_aliases(element.elements, full_name)
+        definitions = [e for e in elements if isinstance(e, (Message, Enum))]
+        for definition in definitions:
+            full_name = f"{scope}.{definition.name}"
+            alias = f"{self.namespaces[-1]}.{definition.name}"
+            if alias in self.aliases.values() and scope != self.namespaces[-1]:
+                alias = full_name
+            self.aliases[full_name] = alias
+        for definition in definitions:
+            if isinstance(definition, Message):
+                self._gather_aliases(
+                    definition.elements,
+                    f"{scope}.{definition.name}",
+                )
 
     def _parse_message(self, message: Message) -> StructType:
         fields = []
+        parent_scope = self.scope
+        self.scope = f"{parent_scope}.{message.name}"
 
         for element in message.elements:
             if isinstance(element, Field):
@@ -165,8 +178,9 @@ class ProtobufConverter:
 
         struct_type = StructType(
             fields=fields,
-            alias=f"{self.namespaces[-1]}.{message.name}",
+            alias=self.aliases[self.scope],
         )
+        self.scope = parent_scope
 
         self.registry.register_alias(struct_type)
 
@@ -210,6 +224,8 @@ class ProtobufConverter:
     def _protobuf_type_to_recap_type(self, protobuf_type: str) -> RecapType:
         # NOTE: Protobuf doesn't support type aliases, so we don't need to
         # register aliases here (or in oneof, map, etc).
+        # Names with a leading dot start from the root, all others from the scope.
+        scope = self.namespaces[-1] if protobuf_type.startswith(".") else self.scope
         protobuf_type = protobuf_type.removeprefix(".")
         match protobuf_type:
             case "string":
@@ -275,16 +291,11 @@ class ProtobufConverter:
                     if "." in protobuf_type
                     else f"{self.namespaces[-1]}.{protobuf_type}"
                 )
-                # References can contain the names of parent messages.
-                for full_name, nested_alias in self.nested_aliases.items():
-                    if full_name == protobuf_type or (
-                        full_name.startswith(f"{self.namespaces[-1]}.")
-                        and full_name.endswith(f".{protobuf_type}")
-                    ):
-                        alias = nested_alias
-                        if full_name == protobuf_type:
-                            break
-                return ProxyType(alias, self.registry)
+                # Names are looked up from the innermost scope outwards.
+                while scope and f"{scope}.{protobuf_type}" not in self.aliases:
+                    scope = scope.rpartition(".")[0]
+                full_name = f"{scope}.{protobuf_type}" if scope else protobuf_type
+                return ProxyType(self.aliases.get(full_name, alias), self.registry)
 
     def _parse_oneof(self, oneof: OneOf) -> RecapType:
         types: list[RecapType] = [NullType()]
@@ -308,7 +319,7 @@ class ProtobufConverter:
                 symbols.append(element.name)
         enum_type = EnumType(
             symbols=symbols,
-            alias=f"{self.namespaces[-1]}.{enum.name}",
+            alias=self.aliases[f"{self.scope}.{enum.name}"],
         )
         self.registry.register_alias(enum_type)
         return enum_type
-- 
2.43.0


From 2afc83c67d3aef3090d2c8b5d396fe339913967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:24 +0000
Subject: [PATCH 45/85] fix: PostgreSQL arrays of smallint and boolean can be
 read

---
 recap/converters/postgresql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index d5c17cf..921c524 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -50,13 +50,13 @@ class PostgresqlConverter(DbapiConverter):
             base_type = IntType(bits=64, signed=True)
         elif data_type in ["integer", "int", "int4", "serial", "serial4"]:
             base_type = IntType(bits=32, signed=True)
-        elif data_type in ["smallint", "smallserial", "serial2"]:
+        elif data_type in ["smallint", "int2", "smallserial", "serial2"]:
             base_type = IntType(bits=16, signed=True)
         elif data_type in ["double precision", "float8"]:
             base_type = FloatType(bits=64)
         elif data_type in ["real", "float4"]:
             base_type = FloatType(bits=32)
-        elif data_type == "boolean":
+        elif data_type in ["boolean", "bool"]:
             base_type = BoolType()
         elif (
             data_type in ["text", "json", "jsonb"]
-- 
2.43.0


From d1504e179d06264c787c8423e158e14968af3a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:28 +0000
Subject: [PATCH 46/85] fix: PostgreSQL arrays of timestamps and numerics can
 be read

---
 recap/converters/postgresql.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index 921c524..7d18916 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -79,7 +79,8 @@ class PostgresqlConverter(DbapiConverter):
             base_type = BytesType(bytes_=byte_length, variable=False)
         elif data_type.startswith("timestamp"):
             dt_precision = column_props["DATETIME_PRECISION"]
-            unit = self._get_time_unit([dt_precision]) or "microsecond"
+            params = [dt_precision] if dt_precision is not None else None
+            unit = self._get_time_unit(params) or "microsecond"
             base_type = IntType(
                 bits=64,
                 logical="build.recap.Timestamp",
@@ -112,6 +113,10 @@ class PostgresqlConverter(DbapiConverter):
                     "CHARACTER_OCTET_LENGTH": MAX_FIELD_SIZE,
                     # * 8 because bit columns use bits not bytes.
                     "CHARACTER_MAXIMUM_LENGTH": MAX_FIELD_SIZE * 8,
+                    "NUMERIC_PRECISION": None,
+                    "NUMERIC_SCALE": None,
+                    "DATETIME_PRECISION": None,
+                    "ENUM_VALUES": None,
                     "UDT_NAME": None,
                     "ATTNDIMS": 0,
                 }
-- 
2.43.0


From dc0868c1e4cc49887be4ec701e6e33909d1ed9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:31 +0000
Subject: [PATCH 47/85] fix: PostgreSQL types that only start like a built-in
 type are rejected

---
 recap/converters/postgresql.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index 7d18916..6495481 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -58,13 +58,11 @@ class PostgresqlConverter(DbapiConverter):
             base_type = FloatType(bits=32)
         elif data_type in ["boolean", "bool"]:
             base_type = BoolType()
-        elif (
-            data_type in ["text", "json", "jsonb"]
-            or data_type.startswith("character varying")
-            or data_type.startswith("varchar")
+        elif data_type in ["text", "json", "jsonb"] or self._is_type(
+            data_type, "character varying", "varchar"
         ):
             base_type = StringType(bytes_=octet_length, variable=True)
-        elif data_type.startswith("char"):
+        elif self._is_type(data_type, "char", "character"):
             base_type = StringType(bytes_=octet_length, variable=False)
         elif data_type == "uuid":
             base_type = StringType(
@@ -72,12 +70,12 @@ class PostgresqlConverter(DbapiConverter):
                 bytes_=36,
                 variable=False,
             )
-        elif data_type == "bytea" or data_type.startswith("bit varying"):
+        elif data_type == "bytea" or self._is_type(data_type, "bit varying"):
             base_type = BytesType(bytes_=MAX_FIELD_SIZE, variable=True)
-        elif data_type.startswith("bit"):
+        elif self._is_type(data_type, "bit"):
             byte_length = ceil(max_length / 8)
             base_type = BytesType(bytes_=byte_length, variable=False)
-        elif data_type.startswith("timestamp"):
+        elif self._is_type(data_type, "timestamp", "timestamptz"):
             dt_precision = column_props["DATETIME_PRECISION"]
             params = [dt_precision] if dt_precision is not None else None
             unit = self._get_time_unit(params) or "microsecond"
@@ -86,7 +84,7 @@ class PostgresqlConverter(DbapiConverter):
                 logical="build.recap.Timestamp",
                 unit=unit,
             )
-        elif data_type.startswith("decimal") or data_type.startswith("numeric"):
+        elif self._is_type(data_type, "decimal", "numeric"):
             base_type = BytesType(
                 logical="build.recap.Decimal",
                 bytes_=32,
@@ -153,6 +151,19 @@ class PostgresqlConverter(DbapiConverter):
 
         return base_type
 
+    @staticmethod
+    def _is_type(data_type: str, *names: str) -> bool:
+        """
+        :return: True if `data_type` is one of the named types, possibly followed
+            by parameters or modifiers (`varchar(10)`, `timestamp with time zone`).
+            A user-defined type whose name merely starts the same way (`bitmask`)
+            is not.
+        """
+        return any(
+            data_type == name or data_type.startswith((f"{name}(", f"{name} "))
+            for name in names
+        )
+
     def _create_n_dimension_list(self, base_type: RecapType, ndims: int) -> RecapType:
         """
         Build a list type with `ndims` dimensions containing nullable `base_type` as the innermost value type.
-- 
2.43.0


From 3a439e205715ae611db2300a6414d381ec04631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:35 +0000
Subject: [PATCH 48/85] fix: PostgreSQL tables with array columns can be read,
 whatever the names and however often

---
 recap/clients/postgresql.py    |  4 ++--
 recap/converters/postgresql.py | 29 +++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 246d043..ce0eb05 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -52,9 +52,9 @@ class PostgresqlClient(DbapiClient):
     def __init__(
         self,
         connection: Connection,
-        converter: PostgresqlConverter = PostgresqlConverter(),
+        converter: PostgresqlConverter | None = None,
     ) -> None:
-        super().__init__(connection, converter)
+        super().__init__(connection, converter or PostgresqlConverter())
 
     @staticmethod
     @contextmanager
diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index 6495481..3c214d4 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -1,4 +1,5 @@
 from math import ceil
+from re import sub
 from typing import Any
 
 from recap.converters.dbapi import DbapiConverter
@@ -14,6 +15,7 @@ from recap.types import (
     RecapType,
     RecapTypeRegistry,
     StringType,
+    StructType,
     UnionType,
 )
 
@@ -38,6 +40,12 @@ class PostgresqlConverter(DbapiConverter):
         self.namespace = namespace
         self.registry = RecapTypeRegistry()
 
+    def to_recap(self, columns: list[dict[str, Any]]) -> StructType:
+        # Aliases belong to the table that is read. Start over, so that the same
+        # table (or another one with the same column names) can be read again.
+        self.registry = RecapTypeRegistry()
+        return super().to_recap(columns)
+
     def _parse_type(self, column_props: dict[str, Any]) -> RecapType:
         column_name = column_props["COLUMN_NAME"]
         data_type = column_props["DATA_TYPE"].lower()
@@ -122,8 +130,7 @@ class PostgresqlConverter(DbapiConverter):
             if self.enforce_array_dimensions:
                 base_type = self._create_n_dimension_list(value_type, ndims)
             else:
-                column_name_without_periods = column_name.replace(".", "_")
-                base_type_alias = f"{self.namespace}.{column_name_without_periods}"
+                base_type_alias = self._unused_alias(column_name)
                 # Construct a self-referencing list comprised of the array's value
                 # type and a proxy to the list itself. This allows arrays to be an
                 # arbitrary number of dimensions, which is how PostgreSQL treats
@@ -151,6 +158,24 @@ class PostgresqlConverter(DbapiConverter):
 
         return base_type
 
+    def _unused_alias(self, column_name: str) -> str:
+        """
+        :return: An alias for the column in the converter's namespace. Characters
+            that aliases cannot contain are replaced, and a number is added if
+            another column already has the alias (`a.b` and `a_b`).
+        """
+        name = sub(r"[^a-zA-Z0-9_]", "_", column_name)
+        if not name or name[0].isdigit():
+            name = f"_{name}"
+        alias, number = f"{self.namespace}.{name}", 1
+        while True:
+            try:
+                self.registry.from_alias(alias)
+            except TypeError:
+                return alias
+            number += 1
+            alias = f"{self.namespace}.{name}_{number}"
+
     @staticmethod
     def _is_type(data_type: str, *names: str) -> bool:
         """
-- 
2.43.0


From f2e39fb6d73c9c4a00c74d92cc5ea87d26f5eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:39 +0000
Subject: [PATCH 49/85] fix: PostgreSQL enum symbols are read in their declared
 order

---
 recap/clients/postgresql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index ce0eb05..013984c 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -111,7 +111,7 @@ class PostgresqlClient(DbapiClient):
                 LEFT JOIN (
                     SELECT
                         enumtypid,
-                        array_agg(enumlabel) AS enum_values
+                        array_agg(enumlabel ORDER BY enumsortorder) AS enum_values
                     FROM pg_catalog.pg_enum
                     GROUP BY enumtypid
                 ) enums ON enums.enumtypid = pg_catalog.pg_type.oid
-- 
2.43.0


From c80fa38b49a054345b36002dd6c7d238d388d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:43 +0000
Subject: [PATCH 50/85] fix: any SQLite table name can be read, and generated
 columns are included

---
 recap/clients/sqlite.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 0cf65a2..e49e7cc 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -80,12 +80,15 @@ class SQLiteClient:
     def schema(self, table: str) -> StructType:
         cursor = self.connection.cursor()
 
-        # Validate that table exists since we want to prevent SQL injections in
-        # the PRAGMA call
         if not self._table_exists(table):
             raise ValueError(f"Table '{table}' does not exist in the database.")
 
-        cursor.execute(f"PRAGMA table_info({table});")
+        # Generated columns are only in table_xinfo. Columns that are hidden = 1
+        # are internal columns of virtual tables.
+        cursor.execute(
+            "SELECT * FROM pragma_table_xinfo(?) WHERE hidden <> 1 ORDER BY cid",
+            (table,),
+        )
         names = [name[0].upper() for name in cursor.description]
         rows = []
 
@@ -101,7 +104,7 @@ class SQLiteClient:
         SQLite does not have an INFORMATION_SCHEMA, so we need to add these
         columns.
 
-        :param row: A row from the PRAGMA table_info() query.
+        :param row: A row from the table_xinfo pragma.
         :return: The row with the INFORMATION_SCHEMA columns added.
         """
 
-- 
2.43.0


From 5f2b56b20eb7b85b09ed8d4aef94c61af9c6d425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:47 +0000
Subject: [PATCH 51/85] fix: parameters of SQLite types written with spaces are
 read

---
 recap/clients/sqlite.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index e49e7cc..34c356e 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -122,19 +122,18 @@ class SQLiteClient:
 
         # Extract precision, scale, and octet length.
         # This regex matches the following patterns:
-        # - <type>(<param1>(, <param2>)?)
+        # - <type> (<param1>(, <param2>)?)
         # param1 can be a precision or octet length, and param2 can be a scale.
-        numeric_pattern = re_compile(r"(\w+)\((\d+)(?:,\s*(\d+))?\)")
+        numeric_pattern = re_compile(r"\(\s*(\d+)\s*(?:,\s*(\d+)\s*)?\)")
         param_match = numeric_pattern.search(row["TYPE"])
 
         if param_match:
             # Extract matched values
-            base_type, precision, scale = param_match.groups()
-            base_type = base_type.upper()
+            precision, scale = param_match.groups()
             precision = int(precision)
             scale = int(scale) if scale else 0
 
-            match SQLiteConverter.get_affinity(base_type):
+            match SQLiteConverter.get_affinity(row["TYPE"]):
                 case SQLiteAffinity.INTEGER | SQLiteAffinity.REAL | SQLiteAffinity.NUMERIC:
                     information_schema_cols["NUMERIC_PRECISION"] = precision
                     information_schema_cols["NUMERIC_SCALE"] = scale
-- 
2.43.0


From 4a6f108da4fc410adb532e3c19061550df8aa312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:26 +0000
Subject: [PATCH 52/85] fix: BigQuery BOOL fields can be read like BOOLEAN
 fields

---
 recap/converters/bigquery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/bigquery.py b/recap/converters/bigquery.py
index 7532d13..b8ec413 100644
--- a/recap/converters/bigquery.py
+++ b/recap/converters/bigquery.py
@@ -30,7 +30,7 @@ class BigQueryConverter:
                     field_type = IntType(bits=64)
                 case "FLOAT" | "FLOAT64":
                     field_type = FloatType(bits=64)
-                case "BOOLEAN":
+                case "BOOLEAN" | "BOOL":
                     field_type = BoolType()
                 case "TIMESTAMP" | "DATETIME":
                     field_type = IntType(
-- 
2.43.0


From f2d9c9522e67683e4e131233b906d88ee13a5555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:32 +0000
Subject: [PATCH 53/85] fix: lists and maps in Hive unions keep their
 attributes and gain no others

---
 recap/converters/hive_metastore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/hive_metastore.py b/recap/converters/hive_metastore.py
index 996eb7f..ca65a69 100644
--- a/recap/converters/hive_metastore.py
+++ b/recap/converters/hive_metastore.py
@@ -216,13 +216,13 @@ class HiveMetastoreConverter:
         elif isinstance(recap_type, ListType):
             return ListType(
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                **extra_attrs,
             )
         elif isinstance(recap_type, MapType):
             return MapType(
                 keys=self._flatten_unions(recap_type.keys),
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                **extra_attrs,
             )
         else:
             # No nested union type to flatten
-- 
2.43.0


From 4bc1cc15cd0aeda3a32ccedffa0ab5558688a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:31 +0000
Subject: [PATCH 54/85] fix: listed URLs keep IPv6 hosts and the slashes of
 file URLs

---
 recap/settings.py | 60 ++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 0ec5c5c..75da95c 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -1,7 +1,7 @@
 import os
 from pathlib import Path
 from typing import Any
-from urllib.parse import parse_qs, urlencode, urlsplit, urlunsplit
+from urllib.parse import parse_qs, urlencode, urlsplit
 
 from dotenv import load_dotenv
 from pydantic import AnyUrl, Field
@@ -24,6 +24,20 @@ def mkdirs():
 mkdirs()
 
 
+def _unsplit(scheme: str, netloc: str, path: str, query: str, fragment: str) -> str:
+    """
+    Like `urlunsplit`, but always with a double slash, even if netloc is empty
+    (e.g. bigquery:// or sqlite:///some/file.db).
+    """
+
+    url = f"{scheme}://{netloc}{path}"
+    if query:
+        url += f"?{query}"
+    if fragment:
+        url += f"#{fragment}"
+    return url
+
+
 class RecapSettings(BaseSettings):
     urls: list[AnyUrl] = Field(default_factory=list)
     registry_storage_url: AnyUrl = Field(default=DEFAULT_REGISTRY_STORAGE_PATH.as_uri())
@@ -45,17 +59,11 @@ class RecapSettings(BaseSettings):
 
         for url in self.urls:
             split_url = urlsplit(str(url))
-            netloc = split_url.netloc
-
-            if split_url.username or split_url.password:
-                if split_url.hostname is not None:
-                    netloc = split_url.hostname
-
-                if split_url.port is not None:
-                    netloc += f":{split_url.port}"
+            # Remove user and password, but keep the host as it is ([::1], too).
+            netloc = split_url.netloc.rpartition("@")[2]
 
-            sanitized_url = urlunsplit(
-                (
+            safe_urls_list.append(
+                _unsplit(
                     split_url.scheme,
                     netloc,
                     split_url.path.rstrip("/"),
@@ -64,14 +72,6 @@ class RecapSettings(BaseSettings):
                 )
             )
 
-            # urlunsplit does not double slashes if netloc is empty. But most
-            # URLs with empty netloc should have a double slash (e.g.
-            # bigquery:// or sqlite:///some/file.db).
-            if not netloc:
-                sanitized_url = sanitized_url.replace(":", "://", 1)
-
-            safe_urls_list.append(sanitized_url)
-
         return safe_urls_list
 
     def unsafe_url(self, url: str, strict: bool = True) -> str:
@@ -109,24 +109,14 @@ class RecapSettings(BaseSettings):
                 merged_qs = unsafe_qs | url_qs
                 query = urlencode(merged_qs, doseq=True)
 
-                merged_url = urlunsplit(
-                    (
-                        url_split.scheme,
-                        netloc,
-                        url_path.rstrip("/"),
-                        query,
-                        url_split.fragment or unsafe_url_split.fragment,
-                    )
+                return _unsplit(
+                    url_split.scheme,
+                    netloc,
+                    url_path.rstrip("/"),
+                    query,
+                    url_split.fragment or unsafe_url_split.fragment,
                 )
 
-                # urlunsplit does not double slashes if netloc is empty. But most
-                # URLs with empty netloc should have a double slash (e.g.
-                # bigquery:// or sqlite:///some/file.db).
-                if not netloc:
-                    merged_url = merged_url.replace(":", "://", 1)
-
-                return merged_url
-
         if strict:
             raise ValueError(f"URL must be configured in Recap settings: {url}")
 
-- 
2.43.0


From c43c2b6173cd28cf2eec9f49a236050257d5ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:37 +0000
Subject: [PATCH 55/85] fix: configured URLs without a path are found in strict
 mode

---
 recap/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/settings.py b/recap/settings.py
index 75da95c..b669235 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -97,7 +97,9 @@ class RecapSettings(BaseSettings):
                 unsafe_url_split.scheme == url_split.scheme
                 and unsafe_url_split.hostname == url_split.hostname
                 and unsafe_url_split.port == url_split.port
-                and url_path.startswith(Path(unsafe_url_split.path).as_posix())
+                and url_path.startswith(
+                    Path(unsafe_url_split.path or "/").as_posix()
+                )
             ):
                 netloc = unsafe_url_split.netloc
 
-- 
2.43.0


From 6be218e6377f110721c0e9e562ac3e51e41102d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:41 +0000
Subject: [PATCH 56/85] fix: credentials are not used for paths that only start
 like the configured one

---
 recap/settings.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index b669235..96f2c59 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -38,6 +38,16 @@ def _unsplit(scheme: str, netloc: str, path: str, query: str, fragment: str) ->
     return url
 
 
+def _is_below(path: str, parent: str) -> bool:
+    """
+    :return: True if the components of `path` start with those of `parent`.
+    """
+
+    parts = [part for part in path.split("/") if part not in ("", ".")]
+    parent_parts = [part for part in parent.split("/") if part not in ("", ".")]
+    return ".." not in parts and parts[: len(parent_parts)] == parent_parts
+
+
 class RecapSettings(BaseSettings):
     urls: list[AnyUrl] = Field(default_factory=list)
     registry_storage_url: AnyUrl = Field(default=DEFAULT_REGISTRY_STORAGE_PATH.as_uri())
@@ -80,7 +90,8 @@ class RecapSettings(BaseSettings):
         into the input URL and return it. Merging occurs if:
 
         - The input URL's scheme, hostname, and port match a URL in settings.
-        - The input URL's path starts with the settings URL's path.
+        - The input URL's path is the settings URL's path or is below it. Paths that
+          contain `..` are not considered to be below anything.
 
         :param url: URL to merge
         :param strict: If True, raise an error if the URL is not configured in settings.
@@ -97,9 +108,7 @@ class RecapSettings(BaseSettings):
                 unsafe_url_split.scheme == url_split.scheme
                 and unsafe_url_split.hostname == url_split.hostname
                 and unsafe_url_split.port == url_split.port
-                and url_path.startswith(
-                    Path(unsafe_url_split.path or "/").as_posix()
-                )
+                and _is_below(url_path, unsafe_url_split.path)
             ):
                 netloc = unsafe_url_split.netloc
 
-- 
2.43.0


From fb7e3c62905c515375b6e38c34ec6922d2d35309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:46 +0000
Subject: [PATCH 57/85] fix: query parameters no longer replace host, path or
 scheme of a URL

---
 recap/clients/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index fe91054..653e8d1 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -57,7 +57,7 @@ def parse_url(method: str, url: str, strict: bool = True) -> tuple[str, list[Any
     :return: Tuple of connection URL and list of method arguments.
     """
 
-    url_args = _url_to_dict(url)
+    url_args = _url_to_dict(url) | {"query": urlparse(url).query}
     scheme = url_args["scheme"]
 
     if client_path := CLIENTS.get(scheme):
@@ -124,7 +124,12 @@ def _url_to_dict(url: str) -> dict[str, str]:
     parsed_qs = {
         key: value[0] if len(value) == 1 else value for key, value in parsed_qs.items()
     }
-    parsed_dict |= parsed_qs
+
+    # Query parameters can add to the URL's components, but not replace them
+    # (except for the query itself, if there is a parameter with that name).
+    for key, value in parsed_qs.items():
+        if key == "query" or parsed_dict.get(key) in (None, ""):
+            parsed_dict[key] = value
 
     return parsed_dict
 
-- 
2.43.0


From 9cbc17c3e24da6dceb6d02798185fb6f1f2e734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:50 +0000
Subject: [PATCH 58/85] fix: encoded characters in user and password of a URL
 are decoded

---
 recap/clients/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index 653e8d1..b00ddd0 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from contextlib import contextmanager
 from importlib import import_module
 from typing import Any, Generator, Protocol
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs, unquote, urlparse
 
 from recap.settings import RecapSettings
 from recap.types import StructType
@@ -111,7 +111,12 @@ def _url_to_dict(url: str) -> dict[str, str]:
         parsed_dict["driver"] = driver
         url = url.replace(f"{dialect}+{driver}://", f"{dialect}://")
 
-    if username := parsed_url.username:
+    # Special characters in user and password have to be encoded in URLs
+    for field in ["username", "password"]:
+        if parsed_dict[field]:
+            parsed_dict[field] = unquote(parsed_dict[field])
+
+    if username := parsed_dict["username"]:
         parsed_dict["user"] = username
 
     if hostname := parsed_url.hostname:
-- 
2.43.0


From 153c283c860a1e64504653a716eeed6a0a45bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:54 +0000
Subject: [PATCH 59/85] fix: Confluent registry and Hive metastore URLs can be
 listed and read

---
 recap/clients/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index b00ddd0..7f3eeda 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -65,6 +65,12 @@ def parse_url(method: str, url: str, strict: bool = True) -> tuple[str, list[Any
         module = import_module(module_path)
         client_class = getattr(module, class_name)
         connection_url, method_args = client_class.parse(method, **url_args)
+        if (dialect := url_args.get("dialect")) and connection_url.startswith(
+            f"{dialect}://"
+        ):
+            # Keep the driver, so that the connection URL can be opened (and found
+            # in settings).
+            connection_url = connection_url.replace(dialect, scheme, 1)
         return (settings.unsafe_url(connection_url, strict), method_args)
     else:
         raise ValueError(f"No clients available for scheme: {scheme}")
-- 
2.43.0


From 22bfacece0ee9749df6e958838b3af8ca833d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:58 +0000
Subject: [PATCH 60/85] fix: BigQuery URLs can be listed

---
 recap/clients/bigquery.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/recap/clients/bigquery.py b/recap/clients/bigquery.py
index 5434ada..b70a526 100644
--- a/recap/clients/bigquery.py
+++ b/recap/clients/bigquery.py
@@ -29,13 +29,18 @@ class BigQueryClient:
             case _:
                 raise ValueError("Invalid method")
 
-    def ls(self, project: str | None = None, dataset: str | None = None) -> list[str]:
-        match (project, dataset):
-            case (None, None):
+    def ls(
+        self,
+        project: str | None = None,
+        dataset: str | None = None,
+        table: str | None = None,
+    ) -> list[str]:
+        match (project, dataset, table):
+            case (None, None, None):
                 return self.ls_projects()
-            case (str(project), None):
+            case (str(project), None, None):
                 return self.ls_datasets(project)
-            case (str(project), str(dataset)):
+            case (str(project), str(dataset), None):
                 return self.ls_tables(project, dataset)
             case _:
                 raise ValueError("Invalid arguments")
-- 
2.43.0


From 8cab077d7bfbf4eee0e51fcd602a2623e1685696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:04 +0000
Subject: [PATCH 61/85] fix: Hive metastore URLs without port or with an IPv6
 host can be used

---
 recap/clients/hive_metastore.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/recap/clients/hive_metastore.py b/recap/clients/hive_metastore.py
index 4ae4d62..587ccf9 100644
--- a/recap/clients/hive_metastore.py
+++ b/recap/clients/hive_metastore.py
@@ -25,8 +25,14 @@ class HiveMetastoreClient:
 
     @staticmethod
     @contextmanager
-    def create(host: str, port: int, **_) -> Generator[HiveMetastoreClient, None, None]:
-        with HMS.create(host, port) as client:
+    def create(
+        host: str,
+        port: int | None = None,
+        **_,
+    ) -> Generator[HiveMetastoreClient, None, None]:
+        # Use the metastore's default port if there's none
+        args = {"host": host} | ({"port": port} if port else {})
+        with HMS.create(**args) as client:
             yield HiveMetastoreClient(client)
 
     @staticmethod
@@ -37,7 +43,9 @@ class HiveMetastoreClient:
         include_stats: str | None = None,
         **url_args,
     ) -> tuple[str, list[Any]]:
-        clean_url = f"thrift://{url_args['host']}"
+        host = url_args["host"]
+        # IPv6 addresses need brackets
+        clean_url = f"thrift://[{host}]" if ":" in host else f"thrift://{host}"
         if url_args["port"]:
             clean_url += f":{url_args['port']}"
         match method:
-- 
2.43.0


From 0cc72394888b96180232feffe7f5d4e83f9cb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:10 +0000
Subject: [PATCH 62/85] fix: the database of a Snowflake URL is used for the
 connection

---
 recap/clients/snowflake.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index b604992..db48b77 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -20,9 +20,9 @@ class SnowflakeClient(DbapiClient):
         snowflake_args["account"] = url_args.pop("host")
 
         match url_args.get("paths"):
-            case str(database), None:
+            case [str(database)]:
                 snowflake_args["database"] = database
-            case str(database), str(schema):
+            case [str(database), str(schema)]:
                 snowflake_args["database"] = database
                 snowflake_args["schema"] = schema
 
-- 
2.43.0


From 8a552d893b739aae3d195f6d4c2228c0e5e28622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:14 +0000
Subject: [PATCH 63/85] fix: MySQL and Snowflake URLs without a port can be
 used

---
 recap/clients/mysql.py     | 9 +++++++--
 recap/clients/snowflake.py | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/recap/clients/mysql.py b/recap/clients/mysql.py
index 004e40f..b3e594b 100644
--- a/recap/clients/mysql.py
+++ b/recap/clients/mysql.py
@@ -26,8 +26,13 @@ class MysqlClient(DbapiClient):
         if paths:
             url_args["database"] = paths[0]
 
-        # Only include kwargs that are valid for the MySQL connector
-        kwargs = {k: v for k, v in url_args.items() if k in DEFAULT_CONFIGURATION}
+        # Only include kwargs that are valid for the MySQL connector, and don't
+        # replace the defaults with components that the URL doesn't have.
+        kwargs = {
+            k: v
+            for k, v in url_args.items()
+            if k in DEFAULT_CONFIGURATION and v is not None
+        }
 
         with mysql.connector.connect(**kwargs) as client:
             yield MysqlClient(client)  # type: ignore
diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index db48b77..33ef42d 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -26,6 +26,9 @@ class SnowflakeClient(DbapiClient):
                 snowflake_args["database"] = database
                 snowflake_args["schema"] = schema
 
+        # Components that the URL doesn't have should not replace the defaults
+        url_args = {k: v for k, v in url_args.items() if v is not None}
+
         with snowflake.connector.connect(**(snowflake_args | url_args)) as client:
             yield SnowflakeClient(client)  # type: ignore
 
-- 
2.43.0


From 848d294d13f90570834881b23852dad4be845e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:19 +0000
Subject: [PATCH 64/85] fix: tables of SQLite databases with an absolute path
 can be read

---
 recap/clients/sqlite.py | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 34c356e..6bf4aa0 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -41,32 +41,21 @@ class SQLiteClient:
 
     @staticmethod
     def parse(method: str, **url_args) -> tuple[str, list[Any]]:
-        from urllib.parse import urlunparse
-
         match method:
             case "ls":
                 return (url_args["url"], [])
             case "schema":
-                table = url_args["paths"].pop(-1)
-                connection_url = urlunparse(
-                    [
-                        url_args.get("dialect") or url_args.get("scheme"),
-                        url_args.get("netloc"),
-                        # Include / prefix for paths
-                        "/".join(url_args.get("paths", [])),
-                        url_args.get("params"),
-                        url_args.get("query"),
-                        url_args.get("fragment"),
-                    ]
-                )
-
-                # urlunsplit does not double slashes if netloc is empty. But most
-                # URLs with empty netloc should have a double slash (e.g.
-                # bigquery:// or sqlite:///some/file.db). Include an extra "/"
-                # because the root path is not included with an empty netloc
-                # and join().
-                if not url_args.get("netloc"):
-                    connection_url = connection_url.replace(":", ":///", 1)
+                # Everything before the last / is the path of the database. Its
+                # first / separates it from the (empty) host: sqlite:///file.db
+                # is relative and sqlite:////file.db is absolute.
+                path, _, table = url_args["path"].rpartition("/")
+                if not path.strip("/"):
+                    raise ValueError("URL must contain a database and a table")
+                connection_url = f"sqlite://{url_args.get('netloc') or ''}{path}"
+                if query := url_args.get("query"):
+                    connection_url += f"?{query}"
+                if fragment := url_args.get("fragment"):
+                    connection_url += f"#{fragment}"
 
                 return (connection_url, [table])
             case _:
-- 
2.43.0


From ef2352f33c6c71adf3249e5ce2f635061b59524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:23 +0000
Subject: [PATCH 65/85] fix: query parameters of SQLite URLs are not part of
 the file name

---
 recap/clients/sqlite.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 6bf4aa0..363bdda 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -8,15 +8,14 @@ from recap.clients.dbapi import Connection
 from recap.converters.sqlite import SQLiteAffinity, SQLiteConverter
 from recap.types import StructType
 
+# Query parameters for sqlite3.connect(), and how to convert them from a string
 SQLITE3_CONNECT_ARGS = {
-    "database",
-    "timeout",
-    "detect_types",
-    "isolation_level",
-    "check_same_thread",
-    "factory",
-    "cached_statements",
-    "uri",
+    "timeout": float,
+    "detect_types": int,
+    "isolation_level": str,
+    "check_same_thread": lambda value: value.lower() not in ("0", "false"),
+    "cached_statements": int,
+    "uri": lambda value: value.lower() not in ("0", "false"),
 }
 
 
@@ -31,10 +30,19 @@ class SQLiteClient:
         import sqlite3
 
         # Strip sqlite:/// URL prefix
-        url_args["database"] = url[len("sqlite:///") :]
+        database = url[len("sqlite:///") :]
 
-        # Only include kwargs that are valid for PsycoPG2 parse_dsn()
-        url_args = {k: v for k, v in url_args.items() if k in SQLITE3_CONNECT_ARGS}
+        # Only SQLite's own URIs contain parameters
+        if not database.startswith("file:"):
+            database = database.partition("#")[0].partition("?")[0]
+
+        # Only include kwargs that are valid for sqlite3.connect()
+        url_args = {
+            k: SQLITE3_CONNECT_ARGS[k](v)
+            for k, v in url_args.items()
+            if k in SQLITE3_CONNECT_ARGS
+        }
+        url_args["database"] = database
 
         with sqlite3.connect(**url_args) as client:
             yield SQLiteClient(client)  # type: ignore
-- 
2.43.0


From 79ec08a017e4c83b490a1faaea0849ba987b7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:28 +0000
Subject: [PATCH 66/85] fix: relative paths of files do not lose their first
 character

---
 recap/clients/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/clients/fs.py b/recap/clients/fs.py
index 1a1496b..abd8dd7 100644
--- a/recap/clients/fs.py
+++ b/recap/clients/fs.py
@@ -26,8 +26,11 @@ class FilesystemClient:
 
         if split_url.netloc:
             path += split_url.netloc + "/"
-        if split_url.path:
+        if split_url.path.startswith("/"):
             path += split_url.path[1:] + "/"
+        elif split_url.path:
+            # Relative paths are only possible without scheme and host
+            path = split_url.path + "/"
 
         return (root_url, [path])
 
-- 
2.43.0


From 6b175b2be3cf7a1983e10b26b2eafee8be312594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:33 +0000
Subject: [PATCH 67/85] fix: query parameters of Confluent registry URLs are
 not part of the registry's URL

---
 recap/clients/confluent_registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/clients/confluent_registry.py b/recap/clients/confluent_registry.py
index 54c6563..e161dc6 100644
--- a/recap/clients/confluent_registry.py
+++ b/recap/clients/confluent_registry.py
@@ -26,6 +26,9 @@ class ConfluentRegistryClient:
         # Filter out kwargs that are not allowed by the SchemaRegistryClient
         url_args = {k: v for k, v in url_args.items() if k in ALLOWED_ATTRS}
 
+        # The client appends paths to the URL, so it can't have a query or fragment
+        url_args["url"] = url_args["url"].partition("#")[0].partition("?")[0]
+
         with SchemaRegistryClient(url_args) as registry:
             yield ConfluentRegistryClient(registry)
 
-- 
2.43.0


From 28c9b5989312566d5767279debbcff1efadae7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:39 +0000
Subject: [PATCH 68/85] fix: connections to PostgreSQL and SQLite are closed

---
 recap/clients/postgresql.py | 5 +++--
 recap/clients/sqlite.py     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 013984c..3f96dbd 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from contextlib import contextmanager
+from contextlib import closing, contextmanager
 from typing import Generator
 
 from recap.clients.dbapi import Connection, DbapiClient
@@ -70,7 +70,8 @@ class PostgresqlClient(DbapiClient):
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in PSYCOPG2_CONNECT_ARGS}
 
-        with psycopg2.connect(**url_args) as client:
+        # A connection's own context manager only ends its transaction
+        with closing(psycopg2.connect(**url_args)) as client:
             yield PostgresqlClient(client)
 
     def ls_catalogs(self) -> list[str]:
diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 363bdda..37d3012 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from contextlib import contextmanager
+from contextlib import closing, contextmanager
 from re import compile as re_compile
 from typing import Any, Generator
 
@@ -44,7 +44,8 @@ class SQLiteClient:
         }
         url_args["database"] = database
 
-        with sqlite3.connect(**url_args) as client:
+        # A connection's own context manager only ends its transaction
+        with closing(sqlite3.connect(**url_args)) as client:
             yield SQLiteClient(client)  # type: ignore
 
     @staticmethod
-- 
2.43.0


From 0daf5423ca8c3db9b461fecbc7a29708aa180186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:24 +0000
Subject: [PATCH 69/85] fix: configured http URLs with an internationalized
 host are found and keep their credentials

---
 recap/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/settings.py b/recap/settings.py
index 96f2c59..d2655fa 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -102,7 +102,7 @@ class RecapSettings(BaseSettings):
         url_path = Path(url_split.path or "/").as_posix()
 
         for unsafe_url in self.urls:
-            unsafe_url_split = urlsplit(unsafe_url.unicode_string())
+            unsafe_url_split = urlsplit(str(unsafe_url))
 
             if (
                 unsafe_url_split.scheme == url_split.scheme
-- 
2.43.0


From baeb3c476b9e4e7ddc79d5d0c6796c21c736103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:27 +0000
Subject: [PATCH 70/85] fix: query parameters no longer replace account and
 database of a Snowflake URL

---
 recap/clients/snowflake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index 33ef42d..3480a16 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -29,7 +29,7 @@ class SnowflakeClient(DbapiClient):
         # Components that the URL doesn't have should not replace the defaults
         url_args = {k: v for k, v in url_args.items() if v is not None}
 
-        with snowflake.connector.connect(**(snowflake_args | url_args)) as client:
+        with snowflake.connector.connect(**(url_args | snowflake_args)) as client:
             yield SnowflakeClient(client)  # type: ignore
 
     def ls_catalogs(self) -> list[str]:
-- 
2.43.0


From ad54bb686b05388ea348daa970928ea3e8f6d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:31 +0000
Subject: [PATCH 71/85] fix: query parameters no longer become part of a URL's
 host or path

---
 recap/clients/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index 7f3eeda..713a271 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -139,7 +139,10 @@ def _url_to_dict(url: str) -> dict[str, str]:
     # Query parameters can add to the URL's components, but not replace them
     # (except for the query itself, if there is a parameter with that name).
     for key, value in parsed_qs.items():
-        if key == "query" or parsed_dict.get(key) in (None, ""):
+        if key == "query" or (
+            key not in ("netloc", "path", "params", "fragment")
+            and parsed_dict.get(key) in (None, "")
+        ):
             parsed_dict[key] = value
 
     return parsed_dict
-- 
2.43.0


From 600e44fd33a825aeceb762055f788d20b6498ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:37 +0000
Subject: [PATCH 72/85] fix: the command line prints Protobuf schemas as they
 are

rich.print wraps long lines and interprets [tags] and :emoji: codes, which
changes the text of the schema.
---
 recap/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/cli.py b/recap/cli.py
index 6de5dba..5e01fbd 100644
--- a/recap/cli.py
+++ b/recap/cli.py
@@ -1,7 +1,7 @@
 from typing import Annotated, Optional
 
 import typer
-from rich import print, print_json
+from rich import print_json
 
 from recap import commands
 
-- 
2.43.0


From 8ef9632fdcefa49990d1e6b20ac57cc79c1c1b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:34 +0000
Subject: [PATCH 73/85] fix: writing Protobuf doesn't change what the
 references of a type resolve to

---
 recap/converters/protobuf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 8031b76..8dbe0d7 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -1,4 +1,4 @@
-from copy import copy
+from copy import copy, deepcopy
 
 from proto_schema_parser.ast import (
     Enum,
@@ -405,7 +405,8 @@ class ProtobufConverter:
         if isinstance(recap_type, ProxyType):
             if recap_type.alias in declared:
                 return recap_type
-            resolved = recap_type.resolve()
+            # References keep what they resolve to, so don't change it.
+            resolved = deepcopy(recap_type.resolve())
             if "name" not in recap_type.extra_attrs:
                 # This is the name of the field that declares the alias.
                 resolved.extra_attrs.pop("name", None)
-- 
2.43.0


From ead408423918c1579c53b324594ef6fe0d552f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:47 +0000
Subject: [PATCH 74/85] fix: Avro schemas no longer refer to the alias of a
 map's keys

---
 recap/converters/avro.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index b40da9c..d31128f 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -1,5 +1,6 @@
 import copy
 import json
+from collections.abc import Iterator
 from typing import Any
 
 from recap.types import (
@@ -25,6 +26,9 @@ class AvroConverter:
         self.registry = RecapTypeRegistry()
         # Types that have further names (Avro "aliases") besides their own
         self._named_types: list[tuple[str, RecapType]] = []
+        # Aliases of map keys. An Avro map has no schema for its keys, so there
+        # is nothing that a reference to such an alias could refer to.
+        self._key_aliases: set[str] = set()
 
     def from_recap(self, recap_type: RecapType) -> dict[str, Any]:
         """
@@ -34,11 +38,24 @@ class AvroConverter:
         :return: The Avro schema.
         """
 
+        self._key_aliases = set(self._map_key_aliases(recap_type))
         avro_schema = self._from_recap(recap_type)
         if isinstance(avro_schema, str):
             avro_schema = {"type": avro_schema}
         return avro_schema
 
+    def _map_key_aliases(self, recap_type: RecapType) -> Iterator[str]:
+        match recap_type:
+            case StructType(fields=types) | UnionType(types=types):
+                for type_ in types:
+                    yield from self._map_key_aliases(type_)
+            case ListType(values=values):
+                yield from self._map_key_aliases(values)
+            case MapType(keys=keys, values=values):
+                if keys.alias and not isinstance(keys, ProxyType):
+                    yield keys.alias
+                yield from self._map_key_aliases(values)
+
     def _from_recap(
         self,
         recap_type: RecapType,
@@ -136,9 +153,14 @@ class AvroConverter:
             case UnionType(types=list(types)):
                 avro_schema["type"] = [self._from_recap(t) for t in types]
             case ProxyType(alias=str(alias)):
-                if "." not in alias or self._changes_type(recap_type):
-                    # Builtin types, and references to a type with other
-                    # attributes (e.g. more bits), should be resolved
+                if (
+                    "." not in alias
+                    or alias in self._key_aliases
+                    or self._changes_type(recap_type)
+                ):
+                    # Builtin types, types of map keys, and references to a
+                    # type with other attributes (e.g. more bits), should be
+                    # resolved
                     alias_type = self._from_recap(recap_type.resolve())
                     if isinstance(alias_type, dict):
                         avro_schema |= alias_type
-- 
2.43.0


From 40da3820b2c8b186d6b20c0334fef4f4080aa805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 75/85] fix: recursive types that are referred to by the alias
 of a list, map or union can be written to Protobuf

---
 recap/converters/protobuf.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 8dbe0d7..b918115 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -391,6 +391,7 @@ class ProtobufConverter:
         self,
         recap_type: RecapType,
         declared: set[str],
+        inlined: bool = False,
     ) -> RecapType:
         """
         Replace references to types that aren't declared in the proto file with
@@ -399,6 +400,7 @@ class ProtobufConverter:
 
         :param recap_type: The Recap type.
         :param declared: Aliases of the messages and enums in the proto file.
+        :param inlined: Whether the Recap type is part of a written out alias.
         :return: A copy of the Recap type without other references.
         """
 
@@ -412,22 +414,39 @@ class ProtobufConverter:
                 resolved.extra_attrs.pop("name", None)
             if isinstance(resolved, (EnumType, StructType)):
                 resolved.alias = recap_type.alias
-                declared.add(str(resolved.alias))
-            return self._inline_references(resolved, declared)
+            return self._inline_references(resolved, declared, True)
+
+        if (
+            inlined
+            and isinstance(recap_type, (EnumType, StructType))
+            and recap_type.alias is not None
+        ):
+            if recap_type.alias in declared:
+                # Already declared, so it must not be declared again.
+                return ProxyType(
+                    recap_type.alias, self.registry, **recap_type.extra_attrs
+                )
+            declared.add(recap_type.alias)
 
         recap_type = copy(recap_type)
         match recap_type:
             case StructType(fields=fields):
                 recap_type.fields = [
-                    self._inline_references(f, declared) for f in fields
+                    self._inline_references(f, declared, inlined) for f in fields
                 ]
             case UnionType(types=types):
-                recap_type.types = [self._inline_references(t, declared) for t in types]
+                recap_type.types = [
+                    self._inline_references(t, declared, inlined) for t in types
+                ]
             case ListType(values=values):
-                recap_type.values = self._inline_references(values, declared)
+                recap_type.values = self._inline_references(
+                    values, declared, inlined
+                )
             case MapType(keys=keys, values=values):
-                recap_type.keys = self._inline_references(keys, declared)
-                recap_type.values = self._inline_references(values, declared)
+                recap_type.keys = self._inline_references(keys, declared, inlined)
+                recap_type.values = self._inline_references(
+                    values, declared, inlined
+                )
         return recap_type
 
     def _from_recap_gather_types(
-- 
2.43.0


From 84669669cb2f44b46cab544466094905906d4248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:06 +0000
Subject: [PATCH 76/85] fix: the registry's storage is in the configured
 folder, even if its URL is percent-encoded

---
 recap/server/registry.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 8441627..607013e 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -1,4 +1,5 @@
 import json
+from urllib.parse import unquote
 
 from fastapi import APIRouter, Depends, HTTPException, Request
 
@@ -11,10 +12,13 @@ settings = RecapSettings()
 
 
 def get_storage() -> RegistryStorage:
-    return RegistryStorage(
-        settings.registry_storage_url.unicode_string(),
-        **settings.registry_storage_url_args,
-    )
+    storage_url = settings.registry_storage_url.unicode_string()
+
+    # The path of a file: URL is percent-encoded, but fsspec does not decode it.
+    if settings.registry_storage_url.scheme == "file":
+        storage_url = unquote(storage_url)
+
+    return RegistryStorage(storage_url, **settings.registry_storage_url_args)
 
 
 @router.get("/")
-- 
2.43.0


From d0825afac33f0de3ff4abaf32d6dd8905bf3ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:12 +0000
Subject: [PATCH 77/85] fix: RECAP_HOME can be a relative path

---
 recap/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/settings.py b/recap/settings.py
index d2655fa..cef7b4e 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -50,7 +50,9 @@ def _is_below(path: str, parent: str) -> bool:
 
 class RecapSettings(BaseSettings):
     urls: list[AnyUrl] = Field(default_factory=list)
-    registry_storage_url: AnyUrl = Field(default=DEFAULT_REGISTRY_STORAGE_PATH.as_uri())
+    registry_storage_url: AnyUrl = Field(
+        default=DEFAULT_REGISTRY_STORAGE_PATH.absolute().as_uri()
+    )
     registry_storage_url_args: dict[str, Any] = Field(default_factory=dict)
     model_config = SettingsConfigDict(
         env_file_encoding="utf-8",
-- 
2.43.0


From fe62d9bd47234e1a0e7cb6a50281041d6b6a56fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:17 +0000
Subject: [PATCH 78/85] fix: RECAP_HOME and RECAP_SECRETS can be below folders
 that don't exist yet

---
 recap/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index cef7b4e..4709490 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -15,10 +15,10 @@ SECRETS_PATH = Path(dir) if (dir := os.environ.get("RECAP_SECRETS")) else None
 
 
 def mkdirs():
-    HOME_PATH.mkdir(exist_ok=True)
+    HOME_PATH.mkdir(parents=True, exist_ok=True)
 
     if SECRETS_PATH:
-        SECRETS_PATH.mkdir(exist_ok=True)
+        SECRETS_PATH.mkdir(parents=True, exist_ok=True)
 
 
 mkdirs()
-- 
2.43.0


From eaa95f4b8b2f16a7f06b2c60c545d1846909db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:58 +0000
Subject: [PATCH 79/85] fix: aliases of JSON schemas' $ids are always fully
 qualified names

---
 recap/converters/json_schema.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index e8c0f7b..aabb213 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -321,6 +321,8 @@ class JSONSchemaConverter:
         - The path is converted to lowercase and special characters are replaced
           with dots, e.g. "/foo/bar" becomes "foo.bar"
         - The domain and path are combined, e.g. "com.example/foo.bar"
+        - Parts that start with a digit are prefixed with "_", and an alias that
+          would have one part only is prefixed with "_root."
 
         It's possible that this function will generate the same alias for
         different URNs. If this happens, you can provide a custom alias
@@ -343,12 +345,13 @@ class JSONSchemaConverter:
         path = re.sub(r"[^a-zA-Z0-9]", ".", path)
         path = path.lower()
 
-        # Combine domain and path
-        dotted_type = domain
-        if path and path != ".":
-            dotted_type += "." + path.strip(".")
+        # Combine domain and path. Aliases consist of at least two identifiers.
+        parts = re.findall(r"[a-zA-Z0-9_]+", f"{domain}.{path}")
+        parts = [f"_{part}" if part[0].isdigit() else part for part in parts]
+        if len(parts) < 2:
+            parts.insert(0, "_root")
 
-        return dotted_type
+        return ".".join(parts)
 
     @staticmethod
     @retrieval.to_cached_resource(
-- 
2.43.0


From 39253e0c4d64ed6fb160c08d16460995b8b1f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 80/85] fix: descriptions of unions with several nulls are
 lossless

---
 recap/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index 32977ac..e477de1 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -677,7 +677,7 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
     # to {"type": "union", "types": [...], "optional": True}
     if (
         type_dict["type"] == "union"
-        and "null" in type_dict["types"]
+        and type_dict["types"].count("null") == 1
         and "default" in type_dict
     ):
         # Pop off standard attributes that should be kept whether the type is kept
-- 
2.43.0


From 06965c0f51a4a12f045be4e7e2489ff65b8bcb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:43 +0000
Subject: [PATCH 81/85] fix: making an aliased union nullable doesn't change
 what its alias means

---
 recap/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index e477de1..e95ecea 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -55,9 +55,10 @@ class RecapType:
             union_attrs["name"] = extra_attrs.pop("name")
         # Create a copy of the type with doc, default, and name removed
         type_copy = RecapTypeClass(**attrs, **extra_attrs)
-        if RecapTypeClass == UnionType:
+        if RecapTypeClass == UnionType and (self.alias is None or self.is_nullable()):
             # Avoid UnionType(types=[NullType(), UnionType(...)])
             # Instead, just add NullType and default=None to a copy of the union
+            # (unless that would change what the union's alias stands for).
             attrs["types"] = list(attrs["types"])
             type_copy = UnionType(**attrs, **extra_attrs, **union_attrs)
         else:
-- 
2.43.0


From 0f193da945821f3d7a324b070e624be15435db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 82/85] fix: Avro's fixed types of size 0 are read as valid
 types

---
 recap/converters/avro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index d31128f..4fe4540 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -349,9 +349,9 @@ class AvroConverter:
             case {
                 "type": "fixed",
                 "size": int(size),
-            } if size <= 9_223_372_036_854_775_807:
+            } if 0 <= size <= 9_223_372_036_854_775_807:
                 return_type = BytesType(
-                    size,
+                    max(size, 1),  # Avro's sizes can be 0, Recap's can't
                     alias=alias,
                     **extra_attrs,
                 )
-- 
2.43.0


From 6e6c767211bceb305b23ceb1c3282b32afe63513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 83/85] fix: MySQL's columns of length 0 are read as valid
 types

---
 recap/converters/mysql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/converters/mysql.py b/recap/converters/mysql.py
index 4947ff0..0ef1ae3 100644
--- a/recap/converters/mysql.py
+++ b/recap/converters/mysql.py
@@ -8,6 +8,9 @@ class MysqlConverter(DbapiConverter):
     def _parse_type(self, column_props: dict[str, Any]) -> RecapType:
         data_type = column_props["DATA_TYPE"].lower()
         octet_length = column_props["CHARACTER_OCTET_LENGTH"]
+        if octet_length == 0:
+            # CHAR(0) and the like can be empty only, but Recap's sizes can't be 0
+            octet_length = 1
         precision = column_props["NUMERIC_PRECISION"]
         scale = column_props["NUMERIC_SCALE"]
 
-- 
2.43.0


From 0ceb05ca0ff38fb89346f6ab12d7d1fb480cd1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 84/85] fix: SQLite's lengths don't exceed the maximum length

---
 recap/converters/sqlite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/converters/sqlite.py b/recap/converters/sqlite.py
index dea75a7..6cd31ce 100644
--- a/recap/converters/sqlite.py
+++ b/recap/converters/sqlite.py
@@ -34,6 +34,9 @@ class SQLiteConverter(DbapiConverter):
         column_name = column_props["COLUMN_NAME"]
         column_type = column_props["TYPE"]
         octet_length = column_props["CHARACTER_OCTET_LENGTH"]
+        if octet_length:
+            # SQLite ignores lengths, so they can be larger than its limit
+            octet_length = min(octet_length, SQLITE_MAX_LENGTH)
         precision = column_props["NUMERIC_PRECISION"]
 
         match SQLiteConverter.get_affinity(column_type):
-- 
2.43.0


From 967aba5776306f25310f3be6a9d412439380f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 85/85] fix: decimal statistics of Hive columns can be
 described and stored

---
 recap/clients/hive_metastore.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/recap/clients/hive_metastore.py b/recap/clients/hive_metastore.py
index 587ccf9..7f63ed9 100644
--- a/recap/clients/hive_metastore.py
+++ b/recap/clients/hive_metastore.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from contextlib import contextmanager
+from decimal import Decimal
 from typing import Any, Generator
 
 from pymetastore.metastore import HMS, HTable
@@ -128,10 +129,22 @@ class HiveMetastoreClient:
                         "cardinality": col_stats.stats.cardinality,
                     }
                     if col_stats.stats.lowValue is not None:
-                        stats["low"] = col_stats.stats.lowValue
+                        stats["low"] = self._decimal(col_stats.stats.lowValue)
                     if col_stats.stats.highValue is not None:
-                        stats["high"] = col_stats.stats.highValue
+                        stats["high"] = self._decimal(col_stats.stats.highValue)
                     recap_type.extra_attrs |= stats
 
             if isinstance(col_stats.stats, TypeStats):
                 recap_type.extra_attrs["null_count"] = col_stats.stats.numNulls
+
+    @staticmethod
+    def _decimal(value: Any) -> Any:
+        """
+        :param value: A Thrift decimal.
+        :return: The decimal as text, since Thrift objects can't be serialized.
+        """
+
+        if value.unscaled is None:
+            return value
+        unscaled = int.from_bytes(value.unscaled, "big", signed=True)
+        return f"{Decimal(f'{unscaled}e{-value.scale}'):f}"
-- 
2.43.0

