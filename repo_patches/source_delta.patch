From f1a1d8274fd5c458e3373adbb616e1d279002100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 01/11] fix: keep models unchanged when an assignment is
 rejected or interrupted

---
 asyncapi3/models/base_models.py | 35 +++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 25b3b60..ec0e53e 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -5,7 +5,7 @@ __all__ = ["ExtendableBaseModel", "NonExtendableBaseModel", "PatternedRootModel"
 import re
 
 from collections.abc import Iterator
-from typing import Generic, TypeVar
+from typing import TYPE_CHECKING, Any, Generic, TypeVar
 
 from pydantic import BaseModel, ConfigDict, RootModel, model_validator
 
@@ -14,7 +14,34 @@ from asyncapi3.models.helpers import validate_patterned_key
 T = TypeVar("T")
 
 
-class ExtendableBaseModel(BaseModel):
+class _AtomicAssignmentMixin:
+    """
+    Make attribute assignment all-or-nothing.
+
+    With `validate_assignment` enabled Pydantic stores the new value before it runs
+    the model validators, and keeps it when one of them fails. This mixin restores
+    the previous state of the model whenever an assignment does not complete.
+    """
+
+    if not TYPE_CHECKING:
+        # Hidden from type checkers, so that assignments to unknown attributes are
+        # still reported.
+
+        def __setattr__(self, name: str, value: Any) -> None:
+            fields = dict(self.__dict__)
+            extra = getattr(self, "__pydantic_extra__", None)
+            extra = None if extra is None else dict(extra)
+            fields_set = set(getattr(self, "__pydantic_fields_set__", ()))
+            try:
+                super().__setattr__(name, value)
+            except BaseException:
+                object.__setattr__(self, "__dict__", fields)
+                object.__setattr__(self, "__pydantic_extra__", extra)
+                object.__setattr__(self, "__pydantic_fields_set__", fields_set)
+                raise
+
+
+class ExtendableBaseModel(_AtomicAssignmentMixin, BaseModel):
     """
     Base model that allows specification extensions.
 
@@ -54,7 +81,7 @@ class ExtendableBaseModel(BaseModel):
         return self
 
 
-class NonExtendableBaseModel(BaseModel):
+class NonExtendableBaseModel(_AtomicAssignmentMixin, BaseModel):
     """
     Base model that does not allow specification extensions or extra fields.
 
@@ -71,7 +98,7 @@ class NonExtendableBaseModel(BaseModel):
     )
 
 
-class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
+class PatternedRootModel(_AtomicAssignmentMixin, RootModel[dict[str, T]], Generic[T]):
     """
     Base class for AsyncAPI patterned objects that validate key patterns.
 
-- 
2.43.0


From 2bfcc29979d68adf5f5aa0122e2446618a354ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 02/11] fix: validate keys and entries assigned to keyed
 collections

---
 asyncapi3/models/base_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index ec0e53e..fe8e0cd 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -121,7 +121,8 @@ class PatternedRootModel(_AtomicAssignmentMixin, RootModel[dict[str, T]], Generi
         return self.root[item]
 
     def __setitem__(self, key: str, value: T) -> None:
-        self.root[key] = value
+        # Validate the entry like the constructor does, before it is stored.
+        self.root[key] = self.__class__({key: value}).root[key]
 
     def __delitem__(self, key: str) -> None:
         del self.root[key]
-- 
2.43.0


From 0d1b323e8ea29f4e3125222661ac7ee3ed0652a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 03/11] fix: reject names and strings that end with a stray
 newline

---
 asyncapi3/models/asyncapi.py    | 2 +-
 asyncapi3/models/base_models.py | 2 +-
 asyncapi3/models/helpers.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index eb0ab07..5dc3678 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -257,7 +257,7 @@ class AsyncAPI3(ExtendableBaseModel):
     def validate_asyncapi_version(cls, version: str) -> str:
         """Validate AsyncAPI version format (semantic versioning) and compatibility."""
         # Pattern for semantic versioning: major.minor.patch[-suffix]
-        pattern = r"^\d+\.\d+\.\d+(-[\w\.\-]+)?$"
+        pattern = r"^\d+\.\d+\.\d+(-[\w\.\-]+)?\Z"
         if not re.match(pattern, version):
             raise ValueError(
                 "asyncapi must be in semantic versioning format: "
diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index fe8e0cd..3504884 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -70,7 +70,7 @@ class ExtendableBaseModel(_AtomicAssignmentMixin, BaseModel):
         if not self.model_extra:
             return self
 
-        extension_pattern = re.compile(r"^x-[\w\d\.\x2d_]+$")
+        extension_pattern = re.compile(r"^x-[\w\d\.\x2d_]+\Z")
         for key in self.model_extra:
             if not extension_pattern.match(key):
                 raise ValueError(
diff --git a/asyncapi3/models/helpers.py b/asyncapi3/models/helpers.py
index cca26d9..cb966bc 100644
--- a/asyncapi3/models/helpers.py
+++ b/asyncapi3/models/helpers.py
@@ -29,7 +29,7 @@ def validate_patterned_key(key: str | Any, object_name: str = "object") -> None:
         ValueError: If the key does not match the required pattern.
         TypeError: If the key is not a string.
     """
-    pattern = re.compile(r"^[A-Za-z0-9_\-]+$")
+    pattern = re.compile(r"^[A-Za-z0-9_\-]+\Z")
     try:
         if not pattern.match(key):
             raise ValueError(
@@ -53,7 +53,7 @@ class EmailStr(str):
     def _validate_email(value: str) -> str:
         """Validate email format and return EmailStr instance."""
         # Email regex pattern that rejects consecutive dots
-        pattern = r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$"
+        pattern = r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}\Z"
         if not re.match(pattern, value):
             raise ValueError("Invalid email format")
         return value
-- 
2.43.0


From 2fa85d661a68d51058fe940a6e2d7b8d6ef5e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 04/11] fix: resolve reference chains of any length

---
 asyncapi3/validators/utils.py | 55 +++++++++++++++++------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index ead7b3d..accbf9a 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -46,35 +46,32 @@ def resolve_reference(
     Raises:
         ValueError: If reference format is unsupported, circular, or resolution fails
     """
-    visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
-
-    if _is_external_reference(ref=ref):
-        logger.warning("External reference '%s' cannot be validated locally", ref)
-        return None
-
-    path_parts = _parse_reference_path(ref=ref)
-
-    try:
-        resolved_object, resolved_type, full_path = _resolve_path_parts(
-            spec=spec,
-            path_parts=path_parts,
-        )
-    except AttributeError as exc:
-        raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
-
-    if isinstance(resolved_object, Reference):
-        next_ref = resolved_object.ref
-        return resolve_reference(
-            ref=next_ref,
-            spec=spec,
-            visited_refs=visited_refs,
-        )
-
-    return ReferenceResolutionResult(
-        resolved_object=resolved_object,
-        resolved_type=resolved_type,
-        path=full_path,
-    )
+    # Follow chains in a loop: their length must not be limited by the call stack.
+    while True:
+        visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
+
+        if _is_external_reference(ref=ref):
+            logger.warning("External reference '%s' cannot be validated locally", ref)
+            return None
+
+        path_parts = _parse_reference_path(ref=ref)
+
+        try:
+            resolved_object, resolved_type, full_path = _resolve_path_parts(
+                spec=spec,
+                path_parts=path_parts,
+            )
+        except AttributeError as exc:
+            raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
+
+        if not isinstance(resolved_object, Reference):
+            return ReferenceResolutionResult(
+                resolved_object=resolved_object,
+                resolved_type=resolved_type,
+                path=full_path,
+            )
+
+        ref = resolved_object.ref
 
 
 def _initialize_visited_refs(
-- 
2.43.0


From bf422eb81f89e51c7b0c2c293d900126053deef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 05/11] fix: do not mistake an extra field named root for a
 collection

---
 asyncapi3/validators/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index accbf9a..106a5ba 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -8,7 +8,7 @@ import logging
 
 from typing import TYPE_CHECKING, Any, NamedTuple
 
-from pydantic import BaseModel
+from pydantic import BaseModel, RootModel
 
 from asyncapi3.models.base import Reference
 
@@ -155,6 +155,9 @@ def _resolve_path_part(
 
 def _has_root_mapping(obj: Any) -> bool:
     """Return True when object has a root dict for navigation."""
+    if isinstance(obj, BaseModel) and not isinstance(obj, RootModel):
+        # An extra field that happens to be called "root" is not a root mapping.
+        return False
     return hasattr(obj, "root") and isinstance(obj.root, dict)
 
 
-- 
2.43.0


From e5eac16cb0a5b1f4cf5688f796f350da5c304b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 06/11] fix: keep user-chosen keys from selecting the expected
 reference type

---
 .../unified_references_validator.py           | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 747c514..02a376b 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -125,6 +125,9 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.tags.*": Tag,
 }
 
+# A mapping key in a reference path, as written by _format_key_segment.
+_KEY_SEGMENT = re.compile(r"\['(?:[^'\\]|\\.)*'\]", re.DOTALL)
+
 
 class UnifiedReferencesValidator(ProcessorProtocol):
     """
@@ -323,11 +326,10 @@ class UnifiedReferencesValidator(ProcessorProtocol):
     ) -> None:
         """Validate references inside a mapping."""
         for key, value in mapping.items():
-            escaped_key = self._escape_path_segment(str(key))
             self.validate_references_recursive(
                 spec=spec,
                 obj=value,
-                current_path=f"{current_path}.{escaped_key}",
+                current_path=f"{current_path}{self._format_key_segment(str(key))}",
                 validated_refs=validated_refs,
                 visited_objects=visited_objects,
             )
@@ -390,15 +392,22 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         )
 
     def _normalize_path(self, ref_path: str) -> str:
-        """Normalize paths by removing root markers and list indices."""
-        normalized_path = ref_path.replace(".root.", ".")
+        """
+        Normalize paths by removing root markers and list indices.
+
+        Mapping keys are chosen by the user and never select the expected type, so
+        they are replaced by "*", which only matches wildcard pattern segments.
+        """
+        normalized_path = _KEY_SEGMENT.sub(".*", ref_path)
+        normalized_path = normalized_path.replace(".root.", ".")
         if normalized_path.endswith(".root"):
             normalized_path = normalized_path[: -len(".root")]
         return re.sub(r"\[\d+\]", "", normalized_path)
 
-    def _escape_path_segment(self, segment: str) -> str:
-        """Escape dots in a path segment so they are not treated as delimiters."""
-        return segment.replace("\\", "\\\\").replace(".", "\\.")
+    def _format_key_segment(self, key: str) -> str:
+        """Format a mapping key so it cannot be mistaken for a field name."""
+        escaped_key = key.replace("\\", "\\\\").replace("'", "\\'")
+        return f"['{escaped_key}']"
 
     def _split_path(self, path: str) -> list[str]:
         """Split a path by dots while honoring escaped dot segments."""
-- 
2.43.0


From b6d1bcb2f24b2c286ec332eda61e4f598524a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 07/11] fix: accept references inside inline message and
 operation traits

---
 asyncapi3/validators/unified_references_validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 02a376b..c730ee3 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -66,6 +66,9 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.message_traits.*": MessageTrait,
     "**.messages.*.traits": MessageTrait,
     "**.messages.*.traits.*": MessageTrait,
+    "**.messages.*.traits.correlation_id": CorrelationID,
+    "**.messages.*.traits.external_docs": ExternalDocumentation,
+    "**.messages.*.traits.tags": Tag,
     "**.message_traits.*.headers": MultiFormatSchema | Schema,
     "**.messages.*.headers": MultiFormatSchema | Schema,
     "**.messages.*.payload": MultiFormatSchema | Schema,
@@ -86,6 +89,9 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.operation_traits.*": OperationTrait,
     "**.operations.*.traits": OperationTrait,
     "**.operations.*.traits.*": OperationTrait,
+    "**.operations.*.traits.external_docs": ExternalDocumentation,
+    "**.operations.*.traits.security": SecurityScheme,
+    "**.operations.*.traits.tags": Tag,
     "**.parameters.*": Parameter,
     "**.*_bindings.*.*.client_id": Schema,
     "**.*_bindings.*.*.correlation_data": Schema,
-- 
2.43.0


From 07117eaeb3bf11a98f8282f6ecf9415079a85081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 08/11] fix: verify every documented external documentation
 reference

---
 .../validators/external_docs_ref_validator.py | 61 +++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index f186821..d9f22c8 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -56,13 +56,16 @@ class ExternalDocsRefValidator(ProcessorProtocol):
 
         # Validate externalDocs in all component collections
         self.validate_components_channels_external_docs_refs(spec)
+        self.validate_components_channels_messages_external_docs_refs(spec)
         self.validate_components_external_docs_external_docs_refs(spec)  # self
         self.validate_components_messages_external_docs_refs(spec)
         self.validate_components_messages_headers_external_docs_refs(spec)
         self.validate_components_messages_payload_external_docs_refs(spec)
+        self.validate_components_messages_traits_external_docs_refs(spec)
         self.validate_components_message_traits_external_docs_refs(spec)
         self.validate_components_message_traits_headers_external_docs_refs(spec)
         self.validate_components_operations_external_docs_refs(spec)
+        self.validate_components_operations_traits_external_docs_refs(spec)
         self.validate_components_operation_traits_external_docs_refs(spec)
         self.validate_components_servers_external_docs_refs(spec)
         self.validate_components_tags_external_docs_refs(spec)
@@ -295,6 +298,22 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             context_prefix="components",
         )
 
+    def validate_components_channels_messages_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in messages, and traits, of components channels."""
+        if not spec.components or not spec.components.channels:
+            return
+        for channel_name, channel in spec.components.channels.root.items():
+            if isinstance(channel, Reference) or not channel.messages:
+                continue
+            for msg_name, msg in channel.messages.root.items():
+                if isinstance(msg, Reference):
+                    continue
+                context = f"message '{msg_name}' in components channel '{channel_name}'"
+                self._validate_ref_field(spec, msg, context)
+                self._validate_traits_external_docs_refs(spec, msg.traits, context)
+
     def validate_components_external_docs_external_docs_refs(
         self, spec: AsyncAPI3
     ) -> None:
@@ -347,6 +366,19 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                 spec, msg.payload, f"payload in components message '{msg_name}'"
             )
 
+    def validate_components_messages_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components messages."""
+        if not spec.components or not spec.components.messages:
+            return
+        for msg_name, msg in spec.components.messages.root.items():
+            if isinstance(msg, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, msg.traits, f"components message '{msg_name}'"
+            )
+
     def validate_components_message_traits_external_docs_refs(
         self, spec: AsyncAPI3
     ) -> None:
@@ -388,6 +420,19 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             context_prefix="components",
         )
 
+    def validate_components_operations_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components operations."""
+        if not spec.components or not spec.components.operations:
+            return
+        for op_name, operation in spec.components.operations.root.items():
+            if isinstance(operation, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, operation.traits, f"components operation '{op_name}'"
+            )
+
     def validate_components_operation_traits_external_docs_refs(
         self, spec: AsyncAPI3
     ) -> None:
@@ -562,3 +607,19 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             if isinstance(tag, Reference):
                 continue
             self._validate_ref_field(spec, tag, f"tag {tag_idx} in {context}")
+
+    def _validate_traits_external_docs_refs(
+        self,
+        spec: AsyncAPI3,
+        traits: list[Any] | None,
+        context: str,
+    ) -> None:
+        """Validate externalDocs references in a list of traits and in their tags."""
+        for trait_idx, trait in enumerate(traits or []):
+            if isinstance(trait, Reference):
+                continue
+            trait_context = f"trait {trait_idx} in {context}"
+            self._validate_ref_field(spec, trait, trait_context)
+            self._validate_tags_external_docs_refs(
+                spec, trait.tags or [], f"tags in {trait_context}"
+            )
-- 
2.43.0


From dcb988a9a61655456f9afb7a18e0a80cc798347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 09/11] fix: restore a saved Kafka message key schema as a
 schema

---
 asyncapi3/models/bindings/kafka.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/models/bindings/kafka.py b/asyncapi3/models/bindings/kafka.py
index 6613ae9..b04d939 100644
--- a/asyncapi3/models/bindings/kafka.py
+++ b/asyncapi3/models/bindings/kafka.py
@@ -249,8 +249,11 @@ class KafkaMessageBindings(NonExtendableBaseModel):
     """
 
     # TODO: Think about AVRO Schema
-    key: Schema | Reference | dict[str, Any] | None = Field(
+    # Tried left to right: the free-form dict is the last resort, so that a saved schema
+    # is always restored as a schema.
+    key: Reference | Schema | dict[str, Any] | None = Field(
         default=None,
+        union_mode="left_to_right",
         exclude_if=is_null,
         description=(
             "The message key. NOTE: You can also use the reference object way."
-- 
2.43.0


From 66fb45ea997516599a5f45dcc0375e0c5063fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 10/11] fix: verify tag references inside inline message and
 operation traits

---
 asyncapi3/validators/tags_ref_validator.py | 36 ++++++++++++++--------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 9ee30b9..d612d34 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -81,10 +81,24 @@ class TagsRefValidator(ProcessorProtocol):
     ) -> None:
         """Validate tags in a collection of objects."""
         for object_name, obj in objects.items():
+            context = context_template.format(name=object_name)
+            self._validate_traits_tags(spec, getattr(obj, "traits", None), context)
             if not hasattr(obj, "tags") or not obj.tags:
                 continue
+            self._validate_tags_list(spec, obj.tags, context)
+
+    def _validate_traits_tags(
+        self,
+        spec: AsyncAPI3,
+        traits: list[Any] | None,
+        context: str,
+    ) -> None:
+        """Validate tags in inline traits of an operation or a message."""
+        for trait_idx, trait in enumerate(traits or []):
+            if isinstance(trait, Reference) or not trait.tags:
+                continue
             self._validate_tags_list(
-                spec, obj.tags, context_template.format(name=object_name)
+                spec, trait.tags, f"trait {trait_idx} in {context}"
             )
 
     def validate_info_tags_refs(self, spec: AsyncAPI3) -> None:
@@ -173,13 +187,11 @@ class TagsRefValidator(ProcessorProtocol):
             if isinstance(channel, Reference) or not channel.messages:
                 continue
             for message_name, message in channel.messages.root.items():
-                if isinstance(message, Reference) or not message.tags:
+                if isinstance(message, Reference):
                     continue
-                self._validate_tags_list(
-                    spec,
-                    message.tags,
-                    f"message '{message_name}' in channel '{channel_name}'",
-                )
+                context = f"message '{message_name}' in channel '{channel_name}'"
+                self._validate_traits_tags(spec, message.traits, context)
+                self._validate_tags_list(spec, message.tags or [], context)
 
     def validate_components_channels_messages_tags_refs(self, spec: AsyncAPI3) -> None:
         """Validate tag references in messages of components channels."""
@@ -189,13 +201,13 @@ class TagsRefValidator(ProcessorProtocol):
             if isinstance(channel, Reference) or not channel.messages:
                 continue
             for message_name, message in channel.messages.root.items():
-                if isinstance(message, Reference) or not message.tags:
+                if isinstance(message, Reference):
                     continue
-                self._validate_tags_list(
-                    spec,
-                    message.tags,
-                    f"message '{message_name}' in components channel '{channel_name}'",
+                context = (
+                    f"message '{message_name}' in components channel '{channel_name}'"
                 )
+                self._validate_traits_tags(spec, message.traits, context)
+                self._validate_tags_list(spec, message.tags or [], context)
 
     def validate_components_tags_refs(self, spec: AsyncAPI3) -> None:
         """Validate tag references in components tags."""
-- 
2.43.0


From bb2e69db540c81be9dd9de417a466e7066ab0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 11/11] fix: take the whole rest of a tag or external docs
 reference as its key

---
 asyncapi3/validators/external_docs_ref_validator.py | 2 +-
 asyncapi3/validators/tags_ref_validator.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index d9f22c8..a3b9c58 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -569,7 +569,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                 "but points elsewhere."
             )
 
-        doc_key = ref_value.replace("#/components/externalDocs/", "")
+        doc_key = ref_value.removeprefix("#/components/externalDocs/")
         if (
             not spec.components
             or not spec.components.external_docs
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index d612d34..5da7863 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -293,7 +293,7 @@ class TagsRefValidator(ProcessorProtocol):
                 "#/components/tags/ but points elsewhere."
             )
 
-        tag_key = ref_value.replace("#/components/tags/", "")
+        tag_key = ref_value.removeprefix("#/components/tags/")
         if (
             not spec.components
             or not spec.components.tags
-- 
2.43.0

