From 6f2276b184fcfa916dbba7b01d51c7d2ae046fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 01/38] fix: distinguish swapped and equal inputs in the
 Producer input fingerprint

XORing the content fingerprints of every input partition cancels equal contents
and ignores which input a content belongs to, so a build could silently reuse an
output computed from different inputs (eg: add(1, 1) for add(2, 2)).
---
 src/arti/producers/__init__.py | 35 +++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 9ce0bb7..6c09fac 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
-from collections.abc import Callable, Iterator
+from collections.abc import Callable, Iterable, Iterator
 from inspect import Parameter, Signature, getattr_static
 from typing import (
     TYPE_CHECKING,
@@ -53,6 +53,16 @@ BuildSig = Callable[..., Any]
 ValidateSig = Callable[..., tuple[bool, str]]
 
 
+def _join_fingerprints(fingerprints: Iterable[Fingerprint]) -> Fingerprint:
+    """Join a sequence of Fingerprints, preserving the order and any duplicates."""
+    fingerprints = tuple(fingerprints)
+    if not fingerprints:
+        return Fingerprint.identity()
+    if len(fingerprints) == 1:
+        return fingerprints[0]
+    return Fingerprint.from_string(",".join(str(fingerprint) for fingerprint in fingerprints))
+
+
 class Producer(Model):
     """A Producer is a task that builds one or more Artifacts."""
 
@@ -334,15 +344,22 @@ class Producer(Model):
             )
         # We only care if the *code* or *input partition contents* changed, not if the input file
         # paths changed (but have the same content as a prior run).
+        #
+        # The contents must not be XOR'd together: equal contents would cancel out and swapping the
+        # contents of two inputs would be undetectable. Partitions within an input are unordered.
+        #
+        # TODO: Include the artifact name here? Do we care if you rename an arg (without changing
+        # the version)?
+        input_contents = _join_fingerprints(
+            _join_fingerprints(
+                sorted(
+                    snapshot.content_fingerprint for snapshot in dependency_partitions[input_name]
+                )
+            )
+            for input_name in sorted(expected_names)
+        )
         return Fingerprint.from_string(self._arti_type_key_).combine(
-            self.version.fingerprint,
-            *(
-                # TODO: Include the artifact name here? Do we care if you rename an arg (without
-                # changing the version)?
-                snapshot.content_fingerprint
-                for name, partition_snapshots in dependency_partitions.items()
-                for snapshot in partition_snapshots
-            ),
+            self.version.fingerprint, input_contents
         )
 
     def compute_dependencies(
-- 
2.43.0


From 0c771615c0203513c4b6fac8ae68c22d3b7a0d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 02/38] fix: allow a sealed Graph to be used after unpickling

The status was compared by identity, but an unpickled string is a new object.
---
 src/arti/graphs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index be6d6e7..7ad5725 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -46,7 +46,7 @@ _Return = TypeVar("_Return")
 def requires_sealed(fn: Callable[..., _Return]) -> Callable[..., _Return]:
     @wraps(fn)
     def check_if_sealed(self: Graph, *args: Any, **kwargs: Any) -> _Return:
-        if self._status is not CLOSED:
+        if self._status != CLOSED:
             raise ValueError(f"{fn.__name__} cannot be used while the Graph is still being defined")
         return fn(self, *args, **kwargs)
 
-- 
2.43.0


From 8c629dd9be508a2dec86df2cebe08f8f37dc4a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 03/38] fix: let the right operand win in `mapping |
 frozendict`

---
 src/arti/internal/mappings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index d9e979e..3ad913c 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -33,7 +33,8 @@ class frozendict[K, V](Mapping[K, V]):
     def __or__(self, other: Mapping[K, V]) -> frozendict[K, V]:
         return type(self)({**self, **other})
 
-    __ror__ = __or__
+    def __ror__(self, other: Mapping[K, V]) -> frozendict[K, V]:
+        return type(self)({**other, **self})
 
     def __repr__(self) -> str:
         return repr(self._data)
-- 
2.43.0


From f57122f2d1c07042fcad585eb98a1e60a7fa790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 04/38] fix: don't duplicate Artifact class default annotations
 and statistics

---
 src/arti/artifacts/__init__.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/arti/artifacts/__init__.py b/src/arti/artifacts/__init__.py
index 815b353..b725914 100644
--- a/src/arti/artifacts/__init__.py
+++ b/src/arti/artifacts/__init__.py
@@ -6,7 +6,7 @@ import json
 from itertools import chain
 from typing import TYPE_CHECKING, Annotated, Any
 
-from pydantic import Field, ValidationInfo, field_validator
+from pydantic import Field, ValidationInfo, field_validator, model_validator
 
 from arti.annotations import Annotation
 from arti.fingerprints import SkipFingerprint
@@ -71,11 +71,18 @@ class Artifact(Model):
             storage = storage._visit_format(format_)
         return storage
 
-    @field_validator("annotations", "statistics", mode="before")
+    # NOTE: This must be a model validator to only see explicitly passed values. With
+    # `validate_default`, a field validator would also run on (and so duplicate) the defaults.
+    @model_validator(mode="before")
     @classmethod
-    def _merge_class_defaults(cls, value: tuple[Any, ...], info: ValidationInfo) -> tuple[Any, ...]:
-        assert info.field_name is not None
-        return tuple(chain(get_field_default(cls, info.field_name, fallback=()), value))
+    def _merge_class_defaults(cls, data: Any) -> Any:
+        if not isinstance(data, dict):
+            return data
+        return data | {
+            name: tuple(chain(get_field_default(cls, name, fallback=()), data[name]))
+            for name in ("annotations", "statistics")
+            if name in data
+        }
 
     @classmethod
     def cast(cls, value: Any) -> Artifact:
-- 
2.43.0


From 50695a59033e89b525b89257304e93c6d9625b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 05/38] fix: drop cached properties when copying a Model with
 updates

Otherwise, the copy (eg: an Artifact assigned to a Graph) reports the fingerprint
of the original.
---
 src/arti/internal/models.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 26993ad..f420d81 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -167,6 +167,15 @@ class Model(BaseModel, metaclass=ModelMeta):
             raise ValueError("Fingerprint is empty!")
         return fingerprint
 
+    def model_copy(self, *, update: dict[str, Any] | None = None, deep: bool = False) -> Self:
+        copy = super().model_copy(update=update, deep=deep)
+        if update:
+            # Pydantic copies all of `__dict__`, including `cached_property` values (such as the
+            # fingerprint) computed from the original fields.
+            for name in set(copy.__dict__) - set(self.model_fields) - set(update):
+                del copy.__dict__[name]
+        return copy
+
     def __repr_args__(self) -> Iterable[tuple[str | None, Any]]:
         return [(k, v) for k, v in super().__repr_args__() if k in self.model_fields_set]
 
-- 
2.43.0


From bc86b59e3ccd6d7a354d88d88faf4d42d3543a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 06/38] fix: recompute the cached Graph properties when the
 Graph is (re)opened and closed

---
 src/arti/graphs/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 7ad5725..0f1f824 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -139,6 +139,9 @@ class Graph(Model):
         self._artifact_to_key = frozendict(
             {artifact: key for key, artifact in self.artifacts.walk()}
         )
+        # The artifacts may have changed since these were computed (eg: if the Graph is reopened).
+        for name in ("dependencies", "fingerprint", "producer_outputs", "producers"):
+            self.__dict__.pop(name, None)
 
     @property
     def artifact_to_key(self) -> frozendict[Artifact, str]:
-- 
2.43.0


From ac1fa6e7d3c63fca75743887c6184d713b1160d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 07/38] fix: make the Enum fingerprint independent of the item
 iteration order

---
 src/arti/types/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/__init__.py b/src/arti/types/__init__.py
index 8b1512e..ad122e7 100644
--- a/src/arti/types/__init__.py
+++ b/src/arti/types/__init__.py
@@ -7,7 +7,7 @@ from collections.abc import Iterable, Mapping
 from operator import attrgetter
 from typing import Annotated, Any, ClassVar, Literal
 
-from pydantic import PrivateAttr, ValidationInfo, field_validator
+from pydantic import PrivateAttr, ValidationInfo, field_serializer, field_validator
 
 from arti.fingerprints import SkipFingerprint
 from arti.internal.mappings import FrozenMapping, frozendict
@@ -122,6 +122,12 @@ class Enum(_NamedMixin, Type):
             raise ValueError(f"incompatible {arti_type} ({py_type}) item(s): {mismatched_items}")
         return items
 
+    @field_serializer("items", when_used="json")
+    def _serialize_items(self, items: frozenset[Any]) -> list[Any]:
+        # frozenset iteration order may vary between equal instances and processes, but must not
+        # affect the fingerprint.
+        return sorted(items, key=lambda item: (type(item).__name__, repr(item)))
+
     @property
     def _default_friendly_key(self) -> str:
         return f"{self.type.friendly_key}{self._arti_type_key_}"
-- 
2.43.0


From 710a941b4a5052e40472f2955e649e4d444c07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 08/38] fix: write each Producer output to the Artifact(s) it
 was assigned to

Outputs were matched to the assigned Artifacts by index. If only some outputs of a
multi-output Producer were assigned, an Artifact received another output's data. If
an output was assigned to multiple keys, only the last was ever built.
---
 src/arti/executors/__init__.py | 10 ++++++----
 src/arti/graphs/__init__.py    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index dc0e537..4fb5b1d 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -10,6 +10,7 @@ from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
 from arti.graphs import GraphSnapshot
 from arti.internal.models import Model
+from arti.internal.type_hints import assert_not_none
 from arti.partitions import InputFingerprints, PartitionKey
 from arti.producers import InputPartitions, Producer
 
@@ -95,11 +96,12 @@ class Executor(Model):
         validation_passed, validation_message = producer.validate_outputs(*outputs)
         if not validation_passed:
             raise ValueError(validation_message)
-        for i, output in enumerate(outputs):
+        for artifact in snapshot.graph.producer_outputs[producer]:
+            position = assert_not_none(artifact.producer_output).position
             snapshot.write(
-                output,
-                artifact=snapshot.graph.producer_outputs[producer][i],
+                outputs[position],
+                artifact=artifact,
                 input_fingerprint=input_fingerprint,
                 partition_key=partition_key,
-                view=producer._outputs_[i],
+                view=producer._outputs_[position],
             )
diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 0f1f824..40dd306 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -191,15 +191,17 @@ class Graph(Model):
     @cached_property
     @requires_sealed
     def producer_outputs(self) -> frozendict[Producer, tuple[Artifact, ...]]:
-        d = defaultdict[Producer, dict[int, Artifact]](dict)
+        # NOTE: A Producer output may be assigned to multiple keys or (eg: with a multi-output
+        # Producer) not be assigned at all, hence the tuple index is *not* the output position.
+        d = defaultdict[Producer, dict[Artifact, int]](dict)
         for _, artifact in self.artifacts.walk():
             if artifact.producer_output is None:
                 continue
             output = artifact.producer_output
-            d[output.producer][output.position] = artifact
+            d[output.producer][artifact] = output.position
         return frozendict(
-            (producer, tuple(artifacts_by_position[i] for i in sorted(artifacts_by_position)))
-            for producer, artifacts_by_position in d.items()
+            (producer, tuple(sorted(positions, key=lambda artifact: positions[artifact])))
+            for producer, positions in d.items()
         )
 
     # TODO: io.read/write probably need a bit of sanity checking (probably somewhere else), eg: type
-- 
2.43.0


From d0a3735e64062e9f4c4c6101e0fd79b7d8160ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 09/38] fix: rebuild a partition unless it exists for all
 outputs of the Producer

If a build failed after writing only some outputs, the partition was considered
complete and the remaining outputs were never built.
---
 src/arti/executors/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index 4fb5b1d..3fd9c2f 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -4,7 +4,6 @@ __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
 import abc
 import logging
-from itertools import chain
 
 from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
@@ -53,12 +52,14 @@ class Executor(Model):
             connection.write_snapshot_partitions(
                 snapshot, snapshot.graph.artifact_to_key[artifact], artifact, partition_snapshots
             )
-        # TODO: Guarantee all outputs have the same set of identified partitions. Currently, this
-        # pretends a partition is built for all outputs if _any_ are built for that partition.
-        return {
-            snapshot.partition_key
-            for snapshot in chain.from_iterable(output_partition_snapshots.values())
-        }
+        # A partition is only complete if it exists for *all* outputs, otherwise (eg: if a prior
+        # build failed partway through writing the outputs) it must be rebuilt.
+        return set[PartitionKey].intersection(
+            *(
+                {snapshot.partition_key for snapshot in partition_snapshots}
+                for partition_snapshots in output_partition_snapshots.values()
+            )
+        )
 
     def build_producer_partition(
         self,
-- 
2.43.0


From 3887ba63deb4291abf40c067b593e4d13ee12fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 10/38] fix: don't link unrelated partitions if a Producer maps
 to no partitions

---
 src/arti/executors/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index 3fd9c2f..763aa4e 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -39,6 +39,9 @@ class Executor(Model):
         *,
         partition_input_fingerprints: InputFingerprints,
     ) -> set[PartitionKey]:
+        # An empty filter would return (and link) every partition ever built.
+        if not partition_input_fingerprints:
+            return set()
         # NOTE: The output partitions may be built, but not yet associated with this GraphSnapshot
         # (eg: raw input data changed, but no changes trickled into this specific Producer). Hence
         # we'll fetch all StoragePartitions for each Storage, filtered to the PKs and
-- 
2.43.0


From 178071106ac626561aefff8dbfeefa79e7fe7de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 11/38] fix: match special glob characters in storage paths
 literally

---
 src/arti/storage/_internal.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 04d2f43..bb8f8cd 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import glob
 import string
 from collections import defaultdict
 from collections.abc import Callable, Iterable, Mapping
@@ -111,11 +112,18 @@ def strip_partition_indexes(spec: str) -> str:
     return string.Formatter().vformat(spec, (), FormatDict(StripIndexPlaceholder))
 
 
+class WildcardFormatter(string.Formatter):
+    def parse(self, format_string: Any) -> Any:
+        for literal_text, *field in super().parse(format_string):
+            # Only the placeholders are wildcards, any other special characters must match exactly.
+            yield glob.escape(literal_text), *field
+
+
 def spec_to_wildcard(spec: str, key_types: Mapping[str, type[PartitionField]]) -> str:
-    return string.Formatter().vformat(
-        spec.replace("{input_fingerprint}", "*"),
+    return WildcardFormatter().vformat(
+        spec,
         (),
-        FormatDict(WildcardPlaceholder.with_key_types(key_types)),
+        FormatDict(WildcardPlaceholder.with_key_types(key_types), input_fingerprint="*"),
     )
 
 
-- 
2.43.0


From f73fd4573cafa9fc8ec4f582a9a7c5e117f466bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 12/38] fix: support looking up TypedBox keys nested below a
 value

Membership checks raised an AttributeError instead of returning False.
---
 src/arti/internal/mappings.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index 3ad913c..bc93d1c 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -155,7 +155,10 @@ class TypedBox[V](Mapping[str, TypedNode[V]]):
         for part in head:
             if short_circuit_missing and part not in self:
                 return self, part
-            self = cast(TypedBox[V], self[part])  # NOTE: reassigning self
+            value = self[part]
+            if not isinstance(value, TypedBox):
+                raise KeyError(key)
+            self = value  # NOTE: reassigning self
         if tail.startswith("_"):
             raise InvalidKeyError(key)
         return self, tail
@@ -163,9 +166,12 @@ class TypedBox[V](Mapping[str, TypedNode[V]]):
     def __contains__(self, key: object) -> bool:  # Mapping defines key as object here
         # Override __contains__ to prevent lookups adding to the box via __getitem__.
         key = cast(str, key)
-        self, key = self._get_leaf_and_key(
-            key, short_circuit_missing=True
-        )  # NOTE: reassigning self
+        try:
+            self, key = self._get_leaf_and_key(
+                key, short_circuit_missing=True
+            )  # NOTE: reassigning self
+        except KeyError:  # A leading part of the key is a value, so there can't be anything below.
+            return False
         return key in self._data
 
     def __getitem__(self, key: str) -> TypedNode[V]:
-- 
2.43.0


From 029eec34c2cb32e21735f927b0d0a707decb59b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 13/38] fix: detect changes to data shared by multiple raw
 Artifacts in the snapshot id

The shared partition fingerprints were XOR'd repeatedly and cancelled out.
---
 src/arti/graphs/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 40dd306..a887508 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -331,13 +331,16 @@ class GraphSnapshot(Model):
         # TODO: Resolve and statically set all available fingerprints. Specifically, we should pin
         # the Producer.fingerprint, which may by dynamic (eg: version is a Timestamp). Unbuilt
         # Artifact (partitions) won't be fully resolved yet.
-        snapshot_id = graph.fingerprint
+        #
+        # Dedupe the fingerprints before combining - if repeated (eg: multiple raw Artifacts share
+        # Storage), they'd cancel out and changes would go undetected.
+        fingerprints = set[Fingerprint]()
         known_artifact_partitions = dict[str, StoragePartitionSnapshots]()
         for node, _ in graph.dependencies.items():
-            snapshot_id = snapshot_id.combine(node.fingerprint)
+            fingerprints.add(node.fingerprint)
             if isinstance(node, Artifact):
                 key = graph.artifact_to_key[node]
-                snapshot_id = snapshot_id.combine(Fingerprint.from_string(key))
+                fingerprints.add(Fingerprint.from_string(key))
                 # Include fingerprints (including content_fingerprint!) for all raw Artifact
                 # partitions, triggering a graph ID change if these artifacts change out-of-band.
                 #
@@ -350,10 +353,10 @@ class GraphSnapshot(Model):
                     if not known_artifact_partitions[key]:
                         content_str = "partitions" if is_partitioned(node.type) else "data"
                         raise ValueError(f"No {content_str} found for `{key}`: {node}")
-                    snapshot_id = snapshot_id.combine(
-                        *[partition.fingerprint for partition in known_artifact_partitions[key]]
+                    fingerprints.update(
+                        partition.fingerprint for partition in known_artifact_partitions[key]
                     )
-        snapshot = cls(graph=graph, id=snapshot_id)
+        snapshot = cls(graph=graph, id=graph.fingerprint.combine(*fingerprints))
         # Write the discovered partitions (if not already known) and link to this new snapshot.
         with (connection or snapshot.backend).connect() as conn:
             conn.write_graph(graph)
-- 
2.43.0


From f59e259ab0dc0735fff033dd93934d01ec3dc6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 14/38] fix: don't leave partially written data behind if a
 write fails

The partial file had the final, input fingerprinted name. A later build with a
fresh backend would discover it and consider the partition complete.
---
 src/arti/internal/utils.py             | 19 +++++++++++++++++++
 src/arti/io/json_gcsfile_python.py     |  4 +++-
 src/arti/io/json_localfile_python.py   |  6 ++----
 src/arti/io/pickle_gcsfile_python.py   |  4 +++-
 src/arti/io/pickle_localfile_python.py |  6 ++----
 5 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/arti/internal/utils.py b/src/arti/internal/utils.py
index f366f79..21ccdf7 100644
--- a/src/arti/internal/utils.py
+++ b/src/arti/internal/utils.py
@@ -10,6 +10,7 @@ from pathlib import Path
 from tempfile import TemporaryDirectory
 from types import ModuleType
 from typing import IO, Any, Self, SupportsIndex, cast
+from uuid import uuid4
 
 from arti.internal.vendored.setuptools import find_namespace_packages
 
@@ -245,6 +246,24 @@ def register[K, V](
     return value
 
 
+def write_file(path: Path, contents: bytes) -> None:
+    """Write a file, creating any missing parent directories.
+
+    A new file will only appear at `path` once it is complete, even if interrupted. Existing files
+    are overwritten in place.
+    """
+    path.parent.mkdir(exist_ok=True, parents=True)
+    if path.exists():
+        path.write_bytes(contents)
+        return
+    temp = path.with_name(f".{uuid4().hex}")
+    try:
+        temp.write_bytes(contents)
+        temp.replace(path)
+    finally:
+        temp.unlink(missing_ok=True)
+
+
 class NoCopyMixin:
     """Mixin to bypass (deep)copying.
 
diff --git a/src/arti/io/json_gcsfile_python.py b/src/arti/io/json_gcsfile_python.py
index 5d8ff72..9022c3e 100644
--- a/src/arti/io/json_gcsfile_python.py
+++ b/src/arti/io/json_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_json_gcsfile_python(
 def _write_json_gcsfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
+    # Serialize up front, partial contents would still be uploaded if an error is raised below.
+    contents = json.dumps(data)
     with GCSFileSystem().open(storage_partition.qualified_path, "w") as file:
-        json.dump(data, file)
+        file.write(contents)
diff --git a/src/arti/io/json_localfile_python.py b/src/arti/io/json_localfile_python.py
index 403e064..48f763a 100644
--- a/src/arti/io/json_localfile_python.py
+++ b/src/arti/io/json_localfile_python.py
@@ -7,6 +7,7 @@ from pathlib import Path
 from typing import Any
 
 from arti.formats.json import JSON
+from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
 from arti.types import Type, is_partitioned
@@ -42,7 +43,4 @@ def _read_json_localfile_python(
 def _write_json_localfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: LocalFilePartition, view: PythonBuiltin
 ) -> None:
-    path = Path(storage_partition.path)
-    path.parent.mkdir(exist_ok=True, parents=True)
-    with path.open("w") as file:
-        json.dump(data, file)
+    write_file(Path(storage_partition.path), json.dumps(data).encode())
diff --git a/src/arti/io/pickle_gcsfile_python.py b/src/arti/io/pickle_gcsfile_python.py
index 5c24bed..9f5696b 100644
--- a/src/arti/io/pickle_gcsfile_python.py
+++ b/src/arti/io/pickle_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_pickle_gcsfile_python(
 def _write_pickle_gcsfile_python(
     data: Any, type_: Type, format: Pickle, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
+    # Serialize up front, partial contents would still be uploaded if an error is raised below.
+    contents = pickle.dumps(data)
     with GCSFileSystem().open(storage_partition.qualified_path, "wb") as file:
-        pickle.dump(data, file)
+        file.write(contents)
diff --git a/src/arti/io/pickle_localfile_python.py b/src/arti/io/pickle_localfile_python.py
index 3c7bd18..fdb88d6 100644
--- a/src/arti/io/pickle_localfile_python.py
+++ b/src/arti/io/pickle_localfile_python.py
@@ -7,6 +7,7 @@ from pathlib import Path
 from typing import Any
 
 from arti.formats.pickle import Pickle
+from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
 from arti.types import Type, is_partitioned
@@ -44,7 +45,4 @@ def _write_pickle_localfile_python(
     storage_partition: LocalFilePartition,
     view: PythonBuiltin,
 ) -> None:
-    path = Path(storage_partition.path)
-    path.parent.mkdir(exist_ok=True, parents=True)
-    with path.open("wb") as file:
-        pickle.dump(data, file)
+    write_file(Path(storage_partition.path), pickle.dumps(data))
-- 
2.43.0


From 316cf9c8da88a0cf2e046be477b6bf7949d31331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 15/38] fix: replace existing files at once when rewriting a
 partition

A partition may be executed again (eg: another output of its Producer is gone). If
that was interrupted, the complete data stored before was left truncated.
---
 src/arti/internal/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/arti/internal/utils.py b/src/arti/internal/utils.py
index 21ccdf7..66f3267 100644
--- a/src/arti/internal/utils.py
+++ b/src/arti/internal/utils.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import importlib
 import inspect
 import pkgutil
+import shutil
 import threading
 from collections.abc import Callable, Generator, Iterable
 from contextlib import contextmanager
@@ -249,16 +250,20 @@ def register[K, V](
 def write_file(path: Path, contents: bytes) -> None:
     """Write a file, creating any missing parent directories.
 
-    A new file will only appear at `path` once it is complete, even if interrupted. Existing files
-    are overwritten in place.
+    The new contents replace any existing contents at once, even if interrupted. Existing empty
+    files have nothing to preserve and are filled in place.
     """
+    path = path.resolve()  # Write through symlinks
     path.parent.mkdir(exist_ok=True, parents=True)
-    if path.exists():
+    exists = path.exists()
+    if exists and path.stat().st_size == 0:
         path.write_bytes(contents)
         return
     temp = path.with_name(f".{uuid4().hex}")
     try:
         temp.write_bytes(contents)
+        if exists:
+            shutil.copymode(path, temp)
         temp.replace(path)
     finally:
         temp.unlink(missing_ok=True)
-- 
2.43.0


From e0a4b0756bc6daacc51d1ff27fee7e902fd34550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 16/38] fix: don't treat the value of a literal as a template

Values with braces (eg: any JSON object) couldn't be used, and values looking like a
placeholder or ending with a separator were altered.
---
 src/arti/storage/__init__.py | 7 ++++---
 src/arti/storage/literal.py  | 6 ++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/__init__.py b/src/arti/storage/__init__.py
index ad0bace..32518cb 100644
--- a/src/arti/storage/__init__.py
+++ b/src/arti/storage/__init__.py
@@ -205,11 +205,12 @@ class Storage[SP: StoragePartition](Model):
             if not self.includes_input_fingerprint_template:
                 raise ValueError(f"{self} does not specify a {{input_fingerprint}} template")
             format_kwargs["input_fingerprint"] = str(input_fingerprint)
+        format_fields = self._format_fields
         field_values = {
             name: (
-                strip_partition_indexes(original).format(**format_kwargs)
-                if lenient_issubclass(type(original := getattr(self, name)), str)
-                else original
+                strip_partition_indexes(format_fields[name]).format(**format_kwargs)
+                if name in format_fields
+                else getattr(self, name)
             )
             for name in self.model_fields
             if name in self.storage_partition_type.model_fields
diff --git a/src/arti/storage/literal.py b/src/arti/storage/literal.py
index c949ad0..b3435a8 100644
--- a/src/arti/storage/literal.py
+++ b/src/arti/storage/literal.py
@@ -8,6 +8,7 @@ from arti import (
     StoragePartition,
     StoragePartitionSnapshots,
 )
+from arti.internal.mappings import frozendict
 
 _not_written_err = FileNotFoundError("Literal has not been written yet")
 
@@ -28,6 +29,11 @@ class StringLiteral(Storage[StringLiteralPartition]):
     id: str = "{graph_name}/{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}"
     value: str | None = None
 
+    @property
+    def _format_fields(self) -> frozendict[str, str]:
+        # The value is (opaque) data, *not* a template.
+        return frozendict({k: v for k, v in super()._format_fields.items() if k != "value"})
+
     def discover_partitions(
         self, input_fingerprints: InputFingerprints = InputFingerprints()
     ) -> StoragePartitionSnapshots:
-- 
2.43.0


From f405e1b3ecdffa4ab0d4999d427a3881260d5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 17/38] fix: include how Artifacts are wired to Producers in
 the Graph fingerprint

---
 src/arti/graphs/__init__.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index a887508..92e94d8 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
+import json
 from collections import defaultdict
 from collections.abc import Callable
 from functools import cached_property, wraps
@@ -147,6 +148,22 @@ class Graph(Model):
     def artifact_to_key(self) -> frozendict[Artifact, str]:
         return self._artifact_to_key
 
+    @cached_property
+    def fingerprint(self) -> Fingerprint:
+        # The Artifact fingerprints omit the `producer_output`, so we must include which Producer
+        # output is assigned to each key (and which keys it is built from) separately. Otherwise,
+        # Graphs containing the same Artifacts and Producers, but wired differently, would match.
+        artifacts = dict(sorted(self.artifacts.walk(), key=lambda item: item[0]))
+        keys = {artifact: key for key, artifact in artifacts.items()}
+        wiring = []
+        for key, artifact in artifacts.items():
+            if (output := artifact.producer_output) is not None:
+                inputs = {name: keys.get(input) for name, input in output.producer.inputs.items()}
+                wiring.append((key, output.producer.fingerprint, output.position, inputs))
+        return Fingerprint.from_string(self.model_dump_json()).combine(
+            Fingerprint.from_string(json.dumps(wiring, sort_keys=True))
+        )
+
     @requires_sealed
     def build(self, executor: Executor | None = None) -> GraphSnapshot:
         return self.snapshot().build(executor)
-- 
2.43.0


From 6be08bbaecfca1800dbf49d84976e15c18a8871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 18/38] fix: don't reuse the data of a different output of the
 same Producer

---
 src/arti/executors/__init__.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index 763aa4e..5caed48 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -5,6 +5,7 @@ __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 import abc
 import logging
 
+from arti.artifacts import Artifact
 from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
 from arti.graphs import GraphSnapshot
@@ -31,6 +32,16 @@ class Executor(Model):
             }
         )
 
+    def get_output_fingerprint(
+        self, artifact: Artifact, input_fingerprint: Fingerprint
+    ) -> Fingerprint:
+        # Outputs of the same Producer share the inputs but not the contents, so an Artifact must not
+        # reuse partitions built before it was assigned to a different output.
+        position = assert_not_none(artifact.producer_output).position
+        if position == 0:
+            return input_fingerprint
+        return input_fingerprint.combine(Fingerprint.from_string(f"output {position}"))
+
     def discover_producer_partitions(
         self,
         snapshot: GraphSnapshot,
@@ -48,7 +59,15 @@ class Executor(Model):
         # input_fingerprints we've computed *are* for this snapshot - and then link them to the
         # snapshot.
         output_partition_snapshots = {
-            output: connection.read_artifact_partitions(output, partition_input_fingerprints)
+            output: connection.read_artifact_partitions(
+                output,
+                InputFingerprints(
+                    {
+                        partition_key: self.get_output_fingerprint(output, input_fingerprint)
+                        for partition_key, input_fingerprint in partition_input_fingerprints.items()
+                    }
+                ),
+            )
             for output in snapshot.graph.producer_outputs[producer]
         }
         for artifact, partition_snapshots in output_partition_snapshots.items():
@@ -105,7 +124,7 @@ class Executor(Model):
             snapshot.write(
                 outputs[position],
                 artifact=artifact,
-                input_fingerprint=input_fingerprint,
+                input_fingerprint=self.get_output_fingerprint(artifact, input_fingerprint),
                 partition_key=partition_key,
                 view=producer._outputs_[position],
             )
-- 
2.43.0


From 91f3db7bc13df816f55a30c70995da70ad5e501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 19/38] fix: identify equal Artifacts by the same key
 regardless of the definition order

---
 src/arti/graphs/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 92e94d8..fdff971 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -137,8 +137,12 @@ class Graph(Model):
         # The Graph object is "frozen", so we must bypass the assignment checks.
         self.artifacts._status.root = status
         self._status = status
+        # Equal Artifacts may be assigned to multiple keys - sort to pick one consistently.
         self._artifact_to_key = frozendict(
-            {artifact: key for key, artifact in self.artifacts.walk()}
+            {
+                artifact: key
+                for key, artifact in sorted(self.artifacts.walk(), key=lambda item: item[0])
+            }
         )
         # The artifacts may have changed since these were computed (eg: if the Graph is reopened).
         for name in ("dependencies", "fingerprint", "producer_outputs", "producers"):
-- 
2.43.0


From d204f97e0a95ad7e32e6f64ddbbb17c4b5adcb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:22 +0000
Subject: [PATCH 20/38] fix: redo the model_post_init setup when copying a
 Model with updates

---
 src/arti/internal/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index f420d81..73a966f 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -171,9 +171,10 @@ class Model(BaseModel, metaclass=ModelMeta):
         copy = super().model_copy(update=update, deep=deep)
         if update:
             # Pydantic copies all of `__dict__`, including `cached_property` values (such as the
-            # fingerprint) computed from the original fields.
+            # fingerprint) and anything set in `model_post_init` from the original fields.
             for name in set(copy.__dict__) - set(self.model_fields) - set(update):
                 del copy.__dict__[name]
+            copy.model_post_init(None)
         return copy
 
     def __repr_args__(self) -> Iterable[tuple[str | None, Any]]:
-- 
2.43.0


From d986a1849fd3db7f500bc7fe774c5c9d92e67f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 21/38] fix: discover partitions of templates with formatted
 components (eg: {date.m:02})

---
 src/arti/storage/_internal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index bb8f8cd..4fe0e0e 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -85,6 +85,9 @@ class WildcardPlaceholder(Placeholder):
         self._err_if_no_attribute()
         return "*"
 
+    def __format__(self, spec: str) -> str:
+        return str(self)  # Any formatting applies to the value, not the wildcard.
+
 
 # NOTE: We might pre-populate this with the Graph tags so the hard coded templates are already available (rather than
 # being filled in with a WildcardPlaceholder).
-- 
2.43.0


From b8cafdd736915a00c69a6aca67e615d910a4fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 22/38] fix: never discover a partition from a file stored
 elsewhere

---
 src/arti/storage/google/cloud/storage.py | 16 ++++++++++------
 src/arti/storage/local.py                | 12 +++++++++---
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/arti/storage/google/cloud/storage.py b/src/arti/storage/google/cloud/storage.py
index 525fbaf..007bc3c 100644
--- a/src/arti/storage/google/cloud/storage.py
+++ b/src/arti/storage/google/cloud/storage.py
@@ -54,11 +54,15 @@ class GCSFile(_GCSMixin, Storage[GCSFilePartition]):
         path_metadata = parse_spec(
             paths, spec=spec, key_types=self.key_types, input_fingerprints=input_fingerprints
         )
+        # Skip any similarly named files (eg: `date_iso=20240102`) that would parse to a partition
+        # stored elsewhere (eg: `date_iso=2024-01-02`).
         return tuple(
-            self.generate_partition(
-                input_fingerprint=input_fingerprint, partition_key=partition_key
-            ).snapshot()
-            for (bucket, path), (input_fingerprint, partition_key) in {
-                tuple(path.split("/", 1)): metadata for path, metadata in path_metadata.items()
-            }.items()
+            partition.snapshot()
+            for path, (input_fingerprint, partition_key) in path_metadata.items()
+            if (
+                partition := self.generate_partition(
+                    input_fingerprint=input_fingerprint, partition_key=partition_key
+                )
+            ).qualified_path
+            == path
         )
diff --git a/src/arti/storage/local.py b/src/arti/storage/local.py
index 900d982..ebd313e 100644
--- a/src/arti/storage/local.py
+++ b/src/arti/storage/local.py
@@ -50,11 +50,17 @@ class LocalFile(Storage[LocalFilePartition]):
         path_metadata = parse_spec(
             paths, spec=self.path, key_types=self.key_types, input_fingerprints=input_fingerprints
         )
+        # Skip any similarly named files (eg: `date_iso=20240102`) that would parse to a partition
+        # stored elsewhere (eg: `date_iso=2024-01-02`).
         return tuple(
-            self.generate_partition(
-                input_fingerprint=input_fingerprint, partition_key=partition_key
-            ).snapshot()
+            partition.snapshot()
             for path, (input_fingerprint, partition_key) in path_metadata.items()
+            if (
+                partition := self.generate_partition(
+                    input_fingerprint=input_fingerprint, partition_key=partition_key
+                )
+            ).path
+            == path
         )
 
     @classmethod
-- 
2.43.0


From afec4ada30bb14951ba2f1834cf5255ef0877414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 23/38] fix: parse each discovered partition field with its own
 type

---
 src/arti/storage/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 4fe0e0e..17c8053 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -158,7 +158,7 @@ def extract_placeholders(
 
     partition_key = PartitionKey(
         {
-            field_name: key_types[key].from_components(**components)
+            field_name: key_types[field_name].from_components(**components)
             for field_name, components in field_components.items()
         }
     )
-- 
2.43.0


From cc78f059f1dd3a0ab19f5fdab1602aa7ef2578a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 24/38] fix: strip the separator of every unused placeholder,
 also if repeated in a template

---
 src/arti/storage/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/arti/storage/__init__.py b/src/arti/storage/__init__.py
index 32518cb..e672e90 100644
--- a/src/arti/storage/__init__.py
+++ b/src/arti/storage/__init__.py
@@ -225,12 +225,14 @@ class Storage[SP: StoragePartition](Model):
     def _resolve_field(self, name: str, spec: str, placeholder_values: dict[str, str]) -> str:
         for placeholder, value in placeholder_values.items():
             if not value:
-                # Strip placeholder *and* any trailing self.segment_sep.
+                # Strip each placeholder *and* any trailing self.segment_sep.
                 trim = "{" + placeholder + "}"
-                if f"{trim}{self.segment_sep}" in spec:
-                    trim = f"{trim}{self.segment_sep}"
                 # Also strip any trailing separators, eg: if the placeholder was at the end.
-                spec = spec.replace(trim, "").rstrip(self.segment_sep)
+                spec = (
+                    spec.replace(f"{trim}{self.segment_sep}", "")
+                    .replace(trim, "")
+                    .rstrip(self.segment_sep)
+                )
                 if not spec:
                     raise ValueError(f"{self}.{name} was empty after removing unused templates")
         return partial_format(spec, **placeholder_values)
-- 
2.43.0


From 88a93da1df2b9c667abfab0c4178d43b88ceb7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 25/38] fix: compare unions, literals and typed dicts used as
 type hints

---
 src/arti/internal/type_hints.py | 62 ++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/arti/internal/type_hints.py b/src/arti/internal/type_hints.py
index 7026f5f..149948e 100644
--- a/src/arti/internal/type_hints.py
+++ b/src/arti/internal/type_hints.py
@@ -36,26 +36,23 @@ def assert_all_instances(values: Iterable[Any], *, type: type[_T]) -> Iterable[_
 
 # TODO: Determine if we can replace this logic with `beartype` or related packages.
 def _check_issubclass(klass: Any, check_type: type) -> bool:
-    # If a hint is Annotated, we want to unwrap the underlying type and discard the rest of the
-    # metadata.
-    klass = discard_Annotated(klass)
     klass_origin, klass_args = get_origin(klass), get_args(klass)
-    if isinstance(klass, TypeVar):
-        klass = cast(type, Any) if klass.__bound__ is None else klass.__bound__
-        klass_origin, klass_args = get_origin(klass), get_args(klass)
     check_type_origin, check_type_args = get_origin(check_type), get_args(check_type)
-    if check_type_origin is Annotated:
-        check_type = check_type_args[0]
-        check_type_origin, check_type_args = get_origin(check_type), get_args(check_type)
-    if isinstance(check_type, TypeVar):
-        check_type = cast(type, Any) if check_type.__bound__ is None else check_type.__bound__
-        check_type_origin, check_type_args = get_origin(check_type), get_args(check_type)
     if klass is Any:
         return check_type is Any
     if check_type is Any:
         return True
     if check_type is None:
         return klass is NoneType
+    # Type hints may be special forms (eg: `Literal[5]`, or the `...` in `tuple[int, ...]`) and
+    # `TypedDict`s, but neither can be checked with `issubclass`.
+    if is_typeddict(check_type):
+        return is_typeddict(klass) and _check_typeddict(klass, check_type)
+    if not (
+        isinstance(klass_origin or klass, type)
+        and isinstance(check_type_origin or check_type, type)
+    ):
+        return False
     # eg: issubclass(tuple, tuple)
     if klass_origin is None and check_type_origin is None:
         return issubclass(klass, check_type)
@@ -86,10 +83,26 @@ def _check_issubclass(klass: Any, check_type: type) -> bool:
     raise NotImplementedError("The origin conditions don't cover all cases!")
 
 
+def _check_typeddict(klass: Any, check_type: Any) -> bool:
+    klass_hints = get_type_hints(klass)
+    return check_type.__required_keys__ <= klass.__required_keys__ and all(
+        name in klass_hints and lenient_issubclass(klass_hints[name], hint)
+        for name, hint in get_type_hints(check_type).items()
+    )
+
+
 def discard_Annotated(type_: Any) -> Any:
     return get_args(type_)[0] if is_annotated_hint(type_) else type_
 
 
+def _unwrap_hint(hint: Any) -> Any:
+    # If a hint is Annotated or a TypeVar, unwrap the underlying type and discard the rest.
+    hint = discard_Annotated(hint)
+    if isinstance(hint, TypeVar):
+        hint = Any if hint.__bound__ is None else discard_Annotated(hint.__bound__)
+    return hint
+
+
 def get_class_type_vars(klass: type) -> tuple[type, ...]:
     """Get the bound type variables from a class
 
@@ -164,13 +177,28 @@ def get_annotation_from_value(value: Any) -> Any:
 
 
 def lenient_issubclass[T: type | tuple[type, ...]](klass: Any, class_or_tuple: T) -> TypeGuard[T]:
-    if not (
-        isinstance(klass, type | GenericAlias | TypeVar) or is_annotated_hint(klass) or klass is Any
-    ):
-        return False
+    klass = _unwrap_hint(klass)
     if isinstance(class_or_tuple, tuple):
         return any(lenient_issubclass(klass, subtype) for subtype in class_or_tuple)
-    check_type = class_or_tuple
+    check_type = _unwrap_hint(class_or_tuple)
+    # Unions and literals are not classes, so only match `Any` or another of the same kind.
+    if is_union_hint(klass):
+        return check_type is Any or (
+            is_union_hint(check_type)
+            and all(lenient_issubclass(sub, check_type) for sub in get_args(klass))
+        )
+    if get_origin(klass) is Literal:
+        literals = [
+            hint
+            for hint in (get_args(check_type) if is_union_hint(check_type) else (check_type,))
+            if get_origin(hint) is Literal
+        ]
+        return check_type is Any or any(
+            {(type(v), v) for v in get_args(klass)} <= {(type(v), v) for v in get_args(hint)}
+            for hint in literals
+        )
+    if not (isinstance(klass, type | GenericAlias) or klass is Any):
+        return False
     # NOTE: py 3.10 supports issubclass with Unions (eg: `issubclass(str, str | int)`)
     if is_union_hint(check_type):
         return any(lenient_issubclass(klass, subtype) for subtype in get_args(check_type))
-- 
2.43.0


From 9542612c27439edf8a4cf3323ab12bd74dcce6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 26/38] fix: map None inside other Python hints

---
 src/arti/types/python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arti/types/python.py b/src/arti/types/python.py
index 38eff21..18f7f1e 100644
--- a/src/arti/types/python.py
+++ b/src/arti/types/python.py
@@ -40,14 +40,15 @@ for _precision in (8, 16, 32, 64):
 
 @python_type_system.register_adapter
 class PyNone(_ScalarClassTypeAdapter):
-    # Python represents None types in type hints with the `None` value (not `NoneType`).
+    # Python represents None types in type hints with the `None` value, but nested hints (eg: in a
+    # TypedDict) may be normalized to `NoneType`.
 
     artigraph = arti.types.Null
     system = None
 
     @classmethod
     def matches_system(cls, type_: Any, *, hints: dict[str, Any]) -> bool:
-        return type_ is None
+        return type_ is None or type_ is NoneType
 
 
 @python_type_system.register_adapter
-- 
2.43.0


From 5c8e924aa193ccb274277219f603356002b0fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 27/38] fix: keep nullability of structs and null fields in
 pydantic models

---
 src/arti/types/pydantic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/pydantic.py b/src/arti/types/pydantic.py
index 3a49231..4bb160a 100644
--- a/src/arti/types/pydantic.py
+++ b/src/arti/types/pydantic.py
@@ -5,7 +5,7 @@ from typing import Any
 from pydantic import BaseModel, create_model
 from pydantic.fields import FieldInfo
 
-from arti.internal.type_hints import lenient_issubclass
+from arti.internal.type_hints import NoneType, lenient_issubclass
 from arti.types import Struct, Type, TypeAdapter, TypeSystem, _NamedMixin
 from arti.types.python import python_type_system
 
@@ -26,6 +26,11 @@ class BaseModelAdapter(TypeAdapter):
             subtype = subtype.model_copy(update={"name": name})
         return subtype
 
+    @classmethod
+    def matches_artigraph(cls, type_: Type, *, hints: dict[str, Any]) -> bool:
+        # Nullable types are handled by the python_type_system's PyOptional.
+        return super().matches_artigraph(type_, hints=hints) and not type_.nullable
+
     @classmethod
     def to_artigraph(
         cls, type_: type[BaseModel], *, hints: dict[str, Any], type_system: TypeSystem
@@ -48,4 +53,6 @@ class BaseModelAdapter(TypeAdapter):
     ) -> type[BaseModel]:
         assert isinstance(type_, Struct)
         annotations = {k: type_system.to_system(v, hints=hints) for k, v in type_.fields.items()}
+        # pydantic requires annotations, where a bare None is taken as missing.
+        annotations = {k: NoneType if v is None else v for k, v in annotations.items()}
         return create_model(type_.name, **{name: (hint, ...) for name, hint in annotations.items()})
-- 
2.43.0


From 26a8c9b70f7b374d3b54d43ebb7116d661f117b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 28/38] fix: convert null fields to Arrow and refuse duplicate
 Arrow fields

---
 src/arti/types/pyarrow.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/pyarrow.py b/src/arti/types/pyarrow.py
index f82b975..8738c97 100644
--- a/src/arti/types/pyarrow.py
+++ b/src/arti/types/pyarrow.py
@@ -187,6 +187,10 @@ class StructTypeAdapter(_PyarrowTypeAdapter):
 
     @classmethod
     def to_artigraph(cls, type_: Any, *, hints: dict[str, Any], type_system: TypeSystem) -> Type:
+        # NOTE: pyarrow supports duplicate field names, but Struct cannot represent them.
+        names = [field.name for field in type_]
+        if duplicates := {name for name in names if names.count(name) > 1}:
+            raise ValueError(f"{type_} has duplicate fields: {duplicates}")
         return cls.artigraph(
             fields={
                 field.name: cls._field_to_artigraph(field, hints=hints, type_system=type_system)
@@ -198,7 +202,9 @@ class StructTypeAdapter(_PyarrowTypeAdapter):
     def _field_to_system(
         cls, name: str, type_: Type, *, hints: dict[str, Any], type_system: TypeSystem
     ) -> Any:
-        return pa.field(name, type_system.to_system(type_, hints=hints), nullable=type_.nullable)
+        # pyarrow requires null fields to be nullable.
+        nullable = type_.nullable or isinstance(type_, types.Null)
+        return pa.field(name, type_system.to_system(type_, hints=hints), nullable=nullable)
 
     @classmethod
     def to_system(cls, type_: Type, *, hints: dict[str, Any], type_system: TypeSystem) -> Any:
-- 
2.43.0


From 29f65b0799ced47aa617b65100d6cc79bfc9d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 29/38] fix: refuse nested BigQuery tables and keep array and
 table descriptions

---
 src/arti/types/bigquery.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/bigquery.py b/src/arti/types/bigquery.py
index e15b0ee..bb738e8 100644
--- a/src/arti/types/bigquery.py
+++ b/src/arti/types/bigquery.py
@@ -143,6 +143,8 @@ class StructTypeAdapter(_BigQueryTypeAdapter):
     @classmethod
     def to_system(cls, type_: Type, *, hints: dict[str, Any], type_system: TypeSystem) -> Any:
         assert isinstance(type_, cls.artigraph)
+        if any(isinstance(subtype, types.Collection) for subtype in type_.fields.values()):
+            raise ValueError("BigQuery doesn't support nested tables")
         return _create_schema_field(
             cls.system,
             type_,
@@ -199,7 +201,11 @@ class ListFieldTypeAdapter(TypeAdapter):
             )
         if isinstance(type_.element, types.List):
             raise ValueError("BigQuery doesn't support nested arrays")
-        field = type_system.to_system(type_.element, hints=hints)
+        element = type_.element
+        if type_.description is not None:
+            # The field for the array and its element are one and the same, prefer the outermost.
+            element = element.model_copy(update={"description": type_.description})
+        field = type_system.to_system(element, hints=hints)
         assert field.mode == BIGQUERY_MODE.REQUIRED
         field._properties["mode"] = BIGQUERY_MODE.REPEATED
         return field
@@ -237,6 +243,7 @@ class TableTypeAdapter(TypeAdapter):
                 ),
                 hints=hints,
             ),
+            description=type_.description,
             nullable=False,
             **kwargs,
         )
@@ -254,6 +261,8 @@ class TableTypeAdapter(TypeAdapter):
         if name == types.DEFAULT_ANONYMOUS_NAME:
             name = "project.dataset.table"
         table = cls.system(name, schema=type_system.to_system(type_.element, hints=hints).fields)
+        if type_.description is not None:
+            table.description = type_.description
         partition, cluster = type_.partition_by, type_.cluster_by
         if partition:
             # BigQuery only supports a single partitioning field. We'll move the rest to the
-- 
2.43.0


From 8adde8dccddbbcc9174b4d9ec6d4194faaef125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 30/38] fix: check every value of NumPy and pandas object
 arrays

---
 src/arti/types/numpy.py  | 3 ++-
 src/arti/types/pandas.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arti/types/numpy.py b/src/arti/types/numpy.py
index bf48f6b..de7c09d 100644
--- a/src/arti/types/numpy.py
+++ b/src/arti/types/numpy.py
@@ -77,7 +77,8 @@ class ArrayAdapter(TypeAdapter):
     def to_artigraph(
         cls, type_: np.ndarray[Any, Any], *, hints: dict[str, Any], type_system: TypeSystem
     ) -> Type:
-        value = type_[0] if isinstance(type_[0], np.ndarray) else type(type_[0])
+        # NOTE: The elements of an "object" array may have different types, so check the dtype.
+        value = type_[0] if isinstance(type_[0], np.ndarray) else type_.dtype.type
         return cls.artigraph(element=type_system.to_artigraph(value, hints=hints))
 
     @classmethod
diff --git a/src/arti/types/pandas.py b/src/arti/types/pandas.py
index 13ea103..318310c 100644
--- a/src/arti/types/pandas.py
+++ b/src/arti/types/pandas.py
@@ -33,7 +33,8 @@ class SeriesAdapter(TypeAdapter):
             # TODO: Should we handle empty series by defaulting to "String", but issuing
             # a warning?
             example_value = type_.iloc[0]
-            if isinstance(example_value, str):
+            # NOTE: Missing values are ignored, but all others must be strings.
+            if pd.api.types.infer_dtype(type_, skipna=True) == "string":
                 return List(element=String())
             # TODO: Handle dicts, lists, etc.
             raise NotImplementedError(
-- 
2.43.0


From 02dda8e4e2e1891a7687b55ec9351d999ca02ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 31/38] fix: restore the keys of maps when reading JSON

---
 src/arti/formats/json.py                 | 28 ++++++++++++++++++++++++
 src/arti/io/json_gcsfile_python.py       | 10 ++++-----
 src/arti/io/json_localfile_python.py     | 11 +++++-----
 src/arti/io/json_stringliteral_python.py | 11 +++++-----
 4 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/src/arti/formats/json.py b/src/arti/formats/json.py
index ce014ec..5a10407 100644
--- a/src/arti/formats/json.py
+++ b/src/arti/formats/json.py
@@ -1,6 +1,10 @@
 from __future__ import annotations
 
+import json
+from typing import Any
+
 from arti.formats import Format
+from arti.types import Collection, Enum, List, Map, Set, String, Struct, Type
 from arti.types.python import python_type_system
 
 
@@ -9,3 +13,27 @@ class JSON(Format):
     # Perhaps we narrow down a json_type_system with the subset of supported types + a way to hook
     # into json.JSON{De,En}coders.
     type_system = python_type_system
+
+
+def load_json(contents: str | bytes, type_: Type) -> Any:
+    """Load JSON contents holding data of the specified Type."""
+    return _restore_keys(json.loads(contents), type_)
+
+
+def _restore_keys(data: Any, type_: Type) -> Any:
+    # The keys of JSON objects are always strings, so other Map keys must be converted back.
+    if isinstance(data, dict):
+        if isinstance(type_, Map):
+            key_type = type_.key.type if isinstance(type_.key, Enum) else type_.key
+            return {
+                (k if isinstance(key_type, String) else json.loads(k)): _restore_keys(v, type_.value)
+                for k, v in data.items()
+            }
+        if isinstance(type_, Struct):
+            return {
+                k: _restore_keys(v, type_.fields[k]) if k in type_.fields else v
+                for k, v in data.items()
+            }
+    if isinstance(data, list) and isinstance(type_, Collection | List | Set):
+        return [_restore_keys(v, type_.element) for v in data]
+    return data
diff --git a/src/arti/io/json_gcsfile_python.py b/src/arti/io/json_gcsfile_python.py
index 9022c3e..0f256d0 100644
--- a/src/arti/io/json_gcsfile_python.py
+++ b/src/arti/io/json_gcsfile_python.py
@@ -7,7 +7,7 @@ from typing import Any
 
 from gcsfs import GCSFileSystem
 
-from arti.formats.json import JSON
+from arti.formats.json import JSON, load_json
 from arti.io import register_reader, register_writer
 from arti.storage.google.cloud.storage import GCSFilePartition
 from arti.types import Type, is_partitioned
@@ -17,10 +17,10 @@ from arti.views.python import PythonBuiltin
 # Maybe a View option?
 
 
-def _read_json_file(path: str) -> Any:
+def _read_json_file(path: str, type_: Type) -> Any:
     # TODO: GCSFileSystem needs to be injected somehow
     with GCSFileSystem().open(path, "r") as file:
-        return json.load(file)
+        return load_json(file.read(), type_)
 
 
 @register_reader
@@ -33,12 +33,12 @@ def _read_json_gcsfile_python(
     if is_partitioned(type_):
         return list(
             chain.from_iterable(
-                _read_json_file(storage_partition.qualified_path)
+                _read_json_file(storage_partition.qualified_path, type_)
                 for storage_partition in storage_partitions
             )
         )
     assert len(storage_partitions) == 1  # Better error handled in base read
-    return _read_json_file(storage_partitions[0].qualified_path)
+    return _read_json_file(storage_partitions[0].qualified_path, type_)
 
 
 @register_writer
diff --git a/src/arti/io/json_localfile_python.py b/src/arti/io/json_localfile_python.py
index 48f763a..2a44b89 100644
--- a/src/arti/io/json_localfile_python.py
+++ b/src/arti/io/json_localfile_python.py
@@ -6,7 +6,7 @@ from itertools import chain
 from pathlib import Path
 from typing import Any
 
-from arti.formats.json import JSON
+from arti.formats.json import JSON, load_json
 from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
@@ -17,9 +17,9 @@ from arti.views.python import PythonBuiltin
 # Maybe a View option?
 
 
-def _read_json_file(path: str) -> Any:
+def _read_json_file(path: str, type_: Type) -> Any:
     with open(path) as file:
-        return json.load(file)
+        return load_json(file.read(), type_)
 
 
 @register_reader
@@ -32,11 +32,12 @@ def _read_json_localfile_python(
     if is_partitioned(type_):
         return list(
             chain.from_iterable(
-                _read_json_file(storage_partition.path) for storage_partition in storage_partitions
+                _read_json_file(storage_partition.path, type_)
+                for storage_partition in storage_partitions
             )
         )
     assert len(storage_partitions) == 1  # Better error handled in base read
-    return _read_json_file(storage_partitions[0].path)
+    return _read_json_file(storage_partitions[0].path, type_)
 
 
 @register_writer
diff --git a/src/arti/io/json_stringliteral_python.py b/src/arti/io/json_stringliteral_python.py
index d22129d..f4315fc 100644
--- a/src/arti/io/json_stringliteral_python.py
+++ b/src/arti/io/json_stringliteral_python.py
@@ -5,19 +5,19 @@ from collections.abc import Sequence
 from itertools import chain
 from typing import Any
 
-from arti.formats.json import JSON
+from arti.formats.json import JSON, load_json
 from arti.io import register_reader, register_writer
 from arti.storage.literal import StringLiteralPartition
 from arti.types import Type, is_partitioned
 from arti.views.python import PythonBuiltin
 
 
-def _read_json_literal(partition: StringLiteralPartition) -> Any:
+def _read_json_literal(partition: StringLiteralPartition, type_: Type) -> Any:
     # Though we take in a Partition (which has `value` as optional), we should be operating within a
     # Snapshot, which will ensure the `value` is set as part of
     # StringLiteralPartition.compute_content_fingerprint.
     assert partition.value is not None
-    return json.loads(partition.value)
+    return load_json(partition.value, type_)
 
 
 @register_reader
@@ -30,11 +30,12 @@ def _read_json_stringliteral_python(
     if is_partitioned(type_):
         return list(
             chain.from_iterable(
-                _read_json_literal(storage_partition) for storage_partition in storage_partitions
+                _read_json_literal(storage_partition, type_)
+                for storage_partition in storage_partitions
             )
         )
     assert len(storage_partitions) == 1  # Better error handled in base read
-    return _read_json_literal(storage_partitions[0])
+    return _read_json_literal(storage_partitions[0], type_)
 
 
 @register_writer
-- 
2.43.0


From 37e3c690e662b686d6dedefa3fc0b9875da27128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 32/38] fix: refuse dispatch handlers with reordered parameters

---
 src/arti/internal/dispatch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/dispatch.py b/src/arti/internal/dispatch.py
index e424969..5920b77 100644
--- a/src/arti/internal/dispatch.py
+++ b/src/arti/internal/dispatch.py
@@ -64,9 +64,10 @@ class _multipledispatch(_multimethod.multidispatch[RETURN]):
             func = args[0]
             sig = tidy_signature(func, inspect.signature(func))
             spec = self.clean_signature
-            if set(sig.parameters) != set(spec.parameters):
+            # Handlers are called positionally, so the order matters.
+            if list(sig.parameters) != list(spec.parameters):
                 raise TypeError(
-                    f"Expected `{func.__name__}` to have {sorted(set(spec.parameters))} parameters, got {sorted(set(sig.parameters))}"
+                    f"Expected `{func.__name__}` to have {list(spec.parameters)} parameters, got {list(sig.parameters)}"
                 )
             for name in sig.parameters:
                 sig_param, spec_param = sig.parameters[name], spec.parameters[name]
-- 
2.43.0


From 7886b6bb528d13583407eebc8af4b98154d5d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 33/38] fix: dispatch to the most specific handler in any
 registration order

---
 src/arti/internal/dispatch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arti/internal/dispatch.py b/src/arti/internal/dispatch.py
index 5920b77..1244848 100644
--- a/src/arti/internal/dispatch.py
+++ b/src/arti/internal/dispatch.py
@@ -36,6 +36,12 @@ class _multipledispatch(_multimethod.multidispatch[RETURN]):
             self.discovery_func()
         return super().__missing__(types)
 
+    def parents(self, types: tuple[Any, ...]) -> set[Any]:
+        # multimethod tracks the ancestors of each handler incrementally, but may miss some depending
+        # on the registration order. The leftovers are ambiguous when using Generics.
+        parents = {key for key in self if isinstance(key, _multimethod.signature) and key < types}
+        return {key for key in parents if not any(key < other for other in parents)}
+
     def lookup(self, *args: type[Any] | None) -> Callable[..., Any]:
         # multimethod wraps Generics (eg: `list[int]`) with an internal helper. We must do the same
         # before looking up. Non-Generics pass through as is.
-- 
2.43.0


From 6560f81fa6d5eb883031c66e5afa5e9c2fc4e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 34/38] fix: match annotated None hints to the Null View

---
 src/arti/views/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arti/views/__init__.py b/src/arti/views/__init__.py
index ce3d17f..a889706 100644
--- a/src/arti/views/__init__.py
+++ b/src/arti/views/__init__.py
@@ -10,7 +10,12 @@ from pydantic import ValidationInfo, field_validator
 from arti import io
 from arti.artifacts import Artifact
 from arti.internal.models import Model, ModelTypeSerializer, get_field_default
-from arti.internal.type_hints import discard_Annotated, get_item_from_annotated, lenient_issubclass
+from arti.internal.type_hints import (
+    NoneType,
+    discard_Annotated,
+    get_item_from_annotated,
+    lenient_issubclass,
+)
 from arti.internal.utils import import_submodules, register
 from arti.types import Type, TypeSystem
 
@@ -93,6 +98,8 @@ class View(Model):
             # We've already searched for a View instance in the original Annotated args, so just
             # extract the root annotation.
             annotation = discard_Annotated(annotation)
+            if annotation is NoneType:  # eg: `Annotated[None, ...]` or `type(None)`
+                annotation = None
             # Import the View submodules to trigger registration.
             import_submodules(__path__, __name__)
             view_class = cls._by_python_type_.get(annotation)
-- 
2.43.0


From 9634c4d6d864ee12c1eb44faadb31af8344abf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 35/38] fix: look up the handlers for None

---
 src/arti/internal/dispatch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arti/internal/dispatch.py b/src/arti/internal/dispatch.py
index 1244848..c3d6f36 100644
--- a/src/arti/internal/dispatch.py
+++ b/src/arti/internal/dispatch.py
@@ -6,7 +6,7 @@ from typing import Any, TypeVar, cast, overload
 
 import multimethod as _multimethod  # Minimize name confusion
 
-from arti.internal.type_hints import lenient_issubclass, tidy_signature
+from arti.internal.type_hints import NoneType, lenient_issubclass, tidy_signature
 
 RETURN = TypeVar("RETURN")
 REGISTERED = TypeVar("REGISTERED", bound=Callable[..., Any])
@@ -44,8 +44,11 @@ class _multipledispatch(_multimethod.multidispatch[RETURN]):
 
     def lookup(self, *args: type[Any] | None) -> Callable[..., Any]:
         # multimethod wraps Generics (eg: `list[int]`) with an internal helper. We must do the same
-        # before looking up. Non-Generics pass through as is.
-        args = tuple(_multimethod.subtype(arg) for arg in args)  # type: ignore[no-untyped-call]
+        # before looking up. Non-Generics pass through as is, but None must be converted to its type.
+        args = tuple(
+            _multimethod.subtype(NoneType if arg is None else arg)  # type: ignore[no-untyped-call]
+            for arg in args
+        )
         # NOTE: multimethod doesn't override __contains__ (likely so __missing__ will still run), so
         # "args in self" will be False when using subclasses of any arg.
         missing_error = ValueError(f"No `{self.canonical_name}` implementation found for: {args}")
-- 
2.43.0


From 7ceeca49038447743f682c5ca3fb09806b7854aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 36/38] fix: generate the map of each producer class anew

A producer inheriting from a concrete one also inherited its generated map, which
does not cover its own inputs: building failed, unused fields went unnoticed and
partitioned outputs were accepted without a map.
---
 src/arti/producers/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 6c09fac..4774482 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -281,7 +281,9 @@ class Producer(Model):
     @classmethod
     def _validate_map_sig(cls) -> tuple[Signature, MapInputs]:
         """Validate partitioned Artifacts and the .map method"""
-        if not hasattr(cls, "map"):
+        # A map generated for a parent class only covers the parent's inputs (and outputs), so
+        # generate another one.
+        if not hasattr(cls, "map") or getattr(cls.map, "_generated_", False):
             # TODO: Add runtime checking of `map` output (ie: output aligns w/ output
             # artifacts and such).
             if any(is_partitioned(view.type) for view in cls._outputs_):
@@ -300,6 +302,7 @@ class Producer(Model):
                 ],
                 return_annotation=PartitionDependencies,
             )
+            map._generated_ = True  # type: ignore[attr-defined]
             cls.map = cast(MapSig, staticmethod(map))
         if not isinstance(getattr_static(cls, "map"), classmethod | staticmethod):
             raise ValueError("must be a @classmethod or @staticmethod")
-- 
2.43.0


From 9945a42f382ec478a6eed667a338cdda187dea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 37/38] fix: name each producer after its own build function

Reusing a decorator returned by producer() gave every class the name of the first.
---
 src/arti/producers/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 4774482..be8eef2 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -444,11 +444,10 @@ def producer(
     version: Version | None = None,
 ) -> Callable[[BuildSig], type[Producer]]:
     def decorate(build: BuildSig) -> type[Producer]:
-        nonlocal name
-        name = build.__name__ if name is None else name
+        class_name = build.__name__ if name is None else name
         __annotations__: dict[str, Any] = {}
         for param in signature(build).parameters.values():
-            with wrap_exc(ValueError, prefix=f"{name} {param.name} param"):
+            with wrap_exc(ValueError, prefix=f"{class_name} {param.name} param"):
                 view = View.from_annotation(param.annotation, mode="READ")
                 __annotations__[param.name] = view.artifact_class
         # If overriding, set an explicit "annotations" hint until [1] is released.
@@ -459,7 +458,7 @@ def producer(
         if version:
             __annotations__["version"] = Version
         return type(
-            name,
+            class_name,
             (Producer,),
             {
                 k: v
-- 
2.43.0


From 13b1c1b995b7755252402adecd65177c66705bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 38/38] fix: leave the producer out of the fingerprints of
 plain Artifacts

Artifact refers to ProducerOutput before it is defined, so the SkipFingerprint
marker was not seen (other than in subclasses): changing a producer changed the
fingerprints of all plain Artifacts downstream.
---
 src/arti/internal/models.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 73a966f..ea33fe6 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -90,6 +90,19 @@ class Model(BaseModel, metaclass=ModelMeta):
         super().__pydantic_init_subclass__(**kwargs)
         # Default _abstract_ to False if not set explicitly on the class.
         cls._abstract_ = cls.__dict__.get("_abstract_", False)
+        cls._set_fingerprint_fields()
+
+    @classmethod
+    def model_rebuild(cls, *, _parent_namespace_depth: int = 2, **kwargs: Any) -> bool | None:
+        rebuilt = super().model_rebuild(
+            _parent_namespace_depth=_parent_namespace_depth + 1, **kwargs
+        )
+        # The fields' metadata (eg: SkipFingerprint) is unknown until forward references resolve.
+        cls._set_fingerprint_fields()
+        return rebuilt
+
+    @classmethod
+    def _set_fingerprint_fields(cls) -> None:
         # Determine all of the Fingerprint fields.
         if not cls.model_config.get("frozen"):  # coverage: ignore
             raise ValueError(f"{cls._arti_type_key_} must be frozen to generate a fingerprint.")
-- 
2.43.0

