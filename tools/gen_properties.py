"""Writes /verif/properties.jsonl (kept as code so the list stays reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/arti/" + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "A build yields what evaluating the graph from scratch would yield",
  "After a build of a graph succeeds, reading any produced artifact from that build's snapshot returns exactly the value obtained by evaluating the producers from scratch on the raw data, no matter what was built before, in which order raw data changed, which storage or partitions are used, or whether equal values or swapped inputs occur. For partitioned artifacts the set of partitions and the content of each are exactly the ones the producer's mapping yields for that raw data.",
  ["histories", "inputs", "programs"],
  "every graph shape in the model, every history of raw writes (including reverting, equal and swapped values, partition additions/removals), builds, and backend replacement",
  "tests build a handful of fixed graphs once or twice with distinct values; reuse of stale outputs only shows up for particular histories and value coincidences",
  ["executors/__init__.py", "executors/local.py", "producers/__init__.py", "graphs/__init__.py", "backends/memory.py", "storage/__init__.py"],
  [("input fingerprint of producer type, version and input contents", "producers/__init__.py compute_input_fingerprint"), ("partition discovery filtered by input fingerprint", "executors/__init__.py discover_producer_partitions"), ("per-snapshot links", "backends/memory.py")],
  [("storage_partitions", "every partition known per storage", "backends/memory.py"), ("snapshot_partitions", "partitions linked to a snapshot", "backends/memory.py")],
  ["Graph.build", "GraphSnapshot.read"])
p("C02", "Finished work is reused and only affected work is redone",
  "Within one backend's history a producer is executed for an output partition at most once per distinct combination of producer, version and input contents, so rebuilding with unchanged inputs (or returning to earlier inputs, or building from another snapshot) executes nothing. A change of raw data or producer version executes only those producer partitions whose own inputs or version changed; if an intermediate result comes out unchanged, nothing downstream of it is executed.",
  ["histories", "inputs", "programs"],
  "every graph shape in the model and every history of raw writes, version changes and builds",
  "tests check at most one rebuild of one small graph; over-invalidation appears only for some histories (reverts, converging values, unaffected siblings or partitions)",
  ["executors/__init__.py", "executors/local.py", "producers/__init__.py", "backends/memory.py"],
  [("skip existing partitions", "executors/__init__.py build_producer_partition"), ("content (not path) fingerprints", "producers/__init__.py compute_input_fingerprint")],
  [("storage_partitions", "every partition known per storage", "backends/memory.py")], ["producer executions", "Graph.build"])
p("C03", "Declared versions decide exactly when code changes invalidate data",
  "Changing a producer's version rebuilds its outputs exactly when the versions are not interchangeable: semantic versions with major above zero are interchangeable when majors agree, with major zero only when all three parts agree, and git, string and timestamp versions only when their resolved values agree. Versions that are interchangeable yield the same version fingerprint, in this and any other process, and versions that are not yield different ones.",
  ["inputs", "histories", "configurations"],
  "all pairs of versions of every kind in bounded ranges, and histories of version changes between builds",
  "tests compare a few hand-picked semantic versions and never drive a rebuild through a version change for each kind",
  ["versions/__init__.py", "producers/__init__.py"],
  [("SemVer fingerprint", "versions/__init__.py"), ("version included in input fingerprint", "producers/__init__.py")], [], ["Version.fingerprint", "Graph.build"])
p("C04", "Failed or interrupted builds leave nothing wrong and can be retried",
  "If a build stops at any point (a producer raises, output validation rejects, data cannot be serialized, a write or a backend update fails), no rejected, partial or mismatched data is ever returned by a read afterwards or reused by a later build, including from a fresh backend over the same storage, and previously stored data stays readable. Retrying once the fault is gone completes every output with the correct values and does not re-execute partitions that were fully completed before the fault.",
  ["crash_points", "fault_sequences", "histories"],
  "every fault point of every build in the model (per partition: map, build, validate, storage write of output i before/after/partway, backend update of output i), followed by arbitrary retries and raw changes",
  "tests have one validation failure; no test interrupts between the writes of two outputs or between storage and backend updates",
  ["executors/__init__.py", "executors/local.py", "graphs/__init__.py", "io/json_localfile_python.py", "io/pickle_localfile_python.py", "internal/utils.py", "backends/memory.py"],
  [("validate before write", "executors/__init__.py"), ("partition complete only if all outputs exist", "executors/__init__.py discover_producer_partitions"), ("atomic file creation", "internal/utils.py write_file")],
  [("files", "contents at storage locations", "filesystem"), ("storage_partitions", "partitions known per storage", "backends/memory.py")], ["Graph.build", "Graph.read"])
p("C05", "Snapshots stay bound to the data they were built with",
  "Once a snapshot has been built, reading a produced artifact through it, or through a tag that names it, keeps returning the data of that build regardless of later raw changes, later builds, failed builds or version changes, while reading through the live graph follows the current raw data. Building an existing snapshot again never changes what it returns.",
  ["histories"],
  "all interleavings of raw writes, snapshots, builds, tagging, failed builds and reads in the model",
  "tests never go back to an older snapshot after the raw data moved on",
  ["graphs/__init__.py", "backends/memory.py", "backends/__init__.py", "executors/__init__.py"],
  [("snapshot partition links", "backends/memory.py"), ("input fingerprint in storage location", "storage/__init__.py")],
  [("snapshot_partitions", "partitions linked to a snapshot", "backends/memory.py")], ["GraphSnapshot.read", "GraphSnapshot.from_tag"])
p("C06", "Snapshot ids identify graph structure plus raw contents",
  "Two snapshots have the same id exactly when the graphs agree in name, path tags, artifact keys and definitions, producers and versions, and all raw partitions agree in location and content; any out-of-band change, addition or removal of a raw partition changes the id, and reverting it restores the id. The id does not depend on the backend, on definition order, on earlier builds, or on the process computing it, and taking a snapshot while a raw artifact has no data is refused.",
  ["inputs", "histories", "configurations"],
  "all pairs of graph variants and raw contents in the model, across histories and across processes with different hash seeds",
  "tests pin the formula for one graph; they do not compare ids across variants, histories, shared storage or processes",
  ["graphs/__init__.py", "internal/models.py", "fingerprints/__init__.py"],
  [("snapshot id computation", "graphs/__init__.py GraphSnapshot.from_graph"), ("canonical serialization", "internal/models.py")], [], ["Graph.snapshot", "GraphSnapshot.id"])
p("C07", "Reads return exactly the asked-for data or say that there is none",
  "Reading a raw artifact without a snapshot returns its current stored data; reading through a snapshot returns exactly the partitions belonging to that snapshot and artifact, each once, and never partitions of another artifact, graph, snapshot or input combination. A read with nothing to return raises a missing-data error, exactly one of annotation or view must be given, an annotation that does not fit the artifact is refused, and several partitions can only be read into a partitioned collection.",
  ["histories", "inputs", "configurations"],
  "all read requests at every state of the model's histories, for raw/produced, partitioned/unpartitioned artifacts",
  "tests read a few artifacts right after one build",
  ["graphs/__init__.py", "io/__init__.py", "backends/memory.py", "views/__init__.py"],
  [("partition selection", "graphs/__init__.py Graph.read"), ("no-data and multi-partition guards", "io/__init__.py read")], [], ["Graph.read", "GraphSnapshot.read", "io.read"])
p("C08", "Any acyclic graph builds in dependency order and routes every output",
  "For every acyclic graph, however artifacts are shared, nested, fanned out, assigned under several keys or left unassigned, every producer reachable by an assigned artifact runs only after all producers of its inputs, and each assigned artifact receives the output of the position it was assigned from. Dependencies, producers and producer outputs reported by the graph match its definition.",
  ["programs"],
  "all graphs up to the model's size over single/multi-input and single/multi-output producers, including partial and repeated output assignment",
  "tests use two or three fixed graph shapes and always assign every output exactly once",
  ["graphs/__init__.py", "executors/local.py", "executors/__init__.py", "producers/__init__.py"],
  [("dependency map and topological order", "graphs/__init__.py dependencies, executors/local.py"), ("output routing", "executors/__init__.py build_producer_partition")], [], ["Graph.build", "Graph.dependencies", "Graph.producer_outputs"])
p("C09", "Tags name exactly one snapshot per graph name until moved on purpose",
  "A tag read for a graph name returns the snapshot most recently tagged with it for that name; tags of different graph names never interfere, an unknown tag is an error, and tagging over an existing tag is refused and changes nothing unless overwriting is requested.",
  ["histories"],
  "all sequences of tag, overwrite and lookup over several graph names, tags, snapshots and connections",
  "one test tags one snapshot twice",
  ["backends/memory.py", "backends/__init__.py", "graphs/__init__.py"],
  [("tag table", "backends/memory.py write_snapshot_tag/read_snapshot_tag")], [("snapshot_tags", "tag -> snapshot per graph name", "backends/memory.py")], ["GraphSnapshot.tag", "GraphSnapshot.from_tag"])
p("C10", "The metadata backend returns what was recorded, kept apart by key",
  "Graphs, snapshots, artifact partitions and snapshot partitions read from a backend are exactly those recorded before under the same name, fingerprint, storage, snapshot and key, with repeated recording idempotent and partition lookups by input fingerprint returning exactly the matching partitions. Every connection to, and copy of, one backend sees the same records while separate backends share nothing, and a storage not seen before is filled from what already exists there.",
  ["histories"],
  "all sequences of backend writes and reads in the model over several graphs, snapshots, artifacts, connections, copies and backends",
  "tests write and read each table once",
  ["backends/memory.py", "backends/__init__.py", "internal/utils.py"],
  [("container tables", "backends/memory.py"), ("composite write", "backends/__init__.py")], [("container", "all backend tables", "backends/memory.py")], ["Backend.connect", "BackendConnection.read_*"])
p("C11", "A graph can be used only once defined, and defined by one scope at a time",
  "Per thread at most one graph is being defined: opening a second one is refused and leaves the first unaffected, while other threads are independent, and leaving the definition scope, normally or by an error, always releases it. Operations that need a finished graph (build, snapshot, read, write, dependency queries) are refused until the definition is closed and changes are refused after, and a graph that is reopened and extended, copied by pickling, or inspected early behaves afterwards like a graph freshly defined with the same content.",
  ["schedules", "histories"],
  "all interleavings of open, assign, inspect, fail, close, reopen, pickle and use over several graphs and threads in the model",
  "tests open a graph once on one thread; reopening, pickling and threads are not exercised",
  ["graphs/__init__.py", "__init__.py", "internal/mappings.py"],
  [("thread-local context", "__init__.py _Context"), ("status toggling", "graphs/__init__.py __enter__/__exit__/_toggle"), ("sealed guard", "graphs/__init__.py requires_sealed")], [("status", "open/closed per graph", "graphs/__init__.py"), ("context.graph", "graph being defined on this thread", "__init__.py")], ["Graph.__enter__", "Graph.build"])
p("C12", "The artifact namespace is a write-once tree that freezes with its graph",
  "The artifact tree behaves as a write-once map from dotted paths to artifacts: a path assigned by item, attribute, dotted key or nested mapping is retrievable by all of them and enumerated once with its full path, assigning a path again is refused, and merging a mapping keeps everything already set. Values that are not artifacts are converted or refused, names starting with an underscore are refused, membership tests never change the tree, and while frozen every assignment at any depth is refused and missing paths raise instead of appearing.",
  ["histories"],
  "all sequences of assignments, lookups, membership tests, freeze/unfreeze over bounded dotted paths",
  "tests walk a few fixed scripts",
  ["internal/mappings.py", "graphs/__init__.py"],
  [("TypedBox", "internal/mappings.py"), ("shared status", "internal/mappings.py BoxStatus")], [("_data", "tree contents", "internal/mappings.py"), ("_status", "open or closed, shared by all levels", "internal/mappings.py")], ["TypedBox mapping and attribute API", "Graph.artifacts"])
p("C13", "Storage templates resolve exactly and keep distinct data apart",
  "Assigning an artifact to a graph replaces each template placeholder by exactly the graph name, path tags, artifact names, extension and partition components it stands for, drops empty placeholders with their separator, leaves unknown ones untouched, and yields the same result whichever order the information arrives in. With default templates, two different artifacts, partitions, input fingerprints, graph names or path tags never share a location, produced artifacts without an input fingerprint placeholder are refused, and raw artifacts never keep one.",
  ["inputs", "configurations"],
  "all combinations of placeholders, tags, names, partition kinds and formats in the model's template grammar",
  "tests resolve a few fixed templates",
  ["storage/__init__.py", "storage/_internal.py", "storage/local.py", "storage/literal.py", "storage/google/cloud/storage.py", "graphs/__init__.py"],
  [("template resolution", "storage/__init__.py resolve/_visit_*"), ("input fingerprint requirement", "graphs/__init__.py ArtifactBox")], [], ["Artifact.storage after assignment", "Storage.generate_partition"])
p("C14", "Discovering partitions inverts writing them",
  "For every partitioning scheme and path template, the partitions discovered in storage are exactly those written there: each with the key, input fingerprint and location it was written with, none missing, none duplicated, none invented from unrelated, nested or similarly named files. When input fingerprints are asked for, exactly the partitions with the matching fingerprint are returned, and hard-coded template parts match only themselves. A foreign file that fits the template but stands for no partition may be reported as an error, but never as a partition.",
  ["inputs", "histories", "configurations"],
  "all sets of written partitions, foreign files, and queries over bounded key values for every partition field type, component and template shape in the model",
  "tests discover a couple of date partitions with one template",
  ["storage/_internal.py", "storage/local.py", "storage/google/cloud/storage.py", "partitions/__init__.py", "storage/__init__.py"],
  [("wildcard and parse", "storage/_internal.py"), ("field components", "partitions/__init__.py")], [("files", "files present", "filesystem or bucket")], ["Storage.discover_partitions", "Storage.generate_partition"])
p("C15", "Models are immutable values with stable identity",
  "Any two model instances are equal, hash alike and have the same fingerprint when they are of the same class with the same field values, regardless of construction order, copying, pickling, or process; changing any identity-relevant field, or the class, changes equality and fingerprint, while fields declared irrelevant change only equality. Instances refuse mutation, unknown fields, wrongly typed and unhashable values, abstract classes refuse instantiation, and copying with valid changes to fields gives an instance indistinguishable from one constructed with those values.",
  ["inputs", "histories"],
  "all pairs of instances over bounded field values for the built-in model kinds and synthetic hierarchies, with copy, pickle and cross-process variants",
  "tests compare a few instances; stale identity after copies and process dependence are not covered",
  ["internal/models.py", "fingerprints/__init__.py", "types/__init__.py", "artifacts/__init__.py"],
  [("canonical serialization and fingerprint", "internal/models.py"), ("frozen strict config", "internal/models.py")], [("fingerprint cache", "cached fingerprint of an instance", "internal/models.py")], ["Model.fingerprint", "==", "hash", "model_copy", "pickle"])
p("C16", "Fingerprints and sized integers obey their 64-bit algebra",
  "Combining fingerprints is associative, commutative, self-inverse and has the identity fingerprint as neutral element, and a fingerprint of a string depends only on its characters. Signed and unsigned 64-bit integers convert into each other by two's complement without loss, every addition, subtraction, multiplication, floor division, remainder, negation, shift, bit operation and rounding equals the exact integer result and keeps its type, and any result outside the range is an error rather than a wrap-around.",
  ["inputs"],
  "all operand pairs from a boundary-dense set of 64-bit values, exhaustively at reduced widths in the model",
  "tests use a few operand values",
  ["fingerprints/__init__.py", "internal/utils.py"],
  [("XOR combine", "fingerprints/__init__.py"), ("range checks and conversion", "internal/utils.py int64/uint64")], [], ["Fingerprint", "int64", "uint64"])
p("C17", "Ill-formed producer definitions are refused when defined, well-formed accepted",
  "Defining a producer succeeds exactly when its inputs are required artifact fields, build and map are class- or static methods whose parameters are declared inputs with usable, default-free, compatible hints, every input is used, the build result declares outputs that share one partitioning scheme (with a mapping when partitioned), and the output validator accepts those outputs. Otherwise the definition raises an error naming the problem, and nothing is deferred to build time; the decorator form accepts the same definitions as the class form.",
  ["programs"],
  "all producer definitions over the model's feature grammar (field kinds, method kinds, parameter kinds, hints, outputs, partitioning, validators), in class and decorator form",
  "tests list about twenty hand-written bad definitions",
  ["producers/__init__.py", "internal/type_hints.py", "views/__init__.py"],
  [("class definition validation", "producers/__init__.py _validate_*")], [], ["Producer subclassing", "@producer"])
p("C18", "Producers only accept compatible artifacts and mark outputs with their origin",
  "Instantiating a producer or assigning its outputs succeeds exactly when each artifact is of the declared artifact class, has the declared type, and can be read or written in its format and storage through the declared view, and the number of outputs matches; an artifact already produced by someone is refused as an output. Returned outputs equal the given artifacts except for recording the producer and their position, the given artifacts are unchanged, and omitted outputs get the declared class and type.",
  ["inputs", "configurations"],
  "all combinations of artifact classes, types, formats, storages, output counts and prior origins in the model",
  "tests try a few mismatches",
  ["producers/__init__.py", "views/__init__.py", "artifacts/__init__.py"],
  [("instance validation", "producers/__init__.py _validate_instance_artifact_args"), ("out", "producers/__init__.py out"), ("compatibility", "views/__init__.py check_artifact_compatibility")], [], ["Producer()", "Producer.out"])
p("C19", "Python type hints map to types and back without losing meaning",
  "Every supported Python hint, at any nesting, including optional, literal, tuple, typed-dict and pydantic model hints, maps to the type of matching kind, nullability, field names and order, and mapping that type back yields a hint denoting the same values (containers come back as list, set and dict, sized types as the Python class that holds them); unsupported hints and ambiguous unions are errors, never approximations.",
  ["inputs"],
  "all hints of bounded depth over the model's grammar",
  "tests convert a list of shallow hints",
  ["types/python.py", "types/pydantic.py", "types/__init__.py", "internal/type_hints.py"],
  [("type adapters", "types/python.py, types/pydantic.py"), ("dispatch", "types/__init__.py TypeSystem")], [], ["python_type_system", "pydantic_type_system"])
p("C20", "Arrow types and schemas convert faithfully in both directions",
  "Every supported artigraph type, at any nesting, maps to the corresponding Arrow type (with widths, precisions, units, time zones, field nullability, names and order preserved) and mapping back yields the original up to what Arrow does not hold (struct names, descriptions, nullability of list and map elements); unsupported types in either direction are errors.",
  ["inputs"],
  "all types of bounded depth over the model's grammar, in both directions",
  "tests convert a list of shallow types",
  ["types/pyarrow.py", "types/__init__.py"],
  [("type adapters", "types/pyarrow.py")], [], ["pyarrow_type_system"])
p("C21", "BigQuery schemas convert faithfully, including partitioning and clustering",
  "Every supported artigraph type maps to the corresponding BigQuery field or table schema with mode (required, nullable, repeated), nesting, field names, descriptions, partitioning and clustering preserved, and mapping back yields the original up to what BigQuery does not hold (integer and float widths, time precision, partition fields beyond the first, which become cluster fields); unsupported types, nesting and partitioning are errors.",
  ["inputs"],
  "all types of bounded depth over the model's grammar, in both directions",
  "tests convert a few fixed tables",
  ["types/bigquery.py", "types/__init__.py"],
  [("type adapters", "types/bigquery.py")], [], ["bigquery_type_system"])
p("C22", "NumPy and pandas types convert faithfully in both directions",
  "Every supported scalar or column type maps to the corresponding NumPy dtype and back without changing kind or width, data frames and series map to collections and lists of their column types with names and order preserved, object columns by all of their values, and anything without a faithful counterpart is an error. NumPy and pandas hold no nullability, lengths or descriptions.",
  ["inputs"],
  "all dtypes and bounded frames over the model's grammar, in both directions",
  "tests convert each dtype once in isolation",
  ["types/numpy.py", "types/pandas.py", "types/__init__.py"],
  [("type adapters", "types/numpy.py, types/pandas.py")], [], ["numpy_type_system", "pandas_type_system"])
p("C23", "Registries and dispatch pick the most specific, highest-priority match",
  "For any set of registered type adapters, in any registration order, conversion uses the highest-priority adapter that matches, falling back to the extended systems in order and raising when none matches; registering a duplicate key or priority is an error that leaves the registry unchanged, and a higher priority replaces a lower one. Function dispatch picks the implementation most specific for the argument types in any registration order, and refuses annotated implementations whose signature or types do not fit.",
  ["configurations", "histories"],
  "all registration sequences and lookups over small class hierarchies, priorities and extension orders in the model",
  "tests register two or three adapters in one order",
  ["types/__init__.py", "internal/dispatch.py", "internal/utils.py", "views/__init__.py", "partitions/__init__.py"],
  [("register", "internal/utils.py"), ("TypeSystem dispatch", "types/__init__.py"), ("multipledispatch", "internal/dispatch.py")], [("registry", "key -> implementation", "internal/utils.py")], ["TypeSystem.to_artigraph/to_system", "register", "multipledispatch"])
p("C24", "Views pair hints, types, formats and storages only when they fit",
  "Resolving a view from a type hint selects the view registered for that Python type unless one is named explicitly, takes its type from the explicit type, the artifact class, or the hint in that order, and is refused when these contradict each other or the view cannot represent the type. A view accepts an artifact exactly when class and type match and a reader or writer exists for its format and storage in the requested mode.",
  ["inputs", "configurations"],
  "all combinations of hints, explicit views, types, artifact classes, formats, storages and modes in the model",
  "tests cover a few combinations",
  ["views/__init__.py", "views/python.py", "io/__init__.py", "internal/type_hints.py"],
  [("get_class_for/from_annotation", "views/__init__.py"), ("reader and writer lookup", "io/__init__.py")], [], ["View.from_annotation", "View.check_*"])
p("C25", "Literal values are written once and live with the backend",
  "A literal artifact returns exactly the value it was given or the value written for that snapshot and input combination, each location is independent, and a literal with a preset value can neither be overwritten nor be used as a producer's output. Literal storage that was never given a value reads as missing data, and partitioned literals exist only for produced artifacts.",
  ["histories", "inputs"],
  "all sequences of definition, write, build and read over literal raw, produced and partitioned artifacts in the model",
  "tests write one literal once",
  ["storage/literal.py", "io/json_stringliteral_python.py", "backends/memory.py", "graphs/__init__.py"],
  [("literal discovery", "storage/literal.py"), ("write-once", "io/json_stringliteral_python.py")], [("value", "stored string", "storage/literal.py")], ["Graph.read", "Graph.write", "Graph.build"])
p("C26", "Frozen mappings are immutable values with dictionary semantics",
  "A frozen mapping behaves like the dictionary it was created from for lookup, length, membership, iteration order and equality, is hashable with equal mappings hashing alike, refuses unhashable values and any mutation, and is unaffected by later changes to its source. Merging with another mapping on either side follows dictionary merge (the right operand wins), returns a new frozen mapping of the same kind and changes neither operand.",
  ["inputs", "histories"],
  "all sequences of constructions, merges, lookups and attempted mutations over small key and value sets",
  "tests merge one pair in one direction",
  ["internal/mappings.py"],
  [("frozendict", "internal/mappings.py")], [("_data", "contents", "internal/mappings.py")], ["frozendict"])
p("C27", "Composite types and structural metadata are validated and derived correctly",
  "Constructing a collection is refused when partition or cluster fields do not exist or overlap, an enumeration when it is empty or holds items that do not fit its type, and a partition key field when its components or its type are missing, its components unknown, or its type already has one; refusals register nothing. Derived metadata (partitioned or not, partition fields and key types in declared order, cluster fields, friendly names) is determined by the definition alone.",
  ["inputs"],
  "all small collections, enumerations, structs and partition field definitions in the model",
  "tests check a few constructions",
  ["types/__init__.py", "partitions/__init__.py"],
  [("validators", "types/__init__.py"), ("PartitionField", "partitions/__init__.py")], [], ["Type constructors", "PartitionKey.types_from"])
p("C28", "Artifacts are built, cast and defaulted predictably",
  "Casting a value to an artifact returns an artifact unchanged, a single-output producer's output, and for plain values JSON can hold a literal artifact whose inferred type fits the value and which reads back equal (tuples as lists), and is an error for multi-output producers and values without a single type. Class-level annotations and statistics appear exactly once ahead of the given ones, formats must support the type, and storage templates reflect the artifact's type and format.",
  ["inputs", "programs"],
  "all nested plain values of bounded size, class default and argument combinations, and producers in the model",
  "tests cast a few values and never combine class defaults with omitted arguments",
  ["artifacts/__init__.py", "internal/type_hints.py", "storage/__init__.py"],
  [("cast", "artifacts/__init__.py"), ("class default merging", "artifacts/__init__.py"), ("get_annotation_from_value", "internal/type_hints.py")], [], ["Artifact.cast", "Artifact()", "Graph.artifacts assignment"])
p("C29", "Subtype checks on type hints agree with the sets of values they denote",
  "The subtype test used for all compatibility decisions is reflexive and transitive on supported hints and holds only when every value of the first hint is a value of the second, for classes, optionals, unions, tuples, containers, literals, annotated hints and type variables; it never raises on supported hints. Helpers that detect or strip optional and annotated wrappers agree with that meaning.",
  ["inputs"],
  "all pairs and triples of hints of bounded depth over the model's grammar",
  "tests list a few dozen pairs",
  ["internal/type_hints.py"],
  [("lenient_issubclass", "internal/type_hints.py")], [], ["lenient_issubclass", "is_optional_hint", "is_union_hint", "discard_Annotated"])
p("C30", "Written data reads back equal in every format and storage",
  "For every combination of format and storage that can be written and read, data written to an artifact or partition reads back equal, each partition is stored separately and independently, rewriting replaces exactly that partition, and the recorded content fingerprint depends only on the stored bytes, so equal content gives equal fingerprints and different content different ones. A failed write leaves what was stored before intact.",
  ["inputs", "histories", "fault_sequences"],
  "all sequences of partition writes, rewrites, failing writes and reads over formats, storages and value shapes in the model",
  "tests write one value per format and storage",
  ["io/json_localfile_python.py", "io/pickle_localfile_python.py", "io/json_gcsfile_python.py", "io/pickle_gcsfile_python.py", "io/json_stringliteral_python.py", "storage/local.py", "storage/google/cloud/storage.py", "storage/literal.py", "internal/utils.py"],
  [("readers and writers", "io/*.py"), ("content fingerprints", "storage/*.py")], [("files", "bytes per location", "filesystem or bucket")], ["io.read", "io.write", "Graph.read", "Graph.write"])
p("C31", "Overlapping builds are as good as builds one after the other",
  "When several builds over the same storage overlap in any way, through one metadata backend or through several, started from the same or from different states, and builders are lost at any point, every build that is not lost succeeds and its snapshot reads as if every producer had been evaluated from scratch on the raw data it was built from. A build that is still running, or was lost, exposes only right values, everything a build finished before another one started is reused by it, and later builds are correct in turn. Raw data named by a running build is assumed to stay as it is meanwhile.",
  ["schedules", "crash_points", "histories"],
  "every interleaving of two (sampled: three) builds at the granularity of producer calls, file operations and backend calls, every point of loss, over the graphs in the model, with shared and separate backends, changed versions and added partitions",
  "the tests never run two builds at a time, and a race shows only in particular interleavings",
  ["executors/__init__.py", "executors/local.py", "graphs/__init__.py", "backends/memory.py", "backends/__init__.py", "internal/utils.py", "io/json_localfile_python.py", "io/pickle_localfile_python.py", "storage/local.py"],
  [("outputs named by what they were computed from", "storage/__init__.py resolve templates with the input fingerprint"), ("a partition is recorded only once stored as a whole", "executors/__init__.py build_producer_partition"), ("atomic file creation", "internal/utils.py write_file"), ("links only of the partitions a build computed", "executors/__init__.py discover_producer_partitions")],
  [("files", "contents at storage locations", "filesystem"), ("storage_partitions", "partitions known per storage", "backends/memory.py"), ("snapshot_partitions", "partitions linked to a snapshot", "backends/memory.py")],
  ["Graph.build", "GraphSnapshot.build", "GraphSnapshot.read"])
out = pathlib.Path(__file__).parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
