"""Writes /verif/properties.jsonl (kept in a script so that the wording is edited in one place)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

G = "flatdata-generator/flatdata/generator/"
PY = "flatdata-py/flatdata/lib/"
RS = "flatdata-rs/lib/src/"
CPP = "flatdata-cpp/"

p("C01", "Python bit-field access is exact at every offset, width and sign",
  "For every buffer, bit offset, width from 1 to 64 and signedness, reading a field in Python yields exactly the little-endian two's-complement integer stored in those bits, whatever the surrounding bits are. Writing a representable value into a field makes it read back as that value and leaves every bit outside the field unchanged, also when the buffer already holds data.",
  ["inputs"], "all (buffer contents, bit offset, width 1..64, signedness, representable value) tuples",
  "test_data_access samples a fixed set of byte patterns; the value x offset x width x background product is out of reach of examples.",
  [PY+"data_access.py"], [("read_value / write_value", PY+"data_access.py")],
  ["read_value/write_value results and buffer bytes"])

p("C02", "Python archives round-trip with the documented byte layout",
  "For every accepted schema and every valid data assignment, the files written by the Python archive builder are byte for byte the documented layout: 8-byte little-endian payload size, bit-packed payload, 8 zero bytes, a schema file beside each resource, and an offset index for each multivector. Opening them with the Python archive of the same schema gives back exactly the assigned data for every vector, multivector, instance and raw data resource.",
  ["programs", "inputs"], "all schemas the generator accepts x all data representable in them",
  "The existing tests use a handful of fixed schemas with one data set each; neither odd widths and enum/sign mixes nor empty and ragged collections are covered.",
  [PY+"archive_builder.py", PY+"archive.py", PY+"resources.py", PY+"resource_storage.py", G+"templates/py/python.jinja2"],
  [("ArchiveBuilder.set", PY+"archive_builder.py"), ("Archive._open_resource", PY+"archive.py"), ("Vector/Multivector/Instance/RawData", PY+"resources.py"), ("python generator", G+"generators/python.py")],
  ["files on disk", "values read through the archive object"])

p("C03", "C++ field readers and writers are bit-exact and isolated",
  "For every field type, bit offset and width, a value written through a C++ mutable struct reads back unchanged (modulo the field width, sign-extended for signed types and enumerations over signed types wider than one bit), and is stored as the little-endian bit range [offset, offset+width). Writing one field never changes any bit of another field.",
  ["inputs"], "all (type, offset, width, value, prior buffer contents) tuples, including enumerations",
  "WriterReaderTest writes into zeroed memory with one field at a time; neighbouring fields, dirty buffers and signed enumerations are not combined.",
  [CPP+"include/flatdata/internal/Reader.h", CPP+"include/flatdata/internal/Writer.h", CPP+"include/flatdata/internal/BitHelpers.h"],
  [("Reader", CPP+"include/flatdata/internal/Reader.h"), ("Writer", CPP+"include/flatdata/internal/Writer.h"), ("bit helpers", CPP+"include/flatdata/internal/BitHelpers.h")],
  ["struct field values, raw bytes"])

p("C04", "C++ and Python archives of one schema are interchangeable",
  "For every accepted schema and data assignment, an archive written by the generated C++ builder opens in the generated Python archive with identical data, and the other way round. Both writers produce byte-identical data and schema files for every resource.",
  ["programs", "inputs"], "all accepted schemas x all data representable in them, both directions",
  "The only cross-language evidence in the tree is a set of fixed backward-compatibility archives; there is no test that generates a new schema and moves data between the languages.",
  [G+"templates/cpp/archive.jinja2", G+"templates/cpp/structure.jinja2", G+"templates/py/python.jinja2", CPP+"include/flatdata/ResourceStorage.h", PY+"archive_builder.py"],
  [("cpp generator", G+"generators/cpp.py"), ("python generator", G+"generators/python.py"), ("ResourceStorage write/read", CPP+"include/flatdata/ResourceStorage.h")],
  ["archive directories, values dumped by each reader"])

p("C05", "Generated Rust code reads and writes the same archives",
  "For every accepted schema and data assignment, the generated Rust archive opens an archive laid out as documented and reports exactly its data, from files, memory or a tar, and the Rust builder writes byte-identical files. Setting a field never changes another one. Missing, schema-mismatching or truncated mandatory resources make opening fail with an error; no structural fault makes opening panic or yield wrong data.",
  ["programs", "inputs", "fault_sequences"], "all accepted schemas x data, and single faults on each resource file",
  "No Rust test runs in the baseline at all; the generator tests only compare text fragments for fixed schemas.",
  ["flatdata-rs/lib/src/storage.rs", "flatdata-rs/lib/src/bytereader.rs", "flatdata-rs/lib/src/bytewriter.rs", "flatdata-rs/lib/src/multivector.rs", G+"templates/rust/structure.jinja2", G+"templates/rust/archive.jinja2"],
  [("rust generator", G+"generators/rust.py"), ("flatdata_read_bytes/flatdata_write_bytes", "flatdata-rs/lib/src/bytereader.rs"), ("ResourceStorage", "flatdata-rs/lib/src/storage.rs")],
  ["values dumped by a generated Rust program, files it wrote"])

p("C06", "Generated Go code reads the same archives",
  "For every accepted schema within the Go backend's feature set (one namespace) and every data assignment, the generated Go code compiles and reads exactly the data stored in a documented-layout archive: every field of every element, item, instance and raw data, with enumerations as their base type. A resource whose file is missing is marked not open. Opening reports an error when the schema of a resource is missing, empty or differs, or its file is too short to be a resource.",
  ["programs", "inputs", "fault_sequences"], "accepted schemas with structures, enumerations, vectors, multivectors, raw data, instances and sub-archives x data x faults on the files",
  "No Go test runs in the baseline; generator tests compare text fragments for fixed schemas.",
  ["flatdata-go/flatdata/reader.go", "flatdata-go/flatdata/resource.go", G+"templates/go/archive.jinja2", G+"templates/go/multivector.jinja2", G+"templates/go/structure.jinja2"],
  [("go generator", G+"generators/go.py"), ("Read", "flatdata-go/flatdata/reader.go"), ("OpenResourceStorage", "flatdata-go/flatdata/resource.go")],
  ["values dumped by a generated Go program"])

p("C07", "C++ open validates every resource and never exposes a broken archive",
  "Opening an archive in C++ succeeds exactly when the archive signature and every mandatory resource are present with matching schema and consistent size; an optional resource failing that check is reported absent without failing the archive. No missing, truncated or extended file, altered schema or altered size header makes opening crash, read out of bounds, or succeed with other data than the remaining files hold.",
  ["fault_sequences", "programs"], "all accepted schemas x sets of faults (delete, truncate, extend, corrupt size header, alter or swap schema) on their files",
  "GeneratedArchiveTest removes a few named resources of one schema; combinations of faults, sub-archives, index files and size headers are not explored.",
  [CPP+"include/flatdata/ResourceStorage.h", CPP+"include/flatdata/Archive.h", CPP+"src/Archive.cpp", G+"templates/cpp/archive.jinja2"],
  [("ResourceStorage::read_resource size and schema check", CPP+"include/flatdata/ResourceStorage.h"), ("Archive::initialize/read_resource/load_archive", CPP+"include/flatdata/Archive.h")],
  ["is_open(), per-resource state, dumped values, sanitizer reports"])

p("C08", "Python open reports missing, mismatching and corrupt resources",
  "Opening an archive in Python succeeds exactly when the signature and every mandatory resource have intact data and matching schema and every optional resource is either absent or intact and matching; otherwise it raises the documented missing-resource, schema-mismatch or corrupt-archive error. An absent optional resource or sub-archive reads as None, while a present one, even when empty, is returned as a resource.",
  ["fault_sequences", "programs"], "all accepted schemas x sets of faults on their files (delete data or schema, alter schema, shorten data)",
  "test_backward_compatibility and friends check a few faults on one schema; optional resources, empty files and sub-archives under faults are unexplored.",
  [PY+"archive.py", PY+"resources.py", PY+"file_resource_storage.py", PY+"errors.py"],
  [("Archive._schema_validated_resource_signature", PY+"archive.py"), ("ResourceBase.__init__", PY+"resources.py")],
  ["exception type or opened archive contents"])

p("C09", "Tar archives read the same as directories, in C++ and Python",
  "For every archive directory tree packed as an uncompressed tar (any member order, with or without './' prefixes and directory entries, long names in the GNU format), opening it from the tar yields exactly the archive that opening the directory yields, including failures and nested sub-archives. Member contents are exposed at exactly the bytes stored, whatever other members precede them.",
  ["inputs", "configurations"], "all archive trees x tar packings (format, order, prefixes, name lengths, extra members)",
  "The tests open a few pre-made tar files; member order, long names and mixtures of entry kinds are fixed there.",
  [CPP+"src/TarReader.cpp", CPP+"include/flatdata/TarArchiveResourceStorage.h", CPP+"include/flatdata/MemoryMappedTarFileStorage.h", PY+"tar_archive_resource_storage.py"],
  [("TarReader", CPP+"src/TarReader.cpp"), ("TarArchiveResourceStorage", CPP+"include/flatdata/TarArchiveResourceStorage.h"), ("TarArchiveResourceStorage (Python)", PY+"tar_archive_resource_storage.py")],
  ["values read through tar storage vs. directory storage"])

p("C10", "Malformed tar input is rejected without memory errors or hangs",
  "For every byte string given as a tar file, the C++ tar reader terminates and either reports failure or lists entries each of which is backed by a valid header of a regular member; the data exposed for a member lies inside the file. It never reads out of bounds or loops forever. The Python tar storage likewise either opens or raises an exception and never returns data beyond the file.",
  ["inputs"], "all byte strings, in particular mutated and truncated tar headers",
  "TarReaderTest uses a few hand-made invalid files; header fields are attacker-controlled numbers whose extremes are not sampled.",
  [CPP+"src/TarReader.cpp", PY+"tar_archive_resource_storage.py"],
  [("TarReader size and checksum checks", CPP+"src/TarReader.cpp")],
  ["process outcome under ASan/UBSan, entry table"])

p("C11", "Normalized schemas are canonical and self-contained",
  "For every accepted schema, the normalized flatdata text of the whole schema is itself accepted and describes the same archives, structures, constants and enumerations: it yields the same stored schemas. The schema stored for an archive is self-contained: it is accepted on its own and reproduces the same stored schemas for that archive and all its resources. All stored schemas are independent of comments, whitespace, literal spelling, declaration blocks and of whether references were spelled locally or fully qualified.",
  ["programs"], "all accepted schemas and all comment/whitespace/qualification variants of them",
  "Generator tests compare fixed expected texts for 25 schemas; a fixpoint or self-containedness law over all schemas is not a finite set of examples.",
  [G+"generators/flatdata.py", G+"templates/flatdata/flatdata.jinja2", G+"tree/syntax_tree.py", G+"tree/resolver.py"],
  [("SyntaxTree.schema / FlatdataGenerator", G+"generators/flatdata.py"), ("reference resolution", G+"tree/resolver.py")],
  ["rendered flatdata text, resource and archive schema strings in generated code"])

p("C12", "Resource schemas change with every relevant change and only then",
  "Changing anything a resource depends on - its kind, optionality, referenced structures, field order, names, types, widths, constant values, enumerators, decorations - changes the schema string stored for that resource and for its archive, so old data is never silently misread. Changing anything it does not depend on leaves its stored schema identical, so unrelated edits keep existing data readable; constants no structure refers to count as part of every archive, but of no resource.",
  ["programs"], "all accepted schemas x all single semantic edits",
  "Tests compare fixed schema strings and do not relate the schema of one version to that of an edited version.",
  [G+"generators/flatdata.py", G+"tree/syntax_tree.py", G+"tree/traversal.py"],
  [("dependency-closure extraction of schemas", G+"tree/syntax_tree.py")],
  ["resource and archive schema strings before and after the edit"])

p("C13", "The generator accepts exactly the valid schemas and rejects cleanly",
  "Every schema that follows the documented grammar and rules (unique names, resolvable references, widths within type, literals within type, non-sparse enumerations, valid range/optional/const/reference decorations) is accepted; every schema violating one of these rules is rejected with a flatdata syntax error. No input text makes the generator fail in any other way.",
  ["inputs", "programs"], "all texts; valid schemas, single-rule violations of them, and random mutations",
  "Parser and resolver tests enumerate a few dozen good and bad snippets, mostly with one rule in isolation.",
  [G+"grammar.py", G+"tree/builder.py", G+"tree/resolver.py", G+"tree/errors.py", G+"tree/nodes/trivial/enumeration.py", G+"tree/helpers/basictype.py"],
  [("grammar", G+"grammar.py"), ("build_ast checks", G+"tree/builder.py"), ("node checks", G+"tree/nodes")],
  ["exception class of Engine construction"])

p("C14", "Every backend accepts what the generator accepts, with one field layout",
  "For every accepted schema, each available generator renders without failing, and the offset, width, signedness and structure size it emits for every field equal the layout defined by the schema: consecutive bits in declaration order, size rounded up to whole bytes. Names, doc comments and optional features never make a backend emit code that its language cannot load (names that are reserved words of the target language or members of its library excepted).",
  ["programs"], "all accepted schemas (with comments, enumerations, nested namespaces, all decorations) x all backends",
  "Per-backend tests compare fixed text fragments for the same 25 schemas, each backend against its own expectation file.",
  [G+"engine.py", G+"tree/builder.py", G+"generators/python.py", G+"generators/cpp.py", G+"generators/rust.py", G+"generators/go.py", G+"templates/rust/structure.jinja2"],
  [("_compute_structure_sizes", G+"tree/builder.py"), ("per-language generators and templates", G+"generators")],
  ["rendered Python, C++, Rust and Go code"])

p("C15", "Constants and enumerations carry exactly the declared values",
  "For every accepted schema each constant and each enumerator has, in every backend that emits it, exactly the declared value: explicit decimal or hexadecimal literals, and for implicit enumerators the previous value plus one. Every value an enumeration's width can hold has exactly one named enumerator, declared or filled in, so any stored bit pattern (of more than one bit, if signed) maps to an enumerator.",
  ["programs"], "all constant types and literals, all enumerations over any base type, width and explicit/implicit value mix",
  "Enum tests list a few enumerations; sign, width, hex literals and gaps interact combinatorially.",
  [G+"tree/nodes/trivial/enumeration.py", G+"tree/nodes/trivial/constant.py", G+"tree/helpers/enumtype.py", G+"templates/cpp/enumeration.jinja2", G+"templates/rust/enumeration.jinja2"],
  [("Enumeration.create auto values and fill-in", G+"tree/nodes/trivial/enumeration.py"), ("BasicType.bits_required", G+"tree/helpers/basictype.py")],
  ["enumerator tables in rendered code", "values printed by compiled C++"])

p("C16", "Generation is deterministic",
  "Rendering one schema with one backend gives byte-identical output on every run, in every process, under every hash seed, and regardless of which other backends or schemas were rendered before. The command-line generator writes exactly that output, and on a rejected schema exits non-zero without producing an output file.",
  ["configurations", "histories"], "all accepted schemas x backends x hash seeds x render histories",
  "Tests run once under one hash seed and never compare two runs.",
  [G+"engine.py", G+"app.py", G+"tree/traversal.py", G+"tree/syntax_tree.py"],
  [("ordered traversals", G+"tree/traversal.py"), ("CLI", G+"app.py")],
  ["rendered bytes, exit status, output file"])

p("C17", "C++ containers behave like plain sequences under any operation history",
  "Under any sequence of grow, resize, reserve, assign, pop, clear, flush, slice and iterate operations, a C++ vector, external vector, multivector and their views hold exactly the elements a plain sequence model holds, with newly added elements zero-initialised. Closing writes exactly the model's contents, also when internal buffers were flushed many times on the way; growing or closing a container that has been closed fails without harm and changes nothing of what was written.",
  ["histories", "inputs"], "all operation sequences on vectors, external vectors, multivectors and their views",
  "VectorTest, ExternalVectorTest and MultiVectorTest run short fixed sequences.",
  [CPP+"include/flatdata/Vector.h", CPP+"include/flatdata/ExternalVector.h", CPP+"include/flatdata/MultiVector.h", CPP+"include/flatdata/ArrayView.h", CPP+"include/flatdata/MultiArrayView.h", CPP+"include/flatdata/internal/ArrayViewIterator.h"],
  [("Vector", CPP+"include/flatdata/Vector.h"), ("ExternalVector flush", CPP+"include/flatdata/ExternalVector.h"), ("MultiVector", CPP+"include/flatdata/MultiVector.h")],
  ["element values, sizes, bytes written"])

p("C18", "Ranges and optional fields keep their meaning in C++",
  "For every structure with a range field, element i of a vector exposes the range from its own to the next element's value, and the vector exposes one element fewer than stored because the last is the sentinel. A field declared optional with a constant reads as absent exactly when the stored value equals that constant, and writing absence stores the constant.",
  ["programs", "inputs"], "all structures with range/optional fields at any offset and width x all stored values",
  "Tests use two fixed structures with small values.",
  [G+"templates/cpp/structure.jinja2", CPP+"include/flatdata/internal/Reader.h", CPP+"include/flatdata/internal/Writer.h", CPP+"include/flatdata/ArrayView.h"],
  [("range reader", CPP+"include/flatdata/internal/Reader.h"), ("Tagged reader/writer", CPP+"include/flatdata/internal/functional/Tagged.h")],
  ["range pairs, optional values, vector sizes"])

p("C19", "Python resource views agree with the underlying sequence",
  "For every resource, indexing with any integer, slicing with any start, stop and step, iterating, and taking the length of a Python vector, multivector, instance or raw data view agrees with the same operation on a plain list of its elements, raising an index error exactly when the list would. Structure exports (attributes, dict, list, tuple, numpy, data frame) all report the fields in declaration order with the same values.",
  ["inputs", "histories"], "all stored sequences x all indices and slices x all export forms",
  "Tests index a few fixed positions of one archive.",
  [PY+"resources.py", PY+"structure.py", PY+"archive.py"],
  [("__getitem__/slices", PY+"resources.py"), ("as_* exports", PY+"structure.py")],
  ["values returned by the views"])

p("C20", "The Python archive builder accepts each resource once and checks its data",
  "Under any sequence of set calls, the builder rejects unknown resources, resources already set, and records with missing or unknown fields or unknown structure names, with its documented errors, and accepts everything else. The resulting directory contains exactly the files of the accepted calls with the accepted data.",
  ["histories", "fault_sequences"], "all call sequences mixing valid and invalid set calls",
  "Tests issue single invalid calls; sequences mixing failures, repeats and successes are not covered.",
  [PY+"archive_builder.py", PY+"resource_storage.py", PY+"file_resource_writer.py"],
  [("ArchiveBuilder.set", PY+"archive_builder.py")],
  ["exception types, files written"])

p("C21", "Inspector and writer tools handle every archive from its own schema",
  "For every archive on disk (directory or tar), the inspector opens it from the schema stored inside it alone and exposes exactly the same data as the archive generated from the original schema, also for optional, nested or empty resources. The JSON writer tool stores exactly the JSON data it is given, for any schema and resource.",
  ["programs", "inputs"], "all accepted schemas x data, opened via stored schema only",
  "Tests cover one schema with one archive at the root namespace.",
  [PY+"inspector.py", PY+"flatdata_writer.py", PY+"writer.py", G+"engine.py"],
  [("open_archive", PY+"inspector.py"), ("Writer", PY+"flatdata_writer.py"), ("render_python_module", G+"engine.py")],
  ["data read via inspector, files written by the tool"])

p("C22", "The C++ and Rust builder protocols protect existing archives and finish new ones",
  "A C++ or Rust archive builder opened on empty storage creates an archive that opens once all mandatory resources were set or finished, in any order, and not before. Opened on an existing archive the C++ builder refuses to change any resource that archive already owns, and opening it under a different schema fails, leaving the stored bytes untouched. A Rust builder, also one of a sub-archive, fails to open wherever that archive exists already, complete or not, and changes nothing stored there.",
  ["histories", "programs"], "all call orders and subsets of set/start/close/sub-archive calls, on fresh and existing storage",
  "GeneratedArchiveTest builds one archive in one order.",
  [CPP+"src/ArchiveBuilder.cpp", CPP+"include/flatdata/ArchiveBuilder.h", G+"templates/cpp/archive.jinja2", RS+"storage.rs", G+"templates/rust/archive.jinja2"],
  [("ArchiveBuilder::initialize/check_created", CPP+"src/ArchiveBuilder.cpp"), ("generated builder", G+"templates/cpp/archive.jinja2"), ("create_archive", RS+"storage.rs")],
  ["exceptions, is_open(), stored bytes"])

p("C23", "A reference's width bounds the resource it points into",
  "For every archive with explicit references, the C++ or Rust archive opens only if each referenced resource has no more elements than the narrowest reference into it can address, and reports the offending resource as too large otherwise (Rust with its size). Unreferenced resources and 64-bit references impose no limit.",
  ["programs", "inputs"], "all reference widths and combinations of references x destination sizes around the limit",
  "Tests contain one reference width and no destination around its limit.",
  [G+"tree/builder.py", G+"templates/cpp/archive.jinja2", G+"templates/rust/archive.jinja2", RS+"storage.rs"],
  [("_compute_max_resource_size", G+"tree/builder.py"), ("generated load_contents size check", G+"templates/cpp/archive.jinja2"), ("generated open and its size checks", G+"templates/rust/archive.jinja2")],
  ["is_open() and describe() of archives at, below and above the limit"])

p("C24", "Name resolution follows the documented scoping",
  "A name starting with a dot always refers to the entity with exactly that absolute path; any other name refers to the entity of that path inside the declaration's own archive or structure or, failing that, inside its own namespace, and to nothing else. This holds in every place where names occur (field types, decorations, resources, references, bound resources), whatever the order of declarations and however namespaces are split or nested. Missing names and names of the wrong kind of entity are rejected rather than bound to something else.",
  ["programs"], "all namespace trees with colliding short names x all reference spellings and positions",
  "Resolver tests have a few fixed trees without shadowing.",
  [G+"tree/resolver.py", G+"tree/nodes/node.py", G+"tree/builder.py"],
  [("resolve_references", G+"tree/resolver.py"), ("Node.find/find_relative", G+"tree/nodes/node.py")],
  ["normalized schema text, layout of the resolved structure"])

p("C25", "Interrupted C++ writes are detected on open",
  "If writing an archive in C++ stops at any point before the builder's calls complete, opening what was stored fails or reports the incomplete resource as absent; it never exposes partial data as a complete resource. Once a resource was closed its contents are complete whatever happens to later resources.",
  ["crash_points", "histories"], "all prefixes of the sequence of stream writes issued while building any archive",
  "No test interrupts a write.",
  [CPP+"include/flatdata/ResourceStorage.h", CPP+"include/flatdata/internal/ResourceHandle.h", CPP+"include/flatdata/ExternalVector.h", CPP+"include/flatdata/MultiVector.h"],
  [("size header written on close", CPP+"include/flatdata/internal/ResourceHandle.h"), ("size check on open", CPP+"include/flatdata/ResourceStorage.h")],
  ["is_open() and dumped values of the storage state at each prefix"])

p("C26", "Raw-data string helpers agree with plain byte-string splitting",
  "For every raw data payload, start index and separator, the Python helpers that extract one string, a list of strings or a fixed number of strings return exactly what splitting the payload's bytes at the separators gives - lists contain the terminated strings, a single string may end with the payload instead - and never include bytes outside the payload.",
  ["inputs"], "all payloads, start positions, separators (of any length) and counts",
  "Tests use one payload with single-byte separators.",
  [PY+"resources.py"], [("RawData.sub_str / sub_str_list / sub_str_array", PY+"resources.py")],
  ["returned strings"])

p("C27", "Diagrams show every entity and reference of the schema",
  "For every accepted schema the dot backend emits a graph that the dot language accepts. It shows every archive under its namespace, every resource of it exactly once with its kind and optionality (bound resources as their group), the structures a resource holds with all their fields, types and widths, and one edge for each explicit reference from its field to its destination. Doc comments and names never break the graph syntax.",
  ["programs"], "all accepted schemas",
  "Tests compare fixed fragments and never parse the emitted graph.",
  [G+"generators/dot.py", G+"templates/dot/render.jinja2", G+"templates/dot/references.jinja2"],
  [("dot generator", G+"generators/dot.py")],
  ["rendered graph parsed as dot"])

p("C28", "Rust containers and views behave like plain sequences under any history",
  "For every structure type and every history of operations, the Rust containers and views (Struct, Vector, ExternalVector, MultiVector, slices, MultiArrayView and its iterators, RawData) behave like plain sequences of the values stored: elements keep what was set last, new elements are all zero (including their hidden range sentinel), growing, clearing, reserving or moving a vector never changes other elements, iterating from both ends, slicing and cloning agree with indexing and announce their exact length, equality and Debug output reflect the stored field values, and what is written to an archive reads back as the same sequence whatever was flushed in between. Out-of-range accesses panic and never read other memory.",
  ["histories", "inputs"], "all histories of container, view and iterator operations over all structure types and sizes",
  "The Rust tests push a few elements of one or two types and read them once; no test mixes operations, iterates from both ends or crosses an internal buffer.",
  [RS+"vector.rs", RS+"multivector.rs", RS+"multiarrayview.rs", RS+"structs.rs", RS+"rawdata.rs", RS+"arrayview.rs"],
  [("Vector/ExternalVector", RS+"vector.rs"), ("MultiVector", RS+"multivector.rs"), ("MultiArrayView/Iter", RS+"multiarrayview.rs"), ("Struct", RS+"structs.rs"), ("RawData", RS+"rawdata.rs")],
  ["values, lengths, Debug text, stored bytes, panics"])

p("C29", "C++ structures compare, hash, copy and print by their stored values",
  "For every structure type, C++ accessors and mutators over equal field values compare equal and hash equal, over different values they do not; operator< is a strict total order on values (field by field in declaration order), so ordered and hashed containers of structures hold exactly the distinct values and sorting orders them. Copying a structure (copy operations on mutators, copy_struct, flatdata::Struct) transfers exactly its bytes and leaves neighbouring elements alone. to_string and describe report the declared names and the current value of every field, and name, schema and size are those declared.",
  ["programs", "inputs"], "all structure types x all arrays of values with repeated and nearly equal elements x histories of copies",
  "The tests compare and hash two fixed structures; no test orders structures, uses them in sets, or copies inside an array.",
  [G+"templates/cpp/structure.jinja2", CPP+"include/flatdata/Hash.h", CPP+"include/flatdata/Copy.h", CPP+"include/flatdata/Struct.h"],
  [("generated comparison, to_string, describe", G+"templates/cpp/structure.jinja2"), ("Hash", CPP+"include/flatdata/Hash.h"), ("copy_struct", CPP+"include/flatdata/Copy.h"), ("Struct", CPP+"include/flatdata/Struct.h")],
  ["comparison results, container contents, bytes, texts"])

p("C30", "Storages behave as maps from names to the content written last",
  "In C++ and Rust, for every history of operations a resource storage (file or memory, and its directories) is a map from paths to what was written last under that path: a resource that was never written does not exist, one that was written reads back with exactly the bytes and schema given last (however often it was written or read before, through whichever handle), writing one name changes no other, directories keep their names apart, and reading with another schema is refused. Dumps of a memory storage list exactly its contents. What was read from a memory storage stays valid when something is written afterwards.",
  ["histories"], "all histories of writes, rewrites, reads, queries and dumps over names, directories and storage handles",
  "The storage tests write a resource once and read it once.",
  [CPP+"include/flatdata/ResourceStorage.h", CPP+"include/flatdata/FileResourceStorage.h", CPP+"include/flatdata/MemoryResourceStorage.h", CPP+"include/flatdata/MemoryMappedFileStorage.h", CPP+"src/ResourceStorage.cpp", RS+"storage.rs", RS+"filestorage.rs", RS+"memstorage.rs"],
  [("ResourceStorage", CPP+"src/ResourceStorage.cpp"), ("FileResourceStorage", CPP+"include/flatdata/FileResourceStorage.h"), ("MemoryResourceStorage", CPP+"include/flatdata/MemoryResourceStorage.h"), ("MemoryResourceStorage (Rust)", RS+"memstorage.rs"), ("FileResourceStorage (Rust)", RS+"filestorage.rs")],
  ["bytes and schemas read, existence, dumps, errors"])

p("C31", "Archives describe themselves truthfully",
  "For every archive, whatever its state, the descriptions users debug with tell what is there. In C++ describe() lists every resource under its (possibly shortened) name with its optionality, whether it is too large, whether it is loaded and its size, nested archives included, says FATAL exactly if the archive is not open, and for a signature that does not match shows the differences between expected and stored schema completely and with the least number of changed lines. In Python the data frame and JSON descriptions of an archive, its resources and elements report names, kinds, optionality, sizes, layout and values as they are, and a schema mismatch names the resource and every differing line. In Rust the Debug output of an archive shows every resource with all its values.",
  ["programs", "inputs"], "all accepted schemas x data x states of the stored files x stored signatures",
  "Tests pin the description of one fixed archive and one schema difference.",
  [CPP+"src/Archive.cpp", CPP+"include/flatdata/Archive.h", PY+"archive.py", PY+"resources.py", PY+"structure.py", PY+"errors.py", G+"templates/rust/archive.jinja2"],
  [("describe / compute_diff / create_context", CPP+"src/Archive.cpp"), ("to_data_frame / __repr__", PY+"archive.py"), ("_repr_attributes", PY+"resources.py"), ("generated Debug", G+"templates/rust/archive.jinja2")],
  ["description texts"])

p("C32", "Storages and archives can be used by several threads at once",
  "In C++ and Rust one storage (of files or in memory), its directories and the archives in it may be shared by any number of threads that write different resources, read common ones, look them up, create directories, build archives and open them, at the same time: no step races with another, fails, blocks forever or sees anything but complete resources, and every thread and everyone afterwards sees exactly what it would have seen had the threads run one after another.",
  ["schedules", "histories"], "all histories of several threads on one storage whose writes do not touch what others use, and all schedules of them",
  "All tests use storages from one thread; the Rust storages are declared Send and Sync, and the C++ ones lock mutexes, but nothing runs two threads.",
  [CPP+"include/flatdata/MemoryResourceStorage.h", CPP+"include/flatdata/FileResourceStorage.h", CPP+"include/flatdata/MemoryMappedFileStorage.h", CPP+"include/flatdata/MemoryMappedTarFileStorage.h", RS+"memstorage.rs", RS+"filestorage.rs", RS+"tarstorage.rs"],
  [("create_output_stream / read_resource / directory", CPP+"include/flatdata/MemoryResourceStorage.h"), ("read_resource", CPP+"include/flatdata/FileResourceStorage.h"), ("MemoryResourceStorage::read_resource", RS+"memstorage.rs"), ("FileResourceStorage::read_resource", RS+"filestorage.rs")],
  ["threads", "locks"])

p("C33", "Interrupted and failing writes in Rust and Python are noticed",
  "If writing an archive with the Rust or Python builders stops at any point, if creating, writing or seeking in a file fails at any point (for good or for a while), or if the value given for a resource cannot be stored, no reader takes an incomplete resource for a complete one: whatever opening the archive exposes is the whole resource as it was handed over. Calls that cannot complete report an error, in Rust without panicking; the files of a call that reported success are complete, whatever failed before or after; writes that are merely interrupted or short are continued.",
  ["histories", "crash_points", "fault_sequences"], "all accepted schemas x data x builder histories x crash points and failing operations x refused values",
  "No test interrupts or fails a write in Rust or Python.",
  [RS+"storage.rs", RS+"vector.rs", RS+"multivector.rs", RS+"filestorage.rs", PY+"archive_builder.py", PY+"resource_storage.py", PY+"file_resource_writer.py"],
  [("ResourceHandle::try_new / finalize, ResourceStorage::write", RS+"storage.rs"), ("close", RS+"multivector.rs"), ("set / finish", PY+"archive_builder.py"), ("_Resource.close", PY+"resource_storage.py")],
  ["crash points", "write failures"])

p("C34", "The Rust build helper generates exactly one file per schema",
  "Given a folder (in any spelling, also a link) or a single file, flatdata::generate of the Rust crate calls the generator once for every file ending in .flatdata, at any depth and whatever it or its folders are called, and for nothing else, and the result lies under the output folder at the same relative place with the ending .rs and the content the generator gives; old results are replaced, and nothing else in either folder changes. It announces every schema to cargo. If the generator is missing, fails or is killed for a schema, the call fails and names a failing schema and its destination, without panicking; a missing input or python is reported as such. A given generator is used as it is, otherwise one is installed into the output folder, from the given sources if there are any.",
  ["inputs", "configurations", "fault_sequences"], "all trees of files and folders x spellings of paths x outputs x behaviours of generator, pip and python",
  "No test calls the helper.",
  [RS+"generator.rs"],
  [("generate", RS+"generator.rs")],
  ["output folder, calls of the generator, errors, announcements to cargo"])

p("C35", "The C++ data access statistics report what was read",
  "With data access statistics compiled in, programs still compile and read the same values, and for any history of opening archives in files, memory or tar files, reading fields from any number of threads, clearing the statistics and closing, the final report lists exactly the closed resources of which more than the size was read, most pages first, with numbers of bytes and pages, shares and totals that agree with the fields read since the last clearing; for resources of one structure it lists the bytes of the structure that most accessed elements did not use and no others. Reads outside of registered resources are counted, and resources left open are named.",
  ["histories", "schedules"], "all histories of opening, reading by threads, clearing and closing x structures x sizes",
  "No test compiles the statistics.",
  [CPP+"include/flatdata/DebugDataAccessStatistics.h", CPP+"include/flatdata/internal/Reader.h", CPP+"include/flatdata/MemoryMappedFileStorage.h", CPP+"include/flatdata/MemoryResourceStorage.h"],
  [("register_mapping / deregister_mapping / read / clear / report", CPP+"include/flatdata/DebugDataAccessStatistics.h"), ("operator T", CPP+"include/flatdata/internal/Reader.h")],
  ["report on the error output, values read"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
