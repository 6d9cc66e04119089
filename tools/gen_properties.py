#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop("D01", "Every identifier resolves to one well-defined UUID",
 "A UUID, alone or as the last part of a URI, resolves to itself in lower case; any other URI resolves to its version-5 (DNS) name hash; any other non-empty name resolves to the hash of that name in the default data namespace (or to the bare name's hash when the legacy behaviour is selected); the empty or missing identifier gives a fresh random version-4 UUID. "
 "An identifier made of characters that URIs allow and its normalised form resolve to the same UUID, normalising is idempotent, and the length-limited variants of these operations look at nothing past the given length. "
 "Joining a metadata namespace, version and name into a URI and splitting the URI again are inverse to each other.",
 ["inputs", "configurations"], "for all identifier strings of any length (names, URIs, UUIDs in either case, strings nearly of those forms) and both settings of the identifier-namespace behaviour",
 "The tests resolve a handful of fixed strings; the rule must hold for every string and length, including names longer than internal buffers.",
 ["src/dlite-misc.c", "src/utils/uuid.c", "src/utils/uuid4.c", "src/utils/sha1.c", "src/utils/urlsplit.c"],
 [("dlite_get_uuidn / dlite_normalise_idn / dlite_idtypen", "src/dlite-misc.c"), ("isuuid, uuid_create_sha1_from_name", "src/utils/uuid.c")])

prop("D02", "Properties have their declared shape and keep the values stored in them",
 "A new instance gives each property the shape obtained by evaluating its dimension expressions for the given dimension sizes, with every value zero (false, empty, null). "
 "Storing any value of a property's type, whole or element by element, by name or by position, and reading it back gives that value, and no other property, dimension or instance changes. "
 "Unknown names and out-of-range positions are reported as errors and change nothing.",
 ["inputs", "histories"], "for all metadata (any mix of types, sizes, ranks and dimension expressions), dimension sizes including zero, and sequences of reads and writes",
 "Tests use a few hand-written entities; layout, alignment and bookkeeping bugs depend on particular combinations of types, sizes and dimension expressions.",
 ["src/dlite-entity.c", "src/dlite-type.c", "src/utils/infixcalc.c"],
 [("offset/alignment computation in dlite_meta_init", "src/dlite-entity.c"), ("property dimension evaluation dlite_instance_update_..., infixcalc", "src/dlite-entity.c"), ("dlite_instance_set_property / get_property", "src/dlite-entity.c")])

prop("D03", "Changing dimension sizes preserves data and never exceeds memory",
 "After any sequence of changes to an instance's dimension sizes, every property has the shape that its dimension expressions give for the current sizes, a property whose shape did not change keeps all its values, and a property that shrinks or grows keeps the leading part of its (row-major) values and has zeros in the newly added part. "
 "A size given as negative leaves that dimension unchanged, and a request that cannot be honoured (unknown or out-of-range dimension, frozen or metadata instance) is refused without changing anything.",
 ["histories", "inputs"], "for all metadata with numerical, string and reference properties and all sequences of resizes (single dimension, all dimensions, to and from zero) interleaved with writes",
 "The tests resize one or two instances once; preservation, zeroing and freeing of non-flat values depends on the sequence of sizes.",
 ["src/dlite-entity.c"], [("dlite_instance_set_dimension_sizes", "src/dlite-entity.c"), ("dlite_instance_set_dimension_size_by_index", "src/dlite-entity.c")])

prop("D04", "One live instance per identity, alive exactly while referenced",
 "At any time there is at most one live instance per UUID: looking up, creating or loading an existing identity by UUID, URI or name gives that very instance and adds one reference. "
 "A data instance exists exactly as long as references to it (held by the user, by another instance's reference property, by a collection, or by a snapshot or transaction child) remain, metadata stays available once created, and after any balanced history every allocation has been released and nothing was used after it was freed.",
 ["histories"], "for all sequences of create, look-up, reference, dereference, copy, assign-to-reference-property, collect, snapshot and release operations",
 "Reference-count errors need a particular interleaving of owners; the tests run straight-line scripts without memory checking.",
 ["src/dlite-entity.c", "src/dlite-collection.c", "src/dlite-store.c", "src/dlite-type.c"],
 [("instance store (istore) and _refcount", "src/dlite-entity.c"), ("dlite_type_clear / dlite_type_copy for references", "src/dlite-type.c"), ("collection ownership", "src/dlite-collection.c"), ("dlite_store_*", "src/dlite-store.c")])

prop("D05", "A copy is equal to and independent of its original",
 "Copying an instance yields a new, distinct, writable instance of the same metadata with the requested (or a fresh) identity and the same dimensions and property values. "
 "Later changes to, resizes of, or release of either of the two are never visible in the other.",
 ["inputs", "histories"], "for all instances (every property type, any shape including empty arrays and null strings) and subsequent changes to either one",
 "Aliasing bugs show only for particular types or empty shapes, and only after later mutation or release.",
 ["src/dlite-entity.c", "src/dlite-type.c"], [("dlite_instance_copy", "src/dlite-entity.c"), ("dlite_type_copy", "src/dlite-type.c")])

prop("D06", "Array views and memory orders address the right elements",
 "Copying a property to, or assigning it from, a caller's buffer in row-major or column-major order moves element (i,j,...) to the position that order prescribes, and the two directions are inverse. "
 "Slices, transposes, reshapes and index look-ups of an n-dimensional array view refer to exactly the elements that index arithmetic gives (including negative and open-ended slice bounds and steps), compare and print in that order, and no view reaches outside its array.",
 ["inputs"], "for all ranks, shapes (including dimensions of size 0 and 1), element sizes, slice specifications and permitted reshapes",
 "Existing tests use one or two fixed shapes; stride arithmetic errors need asymmetric shapes, negative steps or size-one axes.",
 ["src/dlite-arrays.c", "src/dlite-entity.c", "src/dlite-type.c"],
 [("dlite_array_slice / transpose / reshape / order", "src/dlite-arrays.c"), ("dlite_instance_copy_property / assign_property", "src/dlite-entity.c"), ("dlite_type_ndcast", "src/dlite-type.c")])

prop("D07", "Converting between data types preserves representable values",
 "Converting a scalar or an array element from one data type or size to another gives the same value whenever the target type can represent it, with numbers written to and read from strings in between. "
 "Conversions without meaning (negative to unsigned, non-numeric text to number, unsupported type pairs) are reported as errors, and no conversion reads or writes outside its operands.",
 ["inputs"], "for all pairs of data types and sizes, all values, and all array shapes and strides",
 "The matrix of type and size pairs is large and tests visit few cells with few values.",
 ["src/dlite-type-cast.c", "src/dlite-type.c"], [("dlite_type_copy_cast", "src/dlite-type-cast.c"), ("dlite_type_ndcast", "src/dlite-type.c")])

prop("D08", "Type names and printed values round-trip",
 "Every supported data type and size has a name that parses back to the same type and size, and no other text is accepted as a type name. "
 "Printing any value of any type and scanning the text gives the same value back and consumes exactly that text; a print into a too-small buffer stays inside the buffer and still returns the full length, and scanning never looks past the given length.",
 ["inputs"], "for all types, sizes, values, print flags and buffer sizes",
 "Tests print and scan a few literals; quoting, precision, sign and buffer-limit behaviour depends on the value and the buffer size.",
 ["src/dlite-type.c", "src/utils/strutils.c"], [("dlite_type_set_typename / set_dtype_and_size / is_type", "src/dlite-type.c"), ("dlite_type_print / aprint / scan", "src/dlite-type.c")])

prop("D09", "Instances and metadata survive a JSON round trip",
 "For every instance and every metadata, and every combination of output options (single or multi-entity, array or object form, URI or UUID keys, with UUID or metadata), the produced text is valid JSON. "
 "Reading it back in a state where the instance no longer exists gives an instance with the same identity, metadata, dimensions and property values, and metadata with the same description, dimensions, properties, units, shapes and relations. "
 "A too-small output buffer is never overrun and the returned length is that of the full text.",
 ["inputs", "configurations"], "for all metadata and data (arbitrary text in every string, all types and shapes, extreme numbers) and all output flags",
 "Tests serialise a few benign instances; escaping, precision, empty shapes and option combinations are not explored.",
 ["src/dlite-json.c", "src/dlite-type.c", "storages/json/dlite-json-storage.c"], [("dlite_json_sprint", "src/dlite-json.c"), ("dlite_json_sscan", "src/dlite-json.c")])

prop("D10", "A JSON storage behaves as a map from identity to instance",
 "After any sequence of opening (read, write, append), saving and closing, a JSON storage holds exactly the instances last saved under each identity: all of them can be listed (filtered by metadata), and loaded by UUID or by their original identifier, and nothing else can. "
 "Write mode starts empty, append mode keeps what was there, read mode never changes the file, and a refused operation leaves the stored data as it was.",
 ["histories"], "for all histories of opens in each mode, saves, loads, listings and closes, with several instances, metadata and identifiers",
 "The tests write and read back single files; interactions between modes, repeated saves and identities need longer histories.",
 ["storages/json/dlite-json-storage.c", "src/dlite-json.c", "src/utils/jstore.c", "src/dlite-storage.c"],
 [("json_loader/json_save/json_close", "storages/json/dlite-json-storage.c"), ("dlite_jstore_add/iter", "src/dlite-json.c"), ("storage cache and hotlist", "src/dlite-storage.c")])

prop("D11", "Every file storage returns the instance that was saved",
 "Saving an instance with any available file driver (json, yaml, bson, hdf5, rdf, pyrdf), over one or several sessions that append to, change or delete what is stored, and loading it again in a fresh process gives the same identity, metadata, dimensions and property values, so that drivers are interchangeable. "
 "Several instances in one storage do not affect each other.",
 ["inputs", "configurations"], "for all instances whose types the driver supports, all drivers and their documented options",
 "Each driver is tested on one or two example instances with benign values.",
 ["storages/json/dlite-json-storage.c", "storages/hdf5/dh5lite.c", "storages/rdf/dlite-rdf.c", "storages/python/python-storage-plugins/yaml.py", "storages/python/python-storage-plugins/bson.py", "storages/python/python-storage-plugins/csv.py", "storages/python/python-storage-plugins/pyrdf.py", "storages/python/dlite-plugins-python.c"],
 [("driver load/save implementations", "storages/"), ("Python plugin bridge", "storages/python/dlite-plugins-python.c")])

prop("D12", "BSON encoding is exact and self-consistent",
 "Encoding an instance as BSON and decoding it gives an equal instance, and a document built from any sequence of typed elements, including nested documents and arrays, is a valid BSON document whose elements read back with the same names, types, order and values. "
 "The reported sizes are exact, too-small buffers are never overrun, and documents that are not well formed are rejected.",
 ["inputs"], "for all element sequences, nesting, names and values, and all instances",
 "Tests build one fixed document; length bookkeeping depends on the sequence of elements and buffer growth.",
 ["src/utils/bson.c", "src/dlite-bson.c"], [("bson_append*/bson_parse/bson_nelements", "src/utils/bson.c"), ("dlite_bson_from_instance/load", "src/dlite-bson.c")])

prop("D13", "Transactions freeze history and detect tampering",
 "A frozen instance refuses every change, and each snapshot of an instance keeps the exact state it had when it was taken, retrievable by age, however the instance changes later. "
 "Verifying a transaction succeeds as long as no ancestor has been altered and fails if the content of any ancestor differs from what its child recorded. "
 "Pushing snapshots to a storage and pulling them back restores the same verifiable chain.",
 ["histories"], "for all sequences of modify, snapshot, get-snapshot, freeze, set-parent, push, pull and tamper operations",
 "The tests make two or three snapshots of one instance; the chain invariants must hold for any history.",
 ["src/dlite-entity.c", "src/dlite-json.c"], [("dlite_instance_snapshot/get_snapshot/push/pull/set_parent/verify_transaction/freeze", "src/dlite-entity.c"), ("dlite_instance_get_hash", "src/dlite-entity.c")])

prop("D14", "The content hash identifies an instance's content",
 "The content hash depends only on the metadata and the stored values: it is the same for an unchanged instance, for the same content reloaded, and regardless of how the values came to be. "
 "Any change of a property value, dimension size, element position, or boundary between adjacent strings gives a different hash, and so does any change of a collection's relations, whose order does not matter.",
 ["inputs", "histories"], "for all instances and collections and all single changes to them",
 "Tests compare the hash of a few fixed instances; sensitivity must hold for every value, type and position.",
 ["src/dlite-entity.c", "src/dlite-type.c", "src/dlite-collection.c", "src/utils/sha3.c"], [("dlite_instance_get_hash", "src/dlite-entity.c"), ("dlite_type_update_sha3", "src/dlite-type.c"), ("dlite_collection_gethash", "src/dlite-collection.c")])

prop("D15", "A collection holds exactly the instances and relations put into it",
 "After any sequence of adding and removing labelled instances and relations, a collection reports exactly the expected labels, instances (by label, by identity and by iteration) and relations, refuses a label already in use, and its relation dimension equals the number of relations. "
 "Saving a collection and loading it back, including the instances and nested collections it holds, gives the same collection, and a copy of a collection equals the original.",
 ["histories"], "for all sequences of add, remove, find, iterate, copy, save and load on collections with arbitrary labels",
 "Existing tests run one fixed script over a handful of relations.",
 ["src/dlite-collection.c", "src/triplestore.c"], [("dlite_collection_*", "src/dlite-collection.c")])

prop("D16", "The triplestore is a set of triples under pattern search",
 "After any sequence of additions and removals the triplestore contains each added and not removed triple exactly once; searching or removing by any combination of subject, predicate, object and datatype or language (or none of these) affects exactly the triples that match, and the reported count and length agree. "
 "Single-value look-up returns the value, the fallback or an error as documented, and triples differing only in how their text is split or in datatype or language are different.",
 ["histories", "configurations"], "for all sequences of add, remove, find, iterate and clear, with both the built-in and the Redland implementation",
 "The test covers a few triples with the one configured implementation.",
 ["src/triplestore-builtin.c", "src/triplestore-redland.c", "src/triplestore.c", "src/triple.c"], [("triplestore_add/remove/find/value", "src/triplestore-*.c"), ("triple_get_id", "src/triple.c")])

prop("D17", "Metadata is unique, immutable and described by itself",
 "A metadata URI denotes one definition: creating the same definition again gives the existing metadata, creating a different definition under the same URI is refused (reading one from a document gives the existing metadata), and existing metadata is never altered. "
 "Every metadata is itself an instance of its schema, up to the self-describing root, so its dimensions, properties and values can be read through the generic instance interface, and building it from parts, from a schema instance or from JSON gives the same definition.",
 ["inputs", "histories"], "for all metadata definitions, attempts to redefine them, and ways of building them",
 "Tests build one or two entities each way.",
 ["src/dlite-entity.c", "src/dlite-schemas.c", "src/dlite-json.c"], [("dlite_meta_create / dlite_meta_init / dlite_metamodel_*", "src/dlite-entity.c"), ("built-in schemas", "src/dlite-schemas.c")])

prop("D18", "Malformed input is rejected without harm",
 "Any byte string given as JSON instance or metadata, JSON store, BSON document, URL, storage options, template, expression, glob pattern, quoted string or encoded text is either accepted or rejected with an error. "
 "It never causes a crash, an endless loop, an access outside memory owned by the library, or a leak, and after a rejection the library still works and no half-made instance is visible.",
 ["inputs", "fault_sequences"], "for all byte strings up to the explored length, valid documents with structural mutations among them",
 "Tests contain a few malformed strings; the input space is unbounded.",
 ["src/dlite-json.c", "src/utils/jsmnx.c", "src/utils/jstore.c", "src/dlite-bson.c", "src/utils/bson.c", "src/dlite-misc.c", "src/utils/tgen.c", "src/utils/infixcalc.c", "src/utils/globmatch.c", "src/utils/strutils.c", "src/utils/uri_encode.c", "src/utils/urlsplit.c"],
 [("parsers and scanners", "src/, src/utils/")])

prop("D19", "Mappings reach the requested metadata along the cheapest route",
 "Given input instances and registered mappings, mapping to an output metadata succeeds exactly when some chain of mappings leads from the inputs to it, applies the chain of least total cost, and the result has the requested metadata. "
 "Inputs already of the requested metadata are returned themselves, and inputs are never changed.",
 ["inputs", "configurations"], "for all small graphs of mappings with arbitrary costs, alternatives, multiple inputs, cycles and unreachable targets",
 "The tests use two or three fixed mappings with one feasible route.",
 ["src/dlite-mapping.c", "src/dlite-mapping-plugins.c"], [("dlite_mapping_create / dlite_mapping", "src/dlite-mapping.c")])

prop("D20", "Dimension expressions evaluate to their arithmetic value",
 "Every well-formed integer expression of numbers, variables, parentheses and the supported operators evaluates to the value given by the usual precedence and associativity rules, and whether it refers to a variable is reported correctly. "
 "Ill-formed expressions, unknown names, division by zero and results too large for an integer are reported as errors with an explanatory message that stays within its buffer.",
 ["inputs"], "for all expressions and variable values",
 "Tests evaluate a dozen fixed expressions.",
 ["src/utils/infixcalc.c"], [("infixcalc, infixcalc_depend", "src/utils/infixcalc.c")])

prop("D21", "URLs, options and percent-encoding decode to what was encoded",
 "Percent-encoding any byte string and decoding it gives the same bytes; joining driver, location, options and fragment into a URL and splitting it gives the same parts; and parsing an option string assigns to each known key exactly the (decoded) value written for it, the last one winning, leaving all others at their default. "
 "Generic URL parsing recognises exactly the strings with URL syntax and reports their components, and unknown or valueless options are handled as documented.",
 ["inputs"], "for all strings, option sets and URLs",
 "Tests decode a few literals.",
 ["src/utils/uri_encode.c", "src/dlite-misc.c", "src/utils/urlsplit.c", "src/utils/strtob.c"], [("uri_encode/uri_decode", "src/utils/uri_encode.c"), ("dlite_option_parse / dlite_split_url / dlite_join_url", "src/dlite-misc.c"), ("urlsplit/urljoin", "src/utils/urlsplit.c")])

prop("D22", "String utilities are exact inverses and respect their buffers",
 "Quoting and unquoting, hex encoding and decoding, and UTF-8 encoding and decoding are inverse for every input; concatenation and formatted (re)allocating prints equal the plain concatenation of their parts; semantic-version checks and comparisons follow the semver specification; prefix, suffix, category, glob-match and boolean parsing agree with their definition. "
 "Every function that writes to a caller's buffer returns the length needed, terminates what it wrote, and writes nothing beyond the given size.",
 ["inputs"], "for all strings, byte arrays, code points, version strings, patterns, flags and buffer sizes",
 "Tests check a few literals per function.",
 ["src/utils/strutils.c", "src/utils/unicode.c", "src/utils/globmatch.c", "src/utils/strtob.c", "src/utils/clp2.c", "src/utils/compat.c"], [("strquote/strunquote/strhex_*/strput*/strcmp_semver", "src/utils/strutils.c"), ("UTF-8 helpers", "src/utils/unicode.c"), ("globmatch", "src/utils/globmatch.c")])

prop("D23", "Templates and generated code reflect the definition exactly",
 "Expanding a template replaces every variable, format, condition, loop and escape as documented, with alignment and nested scopes, and leaves all other text unchanged. "
 "The C header generated for any entity compiles and declares a structure whose members have the names, types, order, shapes and memory positions that instances of that entity actually have.",
 ["inputs", "programs"], "for all templates and substitutions, and all entity definitions",
 "The test generates code for one example entity and expands a few templates.",
 ["src/utils/tgen.c", "src/dlite-codegen.c", "tools/templates"], [("tgen", "src/utils/tgen.c"), ("dlite_codegen", "src/dlite-codegen.c"), ("struct layout computation", "src/dlite-entity.c")])

prop("D24", "Digests and name-based identifiers follow their standards",
 "The digest functions give, for every message and however the message is split into updates, exactly the values of the published SHA-3/Keccak, SHA-1 and MD5 standards, and name-based UUIDs of versions 3 and 5 equal those of RFC 4122. "
 "Random UUIDs are well-formed version-4 UUIDs and do not repeat.",
 ["inputs"], "for all messages, lengths around block boundaries, and splits into updates",
 "Tests use published vectors of a few lengths.",
 ["src/utils/sha3.c", "src/utils/sha1.c", "src/utils/md5.c", "src/utils/uuid.c", "src/utils/uuid4.c"], [("sha3_*/SHA1*/MD5*", "src/utils/"), ("uuid_create_*", "src/utils/uuid.c")])

prop("D25", "Containers keep exactly what was put into them",
 "After any sequence of insertions, replacements, removals and iterations the hash map, the JSON store, and the session registry hold exactly the entries last set and not removed, with iteration visiting each once. "
 "Writing a JSON store to text or file and reading it gives the same entries, and merging prefers the newer value.",
 ["histories"], "for all operation sequences over colliding, empty and long keys and container sizes across growth thresholds",
 "Tests insert a handful of keys.",
 ["src/utils/map.c", "src/utils/jstore.c", "src/utils/session.c"], [("map_*", "src/utils/map.c"), ("jstore_*", "src/utils/jstore.c"), ("session_*", "src/utils/session.c")])

prop("D26", "Paths and path lists are manipulated correctly",
 "Joining, splitting, taking directory, base name, stem and extension of, and making friendly or converting paths between Unix and Windows conventions follow their documented rules for every path, and round-trip where that is promised. "
 "A search-path list behaves as an ordered list under insert, append, delete, extend and index with negative positions, and iterating it yields each existing matching file exactly once in list order.",
 ["inputs", "histories"], "for all paths, path lists, operation sequences and directory contents",
 "Tests use a few literal paths and the checked-in directories.",
 ["src/utils/fileutils.c"], [("fu_join/fu_dirname/fu_basename/fu_stem/fu_fileext/fu_friendly_dirsep/fu_winpath/fu_unixpath", "src/utils/fileutils.c"), ("fu_paths_*/fu_pathsiter_*/fu_glob", "src/utils/fileutils.c")])

prop("D27", "Python attribute and array access is faithful",
 "From Python, setting a property from any acceptable value (scalars, nested lists, numpy arrays of any compatible dtype and memory layout, strings, bytes, quantities) and reading it gives the same value with the declared type and shape, and array properties share memory with the instance so changes through either are seen by both. "
 "Values of the wrong type, shape or length raise an exception and leave the instance unchanged.",
 ["inputs", "histories"], "for all property types and shapes, and all Python values offered to them",
 "Tests set a few properties of fixed entities with well-behaved values.",
 ["bindings/python/dlite-entity.i", "bindings/python/dlite-entity-python.i", "bindings/python/dlite-python.i"], [("typemaps and dlite_swig_set/get_property", "bindings/python/dlite-python.i")])

prop("D28", "Python conversions of instances and metadata are lossless",
 "Converting an instance or metadata to a dictionary, JSON text or BSON bytes and back, pickling or copying it, and wrapping or rebuilding it through the object factory, gives an equal instance. "
 "A datamodel built through the Python builder, from a table or from a dictionary equals the same definition built directly, and units attached to a property convert values consistently.",
 ["inputs"], "for all metadata and data expressible through the Python interface",
 "Tests convert a few fixed instances.",
 ["bindings/python/dlite-entity-python.i", "bindings/python/utils.py", "bindings/python/factory.py", "bindings/python/datamodel.py", "bindings/python/table.py", "bindings/python/quantity.py"], [("asdict/asjson/asbson, from_*", "bindings/python/dlite-entity-python.i"), ("instance_from_dict", "bindings/python/utils.py"), ("factory", "bindings/python/factory.py")])

prop("D29", "Instances can be found through storage paths and open storages",
 "Looking up an identity that is not in memory finds it in whichever open readable storage or listed storage path holds it, in list order, independent of how many storages are open or have been closed before, and reports a clean failure when none does. "
 "Adding and removing search locations changes what is found accordingly.",
 ["histories", "configurations"], "for all histories of opening and closing storages, editing the search path and looking up identities",
 "Tests look up one instance in one directory.",
 ["src/dlite-entity.c", "src/dlite-storage.c", "src/utils/fileutils.c"], [("dlite_instance_get", "src/dlite-entity.c"), ("storage hotlist and storage paths", "src/dlite-storage.c")])

prop("D30", "Errors are recorded, nested and cleared as documented",
 "A failing operation sets the error code and message of the innermost active error context, which remain until cleared; entering a guarded section hides outer errors, leaving it restores or propagates them as requested, and the handler and stream in force receive each message exactly as often as its level and masks prescribe. "
 "Messages longer than the internal buffers are truncated safely, and behaviour switches take the value last set explicitly, else by environment, else by default for the version.",
 ["histories", "configurations"], "for all sequences of reporting, catching, re-raising, clearing and reconfiguring, and all message lengths",
 "Tests raise a few errors in a fixed order.",
 ["src/utils/err.c", "src/dlite-misc.c", "src/dlite-errors.c", "src/dlite-behavior.c"], [("err records and ErrTry/ErrCatch", "src/utils/err.c, src/utils/err.h"), ("dlite_behavior_*", "src/dlite-behavior.c")])

prop("D31", "Python collections, storages and search paths behave like their models",
 "From Python, a collection (add, get, remove, relations, items, iterators, subscripting, conversion), a storage (open, save, load, delete, flush, uuids, iteration, context manager, instance methods) and a search path (insert, append, delete, extend, index, iterate) behave like a dictionary with a set of triples, a dictionary of snapshots and a list of strings, for every history. "
 "Objects and iterators that Python still holds stay usable whatever is released, and what is released is freed.",
 ["inputs", "histories"], "for all histories of operations on collections, storages and search paths, and all orders of releasing the objects involved",
 "Tests perform one short history with each kind of object.",
 ["bindings/python/dlite-collection.i", "bindings/python/dlite-collection-python.i", "bindings/python/dlite-storage.i", "bindings/python/dlite-storage-python.i", "bindings/python/dlite-path.i", "bindings/python/dlite-path-python.i"], [("collections and their iterators", "bindings/python/dlite-collection.i, bindings/python/dlite-collection-python.i"), ("storages and their iterators", "bindings/python/dlite-storage.i, bindings/python/dlite-storage-python.i"), ("search paths", "bindings/python/dlite-path.i, bindings/python/dlite-path-python.i")])

prop("D32", "Protocols transfer exactly what was saved",
 "Options given as a dictionary or as a query string reach a plugin unchanged, with defaults for those not given. "
 "Bytes saved through a protocol are the bytes loaded through it; modes, filters, overwriting, listing and deletion act on exactly the files they name, and a refused operation raises and changes nothing. "
 "An instance saved through any protocol and driver, with any call signature or URL form, is loaded unchanged by any other, with or without an id or metadata to map to, from files holding one or many instances, and nothing is left behind.",
 ["inputs", "histories"], "for all option values, directory trees, byte contents, modes and instances",
 "Tests save and load one file, one directory and a few instances.",
 ["bindings/python/protocol.py", "bindings/python/options.py", "bindings/python/python-protocol-plugins/file.py", "bindings/python/python-protocol-plugins/zip.py", "bindings/python/dlite-entity-python.i"], [("Protocol, load_path, save_path, archive_*", "bindings/python/protocol.py"), ("Options, parse_query, make_query", "bindings/python/options.py"), ("file and zip protocols", "bindings/python/python-protocol-plugins"), ("Instance.load/save/from_url", "bindings/python/dlite-entity-python.i")])

prop("D33", "A save that fails is reported and harmless",
 "A save that cannot write all of its output (full disk, size limit, unwritable place) reports an error, through whichever call, driver, collection, URL or flush it was made, in C and in Python; one that reports success has written a complete document. "
 "Failed saves leave the instances in memory unchanged and leak nothing, and saving again where there is room works. A document cut off at any byte is never loaded as if it were the complete one.",
 ["inputs", "fault_sequences"], "for all instances, drivers, ways of saving and points at which writing stops",
 "Tests only save where there is room, and never look at a save that stops half way.",
 ["src/dlite-storage.c", "src/dlite-entity.c", "src/dlite-json.c", "src/utils/jstore.c", "storages/json", "storages/rdf", "storages/python"], [("dlite_storage_close, dlite_storage_flush", "src/dlite-storage.c"), ("dlite_instance_save_loc, dlite_instance_save_url", "src/dlite-entity.c"), ("dlite_json_printfile", "src/dlite-json.c"), ("jstore_to_file", "src/utils/jstore.c"), ("rdf_close", "storages/rdf/dlite-rdf.c"), ("Storage.save, Instance.save, to_bytes", "bindings/python")])

prop("D34", "Command-line tools do what they are asked to and say whether they did",
 "dlite-getuuid prints the UUID, or normalised id, that the library derives from the given string. dlite-env runs a command with exactly its arguments, input and environment (with the assignments and paths asked for), and its exit status is that of the command. "
 "dlite-codegen writes the text that the template and variables stand for to the output asked for. dlite-validate accepts valid datamodels and data files and no others, also in files with several. Each exits with a non-zero status and a message when it cannot do what was asked.",
 ["inputs"], "for all arguments, environments, commands, datamodels and templates",
 "Tests run the generator on three fixed entities and the validator on a few files, and never look at what the other tools print or return.",
 ["tools", "src/utils/execprocess.c", "bindings/python/scripts/dlite-validate"], [("dlite-env", "tools/dlite-env.c"), ("dlite-getuuid", "tools/dlite-getuuid.c"), ("dlite-codegen", "tools/dlite-codegen.c"), ("exec_process, set_envitem, get_environment", "src/utils/execprocess.c"), ("dlite-validate", "bindings/python/scripts/dlite-validate")])

prop("D35", "The Fortran bindings and generated Fortran modules do what the C library does",
 "Strings passed between Fortran and C keep their text, cut or padded to the receiving length, and nothing outside either string is read or written. Metadata, instances and storages created, inspected, saved, loaded and destroyed through the Fortran interface are exactly those of the C interface for the same arguments. "
 "The Fortran module generated from an entity compiles, makes the metadata it was generated from, and reads and writes all members of its instances: element (i, j, ..) in Fortran is element [i, j, ..] of the property, whatever the way of storing them.",
 ["inputs"], "for all strings, identities, entities with types that exist in Fortran, dimension sizes and values",
 "Tests print the members of three fixed instances and compare nothing.",
 ["bindings/fortran", "tools/templates/fortran-module.txt", "src/dlite-type.c"], [("strings", "bindings/fortran/c_interface.f90"), ("interface", "bindings/fortran/dlite.f90"), ("generated modules", "tools/templates/fortran-module.txt"), ("dlite_type_set_ftype, dlite_type_set_isoctype", "src/dlite-type.c")])

prop("D36", "The library keeps its contract with storage plugins",
 "Storages, iterators and datamodels that a plugin has handed out are used only while they are open and are given back exactly once, whatever happens. When a function of a plugin fails at any point of an operation (opening, saving, loading, querying, deleting, iterating, flushing, closing, to and from memory, also for collections with everything in them), the operation fails with an error and leaves no reference, no half-loaded instance and no change to the instances in memory, and succeeds when it is repeated; when none fails, the operation does what it says, no matter which of the optional interfaces the plugin implements. Asking a driver for what it does not support is an error.",
 ["inputs", "histories", "fault_sequences"], "for all plugins, histories of operations, and failures of any plugin function at any call",
 "The plugins of the tests do not fail.",
 ["src/dlite-storage.c", "src/dlite-datamodel.c", "src/dlite-entity.c", "src/dlite-collection.c"], [("storages", "src/dlite-storage.c"), ("datamodels", "src/dlite-datamodel.c"), ("_instance_load_casted, dlite_instance_save, dlite_instance_memload", "src/dlite-entity.c"), ("dlite_collection_load, dlite_collection_save", "src/dlite-collection.c")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
