#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files.split(),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": None}})

# ---------------------------------------------------------------- schema
p("C01", "Every leaf schema type rejects values of any other type",
  "Validating a value against a Bool, Bytes, Date, DateTime, Time, String, Scalar or Array schema node raises ValidationError whenever the value is not of the node's documented type (bool, bytes, date, datetime, time, str, numpy number, numpy ndarray), whatever else is configured. A value of the documented type that meets the configured constraints is accepted silently.",
  "inputs configurations", "all values of all types against every leaf schema type, with and without constraints",
  "tests offer four or five sample values per type; a hole for one particular foreign type (subclass, numpy twin, empty container) is not sampled",
  "dsch/schema.py", [("per-type isinstance/type guards before any constraint", "dsch/schema.py *.validate")], observe=["schema node .validate()"])
p("C02", "Length limits of String, Bytes and List are enforced exactly",
  "With a minimum and/or maximum length configured, String, Bytes and List validation accepts exactly the lengths from the minimum to the maximum, both inclusive, and raises ValidationError otherwise. A limit of None is no limit; a limit of 0 is a limit.",
  "inputs configurations", "every length and every combination of minimum and maximum length, including absent and zero limits",
  "tests use one limit and one length per direction; off-by-one at the boundary, combination of both limits, and zero limits are not reached",
  "dsch/schema.py", [("length comparisons", "dsch/schema.py String/Bytes/List.validate")], observe=["schema node .validate()", "List data node .validate()"])
p("C03", "Value bounds and dtype of Scalar and Array are enforced exactly",
  "Scalar validation accepts a number, and Array validation an array, only if its dtype equals the configured dtype and the number, respectively every single array element, lies between the configured minimum and maximum value, both inclusive; otherwise ValidationError is raised. A bound of None is no bound; a bound of 0 is a bound; a conforming value is never rejected. (NaN, which is in no order relation to any bound, is left open.)",
  "inputs configurations", "all numbers and array contents in every order relation to the bounds, all bound combinations, equal and different dtypes",
  "tests try one violating value per bound; boundaries, zero bounds, violations by only some elements and combinations are not sampled",
  "dsch/schema.py", [("bound and dtype comparisons", "dsch/schema.py Scalar.validate, Array.validate")], observe=["schema node .validate()"])
p("C04", "Array dimensionality and per-dimension size limits are enforced",
  "Array validation accepts an array only if its number of dimensions equals the configured one and each dimension's size lies within that dimension's minimum and maximum (None entries disable the limit of that dimension); otherwise ValidationError is raised. Constructing an Array schema derives the number of dimensions from the shape limits when given, and refuses with ValueError shape limits of different length and a number of independent variables other than the number of dimensions.",
  "inputs configurations", "every shape and every combination of minimum/maximum shapes for any number of dimensions",
  "tests check one failing dimension of one shape; failures in later dimensions, mixed None entries and equality at the limit are not sampled",
  "dsch/schema.py", [("ndim and zip-wise shape comparison", "dsch/schema.py Array.validate"), ("constructor consistency checks", "dsch/schema.py Array.__init__")], observe=["schema.Array(...)", "schema node .validate()"])
p("C05", "Dependent arrays must match each independent variable's length",
  "For an Array with independent variables, validation of the data raises ValidationError unless for every dimension that names an independent variable the size of that dimension equals the length of that very variable; dimensions registered as None are unconstrained. When all named dimensions match (and the other constraints hold) validation succeeds. (Left open: an independent variable that is empty.)",
  "inputs configurations", "all dimensionalities, all positions of None entries, all size combinations",
  "tests use one one-dimensional passing case and one two-dimensional failing case without None",
  "dsch/data.py dsch/schema.py", [("collecting independent values from sibling nodes", "dsch/data.py Array.validate"), ("pairwise size comparison", "dsch/schema.py Array.validate")], observe=["data node .validate()"])
p("C06", "Schemas survive serialisation to dict and JSON unchanged",
  "For every schema, converting it to its dict or JSON form and building a node from that yields a node of the same type with the same configuration in every option and, recursively, the same sub-nodes. A dict with a node type that does not exist or does not belong to the class used for loading is refused with ValueError.",
  "inputs configurations", "every schema type, every configuration option set to any value, any nesting",
  "tests check to_dict and from_dict separately against literals for one configuration per type and never compare a reloaded schema with its origin",
  "dsch/schema.py", [("to_dict / from_dict / node_from_dict / node_from_json", "dsch/schema.py")], observe=["to_dict()", "to_json()", "node_from_dict()", "node_from_json()"])
p("C07", "Schema identity: hash and == depend on exactly the configuration",
  "Two schema nodes have the same hash exactly if type, all configuration options and all sub-nodes are the same, irrespective of the order in which fields were listed, of how the schema was obtained (constructed or reloaded) and of earlier hash computations; == agrees with the hash. Comparing with something that is no schema node gives False and does not raise.",
  "inputs configurations histories", "every pair of schemas that differ in one option, in nesting, in field order or in origin; hash before and after a configuration change",
  "tests compare a handful of fixed pairs (the positive == test is shadowed by a second test of the same name) and only check the length of the hash",
  "dsch/schema.py dsch/storage.py", [("canonical JSON and SHA-256", "dsch/schema.py SchemaNode.hash/to_json/__eq__"), ("storage hash", "dsch/storage.py Storage.schema_hash")], observe=["hash()", "==", "schema_hash()"])
# ---------------------------------------------------------------- data tree
p("C08", "Validating a tree validates every non-empty node in it, and only that",
  "Validating a storage or any data node raises if any non-empty leaf or any List (at any depth, in any position) violates its schema constraints, judged on its current value; it never raises because of empty nodes and never if everything conforms. This holds for every backend.",
  "inputs histories configurations", "all tree shapes, all positions of violations, every backend",
  "tests validate small trees whose nodes are all valid, plus one single failing path; a skipped position or node kind goes unnoticed",
  "dsch/data.py dsch/storage.py dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/mat.py dsch/backends/inmem.py",
  [("recursive validate()", "dsch/data.py ItemNode/Array/Compilation/List.validate"), ("delegation", "dsch/storage.py Storage.validate")], observe=["storage.validate()", "node.validate()"])
p("C09", "Validation errors name the offending node and its original cause",
  "When a node inside a Compilation or List fails validation, the raised SubnodeValidationError gives the full path from the validated node to the failing node (field names dotted, list indices in brackets), and its original cause is the failing node's own ValidationError with violated constraint and actual value. A leaf or List that fails on its own raises that ValidationError directly; all errors are DschError subclasses and their texts can always be rendered.",
  "inputs configurations", "every nesting of Lists and Compilations around the failing node",
  "tests check a single nesting (compilation-list-compilation-list)",
  "dsch/data.py dsch/exceptions.py", [("exception chaining", "dsch/data.py Compilation/List.validate"), ("path building", "dsch/exceptions.py SubnodeValidationError")], observe=["node_path()", "original_cause()", "str(error)"])
p("C10", "empty and complete reflect exactly which nodes hold data",
  "A leaf is empty exactly if it holds no data and complete exactly otherwise, a Compilation or List is empty exactly if all its sub-nodes are empty, a List is complete exactly if all items are complete, and a Compilation is complete exactly if all its non-optional fields are complete. A storage is complete exactly if its top-level node is; stored values that are falsy (0, False, empty string) count as data.",
  "inputs histories configurations", "every combination of filled, empty and optional nodes at every depth, in every backend",
  "tests look at one or two filled nodes in flat two-field compilations and lists",
  "dsch/data.py dsch/storage.py", [("empty/complete properties", "dsch/data.py"), ("Storage.complete", "dsch/storage.py")], observe=[".empty", ".complete"])
p("C11", "An empty or cleared node never yields a value",
  "Reading the value of an empty leaf raises NodeEmptyError; this holds for a new node, after clearing, and for a field or item inside a cleared Compilation, whatever was stored before, and a value set afterwards is read back normally. Clearing a Compilation clears all of its fields recursively but keeps the fields, and clearing a List removes all its items.",
  "histories", "all sequences of setting, replacing and clearing on leaves, Compilations and Lists, in every backend",
  "tests clear a node once after one assignment and look at internal state",
  "dsch/data.py dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/inmem.py", [("clear()/value/empty", "dsch/data.py"), ("dataset removal", "dsch/backends/hdf5.py _ItemNode.clear, List.clear")], observe=[".value", ".clear()", ".empty"])
p("C12", "data_tree exports exactly the stored data",
  "data_tree() of a Compilation is a dict holding every field that has data under its own name, and of a List a list of the items that have data in order, recursively with the stored values, falsy values included; empty leaves are left out. With include_empty=True every field and item appears, empty leaves as None, at every depth. The dicts and lists exported are the caller's own: changing them does not change the data.",
  "inputs configurations histories", "every tree shape and fill state, both settings of include_empty, every backend",
  "tests use flat compilations and lists with truthy values",
  "dsch/data.py", [("data_tree()", "dsch/data.py ItemNode/Compilation/List")], observe=["data_tree()"])
p("C13", "replace and append write exactly the given values, in order",
  "Replacing a Compilation sets exactly the fields named in the given dict and leaves other fields alone; replacing a List leaves exactly the given entries in the given order whatever it held before; append adds exactly one item at the end, holding the given value, falsy values included, or empty when no value is given. Setting a leaf's value replaces the previous one entirely, whatever it was.",
  "inputs histories", "any previous content, any number of entries, nested dicts and lists, any value including falsy ones, every backend",
  "tests replace fresh nodes once with one or two truthy entries",
  "dsch/data.py dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/mat.py dsch/backends/inmem.py", [("replace/append", "dsch/data.py Compilation.replace, List.replace, List.append"), ("backend overrides", "dsch/backends/*.py")], observe=["replace()", "append()", ".value = ..."])
p("C14", "Sub-nodes cannot be overwritten by accident",
  "Assigning to any field name of a Compilation (or to an unknown attribute) and assigning to any index of a List raises ResetSubnodeError naming the target and changes nothing. Accessing fields as attributes and items by index always gives the sub-node itself; a field that does not exist is reported as a missing attribute (AttributeError), so hasattr answers False. (Left open: fields named like an attribute of the node itself, such as schema_node or parent.)",
  "inputs programs", "every field name, every index, every backend",
  "tests assign one unknown attribute and index 0",
  "dsch/data.py", [("__setattr__ / __setitem__ / __getattr__", "dsch/data.py Compilation, List")], observe=["setattr", "setitem", "getattr"])
p("C15", "load_from copies a node's whole state, or refuses before changing anything",
  "If source and destination have the same schema, load_from makes the destination's data equal to the source's: every leaf gets the source's value, empty leaves become or stay empty, and Lists end with exactly the source's items whatever they held before; the source is unchanged and later in-place changes on either side do not affect the other. If the schemas differ, IncompatibleNodesError is raised and the destination is unchanged.",
  "inputs histories configurations", "all pairs of backends, all tree shapes and fill states of source and destination",
  "tests copy fully filled flat nodes into fresh nodes",
  "dsch/data.py", [("load_from()", "dsch/data.py ItemNode/Compilation/List")], observe=["load_from()"])
p("C16", "create_from and save_as produce an equal storage at the requested place",
  "create_from and save_as return a new storage at the given path, in the requested or auto-detected backend, whose schema has the same hash and whose data equals the source's, also when the source is only partially filled. The source storage is unchanged.",
  "inputs configurations", "all pairs of backends, all tree shapes and fill states, explicit and detected backend",
  "tests copy a single filled Bool",
  "dsch/frontend.py dsch/storage.py dsch/data.py", [("create_from", "dsch/frontend.py"), ("save_as", "dsch/storage.py Storage.save_as")], observe=["create_from()", "save_as()"])
p("C17", "set_on_create fills new nodes only, with the current date/time",
  "A Date, DateTime or Time node with set_on_create is filled on creation with the current local date, date and time, or time, respectively, at any position in the tree, including items appended to a List later; without it, it starts empty. Loading an existing storage never invents such values: fields stored as empty are empty after loading and stored values are kept.",
  "inputs histories configurations", "each of the three types at each position, newly created versus loaded, every backend",
  "tests create single top-level nodes; loading with set_on_create is never tested",
  "dsch/data.py dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/mat.py", [("_init_new of Date/DateTime/Time", "dsch/data.py"), ("_init_from_storage", "dsch/data.py, dsch/backends/*.py")], observe=["create()", "append()", "load()"])
# ---------------------------------------------------------------- backends
p("C18", "Every backend supports every schema node type, within one tree",
  "For each of the backends hdf5, inmem, mat and npz and each schema node type there is a data node of the corresponding kind, and building a tree creates for every sub-node, also of appended and loaded items, a node of the same backend that is bound to its own schema sub-node and to its parent node. Every leaf type supports setting, reading and clearing values in every backend, and every node can be saved in the file backends.",
  "configurations programs", "all backends times all schema types times all positions (field, list item, top level), created, appended or loaded",
  "tests instantiate most combinations flat but never check parent links or the backend of nested nodes; Bytes is missing from the storage tests",
  "dsch/backends/hdf5.py dsch/backends/inmem.py dsch/backends/mat.py dsch/backends/npz.py dsch/data.py", [("class lookup by schema type name in the backend module", "dsch/data.py data_node_from_schema")], observe=["tree construction"])
p("C19", "Leaf values are represented without loss in every backend",
  "In every backend, a value of the leaf's type that is set is read back as the same value with every component (bytes, text, truth value, number in the configured dtype, array, and year to microsecond of dates and times), both immediately and after saving and loading in a file backend. Setting a new value leaves nothing of an older one behind. (Left open: what the storage libraries themselves cannot hold, namely NUL characters in text, a foreign byte order in MATLAB files, and the time zone of aware date/times.)",
  "inputs configurations", "all leaf types in all backends, all components, any older value",
  "tests use one short sample value per type; Bytes is never saved and loaded; truncation, dropped or swapped components with equal sample values are not noticed",
  "dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/mat.py dsch/backends/inmem.py", [("replace/_value/_init_from_storage pairs", "dsch/backends/*.py")], observe=[".value", "save() then load()"])
p("C20", "What was saved is what is loaded: structure, order, emptiness and schema",
  "For the file backends, saving a storage and loading it again gives the same schema (same hash) and the same tree: every filled field or list item has its value at its own position, list order and length are kept for any number of items, and empty fields are empty. The schema's JSON text itself is stored in the file.",
  "inputs configurations histories", "any schema shape (leaf, Compilation or List at top level, any nesting), any fill state, any list length",
  "tests load one big completely filled schema with up to two list items and one flat list of 25 integers",
  "dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/mat.py dsch/data.py", [("_load/_save/_new and node save()/_init_from_storage()", "dsch/backends/*.py"), ("key flattening", "dsch/backends/npz.py _flatten_dotted/_inflate_dotted")], observe=["save()", "load()"])
p("C21", "Cleared or replaced data never resurfaces from the file",
  "After any sequence of setting, replacing, appending and clearing followed by a save, loading the file gives exactly the final in-memory state: values, fields or list items removed or replaced in the meantime do not come back, also when the storage had been saved or loaded before.",
  "histories", "all operation sequences on leaves, Compilations and Lists between loads and saves, every file backend",
  "tests never load after a clear or a second replace",
  "dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/mat.py dsch/data.py", [("deleting datasets/groups", "dsch/backends/hdf5.py _ItemNode.clear, List.clear"), ("saving only present nodes", "dsch/backends/npz.py Compilation.save")], observe=["save()", "load()"])
# ---------------------------------------------------------------- storage / frontend
p("C22", "save() never writes unvalidated data unless forced",
  "For every file backend, save() first validates the whole current data and, if validation fails, raises that error without writing or flushing anything to the file; if validation succeeds the current data is written to the file. Only an explicit force=True skips validation, and it always writes.",
  "inputs histories configurations", "every backend, every validation outcome, every value of force",
  "tests only save valid data, or force; that a failed save leaves the file untouched is never tested",
  "dsch/storage.py dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/mat.py", [("validate before _save", "dsch/storage.py FileStorage.save")], observe=["save()", "file"])
p("C23", "load() returns only storages with the required schema and valid data",
  "load() raises InvalidSchemaError whenever the required schema or the required schema hash (each on its own, or both) differs from the loaded storage's schema, also with force=True. Unless force=True is given, it validates the complete loaded data and raises the validation error instead of returning an invalid storage; if all requirements hold it returns the storage.",
  "inputs configurations", "all combinations of required schema, required hash, force, matching or not, valid or not",
  "tests only require matching schemas; a mismatch is never tested for load()",
  "dsch/frontend.py", [("schema check and validation", "dsch/frontend.py load")], observe=["load()"])
p("C24", "Creating never overwrites, loading never creates",
  "Creating a storage at a path where something already exists raises FileExistsError and leaves the existing file untouched, for every file backend and also when the backend is given explicitly. Loading a path that does not exist raises FileNotFoundError and creates nothing.",
  "inputs configurations", "every file backend, any path, detected and explicit backend, via create(), create_from() and save_as()",
  "tests check the exception type for one path per backend, not the file's content nor create_from/save_as",
  "dsch/storage.py dsch/backends/hdf5.py", [("existence checks", "dsch/storage.py FileStorage.__init__"), ("exclusive creation mode", "dsch/backends/hdf5.py Storage._new")], observe=["create()", "load()", "file"])
p("C25", "The backend follows from the path ending or the explicit argument",
  "create() and load() use the explicitly given backend if there is one, and otherwise pick inmem for exactly '::inmem::', npz for paths ending in .npz, hdf5 for .h5 and .hdf5, mat for .mat, and raise AutodetectBackendError for every other path. Both choose the same backend for the same path and pass the path on unchanged.",
  "inputs configurations", "all paths and all backend arguments",
  "tests use three fixed file names (hdf5 only with .hdf5) and never an unknown ending nor an explicit backend",
  "dsch/frontend.py", [("suffix dispatch", "dsch/frontend.py _autodetect_backend")], observe=["create()", "load()"])
p("C26", "A file storage lives at exactly its path",
  "A file storage's data is written to and read from exactly the path it was created or loaded with, whatever the path's ending and the chosen backend; no other file is created, changed or read. Its storage_path always is that path.",
  "inputs configurations", "all paths, with and without the backend's usual ending",
  "tests always use the backend's own file name ending",
  "dsch/backends/npz.py dsch/backends/mat.py dsch/backends/hdf5.py dsch/storage.py", [("numpy.savez / scipy savemat / h5py.File call arguments", "dsch/backends/*.py")], observe=["file system"])
p("C27", "PseudoStorage opens only accepted schemas and picks load, create or node",
  "Opening a PseudoStorage for a string loads and validates the storage if the path exists and otherwise creates it with the given schema; for a data node it uses that node without a storage. The available schema must be the given one or one of the alternatives (nodes or hashes, in any position); otherwise InvalidSchemaError is raised and the PseudoStorage stays closed, exposing neither data nor storage nor schema. After opening, data, storage and schema_node are those of the actual data, and opening again while open raises RuntimeError without changing anything.",
  "inputs configurations histories", "strings and nodes, existing and missing paths, all alternative lists, deferred and immediate opening, repeated opening",
  "tests use one alternative per case and do not look at the state after a refused or repeated opening",
  "dsch/frontend.py", [("open/_verify_schema", "dsch/frontend.py PseudoStorage")], observe=["PseudoStorage.open()", ".data", ".storage", ".schema_node"])
p("C28", "PseudoStorage saves its own storage on close and always lets go",
  "Closing a PseudoStorage that manages a storage which can be saved saves it exactly once with validation, and resets data, storage and schema_node to None; when it was given a data node, nothing is saved. Used as a context manager it opens on entry if not yet open, closes on exit also when the body raises, and never suppresses the body's exception; it can be reopened afterwards, and closing when not open does nothing.",
  "histories inputs", "all histories of open, close, with (normal and raising bodies), all backends, node or string",
  "tests run one normal with-block and never check that anything was saved, nor a raising body",
  "dsch/frontend.py", [("close/__enter__/__exit__", "dsch/frontend.py PseudoStorage")], observe=["close()", "with", "file"])
p("C29", "The in-memory backend never touches the file system and insists on its rules",
  "No operation on an in-memory storage or its nodes opens, creates, writes or deletes any file. Creating one requires the path '::inmem::' (the default of the backend's Storage class) and a schema; anything else raises ValueError.",
  "programs inputs", "all operations of the in-memory backend, all paths and schema arguments",
  "tests create one valid in-memory storage; absence of file access is never observed",
  "dsch/backends/inmem.py dsch/data.py dsch/storage.py", [("constructor checks", "dsch/backends/inmem.py Storage.__init__"), ("who-may-call: no file primitive reachable", "dsch/backends/inmem.py")], observe=["create()", "file system"])
p("C30", "Inspecting a storage changes neither data nor files",
  "Reading values, data_tree, empty, complete, validate, node_tree/repr, dir, len, schema hash and JSON, and loading without saving, change neither the data of any node, nor the schema, nor any file, in every backend. Repeating the inspection gives the same answer.",
  "programs histories", "all inspection operations on all node types, all fill states, every backend",
  "tests never compare state before and after an inspection",
  "dsch/data.py dsch/storage.py dsch/schema.py dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/mat.py dsch/backends/inmem.py", [("inspection methods have no stores", "dsch/**")], observe=["state before/after"])
p("C31", "Storages, nodes and schemas do not share state",
  "Changing the data of one storage, field or list item never changes the data of another one, even if they were created from the same schema object, and configuring one schema node never changes another or the defaults of schemas created later. Nothing that a user does with one storage object changes what a newly created one contains. (Left open: one and the same array object set as the value of several nodes by the user.)",
  "programs histories", "all pairs of objects living in one process, every backend",
  "every test uses fresh objects and one storage at a time",
  "dsch/data.py dsch/schema.py dsch/storage.py dsch/frontend.py dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/mat.py dsch/backends/inmem.py", [("per-instance containers, no mutable class attributes, defaults or module globals", "dsch/**")], observe=["state of the other object"])
p("C32", "Every tree has a printable representation showing every node",
  "node_tree and repr succeed for every node of every backend in every fill state and contain one entry per field (with its name) and per list item (with its index), recursively. Leaves show their value (arrays: their shape, scalars: value and unit), empty leaves '<empty>'.",
  "inputs configurations", "all tree shapes and fill states, every backend",
  "tests do not cover node_tree or repr at all",
  "dsch/data.py", [("node_tree/__repr__", "dsch/data.py")], observe=["node_tree()", "repr()"])
p("C33", "npz and mat files are written only by save()",
  "For the npz and mat backends, changes to the data of a storage reach the file only through save() (or closing a PseudoStorage); without it the file keeps the state of the last save, and creating a storage, changing values and loading write no file at all. (The hdf5 backend keeps its file open and works on it directly; it is excluded.)",
  "programs histories", "all operations other than save on the npz and mat backends",
  "tests always save before they look at the file",
  "dsch/backends/npz.py dsch/backends/mat.py dsch/backends/hdf5.py dsch/storage.py", [("who-may-write: persistence primitives only under save", "dsch/backends/*.py")], observe=["file before save()"])
p("C34", "HDF5 arrays are resizable within the schema's shape limits",
  "In the HDF5 backend an Array is stored with the schema's dtype and can be resized exactly as far as its maximum shape allows: without maximum shape in all dimensions without limit, with equal minimum and maximum shape not at all. Indexing, slicing and resizing an Array node act on the stored array, in every backend.",
  "inputs configurations", "all shape limits and dimensionalities",
  "tests resize one unconstrained one-dimensional array",
  "dsch/backends/hdf5.py dsch/data.py", [("maxshape selection", "dsch/backends/hdf5.py Array.replace"), ("item access", "dsch/data.py Array.__getitem__/__setitem__/resize")], observe=["node[...]", "resize()"])
p("C35", "Every dsch error is a DschError whose text names what it is about",
  "Every error class of dsch derives from DschError, and rendering an error as text never fails. The text shows what the error is about: the path for a failed backend detection, the required and the actual schema hash for a refused schema, the two schema hashes for incompatible nodes, the field name or the list index for an attempt to overwrite a sub-node, and message, violated constraint and actual value for a failed validation, where the attributes message, expected and got hold just these.",
  "inputs configurations", "every error the public operations raise, every constraint of every node type, every backend",
  "tests look at exception types only, and at the attributes of two errors",
  "dsch/exceptions.py dsch/schema.py dsch/frontend.py dsch/data.py", [("error constructors and __str__", "dsch/exceptions.py"), ("arguments at the raise sites", "dsch/schema.py validate methods, dsch/frontend.py, dsch/data.py")], observe=["exceptions", "str(exception)"])
p("C36", "Saving is repeatable, leaves memory as it is, and each save stores the current state",
  "In every file backend save() - accepted, refused or forced, the first one or a later one - leaves the data, the schema, the path and the nodes of the storage in memory as they are. A storage can be changed and saved again any number of times, also after a refused save and after save_as; each save that succeeds stores exactly the data of that moment in the storage's own file, in-place changes of arrays included, whatever was saved, refused or copied before, and no other storage's data or file is affected.",
  "histories programs", "all sequences of changes, refused and successful saves, every file backend",
  "tests save once and load once",
  "dsch/storage.py dsch/backends/npz.py dsch/backends/mat.py dsch/backends/hdf5.py dsch/frontend.py", [("save/_save and the nodes' save methods", "dsch/storage.py FileStorage.save, dsch/backends/*.py")], observe=["save()", "data after save()", "load()"])
p("C37", "The public listings agree with what exists",
  "dsch offers create, create_from, load and PseudoStorage. backends.available_backends is a tuple that names exactly the backends create() and load() accept explicitly, hdf5, inmem, mat and npz among them, and a storage created or loaded with one of these names is one of that backend; any other backend name is refused without creating anything. dir() of a Compilation node lists every field beside its methods, in every backend and fill state, for created and loaded storages, and every field listed can be accessed.",
  "configurations programs", "all backend names, all Compilations and fill states",
  "tests look at dir() of one Compilation and never at available_backends",
  "dsch/__init__.py dsch/backends/__init__.py dsch/frontend.py dsch/data.py", [("available_backends", "dsch/backends/__init__.py"), ("__dir__", "dsch/data.py Compilation"), ("backend selection", "dsch/frontend.py")], observe=["available_backends", "dir()"])
p("C38", "What the user passes in or gets out stays the user's",
  "No operation of dsch changes a dict, list, array, schema node or data node that it was given as an argument: values for replace, append and assignment, the arguments of schema constructors, the dict given to from_dict or node_from_dict, the alternatives of a PseudoStorage, the source of load_from and create_from. Using the same argument again gives the same result. Changing a dict or list afterwards that was given as a value, as optionals, shape or independent variables, to from_dict or as alternatives, or one that to_dict() returned, does not change any node. (Left open: whether an Array node that is changed in place by index shares the array that was set, and the dict of sub-nodes given to Compilation.)",
  "inputs programs", "all argument values and all operations that follow, every backend",
  "tests use every argument once and never look at it afterwards",
  "dsch/data.py dsch/schema.py dsch/frontend.py dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/mat.py dsch/backends/inmem.py", [("no stores into or retained references to argument containers", "dsch/**")], observe=["arguments after the call"])
p("C39", "A node stays the node: references remain valid",
  "A reference to a data node taken from a storage - the top-level node, a field, a list item - remains that node: setting, replacing, clearing, appending, load_from, validating, inspecting, saving and copying never exchange it, so what is set through the reference is what attribute and item access show and what is saved, and vice versa. (Items of a List that was cleared, replaced or loaded from another one since are no longer part of it.)",
  "programs histories", "all operations between taking and using a reference, every node type, every backend",
  "tests access nodes anew every time",
  "dsch/data.py dsch/backends/hdf5.py dsch/backends/npz.py dsch/backends/mat.py dsch/backends/inmem.py", [("_subnodes is filled once, on construction and append", "dsch/data.py")], observe=["node references", "attribute and item access"])
# ---------------------------------------------------------------- declared, not claimed
p("C40", "A save interrupted at any point leaves the previous file loadable",
  "If the process is killed or the disk fails at any point during save(), the file still loads and contains either the previous or the new state.",
  "crash_points fault_sequences", "every crash point and I/O error during save",
  "tests never interrupt a save",
  "dsch/backends/npz.py dsch/backends/mat.py dsch/backends/hdf5.py", [("numpy.savez / savemat / h5py flush onto the target file itself", "dsch/backends/*.py _save")], observe=["file"])
p("C41", "Numbers survive the storage libraries bit for bit",
  "For every dtype, shape and content, the numeric content of Scalars and Arrays is bit-for-bit the same after saving and loading with each file format.",
  "inputs", "all dtypes, byte orders, shapes, special values (NaN payloads, denormals, empty arrays)",
  "tests use two or three small integers",
  "dsch/backends/npz.py dsch/backends/mat.py dsch/backends/hdf5.py", [("conversions inside numpy, scipy.io and h5py", "third-party code")], observe=["save()", "load()"])
p("C42", "Arbitrary text survives every storage format",
  "Every str value, including embedded and trailing NUL characters, lone surrogates and very long text, is the same after saving and loading in every file backend.",
  "inputs", "all Unicode strings",
  "tests store short ASCII words",
  "dsch/backends/npz.py dsch/backends/mat.py dsch/backends/hdf5.py", [("string encodings of the storage libraries", "third-party code")], observe=["save()", "load()"])
p("C43", "Two processes using one file see consistent data",
  "If several storage objects or processes load and save the same path concurrently, each load yields one of the saved states.",
  "schedules", "all interleavings of loads and saves",
  "tests are single-threaded with one storage per file",
  "dsch/storage.py dsch/backends/npz.py dsch/backends/mat.py dsch/backends/hdf5.py", [("no locking in dsch; h5py file locks", "third-party code")], observe=["file"])
p("C44", "Every legal field name works in every backend",
  "A Compilation field name accepted by the schema is saved and loaded by every file backend, whatever characters it contains and however long it is.",
  "inputs configurations", "all strings as field names",
  "tests use short lower-case words",
  "dsch/backends/npz.py dsch/backends/mat.py dsch/backends/hdf5.py", [("field names become npz keys, MATLAB struct fields and HDF5 link names", "dsch/backends/*.py")], observe=["save()", "load()"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
