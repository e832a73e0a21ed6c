#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and lib/specs.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


T = "python/templates/"
prop("C01", "A collection is a faithful sequence of its objects",
     "After any history of creating, adding, modifying, moving and clearing, a collection of any generated type contains exactly the objects put into it, in order, "
     "each reporting its own position and the collection's ID, and every stored member, vector member and relation reads back what was last written through every accessor "
     "(getters, setters, references, indexed and per-member column access), with unset ones at their declared defaults. "
     "Out-of-range checked access and adding an object that already belongs to a collection are refused with an error and change nothing.",
     ["histories", "inputs"], "all operation histories over collections of every generated type and all member values",
     "The unit tests that exercise generated C++ classes use a handful of fixed objects (and need ROOT, so most do not run here); no test runs random histories over all member kinds.",
     [T + "Collection.cc.jinja2", T + "CollectionData.cc.jinja2", T + "macros/implementations.jinja2", T + "Obj.cc.jinja2", T + "Data.h.jinja2"],
     [("element creation, insertion and IDs", T + "Collection.cc.jinja2"), ("member and relation accessors", T + "macros/implementations.jinja2")],
     ["public collection and object API"])
prop("C02", "Handles and collections manage object lifetime without leaks or corruption",
     "For any interleaving of creating, copying, moving, swapping, cloning, unlinking and destroying object handles and collections, also of handles that several threads have to the same object, no freed memory is accessed, nothing is freed twice "
     "and nothing is leaked. Handles are shallow references: every copy sees every modification, an object lives as long as a handle or its collection does, and after moving a collection its objects belong to the new one.",
     ["histories"], "all histories of handle and collection operations that respect the documented ownership rules",
     "Ownership tests are a few fixed scenarios; lifetime defects appear only for particular orders of operations and only under a memory checker.",
     ["include/podio/utilities/MaybeSharedPtr.h", T + "Obj.cc.jinja2", T + "CollectionData.cc.jinja2", T + "Object.cc.jinja2", "include/podio/detail/Link.h", "include/podio/detail/LinkCollectionData.h"],
     [("reference counting with hand-over to collections", "include/podio/utilities/MaybeSharedPtr.h"), ("collection clean-up", T + "CollectionData.cc.jinja2"), ("object destructor", T + "Obj.cc.jinja2")],
     ["address and leak checking of the public API"])
prop("C03", "Cloned objects are complete and independent copies",
     "Cloning any object, mutable or immutable, in memory or read back, yields a new object outside of any collection with equal members and, if relations are requested (the default), "
     "equal vector members and the same related objects; without them relations and vector members are empty. Later changes to either object never affect the other, and the clone can be put into a collection and written like any other object.",
     ["inputs", "histories"], "all objects of all generated types and links, in every state (fresh, stored, persisted, read back, with unset or empty relations)",
     "Existing clone tests use one or two types with fixed contents; slices of relation vectors after reading differ per position.",
     [T + "macros/implementations.jinja2", T + "Obj.cc.jinja2", "include/podio/detail/Link.h", "include/podio/detail/LinkObj.h"],
     [("clone", T + "macros/implementations.jinja2"), ("object copy", T + "Obj.cc.jinja2"), ("link clone", "include/podio/detail/Link.h")])
prop("C04", "Writing and reading back preserves a frame's whole content",
     "Whatever set of collections (of generated types, subset, link and user-data collections) and parameters is put into a frame, extracting its write buffers, storing them and building a frame from them again yields the same "
     "collections with the same names, types, IDs, members, vector members, relations (including interface and cyclic ones) and subset contents, in whatever order they are then accessed. Relations to collections that were not stored come back as unavailable, everything else stays intact.",
     ["inputs", "histories", "configurations"], "all contents, sets of stored collections, and access orders; repeated write/read generations",
     "I/O tests need a ROOT or SIO backend and check one fixed event layout; they cannot sample relation graphs, empty slices or access orders.",
     [T + "CollectionData.cc.jinja2", T + "macros/collections.jinja2", T + "Collection.cc.jinja2", "include/podio/Frame.h", "include/podio/detail/RelationIOHelpers.h", "include/podio/detail/LinkCollectionData.h", "src/CollectionBufferFactory.cc", "src/UserDataCollection.cc"],
     [("flattening relations and vectors for writing", T + "macros/collections.jinja2"), ("restoring objects and references", T + "CollectionData.cc.jinja2"), ("lazy unpacking", "include/podio/Frame.h")],
     ["collection write/read buffers and frame API"])
prop("C05", "Preparing for writing is repeatable, harmless and fails cleanly",
     "Preparing a collection for writing any number of times, also from several writers at once, produces one consistent set of buffers describing its content and changes nothing a reader of the collection can observe. "
     "If it is refused because a to-many relation points to an object outside of any collection, the error is reported, the collection stays as it was, and preparing it again once the object has been stored gives the same buffers as if the failure had not happened.",
     ["histories", "schedules", "fault_sequences"], "all contents, all numbers and interleavings of prepare and read operations, and refused attempts",
     "Existing tests write each collection once from one thread, and the failure path is never retried.",
     [T + "Collection.cc.jinja2", T + "CollectionData.cc.jinja2", T + "macros/collections.jinja2", "include/podio/detail/LinkCollectionImpl.h", "include/podio/Frame.h"],
     [("prepared flag and lock", T + "Collection.cc.jinja2"), ("buffer filling", T + "CollectionData.cc.jinja2")])
prop("C06", "Subset collections refer to, and never own or alter, their objects",
     "A subset collection of any type holds references to objects owned by other collections: its elements are those very objects with their original IDs, in the order they were added, duplicates included; clearing, moving, identifying or destroying it leaves the originals untouched, and stored and read back together with them it refers to them again. "
     "Objects without an owning collection, creating elements, adding immutable objects to an ordinary collection, and turning a non-empty collection into the other kind are each refused with an error and no effect; an empty collection can be turned into either kind and is then fully usable.",
     ["histories", "inputs"], "all histories of operations on subset and ordinary collections of all types",
     "Tests have one or two fixed subset collections; kinds of refusals and switching back and forth are hardly sampled.",
     [T + "Collection.cc.jinja2", T + "CollectionData.cc.jinja2", "include/podio/detail/LinkCollectionImpl.h", "include/podio/detail/LinkCollectionData.h"],
     [("subset handling in insertion", T + "Collection.cc.jinja2"), ("switching the storage", T + "CollectionData.cc.jinja2")])
prop("C07", "A frame is a write-once store of named collections",
     "After any history of putting and getting, a frame returns for each name exactly the collection put (or read) under it, at a stable address, with a known ID, a name that can be looked up from the collection and an entry in the list of available collections, which has no duplicates. "
     "Putting under a name already in use is refused with an error and changes nothing, unknown names give a null pointer, typed access with a wrong type or unknown name is an error, moving the frame preserves everything, and several threads may put and get at once.",
     ["histories", "inputs", "schedules"], "all histories of put/get/list/move, also from several threads, over fresh and read-back frames with arbitrary names and types",
     "Frame tests use fixed names and a fixed sequence; mixing lazily unpacked with newly put collections is hardly exercised.",
     ["include/podio/Frame.h", "src/CollectionIDTable.cc"],
     [("collection map and lazy unpacking", "include/podio/Frame.h"), ("name to ID table", "src/CollectionIDTable.cc")])
prop("C08", "Generic parameters behave like typed maps from keys to values",
     "For any history of setting, getting, copying, moving and bulk loading, each of the supported value types has its own independent map from keys to values: reading returns exactly the last value set under that key and type (single values are lists of one), missing keys give nothing, "
     "and listed keys and key-value pairs are exactly the stored ones. Copies are independent, and this also holds through a frame's parameter interface and for parallel readers and writers.",
     ["histories", "inputs", "schedules"], "all operation histories, keys and values of all supported types",
     "Parameter tests use a few fixed keys; histories, arbitrary bytes in strings and concurrent use are not sampled.",
     ["include/podio/GenericParameters.h", "src/GenericParameters.cc", "include/podio/Frame.h"],
     [("typed multimaps with locks", "include/podio/GenericParameters.h")])
prop("C09", "Frames can be read from several threads at once",
     "Any number of threads may get collections, resolve relations, look up names, list collections and read parameters of the same frame at the same time, whether or not the content has been unpacked before. "
     "There is no data race or deadlock, every thread sees the same complete objects, and each sees exactly what a single thread would.",
     ["schedules", "inputs"], "all interleavings of concurrent const accesses to a lazily unpacked frame, and all contents",
     "The multi-threaded unit tests use fixed contents and few interleavings without a backend here; races in lazy unpacking depend on relation shapes and timing.",
     ["include/podio/Frame.h", "src/CollectionIDTable.cc", "include/podio/GenericParameters.h"],
     [("locks around map and raw data", "include/podio/Frame.h"), ("locked ID table", "src/CollectionIDTable.cc")])
prop("C10", "The collection ID table maps names and IDs one-to-one and stably",
     "For any sequence of additions, adding a name yields an ID that depends only on the name (the same in every table, process and order), repeated additions change nothing, and every known name and ID can be looked up from each other while unknown ones give nothing. "
     "Tables built from stored names and IDs keep exactly these, and list names and IDs in matching order of addition.",
     ["histories", "inputs"], "all histories and names, including concurrent lookups and additions",
     "The tests check two or three fixed names.",
     ["src/CollectionIDTable.cc", "include/podio/CollectionIDTable.h", "src/MurmurHash3.cpp"],
     [("hash of the name", "src/CollectionIDTable.cc")])
prop("C11", "Collections are random-access ranges",
     "Iterators of every collection kind, mutable and immutable, forward and reverse, obey the laws of random-access iteration: any walk of increments, jumps, differences, comparisons, subscripts and dereferences agrees with indexing the collection, and standard algorithms and views give the same results as on a plain vector of its elements. "
     "Building a collection from a range of mutable objects takes them over in order as an ordinary collection, and from a range of immutable objects gives a subset collection of them.",
     ["inputs", "histories"], "all collection contents and iterator walks, all generated types, links and user-data collections",
     "Iterator tests check concepts and fixed positions.",
     [T + "macros/iterator.jinja2", "include/podio/detail/LinkCollectionIterator.h", T + "Collection.h.jinja2", "include/podio/UserDataCollection.h", "include/podio/RelationRange.h"],
     [("generated iterators", T + "macros/iterator.jinja2"), ("construction from a range", T + "Collection.h.jinja2")])
prop("C12", "Links store weight and both ends faithfully",
     "A link of any declared pair of types returns exactly the weight (1 by default) and the two objects set on it, whichever way they were set (by name, by type, by position), in any order and for interface ends and for links between equal types. "
     "Links follow the same rules for copying, cloning, collections, conversion to immutable, equality and persistence as other objects, and link collections of types that do not occur in any data model keep working in memory.",
     ["inputs", "histories"], "all links, link collections and histories",
     "Link tests use fixed types and values.",
     ["include/podio/detail/Link.h", "include/podio/detail/LinkObj.h", "include/podio/detail/LinkCollectionImpl.h", "include/podio/detail/LinkCollectionData.h", "include/podio/LinkCollection.h"],
     [("typed accessors", "include/podio/detail/Link.h"), ("collection", "include/podio/detail/LinkCollectionImpl.h")])
prop("C13", "Link navigation returns exactly the linked objects and weights",
     "For any collection of links and any object, looking up from either side returns exactly one entry per link that has that object on that side, each with the object on the other side and the link's weight, and nothing for other objects. "
     "This includes links between objects of the same type, several links between the same pair, interface ends and unset ends.",
     ["inputs"], "all link collections (bipartite and same-type), duplicates and unset ends, and all query objects",
     "The navigator tests use fixed small graphs.",
     ["include/podio/LinkNavigator.h"], [("hash multimaps built from the links", "include/podio/LinkNavigator.h")])
prop("C14", "Interface values are transparent references to their concrete object",
     "An interface value made from an object of any of its types reports exactly that type, gives access to the same members as the object itself, can be converted back to exactly that type and to no other (an error otherwise), and compares equal, unequal, hashes and orders consistently with the object it holds and with other interface values and concrete objects. "
     "Empty and default interface values are unavailable, and copies, assignments and swaps refer to the same object.",
     ["inputs", "histories"], "all interfaced types, object states and combinations of interface values",
     "Interface tests use one interface with two types and fixed values.",
     [T + "Interface.h.jinja2", "include/podio/utilities/TypeHelpers.h"], [("type-erased model", T + "Interface.h.jinja2")])
prop("C15", "Equality, ordering and hashing of handles follow object identity",
     "Two handles, mutable or not, are equal if and only if they refer to the same object; equality is an equivalence, inequality is its negation, ordering is a strict weak order consistent with equality, equal handles have equal hashes, and handles keep their place in ordered and unordered containers. "
     "Object IDs are equal exactly when index and collection are, with matching hashes, and all this holds for copies, clones, subset elements, related objects, unavailable handles and links.",
     ["inputs", "histories"], "all pairs and triples of handles obtained in any way, and all object IDs",
     "Tests compare a few fixed handles.",
     [T + "Object.h.jinja2", T + "MutableObject.h.jinja2", "include/podio/ObjectID.h", "include/podio/detail/OrderKey.h", "include/podio/detail/Link.h", "include/podio/utilities/MaybeSharedPtr.h"],
     [("pointer identity", "include/podio/utilities/MaybeSharedPtr.h"), ("order key", "include/podio/detail/OrderKey.h")])
prop("C16", "Buffer creation and schema evolution dispatch on type and version",
     "For any registration history, reading a type at a version runs the evolution registered for exactly that type and version exactly once (none at the current version, user-provided ones taking precedence over automatic ones), and buffers for a type and version come from the creation function registered for that version, or for the next later registered one. "
     "Unknown types or versions never invoke another type's functions, never crash, and lose no data; every type of a loaded data model can be created at all versions up to its current one.",
     ["histories", "inputs"], "all registration orders, versions and lookups",
     "Registry tests register two or three functions in the expected order.",
     ["src/SchemaEvolution.cc", "src/CollectionBufferFactory.cc", "include/podio/SchemaEvolution.h", "include/podio/CollectionBufferFactory.h", "include/podio/CollectionBuffers.h"],
     [("version-indexed tables", "src/SchemaEvolution.cc"), ("version-indexed creation functions", "src/CollectionBufferFactory.cc")])
prop("C17", "User-data collections behave like vectors of their value type",
     "For every supported arithmetic type, a user-data collection agrees with a plain vector under any history of create, push, resize, element and whole-vector modification, clearing, moving and construction from vectors and ranges, in every way of reading it. "
     "It keeps its values bit-exactly when written and read back, and its type names identify its value type.",
     ["histories", "inputs"], "all histories and bit patterns for all supported types",
     "Tests sample a few values for one or two types.",
     ["include/podio/UserDataCollection.h", "src/UserDataCollection.cc"], [("vector wrapper", "include/podio/UserDataCollection.h"), ("buffer creation", "src/UserDataCollection.cc")])
prop("C18", "JSON output is complete, well-formed and mirrors the content",
     "The JSON form of any object or collection contains every member, component member, vector member and relation under its own name with the stored value, to-one relations as the ID of the related object and to-many relations as the list of IDs, and links with weight and both ends; a collection is an array of its elements in order, or of their IDs only for subset collections. "
     "Numbers survive parsing the text again.",
     ["inputs"], "all object and collection contents of all types",
     "The JSON test prints one fixed event.",
     [T + "macros/implementations.jinja2", T + "Collection.cc.jinja2", T + "Component.cc.jinja2", "include/podio/ObjectID.h", "include/podio/detail/Link.h", "include/podio/detail/LinkCollectionImpl.h"],
     [("JSON conversion", T + "macros/implementations.jinja2")])
prop("C19", "Printing any object or collection is safe and leaves the stream unchanged",
     "Printing an object, component, interface value, link or collection in any state (unset, empty or unavailable relations, cyclic references, empty collections, subset and read-back ones) terminates without error, shows every member with its value and the IDs of related objects, and prints unavailable objects as such. "
     "The formatting state of the output stream is the same afterwards as before, whatever it was.",
     ["inputs", "histories"], "all contents and stream states, all printable types",
     "One test checks one type's output operator with one set of flags.",
     [T + "macros/implementations.jinja2", T + "macros/collections.jinja2", T + "Component.h.jinja2", T + "Interface.h.jinja2", "include/podio/ObjectID.h", "include/podio/detail/Link.h", "include/podio/UserDataCollection.h"],
     [("stream operators", T + "macros/collections.jinja2")])
prop("C20", "Versions encode, decode, compare and parse losslessly",
     "For every version triple, encoding to a single number and decoding gives the triple back, the order of versions is lexicographic and agrees with the order of encodings, equality is component-wise, and the text form is the three numbers separated by dots. "
     "The Python parser turns the text, the numbers or a version object back into the same version, with missing trailing parts zero.",
     ["inputs"], "all version triples in range and their textual forms",
     "The version test checks a handful of triples.",
     ["podioVersion.in.h", "python/podio/version.py"], [("encoding and comparison", "podioVersion.in.h"), ("parser", "python/podio/version.py")])
prop("C21", "Pattern matching and lookup utilities agree with their plain definitions",
     "Expanding a path pattern gives exactly the existing files that match it by the standard wildcard, brace and home directory rules, a path without wildcards is returned as it is, a pattern without matches is an error, and exactly the texts with unescaped wildcards are recognised as patterns. "
     "Text splitting, case-insensitive sorting, string-keyed lookups, compile-time string concatenation, range conversion and type-list helpers give the same results as their obvious counterparts.",
     ["inputs"], "all directories and patterns, texts, keys and type lists",
     "The glob tests use a fixed table of patterns; the other helpers are tested for two or three values.",
     ["src/Glob.cc", "include/podio/utilities/Glob.h", "include/podio/utilities/StringKeyMap.h", "include/podio/utilities/StaticConcatenate.h", "include/podio/utilities/TypeHelpers.h", "include/podio/utilities/MiscHelpers.h"],
     [("wildcard expansion", "src/Glob.cc"), ("heterogeneous lookup", "include/podio/utilities/StringKeyMap.h")])
prop("C22", "Every loaded data model is registered with its definition, names and version",
     "For any set of data models, each generated datatype leads to the registry entry of its own model, from which its name, version and full definition can be retrieved, and each type's relation and vector member names in the order of its buffers (one-to-many relations before one-to-one relations); models without an entry give the documented empty answers, and registering a model again does not disturb the existing entries. "
     "The definitions collected while writing and handed out when reading are exactly those of the models whose collections were written.",
     ["configurations", "inputs", "histories"], "all data models, registration orders and sets of written collections",
     "Tests look up one fixed model.",
     ["src/DatamodelRegistry.cc", "src/DatamodelRegistryIOHelpers.cc", "include/podio/DatamodelRegistry.h", "include/podio/utilities/DatamodelRegistryIOHelpers.h", T + "DatamodelDefinition.h.jinja2", T + "datamodel.h.jinja2"],
     [("registry", "src/DatamodelRegistry.cc"), ("embedding", T + "DatamodelDefinition.h.jinja2")])

prop("C23", "SIO files give back the frames that were written, by category and position",
     "For any sequence of frames written to any categories of an SIO file, in full or only in part, the file lists exactly these categories with their numbers of entries, and reading - next or by index, in any order, limited to some collections or not, with one reader for several files after each other - gives the same collections (objects, relations, vector members, links, subsets, user data) and parameters, and the same after writing what was read again. "
     "Beyond the last entry and for unknown categories there is nothing to read, and asking to write or read collections that are not there is an error that spoils nothing. "
     "The file tells the version of podio and the definitions and versions of exactly the data models whose collections it has; files from before frames read as one category of events.",
     ["inputs", "histories"], "all sequences of written frames and of reads", "Tests write one example file, if SIO is enabled at all.",
     ["src/SIOWriter.cc", "src/SIOReader.cc", "src/SIOLegacyReader.cc", "src/SIOFrameData.cc", "src/SIOBlock.cc", "src/sioUtils.h", "include/podio/SIOBlock.h", "include/podio/SIOBlockUserData.h", "include/podio/detail/LinkSIOBlock.h", T + "SIOBlock.cc.jinja2", T + "SIOBlock.h.jinja2"],
     [("writing", "src/SIOWriter.cc"), ("reading", "src/SIOReader.cc"), ("unpacking", "src/SIOFrameData.cc"), ("blocks", T + "SIOBlock.cc.jinja2")])
prop("C24", "The generic reader and writer use and behave like the documented backend",
     "For any file name, type argument and environment, makeWriter and makeReader use the documented backend for it (by suffix, type, PODIO_DEFAULT_WRITE_RNTUPLE and the content of the file), open all files of a pattern or list in order, and refuse unknown suffixes, files of different kinds, several SIO files and no files at all. "
     "Whatever is written through a Writer, moved or not, is finished exactly once and comes back through a Reader frame by frame - next or by index, for events or any category, limited or not - with the counts, categories, versions and data models of the backend, and reading anything that is not there throws.",
     ["inputs", "histories", "configurations"], "all files, environments and sequences of calls", "Tests need a backend that is not built here, and use one file each.",
     ["src/Reader.cc", "src/Writer.cc", "include/podio/Reader.h", "include/podio/Writer.h", "src/Glob.cc"],
     [("choice of the reader", "src/Reader.cc"), ("choice of the writer", "src/Writer.cc"), ("forwarding", "include/podio/Reader.h")])

prop("C25", "podio-dump shows exactly the requested frames of a file, or refuses",
     "For any file and command line, podio-dump names the file, its version, its data models with their versions and all categories with their numbers of entries, and then shows the requested entries of the category - one, a list, an inclusive range or all, in this order - with every collection (type, size, ID, subset or not) and every parameter, or with their full content, or prints the stored definition of a data model as it is. "
     "Entries that are not in the file, unknown models, malformed lists and wrong options end with an exit code other than 0 and a message.",
     ["inputs", "configurations"], "all files and command lines", "Tests only look at whether the tool runs.",
     ["tools/src/podio-dump-tool.cpp", "tools/src/tabulate.h", "tools/src/argparseUtils.h"],
     [("command line", "tools/src/podio-dump-tool.cpp"), ("tables", "tools/src/tabulate.h")])

prop("C26", "The Python layer and file tools keep their documented promises",
     "For any file and sequence of calls, podio's Python Frame gives back collections, names and parameters as they were put (single values as such, lists as lists, types chosen as documented), readers chosen by get_reader give the frames of a category like a sequence (iteration, length, negative indices, IndexError, selection of collections) and writers write what they are given and are finished at the latest at the end of the program; navigators, checked indexing and path helpers follow their descriptions. "
     "podio-merge-files and podio-ttree-to-rntuple keep every frame of every category of all inputs in order and treat metadata as requested, podio-dump forwards its arguments, and KeyError, ValueError, IndexError or an exit code other than 0 answer everything that is not there or not allowed.",
     ["inputs", "histories", "configurations"], "all files, calls and command lines", "Tests of the Python layer need ROOT and look at one file.",
     ["python/podio/frame.py", "python/podio/frame_iterator.py", "python/podio/base_reader.py", "python/podio/base_writer.py", "python/podio/reading.py", "python/podio/root_merge.py", "tools/podio-merge-files", "tools/podio-dump"],
     [("frames", "python/podio/frame.py"), ("navigators", "python/podio/link_navigator.py"), ("checked indexing", "python/podio/pythonizations/collection_subscript.py"), ("sequences of frames", "python/podio/frame_iterator.py"), ("choice of readers", "python/podio/reading.py"), ("merging", "python/podio/root_merge.py")])

prop("G01", "Member definitions are parsed exactly or rejected",
     "Every well-formed member definition (any built-in, fixed-width, array or user type, name, default value, unit, and description, with any legal spacing) is parsed into exactly those parts, and writing the parsed member out and parsing it again gives the same member. "
     "Malformed definitions are rejected with the definition error that names the problem, never silently misread or a crash.",
     ["inputs"], "all strings accepted or rejected as member and relation definitions",
     "The parser tests use a fixed table of strings.",
     ["python/podio_gen/podio_config_reader.py", "python/podio_gen/generator_utils.py"], [("regular expressions", "python/podio_gen/podio_config_reader.py"), ("member representation", "python/podio_gen/generator_utils.py")])
prop("G02", "Data models are accepted if and only if they obey the documented rules",
     "Reading any data model definition either succeeds, exactly when all documented rules hold (a positive integer schema version, required and allowed keys, declared types for members, vector members, relations, interfaces and links, no name for two types or for two members, relations or exposed component members of one type), or fails with a definition error; it never fails in another way and never accepts a definition that breaks one of these rules. "
     "Accepted definitions come out complete: every type, member, option and piece of extra code as written.",
     ["inputs", "programs"], "all data model definitions, valid ones and ones broken in one place",
     "The validator tests mutate one fixed model in a few ways.",
     ["python/podio_gen/podio_config_reader.py", "python/podio_gen/generator_utils.py"], [("validator", "python/podio_gen/podio_config_reader.py")])
prop("G03", "The embedded definition reproduces the data model",
     "The definition text embedded into generated code for any valid data model is itself a valid definition; reading it gives a model equal to the original in every type, member (with default and description), relation, interface, link, option and schema version, and generating code from it yields the same code. "
     "Embedding it a second time gives the same text.",
     ["inputs", "programs"], "all valid data models", "The encoder test covers one fixed component and type.",
     ["python/podio_gen/generator_utils.py", "python/podio_gen/podio_config_reader.py", "python/podio_gen/cpp_generator.py", T + "DatamodelDefinition.h.jinja2"],
     [("JSON encoding of the model", "python/podio_gen/generator_utils.py")])
prop("G04", "Code generated for any valid data model compiles and behaves as declared",
     "For every valid data model and combination of generator options, the generated C++ sources compile and link, and the resulting types have the declared members, defaults, relations, vector members, accessor names and namespaces, behave as collections and persist like the types of any other model.",
     ["programs", "configurations"], "all valid data models and option combinations",
     "The build compiles a few fixed models.",
     ["python/podio_gen/cpp_generator.py", "python/podio_gen/generator_base.py", "python/podio_gen/generator_utils.py", T], [("templates and preprocessing", "python/podio_gen/cpp_generator.py")])
prop("G05", "Code generation is deterministic and touches only what changed",
     "Generating twice from the same definition, in any directory, process or hash seed, gives identical files and an identical file list; the second run into the same directory rewrites none of them, a changed definition rewrites exactly the generated files whose content changes, and a dry run writes nothing at all. "
     "The file list for the build system names exactly the generated headers and sources.",
     ["inputs", "histories", "configurations"], "all data models, options and sequences of generator runs",
     "No test runs the generator twice.",
     ["python/podio_gen/generator_base.py", "python/podio_gen/cpp_generator.py", "python/podio_class_generator.py"], [("write if changed", "python/podio_gen/generator_base.py")])
prop("G06", "Schema comparison reports exactly the differences between two versions",
     "Comparing two versions of a data model reports exactly the added, dropped, renamed and changed types, members, relations and vector members, nothing for equal ones, and adding and dropping swap when the versions are swapped. "
     "Changes that cannot be read back automatically (added or dropped vector members and relations, members that become or cease to be arrays or components, components of another kind) are reported as errors, and possible renames as warnings unless an evolution file resolves them; evolution files with unknown or incomplete instructions are refused.",
     ["inputs", "programs"], "all pairs of valid models and all evolution files for them",
     "The comparison tests use a fixed table of pairs.",
     ["python/podio_gen/schema_evolution.py", "python/podio_schema_evolution.py", "python/podio_gen/podio_config_reader.py"], [("comparator and judge", "python/podio_gen/schema_evolution.py")])
prop("G07", "Code for evolved models keeps old versions readable",
     "For any data model and older versions of it whose differences are allowed, the generator produces code that compiles, keeps the exact member layout of every component and (still existing or renamed) data type of every older version under that version's namespace, and accepts buffers of every version up to the current one, with renamed data types read as their new type. "
     "The read rules name the old and new member, type and version for each renamed member and type and for nothing else, and differences that cannot be read back make the generator stop without writing code.",
     ["programs", "inputs"], "all sequences of one or two older versions and a current one, with and without an upstream model and an evolution file",
     "Fixed pairs of versions are built, and most of these tests need ROOT.",
     ["python/podio_gen/cpp_generator.py", "python/podio_schema_evolution.py", "python/podio_gen/generator_utils.py", T + "Data.h.jinja2", T + "Component.h.jinja2", T + "Collection.cc.jinja2", T + "selection.xml.jinja2"], [("preprocessing of schema evolution", "python/podio_gen/cpp_generator.py"), ("old layouts", T + "Component.h.jinja2")])
prop("G08", "Dictionary selections list every generated class exactly once",
     "For every data model, the generated dictionary selection is a well-formed selection file and names every component and data type of the model (value, object, mutable object, collection and storage classes, their vectors, and those under the names of the current and all given older versions) with its namespace and class version exactly once, and nothing of another model.",
     ["inputs", "programs"], "all valid data models, with and without upstream models and older versions", "Only one fixed selection is used in builds.",
     [T + "selection.xml.jinja2", "python/podio_gen/cpp_generator.py"], [("template", T + "selection.xml.jinja2")])
prop("G09", "The model visualiser draws exactly the model's types and relations",
     "For every valid data model (also one that extends another), the graph that is written has one node per data type, labelled with its name, and one edge from a type to the target of each of its relations, in the colour that the legend gives for one-to-one and one-to-many relations. "
     "A data type that is called an association and has two one-to-one relations is drawn as a labelled two-way edge between their targets instead, configured groups contain the nodes of their types, types to be removed are left out with all relations to them, and there is nothing else. "
     "The file name, format and dot-only options decide what is written.",
     ["inputs", "programs"], "all valid data models and option combinations", "The test only checks that it runs on fixed models.",
     ["tools/podio-vis"], [("graph builder", "tools/podio-vis")])
prop("G10", "Generated Julia code mirrors the data model",
     "For every valid data model, the Julia output defines every component and data type once, with exactly the declared fields and Julia types in order, referenced types defined or imported before use, and a module that includes them all.",
     ["inputs", "programs"], "all valid data models", "Julia is tested on one fixed model, and not at all here.",
     ["python/podio_gen/julia_generator.py", T + "MutableStruct.jl.jinja2", T + "ParentModule.jl.jinja2"], [("Julia generator", "python/podio_gen/julia_generator.py")])
prop("G11", "Extending an upstream data model uses its types without redefining them",
     "For every model that extends another, types of the upstream model can be used as members, relations, interface types and link ends, code is generated only for the model's own types and refers to the upstream ones under their own include path and namespace. "
     "The combination compiles and behaves like a single model.",
     ["programs", "configurations"], "all pairs of models where one extends the other", "One fixed extension model is built.",
     ["python/podio_gen/podio_config_reader.py", "python/podio_gen/generator_utils.py", "python/podio_gen/cpp_generator.py", "python/podio_class_generator.py"],
     [("upstream model handling", "python/podio_gen/generator_utils.py")])


def main():
    import specs
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        s = specs.SPECS.get(p["id"])
        if not s:
            na.append({"property": p["id"], "reason": specs.NOT_APPLICABLE.get(p["id"], "no check has been built for it yet")})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 run.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": s["technique"],
            "level": s.get("level", "exploration"),
            "level_note": s["note"],
        })
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
         "notes": "Every check is run.py; what it runs is in lib/specs.py. Replays: python3 run.py --replay FILE."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for n, obj in (("MANIFEST", m),):
        try:
            import jsonschema
            jsonschema.validate(obj, json.load(open(f"/root/.vp/{n}.schema.json")))
        except ImportError:
            pass
    try:
        import jsonschema
        for p in P:
            jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
            assert p["statement"].count(". ") <= 2, p["id"]
    except ImportError:
        print("jsonschema not available")


main()
