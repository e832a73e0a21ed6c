"""What each property's check consists of."""
import mgen


def vi():
    return mgen.vi_model()


def vig():
    return mgen.vi_model(get=True)


def vm():
    return mgen.vm_model()


def vo():
    return mgen.vo_model()


HYP = "property-based testing: Hypothesis-generated inputs against a constructed expectation or reference model, with shrinking"
PBT = "property-based testing: random choice-sequence cases against a reference model, under ASan/UBSan, with shrinking"
NOT_APPLICABLE = {}
SEARCH = "Random search, no proof: bounded sizes (see the labels and samples in the evidence). Trusts the harness' reference model and clang's sanitizers."

SPECS = {
    "C01": {
        "technique": PBT, "note": SEARCH,
        "rule": "random histories (create, push, free handles, modify, relate, clear, move, assign, iterate, bounds) over collections of seven generated datatypes, "
                "each step compared with a sequence model; non-trivial: several live collections with elements and moved or cleared collections",
        "parts": [{"source": "histories.cc", "model": vm, "props": {"collections_are_faithful_sequences": (5000, 120000)}}],
    },
    "C02": {
        "technique": PBT + " and LeakSanitizer; concurrent part under TSan", "note": SEARCH,
        "rule": "random histories that create, copy, assign, move and drop handles and collections in any order, watched by ASan and a leak check per case, "
                "and threads that copy, move, clone and drop their own handles to shared objects; "
                "non-trivial: handles that outlive a collection or each other",
        "parts": [{"source": "histories.cc", "model": vm, "props": {"handles_and_collections_manage_lifetime": (6000, 150000)}},
                  {"source": "threads.cc", "model": vm, "san": "tsan", "flaky": True, "props": {"handles_to_one_object_in_several_threads": (8000, 150000)}}],
    },
    "C06": {
        "technique": PBT, "note": SEARCH,
        "rule": "random histories around subset collections (fill, clear, move, turn into subset and back, destroy before or after their owners, store); "
                "non-trivial: subset collections with elements",
        "parts": [{"source": "histories.cc", "model": vm, "props": {"subset_collections_only_refer": (4000, 100000)}},
                  {"source": "io.cc", "model": vm, "props": {"subsets_survive_storage": (2000, 50000)}}],
    },
    "C08": {
        "technique": PBT + "; concurrent part under TSan",
        "note": "Random search, no proof: histories of up to a few dozen operations over a small key pool. Trusts the harness' std::map models and clang's sanitizers.",
        "rule": "random histories of set/get/copy/move/clear/load over a small pool of arbitrary keys against four std::map models; "
                "non-trivial: at least two stored entries and an overwrite, a key shared by several types, or a copy",
        "parts": [{"source": "c08_params.cc", "props": {
            "parameters_are_typed_maps": (30000, 300000), "frame_parameters_are_typed_maps": (10000, 80000)}},
            {"source": "c08_params.cc", "key": "c08_params.cc/tsan", "san": "tsan", "flaky": True, "props": {"parameters_concurrent_use": (6000, 100000)}}],
    },
    "C11": {
        "technique": PBT, "note": SEARCH,
        "rule": "random collections and iterator positions; every law of random access iterators is evaluated on random iterators and offsets; "
                "non-trivial: collections with at least three elements",
        "parts": [{"source": "handles.cc", "model": vm, "props": {"iterators_obey_random_access_laws": (4000, 80000)}}],
    },
    "C12": {
        "technique": PBT, "note": SEARCH,
        "rule": "random histories with links between generated types and interfaces, against a model of (from, to, weight); and the same after storage; "
                "non-trivial: links with both ends set and reassigned or stored and read back",
        "parts": [{"source": "links.cc", "model": vm, "props": {"links_store_both_ends": (20000, 400000)}},
                  {"source": "histories.cc", "model": vm, "props": {"links_follow_the_rules_of_objects": (3000, 80000)}},
                  {"source": "io.cc", "model": vm, "props": {"links_survive_storage": (3000, 60000)}}],
    },
    "C13": {
        "technique": PBT, "note": SEARCH,
        "rule": "random link collections (duplicates, missing ends, same type on both ends, interfaces) and queries for linked and unlinked objects, "
                "compared with a multiset model; non-trivial: queried objects with several links",
        "parts": [{"source": "links.cc", "model": vm, "props": {"navigator_returns_exactly_linked": (30000, 600000)}}],
    },
    "C14": {
        "technique": PBT, "note": SEARCH,
        "rule": "random interface values over all implementing types (also in namespaces, also with get syntax): getters, relations, comparison, isA/as, id, storage in "
                "collections; non-trivial: several implementing types at once",
        "parts": [{"source": "iface.cc", "model": vi, "props": {"interface_values_are_transparent": (8000, 150000)}},
                  {"source": "iface.cc", "key": "iface.cc/get", "model": vig, "defines": ("GETSYN",),
                   "props": {"interface_values_are_transparent": (4000, 80000)}}],
    },
    "C15": {
        "technique": PBT, "note": SEARCH,
        "rule": "random pools of handles to shared and distinct objects with equal contents; all pairs are compared with the identity the model knows; "
                "non-trivial: several handles to one object and distinct objects with equal content",
        "parts": [{"source": "handles.cc", "model": vm, "props": {"equality_follows_identity": (20000, 400000),
                                                                  "object_ids_compare_by_value": (100000, 2000000)}}],
    },
    "C17": {
        "technique": PBT, "note": SEARCH,
        "rule": "random histories over user data collections of all supported types against std::vector, including storing and reading back; "
                "non-trivial: histories with several elements and a prepare/read-back, move or assignment",
        "parts": [{"source": "userdata.cc", "props": {"user_data_behaves_like_a_vector": (10000, 200000)}}],
    },
    "C03": {
        "technique": PBT, "note": SEARCH,
        "rule": "random objects and links in every state (new, stored, prepared, read back, empty or unset relations) are cloned with and without relations; clone and original are compared and then changed "
                "independently; non-trivial: clones of objects with relations or vector members",
        "parts": [{"source": "clones.cc", "model": vm, "props": {"clones_are_complete_and_independent": (1500, 40000)}}],
    },
    "C04": {
        "technique": PBT, "note": SEARCH,
        "rule": "random frames (all types, subsets, links, user data, parameters) are written in random subsets and orders, read back, accessed in random order and written again; everything is compared with a model; "
                "non-trivial: several stored collections with relations between them",
        "parts": [{"source": "io.cc", "model": vm, "props": {"frames_survive_storage": (1000, 25000)}},
                  {"source": "frame.cc", "model": vm, "props": {}}],
    },
    "C05": {
        "technique": PBT + "; concurrent part under TSan", "note": SEARCH + " Concurrent calls of the non-const getBuffers are out of scope, prepareForWrite is const and documented as thread safe.",
        "rule": "random contents are prepared repeatedly, also after refused attempts and clearing, and from several threads; buffers are compared with those of a first-time preparation and the content with the model; "
                "non-trivial: repeated or refused preparations of non-empty collections",
        "parts": [{"source": "io.cc", "model": vm, "props": {"preparing_is_repeatable_and_harmless": (1200, 30000), "collections_can_be_prepared_after_clearing": (1500, 30000)}},
                  {"source": "threads.cc", "model": vm, "san": "tsan", "flaky": True, "props": {"preparing_from_several_threads": (6000, 100000)}}],
    },
    "C07": {
        "technique": PBT + "; concurrent part under TSan", "note": SEARCH,
        "rule": "random histories of put/get/list/move on new and read-back frames against a map model, and puts and gets from several threads; non-trivial: histories with refused puts and lazily unpacked collections",
        "parts": [{"source": "frame.cc", "model": vm, "props": {"frame_is_a_write_once_store": (4000, 80000), "relations_do_not_refer_to_replaced_collections": (50, 200)}},
                  {"source": "threads.cc", "model": vm, "san": "tsan", "flaky": True, "props": {"several_threads_put_into_a_frame": (6000, 100000)}}],
    },
    "C09": {
        "technique": "property-based testing: random frame contents and per-thread access plans run concurrently under ThreadSanitizer, results compared with a sequential model",
        "note": SEARCH + " Schedules are those the machine produces; ThreadSanitizer finds unordered conflicting accesses in them.",
        "rule": "random frame contents, written and read back; two to four threads with random access plans over the same frame; non-trivial: at least two threads unpack related collections",
        "parts": [{"source": "threads.cc", "model": vm, "san": "tsan", "flaky": True, "props": {"frames_can_be_read_from_several_threads": (8000, 150000)}}],
    },
    "C10": {
        "technique": PBT + "; concurrent part under TSan", "note": SEARCH,
        "rule": "random histories of add/lookup/move/store over pools of arbitrary names in several tables against a list model, also against another process and with several threads; "
                "non-trivial: tables with several names and repeated additions",
        "parts": [{"source": "utils.cc", "props": {"id_tables_map_both_ways": (40000, 500000)}},
                  {"source": "utils.cc", "key": "utils.cc/tsan", "san": "tsan", "flaky": True, "props": {"id_tables_can_be_shared_by_threads": (10000, 200000)}}],
    },
    "C21": {
        "technique": PBT, "note": SEARCH,
        "rule": "random directories and wildcard patterns with braces, texts to split and sort, string-keyed maps against std::map, pseudo-random type lists and texts at compile time; "
                "non-trivial: patterns that match some files; several parts; lookups that hit",
        "parts": [{"source": "utils.cc", "props": {"path_patterns_expand_to_the_matching_files": (20000, 300000), "escaped_wildcards_are_no_pattern": (20000, 200000),
                                                   "text_helpers_agree_with_plain_ones": (40000, 400000), "string_key_maps_are_maps": (20000, 300000),
                                                   "type_lists_and_compile_time_texts": (1, 1), "ranges_become_vectors": (10000, 100000)}}],
    },
    "C16": {
        "technique": PBT + "; concurrent part under TSan", "note": SEARCH + " Evolution code generated for old versions is checked by G07.",
        "rule": "random registration orders, versions, priorities and lookups for several similarly named types against a table of what has to run, with buffers that count their deletions; every type of two data models at every version; "
                "non-trivial: several evolutions among several registered versions, creations and refusals",
        "parts": [{"source": "registry.cc", "props": {"buffers_have_one_owner": (60000, 1000000), "evolution_dispatches_on_type_and_version": (40000, 600000),
                                                      "buffers_are_created_for_type_and_version": (40000, 600000)}},
                  {"source": "registry.cc", "key": "registry.cc/tsan", "san": "tsan", "flaky": True, "props": {"registered_functions_run_on_several_threads": (8000, 100000)}},
                  {"source": "registry.cc", "key": "registry.cc/vm", "model": vm, "defines": ("WITH_MODEL",), "props": {"types_can_be_created_at_all_their_versions": (20000, 200000)}},
                  {"source": "registry.cc", "key": "registry.cc/vo", "model": vo, "defines": ("WITH_MODEL",), "props": {"types_can_be_created_at_all_their_versions": (20000, 200000)}}],
    },
    "C22": {
        "technique": PBT + "; generated data models by Hypothesis", "note": SEARCH,
        "rule": "random histories of registering and looking up data models against lists of what was registered, definitions collected for random collections, and random sets of generated data models compiled into one program; "
                "non-trivial: several data models, registered again, with versions",
        "parts": [{"source": "registry.cc", "props": {"data_models_stay_registered_as_they_were": (5000, 20000), "definitions_are_collected_and_handed_out": (20000, 60000)}},
                  {"source": "registry.cc", "key": "registry.cc/vm", "model": vm, "defines": ("WITH_MODEL",), "props": {"types_lead_to_their_data_model": (20000, 200000), "names_and_buffers_are_in_the_same_order": (20000, 200000)}},
                  {"source": "registry.cc", "key": "registry.cc/vo", "model": vo, "defines": ("WITH_MODEL",), "props": {"types_lead_to_their_data_model": (20000, 200000), "names_and_buffers_are_in_the_same_order": (20000, 200000)}},
                  {"script": "registered.py"}],
    },
    "C23": {
        "technique": PBT + "; real backend code on a stand-in for the SIO library", "note": SEARCH + " The SIO library is not installed: podio's SIO sources are compiled against a stand-in (cpp/standin/sio) with the documented record and block semantics, that checks what SIO leaves undefined.",
        "rule": "random files of several categories with random frames (subsets, written twice, rewritten from what was read) and random sequences of reading next, by index, limited, unknown and beyond the end, compared with the frames that were written; files of the time before frames; "
                "non-trivial: frames with several collections read from a later position, several files with one reader",
        "parts": [{"source": "sio.cc", "model": vm, "sio": True, "props": {
            "sio_files_give_back_what_was_written": (800, 16000), "one_sio_reader_opens_files_one_after_another": (300, 8000), "legacy_sio_files_can_be_read": (800, 16000)}}],
    },
    "C24": {
        "technique": PBT + "; backends that live in memory", "note": SEARCH + " ROOT is not installed: the ROOT backends behind the generic classes are in-memory stand-ins (cpp/standin/root), the SIO one is podio's on a stand-in SIO library.",
        "rule": "random file names, backend types, environments and numbers of files; random frames written with the generic Writer and read with random calls of the generic Reader, compared with the frames that were written and with the backend that had to be used; "
                "non-trivial: frames with several collections read from a later position",
        "parts": [{"source": "sio.cc", "key": "sio.cc/generic", "model": vm, "sio": True, "props": {"generic_reader_and_writer_forward_to_backends": (2000, 40000)}}],
    },
    "C25": {
        "technique": PBT + "; the tool's own main function, called in the process", "note": SEARCH + " Files are SIO files on the stand-in SIO library, and memory files that stand in for ROOT ones (cpp/standin).",
        "rule": "random files and random command lines (options in any order and spelling, entries as number, list, range, -1 and texts that are none of them) for podio-dump-tool; exit code and output against the frames that were written and what their collections print; "
                "non-trivial: a frame with several collections is shown",
        "parts": [{"source": "sio.cc", "key": "sio.cc/dump", "model": vm, "sio": True, "defines": ("WITH_DUMP",), "props": {"dump_tool_shows_what_is_in_the_file": (3000, 60000)}}],
    },
    "C26": {
        "technique": PBT + " (Hypothesis); the Python modules and programs on stand-ins for PyROOT and cppyy", "note": "Random search, no proof. ROOT is not installed: what podio's C++ classes do for Python is modelled by py/fakeroot.py, which raises an exception for calls that cppyy would not resolve.",
        "rule": "random histories on Frames; random files of all five kinds with random iteration, indexing and selection; random sets of writers that are finished explicitly or at the end; podio-merge-files, merge_files, podio-ttree-to-rntuple and podio-dump with random files and arguments; "
                "non-trivial: several collections and parameters, positions beyond the first, several files",
        "parts": [{"script": "bindings.py"}],
    },
    "C18": {
        "technique": PBT, "note": SEARCH + " Parses with nlohmann::json. Unavailable objects have no JSON form (their members cannot be read).",
        "rule": "random objects, links and collections (new, in frames, read back with parts missing, subsets) of all types are converted, the text is parsed again and compared with the model in full; "
                "non-trivial: objects with relations and collections with several elements",
        "parts": [{"source": "output.cc", "model": vm, "json": True, "props": {"json_mirrors_the_content": (6000, 120000), "user_data_becomes_json_numbers": (20000, 400000)}},
                  {"source": "output.cc", "key": "output.cc/cycles", "model": vo, "json": True, "props": {"json_mirrors_the_content": (3000, 60000)}}],
    },
    "C19": {
        "technique": PBT, "note": SEARCH + " Output is compared word by word, spaces and bars only separate; what fill characters do to it is not judged. User data of one byte is printed as characters.",
        "rule": "random objects, links and collections (new, in frames, read back with parts missing, subsets, cyclic) of all types, user data, IDs and parameters are printed to streams in random states; words are compared with the model, "
                "stream states with those before; non-trivial: objects with relations and non-empty collections that were compared",
        "parts": [{"source": "output.cc", "model": vm, "props": {"printing_shows_the_content_and_keeps_the_stream": (12000, 240000), "printing_user_data_ids_and_parameters": (40000, 600000)}},
                  {"source": "output.cc", "key": "output.cc/cycles", "model": vo, "props": {"printing_shows_the_content_and_keeps_the_stream": (8000, 160000)}}],
    },
    "C20": {
        "technique": PBT + "; Hypothesis for the Python part", "note": SEARCH,
        "rule": "random version triples (and literal ones at compile time) against integer triples; texts of versions with missing parts, prefixes and separators for the Python parser; "
                "non-trivial: triples that differ in one component, texts with at least two parts",
        "parts": [{"source": "utils.cc", "props": {"versions_decode_at_compile_time": (1, 1), "versions_are_ordered_triples": (50000, 500000)}},
                  {"script": "versions.py"}],
    },
    "G01": {
        "technique": HYP, "note": "Random search, no proof. Trusts the hand-written reference reader in py/members.py; texts of one line, ASCII identifiers.",
        "rule": "member texts built from random parts and spacing, mutated ones and token soups, read and compared with the parts or a reference reader; "
                "non-trivial: at least two optional parts, or texts longer than five characters",
        "parts": [{"script": "members.py"}],
    },
    "G02": {
        "technique": HYP, "note": "Random search, no proof. Trusts the generator of valid models (py/models.py) and the list of single breakages in py/validator.py; names that are no C++ identifiers and clashes with upstream datatypes are not judged.",
        "rule": "random valid models, compared in full with what was written; and valid models broken in one place, which must be refused with a definition error; "
                "non-trivial: models with several types; every breakage",
        "parts": [{"script": "validator.py"}],
    },
    "G03": {
        "technique": HYP, "note": "Random search, no proof. The oracle is a projection of the generated model, written independently of the encoder.",
        "rule": "random models (also with upstream models and options): the embedded text is read back and compared with the model, embedded again and compared byte by byte; "
                "non-trivial: models with several kinds of types",
        "parts": [{"script": "embed.py"}],
    },
    "G06": {
        "technique": HYP, "note": "Random search, no proof. The expected differences come from the operations that were applied and from an independent comparison in py/evolve.py.",
        "rule": "random models, changed by random edit operations, with evolution files that resolve some, all or none of the renames; reported differences, errors and warnings are compared with the applied operations, in both directions; "
                "non-trivial: at least one change",
        "parts": [{"script": "compare.py"}],
    },
    "G05": {
        "technique": HYP, "note": "Random search, no proof. Trusts file stamps and byte comparison.",
        "rule": "random models, generated twice, over existing files, with another hash seed, for a changed model and into a dry run; files and the list for CMake are compared; "
                "non-trivial: changes of the model that change some file",
        "parts": [{"script": "regen.py"}],
    },
    "G07": {
        "technique": HYP + "; the generated code is compiled, and for a part of the cases run",
        "note": "Random search, no proof. Trusts clang and the comparison in py/evolve.py. No ROOT here: read rules are compared as text, not executed. Components that contained each other in different versions are left out (headers cannot do that).",
        "rule": "random models, one or two earlier versions by random edits with renames; layouts of every version against structs built from its definition, at compile time; buffers of every version of every type, at run time; "
                "read rules as sets; non-trivial: there is a difference and more than one type",
        "parts": [{"script": "evolved.py"}],
    },
    "G08": {
        "technique": HYP, "note": "Random search, no proof. The expected names are listed by a hand-written enumeration; angle brackets in attributes are taken as ROOT takes them.",
        "rule": "random models, with upstream models and older versions; the classes in the selection file as a multiset against the expected ones; non-trivial: at least two components and data types",
        "parts": [{"script": "selection.py"}],
    },
    "G04": {
        "technique": "property-based testing: Hypothesis generates models, the generated code is compiled and driven by random choice-sequence histories against reference models, with shrinking",
        "note": "Random search, no proof. Trusts clang, the generator of valid models (py/models.py) and the harness' reference models. Members that are called like a type, C++ keywords or names generated classes use themselves are left out.",
        "rule": "random models (all kinds of members, relations, interfaces, links, extra code, namespaces, options): the code is compiled, also file by file, linked with programs that know the model only through its definition, and driven through random histories of collections, "
                "handles, subsets, links, clones, frames and storage; non-trivial: more than one type, with relations or vector members",
        "parts": [{"script": "codegen.py", "args": ["--only", "generated_code_follows_the_model", "--only", "generated_files_compile_alone"]}],
    },
    "G11": {
        "technique": "property-based testing: Hypothesis generates pairs of models, the generated code is compiled and driven by random choice-sequence histories against reference models, with shrinking",
        "note": "Random search, no proof. As for G04. Models that declare a type of the same name as the upstream model are left out; so are links between the same types in both models.",
        "rule": "random models that extend random models, with their types as members, relations, interface types and link ends: as for G04, with types of both models in the same histories; and no file of one may define or be named after a type of the other; "
                "non-trivial: some type of the upstream model is used",
        "parts": [{"script": "codegen.py", "key": "codegen.py/upstream", "args": ["--only", "a_model_and_its_upstream_model_work_together", "--only", "files_of_both_models_compile_alone"]}],
    },
    "G09": {
        "technique": HYP, "note": "Random search, no proof. The graphviz package is not installed here: a stand-in writes down the calls, so what graphviz makes of them is not covered.",
        "rule": "random models (also with upstream models, associations), groups, filters and output options; nodes, edges with the attributes in force, clusters and legend compared with what the model says; non-trivial: several nodes and edges",
        "parts": [{"script": "vis.py"}],
    },
    "G10": {
        "technique": HYP, "note": "Random search, no proof. No julia here: structs, constructors, module and order are read from the text and compared with the model.",
        "rule": "random models (also with upstream models); files, structs, fields, constructors, exports and include order compared with what the model says; "
                "non-trivial: several types with dependencies or relations",
        "parts": [{"script": "julia.py"}],
    },
}
