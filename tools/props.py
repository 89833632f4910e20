#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one definition per property)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


L = "src/libs/"
N, SC = L + "conduit/conduit_node.cpp", L + "conduit/conduit_schema.cpp"
GEN, DT, UT = L + "conduit/conduit_generator.cpp", L + "conduit/conduit_data_type.cpp", L + "conduit/conduit_utils.cpp"
DA, DAC = L + "conduit/conduit_data_array.cpp", L + "conduit/conduit_data_accessor.cpp"
BM, BMU = L + "blueprint/conduit_blueprint_mesh.cpp", L + "blueprint/conduit_blueprint_mesh_utils.cpp"

prop("C01", "Node trees behave as ordered dictionaries and lists under any history",
     "After any sequence of tree operations (creating, fetching, adding, appending, renaming and removing children by name, path or index, assigning leaves, resetting, copying) the children of every node - their number, names, order, indices, paths, parents and values - are those of an ordered dictionary or list driven by the same sequence. "
     "Looking up what does not exist, or an index that is out of range, is reported as an error (or a negative answer) and leaves the tree as it was. "
     "The node's description of itself (its schema and data type tree) agrees with the node tree at every step, and iterators in both directions visit exactly those children.",
     ["histories", "inputs"], "every sequence of tree operations, every child name including ones with slashes, every path spelling",
     "tests run a few fixed sequences; the bookkeeping (name-to-index map, parallel child arrays of node and schema) can go stale only after particular orders of removal, renaming and re-adding",
     [N, SC, L + "conduit/conduit_node_iterator.cpp"],
     [("name/index maps kept in step with child arrays", SC + " remove/rename_child/add_child"), ("parallel node children", N + " remove/fetch/append")],
     [("object_map / object_order", "name to index and order of children", "Schema::Schema_Object_Hierarchy"), ("m_children", "children in order", "Node, Schema")],
     ["child_names, child, name, path, parent, has_child, has_path, number_of_children, schema"])

prop("C02", "Copies are independent, external data is aliased, memory is freed once",
     "A node that was assigned by copy shares no memory with its source: later changes to either are invisible to the other. "
     "A node that was given external memory reads and writes exactly the caller's bytes (offset, stride and length included), and the caller's buffer is never freed or reallocated, even when the node is reset, reassigned or destroyed. "
     "In every history all memory obtained by the library is released exactly once, with the allocator it was obtained from, and never touched after that.",
     ["histories"], "every sequence of copy, external, schema-bound, move, update, reset and destroy operations on several nodes, owned and external",
     "use-after-free, double free and wrong aliasing need specific interleavings of ownership changes across nodes; tests check single steps and run without a memory checker",
     [N], [("m_alloced / m_owns_schema flags decide who frees", N + " release/init/cleanup"), ("set_external / set_data_using_schema", N)],
     [("m_alloced, m_mmaped, m_owns_schema", "ownership of data and schema", "Node")])

prop("C03", "update, update_compatible, update_external, move and swap merge as specified",
     "Updating a tree from another gives the union of both trees in which every leaf of the source replaces the destination's leaf at the same path (a longer destination leaf of the same type keeps its remaining elements), new children are appended in source order and everything else is untouched; the compatible variant changes only leaves that exist in both and can hold the source; the external variant aliases the source's leaves. "
     "Moving leaves the destination with exactly the source's former tree and the source empty, and swapping exchanges two trees, including when either is a child of a bigger tree. "
     "The source of an update is never changed.",
     ["histories", "inputs"], "every pair of small trees (objects, lists, leaves of different types and lengths, empties) and every sequence of these operations on them",
     "the result depends on the combination of kinds, types and lengths on both sides; tests cover a handful of pairs",
     [N], [("Node::update, update_compatible, update_external, move, swap", N)])

prop("C04", "Leaf values survive every type, layout and conversion",
     "For every leaf type, length, offset and stride, an element written through any setter, typed array view or accessor is read back by every reader of that type, and every numeric conversion - to another leaf type, to an array of another type, to a scalar, through an accessor - yields what the language's conversion of each element yields. "
     "Writing changes only the bytes of the described elements and reading changes none; asking for a value with the wrong type is reported and yields a zero or null value.",
     ["inputs", "configurations"], "all 11 leaf types times all reader and writer types times small lengths, offsets and strides times boundary values",
     "the cross product of source type, target type and layout has thousands of combinations implemented by repeated per-type code; tests sample the diagonal",
     [N, DA, DAC, L + "conduit/conduit_data_array.hpp", DT],
     [("per-type conversion switch", N + " to_*/as_*"), ("element addressing offset + stride * i", L + "conduit/conduit_data_array.hpp")])

prop("C05", "Compaction and serialization preserve structure and values",
     "Compacting a tree, or serializing it to bytes and rebuilding it from its compact schema, yields a tree with the same structure, types and values for every combination of element offsets, strides and lengths; the byte count equals the compact size that the tree reports. "
     "Contiguity and compactness answers agree with the actual memory layout of the leaves, and the contiguous data pointer, when there is one, addresses all leaves.",
     ["inputs", "configurations"], "every small tree whose leaves have any type, length, offset and stride, owned or external, contiguous or scattered",
     "tests serialize already compact trees; strided or offset leaves next to siblings are not covered",
     [N, SC, DT], [("serialize/compact_to/is_contiguous", N), ("compact_to, total_bytes_compact, spanned_bytes", SC)])

prop("C06", "JSON output parses back to the same tree",
     "Writing a tree in the data-preserving JSON forms (full, with base64 payload) and parsing the text yields an equal tree: structure, names, types, lengths and values. "
     "Writing it in plain JSON and parsing it yields the same structure, order and names, with every number, string and null preserved up to the widest type of its kind. "
     "Every text written is valid JSON, for any names and strings.",
     ["inputs"], "every small tree with every leaf type, special float values, empty and nested containers, and names and strings over an alphabet of special characters",
     "escaping, empties, single-element arrays, non-finite numbers and mixed lists interact; tests round-trip a few plain documents",
     [N, GEN, SC, UT], [("to_json_generic / to_pure_json / to_detailed_json / to_base64_json", N), ("parse_json_internal, walk_json_schema", GEN)])

prop("C07", "YAML output parses back to the same tree",
     "Writing a tree as YAML and parsing the text yields the same structure, order and names, with every number, string and null-or-empty preserved up to the widest type of its kind; a string whose text is a number is read as that number, and an empty string or a childless object or list as an empty node. "
     "This holds for any nesting of objects and lists and for names and strings that contain characters special to YAML.",
     ["inputs"], "every small tree with every leaf type and with names and strings over an alphabet of characters special to YAML",
     "as for JSON; YAML's indentation, quoting and type guessing make the combinations error-prone and untested",
     [N, GEN], [("to_yaml_generic", N), ("parse_yaml_internal / walk_yaml", GEN)])

prop("C08", "Parsing any text ends with a tree or a reported error",
     "Parsing any text as JSON, YAML, schema JSON or one of the data-carrying JSON forms either yields a tree or is reported as an error through the error mechanism; it never crashes, hangs, leaks, or reads or writes outside the text and the tree. "
     "After a reported error the node can be used again, and plain JSON texts that are valid give the tree they denote.",
     ["inputs"], "every text up to a length over the structural alphabet of each format, and every single and double token mutation of valid documents",
     "malformed input is explored by no test beyond a few hand-written ones",
     [GEN, N], [("parse_json_internal / walk_json_schema / parse_inline_*", GEN), ("parse_yaml_internal", GEN)])

prop("C09", "Schemas round-trip through text, and equality and compatibility are exact",
     "A schema written as JSON and parsed again describes exactly the same tree: types, lengths, offsets, strides, element sizes, endianness, names and order. "
     "(a leaf with the default byte order is written with the machine's). "
     "Schema equality holds exactly when structure, names (in any order), types, lengths, offsets, strides, element sizes and byte orders agree; one schema is compatible with another exactly when every child both have is, leaves of the other have the same type and element size and not more elements, and lists are at least as long; compacting keeps structure and types, packs leaves without gaps and is idempotent. "
     "Reported sizes (total, compact, spanned and strided bytes) equal those of the described layout. "
     "A node generated from a schema text and a data buffer holds (or aliases) exactly the described elements.",
     ["inputs"], "every small schema: objects, lists, every leaf type, lengths 0 to 3, offsets, strides, endianness; every pair of them",
     "quadratic in schemas and their layouts; tests check a few positives",
     [SC, DT, GEN], [("Schema::to_json / walk_schema", SC), ("equals / compatible / compact_to", SC)])

prop("C10", "diff reports a difference exactly when trees differ",
     "Comparing two trees reports a difference exactly when their structure, names, types, lengths or values (beyond the given tolerance) differ, whatever the memory layout of each side; the compatible comparison does so exactly for the parts both share. "
     "Comparing never changes either tree, is reflexive and (for the exact form) symmetric, and the report locates the differing paths.",
     ["inputs"], "every ordered pair of small trees over all leaf types, lengths, layouts and tolerance boundary values",
     "tests check a few pairs; a comparison that misses one combination silently passes everything downstream",
     [N, DA], [("Node::diff / diff_compatible", N), ("DataArray::diff", DA)])

prop("C11", "Saving and loading a node preserves it, and a mapped node writes through",
     "A tree saved to a file in any of the core formats and loaded again equals the original (exactly for the data-preserving formats). "
     "A tree mapped from a file reads the file's values, changes made through it are in the file after it is closed, and nothing else in the file changes. "
     "Loading a missing, truncated or damaged file is reported as an error and leaves no partial mapping or leaked resource.",
     ["inputs", "histories", "fault_sequences"], "every small tree times every format, every truncation point and every open failure",
     "tests save and load one tree per format and never a damaged file",
     [N, L + "conduit/conduit_node.cpp"], [("Node::load / save / mmap", N)])

prop("C12", "Byte order conversion is exact and reversible",
     "Converting a leaf or tree to a byte order reverses the bytes of exactly the described elements when its order differs from the target and changes nothing otherwise; converting back restores every byte. "
     "The recorded byte order afterwards is the target order, and values read on the native order are those that were stored.",
     ["inputs", "histories"], "all leaf types, lengths, strides, and every sequence of conversions",
     "tests convert one value per width", [L + "conduit/conduit_endianness.cpp", N], [("Endianness::swap*, Node::endian_swap", N)])

prop("C13", "String, path, escape and base64 utilities are exact inverses",
     "Splitting and joining paths and strings, escaping and unescaping special characters, and base64 encoding and decoding are mutually inverse for every input, and their outputs have the documented form. "
     "Formatting numbers and parsing them back is lossless.",
     ["inputs"], "all strings up to a length over the special alphabet and all byte strings of small length, all lengths modulo 3 for base64",
     "tests check single examples", [UT], [("utils::split_path/join_path/escape/unescape/base64", UT)])

prop("C14", "The C interface does exactly what the C++ interface does",
     "Every function of the C interface has the same effect and result as the C++ operation it names, for the node handle, paths and values it is given; handles to children stay the library's and are not freed by the caller.",
     ["inputs", "histories"], "every C function family times leaf type times layout",
     "the C layer is thousands of lines of repetitive wrappers; tests call a fraction, mostly with one layout",
     [L + "conduit/c/conduit_node_c.cpp", L + "conduit/c/conduit_datatype_c.cpp", L + "conduit/c/conduit_cpp_to_c.cpp"],
     [("wrappers", L + "conduit/c/conduit_node_c.cpp")])

prop("C15", "Array operations agree with their elementwise definition",
     "For every element type, length and layout, filling, setting from another array or list, comparing, counting and summarising (minimum, maximum, sum, mean) an array view or accessor gives what the elementwise definition gives on the logical elements and touches nothing else.",
     ["inputs", "configurations"], "all element types times source types times lengths times strides times boundary values",
     "repeated per-type code; tests use one layout and friendly values",
     [DA, DAC], [("DataArray<T>::set/fill/diff/min/max/sum/mean/count", DA), ("DataAccessor<T>::set/fill", DAC)])

R = L + "relay/"
prop("R01", "Relay save and load preserve every tree in every file protocol",
     "A tree saved with any file protocol the build supports and loaded back equals the original as far as the protocol documents (exactly, for the binary and HDF5 protocols), whatever the types, lengths, names, nesting and memory layout. "
     "Saving replaces the old content of the file; saving merged updates it as a tree update would; loading merged updates the given tree; loading and saving a subpath addresses exactly that subtree.",
     ["inputs", "histories"], "every small tree times every protocol, and every sequence of save, merged save and load on one file",
     "tests use one tree per protocol and one merge",
     [R + "conduit_relay_io.cpp", R + "conduit_relay_io_hdf5.cpp", R + "conduit_relay_io_identify_protocol.cpp"],
     [("save/save_merged/load/load_merged dispatch", R + "conduit_relay_io.cpp"), ("write_conduit_*_to_hdf5_*", R + "conduit_relay_io_hdf5.cpp")])

prop("R02", "An open I/O handle behaves as the tree it stores",
     "Any sequence of write, read, has-path, list-child-names, remove and reopen operations through an I/O handle gives the results of the same sequence on an in-memory tree; paths not named by an operation keep their content. "
     "Operations not allowed by the open mode, or on a closed handle, are reported as errors and change nothing.",
     ["histories", "configurations"], "every sequence of handle operations up to a depth, on each handle type and open mode",
     "tests run fixed scripts", [R + "conduit_relay_io_handle.cpp", R + "conduit_relay_io_hdf5.cpp"],
     [("HDF5Handle / BasicHandle", R + "conduit_relay_io_handle.cpp")])

prop("R03", "Partial HDF5 reads and writes touch exactly the selected elements",
     "Reading with any size, offset and stride (or n-dimensional slab) returns exactly the selected elements in order; writing with them changes exactly the selected elements of the data set (extending it when documented), and selections that do not fit are reported as errors.",
     ["inputs"], "every data set length, selection size, offset and stride up to a bound, every leaf type and memory layout",
     "tests use a couple of selections", [R + "conduit_relay_io_hdf5.cpp"], [("hyperslab selection", R + "conduit_relay_io_hdf5.cpp")])

prop("R04", "Blueprint mesh files load back the same domains",
     "A multi-domain mesh written with any file style, suffix, number of files and supported protocol loads back to the same number of domains, each equal to the one written, in domain-id order, and the index describes what was written.",
     ["inputs", "configurations"], "every number of domains and files, every style, suffix and trailing option, every mesh kind in the alphabet, including missing domains",
     "tests use a few combinations", [R + "conduit_relay_io_blueprint.cpp"], [("write_mesh / read_mesh domain-to-file maps", R + "conduit_relay_io_blueprint.cpp")])

prop("R05", "Message passing delivers every tree intact on every schedule",
     "Point-to-point sends and receives (blocking, non-blocking, self-describing or schema-matched), broadcasts, gathers, reductions and the exchange planner deliver to every receiver a tree equal to the one the sender passed, for every message arrival order, buffering behaviour and interleaving of the ranks, and every rank returns. "
     "Non-contiguous trees are delivered as well as contiguous ones, and nothing is overwritten before it was sent or delivered.",
     ["schedules", "inputs"], "all interleavings and buffering decisions for up to 4 ranks, all small trees",
     "tests run on one MPI implementation, whose schedule is mostly fixed", [R + "conduit_relay_mpi.cpp"],
     [("send_using_schema etc.", R + "conduit_relay_mpi.cpp"), ("communicate_using_schema", R + "conduit_relay_mpi.cpp")])

prop("R06", "Tables written as CSV load back the same columns",
     "A table saved as CSV and loaded has the same columns, in the same order, with the same names and values, also for several tables and for multi-component columns.",
     ["inputs"], "every small table over column kinds, names, lengths and values",
     "tests use two tables", [R + "conduit_relay_io_csv.cpp"], [("write_csv / read_csv", R + "conduit_relay_io_csv.cpp")])

prop("R07", "An I/O failure is reported, never swallowed",
     "When any write to the storage fails while a tree is being saved, the save is reported as failed; a save that reports success has produced a file that loads to the saved tree. A failure while reading is reported too.",
     ["fault_sequences", "crash_points"], "a failure at every single I/O call of every save and load",
     "tests inject no faults", [R + "conduit_relay_io.cpp", N], [("stream checks", N), ("CONDUIT_CHECK_HDF5_ERROR", R + "conduit_relay_io_hdf5.cpp")])

prop("B01", "Mesh verification accepts exactly the meshes the protocol allows",
     "Verification accepts every mesh built according to the documented protocol and rejects every mesh with a missing, mistyped or dangling part (coordinates, topology, shape, field association, material set, adjacency set, index); the info tree marks the part that is wrong and the mesh is unchanged.",
     ["inputs"], "every single deletion, retyping, renaming and value change of every node of every kind of conforming mesh",
     "tests check a few hand-made invalid meshes per section", [BM], [("mesh::verify and friends", BM)])

prop("B02", "Coordinate set and topology conversions preserve geometry",
     "Converting a uniform, rectilinear or structured coordinate set or topology to any more general kind, or a topology to polygonal form, yields a valid mesh whose i-th point and cell are at the same location with the same vertices as the original's; the returned element maps are correct, inputs are unchanged.",
     ["inputs"], "every dimension, every extents up to a bound, every offset, origin, spacing and coordinate system",
     "tests check validity and sizes of one or two examples", [BM, BMU], [("convert_coordset_to_* / convert_topology_to_*", BM)])

prop("B03", "Derived topologies enumerate exactly the sub-entities and map both ways",
     "Lines, faces, centroids, sides and corners generated from a topology are exactly the distinct edges, faces, element centers, sides and corners of its elements, once each (points: every point of its coordinate set), and the source-to-destination and destination-to-source maps list exactly the incident pairs and are transposes of each other.",
     ["inputs"], "every small conforming mesh over the shape alphabet",
     "tests check counts on regular examples", [BM, L + "blueprint/conduit_blueprint_mesh_topology_metadata.cpp", BMU],
     [("TopologyMetadata", L + "blueprint/conduit_blueprint_mesh_topology_metadata.cpp")])

prop("B04", "Material set conversions preserve every volume fraction",
     "Converting a material set, material-dependent field or species set between the full, sparse-by-element and sparse-by-material forms preserves, for every zone and material, the fraction and value, and converting back yields the same data; every form describes the same zones, also with zones that contain one material or where a material has no zone.",
     ["inputs"], "every assignment of materials to a few zones with every presence pattern and every representation",
     "tests convert two fixed examples", [L + "blueprint/conduit_blueprint_mesh_matset_xforms.cpp"],
     [("to_multi_buffer_full / to_sparse_by_element / to_multi_buffer_by_material", L + "blueprint/conduit_blueprint_mesh_matset_xforms.cpp")])

prop("B05", "Partitioning and combining keep every cell and its field values exactly once",
     "Partitioning a mesh of any kind except mixed-shape topologies - with any selections, target count and options - and combining the parts again keeps every selected cell exactly once, with its geometry and its element and vertex field values, and the recorded original ids name the cell each one came from; mapping element fields back restores the values of the cells that were selected.",
     ["inputs", "configurations"], "every selection kind, target, domain count and mesh kind up to a bound",
     "tests compare a few configurations with stored baselines", [L + "blueprint/conduit_blueprint_mesh_partition.cpp"],
     [("Partitioner::execute, combine, map_back_fields", L + "blueprint/conduit_blueprint_mesh_partition.cpp")])

prop("B06", "One-to-many relations and multi-component arrays index exactly",
     "Iterating or indexing a one-to-many relation visits exactly the (one, many) pairs that its sizes, offsets and indices describe, in order, in both directions; multi-component array conversions between interleaved, contiguous and separate forms keep every component of every tuple; n-dimensional indexes address exactly base plus offsets times strides.",
     ["inputs", "histories"], "every small relation with every presence combination of sizes, offsets, indices; every iterator operation sequence; every layout",
     "tests use one relation per case", [L + "blueprint/conduit_blueprint_o2mrelation_iterator.cpp", L + "blueprint/conduit_blueprint_o2mrelation_index.cpp", L + "blueprint/conduit_blueprint_o2mrelation.cpp", L + "blueprint/conduit_blueprint_mcarray.cpp", L + "blueprint/conduit_blueprint_ndarray_index.cpp"],
     [("O2MIterator / O2MIndex", L + "blueprint/conduit_blueprint_o2mrelation_iterator.cpp")])

prop("B07", "Adjacency set conversions keep exactly the shared entities",
     "Converting an adjacency set to the pairwise or maximal-share form describes exactly the same sharing of entities between domains in every domain, is consistent between neighbours, and verification and queries on adjacency sets answer according to that content.",
     ["inputs"], "every sharing pattern of a few entities among up to four domains",
     "tests use two patterns", [BM, BMU], [("adjset::to_pairwise / to_maxshare", BM)])

prop("B08", "Flattening a mesh to a table lists every value in its row",
     "Flattening a mesh gives one row per vertex and one per element in order, with columns holding exactly the coordinates, centers, field components and ids of that vertex or element, for every mesh kind and option, and domains one after another.",
     ["inputs", "configurations"], "every small mesh kind times field kinds times options",
     "tests check sizes on a few examples", [L + "blueprint/conduit_blueprint_mesh_flatten.cpp"], [("MeshFlattener", L + "blueprint/conduit_blueprint_mesh_flatten.cpp")])

prop("B09", "Parallel mesh operations agree on every rank on every schedule",
     "Parallel verification, index generation, domain counts, id assignment and shared-entity queries give on every rank the result the corresponding serial computation gives on all domains together, whatever the distribution of domains over ranks (ranks without domains included) and the message schedule, and every rank returns.",
     ["schedules", "configurations"], "every distribution of up to four domains over up to three ranks and every schedule",
     "MPI tests use 2 ranks and one distribution", [L + "blueprint/conduit_blueprint_mpi_mesh.cpp", L + "blueprint/conduit_blueprint_mpi_mesh_utils.cpp"],
     [("collectives on every rank", L + "blueprint/conduit_blueprint_mpi_mesh.cpp")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(p) + "\n")
    print(len(P))
