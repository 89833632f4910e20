# property id -> how its harness is built and described
IO_LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lsiloh5", "-lhdf5", "-lz"]
HIST = "stateless model checking of the real code: exhaustive operation histories with state hashing"
CHECKS = {
    "C01": dict(src=["checks/C01_tree.cpp"], groups=["core"], technique=HIST,
                note="every operation sequence up to depth 4 (5 thorough) from the empty tree and 3 from populated trees, against an ordered dictionary/list; full iterator state machine"),
    "C02": dict(src=["checks/C02_ownership.cpp"], groups=["core"], technique=HIST + " and an explicit storage model; AddressSanitizer and allocation counting as monitors",
                note="every sequence of 26 ownership operations up to depth 3 (4 thorough) on two trees and two caller buffers; all allocator histories up to depth 4 (5)"),
    "C03": dict(src=["checks/C03_merge.cpp"], groups=["core"], technique=HIST + " against merge rules on reference trees",
                note="all ordered pairs of depth-1 trees over 8 (11) atoms and of depth-2 trees over 2 (4) atoms, times 5 operations; all surroundings with 2 (3) operations in a row"),
    "C04": dict(src=["checks/C04_values.cpp"], groups=["core"], extra=["-O0"], technique="exhaustive enumeration of the finite configuration space (type x layout x length x value x setter x reader) on the real code, with guard bytes",
                note="all 10 numeric types and strings; every reader, accessor and conversion (fixed-width and C-native); 42 setter families x 7 target states x 5 layouts"),
    "C15": dict(src=["checks/C15_arrays.cpp"], groups=["core"], extra=["-O0"], technique="exhaustive enumeration of the finite configuration space (operation x element type x source type x layout x length x values) on the real code, with guard bytes",
                note="10 operations x 10 x 10 types x 5 layouts x lengths; min/max/sum/mean/count over all value sequences up to length 3 (4)"),
    "C05": dict(src=["checks/C05_compact.cpp"], groups=["core"], technique="exhaustive enumeration of small trees and memory placements on the real code against an independent layout model",
                note="all objects/lists of up to 2 (3) leaves and 4 nestings of 3 leaves, 8 placements per leaf; all pairs of leaf types and layouts"),
    "C06": dict(src=["checks/C06_json.cpp"], groups=["core"], technique="exhaustive enumeration of small trees, strings and numbers on the real code; round trip compared with a reference tree and the text judged by an independent strict parser",
                note="3 protocols x 5 ways to write; all strings up to length 3 (4) over 25 characters; all trees of depth 2, width 2 over 8 atoms; every leaf type, layout and boundary value"),
    "C07": dict(src=["checks/C07_yaml.cpp"], groups=["core"], technique="exhaustive enumeration of small trees, strings and numbers on the real code; round trip compared with a reference tree",
                note="5 ways to write; all strings up to length 3 (4) over 34 characters special to YAML; all trees of depth 2, width 2 over 8 atoms; every leaf type, layout and boundary value"),
"C08": dict(src=["checks/C08_parse.cpp"], groups=["core"], technique="exhaustive enumeration of short texts, token sequences and document mutations on the real parsers under memory and leak monitoring, with a strict JSON reference reader",
                note="all texts up to length 4 (5), all token sequences up to 5 (6), all single (double) mutations of 8 typed documents; JSON, YAML, typed JSON/YAML, base64 JSON, schemas"),
"C09": dict(src=["checks/C09_schema.cpp"], groups=["core"], technique="exhaustive enumeration of schemas, ordered schema pairs, schema edit sequences and generated nodes on the real code against a reference schema",
                note="all leaf layouts; all schemas of depth 2, width 2; all ordered pairs; all schema edit sequences of length 3 (4); nodes generated from text and data"),
"C10": dict(src=["checks/C10_diff.cpp"], groups=["core"], technique="exhaustive enumeration of ordered pairs of leaves and trees on the real code against a reference comparison",
                note="all leaf types, lengths 0-3, layouts, boundary values and tolerances on both sides; all pairs of small trees; all single edits of deeper trees"),
"C11": dict(src=["checks/C11_saveload.cpp"], groups=["core"], libs=["-ldl"], technique="exhaustive enumeration of trees x formats, truncation points, mapped-edit histories and single I/O faults at every call, on the real code with interposed system calls",
                note="every truncation point; every I/O call failing, short or interrupted; all histories of 4 (5) edits through a mapped file"),
"C12": dict(src=["checks/C12_endian.cpp"], groups=["core"], technique="exhaustive enumeration of leaves, layouts and conversion sequences on the real code against a byte-level model",
                note="all types, layouts and conversion sequences of length 4 (5); every byte of the surrounding memory compared"),
"C13": dict(src=["checks/C13_utils.cpp"], groups=["core"], technique="exhaustive enumeration of all small inputs of each utility on the real code against reference definitions and inverses",
                note="all strings over special alphabets up to the stated lengths, all byte pairs, every length for base64, every exponent for numbers"),
"C14": dict(src=["checks/C14_capi.cpp"], groups=["core"], extra=["-O0"], technique="exhaustive enumeration of C function families x types x layouts and of operation histories on the real code, against the C++ operation on a twin tree and against the bytes given",
                note="lengths 0-3, offsets 0-2 elements (+1 byte), strides 1-3 elements (+1 byte), 3 byte orders; histories to depth 3 (4 thorough)"),
"R01": dict(src=["checks/R01_saveload.cpp"], groups=["core", "blueprint", "relay"], libs=IO_LIBS, technique="exhaustive enumeration of trees x protocols x options and of save/merge/load histories on real files, against an in-memory tree",
                note="trees to depth 2, lengths 0-3 (0-17 for HDF5 storage options), histories to depth 3 (4 thorough)"),
"R02": dict(src=["checks/R02_handle.cpp"], groups=["core", "blueprint", "relay"], libs=IO_LIBS, technique=HIST + " on real files, against an in-memory tree",
                note="all sequences of open (9 modes), write (root and sub path), remove, close, with every read-only operation tried in every state"),
"R03": dict(src=["checks/R03_slab.cpp"], groups=["core", "blueprint", "relay"], libs=IO_LIBS, technique="exhaustive enumeration of selections on real HDF5 files against index arithmetic; all histories of partial writes against a vector",
                note="1-D data sets of 0-5 elements, 2-D to 3x3, 3-D to 2x2x3, with every size, offset and stride; write histories of length 2 (3)"),
"B06": dict(src=["checks/B06_index.cpp"], groups=["core", "blueprint"], technique="exhaustive enumeration of small relations, cursor histories, multi-component layouts and index shapes on the real code against their defining arithmetic",
                note="all relations of up to 3 ones; all cursor histories of length 5 (7); all component types x layouts; all shapes in 1-4 dimensions"),
"B04": dict(src=["checks/B04_matset.cpp"], groups=["core", "blueprint"], technique="exhaustive enumeration of material presence patterns x representations x conversion chains of length 2 on the real code, against independent readers of each form",
                note="up to 4 zones and 3 materials, 4 source forms, 3 target forms, silo form, thresholds, species sets"),
"B07": dict(src=["checks/B07_adjset.cpp"], groups=["core", "blueprint"], technique="exhaustive enumeration of sharing patterns of entities among domains x ways to group and name them x conversion chains on the real code, against the sharing relation itself",
                note="up to 3 entities and 4 domains; pairwise, maximal-share, split, mixed and overlapping sources; validate and compare_pointwise on every small mesh pair"),
"B02": dict(src=["checks/B02_convert.cpp"], groups=["core", "blueprint"], technique="exhaustive enumeration of small coordinate sets and topologies x all conversion chains on the real code, against closed formulas for points, cells and faces",
                note="1-3 dimensions, up to 4 points per axis, all coordinate systems, number types and layouts, strided structured grids; 7 element shapes with up to 3 elements and every sharing pattern"),
"B03": dict(src=["checks/B03_derived.cpp"], groups=["core", "blueprint"], technique="exhaustive enumeration of small meshes (every vertex arrangement in 2D, every gluing in 3D) x all derived topologies on the real code, against an independent enumeration of sub-entities",
    note="stateless exploration of the real code"),
"B08": dict(src=["checks/B08_flatten.cpp"], groups=["core", "blueprint"], technique="exhaustive enumeration of small meshes of every kind x field forms x domains x options on the real code, against an independent list of points, cells and values",
                note="18 mesh kinds, 1-3 domains, 10 field forms, every presence pattern, fill value and option"),
"B05": dict(src=["checks/B05_partition.cpp"], groups=["core", "blueprint"], technique="exhaustive enumeration of small multi-domain meshes x selections x targets x options on the real partitioner, against an independent reader of cells, points and fields",
                note="18 mesh kinds, 1-3 domains, every explicit list, range, logical box and destination field up to the bounds; combining, splitting and mapping back"),
}
NOT_APPLICABLE = {}
