# Source of properties.jsonl and of the checks list of MANIFEST.json (tools/gen.py writes both).
R = "src/ringhopper/src/"
P = "src/ringhopper-primitives/src/"
PROPS = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None,
         technique=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, observe=observe or [], state=state or [], hook=hook, technique=technique, note=note))

prop("C01", "Saving and reloading a tag file loses nothing",
     "For every tag group and every content a tag of that group can hold, writing the tag to tag-file bytes and reading those bytes back gives an equal tag (apart from fields that only exist in cache files), and writing it again gives the same bytes. "
     "This holds through both the type-specific reader and the reader that picks the type from the file header. "
     "Values that have no representation in the file (out-of-range enumeration codes, undefined flag bits, cache-only values) are normalised once and stay stable afterwards.",
     ["inputs"], "all 82 tag groups, all field values, all nesting and list lengths the format can express",
     "The unit tests round-trip one or two fixed values of a few primitive types; none saves and reloads a whole tag, and the space of groups x fields x values is unbounded.",
     [P + "tag.rs", P + "parse.rs", P + "primitive/data.rs", "src/ringhopper-structs-codegen/src/lib.rs", "src/ringhopper-definitions/json/tag"],
     [("tag file writer and reader", P + "tag.rs TagFile::to_tag_file / read_tag_from_file_buffer"),
      ("generated field readers and writers", "src/ringhopper-structs-codegen/src/lib.rs"),
      ("lists, raw data, references and strings", P + "primitive/data.rs, primitive/path.rs, primitive/string.rs")],
     ["bytes returned by the tag writer", "tag returned by the tag reader"],
     technique="property-based testing: layout-driven random tags, write/read/write round trip")

prop("C02", "Tag files follow the published binary layout in both directions",
     "The bytes of a tag file are exactly those the Halo tag layout prescribes: every field at its offset, width and byte order, lists and raw data appended in field order, header and checksum filled in. "
     "Reading such a file puts every value into the field of that name, with nothing shifted, swapped or dropped.",
     ["inputs"], "every tag group, every field of every structure, arbitrary values",
     "Round trips alone cannot see a layout error made symmetrically in reader and writer, and no unit test compares a tag file with an independent description of the format.",
     [P + "tag.rs", P + "parse.rs", P + "primitive", "src/ringhopper-structs-codegen/src/lib.rs", "src/ringhopper-definitions/src", "src/ringhopper-definitions/json/tag"],
     [("definitions parsed into layouts", "src/ringhopper-definitions/src/types/parse.rs"),
      ("generated field readers and writers", "src/ringhopper-structs-codegen/src/lib.rs"),
      ("primitive byte codecs", P + "parse.rs, primitive/*")],
     ["field values by name on a tag read from reference bytes", "bytes written from field values set by name"],
     technique="differential property-based testing against an independent layout interpreter")

prop("C03", "Damaged or mismatched tag files are refused in strict mode",
     "In strict mode a tag file whose body was altered after saving, truncated, extended with extra bytes, or whose header names another group, version or magic, is rejected with an error instead of being returned as a tag. "
     "Relaxed mode waives only the checksum: an intact body is still read identically, and structural mismatches are still refused. A stored checksum of all ones means unchecksummed and is accepted.",
     ["inputs", "fault_sequences"], "all groups, all single-burst corruptions, truncations, extensions and header substitutions",
     "Tests contain one valid header and one known CRC; detection has to hold for every damage position.",
     [P + "tag.rs", P + "crc32.rs"],
     [("header validation and CRC32 check", P + "tag.rs TagFile::load_header_and_data"), ("leftover data check", P + "tag.rs read_tag_from_file_buffer"), ("CRC32", P + "crc32.rs")],
     ["Ok or Err of the tag readers", "checksum computed over arbitrary chunked data"],
     technique="fault injection on generated tag files plus differential test of the checksum against a bitwise reference")

prop("C04", "Hostile tag bytes never crash or exhaust the reader",
     "Reading any byte string as a tag file, in either strictness, ends with a tag or an error: it never panics, aborts, overflows the stack or requests memory out of proportion to the input. "
     "A tag accepted this way can be written again, and rereading what was written gives the same tag.",
     ["inputs"], "arbitrary and structure-aware mutated byte strings, every tag group",
     "Unit tests feed well-formed data only.",
     [P + "tag.rs", P + "parse.rs", P + "primitive/data.rs", P + "primitive/path.rs", "src/ringhopper-structs-codegen/src/lib.rs"],
     [("bounds-checked field access", P + "parse.rs fits / OverflowCheck"), ("list and data readers", P + "primitive/data.rs")],
     ["outcome of the tag readers", "largest single allocation"],
     technique="structure-aware mutation fuzzing with an allocation guard and a reread oracle")

prop("C05", "Tag paths are canonical and cannot leave the tags directory",
     "Every accepted tag path is in one canonical form: lower case, no leading or repeated separator, no drive, parent or reserved component, and a known group; spelling variants of the same path (case, either slash) give equal paths and anything else is refused with an error. "
     "Converting a path to a native or internal string and back yields the same path, and joining the native form to a directory always stays below that directory. This includes paths read from tag files and maps.",
     ["inputs"], "arbitrary Unicode strings, all tag groups, paths embedded in tag files",
     "Tests try a dozen fixed strings.",
     [P + "primitive/path.rs", P + "primitive/group.rs"],
     [("path validation and normalisation", P + "primitive/path.rs TagPath::new"), ("path parsing", P + "primitive/path.rs TagPath::from_path / from_full_path"), ("reference decoding", P + "primitive/path.rs TagReference")],
     ["accepted/refused decision and stored string", "native path joined to a directory"],
     technique="grammar-based property testing against a reference path validator")

prop("C06", "Names, codes and identifiers map one to one",
     "Every tag group has one name and one four-character code, both unique, and converting group to name or code and back gives the group; unknown names and codes are refused. "
     "The same holds between each enumeration's options and their names and numbers, each flag set and its bits, and packed identifiers, which split into and rebuild from index and salt without loss; a checked conversion accepts exactly the valid identifiers.",
     ["inputs"], "all groups, all enumerations and flag sets reachable in tags, all 32-bit identifiers, arbitrary name strings",
     "Tests look up a handful of groups; the lookup is a binary search that silently depends on table order.",
     [P + "primitive/group.rs", P + "primitive/data.rs", "src/ringhopper-structs-codegen/src/lib.rs"],
     [("group tables", P + "primitive/group.rs"), ("identifier packing", P + "primitive/data.rs ID, Index"), ("generated enumerations and bitfields", "src/ringhopper-structs-codegen/src/lib.rs")],
     technique="exhaustive and randomised bijection checks against the layout snapshot")

prop("C07", "Numeric building blocks encode exactly and decode back",
     "Integers, floats, vectors, planes, rectangles, colours, quaternions, matrices and identifiers written in either byte order are read back bit for bit, occupy exactly the size they report, and never touch bytes outside it; reading from a buffer that is too small yields an error. "
     "Lossy packed forms (compressed floats and vectors, byte colours) decode to within one quantisation step of the value packed, keep the sign, keep the extremes, and packing a decoded value again gives the same code. Arithmetic on colours, vectors and angles follows its definition in every representation.",
     ["inputs"], "all values of each type, both byte orders, all offsets and buffer lengths",
     "Tests check a few hand-picked values; the codecs must hold for every bit pattern and every buffer bound.",
     [P + "parse.rs", P + "primitive/vector.rs", P + "primitive/color.rs", P + "primitive/plane.rs", P + "primitive/array.rs", P + "primitive/data.rs"],
     [("simple codecs", P + "parse.rs SimpleTagData"), ("compressed floats and vectors", P + "primitive/vector.rs"), ("colour conversion", P + "primitive/color.rs")],
     technique="property-based round trips, exhaustive code enumeration, reference arithmetic")

prop("C08", "Fixed and wide strings keep their text",
     "Text that fits a fixed 32-byte name is kept exactly and anything that does not fit or cannot be stored is refused, never cut silently; the padding is always zero filled. "
     "Wide text survives storing and loading for every Unicode string (up to a NUL, with line ends stored as CR LF and control characters other than tabs dropped), and malformed stored text is reported or replaced without a crash.",
     ["inputs"], "arbitrary Unicode strings and arbitrary stored bytes",
     "Tests use two ASCII samples.",
     [P + "primitive/string.rs"],
     [("fixed string", P + "primitive/string.rs String32"), ("wide string", P + "primitive/string.rs UTF16String")],
     technique="property-based round trips against a reference encoder")

prop("C09", "Field selectors address exactly the fields they name",
     "A textual field selector with indices, ranges and wildcards visits exactly the fields it denotes, in order, once per listed index, for reading and for writing alike, and the values seen are those of the tag; a write through a selector changes only the selected fields. "
     "A malformed selector, an unknown field or an index outside a list is reported as an error and never crashes or touches anything else. "
     "Every field a structure lists can be looked up by that name, and a field found by address is named the same; inserting a blank, copied or moved list item changes only that list.",
     ["inputs"], "all tag groups, generated tags, valid and mutated selectors",
     "Only range parsing has a unit test; the visitor is generic over all fields of all tags.",
     [P + "dynamic.rs", P + "primitive.rs", P + "primitive/data.rs", P + "primitive/array.rs", "src/ringhopper-structs-codegen/src/lib.rs"],
     [("selector evaluation", P + "dynamic.rs foreach / foreach_mut / validate_matcher"), ("range parsing", P + "primitive.rs parse_range")],
     technique="property-based testing against a reference selector evaluator over a mirrored value tree")

prop("C10", "Filling and stripping default values are exact opposites",
     "Filling defaults changes only fields that are zero and have a documented default, to that default; stripping defaults changes only fields equal to their default, back to zero, at every nesting level. "
     "Fields that share one default (a range, a colour, a pair) are filled only when all are zero and stripped only when all hold their default; particle, sound, lens flare, shader and object tags follow their documented group rules. "
     "Both are idempotent, act alike on a tag in memory and on one loaded from a file, filling after stripping restores what filling alone gives, and a tag group advertised as having no defaults is never changed.",
     ["inputs"], "all tag groups with generated contents biased to zero and default values",
     "No unit test covers defaults at all.",
     [R + "tag/default.rs", R + "tag/default", "src/ringhopper-structs-codegen/src/lib.rs", P + "parse.rs"],
     [("generated default code", "src/ringhopper-structs-codegen/src/lib.rs TagDataDefaults"), ("group-specific defaults", R + "tag/default/*.rs")],
     technique="property-based testing of algebraic laws plus a differential interpreter of the default tables")

prop("C11", "Nudging only undoes decimal rounding noise",
     "Nudging replaces a number by its rounding to six significant decimal digits, so it moves by no more than half a unit in the sixth digit, keeps its sign, carries correctly through runs of nines and zeros, and leaves shorter decimals, infinities and non-numbers untouched; nudging twice is the same as nudging once. "
     "Only the designated fields of the designated groups change, colour permutation weights that are all equal shares become 1, and the tool reports a change exactly when something changed.",
     ["inputs"], "all floats in nudgeable fields, all nudgeable groups",
     "The unit test has a few positive examples, and carries are reached only by particular digit patterns.",
     [R + "tag/nudge.rs"], [("decimal rounding", R + "tag/nudge.rs fix_decimal_rounding"), ("field selection", R + "tag/nudge.rs nudge_tag")],
     technique="property-based testing against exact decimal arithmetic")

prop("C12", "Text sources compile to exactly the lists they spell out",
     "A string-list text file compiles to the strings between its markers, unchanged, in order, for UTF-8 and for UTF-16 of either byte order with LF or CR LF line ends, and exporting a list and compiling the result gives the same list; a tag-collection text file compiles to the listed references in order, ignoring blank lines. "
     "Malformed input (text after the last marker, null characters, broken encodings, invalid paths) is refused with an error naming the problem and the line of a bad path, and never crashes.",
     ["inputs"], "generated lists in every supported encoding and line ending, plus arbitrary bytes",
     "There are no unit tests for these compilers.",
     [R + "tag/unicode_string_list.rs", R + "tag/tag_collection.rs"],
     [("string list parser", R + "tag/unicode_string_list.rs"), ("tag collection parser", R + "tag/tag_collection.rs")],
     technique="model-based generation: render list to text, compile, compare")

prop("C13", "Tag filters select exactly the matching tags",
     "A filter pattern accepts a tag path if and only if the whole path matches the pattern, where * stands for any run of characters, ? for one character, slash direction does not matter, other characters match themselves, and the group part is matched as text or, when the caller fixes a group, by that group (an extension naming it in the pattern is dropped once). "
     "Any pattern and any path, including non-ASCII text and many wildcards, are decided promptly and without a crash, alike for paths and for references.",
     ["inputs"], "arbitrary patterns and paths",
     "Tests check about ten pattern/path pairs; the matcher is a hand-written scanner.",
     [R + "tag/tree.rs"], [("pattern matching", R + "tag/tree.rs TagFilter")],
     technique="differential property-based testing against a textbook glob matcher")

prop("C14", "Layered tag directories behave like a stack of maps",
     "Opening a tag from layered directories returns the copy in the first layer that has it; a missing tag is reported missing, and a damaged one or one of another group than its name says is refused. Listing yields every tag of every layer exactly once, whatever other files lie around; a tag exists exactly when it can be listed. "
     "Writing puts the tag in the layer the rules name (first layer holding it, else the chosen one, or the copy-on-write layer), reports a change only if the stored content differs, never modifies another layer, and what was written is what is read next. A tree that is shared, boxed, locked or cached answers like the tree itself, and says whether it can be written to.",
     ["histories", "inputs"], "all sequences of write/open/list/contains/external edits over one to four layers",
     "Tests open and list one fixed directory.",
     [R + "tag/tree.rs"], [("virtual directory", R + "tag/tree.rs VirtualTagsDirectory"), ("listing", R + "tag/tree.rs files_in_path, get_all_tags_with_filter")],
     state=[dict(name="directory layers", meaning="ordered list of roots plus optional copy-on-write root", where=R + "tag/tree.rs VirtualTagsDirectory")],
     technique="stateful model-based testing on scratch directories")

prop("C15", "The tag cache is invisible except for write timing",
     "Through a caching tag tree every open returns what the last write through it (or edit of a shared handle) stored, else what the underlying tree held when it was first opened; copies handed out are independent, shared handles are the same object, and missing or broken tags fail the same way as without the cache. "
     "With immediate writing the underlying tree is updated at once; with manual writing nothing reaches it until commit, and committing writes exactly the changed tags, after which both agree, and committing everything reports exactly the tags that could not be written and writes all others. Concurrent users see the same guarantees.",
     ["histories", "schedules"], "all sequences of open/write/commit operations, and concurrent interleavings of them",
     "No unit test uses the cache.",
     [R + "tag/tree.rs"], [("cache", R + "tag/tree.rs CachingTagTree")],
     technique="stateful model-based testing plus randomised multi-thread histories checked against a per-key model")

prop("C16", "Dependency reports equal the reference graph",
     "The direct dependencies of a tag are exactly the set of non-empty references it contains at any depth; the recursive report contains exactly the tags reachable from it, each with its own direct set; the reverse report contains exactly the tags that reference it (of groups that may hold such a reference). "
     "Cycles, diamonds and repeated references terminate; a missing tag, or an unreadable tag that has to be read, is an error naming it (never a crash), and is left out of the report where the caller asked to tolerate it.",
     ["inputs"], "generated tag trees with arbitrary reference graphs",
     "The unit test covers substitution rules for a single group pair.",
     [R + "tag/dependency.rs", R + "tag/archive.rs"], [("reference collection", R + "tag/dependency.rs get_tag_dependencies_for_block"), ("graph walks", R + "tag/dependency.rs")],
     technique="property-based testing on random graphs against a reference reachability computation")

prop("C17", "Renaming tags keeps every reference pointing at the same tag",
     "After a path refactor every tag whose path matched is found under its new path with its content, the old file is gone, every reference to it in every tag is rewritten to the new path exactly once, and nothing else in any tag or file changes; the reported list is exactly what was renamed, and a tag that cannot be read is reported and left as it is. Without moving, only references change, and only to tags that exist. "
     "A refactor that cannot be done (no match, target exists, two sources collide, invalid target path, the file system refuses a move) is refused and leaves every file as it was.",
     ["inputs", "fault_sequences"], "generated trees, graphs, find/replace pairs, both replace modes, with and without moving, any number of worker threads",
     "The unit test covers only the string substitution of two tags in memory.",
     [R + "tag/dependency.rs"], [("path refactor", R + "tag/dependency.rs refactor_paths_for_tag_tree"), ("reference rewriting", R + "tag/dependency.rs refactor_paths_for_block")],
     technique="model-based property testing on scratch directories with before/after graph comparison")

prop("C18", "Changing reference groups touches only eligible references",
     "A group refactor changes a reference from one group to another exactly when its group matches, the field it sits in may hold the new group, and the target exists where that is required; path and all other data stay as they were. "
     "It reports a change exactly when one was made, and repeating it changes nothing.",
     ["inputs"], "all groups, generated tags and trees, all pairs of groups",
     "One unit test covers one pair of groups on one tag.",
     [R + "tag/dependency.rs", P + "primitive/path.rs"], [("group refactor", R + "tag/dependency.rs refactor_groups_for_block")],
     technique="property-based testing against a reference rewrite over the value tree")

prop("C19", "Tag comparison reports exactly the differing fields",
     "Comparing a tag with an identical copy reports nothing; after changing any set of comparable fields, the report names exactly those fields, each with a path that locates it, and comparing the other way round names the same fields. "
     "Lists of different length are reported as such, and abbreviated mode only merges reports of the same list, never hides a difference.",
     ["inputs"], "all tag groups, generated tags and generated edits",
     "There are no unit tests of comparison.",
     [R + "tag/compare.rs"], [("comparison", R + "tag/compare.rs compare_tags")],
     technique="property-based testing: apply known edits, compare report with the edit set")

prop("C20", "Tag conversion keeps the shared content",
     "Converting between the two model formats, or between object-like groups, carries over every field the two formats share without change; parts, vertices and triangles describe the same geometry, and converting there and back gives an equal tag when nothing format-specific was used. "
     "A pair of groups is convertible exactly when a conversion function is offered, and bad indices are refused with an error.",
     ["inputs"], "generated models with arbitrary parts, nodes and local node tables",
     "There are no unit tests of conversion.",
     [R + "tag/convert.rs", R + "tag/model.rs"], [("model conversion", R + "tag/convert.rs"), ("marker and node tables", R + "tag/model.rs")],
     technique="property-based round trips and field-wise differential comparison")

prop("C21", "Recompressing vertices preserves geometry",
     "Packing level and model vertices and unpacking them again keeps positions and texture coordinates of the uncompressed form exactly where they are stored in full, keeps directions within quantisation error, and keeps vertex order and count; regenerating one form from the other leaves the source form untouched and is idempotent, and restoring a missing form reports a fix exactly when it changed the model. "
     "Vertex data whose size does not match its count is refused, not misread.",
     ["inputs"], "arbitrary vertex contents, counts and sizes",
     "There are no unit tests of vertex handling.",
     [R + "tag/scenario_structure_bsp.rs", R + "tag/model.rs"], [("BSP vertices", R + "tag/scenario_structure_bsp.rs"), ("model vertices", R + "tag/model.rs")],
     technique="property-based round trips against reference (un)packing arithmetic")

prop("C22", "Bitmap pixel layout is walked and reordered without loss",
     "Walking a bitmap yields each face, slice and mipmap exactly once with the dimensions and byte range the format prescribes, the ranges tile the pixel data without gap or overlap, for every bitmap type and pixel format. "
     "Swizzling is a permutation of blocks, deswizzling is its inverse, and both match the Morton order the console uses.",
     ["inputs"], "all bitmap types, formats, power-of-two and odd dimensions, mipmap counts",
     "Tests cover a few fixed sizes.",
     [R + "tag/bitmap.rs", R + "tag/bitmap/swizzle.rs"], [("mipmap iterators", R + "tag/bitmap.rs"), ("swizzle", R + "tag/bitmap/swizzle.rs")],
     technique="property-based testing against brute-force enumeration and a reference Morton code")

prop("C23", "Images and colour plates survive import and export",
     "An image exported to TIFF and imported again, or imported from 8-bit PNG, TIFF or JPEG XL, has the same size and the same pixels; a colour plate assembled from loose images contains every source image unscaled in its sequence and can be split back into them; plate data stored in a bitmap tag is recovered exactly. Images are found by their names, also of files with dots in them, and read by their extensions. "
     "Undecodable, unsupported or inconsistent images, plates and plate data (data shorter or longer than its size says) are refused with an error, never a crash.",
     ["inputs"], "arbitrary image sizes, pixels, sequences and damaged files",
     "There are no unit tests of image handling.",
     [R + "data/bitmap.rs", R + "data/bitmap/parse.rs", R + "data/bitmap/plate.rs", R + "tag/bitmap.rs", R + "tag/recover.rs"],
     [("TIFF and PNG codecs", R + "data/bitmap/parse.rs"), ("plate assembly", R + "data/bitmap/plate.rs"), ("recovery", R + "tag/recover.rs")],
     technique="property-based round trips and mutation fuzzing")

prop("C24", "Archives contain the whole dependency closure, byte for byte",
     "Archiving a tag or a scenario produces an archive holding exactly the tag, everything reachable from it (plus, for a scenario, the tags its engine always needs for that type of scenario), each under its own path and with bytes that load to the same tag. "
     "If any of them is missing or unreadable no archive is produced.",
     ["inputs", "configurations"], "generated trees and graphs, all engines and compression levels",
     "There are no unit tests of archiving.",
     [R + "tag/archive.rs", R + "tag/dependency.rs"], [("archive", R + "tag/archive.rs"), ("map dependencies", R + "tag/dependency.rs recursively_get_dependencies_for_map")],
     technique="property-based testing: decode the archive and compare with the model closure")

prop("C25", "Repairing a tag makes it valid and changes nothing valid",
     "Repairing a tag replaces exactly the values that are invalid (NaNs, colours out of range, and the faults of its group that can be repaired: runtime markers, missing vertices and rotations of models, normals of levels, missing sources of scenarios, damaged strings, inconsistent sounds) and leaves every other value as it was; a valid tag is unchanged, and repairing twice is the same as repairing once. "
     "After a successful repair the verifier no longer reports any fault of these kinds, and a tag that is reported as unrepairable is left as it was apart from NaNs and colours.",
     ["inputs"], "all tag groups, generated tags seeded with faults",
     "There are no unit tests of repair.",
     [R + "tag/bludgeon.rs", R + "tag/bludgeon"], [("repairs", R + "tag/bludgeon/*.rs")],
     technique="property-based fault seeding with a field-wise oracle, plus verify-after-repair")

prop("C26", "Decompiled scripts mean what the compiled scripts mean",
     "The source text recovered from compiled scenario scripts and globals, when parsed, yields the same globals and scripts in the same order with the same types and the same expression trees as the compiled form. "
     "Corrupt script data (bad node references, cycles, missing terminators) is refused with an error and never crashes or loops.",
     ["programs", "inputs"], "generated script programs compiled to node tables, and mutated tables",
     "There are no unit tests of script decompilation.",
     [R + "tag/scenario.rs"], [("script decompiler", R + "tag/scenario.rs decompile_scripts")],
     technique="generate program, compile with a reference compiler, decompile, parse, compare")

prop("C27", "Animation frame data is measured and converted exactly",
     "The frame layout derived from an animation's type, frame count and node flags covers its frame data exactly, each element once in order with its width; converting the data between byte orders swaps each element and nothing else, and doing it twice restores the original. "
     "On extraction, uncompressed animations whose frame data, default data or frame info is shorter or longer than their layout asks for, and any that have more than 64 nodes, are refused.",
     ["inputs"], "all animation types, node counts and flag patterns",
     "There are no unit tests of animations.",
     [R + "tag/model_animations.rs", R + "map/extract.rs"], [("frame data layout", R + "tag/model_animations.rs FrameDataIterator")],
     technique="property-based testing against a reference layout computation")

prop("C28", "A cache file is recognised as exactly the engine that made it",
     "A map header carrying an engine's version number and build string is recognised as that engine or the documented fallback, in normal and demo layout, and name, build, type, checksum, sizes and offsets are read as stored; a file that is too short or lacks the markers of either layout, and a version no engine uses, is refused. "
     "The engine tables are consistent: names unique and in order so that lookup finds them, inherited settings present, at most one default per version.",
     ["inputs", "configurations"], "all engines and builds, arbitrary header contents",
     "There are no unit tests of headers or engine matching.",
     [R + "map/header.rs", R + "map.rs", "src/ringhopper-engines-codegen/src/lib.rs", "src/ringhopper-definitions/json/engine", P + "engine.rs"],
     [("header parsing", R + "map/header.rs"), ("engine selection", R + "map/util.rs, " + R + "map.rs")],
     technique="generated headers for every engine against the engine table snapshot")

prop("C29", "Extracting a map gives back the tags it was built from",
     "For a PC cache file built from a set of tags, the map lists exactly those tags under their paths, and each extracted tag carries the values it was built from, with cache-only data dropped and cache-side transformations undone (index and reference fixups, per-tick scaling, detail level order, vertices, byte order of scripts, sounds and animations, pixel data from internal or resource storage, where a tag is read from the entry the map names for it). "
     "Level geometry is read from its own section of the scenario that owns it. A map that contradicts itself (a path listed twice, no or several scenarios, a level without or with two sections, parts outside the file, the resource maps of another map) is refused, in strict mode also one whose contents do not match its checksum.",
     ["inputs", "configurations"], "generated tag sets built into cache files by a reference builder for every supported PC engine",
     "The repository has no map fixtures and no tests of map reading.",
     [R + "map/gearbox.rs", R + "map/extract.rs", R + "map/util.rs", P + "map.rs", "src/ringhopper-structs-codegen/src/lib.rs"],
     [("tag table and address domains", R + "map/gearbox.rs"), ("generated cache readers", "src/ringhopper-structs-codegen/src/lib.rs read_from_map"), ("extraction fixups", R + "map/extract.rs")],
     technique="reference cache-file builder, extract, field-wise comparison")

prop("C30", "Console maps extract like their PC counterparts, compressed or not",
     "For a console cache file built from a set of tags, extraction gives those tags back with console-side transformations undone (swizzled textures, separately stored cube faces, compressed vertices, fixed buffers), whether the file is stored plain or compressed. "
     "A compressed file whose contents do not match its header is refused.",
     ["inputs", "configurations"], "generated tag sets built for each console engine, plain and compressed",
     "There are no tests of map reading.",
     [R + "map/xbox.rs", R + "map/extract.rs", R + "map/util.rs"], [("console map reader", R + "map/xbox.rs"), ("decompression", R + "map/util.rs decompress_map_data")],
     technique="reference cache-file builder, extract, field-wise comparison")

prop("C31", "Hostile map files are refused without crashing",
     "Opening any byte string as a cache or resource map, and extracting every tag it lists, ends in tags or errors: no panic, abort, endless loop, or memory request out of proportion to the file. "
     "In strict mode any damage to checksummed map content is refused.",
     ["inputs", "fault_sequences"], "mutated valid maps of every engine and arbitrary bytes",
     "There are no tests of map reading.",
     [R + "map.rs", R + "map/gearbox.rs", R + "map/xbox.rs", R + "map/resource.rs", R + "map/util.rs", R + "map/header.rs", R + "map/extract.rs"],
     [("bounds-checked map access", P + "map.rs, " + R + "map/util.rs"), ("checksum", R + "map/gearbox.rs")],
     technique="structure-aware mutation fuzzing of built maps with an allocation guard")

prop("C32", "Resource maps return the stored resource under its name",
     "Every entry of a resource map is found by its index and by its name, with exactly the bytes stored for it, for each kind of resource map; an absent name or index is reported as absent. "
     "A table that points outside the file or names no string is refused.",
     ["inputs"], "generated and mutated resource maps",
     "There are no tests of resource maps.",
     [R + "map/resource.rs"], [("resource table", R + "map/resource.rs ResourceMap")],
     technique="model-based property testing of built resource maps")

prop("C33", "The verifier reports every fault it checks for and nothing else",
     "Verifying a scenario examines the scenario, the tags its engine always needs and every tag reachable from them, reports a clean tree as clean, and reports each fault it checks for (a reference to a group that is not allowed or not supported, a NaN or a colour out of range, an index out of bounds, missing or short lists, lists of strings, pixels, vertices or sounds that are not valid, a referenced tag that cannot be read or has errors itself) against the tag that has it, once per occurrence. "
     "A scenario with missing tags is refused with an error. The report does not depend on how many worker threads are used or how they interleave.",
     ["inputs", "schedules"], "generated scenario trees with seeded faults, one to eight threads",
     "There are no unit tests of the verifier.",
     [R + "tag/verify.rs", R + "tag/verify", R + "tag/result.rs"], [("verification driver", R + "tag/verify.rs verify"), ("checks", R + "tag/verify/*.rs")],
     technique="property-based fault seeding against an expected-report model, repeated over thread counts")

prop("C34", "Command lines mean the same however they are spelled",
     "Long and bundled short options, in any order around positional arguments, yield the values given, with defaults where absent; unknown options, missing values, repeats of single options, unparsable values, missing required options and a wrong number of positionals are refused with a message. "
     "Parsing any argument list ends in values or an error, never a crash. Asking a verb for help shows its options, each taken under both of its names with the values shown, and does nothing else.",
     ["inputs"], "generated option sets and argument lists",
     "Tests try a few fixed command lines.",
     ["src/invader/src/cli.rs"], [("argument parser", "src/invader/src/cli.rs CommandLineParser")],
     technique="differential property-based testing against a reference parser")

prop("C35", "Batch commands process every matching tag exactly once",
     "A batch command applied to a pattern changes exactly the tags that match, each as the single-tag operation would, whatever the number of jobs; a tag that fails is reported and does not stop or affect the others; the totals printed are those of the tags. "
     "With a copy-on-write directory the original directory is never modified, and rerunning the command changes nothing more.",
     ["inputs", "schedules", "configurations"], "generated tag directories, patterns, verbs and job counts",
     "There are no tests of the command-line verbs.",
     ["src/invader/src/threading.rs", "src/invader/src/verb", R + "tag/tree.rs"],
     [("work queue", "src/invader/src/threading.rs do_with_threads"), ("verbs", "src/invader/src/verb/*.rs")],
     technique="end-to-end model-based testing of the built command-line tool on scratch directories")

prop("C36", "Sound data is measured, judged and repaired exactly",
     "Sample rates and channel counts map one to one to their numeric values in both directions; the buffer size, channel count and sample rate reported for a permutation are those of its data, raw PCM and Ogg Vorbis alike, and unreadable or unsupported data is refused with an error. "
     "A sound is judged playable exactly when its block sizes, formats, stored metadata, split-permutation links and counts agree with its data; repairing a sound sets exactly the stored values that disagree and makes it playable, or refuses it unchanged when its data is inconsistent; no damaged sound crashes or hangs any of these.",
     ["inputs"], "all formats, rates, channel counts and sample buffers, Ogg Vorbis streams whole and cut, damaged sound tags",
     "There are no unit tests of sound handling.",
     [R + "tag/sound.rs", R + "tag/bludgeon/sound.rs", R + "tag/verify/sound.rs"], [("sound metadata", R + "tag/sound.rs"), ("playability", R + "tag/verify/sound.rs"), ("repair", R + "tag/bludgeon/sound.rs")],
     technique="property-based testing against reference arithmetic")

prop("C37", "Recovered sources are what the tag holds and stay in the data directory",
     "Recovering the sources of a tag yields exactly the content stored in it (every script source and the string list as text that compiles to the same list), each in a file of its own under the name the tag gives it, and leaves the tag as it was. "
     "Whatever names and contents a tag holds, recovery never names a file outside of its place in the data directory, never puts two sources in one file and never crashes; what cannot be recovered like that is refused.",
     ["inputs"], "scenarios with arbitrary script source names and contents, string lists whole and broken",
     "There are no unit tests of recovery; the names come from untrusted tags.",
     [R + "tag/recover.rs", "src/invader/src/verb/recover.rs"], [("recovery functions", R + "tag/recover.rs get_recover_function"), ("script names", R + "tag/recover.rs")],
     technique="property-based testing against a reference rendering, hostile names included")

prop("C38", "Reports of the command line are exact and change nothing",
     "Listing the dependencies of a tag (direct, reverse, recursive) or the tags of a scenario names exactly those tags, and the dependency tree draws every reference at its depth, marking broken and circular ones, within the depth asked for. Comparing two tags, directories or maps reports every tag that differs, with the fields that do, and every tag missing on one side; verifying a scenario prints the issues of the verifier and their number; describing a map or listing engines prints what the map and the engine tables hold. "
     "What is asked about something that is not there or not readable is refused with an error; no report changes a file.",
     ["inputs", "configurations"], "generated tag directories and maps, all reporting verbs and their options",
     "There are no tests of the command-line verbs.",
     ["src/invader/src/verb", R + "tag/dependency.rs", R + "tag/compare.rs", R + "tag/verify.rs"], [("reporting verbs", "src/invader/src/verb/{dependency_list,dependency_tree,compare,verify_scenario,info,list_engines}.rs")],
     technique="end-to-end model-based testing of the built command-line tool on scratch directories")

prop("C39", "Command-line extraction, archiving and renaming do exactly what was asked",
     "Extracting from a map writes exactly the selected tags (with everything they need, where asked) as the library extracts them, and keeps existing files and shared globals unless told otherwise; archiving a tag or scenario produces exactly its closure, or nothing if something is missing; renaming paths or groups moves the tags and rewrites the references exactly as the library does. "
     "Tags that cannot be handled are reported; sources of data are never modified, and a refused command leaves everything as it was.",
     ["inputs", "configurations"], "generated maps and tag directories, selections, overwrite and recursion options",
     "There are no tests of the command-line verbs.",
     ["src/invader/src/verb", R + "map/extract.rs", R + "tag/dependency.rs"], [("transferring verbs", "src/invader/src/verb/{extract,archive,refactor_groups,refactor_paths}.rs")],
     technique="end-to-end model-based testing of the built command-line tool on scratch directories")
