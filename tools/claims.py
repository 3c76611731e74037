BASE = "Random generation with shrinking; samples, does not enumerate. "
CLAIMED = {
 "C01": "Generated tags only; list lengths up to 40, raw data up to 300 bytes, at most 30 kB per tag.",
 "C02": "Differential against an interpreter of a layout snapshot taken from the base commit.",
 "C03": "One injected fault per case.",
 "C04": "Mutation and generation based fuzzing without coverage feedback; allocation guard and CPU limit per case.",
 "C05": BASE + "Path strings up to about 60 characters; every ASCII character and a range of Unicode.",
 "C06": "All groups, enumerations and flag sets of the layout are visited; identifiers and codes are sampled.",
 "C07": BASE + "All 8/16-bit codes are enumerated over time.",
 "C09": BASE + "Selectors up to the nesting depth of the generated tag; ranges up to the list length.",
 "C10": BASE + "The default tables are those of the layout snapshot plus the group rules restated in the harness; lens flare rotations within rounding of 360 degrees are avoided.",
 "C11": BASE + "Rounding is compared with exact decimal arithmetic on the shortest decimal rendering.",
 "C12": BASE + "Up to 6 strings of 4 lines, collections up to 10 lines.",
 "C13": BASE + "Patterns up to about 100 characters, paths up to 120.",
 "C14": BASE + "Histories up to 24 operations on up to 4 layers and 6 tags, on the real file system in a scratch directory.",
 "C15": BASE + "Histories up to 30 operations; thread interleavings are whatever the operating system produces.",
 "C16": BASE + "Trees of up to 9 tags, with and without the cache.",
 "C17": BASE + "Trees of up to 14 tags in one or two layers on the real file system; 1 to 6 threads; obstacles: files and directories in the way, damaged tags.",
 "C18": BASE + "One tag of up to about 2 kB per case.",
 "C24": BASE + "Trees of up to 8 tags, or a scenario with every tag its engine needs, all 21 engines; unpacked by an independent use of the 7z reader.",
 "C08": BASE + "Names up to 38 bytes, wide text up to about 24 characters.",
 "C20": BASE + 'Models of up to 60 nodes, 3 geometries and 60 vertices per part; every convertible pair of groups; all pairs of groups for what is offered.',
 "C21": BASE + 'Up to 60 vertices per part or material; directions compared with half a quantisation step, everything else exactly.',
 "C26": BASE + 'Programs of up to some hundred nodes (up to 60,000 for the long ones); corruptions judged by an independent reading of the node table; sharing of nodes left undecided.',
 "C22": BASE + 'Sides up to 4096, all bitmap types and 14 formats against nested-loop enumeration; swizzling up to 256x256 and 32x32x32.',
 "C28": BASE + 'Headers of every engine, near misses and damage; the engine table is compared with the one recorded from the base commit.',
 "C32": BASE + 'Up to 40 resources per map, parts of the file in any order.',
 "C36": BASE + 'Ogg Vorbis streams come from the libvorbis encoder the crate links, up to 9000 samples; sounds of up to 3 ranges of 5 permutations.',
 "C34": BASE + 'an independent reference parser decides every generated argument list over random option sets; constructive cases spell the same values in two ways',
 "C29": BASE + 'Cache files for all eleven PC engines are built from generated tags (every group) and extracted again: listed tags, values, checksum, refusals.',
 "C30": BASE + 'Console cache files for all ten Xbox engines, plain and compressed, are built from generated tags and extracted again; damaged compressed files are refused.',
 "C31": BASE + 'Damaged, aimed-at and made-up cache files for all engines are opened and every listed tag extracted under panic, allocation and time guards; one recorded finding (shared lists).',
 "C27": BASE + 'All frame and default data layouts for up to 64 nodes, and maps whose animations (compressed and not, intact or with one thing wrong) are extracted and compared byte for byte with the data they were built from, or must be refused.',
 "C33": BASE + 'Scenarios with the tags the engine needs and up to sixteen others; verified with one thread and with two, three or eight under seeded delays, from shared, copied and cached tag trees.',
 "C25": BASE + 'Tags of every group with faults at five rates, and whole scenario trees repaired and then verified; scripts are decompiled by the code under test in the expected result (C26 decides it).',
 "C23": BASE + "own PNG, TIFF and JPEG XL encoders and a plate splitter, independent of the library's; damage search over whole files",
 "C35": BASE + 'the built program run end to end against a sequential one-tag-at-a-time model; schedules are whatever the threads do',
 "C19": BASE + 'every group, edits of every kind of field and list lengths; both directions and abbreviated mode.',
 "C37": BASE + 'up to eight script sources with odd and hostile names; string lists whole and broken.',
 "C38": BASE + 'the built program run end to end; printed text compared with one made from the generated model.',
 "C39": BASE + 'the built program run end to end on generated maps of all engines and generated trees.',
}
LEVEL = {}
NOT_CLAIMED = {}
HOOKS = None
NOTES = "One Rust harness (harness/) runs every check; see DESIGN.md."
