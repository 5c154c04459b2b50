#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

PRE = "libs/preprocessor/src/"
prop("P01", "Conditional directives select exactly the taken branches",
 "When a file is preprocessed, a line between conditional directives (#if, #ifdef, #ifndef, #else, #endif) takes effect - output, definition, removal, inclusion, diagnostics - exactly when every conditional enclosing it selects its branch, at any nesting depth, and a line in an unselected branch has no effect at all. "
 "#ifdef/#ifndef ask whether the name is a macro defined at that point, #if compares the values at that point (equal/not equal as text, the ordering operators as numbers, a lone macro against 1). "
 "A conditional left open at the end of the input, a second #else for one conditional, or an #else with no open conditional is reported as an error: it is never silently accepted and never crashes.",
 ["programs", "inputs"], "for every sequence of directives and text lines, at every nesting depth, inside included files as well",
 "The tests preprocess about twenty fixed files with at most two levels of nesting; the space of nestings, orders of else/endif and conditions interleaved with define/undef is not sampled, and malformed structures have only three examples.",
 [PRE+"ifstate.rs", PRE+"processor/directives.rs", PRE+"processor/mod.rs"],
 [("stack of open conditionals", PRE+"ifstate.rs"), ("branch decision and skipping", PRE+"processor/directives.rs"), ("lines walked only while reading", PRE+"processor/mod.rs")],
 [("open conditionals", "which branch of each open conditional is being read", PRE+"ifstate.rs")],
 ["text of the processed output", "error code returned"])
prop("P02", "Macro expansion substitutes exactly the current definitions",
 "Every use of a macro outside a quoted string is replaced by the expansion of the definition in force at that use (the latest one not removed): a value macro by its body, a function macro by its body with each parameter replaced by the corresponding argument, # turning a parameter into a quoted string and ## joining its neighbours, with names produced by a body expanded in turn, and everything else copied unchanged in order. "
 "A macro is not expanded again inside its own expansion, quoted text is never expanded, and arguments are split only at commas that are not inside quotes. "
 "A call with the wrong number of arguments, a function macro used without arguments, a name defined without a value used as text, and an attempt to redefine a built-in are reported as errors, and redefining a macro that is currently defined is warned about.",
 ["programs", "inputs"], "for every set and order of definitions, removals and uses, including nested calls and redefinitions",
 "Existing tests are a fixed corpus of snapshots; they never vary the order of define/undef/use, argument shapes or nesting, so a scoping or substitution slip in an unlisted combination goes unnoticed.",
 [PRE+"processor/defines.rs", PRE+"processor/mod.rs", PRE+"defines.rs", PRE+"processor/directives.rs"],
 [("definition table and per-call argument frames", PRE+"defines.rs"), ("use of a macro", PRE+"processor/defines.rs"), ("token walk with quoting", PRE+"processor/mod.rs"), ("output assembly, dropping joins", "libs/workspace/src/reporting/processed.rs")],
 [("definitions", "name -> value / function / empty, global plus one frame per active call", PRE+"defines.rs")],
 ["text of the processed output", "warnings", "error code returned"])
prop("P03", "Includes splice files in place; built-in macros count and locate correctly",
 "An #include contributes exactly what the included file contributes when processed at that point with the definitions in force, and its definitions and removals stay in force afterwards; relative includes are resolved from the file that contains the directive, and a missing file is an error. "
 "The counter macro yields 0, 1, 2, ... in order of use over the whole run, restarting at 0 after a reset; the line macro yields the line of its use in its own file and the file-name macros the name of that file. "
 "Preprocessing the same files again gives the same result.",
 ["programs", "inputs"], "for every tree of files including one another (acyclic), with any interleaving of definitions and counter uses",
 "Tests include one or two levels of fixed files; they do not vary include graphs or the interleaving of counter uses, resets and includes.",
 [PRE+"processor/directives.rs", PRE+"defines.rs", PRE+"processor/mod.rs"],
 [("include stack", PRE+"processor/directives.rs"), ("generated built-ins", PRE+"defines.rs")],
 [("file stack", "the chain of files being processed", PRE+"processor/mod.rs"), ("counter", "next counter value", PRE+"defines.rs")],
 ["text of the processed output", "error code returned"])
prop("P04", "Every piece of processed output maps back to the source it came from",
 "For every character offset of the processed output, looking the offset up names the source file, the line and the span the character comes from: for text copied from the file its own token, for text produced by a macro the use of the outermost macro that produced it. "
 "The list of pieces the output was assembled from covers it completely, in order and without gaps, and names for each piece its own token: the source text in its span is the text of the piece (for text generated by a built-in, the built-in's name, and for the quotes made by #, the #), and its line is the line of that span.",
 ["programs", "inputs"], "for every input, with includes, macros, multi-line macro bodies, comments, strings and non-ASCII text",
 "Snapshot tests show the diagnostics for a few files; a position slip after a comment, a multi-line macro or an include is only visible for inputs that have one there.",
 ["libs/workspace/src/reporting/processed.rs", PRE+"parse/mod.rs", PRE+"processor/mod.rs"],
 [("mapping table", "libs/workspace/src/reporting/processed.rs"), ("token positions", PRE+"parse/mod.rs")],
 [("mappings", "output span -> source span", "libs/workspace/src/reporting/processed.rs")],
 ["lookup of an output offset"])
prop("P05", "In-source pragmas suppress and flag within their declared scope only",
 "The padded-argument warning is reported for a macro call exactly when no suppression of it is in force: one with line scope holds to the end of the next text line, file scope to the end of the file it appears in (not its includes or includers), config scope from there on in that file and in files included from it; a wider scope already in force is never narrowed by a later pragma. "
 "The flag that exempts the formatting macros, and the flag that skips an include-existence condition (which also marks the result as not to be binarized), follow the same scopes. "
 "An unknown pragma command, code or scope is an error, and pragmas in unselected branches have no effect.",
 ["programs", "histories"], "for every interleaving of pragmas, text lines, conditionals and includes",
 "Tests contain a single example per pragma; scope nesting, ordering and inheritance through includes are not explored.",
 [PRE+"processor/pragma.rs", PRE+"processor/directives.rs", PRE+"processor/defines.rs"],
 [("scope table and inheritance", PRE+"processor/pragma.rs"), ("suppression test at a call", PRE+"processor/defines.rs")],
 [("active suppressions and flags", "code -> scope, one table per file being processed", PRE+"processor/pragma.rs")],
 ["warnings of the processed output", "not-to-be-binarized mark"])

CFG = "libs/config/src/"
prop("C01", "A binarized config decodes to exactly the source class tree",
 "Whenever a config is accepted without errors, the binary written for it, when decoded by the documented layout (offsets, counts, type tags), yields exactly the classes, parents, forward declarations, deletions, properties, arrays (nested and appended) and values of the source, in source order. "
 "Every class offset points at that class's body, the enum table is where the header says, and the whole file is consumed.",
 ["programs", "inputs"], "for every config tree: any nesting, any mix of entry kinds, value types and sizes",
 "Tests binarize five fixed configs and compare stored bytes; offset arithmetic depends on entry kinds, nesting and body sizes, which they do not vary.",
 [CFG+"rapify/mod.rs", CFG+"rapify/config.rs", CFG+"rapify/class.rs", CFG+"rapify/array.rs", CFG+"rapify/value.rs", CFG+"rapify/property.rs"],
 [("length prediction used for offsets", CFG+"rapify/class.rs"), ("compressed integers", "libs/common/src/io/write.rs")],
 [("class body offset", "absolute position of each class body", CFG+"rapify/class.rs")],
 ["bytes produced for a config"])
prop("C02", "Duplicate and dangling names in configs are reported exactly",
 "A config is reported as having a duplicate property exactly when two properties, or a property and a class, of one class (the bodies given under one class path, ignoring case, count as one) or of the top level have names that are equal ignoring case, and as having a duplicate class exactly when two class declarations (with a body or without) of one body or of the top level do; the same name in different classes is never reported. "
 "A class whose parent name is not declared (defined or forward-declared, ignoring case) anywhere before it in the config is reported as having a missing parent, unless it names itself, and a parent spelled with a different case than all its earlier declarations, which agree with one another, is reported as a case mismatch.",
 ["programs", "inputs"], "for every tree of classes, properties, forward declarations and inheritance",
 "Each lint has one or two snapshot inputs; nesting, ordering and case combinations are not explored.",
 [CFG+"analyze/lints/c02_duplicate_property.rs", CFG+"analyze/lints/c03_duplicate_classes.rs", CFG+"analyze/lints/c04_external_missing.rs", CFG+"analyze/lints/c05_external_parent_case.rs"],
 [("scope walk", CFG+"analyze/lints/c03_duplicate_classes.rs"), ("declared set", CFG+"analyze/lints/c04_external_missing.rs")],
 [("declared classes", "names visible at a point of the walk", CFG+"analyze/lints/c04_external_missing.rs")],
 ["diagnostics of a parsed config"])
prop("C03", "Config text is parsed into the values it spells, or rejected",
 "Every well-formed config (classes, properties, arrays, strings, numbers and arithmetic on them, comments between them) is accepted and gives the classes, names and values as spelled: strings with doubled quotes undone, integers and decimals as numbers, arrays element by element. "
 "A property without a terminating semicolon, an array assigned to a name without [] and a scalar assigned to a name with [], or a malformed value is reported as an error rather than accepted or dropped, and parsing never crashes.",
 ["programs", "inputs"], "for every config text assembled from the grammar with any single malformation",
 "The parser tests check single literals; combinations of value kinds, spacing and malformations inside nested classes are not explored.",
 [CFG+"parse/mod.rs", CFG+"parse/property.rs", CFG+"parse/value.rs", CFG+"parse/array.rs", CFG+"parse/number.rs", CFG+"parse/str.rs"],
 [("property parser with recovery", CFG+"parse/property.rs"), ("invalid nodes turned into diagnostics", CFG+"analyze/lints/c01_invalid_value.rs")],
 (), ["parsed config", "diagnostics"])

PBO = "libs/pbo/src/"
prop("B01", "A packed archive returns exactly the files put into it",
 "After any sequence of adding, replacing and property operations (names and keys are not empty and contain no NUL), writing the archive and reading it back yields exactly the files last put in (each once, under its name with backslashes, with its exact bytes and header fields) and exactly the properties last set (with surrounding backslashes trimmed), the prefix property first. "
 "Lookup of a file by name ignores case and slash direction, and the offset reported for a file is where its bytes are.",
 ["histories", "inputs"], "for every sequence of operations and every set of names (distinct ignoring case) and contents, empty and large files included",
 "Tests pack one or two files of a few bytes and read three sample archives; operation sequences, name orders and large files are not explored.",
 [PBO+"write.rs", PBO+"read.rs", PBO+"file.rs", PBO+"model/header.rs"],
 [("name table of the writable archive", PBO+"write.rs"), ("blob start and sequential offsets", PBO+"read.rs")],
 [("files", "name -> (bytes, header)", PBO+"write.rs"), ("properties", "ordered map", PBO+"write.rs")],
 ["archive bytes", "files, properties and headers read back"])
prop("B02", "Archives are canonical and their checksum covers every byte",
 "The bytes of an archive depend only on its final files and properties, not on the order or history of additions of files: entries are sorted by name ignoring case, and writing the same content again gives identical bytes. "
 "The checksum stored at the end, the one returned by writing, the one recomputed by reading and the hash of all bytes before it are equal, and an archive whose trailer is missing, truncated or followed by extra data is rejected.",
 ["histories", "inputs", "fault_sequences"], "for every content and insertion order, and every single-byte corruption or truncation of the written archive",
 "Tests compare the checksum of three sample archives; large-file and multi-file paths, orders and corruptions are not explored.",
 [PBO+"write.rs", PBO+"read.rs"],
 [("sorted emission", PBO+"write.rs"), ("hash while writing, parallel for large files", PBO+"write.rs"), ("trailer check", PBO+"read.rs")],
 (), ["archive bytes", "checksums"])
SIG = "libs/signing/src/"
prop("S01", "A signature verifies exactly for the content and key that made it",
 "A signature made with a private key over an archive verifies with that key's public key against that archive (for each signature version), whatever the archive contains. "
 "It does not verify if the bytes of any file, any file name, the set of non-empty files or the prefix differ, nor with the public key of another private key - even one with the same authority name - nor if the signature itself was altered (its authority, key, any of its three values, or its version where the two versions sign different files). "
 "An archive whose entries are not in sorted order is never accepted.",
 ["inputs", "histories", "fault_sequences"], "for every archive content, key pair, signature version and single alteration of archive, signature or key",
 "Tests sign and verify two sample archives with matching keys; they never verify with a wrong key, a tampered archive or a tampered signature.",
 [SIG+"lib.rs", SIG+"private.rs", SIG+"public.rs", SIG+"signature.rs"],
 [("three chained hashes", SIG+"lib.rs"), ("comparison of the recovered hashes", SIG+"public.rs"), ("per-version file selection", "libs/common/src/sign_version.rs")],
 [("signed hashes", "checksum; names; file contents", SIG+"lib.rs")],
 ["result of verification"])
prop("S02", "Key and signature files survive a write/read round trip",
 "Writing a private key, public key or signature and reading it back yields an equal object that behaves the same (signs, verifies, same authority, version and length), and the public key derived from a private key before and after the round trip is the same. "
 "The files have the layout the game's own tools use. A truncated file, or one whose label or sizes do not fit together, is reported as an error: it is never read as a different valid key and never crashes.",
 ["inputs", "histories", "fault_sequences"], "for every generated key, authority name, signature version, and every truncation of the file",
 "Tests write one generated key to memory without reading it back and read two sample files.",
 [SIG+"private.rs", SIG+"public.rs", SIG+"signature.rs", SIG+"lib.rs"],
 [("length-prefixed little-endian big integers", SIG+"lib.rs")],
 (), ["key and signature files"])
WS = "libs/workspace/src/"
prop("L01", "Lint configuration resolves to the documented severity and enablement",
 "A lint runs exactly when it is enabled after applying the project's override to its default (on/off, severity, options each overridden independently), except that a lint whose minimum severity is error can be neither disabled nor lowered: such a configuration is rejected, as is any severity below a lint's minimum and two lints with the same name. "
 "Each lint that runs is invoked once per matching target with its resolved severity and options, in the order in which the lints were added; a group of lints is invoked once per target with the resolved configurations of exactly its enabled lints, and not at all when none is.",
 ["configurations", "histories"], "for every set of lints (alone and grouped), default configuration, minimum severity and project override",
 "Lint manager tests check a handful of fixed combinations with one or two lints.",
 [WS+"lint/mod.rs", "libs/common/src/config/project/lint.rs"],
 [("validation of overrides", WS+"lint/mod.rs"), ("override application", "libs/common/src/config/project/lint.rs")],
 [("registered lints", "ordered list with defaults and minimum severities", WS+"lint/mod.rs")],
 ["lints invoked and the configuration they receive", "diagnostics returned"])
ST = "libs/stringtable/src/"
prop("T01", "Sorting a stringtable only reorders it",
 "Sorting a stringtable and writing it keeps every package, container, key, translation and comment, with comments still in front of what they preceded, and changes only the order: packages by name, containers and keys by name and id within each package and container, translations in the order of the languages. The meaning of every text, name and id is kept; only the way markup in it is escaped may change. "
 "Writing without sorting changes only the order of the translations within a key. Sorting twice gives the same text as sorting once, reading the written text back gives the same table and writing that the same text, and the stringtable lint reports, at its configured severity, a table exactly when its text differs from its sorted form (from the form with only its languages sorted, when it is configured so). A file that has a language twice in one key, or that is no project of packages, is rejected.",
 ["inputs", "histories"], "for every stringtable of the known languages, with one element or closing tag a line: packages, nested containers, keys, subsets of languages, comments in any position, escaped characters, CDATA",
 "Tests sort three fixed files; nesting, comment placement, escapes and idempotence on other inputs are not covered.",
 [ST+"lib.rs", ST+"package.rs", ST+"key.rs", ST+"analyze/lints/01_sorted.rs"],
 [("recursive sort", ST+"package.rs"), ("comment side table", ST+"lib.rs"), ("language order of the key fields", ST+"key.rs")],
 (), ["written text", "lint result"])
prop("T02", "Stringtable totals count every translation exactly once",
 "For every stringtable, the totals report the number of keys and, for each language, the number of keys that have a translation in it, counting keys in packages and in containers at any depth exactly once.",
 ["inputs"], "for every stringtable shape and subset of languages per key",
 "No existing test computes totals.",
 [ST+"totals.rs", ST+"package.rs"], [("recursive count", ST+"totals.rs")], (), ["totals"])
prop("W01", "Paths resolve to the right file through layers and prefixes",
 "A path requested from a file - slashes and backslashes alike - resolves to the file or directory at that absolute workspace path if there is one, else - when it starts with a known prefix, ignoring case; the longest counts - to the one at that place below the directory that declares the prefix; if there is none, to one at that place on disk (in the project, then in its include directory) ignoring case, which is then reported as a mismatch of case; a relative path resolves next to the requesting file; otherwise it is reported as not found. "
 "When several layers hold the same path the layer added last provides it, writes go to that layer alone and are what is read afterwards, and a path is reported as coming from an include layer exactly when an include layer has it. A path's name in the game is the prefix (in lower case) declared by the nearest directory above it followed by the rest of the path.",
 ["configurations", "inputs", "histories"], "for every arrangement of layers, files, prefix declarations and requested paths",
 "Tests resolve a few fixed paths in one project layout.",
 [WS+"path.rs", WS+"lib.rs"],
 [("resolution order", WS+"path.rs"), ("prefix discovery", WS+"lib.rs")],
 [("prefix pointers", "prefix -> directory", WS+"lib.rs"), ("layers", "ordered file systems", WS+"lib.rs")],
 ["resolved path and its content"])
prop("W02", "Addon discovery finds every addon once and rejects clashes",
 "Scanning a project finds exactly the directories directly below addons and optionals, each once with its name, location, prefix (from the first of the known prefix files it has) and own configuration. "
 "A directory without a prefix file (named all in lower or all in upper case), an invalid prefix or configuration, and two addons whose names are equal ignoring case, whether in the same or in different locations, are rejected; otherwise the scan succeeds. Opening the project as a workspace rejects two prefix files that declare the same prefix, ignoring case, and invalid ones.",
 ["configurations"], "for every arrangement of addon directories, names and prefix files",
 "Tests scan one fixed project.",
 [WS+"addons.rs", WS+"lib.rs", "libs/common/src/prefix.rs"],
 [("duplicate detection", WS+"addons.rs"), ("prefix table", WS+"lib.rs")], (), ["list of addons or error"])
CM = "libs/common/src/"
prop("J01", "Launch presets resolve their inheritance chain deterministically",
 "A launch preset's effective options are those of its whole chain of extended presets: each list holds the entries of the chain's lists, sorted and without repeats, and each single-valued option is taken from the nearest preset that sets it. "
 "A preset that extends a missing preset, or whose chain returns to a preset already visited (directly or through others), is rejected; loading always terminates and does not depend on the order of the presets in the file. "
 "Overlaying one preset on another lets the later one win every single-valued option it sets and appends its lists.",
 ["configurations"], "for every finite set of presets and extends graph",
 "Tests have one two-preset chain, one missing and one self-extension; cycles through several presets and longer chains are never tried.",
 [CM+"config/project/hemtt/mod.rs", CM+"config/project/hemtt/launch.rs"],
 [("chain walk", CM+"config/project/hemtt/mod.rs"), ("merge of two presets", CM+"config/project/hemtt/launch.rs")],
 [("chain position", "preset being merged", CM+"config/project/hemtt/mod.rs")],
 ["effective launch options or error"])
prop("J02", "The project version is resolved once, from one unambiguous source",
 "The project version is the one given in the configuration if its parts are there, otherwise the one read from the version file (the configured path, or the default script file); giving both parts and a path, only some of the parts, or a build with no other part or together with a path is an error. When the project is a git repository with a commit and the configuration asks for it, the first characters of the commit's id, as many as configured, are appended. "
 "Once resolved, the same version is returned on every later request until it is explicitly invalidated, after which the current content of the file counts.",
 ["histories", "configurations"], "for every configuration and every sequence of file edits, requests and invalidations",
 "Version tests each check one parse; histories of edits and invalidations are not tried.",
 [CM+"config/project/version.rs", CM+"version.rs"],
 [("cached version", CM+"config/project/version.rs")],
 [("cache", "version resolved so far", CM+"config/project/version.rs")],
 ["version returned or error"])
prop("J03", "Project configuration files never silently override one another",
 "A project file is accepted with its options as written and the documented defaults for the rest; when lint or launch options are given both in the project file and in their separate file, loading fails rather than choosing one. "
 "When they are given in only one of the two places, that place takes effect.",
 ["configurations"], "for every combination of options present in the project file and in the separate files",
 "Tests parse fixed project files; combinations with separate lint and launch files are not tried.",
 [CM+"config/project/mod.rs", CM+"config/project/lint.rs", CM+"config/project/hemtt/mod.rs", CM+"config/project/files.rs", CM+"config/project/signing.rs"],
 [("conflict check", CM+"config/project/mod.rs"), ("emptiness test", CM+"config/project/lint.rs")], (),
 ["loaded configuration or error"])
prop("J04", "Version numbers parse, print and compare consistently",
 "A version printed and parsed again is the same version (up to four numeric parts, and a commit suffix after a dash that ends at a second dash); a text that is not a version is rejected without crashing; a decimal number n.d is the version n.d.0; and comparison orders versions by major, minor, patch and build, numerically (a missing build counting as lowest), being reflexive, antisymmetric and transitive and agreeing with equality for versions without a commit suffix.",
 ["inputs"], "for every version text and every pair and triple of versions",
 "Tests check about twenty single parses and a few fixed comparisons.",
 [CM+"version.rs"], [("parser", CM+"version.rs"), ("ordering", CM+"version.rs")], (), ["parsed version", "comparison result"])
prop("J05", "Prefix files give one normalised prefix or an error",
 "A prefix file gives the prefix written bare on its only line, or as `prefix=` (ignoring case) on any of its lines, with surrounding whitespace removed and further key=value lines ignored. "
 "A file without a prefix, or whose prefix is empty, contains a forward slash or starts with a backslash, is an error. The printed forms of a prefix differ only in the separator, agree with its parts, and the printed form reads back as the same prefix.",
 ["inputs"], "for every prefix file text assembled from these parts",
 "Tests check six fixed texts.",
 [CM+"prefix.rs"], [("parser", CM+"prefix.rs")], (), ["prefix or error"])
prop("F01", "Compression is lossless and never leaves its buffers",
 "Decompressing what was compressed gives back the original bytes, for every input of at least one byte; decompressing any other byte sequence into a buffer of any size either fails with an error or yields exactly the bytes the compressed stream describes. "
 "Compressing into less room than the worst case needs fails with an error or gives a stream within that room. Memory outside the two buffers is never touched, by either.",
 ["inputs", "fault_sequences"], "for every input, every well-formed or damaged compressed stream and every output size",
 "One test compresses random bytes, which hardly ever contain matches; instruction kinds, long matches, damaged streams and small buffers are not exercised.",
 ["libs/lzo/src/compress.rs", "libs/lzo/src/decompress.rs", "libs/lzo/src/lib.rs"],
 [("decoder instruction machine", "libs/lzo/src/decompress.rs"), ("match finder and encoder", "libs/lzo/src/compress.rs")],
 [("decoder state", "literal-run state that selects the next instruction's meaning", "libs/lzo/src/decompress.rs")],
 ["compressed and decompressed bytes or error"])
prop("F02", "Model files survive being written and read",
 "Reading a model file yields exactly the elements laid out in it: version, levels of detail with their versions and resolution, points, normals, faces (three or four vertices) with flags, textures and materials, and tags in order; a file with a wrong signature, a face with any other number of vertices, or that ends too early, is rejected with an error however large the counts it names. "
 "Writing a model and reading it gives the same model, and writing what was read from a file gives the bytes of that file up to those that carry nothing (reserved bytes, padding of triangles). A write that cannot be completed is an error.",
 ["inputs", "fault_sequences"], "for every model: any numbers of each element, either face kind, any tags; every truncation, alteration and place where writing fails",
 "One test reads a sample model; writing is not tested.",
 ["libs/p3d/src/lib.rs", "libs/p3d/src/lod.rs", "libs/p3d/src/face.rs", "libs/p3d/src/point.rs", "libs/p3d/src/vertex.rs"],
 [("element readers and writers", "libs/p3d/src/lod.rs")], (), ["model bytes and model read back"])
prop("F03", "Texture containers are read as laid out and written readable",
 "Reading a texture container yields its format, every tag with its bytes, and the mip maps at the non-zero entries of its offset table, in table order with their sizes and data; a container that is truncated, has an unknown format, or mip maps of a format that cannot be unpacked, is rejected with an error. "
 "The picture of a mip map (DXT1, DXT3 or DXT5, as it is or LZO-compressed) has the pixels its blocks describe. "
 "A container written for an image reads back with the same dimensions, with the average and maximum colour of that image as its tags CGVA and CXAM, and with a picture close to it; an image the format has no room for is refused with an error.",
 ["inputs", "fault_sequences"], "for every container layout, tag set, offset table and truncation; every block; every image",
 "Tests read a few sample textures and check sizes only.",
 ["libs/paa/src/paa.rs", "libs/paa/src/mipmap.rs", "libs/paa/src/pax.rs"],
 [("tag loop and offset table", "libs/paa/src/paa.rs"), ("unpacking of a mip map", "libs/paa/src/mipmap.rs")], (), ["tags, mip maps, pixels, bytes written"])
prop("F04", "Models are told exactly the textures and materials they lack",
 "For every model checked, the textures reported missing are exactly those it refers to (other than procedural ones, which begin with #, and empty ones) that cannot be located in the workspace, in the form given or in the form they convert to or from (.paa for .tga or .png, .tga for .paa); the materials reported missing are exactly those that cannot be located. "
 "The result for a model does not depend on which models were checked before it or at the same time with the same cache, nor on whether the reference begins with a backslash.",
 ["inputs", "histories", "schedules"], "for every workspace, every set of models in every order, sequentially or in parallel",
 "There are no tests of it; the shared cache makes results depend on histories and interleavings.",
 ["libs/p3d/src/functions/missing.rs", "libs/workspace/src/path.rs"],
 [("lookup through the shared cache", "libs/p3d/src/functions/missing.rs"), ("resolution of a path", "libs/workspace/src/path.rs")],
 [("search cache", "path to whether it is there, shared by all models of a build", "libs/p3d/src/functions/missing.rs")],
 ["the lists of missing textures and materials"])

prop("E01", "Every PBO built holds exactly its addon, compiled and filtered",
 "For every project, `hemtt build`, `dev` and `release` make one PBO for each addon asked for (dev: optional addons only when chosen, excluded ones never; --just: the ones named), named after prefix and folder, at its place. It holds exactly the files of that addon that no exclude pattern of project or addon names, without addon.toml and prefix files, "
 "with every script that is one also compiled, and every configuration file that is to be rapified replaced or joined by its rapified form made from the file and what it includes; its properties are the version, the prefix of the prefix file, and the properties of project and addon, the addon's winning. "
 "A command fails, with exit code 1, exactly when the project has something wrong in what it compiles: a faulty configuration, script or stringtable, a missing include, a missing prefix, two addons of one name.",
 ["configurations", "inputs"], "for every project: any addons, files, includes, settings and exclude patterns, and any command with its options",
 "The tests build no project through the command line in this configuration, and the others check single modules.",
 ["bin/src/modules/pbo.rs", "bin/src/modules/rapifier.rs", "bin/src/modules/sqf.rs", "bin/src/commands/build.rs", "bin/src/commands/dev.rs", "bin/src/executor.rs", "libs/workspace/src/addons.rs"],
 [("packing", "bin/src/modules/pbo.rs"), ("rapifying", "bin/src/modules/rapifier.rs"), ("compiling", "bin/src/modules/sqf.rs"), ("choosing addons", "bin/src/commands/dev.rs")],
 [("virtual file system", "sources below what was compiled and generated", "libs/workspace/src/lib.rs")],
 ["exit code", "PBOs in .hemttout: paths, properties, entries, contents"])
prop("E02", "Releases are signed completely and archived as built",
 "After a successful `hemtt release` that signs, every PBO of the release has exactly one signature beside it, which is valid for it under the authority and signature version of the project, and the public key of that authority lies in the keys folder it is distributed with: the release's own, or that of the optional mod folder the PBO is in, which has an authority of its own. A release that does not sign has no signatures or keys. "
 "When it archives, releases/ holds the same archive under the latest and the version's name, with exactly the contents of the release folder below the name of the mod; archives of earlier releases stay.",
 ["configurations", "histories"], "for every project, settings of signing, folders, authority and version, and every history of releases",
 "There are no tests of releasing.",
 ["bin/src/modules/sign.rs", "bin/src/modules/archive.rs", "bin/src/commands/release.rs"],
 [("signing of PBOs and keys", "bin/src/modules/sign.rs"), ("archives", "bin/src/modules/archive.rs")], (),
 ["signatures, keys, archives and their contents"])
prop("E03", "What a command leaves depends on the project alone, and is kept apart",
 "After any history of commands and edits, the output folder of a command is what the same command would leave in a fresh checkout; with --just, what was there before and is not built anew stays. A command changes no output folder but its own, no file of the project (other than by a hook that writes to the real file system), and only release changes releases/. "
 "A run that fails leaves in its folder no archive of an earlier run. Files to include are copied beside the addons, from the sources as hooks left them; in dev the folders of the addons are linked and their sources stay as they are.",
 ["histories", "configurations"], "for every history of commands and edits of every project",
 "No test runs two commands.",
 ["bin/src/context.rs", "bin/src/modules/files.rs", "bin/src/modules/file_patching.rs", "bin/src/commands/build.rs", "bin/src/executor.rs"],
 [("output folders", "bin/src/context.rs"), ("copied files", "bin/src/modules/files.rs"), ("links", "bin/src/modules/file_patching.rs")],
 [("output folder", "what a command leaves, removed or kept at the next one", "bin/src/context.rs")],
 ["files in .hemttout, releases/ and the project after every command"])
prop("E04", "Hooks run in order in their phase, and change what they are given",
 "The scripts in a phase's folder run in order of their names when that phase of the command is reached (pre_release and post_release in a release only); what they write, copy, move or remove in the virtual file system is what later phases compile, pack and copy, and never reaches the project; what they write to the real file system does. "
 "A script is told the mode, and the version as it is when it begins. A script that fails - it throws, says fatal, removes what is not there, calls a script that is missing or fails - fails the command with exit code 1 after the scripts of that phase, and later phases are not reached; a script that cannot be parsed fails it before anything runs. `hemtt script` runs a script of the project the same way.",
 ["configurations", "histories", "fault_sequences"], "for every set of hooks in every phase, every sequence of operations in them, and every command",
 "One test runs a few hooks of a sample project.",
 ["bin/src/modules/hook/mod.rs", "bin/src/modules/hook/libraries/hemtt.rs", "bin/src/modules/hook/libraries/vfs/file.rs", "bin/src/modules/hook/libraries/vfs/path.rs", "bin/src/modules/hook/libraries/rfs/file.rs"],
 [("phases and order", "bin/src/modules/hook/mod.rs"), ("operations on files", "bin/src/modules/hook/libraries/vfs/path.rs")],
 [("virtual file system", "layer in memory above the project, of one run", "libs/workspace/src/lib.rs")],
 ["exit code", "files made by scripts in PBOs, output folders and project"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
