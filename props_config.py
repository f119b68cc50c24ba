"""What each check runs and covers.  `bounds`/`outside` go into the evidence files."""
SF = ["--stub-fmt"]  # core::fmt's integer/float printing is replaced by fixed text (error messages only)
FMT = "numbers printed into error messages by core::fmt are replaced by a fixed digit, so the text of messages containing a symbolic number is not examined"
Q = lambda quick, thorough: {"quick": quick, "thorough": thorough}

CONFIG = {
    "C01": {
        "bin": "c01", "reach": ["shapes", "kinds", "history", "keys", "profiles", "arrays", "scaled"],
        "bounds": Q("2 providers x every pair of shapes (absent, scalar, array of 0/2, empty dict, dict over {a,b}) at depth 1-2, 4 operations, 3x2 profiles; 9x9 scalar kinds bare/in dict/in array; histories of 3 operations over 4 shapes; 2+2 arbitrary ASCII keys of 1 character; 3 profiles in any of 4 states each side and a fourth on one side; arrays of 0-3 mixed elements each side; scalar contents (u32, i64, f64 bits, bool, char, 1-char text) arbitrary; scaled up: a larger fixed-structure part: dictionaries of 70 keys, arrays of 70 elements, 40 levels of nesting, with arbitrary values",
                    "as quick, with histories of 4 operations and arbitrary keys of 1-2 characters"),
        "outside": "longer histories, deeper nesting than 3, wider dictionaries and arrays; non-ASCII keys",
    },
    "C02": {
        "bin": "c02", "reach": ["pairs", "chains", "layers", "kinds", "reuse", "scaled"],
        "bounds": Q("2 providers x 7x7 shapes x 4 operations x 3x3 profiles, each followed by one of clone/from-reference/select/nesting by any operation/focus; chains of 3 providers with optional grouping into nested figments; two providers with data in default/global/other under lower- or upper-case names; contents arbitrary; every kind of scalar and empty container against every other in 6 positions; containers in 5 forms whose up to 4 entries are each their own or taken from another figment; scaled up: larger structures (dictionaries of 70 keys, arrays of up to 70 elements, 40 levels) from two providers",
                    "chains of 4 providers"),
        "outside": "longer chains; provenance of non-empty containers outside arrays (only leaves, elements with everything in them, and empty containers are claimed)",
    },
    "C03": {
        "bin": "c03", "reach": ["layers", "names", "builtin", "history", "kinds", "near", "scaled"],
        "bounds": Q("default/selected/global layers each with one of 6 shapes at the same key, plus an unrelated profile; 4 selections made in 3 ways; arbitrary ASCII profile names up to 2 characters for the stored and the selected profile; every letter case of default and global; 3 combined layers by any operation; values arbitrary u32; every kind of value in the layers; stored and selected names of 14 sorts each (like the reserved ones with a character more or less, empty, non-ASCII, long); scaled up: profiles of 70 keys and 40 levels, many profiles",
                    "profile names up to 3 characters"),
        "outside": "longer arbitrary profile names; more than 4 profiles",
    },
    "C04": {
        "bin": "c04", "reach": ["history", "nested", "effects", "builtin", "names", "scaled"],
        "bounds": Q("histories of 3 steps (select with an arbitrary 1-character name, any operation with a provider that selects an arbitrary or built-in profile, or none), from Figment::new or default; nested figments by value and by reference with names of 0-2 arbitrary characters; the crate's own providers under a selected profile; two steps, each by any means, to names of 14 sorts; scaled up: histories of 16 steps with long names",
                    "histories of 4 steps"),
        "outside": "longer histories and names",
    },
    "C05": {
        "bin": "c05", "reach": ["present", "absent", "placed"],
        "bounds": Q("every ASCII path text of 1-6 characters, every text over {a,b,.,c} of 8 characters, and paths starting with any 2-byte UTF-8 character, against a tree with confusable keys; trees whose keys are arbitrary (1-2 ASCII characters or one 2-byte character); exhaustive shapes to depth 2; values placed under every path text by Serialized and (key, value); scaled up: keys below dozens of levels and among dozens of siblings",
                    "ASCII paths up to 9 characters, restricted alphabet 11, shapes to depth 3"),
        "outside": "paths with empty components (excluded by the property)",
    },
    "C06": {
        "bin": "c06", "reach": ["found", "missing", "layers", "texts", "structure", "empty", "compose", "failing", "scaled"],
        "bounds": Q("up to 2 populated layers of default/mine/global with every shape to depth 2, 3 selections, 5 (key, sub-path) pairs; arbitrary 1-character keys, sub-paths and profile names; merged and joined providers in 4x4 profiles with 6 focus keys; up to 3 providers of which any may fail; scaled up: larger layers and longer focus paths", "3 populated layers"),
        "outside": "focus keys of more than three components; the recorded finding (non-dictionary layers above a dictionary layer) is only checked to be exactly that",
    },
    "C07": {
        "bin": "c07", "reach": ["string", "array", "dict", "int", "float", "char", "bool", "unit", "built", "scaled"],
        "bounds": Q("every ASCII text up to 5 characters; every text of 7 characters over each of two structural alphabets and 6 over a third; number texts up to 6 characters; the last two digits of the 64-bit limits; 12 contexts around every ASCII text up to 3 characters; every character of every UTF-8 length in 9 contexts; nesting depth 4; rendered structures; scaled up: long texts, wide and deep values with one arbitrary character",
                    "free texts up to 6, alphabets 8, contexts around 4 characters, nesting depth 6"),
        "outside": "longer free texts; the value of float literals is compared with std's own parser",
    },
    "C08": {
        "bin": "c08", "reach": ["decoded", "malformed", "roundtrip", "wide", "scaled"],
        "bounds": Q("sequences of 2 pieces out of: any character of each UTF-8 length, each escape, any escaped ASCII character, \\u00XX; triples of fixed pieces around an arbitrary middle; every ASCII inner text up to 3 characters; \\u with any 4 ASCII characters, and short ones; \\U with 0/2/4 leading zeros over restricted digits; round trip of every text of 3 characters (2 with escapes) and every single character through \\u/\\U; in value, key and array position; scaled up: long quoted texts with one arbitrary character or escape",
                    "3 pieces, inner texts up to 4"),
        "outside": "longer texts",
    },
    "C09": {
        "bin": "c09", "args": SF, "reach": ["ok", "err", "float"],
        "bounds": "all values of all 12 integer kinds x 12 target types x 5 routes (figment, value, Option, Vec element, lossy); all non-NaN f32 and f64 bit patterns x f32/f64/u64/i32 targets",
        "outside": "the number carried by errors about integers wider than 64 bits (serde itself reports those without the number); NaN payloads",
        "assumptions": [FMT],
    },
    "C10": {
        "bin": "c10", "reach": ["conversions", "cmp_u", "cmp_i", "cmp_f", "cmp_mixed", "rejected", "accepted"],
        "bounds": Q("all values of all 14 number kinds for every conversion, and all pairs for equality; number parsing on every ASCII text up to 4 characters, all numerals up to 4 digits with any sign, all numerals around each kind's boundary (last 1-2 digits free), dotted texts of 5 pieces",
                    "ASCII texts up to 5, numerals up to 6 digits, dotted texts of 7 pieces"),
        "outside": "comparison of signed with unsigned kinds (not claimed); decimal-to-float conversion itself is std's and is run on constants",
    },
    "C11": {
        "bin": "c11", "args": SF, "reach": ["foreign", "bool", "nobool", "numbool", "nonumbool", "num", "nonum", "same", "both", "types"],
        "bounds": Q("every ASCII text up to 5 characters, documented words with any one character replaced by any two- or three-byte one, and every value of every number kind as a boolean, in 12 positions (top level, struct field, option, sequence, tuple, newtype, enum variants, map, tagged); numeric texts; every value kind strict vs lossy; one lossily supplied boolean or number anywhere inside every type of up to 3 constructors", "as quick, with longer numeric texts"),
        "outside": "the number a float text denotes is std's parser's; untagged and flattened targets (serde buffers them)",
        "assumptions": [FMT],
    },
    "C12": {
        "bin": "c12", "args": SF, "reach": ["types", "roundtrip", "values", "attributes", "scaled"],
        "bounds": "20 composite types (all scalars at full range, 1-character strings and chars of each UTF-8 length, options, nested options, tuples, sequences of 0-2, maps, structs, newtypes, every enum variant shape, nested twice) with arbitrary contents, stored directly and through a figment; every type of up to 3 constructors (option, sequence, tuple, map, struct, newtype, every enum variant shape, tagged, around any scalar); every configuration value shape to depth 2; types shaped by serde attributes (skipped, renamed, flattened, converted fields; internally, adjacently and untagged enums) and standard-library types, alone and wrapped; scaled up: long sequences, maps, texts",
        "outside": "longer strings and sequences; i128/u128 inside untagged or flattened serde types",
        "assumptions": [FMT],
    },
    "C13": {
        "bin": "c13", "args": SF, "reach": ["positions", "fits", "range", "structure", "mixed", "elements", "types", "scaled"],
        "bounds": "one wrong value (of each kind, contents arbitrary) in every position of a nested structure (struct, map, sequence, tuple, option, enum, newtype, tagged) x 3 profiles x extract/extract_inner; every u64 against u32; missing/unknown fields, unknown variants, wrong lengths with arbitrary names; 3 combined providers of which any may be wrong; a wrong element of each of 11 kinds in sequences that two providers supply, for 16 element types; one wrong value in any position of every type of up to 3 constructors; scaled up: one wrong value at index 99-101 of an array, among 60 keys, 13 levels down, in nested arrays, under a long name, among 20 providers",
        "outside": "chars (serde reports them as text), flattened and untagged types (buffered by serde, which drops attribution)",
        "assumptions": [FMT],
    },
    "C14": {
        "bin": "c14", "args": SF, "reach": ["fine", "failed", "builtin", "scaled"],
        "bounds": Q("every success/failure mask over 4 providers x 2 operations per step x 8 queries; three figments of up to 2 providers combined in 3 associations; the crate's own failing providers; scaled up: 20-60 providers with failures among them", "5 providers, all 4 operations"),
        "outside": "longer histories", "assumptions": [FMT],
    },
    "C15": {
        "bin": "c15", "reach": ["flat", "nested", "shared", "lookup", "builtin", "copied", "scaled"],
        "bounds": Q("3 providers (4 kinds of data each, one possibly failing) by any operation; 3 providers distributed over two figments in any order, then combined three ways, and again; 4 kinds of source; 6 of the crate's providers; metadata copied from another figment; scaled up: 12-70 providers, a few of them inside a nested figment", "4 providers"),
        "outside": "more providers",
    },
    "C16": {
        "bin": "c16", "reach": ["emitted", "omitted", "prefixes", "lists", "splits", "chains", "scaled"],
        "bounds": Q("every ASCII name of 1-3 characters and names with one character of each UTF-8 length, against no prefix, any ASCII prefix up to 2 characters, a two-byte prefix; only/ignore with any listed names (0-2 and 1 arbitrary ASCII characters); split on every occurrence: names of 5-6 characters over the significant alphabets and any 3-character name with any 1-character separator, followed by a second split; chains of 3 configuration steps out of 9 (each with fixed arguments) over two variables with partly arbitrary names, with and without prefix, with cloning in between; values arbitrary; scaled up: long names, long lists and longer chains","names up to 4, restricted names up to 6-8, chains of 4 steps"),
        "outside": "longer names, chains and lists; names or values that are not UTF-8 (std panics there, as documented); user closures other than those used",
    },
    "C17": {
        "bin": "c17", "reach": ["values", "conflicts", "names", "lookup", "tails", "scaled"],
        "bounds": Q("one variable with any ASCII value of up to 3 characters, any value of 4 characters over the structural alphabet, any 3-byte character; 3 variables with any of 5 overlapping dotted names and 2-3 values each (conflicts at every level); dotted names over {a,A,.} in 4 profile configurations; direct lookup with arbitrary names, values and queries of 1-2 characters; scaled up: many variables and deep dotted names, a few of many names nested under one, in any place","values up to 5-6 characters, 4 variables"),
        "outside": "longer values (their parsing is C07/C08), more variables",
    },
    "C18": {
        "bin": "c18", "args": SF, "reach": ["read", "missing", "profiles", "contents", "texts", "scaled"],
        "bounds": Q("4 nested directories each holding nothing, a file or a directory of the searched name x every working directory x 6 forms of path (plain, in a subdirectory, ./, with .., absolute, ../) x search/required settings; 6 orders of nested()/profile() over JSON and TOML text and file sources with arbitrary one-letter profile names and case variants; every JSON text of 4 pieces out of 9; 33 JSON and TOML texts at the edges of the formats (empty, blank, not tables, trailing text), nested or not, from text or file; scaled up: deep directory chains and large contents","texts of 5 pieces"),
        "outside": "symbolic links, permissions and I/O errors other than absence; the formats' own grammars beyond the pieces used (serde_json and toml are dependencies); YAML", "assumptions": [FMT],
    },
    "C19": {
        "bin": "c19", "args": SF, "reach": ["restored", "again", "fails", "scaled"],
        "bounds": Q("4 variables (absent, empty, arbitrary bytes) x 4 working directories; 3 steps out of set (any of 4 names, arbitrary value), clear, change directory and create files, nothing; ended by success, error, panic, or an invalid name or value given to set_env; try_with and expect_with; 2 jails in a row; entering that fails; scaled up: many variables and steps","4 steps, 3 jails"),
        "outside": "several threads entering jails at the same time (serialised by a mutex the harness does not contend for); variables changed other than through the jail; failures of the file system while the jail is being left", "assumptions": [FMT],
    },
    "C20": {
        "bin": "c20", "reach": ["refused", "clamped", "file", "dir", "entered"],
        "bounds": Q("every path text of up to 5 characters over / . a b; sequences of up to 5 components (.., ., a, b, empty) after nothing, the jail directory, the jail directory with .., an absolute directory; up to 2 arbitrary ASCII characters around the jail directory in 6 forms; for create_file, create_binary, create_dir and change_dir from the jail root; scaled up: long paths and many components","texts and sequences of 6"),
        "outside": "symbolic links; calls made after change_dir; paths that are not UTF-8",
    },
    "C21": {
        "bin": "c21", "reach": ["mixed", "dots", "plain", "original", "relative", "scaled"],
        "bounds": Q("every path text of up to 6 characters over / . a b against every base of up to 4 characters over / a b; up to 5 components (.., a, bc, .) against up to 3; names of arbitrary characters of 1-2 bytes in 4x3 shapes; displayed sources: up to 4 components from 5 working directories; scaled up: paths of many components","up to 7 characters and 5 for the base; up to 6 components"),
        "outside": "bases containing dot components (excluded by the property); displaying the working directory itself as a file",
    },
    "C22": {
        "bin": "c22", "reach": ["positions", "merges", "serialize", "files", "scaled"],
        "bounds": Q("any text of 0-2 ASCII characters or 2-byte character as path in 8 positions (top, field, element, map value, option, nested, focused, lossy) x sources (files at 12 kinds of place and name, code, custom, none); 3 merged file sources by any operation with conflicting dictionaries and arrays; serialization in original, relative and full form and back; the crate's own JSON and TOML file sources; scaled up: many paths in one configuration, long texts","the same"),
        "outside": "longer texts",
    },
    "C23": {
        "bin": "c23", "args": SF, "reach": ["tagged", "neither", "below", "raw", "left", "right", "both fail", "again", "scaled"],
        "bounds": Q("a key holding every shape of depth 1 (3 scalar kinds), overlaid by nothing, a scalar, a dictionary or an array of another provider in another profile, extracted as 10 plain/tagged types strictly and lossily; tagged elements, map values, options and fields; raw values as Value, Dict, fields, options and elements; 13 Either types over those and over every kind of value in 5 positions; tagged values serialized back; scaled up: deep and wide values below a wrapper","all four operations between the providers"),
        "outside": "wrappers inside untagged or flattened serde types, and the tags of values inside an Either's right form (buffered by serde, which keeps the value and drops the tag); lossy extraction of Either (its parts are extracted strictly)", "assumptions": [FMT],
    },
    "C24": {
        "bin": "c24", "reach": ["pair", "three", "used", "reserved", "environment", "scaled"],
        "bounds": Q("pairs of names: any ASCII text of 0-3 characters, default with any character replaced, global in any casing, any two-byte character followed by a letter of either case; transitivity over three names of 0-3 characters; maps, selection, merging and provenance under two arbitrary names; 2 environment variables with arbitrary casing and values; scaled up: long names","names up to 4 characters, 3 variables"),
        "outside": "longer names",
    },
    "C25": {
        "bin": "c25", "args": SF, "reach": ["accepted", "rejected", "absent", "pairs", "shapes", "scaled"],
        "bounds": Q("every ASCII text of up to 5 characters, true/false with any character replaced or appended, texts with a two-byte character; every value of all 12 integer kinds and all f32/f64 bit patterns; every other kind of value; strict, lossy and direct extraction; up to 3 pairs with arbitrary distinct 1-character or empty keys and arbitrary values; scaled up: long texts","texts up to 7 characters, 4 pairs"),
        "outside": "longer texts and more pairs", "assumptions": [FMT],
    },
    "C26": {
        "bin": "c26", "args": SF, "reach": ["placed", "rejected", "merged", "unserializable", "scaled"],
        "bounds": Q("any key of up to 3 segments (arbitrary character, fixed word or empty) and any shape of value to depth 1, through every constructor and up to 2 later settings of key and profile (0-1 arbitrary characters); the (key, value) source; two serialized sources merged; values whose Serialize fails; scaled up: long and deep keys, large values","keys of 4 segments"),
        "outside": "keys with empty segments beyond the first empty one (figment ends the path there; recorded in DESIGN.md)", "assumptions": [FMT],
    },
    "C27": {
        "bin": "c27", "reach": ["single", "chained", "alternatives", "sources", "scaled"],
        "bounds": Q("every error kind with arbitrary printable 1-2 character texts and 19 kinds of actual values x metadata (none, 5 kinds of source with arbitrary text, 3 kinds of interpolation) x profile x paths of 0-2 components; chains of 3 errors; 5 lists of alternatives; errors from six of the crate's own sources; scaled up: long paths, texts and chains of errors","chains of 4"),
        "outside": "longer texts; numbers inside kinds are fixed",
    },
    "C28": {
        "bin": "c28", "args": SF, "reach": ["empty", "onto", "referenced", "kinds", "scaled"],
        "bounds": Q("figments built from 2-3 providers of 6 kinds (values in default, selected, global and other profiles, selecting, failing; contents arbitrary) added to an empty figment in 7 ways by value and reference, or to a figment holding values by any of the four operations; 7 kinds of provider against references to them and references to references; values of every kind in 4 positions; scaled up: 8-40 providers nested 1-9 times","all operations at every step, every third provider, explicit selection"),
        "outside": "longer histories", "assumptions": [FMT],
    },
    "C29": {
        "bin": "c29", "args": SF, "reach": ["history", "failed", "queries", "failing queries", "builtin", "again", "scaled"],
        "bounds": Q("every sequence of 5 actions out of adding one of three sources (one supplying values, an empty profile or nothing), changing or breaking sources, combining, querying; every 3 of 14 queries (repeated, on a figment with or without a failing provider, compared with a fresh copy); JSON and TOML files, environment and values changed or removed after being added by any operation; scaled up: many sources","6 actions, 4 queries"),
        "outside": "longer histories", "assumptions": [FMT],
    },
    "C30": {
        "bin": "c30", "reach": ["threads", "extend", "overlap", "many"], "concurrent": True, "stress": 40, "switches": {"quick": 5, "thorough": 8},
        "bounds": Q("2 threads with 3 providers each and 3 threads with 3 each, built from nothing or from copies of one figment, directly or wrapped, combined by any operation; the main thread building meanwhile; every interleaving at the granularity of accesses to shared memory with up to 5 preemptions; 450 identities taken in a row; values arbitrary","4 providers per thread, 8 preemptions, 1800 identities"),
        "outside": "more threads; reordering by weak memory models (accesses are interleaved sequentially consistently)",
    },
}

NA = {}
