CHECKS = {
 "C01": dict(
  technique="explicit-state enumeration of schemas x values, executed on the real generated Rust code, against a reference model",
  note="Exhaustive over the stated schema families and value alphabets; trusts rustc 1.85 and the reference model (mc/src/codec.rs)."),
 "C02": dict(
  technique="explicit-state enumeration of schemas x values; bytes of the real generated Rust code compared with a reference encoder",
  note="Exhaustive over the stated schema families and value alphabets; trusts rustc 1.85 and the reference encoder written from README.md."),
 "C03": dict(
  technique="explicit-state enumeration of schemas x values, executed on the real generated TypeScript code in Node, against a reference model shared with the check of the Rust code",
  note="Exhaustive over the stated schema families and value alphabets; esbuild removes the types; trusts Node 22 and the reference model; known findings D4 and D23 are recognized by predicates on the value."),
 "C04": dict(
  technique="explicit-state enumeration of well-formed field sequences, executed on the real generated readers of both languages, against a reference decoder",
  note="Exhaustive over the stated schema families and field sequences; trusts the reference decoder written from README.md."),
 "C05": dict(
  technique="exhaustive enumeration of byte strings and of mutations of valid messages within bounds, executed on the real generated readers of both languages with metered memory (Rust), surrounding canary bytes (TypeScript) and detection of loops",
  note="Exhaustive over strings of a byte alphabet up to a length and all single mutations of a set of messages; known findings D1, D2 and D3 are recognized by predicates on the message."),
 "C06": dict(
  technique="explicit-state enumeration of all pairs of schema versions one safe change apart x values, executed on the real generated code of both languages, against a reference migration",
  note="All 64 combinations of rules of three fields, both kinds, four ways of nesting; trusts the reference migration."),
 "C07": dict(
  technique="systematic enumeration of all chunkings and all single failures of the streams, executed on the real generated code",
  note="All chunkings of messages up to a length, all two-piece chunkings beyond, one failure at every call of the stream for each kind of error."),
 "C10": dict(
  technique="exhaustive enumeration of small schemas (names, indices, deleted indices, types, imports), verdicts of the real tool compared with a reference validator",
  note="All pairs and many triples of a list of names, all assignments of indices and deleted indices within bounds, all combinations of references and imports of three files; trusts the reference validator written from README.md."),
 "C11": dict(
  technique="explicit-state enumeration of all small graphs of types, verdicts of the real tool compared with a reference search for cycles",
  note="All graphs of up to 3 types over all distributions over files, of 4 types up to 6 edges (thorough: all), of 5 types with at most one edge each; known finding D26 is a designated input."),
 "C12": dict(
  technique="exhaustive enumeration of token sequences and character strings within bounds, verdicts of the real tool compared with a reference tokenizer and parser",
  note="All sequences of up to 3 (thorough: 4) tokens in 9 contexts, all strings of up to 2 (3) characters in 12 contexts, single edits of whole schemas, byte strings; known finding D25 is a designated input."),
 "C13": dict(
  technique="exhaustive enumeration of small schemas x layouts x comments, formatted by the real tool; meaning and comments before and after compared by a reference parser",
  note="All schemas of stated families in many layouts, all strings of up to 4 characters of an alphabet as comments, every letter of Unicode with letter case as a name; trusts the reference parser."),
 "C14": dict(
  technique="exhaustive enumeration of small schemas x layouts, formatted twice by the real tool and compared within classes of equal meaning; all states of small trees of files for the check mode",
  note="Schemas and layouts as for C13; all assignments of six states (formatted, unformatted, invalid, broken) to four files in three import graphs."),
 "C15": dict(
  technique="exhaustive enumeration of small import graphs over nested directories and of spellings of paths (with symbolic links), listings, generated files and rewritten files of the real tool compared with a reference loader",
  note="All import graphs over stated sets of files, all paths of up to a few components through a tree with symbolic links, all pairs of a list of unusual file names; trusts the reference loader. Known finding D31 (the given schema is a symbolic link into another directory) is recognized by a predicate."),
 "C08": dict(
  technique="exhaustive enumeration of names in every position x rules x types, of small trees of files, and of type shapes; each schema generated by the real tool and compiled by rustc with a client that takes every type apart by its documented name",
  note="About 430 names (taken from the generated code itself on each run, keywords, well-known ones) as fields, types, files, directories and roots; sets of up to three files of twelve paths; letters of Unicode; edition 2021; known findings D11 and D27 are designated inputs."),
 "C09": dict(
  technique="exhaustive enumeration of names in every position x rules x types, of small trees of files, and of type shapes; each schema generated by the real tool, type-checked by tsc --strict with a client that checks keys and signatures, stripped by esbuild and loaded in Node",
  note="As for C08; known findings D10, D11, D28 and D29 are designated inputs and excluded from the families by exact predicates."),
 "C16": dict(
  technique="exhaustive enumeration of single faults (each error, partial transfer, interruption and kill at each input/output call) in all scenarios of options and states of files, and of command lines, on the real tool under an interposed C library; status, message and the whole file tree compared with a reference model",
  note="115 scenarios x every I/O call x every fault; standard streams full, broken or closed; all command lines up to a few arguments. Faults are injected at the C library's functions; requested outputs are distinct and are no schemas; known finding D30 is a designated scenario."),
 "C17": dict(
  technique="exhaustive enumeration of circumstances (environment, controlled random numbers and time, places and spellings of paths, outputs and their previous contents, other files, metadata; singly and in pairs), of layouts and rewritings of the same schemas, of circular trees, and of histories of edits and runs; all files written by the real tool compared bytewise",
  note="Every environment variable which the tool looks up (logged by a shim), with eight values each; hash seeds are enumerated under control; metamorphic: the oracle is the outcome in the usual circumstances."),
 "C18": dict(
  technique="exhaustive enumeration of mistakes (every edit of every token and of every character, pairs of edits of names and numbers, imports, assignments of states to trees of files, type graphs) in every layout, rejected by the real tool and its messages compared with the places of the mistakes according to a reference parser",
  note="About 57,000 trees (quick); each is run alone or with 59 others in one run, with and without colors; trusts the reference parser's spans. Further messages about a file with a syntax error are allowed."),
 "C19": dict(
  technique="exhaustive enumeration of schemas (types x rules x depths, all combinations of rules of up to five fields, many fields, places) x client programs which follow or break one rule at one field; the generated code of the real tool and each program judged by rustc and tsc --strict",
  note="Quick: 3,370 types and 67,500 programs, in both languages; types of up to 33 fields. The programs' verdicts are attributed by line. Wrong payload types count as breaking a rule, too (TypeScript's any)."),
"C20": dict(
  technique="exhaustive enumeration of histories: every succession of three calls (four in the thorough tier; two across types) from an alphabet of serializing, deserializing and failing calls of the real generated code, every call nested in every other at every operation on its stream (Rust), and calls repeated with every part of their arguments and results changed in between (TypeScript), each compared with the reference codec and with its first outcome",
  note="Successions are complete by de Bruijn sequences. Changes: every scalar, string, buffer and array of a value (up to 8 per value). State which takes longer successions to arise is beyond the bound."),
 "C21": dict(
  technique="exhaustive enumeration of platforms, shells, settings and states of the destination, of every truncation of the script, and of every single fault and pair of faults (failure before or after the effect, partial download, kill) at each command with effects, on the real install.sh with stand-ins for the commands it runs; compared with a reference model",
  note="The simulated server has a program for every address; faults are injected by the stand-ins for curl, mktemp, chmod, mv, sudo, rm and the like; runs as an unprivileged user in a scratch directory; atomicity of mv across file systems is not modelled; known finding D32 is a set of designated host names."),
 "C22": dict(
  technique="exhaustive enumeration of types x dimensions in which their values and messages grow x doubling sizes, executed on the real generated code of both languages with counters in every block of code (compiler coverage counters in Rust, precise coverage in Node), a metered allocator (Rust) and the processor's clock; each doubling may cost at most about twice the one before",
  note="Sizes 16 to 512 for counted work (deterministic), types nested up to 24 deep and up to 128 (thorough: 256) fields wide, 2^16 (Rust) and 2^14 (TypeScript) parts for time, where growth has to exceed six times the proportional."),
 "C23": dict(
  technique="exhaustive enumeration of environments (Node modules of both kinds, a realm with the language only and without dynamic code, with frozen built-ins, minified and bundled) x schemas x values and messages, executed on the real generated TypeScript code and compared with the reference codec; all global objects compared before and after",
  note="Five environments, 530 types, up to 200 values per type, each serialized and deserialized whole and cut in two ways. Realms of V8 stand for browsers; TextEncoder and TextDecoder are Node's behind wrappers of the realm."),
 "C24": dict(
  technique="exhaustive enumeration of editions, arrangements of crates and build profiles x schemas (all interesting names as fields, types, files and directories; types of every shape) x values and messages, executed on the real generated Rust code: a program which uses every type by its documented names has to compile, and bytes, sizes, values and errors are compared with the reference codec in each build",
  note="Editions 2015, 2018 and 2024 (2021 is that of C08) with rustc 1.85 on x86-64; 433 names; two builds (thorough: four) x 530 types (thorough: 1,200) with all values and messages of C02 and C04. Known finding D23, as in C02, is the message with size mode 3."),
}
