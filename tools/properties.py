#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements stay readable in one place).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
GR="src/generate_rust.rs"; GT="src/generate_typescript.rs"
p("C01","Rust: every value survives a serialize/deserialize round trip",
 "For every accepted schema and every value of every type in it, serializing the value with the generated Rust code and deserializing the resulting bytes yields exactly that value, as seen through the reader's type (asymmetric struct fields present, asymmetric choice fallbacks dropped). The generated conversion from the writer's type to the reader's type yields the same result as going over the wire.",
 ["inputs","programs"],
 "All schemas (struct and choice, every field rule, every type including nested arrays and user-defined types across files, every field order and index) and all values of their types, including boundary integers, signed zero, NaN, infinities, empty and large payloads, and fallback chains.",
 "The generators are tested by comparing one generated file with a golden copy and a handful of hand-written round trips; code that depends on the shape of the schema (index size, array depth, number and order of fields, namespaces, names) is only seen for the shapes in that one schema.",
 [GR,"src/schema.rs","src/identifier.rs"],
 [("write_serialization_invocation / write_deserialization_invocation: per-type encoders and decoders",GR),("write_schema: struct and choice readers and writers, From<Out> for In",GR)],
 ["generated Rust module: XOut::serialize, XIn::deserialize, XIn::from(XOut)"])
p("C02","Rust: encoded bytes and sizes are exactly the documented binary encoding",
 "For every accepted schema and value, the bytes written by the generated Rust code are exactly the ones the documented binary encoding prescribes (tags with index and size mode, variable-width integers, compact field values, arrays, struct and choice rules), so only the indices and types of fields matter. The size reported before serialization equals the number of bytes written.",
 ["inputs","programs"],
 "All schemas and values as for the round trip, including indices and payload sizes on both sides of every variable-width integer boundary.",
 "The existing round trips cannot tell a wrong encoding from a right one when writer and reader agree, and the golden file only fixes the code for one schema.",
 [GR,"README.md"],
 [("field headers and size modes",GR+": field_header_size, serialize_field_header"),("write_atlas_calculation: sizes computed ahead of writing",GR),("integer_encoded: which types use the integer size mode",GR)],
 ["generated Rust module: XOut::size, XOut::serialize"])
p("C03","TypeScript: encoding, sizes and round trips agree with the format and with Rust",
 "For every accepted schema and value, the generated TypeScript code reports the size and writes the bytes that the documented encoding prescribes, which are the bytes the generated Rust code writes, and it decodes the bytes written by either language back to the same value.",
 ["inputs","programs"],
 "All schemas and values that both languages can represent, in both directions.",
 "The two generators are separate programs tested separately against golden files; no test exchanges messages between the languages, and the TypeScript code is not run by the test suite here at all.",
 [GT,GR,"README.md"],
 [("TypeScript encoders and decoders",GT+": write_atlas_calculation, write_serialization_invocation, write_deserialization_invocation"),("struct and choice functions",GT+": write_schema")],
 ["generated TypeScript module: X.size, X.serialize, X.deserialize"])
p("C04","Readers follow the documented decoding rules on every well-formed message",
 "Given any sequence of well-formed fields, generated readers in both languages ignore fields they do not recognize whatever their size mode, accept fields in any order, let optional and asymmetric struct fields be absent and reject the message if a required one is absent. For a choice they take the first field they recognize, expose the rest of the message as the fallback exactly when that field is optional, and reject a message without a required or asymmetric field they recognize.",
 ["inputs","programs"],
 "All accepted schemas and all messages made of well-formed fields with distinct indices: every subset and order of the schema's fields, with unrecognized fields of every size mode inserted anywhere, at top level and inside nested messages and arrays.",
 "The tests only decode messages produced by the current writer of a closely related schema, so field orders, unknown fields and missing fields are sampled by two or three hand-picked messages.",
 [GR,GT,"README.md"],
 [("required-field check, unknown fields skipped",GR+": write_schema (struct deserializer)"),("fallback chain scan",GR+": write_schema (choice deserializer)"),("same in TypeScript",GT+": write_schema")],
 ["XIn::deserialize (Rust)","X.deserialize (TypeScript)"])
p("C05","Decoding arbitrary bytes is safe: it ends with a value or an error",
 "For every byte string, the generated readers in both languages finish with a value or an error: they do not panic or throw, do not loop forever, never use bytes outside the buffer they were given, and do not allocate memory out of proportion to the message (other than for arrays of units).",
 ["inputs"],
 "All byte strings, including truncations and corruptions of valid messages, inconsistent sizes, and huge declared sizes, for readers of all accepted schemas.",
 "No test decodes malformed input; the space of byte strings cannot be sampled meaningfully by hand.",
 [GR,GT,"README.md"],
 [("bounded sub-readers",GR+": write_schema (Read::take), skip, finish"),("bounded sub-views and error capture",GT+": write_deserialize_function, write_deserialization_invocation")],
 ["XIn::deserialize (Rust)","X.deserialize (TypeScript)"])
p("C06","Every documented safe schema change is compatible in both directions",
 "If one schema results from another by one change documented as safe (renaming or reordering fields, adding or removing optional or asymmetric fields, converting asymmetric fields to or from optional or required, or converting a struct with a single required field to or from a choice with just that field), then every message written under either schema is readable under the other, and fields present in both carry the same values. This also holds when the changed type is nested inside other types.",
 ["histories","inputs","programs"],
 "All pairs of schemas one safe change apart along all migration histories, both directions, all messages, both languages.",
 "The tests fix one before/after pair per rule; the guarantee quantifies over every schema, every safe change and every message.",
 [GR,GT,"README.md","integration_tests/types/schema_evolution"],
 [("Out/In split of each type",GR+": write_struct, write_choice"),("asymmetric and optional handling in readers and writers",GR+": write_schema"),("same in TypeScript",GT)],
 ["messages written by one version's XOut and read by another version's XIn"])
p("C07","Rust streaming: results do not depend on how the stream is chunked or fails",
 "The value decoded from a stream does not depend on how the reader splits the bytes, and the bytes written do not depend on how much the writer accepts at a time. If the underlying stream fails at any point, serialization or deserialization returns an error instead of reporting success, and never yields a wrong value or a panic.",
 ["fault_sequences","inputs"],
 "All chunkings of a message by the reader and writer, and an I/O error of any kind at every point of the stream, for all accepted schemas.",
 "The tests only use in-memory buffers which deliver everything at once and never fail.",
 [GR],
 [("reader and writer code paths: fill_buf/consume, read_exact, write_all, take",GR)],
 ["XOut::serialize and XIn::deserialize with an adversarial Write/BufRead"])
p("C08","Every accepted schema yields Rust code that compiles",
 "For every schema (with its imports) that the tool accepts, the generated Rust file compiles on its own as a module, whatever the names of types, fields, files and directories, and whatever the structure of types, imports and namespaces. Types and fields appear under their documented names.",
 ["programs"],
 "All accepted schemas: names that are keywords or well-known identifiers of the target language or of the generated code itself, names with digits and unusual letter case, all nestings of directories and imports, all type shapes.",
 "One golden schema with friendly names is compiled by the tests.",
 [GR,"src/identifier.rs","src/schema_loader.rs","src/validator.rs"],
 [("write_identifier, RUST_KEYWORDS",GR),("relativize_namespace, write_supers, write_type","src/schema.rs, "+GR),("case conversion","src/identifier.rs")],
 ["rustc on the file written by `typical generate --rust`"])
p("C09","Every accepted schema yields TypeScript code that type-checks strictly and loads",
 "For every schema (with its imports) that the tool accepts, the generated TypeScript file type-checks under strict settings on its own and can be loaded by a JavaScript engine, whatever the names of types, fields, files and directories, and whatever the structure of types, imports and namespaces. Types and fields appear under their documented names.",
 ["programs"],
 "As for Rust, with TypeScript's keywords and well-known identifiers.",
 "The test suite compares TypeScript output with a golden file for one schema and never runs a TypeScript compiler here.",
 [GT,"src/identifier.rs","src/schema_loader.rs","src/validator.rs"],
 [("write_identifier, TYPESCRIPT_KEYWORDS",GT),("write_custom_type",GT),("case conversion","src/identifier.rs")],
 ["tsc --strict and a JavaScript engine on the file written by `typical generate --typescript`"])
p("C10","Schemas are accepted exactly when they satisfy the documented validity rules",
 "A syntactically correct schema is accepted if and only if the names of types are unique in each file, the names of fields and their indices are unique in each type (names that only differ by letter case convention count as the same), no field uses a deleted index, every unused index below the number of used and deleted ones is marked as deleted, indices are at most 2^62-1, and every type refers to an existing type of this file or of the named import. The rules apply to every imported file too, and a rejected schema produces no output.",
 ["programs"],
 "All schemas: all combinations of names, indices, deleted indices and type references in structs and choices, at every position, in the main file and in imported files.",
 "Each rule has one or two unit tests with a minimal offending schema; interactions between rules and positions are not explored.",
 ["src/validator.rs","src/parser.rs","src/main.rs"],
 [("validate, validate_type","src/validator.rs"),("duplicate deleted indices and import names","src/parser.rs"),("Identifier equality","src/identifier.rs")],
 ["exit status and output of `typical generate`"])
p("C11","Cyclic types are rejected and acyclic ones accepted",
 "A schema is rejected as cyclic if and only if some user-defined type contains itself, directly or through any chain of fields of structs and choices, arrays and imported files, whatever the field rules. Checking always terminates.",
 ["programs"],
 "All reference graphs between user-defined types, in one file or several (including files that import each other), with references direct or through arrays and under every field rule.",
 "Unit tests check one self-loop and one two-type cycle.",
 ["src/validator.rs"],
 [("check_declaration_for_cycles, check_type_for_cycles","src/validator.rs")],
 ["exit status and messages of `typical generate`"],
 [("types_checked, types_visited_set","depth-first search bookkeeping","src/validator.rs")])
p("C12","Schemas are parsed exactly as documented and the tool never crashes on input",
 "Any file contents are either accepted, if they follow the documented grammar (imports before types; fields as rule, name, type, index; deleted indices last; comments on files, types and fields; keywords usable as names with a sigil; free whitespace), or rejected with an error message and a failing exit status. No input makes the tool crash or run forever.",
 ["inputs"],
 "All sequences of tokens and all short strings of characters, including comments and line ends in every position, unusual whitespace, non-ASCII text and files ending anywhere.",
 "Unit tests parse a few dozen hand-written files, nearly all of them valid.",
 ["src/tokenizer.rs","src/parser.rs","src/main.rs"],
 [("tokenize","src/tokenizer.rs"),("parse_schema, parse_import, parse_field, parse_type","src/parser.rs")],
 ["exit status and messages of `typical generate`"])
p("C13","Formatting preserves the meaning and the comments of a schema",
 "Formatting an accepted schema rewrites it to one that is still accepted and means the same: same imports, same types and fields with the same rules, types, indices and deleted indices in the same order, and names equal up to letter case convention. Comments keep their words, their paragraphs and the item they are attached to.",
 ["inputs","programs"],
 "All accepted schemas, including names that are keywords or mix case conventions, comments of any length and content at every position, aliases, deleted indices, and files that import each other.",
 "Golden-style unit tests print a few schemas; none re-reads what the formatter wrote.",
 ["src/schema.rs","src/parser.rs","src/tokenizer.rs","src/main.rs"],
 [("Schema::write and friends, write_comment","src/schema.rs"),("comment paragraphs","src/tokenizer.rs"),("format_schema","src/main.rs")],
 ["files rewritten by `typical format`","code generated before and after"])
p("C14","Formatting is canonical and the check mode agrees with it without writing",
 "Formatting a formatted schema changes nothing, and schemas that differ only in whitespace, line breaks of comments or letter case convention format to the same text. The check mode exits successfully if and only if formatting would change no file among the schema and its transitive imports, and it never writes anything; formatting a rejected schema changes no file.",
 ["inputs","programs"],
 "All accepted schemas in all layouts, alone or as a set of files any subset of which is already formatted.",
 "The tests run the check mode on four already formatted schemas.",
 ["src/schema.rs","src/main.rs"],
 [("format_schema","src/main.rs"),("Display for Schema","src/schema.rs"),("textwrap of comments","src/schema.rs: write_comment")],
 ["exit status of `typical format --check`","file contents and modification"])
p("C15","Imports resolve to the right files and exactly the reachable schemas are loaded",
 "Import paths are relative to the importing file; however they are spelled, each import refers to the file it names, each file is loaded once, and circular imports are fine. Exactly the schemas transitively reachable from the given one are loaded, checked, generated, formatted and listed; an import that is missing, outside the base directory, ambiguous in name or in conflict with another schema's namespace is an error.",
 ["programs","configurations"],
 "All import graphs over a few files in nested directories (including self-imports and cycles), all spellings of import paths and of the path given on the command line, with aliases and equal file or type names in different directories.",
 "The loader has one test which loads the repository's own example.",
 ["src/schema_loader.rs","src/parser.rs","src/schema.rs","src/main.rs"],
 [("load_schemas, path_to_namespace","src/schema_loader.rs"),("list of schemas","src/main.rs: generate_code"),("relativize_namespace","src/schema.rs")],
 ["`typical generate --list-schemas`","generated code","set of rewritten files"])
p("C16","A failing run says so and a rejected schema leaves outputs untouched",
 "Whenever something goes wrong (invalid schema, unreadable file, unwritable output, any I/O error at any point, bad arguments), the tool exits with a failing status and a message and without crashing; exit status zero means every requested output was completely written. Output files are neither created nor modified when the schema is rejected, generation never modifies schemas, and only the requested files (and missing parent directories) are written.",
 ["fault_sequences","configurations"],
 "All combinations of outputs and options, all invalid inputs, and a failure or partial transfer at every input/output operation of a run.",
 "Tests never run the tool with failing I/O and do not check exit statuses or side effects on failure.",
 ["src/main.rs","src/schema_loader.rs","src/error.rs"],
 [("generate_code, format_schema, main","src/main.rs"),("errors are collected before any output is written","src/main.rs, src/schema_loader.rs, src/validator.rs")],
 ["exit status, standard error, file system effects"])
p("C17","Output is a deterministic function of the schemas alone",
 "The generated files and the formatted schemas depend only on the contents and relative locations of the schema files: not on the run, the environment, the working directory or how the path was spelled, which outputs are requested together, or what the output file contained before. Generated code does not depend on comments, whitespace, import order, import aliases or deleted indices.",
 ["configurations","inputs"],
 "All accepted schemas under repeated runs, environments, working directories, path spellings, option combinations, pre-existing outputs, and all layouts of the same schema.",
 "Every test runs the generator once, in process, from one directory.",
 ["src/main.rs","src/schema_loader.rs",GR,GT],
 [("ordered maps of schemas and imports","src/schema_loader.rs, src/schema.rs"),("generate","%s, %s"%(GR,GT))],
 ["bytes of generated and formatted files, standard output"])
p("C18","Error messages point at the offending file and line",
 "When a schema is rejected, the message names the file (relative to the base directory) containing the mistake and shows the source line where it is, with its correct line number, and all reachable files with syntax errors or bad imports (reached through files without syntax errors), or else all mistakes in names, indices and types, are reported together. Cycle errors name the types along the cycle.",
 ["programs","inputs"],
 "All accepted schemas with one or more mistakes of any kind put in at any position of any of the files, with any line ends, indentation and non-ASCII text before it.",
 "Unit tests check fragments of single messages for single-file schemas.",
 ["src/error.rs","src/error_merger.rs","src/validator.rs","src/parser.rs","src/tokenizer.rs","src/schema_loader.rs"],
 [("listing","src/error.rs"),("merge_errors","src/error_merger.rs"),("source ranges","src/parser.rs: span_tokens, token_source_range")],
 ["standard error of `typical generate` and `typical format`"])
p("C19","Generated types enforce the field rules at compile time, dually for both sides",
 "In both languages, writers must set required and asymmetric struct fields and may omit optional ones, while readers can use only required fields without handling absence; for choices, writers must supply a fallback for optional and asymmetric fields and need none for required ones, while readers get a fallback exactly for optional ones and must handle every field in an exhaustive match. Programs which break these rules do not compile and programs which follow them do.",
 ["programs"],
 "All types of fields under all rules, in structs and choices of every small shape, for every way of following or breaking a rule at one field.",
 "Tests only compile programs which follow the rules, for one schema, so a type that is too permissive goes unnoticed.",
 [GR,GT],
 [("write_struct, write_choice, write_type","%s, %s"%(GR,GT)),("unreachable (TypeScript)",GT)],
 ["verdicts of rustc and tsc on client programs"])
p("C20","Calls of generated code depend on nothing but their arguments",
 "In both languages, the size, the bytes and the values which generated code computes depend only on the arguments of the call: not on calls made before (successful or failed), or in the middle of it, nor on how the value was changed since an earlier call. Values and messages given to the generated code are not modified, and results share no memory with arguments or with other results. In TypeScript, every kind of buffer or view with the same bytes gives the same result.",
 ["histories"],
 "All sequences of calls (serializing, deserializing, failing) on values and messages of all types, and all changes of arguments and results between calls.",
 "Tests call the generated code a few times in a fixed order and never change a value or a buffer in between.",
 [GR,GT],
 [("dataView64, textDecoder, textEncoder (shared by all calls)",GT),("write_size_function, write_serialize_function, write_deserialize_function",GT),("write_deserialization_invocation: Bytes",GT)],
 ["bytes, sizes and values in TypeScript and Rust","arguments after calls"])
p("C21","The installer installs the right release completely or changes nothing",
 "When install.sh exits successfully, PREFIX/typical (by default in /usr/local/bin) is the complete, executable program of the release VERSION (by default the latest) for the platform it runs on, which was tried. Otherwise it exits with a failing status and a message, and what was installed before is untouched, unless the new program was already in place and turned out not to work. It refuses platforms without a release, never installs a partial download or an error page, leaves no temporary files, changes nothing else, and if the script itself arrives incomplete (it is piped into a shell), none of it runs.",
 ["fault_sequences","crash_points","configurations"],
 "All platforms, shells, values of VERSION and PREFIX, states of the destination and rights to it; every truncation of the script; every command which the script runs failing, being cut short or interrupting it, alone and in pairs.",
 "No test runs the installer.",
 ["install.sh"],
 [("the parentheses around everything","install.sh"),("fail","install.sh"),("curl, chmod, mv, sudo","install.sh"),("choice of the release by uname","install.sh")],
 ["exit status, messages, the destination, temporary and other files, commands which are run"])
p("C22","Serializing and deserializing take work and memory proportional to the message",
 "In both languages, what it takes to compute a size, to serialize a value or to deserialize a message (code executed, memory requested, processor time) grows in proportion to the value or the message and the type: with longer strings, buffers and arrays, more or larger unknown fields, repeated fields, longer chains of fallbacks, deeper nesting and more fields, each additional part costs about the same as the ones before, however many there are.",
 ["inputs"],
 "All types, and values and messages of any size which grow in any of their dimensions.",
 "Tests use small values and never measure what they take; work which grows with the square of a length passes unnoticed until messages are large.",
 [GR,GT],
 [("write_atlas_calculation, write_atlas_lookup (sizes are computed once)","%s, %s"%(GR,GT)),("write_serialization_invocation, write_deserialization_invocation","%s, %s"%(GR,GT)),("skip, deserialize_field_header","%s, %s"%(GR,GT))],
 ["blocks of code executed, memory requested, processor time"])
p("C23","Generated TypeScript code does the same wherever JavaScript runs",
 "The code generated for TypeScript needs nothing but the language (ES2020) and TextEncoder and TextDecoder, so it gives the same sizes, bytes, values and errors in Node and in browsers, as an ECMAScript or a CommonJS module or a script, compiled by any tool, bundled and minified, with dynamic code evaluation forbidden by a Content Security Policy, and with frozen built-in objects. Loading it has no effects, and neither loading nor calling it changes or adds anything global. Functions given well-typed arguments throw no exceptions.",
 ["configurations","inputs"],
 "All types, values and messages in every environment and after every usual way of building.",
 "The tests compare text; the integration tests need a network and run one schema in one environment each.",
 [GT],
 [("generate, write_schema (prelude)",GT),("textDecoder, textEncoder, dataView64",GT),("write_serialization_invocation, write_deserialization_invocation",GT)],
 ["results in Node and in realms without Node's globals","global objects"])
p("C24","Generated Rust code compiles and does the same in every crate and build",
 "The code generated for Rust does not depend on the crate it is put into or on how it is built: it compiles in every edition of Rust (2015, 2018, 2021 and 2024), whatever names the schemas use, as a module, included in a module further below, as the root of a crate, and in a crate of its own (its types, fields and traits can be used from other crates); and the same values give the same bytes and sizes and the same messages give the same values and errors in debug and release builds, at every level of optimization, with and without debug assertions and checks of overflow.",
 ["configurations","inputs"],
 "All schemas, names, values and messages in every combination of edition, arrangement of crates and profile.",
 "Tests compare text; the integration tests run one schema, in one edition, as a module of one crate.",
 [GR],
 [("RUST_KEYWORDS, write_identifier, write_module_name",GR),("generate (prelude), write_module, write_struct, write_choice",GR),("write_serialization_invocation, write_deserialization_invocation, write_supers",GR)],
 ["verdicts of the compiler","bytes, values and errors in every build"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
