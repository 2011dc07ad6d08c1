#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay in one readable place)."""
import json, os
S='json_typegen_shared/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=state
    P.append(d)

p('C01','Inferred type is exactly the join of all values seen at each position',
 'For every JSON sample, the type reported by the "shape" output mode at each position is the least type covering exactly the values that occur there: equal scalar kinds keep their kind, integer and non-integer numbers join to floating, null only adds nullability, differing kinds give "any", an array is a homogeneous list of the join of its elements unless its elements have nothing in common and it always has the same length of 2 to 12 (then a tuple of per-position joins), and an empty array has no element information. Objects join member-wise, and a member is marked optional exactly when some joined object lacks it. Nothing is invented, dropped or widened beyond that, however deeply nested and however many samples are joined.',
 ['inputs'],'all JSON documents (any nesting, member sets, array lengths)',
 'The unit tests join a handful of hand-written shapes; the join must be right for every combination and order of values, in particular mixtures of null, absence, tuples of equal and unequal length, and arrays past the 12-element window, which no test reaches.',
 [S+'inference/jsoninfer.rs',S+'shape.rs',S+'generation/shape.rs'],
 [('pairwise join of shapes',S+'shape.rs common_shape, common_field_shapes, into_optional, into_nullable'),('streaming inference',S+'inference/jsoninfer.rs infer_object/infer_array'),('tuple-or-list decision','generation/*.rs Tuple arms')],
 ['json_typegen_shared::codegen with output mode shape'])

p('C02','Rust output compiles, denotes the inferred type and round-trips the sample',
 'For every JSON sample and every root name that is a Rust type identifier, the default Rust output is a self-contained module that compiles with serde, whose root type is exactly the type the sample\'s values join to (i64, f64, bool, String, Vec, tuple, struct, Option for absent-or-null, dynamic JSON value where nothing is known). Deserializing the sample into it succeeds, and serializing it again preserves every value that was present. A list-valued member that may be absent becomes a plain list that defaults to empty.',
 ['inputs'],'all JSON documents x root names',
 'Tests compare a few generated snippets textually; none compiles output or feeds a sample through it, and no finite set of snippets covers the interaction of optionality, nullability, reuse of equal structs, tuples and naming.',
 [S+'generation/rust.rs',S+'shape.rs',S+'util.rs'],
 [('type rendering',S+'generation/rust.rs type_from_shape'),('reuse of an already generated struct',S+'shape.rs is_acceptable_substitution_for'),('optional list collapsing',S+'generation/rust.rs collapse_option_vec')],
 ['generated Rust source','rustc','serde_json::from_str / to_value'])

p('C03','TypeScript output denotes the inferred type and accepts the sample',
 'For every JSON sample, both TypeScript modes (interfaces, single type alias) emit a module that type-checks, whose root type denotes exactly the type the sample\'s values join to: number, string, boolean, arrays, tuples, object members with ? exactly where they may be absent and | null exactly where null occurs. The sample itself is assignable to the root type, and operator precedence never changes what an element type means.',
 ['inputs'],'all JSON documents x both TypeScript modes',
 'There are no tests of generated TypeScript types at all beyond identifier recognition.',
 [S+'generation/typescript.rs',S+'generation/typescript_type_alias.rs',S+'shape.rs'],
 [('type rendering',S+'generation/typescript.rs and typescript_type_alias.rs type_from_shape'),('reuse of interfaces',S+'shape.rs is_acceptable_substitution_for')],
 ['generated TypeScript','tsc'])

p('C04','Zod schema accepts exactly the values of the inferred type',
 'For every JSON sample, the Zod output is a syntactically valid module exporting one schema that accepts the sample, and it accepts another JSON value exactly when that value has the type the sample\'s values join to (object schemas ignoring unknown members, positions with no information accepting anything).',
 ['inputs'],'all JSON documents as sample x all JSON documents as probe',
 'No test covers Zod output at all; acceptance is a relation between two documents and can only be settled by enumerating both.',
 [S+'generation/zod_schema.rs'],[('schema rendering',S+'generation/zod_schema.rs type_from_shape')],['generated module evaluated with zod'])

p('C05','JSON Schema output is valid JSON and accepts exactly the inferred type',
 'For every JSON sample, the JSON Schema output is a well-formed draft-07 schema that validates the sample, and it validates another JSON value exactly when that value has the type the sample\'s values join to (unknown members allowed, positions with no information accepting anything). Members are listed as required exactly when every joined object has them.',
 ['inputs'],'all JSON documents as sample x all JSON documents as probe',
 'No test covers JSON Schema output; acceptance is a relation between two documents.',
 [S+'generation/json_schema.rs',S+'generation/value.rs'],[('schema rendering',S+'generation/json_schema.rs type_from_shape'),('JSON printing',S+'generation/value.rs pretty_print_value')],['generated schema, validated with two independent validators'])

p('C06','Python output is loadable and denotes the inferred type',
 'For every JSON sample, the Python output is a module that executes top to bottom without error (every class is defined before it is used, imports are present, names are legal), and the annotations of its root class or alias denote exactly the type the sample\'s values join to, with Optional exactly where a value may be absent or null. Members whose Python name differs from the JSON key carry the key as alias.',
 ['inputs'],'all JSON documents x root names',
 'Eight textual snapshot tests; definition order and self-reference depend on the whole document.',
 [S+'generation/python.rs',S+'shape.rs'],[('definition order and rendering',S+'generation/python.rs generate_data_class'),('import collection',S+'generation/python.rs python_types')],['generated module executed by CPython with a stub pydantic'])

p('C07','Kotlin output is well-formed and denotes the inferred type',
 'For every JSON sample, both Kotlin modes (Jackson, kotlinx) emit a file of imports, data classes and at most one root alias that is lexically and structurally well-formed, in which every referenced class is declared or imported, and whose root denotes exactly the type the sample\'s values join to: Long, Double, Boolean, String, List, Pair/Triple for 2- and 3-tuples (longer tuples become lists of unknown values), ? exactly where absent or null, and a generic map for an empty object.',
 ['inputs'],'all JSON documents x both Kotlin modes',
 'The only Kotlin test checks five field names.',
 [S+'generation/kotlin.rs',S+'shape.rs'],[('rendering',S+'generation/kotlin.rs type_from_shape, generate_data_class')],['generated Kotlin parsed by an independent parser'])

p('C08','Every JSON key is bound to exactly one member under exactly that wire name',
 'In every output mode, whatever characters the member names of the sample contain, the generated type of an object has exactly one member per JSON key and its effective serialized name is that key, character for character, with quoting and escaping that the target language reads back unchanged (the shape notation instead appends ? to keys that may be absent). Member identifiers are legal in the target language, are not reserved words, and are pairwise distinct within a type.',
 ['inputs'],'all sets of member names (control characters, quotes, backslashes, dollar signs, non-ASCII, keywords, digits, case variants, empty) x all nine output modes',
 'Tests rename two or three keys; collisions after case folding, reserved words, and characters needing escapes are combinations no sample list covers.',
 [S+'util.rs',S+'generation/rust.rs',S+'generation/kotlin.rs',S+'generation/python.rs',S+'generation/typescript.rs',S+'generation/zod_schema.rs',S+'generation/value.rs'],
 [('identifier construction and de-duplication','generation/*.rs type_or_field_name'),('case conversion',S+'util.rs'),('rename / alias annotations','generation/*.rs')],['wire name of every generated member'])

p('C09','Type names are distinct, legal and resolved; the root has the requested name',
 'For every sample and every valid root type name (a legal type identifier of the target language that is none of its built-in types nor a type the output imports), the output declares every type name at most once, every referenced type is either declared in the output, imported, or built into the target language, no generated name hides a built-in or imported type that the output itself uses, and a type of exactly the requested root name is declared (for Zod, a schema constant derived from it). Two objects share one generated type only when that type is exactly right for one of them and accepts all values of the other.',
 ['inputs'],'all member names and root names that collide with each other, with built-in type names, with numbered variants and with reserved words x all modes with named types',
 'Name collisions need particular combinations of root name, member names and structure; tests contain none.',
 [S+'generation/rust.rs',S+'generation/kotlin.rs',S+'generation/python.rs',S+'generation/typescript.rs',S+'shape.rs',S+'to_singular.rs'],
 [('type name de-duplication','generation/*.rs type_name, Ctxt.type_names'),('reuse test',S+'shape.rs is_acceptable_substitution_for')],['declared and referenced names of the output'])

p('C10','Exactly the well-formed JSON texts are accepted as samples',
 'Every well-formed JSON text (RFC 8259) whose nesting is at most 200 levels is accepted, and every text or byte sequence that is not well-formed JSON - truncated, trailing content, malformed numbers, literals, escapes or separators, invalid UTF-8 in a string - is rejected with an error instead of producing types. Raw control characters inside strings, lone surrogate escapes, a byte order mark and other white space than the four JSON characters around the text are left open.',
 ['inputs'],'all byte strings over a small alphabet, all token sequences, all single-byte edits of valid documents',
 'Fourteen positive and a few negative lexer tests; acceptance is a property of the whole language of texts.',
 [S+'inference/jsonlex.rs',S+'inference/jsoninfer.rs'],[('hand-written lexer',S+'inference/jsonlex.rs'),('recursive-descent inference',S+'inference/jsoninfer.rs')],['Ok/Err of codegen on file and inline samples'])

p('C11','Lexical form of a sample does not influence the output',
 'Two samples that are the same JSON value written differently - whitespace between tokens, escape sequences versus literal characters in strings and keys, different digits of an integer or of a decimal, different string contents, or a repeated member whose last occurrence counts - produce byte-identical output in every mode and under any options.',
 ['inputs'],'all JSON documents x all such respellings of each token',
 'Tests use one spelling of each sample.',
 [S+'inference/jsonlex.rs',S+'inference/jsoninfer.rs'],[('lexer normalisation',S+'inference/jsonlex.rs match_string, match_number')],['generated code of both spellings'])

p('C12','No input makes generation panic, abort or hang',
 'For every sample text, root name, options block, macro text and output mode, generation returns either code or an error value in bounded time; it never panics, overflows the stack or loops, including for malformed, deeply nested, empty, or binary samples, for hints and limits that do not fit the sample, and for SQL input without tables.',
 ['inputs','configurations'],'all sample texts x names x options x modes',
 'Absence of panics is a statement about all inputs; tests only feed well-behaved ones.',
 [S+'lib.rs',S+'inference/jsoninfer.rs',S+'inference/jsonlex.rs',S+'parse.rs',S+'sql.rs',S+'generation/kotlin.rs','json_typegen/src/lib.rs'],
 [('error propagation',S+'lib.rs codegen'),('panicking paths',S+'inference/jsoninfer.rs infer_map, '+S+'hints.rs add')],['return value, panics, exit signals of codegen, codegen_from_macro, parse::options'])

p('C13','Output depends only on the sample bytes, not on how they are delivered',
 'A JSON sample that starts with { or [, given inline, from a file, on standard input or from a URL yields the same output for the same bytes, no matter how reads split those bytes or whether reads are interrupted and retried. If reading fails or a transfer ends early, at any point, the result is an error and never types inferred from the part that was read.',
 ['inputs','fault_sequences'],'all splits of the byte stream into reads, and a failure at every read',
 'Tests only use inline text, which is never split and never fails.',
 [S+'lib.rs',S+'inference/jsonlex.rs',S+'progress.rs','json_typegen_cli/src/main.rs'],
 [('buffered byte reader with error surfacing',S+'inference/jsonlex.rs JsonLexer'),('source selection',S+'lib.rs infer_source_type, infer_from_sample'),('progress-reporting file reader',S+'progress.rs')],['codegen on files with controlled read results; CLI with stdin, file and loopback HTTP sources'])

p('C14','Unwrapping generates the type of exactly the selected nodes',
 'With an unwrap pointer, the output equals the output for the join of exactly the values the pointer selects (- matches any array element or member, a number matches that array element, other text matches that member name), and it is an error if nothing is selected. Parts of the sample that are not selected have no influence, except that the whole sample must still be well-formed.',
 ['inputs','configurations'],'all JSON documents x all pointers up to a depth, in combination with hints',
 'Five tests on one-level documents.',
 [S+'inference/jsoninfer.rs'],[('pointer walk during parsing',S+'inference/jsoninfer.rs unwrap')],['codegen with unwrap versus codegen on the selected values'])

p('C15','Type hints apply at exactly the positions their pointer selects',
 'A hint with an opaque type replaces exactly the values its pointer selects by that type in every mode, and a map hint turns exactly the selected objects into maps whose value type is the join of their members; all other positions are typed as without the hint, and a map hint that selects a non-object is an error. An opaque type stays when it meets absence, null or itself (what it becomes when joined with other kinds is left open). This holds for any array index and wildcard depth, several hints at once, and together with the other options.',
 ['inputs','configurations'],'all JSON documents x all hint sets up to two pointers of bounded depth',
 'Tests check pointer stepping on hand-made pointers and parsing of hints, never their effect on inference.',
 [S+'hints.rs',S+'inference/jsoninfer.rs'],[('pointer stepping',S+'hints.rs step_field/step_index/step_array'),('hint application',S+'inference/jsoninfer.rs infer_shape, infer_map')],['codegen with hints versus reference'])

p('C16','The map threshold turns exactly the larger objects into maps',
 'With a map threshold N, every object of the sample with more than N members is typed as a map from string to the join of its member values, in every output mode, while objects that stay within N after joining remain structured types (objects that exceed N only after joining, and joins of a map with a structured object, are left open); without a threshold no map is inferred.',
 ['inputs','configurations'],'all JSON documents x all thresholds around their object sizes x all modes',
 'No test sets the threshold.',
 [S+'inference/jsoninfer.rs',S+'generation/typescript_type_alias.rs',S+'generation/zod_schema.rs'],[('threshold test',S+'inference/jsoninfer.rs infer_object; typescript_type_alias.rs and zod_schema.rs Struct arms')],['codegen with infer_map_threshold'])

p('C17','Options blocks mean what they say in every accepted spelling',
 'An options block is accepted exactly if it is a brace-delimited, comma-separated list of known options with arguments of the right kind, keys written bare or quoted, with optional whitespace and trailing comma, booleans written out or abbreviated; it then sets exactly the named options to the given values, later ones winning, and leaves all others at their defaults. Anything else is an error (values that name no known mode of an enumerated option are left open), and a full macro text parses to the same name, sample and options as its parts.',
 ['inputs','configurations'],'all token sequences of the option grammar up to a length, all spellings of each option',
 'Nine fixed blocks are tested.',
 [S+'parse.rs',S+'options.rs'],[('option grammar',S+'parse.rs options_with_defaults, block, string_option, boolean_option')],['parse::options, parse::macro_input, parse::full_macro results'])

p('C18','Rust options change exactly what they document and keep the sample loadable',
 'For every sample and combination of Rust options, visibility and field visibility appear on exactly the types and fields they name, derives are exactly those requested, and deny-unknown-fields, default-for-missing-fields and collect-additional put the corresponding serde behaviour on every struct (the visibility of the catch-all member itself is left open); the output still compiles and deserializes the sample. Under default-for-missing-fields, members that may be absent lose their Option but nullable ones keep it, and an option list is kept only when asked for.',
 ['inputs','configurations'],'all JSON documents x all combinations of the Rust options',
 'Tests cover one option value at a time on one sample; the serde behaviour is never executed.',
 [S+'generation/rust.rs',S+'options.rs',S+'lib.rs'],[('option handling',S+'generation/rust.rs generate_struct_type, type_from_shape, collapse_option_vec'),('visibility prefix',S+'lib.rs handle_pub_in_name')],['generated Rust, compiled and executed'])

p('C19','All interfaces produce the same types for the same request',
 'The library, the command line tool, the procedural macro and the web (wasm) entry point give the same output for the same name, sample, options and mode (macro forms defaulting to fully qualified paths), and all report an error for the same requests: the command line by a message and failing status, the macro by a compile error carrying the message, the web entry point by a text starting with "Error:".',
 ['inputs','configurations'],'requests = samples x options x modes x interfaces, including failing ones',
 'No test exercises the command line, the wasm entry point, or an erroneous macro.',
 ['json_typegen_cli/src/main.rs','json_typegen/src/lib.rs','json_typegen_wasm/src/lib.rs',S+'lib.rs'],[('argument handling','json_typegen_cli/src/main.rs'),('macro expansion','json_typegen/src/lib.rs'),('wasm wrapper','json_typegen_wasm/src/lib.rs')],['stdout, output file, exit status, macro expansion, wasm return value'])

p('C20','The command line never loses or truncates an output file on failure',
 'When the command line tool cannot produce code - bad sample, unreadable source, bad options or unknown mode - it exits with failing status, prints the reason to standard error, writes nothing to standard output, and leaves an existing output file byte-for-byte as it was. When it reports success, the output file contains exactly the generated code and nothing of its previous content, even if writes were split or interrupted; if opening or writing the output fails, the status is failing.',
 ['fault_sequences','crash_points','histories'],'all failure causes x prior states of the output file x a fault at every open/read/write call',
 'The command line tool has no tests.',
 ['json_typegen_cli/src/main.rs'],[('order of evaluation, opening and writing','json_typegen_cli/src/main.rs main_with_result')],['exit status, stdout, stderr, output file content'])

p('C21','Output is deterministic and independent of history',
 'The same request always yields byte-identical output: across repetitions, processes, threads and hash seeds, and regardless of which other requests, successful or failing, were served before or at the same time in the same process.',
 ['histories','schedules','inputs'],'all sequences of requests up to a length, concurrent pairs, all hash-iteration orders of the internal sets',
 'Each test makes one call in a fresh or unrelated state and cannot see iteration-order or leftover-state effects.',
 [S+'generation/rust.rs',S+'generation/kotlin.rs',S+'generation/python.rs',S+'lib.rs'],[('sorting of hash-set contents','generation/{rust,kotlin,python}.rs import emission'),('per-call context','generation/*.rs Ctxt')],['codegen results'])

p('C22','SQL table definitions map to the documented types',
 'For SQL input, the first CREATE TABLE statement becomes an object type with one member per column, in order, under the column\'s name without quoting; character types become string, integer types integer, booleans boolean, dates and timestamps an opaque Date, other types unknown, and a column is nullable exactly when it is not declared NOT NULL. Input that is not SQL or defines no table is an error.',
 ['inputs'],'all tables of up to a few columns over the column types, quoting styles and column options; all statement sequences up to a length',
 'The one SQL test asserts nothing about its output.',
 [S+'sql.rs',S+'lib.rs'],[('column mapping',S+'sql.rs shape_for_column'),('table selection',S+'lib.rs codegen')],['codegen with SQL input mode'])

p('C23','Order and repetition of array elements do not change what is inferred',
 'Inference treats the elements of a list as a set of observations: permuting the elements of an array, repeating some of them, or permuting the members of objects yields the same type up to member order, as long as the array does not become or stop being a tuple. In particular the inferred optionality, nullability and numeric kinds never depend on which element came first or on an element\'s distance from the start.',
 ['inputs'],'all arrays of observations up to a length x all permutations and duplications',
 'Symmetry is a relation between runs on different inputs; no test relates two runs.',
 [S+'shape.rs',S+'inference/jsoninfer.rs'],[('commutative, associative, idempotent join',S+'shape.rs common_shape'),('window of the first 12 elements',S+'inference/jsoninfer.rs infer_array')],['codegen on both documents'])

p('C24','The web page always shows the output for its current input',
 'Whatever the order in which the user edits fields, loads small or large files and clears them, and however these interleave with worker start-up, file reading and code generation, once everything is quiet the displayed output is the one generated from the last requested name, options and input source, and the loading indicators are off. No response is attributed to a newer request and no request is lost.',
 ['schedules','histories'],'all interleavings of user events, worker message deliveries and file-read completions up to a depth',
 'The web code has no tests, and message interleavings cannot be sampled meaningfully.',
 ['json_typegen_web/src/App.svelte','json_typegen_web/src/lib/worker.ts','json_typegen_web/src/lib/file.ts'],[('single-slot request queue','json_typegen_web/src/App.svelte requestCodegen, worker.onmessage'),('worker-side large file slot','json_typegen_web/src/lib/worker.ts')],['displayed output, loading flags'],
 [dict(name='queued request',meaning='latest request waiting for the worker',where='App.svelte'),dict(name='large file slot',meaning='file contents overriding the text input',where='lib/worker.ts')])

p('C25','A property name format never changes the serialized names',
 'For every property name format and every set of member names, Rust and Kotlin/Jackson output still binds every JSON key exactly: the effective name of each field - its explicit rename if present, otherwise the result of applying the struct-level naming rule as the serialization library does - equals the original key.',
 ['inputs','configurations'],'all member-name pairs over a case/separator/digit alphabet x all eight formats',
 'One rename test per mode; the naming rules differ subtly from the generator\'s own case conversion, so agreement must hold for every key.',
 [S+'generation/rust.rs',S+'generation/serde_case.rs',S+'generation/kotlin.rs',S+'util.rs'],[('decision to emit an explicit rename',S+'generation/rust.rs needs_rename; kotlin.rs apply_transform'),('vendored naming rules',S+'generation/serde_case.rs')],['effective wire names; serde_derive itself'])

p('C26','Import style changes only how external names are written',
 'In the Rust, Kotlin and Python modes, with added imports the output imports every external name it uses, each once, and (apart from the Rust derive macros, which are always imported) no other; with assumed imports it is the same output without import lines; with qualified paths every external name is written in full and nothing needs importing (except Python modules). Resolving the names yields the same types under all three styles, for every sample and other option.',
 ['inputs','configurations'],'all JSON documents x import styles x options that add external names',
 'Tests use one fixed style per file.',
 [S+'generation/rust.rs',S+'generation/kotlin.rs',S+'generation/python.rs'],[('import bookkeeping','generation/{rust,kotlin,python}.rs import')],['generated code of the three styles'])

p('C27','Reloading the web page loses nothing, and failing storage breaks nothing',
 "Reloading the web page at any moment brings back the name, the options, the extra options and the input as they were (a field left blank may come back with its default, and an input of a million characters or more is not kept), and the output then shown is the one for these fields. Whatever text the browser's storage contains - nothing, damaged data or data of another version - the page starts and shows the output for its fields. If reading from or writing to the storage fails, the page works all the same, as stated in C24.",
 ['schedules','histories','crash_points'],'all interleavings of user events, worker messages and file reads up to a depth, with a reload at every state x contents of the storage x failures of its operations',
 'The web code has no tests; a reload is a crash at an arbitrary point of a history.',
 ['json_typegen_web/src/App.svelte','json_typegen_web/src/lib/localstorage.ts'],[('what is stored, and when','json_typegen_web/src/App.svelte render'),('storing and restoring','json_typegen_web/src/lib/localstorage.ts')],['fields and output after a reload'],
 [dict(name='stored parameters',meaning='the fields as of the last change',where='lib/localstorage.ts')])

p('C28','The web page hands out what it shows, and formatting keeps the content',
 "At every moment the text that the web page's copy button copies and the file that it offers for download are the output shown; the file is called by the type name and the usual extension of the output language (rs, ts, kt, py or json), and once everything is quiet the highlighted code is that output. Formatting the input changes nothing but the white space between the tokens of a JSON document, in the same way for all documents that differ in white space only, and leaves any other text as it is, so that the generated types stay the same. Every combination of choices that the page offers is accepted by the code generator and gives the output that these choices stand for.",
 ['schedules','histories','inputs','configurations'],'all interleavings of user events, worker messages and file reads up to a depth, with a copy and a download at every state; all JSON documents of several families and all texts over an alphabet up to a length; all combinations of offered choices',
 'The web code has no tests, and none could try every text or every moment.',
 ['json_typegen_web/src/App.svelte','json_typegen_web/src/lib/download.ts','json_typegen_web/src/components/HighlightedCode.svelte'],[('formatting','json_typegen_web/src/App.svelte formatInput'),('copying and downloading','json_typegen_web/src/App.svelte copyOutput; lib/download.ts'),('what the select boxes offer','json_typegen_web/src/App.svelte template')],['clipboard text, download link, input field, requests to the code generator'])

p('C29','Options leave the outputs that they are not documented for unchanged',
 "The options documented as Rust-specific - derives, field_visibility, deny_unknown_fields and allow_option_vec - and a visibility written before the requested name change no byte of the output in any other mode. In the modes that have neither renaming attributes nor imports nor a place for additional members (both TypeScript modes, Zod, JSON Schema and shape), property_name_format, import_style and collect_additional change nothing either; in JSON Schema and shape, nor does use_default_for_missing_fields (what that one does in the remaining modes is left open). This holds for each of these options alone and in any combination, with any value, and next to hints, unwrapping and map thresholds; and a request that fails without them fails with them.",
 ['inputs','configurations'],'all JSON documents of bounded size x subsets and spellings of the options x modes x other options',
 'Tests set an option in the mode it is made for; that it has no effect elsewhere is a relation between two runs, for every sample.',
 [S+'lib.rs',S+'options.rs',S+'shape.rs',S+'generation/typescript.rs',S+'generation/zod_schema.rs',S+'generation/json_schema.rs',S+'generation/python.rs',S+'generation/kotlin.rs'],[('visibility before the name',S+'lib.rs handle_pub_in_name'),('options read by the generators',S+'generation/*.rs type_from_shape')],['codegen with and without the options'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
