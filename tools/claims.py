NOTES = "Every check drives the real code built from /repo's working tree; see DESIGN.md."
MC = "model_checking"
EN = "bounded exhaustive enumeration of "
ON = ", on the real generator"
STRUCT = (EN + "JSON documents against a reference inference model" + ON, MC,
          "Every document of the stated families is generated and the output, read by an independent reader of the target language, must denote exactly the reference type. Trusts the reader and the reference model.")
CLAIMS = {p: STRUCT for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07"]}
CLAIMS.update({
 "C08": (EN + "key sets over an alphabet of special characters, words and case variants, in all output modes" + ON, MC,
         "Each member's effective wire name is read back from the output with an independent reader of the target language."),
 "C09": (EN + "root names x key sets x structures that collide with each other, with numbered variants, built-ins and reserved words" + ON, MC,
         "Declared and referenced names are resolved by an independent reader; the denoted type must equal the reference."),
 "C10": (EN + "byte strings, token sequences and single-byte edits, against an independent RFC 8259 recogniser" + ON, MC, "Ok/Err of every text is compared with the recogniser's verdict."),
 "C11": (EN + "documents x respellings of every token" + ON, MC, "Byte equality of the outputs of two spellings of the same value."),
 "C12": (EN + "samples, options blocks, macro texts, names, keys, SQL texts, shapes and nesting depths, monitored for panic, crash and hang" + ON, MC, "Overflow checks and debug assertions are on; deep texts run on a 2 MiB stack; 20 s without an answer count as a hang."),
 "C13": ("exhaustive enumeration of read schedules: every split of the sample into reads, segments and chunks, and a failure, interruption or early end at every read, injected under the real library and command line tool", MC,
         "Reads are controlled at libc level (LD_PRELOAD) and by a loopback HTTP server; the result must be that of the same bytes given at once, or an error."),
 "C19": ("exhaustive enumeration of requests (names x samples x options x modes, failing ones included) x interfaces x argument orders and spellings, on the real command line tool, macro and web entry point", MC,
         "Each interface's result is compared with the library's for the same request; macro invocations are expanded by rustc and compared with the library's output expanded alongside."),
 "C20": ("exhaustive enumeration of failing and succeeding requests x prior states of the output x splits, interruptions and failures at every open, read and write, on the real command line tool", MC,
         "Calls are controlled at libc level (LD_PRELOAD); exit status, standard streams and file contents are compared with the library's result."),
 "C21": ("stateless exploration of the real generator under a controlled scheduler: all request sequences up to a depth, all preemptions at allocation points for pairs of requests, hash seeds covering every iteration order, processes x environments", MC,
         "Every output is compared byte for byte with that of a fresh process. Preemption points are allocations, bounded as stated in DESIGN.md."),
 "C14": (EN + "documents x unwrap pointers (x hints, thresholds) against the reference model" + ON, MC, "The denoted type must equal the reference join of exactly the selected values; errors must coincide."),
 "C15": (EN + "documents x sets of hints against the reference model" + ON, MC, "The denoted type must equal the reference type with the hints applied."),
 "C16": (EN + "documents x thresholds x modes against the reference model" + ON, MC, "The denoted type must equal the reference type with maps at the objects above the threshold."),
 "C17": (EN + "token sequences and spellings of options blocks and macro texts against a reference grammar" + ON, MC, "Acceptance and the resulting Options are compared with a reference parser."),
 "C18": (EN + "option combinations x documents" + ON, MC, "Attributes, derives, visibilities and the denoted type are read back and compared with what the options document."),
 "C22": (EN + "tables (types x options x names x layouts), statement sequences and damaged texts" + ON, MC, "The denoted type and member order are compared with the documented mapping, in all output modes."),
 "C23": (EN + "arrays of observations, each compared with its sorted duplicate-free form and its reverse" + ON, MC, "Relational: both outputs are read back, members sorted, and must be equal unless the array becomes or stops being a tuple."),
 "C24": ("stateless exploration, with persistent sets and state matching on local histories, of every interleaving of user actions, messages, file reads and start-up, on the real page script and worker in a simulated browser", MC,
         "The scripts of App.svelte and worker.ts are transpiled from the working tree and run under a controlled event loop; in every quiet state the output must be the one for the inputs chosen last."),
 "C27": ("the same exploration as for C24, with the page loaded again at every state, for damaged contents of the browser's storage and under failures of its operations", MC,
         "At every state a second page starts from what the first has stored; its fields, and in quiet states its output, are compared with the first page's."),
 "C28": ("stateless exploration as for C24, copying and downloading at every state; exhaustive enumeration of texts for the format button, of histories of the code shown, and of the combinations of offered choices, whose requests go to the real code generator", MC,
         "The page's own handlers run in the simulated browser; a text's tokens are compared before and after formatting with an independent tokenizer; requests are compared with the library's answer for the fields' values."),
 "C25": (EN + "key pairs x formats" + ON, MC, "Effective wire names are computed with an independent implementation of the serialization libraries' naming rules."),
 "C26": (EN + "documents x import styles x options" + ON, MC, "The three styles are read back with their names resolved and compared."),
 "C29": (EN + "documents x subsets and spellings of options that do not concern the output mode" + ON, MC, "Relational: byte equality of the outputs with and without the options."),
})
NOT = {}
