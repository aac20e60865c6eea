"""Writes /verif/properties.jsonl (kept as a script so the wording has one source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "observe_at": observe, "hook_needed": None}})

CACHE = "tn/cache.py"; PROC = "tn/processor.py"; TOK = "tn/token_parser.py"; ALI = "tn/alignment.py"; CLI = "tn/cli.py"
ALLPIPE = ["tn/chinese/normalizer.py", "tn/english/normalizer.py", "tn/japanese/normalizer.py",
  "itn/chinese/inverse_normalizer.py", "itn/english/inverse_normalizer.py", "itn/japanese/inverse_normalizer.py"]

p("C01", "A cached grammar is used only after complete verification of its bundle",
  "Loading a cache entry returns graphs only if the entry holds exactly the expected files, its manifest is a mapping that agrees with every identity field of the requested build, and each graph file is within its size limit, has the declared size and has the declared SHA-256; the graphs returned are deserialised from the very bytes that were hashed, tagger first and verbalizer second. In every other case the load reports a miss (or refuses a link or special file) and never hands back a graph. The metadata that publishing writes is exactly what loading checks.",
  ["inputs", "fault_sequences"], "every possible content of a bundle directory: missing, extra, truncated, bit-flipped, swapped or foreign files, and any JSON in the manifest",
  "The tests corrupt a handful of bundles in a handful of ways; the space of damaged directories is unbounded, and a skipped comparison shows only on the one kind of damage it would have caught.",
  [CACHE], [("load / bundle verification", CACHE+": CacheBundle.load, _load_path"), ("bounded regular-file reader", CACHE+": _read_open_regular"), ("manifest writer", CACHE+": CacheBundle.publish, _expected_manifest_identity")],
  ["CacheBundle.load", "Processor construction from an existing cache"])

p("C02", "Everything that shapes a compiled grammar is part of its cache identity",
  "Two processors share a cache entry only if they were built from the same language pipeline, the same value of every constructor option that can influence the graphs, the same order type, the same builder, Python and Pynini versions, and byte-identical grammar sources and data files. Every option a pipeline's graph builder reads is part of that pipeline's cache key under its own name, and all pipelines use distinct cache names.",
  ["configurations", "histories"], "all pairs of configurations, versions and source trees that may share one cache root over time",
  "A stale-cache bug needs two runs with a particular pair of configurations or source versions against one directory; the suite builds few option combinations and rarely reuses a directory across them.",
  [CACHE, PROC] + ALLPIPE, [("content-addressed digests", CACHE+": CacheBundle.__init__, _builder_identity, _canonical_json"), ("source fingerprint", CACHE+": production_source_fingerprint"), ("per-pipeline cache_config", "*/normalizer.py, */inverse_normalizer.py __init__")],
  ["bundle path", "manifest.json", "Normalizer/InverseNormalizer constructors"])

p("C03", "A cache bundle becomes visible only by one atomic rename of a durable copy",
  "Publishing writes only into a private temporary directory beside the target; the bundle's final name is only ever given or taken by a rename, and only after every file of the new bundle has been written, read back, recorded in the manifest and flushed to disk, together with the temporary directory's own entry list. A crash or error at any point leaves the old bundle, no bundle or the complete new bundle under the final name; after an error that leaves no bundle the previous one is put back, and the rename itself is flushed before the old copy is discarded.",
  ["crash_points", "fault_sequences"], "a crash or an I/O error at every step of publication, replacement and recovery",
  "Tests inject a few failures at chosen calls; they cannot stop the process between every two steps or observe what a lost write-back would leave behind.",
  [CACHE], [("publish", CACHE+": CacheBundle.publish, _write_fst, _write_manifest, _fsync_directory"), ("rename with retry", CACHE+": _replace_with_retry"), ("recovery of leftovers", CACHE+": recover_residuals")],
  ["contents of the cache directory after a crash", "CacheBundle.publish"])

p("C04", "The shared cache entry is changed only under its exclusive per-key lock",
  "Every operation that moves, removes, recovers or publishes a cache entry during grammar construction happens while the process holds that key's exclusive lock, and the entry is looked up again after the lock is obtained before any build starts. The lock is entered only after an exclusive, non-blocking acquisition succeeded, it is released and its file closed on every exit including errors, waiting is bounded by a validated finite non-negative timeout, and the lock file itself is never deleted, renamed or replaced.",
  ["schedules", "fault_sequences"], "all interleavings of processes building, loading and recovering the same key, and all failures while waiting or working",
  "Only particular interleavings of several processes expose a mutation outside the lock or a lock that is not really held; the tests run a few orders with generous timing.",
  [CACHE, PROC], [("lock context manager", CACHE+": CacheBundle.lock, _open_lock_anchor, _try_advisory_lock"), ("double-checked build", PROC+": Processor.build_fst")],
  ["Processor.build_fst", "CacheBundle.lock"])

p("C05", "Cache operations release every file descriptor they open on every exit",
  "Every descriptor or file object opened by cache loading, locking, publishing, fingerprinting and cleanup is closed exactly once on every way out of the operation: normal return, early miss, refusal or any exception. No descriptor is used after it was closed.",
  ["fault_sequences"], "an exception at any call on any path of the cache operations",
  "A leak or double close needs a failure between one particular open and its close; tests trigger few of those points and do not count descriptors.",
  [CACHE], [("try/finally and with blocks around descriptors", CACHE+": _open_directory_chain, _read_regular_at, _read_regular_file, _remove_flat_bundle_impl, lock, _load_path, _fsync_directory")],
  ["process descriptor table"])

p("C06", "Cache operations stay inside the cache root, follow no links and never recurse",
  "All paths the cache creates, renames, reads or deletes are below the configured root for every accepted cache name; names that are not one safe path component are rejected. Existing files and directories below the root are opened for reading or cleanup without following symbolic links and only regular files are read; deletion is limited to the known flat files of a bundle and the then-empty directory, refuses a bundle that holds anything else, and never descends into a subdirectory.",
  ["inputs", "fault_sequences"], "every cache prefix, every pre-existing content of the cache root including links, junctions and special files, swapped at any time",
  "An escaping path or an over-eager cleanup shows only for a hostile or unlucky directory layout; the tests try a few fixed layouts.",
  [CACHE], [("prefix validation and containment assertion", CACHE+": CacheBundle.__init__, _assert_under_root"), ("no-follow directory chain", CACHE+": _open_directory_chain, _validate_directory_chain, _ensure_directory"), ("flat removal", CACHE+": _remove_flat_bundle_impl")],
  ["file system below and beside the cache root"])

p("C07", "Grammar construction honours in-memory, overwrite, source-change, reload rules",
  "With caching disabled, construction builds both graphs and touches no cache file at all; with overwrite requested, a previously cached entry is never what the processor ends up using. A bundle is published only after both graphs were built and the grammar sources were confirmed unchanged since the key was computed, and the processor then uses the graphs re-read and verified from the published bundle, failing loudly if they cannot be. Every successful construction leaves both graphs set and coming from the same load or the same build.",
  ["configurations", "histories"], "all combinations of cache mode, overwrite flag, cache state found before and after taking the lock, and source edits during the build",
  "The tests drive a few of these combinations with stubs; the wrong branch for one of them (for example a hit after the lock under overwrite) can pass unnoticed.",
  [PROC, CACHE], [("build_fst protocol", PROC+": Processor.build_fst")], ["Processor.build_fst", "tagger/verbalizer of a constructed processor"])

p("C08", "Damaged cache contents cause a rebuild, never a crash",
  "For any bytes inside a bundle's own regular files, and for any missing or extra entry in the bundle directory, looking the bundle up returns a miss rather than raising, so that construction quarantines the damaged entry and rebuilds it. Only links, special files, path escapes and genuine I/O errors outside those files may surface as errors.",
  ["inputs", "fault_sequences"], "arbitrary bytes in tagger, verbalizer and manifest files, and arbitrary directory entries",
  "Tests write a few malformed manifests; the exception a decoder raises depends on input shapes they never try (for example extreme nesting).",
  [CACHE], [("exception handling around decoding", CACHE+": CacheBundle._load_path"), ("quarantine", CACHE+": CacheBundle.remove_invalid")], ["CacheBundle.load", "Processor.build_fst"])

p("R01", "Querying a processor never changes it: results do not depend on call history",
  "Tagging, verbalizing, normalizing and normalizing with mappings leave the processor, its two graphs, its token orders and all module-level state exactly as they were, and build their result only from the arguments and the graphs fixed at construction. The same call therefore gives the same answer whatever was asked before, on the same or another processor.",
  ["histories", "schedules"], "all sequences of queries with all inputs on shared processors",
  "A mutation of a shared graph or table corrupts a later, different query; tests use short histories on fresh objects.",
  [PROC, ALI, TOK], [("copies before in-place graph operations", PROC+": _UniqueOutputPathStream, Processor.tag"), ("fresh parser per query", PROC+": Processor.token_parser")],
  ["Processor.tag", "Processor.verbalize", "Processor.normalize", "Processor.normalize_with_mapping"])

p("R02", "User text is always literal, never grammar-compiler syntax",
  "Every string that reaches a graph composition at query time - the user's text, the tagger's output, the selected output - is escaped exactly once first, so brackets and backslashes in the text stand for themselves. No query-time string is compiled unescaped or escaped twice, and escaped text is never what is shown to or measured for the user.",
  ["inputs"], "all input strings, in particular those containing [, ] and backslash, on every query entry point and path",
  "The few bracketed samples exercise some entry points; one forgotten or doubled escape affects only strings with special characters on that path.",
  [PROC, ALI], [("escape before accep/composition", PROC+": tag, _normalization_candidates; "+ALI+": trace_input_spans, transduce_with_spans")],
  ["Processor.tag", "Processor.verbalize", "Processor.normalize", "Processor.normalize_with_mapping"])

p("R03", "N-best queries validate n, return at most n distinct results, and keep their shape",
  "Every query that takes an n-best count rejects booleans, non-integers and values below one before doing any work or taking the empty-input shortcut. It returns a single result for n equal to one and a list for larger n, with at most n pairwise different outputs in the order the candidate search produced them; empty input gives the empty result in the same shape, and normalization that finds no candidate raises instead of returning nothing.",
  ["inputs"], "all inputs and all values of n, including booleans, zero, negatives and non-integers, on all three query methods",
  "Tests sample a few n and inputs; duplicates and shape errors depend on how many paths a particular input has.",
  [PROC], [("validation", PROC+": _validate_nbest"), ("distinct outputs", PROC+": _UniqueOutputPathStream, _normalization_candidates")],
  ["Processor.tag", "Processor.normalize", "Processor.normalize_with_mapping"])

p("R04", "Normalizing with mappings returns exactly what normalizing returns",
  "Normalization with and without mappings draws on the same candidate search with the same text and count, one result per candidate in the same order. Each mapped result is traced along the path whose tag and output are those of its candidate - the trace is constrained to the selected tagged text and selected output - so the reported output equals the plain one even when other paths are cheaper.",
  ["inputs"], "all inputs and n, especially inputs with several outputs for one tag and ambiguous tags",
  "Plain and mapped output differ only when the cheapest path is not the chosen candidate; the tests compare them on few ambiguous inputs.",
  [PROC, ALI], [("shared candidate search", PROC+": _normalization_candidates, normalize, normalize_with_mapping"), ("constrained tracing", ALI+": transduce_with_spans(output_text=...), trace_input_spans")],
  ["Processor.normalize", "Processor.normalize_with_mapping"])

p("R05", "Reported spans are character offsets into the right text, or an error is raised",
  "Every start and end in a mapping is a character offset - never a byte offset - and input offsets index only the input text while output offsets index only the output text; the texts reported with a mapping are exactly those slices, and its kind agrees with them. When a span cannot be established exactly (no path, ambiguous path, split character, overlapping or inconsistent offsets, a token that consumed nothing) an alignment error is raised rather than a guessed span returned.",
  ["inputs"], "all inputs, in particular text mixing characters of different encoded lengths, insertions and deletions",
  "Byte and character offsets coincide on ASCII and differ by input; the tests check chosen sentences, not every mixture of widths.",
  [ALI, PROC], [("byte/character boundary tables", ALI+": _text_boundaries, _character_spans_to_byte_spans"), ("exact tracing", ALI+": _linear_arcs, trace_input_spans, transduce_with_spans"), ("slicing", PROC+": _normalize_candidate_with_mapping")],
  ["Processor.normalize_with_mapping"])

p("T01", "Malformed token streams are rejected and parsing always terminates",
  "Parsing a tagged-token stream consumes the whole stream or raises the parse error: an empty stream, a missing or misspelt delimiter, an empty or illegal key, an unterminated value, escape or token and a repeated field are each rejected, never skipped or repaired. Every parsing loop advances through the input or stops, so parsing ends for every finite string, and no other exception type escapes for any string.",
  ["inputs"], "all finite strings given to the token parser",
  "The tests list a few malformed streams; acceptance of one more malformed shape or a hang on an unusual one is invisible to them.",
  [TOK], [("recursive-descent parser with explicit errors", TOK+": TokenParser.parse and its helpers"), ("duplicate check", TOK+": Token.append")],
  ["TokenParser.parse", "TokenParser.reorder", "Processor.verbalize"])

p("T02", "Reordering tokens keeps every field and value and reports exact spans",
  "Reordering changes only the order of fields inside a token: every parsed token and field appears exactly once in the output, listed fields first in schema order and all others after them in their original order, or in the original order when the token asks for it; field values are unescaped when read and escaped the same way when written, backslash before quote, so that reading the output again gives the same values. The span reported for each token covers exactly its serialised text in the returned string.",
  ["inputs", "configurations"], "all well-formed token streams, values containing quotes and backslashes, and all schemas",
  "Loss of a field needs a token with an unlisted or unusually ordered field, and escaping faults need a backslash next to a quote; the tests contain a few.",
  [TOK], [("serialisation", TOK+": Token.string, escape_value, parse_value"), ("spans", TOK+": reorder_with_spans")],
  ["TokenParser.reorder", "TokenParser.reorder_with_spans"])

p("T03", "Grammar and parser agree on the token wire format",
  "The delimiters the grammar writes around token names, field names and values are exactly those the token parser accepts and writes, and exactly those the verbalizer grammar consumes. Inside a quoted value the grammar always escapes backslash and quote the way the parser unescapes them, and its decoding of values inverts its encoding; every token and field name any grammar rule uses consists only of letters and underscores.",
  ["inputs", "programs"], "all tokens any rule of any language can emit, for all values",
  "Three independent pieces of code define one format; a divergence that only concerns a rare delimiter position or special character passes sampled tests.",
  [PROC, TOK], [("value encoding", PROC+": Processor.CHAR, SIGMA, tag_field, verbalize_field"), ("token wrapping", PROC+": add_tokens, delete_tokens"), ("parser delimiters", TOK+": TokenParser.parse")],
  ["tag output", "verbalizer input"])

p("G01", "Taggers preserve the written text of every field",
  "In every pipeline, what a rule's tagger writes into a quoted field is the user's own text for that field, unchanged except for quoting: spoken forms, digits conversion, case changes and other rewrites happen only in the verbalizer. A tagger may add field syntax and fixed markers and may drop white space and delimiters (punctuation marks that separate parts), but it never rewrites the characters it keeps.",
  ["inputs", "programs"], "every rule of all six pipelines, every configuration, every input",
  "Tests compare tags for sampled sentences; a rewriting branch deep in one rule only shows on an input that takes it, and silently corrupts spans and mappings.",
  [PROC] + ["tn/*/rules/*.py", "itn/*/rules/*.py"], [("input_projection/tag_field", PROC+": Processor.tag_field"), ("rule taggers", "*/rules/*.py build_tagger")],
  ["Processor.tag"])

p("G02", "Every token a tagger can emit is understood by the verbalizer",
  "For every rule of every pipeline and every configuration, each sequence of fields the tagger can emit for a token is, after reordering by that pipeline's own token schema, a sequence of fields the verbalizer of the same pipeline accepts for that token name. Every rule that tags also verbalizes in the same pipeline, and no two rules of a pipeline claim the same token name with different verbalizers unless both are meant to serve it.",
  ["inputs", "configurations", "programs"], "all tokens derivable from each rule's tagger, all option combinations, all six pipelines",
  "A field order or optional field that the verbalizer does not accept makes verbalization fail (or silently pick another reading) only for inputs that use exactly that combination of fields.",
  ALLPIPE + ["tn/*/rules/*.py", "itn/*/rules/*.py", PROC, TOK], [("rule inventories", "*/normalizer.py build_tagger_and_verbalizer"), ("token orders", "*/normalizer.py TOKEN_ORDERS"), ("field protocol", "*/rules/*.py build_tagger, build_verbalizer")],
  ["Processor.tag", "Processor.verbalize", "Processor.normalize"])

p("G03", "Every pipeline has a last-resort rule for any character, dearer than real rules",
  "Every text of one or more characters other than U+0000 has at least one reading in every pipeline and configuration, so no text makes tagging fail. The classifier contains a last-resort rule that accepts any single character that is not white space (quotes and backslashes included), or any word of such characters, whose top-level cost is greater than that of every other rule, and whose verbalizer gives that text back unchanged. Top-level costs are constant non-negative numbers, nothing inside the last-resort rule lowers its cost, and no single weight inside another rule makes that rule as dear as the last resort.",
  ["inputs", "configurations"], "all inputs of ordinary characters, all option settings, all six pipelines",
  "The character that falls through, or the sentence on which a mis-weighted fallback beats a rule, is one of an unbounded set; the tests contain few out-of-vocabulary characters.",
  ALLPIPE + ["*/rules/char.py", "*/rules/word.py"], [("Char/Word fallback", "*/rules/char.py, */rules/word.py"), ("RuleSpec weights", "*/normalizer.py, */inverse_normalizer.py")],
  ["Processor.normalize", "Processor.tag"])

p("G04", "Building one rule never alters a graph another rule uses",
  "While a pipeline is assembled, in-place graph operations are applied only to graphs the performing code has just created or copied; graphs shared between rules, held as attributes of another rule or defined at module level are never modified, and neither is any shared table. The meaning of a rule therefore does not depend on the order in which rules are constructed or on how many processors were built before.",
  ["histories", "configurations"], "all construction orders and any number of pipelines built in one process",
  "An aliasing mutation changes some other rule only in some construction order; the suite builds each pipeline in one fixed order in its own process.",
  [PROC, "tn/*/rules/*.py", "itn/*/rules/*.py"] + ALLPIPE, [("copy before project", PROC+": Processor.input_projection"), ("rule construction", "*/rules/*.py")],
  ["graphs after construction"])

p("G05", "Each option reaches exactly the grammar stage that implements it",
  "Every documented constructor option of a pipeline changes what is built, in the documented direction: it is stored under its own meaning, handed to the rule or processor parameter of the same meaning, and consulted there, and no option is read from another option's value or negated on the way. With an option off, the stage it controls is absent from the graphs; with it on, the stage is present with the data set that belongs to it.",
  ["configurations"], "all combinations of the boolean options of the four configurable pipelines",
  "There are over a hundred combinations across pipelines; the tests build only a few, and crossed or dropped options cancel out in the default configuration.",
  ALLPIPE + ["*/rules/postprocessor.py", "*/rules/preprocessor.py", "*/rules/cardinal.py"], [("option plumbing", "*/normalizer.py __init__ and build_tagger_and_verbalizer"), ("conditional stages", "*/rules/postprocessor.py, whitelist.py, cardinal.py, measure.py, money.py")],
  ["Normalizer/InverseNormalizer constructors"])

p("D01", "Every grammar resource exists, is well-formed, and belongs to the right language",
  "Under every combination of options, every data file a grammar builder names exists, ships with the package (as does every module the builders import), decodes as UTF-8 whatever the locale, and is read in a format it satisfies: every row is read whole (no cell is taken for a comment or joined by a quote), column counts and weights suit the reader, no stray control characters. Rules read only resources of their own language and direction, and the text normalization grammars never depend on the inverse package.",
  ["programs", "configurations"], "all resources, all rules, all configurations, in a source tree and in an installed package",
  "Tests run from the source tree with default options, where a file missing from the package, a wrong-language path behind an option, or a malformed row never surfaces.",
  ["tn/utils.py", "itn/utils.py", "pyproject.toml", "tn/*/data/**", "itn/*/data/**"], [("resource lookup", "tn/utils.py, itn/utils.py: get_abs_path"), ("package data globs", "pyproject.toml")],
  ["import and construction of every pipeline"])

p("D02", "Number, month, weekday and era tables say what the numerals mean",
  "In every numeric data table each written numeral and its spoken form denote the same number, judged by an independent reading of Chinese, Japanese and English number words: digits, zero, teens, tens, hundreds, ordinals, months, days, weekdays and hours. Each table covers its whole range (for example all ten digits or twelve months) and gives no key two different values unless they are variants of the same number.",
  ["inputs"], "every row of every numeric table used by a grammar",
  "Tests touch a sample of rows; a wrong or missing row changes only the inputs that contain that numeral.",
  ["tn/*/data/number/*", "tn/*/data/date/*", "itn/*/data/number(s)/*", "itn/*/data/date/*"], [("tables", "*/data/**.tsv"), ("loaders", "*/rules/*.py")],
  ["normalize on numbers and dates"])

p("L01", "Command-line options reach the matching constructor parameter with its default",
  "For each direction and language, every command-line option is passed to the constructor parameter of the same meaning and no other, the default on the command line equals the default of the constructor, the positive form sets it true and the negative form false, and options are offered only for languages whose constructor takes them. The two console commands run their own direction, and the selected language always builds that language's processor of that direction.",
  ["configurations", "inputs"], "all option combinations and spellings for two directions and three languages",
  "Swapped or dropped wiring is invisible in the default configuration and the tests stub the processors for only some combinations.",
  [CLI, "tn/main.py", "itn/main.py", "pyproject.toml"] + ALLPIPE, [("argument tables", CLI+": _add_tn_arguments, _add_itn_arguments, _add_boolean"), ("constructor wiring", CLI+": create_processor")],
  ["wetn", "weitn"])

p("L02", "The command line emits one tag line and one text line per input line",
  "For every input line, from the text option, a file or standard input, the command prints exactly the tagged form and then the verbalized form of that very tag, in input order; nothing is skipped, merged or duplicated. Only the line terminator is removed before processing - all other leading and trailing characters reach the processor - files are read as UTF-8, and exactly one input source is used.",
  ["inputs"], "all texts, files and streams, including empty lines, CR, CRLF, missing final newline and surrounding blanks",
  "Tests feed a few short files; lost blanks, lost last lines or skipped empty lines need particular inputs.",
  [CLI], [("line loop", CLI+": run, _process_line, _without_line_ending")], ["stdout of wetn/weitn"])

p("X01", "The C++ runtime uses the same token schema and wire format as Python",
  "For each of the six pipelines the C++ runtime reorders fields by the same schema as the Python pipeline and picks the schema by the same pipeline names; it accepts and rejects the same token streams, keeps fields the schema does not list, rejects repeated fields, and writes values so that the graphs see what they see under Python. A grammar exported from Python therefore gives the same text in both runtimes.",
  ["inputs", "configurations"], "all token streams of all six pipelines",
  "No Python test runs the C++ runtime and its own tests cover a few sentences; a schema entry missing on one side fails only for that token type.",
  ["runtime/processor/wetext_token_parser.cc", "runtime/processor/wetext_token_parser.h", "runtime/processor/wetext_processor.cc", TOK] + ALLPIPE, [("order tables", "runtime/processor/wetext_token_parser.cc"), ("Token::String / TokenParser::Parse", "runtime/processor/wetext_token_parser.{h,cc}"), ("pipeline selection", "runtime/processor/wetext_processor.cc")],
  ["wetext::Processor::Verbalize", "wetext::Processor::Normalize"])

p("X02", "No failure inside the native runtime crosses its C or JNI boundary",
  "Every function of the C interface and of the Java binding turns any internal failure (missing or unreadable graph, malformed token stream, allocation failure) and any null argument into its documented error result; no exception leaves an extern \"C\" function and no missing graph is dereferenced. Results are never partially built.",
  ["inputs", "fault_sequences"], "all calls of the C interface and Java binding with any arguments and any internal failure",
  "Exceptions need malformed or unusual intermediate streams and missing files; the native tests exercise only successful calls through the C++ class.",
  ["runtime/processor/wetext_processor_c_api.cc", "runtime/processor/wetext_processor.cc", "runtime/bindings/android/wetextprocessing.cc"], [("try/catch at the boundary", "runtime/processor/wetext_processor_c_api.cc"), ("graph loading", "runtime/processor/wetext_processor.cc")],
  ["wetext_create_processor", "wetext_tag", "wetext_verbalize", "wetext_normalize"])

p("X03", "Native memory and JNI references are released by their matching operation",
  "Every buffer the C interface returns is allocated the way its release function frees it, every processor it creates is destroyed by the matching call, and the Java binding releases every string it pins and frees every native result it receives on every path. Nothing is freed twice or used after release.",
  ["fault_sequences", "histories"], "all call sequences and all early exits of the native interface",
  "Leaks and mismatched deallocation do not change results; they need long-running use or a sanitizer on the Java side that no test has.",
  ["runtime/processor/wetext_processor_c_api.cc", "runtime/bindings/android/wetextprocessing.cc"], [("allocation pairing", "CopyToCString / wetext_free_string"), ("JNI string pinning", "runtime/bindings/android/wetextprocessing.cc")],
  ["wetext_free_string", "wetext_destroy_processor", "JNI entry points"])

p("N01", "The spoken or written form chosen for a text is linguistically correct",
  "For every sentence the normalizer's best output is the form a competent reader would expect, including the choice between competing readings of the same digits.",
  ["inputs"], "all sentences of six language/direction pairs",
  "Correctness is judged sentence by sentence; the tests sample about two thousand.",
  ["tn/*/rules/*.py", "itn/*/rules/*.py", "tn/*/data/**", "itn/*/data/**"], [("rule weights and data", "*/rules, */data")], ["Processor.normalize"])

p("N02", "N-best results are the globally cheapest outputs in non-decreasing cost order",
  "The list of n results contains the n outputs of least total cost under the documented joint cost, in order of cost, for every input.",
  ["inputs"], "all inputs and n", "Optimality is a statement about all paths of a weighted graph; tests compare a few small lattices.",
  [PROC], [("joint search frontier", PROC+": _normalization_candidates")], ["Processor.normalize(nbest=n)"])

p("N03", "Each output character is attributed to the token that produced it",
  "For every input the mapping of a token covers exactly the input characters its tag consumed and exactly the output characters its verbalization produced, including delayed and deleted output.",
  ["inputs"], "all inputs", "Ownership of delayed or inserted output depends on where the optimiser placed labels on the path; tests check chosen sentences.",
  [ALI], [("ownership rules on a linear path", ALI+": trace_input_spans, transduce_with_spans")], ["Processor.normalize_with_mapping"])

p("N04", "Inverse normalization of normalized numbers gives back the number",
  "For every supported number, inverse normalization of its normalized form yields an equal written number.",
  ["inputs"], "all numbers in the supported ranges of the three languages", "The tests list individual numbers.",
  ["tn/*/rules/cardinal.py", "itn/*/rules/cardinal.py"], [("cardinal grammars", "*/rules/cardinal.py")], ["normalize"])

p("N05", "Concurrent builders of one key all finish and only one does the work",
  "When several processes construct the same processor concurrently, each obtains the finished grammar within its timeout as long as the builder progresses, and the grammar is built once.",
  ["schedules"], "all interleavings and timings of several processes", "Timing- and scheduler-dependent; tests start a few processes.",
  [CACHE, PROC], [("advisory lock and retry", CACHE+": CacheBundle.lock")], ["Processor construction"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
