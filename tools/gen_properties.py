#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand after editing; the .jsonl is committed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

TK = "lindera-tokenizer/src/tokenizer.rs"
VI = "lindera-core/src/viterbi.rs"
DB = "lindera-dictionary-builder/src/"
FL = "lindera-filter/src/"

p("C01", "Token spans are exact: text, offsets and positions agree with the input",
  "For every input text, each token the tokenizer returns carries exactly the input bytes between its reported byte start and byte end; within a sentence every token ends where the next begins, the last ends at the end of the sentence, and the first offset of a sentence is where that sentence begins in the input. Positions count from 0 in steps of one, no part of the input is skipped or tokenized twice, and every sentence is segmented with the tokenizer's own dictionary, user dictionary, connection costs and mode.",
  ["inputs", "configurations"], "all texts (any sentence mix, including sentences that yield no token), all dictionaries and modes",
  "The tokenizing tests compare a few fixed sentences against real dictionaries, which are not available offline (they fail on the dummy dictionary); no test looks at offsets of a second or later sentence after one that produced no token.",
  [TK, "lindera-tokenizer/src/token.rs"], [("sentence splitting and span arithmetic", TK + " Tokenizer::tokenize"), ("token construction", "lindera-tokenizer/src/token.rs Token::new")],
  ["Tokenizer::tokenize"], [("byte position / position counters", "running byte offset and token index over all sentences", TK)])

p("C02", "Character filters report offset corrections for the replacement they wrote",
  "Every character filter that may change the byte length of the text reports, for each segment it replaced, the accumulated byte difference between the segment it consumed and the replacement it actually emitted, at the output position where the difference takes effect; all of these filters derive the corrections the same way. A filter never emits a replacement of a different length without reporting it.",
  ["inputs", "configurations"], "all texts and all mapping tables, patterns, replacement templates and normalization kinds",
  "Each filter has a handful of fixed texts; replacement templates that expand capture groups, length-changing iteration marks, or mixes of longer and shorter replacements are not covered.",
  [FL + "character_filter.rs", FL + "character_filter/mapping.rs", FL + "character_filter/regex.rs", FL + "character_filter/unicode_normalize.rs", FL + "character_filter/japanese_iteration_mark.rs"],
  [("offset/diff bookkeeping", FL + "character_filter.rs add_offset_diff"), ("per-filter length difference", FL + "character_filter/*.rs apply")], ["CharacterFilter::apply"])

p("C03", "The analyzer runs every filter in order and maps offsets back through all",
  "Analyzing a text feeds the output of each character filter, in configured order, to the next, tokenizes the final text, then applies every token filter in configured order to the same token list; an error of any stage is returned to the caller. Both the start and the end of every returned token are mapped back to the original text through the corrections of every character filter that reported any, last filter first, each with that filter's own corrections and text length. A cloned analyzer has the same tokenizer and the same filters in the same order.",
  ["inputs", "configurations"], "all texts and all filter chains",
  "The analyzer tests need real dictionaries; nothing tests two length-changing character filters in one chain, or a clone.",
  ["lindera-analyzer/src/analyzer.rs", FL + "character_filter.rs"], [("pipeline", "lindera-analyzer/src/analyzer.rs Analyzer::analyze"), ("construction and clone", "lindera-analyzer/src/analyzer.rs Analyzer::from_config, Clone")], ["Analyzer::analyze", "Analyzer::clone"])

p("C04", "Word entries are written and read with one and the same binary layout",
  "The serialized form of a dictionary word entry and its reader agree on the order, width, signedness and byte order of every field, every field that is written is read back into the same field, and the advertised entry length equals the number of bytes written. Readers of an entry table advance by exactly that length.",
  ["inputs"], "all word entries (ids, costs and context ids)",
  "One round trip of one entry with small values is tested; swapped bytes, narrowed widths or a wrong stride in the table reader go unnoticed.",
  ["lindera-core/src/word_entry.rs", "lindera-core/src/prefix_dict.rs"], [("codec", "lindera-core/src/word_entry.rs WordEntry::serialize/deserialize"), ("stride", "lindera-core/src/prefix_dict.rs")], ["WordEntry::serialize", "WordEntry::deserialize", "PrefixDict::prefix"])

p("C05", "Word details are found for exactly the row a word id was built from",
  "For system and user dictionaries alike, the id stored in a word entry is the position of its source row in the same row order in which the details and their index are written, exactly one index slot and one details record are written per row, and the reader decodes index and record with the widths, byte order, separators and offsets the writer used. So the details returned for a word are the detail columns of the row it came from.",
  ["inputs"], "all lexicons: any number of rows, rows skipped for invalid costs, any details",
  "No test builds a multi-row dictionary and reads details back; user dictionary tests need the real system dictionaries.",
  [DB + "dict.rs", DB + "user_dict.rs", "lindera-core/src/dictionary.rs"], [("details writer", DB + "dict.rs, user_dict.rs"), ("details reader", "lindera-core/src/dictionary.rs word_details")], ["Dictionary::word_details", "UserDictionary::word_details"])

p("C06", "The surface index packs and unpacks entry ranges consistently",
  "For every surface the index value written by the dictionary builders and the one decoded by both lookup functions agree on where the start position and the entry count lie; the start positions follow the order in which the entries themselves are written, so that a lookup yields exactly the entries of that surface. A surface with more entries than the count field can hold is rejected, never stored truncated.",
  ["inputs"], "all lexicons, including many rows with the same surface",
  "The dummy dictionary has one row; no test has two surfaces, let alone 32 rows with one surface.",
  [DB + "dict.rs", DB + "user_dict.rs", "lindera-core/src/prefix_dict.rs"], [("packing", DB + "dict.rs, user_dict.rs"), ("unpacking", "lindera-core/src/prefix_dict.rs prefix, find_surface")], ["PrefixDict::prefix", "PrefixDict::find_surface"])

p("C07", "Connection costs are stored and looked up in one matrix layout",
  "The connection matrix file starts with the two matrix dimensions, and the cost given in the source for a pair of context ids is stored at the very cell, width and byte order from which the cost lookup for that pair reads it, whether the matrix was embedded or loaded from a file. Source costs are stored unchanged or the source is rejected.",
  ["inputs"], "all connection matrices (any dimensions, all costs)",
  "The dummy dictionary's matrix is empty, so no existing test exercises a single lookup against a written cost.",
  [DB + "cost_matrix.rs", "lindera-core/src/connection.rs"], [("writer", DB + "cost_matrix.rs"), ("reader", "lindera-core/src/connection.rs")], ["ConnectionCostMatrix::cost"])

p("C08", "Every dictionary file is written and loaded under the same name and role",
  "Each of the seven files a dictionary consists of is written by the builder from the component it is named for, and both ways of loading a dictionary - from a directory and embedded in the library, for all five dictionaries - read each component from the file the builder wrote it to. With compression enabled the same holds with every file compressed on writing and decompressed on reading.",
  ["configurations", "inputs"], "all five dictionaries, embedded and external, with and without compression",
  "The tests only run with the embedded one-word dictionaries and never load an external dictionary or enable compression.",
  [DB + "*.rs", "lindera-dictionary/src/lib.rs", "lindera-ipadic/src/lib.rs", "lindera-ipadic-neologd/src/lib.rs", "lindera-unidic/src/lib.rs", "lindera-ko-dic/src/lib.rs", "lindera-cc-cedict/src/lib.rs"],
  [("writers", DB + "{chardef,unk,dict,cost_matrix}.rs"), ("external loader", "lindera-dictionary/src/lib.rs DictionaryLoader"), ("embedded loaders", "lindera-*/src/lib.rs")], ["DictionaryLoader::load_dictionary", "load_dictionary of each dictionary crate"])

p("C09", "A dictionary name selects the same dictionary everywhere",
  "For each supported dictionary the name printed, the name parsed from text and the name used in serialized configurations are the same, and the dictionary selected by it - embedded data, builder and list of contained dictionaries - is the one of that name. The same holds for the names of tokenization modes and output formats, and any other name is rejected with an error.",
  ["inputs", "configurations"], "all dictionary kinds, mode names, output format names; all other strings",
  "The tests parse one or two names for the dictionary at hand; they do not compare the tables with each other.",
  ["lindera-dictionary/src/lib.rs", "lindera-core/src/mode.rs", "lindera-cli/src/main.rs"], [("tables", "lindera-dictionary/src/lib.rs DictionaryKind, DictionaryBuilderResolver, DictionaryLoader"), ("mode names", "lindera-core/src/mode.rs")], ["DictionaryKind::from_str", "DictionaryKind::as_str", "resolve_builder", "load_dictionary_from_kind"])

p("C10", "Every filter is reachable by its own name and built from its own settings",
  "For every character filter and token filter, the name it reports is the name under which the loader creates it, the loader builds exactly that filter from the settings given, names are unique per filter class, and every filter that exists can be loaded. An unknown name or invalid settings give an error.",
  ["configurations", "inputs"], "all filter names and settings values",
  "Filters are constructed directly in their tests; the loader's table is hardly exercised.",
  [FL + "character_filter.rs", FL + "token_filter.rs", FL + "lib.rs"], [("loader tables", FL + "character_filter.rs, token_filter.rs load_from_value / load_from_cli_flag"), ("names", FL + "*/*.rs name()")], ["CharacterFilterLoader::load_from_value", "TokenFilterLoader::load_from_value"])

p("C11", "Data is decompressed with the algorithm it was compressed with",
  "For each supported compression algorithm the encoder used for writing and the decoder used for reading implement the same format, the stored algorithm tag is the one used for encoding, and the complete input is encoded, finished and read to its end. Any error of the encoder or decoder is returned to the caller.",
  ["inputs", "configurations"], "all byte strings, all four algorithms",
  "One round trip with one of the four algorithms is tested.",
  ["lindera-compress/src/lib.rs", "lindera-decompress/src/lib.rs", DB + "utils.rs"], [("encoder", "lindera-compress/src/lib.rs compress"), ("decoder", "lindera-decompress/src/lib.rs decompress")], ["compress", "decompress"])

p("C12", "A dictionary build that reports success has written out every file completely",
  "On every path on which building a dictionary or a user dictionary returns success, each output file it opened for buffered writing has been flushed after the last write to it, and every write and flush error has been returned to the caller. All four parts of a dictionary are built on every successful build.",
  ["fault_sequences", "inputs"], "any write failure (full disk, quota, I/O error) at any point of any output file",
  "No test makes a write fail; buffered writers silently drop errors at the end of their scope.",
  [DB + "*.rs", "lindera-*-builder/src/*_builder.rs"], [("flush discipline", DB + "{chardef,unk,dict,cost_matrix,user_dict}.rs"), ("orchestration", "lindera-*-builder build_dictionary")], ["DictionaryBuilder::build_dictionary", "DictionaryBuilder::build_user_dictionary"])

p("C13", "Errors are reported, never swallowed and never turned into panics",
  "No failure of reading, writing, decoding, parsing, (de)serializing or loading is dropped or replaced by a default in library code: it reaches the caller as an error, with the documented exceptions (rows with unusable numbers skipped only where the dictionary asks for it, details that cannot be decoded reported as absent, malformed byte sequences of source text replaced by U+FFFD). Buffered output is flushed, and the failure of that is reported. No library function unwraps or asserts success of such an operation.",
  ["fault_sequences", "inputs"], "every fallible call site, every failing input or I/O fault",
  "A test has to provoke each failure; only two user-dictionary failures are tested.",
  ["lindera-core/src", "lindera-dictionary/src", "lindera-dictionary-builder/src", "lindera-tokenizer/src", "lindera-filter/src", "lindera-analyzer/src", "lindera-*-builder/src"], [("error propagation", "every LinderaResult-returning function")], ["LinderaResult"])

p("C14", "Malformed dictionary sources and settings give errors, not panics",
  "While parsing user dictionaries, system dictionary sources and filter settings, a column or component that the input may lack is accessed only where its presence has been established, and components beyond those a setting can hold are rejected. Such input gives an error (or is ignored as documented) and never a panic.",
  ["inputs"], "all CSV rows, definition lines and filter tag strings, of any number of fields",
  "Two malformed user dictionaries are tested; there are unboundedly many field counts.",
  [DB + "user_dict.rs", DB + "cost_matrix.rs", "lindera-core/src/unknown_dictionary.rs", "lindera-core/src/character_definition.rs", FL + "token_filter/*.rs"], [("field count checks", "parsers of rows, lines and tags")], ["build_user_dict", "TokenFilterLoader::load_from_value"])

p("C15", "Analysis is deterministic and independent of earlier calls",
  "The result of tokenizing or analyzing a text depends only on the text and the tokenizer's or analyzer's construction: no state survives from one call or one sentence to the next, nothing is read from clock, environment, randomness or files, and no order of a hash table influences a result. Tokenizing and filtering work on a shared, unmodified instance.",
  ["histories", "schedules", "inputs"], "all call histories and thread interleavings on one instance; all hash seeds",
  "Tests call each instance once, in one process, with one hash seed per map.",
  [TK, VI, "lindera-core/src", "lindera-filter/src", "lindera-analyzer/src/analyzer.rs"], [("lattice reset", VI + " Lattice::set_capacity/clear"), ("immutable receivers", TK)], ["Tokenizer::tokenize", "Analyzer::analyze"])

p("C16", "Dictionaries, tokenizers and analyzers can be shared between threads safely",
  "Dictionaries, user dictionaries, tokenizers, analyzers and filters can be sent to and shared between threads, and contain no interior mutability. The only unchecked operations are the code point computations of the iteration mark filter, and each of these yields a valid character for every input character.",
  ["schedules", "inputs"], "all uses from several threads; all characters",
  "No test is multi-threaded; the character computations are tested for a few characters.",
  ["lindera-core/src/dictionary.rs", TK, "lindera-analyzer/src/analyzer.rs", FL + "character_filter/japanese_iteration_mark.rs"], [("auto traits", "public types"), ("range guards", FL + "character_filter/japanese_iteration_mark.rs")], ["Send/Sync of Tokenizer, Analyzer, Dictionary"])

p("C17", "A token's details come from the dictionary that matched it",
  "Words matched in the system dictionary, in the user dictionary and unknown words are kept apart from matching to detail lookup: the details of a system word come from the system dictionary, those of a user word from the user dictionary, at the id of the matched entry, and an unknown word has the single detail UNK. Details set explicitly or fetched once are returned unchanged afterwards.",
  ["inputs", "histories", "configurations"], "all texts, dictionaries and user dictionaries; any sequence of detail queries",
  "Tests with user dictionaries need the real dictionaries; ids of both dictionaries overlap, so a mix-up returns plausible details.",
  ["lindera-tokenizer/src/token.rs", "lindera-core/src/prefix_dict.rs", "lindera-core/src/word_entry.rs", DB + "user_dict.rs", "lindera-core/src/unknown_dictionary.rs"], [("origin flag", "lindera-core/src/prefix_dict.rs, word_entry.rs"), ("selection", "lindera-tokenizer/src/token.rs get_details")], ["Token::get_details"])

p("C18", "Token filters change only what they are meant to change",
  "A token filter that rewrites text changes only the text of a token, a filter that selects tokens only removes tokens and changes none, and joining tokens yields one token with the first one's start, position and word id, the last one's end, the joined text and the summed position length. No filter changes a start offset, position or word id, and none reorders tokens.",
  ["inputs", "configurations"], "all token lists and filter settings",
  "The tests compare a few fields of a few tokens per filter.",
  [FL + "token_filter/*.rs"], [("apply of each filter", FL + "token_filter/*.rs")], ["TokenFilter::apply"])

p("C19", "Keep and stop filters decide exactly on membership in the configured set",
  "A keep filter retains a token exactly if its tag or text is in the configured set, a stop filter exactly if it is not, and the length filter exactly if the character count lies within the inclusive bounds given. Configured part-of-speech tags and token tags are brought into the same four-part form before being compared, in every Japanese tag filter.",
  ["inputs", "configurations"], "all token lists, tag sets, word sets and bounds",
  "Each filter is tested with one or two sets; boundary lengths, short details and partial tags are not.",
  [FL + "token_filter/*_keep_tags.rs", FL + "token_filter/*_stop_tags.rs", FL + "token_filter/keep_words.rs", FL + "token_filter/stop_words.rs", FL + "token_filter/length.rs", FL + "token_filter/japanese_compound_word.rs", FL + "token_filter/japanese_number.rs"], [("predicates", FL + "token_filter/*.rs apply")], ["TokenFilter::apply"])

p("C20", "Segmentation follows the cheapest path recurrence",
  "For every word candidate the accumulated cost is its own word cost plus the minimum, over all candidates ending where it starts, of their accumulated cost, the connection cost from the left word's right context to the right word's left context, and the mode's penalty for the left word; the minimizing candidate is remembered as predecessor. The result is read off by following these predecessors back from the end of the sentence, in text order, without the sentence boundary markers.",
  ["inputs", "configurations"], "all lattices, cost matrices and modes",
  "The tests that segment text need real dictionaries; the cost model is not unit-tested.",
  [VI, "lindera-core/src/mode.rs", "lindera-core/src/connection.rs"], [("forward pass", VI + " calculate_path_costs"), ("backtracking", VI + " tokens_offset")], ["Lattice::calculate_path_costs", "Lattice::tokens_offset"])

p("C21", "The lattice has every dictionary, user dictionary and unknown word candidate",
  "At every position reachable from the sentence start, every prefix match of the remaining text in the system dictionary and, if present, in the user dictionary becomes a candidate spanning exactly the matched bytes with the matched entry; unknown word candidates span whole characters and come from the category of the first character. Unknown words are generated for a category when it is always invoked or nothing else matched, are extended over following characters of the same category only when it is grouping, and in normal mode are started only at or after the end of the unknown word generated last.",
  ["inputs", "configurations"], "all sentences, dictionaries, user dictionaries and character category tables",
  "No existing test inspects the lattice; the dummy dictionaries have one word and no unknown words.",
  [VI, "lindera-core/src/prefix_dict.rs", "lindera-core/src/unknown_dictionary.rs", "lindera-core/src/character_definition.rs"], [("candidate generation", VI + " set_text, process_unknown_word, add_edge_in_lattice")], ["Lattice::set_text"])

p("C22", "Mode penalties apply exactly beyond their thresholds, and only in decompose mode",
  "Normal mode adds no penalty. In decompose mode a word not longer than the kanji threshold costs nothing; a longer one made of kanji only costs the kanji penalty per character beyond the kanji threshold; any other longer one costs the other penalty per character beyond the other threshold, if it exceeds that. The decompose mode chosen by name carries the default penalties.",
  ["inputs", "configurations"], "all words and penalty settings",
  "No unit test computes a penalty.",
  ["lindera-core/src/mode.rs"], [("penalty", "lindera-core/src/mode.rs Penalty::penalty, Mode::penalty_cost, Mode::is_search")], ["Mode::penalty_cost"])

p("C23", "Configurations are read into the settings they name",
  "Reading a tokenizer configuration stores each setting in the field of its name, rejects duplicate and unknown settings and a missing dictionary, and uses normal mode and no user dictionary where they are absent; what is written can be read back. Building a tokenizer or analyzer from a configuration hands every part of it on to the component it is meant for.",
  ["configurations", "inputs"], "all configuration documents, in map and sequence form",
  "The tests read one or two configurations; duplicates, explicit nulls and sequence form are not tried.",
  [TK, "lindera-analyzer/src/analyzer.rs"], [("visitor", TK + " Deserialize for TokenizerConfig"), ("construction", TK + " Tokenizer::from_config, new")], ["TokenizerConfig deserialization", "Tokenizer::from_config"])

p("C24", "User dictionaries are loaded according to their file type",
  "A user dictionary given as .csv is built with the builder of the configured dictionary kind and rejected when no kind is given, one given as .bin is loaded as a prebuilt user dictionary, and any other file is rejected. A dictionary is taken from the configured kind, else from the configured path, else rejected.",
  ["configurations", "inputs"], "all paths, extensions and configured kinds",
  "Only the csv route with one kind is tested without the real dictionaries.",
  ["lindera-dictionary/src/lib.rs"], [("selection", "lindera-dictionary/src/lib.rs DictionaryLoader::load_user_dictionary_from_config, load_dictionary_from_config")], ["DictionaryLoader"])

p("C25", "Numbers from dictionary sources are never silently truncated",
  "Ids, costs, dimensions and lengths read from dictionary sources reach the built dictionary with the value given in the source or the build fails; no narrowing conversion drops bits of a source number. (Byte offsets and row counts of the built files are taken to be below 2^32.)",
  ["inputs"], "all numbers in lexicon, unknown word, matrix and character definition sources; built files below 4 GiB",
  "No test has an out-of-range number in these files except a word cost in a user dictionary.",
  ["lindera-core/src/unknown_dictionary.rs", "lindera-core/src/character_definition.rs", DB + "cost_matrix.rs", DB + "dict.rs", DB + "user_dict.rs"], [("conversions", "parsers and builders of the dictionary sources")], ["build_dictionary", "build_user_dictionary"])

p("C26", "Mapping filters replace the longest match and copy everything else",
  "Both mapping filters scan the text left to right; at each position they replace the longest key of the table that matches there by the value stored for exactly that key and continue after it, and otherwise copy one character unchanged. Every step advances, so filtering terminates and no part of the text is lost or duplicated.",
  ["inputs", "configurations"], "all texts and mapping tables",
  "A few tables are tested; none has a key that is a prefix of another followed by overlapping text, or an unusual key such as the empty string.",
  [FL + "character_filter/mapping.rs", FL + "token_filter/mapping.rs"], [("scan loop", FL + "character_filter/mapping.rs apply, token_filter/mapping.rs apply")], ["MappingCharacterFilter::apply", "MappingTokenFilter::apply"])

p("C27", "Detail columns mean the same in user dictionaries, filters and dictionaries",
  "For each dictionary, a simplified user dictionary row expands to as many details as a detailed row carries, the part of speech and reading it gives are stored in the columns where the base form and reading filters look them up for that dictionary, and all parts of a dictionary build use the dictionary's own encoding and field counts.",
  ["configurations", "inputs"], "all five dictionaries and all simplified rows",
  "These are agreements between tables in different crates; each table is at most tested alone, with hand-made tokens.",
  ["lindera-*-builder/src/*_builder.rs", FL + "token_filter/japanese_reading_form.rs", FL + "token_filter/japanese_base_form.rs", FL + "token_filter/korean_reading_form.rs"], [("simple row handler", "lindera-*-builder build_user_dict"), ("column indices", FL + "token_filter/*_form.rs")], ["build_user_dict", "reading and base form filters"])

p("C28", "Lexicon columns are stored in the fields they describe",
  "In system and user lexicons and in the unknown word definitions, the surface is taken from the first column, the left context id from the second, the right context id from the third and the cost from the fourth, and each reaches the corresponding field of the word entry; a simplified user row gets the configured default cost and context ids. The detail columns are those after the fourth. They and the surface are stored as they are in the source; only the IPADIC lexicons have them normalized.",
  ["inputs"], "all lexicon rows",
  "The one-row dummy dictionaries have equal left and right ids, and nothing reads the entries back.",
  [DB + "dict.rs", DB + "user_dict.rs", "lindera-core/src/unknown_dictionary.rs"], [("row parsing", DB + "dict.rs, user_dict.rs, lindera-core/src/unknown_dictionary.rs")], ["build_dict", "build_user_dict", "build_unk"])

p("C29", "Character categories keep their own definition",
  "Every character category resolves to the invoke, group and length settings of its own definition and to the unknown words of its own name, whatever the order of definitions and ranges in the source; a category that is used but not defined or defined twice is rejected. A character in no range has the default category, and ranges include both of their ends.",
  ["inputs"], "all character definition files and characters",
  "Only the lookup table is tested; no test parses a definition file with more than one category.",
  ["lindera-core/src/character_definition.rs", "lindera-core/src/unknown_dictionary.rs"], [("category ids", "lindera-core/src/character_definition.rs CharacterDefinitionsBuilder"), ("references", "lindera-core/src/unknown_dictionary.rs make_category_references")], ["CharacterDefinitions::lookup_definition", "UnknownDictionary::lookup_word_ids"])

p("C30", "The command line prints every token of every line in the chosen format",
  "For every input line the command prints the analysis of that line in the chosen format: in MeCab format one line per token with its text and its comma-joined details, in order, followed by one EOS line; in word-separated format the texts of all tokens in order, separated by single spaces, on one line; in JSON format all tokens with text, details, byte positions and word id. All options given reach the component they configure, and errors make the command fail.",
  ["inputs", "configurations"], "all input texts, formats and options",
  "The command line has no tests.",
  ["lindera-cli/src/main.rs"], [("output", "lindera-cli/src/main.rs tokenize, mecab_output, wakati_output, json_output"), ("build", "lindera-cli/src/main.rs build")], ["lindera tokenize", "lindera build"])

p("C31", "Japanese numerals are converted to the number they denote",
  "A token that is a Japanese numeral, written in kanji, full-width or half-width digits with any positional unit, is replaced by the decimal number it denotes.",
  ["inputs"], "all numerals",
  "Unboundedly many numerals; the tests list some dozens.",
  [FL + "token_filter/japanese_number.rs"], [("conversion", FL + "token_filter/japanese_number.rs to_arabic_numerals")], ["JapaneseNumberTokenFilter::apply"])

p("C32", "Compression and (de)serialization round-trip byte for byte",
  "Decompressing compressed data and deserializing serialized dictionaries gives back exactly the original value, for every value.",
  ["inputs"], "all byte strings and all dictionaries",
  "One random buffer is tested.",
  ["lindera-compress/src/lib.rs", "lindera-decompress/src/lib.rs", "lindera-core/src/dictionary.rs"], [("third-party codecs", "flate2, bincode")], ["compress/decompress", "bincode"])

p("C33", "Decompose mode splits long compounds as intended on real dictionaries",
  "With a real dictionary the segmentation produced in each mode is the linguistically intended one, and decompose mode yields at least the granularity of normal mode.",
  ["inputs", "configurations"], "all texts, all dictionaries",
  "A few sentences are tested.",
  [VI, "lindera-core/src/mode.rs"], [("costs", "dictionary data")], ["Tokenizer::tokenize"])

p("C34", "Tokenizing time and memory are proportional to the input",
  "Tokenizing terminates and takes time and memory bounded by the text length times the number of dictionary matches per position, for every text.",
  ["inputs"], "all texts and dictionaries",
  "Tests are short texts.",
  [VI, TK], [("lattice", VI)], ["Tokenizer::tokenize"])

p("C35", "Filters never panic, whatever text or tokens they are given",
  "Every character filter and token filter, configured through its own configuration loader, processes any text and any tokens without panicking: part-of-speech tags of any length, detail lists shorter than the columns a filter reads, surfaces of any scripts and lengths, empty texts, and marks or numerals at any position. Texts are only ever cut between characters.",
  ["inputs", "configurations"], "all accepted filter configurations and all texts and tokens",
  "Panics need unusual combinations (short details, multi-byte characters at a cut, marks at the start of the text); the tests use well-formed tokens of one dictionary.",
  [FL + "character_filter/*.rs", FL + "token_filter/*.rs"], [("indexing and slicing", FL + "token_filter/*.rs apply"), ("text cuts", FL + "*/mapping.rs, japanese_katakana_stem.rs")], ["CharacterFilter::apply", "TokenFilter::apply"])

p("C36", "Words and tokens begin and end between characters",
  "While a text is segmented it is only ever cut at character boundaries: every candidate word, from the system dictionary, the user dictionary or an unknown word rule, starts and ends at a boundary between characters of the sentence, and so does every token, so tokenizing never panics on multi-byte text and every token text is valid.",
  ["inputs", "configurations"], "all texts, dictionaries and modes",
  "Positions are byte offsets computed from match lengths and character counts; the tests use a few Japanese sentences and none mixes characters of different encoded lengths with unknown words.",
  [VI, TK, "lindera-core/src/prefix_dict.rs"], [("candidates", VI + " Lattice::set_text"), ("match lengths", "lindera-core/src/prefix_dict.rs PrefixDict::prefix"), ("token cut", TK + " Tokenizer::tokenize")], ["Tokenizer::tokenize", "Lattice::set_text"])

p("C37", "Rewriting filters write exactly the documented text",
  "For every token the base form, Japanese reading and Korean reading filters write the column of the configured dictionary that holds that form if the token is a known word and has that column, and leave the text otherwise; the lowercase, uppercase and kana filters write the full Unicode lower or upper case form or the text in the configured kana; the katakana stem filter removes exactly one final prolonged sound mark and only from texts that are all katakana and have more characters than the minimum. Every token is handled, independently of the others. The Unicode normalization filter returns every grapheme cluster in the configured normalization form, and the regular expression filter the text with every match of its pattern replaced by its replacement.",
  ["inputs", "configurations"], "all tokens, texts, kinds and settings",
  "Each filter is tested on a handful of tokens; which texts are left alone, the boundary of the minimum and other dictionary kinds are hardly sampled.",
  ["lindera-filter/src/token_filter", "lindera-filter/src/character_filter"], [("token texts", "lindera-filter/src/token_filter/*.rs TokenFilter::apply"), ("character filter output", "lindera-filter/src/character_filter/{unicode_normalize,regex}.rs CharacterFilter::apply")], ["TokenFilter::apply", "CharacterFilter::apply"])

p("C38", "Iteration marks expand to the character they repeat",
  "The iteration mark filter replaces each enabled mark by the character it repeats: in a run of marks, the character as many places back as the run is long, or as the text before the run is long if that is less. The kanji mark repeats it unchanged, an unvoiced kana mark in its unvoiced form and a voiced kana mark in its voiced form, where characters without such a form stay as they are. The kanji mark is enabled by normalize_kanji and the four kana marks by normalize_kana; every other character is copied, in order, and no mark is lost at the end of the text.",
  ["inputs", "configurations"], "all texts and settings",
  "The voicing rules cover about eighty characters and runs of every length and position; the tests sample a few words.",
  ["lindera-filter/src/character_filter/japanese_iteration_mark.rs"], [("expansion", "lindera-filter/src/character_filter/japanese_iteration_mark.rs JapaneseIterationMarkCharacterFilter::normalize"), ("scan", "lindera-filter/src/character_filter/japanese_iteration_mark.rs JapaneseIterationMarkCharacterFilter::apply")], ["JapaneseIterationMarkCharacterFilter::apply"])

p("C39", "No count, length or offset is taken below zero",
  "No unsigned subtraction in tokenizing, filtering, offset correction, word lookup, penalties or dictionary building ever has a subtrahend larger than its minuend, whatever the text, the tokens, the settings and the sources: counts and offsets that reach a subtraction have been compared first, or are ordered by how they were made. So there is no overflow panic in checked builds and no wrapped length, offset or penalty in release builds - for empty texts and sentences that yield no tokens, characters before the first category range, offsets before the first correction, words shorter than a penalty's threshold and marks at the start of a text.",
  ["inputs", "configurations"], "all texts, tokens, settings and sources",
  "Each subtraction is safe only because of a comparison or an invariant elsewhere; tests take the ordinary side of the comparison, and the remaining inputs are the rare ones.",
  ["lindera-core/src/mode.rs", "lindera-core/src/viterbi.rs", "lindera-core/src/character_definition.rs", "lindera-filter/src", "lindera-tokenizer/src/tokenizer.rs"],
  [("penalty", "lindera-core/src/mode.rs Penalty::penalty"), ("category table", "lindera-core/src/character_definition.rs LookupTable::eval"), ("offsets", "lindera-filter/src/character_filter.rs correct_offset"), ("marks", "lindera-filter/src/character_filter/japanese_iteration_mark.rs normalize")],
  ["Tokenizer::tokenize", "TokenFilter::apply", "CharacterFilter::apply", "Mode::penalty_cost"])
p("C40", "Every lexicon row becomes exactly one word",
  "In a built dictionary every row of every matching source file of the system lexicon, every row of the user lexicon, every line of unk.def and every cell of matrix.def is present exactly once: no row is left out, merged with another, taken twice, read as a header or as a comment, whatever its content and position; a row that cannot be used, or a system lexicon row of another number of columns than the first, ends the build with an error (only the CC-CEDICT lexicon may have ragged rows and skips those whose numbers do not parse).",
  ["inputs", "configurations"], "all source files of all five dictionaries",
  "The sources have hundreds of thousands of rows and the tests build from one; a row lost for a rare content or position goes unnoticed.",
  ["lindera-dictionary-builder/src", "lindera-core/src/unknown_dictionary.rs", "lindera-ipadic-builder/src", "lindera-ipadic-neologd-builder/src", "lindera-unidic-builder/src", "lindera-ko-dic-builder/src", "lindera-cc-cedict-builder/src"],
  [("system lexicon", "lindera-dictionary-builder/src/dict.rs DictBuilder::build"), ("user lexicon", "lindera-dictionary-builder/src/user_dict.rs build_user_dictionary"), ("unknown words", "lindera-core/src/unknown_dictionary.rs parse_unk"), ("matrix", "lindera-dictionary-builder/src/cost_matrix.rs")],
  ["DictionaryBuilder::build_dict", "DictionaryBuilder::build_user_dict", "DictionaryBuilder::build_unk", "DictionaryBuilder::build_cost_matrix"])

p("C41", "A dictionary build depends only on its sources and settings",
  "Building a dictionary or a user dictionary twice from the same sources with the same settings writes the same bytes, whatever else is true of the machine: nothing but the source directory or file given is read (no clock, environment, randomness, network or other files), every result is written at or under the output path given and nowhere else, each is created anew so that nothing of an earlier build stays in it, and what is already at the output path does not change what is built.",
  ["inputs", "environment", "histories"], "all five builders, dictionaries and user dictionaries",
  "A test builds once, into an empty directory: what a second build into the same place does, or one elsewhere, is never seen.",
  ["lindera-dictionary-builder/src", "lindera-ipadic-builder/src", "lindera-ipadic-neologd-builder/src", "lindera-unidic-builder/src", "lindera-ko-dic-builder/src", "lindera-cc-cedict-builder/src"],
  [("dictionary", "lindera-ipadic-builder/src/ipadic_builder.rs IpadicBuilder::build_dictionary"), ("files", "lindera-dictionary-builder/src/*.rs"), ("user dictionary", "lindera-dictionary-builder/src/user_dict.rs build_user_dictionary")],
  ["DictionaryBuilder::build_dictionary", "DictionaryBuilder::build_user_dictionary"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
