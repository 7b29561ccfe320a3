ALL_PIPES = ["tn/processor.py", "tn/token_parser.py", "tn/chinese", "tn/english", "tn/japanese", "itn/chinese", "itn/english", "itn/japanese"]

prop("N01", "Every text is answered by every pipeline",
     "For any Unicode text without NUL or lone surrogates, each of the six pipelines (Chinese, English, Japanese; TN and ITN), under every documented "
     "option setting, returns from normalize, tag, verbalize-of-its-own-tags and normalize_with_mapping without raising, hanging or crashing. "
     "The results have the documented types: a string or mapping result, and for nbest=n a list of 1 to n strings. Empty text gives an empty result.",
     ["inputs", "configurations"],
     "all non-empty texts over valid Unicode (quotes, backslashes, brackets, control and whitespace characters, emoji, wire-format look-alikes included), all "
     "pipelines and options; n-best on long runs of tied segmentations is outside (it is exponential)",
     "The tests check about two thousand fixed sentences; nearly all are well-formed text of the pipeline's own language.",
     ALL_PIPES,
     [("catch-all char rule in every pipeline", "tn/*/rules/char.py, itn/*/rules/char.py"), ("escape()/wire quoting", "tn/processor.py"),
      ("token parser accepts the tagger's own output", "tn/token_parser.py")],
     observe=["public API calls: returned values, exceptions, time"],
     cmd="checks/core.py N01",
     technique="online monitor on API calls under hostile generated workloads, with a hang/kill watchdog per call",
     note="No exception, hang (60 s) or bad type on the texts tried; texts outside the generators are not covered.")

prop("N02", "Mappings exactly tile the written and the spoken text",
     "normalize_with_mapping returns the given text, the same output as normalize, and mappings whose half-open character spans are in order, do not overlap, lie "
     "inside the two texts and whose texts are exactly the slices at those spans, with kind equal/delete/replace telling how the two compare. With "
     "include_identity, whatever no mapping covers is whitespace on both sides; without it, exactly the unchanged entries are left out and the stretches between "
     "the listed changes are equal on both sides up to spacing.",
     ["inputs", "configurations"],
     "all texts accepted by N01, all pipelines and options, n-best results included",
     "The mapping tests pin offsets for a few dozen sentences; span arithmetic over UTF-8 bytes, deleted tokens and spacing varies with every input.",
     ["tn/alignment.py", "tn/processor.py", "tn/token_parser.py", "tn/english/rules", "itn/english/rules"],
     [("span tracing on one exact WFST path", "tn/alignment.py trace_input_spans, transduce_with_spans"),
      ("token spans in the reordered stream", "tn/token_parser.py reorder_with_spans")],
     observe=["NormalizationResult fields"],
     cmd="checks/core.py N02",
     technique="online conservation/tiling monitor over returned mappings",
     note="Every returned mapping of the texts tried satisfies the tiling laws; it does not judge whether the token type is the right one.")

prop("N03", "Tagging keeps the written text: nothing is rewritten, invented or dropped",
     "In the tagger's output, read with its documented quoting, the field values are pieces of the input text, verbatim and in input order; only constant markers "
     "are added. What no field holds is whitespace, plus at most one date/time/decimal/address separator character between two fields of a token (or a leading decimal point).",
     ["inputs", "configurations"],
     "all texts accepted by N01, all pipelines and options",
     "Tests of tags compare a few fixed strings; the rule that tagging is lossless is over every text and every rule that may match it.",
     ["tn/processor.py", "docs/python-rule-architecture.md", "tn/chinese/rules", "tn/english/rules", "tn/japanese/rules", "itn/chinese/rules",
      "itn/english/rules", "itn/japanese/rules"],
     [("input-side projection of field graphs", "tn/processor.py input_projection, tag_field")],
     observe=["tag() output"],
     cmd="checks/core.py N03",
     technique="online monitor: independent reader of the tag stream replays it against the input",
     note="Holds for every tag stream seen; token classes not reached by the workload (see distinct_states.token shapes in the evidence) are not judged.")

prop("N04", "tag+verbalize, normalize, n-best and mapping give the same best answer",
     "For every text, verbalize(tag(text)) is the string normalize(text) returns, which is also the first of its n-best outputs for any n and the output of "
     "normalize_with_mapping(text).",
     ["inputs", "configurations"],
     "all texts accepted by N01, pipelines and options, n from 2 to 4 (one exempt point: a whitespace-only text in English ITN, where two readings tie)",
     "The tests use normalize almost only; the command line uses tag and verbalize, and the two ran different searches.",
     ["tn/processor.py", "tn/cli.py"],
     [("one path selection for all entry points", "tn/processor.py tag, verbalize, _normalization_candidates")],
     observe=["public API calls"],
     cmd="checks/core.py N04",
     technique="differential monitor across entry points on the same call history",
     note="Agreement on every text tried.")

SEM = "Agreement on every generated value; conventions the models do not state, and texts outside the families listed in the evidence, are not judged."
SEM_TECH = "online monitor comparing each call's output with an independent reference model of the reading"


def sem(id, title, statement, quantifier, why, files, mechanism):
    prop(id, title, statement, ["inputs"], quantifier, why, files, mechanism, observe=["normalize() output"], cmd="checks/sem.py " + id, technique=SEM_TECH, note=SEM)


sem("S01", "Chinese TN reads every number with its value",
    "Chinese text normalization reads integers, decimals, signed numbers, percentages, fractions, comparisons, phone numbers and digit strings, half- or full-width, "
    "in the standard Chinese reading of exactly that value (零 for skipped places, 两 and 幺 where the grammar documents them), whatever text stands around them.",
    "all written numbers up to 16 digits with any zeros, signs and decimals, in any carrier text that does not itself end in digits",
    "The tests hold about a hundred numbers; zero placement and 万/亿 grouping depend on every digit.",
    ["tn/chinese/rules/cardinal.py", "tn/chinese/rules/fraction.py", "tn/chinese/rules/math.py", "tn/chinese/data/number"],
    [("digit, teens, hundred … grouping", "tn/chinese/rules/cardinal.py build_tagger"), ("rule priorities", "tn/chinese/normalizer.py")])

sem("S02", "English TN reads every number with its value",
    "English text normalization reads integers with or without separators, negatives, decimals, quantities, ordinals, fractions, ranges, percentages, phone numbers, SSNs and IP "
    "addresses in words that name exactly that value or that digit sequence, and leaves the carrier sentence around them unchanged.",
    "all written numbers up to 15 digits and the listed number forms, in ordinary English carrier sentences",
    "Tests are a sample per class; which reading wins depends on weights over the whole grammar and on every digit.",
    ["tn/english/rules/cardinal.py", "tn/english/rules/decimal.py", "tn/english/rules/ordinal.py", "tn/english/rules/fraction.py", "tn/english/rules/telephone.py",
     "tn/english/rules/serial.py", "tn/english/normalizer.py"],
    [("cardinal graph", "tn/english/rules/cardinal.py"), ("class weights", "tn/english/normalizer.py")])

sem("S03", "Japanese TN reads every number with its value",
    "Japanese text normalization reads integers, separated and full-width numbers, decimals, percentages, fractions, comparisons, phone numbers and serials as the standard Japanese reading "
    "of exactly that value, whatever text stands around them.",
    "all written numbers up to 12 digits with any zeros, signs and decimals, in any Japanese carrier text",
    "The tests hold a few dozen numbers; 万/億 grouping and zero handling depend on every digit.",
    ["tn/japanese/rules/cardinal.py", "tn/japanese/rules/fraction.py", "tn/japanese/rules/math.py", "tn/japanese/data/number"],
    [("cardinal graph", "tn/japanese/rules/cardinal.py build_tagger")])

ITN_NUM = "all integers up to the largest unit named, any decimals, signs and digit sequences in their standard spoken form, in any carrier text; default and enable_0_to_9/enable_million settings"

sem("S04", "Chinese ITN writes every spoken number with its value",
    "Chinese inverse normalization writes spoken integers (colloquial forms included), decimals, percentages, fractions, digit strings, phone and identity numbers, addresses, plates and sums as digits with exactly the "
    "spoken value; 万 and 亿 stay above a million as documented, and enable_0_to_9 and enable_million change exactly what they name.",
    ITN_NUM, "Tests sample some numbers; each skipped place, colloquial form and unit combination is a separate path.",
    ["itn/chinese/rules/cardinal.py", "itn/chinese/rules/fraction.py", "itn/chinese/rules/math.py", "itn/chinese/rules/license_plate.py", "itn/chinese/data/number"],
    [("number graph", "itn/chinese/rules/cardinal.py build_tagger")])

sem("S05", "English ITN writes every spoken number with its value",
    "English inverse normalization writes spoken cardinals, negatives, decimals, ordinals, phone numbers, SSNs, IP addresses, cards, e-mail and web addresses with exactly the spoken value or digit sequence, and leaves the "
    "carrier sentence unchanged up to spacing before punctuation.",
    "all cardinals below 10^15, ordinals, decimals and digit sequences in their standard spoken form, in ordinary English sentences",
    "Tests sample a few hundred spoken forms; digits are dropped or shifted only for particular combinations.",
    ["itn/english/rules/cardinal.py", "itn/english/rules/decimal.py", "itn/english/rules/ordinal.py", "itn/english/rules/telephone.py", "itn/english/rules/electronic.py"],
    [("hundreds/scale composition", "itn/english/rules/cardinal.py")])

sem("S06", "Japanese ITN writes every spoken number with its value",
    "Japanese inverse normalization writes spoken integers, signed numbers, decimals, percentages, fractions (roots included), ordinals, digit strings, addresses and sums as digits with exactly the spoken value; 万, 億 and 兆 stay "
    "above a million as documented, and enable_0_to_9 and enable_million change exactly what they name.",
    ITN_NUM, "Tests sample some numbers; each skipped place and unit combination is a separate path.",
    ["itn/japanese/rules/cardinal.py", "itn/japanese/rules/fraction.py", "itn/japanese/rules/math.py", "itn/japanese/rules/ordinal.py", "itn/japanese/data/number"],
    [("number graph", "itn/japanese/rules/cardinal.py build_tagger")])

sem("S07", "Dates keep their year, month and day in every pipeline",
    "A written or spoken date, month, year, decade, era year or date range comes out as the conventional reading or writing of that same date; day, month and year are neither swapped nor lost.",
    "all valid calendar dates in the documented styles, six pipelines", "There are hundreds of thousands of dates and several styles; tests pin a few dozen, and field reordering happens between tagger and verbalizer.",
    ["tn/chinese/rules/date.py", "tn/english/rules/date.py", "tn/japanese/rules/date.py", "itn/chinese/rules/date.py", "itn/english/rules/date.py", "itn/japanese/rules/date.py", "tn/token_parser.py"],
    [("date graphs", "*/rules/date.py"), ("canonical field order", "tn/token_parser.py")])

sem("S08", "Clock times keep their hour, minute and second in every pipeline",
    "A written or spoken time of day, with or without seconds, noon marker, zone or range, comes out as the conventional reading or writing of that same time.",
    "all hours, minutes and seconds in the documented styles, six pipelines", "Every minute is a separate table row or path; tests pin a few.",
    ["tn/chinese/rules/time.py", "tn/english/rules/time.py", "tn/japanese/rules/time.py", "itn/chinese/rules/time.py", "itn/english/rules/time.py", "itn/japanese/rules/time.py",
     "itn/japanese/data/time", "itn/english/data/time"],
    [("time graphs", "*/rules/time.py"), ("canonical field order", "tn/token_parser.py")])

sem("S09", "Money and measures keep their amount and their unit in every pipeline",
    "An amount with a currency or unit (ranges, rates, signs, decimals, large quantities, subunits and scores included) comes out with exactly the same amount and a documented name or symbol of the same unit. "
    "Words the whitelists name are replaced as listed.",
    "all listed units, currencies and whitelist words, with any amount, six pipelines", "There are hundreds of units and currencies times every amount; tests sample a few of each.",
    ["tn/chinese/rules/measure.py", "tn/chinese/rules/money.py", "tn/english/rules/measure.py", "tn/english/rules/money.py", "tn/japanese/rules/measure.py", "tn/japanese/rules/money.py",
     "itn/chinese/rules/measure.py", "itn/chinese/rules/money.py", "itn/english/rules/measure.py", "itn/english/rules/money.py", "itn/japanese/rules/measure.py", "itn/japanese/rules/money.py"],
    [("unit and currency tables", "*/data/measure, */data/money"), ("amount graphs", "*/rules/measure.py, */rules/money.py")])

sem("S10", "English addresses, listed words, acronyms and serials are written out in full",
    "English normalization says an e-mail or web address letter by letter as it stands, with every symbol named and every digit spoken, expands listed abbreviations, acronyms and states as listed, and reads the numbers inside "
    "serials such as PS5 or B-52 in place. English inverse normalization writes each listed spoken name as listed, and only it.",
    "all addresses over the listed symbols and domains, all listed words, acronyms, states, serial names, in ordinary English sentences", "Tests hold one address, six abbreviations and one state out of thousands.",
    ["tn/english/rules/electronic.py", "tn/english/rules/whitelist.py", "tn/english/rules/serial.py", "tn/english/rules/word.py", "tn/english/data/electronic", "tn/english/data/whitelist", "itn/english/rules/whitelist.py",
     "itn/english/data/whitelist.tsv"],
    [("symbol and domain tables", "tn/english/rules/electronic.py"), ("listed words", "tn/english/rules/whitelist.py, itn/english/rules/whitelist.py"), ("serials", "tn/english/rules/serial.py")])

CACHE = ["tn/cache.py", "tn/processor.py"]
CACHE_TECH = "runtime monitor: libc interposition (fault and delay injection, event log) around the real build_fst on a toy grammar; "

prop("C01", "A crash or I/O error while building never poisons the cache",
     "If a build is killed, or fails with an I/O error, at any file-system step, or files it had not synced are lost, every later open in this or another process "
     "answers with one complete bundle: the previous one, the new one, or a fresh build, never a mixture, and never fails. An interrupted overwrite does not lose the "
     "previous bundle, a failed build releases its lock and file descriptors, and the next successful build removes what interrupted ones left.",
     ["crash points", "faults"],
     "every file-system change of a first build, an overwrite, a rebuild of a corrupt bundle and builds after earlier crashes; kills before, inside and after the call, "
     "EIO, ENOSPC, EACCES, EINTR; sequences of several faults",
     "The tests simulate a few failures by patching; which of some forty steps the crash hits decides what is left on disk.",
     CACHE, [("write to a temporary directory, publish by rename, keep and recover the previous bundle", "tn/cache.py CacheBundle"), ("checksummed manifest", "tn/cache.py load")],
     observe=["system calls of the build", "answers of later opens", "directory content", "/proc/self/fd"],
     cmd="checks/cache.py C01", technique=CACHE_TECH + "recovery oracle over later opens",
     note="Every fault point of the five scenarios in thorough, all without and a sample with unsynced data loss in quick. Directory-entry loss after a power cut is not simulated.")

prop("C02", "A damaged cache is rebuilt or refused, never believed",
     "Whatever bytes, lengths, manifest fields, missing or extra files or files of another bundle stand in a published cache entry, an open answers with the right grammar (rebuilding if need be) "
     "and the next one uses the repaired entry. Links, directories and special files in place of bundle files are refused with a cache error. Nothing hangs, crashes or changes a linked-to file.",
     ["inputs"],
     "all contents of a bundle directory, sampled by byte flips, truncation, growth, swaps, splices, manifest field and type changes, special files, and pairs of these",
     "The tests corrupt a handful of fields; the file is parsed by native code once it passes, so every field and byte must be checked.",
     CACHE, [("manifest identity, size and SHA-256 checks before native parsing", "tn/cache.py _load_path"), ("O_NOFOLLOW regular-file reads", "tn/cache.py _read_regular_at")],
     observe=["open outcome", "number of builds", "directory content outside the bundle"],
     cmd="checks/cache.py C02", technique=CACHE_TECH + "corruption generator with an answer oracle in forked children",
     note="Damages are sampled, about 2000 in quick and 70000 in thorough.")

prop("C03", "A changed grammar source or option never meets a stale cache entry",
     "The cache entry in use belongs to the current grammar: any change to the name or content of a Python or data source of tn or itn, and any different constructor option that changes the graphs, leads to another entry, "
     "while the same sources and options find the same entry again and tests or non-source files do not matter. Sources that change while a grammar is being built never get its graphs published under the new state.",
     ["inputs", "configurations", "histories"],
     "all edits of the source tree (bytes, lines, files added, removed, renamed, content moved between files) and all documented option settings",
     "The tests change one file and a few options; a missed file suffix, package or option silently serves old graphs.",
     CACHE + ["tn/chinese/normalizer.py", "tn/english/normalizer.py", "tn/japanese/normalizer.py", "itn/chinese/inverse_normalizer.py", "itn/english/inverse_normalizer.py", "itn/japanese/inverse_normalizer.py"],
     [("content fingerprint of the sources", "tn/cache.py production_source_fingerprint"), ("options in the cache key", "*/normalizer.py build_fst calls"),
      ("fingerprint checked again after the build", "tn/processor.py build_fst")],
     observe=["cache paths and fingerprints of edited copies", "bundle used by each option setting"],
     cmd="checks/cache.py C03", technique="runtime monitor: edited copies of the real source tree and all option settings opened through the real cache code; differential key oracle",
     note="Edits are sampled from every source file; compilation is stubbed where only the key is judged.")

prop("C04", "Processes and threads sharing a cache build once and read whole bundles",
     "When processes or threads open the same cache together, exactly one builds a missing entry at a time and all others wait for it and use it; with overwrites in between, every open answers with a complete bundle that was current at "
     "some moment during it, and never with an older one than a build finished before it began. A killed builder's lock is free at once, a waiter gives up after the configured timeout, and other keys are not held up.",
     ["schedules", "histories"],
     "all interleavings of opens, overwrites and kills by up to eight processes or threads on two keys",
     "The tests run a few fixed two-process schedules; races depend on the order of some forty system calls in each process.",
     CACHE, [("OS advisory lock per entry", "tn/cache.py lock"), ("read without lock, recheck under it", "tn/processor.py build_fst")],
     observe=["begin/end events of opens and builds", "answers"],
     cmd="checks/cache.py C04", technique=CACHE_TECH + "delay injection at every change; offline atomic-register and mutual-exclusion checker over the event log",
     note="Interleavings are sampled under random delays (numbers in the evidence).")

prop("C05", "The cache touches nothing but its own files, in the place asked for",
     "A build creates, changes and removes only its own entry's files below the documented cache root (none with cache_dir=False): files and directories it did not make, look-alike names included, and everything reached through links keep their content. "
     "Names that would leave the root are refused, links in place of cache directories are refused or not followed, and cache directories are not writable by others.",
     ["inputs", "configurations"],
     "all directory contents around a bundle, all link placements at every depth, all kinds of cache_dir and environment settings",
     "The tests place a few foreign files; cleanup code deletes by name pattern, so what it may meet is open-ended.",
     CACHE, [("flat removal of known entries only", "tn/cache.py _remove_flat_bundle"), ("directory descriptors bound with O_NOFOLLOW", "tn/cache.py _open_directory_chain"), ("default_cache_dir", "tn/cache.py")],
     observe=["every file-system change", "content of foreign files before and after"],
     cmd="checks/cache.py C05", technique=CACHE_TECH + "ownership monitor over all changes and a before/after comparison of foreign files",
     note="All effects stay in scratch directories. Link races (a directory swapped for a link while the build runs) are not injected.")

prop("N05", "N-best lists are exact: distinct, cheapest first, complete, stable",
     "normalize, tag and normalize_with_mapping with nbest=n return the n cheapest distinct answers of the grammar in order of cost, all of them when there are fewer, and a longer list begins with the shorter one. "
     "The cost of an output is its tag's weight plus what its reading costs above that tag's best reading; each mapping follows a cheapest path of its own output. A count that is not a positive integer raises ValueError.",
     ["inputs", "configurations"],
     "all weighted token grammars (ambiguous, tied, negative weights, tags without reading, reordered fields) and short texts in all six pipelines",
     "Tests fix a few lists; the lazy search over two transducers is wrong only for particular weight patterns.",
     ["tn/processor.py", "tn/alignment.py"],
     [("lazy unique-output streams merged by lower bound", "tn/processor.py _normalization_candidates, _UniqueOutputPathStream"), ("exact path tracing", "tn/alignment.py")],
     observe=["n-best lists of outputs, tags and mappings"],
     cmd="checks/nbest.py N05",
     technique="differential monitor: every returned list is compared with brute-force enumeration of all weighted paths, on random toy grammars and on the real pipelines",
     note="Random grammars and short texts; long ambiguous digit runs are left out because exact search over them is exponential.")

prop("N06", "An answer depends on the text and the options only",
     "For the same text and options, normalize, tag, normalize_with_mapping and n-best give the same answer in every process, for every hash seed, whether the grammar was compiled in memory, just cached or loaded from the cache, "
     "whatever calls (failing ones included) came before, from any thread, with other threads calling at the same time, and whatever other pipelines were built in the process.",
     ["inputs", "schedules", "histories", "configurations"],
     "all texts, call orders and thread interleavings, six pipelines and option sets",
     "Tests call one shared instance once per text in file order, in one thread and one process.",
     ["tn/processor.py", "tn/cache.py", "tn/token_parser.py", "tn/*/rules", "itn/*/rules"],
     [("no state kept between calls", "tn/processor.py"), ("deterministic graph construction", "*/rules"), ("cached graph equals the built one", "tn/cache.py")],
     observe=["recorded answers of four separately started processes per pipeline"],
     cmd="checks/purity.py N06",
     technique="offline comparison of recorded answers across processes with different hash seeds, caches, call histories and thread schedules",
     note="Sampled texts; thread interleavings are those the interpreter produces, with eight threads on the same texts.")

prop("N07", "Each option changes what it names, and nothing else",
     "remove_interjections, remove_puncts, full_to_half, traditional_to_simple and tag_oov leave the tags as they are and change the reading exactly character by character as documented; remove_erhua drops exactly the 儿 of unlisted words, "
     "transliterate rewrites exactly the listed words, full-width text is read like its half-width form where the option says so, and enable_standalone_number=False leaves exactly bare numbers as written.",
     ["inputs", "configurations"],
     "all texts, all combinations of the options of the Chinese and Japanese pipelines",
     "Tests switch single options on one or two sentences each; that the others, and every other text, are unaffected is for all texts and combinations.",
     ["tn/chinese/rules/postprocessor.py", "tn/japanese/rules/preprocessor.py", "tn/japanese/rules/postprocessor.py", "itn/chinese/rules/postprocessor.py",
      "itn/japanese/rules/preprocessor.py", "tn/chinese/normalizer.py", "tn/japanese/normalizer.py", "itn/chinese/inverse_normalizer.py", "itn/japanese/inverse_normalizer.py", "tn/japanese/rules/transliteration.py",
      "tn/chinese/rules/char.py"],
     [("character maps and deletions around the grammar", "*/rules/preprocessor.py, */rules/postprocessor.py"), ("options as constructor flags", "*/normalizer.py, */inverse_normalizer.py")],
     observe=["answers and tags of pipelines built with and without an option"],
     cmd="checks/meta.py N07",
     technique="metamorphic monitor: the same texts through differently configured pipelines, related by character models of the options",
     note="Sampled texts and option combinations; the character tables are frozen copies of the shipped ones.")

prop("N08", "What stands elsewhere in a text does not change how a part is read",
     "A number, date, time, amount or listed word is read or written the same way alone, after or before any run of ordinary words, and next to other such items set apart by a word. "
     "In the Chinese and Japanese pipelines, two whole texts joined by a character no rule reads come out as their two answers joined by it.",
     ["inputs"],
     "all items of the reference models and (Chinese, Japanese) all texts without very long digit runs, any length of context; English addresses and card numbers, which take neighbouring words, are outside",
     "Tests hold short sentences; one best path is chosen over the whole text, so weights, ties and rounding act over any distance.",
     ALL_PIPES,
     [("weights between rules", "*/normalizer.py, */inverse_normalizer.py"), ("token closure", "*/normalizer.py, */inverse_normalizer.py"), ("shortest path", "tn/processor.py")],
     observe=["normalize of a text alone and in company"],
     cmd="checks/meta.py N08",
     technique="metamorphic monitor: f(a + separator + b) against f(a), f(separator), f(b) for generated items, texts and contexts of up to thousands of words",
     note="Sampled items, texts and context lengths.")

prop("N09", "Normalized text is final, and no digit is left unread",
     "With the character options off, normalizing the answer of a Chinese or Japanese pipeline again (TN or ITN) returns it unchanged. The reading a Chinese or Japanese TN pipeline gives contains no digit, half-width or full-width, whatever the text.",
     ["inputs"],
     "all texts; Chinese and Japanese, TN and ITN (the English pipelines keep some digits and spacing by design)",
     "Whether a digit stays somewhere, or an answer is read as something else again, depends on the combination of rules that fire in a text.",
     [p for p in ALL_PIPES if "english" not in p],
     [("every digit has a reading", "tn/*/rules/char.py, tn/*/rules/cardinal.py"), ("outputs are no rule's input", "*/rules")],
     observe=["normalize applied to its own answers"],
     cmd="checks/meta.py N09",
     technique="metamorphic monitor: idempotence and digit-freeness of recorded answers under hostile generated texts",
     note="Sampled texts.")

prop("T01", "The token wire format is read, refused, reordered and quoted exactly",
     "Every well-formed tagged stream is read as its tokens, fields and values, reordered into the schema's field order (unknown fields after, preserve_order respected, nothing lost, spans exact, idempotent); every malformed one raises "
     "TokenParseError and nothing else. Any text put into fields by the grammar helpers comes out of the tokens and of the verbalizer unchanged, quotes and backslashes included.",
     ["inputs"],
     "all strings as token streams, all field values over valid Unicode, all order schemas",
     "Tests hold some dozen streams; escapes, nesting look-alikes and truncations interact at every position.",
     ["tn/token_parser.py", "tn/processor.py"],
     [("recursive reader with escapes", "tn/token_parser.py TokenParser.parse"), ("canonical order", "tn/token_parser.py Token.string"), ("quoting transducers", "tn/processor.py tag_field, verbalize_field")],
     observe=["TokenParser results and exceptions", "tag/verbalize of helper-built grammars"],
     cmd="checks/wire.py T01",
     technique="differential monitor against an independent grammar of the format; generated, mutated and exhaustively enumerated streams",
     note="All continuations of up to 4 (thorough: 6) syntax characters after eleven prefixes are enumerated; longer streams are sampled.")

prop("L01", "The command line is the library, line by line",
     "For each input line (or --text), the command prints exactly the tagged text and its verbalization, keeping every blank and stripping only the line ending. Every documented spelling of every option reaches the pipeline with that value and "
     "no other change, defaults equal the library's, and anything else (options of other pipelines, two inputs, unknown values, unreadable files) ends with a plain error and status 2.",
     ["inputs", "configurations"],
     "all line streams (line endings, blanks, control characters), all option combinations and spellings, both commands, three languages",
     "The tests try a few argument lists and a few lines.",
     ["tn/cli.py", "tn/main.py", "itn/main.py", "tn/__main__.py", "itn/__main__.py"],
     [("per-language option sets", "tn/cli.py create_parser, create_processor"), ("line loop", "tn/cli.py run")],
     observe=["stdout, stderr, exit status", "constructor calls"],
     cmd="checks/cli.py L01",
     technique="trace monitor of the command's output against the library's own answers, plus recording constructors under all option spellings, plus real processes",
     note="All single options and all combinations per pipeline (one random spelling each); lines sampled.")

RUNTIME = ["runtime/processor", "runtime/utils"]

prop("R01", "The C++ token parser reads, refuses and reorders exactly as the Python one",
     "For every pipeline type and every UTF-8 token stream, the C++ TokenParser gives the tokens, fields, values and field order that the Python pipeline's schema gives (unknown fields kept, preserve_order respected), and refuses exactly the malformed "
     "ones with std::invalid_argument. Its string helpers count, split and trim by character. Nothing reads or writes outside its memory, on broken UTF-8 too, and no call depends on earlier ones.",
     ["inputs", "histories"],
     "all token streams over UTF-8 (and byte strings without bytes from 0xF8 on, for memory safety), six schemas",
     "The C++ unit tests hold about ten streams and do not run in the Python suite; the two parsers are separate code kept equal by hand.",
     RUNTIME + ["tn/token_parser.py"],
     [("C++ token reader", "runtime/processor/wetext_token_parser.cc"), ("field order and extra fields", "runtime/processor/wetext_token_parser.h Token::String"), ("UTF-8 helpers", "runtime/utils/wetext_string.cc")],
     observe=["Reorder results and exceptions", "ASan and UBSan reports"],
     cmd="checks/native.py R01",
     technique="AddressSanitizer and UBSan build of the real C++ code under generated and mutated streams; differential oracle: independent reader with the Python schemas",
     note="glog is a stand-in; streams are sampled, some hundred thousand per run.")

prop("R02", "The C++ runtime gives the Python pipelines' answers, safely",
     "On the graphs of each Python pipeline, tag, verbalize and normalize of the C++ processor and of the C API give an equally cheap answer of that grammar as Python (the same one unless paths tie), and the program prints both lines for each input line. "
     "Malformed streams, NULL arguments and missing or damaged graphs are answered with NULL or an exception, never a crash; every string and handle can be freed with nothing leaked, and threads with their own processors do not disturb each other.",
     ["inputs", "faults", "schedules"],
     "all UTF-8 texts without NUL, six pipelines' graphs, malformed streams, missing/truncated graph files, call sequences of the C API, threads with own processors",
     "The C++ tests need the network to build and check the Chinese TN examples only; the Python tests never run this code.",
     RUNTIME + ["runtime/bin/processor_main.cc"],
     [("compose, shortest path, reorder", "runtime/processor/wetext_processor.cc"), ("C API", "runtime/processor/wetext_processor_c_api.cc"), ("program", "runtime/bin/processor_main.cc")],
     observe=["answers and costs", "ASan, UBSan, TSan reports", "live heap bytes", "program output"],
     cmd="checks/native.py R02",
     technique="ASan/UBSan and TSan builds of the real runtime over stand-in OpenFst headers; differential and cost oracle against the Python pipelines, heap-balance monitor",
     note="OpenFst itself is replaced by a small stand-in, so only the repository's C++ is judged.")

prop("R03", "The Android binding gives the processor's answers to Java",
     "Through the JNI binding, init, normalize and inverse_normalize give Java exactly the answers of the C++ processor for the Chinese TN and ITN graphs of the given folder, for every Unicode text (characters beyond the BMP included). "
     "Unreadable models are reported as a Java exception, and repeated calls keep no native memory and never crash the JVM.",
     ["inputs", "faults", "histories"],
     "all Java strings without NUL and lone surrogates, model folders with any name, missing models",
     "There is no test of the binding in the repository.",
     ["runtime/bindings/android/wetextprocessing.cc"],
     [("string conversion and model loading", "runtime/bindings/android/wetextprocessing.cc")],
     observe=["answers in a real JVM", "JVM crashes, ASan and UBSan reports", "malloc'd bytes"],
     cmd="checks/native.py R03",
     technique="runtime monitor in real JVMs (plain and with AddressSanitizer preloaded, -Xcheck:jni); differential oracle against the C++ processor, allocation-balance monitor",
     note="The Kotlin class is replaced by a Java class with the same native methods; OpenFst and glog are stand-ins.")
