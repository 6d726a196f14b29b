#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the list below (kept here because JSON lines are hard to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

NORM = ["tn/chinese/normalizer.py", "tn/japanese/normalizer.py", "tn/english/normalizer.py", "itn/chinese/inverse_normalizer.py",
        "itn/japanese/inverse_normalizer.py", "itn/english/inverse_normalizer.py"]

p("C01", "Every text can be tagged and normalized by every pipeline",
  "For every non-empty text without U+0000, each of the six pipelines (Chinese, Japanese and English TN and ITN), under every setting of its options, tags the text and normalizes it without raising: quotes, backslashes, brackets, control and blank characters, mixed scripts and characters outside every lexicon included.",
  ["inputs", "configurations"], "All Unicode texts of any length (exact, on the tagger's automaton) x all option settings.",
  "Tests try a few hundred chosen sentences; a gap in the union of rules shows only on character combinations nobody listed.",
  NORM + ["tn/english/rules/word.py", "itn/english/rules/word.py", "tn/processor.py"],
  [("catch-all char/word rules with the largest weight", "tn/chinese/rules/char.py, tn/english/rules/word.py, itn/english/rules/word.py"),
   ("escape() of the input before composition", "tn/processor.py tag/_normalization_candidates")], ["Processor.tag", "Processor.normalize"])
p("C02", "Tagging preserves the written text in its field values",
  "In every analysis a tagger can produce, for every text, the field values in stream order are the input text itself: no character is changed, reordered, duplicated or invented, white space aside, and only the fixed structural separators between the fields of one token may be dropped. Fields that name a reading (preserve_order, kind, style and the English measure markers) hold no text.",
  ["inputs", "configurations"], "All paths of each pipeline's tagger, hence all texts of any length and all analyses, x option settings.",
  "Tests compare tag() on selected examples; the contract is per field rule and per path and a semantic transducer left in a tagger only shows on the inputs it rewrites.",
  ["docs/python-rule-architecture.md", "tn/processor.py"] + NORM,
  [("tag_field / input_projection", "tn/processor.py"), ("add_tokens wire format", "tn/processor.py")], ["Processor.tag"])
p("C03", "Every analysis the tagger can produce is verbalizable",
  "Every token stream that a tagger can produce for any text, best or not, is a well-formed stream whose fields, once put in the pipeline's documented order, the verbalizer reads: verbalize(tag(text)) never fails, so the two-step API and the one-step API see the same analyses.",
  ["inputs", "configurations"], "All tagger paths (any text, any length, any rank) x option settings.",
  "Tagger and verbalizer of a rule are written separately; a form one accepts and the other rejects is silently replaced by a worse analysis in normalize() and crashes verbalize(); tests only verbalize what they happen to list.",
  NORM + ["tn/token_parser.py", "tn/processor.py"],
  [("field order tables", "TOKEN_ORDERS in each pipeline"), ("tag_field/verbalize_field pairs", "tn/processor.py and the rules")],
  ["Processor.tag", "Processor.verbalize"])
p("C04", "Token stream parsing accepts exactly the wire format and loses nothing",
  "A token stream is accepted exactly when it follows the wire format, otherwise a token parse error is raised; accepted streams yield exactly the written tokens, fields, decoded values and spans, and reordering puts the canonical fields of a token in canonical order followed by all its other fields, unless the token asks to preserve its order. Escaping a value and parsing it back gives the value.",
  ["inputs"], "All streams over the delimiter alphabet and over lexemes up to a length, all values, field orders and single edits of well-formed streams.",
  "The hand-written parser is a state machine over delimiters, quotes and escapes; the tests sample some 20 streams.",
  ["tn/token_parser.py"], [("TokenParser.parse / Token.string / escape_value", "tn/token_parser.py")],
  ["TokenParser.reorder_with_spans", "TokenParser.parse"])
p("C05", "The C++ runtime reorders token streams exactly as Python does",
  "For every token stream a pipeline can emit, the C++ runtime's token parser returns the same reordered stream as the Python pipeline, and it rejects the malformed streams Python rejects; splitting text into UTF-8 characters is lossless for every character.",
  ["inputs"], "All field subsets and orders of every token kind, all pairs of representative tokens, all values over an alphabet, malformed streams by enumeration.",
  "The runtime duplicates the parser and its order tables in another language; no test compares the two.",
  ["runtime/processor/wetext_token_parser.cc", "runtime/processor/wetext_token_parser.h", "runtime/utils/wetext_string.cc"],
  [("order tables per pipeline", "runtime/processor/wetext_token_parser.cc"), ("Token::String / Append", "runtime/processor/wetext_token_parser.h")],
  ["TokenParser::Reorder", "SplitUTF8StringToChars"])
p("C06", "N-best results are the exact joint ranking, without duplicates",
  "normalize(text, nbest=N) returns the N distinct outputs of least joint cost over all pairs of analysis and verbalization (fewer only when fewer exist), in order of cost, and its first K entries are normalize(text, nbest=K); a verbalization's cost counts relative to the best one of its analysis. An invalid N is refused.",
  ["inputs", "configurations"], "All small weighted tagger/verbalizer pairs within a bound, and the full candidate set of each text of an inventory on the real pipelines.",
  "The search is a lazy best-first merge of two lazily expanded path streams; mistakes show only for particular cost orders, ties, duplicates and rejected analyses.",
  ["tn/processor.py"], [("frontier with lower bound from the tagger stream", "tn/processor.py _normalization_candidates"), ("doubling path stream", "tn/processor.py _UniqueOutputPathStream")],
  ["Processor.normalize"], [("frontier", "heap of best unexpanded candidate per analysis", "tn/processor.py")])
p("C07", "Mappings are exact, ordered, complete character spans",
  "For every text, normalize_with_mapping returns the same output as normalize, and its mappings are ordered, disjoint, in-bounds half-open character spans whose texts are the named substrings; each token of the analysis has one mapping with its own input and its own output, identities only on request, and every non-blank input character and non-blank output character outside structural separators belongs to some token.",
  ["inputs", "configurations"], "All sequences of up to three fragments from an inventory covering every token kind, multi-byte characters and deletions, x pipelines, x n-best candidates.",
  "Spans are traced over composed byte-level graphs where output is pushed before or after its token; tests check a few dozen sentences.",
  ["tn/alignment.py", "tn/processor.py"], [("trace_input_spans / transduce_with_spans", "tn/alignment.py")], ["Processor.normalize_with_mapping"])
p("C08", "All entry points give the same result for the same text and options",
  "normalize(t), verbalize(tag(t)), normalize(t, nbest=n)[0], tag(t, nbest=n)[0], normalize_with_mapping(t) and the command line agree for every text; the command line prints tag and normalization of every input line in order, whatever the line endings, and every option reaches the pipeline with its documented default and polarity.",
  ["inputs", "configurations"], "All fragment pairs x entry points x pipelines; all option spellings and combinations; all line-ending sequences up to a length.",
  "Tests call one entry point per example and sample a handful of command lines.",
  ["tn/cli.py", "tn/processor.py", "tn/main.py", "itn/main.py"], [("argument specification", "tn/cli.py"), ("shared candidate search", "tn/processor.py")],
  ["tn.cli.run", "Processor.*"])
p("C09", "A cache bundle is never half-written, mixed or wrong after a crash",
  "Whatever operation a cache build is killed at, and whichever of its unsynced writes reach the disk, the next construction of the same pipeline succeeds and its graphs are those a fresh build gives; a bundle whose files were truncated, altered, swapped, removed or replaced is never loaded, and the good bundle is restored.",
  ["crash_points", "histories", "fault_sequences"], "All crash points of publication and recovery (and a second crash during recovery), all torn-write outcomes per file, all single-file corruptions from a catalogue.",
  "Tests simulate two or three chosen failures; atomicity is a claim about every prefix of a system-call sequence.",
  ["tn/cache.py", "tn/processor.py"], [("temporary directory, fsync, rename, manifest digests", "tn/cache.py publish"), ("residual recovery", "tn/cache.py recover_residuals")],
  ["Processor.build_fst", "CacheBundle.load/publish"])
p("C10", "Concurrent users of one cache never see a torn or mixed bundle",
  "When several processes construct the same pipeline over one cache directory in any interleaving (with or without overwrite, some of them killed at any point), each surviving one ends with a correct graph pair, at most one builds at a time per bundle, and the cache is left with one complete bundle and no stuck lock.",
  ["schedules", "crash_points"], "All interleavings of two or three processes' file-system operations up to a preemption bound, with an optional kill.",
  "Tests start real processes and accept whichever schedule happens.",
  ["tn/cache.py", "tn/processor.py"], [("file lock around recover/build/publish", "tn/cache.py lock"), ("re-check after locking", "tn/processor.py build_fst")], ["Processor.build_fst"])
p("C11", "Cache maintenance touches nothing outside its own bundle",
  "Loading, building, repairing and publishing a bundle never reads through, writes or deletes anything but that bundle's own directory, lock and residuals inside the cache root: symbolic links, foreign files, other bundles, legacy flat files and names that look similar are left as they were, whatever shape the cache tree has.",
  ["configurations", "histories"], "All placements of a catalogue of hostile entries (links, files, directories) at each path of the cache layout x operations.",
  "Tests place one or two links; containment is a claim over all tree shapes.",
  ["tn/cache.py"], [("path checks before removal", "tn/cache.py")], ["file tree before/after"])
p("C12", "A cache bundle is reused only for identical sources and options",
  "Constructing a pipeline with a cache directory gives the same graphs as building it fresh for the current sources and options: changing, adding, removing, renaming or swapping any grammar source or data file, any option, the language or the direction never reuses a bundle built for another state, and an unchanged state does reuse it.",
  ["configurations", "histories"], "All source and data files x mutation kinds x pipelines, all option settings, all build/change/build histories up to a length.",
  "Tests change one file; the key must cover every file that the graph depends on.",
  ["tn/cache.py", "tn/processor.py"], [("production_source_fingerprint", "tn/cache.py"), ("cache_config of each pipeline", "*/normalizer.py")], ["CacheBundle.path", "Processor.build_fst"])
p("C13", "TN reads every number with its exact value",
  "In Chinese, Japanese and English TN the spoken form of every written integer, signed number, decimal, percentage and fraction in range denotes exactly the written value (or, for digit-wise readings, exactly the written digits), whether alone or between ordinary text.",
  ["inputs"], "All integers up to a bound and all boundary shapes above it, all decimals/fractions/percentages up to a bound, x pipelines.",
  "Number grammars are products of position rules (zero runs, teens, unit boundaries); tests sample tens of values.",
  ["tn/chinese/rules/cardinal.py", "tn/japanese/rules/cardinal.py", "tn/english/rules/cardinal.py", "tn/english/rules/decimal.py"],
  [("positional number grammars", "*/rules/cardinal.py")], ["Processor.normalize"])
p("C14", "ITN writes every spoken number with its exact value",
  "In Chinese, Japanese and English ITN the written form of every spoken cardinal, decimal, percentage and fraction in range has exactly the spoken value, and inverting the TN reading of a number gives back a number of that value.",
  ["inputs", "configurations"], "All integers up to a bound plus all boundary shapes, in every accepted spoken variant, x number options.",
  "As for TN; spoken variants (optional units, zeros, omitted tails) multiply the cases tests would need.",
  ["itn/chinese/rules/cardinal.py", "itn/japanese/rules/cardinal.py", "itn/english/rules/cardinal.py"],
  [("positional number grammars", "itn/*/rules/cardinal.py")], ["Processor.normalize"])
p("C15", "Every calendar date and clock time is read and written correctly",
  "For every valid date and every clock time in the supported notations, TN speaks and ITN writes exactly that year, month, day, hour, minute and second, in the language's order, and the two invert each other where both exist.",
  ["inputs"], "All days of a range of years in each notation, all 1440 minutes (and seconds) of a day, x languages and directions.",
  "Tests hold a few dates; each month, day, hour and minute has its own lexicon entry.",
  ["tn/chinese/rules/date.py", "tn/chinese/rules/time.py", "tn/japanese/rules/date.py", "tn/english/rules/date.py", "tn/english/rules/time.py",
   "itn/chinese/rules/date.py", "itn/chinese/rules/time.py", "itn/english/rules/date.py", "itn/english/rules/time.py"],
  [("date and time rules and their data tables", "*/rules/date.py, */rules/time.py")], ["Processor.normalize"])
p("C16", "Every lexicon entry is honoured",
  "Every row of the unit, currency, whitelist, symbol and date lexicons takes effect: the written side, in the context its rule serves, is replaced by the spoken side (or the reverse in ITN), and no other entry shadows it except those documented as ambiguous.",
  ["inputs"], "All rows of all lexicon tables x minimal contexts x pipelines.",
  "Tests touch a small part of the several thousand rows; a broken load, escape or precedence loses whole classes of rows.",
  ["tn/chinese/data", "tn/japanese/data", "tn/english/data", "itn/chinese/data", "itn/japanese/data", "itn/english/data"],
  [("string_file lexicons composed into rules", "*/rules/*.py")], ["Processor.normalize"])
p("C17", "Each option changes exactly what it documents",
  "Character options (full-to-half width, traditional-to-simplified, erhua, interjections, punctuation, transliteration, OOV tags) and number options (standalone numbers, 0-9, million) act on every character or number they concern and on nothing else, in every combination, and are independent of each other.",
  ["configurations", "inputs"], "All option combinations x every character of every character table and every Unicode block sample x number forms.",
  "Tests flip single options on single sentences.",
  ["tn/chinese/rules/preprocessor.py", "tn/chinese/rules/postprocessor.py", "tn/japanese/rules/postprocessor.py"] + NORM,
  [("preprocessor and postprocessor rewrite rules", "*/rules/preprocessor.py, */rules/postprocessor.py")], ["Processor.normalize"])
p("C18", "Normalization is a pure function, also under threads and history",
  "The result of any call depends only on the text, the arguments and the options the pipeline was built with: not on earlier calls, failed calls, other pipelines in the process, or calls running in other threads on the same object.",
  ["schedules", "histories"], "All call sequences up to a length over a mixed call alphabet; all interleavings of two threads' calls up to a preemption bound at bytecode-line granularity.",
  "Tests use one call per fresh example in one thread.",
  ["tn/processor.py", "tn/token_parser.py", "tn/alignment.py"], [("per-call parser and streams", "tn/processor.py")], ["Processor.*"])
p("C19", "Text with nothing to normalize passes through unchanged",
  "Text made only of ordinary letters, characters and punctuation of the pipeline's language (no digits, number words, units, symbols or listed entries) comes out unchanged, apart from the documented character conversions and blank handling, wherever it stands next to normalizable text.",
  ["inputs"], "All characters of the language's character sets, all short strings over representative classes, each alone and around every token kind.",
  "Tests cannot list the characters; an over-eager rule shows only on the text it wrongly claims.",
  NORM, [("char/word fallback", "*/rules/char.py, */rules/word.py")], ["Processor.normalize"])
p("C20", "Normalization is compositional across punctuation",
  "Separating two texts by sentence punctuation normalizes each as if it stood alone: the result for the pair is the two results joined by that punctuation.",
  ["inputs"], "All ordered pairs (and triples, bounded) from an inventory with every token kind x sentence punctuation x pipelines.",
  "Weights of neighbouring tokens interact through the shortest path; tests hold single tokens or fixed sentences.",
  NORM + ["tn/processor.py"], [("weighted union of rules, closure", "*/normalizer.py")], ["Processor.normalize"])
p("C21", "No digit is lost, invented, changed or moved",
  "The nonzero digits that a normalized text names, written or spoken, are those its source named: the same ones, in the same order except inside fractions, dates written in another order and times told past or to the hour. Chinese and Japanese TN leave no digit of a number written. (Texts whose numbers have no single meaning, as a number glued behind a percentage, are not claimed.)",
  ["inputs"], "All strings to a length over alphabets of digits, marks, units and number words, and all longer strings of number-mark-number shapes, x pipelines.",
  "The value of a lone number says nothing of what happens where two rules can split one run of digits: tests hold well-formed sentences, users type '2021.5.1-3' and '1/2/3'.",
  NORM + ["tn/processor.py"], [("choice between the number rules at each digit run", "*/normalizer.py, */rules/*.py")], ["Processor.normalize"])
p("C22", "A normalized text is a fixed point",
  "Normalizing a normalized text again with the same pipeline and options changes nothing: what TN spoke out and what ITN wrote down needs no further normalization.",
  ["inputs"], "All strings to a length over alphabets of digits, marks, units and number words, all longer strings of number-mark-number shapes, all pairs of fragments of every token kind, x pipelines.",
  "A text that is half normalized (a unit left behind, a number split in two) is still changed by the second pass; tests never run one.",
  NORM + ["tn/processor.py"], [("rule priorities and post-processing", "*/normalizer.py")], ["Processor.normalize"])
p("C23", "Identifiers are read and written character by character",
  "E-mail and web addresses, IP, phone, card and serial numbers, number plates and train numbers come out with each of their characters, in order, by its name (TN) or by itself (ITN), in the grouping of their kind; the words around them stay as they are.",
  ["inputs"], "Every identifier of each supported shape over small alphabets, every digit at every position of a number, all spoken segmentations (double, triple, in twos).",
  "One wrong character makes an address or a number useless; tests hold a few identifiers, and these rules compete with every number rule.",
  ["tn/english/rules/electronic.py", "tn/english/rules/telephone.py", "tn/english/rules/serial.py", "itn/english/rules/electronic.py", "itn/english/rules/telephone.py",
   "tn/chinese/rules/cardinal.py", "tn/japanese/rules/cardinal.py", "itn/chinese/rules/license_plate.py", "itn/chinese/rules/train_number.py", "itn/japanese/rules/cardinal.py"],
  [("electronic, telephone, serial and digit-string rules", "*/rules/*.py")], ["Processor.normalize"])
if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w", encoding="utf-8") as out:
        for d in P: out.write(json.dumps(d, ensure_ascii=False) + "\n")
