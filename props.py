"""The properties: what they say, where they are anchored, and the harnesses that decide them.
tools/genmeta.py writes properties.jsonl and MANIFEST.json from this table."""

PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


def h(entry, bounds, **kw):
    return dict(entry=entry, bounds=bounds, **kw)


ENGINE = "src/nlu_engine.rs"

prop(
    "C03",
    title="Intent whitelists and blacklists are honoured exactly",
    statement="Parsing with a whitelist and/or a blacklist of intents lets the intent parsers answer with exactly the intents "
              "that are whitelisted (when a whitelist is given) and not blacklisted, so neither the returned intent nor any "
              "alternative is ever a filtered one and no allowed intent is lost. A filter that names an intent the model does not "
              "have is refused with an error before anything is parsed.",
    over=["inputs", "configurations"],
    quantifier="every combination of optional whitelist and blacklist, with known, unknown, repeated and overlapping names, in any hash order",
    tests="the engine tests filter with one or two fixed names on one trained model (and do not run here at all)",
    files=[ENGINE],
    mechanism=[("get_intents_whitelist", ENGINE), ("parse_with_alternatives", ENGINE), ("IterOps::intersect", "src/utils.rs")],
    observe=["result of parse / parse_with_alternatives", "filter handed to an intent parser"],
    harnesses=[
        h("c03_filter", "3 intents; whitelist and blacklist each absent or of 0..2 names (thorough: 0..3), every name any of 4 letters (one unknown); with and without alternatives; 2 hash orders (thorough: all 6)"),
        h("c03_many", "300 intents (thorough: 1000); a whitelist of all but one of 5, a blacklist of one of 3, either absent or not"),
    ],
    outside="more than 3 intents, longer filters, names of several characters",
)
prop(
    "C04",
    title="Alternatives never repeat the returned intent and are the best others",
    statement="When k alternatives are asked for, the result lists the min(k, available) most confident other intents (the empty "
              "intent included) that pass the filters, by decreasing confidence, each once and never the returned intent. "
              "Each alternative carries its own confidence and the slots the engine extracts for that intent, with as many "
              "alternative values as asked for, and asking for alternatives does not change the returned intent.",
    over=["inputs", "configurations"],
    quantifier="every assignment of confidences, every returned intent, every k and every filter",
    tests="one fixed model and query, in which the returned intent always is the most confident one",
    files=[ENGINE],
    mechanism=[("parse_with_alternatives", ENGINE), ("get_intents", ENGINE), ("get_slots_with_alternatives", ENGINE)],
    observe=["alternatives of the parsing result"],
    harnesses=[
        h("c04_alternatives", "3 intents and the empty intent with arbitrary confidences in [0,1], any returned intent, k in 0..4, 0..2 alternative values per slot, no whitelist or one of two whitelists"),
        h("c04_many", "300 intents (thorough: 1000) of 2 parsers with fixed confidences, one of 3 the best; 8 numbers of alternatives up to the largest; 2 hash orders"),
    ],
    outside="arbitrary confidences of more than 3 intents, confidences outside [0,1]",
)
prop(
    "C05",
    title="Intent confidences of several parsers are merged into one ranked list",
    statement="Listing the intents of a text yields every intent and the empty intent exactly once, by decreasing confidence, and "
              "the confidence of each is the best one any of the configured intent parsers that know it gives it.",
    over=["inputs", "configurations"],
    quantifier="every assignment of confidences by every parser, in any listing order and hash order",
    tests="one fixed list of scores per mocked parser",
    files=[ENGINE],
    mechanism=[("get_intents", ENGINE)],
    observe=["result of get_intents"],
    harnesses=[
        h("c05_one_parser", "1 parser, 4 labels, arbitrary confidences in [0,1], 2 hash orders"),
        h("c05_two_parsers", "2 parsers, 3 labels, arbitrary confidences in [0,1], 2 hash orders"),
        h("c05_three_parsers", "3 parsers, 2 labels (thorough: 3), arbitrary confidences in [0,1], 2 hash orders"),
        h("c05_partial", "2 parsers that each know any of 2 intents and the empty intent, arbitrary confidences in [0,1], 2 hash orders"),
        h("c04_many", "300 intents (thorough: 1000) of 2 parsers with fixed confidences, one of 3 the best; 2 hash orders"),
    ],
    outside="arbitrary confidences of more than 3 parsers or 4 labels; NaN confidences",
)
prop(
    "C06",
    title="Intent parsers are tried in order and the first answer wins",
    statement="The engine answers with the intent, confidence and slots of the first configured intent parser that finds an intent; "
              "when none does it answers with the empty intent, no slots and the last parser's confidence. Slots of a given intent "
              "come from the first parser that finds any; the error of a parser that is consulted is reported, and the result "
              "always carries the parsed text unchanged.",
    over=["inputs", "configurations", "fault_sequences"],
    quantifier="every sequence of parser answers (intent, intent with slots, nothing, error), confidence and text",
    tests="one or two mocked parsers with fixed answers",
    files=[ENGINE],
    mechanism=[("parse_with_alternatives", ENGINE), ("get_slots_with_alternatives", ENGINE)],
    observe=["parsing result", "result of get_slots"],
    harnesses=[
        h("c06_cascade", "1..3 parsers, each answering nothing, an intent, an intent with a slot, or an error, with any confidence in [0,1]; any text of 0..3 characters (thorough: 0..4) with spaces, capitals and 4-byte characters"),
        h("c06_get_slots", "1..3 parsers, each with no slots, a slot, or an error"),
        h("c06_many", "12 parsers (thorough: 40), of which those from one of 4 places on answer"),
    ],
    outside="more than 3 parsers",
)
prop(
    "C17",
    title="Slots are resolved to the entity found at their place, or dropped",
    statement="A slot is given the value and alternatives (as many as asked for, as the entity parsers know them at the time of the "
              "request) of the entity of its own type found at exactly its place in the text, else of the entity found in its own "
              "text alone (for custom entities only if that covers the whole slot), else its raw text if its custom entity is open "
              "to new values; otherwise it is dropped. Resolution never changes the range, raw value, "
              "entity or name of a slot, nor their order.",
    over=["inputs", "configurations"],
    quantifier="every slot range, every set of entities found in the text and in the slot's text, open and closed entities",
    tests="a few fixed slots and entity lists",
    files=[ENGINE, "src/slot_utils.rs"],
    mechanism=[("resolve_slots", ENGINE), ("resolve_builtin_slot", "src/slot_utils.rs"), ("resolve_custom_slot", "src/slot_utils.rs")],
    observe=["slots of the parsing result"],
    harnesses=[
        h("c17_builtin", "2 slots, arbitrary range in 0..11, 0..2 entities of 2 kinds with arbitrary ranges in the text, 0..2 in the slot's text"),
        h("c17_fresh", "1 builtin slot, the same text asked for twice, with any value at either time"),
        h("c17_custom", "2 slots of 2 custom entities, arbitrary range in 0..11, 0..2 entities with arbitrary ranges in the text, 0..2 of 1..3 characters in the slot's text; open and closed entity"),
        h("c17_mixed", "3 slots of any of 2 builtin and 2 custom entities, each found in the text, in its value only or nowhere; open and closed entities"),
        h("c17_many", "12 slots (thorough: 40) after 0 or 250 (thorough: 70000) characters of 2 bytes, one of 4 without its entity, up to 20 alternatives; builtin or custom"),
    ],
    outside="other combinations of more than 3 slots or entities",
)
prop(
    "C18",
    title="Extracting one slot returns a value of that slot's entity, faithful to the text",
    statement="Asking for one slot of one intent fails for an intent or a slot the model does not have, and otherwise only looks for "
              "values of that slot's entity: the first builtin value or the last custom value found, else the whole text if the "
              "custom entity is open, else nothing. The raw value returned always is the text found at the returned range, and the "
              "value and its alternatives (as many as asked for) are what the entity parsers know at the time of the request.",
    over=["inputs", "configurations"],
    quantifier="every intent and slot name, every list of values found in the text",
    tests="mocked entity parsers on a few lower-case sentences",
    files=[ENGINE],
    mechanism=[("extract_slot_with_alternatives", ENGINE), ("extract_custom_slot", ENGINE), ("extract_builtin_slot", ENGINE)],
    observe=["result of extract_slot"],
    harnesses=[
        h("c18_unknown", "intent and slot names of 0..2 characters (letters of either case, space), 2 intents with 3 slots; text of 0..2 characters (thorough: 0..3), spaces and accented capitals included"),
        h("c18_fresh", "1 builtin slot, the same text asked for twice, with any value at either time"),
        h("c18_extract", "0..2 values with 0..2 alternatives at 2 places of a mixed-case accented text; custom open, custom closed and builtin entity"),
    ],
    outside="other texts",
)

DET = "src/intent_parser/deterministic_intent_parser.rs"
LOOKUP = "src/intent_parser/lookup_intent_parser.rs"
prop(
    "C01",
    title="The deterministic parser takes built utterances apart again",
    statement="A text that is a training pattern filled with values - literal values or entities found in the text, of any length, in "
              "any case, with any spacing - is recognised by the deterministic parser as that intent, and every slot of it is "
              "returned at exactly the place of its value in the text, with the name and entity of its place in the pattern. For "
              "every text whatsoever, slots carry the text found at their range, come in text order and never overlap.",
    over=["inputs"],
    quantifier="every value text and length, every entity place, every spacing and case, any short text with accented and wide characters",
    tests="a dozen fixed sentences on fixed patterns",
    files=[DET, "src/utils.rs", "src/slot_utils.rs", "src/slot_filler/utils.rs"],
    mechanism=[("get_intent_slots / extract_slots", DET), ("get_range_shift", DET), ("replace_entities", "src/utils.rs"), ("deduplicate_overlapping_slots", DET)],
    observe=["result of DeterministicIntentParser::parse and get_slots"],
    harnesses=[
        h("c01_structure", "one pattern with 3 or 4 slots (custom entity, literal or second custom entity, number, optional literal), with entities of types the intent does not use; entity of 1..4 characters (thorough: 6) of 1 or 2 bytes or two words, number of 1..2 digits, 2 or 3 separators, any case of the first letter, shorter overlapping entity, 2 hash orders"),
        h("c01_literal", "a pattern of plain words and values, any case of a letter, 3 values, 2 separators, 0..1 entity (thorough: 2) of 1..5 characters found anywhere"),
        h("c01_free", "any text of 1..5 characters (thorough: 6) over a-c, space, é, 日; no entity or an entity at any place; 2 patterns", timeout=200),
        h("c01_overlap", "any text of 3 characters (thorough: 4) over a-d and space; 2 patterns with nested groups"),
        h("c01_many", "a pattern of 12 slots (thorough: 25) after 0 or 300 spaces, with values shorter than, as long as and longer than a placeholder, one of 4 given as a literal"),
    ],
    outside="more than 3 slots, longer texts, regular-expression syntax the training does not emit (the regex crate is a stand-in)",
)
prop(
    "C07",
    title="Deterministic parser: ambiguous intents share the confidence, fewest slots win",
    statement="The confidence the deterministic parser gives an intent is its share of all matching intents, each weighing "
              "1/(1+slots of its first pattern that matches); intents that do not match get none and confidences of a text that matches add up to "
              "one. The intent with more than half is returned, else none; filters restrict the candidates, and the slots of one "
              "intent do not depend on the others.",
    over=["inputs", "configurations"],
    quantifier="every subset of matching intents reachable by a letter, every filter, in any hash order",
    tests="two fixed ambiguous sentences",
    files=[DET],
    mechanism=[("parse_top_intents", DET), ("get_intents", DET)],
    observe=["results of parse, get_intents and get_slots"],
    harnesses=[
        h("c07_ambiguity", "6 intents with 0..4 slots, any subset of matches reachable by one symbolic letter, 5 filters, 2 hash orders"),
        h("c07_order", "2 intents, one with 3 patterns in any order, any of which match; any case; an entity found or not; 2 hash orders"),
        h("c07_shares", "5 intents that all match, of any of 6 (thorough: 9) numbers of slots in 0..8; 2 hash orders"),
        h("c07_many", "40 intents (thorough: 100) of 11 patterns, any of 3 and one of 2 more match; 2 hash orders"),
    ],
    outside="more than 4 intents",
)
prop(
    "C13",
    title="Stop words are skipped, except those an intent keeps, and never move slots",
    statement="With stop words enabled, a text with stop words inserted at any place, in any case and with or without diacritics, is "
              "matched like the text without them; a stop word that an intent keeps is not skipped for that intent, whatever other "
              "intents do; other words are never skipped; and slots keep their places in the original text. Disabled, nothing is skipped.",
    over=["inputs", "configurations"],
    quantifier="every combination of inserted words at every place, enabled or not, for intents that keep some or none",
    tests="a few fixed sentences",
    files=[DET, LOOKUP],
    mechanism=[("preprocess_text", DET), ("preprocess_text", LOOKUP), ("get_intent_stop_words", LOOKUP), ("get_candidates", LOOKUP)],
    observe=["results of parse and get_slots"],
    harnesses=[
        h("c13_stop_words", "deterministic parser: up to 4 insertions of 4 words, 2 separators, any case of a letter, 4 intents with different kept words (some, none, all)"),
        h("c13_lookup_stop_words", "lookup parser: up to 3 insertions of 4 words, 3 intents with different kept words (some, none, all), 3 filters"),
        h("c13_many", "deterministic parser: all of 60 stop words (thorough: 100) in a text around a word, one of 3 kept by an intent, present or not"),
    ],
    outside="more words; stop words inside entity values",
)
prop(
    "C14",
    title="The lookup parser finds exactly the utterances of its table",
    statement="A text is recognised by the lookup parser if and only if, with entities of the intent's own scope replaced by "
              "placeholders and case, spacing and punctuation-free tokens normalised, it is an utterance of the table; each slot then "
              "has the place, name and entity of its position. Confidences are shares weighing 1/(1+slots), ambiguity yields no "
              "intent, filters bound what is returned, and no text makes the parser fail.",
    over=["inputs", "configurations"],
    quantifier="every value, spacing, case, entity place and short text, every subset of matching intents, in any hash order",
    tests="a dozen fixed sentences on a fixed table",
    files=[LOOKUP, "src/utils.rs"],
    mechanism=[("get_candidates", LOOKUP), ("parse_map_output", LOOKUP), ("parse_top_intents", LOOKUP), ("replace_entities", "src/utils.rs")],
    observe=["results of parse, get_intents and get_slots"],
    harnesses=[
        h("c14_structure", "one utterance with 3 slots; entity of 1..3 characters (thorough: 5) of 1 or 2 bytes, number of 1 or 2 digits, 2 separators, case, shorter overlapping entity, 3 filters, 2 hash orders"),
        h("c14_free", "any text of 0..4 characters (thorough: 5) over a, b, B, space, !, é, É; no entity or an entity at any place; 4 utterances of 2 intents"),
        h("c14_subsets", "1..4 entity values in the text (thorough: 5), any subset of them an entity in the utterance, the others plain words of it; an optional second utterance with any other subset"),
        h("c14_ambiguity", "3 intents in 3 entity scopes, any subset of matches, 4 filters, 2 hash orders"),
        h("c14_literal_placeholder", "any text of 3 characters over %, d-f and space"),
        h("c14_shares", "5 intents that all match, of any of 3 (thorough: 5) numbers of slots in 0..5; 2 hash orders"),
        h("c14_many", "150 utterances (thorough: 300) of as many intents and twice as many slots, 6 asked for; entity of 1 or 40 characters of 2 bytes"),
    ],
    outside="more than 3 slots, longer texts; 32-bit hash collisions between utterances",
)

CLF = "src/intent_classifier/log_reg_intent_classifier.rs"
LOGREG = "src/intent_classifier/logreg.rs"
FEAT = "src/intent_classifier/featurizer.rs"
prop(
    "C08",
    title="The intent classifier ranks the allowed intents by their probability",
    statement="The probability of an intent is the logistic function of its own linear score (for two classes, its complement too), "
              "and the classifier lists every intent of the model once, by decreasing probability; the intent returned is the most "
              "probable one the filter allows, the empty intent being always allowed, so an excluded intent is never returned, "
              "whatever the model (trained or not, any number of intents) and the text (empty or unknown included).",
    over=["inputs", "configurations"],
    quantifier="every model weight from a range, every feature vector, text of known and unknown words, model shape and filter",
    tests="one fixed model and text; the binary and multiclass runs on one matrix",
    files=[CLF, LOGREG],
    mechanism=[("get_intent / get_intents / get_intents_probabilities", CLF), ("MulticlassLogisticRegression::run", LOGREG)],
    observe=["results of get_intent and get_intents", "result of MulticlassLogisticRegression::run"],
    harnesses=[
        h("c08_logreg", "1..2 features and 1..2 classes (thorough: 1..3), each weight either of 2 halves (or 150 or -150), features 0..2"),
        h("c08_sizes", "1, 2, 3, 5, 9, 20 or 70 classes x 0, 1, 2, 7, 20 or 130 features, one feature less or more, with fixed weights; up to two features of 1 or 2 at the first, middle or last place"),
        h("c08_classifier", "6 model shapes (4, 3, 2, 1 and 0 intents, trained or not), any text of 1 or 2 known or unknown words, blank or empty, 5 filters"),
        h("c08_many", "300 intents (thorough: 500), any of 3 the empty intent, with 0, 1, half, all but one or all of the best left out"),
    ],
    outside="other weights (of finitely many scores, the path of each decides), larger models, the last digits (absolute tolerance 1e-6)",
)
CRFU = "src/slot_filler/crf_utils.rs"
FILL = "src/slot_filler/crf_slot_filler.rs"
prop(
    "C09",
    title="Token tags and slots correspond exactly in every tagging scheme",
    statement="Each maximal run of tagged tokens, split where the tagging scheme says a slot begins or ends, becomes exactly one slot "
              "from its first to its last token, with the name of its tags, that name's entity and the text at its place; untagged "
              "tokens never belong to a slot. Slots turned into tags come back unchanged (as adjacent slots do in BIO and BILOU). "
              "The slot filler tags every token of the text, reports undecodable tags and unknown slots, and scores a tagging by "
              "the tagger's probability of it, unknown tags replaced by known ones.",
    over=["inputs"],
    quantifier="every tag sequence valid or not, scheme, and text with accented, wide and combining characters",
    tests="a table of fixed tag sequences over single-byte tokens",
    files=[CRFU, FILL],
    mechanism=[("tags_to_slots / _tags_to_slots", CRFU), ("get_scheme_prefix", CRFU), ("get_slots / get_sequence_probability", FILL), ("get_substitution_label", CRFU)],
    observe=["result of tags_to_slots", "result of CRFSlotFiller::get_slots and get_sequence_probability", "tags handed to the tagger"],
    harnesses=[
        h("c09_tags", "0..4 tokens (thorough: 0..5) of 1 or 2 characters, each with any of O and 4 prefixes x 2 names (the scheme's own prefixes), 3 schemes"),
        h("c09_roundtrip", "1..4 tokens (thorough: 5), every segmentation into slots of 1..3 tokens, 3 schemes"),
        h("c09_filler", "0..3 tokens (thorough: 0..4), any tags, tagger that fails, unknown slot, untrained model"),
        h("c09_probability", "1..3 tokens, any of 5 tags each, 2 label sets, trained or not"),
        h("c09_many", "300 tokens (thorough: 600), slots of 1, 2, 150, 256 or all tokens, 3 schemes"),
    ],
    outside="longer texts; which of several names a run of differently named tags gets",
)
FEATS = "src/slot_filler/features.rs"
FUTIL = "src/slot_filler/feature_processor.rs"
prop(
    "C10",
    title="The tagger's features are those the model was trained with",
    statement="The features given to the tagger for a token are exactly the configured ones, for the token and for its neighbours at "
              "the configured offsets inside the text: digits, length, first, last, n-grams and shapes, prefixes and suffixes by "
              "characters, stems, rare words, word clusters, and the tags of the entities found at the token's place - custom ones in the "
              "normalised or stemmed words, builtin ones in the text - whatever characters and separators the text has.",
    over=["inputs", "configurations"],
    quantifier="every short text with accents, capitals and digits, every entity place, offset and option",
    tests="each feature on one fixed list of tokens",
    files=[FEATS, FUTIL, "src/slot_filler/features_utils.rs", CRFU],
    mechanism=[("compute", FEATS), ("compute_features", FUTIL), ("transform_tokens", FEATS), ("initial_string_from_tokens / get_word_chunk", "src/slot_filler/features_utils.rs"), ("get_scheme_prefix", CRFU)],
    observe=["result of CRFSlotFiller::compute_features", "text handed to the entity parsers", "result of get_word_chunk"],
    harnesses=[
        h("c10_words", "any text of 1..3 characters (thorough: 1..4) over a, b, B, é, 5 and space; 11 features with 2 offsets; stemming and common words on or off"),
        h("c10_entities", "a 4-word text with accents and wide characters, one custom and one builtin entity at any range, 3 schemes, stemming on or off"),
        h("c10_entity_lists", "4 words; the parser's answer holds 1..2 entities at any ranges, in any order, of either of 2 custom or builtin entities; stemming or not"),
        h("c10_chunks", "any word of 0..4 characters over a-z and à-ÿ, any size and start in 0..6, both directions"),
        h("c10_many", "300 tokens, one of 3 of them of 255..300 characters; 4 features at offsets up to 300 in either direction"),
    ],
    outside="longer texts and n-grams; get_shape itself (a plain table of character classes)",
)
CEP = "src/entity_parser/custom_entity_parser.rs"
BEP = "src/entity_parser/builtin_entity_parser.rs"
prop(
    "C11",
    title="Entities are placed where they stand in the text as typed",
    statement="The custom entity parser looks for entities in the lower-cased words of the text, one space apart, and puts every match "
              "back at the place of its words in the text as typed, whatever separators, symbols and characters the text has; the "
              "builtin one looks in the lower-cased text. No lower-casing moves anything: entity ranges count the characters of the "
              "text itself. The request's filter and number of alternatives are passed on.",
    over=["inputs"],
    quantifier="every short text of letters, symbols, repeated separators and characters that change length in lower case; every match",
    tests="two fixed ASCII sentences",
    files=[CEP, BEP, "src/entity_parser/utils.rs"],
    mechanism=[("compute_char_shifts", CEP), ("_extract_entities", CEP), ("extract_entities", BEP)],
    observe=["result of extract_entities", "text handed to the gazetteer and builtin parsers"],
    harnesses=[
        h("c11_custom", "any text of 0..5 characters (thorough: 0..6) over a-c, space, !, À-Ö, after an optional İ; every run of tokens as the match"),
        h("c11_builtin", "any text of 1..3 characters (thorough: 1..4) over a-c, space, À-Ö, İ; any range of it as the entity; cached or not"),
        h("c11_many", "texts of 300 words (thorough: 3000), the first 0, 1 or 256 of which grow in lower case; entities of up to all of them"),
    ],
    outside="longer texts",
)
prop(
    "C12",
    title="Entity parser caches never change an answer",
    statement="For every sequence of requests the entity parsers answer each as the underlying parser would answer it alone: a cached "
              "answer is only reused for the same lower-cased text, filter and number of alternatives, an error is reported and "
              "never remembered, evicted answers are recomputed, and a request that bypasses the cache always consults the parser.",
    over=["histories", "configurations", "fault_sequences"],
    quantifier="every sequence of requests, cache size and failing call",
    tests="three requests in one order",
    files=["src/entity_parser/utils.rs", CEP, BEP],
    mechanism=[("Cache::try_cache", "src/entity_parser/utils.rs"), ("CacheKey", CEP), ("CacheKey", BEP)],
    observe=["results of successive extract_entities calls", "number of calls of the underlying parser"],
    harnesses=[
        h("c12_custom_cache", "3 requests (thorough: 4), each any of 4 texts x 3 filters (thorough: 4) x 2 alternatives (thorough: 3); cache of 1 or 2; one failing call"),
        h("c12_builtin_cache", "3 requests (thorough: 4), any 2 of 3 texts (thorough: 5) with spaces and capitals x 5 filters x 2 alternatives, then those again; cached or not; cache of 1 or 2; one failing call"),
        h("c12_many", "300 texts (thorough: 1200) asked for twice with other alternatives; caches of 1, 255, 256, 300 and 100000 answers"),
    ],
    outside="longer histories, concurrent requests (the cache is behind one mutex)",
)
prop(
    "C15",
    title="TF-IDF features are the weighted counts of words, entities and clusters",
    statement="The TF-IDF features of a text have one entry per vocabulary entry, which is the number of its occurrences - as a "
              "normalised (or stemmed) word, an entity found in the text, or a word cluster of one or several raw words - times "
              "its inverse document frequency, divided by the Euclidean norm of all entries; and all entries are zero when nothing is known.",
    over=["inputs", "configurations"],
    quantifier="every short text, number of entities, stemming and clustering option, in any hash order",
    tests="two fixed sentences",
    files=[FEAT],
    mechanism=[("TfidfVectorizer::transform", FEAT), ("get_word_clusters", FEAT)],
    observe=["result of TfidfVectorizer::transform", "text handed to the entity parsers"],
    harnesses=[
        h("c15_tfidf", "any text of 4 characters (thorough: 5) over a, b, B, é, space, or 3 words (thorough: 4) of a, b or é; 0..2 numbers, 0..1 custom entities (thorough: 0..2); 8 vocabulary entries; stemming, clusters, 2 hash orders"),
        h("c15_many", "300 vocabulary entries (thorough: 1000); 1..300 times one of 4 words, with 0..257 others (with clusters: 1..20, 0..4); 0, 256 or 300 builtin entities"),
    ],
    outside="longer texts, larger vocabularies, last digits of the division (relative tolerance)",
)
prop(
    "C16",
    title="Co-occurrence features tell exactly which word pairs occur in the window",
    statement="A co-occurrence feature is one exactly if its two words occur, at most window-size words apart (unlimited if none), in that "
              "order - or in any order unless order is kept - after entities have been replaced by their names, and stop words and "
              "unknown words have been left out when so configured; else it is zero. Each feature stands at its pair's index, after "
              "the TF-IDF features.",
    over=["inputs", "configurations"],
    quantifier="every sequence of words, window, entity place and option, in any hash order",
    tests="three fixed sentences",
    files=[FEAT],
    mechanism=[("CooccurrenceVectorizer::transform", FEAT), ("extract_word_pairs", FEAT), ("Featurizer::transform", FEAT)],
    observe=["result of Featurizer::transform"],
    harnesses=[
        h("c16_cooccurrence", "4 words (thorough: 5), each any of 5 letters; windows 0..2 and none; one custom or builtin entity at any word or none; stop words, unknown words and order options; 2 hash orders"),
        h("c16_many", "300 words (thorough: 600), 16 pairs of the first and another; 6 windows and none"),
    ],
    outside="longer texts, entities of several words",
)

INJ = "src/injection/injection.rs"
prop(
    "C20",
    title="Injection adds exactly the given values, or changes nothing",
    statement="A successful injection puts the lower-cased values - stemmed, or both, as the engine's custom entity parser expects - before "
              "the entity's previous injected values (or instead of them, from vanilla), each with the value as given as its "
              "resolved value, and touches no other entity. An injection for an entity that is unknown, grammar-based or absent from the "
              "model is refused as a whole, and an entity whose new parser cannot be written keeps its values.",
    over=["inputs", "configurations", "histories", "fault_sequences"],
    quantifier="every short value, entity kind, parser usage, history of injections, refused entity, invalid metadata and failing write",
    tests="one injection of two values from vanilla (which does not run here)",
    files=[INJ],
    mechanism=[("NluInjector::inject", INJ), ("stem_entity_value", INJ), ("get_entity_parsers_dirs", INJ), ("replace_parser", INJ)],
    observe=["values in the gazetteer parsers of the engine directory", "files beside them", "result of inject"],
    harnesses=[
        h("c20_values", "1..2 values of 1..2 characters (thorough: also two words) over A-D, a-d, É-Ê; custom and/or builtin gazetteer entity; 3 parser usages; own or given resources; from vanilla or not; 2 hash orders"),
        h("c20_history", "3 successive injections (thorough: 4) of a value of one letter out of 3, for 2 entities, from vanilla or not, 2 parser usages"),
        h("c20_refused", "8 entities (custom, builtin gazetteer, grammar, unknown, missing from metadata), alone or with an injectable one; stemmer and builtin gazetteer parser present or not; 3 kinds of invalid metadata; 2 hash orders"),
        h("c20_failing", "1..2 entities, the first or second dump fails; 2 hash orders"),
        h("c20_many", "300 values (thorough: 1000), then one of 300 characters; 2 entities, 3 parser usages"),
    ],
    outside="crashes in the middle of an injection, other input/output errors, the gazetteer parser itself (stand-in)",
)

RES = "src/resources/"
prop(
    "C19",
    title="A model is loaded whole or refused with an error, never half or by a panic",
    statement="Loading an engine succeeds for a complete model of the supported version and fails with an error when a file is missing or "
              "cut, when the version is another one (which the error tells), when a processing unit is not of a kind that belongs in its place, or when the "
              "tagging scheme is unknown; whatever byte of a model file is wrong, loading never panics. The intent parsers "
              "are tried in the order the model lists them.",
    over=["inputs", "configurations", "fault_sequences"],
    quantifier="every version string, unit name, tagging scheme, missing or cut file and single corrupted byte",
    tests="one complete model and one wrong version (which do not run here)",
    files=[ENGINE, "src/intent_parser/mod.rs", "src/intent_classifier/mod.rs", "src/slot_filler/mod.rs", RES + "loading.rs"],
    mechanism=[("SnipsNluEngine::from_path", ENGINE), ("check_model_version", ENGINE), ("build_intent_parser", "src/intent_parser/mod.rs"),
               ("build_slot_filler", "src/slot_filler/mod.rs"), ("load_shared_resources", RES + "loading.rs")],
    observe=["result of SnipsNluEngine::from_path", "which parser answers"],
    harnesses=[
        h("c19_version", "version of 0..6 characters, any of ASCII 32..126 but quote and backslash, e-acute, e-circumflex, or 7 (thorough: 7..9) of '#'..'[' (thorough: and ' ', '!'), with or without the fields of this version"),
        h("c19_units", "5 places x 5 unit names with 2 characters of any value '_'..'z' in the place of 2 of theirs at places 0, 7, 14 (parsers inside folders: only 0; thorough: all places), or one character less"),
        h("c19_unit_names", "name of 0..32 characters (thorough: 0..40), any of 'A'..'~' each, under the key unit_name or one of 8..10 such characters"),
        h("c19_fields", "each of 73 fields of 14 JSON files missing, null or preceded by an unknown field"),
        h("c19_resources", "each of 4 kinds of resources absent, null or named; each of their files missing; with and without language"),
        h("c19_scheme", "tagging schemes of 1..3 digits"),
        h("c19_path", "folders whose name ends with any byte from 0x7d to 0x82 (thorough: any but 0 and '/'), with an engine, an engine of another version, or none"),
        h("c19_files", "each of 21 files missing, each of 14 JSON files cut at 4 places (thorough: at every place); 2 orders of 3 parsers"),
        h("c19_corrupted", "each byte of 14 JSON files that is no letter (thorough: each byte) takes every other value", timeout=400, deep_timeout=2400),
    ],
    outside="several corrupted bytes, the binary models of the unavailable packages (stand-ins), reading errors other than missing files",
)
prop(
    "C21",
    title="An engine archive is unpacked whole, and only below the given folder",
    statement="Unpacking an engine archive writes exactly its entries and only below the destination, whatever the names of its entries, and "
              "gives the first folder of the archive; an archive without one, or with an entry that cannot be written, is refused with "
              "an error. An engine loaded from an archive loads and parses exactly as from its folder, and leaves no temporary "
              "folder behind.",
    over=["inputs", "configurations", "fault_sequences"],
    quantifier="every pair of entry names (climbing, absolute, with both separators, empty, clashing) and every missing file of the engine inside",
    tests="one well-formed archive (which does not run here)",
    files=["src/utils.rs", ENGINE],
    mechanism=[("extract_nlu_engine_zip_archive", "src/utils.rs"), ("SnipsNluEngine::from_zip", ENGINE)],
    observe=["files under and beside the destination", "result of from_zip", "temporary folder"],
    harnesses=[
        h("c21_unpack", "1..2 entries with names of 0..5 and 0..3 characters (thorough: 0..6 and 0..5) over . / a and backslash, or absolute names"),
        h("c21_engine", "archives of 3 engines, whole, or without any one of 21 files, or with any other first byte; then any text of 3 characters out of 8"),
        h("c21_many", "300 entries (thorough: 1000) of up to 70000 bytes in folders 1 or 40 deep"),
    ],
    outside="the zip format itself (stand-in), links, full disks",
)
prop(
    "C22",
    title="The C interface answers exactly as the engine does and reports every failure",
    statement="Every request made through the C interface or the symbols of the Python wrapper, as a value or as JSON, with or without "
              "filters (NULL for none, or empty with or without data) and numbers of alternatives, gets exactly the answer the engine gives "
              "for the same arguments; one that the engine refuses, whose engine, text or name (of an intent, or within a filter) is NULL or "
              "not UTF-8, whose filter has no data or a negative size, or whose engine cannot be loaded, fails, sets the last error, gives no "
              "result and leaves the engine as it was. Results and engines can be given back once each, in any order, and nothing is left of them.",
    over=["inputs", "configurations", "fault_sequences"],
    quantifier="every short text, filter, number of alternatives, intent name, invalid byte, NULL argument of every call, and model version",
    tests="none (the C interface has no tests)",
    files=["ffi/src/lib.rs", "platforms/python/ffi/src/lib.rs"],
    mechanism=[("run_parse_with_alternatives", "ffi/src/lib.rs"), ("run_get_slots_into_json", "ffi/src/lib.rs"),
               ("convert_to_rust_vec", "ffi/src/lib.rs"), ("create_from_zip", "ffi/src/lib.rs")],
    observe=["return code, result pointers and last error of every call of the C interface", "number of C results alive"],
    harnesses=[
        h("c22_requests", "4 calls, and the 2 of the Python wrapper; any text of 0..2 characters (thorough: 0..3) over a-c, B, e-acute, space, or an ambiguous word; whitelist and blacklist NULL, empty without data, or of 1 name (thorough: 1..2) out of 3; 0..2 or 65536 alternative intents, 0..2 or 4294967295 alternative values"),
        h("c22_slots", "6 calls, and the 3 of the Python wrapper; any such text; intent name of 0..1 letters out of 3; 0..2 or 4294967295 alternative values"),
        h("c22_failures", "15 calls (5 of the Python wrapper); NULL engine, NULL or any non-ASCII byte as text, intent name or name in a filter, filter without data of any size, filter of any negative size; then a good call"),
        h("c22_loading", "folder, file, absent folder or archive (whole, one byte short, or NULL of any size), through the C interface or the Python wrapper's; model version with any one character changed; then any text of 1 letter out of 3"),
    ],
    outside="the conversions of the unavailable ffi packages (stand-ins), dangling pointers, NULL as the place of a result, the Kotlin, Swift and Python code of the wrappers",
)
prop(
    "C23",
    title="Stems, stop words, gazetteers and clusters say exactly what their files say",
    statement="The stem of a word is that of the last line of the stems file that lists its normalised form, or the word itself if none does; "
              "a word is a stop word, or in a gazetteer, exactly if it is a line of the file; and the cluster of a word is the label its "
              "last line gives, as written, whether or not labels are numbers. A clusters file with a line without a label is "
              "refused with an error.",
    over=["inputs", "configurations"],
    quantifier="every small file (blank lines, repeated words, both kinds of line ends, labels of any digits) and query",
    tests="three fixed files with three words each",
    files=[RES + "stemmer.rs", RES + "gazetteer.rs", RES + "word_clusterer.rs", RES + "loading.rs"],
    mechanism=[("HashMapStemmer", RES + "stemmer.rs"), ("HashSetGazetteer", RES + "gazetteer.rs"), ("HashMapWordClusterer", RES + "word_clusterer.rs"),
               ("load_shared_resources", RES + "loading.rs")],
    observe=["stem, contains and get_cluster of loaded resources"],
    harnesses=[
        h("c23_stemmer", "2 lines (thorough: 3) of a stem and 1..2 words; word and query of one character over a-c, A-C, quote, e-acute; line ends, blank first line"),
        h("c23_words", "0..2 lines (thorough: 0..3) of 0..2 characters over a-c, quote, e-acute; line ends; any query of 0..2 characters"),
        h("c23_clusters", "1..2 lines (thorough: 1..3), word of one character, label of 1..2 (thorough: 1..3) characters over 0-9, +, x, y, or (on the first line) a number of 4..6 digits; malformed lines; any query"),
        h("c23_many", "files of 300 lines (thorough: 3000), a line of 300 words (thorough: 3000), a line of 70000 characters; 6 words asked for"),
    ],
    outside="longer words and files, collisions of the 32-bit word hashes, quoting rules of the unavailable csv package (stand-in)",
)
PROBA = "src/intent_parser/probabilistic_intent_parser.rs"
prop(
    "C24",
    title="The probabilistic parser answers with its classifier's intent and its slots",
    statement="The probabilistic intent parser returns the intent and confidence its classifier gives for the text and the intents allowed, with "
              "the slots the slot filler of that very intent finds in the text, and no slots without an intent. Its intents are those of the "
              "classifier, and the slots of an intent are those of its slot filler; slots of an intent without a slot filler are an error.",
    over=["inputs", "configurations"],
    quantifier="every short text, tag sequence, filter and order of the slot fillers in the model",
    tests="one mocked classifier and two mocked slot fillers",
    files=[PROBA],
    mechanism=[("ProbabilisticIntentParser::parse", PROBA), ("ProbabilisticIntentParser::get_slots", PROBA), ("ProbabilisticIntentParser::get_intents", PROBA)],
    observe=["results of parse, get_intents and get_slots"],
    harnesses=[h("c24_probabilistic", "0..2 words (thorough: 0..3) of one letter a-d, plain, with spaces around, capitals or an accent; 3 tags (thorough: 4) per word; 4 filters; 2 orders of 2 slot fillers of 3 intents; asked intent A-D; 2 hash orders")],
    outside="longer texts, more intents; the CRF itself (any tags: stand-in)",
)
prop(
    "C25",
    title="Entities give way to placeholders whose ranges lead back to them",
    statement="Replacing the entities of a text by placeholders keeps, among overlapping entities, the longest (the first given on a tie), and "
              "replaces exactly the characters of the kept ones; the range of each placeholder in the new text, and no other range, is "
              "mapped to the range of its entity in the original text, at any offset in a text of any length.",
    over=["inputs"],
    quantifier="every short text with multi-byte characters, up to two entities at any place, at small and large offsets",
    tests="two fixed sentences of short ASCII text",
    files=["src/utils.rs"],
    mechanism=[("replace_entities", "src/utils.rs"), ("deduplicate_overlapping_entities", "src/utils.rs")],
    observe=["range mapping and text returned by replace_entities"],
    harnesses=[h("c25_placeholders", "text of 6 characters (thorough: 7) over a-c, e-acute; 0..2 entities (thorough: 0..3) of 1..3 characters anywhere, overlapping or not; after 0 or 1 characters; 3 such entities in 5 (thorough: 6) fixed characters; and 0..2 entities in 3 fixed characters after 32757, 32766, 40000 (thorough: 65534) characters")],
    outside="longer entities and names",
)

prop(
    "C26",
    title="A request ends with an answer or an error, whatever the model says",
    statement="Whatever the content of the model files of an engine that was loaded - numbers of any size, names that do not exist, lists that "
              "are empty or of other lengths, weights too large to add up - every parse, intents and slots request ends with an answer or "
              "an error, never with a panic. Every intent and slot of an answer is one of the model, and every confidence is in [0, 1].",
    over=["configurations", "inputs"],
    quantifier="every value in the files of the intent parsers, the classifier, the vectorizers and the slot filler of a model replaced by another of its type",
    tests="models of the tests are all consistent",
    files=["src/intent_classifier/featurizer.rs", "src/intent_classifier/log_reg_intent_classifier.rs", "src/intent_parser/lookup_intent_parser.rs",
           "src/slot_filler/features.rs", "src/slot_filler/feature_processor.rs", ENGINE],
    mechanism=[
        ("TfidfVectorizer::new", "src/intent_classifier/featurizer.rs"),
        ("CooccurrenceVectorizer::new", "src/intent_classifier/featurizer.rs"),
        ("LookupIntentParser::new", "src/intent_parser/lookup_intent_parser.rs"),
        ("compute_features", "src/slot_filler/feature_processor.rs"),
        ("parse_with_alternatives", ENGINE),
    ],
    observe=["panics, overflows and memory faults of requests", "intents, slots and confidences of answers"],
    harnesses=[
        h("c26_requests", "an engine with one deterministic, lookup or probabilistic parser which use all that a model can hold; any one value of any of its files replaced: numbers by 14 others, strings by 6, lists emptied, shortened or lengthened, objects emptied, shortened or with another key; parse (with a filter or not), intents and slots of 5 texts; 2 hash orders"),
        h("c26_lookup_ids", "a lookup table with 0..2 intents and 0..2 slots and any ids around 0 and around the ends of 32 and 64 bits"),
        h("c26_vectorizers", "0..2 words with any indices around 0 and around the ends of 32 and 64 bits, 0..2 weights"),
        h("c26_window", "any co-occurrence window around 0 and around the ends of 32 and 64 bits"),
        h("c26_features", "n-grams, shapes, prefixes and suffixes of any size around 0 and around the ends of 32 and 64 bits, 3 tokens"),
        h("c26_offsets", "any feature offset around 0 and around the ends of 32 and 64 bits, 3 tokens"),
    ],
    outside="several wrong values at once; wrong values in the resources, in entity parsers and in CRF models (which the environment stands for)",
)

HOOK_COMMITS = ["e1c968a"]

prop(
    "C02",
    title="Requests do not influence one another, whatever order or threads they run in",
    statement="An engine may be used by several threads at once: every request gets the answer it gets from an engine of its own "
              "that has answered nothing else, whatever was asked before and whatever is asked at the same time, and no request "
              "waits for ever. The same holds for its slot fillers (whose tagger answers about the items set last) and for the "
              "caching entity parsers, which are shared by all parts of the engine.",
    over=["schedules", "histories", "inputs"],
    quantifier="every interleaving of two threads at the points where locks are taken or given back and where the environment is called, with a bounded number of preemptions, for every pair of requests",
    tests="no test uses two threads, or compares the answers of two engines",
    files=["src/slot_filler/crf_slot_filler.rs", "src/entity_parser/builtin_entity_parser.rs", "src/entity_parser/custom_entity_parser.rs", ENGINE],
    mechanism=[
        ("get_slots", "src/slot_filler/crf_slot_filler.rs"),
        ("get_sequence_probability", "src/slot_filler/crf_slot_filler.rs"),
        ("extract_entities", "src/entity_parser/builtin_entity_parser.rs"),
        ("extract_entities", "src/entity_parser/custom_entity_parser.rs"),
        ("parse_with_alternatives", ENGINE),
    ],
    observe=["answers of both threads", "answer of the first request asked again afterwards", "threads that wait for ever"],
    harnesses=[
        h("c02_filler", "2 threads with one request each (slots of one of 3 texts, or probability of one of 2 taggings of it), at most 2 preemptions (thorough: 4)"),
        h("c02_entities", "2 threads with 1..2 requests each (thorough: 2..3) of 2 texts and 2 filters to a builtin or custom parser with a cache of 1..2 answers, at most 2 preemptions (thorough: 3)", deep_timeout=700),
        h("c02_engine", "2 threads with one request each (parse, parse with a filter and alternatives, slots, intents; 3 texts, thorough: 4) to a loaded engine of 2 intent parsers, at most 1 preemption (thorough: 2); then the first request again", deep_timeout=700),
    ],
    outside="more than 2 threads or preemptions; weak memory (the code shares data only through locks); data races inside unsafe code; injection or training at the same time",
)

prop(
    "C27",
    title="All the answers of an engine agree with the text and with one another",
    statement="Whatever parsers an engine is made of and in whatever order, its answer repeats the input as typed, names an intent of the "
              "model that the filter allows, and only slots of that intent, with their entity, that stand in the text where they say, in "
              "order and without overlap. The list of intents has every intent and the empty one once, ranked, with confidences in "
              "[0, 1]; the alternatives are the best of that list that the filter allows, with its confidences and with the slots that "
              "asking for their intent's slots gives. Asking for alternatives changes neither the intent nor its slots.",
    over=["inputs", "configurations"],
    quantifier="every short text, order of parsers, answer of the tagger, filter and number of alternatives",
    tests="whole engines are run on a few fixed sentences, and each request by itself",
    files=[ENGINE, DET, LOOKUP, PROBA, "src/slot_utils.rs"],
    mechanism=[("parse_with_alternatives", ENGINE), ("get_intents", ENGINE), ("get_slots_with_alternatives", ENGINE), ("resolve_slots", ENGINE), ("parse", DET), ("parse", LOOKUP), ("parse", PROBA)],
    observe=["results of parse, parse_with_alternatives, get_intents and get_slots_with_alternatives of an engine loaded from its files"],
    harnesses=[
        h("c27_agreement", "an engine of 1, 2 or 3 parsers in 4 orders; any text of 2 characters (thorough: 3) over b, c, B, 7, e-acute, space, or one of 6 others; 3 taggings; 4 combinations (thorough: 8) of filter and numbers of alternatives", timeout=300, deep_timeout=1200),
    ],
    outside="longer texts; other models",
)
prop(
    "C28",
    title="A model of any supported language is read and asked in that language",
    statement="An engine of each supported language is loaded with the resources of its language, and its parsers, its intent classifier, "
              "its slot fillers, its custom entity parser and the injection of values cut texts into tokens in the language that the "
              "model names, never in another.",
    over=["configurations", "inputs"],
    quantifier="each of the 9 languages, each kind of parser and request",
    tests="the tests' models are all in English",
    files=["src/language.rs", ENGINE, "src/resources/loading.rs", DET, LOOKUP, FEAT, FILL, CEP, INJ],
    mechanism=[("from_language", "src/language.rs"), ("from_path", ENGINE), ("load_engine_shared_resources", "src/resources/loading.rs"), ("inject", INJ)],
    observe=["language given to the tokenizer with every text", "results of loading, parsing and injecting"],
    harnesses=[
        h("c28_languages", "9 languages; engines of 1 parser of 3 kinds, with all resources; 3 texts; parse with alternatives, slots of an intent, and injection with and without stems"),
    ],
    outside="what the tokenizer does in each language (another library); the names of features and placeholders, which are no texts",
)
prop(
    "C29",
    title="An engine answers the same whatever the order of its hash maps",
    statement="The hash maps of an engine list their entries in another order in every process. Of two engines loaded from the same "
              "files, each answers each request - parsing, with filters and alternatives, the intents and their confidences, the slots "
              "of an intent, a single slot - as the other does; only intents of equal confidence may come in another order in a list.",
    over=["inputs", "schedules"],
    quantifier="every short text, engines of several parsers, four orders of all hash maps",
    tests="each test runs in one random order",
    files=[ENGINE, DET, LOOKUP, FEAT, FILL, "src/utils.rs"],
    mechanism=[("get_intents", ENGINE), ("parse_top_intents", DET), ("parse_top_intents", LOOKUP)],
    observe=["answers of two engines loaded with hash maps in other orders"],
    harnesses=[
        h("c29_order", "engines of 1..3 parsers in 4 orders; any text of 2 characters (thorough: 3) over b, c, B, 7 and space, and 5 longer ones; 2 taggings; 2 filters (thorough: 3); intents that tie or not; all hash maps ascending, and descending or in turn ascending and descending", timeout=300, deep_timeout=1200),
    ],
    outside="other orders; which of several intents of equal confidence are among fewer alternatives than there are",
)
