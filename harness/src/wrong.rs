//! Models whose files are well-formed but say something that makes no sense.
use crate::env::*;
use crate::lib::verif_hooks::*;
use crate::lib::{FeatureFactory, IntentParser, LookupIntentParser, SnipsNluEngine, TfidfVectorizerModel};
use crate::model::*;
use crate::rt::*;
use serde_json::{json, Value};
use snips_nlu_ontology::*;
use snips_nlu_parsers::{env as pe, GazetteerEntityMatch};
use snips_nlu_utils::language::Language as L;
use snips_nlu_utils::token::tokenize;
use std::sync::Arc;

/// a number a model file can hold: any around zero and around the ends of 32 and 64 bits
fn any_integer(name: &str) -> Value {
    let around = |name: &str, v: i64| v - 4 + any_u64(name, 0, 8) as i64;
    match choose(&format!("{} around", name), 6) {
        0 => json!(around(name, 0)),
        1 => json!(around(name, i32::MIN.into())),
        2 => json!(around(name, i32::MAX.into())),
        3 => json!(around(name, u32::MAX.into())),
        4 => json!(i64::MIN + any_u64(name, 0, 4) as i64),
        _ => json!(u64::MAX - any_u64(name, 0, 4)),
    }
}

/// C26: whatever the ids of a lookup table
pub fn c26_lookup_ids() {
    expect(&["refused", "intent", "no intent", "slots"]);
    choose_map_order();
    let (intents, slots) = (choose("intents", 3), choose("slots", 3));
    let names = |k: usize, v: [&str; 2]| v[..k].iter().map(|s| s.to_string()).collect::<Vec<String>>();
    let h = |t: &str| snips_nlu_utils::string::hash_str_to_i32(t).to_string();
    let mut map = serde_json::Map::new();
    let with_slot = choose_bool("with a slot");
    if with_slot {
        map.insert(h("% e % c"), json!([any_integer("intent"), [any_integer("slot")]]));
    } else {
        map.insert(h("b c"), json!([any_integer("intent"), []]));
    }
    let model = json!({
        "language_code": "en", "slots_names": names(slots, ["n", "s"]), "intents_names": names(intents, ["A", "B"]), "map": map,
        "entity_scopes": [{"intent_group": ["A", "B"], "entity_scope": {"builtin": ["snips/number"], "custom": ["e"]}}],
        "stop_words_whitelist": {}, "config": {}
    });
    let model = match serde_json::from_value(model) {
        Ok(m) => m,
        Err(_) => return check(true, "an id out of range is refused"),
    };
    let parser = match LookupIntentParser::new(model, resources(&NO_RES)) {
        Ok(p) => p,
        Err(_) => {
            cover("refused");
            return check(true, "an id out of range is refused");
        }
    };
    entities();
    for text in ["b c", "1"].iter() {
        match parser.parse(text, None) {
            Ok(r) => {
                cover(if r.intent.intent_name.is_some() { "intent" } else { "no intent" });
                cover_if(!r.slots.is_empty(), "slots");
                let known = |n: &Option<String>| n.as_ref().map_or(true, |n| names(intents, ["A", "B"]).contains(n));
                check(known(&r.intent.intent_name), "an intent of an answer is one of the model");
                check(
                    r.slots.iter().all(|s| names(slots, ["n", "s"]).contains(&s.slot_name)),
                    "a slot of an answer is one of the model",
                );
            }
            Err(_) => check(true, "a request ends with an answer or an error"),
        }
        drop(parser.get_intents(text));
        drop(parser.get_slots(text, "A"));
    }
}

/// C26: whatever the numbers of the vectorizers
pub fn c26_vectorizers() {
    expect(&["refused", "features", "no features"]);
    choose_map_order();
    let shared = resources(&NO_RES);
    entities();
    let weights = [1.0, 2.0][..choose("weights", 3)].to_vec();
    let words = choose("words", 3);
    let mut vocab = serde_json::Map::new();
    for word in ["b", "builtinentityfeaturesnipsnumber"].iter().take(words) {
        vocab.insert(word.to_string(), any_integer(word));
    }
    let model = json!({
        "language_code": "en", "builtin_entity_scope": ["snips/number"],
        "vectorizer": {"idf_diag": weights, "vocab": vocab},
        "config": {"use_stemming": false, "word_clusters_name": null}
    });
    let model: TfidfVectorizerModel = match serde_json::from_value(model) {
        Ok(m) => m,
        Err(_) => return check(true, "a number out of range is refused"),
    };
    match TfidfVectorizer::new(model, shared) {
        Ok(v) => {
            let f = v.transform("b 1 c");
            check(f.is_ok(), "a text has features");
            cover(if f.unwrap().is_empty() { "no features" } else { "features" });
        }
        Err(_) => {
            cover("refused");
            check(true, "an index out of range is refused");
        }
    }
}

/// C26: whatever the window of the pairs of words
pub fn c26_window() {
    expect(&["refused", "pairs", "no pairs"]);
    // any number around zero and around the ends of 32 and 64 bits
    let around = *pick("around", &[("", 1), ("", 2), ("42949672", 2), ("922337203685477580", 1), ("1844674407370955161", 1)]);
    let last = any_text("window", around.1, &[('0', '9')]);
    assume(around.1 == 1 || !around.0.is_empty() || last.as_bytes()[0] != b'0');
    let window = format!("{}{}", around.0, last);
    put("f/featurizer.json", "{\"language_code\":\"en\",\"tfidf_vectorizer\":\"t\",\"cooccurrence_vectorizer\":\"c\"}");
    put(
        "f/t/vectorizer.json",
        "{\"language_code\":\"en\",\"builtin_entity_scope\":[],\"vectorizer\":{\"idf_diag\":[1.0],\"vocab\":{\"zz\":0}},\"config\":{\"use_stemming\":false,\"word_clusters_name\":null}}",
    );
    let config = format!(
        "{{\"window_size\":{},\"filter_stop_words\":true,\"keep_order\":true,\"unknown_words_replacement_string\":null}}",
        window
    );
    put(
        "f/c/vectorizer.json",
        &format!(
            "{{\"language_code\":\"en\",\"builtin_entity_scope\":[\"snips/number\"],\"word_pairs\":{{\"0\":[\"E\",\"c\"],\"1\":[\"SNIPSNUMBER\",\"c\"],\"2\":[\"E\",\"SNIPSNUMBER\"]}},\"config\":{}}}",
            config
        ),
    );
    let featurizer = match Featurizer::from_path(root().join("f"), resources(&NO_RES)) {
        Ok(f) => f,
        Err(_) => {
            cover("refused");
            return check(true, "a window out of range is refused");
        }
    };
    entities();
    let f = featurizer.transform("b 1 d c").unwrap();
    let far = |k: u8| window.len() > 1 || window.as_bytes()[0] - b'0' >= k;
    let is = |x: f32, k: u8| x == if far(k) { 1. } else { 0. };
    check(f.len() == 4, "there is a feature per word and pair of words");
    check(is(f[1], 3) && is(f[2], 2) && is(f[3], 1), "words as far apart as the window are a pair, others are not");
    cover(if f[3] == 1. { "pairs" } else { "no pairs" });
}

/// C26: whatever the numbers of the features of tokens
pub fn c26_features() {
    expect(&["refused", "features", "no features"]);
    let number = any_integer("number");
    let (name, args) = match choose("feature", 4) {
        0 => ("ngram", json!({"n": number, "use_stemming": false, "common_words_gazetteer_name": null})),
        1 => ("shape_ngram", json!({"n": number})),
        2 => ("prefix", json!({"prefix_size": number})),
        _ => ("suffix", json!({"suffix_size": number})),
    };
    let factory: FeatureFactory = serde_json::from_value(json!({"factory_name": name, "offsets": [0], "args": args})).unwrap();
    features(&factory);
}

/// C26: whatever the offset of a feature
pub fn c26_offsets() {
    expect(&["refused", "features", "no features"]);
    let text = json!({"factory_name": "length", "offsets": [any_integer("offset")], "args": {}});
    match serde_json::from_value::<FeatureFactory>(text) {
        Ok(f) => features(&f),
        Err(_) => {
            cover("refused");
            check(true, "an offset out of range is refused")
        }
    }
}

fn features(factory: &FeatureFactory) {
    let p = match ProbabilisticFeatureProcessor::new(std::slice::from_ref(factory), resources(&NO_RES)) {
        Ok(p) => p,
        Err(_) => {
            cover("refused");
            return check(true, "a number out of range is refused");
        }
    };
    let tokens = tokenize("ab é c1", L::EN);
    let f = p.compute_features(&&*tokens);
    check(f.is_ok(), "a text has features");
    let f = f.unwrap();
    check(f.len() == tokens.len(), "there are features for each token");
    cover(if f.iter().any(|f| !f.is_empty()) { "features" } else { "no features" });
}

/// the files of an engine which uses everything a model can have
fn files(parser: &str) -> Vec<(String, Value)> {
    let mut v: Vec<(String, Value)> = vec![];
    for (path, content) in engine_files(crate::lib::MODEL_VERSION, &format!("\"{}\"", parser)) {
        if !path.ends_with(".json") || path.ends_with("/metadata.json") {
            continue;
        }
        let value = match path.as_str() {
            "proba/filler/slot_filler.json" => json!({
                "language_code": "en", "intent": "A", "slot_name_mapping": {"s": "e", "n": "snips/number"},
                "crf_model_file": "model.crfsuite",
                "config": {"tagging_scheme": 2, "feature_factory_configs": [
                    {"factory_name": "ngram", "offsets": [0, -2], "args": {"n": 1, "use_stemming": true, "common_words_gazetteer_name": "top"}},
                    {"factory_name": "shape_ngram", "offsets": [1], "args": {"n": 2}},
                    {"factory_name": "prefix", "offsets": [0], "args": {"prefix_size": 1}},
                    {"factory_name": "suffix", "offsets": [0], "args": {"suffix_size": 2}},
                    {"factory_name": "entity_match", "offsets": [0], "args": {"entities": ["e"], "tagging_scheme_code": 2, "use_stemming": true}},
                    {"factory_name": "builtin_entity_match", "offsets": [0], "args": {"entity_labels": ["snips/number"], "tagging_scheme_code": 1}},
                    {"factory_name": "word_cluster", "offsets": [0], "args": {"cluster_name": "k"}},
                    {"factory_name": "is_first", "offsets": [0], "args": {}}
                ]}
            }),
            "proba/intent_classifier/f/c/vectorizer.json" => json!({
                "language_code": "en", "builtin_entity_scope": ["snips/number"],
                "word_pairs": {"0": ["E", "c"], "1": ["SNIPSNUMBER", "c"]},
                "config": {"window_size": 2, "filter_stop_words": true, "keep_order": true, "unknown_words_replacement_string": "u"}
            }),
            "proba/intent_classifier/f/t/vectorizer.json" => json!({
                "language_code": "en", "builtin_entity_scope": ["snips/number"],
                "vectorizer": {"idf_diag": [1.0, 2.0], "vocab": {"b": 0, "builtinentityfeaturesnipsnumber": 1}},
                "config": {"use_stemming": true, "word_clusters_name": "k"}
            }),
            "proba/intent_classifier/intent_classifier.json" => json!({
                "featurizer": "f", "intercept": [1.5, -1.5, 0.5], "coeffs": [[1.0, 0.0, 0.5, 0.25], [0.5, 1, 0, 0], [0, 0, 1, 1]],
                "intent_list": ["A", null, "B"]
            }),
            "det/intent_parser.json" => json!({
                "language_code": "en",
                "patterns": {"A": ["^\\s*hey\\s*$"], "B": ["^\\s*(?P<group0>%SNIPSNUMBER%)\\s*c\\s*$", "^\\s*(?P<group1>%E%)\\s*c\\s*$"]},
                "group_names_to_slot_names": {"group0": "n", "group1": "s"},
                "slot_names_to_entities": {"A": {}, "B": {"n": "snips/number", "s": "e"}},
                "stop_words_whitelist": {"B": ["the"]}, "config": {"ignore_stop_words": true}
            }),
            "lookup/intent_parser.json" => {
                let h = |t: &str| snips_nlu_utils::string::hash_str_to_i32(t).to_string();
                let mut map = serde_json::Map::new();
                map.insert(h("hey"), json!([0, []]));
                map.insert(h("% snipsnumber % c"), json!([0, [0]]));
                map.insert(h("% e % c"), json!([1, [1]]));
                json!({
                    "language_code": "en", "slots_names": ["n", "s"], "intents_names": ["A", "B"], "map": map,
                    "entity_scopes": [{"intent_group": ["A", "B"], "entity_scope": {"builtin": ["snips/number"], "custom": ["e"]}}],
                    "stop_words_whitelist": {"A": ["the"]}, "config": {"ignore_stop_words": true}
                })
            }
            _ => serde_json::from_str(&content).unwrap(),
        };
        v.push((path, value));
    }
    v
}

/// the values within a value, in order
fn nodes(v: &Value, prefix: &str, out: &mut Vec<String>) {
    out.push(prefix.to_string());
    match v {
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| nodes(x, &format!("{}/{}", prefix, i), out)),
        Value::Object(o) => o.iter().for_each(|(k, x)| nodes(x, &format!("{}/{}", prefix, k.replace('~', "~0").replace('/', "~1")), out)),
        _ => (),
    }
}

const NUMBERS: [&str; 14] = [
    "0", "1", "2", "3", "255", "4294967295", "9223372036854775807", "18446744073709551615", "-1", "-2147483648", "2147483647",
    "1e30", "-3e38", "1e300",
];

fn change(v: &mut Value) {
    match v {
        Value::Number(_) => *v = serde_json::from_str(*pick("number", &NUMBERS)).unwrap(),
        Value::String(_) => *v = Value::String(pick("string", &["", "zz", "snips/number", "e", "B", "é (", "(?P<group0>%)E%", "%(?P<group1>E% c)", "(?P<zz>b)"]).to_string()),
        Value::Bool(b) => *b = !*b,
        Value::Array(a) => match choose("array", 3) {
            0 => a.clear(),
            1 => drop(a.pop()),
            _ => {
                if let Some(x) = a.last().cloned() {
                    a.push(x)
                }
            }
        },
        Value::Object(o) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            match choose("object", 3) {
                0 => o.clear(),
                1 => {
                    if let Some(k) = keys.last() {
                        o.remove(k);
                    }
                }
                _ => {
                    if let Some(k) = keys.first() {
                        let x = o.remove(k).unwrap();
                        o.insert(pick("key", &["", "zz", "7", "-1", "18446744073709551615"]).to_string(), x);
                    }
                }
            }
        }
        Value::Null => *v = json!("zz"),
    }
}

fn entities() {
    pe::script_builtin(Arc::new(|text: &str, _: Option<&[BuiltinEntityKind]>, _: usize| {
        Ok(text
            .chars()
            .position(|c| c == '1')
            .map(|i| BuiltinEntity {
                value: "1".to_string(),
                range: i..i + 1,
                entity: number(1.),
                alternatives: vec![],
                entity_kind: BuiltinEntityKind::Number,
            })
            .into_iter()
            .collect())
    }));
    pe::script_custom(Arc::new(|text: &str, _: Option<&[String]>, _: usize| {
        Ok(text
            .chars()
            .position(|c| c == 'b')
            .map(|i| GazetteerEntityMatch {
                value: "b".to_string(),
                resolved_value: "b".to_string(),
                alternative_resolved_values: vec![],
                range: i..i + 1,
                entity_identifier: "e".to_string(),
            })
            .into_iter()
            .collect())
    }));
}

/// C26: whatever the model says, a request ends with an answer or an error
pub fn c26_requests() {
    expect(&["refused", "answer", "error", "intent", "slots"]);
    choose_map_order();
    let parser = ["det", "lookup", "proba"][choose("parser", 3)];
    let mut all = files(parser);
    all.retain(|f| f.0.starts_with(parser) || f.0 == "nlu_engine.json");
    let others: Vec<(String, String)> = engine_files(crate::lib::MODEL_VERSION, "");
    write_engine(&others);
    entities();
    let k = choose("file", all.len());
    let mut paths = vec![];
    nodes(&all[k].1, "", &mut paths);
    let at = paths[choose("node", paths.len())].clone();
    change(all[k].1.pointer_mut(&at).unwrap());
    for (path, value) in &all {
        put(&format!("engine/{}", path), &value.to_string());
    }
    let tags: [&[&str]; 2] = [&["B-s", "I-n", "L-n", "U-zz", "x"], &["", "-", "B", "B-", "é-s"]];
    let tags: Vec<String> = tags[if parser == "proba" { choose("tags", 2) } else { 0 }].iter().map(|t| base64::encode(t)).collect();
    let given = tags.clone();
    crfsuite::env::script_tag(Arc::new(move |n: usize| (0..n).map(|i| given[i % given.len()].clone()).collect()));
    crfsuite::env::script_labels(tags, 0.5);
    let engine = match SnipsNluEngine::from_path(root().join("engine")) {
        Ok(e) => e,
        Err(_) => {
            cover("refused");
            check(true, "a model is loaded or refused");
            return;
        }
    };
    let filter = choose("filter", 2) == 1;
    for text in ["b 1 the c", "1 c", "b c", "hey", ""].iter() {
        match engine.parse(*text, if filter { Some(vec!["A"]) } else { None }, None) {
            Ok(r) => {
                cover("answer");
                cover_if(r.intent.intent_name.is_some(), "intent");
                cover_if(!r.slots.is_empty(), "slots");
                check(r.intent.confidence_score >= 0. && r.intent.confidence_score <= 1., "a confidence is in [0, 1]");
            }
            Err(_) => cover("error"),
        }
        drop(engine.get_intents(*text));
        for intent in ["A", "B"].iter() {
            drop(engine.get_slots(*text, *intent));
            for slot in ["s", "n"].iter() {
                drop(engine.extract_slot(text.to_string(), intent, slot));
            }
        }
    }
    check(true, "a request to a loaded model ends with an answer or an error");
}
