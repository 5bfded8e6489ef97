//! Whole engines, loaded from their files.
use crate::env::*;
use crate::lib::injection::NluInjector;
use crate::lib::{SnipsNluEngine, MODEL_VERSION};
use crate::model::*;
use crate::rt::*;
use snips_nlu_ontology::*;
use snips_nlu_parsers::gazetteer_entity_parser::{EntityValue, Parser};
use snips_nlu_parsers::{env as pe, GazetteerEntityMatch};
use snips_nlu_utils::language::Language as L;
use std::collections::HashMap;
use std::sync::Arc;

const DET: &str = r#"{"language_code":"en",
 "patterns":{"A":["^\\s*hey\\s*$","^\\s*(?P<group0>%E%)\\s*c\\s*$"],"B":["^\\s*(?P<group1>%SNIPSNUMBER%)\\s*(?P<group2>%E%)\\s*$","^\\s*(?P<group3>%E%)\\s*(?P<group3_2>%E%)\\s*$"]},
 "group_names_to_slot_names":{"group0":"s","group1":"n","group2":"s","group3":"t"},
 "slot_names_to_entities":{"A":{"s":"e"},"B":{"n":"snips/number","s":"e","t":"e"}},
 "stop_words_whitelist":{},"config":{"ignore_stop_words":true}}"#;

const FILLERS: &str = r#"{"slot_fillers":[{"intent":"A","slot_filler_name":"filler"},{"intent":"B","slot_filler_name":"filler2"}]}"#;

fn filler(intent: &str, mapping: &str) -> String {
    format!(
        "{{\"language_code\":\"en\",\"intent\":\"{}\",\"slot_name_mapping\":{},\"crf_model_file\":\"model.crfsuite\",\"config\":{{\"tagging_scheme\":1,\"feature_factory_configs\":[{{\"factory_name\":\"ngram\",\"offsets\":[0],\"args\":{{\"n\":1,\"use_stemming\":true,\"common_words_gazetteer_name\":\"top\"}}}}]}}}}",
        intent, mapping
    )
}

/// an engine whose parsers all know its intents A (slot s) and B (slots n, s and t)
fn files(parsers: &str, extensible: bool) -> Vec<(String, String)> {
    let h = |t: &str| snips_nlu_utils::string::hash_str_to_i32(t);
    let mut v = engine_files(MODEL_VERSION, parsers);
    for (path, content) in v.iter_mut() {
        match path.as_str() {
            "nlu_engine.json" => {
                *content = content.replace("\"B\":{}", "\"B\":{\"n\":\"snips/number\",\"s\":\"e\",\"t\":\"e\"}");
                if !extensible {
                    *content = content.replace("\"automatically_extensible\":true", "\"automatically_extensible\":false");
                }
            }
            "det/intent_parser.json" => *content = DET.to_string(),
            "lookup/intent_parser.json" => {
                *content = format!(
                    "{{\"language_code\":\"en\",\"slots_names\":[\"n\",\"s\",\"t\"],\"intents_names\":[\"A\",\"B\"],\"map\":{{\"{}\":[1,[]],\"{}\":[0,[1]],\"{}\":[1,[2,1]]}},\"entity_scopes\":[{{\"intent_group\":[\"A\",\"B\"],\"entity_scope\":{{\"builtin\":[\"snips/number\"],\"custom\":[\"e\"]}}}}],\"stop_words_whitelist\":{{}},\"config\":{{\"ignore_stop_words\":true}}}}",
                    h("hey"),
                    h("% e % c"),
                    h("% e % % e %")
                )
            }
            "proba/intent_parser.json" => *content = FILLERS.to_string(),
            "proba/filler/slot_filler.json" => *content = filler("A", "{\"s\":\"e\"}"),
            _ => (),
        }
    }
    v.push(("proba/filler2/metadata.json".to_string(), "{\"unit_name\":\"crf_slot_filler\"}".to_string()));
    v.push(("proba/filler2/slot_filler.json".to_string(), filler("B", "{\"s\":\"e\",\"n\":\"snips/number\",\"t\":\"e\"}")));
    v.push(("proba/filler2/model.crfsuite".to_string(), "x".to_string()));
    v
}

/// every b is a value of e (every z too), every 7 a number
fn entities() {
    pe::script_custom(Arc::new(|t: &str, scope: Option<&[String]>, k: usize| {
        let all = scope.map_or(true, |s| s.iter().any(|n| n == "e"));
        Ok(t.chars()
            .enumerate()
            .filter(|(_, c)| all & ((*c == 'b') | (*c == 'z')))
            .map(|(i, _)| GazetteerEntityMatch {
                value: "b".to_string(),
                resolved_value: format!("{} in {}", i, t),
                alternative_resolved_values: (0..k.min(2)).map(|a| format!("{} {}", t, a)).collect(),
                range: i..i + 1,
                entity_identifier: "e".to_string(),
            })
            .collect())
    }));
    pe::script_builtin(Arc::new(|t: &str, scope: Option<&[BuiltinEntityKind]>, k: usize| {
        let all = scope.map_or(true, |s| s.contains(&BuiltinEntityKind::Number));
        Ok(t.chars()
            .enumerate()
            .filter(|(_, c)| all & (*c == '7'))
            .map(|(i, _)| BuiltinEntity {
                value: "7".to_string(),
                range: i..i + 1,
                entity: number(i as f64),
                alternatives: (0..k.min(2)).map(|a| number(a as f64)).collect(),
                entity_kind: BuiltinEntityKind::Number,
            })
            .collect())
    }));
}

fn check_slots(text: &str, intent: &str, slots: &[Slot], alternatives: usize) {
    let n = text.chars().count();
    let mut end = 0;
    for s in slots {
        check(s.range.start < s.range.end && s.range.end <= n, "a slot's range is a non-empty range of the text");
        check(s.raw_value == text.chars().skip(s.range.start).take(s.range.end - s.range.start).collect::<String>(), "a slot's raw value is the text at its range");
        check(end <= s.range.start, "slots come in text order and do not overlap");
        end = s.range.end;
        let entity = match (intent, s.slot_name.as_str()) {
            ("A", "s") | ("B", "s") | ("B", "t") => Some("e"),
            ("B", "n") => Some("snips/number"),
            _ => None,
        };
        check(entity == Some(s.entity.as_str()), "a slot is one of its intent, with the entity of that slot");
        check(s.alternatives.len() <= alternatives, "a slot has no more alternatives than asked for");
        check(
            match &s.value {
                SlotValue::Number(_) => s.entity == "snips/number",
                SlotValue::Custom(_) => s.entity == "e",
                _ => false,
            },
            "a slot's value is one of its entity",
        );
    }
}

/// C27: what an engine answers agrees with the text, with the request and with its other answers
pub fn c27_agreement() {
    expect(&["intent", "no intent", "slots", "alternative with slots", "empty intent as alternative", "filtered"]);
    let order = *pick("parsers", &["\"det\",\"lookup\",\"proba\"", "\"proba\",\"lookup\",\"det\"", "\"lookup\",\"det\"", "\"proba\""]);
    let tags = choose("tagger", 3);
    let text = match choose("text", 2) {
        0 => any_text("text", bound(2, 3), &[('b', 'c'), (' ', ' '), ('7', '7'), ('B', 'B'), ('é', 'é')]),
        _ => pick("text", &["Hey", "the hey", "İb c", "the B, b", "", " , "]).to_string(),
    };
    let filters: [(Option<Vec<&str>>, Option<Vec<&str>>); 4] =
        [(None, None), (Some(vec!["A"]), None), (None, Some(vec!["A"])), (Some(vec!["B", "A", "B"]), Some(vec!["A"]))];
    // filter, alternatives, alternative values
    let requests = [(0, 3, 1), (1, 1, 0), (2, 3, 0), (3, 0, 1), (0, 1, 0), (2, 1, 1), (1, 3, 1), (3, 3, 0)];
    let (f, k, m) = requests[choose("request", bound(4, 8))];
    let (whitelist, blacklist) = filters[f].clone();
    let extensible = m == 0;
    write_engine(&files(order, extensible));
    crfsuite::env::reset();
    crfsuite::env::script_tag(Arc::new(move |n: usize| {
        (0..n).map(|i| base64::encode(if tags == 1 && i == 0 { "B-s" } else if tags == 2 && i + 1 == n { "I-s" } else { "O" })).collect()
    }));
    entities();
    let engine = SnipsNluEngine::from_path(root().join("engine")).expect("engine");
    let res = engine.parse_with_alternatives(&text, whitelist.clone(), blacklist.clone(), k, m).expect("answer");
    let allowed = |name: &str| match f {
        0 => true,
        1 => name == "A",
        _ => name == "B",
    };
    // the answer
    check(res.input == text, "the input comes back as typed");
    let scored = |i: &IntentClassifierResult| i.confidence_score >= 0. && i.confidence_score <= 1.;
    check(scored(&res.intent), "a confidence is in [0, 1]");
    match res.intent.intent_name.as_ref() {
        Some(name) => {
            cover("intent");
            check(name == "A" || name == "B", "an intent is one of the model");
            check(allowed(name), "an intent is one the filter allows");
            cover_if(f > 0, "filtered");
            check_slots(&text, name, &res.slots, m);
            cover_if(!res.slots.is_empty(), "slots");
        }
        None => {
            cover("no intent");
            check(res.slots.is_empty(), "there are no slots without an intent");
        }
    }
    // and the list of intents
    let all = engine.get_intents(&text).expect("intents");
    check(all.len() == 3, "the list has every intent and the empty one");
    let mut scores: HashMap<Option<String>, f32> = HashMap::new();
    for i in all.iter() {
        check(scored(i), "a confidence is in [0, 1]");
        scores.insert(i.intent_name.clone(), i.confidence_score);
    }
    check(scores.len() == 3, "the list has each intent once");
    for name in [None, Some("A"), Some("B")].iter() {
        check(scores.contains_key(&name.map(|n| n.to_string())), "the list has every intent and the empty one");
    }
    for w in all.windows(2) {
        check(w[0].confidence_score >= w[1].confidence_score, "the list is in order of confidence");
    }
    // and the alternatives
    let left: Vec<f32> = all
        .iter()
        .filter(|i| i.intent_name.as_ref().map_or(true, |n| allowed(n)) && i.intent_name != res.intent.intent_name)
        .map(|i| i.confidence_score)
        .collect();
    check(res.alternatives.len() == k.min(left.len()), "there are as many alternatives as asked for, if there are");
    for (i, a) in res.alternatives.iter().enumerate() {
        check(a.intent.intent_name != res.intent.intent_name, "an alternative is another intent");
        check(scores.get(&a.intent.intent_name) == Some(&a.intent.confidence_score), "an alternative has the confidence of the list");
        check(a.intent.confidence_score == left[i], "alternatives are the best of the list");
        check(res.alternatives[..i].iter().all(|b| b.intent.intent_name != a.intent.intent_name), "an alternative comes once");
        match a.intent.intent_name.as_ref() {
            Some(name) => {
                check(allowed(name), "an alternative is one the filter allows");
                check_slots(&text, name, &a.slots, m);
                cover_if(!a.slots.is_empty(), "alternative with slots");
                let slots = engine.get_slots_with_alternatives(&text, name, m).expect("slots");
                check(slots == a.slots, "an alternative has the slots its intent has");
            }
            None => {
                cover("empty intent as alternative");
                check(a.slots.is_empty(), "there are no slots without an intent");
            }
        }
    }
    // and the answer without alternatives
    let plain = engine.parse(&text, whitelist, blacklist).expect("answer");
    check(plain.alternatives.is_empty(), "there are no alternatives if none is asked for");
    check(plain.intent == res.intent && plain.slots.len() == res.slots.len(), "alternatives do not change the intent");
    for (a, b) in plain.slots.iter().zip(res.slots.iter()) {
        check(
            a.slot_name == b.slot_name && a.range == b.range && a.raw_value == b.raw_value && a.entity == b.entity && a.value == b.value,
            "alternatives do not change the slots",
        );
    }
}

const LANGUAGES: [(&str, L); 9] = [
    ("de", L::DE),
    ("en", L::EN),
    ("es", L::ES),
    ("fr", L::FR),
    ("it", L::IT),
    ("ja", L::JA),
    ("ko", L::KO),
    ("pt_pt", L::PT_PT),
    ("pt_br", L::PT_BR),
];

/// C28: an engine of each language
pub fn c28_languages() {
    expect(&["deterministic", "lookup", "probabilistic", "injection", "slot filler"]);
    let (code, language) = *pick("language", &LANGUAGES);
    let parser = choose("parser", 3);
    let order = ["\"det\"", "\"lookup\"", "\"proba\""][parser];
    pe::reset();
    write_resources("engine", &FULL);
    for file in RESOURCE_FILES.iter() {
        // the resources are in the folder of their language, and nowhere else
        let content = std::fs::read_to_string(root().join("engine").join(file)).expect("resource");
        std::fs::remove_file(root().join("engine").join(file)).expect("resource");
        put(&format!("engine/{}", file.replace("/en/", &format!("/{}/", code))), &content.replace("\"en\"", &format!("\"{}\"", code)));
    }
    for (path, content) in files(order, true) {
        put(&format!("engine/{}", path), &content.replace("\"language_code\":\"en\"", &format!("\"language_code\":\"{}\"", code)));
    }
    crfsuite::env::reset();
    crfsuite::env::script_tag(Arc::new(move |n: usize| (0..n).map(|i| base64::encode(if i == 0 { "B-s" } else { "O" })).collect()));
    entities();
    let engine = SnipsNluEngine::from_path(root().join("engine"));
    check(engine.is_ok(), "an engine of each language can be loaded");
    let engine = engine.unwrap();
    let mut last = |c: usize| -> String { ["z c", "zb", "the zz c"][c].to_string() };
    let text = last(choose("text", 3));
    let request = choose("request", 3);
    snips_nlu_utils::env::record();
    match request {
        0 => {
            let res = engine.parse_with_alternatives(&text, None, None, 2, 1).expect("answer");
            cover_if(parser == 0 && res.intent.intent_name.is_some(), "deterministic");
            cover_if(parser == 1 && res.intent.intent_name.is_some(), "lookup");
            cover_if(parser == 2 && res.intent.intent_name.is_some(), "probabilistic");
        }
        1 => {
            let slots = engine.get_slots(&text, "A").expect("slots");
            cover_if(parser == 2 && !slots.is_empty(), "slot filler");
        }
        _ => {
            // stems of injected values
            put("engine/custom_entity_parser/metadata.json", &format!("{{\"language\":\"{}\",\"parser_directory\":\"parser\",\"parser_usage\":2}}", code));
            put("engine/custom_entity_parser/parser/metadata.json", "{\"parsers_metadata\":[{\"entity_identifier\":\"e\",\"entity_parser\":\"p\"}]}");
            put("engine/builtin_entity_parser/metadata.json", &format!("{{\"language\":\"{}\",\"gazetteer_parser\":null}}", code));
            let folder = root().join("engine/custom_entity_parser/parser/p");
            Parser { injected: vec![], vanilla: vec![] }.dump(&folder).expect("dump");
            let done = NluInjector::new(root().join("engine")).add_value("e".to_string(), text.clone()).inject();
            check(done.is_ok(), "values can be injected in each language");
            cover("injection");
            let value = |raw: &str| EntityValue { raw_value: raw.to_string(), resolved_value: text.clone() };
            check(Parser::from_folder(&folder).unwrap().injected[0] == value(&text), "values can be injected in each language");
        }
    }
    let seen: Vec<(String, L)> = snips_nlu_utils::env::recorded().into_iter().filter(|(t, _)| t.contains('z')).collect();
    check(!seen.is_empty(), "texts are cut into tokens");
    for (_, l) in seen.iter() {
        check(*l == language, "texts are cut into tokens in the language of the model");
    }
}

/// C29: the same engine, loaded twice with hash maps in different orders
pub fn c29_order() {
    expect(&["intent", "slots", "tied intents", "alternative with slots", "filtered"]);
    let order = *pick("parsers", &["\"det\",\"lookup\",\"proba\"", "\"proba\",\"det\"", "\"lookup\",\"det\"", "\"proba\""]);
    let tags = choose("tagger", 2);
    let text = match choose("text", 2) {
        0 => any_text("text", bound(2, 3), &[('b', 'c'), (' ', ' '), ('7', '7'), ('B', 'B')]),
        _ => pick("text", &["hey", "the hey", "b, b", "b c", "7 b"]).to_string(),
    };
    let tie = choose_bool("tie");
    let mut model = files(order, true);
    for (path, content) in model.iter_mut() {
        if tie && path == "det/intent_parser.json" {
            // both intents have the pattern
            *content = content.replace("\"B\":[", "\"B\":[\"^\\\\s*hey\\\\s*$\",");
        }
    }
    write_engine(&model);
    crfsuite::env::reset();
    crfsuite::env::script_tag(Arc::new(move |n: usize| {
        (0..n).map(|i| base64::encode(if tags == 1 && i == 0 { "B-s" } else { "O" })).collect()
    }));
    entities();
    let other = 1 + choose("order", 3) as u64;
    map_order(0);
    let first = SnipsNluEngine::from_path(root().join("engine")).expect("engine");
    map_order(other);
    let second = SnipsNluEngine::from_path(root().join("engine")).expect("engine");
    let engines = [&first, &second];
    let near = |a: &IntentClassifierResult, b: &IntentClassifierResult| (a.confidence_score - b.confidence_score).abs() < 1e-5;
    let (whitelist, blacklist): (Option<Vec<&str>>, Option<Vec<&str>>) =
        [(None, None), (Some(vec!["B", "A"]), None), (None, Some(vec!["A"]))][choose("filter", bound(2, 3))].clone();
    cover_if(whitelist.is_some(), "filtered");
    let answers: Vec<IntentParserResult> = engines
        .iter()
        .enumerate()
        .map(|(i, e)| {
            // what is made during a request is ordered as well
            map_order(other * i as u64);
            e.parse_with_alternatives(&text, whitelist.clone(), blacklist.clone(), 5, 1).expect("answer")
        })
        .collect();
    let (a, b) = (&answers[0], &answers[1]);
    check(a.intent.intent_name == b.intent.intent_name && near(&a.intent, &b.intent), "the intent is the same in any order");
    check(a.slots == b.slots, "the slots are the same in any order");
    cover_if(a.intent.intent_name.is_some(), "intent");
    cover_if(!a.slots.is_empty(), "slots");
    check(a.alternatives.len() == b.alternatives.len(), "the alternatives are the same in any order");
    for (x, y) in a.alternatives.iter().zip(b.alternatives.iter()) {
        check(near(&x.intent, &y.intent), "the confidences of alternatives are the same in any order");
        let same = b.alternatives.iter().find(|z| z.intent.intent_name == x.intent.intent_name);
        check(same.is_some(), "the alternatives are the same in any order");
        let same = same.unwrap();
        check(same.slots == x.slots && near(&same.intent, &x.intent), "an alternative is the same in any order");
        cover_if(!x.slots.is_empty(), "alternative with slots");
    }
    let lists: Vec<Vec<IntentClassifierResult>> = engines
        .iter()
        .enumerate()
        .map(|(i, e)| {
            map_order(other * i as u64);
            e.get_intents(&text).expect("intents")
        })
        .collect();
    check(lists[0].len() == lists[1].len(), "the intents are the same in any order");
    for (x, y) in lists[0].iter().zip(lists[1].iter()) {
        check(near(x, y), "the confidences of intents are the same in any order");
        cover_if(x.intent_name != y.intent_name, "tied intents");
        check(lists[1].iter().any(|z| z.intent_name == x.intent_name && near(x, z)), "an intent is the same in any order");
    }
    for intent in ["A", "B"].iter() {
        check(first.get_slots(&text, intent).expect("slots") == second.get_slots(&text, intent).expect("slots"), "the slots of an intent are the same in any order");
    }
    check(
        first.extract_slot(text.clone(), "B", "t").expect("slot") == second.extract_slot(text.clone(), "B", "t").expect("slot"),
        "a slot asked for is the same in any order",
    );
}
